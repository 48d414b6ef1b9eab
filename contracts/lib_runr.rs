// the runner: representation invariant, one event
pub open spec fn run_ok(t: TimedAutomatonRunner, heap: Map<int, TAState>) -> bool {
  &&& ta_ok(heap, own(t.automaton), t.automaton.maxConstraints.len() as int)
  &&& no_silent_trans(heap, own(t.automaton))
  &&& (!t.isEmpty ==> {
    &&& t.automaton.base.initialStates.len() == 1
    &&& own(t.automaton).contains(t.automaton.base.initialStates[0])
    &&& (t.state == 0 || own(t.automaton).contains(t.state))
    &&& t.clockValuation.len() == t.automaton.maxConstraints.len()
    &&& fin_vals(t.clockValuation)
  })
}
pub open spec fn same_aut(t: TimedAutomatonRunner, u: TimedAutomatonRunner) -> bool { t.automaton == u.automaton && t.isEmpty == u.isEmpty }
pub open spec fn at_start(t: TimedAutomatonRunner) -> bool {
  t.state == t.automaton.base.initialStates[0] && forall|i: int| 0 <= i < t.clockValuation.len() ==> #[trigger] t.clockValuation[i] == D::Fin(0real)
}
// the run is over: nothing is accepted any more
pub open spec fn dead(t: TimedAutomatonRunner) -> bool { t.isEmpty || t.state == 0 }
pub open spec fn took(heap: Map<int, TAState>, t: TimedAutomatonRunner, a: int, k: int, u: TimedAutomatonRunner, r: bool) -> bool {
  let tr = trans_of(heap[t.state], a)[k];
  en_at(heap[t.state], a, t.clockValuation, k) && u.state == tr.target && u.clockValuation =~= ru_all(tr.resetVars, t.clockValuation) && r == heap[tr.target].isMatch
}
pub proof fn lem_took(h0: Map<int, TAState>, h: Map<int, TAState>, t: TimedAutomatonRunner, a: int, k: int, u: TimedAutomatonRunner, r: bool)
  requires run_ok(t, h0), same_ta(h0, h), !dead(t), en_at(h0[t.state], a, t.clockValuation, k), u == (TimedAutomatonRunner { state: trans_of(h0[t.state], a)[k].target, clockValuation: ru_all(trans_of(h0[t.state], a)[k].resetVars, t.clockValuation), ..t }),
    r == h[u.state].isMatch,
  ensures run_ok(u, h), took(h0, t, a, k, u, r),
{
  let n = t.automaton.maxConstraints.len() as int;
  lem_same_ta(h0, h, own(t.automaton), n);
  let tr = trans_of(h0[t.state], a)[k];
  assert(h0.dom().contains(t.state)); assert(tr_ok(own(t.automaton), tr, n));
  assert forall|i: int| 0 <= i < u.clockValuation.len() implies (#[trigger] u.clockValuation[i]) is Fin by { lem_ru_fin(tr.resetVars, tr.resetVars.len() as int, t.clockValuation, i); }
}
