// a runner and the configuration it is in
pub open spec fn conf(t: TimedAutomatonRunner) -> Conf { if dead(t) { Conf::Dead } else { Conf::At(t.state, t.clockValuation) } }
pub proof fn lem_run_same(t: TimedAutomatonRunner, h: Map<int, TAState>, g: Map<int, TAState>)
  requires run_ok(t, h), same_ta(h, g), ensures run_ok(t, g),
{
  lem_same_ta(h, g, own(t.automaton), t.automaton.maxConstraints.len() as int);
}
pub proof fn lem_conf_in(t: TimedAutomatonRunner, h: Map<int, TAState>)
  requires run_ok(t, h), ensures c_in(conf(t), own(t.automaton)),
{ }
// the runner started, in the initial configuration
pub proof fn lem_conf0(t: TimedAutomatonRunner, h: Map<int, TAState>)
  requires run_ok(t, h), !t.isEmpty ==> at_start(t), t.isEmpty == (t.automaton.base.states.len() == 0),
  ensures conf(t) == conf0(t.automaton),
{
  if !t.isEmpty { assert(t.clockValuation =~= zeros(t.automaton.maxConstraints.len() as int)); }
}
pub open spec fn run_acc(t: TimedAutomatonRunner, heap: Map<int, TAState>) -> bool { !dead(t) && heap[t.state].isMatch }
pub proof fn lem_acc(t: TimedAutomatonRunner, heap: Map<int, TAState>)
  ensures run_acc(t, heap) == c_acc(heap, conf(t)),
{ }
// an event of a deterministic automaton
pub proof fn lem_conf_event(h: Map<int, TAState>, t: TimedAutomatonRunner, a: int, u: TimedAutomatonRunner, r: bool)
  requires run_ok(t, h), det(h, own(t.automaton)), same_aut(t, u),
    dead(t) ==> dead(u),
    !dead(t) && stuck(h[t.state], a, t.clockValuation) ==> dead(u),
    !dead(t) && !stuck(h[t.state], a, t.clockValuation) ==> exists|k: int| #[trigger] took(h, t, a, k, u, r),
  ensures conf(u) == c_event(h, conf(t), a),
{
  let S = own(t.automaton); let n = t.automaton.maxConstraints.len() as int;
  if !dead(t) {
    let s = t.state; let v = t.clockValuation;
    if !stuck(h[s], a, v) {
      let k = choose|k: int| took(h, t, a, k, u, r);
      assert(took(h, t, a, k, u, r));
      assert(en_at(h[s], a, v, k));
      let m = choose|k: int| en_at(h[s], a, v, k);
      assert(en_at(h[s], a, v, m)); assert(S.contains(s)); assert(det_state(h[s])); assert(m == k);
      assert(tr_ok(S, trans_of(h[s], a)[k], n));
    }
  }
}
// the heap changed, the automaton did not
pub proof fn lem_heap(h: Map<int, TAState>, g: Map<int, TAState>, aut: TimedAutomaton)
  requires same_ta(h, g), aut_ok(h, aut), det(h, own(aut)),
  ensures aut_ok(g, aut), det(g, own(aut)),
    forall|c: Conf, a: int| #![trigger c_event(g, c, a)] #![trigger c_event(h, c, a)] c_in(c, own(aut)) ==> c_event(h, c, a) == c_event(g, c, a) && c_in(c_event(h, c, a), own(aut)),
    forall|c: Conf| #![trigger c_acc(g, c)] #![trigger c_acc(h, c)] c_in(c, own(aut)) ==> c_acc(h, c) == c_acc(g, c),
{
  let S = own(aut); let n = aut.maxConstraints.len() as int;
  lem_same_ta(h, g, S, n);
  assert forall|p: int| #[trigger] S.contains(p) implies det_state(g[p]) by {
    assert(h.dom().contains(p)); let z = h[p];
    assert(det_state(h[p]));
    assert forall|a: int, v: Seq<D>, i: int, j: int| #[trigger] en_at(g[p], a, v, i) && #[trigger] en_at(g[p], a, v, j) implies i == j by {
      assert(trans_of(h[p], a) =~= trans_of(g[p], a)); lem_en_same(h[p], g[p], a); assert(en_at(h[p], a, v, i)); assert(en_at(h[p], a, v, j));
    }
  }
  assert forall|c: Conf, a: int| c_in(c, S) implies #[trigger] c_event(h, c, a) == c_event(g, c, a) && c_in(c_event(h, c, a), S) by { lem_c_event(h, g, S, n, c, a); }
  assert forall|c: Conf| c_in(c, S) implies #[trigger] c_acc(h, c) == c_acc(g, c) by { lem_c_event(h, g, S, n, c, 0); }
}
