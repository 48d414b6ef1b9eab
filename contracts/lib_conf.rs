// configurations of a timed automaton, the word a run reads, and acceptance
pub enum Conf { Dead, At(int, Seq<D>) }
pub open spec fn zeros(n: int) -> Seq<D> { Seq::new(n as nat, |i: int| D::Fin(0real)) }
pub open spec fn conf0(aut: TimedAutomaton) -> Conf { if aut.base.states.len() == 0 { Conf::Dead } else { Conf::At(aut.base.initialStates[0], zeros(aut.maxConstraints.len() as int)) } }
pub open spec fn c_delay(c: Conf, d: D) -> Conf { match c { Conf::Dead => Conf::Dead, Conf::At(s, v) => Conf::At(s, ru_delayed(v, d)) } }
pub open spec fn c_event(heap: Map<int, TAState>, c: Conf, a: int) -> Conf {
  match c {
    Conf::Dead => Conf::Dead,
    Conf::At(s, v) => if stuck(heap[s], a, v) { Conf::Dead } else { let tr = trans_of(heap[s], a)[choose|k: int| en_at(heap[s], a, v, k)]; Conf::At(tr.target, ru_all(tr.resetVars, v)) },
  }
}
pub open spec fn c_acc(heap: Map<int, TAState>, c: Conf) -> bool { match c { Conf::Dead => false, Conf::At(s, v) => heap[s].isMatch } }
// the configuration after the first i delays and events of a timed word
pub open spec fn c_upto(heap: Map<int, TAState>, aut: TimedAutomaton, w: Seq<int>, d: Seq<D>, i: int) -> Conf decreases i {
  if i <= 0 { conf0(aut) } else { c_event(heap, c_delay(c_upto(heap, aut, w, d, i - 1), d[i - 1]), w[i - 1]) }
}
pub open spec fn accepts(heap: Map<int, TAState>, aut: TimedAutomaton, tw: TimedWord) -> bool {
  c_acc(heap, c_delay(c_upto(heap, aut, tw.word, tw.durations, tw.word.len() as int), tw.durations[tw.word.len() as int]))
}
// deterministic: at most one transition is enabled
pub open spec fn det_state(s: TAState) -> bool {
  forall|a: int, v: Seq<D>, i: int, j: int| #[trigger] en_at(s, a, v, i) && #[trigger] en_at(s, a, v, j) ==> i == j
}
pub open spec fn det(heap: Map<int, TAState>, S: Set<int>) -> bool { forall|p: int| #[trigger] S.contains(p) ==> det_state(heap[p]) }
pub proof fn lem_en_same(s: TAState, t: TAState, a: int)
  requires trans_of(s, a) =~= trans_of(t, a),
  ensures forall|v: Seq<D>, k: int| #[trigger] en_at(s, a, v, k) <==> en_at(t, a, v, k),
    forall|v: Seq<D>| #[trigger] stuck(s, a, v) <==> stuck(t, a, v),
{
  assert(forall|v: Seq<D>, k: int| #[trigger] en_at(s, a, v, k) <==> en_at(t, a, v, k));
  assert forall|v: Seq<D>| #[trigger] stuck(s, a, v) <==> stuck(t, a, v) by {
    if stuck(s, a, v) { assert forall|k: int| !#[trigger] en_at(t, a, v, k) by { assert(!en_at(s, a, v, k)); } }
    if stuck(t, a, v) { assert forall|k: int| !#[trigger] en_at(s, a, v, k) by { assert(en_at(s, a, v, k) <==> en_at(t, a, v, k)); } }
  }
}
pub proof fn lem_same_trans(h: Map<int, TAState>, g: Map<int, TAState>, f: Map<int, TAState>)
  requires same_ta(h, g), same_ta(g, f), ensures same_ta(h, f),
{
  assert forall|p: int| #![trigger h[p]] #![trigger f[p]] h.dom().contains(p) implies h[p].isMatch == f[p].isMatch by { let z = g[p]; assert(h[p].isMatch == g[p].isMatch); assert(g.dom().contains(p)); }
  assert forall|p: int, a: int| #![trigger trans_of(h[p], a)] #![trigger trans_of(f[p], a)] h.dom().contains(p) implies trans_of(h[p], a) =~= trans_of(f[p], a) by {
    assert(trans_of(h[p], a) =~= trans_of(g[p], a)); assert(g.dom().contains(p)); assert(trans_of(g[p], a) =~= trans_of(f[p], a));
  }
}
pub open spec fn c_in(c: Conf, S: Set<int>) -> bool { match c { Conf::Dead => true, Conf::At(s, v) => S.contains(s) } }
pub proof fn lem_c_event(h: Map<int, TAState>, g: Map<int, TAState>, S: Set<int>, n: int, c: Conf, a: int)
  requires same_ta(h, g), ta_ok(h, S, n), det(h, S), c_in(c, S),
  ensures c_event(h, c, a) == c_event(g, c, a), c_in(c_event(h, c, a), S), c_acc(h, c) == c_acc(g, c),
{
  match c {
    Conf::Dead => {}
    Conf::At(s, v) => {
      assert(h.dom().contains(s)); assert(det_state(h[s])); let z = h[s]; assert(trans_of(h[s], a) =~= trans_of(g[s], a));
      lem_en_same(h[s], g[s], a);
      assert(stuck(h[s], a, v) <==> stuck(g[s], a, v));
      if !stuck(h[s], a, v) {
        let k = choose|k: int| en_at(h[s], a, v, k); let m = choose|k: int| en_at(g[s], a, v, k);
        let w = choose|k: int| en_at(h[s], a, v, k);
        assert(en_at(h[s], a, v, k));
        assert(exists|k: int| en_at(g[s], a, v, k)) by { assert(en_at(g[s], a, v, k)); }
        assert(en_at(g[s], a, v, m)); assert(en_at(h[s], a, v, m));
        assert(k == m);
        assert(tr_ok(S, trans_of(h[s], a)[k], n));
      }
    }
  }
}
pub proof fn lem_upto_in(h: Map<int, TAState>, aut: TimedAutomaton, w: Seq<int>, d: Seq<D>, i: int)
  requires aut_ok(h, aut), det(h, own(aut)), ensures c_in(c_upto(h, aut, w, d, i), own(aut)), decreases i,
{
  if i > 0 { lem_upto_in(h, aut, w, d, i - 1); lem_c_event(h, h, own(aut), aut.maxConstraints.len() as int, c_delay(c_upto(h, aut, w, d, i - 1), d[i - 1]), w[i - 1]); }
}
// a usable deterministic automaton without silent transitions
pub open spec fn aut_ok(heap: Map<int, TAState>, aut: TimedAutomaton) -> bool {
  &&& aut.base.states.len() > 0 ==> aut.base.initialStates.len() == 1 && own(aut).contains(aut.base.initialStates[0])
  &&& ta_ok(heap, own(aut), aut.maxConstraints.len() as int) && no_silent_trans(heap, own(aut))
}
pub proof fn lem_upto_prefix(h: Map<int, TAState>, aut: TimedAutomaton, w: Seq<int>, d: Seq<D>, w2: Seq<int>, d2: Seq<D>, i: int)
  requires forall|j: int| 0 <= j < i ==> w[j] == w2[j] && d[j] == d2[j],
  ensures c_upto(h, aut, w, d, i) == c_upto(h, aut, w2, d2, i), decreases i,
{
  if i > 0 { lem_upto_prefix(h, aut, w, d, w2, d2, i - 1); }
}
