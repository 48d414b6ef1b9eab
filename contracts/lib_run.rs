// timed automata: states live in a heap (pointer -> state); semantics of guards, updates and steps
pub open spec fn ga_holds(g: Seq<Constraint>, v: Seq<D>) -> bool { forall|i: int| 0 <= i < g.len() ==> con_holds(#[trigger] g[i], dv(v[g[i].x])) }
pub open spec fn ru_ok(u: Pair<int, VarDC>, n: int) -> bool {
  0 <= u.first < n && match u.second { VarDC::Dbl(d) => d is Fin, VarDC::Clk(c) => 0 <= c < n }
}
pub open spec fn rus_ok(rs: Seq<Pair<int, VarDC>>, n: int) -> bool { forall|i: int| 0 <= i < rs.len() ==> ru_ok(#[trigger] rs[i], n) }
pub open spec fn ru_src(u: VarDC, v: Seq<D>) -> D { match u { VarDC::Dbl(d) => d, VarDC::Clk(c) => v[c] } }
// value of clock x after the first k updates, all of them evaluated in the valuation v before the updates
pub open spec fn ru_val(rs: Seq<Pair<int, VarDC>>, k: int, v: Seq<D>, x: int) -> D decreases k {
  if k <= 0 { v[x] } else if rs[k - 1].first == x { ru_src(rs[k - 1].second, v) } else { ru_val(rs, k - 1, v, x) }
}
pub open spec fn ru_all(rs: Seq<Pair<int, VarDC>>, v: Seq<D>) -> Seq<D> { Seq::new(v.len(), |x: int| ru_val(rs, rs.len() as int, v, x)) }
pub proof fn lem_ru_fin(rs: Seq<Pair<int, VarDC>>, k: int, v: Seq<D>, x: int)
  requires rus_ok(rs, v.len() as int), 0 <= k <= rs.len(), 0 <= x < v.len(), fin_vals(v),
  ensures ru_val(rs, k, v, x) is Fin,
  decreases k,
{
  if k > 0 { assert(ru_ok(rs[k - 1], v.len() as int)); if rs[k - 1].first != x { lem_ru_fin(rs, k - 1, v, x); } }
}
pub open spec fn fin_vals(v: Seq<D>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Fin }
pub open spec fn trans_of(s: TAState, a: int) -> Seq<TATransition> { if s.next.dom().contains(a) { s.next[a] } else { Seq::empty() } }
pub open spec fn own(t: TimedAutomaton) -> Set<int> { t.base.states.to_set() }
pub open spec fn tr_ok(S: Set<int>, t: TATransition, n: int) -> bool {
  S.contains(t.target) && ga_clk(t.guard, n) && rus_ok(t.resetVars, n)
}
// the states S live in the heap, and their transitions stay in S and speak about n clocks
pub open spec fn ta_ok(heap: Map<int, TAState>, S: Set<int>, n: int) -> bool {
  &&& !S.contains(0)
  &&& forall|p: int| #[trigger] S.contains(p) ==> heap.dom().contains(p)
  &&& forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] S.contains(p) && 0 <= i < trans_of(heap[p], a).len() ==> tr_ok(S, trans_of(heap[p], a)[i], n)
}
// the two heaps describe the same automaton (a lookup may have inserted an empty list of transitions)
pub open spec fn same_ta(h: Map<int, TAState>, g: Map<int, TAState>) -> bool {
  &&& h.dom() =~= g.dom()
  &&& forall|p: int| #![trigger h[p]] #![trigger g[p]] h.dom().contains(p) ==> h[p].isMatch == g[p].isMatch
  &&& forall|p: int, a: int| #![trigger trans_of(h[p], a)] #![trigger trans_of(g[p], a)] h.dom().contains(p) ==> trans_of(h[p], a) =~= trans_of(g[p], a)
}
pub proof fn lem_same_ta(h: Map<int, TAState>, g: Map<int, TAState>, S: Set<int>, n: int)
  requires ta_ok(h, S, n), no_silent_trans(h, S), same_ta(h, g), ensures ta_ok(g, S, n), no_silent_trans(g, S),
{
  assert forall|p: int| #[trigger] S.contains(p) implies g.dom().contains(p) by { assert(h.dom().contains(p)); }
  assert forall|p: int, a: int, i: int| #![trigger trans_of(g[p], a)[i]] S.contains(p) && 0 <= i < trans_of(g[p], a).len() implies tr_ok(S, trans_of(g[p], a)[i], n) by {
    assert(h.dom().contains(p));
    assert(trans_of(h[p], a) =~= trans_of(g[p], a));
    assert(tr_ok(S, trans_of(h[p], a)[i], n));
  }
  assert forall|p: int| #[trigger] S.contains(p) implies trans_of(g[p], 0).len() == 0 by { assert(h.dom().contains(p)); let z = h[p]; assert(trans_of(h[p], 0) =~= trans_of(g[p], 0)); }
}
pub open spec fn no_silent_trans(heap: Map<int, TAState>, S: Set<int>) -> bool { forall|p: int| #[trigger] S.contains(p) ==> trans_of(heap[p], 0).len() == 0 }
pub open spec fn en_at(s: TAState, a: int, v: Seq<D>, k: int) -> bool { 0 <= k < trans_of(s, a).len() && ga_holds(trans_of(s, a)[k].guard, v) }
pub open spec fn stuck(s: TAState, a: int, v: Seq<D>) -> bool { forall|k: int| !#[trigger] en_at(s, a, v, k) }
pub open spec fn ru_delayed(v: Seq<D>, d: D) -> Seq<D> { Seq::new(v.len(), |x: int| dadd(v[x], d)) }
