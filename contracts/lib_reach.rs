// reachable states
pub open spec fn conn_in(h: Map<int, TAState>, t: TimedAutomaton, R: Set<int>) -> bool {
  forall|K: Set<int>, p: int| #[trigger] no_exit(h, own(t), K) && (t.base.initialStates.len() > 0 ==> K.contains(t.base.initialStates[0])) && #[trigger] R.contains(p) ==> K.contains(p)
}
pub open spec fn list_in(T: Seq<TATransition>, k: int, R: Set<int>) -> bool { forall|i: int| 0 <= i < k ==> R.contains(#[trigger] T[i].target) }
pub open spec fn succ_in(h: Map<int, TAState>, R: Set<int>, q: int) -> bool { forall|a: int| list_in(#[trigger] trans_of(h[q], a), trans_of(h[q], a).len() as int, R) }
pub proof fn lem_conn_step(h: Map<int, TAState>, t: TimedAutomaton, R: Set<int>, p: int, a: int, i: int)
  requires conn_in(h, t, R), R.contains(p), own(t).contains(p), 0 <= i < trans_of(h[p], a).len(), ensures conn_in(h, t, R.insert(trans_of(h[p], a)[i].target)),
{
  let q = trans_of(h[p], a)[i].target; let R1 = R.insert(q);
  assert forall|K: Set<int>, x: int| #[trigger] no_exit(h, own(t), K) && (t.base.initialStates.len() > 0 ==> K.contains(t.base.initialStates[0])) && #[trigger] R1.contains(x) implies K.contains(x) by {
    assert(R.contains(p)); assert(K.contains(p)); if x != q { assert(R.contains(x)); }
  }
}
pub proof fn lem_conn_done(h: Map<int, TAState>, t: TimedAutomaton, t1: TimedAutomaton, R: Set<int>)
  requires conn_in(h, t, R), forall|p: int| #[trigger] own(t1).contains(p) <==> R.contains(p), forall|p: int| #[trigger] R.contains(p) ==> own(t).contains(p) && succ_in(h, R, p), t1.base.initialStates == t.base.initialStates,
    t.base.initialStates.len() > 0 ==> R.contains(t.base.initialStates[0]),
  ensures conn(h, t1),
{
  assert forall|K: Set<int>| #[trigger] no_exit(h, own(t1), K) && (t1.base.initialStates.len() > 0 ==> K.contains(t1.base.initialStates[0])) implies forall|p: int| #[trigger] own(t1).contains(p) ==> K.contains(p) by {
    let Q = K.intersect(R);
    assert(no_exit(h, own(t), Q)) by {
      assert forall|p: int, a: int, i: int| #![trigger trans_of(h[p], a)[i]] own(t).contains(p) && Q.contains(p) && 0 <= i < trans_of(h[p], a).len() implies Q.contains(trans_of(h[p], a)[i].target) by { assert(R.contains(p)); assert(succ_in(h, R, p)); assert(list_in(trans_of(h[p], a), trans_of(h[p], a).len() as int, R)); assert(own(t1).contains(p)); }
    }
    assert forall|p: int| #[trigger] own(t1).contains(p) implies K.contains(p) by { assert(R.contains(p)); assert(Q.contains(p)); }
  }
}
pub proof fn lem_sub_eq(A: Set<int>, B: Set<int>)
  requires forall|p: int| #[trigger] A.contains(p) ==> B.contains(p), A.len() >= B.len(), ensures A =~= B,
{ lem_sub_len(A, B); vstd::set_lib::lemma_subset_equality(A, B); }
/// dropping unreachable states and, with them, the last clocks
pub proof fn lem_drop(h: Map<int, TAState>, t: TimedAutomaton, t1: TimedAutomaton, R: Set<int>, m: int)
  requires usable(h, t), m == t1.maxConstraints.len(), m <= t.maxConstraints.len(), forall|p: int| #[trigger] own(t1).contains(p) <==> R.contains(p), forall|p: int| #[trigger] R.contains(p) ==> own(t).contains(p) && succ_in(h, R, p), t1.base.initialStates == t.base.initialStates,
    t.base.initialStates.len() > 0 ==> R.contains(t.base.initialStates[0]), cov_all(h, own(t1), m),
  ensures usable(h, t1), same_lang(h, t, h, t1),
{
  let n = t.maxConstraints.len() as int; let e = clk_id(m);
  assert forall|p: int| #[trigger] own(t1).contains(p) implies own(t).contains(p) && h.dom().contains(p) && clk_st(h[p], h[p], e, n) by {
    assert(R.contains(p)); assert(own(t).contains(p));
    assert forall|a: int| clk_list(trans_of(h[p], a), #[trigger] trans_of(h[p], a), e, n) by {
      let T = trans_of(h[p], a);
      assert forall|i: int| 0 <= i < T.len() implies clk_tr(T[i], #[trigger] T[i], e, n) by { assert(cov(trans_of(h[p], a)[i], m)); assert(nn_resets(trans_of(h[p], a)[i].resetVars)); lem_clk_id_tr(T[i], m, n); }
    }
  }
  assert forall|p: int, a: int, i: int| #![trigger trans_of(h[p], a)[i]] own(t1).contains(p) && 0 <= i < trans_of(h[p], a).len() implies own(t1).contains(trans_of(h[p], a)[i].target) by {
    assert(R.contains(p)); assert(succ_in(h, R, p)); assert(list_in(trans_of(h[p], a), trans_of(h[p], a).len() as int, R)); assert(R.contains(trans_of(h[p], a)[i].target));
  }
  if t.base.states.len() > 0 { assert(own(t1).contains(t.base.initialStates[0])); }
  else { if t1.base.states.len() > 0 { assert(own(t1).contains(t1.base.states[0])); assert(R.contains(t1.base.states[0])); assert(own(t).contains(t1.base.states[0])); } }
  assert(clk_emb(e, n));
  lem_clk_accepts(h, t, h, t1, e);
}
pub proof fn lem_remove_mem(s: Seq<int>, k: int)
  requires s.no_duplicates(), 0 <= k < s.len(),
  ensures s.remove(k).no_duplicates(), forall|x: int| #[trigger] s.remove(k).contains(x) <==> s.contains(x) && x != s[k], forall|j: int| 0 <= j < k ==> #[trigger] s.remove(k)[j] == s[j],
{
  let r = s.remove(k);
  assert forall|x: int| #[trigger] r.contains(x) <==> s.contains(x) && x != s[k] by {
    if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; if j < k { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
    if s.contains(x) && x != s[k] { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < k { assert(r[j] == x); } else { assert(r[j - 1] == x); } }
  }
}
