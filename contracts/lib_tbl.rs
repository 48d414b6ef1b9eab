// the observation table and the simplification of automata as seen by the learner: objects of unknown state whose operations
// are uninterpreted functions of the state and the automaton states.  A refinement step that reports no change leaves the table
// as it is.  A step that changes the table can happen at most `left` times until the next counterexample: nothing is claimed
// about runs that do not end.  `seen`: the counterexamples the table has been given.
pub struct TblObj { pub id: int, pub left: nat, pub seen: Seq<TimedWord> }
pub uninterp spec fn tbl_raw(t: TblObj, k: int, heap: Map<int, TAState>) -> bool;
pub uninterp spec fn tbl_new(t: TblObj, k: int, heap: Map<int, TAState>) -> int;
pub open spec fn tbl_ans(t: TblObj, k: int, heap: Map<int, TAState>) -> bool { t.left == 0 || tbl_raw(t, k, heap) }
pub open spec fn tbl_next(t: TblObj, k: int, heap: Map<int, TAState>) -> TblObj {
  if tbl_ans(t, k, heap) { t } else { TblObj { id: tbl_new(t, k, heap), left: (t.left - 1) as nat, seen: t.seen } }
}
pub open spec fn tbl_close(t: TblObj, heap: Map<int, TAState>) -> bool { tbl_ans(t, 0, heap) }
pub open spec fn tbl_close1(t: TblObj, heap: Map<int, TAState>) -> TblObj { tbl_next(t, 0, heap) }
pub open spec fn tbl_cons(t: TblObj, heap: Map<int, TAState>) -> bool { tbl_ans(t, 1, heap) }
pub open spec fn tbl_cons1(t: TblObj, heap: Map<int, TAState>) -> TblObj { tbl_next(t, 1, heap) }
pub open spec fn tbl_ext(t: TblObj, heap: Map<int, TAState>) -> bool { tbl_ans(t, 2, heap) }
pub open spec fn tbl_ext1(t: TblObj, heap: Map<int, TAState>) -> TblObj { tbl_next(t, 2, heap) }
pub open spec fn tbl_sat(t: TblObj, heap: Map<int, TAState>) -> bool { tbl_ans(t, 3, heap) }
pub open spec fn tbl_sat1(t: TblObj, heap: Map<int, TAState>) -> TblObj { tbl_next(t, 3, heap) }
pub open spec fn tbl_ren(t: TblObj, heap: Map<int, TAState>) -> bool { tbl_ans(t, 4, heap) }
pub open spec fn tbl_ren1(t: TblObj, heap: Map<int, TAState>) -> TblObj { tbl_next(t, 4, heap) }
pub uninterp spec fn tbl_hyp(t: TblObj, heap: Map<int, TAState>) -> TimedAutomaton;
pub uninterp spec fn tbl_hyp_id(t: TblObj, heap: Map<int, TAState>) -> int;
pub open spec fn tbl_hyp1(t: TblObj, heap: Map<int, TAState>) -> TblObj { TblObj { id: tbl_hyp_id(t, heap), ..t } }
pub uninterp spec fn tbl_hyp_heap(t: TblObj, heap: Map<int, TAState>) -> Map<int, TAState>;
pub uninterp spec fn tbl_cex_id(t: TblObj, w: TimedWord, heap: Map<int, TAState>) -> TblObj;
pub open spec fn tbl_cex(t: TblObj, w: TimedWord, heap: Map<int, TAState>) -> TblObj {
  TblObj { id: tbl_cex_id(t, w, heap).id, left: tbl_cex_id(t, w, heap).left, seen: t.seen.push(w) }
}
/// no refinement step (closing, consistency, exterior consistency, time saturation) has anything left to do
pub open spec fn settled(t: TblObj, heap: Map<int, TAState>) -> bool {
  tbl_close(t, heap) && tbl_cons(t, heap) && tbl_ext(t, heap) && tbl_sat(t, heap)
}
// simplification of a hypothesis: some automaton with the same meaning (property C21)
pub uninterp spec fn meaning(h: TimedAutomaton, heap: Map<int, TAState>) -> int;
pub uninterp spec fn simp_raw(h: TimedAutomaton, k: int, heap: Map<int, TAState>) -> TimedAutomaton;
pub uninterp spec fn simp_raw_heap(h: TimedAutomaton, k: int, heap: Map<int, TAState>) -> Map<int, TAState>;
pub open spec fn simp_ok(h: TimedAutomaton, k: int, heap: Map<int, TAState>) -> bool { meaning(simp_raw(h, k, heap), simp_raw_heap(h, k, heap)) == meaning(h, heap) }
pub open spec fn simp_strong(h: TimedAutomaton, heap: Map<int, TAState>) -> TimedAutomaton { if simp_ok(h, 0, heap) { simp_raw(h, 0, heap) } else { h } }
pub open spec fn simp_strong_heap(h: TimedAutomaton, heap: Map<int, TAState>) -> Map<int, TAState> { if simp_ok(h, 0, heap) { simp_raw_heap(h, 0, heap) } else { heap } }
pub open spec fn simp_zones(h: TimedAutomaton, heap: Map<int, TAState>) -> TimedAutomaton { if simp_ok(h, 1, heap) { simp_raw(h, 1, heap) } else { h } }
pub open spec fn simp_zones_heap(h: TimedAutomaton, heap: Map<int, TAState>) -> Map<int, TAState> { if simp_ok(h, 1, heap) { simp_raw_heap(h, 1, heap) } else { heap } }
/// h means what the hypothesis of the table t means
pub open spec fn built_from(t: TblObj, ht: Map<int, TAState>, h: TimedAutomaton, heap: Map<int, TAState>) -> bool {
  settled(t, ht) && meaning(h, heap) == meaning(tbl_hyp(t, ht), tbl_hyp_heap(t, ht))
}
/// the last thing that happened is that the oracle examined the automaton r, built from a settled table, and reported nothing
pub open spec fn confirmed(o1: EqObj, r: TimedAutomaton, heap1: Map<int, TAState>) -> bool {
  exists|o: EqObj, h: Map<int, TAState>, t: TblObj, ht: Map<int, TAState>| #[trigger] built_from(t, ht, r, h) && #[trigger] eo_ans(o, r, h) is None && o1 == eo_next(o, r, h) && heap1 == eo_heap(o, r, h)
}
