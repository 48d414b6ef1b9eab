// an equivalence oracle behind the interface: an object of unknown state; its answer and its next state are
// uninterpreted functions of its state, the hypothesis and the automaton states
// (it reports only finitely many counterexamples, at most `left` from now on: nothing is claimed about runs that do not end)
// `seen`: the counterexamples it has reported
pub struct EqObj { pub id: int, pub left: nat, pub seen: Seq<TimedWord> }
pub uninterp spec fn eo_raw(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> Option<TimedWord>;
pub uninterp spec fn eo_id(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> int;
pub open spec fn eo_ans(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> Option<TimedWord> { if o.left == 0 { None } else { eo_raw(o, h, heap) } }
pub open spec fn eo_next(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> EqObj {
  match eo_ans(o, h, heap) {
    Some(w) => EqObj { id: eo_id(o, h, heap), left: (o.left - 1) as nat, seen: o.seen.push(w) },
    None => EqObj { id: eo_id(o, h, heap), left: o.left, seen: o.seen },
  }
}
// an oracle may run the hypothesis, which leaves its meaning unchanged
pub uninterp spec fn eo_heap0(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> Map<int, TAState>;
pub open spec fn eo_heap(o: EqObj, h: TimedAutomaton, heap: Map<int, TAState>) -> Map<int, TAState> {
  if same_ta(heap, eo_heap0(o, h, heap)) { eo_heap0(o, h, heap) } else { heap }
}
// the oracles k.. of a chain asked one after the other until one of them reports a counterexample
pub open spec fn chain_heap(os: Seq<EqObj>, k: int, h: TimedAutomaton, heap: Map<int, TAState>) -> Map<int, TAState> decreases k {
  if k <= 0 { heap } else { eo_heap(os[k - 1], h, chain_heap(os, k - 1, h, heap)) }
}
pub open spec fn chain_ans(os: Seq<EqObj>, k: int, h: TimedAutomaton, heap: Map<int, TAState>) -> Option<TimedWord> { eo_ans(os[k], h, chain_heap(os, k, h, heap)) }
