// either a stored word on which hypothesis and target still disagree, or what the wrapped oracle answers (which is then stored)
pub open spec fn memo_word(o: EquivalenceOracleMemo, h: TimedAutomaton, heap: Map<int, TAState>, r: Option<TimedWord>) -> bool {
  r is Some && tw_ok(r->Some_0.word, r->Some_0.durations) && accepts(heap, o.oracleByTest.automaton, r->Some_0) != accepts(heap, h, r->Some_0)
}
pub open spec fn memo_asked(o: EquivalenceOracleMemo, h: TimedAutomaton, heap: Map<int, TAState>, g: Map<int, TAState>, r: Option<TimedWord>, o1: EquivalenceOracleMemo) -> bool {
  &&& same_ta(heap, g) && r == eo_ans(o.oracle, h, g) && o1.oracle == eo_next(o.oracle, h, g)
  &&& o1.oracleByTest.words == (if r is Some { o.oracleByTest.words.push(r->Some_0) } else { o.oracleByTest.words })
  &&& forall|i: int| 0 <= i < o.oracleByTest.words.len() ==> accepts(heap, o.oracleByTest.automaton, #[trigger] o.oracleByTest.words[i]) == accepts(heap, h, o.oracleByTest.words[i])
}
pub open spec fn memo_find_ok(o: EquivalenceOracleMemo, h: TimedAutomaton, heap: Map<int, TAState>, r: Option<TimedWord>, o1: EquivalenceOracleMemo) -> bool {
  (memo_word(o, h, heap, r) && o1.oracleByTest.words == o.oracleByTest.words && o1.oracle == o.oracle) || exists|g: Map<int, TAState>| #[trigger] memo_asked(o, h, heap, g, r, o1)
}
