// two runners on the automata A and h, which share the heap of states
pub open spec fn ready(A: TimedAutomaton, h: TimedAutomaton, h0: Map<int, TAState>, heap: Map<int, TAState>, r1: TimedAutomatonRunner, r2: TimedAutomatonRunner) -> bool {
  &&& same_ta(h0, heap) && aut_ok(h0, A) && aut_ok(h0, h) && det(h0, own(A)) && det(h0, own(h))
  &&& run_ok(r1, heap) && run_ok(r2, heap) && r1.automaton == A && r2.automaton == h
  &&& r1.isEmpty == (A.base.states.len() == 0) && r2.isEmpty == (h.base.states.len() == 0)
}
pub open spec fn ready0(A: TimedAutomaton, h: TimedAutomaton, h0: Map<int, TAState>) -> bool { aut_ok(h0, A) && aut_ok(h0, h) && det(h0, own(A)) && det(h0, own(h)) }
pub proof fn lem_ready(A: TimedAutomaton, h: TimedAutomaton, h0: Map<int, TAState>, g: Map<int, TAState>, heap: Map<int, TAState>, r1: TimedAutomatonRunner, r2: TimedAutomatonRunner)
  requires ready0(A, h, h0), same_ta(h0, g), same_ta(g, heap), r1.automaton == A, r2.automaton == h,
    r1.isEmpty == (A.base.states.len() == 0), r2.isEmpty == (h.base.states.len() == 0),
    run_ok(r1, g) || run_ok(r1, heap), run_ok(r2, g) || run_ok(r2, heap),
  ensures ready(A, h, h0, heap, r1, r2), same_ta(h0, heap), aut_ok(heap, A), aut_ok(heap, h), det(heap, own(A)), det(heap, own(h)),
    forall|c: Conf, a: int| #![trigger c_event(heap, c, a)] c_in(c, own(A)) ==> c_event(heap, c, a) == c_event(h0, c, a),
    forall|c: Conf, a: int| #![trigger c_event(heap, c, a)] c_in(c, own(h)) ==> c_event(heap, c, a) == c_event(h0, c, a),
    forall|c: Conf| #![trigger c_acc(heap, c)] c_in(c, own(A)) ==> c_acc(heap, c) == c_acc(h0, c),
    forall|c: Conf| #![trigger c_acc(heap, c)] c_in(c, own(h)) ==> c_acc(heap, c) == c_acc(h0, c),
    c_in(conf(r1), own(A)), c_in(conf(r2), own(h)),
    run_acc(r1, heap) == c_acc(h0, conf(r1)), run_acc(r2, heap) == c_acc(h0, conf(r2)),
{
  lem_same_trans(h0, g, heap);
  lem_heap(h0, heap, A); lem_heap(h0, heap, h); lem_heap(h0, g, A); lem_heap(h0, g, h);
  if run_ok(r1, g) { lem_run_same(r1, g, heap); }
  if run_ok(r2, g) { lem_run_same(r2, g, heap); }
  lem_conf_in(r1, heap); lem_conf_in(r2, heap); lem_acc(r1, heap); lem_acc(r2, heap);
}
// the reported prefix
pub proof fn lem_cut(h: Map<int, TAState>, aut: TimedAutomaton, w: TimedWord, i: int, p: TimedWord)
  requires tw_ok(w.word, w.durations), 0 <= i <= w.word.len(), p.word == w.word.subrange(0, i), p.durations.len() == i + 1, forall|j: int| 0 <= j < i ==> p.durations[j] == w.durations[j],
  ensures accepts(h, aut, p) == c_acc(h, c_upto(h, aut, w.word, w.durations, i)),
{
  lem_upto_prefix(h, aut, p.word, p.durations, w.word, w.durations, i);
}

// a word under construction
pub proof fn lem_grow(h: Map<int, TAState>, aut: TimedAutomaton, w: Seq<int>, d: Seq<D>, e: int, x: D, y: D)
  requires w.len() == d.len(),
  ensures c_upto(h, aut, w, d.push(x), w.len() as int) == c_upto(h, aut, w, d, w.len() as int),
    c_upto(h, aut, w.push(e), d.push(x), w.len() as int + 1) == c_event(h, c_delay(c_upto(h, aut, w, d, w.len() as int), x), e),
    c_upto(h, aut, w.push(e), d.push(x).push(y), w.len() as int + 1) == c_event(h, c_delay(c_upto(h, aut, w, d, w.len() as int), x), e),
{
  let n = w.len() as int;
  lem_upto_prefix(h, aut, w, d.push(x), w, d, n);
  lem_upto_prefix(h, aut, w.push(e), d.push(x), w, d, n);
  lem_upto_prefix(h, aut, w.push(e), d.push(x).push(y), w.push(e), d.push(x), n + 1);
  assert(d.push(x)[n] == x); assert(w.push(e)[n] == e);
}
