// include/equivalence_oracle.hh
@fn EquivalenceOracle::findCounterExample as eo_find(hypothesis)
@abstract obj=EqObj result=eo_ans post=eo_next heap=TAState:eo_heap

// include/equivalance_oracle_chain.hh
@fn EquivalenceOracleChain::findCounterExample as chain_find(hypothesis)
@heap TAState
@requires
@ensures
  same_ta(heap, heap1), this1.base.eqQueryCount == this.base.eqQueryCount + 1, this1.oracles.len() == this.oracles.len(),
  r is Some ==> exists|k: int| #![trigger chain_ans(this.oracles, k, hypothesis, heap)] 0 <= k < this.oracles.len() && r == chain_ans(this.oracles, k, hypothesis, heap)
    && forall|j: int| #![trigger chain_ans(this.oracles, j, hypothesis, heap)] 0 <= j < k ==> chain_ans(this.oracles, j, hypothesis, heap) is None,
  r is None ==> forall|j: int| #![trigger chain_ans(this.oracles, j, hypothesis, heap)] 0 <= j < this.oracles.len() ==> chain_ans(this.oracles, j, hypothesis, heap) is None,
@loop 1
@invariant
  0 <= it1 <= this.oracles.len(), this.oracles.len() == old_this.oracles.len(), this.base.eqQueryCount == old_this.base.eqQueryCount + 1, hypothesis == old_hypothesis,
  forall|j: int| it1 <= j < this.oracles.len() ==> this.oracles[j] == old_this.oracles[j],
  same_ta(old_heap, heap), heap == chain_heap(old_this.oracles, it1, hypothesis, old_heap),
  forall|j: int| #![trigger chain_ans(old_this.oracles, j, hypothesis, old_heap)] 0 <= j < it1 ==> chain_ans(old_this.oracles, j, hypothesis, old_heap) is None,
@decreases this.oracles.len() - it1
@begin
  assert(chain_ans(old_this.oracles, it1, hypothesis, old_heap) == eo_ans(this.oracles[it1], hypothesis, heap));
@endloop

@fn EquivalenceOracleChain::push_back as chain_push(oracle)
@ensures
  this1.oracles == this.oracles.push(oracle), this1.base == this.base,

// include/equivalence_oracle_by_test.hh
@fn EquivalenceOracleByTest::findCounterExample as bytest_find(hypothesis)
@heap TAState
@requires
  aut_ok(heap, this.automaton), aut_ok(heap, hypothesis), det(heap, own(this.automaton)), det(heap, own(hypothesis)),
  forall|i: int| 0 <= i < this.words.len() ==> tw_ok((#[trigger] this.words[i]).word, this.words[i].durations) && no_silent(this.words[i].word),
@ensures
  same_ta(heap, heap1), this1.words == this.words, this1.automaton == this.automaton, this1.base.eqQueryCount == this.base.eqQueryCount + 1,
  r is Some ==> tw_ok(r->Some_0.word, r->Some_0.durations) && accepts(heap, this.automaton, r->Some_0) != accepts(heap, hypothesis, r->Some_0),
  r is None ==> forall|i: int| 0 <= i < this.words.len() ==> accepts(heap, this.automaton, #[trigger] this.words[i]) == accepts(heap, hypothesis, this.words[i]),
@entry
  lem_heap(heap, heap, this.automaton); lem_heap(heap, heap, hypothesis);
@loop 1
@invariant
  ready(this.automaton, hypothesis, old_heap, heap, runner, hypothesisRunner), ready0(this.automaton, hypothesis, old_heap), this.words == old_this.words, this.automaton == old_this.automaton, this.base.eqQueryCount == old_this.base.eqQueryCount + 1, hypothesis == old_hypothesis,
  words_ok(this.words), rng1 == this.words, 0 <= it1 <= rng1.len(),
  forall|i: int| 0 <= i < it1 ==> accepts(old_heap, this.automaton, #[trigger] this.words[i]) == accepts(old_heap, hypothesis, this.words[i]),
@decreases rng1.len() - it1
@begin
  assert(tw_ok(rng1[it1].word, rng1[it1].durations));
  lem_ready(this.automaton, hypothesis, old_heap, heap, heap, runner, hypothesisRunner); let ghost_h = heap;
@endloop
@loop 2
@invariant
  ready(this.automaton, hypothesis, old_heap, heap, runner, hypothesisRunner), ready0(this.automaton, hypothesis, old_heap), this.words == old_this.words, this.automaton == old_this.automaton, this.base.eqQueryCount == old_this.base.eqQueryCount + 1, hypothesis == old_hypothesis,
  0 <= i <= word.word.len(), tw_ok(word.word, word.durations), no_silent(word.word),
  conf(runner) == c_upto(old_heap, this.automaton, word.word, word.durations, i),
  conf(hypothesisRunner) == c_upto(old_heap, hypothesis, word.word, word.durations, i),
@decreases word.word.len() - i
@begin
  lem_ready(this.automaton, hypothesis, old_heap, heap, heap, runner, hypothesisRunner); let ghost_a = heap;
@exit
  lem_ready(this.automaton, hypothesis, old_heap, heap, heap, runner, hypothesisRunner); let ghost_h1 = heap;
@endloop
@anchor_after cex#1
  lem_cut(old_heap, this.automaton, word, i, cex); lem_cut(old_heap, hypothesis, word, i, cex);
@anchor_after cex#2
  lem_cut(old_heap, this.automaton, word, i + 1, cex); lem_cut(old_heap, hypothesis, word, i + 1, cex);
@anchor_after heap#1
  lem_ready(this.automaton, hypothesis, old_heap, ghost_h1, heap, runner, hypothesisRunner); let ghost_h2 = heap;
@anchor_after heap#2
  lem_ready(this.automaton, hypothesis, old_heap, ghost_h2, heap, runner, hypothesisRunner);
  lem_acc(runner, heap); lem_acc(hypothesisRunner, heap);
@anchor_after heap#3
  lem_ready(this.automaton, hypothesis, old_heap, ghost_a, heap, runner, hypothesisRunner); let ghost_b = heap;
@anchor_after heap#4
  lem_ready(this.automaton, hypothesis, old_heap, ghost_b, heap, runner, hypothesisRunner); let ghost_c = heap; 
@anchor_after heap#5
  lem_ready(this.automaton, hypothesis, old_heap, ghost_c, heap, runner, hypothesisRunner); let ghost_d = heap;
@anchor_after heap#6
  lem_ready(this.automaton, hypothesis, old_heap, ghost_d, heap, runner, hypothesisRunner);

@fn EquivalenceOracleByTest::push_back as bytest_push(word)
@ensures
  this1.words == this.words.push(word), this1.automaton == this.automaton, this1.base == this.base,

// include/equivalence_oracle_memo.hh
@fn EquivalenceOracleMemo::EquivalenceOracleMemo as memo_ctor(oracle, target)
@ensures
  this1.oracle == oracle, this1.oracleByTest.automaton == target, this1.oracleByTest.words == Seq::<TimedWord>::empty(),

@fn EquivalenceOracleMemo::findCounterExample as memo_find(hypothesis)
@heap TAState
@requires
  aut_ok(heap, this.oracleByTest.automaton), aut_ok(heap, hypothesis), det(heap, own(this.oracleByTest.automaton)), det(heap, own(hypothesis)), words_ok(this.oracleByTest.words),
@ensures
  same_ta(heap, heap1), this1.oracleByTest.automaton == this.oracleByTest.automaton, this1.base.eqQueryCount == this.base.eqQueryCount + 1,
  memo_find_ok(this, hypothesis, heap, r, this1),
@anchor_after result#1
  let ghost_g = heap;
@return
  let ghost_k = memo_asked(old_this, hypothesis, old_heap, ghost_g, r, this); lem_same_trans(old_heap, ghost_g, heap);

// include/equivalence_oracle_by_random_test.hh
@fn EquivalenceOracleByRandomTest::findCounterExample as rnd_find(hypothesis)
@heap TAState
@requires
  aut_ok(heap, this.automaton), aut_ok(heap, hypothesis), det(heap, own(this.automaton)), det(heap, own(hypothesis)),
  this.maxDuration is Fin, dv(this.maxDuration) >= 0real, 0 < this.alphabet.len() < 0x7fff_ffff, alph_ok(this.alphabet), 0 < this.alphabet.len(),
@ensures
  same_ta(heap, heap1), this1.automaton == this.automaton, this1.base.eqQueryCount == this.base.eqQueryCount + 1,
  r is Some ==> tw_ok(r->Some_0.word, r->Some_0.durations) && accepts(heap, this.automaton, r->Some_0) != accepts(heap, hypothesis, r->Some_0),
@entry
  lem_heap(heap, heap, this.automaton); lem_heap(heap, heap, hypothesis);
@loop 1
@invariant
  ready(this.automaton, old_hypothesis, old_heap, heap, runner, hypothesisRunner), ready0(this.automaton, old_hypothesis, old_heap), this.alphabet == old_this.alphabet, this.automaton == old_this.automaton, this.base.eqQueryCount == old_this.base.eqQueryCount + 1, alph_ok(this.alphabet), 0 < this.alphabet.len(),
  durationDist.first == D::Fin(0real), durationDist.second is Fin, dv(durationDist.second) >= 0real, actionDist.first == 0, actionDist.second == this.alphabet.len() - 1,
@decreases this.maxTests - i
@begin
  lem_ready(this.automaton, old_hypothesis, old_heap, heap, heap, runner, hypothesisRunner);
@endloop
@loop 2
@invariant
  ready(this.automaton, old_hypothesis, old_heap, heap, runner, hypothesisRunner), ready0(this.automaton, old_hypothesis, old_heap), this.alphabet == old_this.alphabet, this.automaton == old_this.automaton, this.base.eqQueryCount == old_this.base.eqQueryCount + 1, alph_ok(this.alphabet), 0 < this.alphabet.len(),
  durationDist.first == D::Fin(0real), durationDist.second is Fin, dv(durationDist.second) >= 0real, actionDist.first == 0, actionDist.second == this.alphabet.len() - 1,
  word.len() == j, durations.len() == j, fin_all(durations), no_silent(word), 0 <= j,
  conf(runner) == c_upto(old_heap, this.automaton, word, durations, j),
  conf(hypothesisRunner) == c_upto(old_heap, old_hypothesis, word, durations, j),
@decreases this.maxLength - j
@begin
  lem_ready(this.automaton, old_hypothesis, old_heap, heap, heap, runner, hypothesisRunner); let ghost_a = heap; let ghost_w = word; let ghost_d = durations;
@exit
  lem_ready(this.automaton, old_hypothesis, old_heap, heap, heap, runner, hypothesisRunner); let ghost_h1 = heap; let ghost_d = durations;
@endloop
@anchor_after heap#1
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_h1, heap, runner, hypothesisRunner); let ghost_h2 = heap;
@anchor_after heap#2
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_h2, heap, runner, hypothesisRunner); lem_grow(old_heap, this.automaton, word, ghost_d, 1, duration, duration); lem_grow(old_heap, old_hypothesis, word, ghost_d, 1, duration, duration);
@anchor_after heap#3
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_a, heap, runner, hypothesisRunner); let ghost_b = heap;
@anchor_after heap#4
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_b, heap, runner, hypothesisRunner); let ghost_c = heap; lem_grow(old_heap, this.automaton, ghost_w, ghost_d, 1, duration, duration); lem_grow(old_heap, old_hypothesis, ghost_w, ghost_d, 1, duration, duration);
@anchor_after heap#5
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_c, heap, runner, hypothesisRunner); let ghost_e = heap;
@anchor_after heap#6
  lem_ready(this.automaton, old_hypothesis, old_heap, ghost_e, heap, runner, hypothesisRunner); lem_grow(old_heap, this.automaton, ghost_w, ghost_d, word[j], duration, D::Fin(0real)); lem_grow(old_heap, old_hypothesis, ghost_w, ghost_d, word[j], duration, D::Fin(0real));
