// include/recognizable_languages.hh
@fn RecognizableLanguage::inPrefixes as rl_in_prefixes(word)
@requires
  rl_ok(this), tw_ok(word.word, word.durations),
@ensures
  r == in_any(this.prefixes, word),
@loop 1
@invariant
  rl_ok(this), tw_ok(word.word, word.durations), rng1 == this.prefixes, 0 <= it1 <= rng1.len(), !res1, none_upto(rng1, word, it1),
@break
  res1, in_any(rng1, word),
@decreases
  rng1.len() - it1
@begin
  assert(el_ok(rng1[it1]));
@endloop

@fn RecognizableLanguage::isFinal as rl_is_final(word)
@requires
  rl_ok(this), tw_ok(word.word, word.durations),
@ensures
  r == in_any(this.final_, word),
@loop 1
@invariant
  rl_ok(this), tw_ok(word.word, word.durations), rng1 == this.final_, 0 <= it1 <= rng1.len(), !res1, none_upto(rng1, word, it1),
@break
  res1, in_any(rng1, word),
@decreases
  rng1.len() - it1
@begin
  assert(el_ok(rng1[it1]));
@endloop

@fn RecognizableLanguage::split as rl_split_fn(word)
@abstract obj=self result=rl_split

@fn RecognizableLanguage::SplitTriple::apply as rl_apply()
@requires
  trip_ok(this),
@ensures
  applied(this, r), tw_ok(r.word, r.durations), no_silent(r.word),
@return
  assert forall|q: TimedWord| #[trigger] tw_ok(q.word, q.durations) && member_of(this.morphism.codomain, q) && renamed(this.morphism.renaming.base, wv(this.prefix.durations), wv(q.durations))
    && r.word == q.word + this.suffix.word && r.durations == cat_d(q.durations, this.suffix.durations) implies applied(this, r) by { assert(mor_image(this, q)); }

@fn RecognizableLanguage::maps as rl_maps(word)
@requires
  rl_ok(this), tw_ok(word.word, word.durations), in_any(this.prefixes, word) || rl_split(this, word) is Some,
@ensures
  rl_step(this, word, r), tw_ok(r.word, r.durations),

@fn RecognizableLanguage::contains as rl_contains(word)
@requires
  rl_ok(this), tw_ok(word.word, word.durations), ends(this, word),
@ensures
  exists|w: TimedWord| #[trigger] leads(this, word, w) && in_any(this.prefixes, w) && r == in_any(this.final_, w),
@loop 1
@invariant
  rl_ok(this), this == old_this, tw_ok(word.word, word.durations), ends(this, word), leads(this, old_word, word),
@until
  in_any(this.prefixes, word),
@decreases
  rank(this, word)
@before
  lem_leads0(this, word);
@begin
  let ghost_w = word; lem_rank(this, word);
@end
  lem_step(this, old_word, ghost_w, word);
@endloop

// include/counterexample_analyzer.hh
@fn analyzeCEX as cex_analyze(word, oracle, hypothesis, currentSuffixes)
@requires
  rl_ok(hypothesis), tw_ok(word.word, word.durations), ends(hypothesis, word), is_cex(hypothesis, oracle.lang, word),
  bsufs_ok(currentSuffixes),
@ensures
  oracle1.lang == oracle.lang,
  r is Some ==> distinguishes(hypothesis, oracle.lang, word, r->Some_0) && fresh(currentSuffixes, r->Some_0),
  r is None ==> none_fresh(hypothesis, oracle.lang, word, currentSuffixes),
@loop 1
@invariant
  rl_ok(hypothesis), hypothesis == old_hypothesis, mappedWords.len() >= 1, suffixes.len() == mappedWords.len(), chain_of(hypothesis, word, mappedWords, suffixes), ends(hypothesis, mappedWords.last()),
@until
  in_any(hypothesis.prefixes, mappedWords.last()),
@decreases
  rank(hypothesis, mappedWords.last())
@begin
  let ghost_m = mappedWords; let ghost_s = suffixes; lem_rank(hypothesis, mappedWords.last());
@end
  lem_chain(hypothesis, word, ghost_m, ghost_s, mappedWords, suffixes);
@before
  lem_chain0(hypothesis, word, mappedWords, suffixes);
@exit
  lem_cex_front(hypothesis, oracle.lang, word, mappedWords, suffixes);
@loop 2
@invariant
  0 <= index < mappedWords.len(), oracle.lang == old_oracle.lang, chain_of(hypothesis, word, mappedWords, suffixes), bsufs_ok(currentSuffixes),
  hypothesis == old_hypothesis, word == old_word, currentSuffixes == old_currentSuffixes,
  stale_upto(oracle.lang, currentSuffixes, mappedWords, suffixes, index),
@decreases
  mappedWords.len() - index
@loop 3
@invariant
  rng3 == currentSuffixes, 0 <= it3 <= rng3.len(), res3, bsufs_ok(currentSuffixes), fresh_upto(rng3, suffixes[index + 1], it3), 0 <= index + 1 < suffixes.len(), tw_ok(suffixes[index + 1].word, suffixes[index + 1].durations),
@break
  !res3, !fresh(rng3, suffixes[index + 1]),
@atbreak
  assert(member_of(rng3[it3].base, suffixes[index + 1]));
@decreases
  rng3.len() - it3
@before
  assert(cut_at(hypothesis, mappedWords[index], mappedWords[index + 1], suffixes[index + 1]));
@begin
  assert(el_ok(rng3[it3].base));
@loop 2
@exit
  assert(stale_upto(oracle.lang, currentSuffixes, mappedWords, suffixes, mappedWords.len() - 1));
  assert(none_fresh(hypothesis, oracle.lang, word, currentSuffixes));
@return
  if r is Some {
    assert forall|i: int| #![trigger mappedWords[i]] 0 <= i < mappedWords.len() - 1 && member(oracle.lang, mappedWords[i]) != member(oracle.lang, mappedWords[i + 1]) && r == Some(suffixes[i + 1])
      implies distinguishes(hypothesis, oracle.lang, word, r->Some_0) by { assert(cut_at(hypothesis, mappedWords[i], mappedWords[i + 1], suffixes[i + 1])); }
  }
@fn RecognizableLanguage::split as rl_split_body(word)
@requires
  rl_ok(this), mors_ok(this.morphisms), tw_ok(word.word, word.durations), nnd(word.durations), no_silent(word.word), word.word.len() <= 250,
@ensures
  r matches Some(t) ==> splits(this, word, t) && dv(t.prefix.durations.last()) <= dv(word.durations[t.prefix.word.len() as int]),
  r is None ==> exists|s: Seq<ForwardRegionalElementaryLanguage>| #[trigger] pref_chain(s, word) && no_dom(this.morphisms, s, this.morphisms.len() as int),
@anchor_after elemPrefixes#1
  assert forall|k: int| 0 <= k < this.morphisms.len() implies wf((#[trigger] this.morphisms[k]).domain.timedCondition.zone.value) by { assert(mor_ok(this.morphisms[k])); }
  assert forall|k: int| 0 <= k < elemPrefixes.len() implies wf((#[trigger] elemPrefixes[k]).base.timedCondition.zone.value) by { assert(fr_inv(elemPrefixes[k])); }
@anchor_after it#1
  let ghost_s = elemPrefixes;
  assert(pref_chain(ghost_s, word));
  assert forall|k: int, i: int| 0 <= k < this.morphisms.len() && 0 <= i < ghost_s.len() implies el_eq(#[trigger] this.morphisms[k].domain, (#[trigger] ghost_s[i]).base) == same_el(this.morphisms[k].domain, ghost_s[i].base) by { assert(mor_ok(this.morphisms[k]) && mor_dom(this.morphisms[k])); assert(fr_inv(ghost_s[i])); el_eq_contract(this.morphisms[k].domain, ghost_s[i].base); }
  if it < this.morphisms.len() {
    assert(mor_ok(this.morphisms[it]) && mor_dom(this.morphisms[it]));
    let j = choose|j: int| 0 <= j < ghost_s.len() && el_eq(this.morphisms[it].domain, (#[trigger] ghost_s[j]).base);
    lem_pref_last(ghost_s.last(), word.word, word.durations); lem_pref_all(ghost_s, word.word, word.durations, j); lem_pref_same(this.morphisms[it].domain, ghost_s[j].base, word.word, word.durations);
  } else {
    assert forall|k: int| 0 <= k < this.morphisms.len() implies dom_upto(#[trigger] this.morphisms[k], ghost_s, ghost_s.len() as int) by {
      assert forall|i: int| 0 <= i < ghost_s.len() implies !same_el(this.morphisms[k].domain, (#[trigger] ghost_s[i]).base) by { assert(el_eq(this.morphisms[k].domain, ghost_s[i].base) == same_el(this.morphisms[k].domain, ghost_s[i].base)); }
    }
  }
@anchor_after prefixDurations#2
  lem_pref_ub(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain, word.word, word.durations, prefixDurations.last());
  assert(pref_with(this.morphisms[it].domain, word.durations, prefixDurations));
@anchor_after prefixDurations#3
  lem_pref_ub(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain, word.word, word.durations, prefixDurations.last());
  assert(pref_with(this.morphisms[it].domain, word.durations, prefixDurations));
@anchor_after prefixDurations#4
  lem_pref_samp(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain, word.word, word.durations, tmpPrefix.durations);
  assert(pref_with(this.morphisms[it].domain, word.durations, prefixDurations));
@return
  if r is Some { lem_split_done(this, word, r->Some_0, it); }
@loop 1
@invariant
  rl_ok(this), mors_ok(this.morphisms), tw_ok(word.word, word.durations), 0 <= it < this.morphisms.len(), mor_ok(this.morphisms[it]), mor_dom(this.morphisms[it]),
  pref_in(this.morphisms[it].domain, word.word, word.durations), 0 <= i <= this.morphisms[it].domain.word.len(),
  wf(prefixDomainTimedCondition.zone.value), le_mat(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain.timedCondition.zone.value),
  diag_ok(prefixDomainTimedCondition.zone.value) ==> closed(prefixDomainTimedCondition.zone.value),
  fixed(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain.timedCondition.zone.value, word.durations, i),
  prefixDurations =~= word.durations.subrange(0, i),
@decreases
  this.morphisms[it].domain.word.len() - i
@begin
  let ghost_c = prefixDomainTimedCondition.zone.value; let ghost_i = i; let ghost_d = word.durations; let ghost_m = this.morphisms[it].domain.timedCondition.zone.value; assert(ghost_d[i] is Fin);
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(prefixDomainTimedCondition.zone.value, v) == (sat(ghost_m, v) && durs_upto(v, ghost_d, ghost_i + 1, ghost_m.rows)) by { lem_durs_step(v, ghost_d, ghost_i, ghost_m.rows); assert(sat(ghost_c, v) == (sat(ghost_m, v) && durs_upto(v, ghost_d, ghost_i, ghost_m.rows))); }
  lem_le_trans(prefixDomainTimedCondition.zone.value, ghost_c, ghost_m);
@exit
  lem_pref_cond(prefixDomainTimedCondition.zone.value, this.morphisms[it].domain, word.word, word.durations);
@endloop
