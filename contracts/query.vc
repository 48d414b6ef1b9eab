// include/sul.hh
@fn SUL::pre as sul_pre_m()
@abstract obj=SULObj post=sul_pre

@fn SUL::post as sul_post_m()
@abstract obj=SULObj post=sul_post

@fn SUL::step/char/ as sul_event_m(action)
@abstract obj=SULObj result=sul_ev post=sul_evn

@fn SUL::step/double/ as sul_delay_m(duration)
@abstract obj=SULObj result=sul_dl post=sul_dln

// include/membership_oracle.hh
@fn MembershipOracle::answerQuery as mem_query(timedWord)
@abstract obj=MemObj opaque=1 result=mem_ans post=mem_next

@fn SULMembershipOracle::answerQuery as sulmem_query(timedWord)
@requires
  tw_ok(timedWord.word, timedWord.durations),
@ensures
  r == fed_ans(this.sul, timedWord.word, timedWord.durations, timedWord.word.len() as int), this1.sul == sul_post(fed(this.sul, timedWord.word, timedWord.durations, timedWord.word.len() as int)),
@loop 1
@invariant
  0 <= i <= timedWord.word.len(), timedWord == old_timedWord, tw_ok(timedWord.word, timedWord.durations), word == timedWord.word, duration == timedWord.durations,
  this.sul == fed(old_this.sul, timedWord.word, timedWord.durations, i), result == fed_ans(old_this.sul, timedWord.word, timedWord.durations, i),
@decreases timedWord.word.len() - i
@endloop

@fn MembershipOracleCache::answerQuery as memcache_query(timedWord)
@requires
  cache_ok(this.membershipCache, this.oracle.lang), tw_ok(timedWord.word, timedWord.durations),
@ensures
  r == member(this.oracle.lang, timedWord), cache_ok(this1.membershipCache, this1.oracle.lang), this1.oracle.lang == this.oracle.lang,

@fn SymbolicMembershipOracle::answerQuery as symmem_query(timedWord)
@ensures
  r == member(this.membershipOracle.lang, timedWord), this1.membershipOracle.lang == this.membershipOracle.lang, this1.cache == this.cache,

@fn SymbolicMembershipOracle::included as sym_included(elementary)
@requires
  q_el(elementary), simple(elementary.timedCondition.zone.value), uniform(this.membershipOracle.lang),
@ensures
  this1.membershipOracle.lang == this.membershipOracle.lang, this1.cache == this.cache,
  part_in(this.membershipOracle.lang, elementary, r),

// include/timed_condition_set.hh
@fn TimedConditionSet::reduce as tcs_reduce(elementaryLanguages)
@requires
  red_in(elementaryLanguages),
@ensures
  elementaryLanguages.len() == 0 ==> r.conditions.len() == 0,
  elementaryLanguages.len() > 0 ==> all_ok(r.conditions, elementaryLanguages[0].word.len() as int + 2),
  same_cnt(r.conditions, conds(elementaryLanguages)),
@loop 1
@invariant
  red_in(elementaryLanguages), rng1 == elementaryLanguages, 0 <= it1 <= elementaryLanguages.len(), res1,
@decreases rng1.len() - it1
@begin
  assert(q_el(elementaryLanguages[it1]));
@endloop
@loop 2
@invariant
  0 <= it <= timedConditionsWithSize.len(), red_in(old_elementaryLanguages), old_elementaryLanguages.len() > 0, red_ok(timedConditionsWithSize, conds(old_elementaryLanguages), old_elementaryLanguages[0].word.len() as int + 2),
@decreases timedConditionsWithSize.len(), timedConditionsWithSize.len() - it
@before
  lem_red_init(old_elementaryLanguages, timedConditionsWithSize);
@begin
  let ghost_s = timedConditionsWithSize;
@exit
  let ghost_f = firsts(timedConditionsWithSize); let ghost_s = timedConditionsWithSize; let ghost_rows = old_elementaryLanguages[0].word.len() as int + 2;
  assert forall|k: int| 0 <= k < ghost_f.len() implies canonical((#[trigger] ghost_f[k]).zone.value) && intm(ghost_f[k].zone.value) && bounded_m(ghost_f[k].zone.value) && ghost_f[k].zone.value.rows == ghost_rows by { assert(red_item(ghost_s[k], ghost_rows)); }
  assert(all_ok(ghost_f, ghost_rows));
@endloop
@loop 3
@invariant
  0 <= it < it2 <= timedConditionsWithSize.len(), red_in(old_elementaryLanguages), old_elementaryLanguages.len() > 0, red_ok(timedConditionsWithSize, conds(old_elementaryLanguages), old_elementaryLanguages[0].word.len() as int + 2),
  !merged, timedConditionsWithSize == pre_timedConditionsWithSize, it == pre_it, timedCondition == timedConditionsWithSize[it].first,
@break
  merged, 0 <= it <= timedConditionsWithSize.len(), timedConditionsWithSize.len() < pre_timedConditionsWithSize.len(), red_ok(timedConditionsWithSize, conds(old_elementaryLanguages), old_elementaryLanguages[0].word.len() as int + 2),
@decreases timedConditionsWithSize.len() - it2
@begin
  let ghost_s = timedConditionsWithSize; let ghost_i = it; let ghost_j = it2; let ghost_rows = old_elementaryLanguages[0].word.len() as int + 2;
  assert(red_item(ghost_s[it], ghost_rows) && red_item(ghost_s[it2], ghost_rows)); 
@atbreak
  assert(timedConditionsWithSize =~= ghost_s.update(ghost_i, Pair { first: convexHull, second: ghost_s[ghost_i].second + ghost_s[ghost_j].second }).remove(ghost_j));
  lem_red_step(ghost_s, conds(old_elementaryLanguages), ghost_rows, ghost_i, ghost_j, convexHull, timedConditionsWithSize);
@endloop
@anchor_after result#3
  assert(result =~= ghost_f);

// include/symbolic_membership_oracle.hh
@fn SymbolicMembershipOracle::query as sym_query(elementary)
@requires
  q_el(elementary), uniform(this.membershipOracle.lang), sym_cache(this.cache, this.membershipOracle.lang),
@ensures
  this1.membershipOracle.lang == this.membershipOracle.lang, sym_cache(this1.cache, this.membershipOracle.lang),
  sym_of(this.membershipOracle.lang, elementary, r.conditions),
@entry
  assert forall|k: ElementaryLanguage| q_el(k) && #[trigger] el_eq(k, elementary) implies sym_same(this.membershipOracle.lang, k, elementary) by { el_eq_contract(k, elementary); lem_sym_key(this.membershipOracle.lang, k, elementary); }
  el_eq_contract(elementary, elementary);
@loop 1
@invariant
  0 <= it1 <= rng1.len(), this.membershipOracle.lang == old_this.membershipOracle.lang, this.cache == old_this.cache, uniform(old_this.membershipOracle.lang), q_el(elementary),
  parts_of(elementary, rng1), sym_part(old_this.membershipOracle.lang, rng1, it1, includedLanguages, allIncluded),
@decreases rng1.len() - it1
@before
  lem_sym_init(this.membershipOracle.lang, rng1);
@begin
  lem_part_el(elementary, rng1, it1); let ghost_l = includedLanguages; let ghost_a = allIncluded; let ghost_k = it1;
@end
  lem_sym_step(old_this.membershipOracle.lang, elementary, rng1, ghost_k, ghost_l, ghost_a, includedLanguages, allIncluded);
@exit
  lem_sym_end(old_this.membershipOracle.lang, elementary, rng1, includedLanguages, allIncluded); lem_sym_same(old_this.membershipOracle.lang, elementary, includedLanguages);
@endloop
@anchor_after convexHull#1
  lem_sym_hull(old_this.membershipOracle.lang, elementary, includedLanguages, convexHull);
