// include/elementary_language.hh
@fn ElementaryLanguage::operator+ as el_concat(another)
@requires
  cat_in(this.timedCondition.zone.value, another.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, another.timedCondition.zone.value.rows == another.word.len() + 2,
@ensures
  r.word == this.word + another.word, r.timedCondition.zone.value.rows == r.word.len() + 2, canonical(r.timedCondition.zone.value),
  forall|w: spec_fn(int) -> real| #[trigger] sat(r.timedCondition.zone.value, w) == cat_split(this.timedCondition.zone.value, another.timedCondition.zone.value, w),
  intm(this.timedCondition.zone.value) && intm(another.timedCondition.zone.value) ==> intm(r.timedCondition.zone.value),

@fn ElementaryLanguage::contains as el_contains(testedWord)
@requires
  wf(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, tw_ok(testedWord.word, testedWord.durations),
@ensures
  r == (testedWord.word == this.word && sat(this.timedCondition.zone.value, wv(testedWord.durations))),
@loop 1
@invariant
  wf(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, tw_ok(testedWord.word, testedWord.durations), testedWord.word == this.word,
  wf(condition.zone.value), condition.zone.value.rows == this.word.len() + 2, 0 <= i <= testedWord.durations.len(),
  forall|v: spec_fn(int) -> real| #[trigger] sat(condition.zone.value, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, testedWord.durations, i, this.timedCondition.zone.value.rows)),
@decreases
  testedWord.durations.len() - i
@begin
  let ghost_c = condition.zone.value; let ghost_i = i; let ghost_d = testedWord.durations; let ghost_n = this.timedCondition.zone.value.rows; assert(ghost_d[i] is Fin);
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(condition.zone.value, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, ghost_d, ghost_i + 1, ghost_n)) by { lem_durs_step(v, ghost_d, ghost_i, ghost_n); assert(sat(ghost_c, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, ghost_d, ghost_i, ghost_n))); }
@exit
  lem_member(this.timedCondition.zone.value, condition.zone.value, testedWord.durations);

@fn ElementaryLanguage::sample as el_sample()
@requires
  canonical(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, this.word.len() < 0x7fff_ffff, bounded_m(this.timedCondition.zone.value), no_silent(this.word),
@ensures
  r.word == this.word, tw_ok(r.word, r.durations), sat(this.timedCondition.zone.value, wv(r.durations)),
@loop 1
@invariant
  canonical(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, this.word.len() < 0x7fff_ffff, bounded_m(this.timedCondition.zone.value),
  N == this.word.len() + 1, durations.len() == N, 0 <= i <= N, forall|k: int| 0 <= k < i ==> #[trigger] durations[k] is Fin,
  exists|v: spec_fn(int) -> real| #[trigger] extends(this.timedCondition.zone.value, durations, i, v),
@decreases
  N - i
@before
  let ghost_v0 = lem_sol_upto(this.timedCondition.zone.value, this.timedCondition.zone.value.rows); assert(extends(this.timedCondition.zone.value, durations, 0, ghost_v0));
@begin
  let ghost_i = i; let ghost_m = this.timedCondition.zone.value; let ghost_d = durations; let ghost_v = choose|v: spec_fn(int) -> real| #[trigger] extends(ghost_m, durations, i, v);
  let _ = tix(i); lem_diag_off(ghost_m); assert(bsat(ghost_m.at(i + 1, hix(i, ghost_m.rows)), ghost_v(i + 1) - ghost_v(hix(i, ghost_m.rows)))); assert(bsat(ghost_m.at(hix(i, ghost_m.rows), i + 1), ghost_v(hix(i, ghost_m.rows)) - ghost_v(i + 1)));
@end
  if ptb(ghost_m.at(ghost_i + 1, hix(ghost_i, ghost_m.rows)), ghost_m.at(hix(ghost_i, ghost_m.rows), ghost_i + 1)) { lem_samp_pt(ghost_m, ghost_v, ghost_d, ghost_i); assert(extends(ghost_m, durations, ghost_i + 1, ghost_v)); }
@exit
  lem_samp_done(this.timedCondition.zone.value, durations, choose|v: spec_fn(int) -> real| #[trigger] extends(this.timedCondition.zone.value, durations, i, v));
@loop 2
@invariant
  canonical(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, this.word.len() < 0x7fff_ffff,
  durations.len() == this.word.len() + 1, 0 <= i < durations.len(), -1 <= j < i, forall|k: int| 0 <= k < i ==> #[trigger] durations[k] is Fin,
  exists|v: spec_fn(int) -> real| #[trigger] extends(this.timedCondition.zone.value, durations, i, v) && samp_rng(this.timedCondition.zone.value, v, i, j, lower, upper) && sum == fin(v(j + 2) - v(i + 1)),
@decreases
  j + 1
@begin
  let ghost_m = this.timedCondition.zone.value; let ghost_j = j; let ghost_h = hix(i, ghost_m.rows);
  let ghost_v = choose|v: spec_fn(int) -> real| #[trigger] extends(ghost_m, durations, i, v) && samp_rng(ghost_m, v, i, j, lower, upper) && sum == fin(v(j + 2) - v(i + 1));
  let _ = tix(j); let _ = tix(i); assert(dur(ghost_v, j, j, ghost_m.rows) == dv(durations[j]));
  lem_diag_off(ghost_m); assert(bsat(ghost_m.at(j + 1, ghost_h), ghost_v(j + 1) - ghost_v(ghost_h))); assert(bsat(ghost_m.at(ghost_h, j + 1), ghost_v(ghost_h) - ghost_v(j + 1)));
  let ghost_lo = lower; let ghost_up = upper;
@end
  assert(samp_rng(ghost_m, ghost_v, i, ghost_j - 1, lower, upper)) by { assert(okb(ghost_m.at(ghost_j + 1, ghost_h)) && okb(ghost_m.at(ghost_h, ghost_j + 1))); }
@exit
  let ghost_v2 = choose|v: spec_fn(int) -> real| #[trigger] extends(this.timedCondition.zone.value, durations, i, v) && samp_rng(this.timedCondition.zone.value, v, i, j, lower, upper) && sum == fin(v(j + 2) - v(i + 1));
  let ghost_w = lem_samp_mid(this.timedCondition.zone.value, ghost_v2, durations, i, lower, upper);

@fn ElementaryLanguage::convexHull as el_hull(elementaryLanguages)
@requires
  forall|k: int| 0 <= k < elementaryLanguages.len() ==> el_member(#[trigger] elementaryLanguages[k], elementaryLanguages[0].word),
@ensures
  elementaryLanguages.len() == 0 ==> r.word.len() == 0 && zerom(r.timedCondition.zone.value, 2),
  elementaryLanguages.len() > 0 ==> el_member(r, elementaryLanguages[0].word) && (forall|k: int| 0 <= k < elementaryLanguages.len() ==> subset((#[trigger] elementaryLanguages[k]).timedCondition.zone.value, r.timedCondition.zone.value)),
  // every zone that contains all of them contains the hull
  elementaryLanguages.len() > 0 ==> forall|d: Mat| #[trigger] el_above(elementaryLanguages, d, elementaryLanguages.len() as int) ==> subset(r.timedCondition.zone.value, d),
  elementaryLanguages.len() > 0 && el_bounded(elementaryLanguages) ==> intm(r.timedCondition.zone.value) && bounded_m(r.timedCondition.zone.value),
@loop 1
@invariant
  forall|k: int| 0 <= k < elementaryLanguages.len() ==> el_member(#[trigger] elementaryLanguages[k], elementaryLanguages[0].word),
  elementaryLanguages.len() > 0, rng1 == elementaryLanguages, 0 <= it1 <= elementaryLanguages.len(), el_member(result, elementaryLanguages[0].word),
  it1 == 0 ==> result == elementaryLanguages[0],
  el_bounded(elementaryLanguages) ==> intm(result.timedCondition.zone.value) && bounded_m(result.timedCondition.zone.value),
  forall|k: int| 0 <= k < it1 ==> subset((#[trigger] elementaryLanguages[k]).timedCondition.zone.value, result.timedCondition.zone.value),
  forall|d: Mat| #[trigger] el_above(elementaryLanguages, d, max2(it1, 1)) ==> subset(result.timedCondition.zone.value, d),
@decreases
  elementaryLanguages.len() - it1
@begin
  let ghost_r = result.timedCondition.zone.value; let ghost_k = it1; let ghost_e = elementaryLanguages[it1].timedCondition.zone.value; assert(el_member(elementaryLanguages[it1], elementaryLanguages[0].word));
@end
  assert forall|k: int| 0 <= k < ghost_k + 1 implies subset((#[trigger] elementaryLanguages[k]).timedCondition.zone.value, result.timedCondition.zone.value) by { if k < ghost_k { lem_subset_trans(elementaryLanguages[k].timedCondition.zone.value, ghost_r, result.timedCondition.zone.value); } }
  assert forall|d: Mat| #[trigger] el_above(elementaryLanguages, d, ghost_k + 1) implies subset(result.timedCondition.zone.value, d) by { assert(el_above(elementaryLanguages, d, max2(ghost_k, 1))); assert(subset(ghost_r, d)); assert(subset(elementaryLanguages[ghost_k].timedCondition.zone.value, d)); }
@exit
  assert forall|d: Mat| #[trigger] el_above(elementaryLanguages, d, elementaryLanguages.len() as int) implies subset(result.timedCondition.zone.value, d) by { assert(el_above(elementaryLanguages, d, max2(it1, 1))); }

@fn ElementaryLanguage::constrain as el_constrain(prefix)
@requires
  wf(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, tw_ok(prefix.word, prefix.durations),
  prefix.word.len() <= this.word.len(), prefix.word == this.word.subrange(0, prefix.word.len() as int), this.word.len() < 0x7fff_ffff,
  // some word of the language extends the prefix
  exists|v: spec_fn(int) -> real| sat(this.timedCondition.zone.value, v) && #[trigger] durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows) && dv(prefix.durations.last()) <= dur(v, prefix.word.len() as int, prefix.word.len() as int, this.timedCondition.zone.value.rows),
@ensures
  r.word == this.word, wf(r.timedCondition.zone.value), r.timedCondition.zone.value.rows == this.timedCondition.zone.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(r.timedCondition.zone.value, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows)),
@entry
  let ghost_v = choose|v: spec_fn(int) -> real| sat(this.timedCondition.zone.value, v) && #[trigger] durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows) && dv(prefix.durations.last()) <= dur(v, prefix.word.len() as int, prefix.word.len() as int, this.timedCondition.zone.value.rows);
  assert(this.word.subrange(0, min2(0 + prefix.word.len() as int, this.word.len() as int)) =~= prefix.word);
@loop 1
@invariant
  wf(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2, tw_ok(prefix.word, prefix.durations), prefix.word.len() <= this.word.len(),
  exists|v: spec_fn(int) -> real| sat(this.timedCondition.zone.value, v) && #[trigger] durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows) && dv(prefix.durations.last()) <= dur(v, prefix.word.len() as int, prefix.word.len() as int, this.timedCondition.zone.value.rows),
  0 <= i <= prefix.word.len(), wf(resultingCondition.zone.value), resultingCondition.zone.value.rows == this.timedCondition.zone.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(resultingCondition.zone.value, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, prefix.durations, i, this.timedCondition.zone.value.rows)),
@decreases
  prefix.word.len() - i
@begin
  let ghost_c = resultingCondition.zone.value; let ghost_i = i; let ghost_d = prefix.durations; let ghost_n = this.timedCondition.zone.value.rows; assert(ghost_d[i] is Fin);
  let ghost_v = choose|v: spec_fn(int) -> real| sat(this.timedCondition.zone.value, v) && #[trigger] durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows) && dv(prefix.durations.last()) <= dur(v, prefix.word.len() as int, prefix.word.len() as int, this.timedCondition.zone.value.rows);
  let _ = tix(i); assert(durs_upto(ghost_v, ghost_d, i, ghost_n)); assert(sat(ghost_c, ghost_v)); assert(bsat(ghost_c.at(hix(i, ghost_n), i + 1), ghost_v(hix(i, ghost_n)) - ghost_v(i + 1)));
@anchor_after call_restrictLowerBound
  assert(bsat(resultingCondition.zone.value.at(ghost_i + 1, hix(ghost_i, ghost_n)), ghost_v(ghost_i + 1) - ghost_v(hix(ghost_i, ghost_n)))) by { assert(sat(resultingCondition.zone.value, ghost_v)); }
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(resultingCondition.zone.value, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, ghost_d, ghost_i + 1, ghost_n)) by { lem_durs_step(v, ghost_d, ghost_i, ghost_n); assert(sat(ghost_c, v) == (sat(this.timedCondition.zone.value, v) && durs_upto(v, ghost_d, ghost_i, ghost_n))); }
@exit
  let ghost_n = this.timedCondition.zone.value.rows;
  let ghost_v = choose|v: spec_fn(int) -> real| sat(this.timedCondition.zone.value, v) && #[trigger] durs_upto(v, prefix.durations, prefix.word.len() as int, this.timedCondition.zone.value.rows) && dv(prefix.durations.last()) <= dur(v, prefix.word.len() as int, prefix.word.len() as int, this.timedCondition.zone.value.rows);
  assert(sat(resultingCondition.zone.value, ghost_v)); assert(bsat(resultingCondition.zone.value.at(i + 1, hix(i, ghost_n)), ghost_v(i + 1) - ghost_v(hix(i, ghost_n))));

@fn ElementaryLanguage::operator== as el_eq(another)
@mode pure
@requires
  wf(this.timedCondition.zone.value), wf(another.timedCondition.zone.value),
@ensures
  canonical(this.timedCondition.zone.value) && canonical(another.timedCondition.zone.value) && this.timedCondition.zone.value.rows == this.word.len() + 2 && another.timedCondition.zone.value.rows == another.word.len() + 2 ==> r == (this.word == another.word && same_sols(this.timedCondition.zone.value, another.timedCondition.zone.value)),
@entry
  if canonical(this.timedCondition.zone.value) && canonical(another.timedCondition.zone.value) && this.timedCondition.zone.value.rows == another.timedCondition.zone.value.rows { lem_eq_off(this.timedCondition.zone.value, another.timedCondition.zone.value); }

@fn ElementaryLanguage::enumerate/vector<.*> &\) const/ as el_enumerate(result)
@requires
  canonical(this.timedCondition.zone.value), intm(this.timedCondition.zone.value), bounded_m(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2,
@ensures
  forall|k: int| 0 <= k < result1.len() ==> (#[trigger] result1[k]).word == this.word, simples(conds(result1), this.word.len() as int + 2), split_of(conds(result1), this.timedCondition.zone.value),
@return
  if result.len() == 1 && result[0] == this { let s = conds(result); assert(s =~= Seq::<TimedCondition>::empty().push(this.timedCondition)); assert forall|v: spec_fn(int) -> real| #[trigger] cnt(s, v) == one(sat(this.timedCondition.zone.value, v)) by { lem_cnt_push(Seq::<TimedCondition>::empty(), this.timedCondition, v); } }
@anchor_after result#3
  assert(conds(result) =~= simpleTimedConditions);

@fn ElementaryLanguage::enumerate/^std::vector<.*> \(\) const/ as el_enumerate0()
@requires
  canonical(this.timedCondition.zone.value), intm(this.timedCondition.zone.value), bounded_m(this.timedCondition.zone.value), this.timedCondition.zone.value.rows == this.word.len() + 2,
@ensures
  forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).word == this.word, simples(conds(r), this.word.len() as int + 2), split_of(conds(r), this.timedCondition.zone.value), nsplit(this.timedCondition.zone.value, r.len() as int),
@return
  assert(nsplit_by(this.timedCondition.zone.value, r.len() as int, conds(r)));
