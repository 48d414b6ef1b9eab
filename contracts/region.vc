// include/forward_regional_elementary_language.hh, include/backward_regional_elementary_language.hh
@fn ForwardRegionalElementaryLanguage::fromTimedWord as fr_of_word(timedWord)
@requires
  tw_ok(timedWord.word, timedWord.durations), timedWord.word.len() <= 250,
@ensures
  r.base.word == timedWord.word, region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 0), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the language is the region of the word
  reg_of(r.base.timedCondition.zone.value, timedWord.durations), nnd(timedWord.durations) ==> nn(r.base.timedCondition.zone.value),
@loop 1
@invariant
  tw_ok(timedWord.word, timedWord.durations), timedWord.word.len() <= 250, -1 <= i <= timedWord.durations.len() - 2,
  acc_from(timedWord.durations, accumulatedDuration, i + 1), fracs_from(timedWord.durations, fractionalPart, i + 1),
@decreases
  i + 1
@before
  let ghost_d = timedWord.durations; let ghost_l = ghost_d.len() - 1; assert(ghost_d[ghost_l] is Fin); lem_rsum_front(ghost_d, ghost_l); assert(ghost_d.subrange(ghost_d.len() as int, ghost_d.len() as int) =~= Seq::<D>::empty());
@begin
  lem_rsum_front(timedWord.durations, i); assert(timedWord.durations[i] is Fin); assert(accumulatedDuration[i + 1] == fin(rsum(timedWord.durations.subrange(i + 1, timedWord.durations.len() as int))));
@exit
  lem_av_wv(timedWord.durations, accumulatedDuration);
  assert(in_unit(fractionalPart)) by { assert forall|k: int| 0 <= k < fractionalPart.len() implies (#[trigger] fractionalPart[k]) is Fin && 0real <= dv(fractionalPart[k]) < 1real by {} }
@return
  lem_regw(r.base.timedCondition.zone.value, timedWord.durations, accumulatedDuration, fractionalPart, r.fractionalOrder.order, 0);
  if nnd(timedWord.durations) { lem_nn_reg(r.base.timedCondition.zone.value, timedWord.durations); }

@fn BackwardRegionalElementaryLanguage::fromTimedWord as br_of_word(timedWord)
@requires
  tw_ok(timedWord.word, timedWord.durations), timedWord.word.len() <= 250,
@ensures
  r.base.word == timedWord.word, region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 1), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the language is the region of the word
  reg_of(r.base.timedCondition.zone.value, timedWord.durations), nnd(timedWord.durations) ==> nn(r.base.timedCondition.zone.value),
@loop 1
@invariant
  tw_ok(timedWord.word, timedWord.durations), timedWord.word.len() <= 250, 1 <= i <= timedWord.durations.len(),
  front_upto(timedWord.durations, accumulatedDurationFromFront, i), bfracs_upto(timedWord.durations, fractionalPart, i),
@decreases
  timedWord.durations.len() - i
@before
  assert(timedWord.durations[0] is Fin); lem_front(timedWord.durations, 0);
@begin
  lem_front(timedWord.durations, i); assert(timedWord.durations[i] is Fin); assert(accumulatedDurationFromFront[i - 1] == fin(rsum(timedWord.durations.subrange(0, i))));
@exit
  assert(in_unit(fractionalPart)) by { assert forall|k: int| 0 <= k < fractionalPart.len() implies (#[trigger] fractionalPart[k]) is Fin && 0real <= dv(fractionalPart[k]) < 1real by {} }
@loop 2
@invariant
  tw_ok(timedWord.word, timedWord.durations), timedWord.word.len() <= 250, -1 <= i <= timedWord.durations.len() - 2,
  acc_from(timedWord.durations, accumulatedDurationFromBack, i + 1),
@decreases
  i + 1
@before
  let ghost_d = timedWord.durations; let ghost_l = ghost_d.len() - 1; assert(ghost_d[ghost_l] is Fin); lem_rsum_front(ghost_d, ghost_l); assert(ghost_d.subrange(ghost_d.len() as int, ghost_d.len() as int) =~= Seq::<D>::empty());
@begin
  lem_rsum_front(timedWord.durations, i); assert(timedWord.durations[i] is Fin); assert(accumulatedDurationFromBack[i + 1] == fin(rsum(timedWord.durations.subrange(i + 1, timedWord.durations.len() as int))));
@exit
  lem_av_wv(timedWord.durations, accumulatedDurationFromBack);
@return
  lem_regw(r.base.timedCondition.zone.value, timedWord.durations, accumulatedDurationFromBack, fractionalPart, r.fractionalOrder.order, 1);
  if nnd(timedWord.durations) { lem_nn_reg(r.base.timedCondition.zone.value, timedWord.durations); }

@fn ForwardRegionalElementaryLanguage::successor/^.*\(char\)/ as fr_succ_event(action)
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2, this.base.word.len() <= 250,
@ensures
  r.base.word == this.base.word.push(action), region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 0), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the words of this language followed by the event, and a last duration of zero
  ext_n(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value), forall|v: spec_fn(int) -> real| #[trigger] sat(r.base.timedCondition.zone.value, v) == (sat(this.base.timedCondition.zone.value, v) && v(this.base.timedCondition.zone.value.rows) == v(0)),
  r.fractionalOrder.order =~= fo_ext(this.fractionalOrder.order, this.base.timedCondition.zone.value.rows - 1),
  nn(this.base.timedCondition.zone.value) ==> nn(r.base.timedCondition.zone.value),
@return
  lem_reg_ext_n(this.base.timedCondition.zone.value, this.fractionalOrder.order, r.base.timedCondition.zone.value); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size); assert(r.fractionalOrder.order =~= fo_ext(this.fractionalOrder.order, this.base.timedCondition.zone.value.rows - 1));
  if nn(this.base.timedCondition.zone.value) { lem_nn_ext_n(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value); }

@fn ForwardRegionalElementaryLanguage::successor/\(\)/ as fr_succ()
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2,
@ensures
  r.base.word == this.base.word, region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 0), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the region that is entered next when time elapses
  st_step(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value, 0), st_moved(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value, 0, fo_succ_vars(this.fractionalOrder.order), true), r.fractionalOrder.order =~= fo_succ(this.fractionalOrder.order),
  nn(this.base.timedCondition.zone.value) ==> nn(r.base.timedCondition.zone.value),
@entry
  lem_fin(this.base.timedCondition.zone.value, 0); lem_vars(this.fractionalOrder.order, this.fractionalOrder.size);
@return
  assert(r.fractionalOrder.order =~= fo_succ(this.fractionalOrder.order)); lem_rise(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0, r.base.timedCondition.zone.value); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size);
  if nn(this.base.timedCondition.zone.value) { lem_nn_rise(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value); }

@fn ForwardRegionalElementaryLanguage::successorAssign as fr_succ_assign()
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2,
@ensures
  this1.base.word == this.base.word, region_ok(this1.base.timedCondition.zone.value, this1.fractionalOrder.order, 0), fo_asc(this1.fractionalOrder.order), this1.fractionalOrder.size == this1.base.word.len() + 1, this1.base.timedCondition.zone.value.rows == this1.base.word.len() + 2,
  // the region that is entered next when time elapses
  st_step(this.base.timedCondition.zone.value, this1.base.timedCondition.zone.value, 0), st_moved(this.base.timedCondition.zone.value, this1.base.timedCondition.zone.value, 0, fo_succ_vars(this.fractionalOrder.order), true), this1.fractionalOrder.order =~= fo_succ(this.fractionalOrder.order),
  nn(this.base.timedCondition.zone.value) ==> nn(this1.base.timedCondition.zone.value),
@entry
  lem_fin(this.base.timedCondition.zone.value, 0); lem_vars(this.fractionalOrder.order, this.fractionalOrder.size);
@return
  assert(this.fractionalOrder.order =~= fo_succ(old_this.fractionalOrder.order)); lem_rise(old_this.base.timedCondition.zone.value, old_this.fractionalOrder.order, 0, this.base.timedCondition.zone.value); lem_asc(old_this.fractionalOrder.order, old_this.fractionalOrder.size);
  if nn(old_this.base.timedCondition.zone.value) { lem_nn_rise(old_this.base.timedCondition.zone.value, this.base.timedCondition.zone.value); }

@fn ForwardRegionalElementaryLanguage::immediatePrefix as fr_prefix()
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2,
@ensures
  // the only prefix of the region of the empty word without delay is itself
  r is None == (this.base.word.len() == 0 && this.base.timedCondition.zone.value.at(this.base.timedCondition.zone.value.rows - 1, 0) == bz() && this.base.timedCondition.zone.value.at(0, this.base.timedCondition.zone.value.rows - 1) == bz()),
  r matches Some(q) ==> region_ok(q.base.timedCondition.zone.value, q.fractionalOrder.order, 0) && fo_asc(q.fractionalOrder.order) && q.fractionalOrder.size == q.base.word.len() + 1 && q.base.timedCondition.zone.value.rows == q.base.word.len() + 2,
  // the event is removed exactly when the last duration is zero
  r matches Some(q) ==> (q.base.word.len() < this.base.word.len()) == isfirst(this.base.timedCondition.zone.value, 0),
  // this is the successor of the prefix
  r matches Some(q) ==> fr_next(q.base.timedCondition.zone.value, q.fractionalOrder.order, q.base.word, this.base.timedCondition.zone.value, this.fractionalOrder.order, this.base.word),
@entry
  lem_fin(this.base.timedCondition.zone.value, 0); lem_vars(this.fractionalOrder.order, this.fractionalOrder.size); lem_two(this.fractionalOrder.order, this.fractionalOrder.size);
  if this.base.timedCondition.zone.value.at(this.base.timedCondition.zone.value.rows - 1, 0) == bz() && this.base.timedCondition.zone.value.at(0, this.base.timedCondition.zone.value.rows - 1) == bz() { lem_reg_first(this.base.timedCondition.zone.value, this.fractionalOrder.order, 0, this.base.timedCondition.zone.value.rows - 2); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size); }
@return
  if r is Some {
    let q = r->Some_0; let o = this.fractionalOrder.order;
    if q.base.word.len() == this.base.word.len() { assert(q.fractionalOrder.order =~= fo_pred(o)); lem_fall(this.base.timedCondition.zone.value, o, 0, q.base.timedCondition.zone.value); lem_asc(o, this.fractionalOrder.size); }
    else { assert(q.fractionalOrder.order =~= fo_rem(o)); lem_reg_rem_n(this.base.timedCondition.zone.value, o, q.base.timedCondition.zone.value); lem_asc(o, this.fractionalOrder.size); assert(this.base.word =~= q.base.word.push(this.base.word.last())); }
  }

@fn BackwardRegionalElementaryLanguage::predecessor/^.*\(char\)/ as br_pred_event(action)
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 1), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2, this.base.word.len() <= 250,
@ensures
  r.base.word == Seq::<int>::empty().push(action) + this.base.word, region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 1), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the words of this language after the event, and a first duration of zero
  ext_z(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value), forall|v: spec_fn(int) -> real| #[trigger] sat(r.base.timedCondition.zone.value, v) == (sat(this.base.timedCondition.zone.value, shifted(v)) && v(1) == v(2)),
  r.fractionalOrder.order =~= fo_ext0(this.fractionalOrder.order),
  nn(this.base.timedCondition.zone.value) ==> nn(r.base.timedCondition.zone.value),
@return
  lem_reg_ext_z(this.base.timedCondition.zone.value, this.fractionalOrder.order, r.base.timedCondition.zone.value); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size); assert(r.fractionalOrder.order =~= fo_ext0(this.fractionalOrder.order));
  if nn(this.base.timedCondition.zone.value) { lem_nn_ext_z(this.base.timedCondition.zone.value, r.base.timedCondition.zone.value); }

@fn BackwardRegionalElementaryLanguage::predecessor/\(\)/ as br_pred()
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 1), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2,
@ensures
  r.base.word == this.base.word, region_ok(r.base.timedCondition.zone.value, r.fractionalOrder.order, 1), fo_asc(r.fractionalOrder.order), r.fractionalOrder.size == r.base.word.len() + 1, r.base.timedCondition.zone.value.rows == r.base.word.len() + 2,
  // the region that is entered next when the first delay grows
  st_step(r.base.timedCondition.zone.value, this.base.timedCondition.zone.value, 1), st_moved(r.base.timedCondition.zone.value, this.base.timedCondition.zone.value, 1, fo_pred_vars(this.fractionalOrder.order), true), r.fractionalOrder.order =~= fo_pred(this.fractionalOrder.order),
  nn(this.base.timedCondition.zone.value) ==> nn(r.base.timedCondition.zone.value),
@entry
  lem_fin(this.base.timedCondition.zone.value, 1); lem_vars(this.fractionalOrder.order, this.fractionalOrder.size); lem_two(this.fractionalOrder.order, this.fractionalOrder.size);
@return
  assert(r.fractionalOrder.order =~= fo_pred(this.fractionalOrder.order)); lem_fall(this.base.timedCondition.zone.value, this.fractionalOrder.order, 1, r.base.timedCondition.zone.value); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size);
  if nn(this.base.timedCondition.zone.value) { lem_nn_rise1(r.base.timedCondition.zone.value, this.base.timedCondition.zone.value); }

@fn BackwardRegionalElementaryLanguage::immediateSuffix as br_suffix()
@requires
  region_ok(this.base.timedCondition.zone.value, this.fractionalOrder.order, 1), fo_asc(this.fractionalOrder.order), this.fractionalOrder.size == this.base.word.len() + 1, this.base.timedCondition.zone.value.rows == this.base.word.len() + 2,
@ensures
  // the only suffix of the region of the empty word without delay is itself
  r is None == (this.base.word.len() == 0 && this.base.timedCondition.zone.value.at(1, hix(0, this.base.timedCondition.zone.value.rows)) == bz() && this.base.timedCondition.zone.value.at(hix(0, this.base.timedCondition.zone.value.rows), 1) == bz()),
  r matches Some(q) ==> region_ok(q.base.timedCondition.zone.value, q.fractionalOrder.order, 1) && fo_asc(q.fractionalOrder.order) && q.fractionalOrder.size == q.base.word.len() + 1 && q.base.timedCondition.zone.value.rows == q.base.word.len() + 2,
  // the event is removed exactly when the first duration is zero
  r matches Some(q) ==> (q.base.word.len() < this.base.word.len()) == isfirst(this.base.timedCondition.zone.value, 1),
  // this is the predecessor of the suffix
  r matches Some(q) ==> br_next(q.base.timedCondition.zone.value, q.fractionalOrder.order, q.base.word, this.base.timedCondition.zone.value, this.fractionalOrder.order, this.base.word),
@entry
  lem_fin(this.base.timedCondition.zone.value, 1); lem_vars(this.fractionalOrder.order, this.fractionalOrder.size); lem_two(this.fractionalOrder.order, this.fractionalOrder.size);
  if this.base.timedCondition.zone.value.at(1, hix(0, this.base.timedCondition.zone.value.rows)) == bz() && this.base.timedCondition.zone.value.at(hix(0, this.base.timedCondition.zone.value.rows), 1) == bz() { lem_reg_first(this.base.timedCondition.zone.value, this.fractionalOrder.order, 1, 0); lem_asc(this.fractionalOrder.order, this.fractionalOrder.size); }
@return
  if r is Some {
    let q = r->Some_0; let o = this.fractionalOrder.order;
    if q.base.word.len() == this.base.word.len() { assert(q.fractionalOrder.order =~= fo_succ(o)); lem_back(this.base.timedCondition.zone.value, o, q.base.timedCondition.zone.value); lem_asc(o, this.fractionalOrder.size); }
    else { assert(q.fractionalOrder.order =~= fo_rem0(o)); lem_reg_rem_z(this.base.timedCondition.zone.value, o, q.base.timedCondition.zone.value); lem_asc(o, this.fractionalOrder.size); assert(this.base.word =~= Seq::<int>::empty().push(this.base.word[0]) + q.base.word); }
  }

@fn ForwardRegionalElementaryLanguage::prefixes as fr_prefixes()
@requires
  fr_inv(this),
@ensures
  // the regions of all prefixes, from the region of the empty word without delay, each one the next one of the one before
  r.len() > 0, r.last() == this, fr_first(r[0]), fr_chain(r),
@loop 1
@invariant
  resultList.len() > 0, resultList[0] == language, resultList.last() == this, fr_chain(resultList),
  next is None == fr_first(language), next matches Some(q) ==> fr_link(q, language) && fr_inv(q) && (q.base.word.len() < language.base.word.len() || (q.base.word.len() == language.base.word.len() && fr_meas(q) < fr_meas(language))) && fr_meas(q) >= 0,
@decreases
  if next is Some { 1int + language.base.word.len() } else { 0int }, if next is Some { fr_meas(language) } else { 0int }
@begin
  let ghost_l = language; let ghost_s = resultList; lem_fr_front(next->Some_0, ghost_s);
@anchor_after next#2
  if next is Some { let ghost_q = next->Some_0; lem_before(ghost_q.base.timedCondition.zone.value, ghost_q.fractionalOrder.order, ghost_q.base.word, language.base.timedCondition.zone.value, language.fractionalOrder.order, language.base.word); }
@anchor_after next#1
  if next is Some { let ghost_q = next->Some_0; lem_before(ghost_q.base.timedCondition.zone.value, ghost_q.fractionalOrder.order, ghost_q.base.word, language.base.timedCondition.zone.value, language.fractionalOrder.order, language.base.word); }
@endloop

@fn BackwardRegionalElementaryLanguage::prefixes as br_prefixes()
@requires
  br_inv(this),
@ensures
  // the regions of all suffixes, from the region of the empty word without delay, each one the next one of the one before
  r.len() > 0, r.last() == this, br_first(r[0]), br_chain(r),
@loop 1
@invariant
  resultList.len() > 0, resultList[0] == language, resultList.last() == this, br_chain(resultList),
  next is None == br_first(language), next matches Some(q) ==> br_link(q, language) && br_inv(q) && (q.base.word.len() < language.base.word.len() || (q.base.word.len() == language.base.word.len() && br_meas(q) < br_meas(language))) && br_meas(q) >= 0,
@decreases
  if next is Some { 1int + language.base.word.len() } else { 0int }, if next is Some { br_meas(language) } else { 0int }
@begin
  let ghost_l = language; let ghost_s = resultList; lem_br_front(next->Some_0, ghost_s);
@anchor_after next#2
  if next is Some { let ghost_q = next->Some_0; lem_beforeb(ghost_q.base.timedCondition.zone.value, ghost_q.fractionalOrder.order, ghost_q.base.word, language.base.timedCondition.zone.value, language.fractionalOrder.order, language.base.word); }
@anchor_after next#1
  if next is Some { let ghost_q = next->Some_0; lem_beforeb(ghost_q.base.timedCondition.zone.value, ghost_q.fractionalOrder.order, ghost_q.base.word, language.base.timedCondition.zone.value, language.fractionalOrder.order, language.base.word); }
@endloop
