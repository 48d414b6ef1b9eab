// include/timed_condition.hh
@fn TimedCondition::size as tc_size()
@mode pure
@ensures
  r == this.zone.value.cols - 1,

@fn TimedCondition::TimedCondition/^void \(\)$/ as tc_default()
@ensures
  zerom(this1.zone.value, 2),

@fn TimedCondition::empty as tc_empty()
@ensures
  zerom(r.zone.value, 2),

@fn TimedCondition::getLowerBound as tc_lower(i, j)
@mode pure
@requires
  wf(this.zone.value), 0 <= i < this.zone.value.rows - 1, 0 <= j < this.zone.value.rows - 1,
@ensures
  r == this.zone.value.at(hix(j, this.zone.value.rows), i + 1),
  canonical(this.zone.value) ==> tightest(this.zone.value, hix(j, this.zone.value.rows), i + 1, r),
@entry
  lem_tightest(this.zone.value, hix(j, this.zone.value.rows), i + 1);

@fn TimedCondition::getUpperBound as tc_upper(i, j)
@mode pure
@requires
  wf(this.zone.value), 0 <= i < this.zone.value.rows - 1, 0 <= j < this.zone.value.rows - 1,
@ensures
  r == this.zone.value.at(i + 1, hix(j, this.zone.value.rows)),
  canonical(this.zone.value) ==> tightest(this.zone.value, i + 1, hix(j, this.zone.value.rows), r),
@entry
  lem_tightest(this.zone.value, i + 1, hix(j, this.zone.value.rows));

@fn TimedCondition::restrictLowerBound as tc_restrict_lower(i, j, lowerBound, force)
@requires
  wf(this.zone.value), okb(lowerBound), 0 <= i < this.zone.value.rows - 1, 0 <= j < this.zone.value.rows - 1,
@ensures
  wf(this1.zone.value), this1.zone.value.rows == this.zone.value.rows,
  !force ==> le_mat(this1.zone.value, this.zone.value),
  !force ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.zone.value, v) == (sat(this.zone.value, v) && bsat(lowerBound, -dur(v, i, j, this.zone.value.rows))),
  force ==> same_sols(mset(this.zone.value, hix(j, this.zone.value.rows), i + 1, lowerBound), this1.zone.value) && le_mat(this1.zone.value, mset(this.zone.value, hix(j, this.zone.value.rows), i + 1, lowerBound)),
  diag_ok(this1.zone.value) ==> closed(this1.zone.value),
  intm(this.zone.value) && intb(lowerBound) ==> intm(this1.zone.value),
@anchor_before call_canonize
  let h = hix(j, this.zone.value.rows);
  if !force { assert(okb(old_this.zone.value.at(h, i + 1))); lem_set_min(old_this.zone.value, this.zone.value, h, i + 1, lowerBound); }

@fn TimedCondition::restrictUpperBound as tc_restrict_upper(i, j, upperBound, force)
@requires
  wf(this.zone.value), okb(upperBound), 0 <= i < this.zone.value.rows - 1, 0 <= j < this.zone.value.rows - 1,
@ensures
  wf(this1.zone.value), this1.zone.value.rows == this.zone.value.rows,
  !force ==> le_mat(this1.zone.value, this.zone.value),
  !force ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.zone.value, v) == (sat(this.zone.value, v) && bsat(upperBound, dur(v, i, j, this.zone.value.rows))),
  force ==> same_sols(mset(this.zone.value, i + 1, hix(j, this.zone.value.rows), upperBound), this1.zone.value) && le_mat(this1.zone.value, mset(this.zone.value, i + 1, hix(j, this.zone.value.rows), upperBound)),
  diag_ok(this1.zone.value) ==> closed(this1.zone.value),
  intm(this.zone.value) && intb(upperBound) ==> intm(this1.zone.value),
@anchor_before call_canonize
  let h = hix(j, this.zone.value.rows);
  if !force { assert(okb(old_this.zone.value.at(i + 1, h))); lem_set_min(old_this.zone.value, this.zone.value, i + 1, h, upperBound); }

@fn TimedCondition::convexHullAssign as tc_hull_assign(condition)
@requires
  wf(this.zone.value), wf(condition.zone.value), this.zone.value.rows == condition.zone.value.rows,
@ensures
  wf(this1.zone.value), this1.zone.value.rows == this.zone.value.rows, subset(this.zone.value, this1.zone.value), subset(condition.zone.value, this1.zone.value),
  canonical(this.zone.value) && canonical(condition.zone.value) ==> canonical(this1.zone.value) && is_least_hull(this.zone.value, condition.zone.value, this1.zone.value),
  intm(this.zone.value) && intm(condition.zone.value) ==> intm(this1.zone.value),
  bounded_m(this.zone.value) && bounded_m(condition.zone.value) ==> bounded_m(this1.zone.value),
@return
  lem_bounded_hull(old_this.zone.value, condition.zone.value, this.zone.value);
  lem_hull(old_this.zone.value, condition.zone.value, this.zone.value);

@fn TimedCondition::convexHull as tc_hull(condition)
@requires
  wf(this.zone.value), wf(condition.zone.value), this.zone.value.rows == condition.zone.value.rows,
@ensures
  wf(r.zone.value), r.zone.value.rows == this.zone.value.rows, subset(this.zone.value, r.zone.value), subset(condition.zone.value, r.zone.value),
  canonical(this.zone.value) && canonical(condition.zone.value) ==> canonical(r.zone.value) && is_least_hull(this.zone.value, condition.zone.value, r.zone.value),
  intm(this.zone.value) && intm(condition.zone.value) ==> intm(r.zone.value),
  bounded_m(this.zone.value) && bounded_m(condition.zone.value) ==> bounded_m(r.zone.value),
@return
  lem_bounded_hull(this.zone.value, condition.zone.value, r.zone.value);
  lem_hull(this.zone.value, condition.zone.value, r.zone.value);

@fn TimedCondition::includes as tc_includes(condition)
@requires
  wf(this.zone.value), wf(condition.zone.value), this.zone.value.rows == condition.zone.value.rows,
@ensures
  r == le_mat_off(condition.zone.value, this.zone.value),
  r && diag_ok(this.zone.value) ==> subset(condition.zone.value, this.zone.value),
  canonical(condition.zone.value) && subset(condition.zone.value, this.zone.value) ==> r,

@fn TimedCondition::operator&& as tc_and(another)
@requires
  wf(this.zone.value), wf(another.zone.value), this.zone.value.rows == another.zone.value.rows,
@ensures
  wf(r.zone.value), r.zone.value.rows == this.zone.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(r.zone.value, v) == (sat(this.zone.value, v) && sat(another.zone.value, v)),
  diag_ok(r.zone.value) ==> closed(r.zone.value),

@fn TimedCondition::operator== as tc_eq(condition)
@mode pure
@requires
  wf(this.zone.value), wf(condition.zone.value),
@ensures
  r == eq_off(this.zone.value, condition.zone.value),
  canonical(this.zone.value) && canonical(condition.zone.value) ==> r == same_sols(this.zone.value, condition.zone.value),
@entry
  if canonical(this.zone.value) && canonical(condition.zone.value) && this.zone.value.rows == condition.zone.value.rows { lem_eq_off(this.zone.value, condition.zone.value); }

@fn TimedCondition::operator!= as tc_ne(condition)
@mode pure
@requires
  wf(this.zone.value), wf(condition.zone.value),
@ensures
  r == !eq_off(this.zone.value, condition.zone.value),

@fn TimedCondition::isSatisfiableNoCanonize as tc_sat_nc()
@requires
  wf(this.zone.value),
@ensures
  nonempty(this.zone.value) ==> r, r ==> diag_ok(this.zone.value), closed(this.zone.value) ==> r == nonempty(this.zone.value),

@fn TimedCondition::hasPrefix as tc_has_prefix()
@mode pure
@requires
  wf(this.zone.value), 2 <= this.zone.value.rows,
@ensures
  // the last duration is not forced to be zero
  canonical(this.zone.value) ==> r == (exists|v: spec_fn(int) -> real| #[trigger] sat(this.zone.value, v) && v(this.zone.value.rows - 1) != v(0)),
  r == !(this.zone.value.at(this.zone.value.rows - 1, 0) == bz() && this.zone.value.at(0, this.zone.value.rows - 1) == bz()),
@entry
  lem_not_zero(this.zone.value, this.zone.value.rows - 1, 0);

@fn TimedCondition::hasSuffix as tc_has_suffix()
@mode pure
@requires
  wf(this.zone.value), 2 <= this.zone.value.rows,
@ensures
  // the first duration is not forced to be zero
  canonical(this.zone.value) ==> r == (exists|v: spec_fn(int) -> real| #[trigger] sat(this.zone.value, v) && v(1) != v(hix(0, this.zone.value.rows))),
  r == !(this.zone.value.at(1, hix(0, this.zone.value.rows)) == bz() && this.zone.value.at(hix(0, this.zone.value.rows), 1) == bz()),
@entry
  lem_not_zero(this.zone.value, 1, hix(0, this.zone.value.rows));

@fn TimedCondition::isPoint as tc_is_point(i)
@mode pure
@requires
  wf(this.zone.value), 0 <= i < this.zone.value.rows - 1,
@ensures
  r == ptb(this.zone.value.at(i + 1, 0), this.zone.value.at(0, i + 1)),

@fn TimedCondition::TimedCondition/vector<double>/ as tc_region(accumulatedDuration)
@requires
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255,
@ensures
  this1.zone.value.rows == accumulatedDuration.len() + 1, canonical(this1.zone.value), intm(this1.zone.value),
  sat(this1.zone.value, av(accumulatedDuration)), simple(this1.zone.value),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.zone.value, v) == same_region(v, av(accumulatedDuration), accumulatedDuration.len() as int + 1),
  forall|x: int, y: int| 0 <= x < this1.zone.value.rows && 0 <= y < this1.zone.value.rows && x != y ==> #[trigger] this1.zone.value.at(x, y) == regb(av(accumulatedDuration)(x) - av(accumulatedDuration)(y)),
@loop 1
@invariant
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255, 0 <= i <= accumulatedDuration.len(),
  this.zone.value.rows == accumulatedDuration.len() + 1, canonical(this.zone.value), intm(this.zone.value), sat(this.zone.value, av(accumulatedDuration)),
  reg_done(this.zone.value, av(accumulatedDuration), i, i),
@decreases
  accumulatedDuration.len() - i
@before
  lem_top_sat(this.zone.value, av(accumulatedDuration));
@loop 2
@invariant
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255, 0 <= i < accumulatedDuration.len(), i <= j <= accumulatedDuration.len(),
  this.zone.value.rows == accumulatedDuration.len() + 1, canonical(this.zone.value), intm(this.zone.value), sat(this.zone.value, av(accumulatedDuration)),
  reg_done(this.zone.value, av(accumulatedDuration), i, j),
@decreases
  accumulatedDuration.len() - j
@begin
  let ghost_m = this.zone.value; let ghost_x = i + 1; let ghost_y = hix(j, this.zone.value.rows); let ghost_a = av(accumulatedDuration); let ghost_d = ghost_a(ghost_x) - ghost_a(ghost_y);
  assert(accumulatedDuration[i] is Fin); if j + 1 < accumulatedDuration.len() { assert(accumulatedDuration[j + 1] is Fin); }
  lem_neg_floor(ghost_d); lem_regb(ghost_d); lem_regb(-ghost_d);
  assert(ghost_a(ghost_y) - ghost_a(ghost_x) == -ghost_d);
  let ghost_j = j;
@anchor_after call_restrictUpperBound#1
  let ghost_q = this.zone.value;
  assert(concreteDifference == fin(ghost_d));
  lem_reg_step(ghost_m, ghost_q, ghost_x, ghost_y, ghost_a);
@anchor_after call_restrictLowerBound#1
  lem_reg_step(ghost_q, this.zone.value, ghost_y, ghost_x, ghost_a);
  assert(ble(this.zone.value.at(ghost_x, ghost_y), ghost_q.at(ghost_x, ghost_y))); assert(okb(ghost_q.at(ghost_x, ghost_y)) && okb(this.zone.value.at(ghost_x, ghost_y)));
  lem_le_trans(this.zone.value, ghost_q, ghost_m);
@anchor_after call_restrictUpperBound#2
  let ghost_q = this.zone.value;
  assert(concreteDifference == fin(ghost_d));
  lem_reg_step(ghost_m, ghost_q, ghost_x, ghost_y, ghost_a);
@anchor_after call_restrictLowerBound#2
  lem_reg_step(ghost_q, this.zone.value, ghost_y, ghost_x, ghost_a);
  assert(ble(this.zone.value.at(ghost_x, ghost_y), ghost_q.at(ghost_x, ghost_y))); assert(okb(ghost_q.at(ghost_x, ghost_y)) && okb(this.zone.value.at(ghost_x, ghost_y)));
  lem_le_trans(this.zone.value, ghost_q, ghost_m);
@end
  lem_reg_done(ghost_m, this.zone.value, ghost_a, i, ghost_j);
@return
  lem_reg_final(this.zone.value, av(accumulatedDuration));

@fn TimedCondition::makeExact as tc_exact(accumulatedDuration)
@requires
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255,
@ensures
  r.zone.value.rows == accumulatedDuration.len() + 1, canonical(r.zone.value),
  forall|v: spec_fn(int) -> real| #[trigger] sat(r.zone.value, v) == same_diff(v, av(accumulatedDuration), accumulatedDuration.len() as int + 1),
@loop 1
@invariant
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255, 0 <= i <= accumulatedDuration.len(),
  result.zone.value.rows == accumulatedDuration.len() + 1, canonical(result.zone.value), sat(result.zone.value, av(accumulatedDuration)),
  ex_done(result.zone.value, av(accumulatedDuration), i, i),
@decreases
  accumulatedDuration.len() - i
@before
  lem_top_sat(result.zone.value, av(accumulatedDuration));
@loop 2
@invariant
  all_fin(accumulatedDuration), accumulatedDuration.len() <= 255, 0 <= i < accumulatedDuration.len(), i <= j <= accumulatedDuration.len(),
  result.zone.value.rows == accumulatedDuration.len() + 1, canonical(result.zone.value), sat(result.zone.value, av(accumulatedDuration)),
  ex_done(result.zone.value, av(accumulatedDuration), i, j),
@decreases
  accumulatedDuration.len() - j
@begin
  let ghost_m = result.zone.value; let ghost_x = i + 1; let ghost_y = hix(j, result.zone.value.rows); let ghost_a = av(accumulatedDuration); let ghost_d = ghost_a(ghost_x) - ghost_a(ghost_y);
  assert(accumulatedDuration[i] is Fin); if j + 1 < accumulatedDuration.len() { assert(accumulatedDuration[j + 1] is Fin); }
  assert(ghost_a(ghost_y) - ghost_a(ghost_x) == -ghost_d);
  let ghost_j = j;
@anchor_after call_restrictUpperBound#1
  let ghost_q = result.zone.value;
  assert(concreteDifference == fin(ghost_d));
  lem_ex_step(ghost_m, ghost_q, ghost_x, ghost_y, ghost_a);
@anchor_after call_restrictLowerBound#1
  lem_ex_step(ghost_q, result.zone.value, ghost_y, ghost_x, ghost_a);
  assert(ble(result.zone.value.at(ghost_x, ghost_y), ghost_q.at(ghost_x, ghost_y))); assert(okb(ghost_q.at(ghost_x, ghost_y)) && okb(result.zone.value.at(ghost_x, ghost_y)));
  lem_le_trans(result.zone.value, ghost_q, ghost_m);
@end
  lem_ex_done(ghost_m, result.zone.value, ghost_a, i, ghost_j);
@return
  lem_ex_final(r.zone.value, av(accumulatedDuration));

@fn TimedCondition::isSimple as tc_is_simple()
@requires
  wf(this.zone.value),
@ensures
  r == simple(this.zone.value),
@loop 1
@invariant
  0 <= i <= this.zone.value.rows, wf(this.zone.value), this == old_this,
  forall|a: int, b: int| 0 <= a < i && a < b < this.zone.value.rows && #[trigger] tij(a, b) ==> ptb(this.zone.value.at(a, b), this.zone.value.at(b, a)) || unitb(this.zone.value.at(a, b), this.zone.value.at(b, a)),
@decreases
  this.zone.value.rows - i
@loop 2
@invariant
  0 <= i < this.zone.value.rows, i + 1 <= j <= this.zone.value.rows, wf(this.zone.value), this == old_this,
  forall|a: int, b: int| (0 <= a < i || (a == i && b < j)) && a < b < this.zone.value.rows && #[trigger] tij(a, b) ==> ptb(this.zone.value.at(a, b), this.zone.value.at(b, a)) || unitb(this.zone.value.at(a, b), this.zone.value.at(b, a)),
@decreases
  this.zone.value.rows - j
@begin
  assert(tij(i, j));

@fn TimedCondition::toGuard as tc_to_guard()
@requires
  canonical(this.zone.value), intm(this.zone.value), this.zone.value.rows <= 256,
@ensures
  forall|v: spec_fn(int) -> real| nonneg(this.zone.value, v) ==> (#[trigger] guard_holds(r, clocks(v)) == sums_upto(this.zone.value, v, this.zone.value.rows - 1)),
  forall|k: int| 0 <= k < r.len() ==> 0 <= (#[trigger] r[k]).x < this.zone.value.rows - 1,
@loop 1
@invariant
  0 <= i <= N, N == this.zone.value.rows - 1, canonical(this.zone.value), intm(this.zone.value), this == old_this,
  forall|v: spec_fn(int) -> real| nonneg(this.zone.value, v) ==> (#[trigger] guard_holds(result, clocks(v)) == sums_upto(this.zone.value, v, i)),
  forall|k: int| 0 <= k < result.len() ==> 0 <= (#[trigger] result[k]).x < this.zone.value.rows - 1,
@decreases
  N - i
@begin
  let ghost_g = result;
  lem_diag_off(this.zone.value);
  let _ = (this.zone.value.at(i + 1, 0), this.zone.value.at(0, i + 1));
  let ghost_l = this.zone.value.at(0, i + 1); let ghost_u = this.zone.value.at(i + 1, 0); let ghost_i = i;
@end
  assert forall|v: spec_fn(int) -> real| nonneg(this.zone.value, v) implies (#[trigger] guard_holds(result, clocks(v)) == sums_upto(this.zone.value, v, i)) by {
    assert(guard_holds(ghost_g, clocks(v)) == sums_upto(this.zone.value, v, i - 1));
    assert(v(i) >= v(0));
    lem_clk_step(this.zone.value, ghost_g, result, v, i);
  }

@fn TimedCondition::operator+ as tc_concat(another)
@requires
  cat_in(this.zone.value, another.zone.value),
@ensures
  canonical(r.zone.value), r.zone.value.rows == this.zone.value.rows + another.zone.value.rows - 2,
  forall|w: spec_fn(int) -> real| #[trigger] sat(r.zone.value, w) == cat_split(this.zone.value, another.zone.value, w),
  intm(this.zone.value) && intm(another.zone.value) ==> intm(r.zone.value),
@loop 1
@invariant
  N == this.zone.value.rows - 1, M == another.zone.value.rows - 1, cat_in(this.zone.value, another.zone.value), this == old_this,
  N + 1 <= i <= max2(N + M, N + 1), result.value.rows == N + M, result.value.cols == N + M,
  forall|p: int, q: int| 0 <= p < N + M && 0 <= q < N + M ==> #[trigger] result.value.at(p, q) == cat_cp(this.zone.value, i, p, q),
@decreases
  N + M - i
@exit
  let ghost_c1 = result.value;
@loop 2
@invariant
  N == this.zone.value.rows - 1, M == another.zone.value.rows - 1, cat_in(this.zone.value, another.zone.value), this == old_this,
  1 <= i <= N + 1, result.value.rows == N + M, result.value.cols == N + M, pre_result.value.rows == N + M, pre_result.value.cols == N + M,
  forall|p: int, q: int| 0 <= p < N + M && 0 <= q < N + M ==> #[trigger] result.value.at(p, q) == (if p > N && 1 <= q < i { badd(pre_result.value.at(p, q), another.zone.value.at(p - N + 1, 1)) } else if q > N && 1 <= p < i { badd(pre_result.value.at(p, q), another.zone.value.at(1, q - N + 1)) } else { pre_result.value.at(p, q) }),
@decreases
  N + 1 - i
@anchor_before call_canonize
  assert forall|p: int, q: int| 0 <= p < N + M && 0 <= q < N + M implies #[trigger] result.value.at(p, q) == cat_cell(this.zone.value, another.zone.value, p, q) by {
    lem_badd_comm(this.zone.value.at(p, 0), another.zone.value.at(1, q - N + 1)); lem_badd_comm(this.zone.value.at(0, q), another.zone.value.at(p - N + 1, 1));
    lem_badd_comm(this.zone.value.at(0, q), another.zone.value.at(0, 1)); lem_badd_comm(this.zone.value.at(p, 0), another.zone.value.at(1, 0));
  }
  lem_cat(this.zone.value, another.zone.value, result.value);
@return
  let v = choose|v: spec_fn(int) -> real| sat(r.zone.value, v);
  lem_sat_diag(r.zone.value, v);

@fn TimedCondition::enumerate/vector<.*TimedCondition> &\) const/ as tc_enumerate(simpleConditions)
@requires
  canonical(this.zone.value), intm(this.zone.value), bounded_m(this.zone.value), 2 <= this.zone.value.rows, simpleConditions.len() == 0,
@ensures
  simples(simpleConditions1, this.zone.value.rows), split_of(simpleConditions1, this.zone.value),
@entry
  lem_finite_m(this.zone.value);
@return
  if simpleConditions.len() == 1 && simpleConditions[0] == this { assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) == one(sat(this.zone.value, v)) by { assert(simpleConditions =~= Seq::<TimedCondition>::empty().push(this)); lem_cnt_push(Seq::<TimedCondition>::empty(), this, v); } }
@anchor_after currentConditions#2
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(currentConditions, v) == one(sat(this.zone.value, v)) by { assert(cnt(simpleConditions, v) + cnt(nextConditions, v) == one(sat(this.zone.value, v))); }
  if currentConditions.len() == 0 { assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) == one(sat(this.zone.value, v)) by { assert(cnt(simpleConditions, v) + cnt(currentConditions, v) == one(sat(this.zone.value, v))); } }
@loop 1
@invariant
  this == old_this, canonical(this.zone.value), 2 <= this.zone.value.rows, 0 <= i <= this.zone.value.rows - 1,
  simples(simpleConditions, this.zone.value.rows), currentConditions.len() > 0, parts(currentConditions, this.zone.value.rows, i, i),
  forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(currentConditions, v) == one(sat(this.zone.value, v)),
@decreases
  this.zone.value.rows - 1 - i
@before
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(currentConditions, v) == one(sat(this.zone.value, v)) by { assert(currentConditions =~= Seq::<TimedCondition>::empty().push(this)); lem_cnt_push(Seq::<TimedCondition>::empty(), this, v); }
@exit
  lem_parts_end(currentConditions, this.zone.value.rows);
@loop 2
@invariant
  this == old_this, canonical(this.zone.value), 2 <= this.zone.value.rows, 0 <= i < this.zone.value.rows - 1, i <= j <= this.zone.value.rows - 1,
  simples(simpleConditions, this.zone.value.rows), currentConditions.len() > 0, parts(currentConditions, this.zone.value.rows, i, j),
  forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(currentConditions, v) == one(sat(this.zone.value, v)),
@decreases
  this.zone.value.rows - 1 - j
@exit
  lem_parts_row(currentConditions, this.zone.value.rows, i, j);
@loop 3
@invariant
  this == old_this, canonical(this.zone.value), 2 <= this.zone.value.rows, 0 <= i < this.zone.value.rows - 1, i <= j < this.zone.value.rows - 1,
  rng3 == currentConditions, 0 <= it3 <= currentConditions.len(), parts(currentConditions, this.zone.value.rows, i, j),
  simples(simpleConditions, this.zone.value.rows), parts(nextConditions, this.zone.value.rows, i, j + 1),
  forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) + cnt(currentConditions, v) - cnt(currentConditions.subrange(0, it3), v) == one(sat(this.zone.value, v)),
@decreases
  currentConditions.len() - it3
@begin
  let ghost_k = it3; let ghost_c = currentConditions[it3]; let ghost_p = ghost_c.zone.value; let ghost_s = simpleConditions; let ghost_n = nextConditions; let ghost_rows = this.zone.value.rows;
  assert(part(ghost_p, ghost_rows, i, j) && !simple(ghost_p)); assert(tij(i, j)); lem_diag_off(ghost_p); let _ = (ghost_p.at(i + 1, hix(j, ghost_rows)), ghost_p.at(hix(j, ghost_rows), i + 1));
  if srp(ghost_p, i + 1, hix(j, ghost_rows)) { assert(part(ghost_p, ghost_rows, i, j + 1)); }
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) + cnt(currentConditions, v) - cnt(currentConditions.subrange(0, ghost_k + 1), v) == one(sat(this.zone.value, v)) by {
    lem_cnt_pre(currentConditions, ghost_k, v); assert(cnt(ghost_s, v) + cnt(ghost_n, v) + cnt(currentConditions, v) - cnt(currentConditions.subrange(0, ghost_k), v) == one(sat(this.zone.value, v)));
    if srp(ghost_p, i + 1, hix(j, ghost_rows)) { lem_cnt_push(ghost_n, ghost_c, v); }
  }
@exit
  assert(currentConditions.subrange(0, currentConditions.len() as int) =~= currentConditions);
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) == one(sat(this.zone.value, v)) by { assert(cnt(simpleConditions, v) + cnt(nextConditions, v) + cnt(currentConditions, v) - cnt(currentConditions.subrange(0, it3), v) == one(sat(this.zone.value, v))); }
@loop 4
@invariant
  this == old_this, 2 <= this.zone.value.rows, 0 <= i < this.zone.value.rows - 1, i <= j < this.zone.value.rows - 1,
  part(timedCondition.zone.value, this.zone.value.rows, i, j), simples(simpleConditions, this.zone.value.rows), parts(nextConditions, this.zone.value.rows, i, j + 1),
  upperBound == timedCondition.zone.value.at(i + 1, hix(j, this.zone.value.rows)), low_from(timedCondition.zone.value.at(hix(j, this.zone.value.rows), i + 1), lowerBound), currentUpperBound == upper_of(lowerBound),
  upperBound.first is Fin, intb(upperBound),
  forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) == cnt(pre_simpleConditions, v) + cnt(pre_nextConditions, v) + one(sat(timedCondition.zone.value, v) && !bsat(lowerBound, -dur(v, i, j, this.zone.value.rows))),
@decreases
  piece_measure(lowerBound, upperBound)
@before
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) == cnt(simpleConditions, v) + cnt(nextConditions, v) + one(sat(ghost_p, v) && !bsat(lowerBound, -dur(v, i, j, ghost_rows))) by { if sat(ghost_p, v) { assert(bsat(ghost_p.at(hix(j, ghost_rows), i + 1), v(hix(j, ghost_rows)) - v(i + 1))); assert(v(hix(j, ghost_rows)) - v(i + 1) == -dur(v, i, j, ghost_rows)); } }
@begin
  let ghost_l = lowerBound; let ghost_s = simpleConditions; let ghost_n = nextConditions; let ghost_p = timedCondition.zone.value; let ghost_rows = this.zone.value.rows;
  lem_piece_measure(lowerBound, upperBound); lem_piece_int(lowerBound); lem_piece_s(lowerBound, 0real);
@anchor_after call_restrictLowerBound
  let ghost_mid = currentTimedCondition.zone.value;
@anchor_after call_restrictUpperBound
  lem_le_trans(currentTimedCondition.zone.value, ghost_mid, ghost_p);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(currentTimedCondition.zone.value, v) == (sat(ghost_p, v) && bsat(ghost_l, -dur(v, i, j, ghost_rows)) && bsat(upper_of(ghost_l), dur(v, i, j, ghost_rows))) by { let _ = sat(ghost_mid, v); }
  lem_piece(ghost_p, currentTimedCondition.zone.value, ghost_rows, i, j, ghost_l);
@end
  assert(lowerBound == next_low(ghost_l)); assert(currentUpperBound == upper_of(lowerBound));
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) == cnt(pre_simpleConditions, v) + cnt(pre_nextConditions, v) + one(sat(ghost_p, v) && !bsat(lowerBound, -dur(v, i, j, ghost_rows))) by {
    assert(cnt(ghost_s, v) + cnt(ghost_n, v) == cnt(pre_simpleConditions, v) + cnt(pre_nextConditions, v) + one(sat(ghost_p, v) && !bsat(ghost_l, -dur(v, i, j, ghost_rows))));
    lem_cnt_push(ghost_s, currentTimedCondition, v); lem_cnt_push(ghost_n, currentTimedCondition, v); lem_piece_s(ghost_l, dur(v, i, j, ghost_rows));
  }
@exit
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(simpleConditions, v) + cnt(nextConditions, v) == cnt(ghost_s, v) + cnt(ghost_n, v) + one(sat(ghost_p, v)) by { if sat(ghost_p, v) { assert(bsat(ghost_p.at(i + 1, hix(j, ghost_rows)), v(i + 1) - v(hix(j, ghost_rows)))); lem_pieces_end(lowerBound, upperBound, dur(v, i, j, ghost_rows)); } }

@fn TimedCondition::enumerate/^std::vector<.*> \(\) const/ as tc_enumerate0()
@requires
  canonical(this.zone.value), intm(this.zone.value), bounded_m(this.zone.value), 2 <= this.zone.value.rows,
@ensures
  simples(r, this.zone.value.rows), split_of(r, this.zone.value), nsplit(this.zone.value, r.len() as int),
@return
  assert(nsplit_by(this.zone.value, r.len() as int, r));
