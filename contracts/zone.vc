// include/zone.hh
@fn Zone::close1 as zone_close1(x)
@requires
  wf(this.value), 0 <= x < this.value.rows,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value),
  same_sols(this.value, this1.value),
  le_mat(this1.value, this.value),
  ble(bz(), this.value.at(x, x)) ==> is_close1(this.value, this1.value, x),
  intm(this.value) ==> intm(this1.value),
@loop 1
@invariant
  0 <= i <= this.value.rows, 0 <= x < this.value.rows,
  wf(this.value), wf(old_this.value), same_sols(old_this.value, this.value), le_mat(this.value, old_this.value),
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  ble(bz(), old_this.value.at(x, x)) ==> forall|a: int, b: int| 0 <= a < this.value.rows && 0 <= b < this.value.rows ==> #[trigger] this.value.at(a, b) == (if a < i { bmin(old_this.value.at(a, b), badd(old_this.value.at(a, x), old_this.value.at(x, b))) } else { old_this.value.at(a, b) }),
  intm(old_this.value) ==> intm(this.value),
@decreases
  this.value.rows - i
@begin
  let ghost_m = this.value;
@end
  lem_close_row(ghost_m, this.value, i - 1, x);
  if intm(ghost_m) { lem_int_row(ghost_m, this.value, i - 1, x); }

@fn Zone::canonize as zone_canonize()
@requires
  wf(this.value),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value),
  same_sols(this.value, this1.value),
  le_mat(this1.value, this.value),
  diag_ok(this1.value) ==> closed(this1.value),
  intm(this.value) ==> intm(this1.value),
@loop 1
@invariant
  0 <= k <= this.value.rows,
  wf(this.value), same_sols(old_this.value, this.value), le_mat(this.value, old_this.value),
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  diag_ok(this.value) ==> closed_upto(this.value, k),
  intm(old_this.value) ==> intm(this.value),
@decreases
  this.value.rows - k
@begin
  let ghost_m = this.value;
@end
  if diag_ok(this.value) {
    assert(diag_ok(ghost_m)) by { assert forall|i: int| 0 <= i < ghost_m.rows implies ble(bz(), #[trigger] ghost_m.at(i, i)) by { assert(ble(bz(), this.value.at(i, i))); } }
    assert(ble(bz(), ghost_m.at(k - 1, k - 1)));
    lem_close_step(ghost_m, this.value, k - 1);
  }

@fn Zone::getNumOfVar as zone_nvars()
@mode pure
@ensures
  r == this.value.cols - 1,

@fn Zone::top as zone_top(size)
@static topZone
  (topZone.value.rows == 0 && topZone.value.cols == 0) || (topZone.value.rows >= 1 && topm(topZone.value, topZone.value.rows))
@requires
  1 <= size <= 256,
@ensures
  topm(r.value, size),

@fn Zone::zero as zone_zero(size)
@static zeroZone
  (zeroZone.value.rows == 0 && zeroZone.value.cols == 0) || (zeroZone.value.rows >= 1 && zerom(zeroZone.value, zeroZone.value.rows))
@requires
  1 <= size <= 256,
@ensures
  zerom(r.value, size),

@fn Zone::tighten/Bounds/ as zone_tighten(x, y, c)
@requires
  wf(this.value), okb(c), 0 <= x <= 255, 0 <= y <= 255, (x + 1) % 256 < this.value.rows, (y + 1) % 256 < this.value.rows,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (sat(this.value, v) && bsat(c, v((x + 1) % 256) - v((y + 1) % 256))),
  le_mat(this1.value, this.value),
  canonical(this.value) && diag_ok(this1.value) ==> closed(this1.value),
@anchor_before call_close1#1
  let ghost_q = this.value;
  assert(okb(old_this.value.at(x, y)));
  lem_set_min(old_this.value, ghost_q, x, y, c);
@anchor_before call_close1#2
  let ghost_a = this.value;
@return
  if canonical(old_this.value) && diag_ok(this.value) {
    lem_le_diag(this.value, ghost_a);
    lem_le_diag(ghost_a, ghost_q);
    assert(ble(bz(), ghost_a.at(y, y)));
    assert(ble(bz(), ghost_q.at(x, x)));
    lem_tighten_closed(old_this.value, ghost_q, ghost_a, this.value, x, y, c);
  }

@fn Zone::tighten/const Constraint/ as zone_tighten_c(constraint)
@requires
  wf(this.value), 0 <= constraint.x, constraint.x + 1 < this.value.rows, this.value.rows <= 255,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (sat(this.value, v) && con_holds(constraint, v(constraint.x + 1) - v(0))),
  le_mat(this1.value, this.value),
  canonical(this.value) && diag_ok(this1.value) ==> closed(this1.value),
@return
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == (sat(old_this.value, v) && con_holds(constraint, v(constraint.x + 1) - v(0))) by {}

@fn Zone::tighten/vector<Constraint>/ as zone_tighten_g(constraints)
@requires
  wf(this.value), this.value.rows <= 255, forall|i: int| 0 <= i < constraints.len() ==> 0 <= (#[trigger] constraints[i]).x && constraints[i].x + 1 < this.value.rows,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (sat(this.value, v) && guard_holds(constraints, clocks(v))),
  le_mat(this1.value, this.value),
  canonical(this.value) && diag_ok(this1.value) ==> closed(this1.value),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  wf(this.value), this.value.rows == old_this.value.rows, this.value.rows <= 255, rng1 == constraints,
  forall|i: int| 0 <= i < constraints.len() ==> 0 <= (#[trigger] constraints[i]).x && constraints[i].x + 1 < this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == (sat(old_this.value, v) && guard_upto(constraints, clocks(v), it1)),
  le_mat(this.value, old_this.value),
  canonical(old_this.value) && diag_ok(this.value) ==> closed(this.value),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = this.value;
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == (sat(old_this.value, v) && guard_upto(constraints, clocks(v), it1)) by {
    assert(sat(ghost_m, v) == (sat(old_this.value, v) && guard_upto(constraints, clocks(v), it1 - 1)));
  }
  lem_le_trans(this.value, ghost_m, old_this.value);
  if diag_ok(this.value) { lem_le_diag(this.value, ghost_m); }

@fn Zone::operator&& as zone_and(another)
@requires
  wf(this.value), wf(another.value), this.value.rows == another.value.rows,
@ensures
  wf(r.value), r.value.rows == this.value.rows, r.M == this.M,
  forall|v: spec_fn(int) -> real| #[trigger] sat(r.value, v) == (sat(this.value, v) && sat(another.value, v)),
  diag_ok(r.value) ==> closed(r.value),
@anchor_before call_canonize
  lem_and(this.value, another.value, result.value);

@fn Zone::operator&= as zone_andassign(another)
@requires
  wf(this.value), wf(another.value), this.value.rows == another.value.rows,
@ensures
  r == this1, this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (sat(this.value, v) && sat(another.value, v)),
  diag_ok(this1.value) ==> closed(this1.value),
@anchor_before call_canonize
  lem_and(old_this.value, another.value, this.value);

@fn Zone::isSatisfiableNoCanonize as zone_sat_nc()
@requires
  wf(this.value),
@ensures
  nonempty(this.value) ==> r,
  r ==> diag_ok(this.value),
  closed(this.value) ==> r == nonempty(this.value),
@return
  assert(r == pairs_ok(this.value));
  lem_sat_nc(this.value, r);

@fn Zone::isSatisfiable as zone_is_sat()
@requires
  wf(this.value),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), same_sols(this.value, this1.value),
  diag_ok(this1.value) ==> closed(this1.value),
  r == nonempty(this.value),
@return
  lem_nonempty_same(old_this.value, this.value);

@fn Zone::operator bool as zone_bool()
@requires
  wf(this.value),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), same_sols(this.value, this1.value),
  diag_ok(this1.value) ==> closed(this1.value),
  r == nonempty(this.value),

@fn Zone::includes as zone_includes(zone)
@requires
  wf(this.value), wf(zone.value), this.value.rows == zone.value.rows,
@ensures
  r == le_mat_off(zone.value, this.value),
  r && diag_ok(this.value) ==> subset(zone.value, this.value),
  canonical(zone.value) && subset(zone.value, this.value) ==> r,
@return
  lem_includes(zone.value, this.value);
  if diag_ok(this.value) && le_mat_off(zone.value, this.value) { lem_le_off_subset(zone.value, this.value); }
  assert(r == le_mat_off(zone.value, this.value)) by {
    assert forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.cols implies (#[trigger] this.value.at(i, j) == bmax(this.value.at(i, j), zone.value.at(i, j))) == ble(zone.value.at(i, j), this.value.at(i, j)) by {}
    if le_mat_off(zone.value, this.value) {} else { let (i, j) = choose|i: int, j: int| 0 <= i < zone.value.rows && 0 <= j < zone.value.cols && i != j && !ble(#[trigger] zone.value.at(i, j), this.value.at(i, j)); assert(this.value.at(i, j) != bmax(this.value.at(i, j), zone.value.at(i, j))); }
  }

@fn Zone::operator== as zone_eq(z)
@mode pure
@requires
  this.value.rows == this.value.cols, z.value.rows == z.value.cols,
@ensures
  r == eq_mat(this.value, z.value),

@fn Zone::elapse as zone_elapse()
@requires
  wf(this.value),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  canonical(this.value) ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == after_delay(this.value, v),
@return
  if canonical(old_this.value) { lem_elapse(old_this.value, this.value); }

@fn Zone::reverseElapse as zone_reverse_elapse()
@requires
  wf(this.value),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  canonical(this.value) ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (nonneg(this.value, v) && before_delay(this.value, v)),
@return
  if canonical(old_this.value) { lem_rev_elapse(old_this.value, this.value); }

@fn Zone::unconstrain as zone_unconstrain(x)
@requires
  wf(this.value), 0 <= x <= 254, x + 1 < this.value.rows,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.cols ==> #[trigger] this1.value.at(i, j) == (if j == x + 1 || i == x + 1 { binf() } else { this.value.at(i, j) }),
  canonical(this.value) ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == freed(this.value, v, x + 1),
@return
  if canonical(old_this.value) { lem_unconstrain(old_this.value, this.value, old_x + 1); }

@fn Zone::reset as zone_reset(x)
@requires
  wf(this.value), 0 <= x <= 254, x + 1 < this.value.rows,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  canonical(this.value) ==> forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (v(x + 1) == v(0) && freed(this.value, v, x + 1)),
  canonical(this.value) && this.value.at(0, 0) == bz() ==> canonical(this1.value),
@return
  if canonical(old_this.value) { lem_reset(old_this.value, this.value, old_x + 1); }

@fn Zone::updateSources as zone_sources(resets)
@requires
  wf(this.value), upd_ok(resets, this.value.rows),
@ensures
  srcs_ok(r, this.value.rows),
  forall|i: int| 0 <= i < this.value.rows ==> #[trigger] r[i] == upd_src(resets, resets.len() as int, i),
@loop 1
@invariant
  0 <= i <= sources.len(), sources.len() == this.value.rows,
  forall|k: int| 0 <= k < i ==> #[trigger] sources[k] == upd_src(resets, 0, k),
@decreases
  sources.len() - i
@loop 2
@invariant
  0 <= it2 <= rng2.len(), rng2 == resets, wf(this.value), upd_ok(resets, this.value.rows),
  sources.len() == this.value.rows,
  forall|k: int| 0 <= k < sources.len() ==> #[trigger] sources[k] == upd_src(resets, it2, k),
@decreases
  rng2.len() - it2
@begin
  assert(upd_ok1(rng2[it2], this.value.rows));
@return
  assert forall|i: int| 0 <= i < this.value.rows implies 0 <= (#[trigger] r[i]).first < this.value.rows && rk(r[i].second) == 0 by { lem_src_range(resets, resets.len() as int, i, this.value.rows); }

@fn Zone::applyResets as zone_apply(resets)
@requires
  wf(this.value), nonempty(this.value), upd_ok(resets, this.value.rows),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|w: spec_fn(int) -> real| #[trigger] sat(this1.value, w) == image(this.value, resets, w),
@loop 1
@invariant
  0 <= i <= sources.len(), srcs_ok(sources, original.rows), canonical(original), wf(this.value), this.value.rows == original.rows,
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  forall|a: int, b: int| 0 <= a < original.rows && 0 <= b < original.rows && upto2(i, 0, a, b) ==> #[trigger] this.value.at(a, b) == updcell(original, sources, a, b),
@decreases
  sources.len() - i
@loop 2
@invariant
  0 <= i < sources.len(), 0 <= j <= sources.len(), srcs_ok(sources, original.rows), canonical(original), wf(this.value), this.value.rows == original.rows,
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  forall|a: int, b: int| 0 <= a < original.rows && 0 <= b < original.rows && upto2(i, j, a, b) ==> #[trigger] this.value.at(a, b) == updcell(original, sources, a, b),
@decreases
  sources.len() - j
@before
  assert(wf(this.value));
@return
  lem_nonempty_diag(old_this.value, original);
  lem_image(original, this.value, resets, sources);
  assert forall|w: spec_fn(int) -> real| #[trigger] sat(this.value, w) == image(old_this.value, resets, w) by { lem_image_same(old_this.value, original, resets, w); }

@fn Zone::revertResets as zone_revert(resets)
@requires
  wf(this.value), upd_ok(resets, this.value.rows),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), this1.value.rows == this.value.rows,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == sat(this.value, updated(resets, v)),
  diag_ok(this1.value) ==> closed(this1.value),
@loop 1
@invariant
  0 <= i <= sources.len(), srcs_ok(sources, original.rows), original == old_this.value, wf(original), wf(this.value), this.value.rows == original.rows,
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  forall|k: int| 0 <= k < original.rows ==> #[trigger] sources[k] == upd_src(resets, resets.len() as int, k),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == pre_upto(original, updated(resets, v), i, 0),
@decreases
  sources.len() - i
@loop 2
@invariant
  0 <= i < sources.len(), 0 <= j <= sources.len(), srcs_ok(sources, original.rows), original == old_this.value, wf(original), wf(this.value), this.value.rows == original.rows,
  this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  forall|k: int| 0 <= k < original.rows ==> #[trigger] sources[k] == upd_src(resets, resets.len() as int, k),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == pre_upto(original, updated(resets, v), i, j),
@decreases
  sources.len() - j
@begin
  let ghost_m = this.value;
@end
  lem_revert_step(ghost_m, this.value, original, resets, sources, i, j - 1);
@exit
  lem_pre_next(original, i);

@fn Zone::extrapolate as zone_extrapolate()
@requires
  wf(this.value), mx_ok(this.maxConstraints, this.value.rows),
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), le_mat(this.value, this1.value), subset(this.value, this1.value),
  forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows ==> #[trigger] this1.value.at(i, j) == extra(this.value, this.maxConstraints, i, j),
  forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows && extra_small(this.value, this.maxConstraints, i, j) ==> #[trigger] this1.value.at(i, j) == this.value.at(i, j),
  canonical(this.value) && (forall|i: int| 0 <= i < this.value.rows ==> ble(#[trigger] this.value.at(0, i), bz())) ==>
    forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows && i != j ==> extra_range(#[trigger] this1.value.at(i, j), mxv(this.maxConstraints, i), -mxv(this.maxConstraints, j)),
@loop 1
@invariant
  0 <= i <= this.maxConstraints.len(), this.M == old_this.M, this.maxConstraints == old_this.maxConstraints, wf(old_this.value), mx_ok(this.maxConstraints, this.value.rows), original == old_this.value,
  extra_upto(old_this.value, this.value, this.maxConstraints, i + 1, 0, false),
@decreases
  this.maxConstraints.len() - i
@loop 2
@invariant
  0 <= i < this.maxConstraints.len(), 0 <= j <= this.maxConstraints.len(), this.M == old_this.M, this.maxConstraints == old_this.maxConstraints, wf(old_this.value), mx_ok(this.maxConstraints, this.value.rows), original == old_this.value,
  extra_upto(old_this.value, this.value, this.maxConstraints, i + 1, j, true),
@decreases
  this.maxConstraints.len() - j
@return
  lem_extra(old_this.value, this.value, this.maxConstraints);

@fn Zone::abstractize as zone_abstractize()
@requires
  wf(this.value), isfin(this.M.first), dv(this.M.first) >= 0real,
@ensures
  this1.M == this.M, this1.maxConstraints == this.maxConstraints,
  wf(this1.value), le_mat(this.value, this1.value), subset(this.value, this1.value),
  forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows ==> #[trigger] this1.value.at(i, j) == abstr(this.value.at(i, j), this.M.first),
@loop 1
@invariant
  0 <= it <= this.value.rows * this.value.cols, this.M == old_this.M, this.maxConstraints == old_this.maxConstraints, wf(old_this.value),
  isfin(this.M.first), dv(this.M.first) >= 0real,
  this.value.rows == old_this.value.rows, this.value.cols == old_this.value.cols,
  abstr_upto(old_this.value, this.value, this.M.first, it),
@decreases
  this.value.rows * this.value.cols - it
@begin
  let ghost_m = this.value;
  lem_pos_range(this.value.rows, it);
@end
  lem_abstr_step(old_this.value, ghost_m, this.value, this.M.first, it - 1);
@return
  lem_abstr(old_this.value, this.value, this.M.first);

@fn Zone::sample as zone_sample()
@requires
  wf(this.value), nonempty(this.value), forall|i: int| 0 < i < this.value.rows ==> ble(#[trigger] this.value.at(0, i), bz()),
@ensures
  r.len() == this.value.rows - 1, forall|i: int| 0 <= i < r.len() ==> isfin(#[trigger] r[i]),
  sat(this.value, valof(r)),
  this1.M == this.M, this1.maxConstraints == this.maxConstraints, wf(this1.value), same_sols(this.value, this1.value), closed(this1.value),
@loop 1
@before
  lem_nonempty_diag(old_this.value, this.value);
  assert(satk(this.value, valof(valuation), 1)) by { assert(ble(bz(), this.value.at(0, 0))); }
@invariant
  0 <= i <= N, N == this.value.rows - 1, valuation.len() == N, this.M == old_this.M, this.maxConstraints == old_this.maxConstraints,
  canonical(this.value), same_sols(old_this.value, this.value), forall|k: int| 0 < k < this.value.rows ==> ble(#[trigger] this.value.at(0, k), bz()),
  forall|k: int| 0 <= k < i ==> isfin(#[trigger] valuation[k]),
  satk(this.value, valof(valuation), i + 1),
@decreases
  N - i
@begin
  let ghost_v = valuation;
  let ghost_c = lem_feas_ex(this.value, valuation, i);
  assert(feas_lo(this.value, valuation, i + 1, i, ghost_c) && feas_hi(this.value, valuation, i + 1, i, ghost_c));
  assert(okb(this.value.at(0, i + 1)) && okb(this.value.at(i + 1, 0)) && ble(this.value.at(0, i + 1), bz()));
@end
  lem_sample_step(this.value, ghost_v, valuation, i - 1);
@loop 2
@before
  assert(feas_lo(this.value, valuation, i + 1, 0, 0real) || true);
@invariant
  0 <= j <= i, i < N, N == this.value.rows - 1, valuation.len() == N, canonical(this.value),
  forall|k: int| 0 <= k < i ==> isfin(#[trigger] valuation[k]),
  forall|c: real| #[trigger] feas_lo(this.value, valuation, i + 1, j, c) == lo_ok(lower, lowerClosed, c), isfin(lower), dv(lower) >= 0real,
  hi_inv(this.value, valuation, i + 1, j, upper),
  exists|c: real| #[trigger] feas(this.value, valuation, i + 1, i, c),
@decreases
  i - j
@begin
  let ghost_lo = lower; let ghost_cl = lowerClosed; let ghost_up = upper;
  lem_nb(this.value);
@end
  lem_feas_lo(this.value, valuation, i + 1, j - 1, ghost_lo, ghost_cl, lower, lowerClosed);
  lem_feas_hi(this.value, valuation, i + 1, j - 1, ghost_up, upper);

@fn Zone::Zone/std::vector<double> &, Bounds/ as zone_of_valuation(valuation, m)
@requires
  valuation.len() <= 254, forall|i: int| 0 <= i < valuation.len() ==> isfin(#[trigger] valuation[i]),
@ensures
  wf(this1.value), this1.value.rows == valuation.len() + 1, this1.M == m,
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.value, v) == (forall|i: int| 0 <= i < valuation.len() ==> v(i + 1) - v(0) == dv(#[trigger] valuation[i])),
  this1.maxConstraints.len() == valuation.len(), forall|i: int| 0 <= i < valuation.len() ==> #[trigger] this1.maxConstraints[i] == m.first,
@loop 1
@before
  assert(wf(this.value)) by { assert forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.cols implies okb(#[trigger] this.value.at(i, j)) by {} }
@invariant
  0 <= i <= valuation.len(), valuation.len() <= 254, wf(this.value), this.value.rows == valuation.len() + 1, this.M == m,
  forall|i: int| 0 <= i < valuation.len() ==> isfin(#[trigger] valuation[i]),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == (forall|k: int| 0 <= k < i ==> v(k + 1) - v(0) == dv(#[trigger] valuation[k])),
@decreases
  valuation.len() - i
@begin
  let ghost_m = this.value;
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(this.value, v) == (forall|k: int| 0 <= k < i ==> v(k + 1) - v(0) == dv(#[trigger] valuation[k])) by {
    assert(sat(ghost_m, v) == (forall|k: int| 0 <= k < i - 1 ==> v(k + 1) - v(0) == dv(#[trigger] valuation[k])));
    assert(isfin(valuation[i - 1]));
  }

@fn Zone::makeUnsat as zone_make_unsat()
@requires
  wf(this.value),
@ensures
  wf(this1.value), this1.value.rows == this.value.rows, !nonempty(this1.value),
@return
  assert forall|v: spec_fn(int) -> real| !sat(this.value, v) by { if sat(this.value, v) { assert(bsat(this.value.at(0, 0), v(0) - v(0))); } }

@fn Zone::equalIgnoreZero as zone_eq_ignore_zero(z)
@requires
  wf(this.value), wf(z.value), this.value.rows == z.value.rows,
@ensures
  r == (forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows && !(i == 0 && j == 0) ==> #[trigger] this.value.at(i, j) == z.value.at(i, j)),

@fn Zone::strictEqual as zone_strict_equal(z)
@mode pure
@requires
  wf(this.value), wf(z.value), this.value.rows == z.value.rows,
@ensures
  r == (forall|i: int, j: int| 0 <= i < this.value.rows && 0 <= j < this.value.rows && i != j ==> #[trigger] this.value.at(i, j) == z.value.at(i, j)),
