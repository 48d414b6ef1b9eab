// include/juxtaposed_zone.hh
@fn JuxtaposedZone::JuxtaposedZone/const Zone &, const Zone &\)/ as juxt_ctor(left, right)
@static memo
  forall|k: Pair<Zone, Zone>| #[trigger] memo.dom().contains(k) ==> okin(k.first.value, k.second.value) && is_juxt(k.first.value, k.second.value, memo[k])
@requires
  okin(left.value, right.value),
@ensures
  this1.leftSize == left.value.rows - 1, this1.rightSize == right.value.rows - 1,
  is_juxt(left.value, right.value, this1.base.value),
@anchor_after it
  if it is Some {
    let k = it->Some_0;
    assert(keq_2d2bae30()(k, key));
    lem_juxt_key(k.first.value, k.second.value, left.value, right.value, memo[k]);
  }
@anchor_before call_canonize
  lem_juxt(left.value, right.value, this.base.value);
@return
  assert(is_juxt(left.value, right.value, this.base.value));

@fn JuxtaposedZone::JuxtaposedZone/Eigen::Index/ as juxt_ctor_common(left, right, commonVariableSize)
@static memoWithCommon
  forall|k: (Zone, Zone, int)| #[trigger] memoWithCommon.dom().contains(k) ==> okinc(k.0.value, k.1.value, k.2) && is_juxtc(k.0.value, k.1.value, k.2, memoWithCommon[k])
@requires
  okinc(left.value, right.value, commonVariableSize),
@ensures
  this1.leftSize == left.value.rows - 1, this1.rightSize == right.value.rows - 1,
  is_juxtc(left.value, right.value, commonVariableSize, this1.base.value),
@anchor_after it
  if it is Some {
    let k = it->Some_0;
    lem_juxtc_key(k.0.value, k.1.value, left.value, right.value, k.2, memoWithCommon[k]);
  }
@anchor_before call_canonize#1
  let ghost_q0 = this.base.value;
  lem_juxtc_1(left.value, right.value, commonVariableSize, ghost_q0);
@anchor_after call_canonize#1
  let ghost_q = this.base.value;
@anchor_before call_canonize#2
  lem_juxtc_2(left.value, right.value, commonVariableSize, ghost_q0, ghost_q, this.base.value);
@anchor_after call_canonize#2
  let ghost_s = this.base.value;
@anchor_before call_canonize#3
  lem_juxtc_3(left.value, right.value, commonVariableSize, ghost_s, this.base.value);

@fn JuxtaposedZone::addRenaming as juxt_add_renaming(renaming)
@requires
  canonical(this.base.value), 0 <= this.leftSize, 0 <= this.rightSize,
  ren_ok(renaming, this.leftSize, this.rightSize, this.base.value.rows),
@ensures
  this1.leftSize == this.leftSize, this1.rightSize == this.rightSize,
  wf(this1.base.value), this1.base.value.rows == this.base.value.rows, le_mat(this1.base.value, this.base.value),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this1.base.value, v) == (sat(this.base.value, v) && ren_sat(renaming, this.leftSize, renaming.len() as int, v)),
  diag_ok(this1.base.value) ==> closed(this1.base.value),
@entry
  lem_nbm(this.base.value);
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == renaming, this.leftSize == old_this.leftSize, this.rightSize == old_this.rightSize,
  0 <= this.leftSize, canonical(old_this.base.value),
  ren_ok(renaming, this.leftSize, this.rightSize, this.base.value.rows),
  wf(this.base.value), nbm(this.base.value), le_mat(this.base.value, old_this.base.value), nbm(old_this.base.value),
  modifiedVariables.len() == 2 * it1, in_rng(modifiedVariables, this.base.value.rows),
  forall|i: int, j: int| 0 <= i < this.base.value.rows && 0 <= j < this.base.value.rows && #[trigger] this.base.value.at(i, j) != old_this.base.value.at(i, j) ==> modifiedVariables.contains(i) && modifiedVariables.contains(j),
  forall|v: spec_fn(int) -> real| #[trigger] sat(this.base.value, v) == (sat(old_this.base.value, v) && ren_sat(renaming, this.leftSize, it1, v)),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = this.base.value; let ghost_s = modifiedVariables;
@end
  let x = renaming[it1 - 1].first + 1; let y = renaming[it1 - 1].second + this.leftSize + 1;
  lem_ren_step(ghost_m, this.base.value, x, y);
  lem_push2(ghost_s, modifiedVariables, x, y);
  lem_le_trans(this.base.value, ghost_m, old_this.base.value);
  lem_ren_nbm(ghost_m, this.base.value);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(this.base.value, v) == (sat(old_this.base.value, v) && ren_sat(renaming, this.leftSize, it1, v)) by {
    assert(sat(ghost_m, v) == (sat(old_this.base.value, v) && ren_sat(renaming, this.leftSize, it1 - 1, v)));
    lem_ren_sat(renaming, this.leftSize, it1, v);
  }
  assert forall|i: int, j: int| 0 <= i < this.base.value.rows && 0 <= j < this.base.value.rows && #[trigger] this.base.value.at(i, j) != old_this.base.value.at(i, j) implies modifiedVariables.contains(i) && modifiedVariables.contains(j) by {
    if this.base.value.at(i, j) == ghost_m.at(i, j) { assert(ghost_s.contains(i) && ghost_s.contains(j)); }
  }
@exit
  lem_via_init(old_this.base.value, this.base.value, modifiedVariables);
@loop 2
@invariant
  0 <= it2 <= rng2.len(), rng2 == modifiedVariables, modifiedVariables == pre_modifiedVariables, this.leftSize == old_this.leftSize, this.rightSize == old_this.rightSize,
  canonical(old_this.base.value), nbm(old_this.base.value), in_rng(modifiedVariables, this.base.value.rows),
  wf(this.base.value), le_mat(this.base.value, old_this.base.value), same_sols(this.base.value, pre_this.base.value),
  diag_ok(this.base.value) ==> nbm(this.base.value) && vias(old_this.base.value, this.base.value, modifiedVariables) && closed_on(this.base.value, modifiedVariables, it2),
@decreases
  rng2.len() - it2
@begin
  let ghost_m = this.base.value;
@end
  lem_le_trans(this.base.value, ghost_m, old_this.base.value);
  if diag_ok(this.base.value) {
    lem_le_diag(this.base.value, ghost_m);
    let x = modifiedVariables[it2 - 1];
    assert(ble(bz(), ghost_m.at(x, x)));
  }
  lem_ren_close(old_this.base.value, ghost_m, this.base.value, modifiedVariables, it2);
@return
  if diag_ok(this.base.value) { lem_via_closed(old_this.base.value, this.base.value, modifiedVariables); }

@fn JuxtaposedZone::makeRenaming as juxt_make_renaming()
@requires
  wf(this.base.value), 0 <= this.leftSize, 0 <= this.rightSize, this.leftSize + this.rightSize < this.base.value.rows,
@ensures
  ren_ok(r, this.leftSize, this.rightSize, this.base.value.rows),
  forall|p: Pair<int, int>| #[trigger] r.contains(p) == (0 <= p.first < this.leftSize && 0 <= p.second < this.rightSize && eqpair(this.base.value, this.leftSize, p.first, p.second)),
  canonical(this.base.value) ==> forall|p: Pair<int, int>| 0 <= p.first < this.leftSize && 0 <= p.second < this.rightSize ==> #[trigger] r.contains(p) == eqforced(this.base.value, p.first + 1, p.second + this.leftSize + 1),
@loop 1
@invariant
  wf(this.base.value), 0 <= this.leftSize, 0 <= this.rightSize, this.leftSize + this.rightSize < this.base.value.rows,
  1 <= leftIndex <= this.leftSize + 1,
  forall|p: Pair<int, int>| #[trigger] renaming.contains(p) == (0 <= p.first < leftIndex - 1 && 0 <= p.second < this.rightSize && eqpair(this.base.value, this.leftSize, p.first, p.second)),
@decreases
  this.leftSize + 1 - leftIndex
@loop 2
@invariant
  wf(this.base.value), 0 <= this.leftSize, 0 <= this.rightSize, this.leftSize + this.rightSize < this.base.value.rows,
  1 <= leftIndex <= this.leftSize, this.leftSize + 1 <= rightIndex <= this.leftSize + this.rightSize + 1,
  forall|p: Pair<int, int>| #[trigger] renaming.contains(p) == (0 <= p.first < leftIndex && 0 <= p.second < this.rightSize && (p.first < leftIndex - 1 || p.second < rightIndex - this.leftSize - 1) && eqpair(this.base.value, this.leftSize, p.first, p.second)),
@decreases
  this.leftSize + this.rightSize + 1 - rightIndex
@begin
  let ghost_r = renaming;
@end
  let x = Pair { first: leftIndex - 1, second: rightIndex - 1 - this.leftSize - 1 };
  assert forall|p: Pair<int, int>| #[trigger] renaming.contains(p) == (0 <= p.first < leftIndex && 0 <= p.second < this.rightSize && (p.first < leftIndex - 1 || p.second < rightIndex - this.leftSize - 1) && eqpair(this.base.value, this.leftSize, p.first, p.second)) by {
    if renaming != ghost_r { lem_push_contains(ghost_r, x); }
  }
@return
  assert forall|k: int| 0 <= k < renaming.len() implies 0 <= (#[trigger] renaming[k]).first < this.leftSize && 0 <= renaming[k].second < this.rightSize && renaming[k].second + this.leftSize + 1 < this.base.value.rows by { assert(renaming.contains(renaming[k])); }
  if canonical(this.base.value) {
    assert forall|p: Pair<int, int>| 0 <= p.first < this.leftSize && 0 <= p.second < this.rightSize implies #[trigger] renaming.contains(p) == eqforced(this.base.value, p.first + 1, p.second + this.leftSize + 1) by {
      lem_eqforced(this.base.value, p.first + 1, p.second + this.leftSize + 1);
    }
  }

@fn JuxtaposedZone::getRight as juxt_get_right()
@requires
  wf(this.base.value), 0 <= this.leftSize, 0 <= this.rightSize, this.base.value.rows == this.leftSize + this.rightSize + 1,
@ensures
  wf(r.value), r.value.rows == this.rightSize + 1,
  diag_ok(r.value) ==> closed(r.value),
  canonical(this.base.value) ==> canonical(r.value) && forall|w: spec_fn(int) -> real| #[trigger] sat(r.value, w) == right_part(this.base.value, this.leftSize, w),
@anchor_before call_canonize
  let ghost_q = right.value;
  lem_right(this.base.value, ghost_q, this.leftSize);
@return
  if canonical(this.base.value) { lem_nonempty_diag(ghost_q, right.value); }

// include/juxtaposed_zone_set.hh
@fn JuxtaposedZoneSet::JuxtaposedZoneSet/const TimedConditionSet &, const TimedCondition &\)/ as jzs_ctor(left, right)
@requires
  forall|k: int| 0 <= k < left.conditions.len() ==> okin((#[trigger] left.conditions[k]).zone.value, right.zone.value),
@ensures
  this1.zones.len() == left.conditions.len(),
  forall|k: int| 0 <= k < left.conditions.len() ==> (#[trigger] this1.zones[k]).leftSize == left.conditions[k].zone.value.rows - 1 && this1.zones[k].rightSize == right.zone.value.rows - 1 && is_juxt(left.conditions[k].zone.value, right.zone.value, this1.zones[k].base.value),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == left.conditions, this.zones.len() == rng1.len(), right == old_right, left == old_left,
  forall|k: int| 0 <= k < left.conditions.len() ==> okin((#[trigger] left.conditions[k]).zone.value, right.zone.value),
  forall|k: int| 0 <= k < it1 ==> (#[trigger] this.zones[k]).leftSize == left.conditions[k].zone.value.rows - 1 && this.zones[k].rightSize == right.zone.value.rows - 1 && is_juxt(left.conditions[k].zone.value, right.zone.value, this.zones[k].base.value),
@decreases
  rng1.len() - it1

@fn JuxtaposedZoneSet::JuxtaposedZoneSet/const TimedConditionSet &, const TimedCondition &, const/ as jzs_ctor_common(left, right, commonVariableSize)
@requires
  forall|k: int| 0 <= k < left.conditions.len() ==> okinc((#[trigger] left.conditions[k]).zone.value, right.zone.value, commonVariableSize),
@ensures
  this1.zones.len() == left.conditions.len(),
  forall|k: int| 0 <= k < left.conditions.len() ==> (#[trigger] this1.zones[k]).leftSize == left.conditions[k].zone.value.rows - 1 && this1.zones[k].rightSize == right.zone.value.rows - 1 && is_juxtc(left.conditions[k].zone.value, right.zone.value, commonVariableSize, this1.zones[k].base.value),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == left.conditions, this.zones.len() == rng1.len(), right == old_right, left == old_left, commonVariableSize == old_commonVariableSize,
  forall|k: int| 0 <= k < left.conditions.len() ==> okinc((#[trigger] left.conditions[k]).zone.value, right.zone.value, commonVariableSize),
  forall|k: int| 0 <= k < it1 ==> (#[trigger] this.zones[k]).leftSize == left.conditions[k].zone.value.rows - 1 && this.zones[k].rightSize == right.zone.value.rows - 1 && is_juxtc(left.conditions[k].zone.value, right.zone.value, commonVariableSize, this.zones[k].base.value),
@decreases
  rng1.len() - it1

@fn JuxtaposedZoneSet::JuxtaposedZoneSet/const TimedCondition &, const TimedConditionSet &/ as jzs_ctor_left(left, right, commonVariableSize)
@requires
  forall|k: int| 0 <= k < right.conditions.len() ==> okinc(left.zone.value, (#[trigger] right.conditions[k]).zone.value, commonVariableSize),
@ensures
  this1.zones.len() == right.conditions.len(),
  forall|k: int| 0 <= k < right.conditions.len() ==> (#[trigger] this1.zones[k]).leftSize == left.zone.value.rows - 1 && this1.zones[k].rightSize == right.conditions[k].zone.value.rows - 1 && is_juxtc(left.zone.value, right.conditions[k].zone.value, commonVariableSize, this1.zones[k].base.value),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == right.conditions, this.zones.len() == rng1.len(), left == old_left, right == old_right, commonVariableSize == old_commonVariableSize,
  forall|k: int| 0 <= k < right.conditions.len() ==> okinc(left.zone.value, (#[trigger] right.conditions[k]).zone.value, commonVariableSize),
  forall|k: int| 0 <= k < it1 ==> (#[trigger] this.zones[k]).leftSize == left.zone.value.rows - 1 && this.zones[k].rightSize == right.conditions[k].zone.value.rows - 1 && is_juxtc(left.zone.value, right.conditions[k].zone.value, commonVariableSize, this.zones[k].base.value),
@decreases
  rng1.len() - it1

@fn JuxtaposedZoneSet::addRenaming as jzs_add_renaming(renaming)
@requires
  forall|k: int| 0 <= k < this.zones.len() ==> jz_in(#[trigger] this.zones[k], renaming),
@ensures
  forall|k: int| 0 <= k < this1.zones.len() ==> canonical((#[trigger] this1.zones[k]).base.value),
  forall|v: spec_fn(int) -> real| anyz(this1.zones, 0, this1.zones.len() as int, v) == #[trigger] anyz_ren(this.zones, 0, this.zones.len() as int, renaming, v),
@loop 1
@invariant
  0 <= it <= this.zones.len(), renaming == old_renaming,
  forall|k: int| 0 <= k < it ==> canonical((#[trigger] this.zones[k]).base.value),
  forall|k: int| it <= k < this.zones.len() ==> jz_in(#[trigger] this.zones[k], renaming),
  forall|v: spec_fn(int) -> real| #[trigger] anyz_ren(old_this.zones, 0, old_this.zones.len() as int, renaming, v) == (anyz(this.zones, 0, it, v) || anyz_ren(this.zones, it, this.zones.len() as int, renaming, v)),
@decreases
  this.zones.len() - it
@begin
  let ghost_z = this.zones; let ghost_i = it;
@end
  assert forall|v: spec_fn(int) -> real| #[trigger] anyz_ren(old_this.zones, 0, old_this.zones.len() as int, renaming, v) == (anyz(this.zones, 0, it, v) || anyz_ren(this.zones, it, this.zones.len() as int, renaming, v)) by {
    let _ = anyz_ren(old_this.zones, 0, old_this.zones.len() as int, renaming, v);
    assert(sat(ghost_y[ghost_i].base.value, v) == (sat(ghost_z[ghost_i].base.value, v) && ren_sat(renaming, ghost_z[ghost_i].leftSize, renaming.len() as int, v)));
    lem_jzs_step(ghost_z, this.zones, ghost_i, it, renaming, v);
  }

@anchor_after call_addRenaming
  let ghost_y = this.zones;

@fn JuxtaposedZoneSet::operator== as jzs_eq(another)
@requires
  forall|k: int| 0 <= k < this.zones.len() ==> jz_canon(#[trigger] this.zones[k], this.zones[0]),
  forall|l: int| 0 <= l < another.zones.len() ==> jz_canon(#[trigger] another.zones[l], this.zones[0]),
@ensures
  r == (this.zones.len() == another.zones.len() && forall|k: int| 0 <= k < this.zones.len() ==> jz_among(#[trigger] this.zones[k], another.zones)),
@entry
  assert forall|k: int| 0 <= k < this.zones.len() implies jz_among(#[trigger] this.zones[k], another.zones) == (exists|q2_: int| #![trigger another.zones[q2_]] 0int <= q2_ < another.zones.len() && { let o_1 = this.zones[k].base; zone_strict_equal(o_1, another.zones[q2_].base) }) by {
    assert(jz_canon(this.zones[k], this.zones[0]));
    assert forall|l: int| 0 <= l < another.zones.len() implies same_sols(this.zones[k].base.value, (#[trigger] another.zones[l]).base.value) == zone_strict_equal(this.zones[k].base, another.zones[l].base) by {
      assert(jz_canon(another.zones[l], this.zones[0]));
      zone_strict_equal_contract(this.zones[k].base, another.zones[l].base);
      lem_eq_off(this.zones[k].base.value, another.zones[l].base.value);
    }
  }
  let ghost_e = forall|q1_: int| #![trigger this.zones[q1_]] 0int <= q1_ < (this.zones.len() as int) ==> (exists|q2_: int| #![trigger another.zones[q2_]] 0int <= q2_ < (another.zones.len() as int) && { let o_1 = this.zones[q1_].base; zone_strict_equal(o_1, another.zones[q2_].base) });
  if ghost_e {
    assert forall|k: int| 0 <= k < this.zones.len() implies jz_among(#[trigger] this.zones[k], another.zones) by { let a = this.zones[k]; }
  }
  if forall|k: int| 0 <= k < this.zones.len() ==> jz_among(#[trigger] this.zones[k], another.zones) {
    assert forall|q1_: int| #![trigger this.zones[q1_]] 0int <= q1_ < (this.zones.len() as int) implies (exists|q2_: int| #![trigger another.zones[q2_]] 0int <= q2_ < (another.zones.len() as int) && { let o_1 = this.zones[q1_].base; zone_strict_equal(o_1, another.zones[q2_].base) }) by { let a = this.zones[q1_]; }
  }
