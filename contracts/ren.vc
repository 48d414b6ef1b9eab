// include/renaming_relation.hh
@fn is_strict_ascending/vector<unsigned long>/ as ascending_i(container)
@ensures
  r == sasc_i(container),
@loop 1
@invariant
  container == old_container, 0 <= it, it == 0 || it < container.len(), forall|i: int, j: int| 0 <= i < j <= it && j < container.len() ==> #[trigger] container[i] < #[trigger] container[j],
@decreases
  container.len() - it
@return
  assert(r ==> sasc_i(container));
@endloop

@fn is_strict_ascending/vector<unsigned char>/ as ascending_u(container)
@ensures
  r == sasc_i(container),
@loop 1
@invariant
  container == old_container, 0 <= it, it == 0 || it < container.len(), forall|i: int, j: int| 0 <= i < j <= it && j < container.len() ==> #[trigger] container[i] < #[trigger] container[j],
@decreases
  container.len() - it
@return
  assert(r ==> sasc_i(container));
@endloop

@fn RenamingRelation::toValuation as ren_valuation(condition)
@requires
  canonical(condition.zone.value), simple(condition.zone.value), intm(condition.zone.value),
@ensures
  val_ok(condition.zone.value, r),
@loop 1
@invariant
  canonical(old_condition.zone.value), simple(old_condition.zone.value), intm(old_condition.zone.value), condition.zone.value.rows == old_condition.zone.value.rows,
  val_upto(old_condition.zone.value, condition.zone.value, result, i),
@decreases
  result.len() - i
@begin
  let ghost_m = condition.zone.value; let ghost_r = result;
  assert(hix(condition.zone.value.rows - 2, condition.zone.value.rows) == 0);
  lem_val_fin(old_condition.zone.value, condition.zone.value, i + 1);
@anchor_after middlePoint#1
  let ghost_c = middlePoint;
@anchor_after condition#1
  let ghost_a = condition.zone.value;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(ghost_a, v) == (sat(ghost_m, v) && bsat(Pair { first: dneg(ghost_c), second: true }, -(v(i + 1) - v(0)))) by { assert(dur(v, i, ghost_m.rows - 2, ghost_m.rows) == v(i + 1) - v(0)); }
@anchor_after condition#2
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(condition.zone.value, v) == (sat(ghost_a, v) && bsat(Pair { first: ghost_c, second: true }, v(i + 1) - v(0))) by { assert(dur(v, i, ghost_m.rows - 2, ghost_m.rows) == v(i + 1) - v(0)); }
  lem_val_mid(old_condition.zone.value, ghost_m, ghost_r, i, ghost_a, condition.zone.value, ghost_c);
@end
  if ptb(ghost_m.at(i, 0), ghost_m.at(0, i)) { lem_val_point(old_condition.zone.value, ghost_m, ghost_r, i - 1, ghost_m.at(i, 0).first); }
@exit
  lem_val_done(old_condition.zone.value, condition.zone.value, result);
@endloop

@fn RenamingRelation::toReset as ren_reset(sourceCondition, targetCondition)
@requires
  canonical(targetCondition.zone.value), simple(targetCondition.zone.value), intm(targetCondition.zone.value),
  rn_ok(this.base, targetCondition.zone.value.rows - 1), rn_uniq(this.base),
@ensures
  exists|val: Seq<D>| #[trigger] rn_realised(this.base, targetCondition.zone.value, val, r),
@loop 1
@before
  assert(rn_upto(this.base, targetValuation, result, 0));
@invariant
  val_ok(targetCondition.zone.value, targetValuation), wf(targetCondition.zone.value), rn_ok(old_this.base, targetCondition.zone.value.rows - 1), rn_uniq(old_this.base),
  rn_upto(old_this.base, targetValuation, result, resetVariable),
@decreases
  targetValuation.len() - resetVariable
@begin
  let ghost_r = result;
  assert forall|i: int, j: int| 0 <= i < ghost_r.len() && 0 <= j < ghost_r.len() && (#[trigger] ghost_r[i]).first == resetVariable && (#[trigger] ghost_r[j]).first == resetVariable implies i == j by { if i < j { assert(ghost_r[i].first != ghost_r[j].first); } if j < i { assert(ghost_r[j].first != ghost_r[i].first); } }
@end
  assert(resetVariable - 1 < 256);
  lem_rn_step(old_this.base, targetValuation, ghost_r, result, resetVariable - 1);
@exit
  lem_rn_done(this.base, targetCondition.zone.value, targetValuation, result);
@endloop

@fn RenamingRelation::rightVariables as ren_right()
@requires
  rn_ok(this.base, 256),
@ensures
  sasc_i(r), forall|x: int| #[trigger] r.contains(x) == rn_left(this.base, x), r.len() <= this.base.len(), r.len() == this.base.len() <==> rn_uniq(this.base),
@anchor_after result#2
  lem_rn_seconds(this.base, result);

@fn RenamingRelation::eraseLeft as ren_erase(left)
@ensures
  rn_erased(this.base, this1.base, left),
@return
  assert forall|q: spec_fn(Pair<int, int>) -> bool| rn_keeps(q, left) implies rn_erased(old_this.base, #[trigger] old_this.base.filter(q), left) by { lem_rn_erased(old_this.base, q, left); }

@fn RenamingRelation::onlyTrivial as ren_trivial(targetCondition)
@mode pure
@requires
  wf(targetCondition.zone.value), rn_ok(this.base, targetCondition.zone.value.rows - 1),
@ensures
  r == !rn_active(this.base, targetCondition.zone.value),

@fn RenamingRelation::full as ren_full(condition)
@requires
  wf(condition.zone.value), rn_ok(this.base, condition.zone.value.rows - 1),
@ensures
  r == rn_full(this.base, condition.zone.value),
@loop 1
@before
  assert(rn_restricted(this.base, condition.zone.value, restrictedVariables, 0));
@invariant
  wf(condition.zone.value), rn_restricted(old_this.base, condition.zone.value, restrictedVariables, clock), 0 <= clock <= condition.zone.value.rows - 1,
@decreases
  condition.zone.value.rows - clock
@begin
  let ghost_s = restrictedVariables;
@end
  lem_rn_restricted(old_this.base, condition.zone.value, ghost_s, restrictedVariables, clock - 1);
@exit
  let ghost_all = restrictedVariables;
@return
  lem_rn_full(this.base, condition.zone.value, ghost_all, restrictedVariables);
@endloop

@fn RenamingRelation::hasImpreciseClocks as ren_has_imprecise(target)
@requires
  wf(target.zone.value), rn_ok(this.base, target.zone.value.rows - 1),
@ensures
  r == (rn_active(this.base, target.zone.value) && !rn_full(this.base, target.zone.value)),

@fn RenamingRelation::impreciseClocks as ren_imprecise(target)
@requires
  wf(target.zone.value), rn_ok(this.base, target.zone.value.rows - 1),
@ensures
  rn_active(this.base, target.zone.value) ==> forall|x: int| #[trigger] r.contains(x) <==> (0 <= x < target.zone.value.rows - 1 && rn_imprecise(this.base, target.zone.value, x)),
  !rn_active(this.base, target.zone.value) ==> r.len() == 0,
  sasc_i(r),
@loop 1
@invariant
  this == old_this, wf(target.zone.value), 0 <= clock <= target.zone.value.rows - 1, sasc_i(result), forall|i: int| 0 <= i < result.len() ==> #[trigger] result[i] < clock,
  forall|x: int| #[trigger] result.contains(x) <==> (0 <= x < clock && rn_imprecise(old_this.base, target.zone.value, x)),
@decreases
  target.zone.value.rows - clock
@begin
  let ghost_s = result;
  assert(rn_left(this.base, clock) == exists|k: int| 0 <= k < this.base.len() && (#[trigger] this.base[k]).second == clock);
@end
  assert forall|x: int| #[trigger] result.contains(x) <==> (0 <= x < clock && rn_imprecise(old_this.base, target.zone.value, x)) by {
    assert(ghost_s.contains(x) <==> (0 <= x < clock - 1 && rn_imprecise(old_this.base, target.zone.value, x)));
    lem_contains_push(ghost_s, clock - 1, x);
  }
@endloop

@fn RenamingRelation::isRightUnique as ren_unique()
@requires
  rn_ok(this.base, 256),
@ensures
  r == rn_uniq(this.base),
