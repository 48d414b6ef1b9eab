
@fn TimedCondition::successor as tc_successor(variables)
@requires
  wf(this.zone.value), st_fin(this.zone.value, 0), st_vars(variables, this.zone.value.rows - 1),
@ensures
  // exactly the bounds of the given variables are moved to the next point or unit interval
  st_moved(this.zone.value, r.zone.value, 0, variables, true),
@entry
  assert(variables.take(0) =~= Seq::<int>::empty());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == variables, wf(this.zone.value), st_fin(this.zone.value, 0), st_vars(rng1, this.zone.value.rows - 1),
  st_moved(this.zone.value, result.value, 0, rng1.take(it1), true),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = result.value; let ghost_t = it1; lem_moved_next(this.zone.value, ghost_m, 0, rng1, ghost_t, true);
@end
  lem_moved_two(this.zone.value, ghost_m, result.value, 0, rng1, ghost_t, true);
@exit
  assert(rng1.take(it1) =~= variables);

@fn TimedCondition::successorAssign as tc_successor_assign(variables)
@requires
  wf(this.zone.value), st_fin(this.zone.value, 0), st_vars(variables, this.zone.value.rows - 1),
@ensures
  // exactly the bounds of the given variables are moved to the next point or unit interval
  st_moved(this.zone.value, this1.zone.value, 0, variables, true),
@entry
  assert(variables.take(0) =~= Seq::<int>::empty());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == variables, wf(old_this.zone.value), st_fin(old_this.zone.value, 0), st_vars(rng1, old_this.zone.value.rows - 1),
  st_moved(old_this.zone.value, this.zone.value, 0, rng1.take(it1), true),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = this.zone.value; let ghost_t = it1; lem_moved_next(old_this.zone.value, ghost_m, 0, rng1, ghost_t, true);
@end
  lem_moved_two(old_this.zone.value, ghost_m, this.zone.value, 0, rng1, ghost_t, true);
@exit
  assert(rng1.take(it1) =~= variables);

@fn TimedCondition::predecessor as tc_predecessor(variables)
@requires
  wf(this.zone.value), st_fin(this.zone.value, 1), st_vars(variables, this.zone.value.rows - 1),
@ensures
  // exactly the bounds of the given variables are moved to the previous point or unit interval
  st_moved(this.zone.value, r.zone.value, 1, variables, false),
@entry
  assert(variables.take(0) =~= Seq::<int>::empty());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == variables, wf(this.zone.value), st_fin(this.zone.value, 1), st_vars(rng1, this.zone.value.rows - 1),
  st_moved(this.zone.value, result.value, 1, rng1.take(it1), false),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = result.value; let ghost_t = it1; lem_hmod(rng1[it1], this.zone.value.rows); lem_moved_next(this.zone.value, ghost_m, 1, rng1, ghost_t, false);
@end
  lem_moved_two(this.zone.value, ghost_m, result.value, 1, rng1, ghost_t, false);
@exit
  assert(rng1.take(it1) =~= variables);

@fn TimedCondition::prefix as tc_prefix(variables)
@requires
  wf(this.zone.value), st_fin(this.zone.value, 0), st_vars(variables, this.zone.value.rows - 1),
@ensures
  // exactly the bounds of the given variables are moved to the previous point or unit interval
  st_moved(this.zone.value, r.zone.value, 0, variables, false),
@entry
  assert(variables.take(0) =~= Seq::<int>::empty());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == variables, wf(this.zone.value), st_fin(this.zone.value, 0), st_vars(rng1, this.zone.value.rows - 1),
  st_moved(this.zone.value, result.value, 0, rng1.take(it1), false),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = result.value; let ghost_t = it1; lem_moved_next(this.zone.value, ghost_m, 0, rng1, ghost_t, false);
@end
  lem_moved_two(this.zone.value, ghost_m, result.value, 0, rng1, ghost_t, false);
@exit
  assert(rng1.take(it1) =~= variables);

@fn TimedCondition::suffix as tc_suffix(variables)
@requires
  wf(this.zone.value), st_fin(this.zone.value, 1), st_vars(variables, this.zone.value.rows - 1),
@ensures
  // exactly the bounds of the given variables are moved to the next point or unit interval
  st_moved(this.zone.value, r.zone.value, 1, variables, true),
@entry
  assert(variables.take(0) =~= Seq::<int>::empty());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == variables, wf(this.zone.value), st_fin(this.zone.value, 1), st_vars(rng1, this.zone.value.rows - 1),
  st_moved(this.zone.value, result.value, 1, rng1.take(it1), true),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = result.value; let ghost_t = it1; lem_moved_next(this.zone.value, ghost_m, 1, rng1, ghost_t, true);
@end
  lem_moved_two(this.zone.value, ghost_m, result.value, 1, rng1, ghost_t, true);
@exit
  assert(rng1.take(it1) =~= variables);

@fn TimedCondition::extendN as tc_extend_n()
@requires
  canonical(this.zone.value), intm(this.zone.value), this.zone.value.rows < 256,
@ensures
  // the new last variable is zero, and nothing else is restricted
  ext_n(this.zone.value, r.zone.value), canonical(r.zone.value), forall|v: spec_fn(int) -> real| #[trigger] sat(r.zone.value, v) == (sat(this.zone.value, v) && v(this.zone.value.rows) == v(0)),
@return
  lem_diag_rx(this.zone.value); lem_ext_n(this.zone.value, result.zone.value);

@fn TimedCondition::removeN as tc_remove_n()
@requires
  canonical(this.zone.value), intm(this.zone.value), this.zone.value.rows >= 3,
@ensures
  r.zone.value.rows == this.zone.value.rows - 1, rx(this.zone.value, r.zone.value, src_i()), rx_diag(r.zone.value), canonical(r.zone.value),
  // if the last variable is zero, adding it again gives this condition
  this.zone.value.at(0, this.zone.value.rows - 1) == bz() && this.zone.value.at(this.zone.value.rows - 1, 0) == bz() ==> ext_n(r.zone.value, this.zone.value),
@return
  lem_diag_rx(this.zone.value); lem_rx(this.zone.value, result.zone.value, src_i());
  if this.zone.value.at(0, this.zone.value.rows - 1) == bz() && this.zone.value.at(this.zone.value.rows - 1, 0) == bz() { lem_rem_n(result.zone.value, this.zone.value); }

@fn TimedCondition::extendZero as tc_extend_zero()
@requires
  canonical(this.zone.value), intm(this.zone.value), this.zone.value.rows < 256, this.zone.value.rows >= 2,
@ensures
  // the new first duration is zero, and nothing else is restricted
  ext_z(this.zone.value, r.zone.value), canonical(r.zone.value), forall|v: spec_fn(int) -> real| #[trigger] sat(r.zone.value, v) == (sat(this.zone.value, shifted(v)) && v(1) == v(2)),
@return
  lem_diag_rx(this.zone.value); lem_ext_z(this.zone.value, result.value);

@fn TimedCondition::removeZero as tc_remove_zero()
@requires
  canonical(this.zone.value), intm(this.zone.value), this.zone.value.rows >= 3,
@ensures
  r.zone.value.rows == this.zone.value.rows - 1, rx(this.zone.value, r.zone.value, sec_z()), rx_diag(r.zone.value), canonical(r.zone.value),
  // if the first duration is zero, adding it again gives this condition
  this.zone.value.at(1, 2) == bz() && this.zone.value.at(2, 1) == bz() ==> ext_z(r.zone.value, this.zone.value),
@return
  lem_diag_rx(this.zone.value); lem_rx(this.zone.value, result.value, sec_z());
  if this.zone.value.at(1, 2) == bz() && this.zone.value.at(2, 1) == bz() { lem_rem_z(result.value, this.zone.value); }
