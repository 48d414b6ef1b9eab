
// include/timed_automaton.hh: lists of clock updates
@fn asMap as rset_map(resets)
@ensures
  map_of(r, resets, resets.len() as int),
@loop 1
@invariant
  rng1 == resets, 0 <= it1 <= resets.len(), map_of(result, resets, it1), resets == old_resets,
@decreases rng1.len() - it1
@begin
  lem_named_all(resets, it1);
  let ghost_m = result;
@end
  assert forall|x: int| #![trigger result.dom().contains(x)] #![trigger ru_at(resets, it1, x)] (result.dom().contains(x) <==> ru_named(resets, it1, x)) && (result.dom().contains(x) ==> result[x] == ru_at(resets, it1, x)) && (!result.dom().contains(x) ==> ru_at(resets, it1, x) == VarDC::Clk(x)) by { assert(ghost_m.dom().contains(x) <==> ru_named(resets, it1 - 1, x)); lem_named(resets, it1 - 1, x); }
@endloop

@fn composition as rset_comp(left, right)
@ensures
  ru_uniq(r), forall|x: int| #[trigger] ru_eff(r, x) == ru_comp(left, right, x),
  forall|v: Seq<D>| rus_ok(left, v.len() as int) && rus_ok(right, v.len() as int) ==> #[trigger] ru_all(r, v) =~= ru_all(left, ru_all(right, v)),
@return
  lem_comp_done(r, leftMap, rightMap, left, right, keys2);
  assert forall|v: Seq<D>| rus_ok(left, v.len() as int) && rus_ok(right, v.len() as int) implies #[trigger] ru_all(r, v) =~= ru_all(left, ru_all(right, v)) by { lem_comp_val(left, right, r, v); }
@loop 1
@invariant
  is_enum(leftMap.dom(), keys1), keys1.no_duplicates(), 0 <= it1 <= keys1.len(), comp1(result, leftMap, rightMap, keys1, it1),
@decreases keys1.len() - it1
@begin
  lem_comp1(result, leftMap, rightMap, keys1, it1);
@exit
  lem_kin_all(leftMap.dom(), keys1);
  lem_comp12(result, leftMap, rightMap, keys1);
@endloop
@loop 2
@invariant
  is_enum(rightMap.dom(), keys2), keys2.no_duplicates(), 0 <= it2 <= keys2.len(), comp2(result, leftMap, rightMap, keys2, it2),
@decreases keys2.len() - it2
@begin
  lem_comp2(result, leftMap, rightMap, keys2, it2);
@endloop

@fn addDefault as rset_default(original, defaultReset)
@ensures
  forall|x: int| #[trigger] ru_eff(r, x) == if ru_named(original, original.len() as int, x) { ru_eff(original, x) } else { ru_eff(defaultReset, x) },
@loop 1
@invariant
  rng1 == defaultReset, 0 <= it1 <= rng1.len(), original == old_original, map_of(originalMap, original, original.len() as int), default_inv(result, original, defaultReset, it1), defaultReset == old_defaultReset,
@decreases rng1.len() - it1
@begin
  lem_default(result, original, defaultReset, it1);
  assert(originalMap.dom().contains(rng1[it1].first) <==> ru_named(original, original.len() as int, rng1[it1].first));
@endloop

@fn clean as rset_clean(resets)
@requires
  ru_uniq(resets),
@ensures
  forall|x: int| #[trigger] ru_eff(r, x) == ru_eff(resets, x), forall|i: int| 0 <= i < r.len() ==> !ru_identity(#[trigger] r[i]), ru_uniq(r),
@return
  assert forall|p: spec_fn(Pair<int, VarDC>) -> bool| only_ids(p) implies filt_at(resets, #[trigger] resets.filter(p)) by { lem_filt_at(resets, p); lem_filt(resets, p); }

@fn TATransition::impreciseConstantAssignSize as rset_cconst(resets)
@ensures
  r == ru_count(resets, resets.len() as int, false),
@loop 1
@invariant
  rng1 == resets, 0 <= it1 <= resets.len(), count == ru_count(resets, it1, false), 0 <= count <= it1, resets == old_resets,
@decreases rng1.len() - it1
@endloop

@fn TATransition::impreciseAssignSize as rset_call(resets)
@ensures
  r == ru_count(resets, resets.len() as int, true),
@loop 1
@invariant
  rng1 == resets, 0 <= it1 <= resets.len(), count == ru_count(resets, it1, true), 0 <= count <= it1, resets == old_resets,
@decreases rng1.len() - it1
@endloop

@fn TATransition::addPreciseConstantAssignments as rset_addc(resets)
@requires
  ru_uniq(this.resetVars), ru_uniq(resets),
@ensures
  this1.target == this.target, this1.guard == this.guard, ru_uniq(this1.resetVars),
  forall|x: int| #[trigger] ru_eff(this1.resetVars, x) == ru_added(this.resetVars, resets, resets.len() as int, false, x),
@return
  assert(ents_of(resetAsMap, this.resetVars));
  lem_ents(resetAsMap, this.resetVars);
  assert forall|x: int| #[trigger] ru_eff(this.resetVars, x) == ru_added(old_this.resetVars, resets, resets.len() as int, false, x) by { let ghost_d = resetAsMap.dom().contains(x); }
@loop 1
@invariant
  rng1 == resets, resets == old_resets, 0 <= it1 <= rng1.len(), this == old_this, ru_uniq(resets), add_inv(resetAsMap, old_this.resetVars, resets, it1, false),
@decreases rng1.len() - it1
@begin
  let ghost_q = add_step(resetAsMap, rng1[it1], false);
  lem_add(resetAsMap, old_this.resetVars, resets, it1, false);
@end
  assert(resetAsMap =~= ghost_q);
@before
  lem_add_start(old_this.resetVars, resets, false);
@endloop

@fn TATransition::addPreciseAssignments as rset_adda(resets)
@requires
  ru_uniq(this.resetVars), ru_uniq(resets),
@ensures
  this1.target == this.target, this1.guard == this.guard, ru_uniq(this1.resetVars),
  forall|x: int| #[trigger] ru_eff(this1.resetVars, x) == ru_added(this.resetVars, resets, resets.len() as int, true, x),
@return
  assert(ents_of(resetAsMap, this.resetVars));
  lem_ents(resetAsMap, this.resetVars);
  assert forall|x: int| #[trigger] ru_eff(this.resetVars, x) == ru_added(old_this.resetVars, resets, resets.len() as int, true, x) by { let ghost_d = resetAsMap.dom().contains(x); }
@loop 1
@invariant
  rng1 == resets, resets == old_resets, 0 <= it1 <= rng1.len(), this == old_this, ru_uniq(resets), add_inv(resetAsMap, old_this.resetVars, resets, it1, true),
@decreases rng1.len() - it1
@begin
  let ghost_q = add_step(resetAsMap, rng1[it1], true);
  lem_add(resetAsMap, old_this.resetVars, resets, it1, true);
@end
  assert(resetAsMap =~= ghost_q);
@before
  lem_add_start(old_this.resetVars, resets, true);
@endloop
