// include/fractional_order.hh
@fn FractionalOrder::FractionalOrder/^void \(\)/ as fo_default()
@ensures
  this1.size == 1, fo_part(this1.order, 1), fo_asc(this1.order), this1.order =~= Seq::<Seq<int>>::empty().push(Seq::<int>::empty().push(0)),
@return
  assert(gi(this.order, 0, 0)); assert(has(this.order, 0));

@fn FractionalOrder::FractionalOrder/vector<double>/ as fo_ctor(fractionalParts)
@requires
  in_unit(fractionalParts), fractionalParts.len() <= 256,
@ensures
  this1.size == fractionalParts.len(), fo_part(this1.order, fractionalParts.len() as int), fo_order(this1.order, fpart(fractionalParts)), fo_asc(this1.order),
@loop 1
@invariant
  0 <= i <= fractionalParts.len(), fractionalParts.len() <= 256, indexed(fractionalPartsWithIndices, fractionalParts, i),
@decreases
  fractionalParts.len() - i
@exit
  lem_sorted_of(fractionalPartsWithIndices, fractionalParts);
@loop 2
@invariant
  in_unit(fractionalParts), sorted_of(rng2, fractionalParts), 0 <= it2 <= rng2.len(), built(this.order, rng2, it2, fpart(fractionalParts), currentFractionalPart),
@decreases
  rng2.len() - it2
@begin
  lem_built(this.order, rng2, it2, fractionalParts, currentFractionalPart);
  let ghost_o = place(this.order, currentFractionalPart, rng2[it2]); assert(rng2[it2].first == fractionalParts[rng2[it2].second]); assert(fractionalParts[rng2[it2].second] is Fin);
@end
  assert(this.order =~= ghost_o);
@exit
  lem_built_end(this.order, rng2, fractionalParts, currentFractionalPart);

@fn FractionalOrder::successorVariables as fo_succ_variables()
@mode pure
@requires
  fo_part(this.order, this.size), this.size >= 1,
@ensures
  r == fo_succ_vars(this.order),

@fn FractionalOrder::predecessorVariables as fo_pred_variables()
@mode pure
@requires
  fo_part(this.order, this.size), this.size >= 1,
@ensures
  r == fo_pred_vars(this.order),
@entry
  lem_two(this.order, this.size);

@fn FractionalOrder::successor as fo_successor()
@mode pure
@requires
  fo_part(this.order, this.size), this.size >= 1,
@ensures
  r.order =~= fo_succ(this.order), r.size == this.size, fo_part(r.order, r.size), fo_pred(r.order) =~= this.order, fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_two(this.order, this.size); lem_rotate(this.order, this.size); if fo_asc(this.order) { lem_asc(this.order, this.size); }
  assert(fo_successor(this).order =~= fo_succ(this.order));

@fn FractionalOrder::successorAssign as fo_successor_assign()
@requires
  fo_part(this.order, this.size), this.size >= 1,
@ensures
  this1.order =~= fo_succ(this.order), this1.size == this.size, fo_part(this1.order, this1.size), fo_pred(this1.order) =~= this.order, fo_asc(this.order) ==> fo_asc(this1.order),
@entry
  lem_two(this.order, this.size); lem_rotate(this.order, this.size); if fo_asc(this.order) { lem_asc(this.order, this.size); }
@return
  assert(this.order =~= fo_succ(old_this.order)); assert(this.order == fo_succ(old_this.order));

@fn FractionalOrder::predecessor as fo_predecessor()
@mode pure
@requires
  fo_part(this.order, this.size), this.size >= 1,
@ensures
  r.order =~= fo_pred(this.order), r.size == this.size, fo_part(r.order, r.size), fo_succ(r.order) =~= this.order, fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_two(this.order, this.size); lem_rotate(this.order, this.size); if fo_asc(this.order) { lem_asc(this.order, this.size); }
  assert(fo_predecessor(this).order =~= fo_pred(this.order));

@fn FractionalOrder::extendN as fo_extend()
@mode pure
@requires
  fo_part(this.order, this.size), 0 <= this.size < 256,
@ensures
  r.order =~= fo_ext(this.order, this.size), r.size == this.size + 1, fo_part(r.order, r.size), this.size >= 1 && fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_ext(this.order, this.size); if this.size >= 1 && fo_asc(this.order) { lem_asc(this.order, this.size); }
  assert(fo_extend(this).order =~= fo_ext(this.order, this.size));

@fn FractionalOrder::removeN as fo_remove()
@mode pure
@requires
  fo_part(this.order, this.size), this.size >= 1, this.order[0].len() > 0, this.order[0].last() == this.size - 1,
@ensures
  r.order =~= fo_rem(this.order), r.size == this.size - 1, fo_part(r.order, r.size), fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_ext(this.order, this.size); if this.size >= 1 && fo_asc(this.order) { lem_asc(this.order, this.size); }
  assert(fo_remove(this).order =~= fo_rem(this.order));

@fn FractionalOrder::extendZero as fo_extend_zero()
@requires
  fo_part(this.order, this.size), 0 <= this.size < 256,
@ensures
  r.order =~= fo_ext0(this.order), r.size == this.size + 1, fo_part(r.order, r.size), this.size >= 1 && fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_ext(this.order, this.size); if this.size >= 1 && fo_asc(this.order) { lem_asc(this.order, this.size); }
@loop 1
@invariant
  fo_part(this.order, this.size), 0 <= this.size < 256, 0 <= it1 <= this.order.len(), result.size == this.size, result.order.len() == this.order.len(),
  forall|g: int| 0 <= g < this.order.len() ==> #[trigger] result.order[g] == (if g < it1 { inc(this.order[g]) } else { this.order[g] }),
@decreases
  this.order.len() - it1
@begin
  let ghost_o = result.order; let ghost_k = it1; assert forall|p: int| 0 <= p < this.order[ghost_k].len() implies 0 <= #[trigger] this.order[ghost_k][p] < 255 by { assert(gi(this.order, ghost_k, p)); }
@end
  assert(result.order[ghost_k] =~= inc(this.order[ghost_k]));
  assert forall|g: int| 0 <= g < this.order.len() implies #[trigger] result.order[g] == (if g < ghost_k + 1 { inc(this.order[g]) } else { this.order[g] }) by { if g != ghost_k { assert(result.order[g] == ghost_o[g]); } }
@exit
  assert(result.order =~= fo_shift(this.order));
@return
  assert(result.order[0] =~= Seq::<int>::empty().push(0) + inc(this.order[0])); assert(result.order =~= fo_ext0(this.order));

@fn FractionalOrder::getSize as fo_size()
@mode pure
@ensures
  r == this.size,

@fn FractionalOrder::operator== as fo_eq(another)
@mode pure
@ensures
  r == (this.size == another.size && this.order == another.order),

@fn FractionalOrder::removeZero as fo_remove_zero()
@requires
  fo_part(this.order, this.size), this.size >= 1, this.order[0].len() > 0, this.order[0][0] == 0, this.size <= 256,
@ensures
  r.order =~= fo_rem0(this.order), r.size == this.size - 1, fo_part(r.order, r.size), fo_asc(this.order) ==> fo_asc(r.order),
@entry
  lem_rem0(this.order, this.size); if fo_asc(this.order) { lem_asc(this.order, this.size); }
@loop 1
@invariant
  fo_part(this.order, this.size), this.order[0].len() > 0, this.order[0][0] == 0, this.size <= 256,
  0 <= it1 <= fo_hd(this.order).len(), result.size == this.size, result.order.len() == fo_hd(this.order).len(),
  forall|g: int| 0 <= g < fo_hd(this.order).len() ==> #[trigger] result.order[g] == (if g < it1 { dec(fo_hd(this.order)[g]) } else { fo_hd(this.order)[g] }),
@decreases
  fo_hd(this.order).len() - it1
@begin
  let ghost_o = result.order; let ghost_k = it1; lem_hd(this.order, this.size, ghost_k);
@end
  assert(result.order[ghost_k] =~= dec(fo_hd(this.order)[ghost_k]));
  assert forall|g: int| 0 <= g < fo_hd(this.order).len() implies #[trigger] result.order[g] == (if g < ghost_k + 1 { dec(fo_hd(this.order)[g]) } else { fo_hd(this.order)[g] }) by { if g != ghost_k { assert(result.order[g] == ghost_o[g]); } }
@return
  assert(result.order =~= fo_rem0(this.order));
