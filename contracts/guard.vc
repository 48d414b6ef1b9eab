// include/constraint.hh
@fn Constraint::satisfy/\(double\)/ as con_satisfy(d)
@mode pure
@requires
  d is Fin,
@ensures
  r == con_holds(this, dv(d)),

@fn Constraint::satisfy/vector/ as con_satisfy_v(valuation)
@mode pure
@requires
  0 <= this.x < valuation.len(), valuation[this.x] is Fin,
@ensures
  r == con_holds(this, dv(valuation[this.x])),

@fn Constraint::operator() as con_order(val)
@mode pure
@requires
  0 <= this.x < val.len(), val[this.x] is Fin,
@ensures
  r == (if con_holds(this, dv(val[this.x])) { Order::EQ } else if is_up(this) { Order::GT } else { Order::LT }),

@fn Constraint::operator== as con_eq(another)
@mode pure
@ensures
  r == (this == another),

@fn Constraint::isUpperBound as con_isup()
@mode pure
@ensures
  r == is_up(this),

@fn Constraint::toBound as con_bound()
@mode pure
@ensures
  r == ibnd(this),

@fn Constraint::toDBMBound as con_dbm()
@mode pure
@ensures
  r == bnd(if is_up(this) { this.c as real } else { -(this.c as real) }, is_eqc(this)),
  // the bound on x (upper) or on -x (lower) that is equivalent to the comparison
  is_up(this) ==> forall|v: real| con_holds(this, v) == #[trigger] bsat(r, v),
  !is_up(this) ==> forall|v: real| #[trigger] con_holds(this, v) == bsat(r, -v),

@fn Constraint::isWeaker as con_weaker(another)
@mode pure
@ensures
  r == weaker1(this, another),
  r ==> forall|v: real| #[trigger] con_holds(another, v) ==> con_holds(this, v),

@fn Constraint::negate as con_negate()
@mode pure
@ensures
  r == neg_con(this),
  forall|v: real| #[trigger] con_holds(r, v) == !con_holds(this, v),

@fn ConstraintMaker::operator< as cm_lt(c)
@mode pure
@ensures
  r == (Constraint { x: this.x, odr: Constraint_Order::lt, c: c }),

@fn ConstraintMaker::operator<= as cm_le(c)
@mode pure
@ensures
  r == (Constraint { x: this.x, odr: Constraint_Order::le, c: c }),

@fn ConstraintMaker::operator> as cm_gt(c)
@mode pure
@ensures
  r == (Constraint { x: this.x, odr: Constraint_Order::gt, c: c }),

@fn ConstraintMaker::operator>= as cm_ge(c)
@mode pure
@ensures
  r == (Constraint { x: this.x, odr: Constraint_Order::ge, c: c }),

@fn isWeaker as guard_weaker(left, right)
@mode pure
@ensures
  r == weaker_g(left, right),
  // a weaker guard admits every valuation of the stronger one
  r ==> forall|u: spec_fn(int) -> real| #[trigger] guard_holds(right, u) ==> guard_holds(left, u),
@entry
  if weaker_g(left, right) { lem_weaker(left, right); }
  assert forall|c: Constraint, d: Constraint| #[trigger] con_weaker(c, d) == weaker1(c, d) by { con_weaker_contract(c, d); }
  if weaker_g(left, right) {
    assert forall|i: int| #![trigger left[i]] 0 <= i < left.len() implies exists|j: int| #![trigger right[j]] 0 <= j < right.len() && con_weaker(left[i], right[j]) by { assert(has_stronger(left[i], right)); let j = choose|j: int| #![trigger right[j]] 0 <= j < right.len() && weaker1(left[i], right[j]); assert(con_weaker(left[i], right[j])); }
    assert(guard_weaker(left, right));
  }
  if guard_weaker(left, right) {
    assert forall|i: int| 0 <= i < left.len() implies has_stronger(#[trigger] left[i], right) by { let j = choose|j: int| #![trigger right[j]] 0 <= j < right.len() && con_weaker(left[i], right[j]); assert(weaker1(left[i], right[j])); }
    assert(weaker_g(left, right));
  }

@fn widen as guard_widen(guard)
@mode pure
@ensures
  forall|u: spec_fn(int) -> real| #[trigger] guard_holds(guard, u) ==> guard_holds(guard1, u),
  forall|i: int| 0 <= i < guard1.len() ==> is_up(#[trigger] guard1[i]) && guard.contains(guard1[i]),
  forall|i: int| 0 <= i < guard.len() && is_up(#[trigger] guard[i]) ==> guard1.contains(guard[i]),
@entry
  lem_filter_any(guard);

@fn negateAll as guard_negate_all(constraints)
@mode pure
@ensures
  r.len() == constraints.len(),
  forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == neg_con(constraints[i]),

@fn conjunction as guard_conj(left, right)
@mode pure
@ensures
  r == left + right,
  forall|u: spec_fn(int) -> real| #[trigger] guard_holds(r, u) == (guard_holds(left, u) && guard_holds(right, u)),
@entry
  assert forall|u: spec_fn(int) -> real| #[trigger] guard_holds(left + right, u) == (guard_holds(left, u) && guard_holds(right, u)) by { lem_conj(left, right, u); }

@fn toBounds as guard_bounds(constraints)
@requires
  gok(constraints),
@ensures
  is_bounds_of(constraints, constraints.len() as int, r.first, r.second),
  // the per-clock bounds describe the same valuations as the guard
  forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> guard_holds(constraints, u) == box_holds(r.first, r.second, u),
@loop 1
@invariant
  rng1 == constraints, gok(constraints), 0 <= it1 <= constraints.len(),
  is_bounds_of(constraints, it1, upperBounds, lowerBounds),
@decreases
  constraints.len() - it1
@begin
  let ghost_u = upperBounds; let ghost_l = lowerBounds;
  lem_nclk(constraints, it1);
  assert(con_ok(constraints[it1]));
@end
  assert forall|x: int| 0 <= x < upperBounds.len() implies #[trigger] upperBounds[x] == ub_of(constraints, it1, x) by {
    lem_bnd_rng(constraints, it1 - 1, x);
    if x >= ghost_u.len() { lem_outside(constraints, it1 - 1, x); }
  }
  assert forall|x: int| 0 <= x < lowerBounds.len() implies #[trigger] lowerBounds[x] == lb_of(constraints, it1, x) by {
    lem_bnd_rng(constraints, it1 - 1, x);
    if x >= ghost_u.len() { lem_outside(constraints, it1 - 1, x); }
  }
@loop 2
@invariant
  rng1 == constraints, 0 <= it1 < constraints.len(), pre_upperBounds.len() <= 1000,
  0 <= oldSize <= i <= x + 1, upperBounds.len() == x + 1, lowerBounds.len() == x + 1,
  pre_upperBounds.len() == x + 1, pre_lowerBounds.len() == x + 1,
  forall|k: int| 0 <= k < oldSize ==> #[trigger] upperBounds[k] == pre_upperBounds[k],
  forall|k: int| 0 <= k < oldSize ==> #[trigger] lowerBounds[k] == pre_lowerBounds[k],
  forall|k: int| oldSize <= k < i ==> #[trigger] upperBounds[k] == ubinf(),
  forall|k: int| oldSize <= k < i ==> #[trigger] lowerBounds[k] == lbzero(),
@decreases
  x + 1 - i
@endloop
@return
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies guard_holds(constraints, u) == box_holds(upperBounds, lowerBounds, u) by { lem_box(constraints, upperBounds, lowerBounds, u); }

@fn satisfiable as guard_satisfiable(constraints)
@requires
  gok(constraints),
@ensures
  r == exists|u: spec_fn(int) -> real| nonneg_u(u) && #[trigger] guard_holds(constraints, u),
@loop 1
@invariant
  constraints == old_constraints, gok(constraints), is_bounds_of(constraints, constraints.len() as int, upperBounds, lowerBounds), 0 <= i <= lowerBounds.len(),
  forall|x: int| 0 <= x < i ==> #[trigger] ne_box(lowerBounds[x], upperBounds[x]),
@decreases
  lowerBounds.len() - i
@begin
  assert(ne_box(lowerBounds[i], upperBounds[i]) == !(lowerBounds[i].first > upperBounds[i].first || (lowerBounds[i].first == upperBounds[i].first && !(lowerBounds[i].second && upperBounds[i].second))));
@endloop
@return
  if forall|x: int| 0 <= x < upperBounds.len() ==> #[trigger] ne_box(lowerBounds[x], upperBounds[x]) { let u0 = lem_sat_wit(constraints, upperBounds, lowerBounds); }
  else { let x0 = choose|x: int| 0 <= x < upperBounds.len() && !(#[trigger] ne_box(lowerBounds[x], upperBounds[x])); lem_unsat(constraints, upperBounds, lowerBounds, x0);
    assert forall|u: spec_fn(int) -> real| #[trigger] guard_holds(constraints, u) implies !nonneg_u(u) by { } }

@fn simplify as guard_simplify(constraints)
@requires
  gok(constraints),
@ensures
  gok(r), geqv(r, constraints),
  // no new clocks are mentioned
  forall|n: int| #[trigger] ga_clk(constraints, n) ==> ga_clk(r, n),
  // one conjunct per clock and direction
  forall|i: int, j: int| 0 <= i < j < r.len() ==> !((#[trigger] r[i]).x == (#[trigger] r[j]).x && is_up(r[i]) == is_up(r[j])),
@entry
  lem_nclk(constraints, constraints.len() as int);
@loop 1
@invariant
  gok(constraints), is_bounds_of(constraints, constraints.len() as int, upperBounds, lowerBounds), 0 <= i <= lowerBounds.len() <= 256,
  is_lower_part(result, lowerBounds, i as int),
@decreases
  lowerBounds.len() - i
@begin
  lem_bnd_rng(constraints, constraints.len() as int, i as int);
  assert(lowerBounds[i] == lb_of(constraints, constraints.len() as int, i));
  let ghost_r = result;
@end
  assert(is_lower_part(result, lowerBounds, i as int)) by { lem_lower_step(ghost_r, lowerBounds, i - 1, result); }
@exit
  assert(is_both_parts(result, lowerBounds, upperBounds, 0)) by { lem_both_start(result, lowerBounds, upperBounds); }
@loop 2
@invariant
  gok(constraints), is_bounds_of(constraints, constraints.len() as int, upperBounds, lowerBounds), 0 <= i <= upperBounds.len() <= 256,
  is_both_parts(result, lowerBounds, upperBounds, i as int),
@decreases
  upperBounds.len() - i
@begin
  lem_bnd_rng(constraints, constraints.len() as int, i as int);
  assert(upperBounds[i] == ub_of(constraints, constraints.len() as int, i));
  let ghost_r = result;
@end
  assert(is_both_parts(result, lowerBounds, upperBounds, i as int)) by { lem_both_step(ghost_r, lowerBounds, upperBounds, i - 1, result); }
@endloop
@return
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies guard_holds(result, u) == guard_holds(constraints, u) by { lem_box(constraints, upperBounds, lowerBounds, u); lem_parts(result, lowerBounds, upperBounds, u); }
  assert forall|n: int| #[trigger] ga_clk(constraints, n) implies ga_clk(result, n) by { lem_nclk_le(constraints, constraints.len() as int, n); lem_nclk(constraints, constraints.len() as int);
    assert forall|i: int| 0 <= i < result.len() implies 0 <= (#[trigger] result[i]).x < n by { assert(con_ok(result[i])); } }

@fn is_ascending/unsigned char/ as is_ascending_u8(container)
@ensures
  r == forall|i: int, j: int| 0 <= i < j < container.len() ==> #[trigger] container[i] <= #[trigger] container[j],
@loop 1
@invariant
  container == old_container, 0 <= it <= container.len(), container.len() > 0 ==> it < container.len(),
  forall|i: int, j: int| 0 <= i < j <= it && j < container.len() ==> #[trigger] container[i] <= #[trigger] container[j],
@decreases
  container.len() - it
@endloop

@fn simpleVariables as guard_simple_vars(constraints)
@requires
  gok(constraints),
@ensures
  // exactly the clocks confined to a point or an open unit interval, ascending
  forall|x: int| r.contains(x) == (#[trigger] simple_in(constraints, x)),
  forall|i: int, j: int| 0 <= i < j < r.len() ==> #[trigger] r[i] < #[trigger] r[j],
@entry
  lem_nclk(constraints, constraints.len() as int);
@loop 1
@invariant
  gok(constraints), is_bounds_of(constraints, constraints.len() as int, upperBounds, lowerBounds), 0 <= i <= upperBounds.len() <= 256,
  forall|x: int| result.contains(x) == (x < i && #[trigger] simple_in(constraints, x)),
  forall|k: int| 0 <= k < result.len() ==> 0 <= #[trigger] result[k] < i,
  forall|k: int, l: int| 0 <= k < l < result.len() ==> #[trigger] result[k] < #[trigger] result[l],
@decreases
  upperBounds.len() - i
@begin
  lem_bnd_rng(constraints, constraints.len() as int, i as int);
  assert(upperBounds[i] == ub_of(constraints, constraints.len() as int, i));
  assert(lowerBounds[i] == lb_of(constraints, constraints.len() as int, i));
  let ghost_r = result;
@end
  lem_push_contains(ghost_r, i - 1);
@endloop

@fn negate/vector.*vector/ as guard_negate(dnfConstraints)
@requires
  dok(dnfConstraints), dnfConstraints.len() > 0,
@ensures
  dok(r),
  // exactly the valuations that satisfy none of the guards
  forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(r, u) == !dnf_holds(dnfConstraints, u),
  // no new clocks are mentioned
  forall|n: int| #[trigger] dclk(dnfConstraints, n) ==> dclk(r, n),
@loop 1
@invariant
  rng1 == cnfNegated, old_dnfConstraints == dnfConstraints, 0 <= it1 <= rng1.len(), dok(dnfConstraints), is_cnf_neg(dnfConstraints, cnfNegated), dok(dnfNegated),
  initial == (it1 == 0), initial ==> dnfNegated.len() == 0,
  it1 > 0 ==> forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(dnfNegated, u) == cnf_upto(cnfNegated, u, it1),
  forall|n: int| #[trigger] dclk(cnfNegated, n) ==> dclk(dnfNegated, n),
@decreases
  rng1.len() - it1
@begin
  lem_cnf_ok(dnfConstraints, cnfNegated);
  assert(gok(cnfNegated[it1]));
  let ghost_cnf = cnfNegated;
  if cnfNegated[it1].len() == 0 {
    assert(dnfConstraints[it1].len() == 0);
    assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(dnfConstraints, u) by { assert(guard_holds(dnfConstraints[it1], u)); }
  }
@end
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(dnfNegated, u) == cnf_upto(cnfNegated, u, it1) by {
    lem_cnf_step(cnfNegated, u, it1);
    if it1 == 1 { lem_single_dnf(cnfNegated[0], dnfNegated, u); }
  }
  if it1 == 1 { assert(dok(dnfNegated)) by { assert(gok(cnfNegated[0])); assert forall|k: int| 0 <= k < dnfNegated.len() implies gok(#[trigger] dnfNegated[k]) by { assert(dnfNegated[k] == seq![cnfNegated[0][k]]); assert(con_ok(cnfNegated[0][k])); } } }
@loop 2
@invariant
  rng2 == disjunct, gok(disjunct), 0 <= it2 <= rng2.len(), dok(dnfNegated), dok(newDnfNegated),
  forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(newDnfNegated, u) == (dnf_holds(dnfNegated, u) && some_upto(disjunct, u, it2)),
  forall|n: int| #[trigger] dclk(dnfNegated, n) && ga_clk(disjunct, n) ==> dclk(newDnfNegated, n),
@decreases
  rng2.len() - it2
@begin
  assert(con_ok(disjunct[it2]));
@loop 3
@invariant
  rng3 == dnfNegated, con_ok(constraint), 0 <= it3 <= rng3.len(), dok(dnfNegated), dok(newDnfNegated),
  forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(newDnfNegated, u) == (dnf_holds(pre_newDnfNegated, u) || (dnf_upto(dnfNegated, u, it3) && con_holds(constraint, u(constraint.x)))),
  forall|n: int| #![trigger dclk(newDnfNegated, n)] dclk(dnfNegated, n) && 0 <= constraint.x < n && dclk(pre_newDnfNegated, n) ==> dclk(newDnfNegated, n),
@decreases
  rng3.len() - it3
@begin
  assert(gok(dnfNegated[it3]));
  assert(gok(dnfNegated[it3].push(constraint)));
  assert forall|n: int| #![trigger dclk(dnfNegated, n)] dclk(dnfNegated, n) && 0 <= constraint.x < n implies ga_clk(dnfNegated[it3].push(constraint), n) by { assert(ga_clk(dnfNegated[it3], n)); let g = dnfNegated[it3].push(constraint); assert forall|k: int| 0 <= k < g.len() implies 0 <= (#[trigger] g[k]).x < n by { if k < g.len() - 1 { assert(g[k] == dnfNegated[it3][k]); } } }
  let ghost_n = newDnfNegated;
  let ghost_i = it3;
@end
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(newDnfNegated, u) == (dnf_holds(pre_newDnfNegated, u) || (dnf_upto(dnfNegated, u, it3) && con_holds(constraint, u(constraint.x)))) by {
    lem_push_holds(dnfNegated[ghost_i], constraint, u); lem_dnf_step(dnfNegated, u, it3);
    if newDnfNegated.len() > ghost_n.len() { lem_dnf_push(ghost_n, newDnfNegated.last(), u); assert(newDnfNegated =~= ghost_n.push(newDnfNegated.last())); }
  }
  assert forall|n: int| #![trigger dclk(newDnfNegated, n)] dclk(dnfNegated, n) && 0 <= constraint.x < n && dclk(pre_newDnfNegated, n) implies dclk(newDnfNegated, n) by {
    assert(dclk(ghost_n, n)); assert(ga_clk(dnfNegated[ghost_i].push(constraint), n));
    assert forall|i: int| 0 <= i < newDnfNegated.len() implies ga_clk(#[trigger] newDnfNegated[i], n) by { if i < ghost_n.len() { assert(newDnfNegated[i] == ghost_n[i]); } }
  }
@loop 4
@invariant
  0 <= it <= newDnfNegated.len(), dok(newDnfNegated),
  forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(newDnfNegated, u) == dnf_holds(pre_newDnfNegated, u),
  forall|n: int| #[trigger] dclk(pre_newDnfNegated, n) ==> dclk(newDnfNegated, n),
@decreases
  newDnfNegated.len() - it
@begin
  let ghost_n = newDnfNegated; let ghost_i = it;
  assert forall|a: Seq<Constraint>, b: Seq<Constraint>, u: spec_fn(int) -> real| #[trigger] guard_weaker(a, b) && #[trigger] guard_holds(b, u) implies guard_holds(a, u) by { guard_weaker_contract(a, b); }
@end
  if newDnfNegated.len() < ghost_n.len() {
    assert(newDnfNegated =~= ghost_n.remove(ghost_i));
    let j = choose|j: int| 0 <= j < ghost_n.len() && j != ghost_i && guard_weaker(#[trigger] ghost_n[j], ghost_n[ghost_i]);
    assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(newDnfNegated, u) == dnf_holds(ghost_n, u) by { lem_dnf_remove(ghost_n, ghost_i, j, u); }
  }
@endloop
@return
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies cnf_upto(cnfNegated, u, cnfNegated.len() as int) == !dnf_holds(dnfConstraints, u) by { lem_neg_all(dnfConstraints, cnfNegated, u); }
  assert forall|n: int| #[trigger] dclk(dnfConstraints, n) implies dclk(cnfNegated, n) by { lem_neg_clk(dnfConstraints, cnfNegated, n); }

@fn unionHull/vector<std::vector|vector<vector/ as guard_hull(guards)
@requires
  guards.len() > 0, dok(guards),
  // the conjuncts bound every clock at most once in each direction
  forall|i: int| 0 <= i < guards.len() ==> once(#[trigger] guards[i]),
@ensures
  is_hull(guards, r), gok(r), once(r),
  forall|i: int, u: spec_fn(int) -> real| 0 <= i < guards.len() && guard_holds(#[trigger] guards[i], u) ==> #[trigger] guard_holds(r, u),
@loop 1
@invariant
  rng1 == guards, 0 <= it1 <= rng1.len(), dok(guards), forall|i: int| 0 <= i < guards.len() ==> once(#[trigger] guards[i]),
  initial == (it1 == 0), it1 == 0 ==> guardsAsBounds.dom() =~= Set::empty(),
  it1 > 0 ==> is_hbmap(guardsAsBounds, guards, it1),
@decreases
  rng1.len() - it1
@begin
  let ghost_m = guardsAsBounds;
  assert(gok(guards[it1])); assert(once(guards[it1]));
@end
  assert forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) == (hb(guards, it1, k) is Some) by { assert(guardsAsBounds.dom().contains(k) ==> mkeys1.contains(k)); lem_key_kb(guards[it1 - 1], guards[it1 - 1].len() as int, k); }
  assert forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) implies guardsAsBounds[k] == hb(guards, it1, k)->Some_0 by { }
@exit
  assert forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) implies con_ok(mk_con(k, guardsAsBounds[k])) && ckey(mk_con(k, guardsAsBounds[k])) == k && cbnd(mk_con(k, guardsAsBounds[k])) == guardsAsBounds[k] by { lem_hb(guards, guards.len() as int, k); }
@loop 2
@invariant
  rng2 == guard, gok(guard), once(guard), 0 <= it2 <= guard.len(),
  forall|k: PK| #[trigger] boundedKeys.contains(k) == (kb(guard, it2, k) is Some),
  initial ==> is_kbmap(guardsAsBounds, guard, it2),
  !initial ==> forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) == pre_guardsAsBounds.dom().contains(k),
  !initial ==> forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) ==> guardsAsBounds[k] == (if kb(guard, it2, k) is Some { bmax(pre_guardsAsBounds[k], kb(guard, it2, k)->Some_0) } else { pre_guardsAsBounds[k] }),
@decreases
  guard.len() - it2
@begin
  assert(con_ok(guard[it2]));
  lem_once(guard, it2);
@loop 3
@invariant
  0 <= it <= mkeys1.len(), is_enum(pre_guardsAsBounds.dom(), mkeys1),
  forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) ==> pre_guardsAsBounds.dom().contains(k) && guardsAsBounds[k] == pre_guardsAsBounds[k],
  forall|i: int| 0 <= i < it ==> guardsAsBounds.dom().contains(#[trigger] mkeys1[i]) == boundedKeys.contains(mkeys1[i]),
  forall|i: int| it <= i < mkeys1.len() ==> guardsAsBounds.dom().contains(#[trigger] mkeys1[i]),
@decreases
  mkeys1.len() - it
@exit
  assert forall|k: PK| #[trigger] guardsAsBounds.dom().contains(k) == (ghost_m3.dom().contains(k) && boundedKeys.contains(k)) by { if ghost_m3.dom().contains(k) { assert(mkeys1.contains(k)); let i = choose|i: int| 0 <= i < mkeys1.len() && mkeys1[i] == k; assert(guardsAsBounds.dom().contains(mkeys1[i]) == boundedKeys.contains(mkeys1[i])); } }
@before
  let ghost_m3 = guardsAsBounds;
@endloop
@anchor_after result#2
  assert(result.len() == mkeys2.len());
  assert forall|i: int| 0 <= i < result.len() implies #[trigger] result[i] == mk_con(mkeys2[i], guardsAsBounds[mkeys2[i]]) by { assert(guardsAsBounds.dom().contains(mkeys2[i])); }
  assert forall|i: int| 0 <= i < result.len() implies con_ok(#[trigger] result[i]) && ckey(result[i]) == mkeys2[i] && hb(guards, guards.len() as int, ckey(result[i])) == Some(cbnd(result[i])) by { assert(guardsAsBounds.dom().contains(mkeys2[i])); }
  assert(once(result)) by { assert forall|i: int, j: int| 0 <= i < j < result.len() implies !((#[trigger] result[i]).x == (#[trigger] result[j]).x && is_up(result[i]) == is_up(result[j])) by { assert(mkeys2[i] != mkeys2[j]); assert(ckey(result[i]) == mkeys2[i]); assert(ckey(result[j]) == mkeys2[j]); } }
  assert forall|k: PK| (#[trigger] hb(guards, guards.len() as int, k)) is Some implies exists|i: int| 0 <= i < result.len() && ckey(#[trigger] result[i]) == k by { assert(guardsAsBounds.dom().contains(k)); assert(mkeys2.contains(k)); let i = choose|i: int| 0 <= i < mkeys2.len() && mkeys2[i] == k; assert(ckey(result[i]) == k); }
  assert forall|q: int| 0 <= q < guards.len() implies guard_weaker(result, #[trigger] guards[q]) by {
    guard_weaker_contract(result, guards[q]);
    assert forall|i: int| 0 <= i < result.len() implies has_stronger(#[trigger] result[i], guards[q]) by { lem_hb_weak(guards, guards.len() as int, q, result[i]); }
  }
@return
  assert forall|i: int, u: spec_fn(int) -> real| 0 <= i < guards.len() && guard_holds(#[trigger] guards[i], u) implies #[trigger] guard_holds(result, u) by { guard_weaker_contract(result, guards[i]); assert(guard_weaker(result, guards[i])); }

@fn unionHull/const std::vector<Constraint> &, / as guard_hull2(left, right)
@requires
  gok(left), gok(right), once(left), once(right),
@ensures
  is_hull(seq![left, right], r), gok(r), once(r),
  forall|u: spec_fn(int) -> real| guard_holds(left, u) || guard_holds(right, u) ==> #[trigger] guard_holds(r, u),
  // the order of the guards is irrelevant
  is_hull(seq![right, left], r),
@return
  lem_hull_swap(left, right, r);
  assert(seq![left, right][0] == left && seq![left, right][1] == right);
