// ---- guards
/// the comparison described by a constraint, for a value of its clock
pub open spec fn con_holds(c: Constraint, x: real) -> bool {
    match c.odr { Constraint_Order::lt => x < c.c as real, Constraint_Order::le => x <= c.c as real, Constraint_Order::ge => x >= c.c as real, Constraint_Order::gt => x > c.c as real }
}
/// the first n conjuncts hold for the valuation u of the clocks
pub open spec fn guard_upto(g: Seq<Constraint>, u: spec_fn(int) -> real, n: int) -> bool { forall|i: int| 0 <= i < n ==> con_holds(#[trigger] g[i], u(g[i].x)) }
pub open spec fn guard_holds(g: Seq<Constraint>, u: spec_fn(int) -> real) -> bool { guard_upto(g, u, g.len() as int) }
/// the clocks of a zone valuation (index 0 is the constant zero)
pub open spec fn clocks(v: spec_fn(int) -> real) -> spec_fn(int) -> real { |x: int| v(x + 1) - v(0) }
