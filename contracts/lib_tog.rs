/// the first n sums to the end are within their bounds
pub open spec fn sums_upto(m: Mat, v: spec_fn(int) -> real, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] tix(i) ==> bsat(m.at(i + 1, 0), v(i + 1) - v(0)) && bsat(m.at(0, i + 1), v(0) - v(i + 1)) }
pub open spec fn con_low(b: Bounds, x: int) -> Constraint { Constraint { x: x, odr: if b.second { Constraint_Order::ge } else { Constraint_Order::gt }, c: -dtrunc(b.first) } }
pub open spec fn con_upp(b: Bounds, x: int) -> Constraint { Constraint { x: x, odr: if b.second { Constraint_Order::le } else { Constraint_Order::lt }, c: dtrunc(b.first) } }
pub open spec fn with_low(g: Seq<Constraint>, b: Bounds, x: int) -> Seq<Constraint> { if b.first == D::Max || b == bz() { g } else { g.push(con_low(b, x)) } }
pub open spec fn with_upp(g: Seq<Constraint>, b: Bounds, x: int) -> Seq<Constraint> { if b.first == D::Max { g } else { g.push(con_upp(b, x)) } }
pub proof fn lem_con_low(b: Bounds, x: int, d: real)
  requires okb(b), intb(b), b.first is Fin
  ensures con_holds(con_low(b, x), d) == bsat(b, -d), con_holds(con_upp(b, x), d) == bsat(b, d)
{
  let k = dv(b.first).floor();
  assert(dv(b.first) == k as real);
  lem_floor_int(-dv(b.first), -k);
  assert(dtrunc(b.first) == k);
}
pub proof fn lem_guard_push(g: Seq<Constraint>, c: Constraint, u: spec_fn(int) -> real)
  ensures guard_holds(g.push(c), u) == (guard_holds(g, u) && con_holds(c, u(c.x)))
{
  let h = g.push(c);
  if guard_holds(h, u) { assert forall|i: int| 0 <= i < g.len() implies con_holds(#[trigger] g[i], u(g[i].x)) by { assert(h[i] == g[i]); } assert(h[g.len() as int] == c); }
  if guard_holds(g, u) && con_holds(c, u(c.x)) { assert forall|i: int| 0 <= i < h.len() implies con_holds(#[trigger] h[i], u(h[i].x)) by { if i < g.len() { assert(h[i] == g[i]); } } }
}
pub proof fn lem_clk_step(m: Mat, g: Seq<Constraint>, h: Seq<Constraint>, v: spec_fn(int) -> real, i: int)
  requires canonical(m), intm(m), 1 <= i < m.rows, nonneg(m, v), v(i) >= v(0), guard_holds(g, clocks(v)) == sums_upto(m, v, i - 1),
    h == with_upp(with_low(g, m.at(0, i), i - 1), m.at(i, 0), i - 1),
  ensures guard_holds(h, clocks(v)) == sums_upto(m, v, i)
{
  lem_diag_off(m);
  let (l, u) = (m.at(0, i), m.at(i, 0));
  let d = v(i) - v(0);
  assert(okb(l) && okb(u) && intb(l) && intb(u));
  if l.first is Fin { lem_con_low(l, i - 1, d); }
  if u.first is Fin { lem_con_low(u, i - 1, d); }
  lem_guard_push(g, con_low(l, i - 1), clocks(v));
  lem_guard_push(with_low(g, l, i - 1), con_upp(u, i - 1), clocks(v));
  assert(clocks(v)(i - 1) == d);
  assert(v(0) - v(i) == -d);
  assert(sums_upto(m, v, i) == (sums_upto(m, v, i - 1) && bsat(u, d) && bsat(l, -d))) by {
    assert(tix(i - 1));
    if sums_upto(m, v, i - 1) && bsat(u, d) && bsat(l, -d) { assert forall|k: int| 0 <= k < i && #[trigger] tix(k) implies bsat(m.at(k + 1, 0), v(k + 1) - v(0)) && bsat(m.at(0, k + 1), v(0) - v(k + 1)) by { if k == i - 1 {} } }
  }
}
