// timed conditions: variable i + 1 of the zone is the sum of the durations i, i + 1, ..., and the sum of the durations i..j is x(i + 1) - x(hix(j))
pub open spec fn hix(j: int, rows: int) -> int { if j == rows - 2 { 0 } else { j + 2 } }
/// the durations i..j of the sequence described by v
pub open spec fn dur(v: spec_fn(int) -> real, i: int, j: int, rows: int) -> real { v(i + 1) - v(hix(j, rows)) }
/// b is the least upper bound of x(x) - x(y) in the (non-empty, normalised) zone
pub open spec fn tightest(m: Mat, x: int, y: int, b: Bounds) -> bool {
  (forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> bsat(b, v(x) - v(y)))
  && (x != y ==> forall|c: Bounds| okb(c) && #[trigger] blt(c, b) ==> exists|v: spec_fn(int) -> real| #[trigger] sat(m, v) && !bsat(c, v(x) - v(y)))
}
pub proof fn lem_tightest(m: Mat, x: int, y: int)
  requires wf(m), 0 <= x < m.rows, 0 <= y < m.rows
  ensures canonical(m) ==> tightest(m, x, y, m.at(x, y)), forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> bsat(m.at(x, y), v(x) - v(y))
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies bsat(m.at(x, y), v(x) - v(y)) by { let _ = m.at(x, y); }
  if canonical(m) && x != y {
    assert forall|c: Bounds| okb(c) && #[trigger] blt(c, m.at(x, y)) implies exists|v: spec_fn(int) -> real| #[trigger] sat(m, v) && !bsat(c, v(x) - v(y)) by { lem_tight_entry(m, c, x, y); }
  }
}
/// the hull of two normalised matrices
pub proof fn lem_hull(a: Mat, b: Mat, c: Mat)
  requires wf(a), wf(b), a.rows == b.rows, c.rows == a.rows, c.cols == a.cols,
    forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols ==> #[trigger] c.at(i, j) == bmax(a.at(i, j), b.at(i, j)),
  ensures wf(c), subset(a, c), subset(b, c), canonical(a) && canonical(b) ==> canonical(c) && is_least_hull(a, b, c)
{
  lem_le_subset2(a, c);
  lem_le_subset2(b, c);
  if canonical(a) && canonical(b) {
    assert forall|i: int| 0 <= i < c.rows implies ble(bz(), #[trigger] c.at(i, i)) by { assert(ble(bz(), a.at(i, i))); assert(ble(bz(), b.at(i, i))); }
    lem_diag_off(a); lem_diag_off(b);
    lem_dz(a); lem_dz(b);
    assert forall|i: int, j: int, h: int| #![trigger c.at(i, j), c.at(i, h), c.at(h, j)] #![trigger dz(c, i, j), c.at(i, h), c.at(h, j)] 0 <= i < c.rows && 0 <= j < c.cols && 0 <= h < c.rows implies ble(dz(c, i, j), badd(c.at(i, h), c.at(h, j))) by {
      assert(ble(dz(a, i, j), badd(a.at(i, h), a.at(h, j))));
      assert(ble(dz(b, i, j), badd(b.at(i, h), b.at(h, j))));
      let _ = (a.at(i, j), b.at(i, j), c.at(i, j));
      lem_hull_s(dz(a, i, j), a.at(i, h), a.at(h, j), dz(b, i, j), b.at(i, h), b.at(h, j));
    }
    assert forall|d: Mat| wf(d) && d.rows == a.rows && #[trigger] subset(a, d) && subset(b, d) implies subset(c, d) by {
      lem_includes(a, d); lem_includes(b, d);
      let v0 = lem_sol_upto(a, a.rows); assert(sat(a, v0)); assert(sat(d, v0)); lem_sat_diag(d, v0);
      assert forall|v: spec_fn(int) -> real| #[trigger] sat(c, v) implies sat(d, v) by {
        assert forall|i: int, j: int| 0 <= i < d.rows && 0 <= j < d.cols implies bsat(#[trigger] d.at(i, j), v(i) - v(j)) by {
          if i == j { assert(ble(bz(), d.at(i, i))); } else { assert(ble(a.at(i, j), d.at(i, j))); assert(ble(b.at(i, j), d.at(i, j))); assert(bsat(c.at(i, j), v(i) - v(j))); }
        }
      }
    }
  }
}
pub proof fn lem_hull_s(aij: Bounds, aih: Bounds, ahj: Bounds, bij: Bounds, bih: Bounds, bhj: Bounds)
  requires nb(aij), nb(aih), nb(ahj), nb(bij), nb(bih), nb(bhj), ble(aij, badd(aih, ahj)), ble(bij, badd(bih, bhj))
  ensures ble(bmax(aij, bij), badd(bmax(aih, bih), bmax(ahj, bhj)))
{}
/// c contains a and b and is included in every zone that does
pub open spec fn is_least_hull(a: Mat, b: Mat, c: Mat) -> bool {
  subset(a, c) && subset(b, c) && forall|d: Mat| wf(d) && d.rows == a.rows && #[trigger] subset(a, d) && subset(b, d) ==> subset(c, d)
}
pub proof fn lem_le_subset2(a: Mat, b: Mat)
  requires wf(a), a.rows == b.rows, a.cols == b.cols, forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols ==> ble(a.at(i, j), #[trigger] b.at(i, j)) && okb(b.at(i, j))
  ensures subset(a, b)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies sat(b, v) by {
    assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { assert(bsat(a.at(i, j), v(i) - v(j))); assert(ble(a.at(i, j), b.at(i, j))); }
  }
}
pub open spec fn intb(b: Bounds) -> bool { b.first is Fin ==> dv(b.first) == dv(b.first).floor() as real }
pub open spec fn intm(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> intb(#[trigger] m.at(i, j)) }
pub proof fn lem_int_add(a: Bounds, b: Bounds)
  requires intb(a), intb(b), okb(a), okb(b)
  ensures intb(badd(a, b)), intb(bmin(a, b))
{ if a.first is Fin && b.first is Fin { let x = dv(a.first).floor(); let y = dv(b.first).floor(); lem_floor_int(dv(a.first) + dv(b.first), x + y); } }
pub proof fn lem_floor_int(x: real, k: int)
  requires x == k as real
  ensures x.floor() == k
{}
/// the interval between the two bounds is a point / an open unit interval
pub open spec fn ptb(u: Bounds, l: Bounds) -> bool { u.first is Fin && l.first is Fin && dv(u.first) == -dv(l.first) && u.second && l.second }
pub open spec fn unitb(u: Bounds, l: Bounds) -> bool { u.first is Fin && l.first is Fin && dv(u.first) == -dv(l.first) + 1real && !u.second && !l.second }
pub proof fn lem_not_zero(m: Mat, x: int, y: int)
  requires wf(m), 0 <= x < m.rows, 0 <= y < m.rows, x != y
  ensures canonical(m) ==> !(m.at(x, y) == bz() && m.at(y, x) == bz()) == (exists|v: spec_fn(int) -> real| #[trigger] sat(m, v) && v(x) != v(y))
{
  if canonical(m) {
    if m.at(x, y) == bz() && m.at(y, x) == bz() {
      assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies v(x) == v(y) by { assert(bsat(m.at(x, y), v(x) - v(y))); assert(bsat(m.at(y, x), v(y) - v(x))); }
    } else {
      lem_diag_off(m);
      assert(ble(dz(m, x, x), badd(m.at(x, y), m.at(y, x)))); assert(ble(bz(), m.at(x, x)));
      let v0 = lem_sol_upto(m, m.rows);
      assert(sat(m, v0));
      if v0(x) == v0(y) {
        let _ = (m.at(x, y), m.at(y, x));
        if m.at(x, y) != bz() {
          if blt(bz(), m.at(x, y)) { lem_tight_entry(m, bz(), x, y); } else { assert(bsat(m.at(x, y), v0(x) - v0(y))); assert(m.at(x, y).first == D::Fin(0real)); }
        } else {
          if blt(bz(), m.at(y, x)) { lem_tight_entry(m, bz(), y, x); } else { assert(bsat(m.at(y, x), v0(y) - v0(x))); }
        }
      }
    }
  }
}
pub proof fn lem_int_row(p: Mat, q: Mat, i: int, x: int)
  requires intm(p), wf(p), q.rows == p.rows, q.cols == p.cols, p.rows == p.cols, 0 <= i < p.rows, 0 <= x < p.rows,
    forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.cols ==> #[trigger] q.at(a, b) == (if a == i { bmin(p.at(i, b), badd(p.at(x, b), p.at(i, x))) } else { p.at(a, b) }),
  ensures intm(q)
{
  assert forall|a: int, b: int| 0 <= a < q.rows && 0 <= b < q.cols implies intb(#[trigger] q.at(a, b)) by {
    let _ = p.at(a, b);
    if a == i { let _ = (p.at(x, b), p.at(i, x)); lem_int_add(p.at(x, b), p.at(i, x)); }
  }
}
