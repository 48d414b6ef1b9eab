pub open spec fn st_val(v: spec_fn(int) -> real, z: int, rows: int, i: int) -> real { v(vix(z, rows, i)) - v(z) }
/// every value grows by d
pub open spec fn st_mv(v: spec_fn(int) -> real, z: int, d: real) -> spec_fn(int) -> real { |k: int| if k == z { v(k) } else { v(k) + d } }
pub open spec fn st_neg(v: spec_fn(int) -> real) -> spec_fn(int) -> real { |k: int| -v(k) }
pub open spec fn st_fr(x: real) -> real { x - x.floor() as real }
pub open spec fn st_fracs(v: spec_fn(int) -> real, z: int, rows: int) -> spec_fn(int) -> real { |i: int| st_fr(st_val(v, z, rows, i)) }
/// the order is the one of the fractional parts of every valuation
pub open spec fn st_ordered(m: Mat, o: Seq<Seq<int>>, z: int) -> bool { forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> fo_order(o, st_fracs(v, z, m.rows)) }
/// a region: a simple condition with integer constants, and the order of the fractional parts
pub open spec fn region_ok(m: Mat, o: Seq<Seq<int>>, z: int) -> bool { canonical(m) && intm(m) && simple(m) && m.rows >= 2 && 0 <= z <= 1 && fo_part(o, m.rows - 1) && st_ordered(m, o, z) }
/// b is the region entered next from a when the values grow
pub open spec fn st_reach(a: Mat, b: Mat, z: int, v: spec_fn(int) -> real, d: real) -> bool { d > 0real && sat(a, v) && sat(b, st_mv(v, z, d)) && forall|e: real| 0real <= e <= d ==> #[trigger] sat(a, st_mv(v, z, e)) || sat(b, st_mv(v, z, e)) }
pub open spec fn st_back(a: Mat, b: Mat, z: int, w: spec_fn(int) -> real, d: real) -> bool { d > 0real && sat(a, st_mv(w, z, -d)) && forall|e: real| 0real <= e <= d ==> #[trigger] sat(a, st_mv(w, z, -e)) || sat(b, st_mv(w, z, -e)) }
pub open spec fn st_step(a: Mat, b: Mat, z: int) -> bool {
  a.rows == b.rows && (forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) ==> !sat(b, v) && exists|d: real| #[trigger] st_reach(a, b, z, v, d))
  && (forall|w: spec_fn(int) -> real| #[trigger] sat(b, w) ==> exists|d: real| #[trigger] st_back(a, b, z, w, d))
}
// the bounds of one value in the next region, and in the previous one
// ---- cells: the bounds of one value are an integer or an open unit interval
pub open spec fn st_c(m: Mat, z: int, i: int) -> int { (-dv(m.at(z, vix(z, m.rows, i)).first)).floor() }
pub open spec fn st_p(m: Mat, z: int, i: int) -> bool { m.at(z, vix(z, m.rows, i)).second }
pub open spec fn in_cell(c: int, p: bool, x: real) -> bool { if p { x == c as real } else { (c as real) < x < c as real + 1real } }
pub open spec fn cell_ok(u: Bounds, l: Bounds, c: int, p: bool) -> bool { u == (if p { bnd(c as real, true) } else { bnd(c as real + 1real, false) }) && l == bnd(-(c as real), p) }
pub open spec fn st_cell(m: Mat, z: int, i: int, c: int, p: bool) -> bool { let k = vix(z, m.rows, i); cell_ok(m.at(k, z), m.at(z, k), c, p) }
pub proof fn lem_cell(m: Mat, z: int, i: int)
  requires intm(m), simple(m), m.rows >= 2, m.cols == m.rows, 0 <= z <= 1, 0 <= i < m.rows - 1
  ensures st_cell(m, z, i, st_c(m, z, i), st_p(m, z, i))
{
  lem_vix(z, m.rows, i);
  let k = vix(z, m.rows, i); let (a, b) = if k < z { (k, z) } else { (z, k) };
  assert(tij(a, b)); assert(ptb(m.at(a, b), m.at(b, a)) || unitb(m.at(a, b), m.at(b, a)));
  assert(intb(m.at(k, z)) && intb(m.at(z, k)));
  let l = dv(m.at(z, k).first);
  lem_floor_neg(l);
}
pub proof fn lem_floor_neg(l: real)
  requires l == l.floor() as real
  ensures -l == (-l).floor() as real
{ lem_floor_int(-l, -l.floor()); }
pub proof fn lem_cell_bsat(u: Bounds, l: Bounds, c: int, p: bool, x: real)
  requires cell_ok(u, l, c, p)
  ensures (bsat(u, x) && bsat(l, -x)) == in_cell(c, p, x)
{}
pub proof fn lem_in_cell(c: int, p: bool, x: real)
  requires in_cell(c, p, x)
  ensures st_fr(x) == x - c as real
{ lem_floor_in(x, c); }
pub proof fn lem_cell_sat(u: Bounds, l: Bounds, c: int, p: bool, x: real)
  requires cell_ok(u, l, c, p)
  ensures (bsat(u, x) && bsat(l, -x)) == in_cell(c, p, x), in_cell(c, p, x) ==> st_fr(x) == x - c as real
{ lem_cell_bsat(u, l, c, p, x); if in_cell(c, p, x) { lem_in_cell(c, p, x); } }
pub proof fn lem_floor_in(x: real, c: int)
  requires c as real <= x < c as real + 1real
  ensures x.floor() == c
{}
pub open spec fn st_rest(m: Mat, z: int, v: spec_fn(int) -> real) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && i != z && j != z ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)) }
/// m restricts the values to the cells with the integer parts c
pub open spec fn st_cells(m: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool) -> bool { forall|i: int| 0 <= i < m.rows - 1 ==> st_cell(m, z, i, #[trigger] c(i), p(i)) }
pub open spec fn st_in(rows: int, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < rows - 1 ==> in_cell(#[trigger] c(i), p(i), st_val(v, z, rows, i)) }
pub proof fn lem_cells(m: Mat, z: int)
  requires intm(m), simple(m), m.rows >= 2, m.cols == m.rows, 0 <= z <= 1
  ensures st_cells(m, z, |i: int| st_c(m, z, i), |i: int| st_p(m, z, i))
{
  let c = |i: int| st_c(m, z, i); let p = |i: int| st_p(m, z, i);
  assert forall|i: int| 0 <= i < m.rows - 1 implies st_cell(m, z, i, #[trigger] c(i), p(i)) by { lem_cell(m, z, i); }
}
pub proof fn lem_split(m: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real)
  requires wf(m), diag_ok(m), m.rows >= 2, 0 <= z <= 1, st_cells(m, z, c, p)
  ensures sat(m, v) == (st_rest(m, z, v) && st_in(m.rows, z, c, p, v)), sat(m, v) ==> forall|i: int| 0 <= i < m.rows - 1 ==> st_fr(st_val(v, z, m.rows, i)) == st_val(v, z, m.rows, i) - #[trigger] c(i) as real
{
  assert forall|i: int| 0 <= i < m.rows - 1 implies (bsat(m.at(vix(z, m.rows, i), z), st_val(v, z, m.rows, i)) && bsat(m.at(z, vix(z, m.rows, i)), -st_val(v, z, m.rows, i))) == in_cell(#[trigger] c(i), p(i), st_val(v, z, m.rows, i))
    && (in_cell(c(i), p(i), st_val(v, z, m.rows, i)) ==> st_fr(st_val(v, z, m.rows, i)) == st_val(v, z, m.rows, i) - c(i) as real) by {
    let k = vix(z, m.rows, i); assert(st_cell(m, z, i, c(i), p(i)));
    lem_cell_sat(m.at(k, z), m.at(z, k), c(i), p(i), st_val(v, z, m.rows, i));
  }
  if st_rest(m, z, v) && st_in(m.rows, z, c, p, v) {
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), v(i) - v(j)) by {
      if i == j { assert(ble(bz(), m.at(i, i))); }
      else if i == z { lem_xiv(z, m.rows, j); let q = c(xiv(z, m.rows, j)); }
      else if j == z { lem_xiv(z, m.rows, i); let q = c(xiv(z, m.rows, i)); }
    }
  }
  if sat(m, v) {
    assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c(i), p(i), st_val(v, z, m.rows, i)) by {
      lem_vix(z, m.rows, i); let k = vix(z, m.rows, i);
      assert(bsat(m.at(k, z), v(k) - v(z))); assert(bsat(m.at(z, k), v(z) - v(k)));
    }
  }
}
pub proof fn lem_mv(m: Mat, b: Mat, z: int, v: spec_fn(int) -> real, d: real)
  requires st_same(m, b, z), m.rows >= 2, 0 <= z <= 1
  ensures st_rest(m, z, v) == st_rest(b, z, st_mv(v, z, d)), st_rest(m, z, v) == st_rest(m, z, st_mv(v, z, d)), forall|i: int| 0 <= i < m.rows - 1 ==> #[trigger] st_val(st_mv(v, z, d), z, m.rows, i) == st_val(v, z, m.rows, i) + d
{
  let w = st_mv(v, z, d);
  if st_rest(m, z, v) {
    assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.rows && i != z && j != z implies bsat(#[trigger] b.at(i, j), w(i) - w(j)) by { assert(bsat(m.at(i, j), v(i) - v(j))); assert(w(i) - w(j) == v(i) - v(j)); }
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && i != z && j != z implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by { assert(bsat(m.at(i, j), v(i) - v(j))); assert(w(i) - w(j) == v(i) - v(j)); }
  }
  if st_rest(b, z, w) || st_rest(m, z, w) {
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && i != z && j != z implies bsat(#[trigger] m.at(i, j), v(i) - v(j)) by { assert(b.at(i, j) == m.at(i, j)); assert(bsat(m.at(i, j), w(i) - w(j))) by { if st_rest(b, z, w) { assert(bsat(b.at(i, j), w(i) - w(j))); } } assert(w(i) - w(j) == v(i) - v(j)); }
  }
}
// ---- an integer, simple, satisfiable matrix is in normal form
pub open spec fn upc(a: int, s: bool, x: real) -> bool { if s { x == a as real } else { a as real - 1real < x < a as real } }
pub proof fn lem_sc_i(a: int, b: int, c: int, sa: bool, sb: bool, sc: bool, x: real, y: real)
  requires upc(a, sa, x + y), upc(b, sb, x), upc(c, sc, y)
  ensures a < b + c || (a == b + c && (sa ==> sb && sc))
{
  assert(x + y <= b as real + c as real);
  assert(x + y > a as real - 1real);
  assert(a as real - 1real < (b + c) as real);
  assert(a - 1 < b + c);
}
pub proof fn lem_upc(u: Bounds, l: Bounds, x: real) -> (a: int)
  requires ptb(u, l) || unitb(u, l), intb(u), intb(l)
  ensures u == bnd(a as real, u.second), l == bnd(if u.second { -(a as real) } else { 1real - a as real }, u.second), bsat(u, x) && bsat(l, -x) ==> upc(a, u.second, x)
{ dv(u.first).floor() }
pub proof fn lem_sc_s(ij: Bounds, ji: Bounds, ih: Bounds, hi: Bounds, hj: Bounds, jh: Bounds, x: real, y: real)
  requires ptb(ij, ji) || unitb(ij, ji), ptb(ih, hi) || unitb(ih, hi), ptb(hj, jh) || unitb(hj, jh), intb(ij), intb(ji), intb(ih), intb(hi), intb(hj), intb(jh),
    bsat(ij, x + y), bsat(ji, -(x + y)), bsat(ih, x), bsat(hi, -x), bsat(hj, y), bsat(jh, -y)
  ensures ble(ij, badd(ih, hj))
{
  let a = lem_upc(ij, ji, x + y); let b = lem_upc(ih, hi, x); let c = lem_upc(hj, jh, y);
  lem_sc_i(a, b, c, ij.second, ih.second, hj.second, x, y);
  assert(badd(ih, hj) == bnd(b as real + c as real, ih.second && hj.second));
  assert(b as real + c as real == (b + c) as real);
}
pub proof fn lem_sc_d(ih: Bounds, hi: Bounds)
  requires ptb(ih, hi) || unitb(ih, hi)
  ensures ble(bz(), badd(ih, hi))
{}
pub proof fn lem_simple_canonical(m: Mat, w: spec_fn(int) -> real)
  requires wf(m), diag_ok(m), intm(m), simple(m), sat(m, w)
  ensures canonical(m)
{
  assert forall|i: int, j: int, h: int| #![trigger m.at(i, j), m.at(i, h), m.at(h, j)] #![trigger dz(m, i, j), m.at(i, h), m.at(h, j)] 0 <= i < m.rows && 0 <= j < m.cols && 0 <= h < m.rows implies ble(dz(m, i, j), badd(m.at(i, h), m.at(h, j))) by {
    lem_sc3(m, w, i, j, h);
  }
}
pub proof fn lem_sc3(m: Mat, w: spec_fn(int) -> real, i: int, j: int, h: int)
  requires wf(m), diag_ok(m), intm(m), simple(m), sat(m, w), 0 <= i < m.rows, 0 <= j < m.rows, 0 <= h < m.rows
  ensures ble(dz(m, i, j), badd(m.at(i, h), m.at(h, j)))
{
  assert(ble(bz(), m.at(i, i)) && ble(bz(), m.at(j, j)) && okb(m.at(i, i)) && okb(m.at(j, j)) && okb(m.at(i, j)));
  assert(bsat(m.at(i, i), w(i) - w(i)) && bsat(m.at(j, j), w(j) - w(j)) && bsat(m.at(i, j), w(i) - w(j)));
  if i != h && j != h {
    lem_srp(m, i, h); lem_srp(m, h, j);
    if i != j {
      lem_srp(m, i, j);
      assert(bsat(m.at(j, i), w(j) - w(i)) && bsat(m.at(i, h), w(i) - w(h)) && bsat(m.at(h, i), w(h) - w(i)) && bsat(m.at(h, j), w(h) - w(j)) && bsat(m.at(j, h), w(j) - w(h)));
      assert(intb(m.at(i, j)) && intb(m.at(j, i)) && intb(m.at(i, h)) && intb(m.at(h, i)) && intb(m.at(h, j)) && intb(m.at(j, h)));
      lem_sc_s(m.at(i, j), m.at(j, i), m.at(i, h), m.at(h, i), m.at(h, j), m.at(j, h), w(i) - w(h), w(h) - w(j));
    } else { lem_sc_d(m.at(i, h), m.at(h, i)); }
  }
}
// ---- the order of one valuation is the order of all
pub proof fn lem_cell_one(u: Bounds, l: Bounds, x: real, y: real, c: int)
  requires ptb(u, l) || unitb(u, l), intb(u), intb(l), bsat(u, x), bsat(l, -x), bsat(u, y), bsat(l, -y)
  ensures x == c as real ==> y == c as real, (c as real) < x < c as real + 1real ==> (c as real) < y < c as real + 1real
{ let a = lem_upc(u, l, x); let b = lem_upc(u, l, y); assert(a as real == b as real); lem_cell_one_i(a, u.second, x, y, c); }
pub proof fn lem_cell_one_i(a: int, s: bool, x: real, y: real, c: int)
  requires upc(a, s, x), upc(a, s, y)
  ensures x == c as real ==> y == c as real, (c as real) < x < c as real + 1real ==> (c as real) < y < c as real + 1real
{
  if !s && (c as real) <= x < c as real + 1real {
    assert(a as real - 1real < c as real + 1real); assert(((a - 1) as real) < (c + 1) as real); assert(a - 1 < c + 1);
    if x > c as real { assert((c as real) < a as real); assert(c < a); assert(a == c + 1); }
    else { assert((c as real) < a as real); assert(c < a); assert(((a - 1) as real) < c as real); assert(false); }
  }
}
pub proof fn lem_order_one(m: Mat, o: Seq<Seq<int>>, z: int, v0: spec_fn(int) -> real)
  requires wf(m), diag_ok(m), intm(m), simple(m), m.rows >= 2, 0 <= z <= 1, sat(m, v0), fo_part(o, m.rows - 1), fo_order(o, st_fracs(v0, z, m.rows))
  ensures st_ordered(m, o, z)
{
  let n = m.rows;
  let c = |i: int| st_c(m, z, i); let p = |i: int| st_p(m, z, i);
  lem_cells(m, z); lem_split(m, z, c, p, v0);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies fo_order(o, st_fracs(v, z, n)) by {
    lem_split(m, z, c, p, v);
    let f0 = st_fracs(v0, z, n); let f = st_fracs(v, z, n);
    assert forall|g: int, q: int| #[trigger] gi(o, g, q) implies (if g == 0 { f(o[g][q]) == 0real } else { f(o[g][q]) > 0real }) by { let i = o[g][q]; let e = c(i); assert(f(i) == st_val(v, z, n, i) - e as real); assert(f0(i) == st_val(v0, z, n, i) - e as real); }
    assert forall|g: int, q: int, h: int, r: int| #[trigger] gi(o, g, q) && #[trigger] gi(o, h, r) implies (g < h ==> f(o[g][q]) < f(o[h][r])) && (g == h ==> f(o[g][q]) == f(o[h][r])) by {
      let (i, j) = (o[g][q], o[h][r]);
      lem_order_pair(m, z, c, p, v0, v, i, j);
    }
  }
}
pub proof fn lem_order_pair(m: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v0: spec_fn(int) -> real, v: spec_fn(int) -> real, i: int, j: int)
  requires wf(m), diag_ok(m), intm(m), simple(m), m.rows >= 2, 0 <= z <= 1, sat(m, v0), sat(m, v), st_cells(m, z, c, p), 0 <= i < m.rows - 1, 0 <= j < m.rows - 1
  ensures ({ let f0 = st_fracs(v0, z, m.rows); let f = st_fracs(v, z, m.rows); (f0(i) < f0(j) ==> f(i) < f(j)) && (f0(i) == f0(j) ==> f(i) == f(j)) })
{
  let n = m.rows; let f0 = st_fracs(v0, z, n); let f = st_fracs(v, z, n);
  lem_split(m, z, c, p, v0); lem_split(m, z, c, p, v);
  let (ci, cj) = (c(i), c(j));
  assert(f(i) == st_val(v, z, n, i) - ci as real && f(j) == st_val(v, z, n, j) - cj as real);
  assert(f0(i) == st_val(v0, z, n, i) - ci as real && f0(j) == st_val(v0, z, n, j) - cj as real);
  let (k, h) = (vix(z, n, i), vix(z, n, j));
  lem_vix(z, n, i); lem_vix(z, n, j);
  if i != j {
    assert(k != h);
    lem_srp(m, k, h);
    assert(bsat(m.at(k, h), v0(k) - v0(h)) && bsat(m.at(h, k), v0(h) - v0(k)) && bsat(m.at(k, h), v(k) - v(h)) && bsat(m.at(h, k), v(h) - v(k)));
    assert(intb(m.at(k, h)) && intb(m.at(h, k)));
    let x = v0(k) - v0(h); let y = v(k) - v(h);
    assert(x == f0(i) - f0(j) + (ci - cj) as real); assert(y == f(i) - f(j) + (ci - cj) as real);
    lem_cell_one(m.at(k, h), m.at(h, k), x, y, ci - cj);
    lem_cell_one(m.at(k, h), m.at(h, k), x, y, ci - cj - 1);
    assert(0real <= f0(i) < 1real && 0real <= f0(j) < 1real);
  }
}
/// a positive number below finitely many positive numbers
pub proof fn lem_below(f: spec_fn(int) -> real, n: int) -> (d: real)
  requires n >= 0, forall|i: int| 0 <= i < n ==> #[trigger] f(i) > 0real
  ensures d > 0real, d < 1real, forall|i: int| 0 <= i < n ==> d < #[trigger] f(i)
  decreases n
{
  if n == 0 { 0.5real } else { let e = lem_below(f, n - 1); if e < f(n - 1) { e } else { assert(f(n - 1) > 0real); f(n - 1) / 2real } }
}
// ---- the next region when the values grow
pub open spec fn st_c2(c: spec_fn(int) -> int, p: spec_fn(int) -> bool, s: Seq<int>) -> spec_fn(int) -> int { |i: int| if s.contains(i) && !p(i) { c(i) + 1 } else { c(i) } }
pub open spec fn st_p2(p: spec_fn(int) -> bool, s: Seq<int>) -> spec_fn(int) -> bool { |i: int| if s.contains(i) { !p(i) } else { p(i) } }
pub proof fn lem_rise_cells(m: Mat, b: Mat, z: int, s: Seq<int>, c: spec_fn(int) -> int, p: spec_fn(int) -> bool)
  requires m.rows >= 2, 0 <= z <= 1, st_cells(m, z, c, p), st_moved(m, b, z, s, true)
  ensures st_cells(b, z, st_c2(c, p, s), st_p2(p, s))
{
  let (c2, p2) = (st_c2(c, p, s), st_p2(p, s));
  assert forall|i: int| 0 <= i < b.rows - 1 implies st_cell(b, z, i, #[trigger] c2(i), p2(i)) by {
    assert(st_cell(m, z, i, c(i), p(i))); assert(st_at(m, b, z, i, s.contains(i), true));
    assert((c(i) + 1) as real == c(i) as real + 1real);
  }
}
pub proof fn lem_shape_ok(m: Mat, b: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, i: int, j: int)
  requires m.rows >= 2, 0 <= z <= 1, wf(m), intm(m), simple(m), st_same(m, b, z), st_cells(b, z, c, p), 0 <= i < b.rows, 0 <= j < b.rows
  ensures okb(b.at(i, j)) && intb(b.at(i, j)), i != j ==> ptb(b.at(i, j), b.at(j, i)) || unitb(b.at(i, j), b.at(j, i))
{
  if (i == z) == (j == z) { assert(okb(m.at(i, j)) && intb(m.at(i, j))); assert(b.at(i, j) == m.at(i, j)); assert(b.at(j, i) == m.at(j, i)); if i != j { lem_srp(m, i, j); } }
  else {
    let k = if i == z { j } else { i }; lem_xiv(z, b.rows, k); let q = xiv(z, b.rows, k); let e = c(q); assert(st_cell(b, z, q, c(q), p(q)));
    lem_shape_cell(b.at(k, z), b.at(z, k), c(q), p(q));
  }
}
pub proof fn lem_shape_cell(u: Bounds, l: Bounds, c: int, p: bool)
  requires cell_ok(u, l, c, p)
  ensures okb(u), okb(l), intb(u), intb(l), ptb(u, l) || unitb(u, l), ptb(l, u) || unitb(l, u)
{
  lem_int_cell(c); let x = c as real; let (y, w) = (x + 1real, -x);
  assert(y.floor() == c + 1 && w.floor() == -c && x.floor() == c);
  assert((c + 1) as real == y); assert((-c) as real == w);
  lem_shape_b(u, l, x, y, w, p);
}
pub proof fn lem_shape_b(u: Bounds, l: Bounds, x: real, y: real, w: real, p: bool)
  requires u == (if p { bnd(x, true) } else { bnd(y, false) }), l == bnd(w, p), x == x.floor() as real, y == y.floor() as real, w == w.floor() as real, y == x + 1real, w == -x
  ensures okb(u), okb(l), intb(u), intb(l), ptb(u, l) || unitb(u, l), ptb(l, u) || unitb(l, u)
{}
pub proof fn lem_shape(m: Mat, b: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool)
  requires m.rows >= 2, 0 <= z <= 1, wf(m), diag_ok(m), intm(m), simple(m), st_same(m, b, z), st_cells(b, z, c, p)
  ensures wf(b), diag_ok(b), intm(b), simple(b)
{
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies okb(#[trigger] b.at(i, j)) && intb(b.at(i, j)) by { lem_shape_ok(m, b, z, c, p, i, j); }
  assert forall|i: int| 0 <= i < b.rows implies ble(bz(), #[trigger] b.at(i, i)) by { assert(b.at(i, i) == m.at(i, i)); }
  assert forall|i: int, j: int| 0 <= i < j < b.rows && #[trigger] tij(i, j) implies ptb(b.at(i, j), b.at(j, i)) || unitb(b.at(i, j), b.at(j, i)) by {
    lem_shape_ok(m, b, z, c, p, i, j);
  }
}
pub proof fn lem_int_cell(e: int)
  ensures (e as real).floor() == e, (e as real + 1real).floor() == e + 1, (-(e as real)).floor() == -e
{ assert(e as real + 1real == (e + 1) as real); assert(-(e as real) == (-e) as real); lem_floor_int(e as real, e); lem_floor_int(e as real + 1real, e + 1); lem_floor_int(-(e as real), -e); }
/// what a valuation of a region says about the cells
pub open spec fn st_facts(rows: int, z: int, o: Seq<Seq<int>>, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real) -> bool {
  forall|g: int, q: int| #[trigger] gi(o, g, q) ==> in_cell(c(o[g][q]), p(o[g][q]), st_val(v, z, rows, o[g][q])) && p(o[g][q]) == (g == 0)
}
pub proof fn lem_facts(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real)
  requires region_ok(m, o, z), st_cells(m, z, c, p), sat(m, v)
  ensures st_facts(m.rows, z, o, c, p, v)
{
  lem_split(m, z, c, p, v);
  let f = st_fracs(v, z, m.rows);
  assert(fo_order(o, f));
  assert forall|g: int, q: int| #[trigger] gi(o, g, q) implies in_cell(c(o[g][q]), p(o[g][q]), st_val(v, z, m.rows, o[g][q])) && p(o[g][q]) == (g == 0) by {
    let i = o[g][q]; let e = c(i); assert(f(i) == st_val(v, z, m.rows, i) - e as real);
  }
}
/// membership in a group
pub proof fn lem_group(o: Seq<Seq<int>>, n: int, g0: int)
  requires fo_part(o, n), 0 <= g0 < o.len()
  ensures forall|g: int, q: int| #[trigger] gi(o, g, q) ==> o[g0].contains(o[g][q]) == (g == g0)
{
  assert forall|g: int, q: int| #[trigger] gi(o, g, q) implies o[g0].contains(o[g][q]) == (g == g0) by {
    if o[g0].contains(o[g][q]) { let r = choose|r: int| 0 <= r < o[g0].len() && o[g0][r] == o[g][q]; assert(gi(o, g0, r)); }
  }
}
pub open spec fn st_g0(o: Seq<Seq<int>>) -> int { if o[0].len() == 0 { o.len() - 1 } else { 0 } }
pub open spec fn st_all(rows: int, o: Seq<Seq<int>>) -> bool { forall|i: int| 0 <= i < rows - 1 ==> #[trigger] has(o, i) }
/// v grown by e is in the cells c
pub open spec fn st_inm(m: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, e: real) -> bool { forall|i: int| 0 <= i < m.rows - 1 ==> in_cell(#[trigger] c(i), p(i), st_val(v, z, m.rows, i) + e) }
pub proof fn lem_inm(m: Mat, b: Mat, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, e: real)
  requires wf(b), diag_ok(b), b.rows >= 2, 0 <= z <= 1, st_same(m, b, z), st_cells(b, z, c, p), st_rest(m, z, v), st_inm(m, z, c, p, v, e)
  ensures sat(b, st_mv(v, z, e)), forall|i: int| 0 <= i < m.rows - 1 ==> st_fr(st_val(v, z, m.rows, i) + e) == st_val(v, z, m.rows, i) + e - #[trigger] c(i) as real
{
  let w = st_mv(v, z, e);
  lem_mv(m, b, z, v, e);
  assert forall|i: int| 0 <= i < b.rows - 1 implies in_cell(#[trigger] c(i), p(i), st_val(w, z, b.rows, i)) by { assert(st_val(w, z, m.rows, i) == st_val(v, z, m.rows, i) + e); }
  lem_split(b, z, c, p, w);
  assert forall|i: int| 0 <= i < m.rows - 1 implies st_fr(st_val(v, z, m.rows, i) + e) == st_val(v, z, m.rows, i) + e - #[trigger] c(i) as real by { assert(st_val(w, z, m.rows, i) == st_val(v, z, m.rows, i) + e); }
}
pub proof fn lem_rise_fwd(m: Mat, o: Seq<Seq<int>>, z: int, b: Mat, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real) -> (d: real)
  requires region_ok(m, o, z), st_cells(m, z, c, p), sat(m, v), st_moved(m, b, z, fo_succ_vars(o), true)
  ensures !sat(b, v), st_reach(m, b, z, v, d), fo_order(fo_succ(o), st_fracs(st_mv(v, z, d), z, m.rows))
{
  let n = m.rows; let s = fo_succ_vars(o); let (c2, p2) = (st_c2(c, p, s), st_p2(p, s)); let g0 = st_g0(o);
  lem_two(o, n - 1); lem_rise_cells(m, b, z, s, c, p); lem_shape(m, b, z, c2, p2); lem_facts(m, o, z, c, p, v); lem_group(o, n - 1, g0); lem_split(m, z, c, p, v); lem_rotate(o, n - 1);
  assert(s == o[g0]); assert(gi(o, g0, 0));
  let l = o[g0][0];
  let f = st_fracs(v, z, n);
  assert(fo_order(o, f));
  assert forall|i: int| 0 <= i < n - 1 implies f(i) == st_val(v, z, n, i) - #[trigger] c(i) as real by {}
  assert(!sat(b, v)) by { if sat(b, v) { lem_split(b, z, c2, p2, v); let e = c2(l); assert(in_cell(c2(l), p2(l), st_val(v, z, n, l))); assert(in_cell(c(l), p(l), st_val(v, z, n, l))); assert(s.contains(l)); assert((c(l) + 1) as real == c(l) as real + 1real); } }
  if g0 == 0 {
    let h = |i: int| 1real - (st_val(v, z, n, i) - c(i) as real);
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) > 0real by { let e = c(i); }
    let d = lem_below(h, n - 1);
    assert forall|e: real| 0real < e <= d implies st_inm(m, z, c2, p2, v, e) by { lem_rise1(m, o, z, c, p, v, d, e, h); }
    assert forall|e: real| 0real <= e <= d implies #[trigger] sat(m, st_mv(v, z, e)) || sat(b, st_mv(v, z, e)) by {
      if e == 0real { assert forall|i: int| 0 <= i < n - 1 implies in_cell(#[trigger] c(i), p(i), st_val(v, z, n, i) + 0real) by {} lem_inm(m, m, z, c, p, v, 0real); } else { lem_inm(m, b, z, c2, p2, v, e); }
    }
    lem_inm(m, b, z, c2, p2, v, d);
    lem_rise_order1(m, o, z, c, p, v, d, st_mv(v, z, d), c2);
    d
  } else {
    let d = 1real - (st_val(v, z, n, l) - c(l) as real);
    assert(in_cell(c(l), p(l), st_val(v, z, n, l)));
    assert forall|e: real| 0real <= e < d implies st_inm(m, z, c, p, v, e) by { lem_rise2(m, o, z, c, p, v, d, e); }
    lem_rise2b(m, o, z, c, p, v, d);
    lem_inm(m, b, z, c2, p2, v, d);
    assert forall|e: real| 0real <= e <= d implies #[trigger] sat(m, st_mv(v, z, e)) || sat(b, st_mv(v, z, e)) by {
      if e < d { lem_inm(m, m, z, c, p, v, e); }
    }
    lem_rise_order2(m, o, z, c, p, v, d, st_mv(v, z, d), c2);
    d
  }
}
pub open spec fn st_pre(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real) -> bool {
  m.rows >= 2 && 0 <= z <= 1 && fo_part(o, m.rows - 1) && fo_order(o, st_fracs(v, z, m.rows)) && st_facts(m.rows, z, o, c, p, v)
  && (forall|i: int| 0 <= i < m.rows - 1 ==> st_fracs(v, z, m.rows)(i) == st_val(v, z, m.rows, i) - #[trigger] c(i) as real)
  && (forall|g: int, q: int| #[trigger] gi(o, g, q) ==> o[st_g0(o)].contains(o[g][q]) == (g == st_g0(o)))
}
pub proof fn lem_rise1(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, d: real, e: real, h: spec_fn(int) -> real)
  requires st_pre(m, o, z, c, p, v), st_g0(o) == 0, 0real < e <= d, d < 1real, forall|i: int| #[trigger] h(i) == 1real - (st_val(v, z, m.rows, i) - c(i) as real), forall|i: int| 0 <= i < m.rows - 1 ==> d < #[trigger] h(i)
  ensures st_inm(m, z, st_c2(c, p, o[0]), st_p2(p, o[0]), v, e)
{
  let (c2, p2) = (st_c2(c, p, o[0]), st_p2(p, o[0]));
  assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c2(i), p2(i), st_val(v, z, m.rows, i) + e) by {
    assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i;
    assert(o[0].contains(o[g][q]) == (g == 0));
    assert(in_cell(c(i), p(i), st_val(v, z, m.rows, i)));
    assert(d < h(i));
  }
}
pub proof fn lem_rise2(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, d: real, e: real)
  requires st_pre(m, o, z, c, p, v), st_g0(o) > 0, 0real <= e < d, ({ let l = o[st_g0(o)][0]; d == 1real - (st_val(v, z, m.rows, l) - c(l) as real) })
  ensures st_inm(m, z, c, p, v, e)
{
  let g0 = st_g0(o); let f = st_fracs(v, z, m.rows); let l = o[g0][0];
  assert(gi(o, g0, 0)); let u = c(l);
  assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c(i), p(i), st_val(v, z, m.rows, i) + e) by {
    assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i;
    assert(f(o[g][q]) <= f(o[g0][0]));
    assert(in_cell(c(i), p(i), st_val(v, z, m.rows, i)));
    assert(f(i) == st_val(v, z, m.rows, i) - c(i) as real);
  }
}
pub proof fn lem_rise2b(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, d: real)
  requires st_pre(m, o, z, c, p, v), st_g0(o) > 0, ({ let l = o[st_g0(o)][0]; d == 1real - (st_val(v, z, m.rows, l) - c(l) as real) })
  ensures st_inm(m, z, st_c2(c, p, o[st_g0(o)]), st_p2(p, o[st_g0(o)]), v, d), d > 0real
{
  let g0 = st_g0(o); let f = st_fracs(v, z, m.rows); let l = o[g0][0]; let s = o[g0];
  let (c2, p2) = (st_c2(c, p, s), st_p2(p, s));
  assert(gi(o, g0, 0)); let u = c(l); assert(in_cell(c(l), p(l), st_val(v, z, m.rows, l)));
  assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c2(i), p2(i), st_val(v, z, m.rows, i) + d) by {
    assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i;
    assert(f(o[g][q]) <= f(o[g0][0])); assert(g < g0 ==> f(o[g][q]) < f(o[g0][0])); assert(g == g0 ==> f(o[g][q]) == f(o[g0][0]));
    assert(s.contains(o[g][q]) == (g == g0));
    assert(in_cell(c(i), p(i), st_val(v, z, m.rows, i)));
    assert(f(i) == st_val(v, z, m.rows, i) - c(i) as real);
    assert((c(i) + 1) as real == c(i) as real + 1real);
  }
}
pub proof fn lem_rise_order1(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, d: real, w: spec_fn(int) -> real, c2: spec_fn(int) -> int)
  requires st_pre(m, o, z, c, p, v), st_g0(o) == 0, d > 0real, c2 == st_c2(c, p, o[0]), w == st_mv(v, z, d), o[0].len() > 0,
    forall|i: int| 0 <= i < m.rows - 1 ==> st_fr(st_val(v, z, m.rows, i) + d) == st_val(v, z, m.rows, i) + d - #[trigger] c2(i) as real
  ensures fo_order(fo_succ(o), st_fracs(w, z, m.rows))
{
  let r = fo_succ(o); let f = st_fracs(v, z, m.rows); let f2 = st_fracs(w, z, m.rows);
  lem_rotate(o, m.rows - 1);
  lem_mv(m, m, z, v, d);
  assert forall|g: int, q: int| #[trigger] gi(r, g, q) implies gi(o, g - 1, q) && r[g][q] == o[g - 1][q] && f2(r[g][q]) == f(r[g][q]) + d && f(r[g][q]) >= 0real by {
    let i = r[g][q]; assert(gi(o, fo_from(o, g), q)); assert(o[0].contains(o[g - 1][q]) == (g - 1 == 0)); let e = c(i); let e2 = c2(i);
    assert(st_val(w, z, m.rows, i) == st_val(v, z, m.rows, i) + d);
    assert(p(i) == (g - 1 == 0));
    assert(c2(i) == c(i));
  }
}
pub proof fn lem_rise_order2(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v: spec_fn(int) -> real, d: real, w: spec_fn(int) -> real, c2: spec_fn(int) -> int)
  requires st_pre(m, o, z, c, p, v), st_g0(o) > 0, d > 0real, c2 == st_c2(c, p, o[st_g0(o)]), w == st_mv(v, z, d), o[0].len() == 0, ({ let l = o[st_g0(o)][0]; d == 1real - (st_val(v, z, m.rows, l) - c(l) as real) }),
    forall|i: int| 0 <= i < m.rows - 1 ==> st_fr(st_val(v, z, m.rows, i) + d) == st_val(v, z, m.rows, i) + d - #[trigger] c2(i) as real
  ensures fo_order(fo_succ(o), st_fracs(w, z, m.rows))
{
  let r = fo_succ(o); let f = st_fracs(v, z, m.rows); let f2 = st_fracs(w, z, m.rows); let g0 = st_g0(o); let l = o[g0][0];
  lem_rotate(o, m.rows - 1);
  lem_mv(m, m, z, v, d);
  assert(gi(o, g0, 0)); let u = c(l); assert(f(l) == st_val(v, z, m.rows, l) - c(l) as real);
  assert forall|g: int, q: int| #[trigger] gi(r, g, q) implies gi(o, fo_from(o, g), q) && r[g][q] == o[fo_from(o, g)][q] && (if g == 0 { f2(r[g][q]) == 0real } else { f2(r[g][q]) == f(r[g][q]) + d && f(r[g][q]) > 0real }) by {
    let i = r[g][q]; let h = fo_from(o, g); assert(gi(o, h, q)); assert(o[g0].contains(o[h][q]) == (h == g0)); let e = c(i); let e2 = c2(i);
    assert(st_val(w, z, m.rows, i) == st_val(v, z, m.rows, i) + d);
    assert(p(i) == (h == 0));
    assert(h == g0 ==> f(o[h][q]) == f(o[g0][0]));
    assert((c(i) + 1) as real == c(i) as real + 1real);
  }
}
pub proof fn lem_rise_bwd(m: Mat, o: Seq<Seq<int>>, z: int, b: Mat, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v0: spec_fn(int) -> real, w: spec_fn(int) -> real) -> (d: real)
  requires region_ok(m, o, z), st_cells(m, z, c, p), sat(m, v0), st_moved(m, b, z, fo_succ_vars(o), true), sat(b, w), region_ok(b, fo_succ(o), z)
  ensures st_back(m, b, z, w, d)
{
  let n = m.rows; let s = fo_succ_vars(o); let (c2, p2) = (st_c2(c, p, s), st_p2(p, s)); let g0 = st_g0(o); let r = fo_succ(o);
  lem_two(o, n - 1); lem_rise_cells(m, b, z, s, c, p); lem_shape(m, b, z, c2, p2); lem_facts(m, o, z, c, p, v0); lem_group(o, n - 1, g0); lem_split(b, z, c2, p2, w); lem_rotate(o, n - 1);
  assert(s == o[g0]); assert(gi(o, g0, 0));
  let f = st_fracs(w, z, n);
  assert(fo_order(r, f));
  lem_mv(m, b, z, w, 0real);
  assert(st_rest(b, z, w)); 
  assert(st_rest(m, z, w)) by { assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && i != z && j != z implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by { assert(b.at(i, j) == m.at(i, j)); } }
  let d = if g0 == 0 { f(o[0][0]) } else {
    let h = |i: int| if s.contains(i) { 1real } else { st_val(w, z, n, i) - c(i) as real };
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) > 0real by { let e = c2(i); assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i; assert(p(o[g][q]) == (g == 0)); }
    let d = lem_below(h, n - 1);
    assert forall|i: int| 0 <= i < n - 1 && !s.contains(i) implies d < st_val(w, z, n, i) - #[trigger] c(i) as real by { assert(d < h(i)); }
    d
  };
  if g0 == 0 { assert(gi(r, 1, 0)); assert(r[1][0] == o[0][0]); }
  assert(d > 0real);
  lem_back_m(m, o, z, c, p, v0, w, d);
  assert(st_mv(w, z, -d) == st_mv(w, z, -d));
  assert forall|e: real| 0real <= e <= d implies #[trigger] sat(m, st_mv(w, z, -e)) || sat(b, st_mv(w, z, -e)) by {
    if g0 == 0 {
      if e == d { lem_inm(m, m, z, c, p, w, -e); } else { lem_back_b1(m, o, z, c, p, v0, w, d, e); lem_inm(m, b, z, c2, p2, w, -e); }
    } else {
      if e == 0real { assert forall|i: int| 0 <= i < n - 1 implies in_cell(#[trigger] c2(i), p2(i), st_val(w, z, n, i) + (-e)) by {} lem_inm(m, b, z, c2, p2, w, -e); }
      else { lem_back_m(m, o, z, c, p, v0, w, e); lem_inm(m, m, z, c, p, w, -e); }
    }
  }
  lem_inm(m, m, z, c, p, w, -d);
  d
}
pub open spec fn st_bpre(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, w: spec_fn(int) -> real) -> bool {
  let s = o[st_g0(o)];
  m.rows >= 2 && 0 <= z <= 1 && fo_part(o, m.rows - 1) && s.len() > 0 && fo_order(fo_succ(o), st_fracs(w, z, m.rows))
  && (forall|g: int, q: int| #[trigger] gi(o, g, q) ==> p(o[g][q]) == (g == 0))
  && (forall|i: int| 0 <= i < m.rows - 1 ==> in_cell(#[trigger] st_c2(c, p, s)(i), st_p2(p, s)(i), st_val(w, z, m.rows, i)) && st_fracs(w, z, m.rows)(i) == st_val(w, z, m.rows, i) - st_c2(c, p, s)(i) as real)
  && (forall|g: int, q: int| #[trigger] gi(o, g, q) ==> o[st_g0(o)].contains(o[g][q]) == (g == st_g0(o)))
}
pub proof fn lem_back_m(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v0: spec_fn(int) -> real, w: spec_fn(int) -> real, d: real)
  requires st_bpre(m, o, z, c, p, w), d > 0real,
    if st_g0(o) == 0 { d == st_fracs(w, z, m.rows)(o[0][0]) } else { d < 1real && forall|i: int| 0 <= i < m.rows - 1 && !o[st_g0(o)].contains(i) ==> d < st_val(w, z, m.rows, i) - #[trigger] c(i) as real }
  ensures st_inm(m, z, c, p, w, -d)
{
  let g0 = st_g0(o); let f = st_fracs(w, z, m.rows); let s = o[g0]; let r = fo_succ(o);
  let (c2, p2) = (st_c2(c, p, s), st_p2(p, s));
  lem_two(o, m.rows - 1); lem_rotate(o, m.rows - 1);
  assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c(i), p(i), st_val(w, z, m.rows, i) + (-d)) by {
    let e = c2(i);
    assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i;
    assert(s.contains(o[g][q]) == (g == g0)); assert(p(o[g][q]) == (g == 0));
    assert((c(i) + 1) as real == c(i) as real + 1real);
    assert(f(i) == st_val(w, z, m.rows, i) - c2(i) as real);
    if g0 == 0 {
      assert(gi(r, 1, 0) && r[1][0] == o[0][0]);
      assert(gi(r, g + 1, q) && r[g + 1][q] == o[g][q]);
    }
  }
}
pub proof fn lem_back_b1(m: Mat, o: Seq<Seq<int>>, z: int, c: spec_fn(int) -> int, p: spec_fn(int) -> bool, v0: spec_fn(int) -> real, w: spec_fn(int) -> real, d: real, e: real)
  requires st_bpre(m, o, z, c, p, w), 0real <= e < d, st_g0(o) == 0, d == st_fracs(w, z, m.rows)(o[0][0])
  ensures st_inm(m, z, st_c2(c, p, o[0]), st_p2(p, o[0]), w, -e)
{
  let f = st_fracs(w, z, m.rows); let s = o[0]; let r = fo_succ(o);
  let (c2, p2) = (st_c2(c, p, s), st_p2(p, s));
  lem_two(o, m.rows - 1); lem_rotate(o, m.rows - 1);
  assert forall|i: int| 0 <= i < m.rows - 1 implies in_cell(#[trigger] c2(i), p2(i), st_val(w, z, m.rows, i) + (-e)) by {
    assert(has(o, i)); let (g, q) = choose|g: int, q: int| #[trigger] gi(o, g, q) && o[g][q] == i;
    assert(s.contains(o[g][q]) == (g == 0)); assert(p(o[g][q]) == (g == 0));
    assert(f(i) == st_val(w, z, m.rows, i) - c2(i) as real);
    assert(gi(r, 1, 0) && r[1][0] == o[0][0]);
    assert(gi(r, g + 1, q) && r[g + 1][q] == o[g][q]);
  }
}
/// the region with the values of the next variables raised is the next region
pub proof fn lem_rise(m: Mat, o: Seq<Seq<int>>, z: int, b: Mat)
  requires region_ok(m, o, z), st_moved(m, b, z, fo_succ_vars(o), true)
  ensures region_ok(b, fo_succ(o), z), st_step(m, b, z)
{
  let n = m.rows; let c = |i: int| st_c(m, z, i); let p = |i: int| st_p(m, z, i); let s = fo_succ_vars(o);
  lem_cells(m, z); lem_rise_cells(m, b, z, s, c, p); lem_shape(m, b, z, st_c2(c, p, s), st_p2(p, s)); lem_rotate(o, n - 1);
  let v0 = lem_sol_upto(m, n);
  let d0 = lem_rise_fwd(m, o, z, b, c, p, v0); let w0 = st_mv(v0, z, d0);
  assert(sat(b, w0));
  lem_simple_canonical(b, w0);
  lem_order_one(b, fo_succ(o), z, w0);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies !sat(b, v) && exists|d: real| #[trigger] st_reach(m, b, z, v, d) by { let d = lem_rise_fwd(m, o, z, b, c, p, v); }
  assert forall|w: spec_fn(int) -> real| #[trigger] sat(b, w) implies exists|d: real| #[trigger] st_back(m, b, z, w, d) by { let d = lem_rise_bwd(m, o, z, b, c, p, v0, w); }
}

// ---- the step backwards: by transposition, values become their negations
pub open spec fn st_tr(m: Mat) -> Mat { Mat { rows: m.cols, cols: m.rows, f: |i: int, j: int| m.at(j, i) } }
pub open spec fn st_rev(o: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(o.len(), |g: int| if g == 0 { o[0] } else { o[o.len() - g] }) }
pub open spec fn st_rg(o: Seq<Seq<int>>, g: int) -> int { if g == 0 { 0 } else { o.len() - g } }
pub proof fn lem_rev(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 1
  ensures fo_part(st_rev(o), n), st_rev(st_rev(o)) =~= o, fo_pred(o) =~= st_rev(fo_succ(st_rev(o))), fo_pred_vars(o) =~= fo_succ_vars(st_rev(o)),
    forall|g: int, p: int| #[trigger] gi(st_rev(o), g, p) ==> gi(o, st_rg(o, g), p) && st_rev(o)[g][p] == o[st_rg(o, g)][p]
{
  let r = st_rev(o);
  lem_two(o, n);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies gi(o, st_rg(o, g), p) && r[g][p] == o[st_rg(o, g)][p] by {}
  assert forall|i: int| 0 <= i < n implies #[trigger] has(r, i) by {
    assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i;
    assert(gi(r, st_rg(o, g), p) && r[st_rg(o, g)][p] == i);
  }
  assert forall|g: int| 1 <= g < r.len() implies (#[trigger] r[g]).len() > 0 by { assert(o[o.len() - g].len() > 0); }
  assert(st_rev(r) =~= o);
  let a = fo_pred(o); let b = st_rev(fo_succ(r));
  if o[0].len() == 0 { assert(o[0] =~= Seq::<int>::empty()); }
  assert(a.len() == b.len());
  assert forall|g: int| 0 <= g < a.len() implies a[g] =~= b[g] by {}
  assert(a =~= b);
}
pub proof fn lem_fr_neg(x: real)
  ensures st_fr(-x) == (if st_fr(x) == 0real { 0real } else { 1real - st_fr(x) })
{
  let k = x.floor();
  if st_fr(x) == 0real { lem_floor_in(-x, -k); } else { assert((-k - 1) as real == -(k as real) - 1real); lem_floor_in(-x, -k - 1); }
}
pub proof fn lem_neg_sat(m: Mat, v: spec_fn(int) -> real)
  requires m.cols == m.rows
  ensures sat(st_tr(m), v) == sat(m, st_neg(v))
{
  let t = st_tr(m); let n = st_neg(v);
  if sat(t, v) { assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), n(i) - n(j)) by { assert(bsat(t.at(j, i), v(j) - v(i))); assert(n(i) - n(j) == v(j) - v(i)); } }
  if sat(m, n) { assert forall|i: int, j: int| 0 <= i < t.rows && 0 <= j < t.cols implies bsat(#[trigger] t.at(i, j), v(i) - v(j)) by { assert(bsat(m.at(j, i), n(j) - n(i))); assert(n(j) - n(i) == v(i) - v(j)); } }
}
pub proof fn lem_neg_neg(v: spec_fn(int) -> real, z: int, d: real)
  ensures st_neg(st_neg(v)) =~= v, st_neg(st_mv(v, z, d)) =~= st_mv(st_neg(v), z, -d), st_neg(st_mv(st_neg(v), z, d)) =~= st_mv(v, z, -d)
{}
pub proof fn lem_tr_ptb(u: Bounds, l: Bounds)
  ensures ptb(u, l) == ptb(l, u), unitb(u, l) == unitb(l, u)
{}
pub proof fn lem_tr_region(m: Mat, o: Seq<Seq<int>>, z: int)
  requires region_ok(m, o, z)
  ensures region_ok(st_tr(m), st_rev(o), z)
{
  let t = st_tr(m); let n = m.rows;
  lem_rev(o, n - 1);
  assert forall|i: int, j: int, h: int| #![trigger t.at(i, j), t.at(i, h), t.at(h, j)] #![trigger dz(t, i, j), t.at(i, h), t.at(h, j)] 0 <= i < t.rows && 0 <= j < t.cols && 0 <= h < t.rows implies ble(dz(t, i, j), badd(t.at(i, h), t.at(h, j))) by {
    assert(ble(dz(m, j, i), badd(m.at(j, h), m.at(h, i)))); assert(badd(m.at(j, h), m.at(h, i)) == badd(m.at(h, i), m.at(j, h)));
  }
  assert forall|i: int, j: int| 0 <= i < j < t.rows && #[trigger] tij(i, j) implies ptb(t.at(i, j), t.at(j, i)) || unitb(t.at(i, j), t.at(j, i)) by { lem_tr_ptb(m.at(i, j), m.at(j, i)); }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(t, v) implies fo_order(st_rev(o), st_fracs(v, z, n)) by {
    lem_neg_sat(m, v); let w = st_neg(v);
    let f = st_fracs(w, z, n); let h = st_fracs(v, z, n); let r = st_rev(o);
    assert(fo_order(o, f));
    assert forall|i: int| #[trigger] h(i) == (if f(i) == 0real { 0real } else { 1real - f(i) }) by { assert(st_val(v, z, n, i) == -st_val(w, z, n, i)); lem_fr_neg(st_val(w, z, n, i)); }
    assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == 0 { h(r[g][p]) == 0real } else { h(r[g][p]) == 1real - f(r[g][p]) && h(r[g][p]) > 0real }) by {
      let e = st_rg(o, g); assert(gi(o, e, p)); assert(h(o[e][p]) == (if f(o[e][p]) == 0real { 0real } else { 1real - f(o[e][p]) })); lem_fr_unit(st_val(w, z, n, o[e][p]));
    }
    assert forall|g: int, p: int, k: int, q: int| #[trigger] gi(r, g, p) && #[trigger] gi(r, k, q) implies (g < k ==> h(r[g][p]) < h(r[k][q])) && (g == k ==> h(r[g][p]) == h(r[k][q])) by {
      assert(gi(o, st_rg(o, g), p)); assert(gi(o, st_rg(o, k), q));
    }
  }
}
pub proof fn lem_fr_unit(x: real)
  ensures 0real <= st_fr(x) < 1real
{}
pub proof fn lem_tr_moved(m: Mat, q: Mat, z: int, s: Seq<int>)
  requires st_moved(m, q, z, s, false), m.rows >= 2, 0 <= z <= 1, m.cols == m.rows
  ensures st_moved(st_tr(m), st_tr(q), z, s, true)
{
  let (a, b) = (st_tr(m), st_tr(q));
  assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.rows && ((i == z) == (j == z)) implies #[trigger] b.at(i, j) == a.at(i, j) by { assert(q.at(j, i) == m.at(j, i)); }
  assert forall|i: int| 0 <= i < a.rows - 1 implies #[trigger] st_at(a, b, z, i, s.contains(i), true) by { assert(st_at(m, q, z, i, s.contains(i), false)); }
}
pub proof fn lem_tr_step(m: Mat, q: Mat, z: int)
  requires st_step(st_tr(m), st_tr(q), z), m.cols == m.rows, q.cols == q.rows
  ensures st_step(q, m, z)
{
  let (a, b) = (st_tr(m), st_tr(q));
  assert forall|w: spec_fn(int) -> real| #[trigger] sat(q, w) implies !sat(m, w) && exists|d: real| #[trigger] st_reach(q, m, z, w, d) by {
    let x = st_neg(w); lem_neg_neg(w, z, 0real); lem_neg_sat(q, x); lem_neg_sat(m, x);
    assert(st_neg(x) == w);
    assert(sat(b, x)); assert(!sat(m, w)) by { if sat(m, w) { assert(sat(a, x)); } }
    let d = choose|d: real| #[trigger] st_back(a, b, z, x, d);
    assert forall|e: real| 0real <= e <= d implies #[trigger] sat(q, st_mv(w, z, e)) || sat(m, st_mv(w, z, e)) by { lem_tr_mv(m, q, w, z, e); assert(sat(a, st_mv(x, z, -e)) || sat(b, st_mv(x, z, -e))); }
    lem_tr_mv(m, q, w, z, d);
    assert(st_reach(q, m, z, w, d));
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies exists|d: real| #[trigger] st_back(q, m, z, v, d) by {
    let x = st_neg(v); lem_neg_neg(v, z, 0real); lem_neg_sat(m, x);
    assert(st_neg(x) == v); assert(sat(a, x));
    let d = choose|d: real| #[trigger] st_reach(a, b, z, x, d);
    assert forall|e: real| 0real <= e <= d implies #[trigger] sat(q, st_mv(v, z, -e)) || sat(m, st_mv(v, z, -e)) by { lem_tr_mv(m, q, v, z, -e); assert(-(-e) == e); assert(sat(a, st_mv(x, z, e)) || sat(b, st_mv(x, z, e))); }
    lem_tr_mv(m, q, v, z, -d); assert(-(-d) == d);
    assert(st_back(q, m, z, v, d));
  }
}
pub proof fn lem_tr_mv(m: Mat, q: Mat, w: spec_fn(int) -> real, z: int, e: real)
  requires m.cols == m.rows, q.cols == q.rows
  ensures sat(st_tr(m), st_mv(st_neg(w), z, -e)) == sat(m, st_mv(w, z, e)), sat(st_tr(q), st_mv(st_neg(w), z, -e)) == sat(q, st_mv(w, z, e))
{
  let y = st_mv(st_neg(w), z, -e); lem_neg_sat(m, y); lem_neg_sat(q, y);
  assert(st_neg(y) =~= st_mv(w, z, e));
}
/// the region with the values of the previous variables lowered is the previous region
pub proof fn lem_fall(m: Mat, o: Seq<Seq<int>>, z: int, q: Mat)
  requires region_ok(m, o, z), st_moved(m, q, z, fo_pred_vars(o), false)
  ensures region_ok(q, fo_pred(o), z), st_step(q, m, z), st_moved(q, m, z, fo_pred_vars(o), true), fo_succ(fo_pred(o)) =~= o, fo_succ_vars(fo_pred(o)) =~= fo_pred_vars(o)
{
  let n = m.rows; let s = fo_pred_vars(o); let r = st_rev(o);
  lem_rev(o, n - 1); lem_two(o, n - 1); lem_rotate(o, n - 1);
  lem_tr_region(m, o, z); lem_tr_moved(m, q, z, s);
  assert(s == fo_succ_vars(r));
  lem_rise(st_tr(m), r, z, st_tr(q));
  lem_tr_region(st_tr(q), fo_succ(r), z);
  assert(fo_pred(o) == st_rev(fo_succ(r)));
  lem_tr_step(m, q, z);
  lem_trtr(q, fo_pred(o), z);
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.rows && ((i == z) == (j == z)) implies #[trigger] m.at(i, j) == q.at(i, j) by {}
  assert forall|i: int| 0 <= i < q.rows - 1 implies #[trigger] st_at(q, m, z, i, s.contains(i), true) by { assert(st_at(m, q, z, i, s.contains(i), false)); lem_cell(m, z, i); let k = vix(z, n, i); lem_undo(m.at(k, z), m.at(z, k), q.at(k, z), q.at(z, k), s.contains(i)); }
}
pub proof fn lem_undo(u: Bounds, l: Bounds, uu: Bounds, ll: Bounds, c: bool)
  requires st_chg(u, l, uu, ll, c, false), exists|x: int, p: bool| #[trigger] cell_ok(u, l, x, p)
  ensures st_chg(uu, ll, u, l, c, true)
{}
pub proof fn lem_trtr(q: Mat, o: Seq<Seq<int>>, z: int)
  requires region_ok(st_tr(st_tr(q)), o, z)
  ensures region_ok(q, o, z)
{
  let t = st_tr(st_tr(q));
  assert(t.f =~= q.f); assert(t == q);
}

pub proof fn lem_vars(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 1
  ensures st_vars(fo_succ_vars(o), n), st_vars(fo_pred_vars(o), n)
{
  lem_two(o, n);
  assert forall|g: int| 0 <= g < o.len() implies st_vars(#[trigger] o[g], n) by {
    assert forall|k: int| 0 <= k < o[g].len() implies 0 <= #[trigger] o[g][k] < n by { assert(gi(o, g, k)); }
    assert forall|k: int, h: int| 0 <= k < h < o[g].len() implies #[trigger] o[g][k] != #[trigger] o[g][h] by { assert(gi(o, g, k) && gi(o, g, h)); }
  }
}
