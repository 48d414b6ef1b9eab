// regions of sequences of sums of durations
/// the valuation described by the accumulated durations
pub open spec fn av(s: Seq<D>) -> spec_fn(int) -> real { |k: int| if 1 <= k <= s.len() { dv(s[k - 1]) } else { 0real } }
pub open spec fn is_int(d: real) -> bool { d == d.floor() as real }
/// the least upper bound with an integer constant that d satisfies
pub open spec fn regb(d: real) -> Bounds { if is_int(d) { bnd(d, true) } else { bnd(d.floor() as real + 1real, false) } }
pub open spec fn all_fin(s: Seq<D>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Fin }
/// the sums have the same integer parts, and the same of them are integers
pub open spec fn same_region(v: spec_fn(int) -> real, w: spec_fn(int) -> real, n: int) -> bool { forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] tij(x, y) ==> (v(x) - v(y)).floor() == (w(x) - w(y)).floor() }
pub open spec fn same_diff(v: spec_fn(int) -> real, w: spec_fn(int) -> real, n: int) -> bool { forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] tij(x, y) ==> v(x) - v(y) == w(x) - w(y) }
pub open spec fn simple(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < j < m.rows && #[trigger] tij(i, j) ==> ptb(m.at(i, j), m.at(j, i)) || unitb(m.at(i, j), m.at(j, i)) }
/// the bound between x and y is at most the one of the given family
pub open spec fn reg_le(m: Mat, a: spec_fn(int) -> real, x: int, y: int) -> bool { ble(m.at(x, y), regb(a(x) - a(y))) && ble(m.at(y, x), regb(a(y) - a(x))) }
pub open spec fn reg_done(m: Mat, a: spec_fn(int) -> real, i: int, j: int) -> bool { forall|b: int, c: int| 0 <= b <= c < m.rows - 1 && (b < i || (b == i && c < j)) ==> #[trigger] reg_le(m, a, b + 1, hix(c, m.rows)) }
pub proof fn lem_regb(d: real)
  ensures okb(regb(d)), intb(regb(d)), bsat(regb(d), d), forall|b: Bounds| okb(b) && intb(b) && #[trigger] bsat(b, d) ==> ble(regb(d), b)
{
  if !is_int(d) { lem_floor_int(d.floor() as real + 1real, d.floor() + 1); }
  assert forall|b: Bounds| okb(b) && intb(b) && #[trigger] bsat(b, d) implies ble(regb(d), b) by { lem_regb_min(d, b); }
}
pub proof fn lem_int_between(d: real, k: int)
  ensures k as real > d ==> k >= d.floor() + 1
{}
pub proof fn lem_regb_min(d: real, b: Bounds)
  requires okb(b), intb(b), bsat(b, d)
  ensures ble(regb(d), b)
{
  if b.first is Fin {
    let k = dv(b.first).floor();
    assert(dv(b.first) == k as real);
    if !is_int(d) { assert(k as real > d); lem_int_between(d, k); assert(k >= d.floor() + 1); assert(dv(b.first) >= d.floor() as real + 1real); }
  }
}
pub proof fn lem_regb2(d: real, e: real)
  ensures bsat(regb(d), e) && bsat(regb(-d), -e) <==> d.floor() == e.floor() && (-d).floor() == (-e).floor(),
    is_int(d) == is_int(-d), ptb(regb(d), regb(-d)) || unitb(regb(d), regb(-d)),
{
  lem_neg_floor(d); lem_neg_floor(e);
}
pub proof fn lem_neg_floor(d: real)
  ensures is_int(d) ==> is_int(-d) && (-d).floor() == -d.floor(), !is_int(d) ==> !is_int(-d) && (-d).floor() == -d.floor() - 1
{
  if is_int(d) { lem_floor_int(-d, -d.floor()); } else { if is_int(-d) { lem_floor_int(d, -(-d).floor()); } }
}
/// an entry of an integer matrix that contains a is replaced by the region bound
pub proof fn lem_reg_step(m: Mat, r: Mat, x: int, y: int, a: spec_fn(int) -> real)
  requires wf(m), wf(r), intm(m), sat(m, a), 0 <= x < m.rows, 0 <= y < m.rows, x != y,
    same_sols(mset(m, x, y, regb(a(x) - a(y))), r), le_mat(r, mset(m, x, y, regb(a(x) - a(y)))), diag_ok(r) ==> closed(r),
  ensures sat(r, a), canonical(r), le_mat(r, m), ble(r.at(x, y), regb(a(x) - a(y))), r.rows == m.rows
{
  let q = mset(m, x, y, regb(a(x) - a(y)));
  lem_regb(a(x) - a(y));
  assert(bsat(m.at(x, y), a(x) - a(y)));
  assert(okb(m.at(x, y)) && intb(m.at(x, y)));
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies #[trigger] q.at(i, j) == (if i == x && j == y { bmin(m.at(i, j), regb(a(x) - a(y))) } else { m.at(i, j) }) by {}
  lem_set_min(m, q, x, y, regb(a(x) - a(y)));
  assert(sat(q, a)); assert(sat(r, a));
  lem_sat_diag(r, a);
  lem_le_trans(r, q, m);
  assert(ble(r.at(x, y), q.at(x, y)));
}
pub proof fn lem_reg_done(m: Mat, r: Mat, a: spec_fn(int) -> real, i: int, j: int)
  requires wf(m), wf(r), reg_done(m, a, i, j), le_mat(r, m), 0 <= i <= j < m.rows - 1, reg_le(r, a, i + 1, hix(j, r.rows))
  ensures reg_done(r, a, i, j + 1)
{
  assert forall|b: int, c: int| 0 <= b <= c < r.rows - 1 && (b < i || (b == i && c < j + 1)) implies #[trigger] reg_le(r, a, b + 1, hix(c, r.rows)) by {
    let (x, y) = (b + 1, hix(c, r.rows));
    if !(b == i && c == j) { assert(reg_le(m, a, x, y)); assert(ble(r.at(x, y), m.at(x, y))); assert(ble(r.at(y, x), m.at(y, x))); 
      lem_regb(a(x) - a(y)); lem_regb(a(y) - a(x)); assert(okb(m.at(x, y)) && okb(m.at(y, x)) && okb(r.at(x, y)) && okb(r.at(y, x))); }
  }
}
pub proof fn lem_reg_final(m: Mat, a: spec_fn(int) -> real)
  requires canonical(m), intm(m), sat(m, a), reg_done(m, a, m.rows - 1, 0)
  ensures forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.rows && x != y ==> #[trigger] m.at(x, y) == regb(a(x) - a(y)),
    simple(m), forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_region(v, a, m.rows)
{
  assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.rows && x != y implies #[trigger] m.at(x, y) == regb(a(x) - a(y)) by {
    let (p, q) = if x == 0 { (y, x) } else if y == 0 { (x, y) } else if x < y { (x, y) } else { (y, x) };
    let c = if q == 0 { m.rows - 2 } else { q - 2 };
    assert(hix(c, m.rows) == q); assert(reg_le(m, a, (p - 1) + 1, hix(c, m.rows)));
    lem_regb(a(x) - a(y)); lem_regb(a(y) - a(x)); assert(bsat(m.at(x, y), a(x) - a(y))); assert(okb(m.at(x, y)) && intb(m.at(x, y)));
    assert(ble(m.at(x, y), regb(a(x) - a(y))));
  }
  assert forall|i: int, j: int| 0 <= i < j < m.rows && #[trigger] tij(i, j) implies ptb(m.at(i, j), m.at(j, i)) || unitb(m.at(i, j), m.at(j, i)) by {
    let d = a(i) - a(j); assert(a(j) - a(i) == -d); lem_regb2(d, d);
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_region(v, a, m.rows) by {
    if sat(m, v) {
      assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.rows && #[trigger] tij(x, y) implies (v(x) - v(y)).floor() == (a(x) - a(y)).floor() by {
        if x != y { let (d, e) = (a(x) - a(y), v(x) - v(y)); assert(a(y) - a(x) == -d && v(y) - v(x) == -e); assert(bsat(m.at(x, y), e)); assert(bsat(m.at(y, x), -e)); lem_regb2(d, e); }
      }
    }
    if same_region(v, a, m.rows) {
      assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.cols implies bsat(#[trigger] m.at(x, y), v(x) - v(y)) by {
        if x != y { let (d, e) = (a(x) - a(y), v(x) - v(y)); assert(a(y) - a(x) == -d && v(y) - v(x) == -e); assert(tij(x, y) && tij(y, x)); lem_regb2(d, e); } else { assert(ble(bz(), m.at(x, x))); }
      }
    }
  }
}
// ---- the condition that contains only the given durations
pub open spec fn ex_le(m: Mat, a: spec_fn(int) -> real, x: int, y: int) -> bool { ble(m.at(x, y), bnd(a(x) - a(y), true)) && ble(m.at(y, x), bnd(a(y) - a(x), true)) }
pub open spec fn ex_done(m: Mat, a: spec_fn(int) -> real, i: int, j: int) -> bool { forall|b: int, c: int| 0 <= b <= c < m.rows - 1 && (b < i || (b == i && c < j)) ==> #[trigger] ex_le(m, a, b + 1, hix(c, m.rows)) }
pub proof fn lem_ex_step(m: Mat, r: Mat, x: int, y: int, a: spec_fn(int) -> real)
  requires wf(m), wf(r), sat(m, a), 0 <= x < m.rows, 0 <= y < m.rows, x != y,
    same_sols(mset(m, x, y, bnd(a(x) - a(y), true)), r), le_mat(r, mset(m, x, y, bnd(a(x) - a(y), true))), diag_ok(r) ==> closed(r),
  ensures sat(r, a), canonical(r), le_mat(r, m), ble(r.at(x, y), bnd(a(x) - a(y), true)), r.rows == m.rows
{
  let q = mset(m, x, y, bnd(a(x) - a(y), true));
  assert(bsat(m.at(x, y), a(x) - a(y)));
  assert(okb(m.at(x, y)));
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies #[trigger] q.at(i, j) == (if i == x && j == y { bmin(m.at(i, j), bnd(a(x) - a(y), true)) } else { m.at(i, j) }) by {}
  lem_set_min(m, q, x, y, bnd(a(x) - a(y), true));
  assert(sat(q, a)); assert(sat(r, a));
  lem_sat_diag(r, a);
  lem_le_trans(r, q, m);
  assert(ble(r.at(x, y), q.at(x, y)));
}
pub proof fn lem_ex_done(m: Mat, r: Mat, a: spec_fn(int) -> real, i: int, j: int)
  requires wf(m), wf(r), ex_done(m, a, i, j), le_mat(r, m), 0 <= i <= j < m.rows - 1, ex_le(r, a, i + 1, hix(j, r.rows))
  ensures ex_done(r, a, i, j + 1)
{
  assert forall|b: int, c: int| 0 <= b <= c < r.rows - 1 && (b < i || (b == i && c < j + 1)) implies #[trigger] ex_le(r, a, b + 1, hix(c, r.rows)) by {
    let (x, y) = (b + 1, hix(c, r.rows));
    if !(b == i && c == j) { assert(ex_le(m, a, x, y)); assert(ble(r.at(x, y), m.at(x, y))); assert(ble(r.at(y, x), m.at(y, x))); assert(okb(m.at(x, y)) && okb(m.at(y, x)) && okb(r.at(x, y)) && okb(r.at(y, x))); }
  }
}
pub proof fn lem_ex_final(m: Mat, a: spec_fn(int) -> real)
  requires canonical(m), sat(m, a), ex_done(m, a, m.rows - 1, 0)
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_diff(v, a, m.rows)
{
  assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.rows && x != y implies #[trigger] m.at(x, y) == bnd(a(x) - a(y), true) by {
    let (p, q) = if x == 0 { (y, x) } else if y == 0 { (x, y) } else if x < y { (x, y) } else { (y, x) };
    let c = if q == 0 { m.rows - 2 } else { q - 2 };
    assert(hix(c, m.rows) == q); assert(ex_le(m, a, (p - 1) + 1, hix(c, m.rows)));
    assert(bsat(m.at(x, y), a(x) - a(y))); assert(okb(m.at(x, y)));
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_diff(v, a, m.rows) by {
    if sat(m, v) { assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.rows && #[trigger] tij(x, y) implies v(x) - v(y) == a(x) - a(y) by { if x != y { assert(bsat(m.at(x, y), v(x) - v(y))); assert(bsat(m.at(y, x), v(y) - v(x))); } } }
    if same_diff(v, a, m.rows) { assert forall|x: int, y: int| 0 <= x < m.rows && 0 <= y < m.cols implies bsat(#[trigger] m.at(x, y), v(x) - v(y)) by { assert(tij(x, y)); if x == y { assert(ble(bz(), m.at(x, x))); } } }
  }
}
pub proof fn lem_top_sat(m: Mat, a: spec_fn(int) -> real)
  requires topm(m, m.rows), 1 <= m.rows <= 256, m.cols == m.rows
  ensures sat(m, a), canonical(m), intm(m)
{ }
