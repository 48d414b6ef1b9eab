// ---- adding and removing variables: entry (i, j) of r is the one of the sources f(i), f(j) in m
pub open spec fn rxb(m: Mat, a: int, b: int) -> Bounds { if a == b { bz() } else { m.at(a, b) } }
pub open spec fn rx_in(f: spec_fn(int) -> int, n: int, k: int) -> bool { forall|i: int| 0 <= i < n ==> 0 <= #[trigger] f(i) < k }
pub open spec fn rx(m: Mat, r: Mat, f: spec_fn(int) -> int) -> bool { r.cols == r.rows && forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.rows && i != j ==> #[trigger] r.at(i, j) == rxb(m, f(i), f(j)) }
pub open spec fn rx_diag(r: Mat) -> bool { forall|i: int| 0 <= i < r.rows ==> okb(#[trigger] r.at(i, i)) && intb(r.at(i, i)) && ble(bz(), r.at(i, i)) }
pub open spec fn rx_val(w: spec_fn(int) -> real, f: spec_fn(int) -> int) -> spec_fn(int) -> real { |k: int| w(f(k)) }
pub proof fn lem_rx3(m: Mat, a: int, b: int, c: int)
  requires canonical(m), 0 <= a < m.rows, 0 <= b < m.rows, 0 <= c < m.rows
  ensures ble(rxb(m, a, b), badd(rxb(m, a, c), rxb(m, c, b))), okb(rxb(m, a, b))
{
  assert(ble(dz(m, a, b), badd(m.at(a, c), m.at(c, b))));
  assert(okb(m.at(a, b)) && okb(m.at(a, c)) && okb(m.at(c, b)));
  if a == c { assert(badd(bz(), rxb(m, c, b)) == rxb(m, c, b)); } else if c == b { assert(badd(rxb(m, a, c), bz()) == rxb(m, a, c)); }
}
pub proof fn lem_rx(m: Mat, r: Mat, f: spec_fn(int) -> int)
  requires canonical(m), rx(m, r, f), rx_in(f, r.rows, m.rows), rx_diag(r), 1 <= r.rows <= 256
  ensures canonical(r), intm(m) ==> intm(r), simple(m) ==> simple(r)
{
  assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols implies okb(#[trigger] r.at(i, j)) && (intm(m) ==> intb(r.at(i, j))) by {
    if i == j { assert(okb(r.at(i, i))); } else { let (a, b) = (f(i), f(j)); lem_rx3(m, a, b, a); assert(okb(m.at(a, b))); if intm(m) { assert(intb(m.at(a, b))); assert(0real == 0real.floor() as real); } }
  }
  assert forall|i: int| 0 <= i < r.rows implies ble(bz(), #[trigger] r.at(i, i)) by { assert(okb(r.at(i, i))); }
  assert forall|i: int, j: int, h: int| #![trigger r.at(i, j), r.at(i, h), r.at(h, j)] #![trigger dz(r, i, j), r.at(i, h), r.at(h, j)] 0 <= i < r.rows && 0 <= j < r.cols && 0 <= h < r.rows implies ble(dz(r, i, j), badd(r.at(i, h), r.at(h, j))) by {
    let (a, b, c) = (f(i), f(j), f(h));
    lem_rx3(m, a, b, c); lem_rx3(m, a, b, a);
    assert(okb(r.at(i, j)) && okb(r.at(i, h)) && okb(r.at(h, j)));
    if i != h && h != j { }
    else if i == h && h == j { assert(ble(bz(), r.at(i, i))); }
    else if i == h { assert(ble(bz(), r.at(i, i))); lem_ble_add(r.at(i, i), r.at(i, j)); }
    else { assert(ble(bz(), r.at(j, j))); lem_ble_add(r.at(j, j), r.at(i, j)); assert(badd(r.at(j, j), r.at(i, j)) == badd(r.at(i, j), r.at(j, j))); }
  }
  if simple(m) {
    assert forall|i: int, j: int| 0 <= i < j < r.rows && #[trigger] tij(i, j) implies ptb(r.at(i, j), r.at(j, i)) || unitb(r.at(i, j), r.at(j, i)) by {
      let (a, b) = (f(i), f(j)); assert(r.at(i, j) == rxb(m, f(i), f(j)) && r.at(j, i) == rxb(m, f(j), f(i)));
      if a < b { assert(tij(a, b)); } else if b < a { assert(tij(b, a)); }
    }
  }
}
pub proof fn lem_ble_add(d: Bounds, x: Bounds)
  requires okb(d), okb(x), ble(bz(), d)
  ensures ble(x, badd(d, x))
{}
/// a valuation of m gives one of r
pub proof fn lem_rx_to(m: Mat, r: Mat, f: spec_fn(int) -> int, w: spec_fn(int) -> real)
  requires rx(m, r, f), rx_in(f, r.rows, m.rows), rx_diag(r), sat(m, w), m.cols == m.rows
  ensures sat(r, rx_val(w, f))
{
  let v = rx_val(w, f);
  assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols implies bsat(#[trigger] r.at(i, j), v(i) - v(j)) by {
    let (a, b) = (f(i), f(j)); assert(bsat(m.at(a, b), w(a) - w(b))); if i == j { assert(ble(bz(), r.at(i, i))); }
  }
}
/// and conversely if every variable of m is the source of one of r
pub proof fn lem_rx_from(m: Mat, r: Mat, f: spec_fn(int) -> int, g: spec_fn(int) -> int, v: spec_fn(int) -> real)
  requires rx(m, r, f), rx_in(f, r.rows, m.rows), rx_in(g, m.rows, r.rows), forall|k: int| 0 <= k < m.rows ==> f(#[trigger] g(k)) == k, sat(r, v), diag_ok(m), m.cols == m.rows
  ensures sat(m, rx_val(v, g)), forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.rows && #[trigger] f(i) == #[trigger] f(j) ==> v(i) == v(j)
{
  let w = rx_val(v, g);
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by {
    let (a, b) = (g(i), g(j)); if i == j { assert(ble(bz(), m.at(i, i))); } else { assert(a != b); assert(bsat(r.at(a, b), v(a) - v(b))); }
  }
  assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.rows && #[trigger] f(i) == #[trigger] f(j) implies v(i) == v(j) by {
    if i != j { assert(bsat(r.at(i, j), v(i) - v(j))); assert(bsat(r.at(j, i), v(j) - v(i))); }
  }
}
// the four changes of the variable space
pub open spec fn src_n(n: int) -> spec_fn(int) -> int { |i: int| if i == n { 0 } else { i } }
pub open spec fn src_z() -> spec_fn(int) -> int { |i: int| if i <= 1 { i } else { i - 1 } }
pub open spec fn sec_z() -> spec_fn(int) -> int { |i: int| if i == 0 { 0 } else { i + 1 } }
pub open spec fn src_i() -> spec_fn(int) -> int { |i: int| i }
/// b has one more variable, the last, equal to x_0
pub open spec fn ext_n(a: Mat, b: Mat) -> bool { b.rows == a.rows + 1 && rx(a, b, src_n(a.rows)) && rx_diag(b) }
/// b has one more variable, the first, equal to the former first
pub open spec fn ext_z(a: Mat, b: Mat) -> bool { b.rows == a.rows + 1 && rx(a, b, src_z()) && rx_diag(b) }
pub open spec fn shifted(v: spec_fn(int) -> real) -> spec_fn(int) -> real { |k: int| if k == 0 { v(0) } else { v(k + 1) } }
pub proof fn lem_ext_n(a: Mat, b: Mat)
  requires canonical(a), ext_n(a, b), 1 <= a.rows < 256
  ensures canonical(b), intm(a) ==> intm(b), simple(a) ==> simple(b), forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && v(a.rows) == v(0))
{
  let f = src_n(a.rows);
  assert(rx_in(f, b.rows, a.rows)); lem_rx(a, b, f);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && v(a.rows) == v(0)) by {
    if sat(b, v) { lem_rx_from(a, b, f, src_i(), v); assert(rx_val(v, src_i()) =~= v); assert(f(a.rows) == f(0)); }
    if sat(a, v) && v(a.rows) == v(0) { lem_rx_to(a, b, f, v); assert(rx_val(v, f) =~= v); }
  }
}
pub proof fn lem_ext_z(a: Mat, b: Mat)
  requires canonical(a), ext_z(a, b), 2 <= a.rows < 256
  ensures canonical(b), intm(a) ==> intm(b), simple(a) ==> simple(b), forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, shifted(v)) && v(1) == v(2))
{
  let f = src_z();
  assert(rx_in(f, b.rows, a.rows)); lem_rx(a, b, f);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, shifted(v)) && v(1) == v(2)) by {
    if sat(b, v) { lem_rx_from(a, b, f, sec_z(), v); assert(rx_val(v, sec_z()) =~= shifted(v)); assert(f(1) == f(2)); }
    if sat(a, shifted(v)) && v(1) == v(2) { lem_rx_to(a, b, f, shifted(v)); let u = rx_val(shifted(v), f); assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { assert(u(i) == v(i) && u(j) == v(j)); assert(bsat(b.at(i, j), u(i) - u(j))); } }
  }
}
/// removing the last variable, which equals x_0, is undone by ext_n
pub proof fn lem_rem_n(a: Mat, b: Mat)
  requires canonical(b), b.rows == a.rows + 1, a.rows >= 1, rx(b, a, src_i()), rx_diag(a), rx_diag(b), b.at(0, a.rows) == bz(), b.at(a.rows, 0) == bz()
  ensures ext_n(a, b), canonical(a), intm(b) ==> intm(a), simple(b) ==> simple(a)
{
  let n = a.rows; let f = src_n(n);
  assert(rx_in(src_i(), a.rows, b.rows)); lem_rx(b, a, src_i());
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.rows && i != j implies #[trigger] b.at(i, j) == rxb(a, f(i), f(j)) by {
    if i < n && j < n { assert(a.at(i, j) == rxb(b, src_i()(i), src_i()(j))); }
    else { let k = if i == n { j } else { i }; lem_rem_eq(b, n, 0, k); if k != 0 { assert(a.at(0, k) == rxb(b, src_i()(0), src_i()(k))); assert(a.at(k, 0) == rxb(b, src_i()(k), src_i()(0))); } }
  }
}
pub proof fn lem_rem_eq(b: Mat, x: int, y: int, k: int)
  requires canonical(b), 0 <= x < b.rows, 0 <= y < b.rows, x != y, b.at(x, y) == bz(), b.at(y, x) == bz(), 0 <= k < b.rows, k != x
  ensures k != y ==> b.at(x, k) == b.at(y, k) && b.at(k, x) == b.at(k, y)
{
  if k != y {
    assert(ble(dz(b, x, k), badd(b.at(x, y), b.at(y, k)))); assert(ble(dz(b, y, k), badd(b.at(y, x), b.at(x, k))));
    assert(ble(dz(b, k, x), badd(b.at(k, y), b.at(y, x)))); assert(ble(dz(b, k, y), badd(b.at(k, x), b.at(x, y))));
    assert(okb(b.at(x, k)) && okb(b.at(y, k)) && okb(b.at(k, x)) && okb(b.at(k, y)));
  }
}
/// removing the first variable, which equals the second, is undone by ext_z
pub proof fn lem_rem_z(a: Mat, b: Mat)
  requires canonical(b), b.rows == a.rows + 1, a.rows >= 2, rx(b, a, sec_z()), rx_diag(a), rx_diag(b), b.at(1, 2) == bz(), b.at(2, 1) == bz()
  ensures ext_z(a, b), canonical(a), intm(b) ==> intm(a), simple(b) ==> simple(a)
{
  let f = src_z(); let g = sec_z();
  assert(rx_in(g, a.rows, b.rows)); lem_rx(b, a, g);
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.rows && i != j implies #[trigger] b.at(i, j) == rxb(a, f(i), f(j)) by {
    let (x, y) = (f(i), f(j));
    if x != y { assert(a.at(x, y) == rxb(b, g(x), g(y))); }
    if i == 1 { lem_rem_eq(b, 1, 2, j); } else if j == 1 { lem_rem_eq(b, 1, 2, i); }
  }
}
// ---- the orders
pub proof fn lem_ext_order(o: Seq<Seq<int>>, n: int, f: spec_fn(int) -> real, h: spec_fn(int) -> real)
  requires fo_part(o, n), n >= 0, fo_order(o, f), h(n) == 0real, forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i)
  ensures fo_order(fo_ext(o, n), h)
{
  let r = fo_ext(o, n);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == 0 && p == o[0].len() { r[g][p] == n } else { gi(o, g, p) && r[g][p] == o[g][p] && h(r[g][p]) == f(o[g][p]) }) by { if !(g == 0 && p == o[0].len()) { assert(gi(o, g, p)); } }
}
pub proof fn lem_ext0_order(o: Seq<Seq<int>>, n: int, f: spec_fn(int) -> real, h: spec_fn(int) -> real)
  requires fo_part(o, n), n >= 0, fo_order(o, f), h(0) == 0real, forall|i: int| 1 <= i < n + 1 ==> #[trigger] h(i) == f(i - 1)
  ensures fo_order(fo_ext0(o), h)
{
  let s = fo_ext0(o);
  assert forall|g: int, p: int| #[trigger] gi(s, g, p) implies (if g == 0 { if p == 0 { s[g][p] == 0 } else { gi(o, g, p - 1) && s[g][p] == o[g][p - 1] + 1 && h(s[g][p]) == f(o[g][p - 1]) } } else { gi(o, g, p) && s[g][p] == o[g][p] + 1 && h(s[g][p]) == f(o[g][p]) }) by {
    if g == 0 { if p > 0 { assert(gi(o, g, p - 1)); } } else { assert(gi(o, g, p)); }
  }
}
pub proof fn lem_rem_order(o: Seq<Seq<int>>, n: int, f: spec_fn(int) -> real, h: spec_fn(int) -> real)
  requires fo_part(o, n), n >= 1, fo_order(o, f), o[0].len() > 0, o[0].last() == n - 1, forall|i: int| 0 <= i < n - 1 ==> #[trigger] h(i) == f(i)
  ensures fo_order(fo_rem(o), h)
{
  let r = fo_rem(o); lem_ext(o, n);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies gi(o, g, p) && r[g][p] == o[g][p] && h(r[g][p]) == f(o[g][p]) by { assert(gi(o, g, p)); }
}
pub proof fn lem_rem0_order(o: Seq<Seq<int>>, n: int, f: spec_fn(int) -> real, h: spec_fn(int) -> real)
  requires fo_part(o, n), n >= 1, fo_order(o, f), o[0].len() > 0, o[0][0] == 0, forall|i: int| 0 <= i < n - 1 ==> #[trigger] h(i) == f(i + 1)
  ensures fo_order(fo_rem0(o), h)
{
  let r = fo_rem0(o); lem_rem0(o, n);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == 0 { gi(o, g, p + 1) && r[g][p] == o[g][p + 1] - 1 && h(r[g][p]) == f(o[g][p + 1]) } else { gi(o, g, p) && r[g][p] == o[g][p] - 1 && h(r[g][p]) == f(o[g][p]) }) by { if g == 0 { assert(gi(o, g, p + 1)); } else { assert(gi(o, g, p)); } }
}
