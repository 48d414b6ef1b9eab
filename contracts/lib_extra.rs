// extrapolation and sampling of zones
/// the lower bound of row i lies beyond its maximal constant
pub open spec fn beyond(p: Mat, mx: Seq<D>, i: int) -> bool { dlt(mx[i - 1], dneg(p.at(0, i).first)) }
pub open spec fn extra(p: Mat, mx: Seq<D>, i: int, j: int) -> Bounds {
  if i == 0 && j == 0 { p.at(0, 0) }
  else if j == 0 { if dlt(mx[i - 1], p.at(i, 0).first) { binf() } else { p.at(i, 0) } }
  else if i == 0 { if beyond(p, mx, j) { Pair { first: dneg(mx[j - 1]), second: false } } else { p.at(0, j) } }
  else if dlt(mx[i - 1], p.at(i, j).first) || beyond(p, mx, i) || beyond(p, mx, j) { binf() } else { p.at(i, j) }
}
pub open spec fn mx_ok(mx: Seq<D>, n: int) -> bool { mx.len() == n - 1 && forall|i: int| 0 <= i < mx.len() ==> rk(#[trigger] mx[i]) == 0 && dv(mx[i]) >= 0real }
/// rows handled so far by the double loop: row i completely for rows < k, its entries up to column j for row k
pub open spec fn extra_upto(p: Mat, q: Mat, mx: Seq<D>, k: int, j: int, mid: bool) -> bool {
  q.rows == p.rows && q.cols == p.cols && forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.rows ==> #[trigger] q.at(a, b) == (
    if a == 0 { if b == 0 { p.at(0, 0) } else if b < k || (b == k && mid) { extra(p, mx, 0, b) } else { p.at(0, b) } }
    else if b == 0 { if a < k || (a == k && mid) { extra(p, mx, a, 0) } else { p.at(a, 0) } }
    else if a < k || (a == k && mid && b <= j) { extra(p, mx, a, b) } else { p.at(a, b) })
}
/// small bounds are kept, and the result takes its bounds from a finite set that depends on the maximal constants only
pub open spec fn extra_small(p: Mat, mx: Seq<D>, i: int, j: int) -> bool { (i == 0 || (dle(p.at(i, j).first, mx[i - 1]) && (j == 0 || !beyond(p, mx, i)))) && (j == 0 || !beyond(p, mx, j)) }
pub open spec fn extra_range(b: Bounds, hi: real, lo: real) -> bool { b == binf() || (rk(b.first) == 0 && lo <= dv(b.first) <= hi) }
pub open spec fn mxv(mx: Seq<D>, i: int) -> real { if i == 0 { 0real } else { dv(mx[i - 1]) } }
pub proof fn lem_extra(p: Mat, q: Mat, mx: Seq<D>)
  requires wf(p), mx_ok(mx, p.rows), extra_upto(p, q, mx, p.rows, 0, false),
  ensures wf(q), le_mat(p, q), subset(p, q),
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && extra_small(p, mx, i, j) ==> #[trigger] q.at(i, j) == p.at(i, j),
    canonical(p) && (forall|i: int| 0 <= i < p.rows ==> ble(#[trigger] p.at(0, i), bz())) ==>
      forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j ==> extra_range(#[trigger] q.at(i, j), mxv(mx, i), -mxv(mx, j)),
{
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows implies okb(#[trigger] q.at(i, j)) && ble(p.at(i, j), q.at(i, j)) by { assert(okb(p.at(i, j))); if i > 0 { assert(rk(mx[i - 1]) == 0); } if j > 0 { assert(rk(mx[j - 1]) == 0); } }
  lem_le_subset(p, q);
  if canonical(p) && (forall|i: int| 0 <= i < p.rows ==> ble(#[trigger] p.at(0, i), bz())) {
    assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j implies extra_range(#[trigger] q.at(i, j), mxv(mx, i), -mxv(mx, j)) by {
      assert(okb(p.at(i, j)) && okb(p.at(0, i)) && okb(p.at(0, j)) && okb(p.at(i, 0)) && okb(p.at(j, 0)) && okb(p.at(j, i)));
      assert(ble(p.at(0, i), bz()) && ble(p.at(0, j), bz()));
      lem_diag_off(p);
      assert(ble(dz(p, 0, j), badd(p.at(0, i), p.at(i, j))));
      assert(ble(dz(p, 0, 0), badd(p.at(0, i), p.at(i, 0))));
      assert(ble(bz(), p.at(0, 0)));
      if i > 0 { assert(rk(mx[i - 1]) == 0 && dv(mx[i - 1]) >= 0real); }
      if j > 0 { assert(rk(mx[j - 1]) == 0 && dv(mx[j - 1]) >= 0real); assert(ble(dz(p, 0, 0), badd(p.at(0, j), p.at(j, 0)))); }
    }
  }
}
pub open spec fn abstr(b: Bounds, mm: D) -> Bounds {
  if blt(Pair { first: mm, second: true }, b) { binf() } else if blt(b, Pair { first: dneg(mm), second: false }) { Pair { first: dneg(mm), second: false } } else { b }
}
/// sampling: c is a possible value of row x with respect to row 0 and the rows 1..j (values v)
pub open spec fn feas(m: Mat, v: Seq<D>, x: int, j: int, c: real) -> bool { feas_lo(m, v, x, j, c) && feas_hi(m, v, x, j, c) }
pub open spec fn feas_lo(m: Mat, v: Seq<D>, x: int, j: int, c: real) -> bool { c >= 0real && bsat(m.at(0, x), -c) && forall|k: int| 0 <= k < j ==> #[trigger] tix(k) ==> bsat(m.at(k + 1, x), dv(v[k]) - c) }
pub open spec fn feas_hi(m: Mat, v: Seq<D>, x: int, j: int, c: real) -> bool { bsat(m.at(x, 0), c) && forall|k: int| 0 <= k < j ==> #[trigger] tix(k) ==> bsat(m.at(x, k + 1), c - dv(v[k])) }
pub open spec fn lo_ok(lower: D, cl: bool, c: real) -> bool { dv(lower) < c || (cl && dv(lower) == c) }
pub open spec fn valof(v: Seq<D>) -> spec_fn(int) -> real { |i: int| if i == 0 { 0real } else { dv(v[i - 1]) } }
pub open spec fn isfin(a: D) -> bool { rk(a) == 0 }
pub proof fn lem_feas_lo(m: Mat, v: Seq<D>, x: int, j: int, lower: D, cl: bool, lower2: D, cl2: bool)
  requires wf(m), 0 <= j, isfin(lower), isfin(v[j]), forall|c: real| #[trigger] feas_lo(m, v, x, j, c) == lo_ok(lower, cl, c), 0 <= x < m.rows, j + 1 < m.rows,
    ({ let t = dadd(dneg(m.at(j + 1, x).first), v[j]);
       lower2 == dmax(lower, t) && cl2 == (if dlt(lower, t) { m.at(j + 1, x).second } else if t == lower { cl && m.at(j + 1, x).second } else { cl }) }),
    nb(m.at(j + 1, x)),
  ensures isfin(lower2), forall|c: real| #[trigger] feas_lo(m, v, x, j + 1, c) == lo_ok(lower2, cl2, c),
{
  assert(okb(m.at(j + 1, x)));
  assert forall|c: real| #[trigger] feas_lo(m, v, x, j + 1, c) == lo_ok(lower2, cl2, c) by {
    assert(feas_lo(m, v, x, j, c) == lo_ok(lower, cl, c));
    assert(feas_lo(m, v, x, j + 1, c) == (feas_lo(m, v, x, j, c) && bsat(m.at(j + 1, x), dv(v[j]) - c))) by {
      if feas_lo(m, v, x, j, c) && bsat(m.at(j + 1, x), dv(v[j]) - c) { assert forall|k: int| 0 <= k < j + 1 && #[trigger] tix(k) implies bsat(m.at(k + 1, x), dv(v[k]) - c) by { } }
      if feas_lo(m, v, x, j + 1, c) { assert(tix(j)); }
    }
  }
}
/// upper only knows the value of the least upper bound: everything strictly below is possible, nothing above
pub open spec fn hi_inv(m: Mat, v: Seq<D>, x: int, j: int, upper: D) -> bool {
  (upper == D::Max || isfin(upper)) && forall|c: real| #![trigger feas_hi(m, v, x, j, c)] (dlt(fin(c), upper) ==> feas_hi(m, v, x, j, c)) && (feas_hi(m, v, x, j, c) ==> dle(fin(c), upper))
}
pub proof fn lem_feas_hi(m: Mat, v: Seq<D>, x: int, j: int, upper: D, upper2: D)
  requires wf(m), 0 <= j, isfin(v[j]), hi_inv(m, v, x, j, upper), 0 <= x < m.rows, j + 1 < m.rows, nb(m.at(x, j + 1)),
    upper2 == dmin(upper, dadd(m.at(x, j + 1).first, v[j])),
  ensures hi_inv(m, v, x, j + 1, upper2),
{
  assert(okb(m.at(x, j + 1)));
  assert forall|c: real| #![trigger feas_hi(m, v, x, j + 1, c)] (dlt(fin(c), upper2) ==> feas_hi(m, v, x, j + 1, c)) && (feas_hi(m, v, x, j + 1, c) ==> dle(fin(c), upper2)) by {
    assert(feas_hi(m, v, x, j + 1, c) == (feas_hi(m, v, x, j, c) && bsat(m.at(x, j + 1), c - dv(v[j])))) by {
      if feas_hi(m, v, x, j, c) && bsat(m.at(x, j + 1), c - dv(v[j])) { assert forall|k: int| 0 <= k < j + 1 && #[trigger] tix(k) implies bsat(m.at(x, k + 1), c - dv(v[k])) by { } }
      if feas_hi(m, v, x, j + 1, c) { assert(tix(j)); }
    }
    assert((dlt(fin(c), upper) ==> feas_hi(m, v, x, j, c)) && (feas_hi(m, v, x, j, c) ==> dle(fin(c), upper)));
  }
}
/// there is a possible value
pub proof fn lem_feas_ex(m: Mat, v: Seq<D>, i: int) -> (c: real)
  requires canonical(m), 0 <= i, i + 1 < m.rows, satk(m, valof(v), i + 1), ble(m.at(0, i + 1), bz()),
  ensures feas(m, v, i + 1, i, c),
{
  let s = |k: int| 0 <= k <= i;
  let w = valof(v);
  assert forall|a: int, b: int| 0 <= a < m.rows && 0 <= b < m.rows && s(a) && s(b) implies bsat(#[trigger] m.at(a, b), w(a) - w(b)) by { }
  let c0 = lem_extend(m, w, s, i + 1);
  assert(s(0));
  assert(bsat(m.at(0, i + 1), w(0) - c0) && bsat(m.at(i + 1, 0), c0 - w(0)));
  assert(c0 >= 0real) by { assert(okb(m.at(0, i + 1))); }
  assert forall|k: int| 0 <= k < i && #[trigger] tix(k) implies bsat(m.at(k + 1, i + 1), dv(v[k]) - c0) by { assert(s(k + 1)); assert(bsat(m.at(k + 1, i + 1), w(k + 1) - c0)); }
  assert forall|k: int| 0 <= k < i && #[trigger] tix(k) implies bsat(m.at(i + 1, k + 1), c0 - dv(v[k])) by { assert(s(k + 1)); assert(bsat(m.at(i + 1, k + 1), c0 - w(k + 1))); }
  c0
}
pub proof fn lem_sample_step(m: Mat, v: Seq<D>, v2: Seq<D>, i: int)
  requires canonical(m), 0 <= i, i + 1 < m.rows, satk(m, valof(v), i + 1), v2.len() == v.len(), i < v.len(), forall|k: int| 0 <= k < i ==> #[trigger] v2[k] == v[k],
    feas(m, v, i + 1, i, dv(v2[i])),
  ensures satk(m, valof(v2), i + 2),
{
  let w = valof(v); let w2 = valof(v2);
  assert(ble(bz(), m.at(i + 1, i + 1)));
  assert forall|a: int, b: int| 0 <= a < i + 2 && 0 <= b < i + 2 implies bsat(#[trigger] m.at(a, b), w2(a) - w2(b)) by {
    if a <= i && b <= i { assert(bsat(m.at(a, b), w(a) - w(b))); if a > 0 { assert(v2[a - 1] == v[a - 1]); } if b > 0 { assert(v2[b - 1] == v[b - 1]); } }
    else if a == i + 1 && b == i + 1 { }
    else if a == i + 1 { if b > 0 { assert(tix(b - 1)); assert(v2[b - 1] == v[b - 1]); } }
    else { if a > 0 { assert(tix(a - 1)); assert(v2[a - 1] == v[a - 1]); } }
  }
}
pub proof fn lem_nb(m: Mat)
  requires canonical(m),
  ensures forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows ==> nb(#[trigger] m.at(i, j)),
{
  lem_diag_off(m);
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows implies nb(#[trigger] m.at(i, j)) by {
    assert(okb(m.at(i, j)));
    if m.at(i, j).first is NInf { assert(okb(m.at(j, i))); assert(ble(dz(m, i, i), badd(m.at(i, j), m.at(j, i)))); assert(ble(bz(), m.at(i, i))); }
  }
}
/// column-major position of an entry
pub open spec fn cpos(rows: int, a: int, b: int) -> int { b * rows + a }
pub proof fn lem_pos_range(rows: int, it: int)
  requires 1 <= rows, 0 <= it,
  ensures it < rows * rows ==> 0 <= itmod(it, rows) < rows && 0 <= itdiv(it, rows) < rows && cpos(rows, itmod(it, rows), itdiv(it, rows)) == it,
{
  assert(it < rows * rows ==> 0 <= it % rows < rows && 0 <= it / rows < rows && (it / rows) * rows + it % rows == it && itmod(it, rows) == it % rows) by (nonlinear_arith) requires 1 <= rows, 0 <= it, itmod(it, rows) == it - rows * (it / rows);
}
pub proof fn lem_pos_inj(rows: int, a: int, b: int, c: int, d: int)
  requires 0 <= a < rows, 0 <= c < rows, cpos(rows, a, b) == cpos(rows, c, d),
  ensures a == c, b == d,
{ assert(b == d) by (nonlinear_arith) requires 0 <= a < rows, 0 <= c < rows, b * rows + a == d * rows + c; }
pub open spec fn abstr_upto(p: Mat, q: Mat, mm: D, it: int) -> bool { forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.rows ==> #[trigger] q.at(a, b) == (if cpos(p.rows, a, b) < it { abstr(p.at(a, b), mm) } else { p.at(a, b) }) }
pub proof fn lem_abstr_step(p: Mat, m: Mat, q: Mat, mm: D, it: int)
  requires wf(p), m.rows == p.rows, m.cols == p.cols, 0 <= it < p.rows * p.rows, abstr_upto(p, m, mm, it),
    forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.rows ==> #[trigger] q.at(a, b) == (if a == itmod(it, p.rows) && b == itdiv(it, p.rows) { abstr(m.at(a, b), mm) } else { m.at(a, b) }),
  ensures abstr_upto(p, q, mm, it + 1),
{
  lem_pos_range(p.rows, it);
  assert forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.rows implies #[trigger] q.at(a, b) == (if cpos(p.rows, a, b) < it + 1 { abstr(p.at(a, b), mm) } else { p.at(a, b) }) by {
    if cpos(p.rows, a, b) == it { lem_pos_inj(p.rows, a, b, itmod(it, p.rows), itdiv(it, p.rows)); }
  }
}
pub proof fn lem_abstr(p: Mat, q: Mat, mm: D)
  requires wf(p), q.rows == p.rows, q.cols == p.cols, abstr_upto(p, q, mm, p.rows * p.rows), isfin(mm), dv(mm) >= 0real,
  ensures wf(q), le_mat(p, q), subset(p, q), forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows ==> #[trigger] q.at(i, j) == abstr(p.at(i, j), mm),
{
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows implies #[trigger] q.at(i, j) == abstr(p.at(i, j), mm) && okb(q.at(i, j)) && ble(p.at(i, j), q.at(i, j)) by {
    assert(cpos(p.rows, i, j) < p.rows * p.rows) by (nonlinear_arith) requires 0 <= i < p.rows, 0 <= j < p.rows, cpos(p.rows, i, j) == j * p.rows + i;
    assert(okb(p.at(i, j)));
  }
  lem_le_subset(p, q);
}
