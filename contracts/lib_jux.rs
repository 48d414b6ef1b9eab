// juxtaposed zones
/// the right part of a juxtaposed valuation when the left zone has rows n + 1
pub open spec fn rightv(v: spec_fn(int) -> real, n: int) -> spec_fn(int) -> real { |i: int| if i == 0 { v(0) } else { v(i + n) } }
/// the right part when the last l variables of both zones are identified (left has lm variables, right has rn)
pub open spec fn rightc(v: spec_fn(int) -> real, lm: int, rn: int, l: int) -> spec_fn(int) -> real { |i: int| if i == 0 { v(0) } else if i <= rn - l { v(i + lm) } else { v(i + lm - rn) } }
pub open spec fn juxt_sat(l: Mat, r: Mat, v: spec_fn(int) -> real) -> bool { sat(l, v) && sat(r, rightv(v, l.rows - 1)) }
pub open spec fn juxtc_sat(l: Mat, r: Mat, c: int, v: spec_fn(int) -> real) -> bool { sat(l, v) && sat(r, rightc(v, l.rows - 1, r.rows - 1, c)) }
pub open spec fn okin(l: Mat, r: Mat) -> bool { wf(l) && wf(r) && l.rows + r.rows <= 256 && ble(bz(), r.at(0, 0)) }
pub open spec fn okinc(l: Mat, r: Mat, c: int) -> bool { okin(l, r) && 0 <= c < l.rows && c < r.rows }
pub open spec fn is_juxt(l: Mat, r: Mat, m: Mat) -> bool {
    wf(m) && m.rows == l.rows + r.rows - 1 && (diag_ok(m) ==> closed(m)) && forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxt_sat(l, r, v)
}
pub open spec fn is_juxtc(l: Mat, r: Mat, c: int, m: Mat) -> bool {
    wf(m) && m.rows == l.rows + r.rows - 1 - c && (diag_ok(m) ==> closed(m)) && forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxtc_sat(l, r, c, v)
}
pub proof fn lem_sat_eq(a: Mat, b: Mat, v: spec_fn(int) -> real)
  requires eq_mat(a, b) ensures sat(a, v) == sat(b, v)
{
  if sat(a, v) { assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { assert(bsat(a.at(i, j), v(i) - v(j))); } }
  if sat(b, v) { assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies bsat(#[trigger] a.at(i, j), v(i) - v(j)) by { assert(bsat(b.at(i, j), v(i) - v(j))); } }
}
pub proof fn lem_juxt_key(l: Mat, r: Mat, l2: Mat, r2: Mat, m: Mat)
  requires eq_mat(l, l2), eq_mat(r, r2), is_juxt(l, r, m)
  ensures is_juxt(l2, r2, m)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxt_sat(l2, r2, v) by { lem_sat_eq(l, l2, v); lem_sat_eq(r, r2, rightv(v, l.rows - 1)); }
}
pub proof fn lem_juxtc_key(l: Mat, r: Mat, l2: Mat, r2: Mat, c: int, m: Mat)
  requires eq_mat(l, l2), eq_mat(r, r2), is_juxtc(l, r, c, m)
  ensures is_juxtc(l2, r2, c, m)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxtc_sat(l2, r2, c, v) by { lem_sat_eq(l, l2, v); lem_sat_eq(r, r2, rightc(v, l.rows - 1, r.rows - 1, c)); }
}
/// entries of the juxtaposition without common variables
pub open spec fn jcell(l: Mat, r: Mat, i: int, j: int) -> Bounds {
    let n = l.rows - 1;
    if i <= n && j <= n { l.at(i, j) } else if i > n && j > n { r.at(i - n, j - n) } else if i == 0 { r.at(0, j - n) } else if j == 0 { r.at(i - n, 0) } else { binf() }
}
pub proof fn lem_juxt(l: Mat, r: Mat, m: Mat)
  requires okin(l, r), m.rows == l.rows + r.rows - 1, m.cols == m.rows, forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows ==> #[trigger] m.at(i, j) == jcell(l, r, i, j)
  ensures wf(m), forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxt_sat(l, r, v)
{
  let n = l.rows - 1;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == juxt_sat(l, r, v) by {
    let w = rightv(v, n);
    if sat(m, v) {
      assert forall|i: int, j: int| 0 <= i < l.rows && 0 <= j < l.cols implies bsat(#[trigger] l.at(i, j), v(i) - v(j)) by { assert(bsat(m.at(i, j), v(i) - v(j))); }
      assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols implies bsat(#[trigger] r.at(i, j), w(i) - w(j)) by {
        let a = if i == 0 { 0int } else { i + n }; let b = if j == 0 { 0int } else { j + n };
        assert(bsat(m.at(a, b), v(a) - v(b)));
        if i == 0 && j == 0 { assert(ble(bz(), r.at(0, 0))); }
      }
    }
    if juxt_sat(l, r, v) {
      assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), v(i) - v(j)) by {
        if i <= n && j <= n { assert(bsat(l.at(i, j), v(i) - v(j))); }
        else if i > n && j > n { assert(bsat(r.at(i - n, j - n), w(i - n) - w(j - n))); }
        else if i == 0 { assert(bsat(r.at(0, j - n), w(0) - w(j - n))); }
        else if j == 0 { assert(bsat(r.at(i - n, 0), w(i - n) - w(0))); }
      }
    }
  }
}
/// the pre-image of the first step with common variables: left, with the common part of right conjoined
pub open spec fn ccell(l: Mat, r: Mat, c: int, i: int, j: int) -> Bounds {
    let m = l.rows - 1; let n = r.rows - 1; let b = m - c + 1; let d = n - m;
    let base = if i <= m && j <= m { l.at(i, j) } else { binf() };
    if c > 0 && i <= m && j <= m && ((i >= b && (j >= b || j == 0)) || (i == 0 && j >= b)) { bmin(base, r.at(if i == 0 { 0 } else { i + d }, if j == 0 { 0 } else { j + d })) } else { base }
}
pub open spec fn is_ccells(l: Mat, r: Mat, c: int, q: Mat) -> bool {
    q.rows == l.rows + r.rows - 1 - c && q.cols == q.rows && forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.rows ==> #[trigger] q.at(i, j) == ccell(l, r, c, i, j)
}
/// second step: the unique part of right overwrites the canonised matrix q
pub open spec fn is_ucells(l: Mat, r: Mat, c: int, q: Mat, s: Mat) -> bool {
    let m = l.rows - 1;
    s.rows == q.rows && s.cols == q.rows && forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.rows ==> #[trigger] s.at(i, j) == (if (i > m && (j > m || j == 0)) || (i == 0 && j > m) { r.at(if i == 0 { 0 } else { i - m }, if j == 0 { 0 } else { j - m }) } else { q.at(i, j) })
}
/// third step: the constraints between the unique and the common part of right are conjoined
pub open spec fn is_xcells(l: Mat, r: Mat, c: int, q: Mat, s: Mat) -> bool {
    let m = l.rows - 1; let n = r.rows - 1; let b = m - c + 1; let d = n - m;
    s.rows == q.rows && s.cols == q.rows && forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.rows ==> #[trigger] s.at(i, j) ==
      (if c > 0 && i > m && b <= j <= m { bmin(q.at(i, j), r.at(i - m, j + d)) } else if c > 0 && j > m && b <= i <= m { bmin(q.at(i, j), r.at(i + d, j - m)) } else { q.at(i, j) })
}
pub open spec fn csat(l: Mat, r: Mat, c: int, v: spec_fn(int) -> real) -> bool {
    let w = rightc(v, l.rows - 1, r.rows - 1, c); let u = r.rows - 1 - c;
    sat(l, v) && (forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.rows && (i == 0 || i > u) && (j == 0 || j > u) ==> bsat(#[trigger] r.at(i, j), w(i) - w(j)))
}
pub open spec fn usat(l: Mat, r: Mat, c: int, v: spec_fn(int) -> real) -> bool {
    let w = rightc(v, l.rows - 1, r.rows - 1, c); let u = r.rows - 1 - c;
    csat(l, r, c, v) && (forall|i: int, j: int| 0 <= i <= u && 0 <= j <= u ==> bsat(#[trigger] r.at(i, j), w(i) - w(j)))
}
pub proof fn lem_juxtc_1(l: Mat, r: Mat, c: int, q: Mat)
  requires okinc(l, r, c), is_ccells(l, r, c, q)
  ensures wf(q), forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == csat(l, r, c, v)
{
  let m = l.rows - 1; let n = r.rows - 1; let b = m - c + 1; let d = n - m; let u = n - c;
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies okb(#[trigger] q.at(i, j)) by {
    if i <= m && j <= m { assert(okb(l.at(i, j))); }
    if c > 0 && i <= m && j <= m && ((i >= b && (j >= b || j == 0)) || (i == 0 && j >= b)) { assert(okb(r.at(if i == 0 { 0 } else { i + d }, if j == 0 { 0 } else { j + d }))); }
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == csat(l, r, c, v) by {
    let w = rightc(v, m, n, c);
    if sat(q, v) {
      assert forall|i: int, j: int| 0 <= i < l.rows && 0 <= j < l.cols implies bsat(#[trigger] l.at(i, j), v(i) - v(j)) by {
        assert(bsat(q.at(i, j), v(i) - v(j))); assert(okb(l.at(i, j)));
        if c > 0 && ((i >= b && (j >= b || j == 0)) || (i == 0 && j >= b)) { assert(okb(r.at(if i == 0 { 0 } else { i + d }, if j == 0 { 0 } else { j + d }))); }
      }
      assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.rows && (i == 0 || i > u) && (j == 0 || j > u) implies bsat(#[trigger] r.at(i, j), w(i) - w(j)) by {
        let a = if i == 0 { 0int } else { i - d }; let e = if j == 0 { 0int } else { j - d };
        assert(okb(r.at(i, j)));
        if i == 0 && j == 0 { assert(ble(bz(), r.at(0, 0))); }
        else { assert(bsat(q.at(a, e), v(a) - v(e))); assert(okb(l.at(a, e))); }
      }
    }
    if csat(l, r, c, v) {
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by {
        if i <= m && j <= m { assert(bsat(l.at(i, j), v(i) - v(j))); }
        if c > 0 && i <= m && j <= m && ((i >= b && (j >= b || j == 0)) || (i == 0 && j >= b)) {
          let a = if i == 0 { 0int } else { i + d }; let e = if j == 0 { 0int } else { j + d };
          assert(bsat(r.at(a, e), w(a) - w(e)));
        }
      }
    }
  }
}
pub proof fn lem_juxtc_2(l: Mat, r: Mat, c: int, q0: Mat, q: Mat, s: Mat)
  requires okinc(l, r, c), is_ccells(l, r, c, q0), le_mat(q, q0), wf(q), same_sols(q0, q), is_ucells(l, r, c, q, s)
  ensures wf(s), forall|v: spec_fn(int) -> real| #[trigger] sat(s, v) == usat(l, r, c, v)
{
  let m = l.rows - 1; let n = r.rows - 1; let u = n - c;
  lem_juxtc_1(l, r, c, q0);
  assert forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.cols implies okb(#[trigger] s.at(i, j)) by {
    assert(okb(q.at(i, j)));
    if (i > m && (j > m || j == 0)) || (i == 0 && j > m) { assert(okb(r.at(if i == 0 { 0 } else { i - m }, if j == 0 { 0 } else { j - m }))); }
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(s, v) == usat(l, r, c, v) by {
    let w = rightc(v, m, n, c);
    if sat(s, v) {
      // forget the unique part: the canonised matrix does not constrain it beyond the left block
      assert forall|i: int, j: int| 0 <= i < q0.rows && 0 <= j < q0.cols implies bsat(#[trigger] q0.at(i, j), v(i) - v(j)) by {
        assert(bsat(s.at(i, j), v(i) - v(j))); assert(ble(q.at(i, j), q0.at(i, j))); assert(okb(q0.at(i, j)));
      }
      assert(sat(q0, v));
      assert(csat(l, r, c, v));
      assert forall|i: int, j: int| 0 <= i <= u && 0 <= j <= u implies bsat(#[trigger] r.at(i, j), w(i) - w(j)) by {
        let a = if i == 0 { 0int } else { i + m }; let e = if j == 0 { 0int } else { j + m };
        if i == 0 && j == 0 { assert(ble(bz(), r.at(0, 0))); } else { assert(bsat(s.at(a, e), v(a) - v(e))); }
      }
    }
    if usat(l, r, c, v) {
      assert(sat(q0, v)); assert(sat(q, v));
      assert forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.cols implies bsat(#[trigger] s.at(i, j), v(i) - v(j)) by {
        assert(bsat(q.at(i, j), v(i) - v(j)));
        if (i > m && (j > m || j == 0)) || (i == 0 && j > m) { let a = if i == 0 { 0int } else { i - m }; let e = if j == 0 { 0int } else { j - m }; assert(bsat(r.at(a, e), w(a) - w(e))); }
      }
    }
  }
}

pub proof fn lem_juxtc_3(l: Mat, r: Mat, c: int, q: Mat, s: Mat)
  requires okinc(l, r, c), q.rows == l.rows + r.rows - 1 - c, wf(q), forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == usat(l, r, c, v), is_xcells(l, r, c, q, s)
  ensures wf(s), forall|v: spec_fn(int) -> real| #[trigger] sat(s, v) == juxtc_sat(l, r, c, v)
{
  let m = l.rows - 1; let n = r.rows - 1; let b = m - c + 1; let d = n - m; let u = n - c;
  assert forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.cols implies okb(#[trigger] s.at(i, j)) by {
    assert(okb(q.at(i, j)));
    if c > 0 && i > m && b <= j <= m { assert(okb(r.at(i - m, j + d))); }
    if c > 0 && j > m && b <= i <= m { assert(okb(r.at(i + d, j - m))); }
  }
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(s, v) == juxtc_sat(l, r, c, v) by {
    let w = rightc(v, m, n, c);
    if sat(s, v) {
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by {
        assert(bsat(s.at(i, j), v(i) - v(j))); assert(okb(q.at(i, j)));
        if c > 0 && i > m && b <= j <= m { assert(okb(r.at(i - m, j + d))); }
        if c > 0 && j > m && b <= i <= m { assert(okb(r.at(i + d, j - m))); }
      }
      assert(sat(q, v));
      assert forall|i: int, j: int| 0 <= i < r.rows && 0 <= j < r.cols implies bsat(#[trigger] r.at(i, j), w(i) - w(j)) by {
        assert(okb(r.at(i, j)));
        if 0 < i <= u && j > u { assert(bsat(s.at(i + m, j - d), v(i + m) - v(j - d))); assert(okb(q.at(i + m, j - d))); }
        if i > u && 0 < j <= u { assert(bsat(s.at(i - d, j + m), v(i - d) - v(j + m))); assert(okb(q.at(i - d, j + m))); }
      }
    }
    if juxtc_sat(l, r, c, v) {
      assert(usat(l, r, c, v));
      assert(sat(q, v));
      assert forall|i: int, j: int| 0 <= i < s.rows && 0 <= j < s.cols implies bsat(#[trigger] s.at(i, j), v(i) - v(j)) by {
        assert(bsat(q.at(i, j), v(i) - v(j)));
        if c > 0 && i > m && b <= j <= m { assert(bsat(r.at(i - m, j + d), w(i - m) - w(j + d))); }
        if c > 0 && j > m && b <= i <= m { assert(bsat(r.at(i + d, j - m), w(i + d) - w(j - m))); }
      }
    }
  }
}
