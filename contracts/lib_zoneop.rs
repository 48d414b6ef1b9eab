// ---- delay, reset, freeing
/// some non-negative delay leads from a solution of m to v
pub open spec fn after_delay(m: Mat, v: spec_fn(int) -> real) -> bool { exists|d: real| 0real <= d && #[trigger] sat(m, undelayed(v, d)) }
pub open spec fn undelayed(v: spec_fn(int) -> real, d: real) -> spec_fn(int) -> real { |i: int| if i == 0 { v(i) } else { v(i) - d } }
/// some non-negative delay leads from v to a solution of m
pub open spec fn before_delay(m: Mat, v: spec_fn(int) -> real) -> bool { exists|d: real| 0real <= d && #[trigger] sat(m, delayed(v, d)) }
/// some value of index x gives a solution
pub open spec fn freed(m: Mat, v: spec_fn(int) -> real, x: int) -> bool { exists|t: real| sat(m, #[trigger] upd(v, x, t)) }
pub open spec fn nonneg(m: Mat, v: spec_fn(int) -> real) -> bool { forall|i: int| 0 <= i < m.rows ==> #[trigger] v(i) >= v(0) }
pub proof fn lem_shift(m: Mat, v: spec_fn(int) -> real, w: spec_fn(int) -> real)
  requires forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> #[trigger] tij(i, j) && v(i) - v(j) == w(i) - w(j)
  ensures sat(m, v) == sat(m, w)
{
  if sat(m, v) { assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by { assert(bsat(m.at(i, j), v(i) - v(j))); assert(tij(i, j)); } }
  if sat(m, w) { assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), v(i) - v(j)) by { assert(bsat(m.at(i, j), w(i) - w(j))); assert(tij(i, j)); } }
}
pub proof fn lem_elapse(p: Mat, q: Mat)
  requires canonical(p), wf(q), q.rows == p.rows,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if j == 0 { binf() } else { p.at(i, j) }),
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == after_delay(p, v)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == after_delay(p, v) by {
    if sat(q, v) {
      let s = |i: int| i != 0;
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && s(i) && s(j) implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
      let c0 = lem_extend(p, v, s, 0);
      let c = if c0 >= v(0) { c0 } else { v(0) };
      let w = upd(v, 0, c);
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols implies bsat(#[trigger] p.at(i, j), w(i) - w(j)) by {
        assert(bsat(q.at(i, j), v(i) - v(j)));
        assert(s(i) || i == 0); assert(s(j) || j == 0);
        assert(ble(bz(), p.at(0, 0)));
      }
      lem_shift(p, w, undelayed(v, c - v(0)));
      assert(sat(p, undelayed(v, c - v(0))));
    }
    if after_delay(p, v) {
      let d = choose|d: real| 0real <= d && #[trigger] sat(p, undelayed(v, d));
      let w = undelayed(v, d);
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), w(i) - w(j))); }
    }
  }
}
pub proof fn lem_rev_elapse(p: Mat, q: Mat)
  requires canonical(p), wf(q), q.rows == p.rows,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if i == 0 { bz() } else { p.at(i, j) }),
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (nonneg(p, v) && before_delay(p, v))
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (nonneg(p, v) && before_delay(p, v)) by {
    if sat(q, v) {
      assert forall|i: int| 0 <= i < p.rows implies #[trigger] v(i) >= v(0) by { assert(bsat(q.at(0, i), v(0) - v(i))); }
      let s = |i: int| i != 0;
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && s(i) && s(j) implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
      let c0 = lem_extend(p, v, s, 0);
      let c = if c0 <= v(0) { c0 } else { v(0) };
      let w = upd(v, 0, c);
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols implies bsat(#[trigger] p.at(i, j), w(i) - w(j)) by {
        assert(bsat(q.at(i, j), v(i) - v(j)));
        assert(s(i) || i == 0); assert(s(j) || j == 0);
        assert(ble(bz(), p.at(0, 0)));
      }
      lem_shift(p, w, delayed(v, v(0) - c));
      assert(sat(p, delayed(v, v(0) - c)));
    }
    if nonneg(p, v) && before_delay(p, v) {
      let d = choose|d: real| 0real <= d && #[trigger] sat(p, delayed(v, d));
      let w = delayed(v, d);
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), w(i) - w(j))); assert(v(j) >= v(0)); }
    }
  }
}
pub proof fn lem_unconstrain(p: Mat, q: Mat, x: int)
  requires canonical(p), wf(q), q.rows == p.rows, 0 <= x < p.rows,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if j == x || i == x { binf() } else { p.at(i, j) }),
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == freed(p, v, x)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == freed(p, v, x) by {
    if sat(q, v) {
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != x && j != x implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
      let w = lem_free(p, v, x);
      assert(sat(p, upd(v, x, w(x))));
    }
    if freed(p, v, x) {
      let t = choose|t: real| sat(p, #[trigger] upd(v, x, t));
      let w = upd(v, x, t);
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), w(i) - w(j))); }
    }
  }
}
pub proof fn lem_reset(p: Mat, q: Mat, x: int)
  requires canonical(p), wf(q), q.rows == p.rows, 1 <= x < p.rows,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if (i == 0 || i == x) && (j == 0 || j == x) { if i == 0 && j == 0 { p.at(0, 0) } else { bz() } } else if i == x { p.at(0, j) } else if j == x { p.at(i, 0) } else { p.at(i, j) }),
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (v(x) == v(0) && freed(p, v, x)), p.at(0, 0) == bz() ==> canonical(q)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (v(x) == v(0) && freed(p, v, x)) by {
    if sat(q, v) {
      assert(bsat(q.at(x, 0), v(x) - v(0))); assert(bsat(q.at(0, x), v(0) - v(x)));
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != x && j != x implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
      let w = lem_free(p, v, x);
      assert(sat(p, upd(v, x, w(x))));
    }
    if v(x) == v(0) && freed(p, v, x) {
      let t = choose|t: real| sat(p, #[trigger] upd(v, x, t));
      let w = upd(v, x, t);
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), w(i) - w(j))); assert(bsat(p.at(0, j), w(0) - w(j))); assert(bsat(p.at(i, 0), w(i) - w(0))); }
    }
  }
  if p.at(0, 0) == bz() {
  lem_diag_off(p);
  assert(diag_ok(q)) by { assert forall|i: int| 0 <= i < q.rows implies ble(bz(), #[trigger] q.at(i, i)) by { assert(ble(bz(), p.at(i, i))); } }
  let f = |i: int| if i == x { 0int } else { i };
  lem_dz(p);
  assert forall|i: int, j: int, h: int| #![trigger q.at(i, j), q.at(i, h), q.at(h, j)] #![trigger dz(q, i, j), q.at(i, h), q.at(h, j)] 0 <= i < q.rows && 0 <= j < q.cols && 0 <= h < q.rows implies ble(dz(q, i, j), badd(q.at(i, h), q.at(h, j))) by {
    let (a, b, c) = (f(i), f(j), f(h)); let _ = (q.at(i, j), p.at(a, b), p.at(a, c), p.at(c, b));
    assert(ble(dz(p, a, b), badd(p.at(a, c), p.at(c, b))));
    assert(ble(bz(), p.at(a, a)) && ble(bz(), p.at(b, b)) && ble(bz(), p.at(c, c)));
    assert(ble(dz(p, a, a), badd(p.at(a, c), p.at(c, a))));
    assert(ble(dz(p, a, b), badd(dz(p, a, c), dz(p, c, b))));
    assert(ble(dz(p, a, a), badd(dz(p, a, c), dz(p, c, a))));
  }
  }
}
