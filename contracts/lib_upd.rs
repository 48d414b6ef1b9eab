// clock updates: x := c or x := y, applied simultaneously (rows are shifted by one; row 0 is the reference)
pub open spec fn src_of(s: VarDC) -> Pair<int, D> { match s { VarDC::Clk(y) => Pair { first: y + 1, second: D::Fin(0real) }, VarDC::Dbl(c) => Pair { first: 0int, second: c } } }
/// where the value of row i comes from after the first k updates (a later update of the same clock wins)
pub open spec fn upd_src(u: Seq<Pair<int, VarDC>>, k: int, i: int) -> Pair<int, D> decreases k {
  if k <= 0 { Pair { first: i, second: D::Fin(0real) } } else if u[k - 1].first + 1 == i { src_of(u[k - 1].second) } else { upd_src(u, k - 1, i) }
}
pub open spec fn upd_ok1(p: Pair<int, VarDC>, n: int) -> bool { 0 <= p.first && p.first + 1 < n && match p.second { VarDC::Clk(y) => 0 <= y && y + 1 < n, VarDC::Dbl(c) => rk(c) == 0 } }
pub open spec fn upd_ok(u: Seq<Pair<int, VarDC>>, n: int) -> bool { n <= 256 && forall|k: int| 0 <= k < u.len() ==> upd_ok1(#[trigger] u[k], n) }
/// the valuation after the simultaneous update
pub open spec fn updated(u: Seq<Pair<int, VarDC>>, v: spec_fn(int) -> real) -> spec_fn(int) -> real { |i: int| v(upd_src(u, u.len() as int, i).first) + dv(upd_src(u, u.len() as int, i).second) }
pub open spec fn agree(v: spec_fn(int) -> real, w: spec_fn(int) -> real, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] v(i) == w(i) }
/// w is reached from a valuation of m by the update
pub open spec fn image(m: Mat, u: Seq<Pair<int, VarDC>>, w: spec_fn(int) -> real) -> bool { exists|v: spec_fn(int) -> real| sat(m, v) && agree(#[trigger] updated(u, v), w, m.rows) }
pub open spec fn srcs_ok(s: Seq<Pair<int, D>>, n: int) -> bool { s.len() == n && n >= 1 && (forall|i: int| 0 <= i < n ==> 0 <= (#[trigger] s[i]).first < n && rk(s[i].second) == 0) }
pub proof fn lem_src_range(u: Seq<Pair<int, VarDC>>, k: int, i: int, n: int)
  requires upd_ok(u, n), 0 <= k <= u.len(), 0 <= i < n,
  ensures 0 <= upd_src(u, k, i).first < n, rk(upd_src(u, k, i).second) == 0,
  decreases k
{ if k > 0 { assert(upd_ok1(u[k - 1], n)); lem_src_range(u, k - 1, i, n); } }
pub proof fn lem_bsat_shift(b: Bounds, c: real, d: real)
  requires okb(b),
  ensures bsat(badd(b, bnd(c, true)), d) == bsat(b, d - c), okb(badd(b, bnd(c, true))),
{ }
/// the pairs handled so far by the double loop
pub open spec fn upto2(i: int, j: int, a: int, b: int) -> bool { a < i || (a == i && b < j) }
pub open spec fn pre_upto(m: Mat, w: spec_fn(int) -> real, i: int, j: int) -> bool { forall|a: int, b: int| 0 <= a < m.rows && 0 <= b < m.rows && upto2(i, j, a, b) ==> bsat(#[trigger] m.at(a, b), w(a) - w(b)) }
pub open spec fn row_from(s: Seq<Pair<int, D>>, n: int, k: int) -> int { choose|i: int| 0 <= i < n && (#[trigger] s[i]).first == k }
pub proof fn lem_image(p: Mat, q: Mat, u: Seq<Pair<int, VarDC>>, s: Seq<Pair<int, D>>)
  requires canonical(p), wf(q), q.rows == p.rows, upd_ok(u, p.rows), srcs_ok(s, p.rows),
    forall|i: int| 0 <= i < p.rows ==> #[trigger] s[i] == upd_src(u, u.len() as int, i),
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows ==> #[trigger] q.at(i, j) == (if i != j && s[i].first == s[j].first { bnd(dv(s[i].second) - dv(s[j].second), true) } else { badd(p.at(s[i].first, s[j].first), bnd(dv(s[i].second) - dv(s[j].second), true)) }),
  ensures forall|w: spec_fn(int) -> real| #[trigger] sat(q, w) == image(p, u, w)
{
  let n = p.rows;
  assert forall|w: spec_fn(int) -> real| #[trigger] sat(q, w) == image(p, u, w) by {
    if image(p, u, w) {
      let v = choose|v: spec_fn(int) -> real| sat(p, v) && agree(#[trigger] updated(u, v), w, p.rows);
      assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies bsat(#[trigger] q.at(i, j), w(i) - w(j)) by {
        let a = s[i]; let b = s[j];
        assert(updated(u, v)(i) == w(i) && updated(u, v)(j) == w(j));
        assert(w(i) == v(a.first) + dv(a.second) && w(j) == v(b.first) + dv(b.second));
        assert(bsat(p.at(a.first, b.first), v(a.first) - v(b.first)));
        lem_bsat_shift(p.at(a.first, b.first), dv(a.second) - dv(b.second), w(i) - w(j));
      }
    }
    if sat(q, w) {
      // the old values that are determined
      let inv = |k: int| 0 <= k < n && exists|i: int| 0 <= i < n && (#[trigger] s[i]).first == k;
      let v0 = |k: int| if inv(k) { w(row_from(s, n, k)) - dv(s[row_from(s, n, k)].second) } else { 0real };
      assert forall|i: int| 0 <= i < n implies v0((#[trigger] s[i]).first) == w(i) - dv(s[i].second) by {
        let k = s[i].first;
        assert(inv(k));
        let i0 = row_from(s, n, k);
        assert(0 <= i0 < n && s[i0].first == k);
        if i0 != i { assert(bsat(q.at(i, i0), w(i) - w(i0))); assert(bsat(q.at(i0, i), w(i0) - w(i))); }
      }
      assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n && inv(a) && inv(b) implies bsat(#[trigger] p.at(a, b), v0(a) - v0(b)) by {
        let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).first == a;
        let j = choose|j: int| 0 <= j < n && (#[trigger] s[j]).first == b;
        assert(bsat(q.at(i, j), w(i) - w(j)));
        lem_bsat_shift(p.at(a, b), dv(s[i].second) - dv(s[j].second), w(i) - w(j));
        if a == b { assert(ble(bz(), p.at(a, a))); }
      }
      let v = lem_extend_all(p, v0, inv, 0);
      assert(agree(updated(u, v), w, n)) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] updated(u, v)(i) == w(i) by { let k = s[i].first; assert(inv(k)); assert(v0(s[i].first) == w(i) - dv(s[i].second)); assert(v(k) == v0(k)); }
      }
    }
  }
}
pub open spec fn updcell(p: Mat, s: Seq<Pair<int, D>>, i: int, j: int) -> Bounds {
  if i != j && s[i].first == s[j].first { bnd(dv(s[i].second) - dv(s[j].second), true) } else { badd(p.at(s[i].first, s[j].first), bnd(dv(s[i].second) - dv(s[j].second), true)) }
}
/// the normal form of a non-empty zone is canonical
pub proof fn lem_nonempty_diag(p: Mat, q: Mat)
  requires nonempty(p), same_sols(p, q), wf(q), 
  ensures diag_ok(q),
{
  let v = choose|v: spec_fn(int) -> real| sat(p, v);
  assert(sat(q, v)); lem_sat_diag(q, v);
}
pub proof fn lem_image_same(p: Mat, q: Mat, u: Seq<Pair<int, VarDC>>, w: spec_fn(int) -> real)
  requires same_sols(p, q),
  ensures image(p, u, w) == image(q, u, w),
{
  if image(p, u, w) { let v = choose|v: spec_fn(int) -> real| sat(p, v) && agree(#[trigger] updated(u, v), w, p.rows); assert(sat(q, v) && agree(updated(u, v), w, q.rows)); }
  if image(q, u, w) { let v = choose|v: spec_fn(int) -> real| sat(q, v) && agree(#[trigger] updated(u, v), w, q.rows); assert(sat(p, v) && agree(updated(u, v), w, p.rows)); }
}
pub proof fn lem_revert_step(m: Mat, q: Mat, o: Mat, u: Seq<Pair<int, VarDC>>, s: Seq<Pair<int, D>>, i: int, j: int)
  requires wf(m), wf(o), o.rows == m.rows, srcs_ok(s, o.rows), 0 <= i < o.rows, 0 <= j < o.rows,
    forall|k: int| 0 <= k < o.rows ==> #[trigger] s[k] == upd_src(u, u.len() as int, k),
    q == mset(m, s[i].first, s[j].first, bmin(m.at(s[i].first, s[j].first), badd(o.at(i, j), bnd(dv(s[j].second) - dv(s[i].second), true)))),
    forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == pre_upto(o, updated(u, v), i, j),
  ensures wf(q), forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == pre_upto(o, updated(u, v), i, j + 1),
{
  let x = s[i].first; let y = s[j].first; let c = badd(o.at(i, j), bnd(dv(s[j].second) - dv(s[i].second), true));
  lem_set_min(m, q, x, y, c);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == pre_upto(o, updated(u, v), i, j + 1) by {
    let w = updated(u, v);
    assert(w(i) == v(x) + dv(s[i].second) && w(j) == v(y) + dv(s[j].second));
    lem_bsat_shift(o.at(i, j), dv(s[j].second) - dv(s[i].second), v(x) - v(y));
    assert(bsat(c, v(x) - v(y)) == bsat(o.at(i, j), w(i) - w(j)));
    assert(sat(m, v) == pre_upto(o, w, i, j));
    if pre_upto(o, w, i, j) && bsat(o.at(i, j), w(i) - w(j)) {
      assert forall|a: int, b: int| 0 <= a < o.rows && 0 <= b < o.rows && upto2(i, j + 1, a, b) implies bsat(#[trigger] o.at(a, b), w(a) - w(b)) by { if !(a == i && b == j) { assert(upto2(i, j, a, b)); } }
    }
    if pre_upto(o, w, i, j + 1) {
      assert(upto2(i, j + 1, i, j));
      assert forall|a: int, b: int| 0 <= a < o.rows && 0 <= b < o.rows && upto2(i, j, a, b) implies bsat(#[trigger] o.at(a, b), w(a) - w(b)) by { assert(upto2(i, j + 1, a, b)); }
    }
  }
}
pub proof fn lem_pre_next(o: Mat, i: int)
  ensures forall|w: spec_fn(int) -> real| #[trigger] pre_upto(o, w, i + 1, 0) == pre_upto(o, w, i, o.rows)
{
  assert forall|w: spec_fn(int) -> real| #[trigger] pre_upto(o, w, i + 1, 0) == pre_upto(o, w, i, o.rows) by {
    if pre_upto(o, w, i + 1, 0) { assert forall|a: int, b: int| 0 <= a < o.rows && 0 <= b < o.rows && upto2(i, o.rows, a, b) implies bsat(#[trigger] o.at(a, b), w(a) - w(b)) by { assert(upto2(i + 1, 0, a, b)); } }
    if pre_upto(o, w, i, o.rows) { assert forall|a: int, b: int| 0 <= a < o.rows && 0 <= b < o.rows && upto2(i + 1, 0, a, b) implies bsat(#[trigger] o.at(a, b), w(a) - w(b)) by { assert(upto2(i, o.rows, a, b)); } }
  }
}
