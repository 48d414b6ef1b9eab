// mapping words by a morphism
// c holds the codomain, d the durations of the given word, w a valuation of the codomain that agrees with d on the renamed pairs
pub open spec fn renamed(ren: Seq<Pair<int, int>>, v: spec_fn(int) -> real, w: spec_fn(int) -> real) -> bool { forall|k: int| 0 <= k < ren.len() ==> v((#[trigger] ren[k]).first + 1) == w(ren[k].second + 1) }
pub open spec fn nng(m: Mat) -> bool { forall|i: int| 0 < i < m.rows ==> ble(#[trigger] m.at(0, i), bz()) }
// some valuation of the codomain agrees with v on the renamed pairs
pub open spec fn morph_to(c: Mat, ren: Seq<Pair<int, int>>, v: spec_fn(int) -> real) -> bool { exists|w: spec_fn(int) -> real| #[trigger] sat(c, w) && w(0) == 0real && renamed(ren, v, w) }
pub open spec fn join(v: spec_fn(int) -> real, w: spec_fn(int) -> real, n: int) -> spec_fn(int) -> real { |i: int| if i <= n { v(i) } else { w(i - n) } }
pub open spec fn vnn(v: spec_fn(int) -> real, n: int) -> bool { forall|i: int| 0 <= i < n && #[trigger] tix(i) ==> v(0) <= v(i) }
pub proof fn lem_nonneg(m: Mat)
  requires canonical(m), forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> vnn(v, m.rows), ensures nng(m),
{
  lem_diag_off(m);
  assert forall|i: int| 0 < i < m.rows implies ble(#[trigger] m.at(0, i), bz()) by {
    if !ble(m.at(0, i), bz()) {
      assert(okb(m.at(0, i)) && okb(bz()));
      assert(blt(bz(), m.at(0, i)));
      lem_tight_entry(m, bz(), 0, i); let v = choose|v: spec_fn(int) -> real| sat(m, v) && !bsat(bz(), v(0) - v(i)); assert(tix(i));
    }
  }
}
pub proof fn lem_nonneg_sat(m: Mat, v: spec_fn(int) -> real, i: int)
  requires nng(m), wf(m), sat(m, v), 0 <= i < m.rows, ensures v(0) <= v(i),
{ assert(bsat(m.at(0, i), v(0) - v(i))); if i > 0 { assert(ble(m.at(0, i), bz())); } }

// the juxtaposition m of the exact word e and the codomain c, with the renaming equations, has a solution
pub open spec fn morph_in(e: Mat, c: Mat, m: Mat, d: Seq<D>, acc: Seq<D>, n: int) -> bool {
  &&& wf(e) && wf(c) && is_juxt(e, c, m) && e.rows == n + 1 && d.len() == n && n >= 1 && nng(c)
  &&& acc_from(d, acc, 0)
  &&& forall|v: spec_fn(int) -> real| #[trigger] sat(e, v) == same_diff(v, av(acc), n + 1)
}
pub proof fn lem_morph_in(e: Mat, c: Mat, m: Mat, d: Seq<D>, acc: Seq<D>, n: int, ren: Seq<Pair<int, int>>, w: spec_fn(int) -> real)
  requires morph_in(e, c, m, d, acc, n), sat(c, w), w(0) == 0real, renamed(ren, wv(d), w), forall|k: int| 0 <= k < ren.len() ==> 0 <= (#[trigger] ren[k]).first < n && 0 <= ren[k].second,
    forall|x: int| 1 <= x <= n ==> 0real <= #[trigger] wv(d)(x),
  ensures sat(m, join(wv(d), w, n)), ren_sat(ren, n, ren.len() as int, join(wv(d), w, n)), canonical(m), nng(m),
{
  let u = join(wv(d), w, n);
  assert forall|x: int, y: int| 0 <= x < n + 1 && 0 <= y < n + 1 && #[trigger] tij(x, y) implies u(x) - u(y) == av(acc)(x) - av(acc)(y) by {
    if x >= 1 { assert(acc[x - 1] == fin(rsum(d.subrange(x - 1, d.len() as int)))); }
    if y >= 1 { assert(acc[y - 1] == fin(rsum(d.subrange(y - 1, d.len() as int)))); }
  }
  assert(sat(e, u));
  assert(sat(c, rightv(u, n))) by {
    assert forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.cols implies #[trigger] tij(i, j) && rightv(u, n)(i) - rightv(u, n)(j) == w(i) - w(j) by { }
    lem_shift(c, rightv(u, n), w);
  }
  assert(sat(m, u) == juxt_sat(e, c, u));
  lem_sat_diag(m, u);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies vnn(v, m.rows) by {
    assert(juxt_sat(e, c, v));
    assert forall|i: int| 0 <= i < m.rows && #[trigger] tix(i) implies v(0) <= v(i) by {
    if i <= n { assert(same_diff(v, av(acc), n + 1)); assert(tij(i, 0)); if i >= 1 { assert(acc[i - 1] == fin(rsum(d.subrange(i - 1, d.len() as int)))); assert(wv(d)(i) >= 0real); } }
    else { lem_nonneg_sat(c, rightv(v, n), i - n); }
    }
  }
  lem_nonneg(m);
}
pub proof fn lem_nonneg_le(p: Mat, q: Mat)
  requires nng(p), le_mat(q, p), wf(p), wf(q), ensures nng(q),
{ assert forall|i: int| 0 < i < q.rows implies ble(#[trigger] q.at(0, i), bz()) by { assert(ble(q.at(0, i), p.at(0, i))); assert(ble(p.at(0, i), bz())); assert(okb(q.at(0, i)) && okb(p.at(0, i))); } }
// the durations from n on are those that v describes
pub open spec fn durs_from(v: spec_fn(int) -> real, d: Seq<D>, n: int, rows: int) -> bool { forall|k: int| n <= k < d.len() && #[trigger] tix(k) ==> d[k] is Fin && dur(v, k, k, rows) == dv(d[k]) }
pub proof fn lem_morph_out(e: Mat, c: Mat, m: Mat, d: Seq<D>, acc: Seq<D>, n: int, ren: Seq<Pair<int, int>>, v: spec_fn(int) -> real, r: Seq<D>)
  requires morph_in(e, c, m, d, acc, n), sat(m, v), v(0) == 0real, ren_sat(ren, n, ren.len() as int, v), durs_from(rightv(v, n), r, 0, c.rows), c.rows == r.len() + 1, r.len() >= 1,
    forall|k: int| 0 <= k < ren.len() ==> 0 <= (#[trigger] ren[k]).first < n && 0 <= ren[k].second < r.len(),
  ensures sat(c, wv(r)), renamed(ren, wv(d), wv(r)), fin_all(r), forall|k: int| 0 <= k < r.len() ==> dv(#[trigger] r[k]) == rightv(v, n)(k + 1) - (if k + 1 < r.len() { rightv(v, n)(k + 2) } else { 0real }),
{
  let w = rightv(v, n);
  assert(juxt_sat(e, c, v));
  assert forall|i: int| 0 <= i < r.len() implies #[trigger] r[i] is Fin by { assert(tix(i)); }
  assert(durs_upto(w, r, r.len() as int, r.len() as int + 1));
  assert forall|x: int| 1 <= x <= r.len() implies #[trigger] w(x) == wv(r)(x) by { lem_durs_val(w, r, x); }
  assert forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.cols implies #[trigger] tij(i, j) && w(i) - w(j) == wv(r)(i) - wv(r)(j) by { if i > 0 { assert(w(i) == wv(r)(i)); } if j > 0 { assert(w(j) == wv(r)(j)); } }
  lem_shift(c, w, wv(r));
  assert forall|k: int| 0 <= k < ren.len() implies wv(d)((#[trigger] ren[k]).first + 1) == wv(r)(ren[k].second + 1) by {
    let x = ren[k].first + 1; let y = ren[k].second + 1;
    assert(v(x) == v(y + n)); assert(w(y) == wv(r)(y)); assert(w(y) == v(y + n));
    assert(same_diff(v, av(acc), n + 1)); assert(tij(x, 0)); assert(acc[x - 1] == fin(rsum(d.subrange(x - 1, d.len() as int))));
  }
  assert forall|k: int| 0 <= k < r.len() implies dv(#[trigger] r[k]) == w(k + 1) - (if k + 1 < r.len() { w(k + 2) } else { 0real }) by { assert(tix(k)); }
}
pub open spec fn morph_ex(c: Mat, m: Mat, d: Seq<D>, n: int) -> bool { exists|e: Mat, acc: Seq<D>| #![trigger is_juxt(e, c, m), acc_from(d, acc, 0)] morph_in(e, c, m, d, acc, n) }
