// ---- elementary languages: the durations d of a word as a valuation of the sums to the end
pub open spec fn wv(d: Seq<D>) -> spec_fn(int) -> real { |x: int| if x == 0 { 0real } else { rsum(d.subrange(x - 1, d.len() as int)) } }
/// the first n durations described by v are those of d
pub open spec fn durs_upto(v: spec_fn(int) -> real, d: Seq<D>, n: int, rows: int) -> bool { forall|k: int| 0 <= k < n && #[trigger] tix(k) ==> dur(v, k, k, rows) == dv(d[k]) }
pub proof fn lem_durs_step(v: spec_fn(int) -> real, d: Seq<D>, n: int, rows: int)
  requires 0 <= n < d.len(), d[n] is Fin
  ensures durs_upto(v, d, n + 1, rows) == (durs_upto(v, d, n, rows) && bsat(bnd(dv(d[n]), true), dur(v, n, n, rows)) && bsat(bnd(-dv(d[n]), true), -dur(v, n, n, rows)))
{ assert(tix(n)); }
pub proof fn lem_wv(d: Seq<D>, x: int)
  requires 0 <= x < d.len()
  ensures dur(wv(d), x, x, d.len() as int + 1) == dv(d[x])
{ lem_rsum_front(d, x); if x == d.len() - 1 { assert(d.subrange(d.len() as int, d.len() as int) =~= Seq::empty()); } }
pub proof fn lem_wv_all(d: Seq<D>)
  ensures durs_upto(wv(d), d, d.len() as int, d.len() as int + 1)
{ assert forall|k: int| 0 <= k < d.len() && #[trigger] tix(k) implies dur(wv(d), k, k, d.len() as int + 1) == dv(d[k]) by { lem_wv(d, k); } }
pub proof fn lem_durs_val(v: spec_fn(int) -> real, d: Seq<D>, x: int)
  requires durs_upto(v, d, d.len() as int, d.len() as int + 1), 1 <= x <= d.len()
  ensures v(x) - v(0) == wv(d)(x)
  decreases d.len() - x
{
  let rows = d.len() as int + 1;
  assert(tix(x - 1)); lem_wv(d, x - 1);
  if x < d.len() { lem_durs_val(v, d, x + 1); }
}
/// fixing all durations leaves the word itself, if it is admitted
pub proof fn lem_member(m: Mat, q: Mat, d: Seq<D>)
  requires wf(m), m.rows == d.len() + 1, forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(m, v) && durs_upto(v, d, d.len() as int, m.rows))
  ensures nonempty(q) == sat(m, wv(d))
{
  lem_wv_all(d);
  if sat(m, wv(d)) { assert(sat(q, wv(d))); }
  if nonempty(q) {
    let v = choose|v: spec_fn(int) -> real| sat(q, v);
    assert(sat(m, v));
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), wv(d)(i) - wv(d)(j)) by {
      assert(bsat(m.at(i, j), v(i) - v(j)));
      if i > 0 { lem_durs_val(v, d, i); } if j > 0 { lem_durs_val(v, d, j); }
    }
  }
}
/// every duration is bounded and nonnegative
pub open spec fn bounded_m(m: Mat) -> bool { forall|i: int| 0 <= i < m.rows - 1 && #[trigger] tix(i) ==> m.at(i + 1, hix(i, m.rows)).first is Fin && m.at(hix(i, m.rows), i + 1).first is Fin }
/// the first n durations are those of some member
pub open spec fn extends(m: Mat, d: Seq<D>, n: int, v: spec_fn(int) -> real) -> bool { sat(m, v) && durs_upto(v, d, n, m.rows) }
pub open spec fn samp_rng(m: Mat, v: spec_fn(int) -> real, i: int, j: int, lo: D, up: D) -> bool {
  lo is Fin && up is Fin && dv(lo) <= dur(v, i, i, m.rows) <= dv(up)
  && forall|k: int| j < k <= i && #[trigger] tix(k) ==>
    (m.at(hix(i, m.rows), k + 1).first is Fin ==> -dv(m.at(hix(i, m.rows), k + 1).first) - (v(k + 1) - v(i + 1)) <= dv(lo))
    && (m.at(k + 1, hix(i, m.rows)).first is Fin ==> dv(up) <= dv(m.at(k + 1, hix(i, m.rows)).first) - (v(k + 1) - v(i + 1)))
}
pub proof fn lem_samp(m: Mat, v: spec_fn(int) -> real, d: Seq<D>, i: int, c: real) -> (w: spec_fn(int) -> real)
  requires canonical(m), sat(m, v), 0 <= i < m.rows - 1, d.len() == m.rows - 1, durs_upto(v, d, i, m.rows),
    forall|k: int| 0 <= k <= i && #[trigger] tix(k) ==> bsat(m.at(k + 1, hix(i, m.rows)), v(k + 1) - v(i + 1) + c) && bsat(m.at(hix(i, m.rows), k + 1), -(v(k + 1) - v(i + 1) + c)),
  ensures extends(m, d.update(i, fin(c)), i + 1, w)
{
  let h = hix(i, m.rows);
  let s = |x: int| x == h || 1 <= x <= i + 1;
  let u = upd(v, h, v(i + 1) - c);
  assert forall|a: int, b: int| 0 <= a < m.rows && 0 <= b < m.rows && s(a) && s(b) implies bsat(#[trigger] m.at(a, b), u(a) - u(b)) by {
    assert(bsat(m.at(a, b), v(a) - v(b)));
    if a == h && b == h { } else if a == h { assert(tix(b - 1)); } else if b == h { assert(tix(a - 1)); }
  }
  let w = lem_extend_all(m, u, s, 0);
  assert forall|k: int| 0 <= k < i + 1 && #[trigger] tix(k) implies dur(w, k, k, m.rows) == dv(d.update(i, fin(c))[k]) by {
    assert(s(k + 1)); assert(s(hix(k, m.rows)));
  }
  w
}
pub proof fn lem_samp_mid(m: Mat, v: spec_fn(int) -> real, d: Seq<D>, i: int, lo: D, up: D) -> (w: spec_fn(int) -> real)
  requires canonical(m), sat(m, v), 0 <= i < m.rows - 1, d.len() == m.rows - 1, durs_upto(v, d, i, m.rows), samp_rng(m, v, i, -1, lo, up)
  ensures extends(m, d.update(i, fin((dv(lo) + dv(up)) * 0.5real)), i + 1, w)
{
  let c = (dv(lo) + dv(up)) * 0.5real; let h = hix(i, m.rows);
  lem_diag_off(m);
  assert forall|k: int| 0 <= k <= i && #[trigger] tix(k) implies bsat(m.at(k + 1, h), v(k + 1) - v(i + 1) + c) && bsat(m.at(h, k + 1), -(v(k + 1) - v(i + 1) + c)) by {
    assert(bsat(m.at(k + 1, h), v(k + 1) - v(h))); assert(bsat(m.at(h, k + 1), v(h) - v(k + 1)));
    assert(okb(m.at(k + 1, h)) && okb(m.at(h, k + 1)));
    if dv(lo) == dv(up) { assert(c == v(i + 1) - v(h)); } else { assert(dv(lo) < c < dv(up)); }
  }
  lem_samp(m, v, d, i, c)
}
pub proof fn lem_samp_pt(m: Mat, v: spec_fn(int) -> real, d: Seq<D>, i: int)
  requires canonical(m), sat(m, v), 0 <= i < m.rows - 1, d.len() == m.rows - 1, durs_upto(v, d, i, m.rows), ptb(m.at(i + 1, hix(i, m.rows)), m.at(hix(i, m.rows), i + 1))
  ensures extends(m, d.update(i, m.at(i + 1, hix(i, m.rows)).first), i + 1, v)
{
  let h = hix(i, m.rows);
  assert(bsat(m.at(i + 1, h), v(i + 1) - v(h))); assert(bsat(m.at(h, i + 1), v(h) - v(i + 1)));
  let e = d.update(i, m.at(i + 1, h).first);
  assert forall|k: int| 0 <= k < i + 1 && #[trigger] tix(k) implies dur(v, k, k, m.rows) == dv(e[k]) by { if k < i { assert(e[k] == d[k]); } }
}
pub proof fn lem_samp_done(m: Mat, d: Seq<D>, v: spec_fn(int) -> real)
  requires wf(m), extends(m, d, d.len() as int, v), m.rows == d.len() + 1
  ensures sat(m, wv(d))
{
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), wv(d)(i) - wv(d)(j)) by {
    assert(bsat(m.at(i, j), v(i) - v(j)));
    if i > 0 { lem_durs_val(v, d, i); } if j > 0 { lem_durs_val(v, d, j); }
  }
}
