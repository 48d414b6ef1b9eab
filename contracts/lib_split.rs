// splitting a word at a prefix whose region is the domain of a morphism
pub open spec fn pdur(d: Seq<D>, k: int, t: real) -> Seq<D> { d.subrange(0, k).push(fin(t)) }
/// the prefix of the word with the events of e and the last duration t, at most that of the word, is in e
pub open spec fn pref_at(e: ElementaryLanguage, d: Seq<D>, t: real) -> bool { t <= dv(d[e.word.len() as int]) && sat(e.timedCondition.zone.value, wv(pdur(d, e.word.len() as int, t))) }
pub open spec fn pref_in(e: ElementaryLanguage, w: Seq<int>, d: Seq<D>) -> bool { e.word.len() <= w.len() && e.word =~= w.subrange(0, e.word.len() as int) && exists|t: real| #[trigger] pref_at(e, d, t) }
pub proof fn lem_pdur(d: Seq<D>, k: int, t: real, x: int)
  requires 0 <= k < d.len(), 1 <= x <= k + 1, ensures wv(pdur(d, k, t))(x) == rsum(d.subrange(x - 1, k)) + t, x == k + 1 ==> wv(pdur(d, k, t))(x) == t,
{ let p = pdur(d, k, t); assert(p.subrange(x - 1, k + 1) =~= d.subrange(x - 1, k).push(fin(t))); assert(d.subrange(x - 1, k).push(fin(t)).drop_last() =~= d.subrange(x - 1, k)); if x == k + 1 { assert(d.subrange(k, k) =~= Seq::<D>::empty()); } }
pub proof fn lem_pdur_self(w: Seq<int>, d: Seq<D>) requires tw_ok(w, d), ensures pdur(d, w.len() as int, dv(d[w.len() as int])) == d,
{ let k = w.len() as int; assert(d[k] is Fin); assert(pdur(d, k, dv(d[k])) =~= d); }
pub proof fn lem_step_back(m: Mat, q: Mat, v: spec_fn(int) -> real) -> (e: real)
  requires st_step(m, q, 0), sat(q, v), ensures e > 0real, sat(m, st_mv(v, 0, -e)),
{ let e = choose|e: real| #[trigger] st_back(m, q, 0, v, e); e }
pub proof fn lem_mv_val(d: Seq<D>, n: int, t: real, e: real, x: int)
  requires 0 <= n < d.len(), 0 <= x < n + 2, ensures st_mv(wv(pdur(d, n, t)), 0, -e)(x) == wv(pdur(d, n, t - e))(x),
{ if x > 0 { lem_pdur(d, n, t, x); lem_pdur(d, n, t - e, x); } }
pub proof fn lem_mv_sat(m: Mat, d: Seq<D>, n: int, t: real, e: real)
  requires m.rows == m.cols, m.rows == n + 2, 0 <= n < d.len(), sat(m, st_mv(wv(pdur(d, n, t)), 0, -e)), ensures sat(m, wv(pdur(d, n, t - e))),
{
  let v = st_mv(wv(pdur(d, n, t)), 0, -e); let u = wv(pdur(d, n, t - e));
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), u(i) - u(j)) by { assert(bsat(m.at(i, j), v(i) - v(j))); lem_mv_val(d, n, t, e, i); lem_mv_val(d, n, t, e, j); }
}
pub proof fn lem_pref_delay(m: Mat, q: Mat, d: Seq<D>, n: int, t: real) -> (s: real)
  requires st_step(m, q, 0), m.rows == m.cols, m.rows == n + 2, 0 <= n < d.len(), sat(q, wv(pdur(d, n, t))), ensures s < t, sat(m, wv(pdur(d, n, s))),
{ hide(st_step); let e = lem_step_back(m, q, wv(pdur(d, n, t))); lem_mv_sat(m, d, n, t, e); t - e }
pub proof fn lem_pref_event(m: Mat, d: Seq<D>, n: int, t: real)
  requires m.rows == m.cols, m.rows == n + 1, 1 <= n < d.len(), fin_all(d), sat(m, wv(pdur(d, n, t))), wv(pdur(d, n, t))(n + 1) == wv(pdur(d, n, t))(0), ensures sat(m, wv(pdur(d, n - 1, dv(d[n - 1])))),
{
  let k = n - 1; let v = wv(pdur(d, n, t)); lem_pdur(d, n, t, n + 1); assert(t == 0real); assert(d[k] is Fin); let s = dv(d[k]); let u = wv(pdur(d, k, s));
  assert forall|x: int| 0 <= x < m.rows implies #[trigger] v(x) == u(x) by { if x > 0 { lem_pdur(d, n, t, x); lem_pdur(d, k, s, x); assert(d.subrange(x - 1, n).drop_last() =~= d.subrange(x - 1, k)); assert(d.subrange(x - 1, n).last() == d[k]); } }
  lem_sat_eqv(m, v, u);
}
pub proof fn lem_pref_step(a: ForwardRegionalElementaryLanguage, b: ForwardRegionalElementaryLanguage, w: Seq<int>, d: Seq<D>)
  requires fr_inv(a), fr_inv(b), fr_link(a, b), tw_ok(w, d), pref_in(b.base, w, d), ensures pref_in(a.base, w, d),
{
  let m = a.base.timedCondition.zone.value; let q = b.base.timedCondition.zone.value; let n = b.base.word.len() as int; let t = choose|t: real| #[trigger] pref_at(b.base, d, t); let v = wv(pdur(d, n, t));
  assert(sat(q, v)); let k = a.base.word.len() as int; assert(m.rows == k + 2 && q.rows == n + 2 && m.rows == m.cols);
  if b.base.word == a.base.word && st_step(m, q, 0) {
    let s = lem_pref_delay(m, q, d, n, t); assert(pref_at(a.base, d, s));
  } else {
    assert(b.base.word == a.base.word.push(b.base.word.last()) && (sat(q, v) == (sat(m, v) && v(m.rows) == v(0)))); assert(n == k + 1);
    assert(a.base.word =~= b.base.word.subrange(0, k)); assert(a.base.word =~= w.subrange(0, k));
    lem_pref_event(m, d, n, t); assert(pref_at(a.base, d, dv(d[k])));
  }
}
pub proof fn lem_pref_all(s: Seq<ForwardRegionalElementaryLanguage>, w: Seq<int>, d: Seq<D>, i: int)
  requires fr_chain(s), tw_ok(w, d), 0 <= i < s.len(), pref_in(s.last().base, w, d), ensures pref_in(s[i].base, w, d), decreases s.len() - i,
{ if i < s.len() - 1 { lem_pref_all(s, w, d, i + 1); assert(fr_inv(s[i]) && fr_inv(s[i + 1])); assert(fr_link(s[i], s[i + 1])); lem_pref_step(s[i], s[i + 1], w, d); } }
/// the whole word is in its region
pub proof fn lem_pref_last(x: ForwardRegionalElementaryLanguage, w: Seq<int>, d: Seq<D>)
  requires x.base.word == w, tw_ok(w, d), reg_of(x.base.timedCondition.zone.value, d), ensures pref_in(x.base, w, d),
{ lem_pdur_self(w, d); assert(w.subrange(0, w.len() as int) =~= w); assert(pref_at(x.base, d, dv(d[w.len() as int]))); }
/// q: the words of m with the first k durations of d
pub open spec fn fixed(q: Mat, m: Mat, d: Seq<D>, k: int) -> bool { forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(m, v) && durs_upto(v, d, k, m.rows)) }
pub proof fn lem_fixed_self(q: Mat, m: Mat, d: Seq<D>, k: int, t: real)
  requires fixed(q, m, d, k), 0 <= k < d.len(), m.rows == k + 2, fin_all(d), sat(m, wv(pdur(d, k, t))), ensures sat(q, wv(pdur(d, k, t))),
{ let p = pdur(d, k, t); lem_wv_all(p); assert forall|i: int| 0 <= i < k && #[trigger] tix(i) implies dur(wv(p), i, i, m.rows) == dv(d[i]) by { assert(p[i] == d[i]); } }
/// any last duration within the bounds will do
pub proof fn lem_fixed_at(q: Mat, m: Mat, d: Seq<D>, k: int, v: spec_fn(int) -> real)
  requires fixed(q, m, d, k), 0 <= k < d.len(), wf(m), m.rows == k + 2, fin_all(d), sat(q, v), ensures sat(m, wv(pdur(d, k, dur(v, k, k, m.rows)))),
{
  let p = pdur(d, k, dur(v, k, k, m.rows));
  assert(durs_upto(v, p, k + 1, m.rows)) by { assert forall|i: int| 0 <= i < k + 1 && #[trigger] tix(i) implies dur(v, i, i, m.rows) == dv(p[i]) by { if i < k { assert(p[i] == d[i]); } } }
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), wv(p)(i) - wv(p)(j)) by {
    assert(bsat(m.at(i, j), v(i) - v(j))); if i > 0 { lem_durs_val(v, p, i); } if j > 0 { lem_durs_val(v, p, j); }
  }
}
pub proof fn lem_split_last(q: Mat, m: Mat, d: Seq<D>, k: int, t: real, x: real)
  requires fixed(q, m, d, k), 0 <= k < d.len(), canonical(q), wf(m), m.rows == k + 2, q.rows == m.rows, fin_all(d), sat(m, wv(pdur(d, k, t))), t <= x, bsat(q.at(k + 1, 0), x),
  ensures sat(m, wv(pdur(d, k, x))),
{
  lem_fixed_self(q, m, d, k, t); let u = wv(pdur(d, k, t)); lem_pdur(d, k, t, k + 1); assert(bsat(q.at(0, k + 1), u(0) - u(k + 1)));
  let v0 = |i: int| if i == k + 1 { x } else { 0real }; let s = |i: int| i == 0 || i == k + 1;
  lem_diag_off(q);
  let v = lem_extend_all(q, v0, s, 1); assert(s(0) && s(k + 1)); assert(v(0) == v0(0) && v(k + 1) == v0(k + 1)); assert(dur(v, k, k, m.rows) == x);
  lem_fixed_at(q, m, d, k, v);
}
