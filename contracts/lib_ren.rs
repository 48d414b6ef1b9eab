// closing a matrix only at the indices where it was tightened
pub open spec fn xb(b: Bounds) -> bool { rk(b.first) >= 0 && (rk(b.first) > 0 ==> !b.second) }
pub open spec fn nbm(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> nb(#[trigger] m.at(i, j)) }
pub open spec fn closed_at(m: Mat, h: int) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> ble(#[trigger] m.at(i, j), badd(m.at(i, h), m.at(h, j))) }
pub open spec fn closed_on(m: Mat, s: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < n ==> closed_at(m, #[trigger] s[k]) }
pub open spec fn via(p: Mat, q: Mat, s: Seq<int>, i: int, h: int) -> bool { ble(p.at(i, h), q.at(i, h)) || exists|k: int| 0 <= k < s.len() && ble(badd(q.at(i, #[trigger] s[k]), p.at(s[k], h)), q.at(i, h)) }
pub open spec fn rvia(p: Mat, q: Mat, s: Seq<int>, h: int, j: int) -> bool { ble(p.at(h, j), q.at(h, j)) || exists|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], j)), q.at(h, j)) }
pub open spec fn vias(p: Mat, q: Mat, s: Seq<int>) -> bool { forall|i: int, h: int| 0 <= i < p.rows && 0 <= h < p.rows && !s.contains(h) && #[trigger] tij(i, h) ==> via(p, q, s, i, h) && rvia(p, q, s, h, i) }
/// closed with the diagonal entries as they are
pub open spec fn closed_d(m: Mat) -> bool { forall|i: int, j: int, h: int| 0 <= i < m.rows && 0 <= j < m.cols && 0 <= h < m.rows ==> ble(#[trigger] m.at(i, j), badd(#[trigger] m.at(i, h), #[trigger] m.at(h, j))) }
/// the matrix with its diagonal set to zero
pub open spec fn zdiag(m: Mat, n: Mat) -> bool { n.rows == m.rows && n.cols == m.cols && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> #[trigger] n.at(i, j) == dz(m, i, j) }
pub open spec fn in_rng(s: Seq<int>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < n }
pub proof fn lem_badd_mono(a: Bounds, b: Bounds, c: Bounds, d: Bounds)
  requires xb(a), xb(b), xb(c), xb(d), ble(a, c), ble(b, d)
  ensures ble(badd(a, b), badd(c, d)), xb(badd(a, b))
{}
pub proof fn lem_badd_assoc(a: Bounds, b: Bounds, c: Bounds)
  requires xb(a), xb(b), xb(c)
  ensures badd(badd(a, b), c) == badd(a, badd(b, c))
{}
pub proof fn lem_ble_trans(a: Bounds, b: Bounds, c: Bounds)
  requires ble(a, b), ble(b, c) ensures ble(a, c)
{}
/// closing at k keeps the matrix closed at h
pub proof fn lem_close_at(p: Mat, q: Mat, k: int, h: int)
  requires wf(p), wf(q), 0 <= k < p.rows, 0 <= h < p.rows, diag_ok(q), diag_ok(p), closed_at(p, h), is_close1(p, q, k)
  ensures closed_at(q, h), closed_at(q, k)
{
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies ble(#[trigger] q.at(i, j), badd(q.at(i, h), q.at(h, j))) && ble(q.at(i, j), badd(q.at(i, k), q.at(k, j))) by {
    let _ = (p.at(i,j), p.at(i,k), p.at(k,j), p.at(i,h), p.at(h,j), p.at(k,h), p.at(h,k), p.at(k,k), p.at(h,h), q.at(i,h), q.at(h,j), q.at(i,k), q.at(k,j));
    assert(ble(bz(), p.at(k,k)));
    assert(ble(bz(), q.at(h,h)));
    assert(ble(bz(), p.at(h,h)));
    assert(ble(dz(p, i, j), badd(p.at(i,h), p.at(h,j))));
    assert(ble(dz(p, k, j), badd(p.at(k,h), p.at(h,j))));
    assert(ble(dz(p, i, k), badd(p.at(i,h), p.at(h,k))));
    assert(ble(dz(p, k, k), badd(p.at(k,h), p.at(h,k))));
  }
}
pub proof fn lem_close_first(p: Mat, q: Mat, k: int)
  requires wf(p), wf(q), 0 <= k < p.rows, diag_ok(p), is_close1(p, q, k)
  ensures closed_at(q, k)
{
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies ble(#[trigger] q.at(i, j), badd(q.at(i, k), q.at(k, j))) by {
    let _ = (p.at(i,j), p.at(i,k), p.at(k,j), p.at(k,k), q.at(i,k), q.at(k,j));
    assert(ble(bz(), p.at(k,k)));
  }
}
pub proof fn lem_via_step(p: Mat, q: Mat, r: Mat, s: Seq<int>, n: int)
  requires wf(p), wf(q), wf(r), nbm(p), nbm(q), nbm(r), p.rows == q.rows, q.rows == r.rows, in_rng(s, p.rows), 0 <= n < s.len(), le_mat(q, p), le_mat(r, q), is_close1(q, r, s[n]), vias(p, q, s)
  ensures vias(p, r, s)
{
  let x = s[n];
  assert forall|i: int, h: int| 0 <= i < p.rows && 0 <= h < p.rows && !s.contains(h) && #[trigger] tij(i, h) implies via(p, r, s, i, h) && rvia(p, r, s, h, i) by {
    assert(tij(x, h)); assert(tij(i, h));
    assert(via(p, q, s, i, h) && via(p, q, s, x, h) && rvia(p, q, s, h, i) && rvia(p, q, s, h, x));
    assert(nb(q.at(i, h)) && nb(q.at(i, x)) && nb(q.at(x, h)) && nb(q.at(h, i)) && nb(q.at(h, x)) && nb(q.at(x, i)) && nb(p.at(x, h)) && nb(p.at(h, x)));
    assert(ble(r.at(i, x), q.at(i, x)) && ble(r.at(x, i), q.at(x, i)) && nb(r.at(i, x)) && nb(r.at(x, i)));
    if r.at(i, h) == q.at(i, h) {
      if !ble(p.at(i, h), q.at(i, h)) {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(q.at(i, #[trigger] s[k]), p.at(s[k], h)), q.at(i, h));
        lem_via_c(r.at(i, s[k]), q.at(i, s[k]), p.at(s[k], h), q.at(i, h));
      }
    } else {
      assert(r.at(i, h) == badd(q.at(i, x), q.at(x, h)));
      if ble(p.at(x, h), q.at(x, h)) {
        lem_badd_mono(q.at(i, x), p.at(x, h), q.at(i, x), q.at(x, h));
        lem_via_c(r.at(i, x), q.at(i, x), p.at(x, h), r.at(i, h));
        assert(ble(badd(r.at(i, s[n]), p.at(s[n], h)), r.at(i, h)));
      } else {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(q.at(x, #[trigger] s[k]), p.at(s[k], h)), q.at(x, h));
        let y = s[k];
        assert(nb(q.at(x, y)) && nb(p.at(y, h)) && nb(r.at(i, y)) && nb(q.at(i, y)));
        assert(ble(r.at(i, y), badd(q.at(i, x), q.at(x, y))));
        lem_badd_mono(q.at(x, y), p.at(y, h), q.at(x, y), p.at(y, h));
        lem_badd_mono(q.at(i, x), badd(q.at(x, y), p.at(y, h)), q.at(i, x), q.at(x, h));
        lem_badd_assoc(q.at(i, x), q.at(x, y), p.at(y, h));
        lem_badd_mono(q.at(i, x), q.at(x, y), q.at(i, x), q.at(x, y));
        lem_via_c(r.at(i, y), badd(q.at(i, x), q.at(x, y)), p.at(y, h), r.at(i, h));
        assert(ble(badd(r.at(i, s[k]), p.at(s[k], h)), r.at(i, h)));
      }
    }
    if r.at(h, i) == q.at(h, i) {
      if !ble(p.at(h, i), q.at(h, i)) {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], i)), q.at(h, i));
        lem_via_d(r.at(s[k], i), q.at(s[k], i), p.at(h, s[k]), q.at(h, i));
      }
    } else {
      assert(r.at(h, i) == badd(q.at(h, x), q.at(x, i)));
      if ble(p.at(h, x), q.at(h, x)) {
        lem_badd_mono(p.at(h, x), q.at(x, i), q.at(h, x), q.at(x, i));
        lem_via_d(r.at(x, i), q.at(x, i), p.at(h, x), r.at(h, i));
        assert(ble(badd(p.at(h, s[n]), r.at(s[n], i)), r.at(h, i)));
      } else {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], x)), q.at(h, x));
        let y = s[k];
        assert(nb(q.at(y, x)) && nb(p.at(h, y)) && nb(r.at(y, i)));
        assert(ble(r.at(y, i), badd(q.at(y, x), q.at(x, i))));
        lem_badd_mono(p.at(h, y), q.at(y, x), p.at(h, y), q.at(y, x));
        lem_badd_mono(badd(p.at(h, y), q.at(y, x)), q.at(x, i), q.at(h, x), q.at(x, i));
        lem_badd_assoc(p.at(h, y), q.at(y, x), q.at(x, i));
        lem_badd_mono(q.at(y, x), q.at(x, i), q.at(y, x), q.at(x, i));
        lem_via_d(r.at(y, i), badd(q.at(y, x), q.at(x, i)), p.at(h, y), r.at(h, i));
        assert(ble(badd(p.at(h, s[k]), r.at(s[k], i)), r.at(h, i)));
      }
    }
  }
}
pub proof fn lem_via_c(a: Bounds, b: Bounds, c: Bounds, d: Bounds)
  requires xb(a), xb(b), xb(c), ble(a, b), ble(badd(b, c), d) ensures ble(badd(a, c), d)
{}
pub proof fn lem_via_d(a: Bounds, b: Bounds, c: Bounds, d: Bounds)
  requires xb(a), xb(b), xb(c), ble(a, b), ble(badd(c, b), d) ensures ble(badd(c, a), d)
{}
/// scalar core: a >= p_ih, b >= p_ht + q_tj
pub proof fn lem_vs1(qij: Bounds, qit: Bounds, qtj: Bounds, pit: Bounds, pih: Bounds, pht: Bounds, a: Bounds, b: Bounds)
  requires xb(qij), xb(qit), xb(qtj), xb(pit), xb(pih), xb(pht), xb(a), xb(b), ble(pih, a), ble(badd(pht, qtj), b), ble(pit, badd(pih, pht)), ble(qit, pit), ble(qij, badd(qit, qtj))
  ensures ble(qij, badd(a, b))
{
  lem_badd_mono(pht, qtj, pht, qtj); lem_badd_mono(pih, badd(pht, qtj), a, b); lem_badd_assoc(pih, pht, qtj);
  lem_badd_mono(pih, pht, pih, pht); lem_badd_mono(qit, qtj, badd(pih, pht), qtj);
}
pub proof fn lem_vs2(qij: Bounds, qix: Bounds, qxj: Bounds, pxj: Bounds, pxh: Bounds, phj: Bounds, a: Bounds, b: Bounds)
  requires xb(qij), xb(qix), xb(qxj), xb(pxj), xb(pxh), xb(phj), xb(a), xb(b), ble(badd(qix, pxh), a), ble(phj, b), ble(pxj, badd(pxh, phj)), ble(qxj, pxj), ble(qij, badd(qix, qxj))
  ensures ble(qij, badd(a, b))
{
  lem_badd_mono(qix, pxh, qix, pxh); lem_badd_mono(badd(qix, pxh), phj, a, b); lem_badd_assoc(qix, pxh, phj);
  lem_badd_mono(pxh, phj, pxh, phj); lem_badd_mono(qix, qxj, qix, badd(pxh, phj));
}
pub proof fn lem_vs3(qij: Bounds, qix: Bounds, qxt: Bounds, qtj: Bounds, qxj: Bounds, pxt: Bounds, pxh: Bounds, pht: Bounds, a: Bounds, b: Bounds)
  requires xb(qij), xb(qix), xb(qxt), xb(qtj), xb(qxj), xb(pxt), xb(pxh), xb(pht), xb(a), xb(b), ble(badd(qix, pxh), a), ble(badd(pht, qtj), b), ble(pxt, badd(pxh, pht)), ble(qxt, pxt), ble(qxj, badd(qxt, qtj)), ble(qij, badd(qix, qxj))
  ensures ble(qij, badd(a, b))
{
  lem_badd_mono(pxh, pht, pxh, pht); lem_badd_mono(pht, qtj, pht, qtj); lem_badd_mono(pxh, badd(pht, qtj), pxh, b);
  lem_badd_assoc(pxh, pht, qtj); lem_badd_mono(qxt, qtj, badd(pxh, pht), qtj);
  lem_badd_mono(qix, qxj, qix, badd(pxh, b));
  lem_badd_assoc(qix, pxh, b); lem_badd_mono(qix, pxh, qix, pxh); lem_badd_mono(badd(qix, pxh), b, a, b);
}
pub proof fn lem_nb_close1(p: Mat, q: Mat, k: int)
  requires nbm(p), p.rows == p.cols, 0 <= k < p.rows, is_close1(p, q, k) ensures nbm(q)
{
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies nb(#[trigger] q.at(i, j)) by { assert(nb(p.at(i, j)) && nb(p.at(i, k)) && nb(p.at(k, j))); }
}
pub proof fn lem_cget(p: Mat, q: Mat, i: int, h: int, j: int)
  requires closed_d(p), le_mat(q, p), nbm(p), nbm(q), wf(p), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows
  ensures ble(p.at(i, j), badd(p.at(i, h), p.at(h, j))), ble(q.at(i, j), p.at(i, j)), nb(p.at(i, j)), nb(q.at(i, j))
{ let _ = (p.at(i, j), p.at(i, h), p.at(h, j)); }
pub proof fn lem_qget(q: Mat, s: Seq<int>, k: int, i: int, j: int)
  requires closed_on(q, s, s.len() as int), wf(q), 0 <= k < s.len(), 0 <= i < q.rows, 0 <= j < q.rows, nbm(q), in_rng(s, q.rows)
  ensures ble(q.at(i, j), badd(q.at(i, s[k]), q.at(s[k], j))), nb(q.at(i, j)), nb(q.at(i, s[k])), nb(q.at(s[k], j)), 0 <= s[k] < q.rows
{ assert(closed_at(q, s[k])); let _ = q.at(i, j); }
#[verifier::spinoff_prover]
pub proof fn lem_vc0(p: Mat, q: Mat, s: Seq<int>, i: int, j: int, h: int)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, ble(p.at(i, h), q.at(i, h)), ble(p.at(h, j), q.at(h, j))
  ensures ble(q.at(i, j), badd(q.at(i, h), q.at(h, j)))
{ lem_cget(p, q, i, h, j); lem_cget(p, q, i, i, h); lem_cget(p, q, h, h, j); lem_badd_mono(p.at(i, h), p.at(h, j), q.at(i, h), q.at(h, j)); }
#[verifier::spinoff_prover]
pub proof fn lem_vc1(p: Mat, q: Mat, s: Seq<int>, i: int, j: int, h: int, k: int)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, ble(p.at(i, h), q.at(i, h)), 0 <= k < s.len(), ble(badd(p.at(h, s[k]), q.at(s[k], j)), q.at(h, j))
  ensures ble(q.at(i, j), badd(q.at(i, h), q.at(h, j)))
{
  let t = s[k];
  lem_qget(q, s, k, i, j);
  lem_cget(p, q, i, h, t); lem_cget(p, q, i, i, h); lem_cget(p, q, h, h, t); lem_cget(p, q, h, h, j);
  lem_vs1(q.at(i, j), q.at(i, t), q.at(t, j), p.at(i, t), p.at(i, h), p.at(h, t), q.at(i, h), q.at(h, j));
}
#[verifier::spinoff_prover]
pub proof fn lem_vc2(p: Mat, q: Mat, s: Seq<int>, i: int, j: int, h: int, e: int)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, ble(p.at(h, j), q.at(h, j)), 0 <= e < s.len(), ble(badd(q.at(i, s[e]), p.at(s[e], h)), q.at(i, h))
  ensures ble(q.at(i, j), badd(q.at(i, h), q.at(h, j)))
{
  let x = s[e];
  lem_qget(q, s, e, i, j);
  lem_cget(p, q, x, h, j); lem_cget(p, q, x, x, h); lem_cget(p, q, h, h, j); lem_cget(p, q, i, i, h);
  lem_vs2(q.at(i, j), q.at(i, x), q.at(x, j), p.at(x, j), p.at(x, h), p.at(h, j), q.at(i, h), q.at(h, j));
}
#[verifier::spinoff_prover]
pub proof fn lem_vc3(p: Mat, q: Mat, s: Seq<int>, i: int, j: int, h: int, e: int, k: int)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, 0 <= e < s.len(), ble(badd(q.at(i, s[e]), p.at(s[e], h)), q.at(i, h)), 0 <= k < s.len(), ble(badd(p.at(h, s[k]), q.at(s[k], j)), q.at(h, j))
  ensures ble(q.at(i, j), badd(q.at(i, h), q.at(h, j)))
{
  let x = s[e]; let t = s[k];
  lem_qget(q, s, e, i, j); lem_qget(q, s, k, x, j);
  lem_cget(p, q, x, h, t); lem_cget(p, q, x, x, h); lem_cget(p, q, h, h, t); lem_cget(p, q, i, i, h); lem_cget(p, q, h, h, j);
  lem_vs3(q.at(i, j), q.at(i, x), q.at(x, t), q.at(t, j), q.at(x, j), p.at(x, t), p.at(x, h), p.at(h, t), q.at(i, h), q.at(h, j));
}
pub proof fn lem_vc(p: Mat, q: Mat, s: Seq<int>, i: int, j: int, h: int)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, !s.contains(h), vias(p, q, s)
  ensures ble(q.at(i, j), badd(q.at(i, h), q.at(h, j)))
{
  assert(tij(i, h) && tij(j, h)); assert(via(p, q, s, i, h) && rvia(p, q, s, h, j));
  if ble(p.at(i, h), q.at(i, h)) {
    if ble(p.at(h, j), q.at(h, j)) { lem_vc0(p, q, s, i, j, h); }
    else {
      let k = choose|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], j)), q.at(h, j));
      lem_vc1(p, q, s, i, j, h, k);
    }
  } else {
    let e = choose|k: int| 0 <= k < s.len() && ble(badd(q.at(i, #[trigger] s[k]), p.at(s[k], h)), q.at(i, h));
    if ble(p.at(h, j), q.at(h, j)) { lem_vc2(p, q, s, i, j, h, e); }
    else {
      let k = choose|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], j)), q.at(h, j));
      lem_vc3(p, q, s, i, j, h, e, k);
    }
  }
}
pub proof fn lem_via_closed_d(p: Mat, q: Mat, s: Seq<int>)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed_d(p), le_mat(q, p), closed_on(q, s, s.len() as int), vias(p, q, s)
  ensures closed_d(q)
{
  assert forall|i: int, j: int, h: int| 0 <= i < q.rows && 0 <= j < q.cols && 0 <= h < q.rows implies ble(#[trigger] q.at(i, j), badd(#[trigger] q.at(i, h), #[trigger] q.at(h, j))) by {
    if s.contains(h) { let k = choose|k: int| 0 <= k < s.len() && s[k] == h; lem_qget(q, s, k, i, j); }
    else { lem_vc(p, q, s, i, j, h); }
  }
}
pub proof fn lem_zdiag(m: Mat) -> (n: Mat)
  requires wf(m), nbm(m), diag_ok(m)
  ensures zdiag(m, n), wf(n), nbm(n), le_mat(n, m), diag_ok(n), closed(m) ==> closed_d(n), closed_d(n) ==> closed(m)
{
  let n = Mat { rows: m.rows, cols: m.cols, f: |i: int, j: int| dz(m, i, j) };
  assert(zdiag(m, n));
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies nb(#[trigger] n.at(i, j)) && ble(n.at(i, j), m.at(i, j)) by { assert(nb(m.at(i, j))); if i == j { assert(ble(bz(), m.at(i, i))); } }
  assert forall|i: int, j: int| 0 <= i < n.rows && 0 <= j < n.cols implies ble(#[trigger] n.at(i, j), m.at(i, j)) by { }
  if closed(m) {
    assert forall|i: int, j: int, h: int| 0 <= i < n.rows && 0 <= j < n.cols && 0 <= h < n.rows implies ble(#[trigger] n.at(i, j), badd(#[trigger] n.at(i, h), #[trigger] n.at(h, j))) by {
      assert(nb(m.at(i, j)) && nb(m.at(i, h)) && nb(m.at(h, j)));
      assert(ble(dz(m, i, j), badd(m.at(i, h), m.at(h, j))));
    }
  }
  if closed_d(n) {
    assert forall|i: int, j: int, h: int| #![trigger m.at(i, j), m.at(i, h), m.at(h, j)] #![trigger dz(m, i, j), m.at(i, h), m.at(h, j)] 0 <= i < m.rows && 0 <= j < m.cols && 0 <= h < m.rows implies ble(dz(m, i, j), badd(m.at(i, h), m.at(h, j))) by {
      assert(nb(m.at(i, j)) && nb(m.at(i, h)) && nb(m.at(h, j)));
      assert(ble(n.at(i, j), badd(n.at(i, h), n.at(h, j))));
      assert(ble(n.at(i, h), m.at(i, h)) && ble(n.at(h, j), m.at(h, j)));
      lem_badd_mono(n.at(i, h), n.at(h, j), m.at(i, h), m.at(h, j));
    }
  }
  n
}
pub proof fn lem_zdiag_at(q: Mat, b: Mat, h: int)
  requires wf(q), nbm(q), diag_ok(q), zdiag(q, b), closed_at(q, h), 0 <= h < q.rows
  ensures closed_at(b, h)
{
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies ble(#[trigger] b.at(i, j), badd(b.at(i, h), b.at(h, j))) by {
    assert(ble(q.at(i, j), badd(q.at(i, h), q.at(h, j))));
    assert(nb(q.at(i, j)) && nb(q.at(i, h)) && nb(q.at(h, j)));
    assert(ble(bz(), q.at(i, i)));
    assert(b.at(i, h) == dz(q, i, h) && b.at(h, j) == dz(q, h, j));
  }
}
#[verifier::spinoff_prover]
pub proof fn lem_zdiag_via(p: Mat, q: Mat, a: Mat, b: Mat, s: Seq<int>, i: int, h: int)
  requires wf(p), wf(q), nbm(p), nbm(q), nbm(a), nbm(b), p.rows == q.rows, in_rng(s, p.rows), diag_ok(p), diag_ok(q), zdiag(p, a), zdiag(q, b), le_mat(a, p), le_mat(b, q), 0 <= i < p.rows, 0 <= h < p.rows, (via(p, q, s, i, h)), rvia(p, q, s, h, i)
  ensures (via(a, b, s, i, h)), rvia(a, b, s, h, i)
{
    assert(b.at(i, h) == dz(q, i, h) && b.at(h, i) == dz(q, h, i) && a.at(i, h) == dz(p, i, h) && a.at(h, i) == dz(p, h, i));
    if i != h {
      if !ble(p.at(i, h), q.at(i, h)) {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(q.at(i, #[trigger] s[k]), p.at(s[k], h)), q.at(i, h));
        let t = s[k];
        assert(nb(q.at(i, t)) && nb(p.at(t, h)) && nb(b.at(i, t)) && nb(a.at(t, h)) && nb(q.at(i, h)));
        assert(ble(b.at(i, t), q.at(i, t)) && ble(a.at(t, h), p.at(t, h)));
        lem_badd_mono(b.at(i, t), a.at(t, h), q.at(i, t), p.at(t, h));
        assert(ble(badd(b.at(i, s[k]), a.at(s[k], h)), b.at(i, h)));
      }
      if !ble(p.at(h, i), q.at(h, i)) {
        let k = choose|k: int| 0 <= k < s.len() && ble(badd(p.at(h, #[trigger] s[k]), q.at(s[k], i)), q.at(h, i));
        let t = s[k];
        assert(nb(p.at(h, t)) && nb(q.at(t, i)) && nb(a.at(h, t)) && nb(b.at(t, i)) && nb(q.at(h, i)));
        assert(ble(a.at(h, t), p.at(h, t)) && ble(b.at(t, i), q.at(t, i)));
        lem_badd_mono(a.at(h, t), b.at(t, i), p.at(h, t), q.at(t, i));
        assert(ble(badd(a.at(h, s[k]), b.at(s[k], i)), b.at(h, i)));
      }
    }
}
pub proof fn lem_via_closed(p: Mat, q: Mat, s: Seq<int>)
  requires wf(p), wf(q), nbm(p), nbm(q), p.rows == q.rows, in_rng(s, p.rows), closed(p), le_mat(q, p), closed_on(q, s, s.len() as int), vias(p, q, s), diag_ok(q)
  ensures closed(q)
{
  lem_le_diag(q, p);
  let a = lem_zdiag(p); let b = lem_zdiag(q);
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies ble(#[trigger] b.at(i, j), a.at(i, j)) by { assert(ble(q.at(i, j), p.at(i, j))); }
  assert forall|k: int| 0 <= k < s.len() implies closed_at(b, #[trigger] s[k]) by { assert(closed_at(q, s[k])); lem_zdiag_at(q, b, s[k]); }
  assert forall|i: int, h: int| 0 <= i < a.rows && 0 <= h < a.rows && !s.contains(h) && #[trigger] tij(i, h) implies via(a, b, s, i, h) && rvia(a, b, s, h, i) by {
    lem_zdiag_via(p, q, a, b, s, i, h);
  }
  lem_via_closed_d(a, b, s);
}
// ---- renamings
pub open spec fn ren_ok(r: Seq<Pair<int, int>>, l: int, n: int, rows: int) -> bool { forall|k: int| 0 <= k < r.len() ==> 0 <= (#[trigger] r[k]).first < l && 0 <= r[k].second < n && r[k].second + l + 1 < rows }
pub open spec fn ren_sat(r: Seq<Pair<int, int>>, l: int, n: int, v: spec_fn(int) -> real) -> bool { forall|k: int| 0 <= k < n ==> v((#[trigger] r[k]).first + 1) == v(r[k].second + l + 1) }
/// one renaming equation: both entries are lowered to zero
pub proof fn lem_ren_step(p: Mat, q: Mat, x: int, y: int)
  requires wf(p), q.rows == p.rows, q.cols == p.rows, 0 <= x < p.rows, 0 <= y < p.rows, x != y,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows ==> #[trigger] q.at(i, j) == (if (i == x && j == y) || (i == y && j == x) { bmin(p.at(i, j), bz()) } else { p.at(i, j) }),
  ensures wf(q), le_mat(q, p), forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(p, v) && v(x) == v(y))
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(p, v) && v(x) == v(y)) by {
    assert(okb(p.at(x, y)) && okb(p.at(y, x)));
    if sat(q, v) {
      assert(bsat(q.at(x, y), v(x) - v(y)) && bsat(q.at(y, x), v(y) - v(x)));
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
    }
    if sat(p, v) && v(x) == v(y) {
      assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), v(i) - v(j))); }
    }
  }
}
pub proof fn lem_nbm(m: Mat)
  requires canonical(m) ensures nbm(m)
{ lem_diag_off(m); assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies nb(#[trigger] m.at(i, j)) by {} }
pub proof fn lem_push2(s: Seq<int>, t: Seq<int>, x: int, y: int)
  requires t == s.push(x).push(y)
  ensures t.contains(x), t.contains(y), forall|i: int| #[trigger] s.contains(i) ==> t.contains(i)
{
  assert(t[s.len() as int] == x); assert(t[s.len() as int + 1] == y);
  assert forall|i: int| #[trigger] s.contains(i) implies t.contains(i) by { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(t[k] == i); }
}
pub proof fn lem_ren_nbm(p: Mat, q: Mat)
  requires nbm(p), wf(q), p.rows == q.rows, p.cols == q.cols, forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows ==> #[trigger] q.at(i, j) == p.at(i, j) || q.at(i, j) == bmin(p.at(i, j), bz())
  ensures nbm(q)
{ assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies nb(#[trigger] q.at(i, j)) by { assert(nb(p.at(i, j))); } }
pub proof fn lem_ren_sat(r: Seq<Pair<int, int>>, l: int, n: int, v: spec_fn(int) -> real)
  requires 1 <= n <= r.len()
  ensures ren_sat(r, l, n, v) == (ren_sat(r, l, n - 1, v) && v(r[n - 1].first + 1) == v(r[n - 1].second + l + 1))
{ let _ = r[n - 1]; if ren_sat(r, l, n - 1, v) && v(r[n - 1].first + 1) == v(r[n - 1].second + l + 1) { assert forall|k: int| 0 <= k < n implies v((#[trigger] r[k]).first + 1) == v(r[k].second + l + 1) by { if k < n - 1 {} } } }
pub proof fn lem_via_init(p: Mat, q: Mat, s: Seq<int>)
  requires wf(p), wf(q), p.rows == q.rows, forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.rows && #[trigger] q.at(i, j) != p.at(i, j) ==> s.contains(i) && s.contains(j)
  ensures vias(p, q, s)
{
  assert forall|i: int, h: int| 0 <= i < p.rows && 0 <= h < p.rows && !s.contains(h) && #[trigger] tij(i, h) implies via(p, q, s, i, h) && rvia(p, q, s, h, i) by { let _ = (q.at(i, h), q.at(h, i)); }
}
pub proof fn lem_ren_close(p: Mat, q: Mat, r: Mat, s: Seq<int>, n: int)
  requires canonical(p), wf(q), wf(r), nbm(p), p.rows == q.rows, q.rows == r.rows, in_rng(s, p.rows), 1 <= n <= s.len(), le_mat(q, p), le_mat(r, q),
    ble(bz(), q.at(s[n - 1], s[n - 1])) ==> is_close1(q, r, s[n - 1]), diag_ok(q) ==> nbm(q) && vias(p, q, s) && closed_on(q, s, n - 1)
  ensures diag_ok(r) ==> nbm(r) && vias(p, r, s) && closed_on(r, s, n)
{
  if diag_ok(r) {
    lem_le_diag(r, q);
    let x = s[n - 1];
    assert(ble(bz(), q.at(x, x)));
    lem_nb_close1(q, r, x);
    lem_via_step(p, q, r, s, n - 1);
    lem_close_first(q, r, x);
    assert forall|k: int| 0 <= k < n implies closed_at(r, #[trigger] s[k]) by { if k < n - 1 { lem_close_at(q, r, x, s[k]); } }
  }
}
pub open spec fn eqpair(m: Mat, ls: int, l: int, r: int) -> bool { m.at(l + 1, r + ls + 1) == bz() && m.at(r + ls + 1, l + 1) == bz() }
/// the two variables are equal in every solution
pub open spec fn eqforced(m: Mat, x: int, y: int) -> bool { forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> v(x) == v(y) }
pub proof fn lem_eqforced(m: Mat, x: int, y: int)
  requires canonical(m), 0 <= x < m.rows, 0 <= y < m.rows, x != y
  ensures eqforced(m, x, y) == (m.at(x, y) == bz() && m.at(y, x) == bz())
{
  lem_diag_off(m);
  let a = m.at(x, y); let b = m.at(y, x);
  assert(okb(a) && okb(b));
  assert(ble(dz(m, x, x), badd(a, b)));
  if eqforced(m, x, y) {
    if blt(bz(), a) { lem_tight_entry(m, bz(), x, y); let v = choose|v: spec_fn(int) -> real| sat(m, v) && !bsat(bz(), v(x) - v(y)); assert(sat(m, v)); }
    if blt(bz(), b) { lem_tight_entry(m, bz(), y, x); let v = choose|v: spec_fn(int) -> real| sat(m, v) && !bsat(bz(), v(y) - v(x)); assert(sat(m, v)); }
    assert(ble(a, bz()) && ble(b, bz()));
    assert(a == bz() && b == bz());
  }
  if a == bz() && b == bz() {
    assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies v(x) == v(y) by { assert(bsat(m.at(x, y), v(x) - v(y)) && bsat(m.at(y, x), v(y) - v(x))); }
  }
}
/// w is the right part of some solution
pub open spec fn rv(v: spec_fn(int) -> real, ls: int) -> spec_fn(int) -> real { |i: int| if i == 0 { v(0) } else { v(i + ls) } }
pub open spec fn right_part(m: Mat, ls: int, w: spec_fn(int) -> real) -> bool { exists|v: spec_fn(int) -> real| #[trigger] sat(m, v) && agree(rv(v, ls), w, m.rows - ls) }
pub open spec fn lw(w: spec_fn(int) -> real, ls: int) -> spec_fn(int) -> real { |i: int| if i == 0 { w(0) } else { w(i - ls) } }
pub open spec fn ridx(ls: int, i: int) -> int { if i == 0 { 0 } else { i + ls } }
pub proof fn lem_right(m: Mat, q: Mat, ls: int)
  requires wf(m), 0 <= ls < m.rows, q.rows == m.rows - ls, q.cols == q.rows, 
    forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.rows ==> #[trigger] q.at(i, j) == (if i == 0 && j == 0 { binf() } else { m.at(ridx(ls, i), ridx(ls, j)) })
  ensures wf(q), canonical(m) ==> nonempty(q) && forall|w: spec_fn(int) -> real| #[trigger] sat(q, w) == right_part(m, ls, w)
{
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies okb(#[trigger] q.at(i, j)) by { let _ = m.at(ridx(ls, i), ridx(ls, j)); }
  if canonical(m) {
    lem_nonempty(m);
    assert forall|w: spec_fn(int) -> real| #[trigger] sat(q, w) == right_part(m, ls, w) by {
      if right_part(m, ls, w) {
        let v = choose|v: spec_fn(int) -> real| #[trigger] sat(m, v) && agree(rv(v, ls), w, m.rows - ls);
        lem_right1(m, q, ls, v, w);
      }
      if sat(q, w) {
        let v0 = lw(w, ls);
        let s0 = |i: int| i == 0 || i > ls;
        assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s0(i) && s0(j) implies bsat(#[trigger] m.at(i, j), v0(i) - v0(j)) by {
          let a = if i == 0 { 0int } else { i - ls }; let b = if j == 0 { 0int } else { j - ls };
          assert(ridx(ls, a) == i && ridx(ls, b) == j);
          assert(bsat(q.at(a, b), w(a) - w(b)));
          assert(ble(bz(), m.at(0, 0)));
        }
        let v = lem_extend_all(m, v0, s0, 0);
        assert forall|i: int| 0 <= i < m.rows - ls implies #[trigger] rv(v, ls)(i) == w(i) by { assert(s0(ridx(ls, i))); }
        assert(sat(m, v) && agree(rv(v, ls), w, m.rows - ls));
      }
    }
    let v = choose|v: spec_fn(int) -> real| sat(m, v);
    assert(agree(rv(v, ls), rv(v, ls), m.rows - ls));
    lem_right1(m, q, ls, v, rv(v, ls));
  }
}
pub proof fn lem_right1(m: Mat, q: Mat, ls: int, v: spec_fn(int) -> real, w: spec_fn(int) -> real)
  requires wf(m), 0 <= ls < m.rows, q.rows == m.rows - ls, q.cols == q.rows, sat(m, v), agree(rv(v, ls), w, m.rows - ls),
    forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.rows ==> #[trigger] q.at(i, j) == (if i == 0 && j == 0 { binf() } else { m.at(ridx(ls, i), ridx(ls, j)) })
  ensures sat(q, w)
{
  assert forall|i: int, j: int| 0 <= i < q.rows && 0 <= j < q.cols implies bsat(#[trigger] q.at(i, j), w(i) - w(j)) by {
    let a = ridx(ls, i); let b = ridx(ls, j);
    assert(rv(v, ls)(i) == w(i) && rv(v, ls)(j) == w(j));
    assert(v(a) == w(i) && v(b) == w(j));
    assert(bsat(m.at(a, b), v(a) - v(b)));
  }
}
