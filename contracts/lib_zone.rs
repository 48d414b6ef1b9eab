// difference bound matrices
pub open spec fn wf(m: Mat) -> bool { m.rows == m.cols && 1 <= m.rows <= 256 && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> okb(#[trigger] m.at(i, j)) }
/// the valuation v (v(0) is the constant zero) satisfies every constraint
pub open spec fn sat(m: Mat, v: spec_fn(int) -> real) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)) }
pub open spec fn same_sols(m: Mat, n: Mat) -> bool { m.rows == n.rows && m.cols == n.cols && forall|v: spec_fn(int) -> real| #![trigger sat(m, v)] #![trigger sat(n, v)] sat(m, v) == sat(n, v) }
pub open spec fn le_mat(m: Mat, n: Mat) -> bool { m.rows == n.rows && m.cols == n.cols && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> ble(#[trigger] m.at(i, j), n.at(i, j)) }
pub open spec fn eq_mat(m: Mat, n: Mat) -> bool { m.rows == n.rows && m.cols == n.cols && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> #[trigger] m.at(i, j) == n.at(i, j) }
pub open spec fn diag_ok(m: Mat) -> bool { forall|i: int| 0 <= i < m.rows ==> ble(bz(), #[trigger] m.at(i, i)) }
/// the entry with the diagonal read as zero (its values do not matter as long as they are not negative)
pub open spec fn dz(p: Mat, i: int, j: int) -> Bounds { if i == j { bz() } else { p.at(i, j) } }
pub open spec fn closed_upto(m: Mat, k: int) -> bool { forall|i: int, j: int, h: int| #![trigger m.at(i, j), m.at(i, h), m.at(h, j)] #![trigger dz(m, i, j), m.at(i, h), m.at(h, j)] 0 <= i < m.rows && 0 <= j < m.cols && 0 <= h < k ==> ble(dz(m, i, j), badd(m.at(i, h), m.at(h, j))) }
pub open spec fn closed(m: Mat) -> bool { closed_upto(m, m.rows) }
pub open spec fn is_close1(p: Mat, q: Mat, k: int) -> bool {
    p.rows == q.rows && p.cols == q.cols && forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.cols ==> #[trigger] q.at(a,b) == bmin(p.at(a,b), badd(p.at(a,k), p.at(k,b)))
}
pub proof fn lem_close_step(p: Mat, q: Mat, k: int)
  requires wf(p), wf(q), 0 <= k < p.rows, diag_ok(q), diag_ok(p), closed_upto(p, k), is_close1(p, q, k)
  ensures closed_upto(q, k + 1)
{
  assert forall|i: int, j: int, h: int| #![trigger q.at(i, j), q.at(i, h), q.at(h, j)] #![trigger dz(q, i, j), q.at(i, h), q.at(h, j)] 0 <= i < q.rows && 0 <= j < q.cols && 0 <= h < k + 1 implies ble(dz(q, i, j), badd(q.at(i, h), q.at(h, j))) by {
    lem_close3(p, q, k, i, j, h);
  }
}
pub proof fn lem_close3(p: Mat, q: Mat, k: int, i: int, j: int, h: int)
  requires wf(p), wf(q), 0 <= k < p.rows, diag_ok(q), diag_ok(p), closed_upto(p, k), is_close1(p, q, k), 0 <= i < q.rows, 0 <= j < q.cols, 0 <= h < k + 1
  ensures ble(dz(q, i, j), badd(q.at(i, h), q.at(h, j)))
{
  assert(ble(bz(), p.at(k,k)) && ble(bz(), q.at(h,h)) && ble(bz(), p.at(h,h)) && ble(bz(), q.at(i,i)) && ble(bz(), p.at(i,i)) && ble(bz(), p.at(j, j)));
  assert(okb(p.at(i,j)) && okb(p.at(i,k)) && okb(p.at(k,j)) && okb(p.at(i,h)) && okb(p.at(h,j)) && okb(p.at(k,h)) && okb(p.at(h,k)) && okb(p.at(k,k)) && okb(q.at(i,j)) && okb(q.at(i, h)) && okb(q.at(h, j)) && okb(p.at(k, i)));
  assert(q.at(i, j) == bmin(p.at(i, j), badd(p.at(i, k), p.at(k, j))));
  assert(q.at(i, h) == bmin(p.at(i, h), badd(p.at(i, k), p.at(k, h))));
  assert(q.at(h, j) == bmin(p.at(h, j), badd(p.at(h, k), p.at(k, j))));
  assert(q.at(i, i) == bmin(p.at(i, i), badd(p.at(i, k), p.at(k, i))));
  if h == i || h == j { }
  else if h < k {
    assert(ble(dz(p, i, j), badd(p.at(i,h), p.at(h,j))));
    assert(ble(dz(p, k, j), badd(p.at(k,h), p.at(h,j))));
    assert(ble(dz(p, i, k), badd(p.at(i,h), p.at(h,k))));
    assert(ble(dz(p, k, k), badd(p.at(k,h), p.at(h,k))));
    if i == j {
      lem_close_diag(p.at(i, k), p.at(k, i), p.at(i, h), p.at(h, i), p.at(k, h), p.at(h, k), p.at(k, k), i == k);
    } else {
      lem_close_off(p.at(i, j), p.at(i, k), p.at(k, j), p.at(i, h), p.at(h, j), p.at(k, h), p.at(h, k), i == k, j == k);
    }
  } else { assert(h == k); lem_close_k(p.at(i, j), p.at(i, k), p.at(k, j), p.at(k, k)); if i == j { lem_close_kk(p.at(i, k), p.at(k, i), p.at(k, k)); } }
}
pub proof fn lem_close_k(ij: Bounds, ik: Bounds, kj: Bounds, kk: Bounds)
  requires okb(ij), okb(ik), okb(kj), okb(kk), ble(bz(), kk)
  ensures ble(bmin(ij, badd(ik, kj)), badd(bmin(ik, badd(ik, kk)), bmin(kj, badd(kk, kj))))
{}
pub proof fn lem_close_kk(ik: Bounds, ki: Bounds, kk: Bounds)
  requires okb(ik), okb(ki), okb(kk), ble(bz(), kk), ble(bz(), badd(ik, ki))
  ensures ble(bz(), badd(bmin(ik, badd(ik, kk)), bmin(ki, badd(kk, ki))))
{}
pub proof fn lem_close_diag(ik: Bounds, ki: Bounds, ih: Bounds, hi: Bounds, kh: Bounds, hk: Bounds, kk: Bounds, e: bool)
  requires okb(ik), okb(ki), okb(ih), okb(hi), okb(kh), okb(hk), okb(kk), ble(bz(), kk), ble(bz(), badd(ih, hi)), ble(bz(), badd(kh, hk)), ble(bz(), badd(ik, ki)),
    e ==> ik == kk && ki == kk && ih == kh && hi == hk, !e ==> ble(ki, badd(kh, hi)) && ble(ik, badd(ih, hk))
  ensures ble(bz(), badd(bmin(ih, badd(ik, kh)), bmin(hi, badd(hk, ki))))
{}
pub proof fn lem_close_off(ij: Bounds, ik: Bounds, kj: Bounds, ih: Bounds, hj: Bounds, kh: Bounds, hk: Bounds, ei: bool, ej: bool)
  requires okb(ij), okb(ik), okb(kj), okb(ih), okb(hj), okb(kh), okb(hk), ble(ij, badd(ih, hj)), ble(bz(), badd(kh, hk)),
    !(ei && ej), ei ==> ij == kj && ih == kh && ble(bz(), ik), ej ==> ij == ik && hj == hk && ble(bz(), kj),
    !ei ==> ble(ik, badd(ih, hk)), !ej ==> ble(kj, badd(kh, hj))
  ensures ble(bmin(ij, badd(ik, kj)), badd(bmin(ih, badd(ik, kh)), bmin(hj, badd(hk, kj))))
{}
/// adding the two upper bounds of a path is sound
pub proof fn lem_bsat_add(a: Bounds, b: Bounds, x: real, y: real)
  requires okb(a), okb(b), bsat(a, x), bsat(b, y)
  ensures bsat(badd(a, b), x + y)
{}
pub proof fn lem_bsat_min(a: Bounds, b: Bounds, x: real)
  requires okb(a), okb(b) || b.first is Inf
  ensures bsat(bmin(a, b), x) == (bsat(a, x) && bsat(b, x))
{}
/// one row of close1 keeps the solutions
pub proof fn lem_close_row(p: Mat, q: Mat, i: int, x: int)
  requires wf(p), q.rows == p.rows, q.cols == p.cols, 0 <= i < p.rows, 0 <= x < p.rows,
    forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.cols ==> #[trigger] q.at(a,b) == (if a == i { bmin(p.at(i,b), badd(p.at(x,b), p.at(i,x))) } else { p.at(a,b) }),
  ensures wf(q), same_sols(p, q), le_mat(q, p)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(p, v) == sat(q, v) by {
    if sat(p, v) {
      assert forall|a: int, b: int| 0 <= a < q.rows && 0 <= b < q.cols implies bsat(#[trigger] q.at(a, b), v(a) - v(b)) by {
        assert(bsat(p.at(a, b), v(a) - v(b)));
        assert(bsat(p.at(i, x), v(i) - v(x)));
        assert(bsat(p.at(x, b), v(x) - v(b)));
        assert(okb(p.at(a, b)) && okb(p.at(i, x)) && okb(p.at(x, b)));
        assert(v(x) - v(b) + (v(i) - v(x)) == v(i) - v(b));
      }
    }
    if sat(q, v) {
      assert forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.cols implies bsat(#[trigger] p.at(a, b), v(a) - v(b)) by {
        assert(bsat(q.at(a, b), v(a) - v(b)));
        assert(okb(p.at(a, b)));
      }
    }
  }
}
pub proof fn lem_sat_diag(m: Mat, v: spec_fn(int) -> real)
  requires wf(m), sat(m, v)
  ensures diag_ok(m)
{
  assert forall|i: int| 0 <= i < m.rows implies ble(bz(), #[trigger] m.at(i, i)) by { assert(bsat(m.at(i, i), v(i) - v(i))); }
}
// ---- every closed zone is non-empty: partial valuations extend
pub open spec fn satk(m: Mat, v: spec_fn(int) -> real, k: int) -> bool { forall|i: int, j: int| 0 <= i < k && 0 <= j < k ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)) }
pub open spec fn upd(v: spec_fn(int) -> real, x: int, c: real) -> spec_fn(int) -> real { |i: int| if i == x { c } else { v(i) } }
pub open spec fn nonempty(m: Mat) -> bool { exists|v: spec_fn(int) -> real| sat(m, v) }
/// upper bound on c such that c - v(j) satisfies b
pub open spec fn sft(b: Bounds, x: real) -> Bounds { badd(b, bnd(x, true)) }
/// the tightest of the bounds of a set of indices
pub proof fn lem_tight(f: spec_fn(int) -> Bounds, s: spec_fn(int) -> bool, n: int) -> (b: Bounds)
  requires 0 <= n, forall|j: int| 0 <= j < n && s(j) ==> okb(#[trigger] f(j))
  ensures okb(b), b == binf() || exists|j: int| 0 <= j < n && s(j) && #[trigger] f(j) == b,
    forall|j: int| 0 <= j < n && s(j) ==> ble(b, #[trigger] f(j))
  decreases n
{
  if n == 0 { binf() } else {
    let b = lem_tight(f, s, n - 1);
    if s(n - 1) && blt(f(n - 1), b) { f(n - 1) } else { b }
  }
}
/// a value between compatible bounds (u: upper bound of c, l: upper bound of -c)
pub proof fn lem_pick(u: Bounds, l: Bounds) -> (c: real)
  requires okb(u), okb(l), !(u.first is NInf), !(l.first is NInf), ble(bz(), badd(u, l))
  ensures bsat(u, c), bsat(l, -c)
{
  if rk(u.first) == 0 && rk(l.first) == 0 {
    let hi = dv(u.first); let lo = -dv(l.first);
    (hi + lo) / 2real
  } else if rk(u.first) == 0 { dv(u.first) - 1real }
  else if rk(l.first) == 0 { -dv(l.first) + 1real }
  else { 0real }
}
/// the indices in s constrain a value for x; s must be satisfied by v and x itself not in s
pub proof fn lem_extend(m: Mat, v: spec_fn(int) -> real, s: spec_fn(int) -> bool, x: int) -> (c: real)
  requires wf(m), closed(m), diag_ok(m), 0 <= x < m.rows, !s(x),
    forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s(i) && s(j) ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)),
  ensures forall|j: int| 0 <= j < m.rows && s(j) ==> bsat(#[trigger] m.at(x, j), c - v(j)),
    forall|j: int| 0 <= j < m.rows && s(j) ==> bsat(#[trigger] m.at(j, x), v(j) - c),
    bsat(m.at(x, x), 0real),
{
  let f = |j: int| sft(m.at(x, j), v(j));
  let g = |j: int| sft(m.at(j, x), -v(j));
  lem_diag_off(m);
  let u = lem_tight(f, s, m.rows);
  let l = lem_tight(g, s, m.rows);
  assert(ble(bz(), badd(u, l))) by {
    if u != binf() && l != binf() {
      let j = choose|j: int| 0 <= j < m.rows && s(j) && #[trigger] f(j) == u;
      let i = choose|i: int| 0 <= i < m.rows && s(i) && #[trigger] g(i) == l;
      assert(ble(dz(m, i, j), badd(m.at(i, x), m.at(x, j))));
      assert(bsat(m.at(i, j), v(i) - v(j)));
    }
  }
  let c = lem_pick(u, l);
  assert forall|j: int| 0 <= j < m.rows && s(j) implies bsat(#[trigger] m.at(x, j), c - v(j)) by { assert(ble(u, f(j))); }
  assert forall|j: int| 0 <= j < m.rows && s(j) implies bsat(#[trigger] m.at(j, x), v(j) - c) by { assert(ble(l, g(j))); }
  assert(ble(bz(), m.at(x, x)));
  c
}
/// a closed matrix with a non-negative diagonal contains no -infinity
pub proof fn lem_diag_off(m: Mat)
  requires wf(m), closed(m), diag_ok(m)
  ensures forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows ==> !(#[trigger] m.at(i, j).first is NInf)
{
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows implies !(#[trigger] m.at(i, j).first is NInf) by {
    assert(ble(dz(m, i, i), badd(m.at(i, j), m.at(j, i))));
    assert(ble(bz(), m.at(i, i)));
  }
}
pub proof fn lem_sol_upto(m: Mat, k: int) -> (v: spec_fn(int) -> real)
  requires wf(m), closed(m), diag_ok(m), 0 <= k <= m.rows
  ensures satk(m, v, k)
  decreases k
{
  if k == 0 { |i: int| 0real } else {
    let v = lem_sol_upto(m, k - 1);
    let s = |j: int| j < k - 1;
    let c = lem_extend(m, v, s, k - 1);
    let w = upd(v, k - 1, c);
    assert forall|i: int, j: int| 0 <= i < k && 0 <= j < k implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by {
      if i < k - 1 && j < k - 1 { assert(bsat(m.at(i, j), v(i) - v(j))); }
    }
    w
  }
}
pub proof fn lem_nonempty(m: Mat)
  requires wf(m), closed(m), diag_ok(m)
  ensures nonempty(m)
{
  let v = lem_sol_upto(m, m.rows);
  assert(sat(m, v));
}
/// freeing one index of a closed zone: the projection
pub proof fn lem_free(m: Mat, v: spec_fn(int) -> real, x: int) -> (w: spec_fn(int) -> real)
  requires wf(m), closed(m), diag_ok(m), 0 <= x < m.rows,
    forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && i != x && j != x ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)),
  ensures sat(m, w), w == upd(v, x, w(x)),
{
  let s = |j: int| j != x;
  let c = lem_extend(m, v, s, x);
  let w = upd(v, x, c);
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by {
    if i != x && j != x { assert(bsat(m.at(i, j), v(i) - v(j))); }
  }
  assert(w =~= upd(v, x, w(x)));
  w
}
// ---- operations on valuations
/// all clocks are delayed by d  (equivalently: the constant 0 moves back by d)
pub open spec fn delayed(v: spec_fn(int) -> real, d: real) -> spec_fn(int) -> real { |i: int| if i == 0 { v(i) } else { v(i) + d } }
pub open spec fn bsat_sum(u: Bounds, l: Bounds) -> bool { ble(bz(), badd(u, l)) }
/// what normal form means: nothing can be tightened
pub open spec fn canonical(m: Mat) -> bool { wf(m) && closed(m) && diag_ok(m) }
pub open spec fn topm(m: Mat, n: int) -> bool { m.rows == n && m.cols == n && forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] m.at(i, j) == binf() }
pub open spec fn zerom(m: Mat, n: int) -> bool { m.rows == n && m.cols == n && forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] m.at(i, j) == bz() }
pub proof fn lem_and(a: Mat, b: Mat, c: Mat)
  requires wf(a), wf(b), a.rows == b.rows, c.rows == a.rows, c.cols == a.cols,
    forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols ==> #[trigger] c.at(i, j) == bmin(a.at(i, j), b.at(i, j)),
  ensures wf(c), forall|v: spec_fn(int) -> real| #[trigger] sat(c, v) == (sat(a, v) && sat(b, v)), le_mat(c, a), le_mat(c, b),
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(c, v) == (sat(a, v) && sat(b, v)) by {
    assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies (#[trigger] bsat(c.at(i, j), v(i) - v(j))) == (bsat(a.at(i, j), v(i) - v(j)) && bsat(b.at(i, j), v(i) - v(j))) by {
      assert(okb(a.at(i, j)) && okb(b.at(i, j)));
    }
    if sat(c, v) {
      assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies bsat(#[trigger] a.at(i, j), v(i) - v(j)) by { assert(bsat(c.at(i, j), v(i) - v(j))); }
      assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { assert(bsat(c.at(i, j), v(i) - v(j))); }
    }
    if sat(a, v) && sat(b, v) {
      assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies bsat(#[trigger] c.at(i, j), v(i) - v(j)) by { assert(bsat(a.at(i, j), v(i) - v(j))); assert(bsat(b.at(i, j), v(i) - v(j))); }
    }
  }
}
/// one entry is tightened
pub proof fn lem_set_min(p: Mat, q: Mat, x: int, y: int, c: Bounds)
  requires wf(p), okb(c), 0 <= x < p.rows, 0 <= y < p.rows, q.rows == p.rows, q.cols == p.cols,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if i == x && j == y { bmin(p.at(i, j), c) } else { p.at(i, j) }),
  ensures wf(q), le_mat(q, p), forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(p, v) && bsat(c, v(x) - v(y))),
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(p, v) && bsat(c, v(x) - v(y))) by {
    if sat(q, v) {
      assert(bsat(q.at(x, y), v(x) - v(y)));
      assert(okb(p.at(x, y)));
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols implies bsat(#[trigger] p.at(i, j), v(i) - v(j)) by { assert(bsat(q.at(i, j), v(i) - v(j))); }
    }
    if sat(p, v) && bsat(c, v(x) - v(y)) {
      assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols implies bsat(#[trigger] q.at(i, j), v(i) - v(j)) by { assert(bsat(p.at(i, j), v(i) - v(j))); }
    }
  }
}
pub open spec fn tightened(p: Mat, x: int, y: int, c: Bounds, i: int, j: int) -> Bounds { bmin(dz(p, i, j), badd(dz(p, i, x), badd(c, dz(p, y, j)))) }
pub proof fn lem_dz(p: Mat)
  requires canonical(p)
  ensures forall|i: int, j: int, h: int| 0 <= i < p.rows && 0 <= j < p.rows && 0 <= h < p.rows ==> ble(#[trigger] dz(p, i, j), badd(#[trigger] dz(p, i, h), #[trigger] dz(p, h, j))),
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows ==> ble(#[trigger] dz(p, i, j), p.at(i, j)) && !(dz(p, i, j).first is NInf) && okb(dz(p, i, j)),
{
  lem_diag_off(p);
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows implies ble(#[trigger] dz(p, i, j), p.at(i, j)) && !(dz(p, i, j).first is NInf) && okb(dz(p, i, j)) by {
    assert(ble(bz(), p.at(i, i))); let _ = p.at(i, j);
  }
  assert forall|i: int, j: int, h: int| 0 <= i < p.rows && 0 <= j < p.rows && 0 <= h < p.rows implies ble(#[trigger] dz(p, i, j), badd(#[trigger] dz(p, i, h), #[trigger] dz(p, h, j))) by {
    assert(ble(dz(p, i, j), badd(p.at(i, h), p.at(h, j))));
    assert(ble(dz(p, i, i), badd(p.at(i, h), p.at(h, i))));
    assert(ble(bz(), p.at(i, i)));
    assert(ble(bz(), badd(p.at(i, h), p.at(h, i))));
  }
}
/// closing a closed matrix after one tightened entry needs the two affected indices only
pub proof fn lem_tighten_closed(p: Mat, q: Mat, a: Mat, b: Mat, x: int, y: int, c: Bounds)
  requires canonical(p), okb(c), 0 <= x < p.rows, 0 <= y < p.rows, wf(q), wf(a), wf(b), q.rows == p.rows, q.cols == p.cols,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if i == x && j == y { bmin(p.at(i, j), c) } else { p.at(i, j) }),
    diag_ok(q), is_close1(q, a, x), diag_ok(a), is_close1(a, b, y), diag_ok(b),
  ensures closed(b),
{
  lem_dz(p);
  lem_tc0(p, q, a, b, x, y, c);
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j implies #[trigger] a.at(i, j) == (if j == y { bmin(p.at(i, y), badd(dz(p, i, x), c)) } else { p.at(i, j) }) by {
    lem_tc1(p, q, a, x, y, c, i, j);
  }
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j implies #[trigger] b.at(i, j) == tightened(p, x, y, c, i, j) by {
    lem_tc2(p, a, b, x, y, c, i, j);
  }
  assert forall|i: int, j: int, h: int| #![trigger b.at(i, j), b.at(i, h), b.at(h, j)] #![trigger dz(b, i, j), b.at(i, h), b.at(h, j)] 0 <= i < b.rows && 0 <= j < b.cols && 0 <= h < b.rows implies ble(dz(b, i, j), badd(b.at(i, h), b.at(h, j))) by {
    lem_tight3(p, b, x, y, c, i, j, h);
  }
}
pub proof fn lem_tight3(p: Mat, b: Mat, x: int, y: int, c: Bounds, i: int, j: int, h: int)
  requires canonical(p), okb(c), !(c.first is NInf), 0 <= x < p.rows, 0 <= y < p.rows, 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, ble(bz(), badd(dz(p, y, x), c)), wf(b), b.rows == p.rows, diag_ok(b),
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j ==> #[trigger] b.at(i, j) == tightened(p, x, y, c, i, j)
  ensures ble(dz(b, i, j), badd(b.at(i, h), b.at(h, j)))
{
  assert(ble(bz(), b.at(h, h)));
  assert(okb(b.at(i, h)) && okb(b.at(h, j)) && okb(b.at(i, j)));
  if i != h && h != j {
    lem_tri(p, x, y, c, i, j, h);
    if i == j { lem_tz(p, x, y, c, i); }
  }
}
/// the tightened constraint is compatible with the matrix
pub proof fn lem_tc0(p: Mat, q: Mat, a: Mat, b: Mat, x: int, y: int, c: Bounds)
  requires canonical(p), okb(c), 0 <= x < p.rows, 0 <= y < p.rows, wf(q), wf(a), wf(b), q.rows == p.rows, q.cols == p.cols,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if i == x && j == y { bmin(p.at(i, j), c) } else { p.at(i, j) }),
    diag_ok(q), is_close1(q, a, x), diag_ok(a), is_close1(a, b, y), diag_ok(b),
  ensures ble(bz(), badd(dz(p, y, x), c)), !(c.first is NInf)
{
  lem_dz(p);
  assert(ble(bz(), q.at(x, x)));
  assert(ble(bz(), q.at(y, y)));
  assert(ble(bz(), a.at(y, y)));
  assert(okb(q.at(x, y)) && okb(q.at(y, x)) && okb(p.at(y, x)) && okb(p.at(x, y)));
  assert(a.at(y, y) == bmin(q.at(y, y), badd(q.at(y, x), q.at(x, y))));
}
pub proof fn lem_tz(p: Mat, x: int, y: int, c: Bounds, i: int)
  requires canonical(p), okb(c), !(c.first is NInf), 0 <= x < p.rows, 0 <= y < p.rows, 0 <= i < p.rows, ble(bz(), badd(dz(p, y, x), c))
  ensures ble(bz(), tightened(p, x, y, c, i, i)), tightened(p, x, y, c, i, i) == bz()
{
  lem_dz(p);
  let (cix, cyi, cyx) = (dz(p, i, x), dz(p, y, i), dz(p, y, x));
  assert(ble(dz(p, y, x), badd(dz(p, y, i), dz(p, i, x))));
  assert(nb(cix) && nb(cyi) && nb(cyx) && nb(c));
  lem_ax_mono(cyx, badd(cyi, cix), c, c);
  lem_ax_assoc(cyi, cix, c); lem_ax_assoc(cix, c, cyi); lem_ax_assoc(cyi, badd(cix, c), c); lem_ax_assoc(c, cyi, cyi); lem_ax_assoc(cix, c, c);
}
pub proof fn lem_tc2_s(pij: Bounds, piy: Bounds, pyj: Bounds, ayy: Bounds, cix: Bounds, c: Bounds)
  requires nb(pij), nb(piy), nb(pyj), nb(ayy), nb(cix), nb(c), ble(pij, badd(piy, pyj)), ble(bz(), ayy)
  ensures bmin(pij, badd(bmin(piy, badd(cix, c)), pyj)) == bmin(pij, badd(cix, badd(c, pyj))),
    bmin(bmin(piy, badd(cix, c)), badd(bmin(piy, badd(cix, c)), ayy)) == bmin(piy, badd(cix, badd(c, bz()))),
{}
pub proof fn lem_tc2(p: Mat, a: Mat, b: Mat, x: int, y: int, c: Bounds, i: int, j: int)
  requires canonical(p), okb(c), !(c.first is NInf), 0 <= x < p.rows, 0 <= y < p.rows, wf(a), wf(b), a.rows == p.rows, diag_ok(a), 0 <= i < p.rows, 0 <= j < p.rows, i != j,
    is_close1(a, b, y), diag_ok(b), ble(bz(), badd(dz(p, y, x), c)),
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j ==> #[trigger] a.at(i, j) == (if j == y { bmin(p.at(i, y), badd(dz(p, i, x), c)) } else { p.at(i, j) }),
  ensures b.at(i, j) == tightened(p, x, y, c, i, j)
{
    lem_dz(p);
    let _ = (b.at(i, j), a.at(i, y), a.at(y, j), a.at(i, j), p.at(y, y), p.at(y, j), p.at(i, y), p.at(i, j));
    assert(ble(bz(), a.at(y, y)));
    assert(okb(a.at(y, y)) && okb(a.at(i, j)) && okb(a.at(y, j)) && okb(a.at(i, y)));
    assert(nb(a.at(y, y)));
    assert(ble(dz(p, i, j), badd(p.at(i, y), p.at(y, j))));
    assert(ble(dz(p, i, x), badd(dz(p, i, y), dz(p, y, x))));
    assert(ble(dz(p, y, j), badd(dz(p, y, x), dz(p, x, j))));
    assert(nb(dz(p, i, x)) && nb(dz(p, y, x)) && nb(dz(p, i, j)) && nb(dz(p, y, j)) && nb(dz(p, i, y)) && nb(c));
    if j == y {
      lem_tc2_s(p.at(i, j), p.at(i, y), bz(), a.at(y, y), dz(p, i, x), c);
    } else if i == y {
      // the path through y back to itself is not negative
      assert(b.at(y, j) == bmin(a.at(y, j), badd(a.at(y, y), a.at(y, j))));
      assert(b.at(y, j) == p.at(y, j));
      lem_tc3_s(p.at(y, j), dz(p, y, x), c);
    } else {
      lem_tc2_s(p.at(i, j), p.at(i, y), p.at(y, j), a.at(y, y), dz(p, i, x), c);
    }
}
pub proof fn lem_tc3_s(pyj: Bounds, cyx: Bounds, c: Bounds)
  requires nb(pyj), nb(cyx), nb(c), ble(bz(), badd(cyx, c))
  ensures bmin(pyj, badd(cyx, badd(c, pyj))) == pyj
{}
pub proof fn lem_tc1(p: Mat, q: Mat, a: Mat, x: int, y: int, c: Bounds, i: int, j: int)
  requires canonical(p), okb(c), 0 <= x < p.rows, 0 <= y < p.rows, wf(q), wf(a), q.rows == p.rows, q.cols == p.cols,
    forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.cols ==> #[trigger] q.at(i, j) == (if i == x && j == y { bmin(p.at(i, j), c) } else { p.at(i, j) }),
    diag_ok(q), is_close1(q, a, x), diag_ok(a), 0 <= i < p.rows, 0 <= j < p.rows, i != j, !(c.first is NInf)
  ensures a.at(i, j) == (if j == y { bmin(p.at(i, y), badd(dz(p, i, x), c)) } else { p.at(i, j) })
{
  lem_dz(p);
  lem_diag_off(p);
  let _ = (q.at(i, j), q.at(i, x), q.at(x, j), q.at(x, x), a.at(i, j));
  assert(ble(bz(), q.at(x, x)));
  assert(ble(bz(), p.at(x, x)));
  assert(ble(dz(p, i, j), badd(p.at(i, x), p.at(x, j))));
  assert(nb(p.at(i, x)) && nb(p.at(x, j)) && nb(p.at(i, j)) && nb(p.at(x, y)) && nb(p.at(i, y)));
  assert(nb(dz(p, i, x)) && nb(dz(p, i, j)) && nb(dz(p, x, j)));
  assert(ble(dz(p, i, j), badd(dz(p, i, x), dz(p, x, j))));
}
/// no -infinity and an upper bound as stored
pub open spec fn nb(b: Bounds) -> bool { okb(b) && !(b.first is NInf) }
pub proof fn lem_ax_mono(a: Bounds, b: Bounds, c: Bounds, d: Bounds)
  requires ble(a, b), ble(c, d), nb(a), nb(b) || b.first is Inf, nb(c), nb(d) || d.first is Inf
  ensures ble(badd(a, c), badd(b, d))
{}
pub proof fn lem_ax_assoc(a: Bounds, b: Bounds, c: Bounds)
  requires nb(a), nb(b), nb(c)
  ensures badd(a, badd(b, c)) == badd(badd(a, b), c), badd(a, b) == badd(b, a), nb(badd(a, b)), nb(badd(a, badd(b, c)))
{}
pub proof fn lem_ax_min4(a: Bounds, b: Bounds, c: Bounds, d: Bounds, m: Bounds)
  requires nb(a), nb(b), nb(c), nb(d), ble(m, badd(a, c)), ble(m, badd(a, d)), ble(m, badd(b, c)), ble(m, badd(b, d))
  ensures ble(m, badd(bmin(a, b), bmin(c, d)))
{}
pub proof fn lem_ax_trans(a: Bounds, b: Bounds, c: Bounds)
  requires nb(a), nb(b), nb(c), ble(a, b), ble(b, c)
  ensures ble(a, c)
{}
pub proof fn lem_ax_min(a: Bounds, b: Bounds)
  requires nb(a), nb(b)
  ensures ble(bmin(a, b), a), ble(bmin(a, b), b), nb(bmin(a, b))
{}
pub proof fn lem_tri_s(pij: Bounds, pih: Bounds, phj: Bounds, cix: Bounds, chx: Bounds, cyh: Bounds, cyj: Bounds, c: Bounds)
  requires nb(pij), nb(pih), nb(phj), nb(cix), nb(chx), nb(cyh), nb(cyj), nb(c), ble(pij, badd(pih, phj)), ble(cix, badd(pih, chx)), ble(cyj, badd(cyh, phj)), ble(bz(), badd(chx, badd(c, cyh))),
  ensures ble(bmin(pij, badd(cix, badd(c, cyj))), badd(bmin(pih, badd(cix, badd(c, cyh))), bmin(phj, badd(chx, badd(c, cyj)))))
{
  let l = badd(cix, badd(c, cyj));
  let u = badd(cix, badd(c, cyh)); let w = badd(chx, badd(c, cyj));
  let e = badd(c, cyj);
  lem_ax_assoc(cix, c, cyj); lem_ax_assoc(cix, c, cyh); lem_ax_assoc(chx, c, cyj); lem_ax_assoc(c, cyj, cyj); lem_ax_assoc(pih, phj, phj); lem_ax_assoc(c, cyh, phj); lem_ax_assoc(pih, w, w); lem_ax_assoc(u, phj, phj); lem_ax_assoc(u, w, w);
  assert(ble(l, badd(pih, w))) by { lem_ax_assoc(pih, chx, e); lem_ax_assoc(pih, chx, chx); lem_ax_mono(cix, badd(pih, chx), e, e); }
  assert(ble(l, badd(u, phj))) by {
    lem_ax_assoc(cyh, phj, phj);
    lem_ax_mono(c, c, cyj, badd(cyh, phj)); lem_ax_assoc(c, cyh, phj);
    lem_ax_mono(cix, cix, e, badd(badd(c, cyh), phj)); lem_ax_assoc(cix, badd(c, cyh), phj);
    lem_ax_assoc(cix, badd(badd(c, cyh), phj), phj);
  }
  assert(ble(l, badd(u, w))) by {
    // u + w == l + (chx + (c + cyh))
    let g = badd(c, cyh); let o = badd(chx, g);
    lem_ax_assoc(c, cyh, cyh); lem_ax_assoc(chx, c, cyh); lem_ax_assoc(l, o, o);
    lem_ax_mono(l, l, bz(), o); assert(badd(l, bz()) == l);
    lem_ax_assoc(badd(cix, g), chx, e); lem_ax_assoc(cix, g, chx); lem_ax_assoc(chx, g, g); lem_ax_assoc(cix, o, e); lem_ax_assoc(o, e, e); lem_ax_assoc(cix, e, o); lem_ax_assoc(chx, e, e);
    assert(badd(u, w) == badd(badd(u, chx), e));
    assert(badd(u, chx) == badd(cix, o));
    assert(badd(badd(cix, o), e) == badd(cix, badd(o, e)));
    assert(badd(cix, badd(e, o)) == badd(l, o));
  }
  let m = bmin(pij, l);
  lem_ax_min(pij, l);
  assert(ble(m, l) && ble(m, pij));
  lem_ax_trans(m, l, badd(pih, w)); lem_ax_trans(m, l, badd(u, phj)); lem_ax_trans(m, l, badd(u, w)); lem_ax_trans(m, pij, badd(pih, phj));
  lem_ax_min4(pih, u, phj, w, m);
}
pub proof fn lem_tri(p: Mat, x: int, y: int, c: Bounds, i: int, j: int, h: int)
  requires canonical(p), okb(c), !(c.first is NInf), 0 <= x < p.rows, 0 <= y < p.rows, 0 <= i < p.rows, 0 <= j < p.rows, 0 <= h < p.rows, ble(bz(), badd(dz(p, y, x), c))
  ensures ble(tightened(p, x, y, c, i, j), badd(tightened(p, x, y, c, i, h), tightened(p, x, y, c, h, j)))
{
  lem_dz(p);
  lem_tz(p, x, y, c, h);
  assert(ble(dz(p, i, j), badd(dz(p, i, h), dz(p, h, j))));
  assert(ble(dz(p, i, x), badd(dz(p, i, h), dz(p, h, x))));
  assert(ble(dz(p, y, j), badd(dz(p, y, h), dz(p, h, j))));
  assert(nb(dz(p, h, x)) && nb(dz(p, y, h)) && nb(dz(p, y, j)) && nb(dz(p, i, x)) && nb(dz(p, i, j)) && nb(dz(p, i, h)) && nb(dz(p, h, j)) && nb(c));
  lem_ax_assoc(dz(p, h, x), c, dz(p, y, h));
  lem_tri_s(dz(p, i, j), dz(p, i, h), dz(p, h, j), dz(p, i, x), dz(p, h, x), dz(p, y, h), dz(p, y, j), c);
}
pub proof fn lem_le_diag(a: Mat, b: Mat)
  requires le_mat(a, b), diag_ok(a), a.rows == a.cols
  ensures diag_ok(b)
{
  assert forall|i: int| 0 <= i < b.rows implies ble(bz(), #[trigger] b.at(i, i)) by { assert(ble(a.at(i, i), b.at(i, i))); assert(ble(bz(), a.at(i, i))); }
}
pub proof fn lem_le_trans(a: Mat, b: Mat, c: Mat)
  requires le_mat(a, b), le_mat(b, c)
  ensures le_mat(a, c)
{
  assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies ble(#[trigger] a.at(i, j), c.at(i, j)) by { assert(ble(a.at(i, j), b.at(i, j))); assert(ble(b.at(i, j), c.at(i, j))); }
}
/// sum of the two directions of every pair is non-negative
pub open spec fn pairs_ok(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] tij(i, j) ==> ble(bz(), badd(m.at(i, j), m.at(j, i))) }
pub proof fn lem_pairs(m: Mat)
  requires wf(m)
  ensures pairs_ok(m) ==> diag_ok(m), nonempty(m) ==> pairs_ok(m), closed(m) && pairs_ok(m) ==> nonempty(m),
{
  if pairs_ok(m) {
    assert forall|i: int| 0 <= i < m.rows implies ble(bz(), #[trigger] m.at(i, i)) by { assert(tij(i, i)); }
    if closed(m) { lem_nonempty(m); }
  }
  if nonempty(m) {
    let v = choose|v: spec_fn(int) -> real| sat(m, v);
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] tij(i, j) implies ble(bz(), badd(m.at(i, j), m.at(j, i))) by {
      assert(bsat(m.at(i, j), v(i) - v(j))); assert(bsat(m.at(j, i), v(j) - v(i)));
      lem_bsat_add(m.at(i, j), m.at(j, i), v(i) - v(j), v(j) - v(i));
    }
  }
}
pub proof fn lem_sat_nc(m: Mat, r: bool)
  requires wf(m), r == pairs_ok(m)
  ensures nonempty(m) ==> r, r ==> diag_ok(m), closed(m) ==> r == nonempty(m)
{ lem_pairs(m); }
pub proof fn lem_nonempty_same(a: Mat, b: Mat)
  requires same_sols(a, b)
  ensures nonempty(a) == nonempty(b)
{
  if nonempty(a) { let v = choose|v: spec_fn(int) -> real| sat(a, v); assert(sat(b, v)); }
  if nonempty(b) { let v = choose|v: spec_fn(int) -> real| sat(b, v); assert(sat(a, v)); }
}
pub open spec fn subset(a: Mat, b: Mat) -> bool { forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) ==> sat(b, v) }
/// entries outside of the diagonal
pub open spec fn le_mat_off(a: Mat, b: Mat) -> bool { a.rows == b.rows && forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols && i != j ==> ble(#[trigger] a.at(i, j), b.at(i, j)) }
pub proof fn lem_le_subset(a: Mat, b: Mat)
  requires wf(a), wf(b), le_mat(a, b)
  ensures subset(a, b)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies sat(b, v) by {
    assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { assert(bsat(a.at(i, j), v(i) - v(j))); assert(ble(a.at(i, j), b.at(i, j))); }
  }
}
pub proof fn lem_includes(a: Mat, b: Mat)
  requires wf(a), wf(b), a.rows == b.rows
  ensures le_mat(a, b) ==> subset(a, b), canonical(a) && subset(a, b) ==> le_mat_off(a, b)
{
  if le_mat(a, b) { lem_le_subset(a, b); }
  if canonical(a) && subset(a, b) {
    assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols && i != j implies ble(#[trigger] a.at(i, j), b.at(i, j)) by {
      if !ble(a.at(i, j), b.at(i, j)) { lem_tight_entry(a, b.at(i, j), i, j); let v = choose|v: spec_fn(int) -> real| sat(a, v) && !bsat(b.at(i, j), v(i) - v(j)); assert(sat(b, v)); }
    }
  }
}
/// a canonical entry is as tight as possible: every smaller bound is violated by some solution
pub proof fn lem_tight_entry(m: Mat, b: Bounds, x: int, y: int)
  requires canonical(m), okb(b), 0 <= x < m.rows, 0 <= y < m.rows, x != y, blt(b, m.at(x, y))
  ensures exists|v: spec_fn(int) -> real| sat(m, v) && !bsat(b, v(x) - v(y))
{
  // a value d of x - y that satisfies both entries of m but not b
  lem_diag_off(m);
  let u = m.at(x, y); let l = m.at(y, x);
  assert(ble(dz(m, x, x), badd(m.at(x, y), m.at(y, x))));
  assert(ble(bz(), m.at(x, x)));
  let _ = m.at(y, x);
  let d = if rk(u.first) == 0 {
    if u.second && !b.second && b.first == u.first { dv(u.first) }
    else if u.second { dv(u.first) }
    else {
      // open above: something between max(b, -l) and u
      let lo = if rk(l.first) == 0 && (rk(b.first) != 0 || -dv(l.first) > dv(b.first)) { -dv(l.first) } else if rk(b.first) == 0 { dv(b.first) } else { dv(u.first) - 1real };
      (lo + dv(u.first)) / 2real
    }
  } else {
    let lo = if rk(l.first) == 0 && (rk(b.first) != 0 || -dv(l.first) > dv(b.first)) { -dv(l.first) } else if rk(b.first) == 0 { dv(b.first) } else { 0real };
    lo + 1real
  };
  assert(bsat(u, d) && bsat(l, -d) && !bsat(b, d));
  let v0 = |i: int| if i == x { d } else { 0real };
  let s0 = |i: int| i == x || i == y;
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s0(i) && s0(j) implies bsat(#[trigger] m.at(i, j), v0(i) - v0(j)) by { assert(ble(bz(), m.at(x, x))); assert(ble(bz(), m.at(y, y))); }
  assert(s0(x) && s0(y));
  let w = lem_extend_all(m, v0, s0, 0);
  assert(sat(m, w));
  assert(w(x) == v0(x) && w(y) == v0(y));
}
/// extends a partial solution on the set s to all indices from k on (those below k are in s or already done)
pub proof fn lem_extend_all(m: Mat, v: spec_fn(int) -> real, s: spec_fn(int) -> bool, k: int) -> (w: spec_fn(int) -> real)
  requires canonical(m), 0 <= k <= m.rows, forall|i: int| 0 <= i < k ==> #[trigger] s(i),
    forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s(i) && s(j) ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)),
  ensures sat(m, w), forall|i: int| #[trigger] s(i) ==> w(i) == v(i)
  decreases m.rows - k
{
  if k == m.rows { v }
  else if s(k) { lem_extend_all(m, v, s, k + 1) }
  else {
    let c = lem_extend(m, v, s, k);
    let v2 = upd(v, k, c);
    let s2 = |i: int| i == k || s(i);
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s2(i) && s2(j) implies bsat(#[trigger] m.at(i, j), v2(i) - v2(j)) by {
      if i != k && j != k { assert(bsat(m.at(i, j), v(i) - v(j))); }
    }
    let w = lem_extend_all(m, v2, s2, k + 1);
    assert forall|i: int| #[trigger] s(i) implies w(i) == v(i) by { assert(s2(i)); }
    w
  }
}
pub proof fn lem_le_off_subset(a: Mat, b: Mat)
  requires wf(a), wf(b), le_mat_off(a, b), diag_ok(b)
  ensures subset(a, b)
{
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies sat(b, v) by {
    assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), v(i) - v(j)) by { if i == j { assert(ble(bz(), b.at(i, i))); } else { assert(bsat(a.at(i, j), v(i) - v(j))); assert(ble(a.at(i, j), b.at(i, j))); } }
  }
}
pub open spec fn eq_off(a: Mat, b: Mat) -> bool { a.rows == b.rows && forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.rows && i != j ==> #[trigger] a.at(i, j) == b.at(i, j) }
pub proof fn lem_eq_off(a: Mat, b: Mat)
  requires canonical(a), canonical(b), a.rows == b.rows
  ensures eq_off(a, b) == same_sols(a, b)
{
  if eq_off(a, b) {
    assert(le_mat_off(a, b) && le_mat_off(b, a));
    lem_includes(a, b); lem_includes(b, a);
    assert forall|v: spec_fn(int) -> real| #![trigger sat(a, v)] #![trigger sat(b, v)] sat(a, v) == sat(b, v) by {}
  }
  if same_sols(a, b) {
    lem_includes(a, b); lem_includes(b, a);
    assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.rows && i != j implies #[trigger] a.at(i, j) == b.at(i, j) by { let _ = b.at(i, j); assert(okb(a.at(i, j)) && okb(b.at(i, j))); assert(ble(a.at(i, j), b.at(i, j)) && ble(b.at(i, j), a.at(i, j))); }
  }
}
