// concatenation of timed conditions a (n + 1 rows) and b: in the result the variables 1..n are those of a (sums up to the end of the result), n + k is the variable k + 1 of b
/// the part of w described by a when the sum of the durations of b is t
pub open spec fn cat_l(w: spec_fn(int) -> real, t: real) -> spec_fn(int) -> real { |i: int| if i == 0 { w(0) + t } else { w(i) } }
/// the part of w described by b when the sum of the durations of b is t
pub open spec fn cat_r(w: spec_fn(int) -> real, t: real, n: int) -> spec_fn(int) -> real { |i: int| if i == 0 { w(0) } else if i == 1 { w(0) + t } else { w(i + n - 1) } }
/// w can be split, the joined duration divided between both parts
pub open spec fn cat_split(a: Mat, b: Mat, w: spec_fn(int) -> real) -> bool { exists|t: real| sat(a, #[trigger] cat_l(w, t)) && sat(b, cat_r(w, t, a.rows - 1)) }
pub open spec fn cat_in(a: Mat, b: Mat) -> bool { canonical(a) && canonical(b) && 2 <= a.rows && 2 <= b.rows && a.rows + b.rows <= 257 }
/// index of b for an index of the result
pub open spec fn cat_ix(n: int, i: int) -> int { if i == 0 { 0 } else { i - n + 1 } }
/// bounds of (the value of i) - (the value of the joint) and of the converse difference
pub open spec fn cat_down(a: Mat, b: Mat, i: int) -> Bounds { if 1 <= i < a.rows { a.at(i, 0) } else { b.at(cat_ix(a.rows - 1, i), 1) } }
pub open spec fn cat_up(a: Mat, b: Mat, i: int) -> Bounds { if 1 <= i < a.rows { a.at(0, i) } else { b.at(1, cat_ix(a.rows - 1, i)) } }
pub open spec fn cat_cell(a: Mat, b: Mat, i: int, j: int) -> Bounds {
  let n = a.rows - 1;
  if i == 0 && j == 0 { a.at(0, 0) } else if 1 <= i <= n && 1 <= j <= n { a.at(i, j) } else if !(1 <= i <= n) && !(1 <= j <= n) { b.at(cat_ix(n, i), cat_ix(n, j)) } else { badd(cat_down(a, b, i), cat_up(a, b, j)) }
}
pub open spec fn is_cat(a: Mat, b: Mat, c: Mat) -> bool { c.rows == a.rows + b.rows - 2 && c.cols == c.rows && forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.rows ==> #[trigger] c.at(i, j) == cat_cell(a, b, i, j) }
pub proof fn lem_cat_ok(a: Mat, b: Mat, i: int)
  requires cat_in(a, b), 0 <= i < a.rows + b.rows - 2
  ensures nb(cat_up(a, b, i)), nb(cat_down(a, b, i))
{
  lem_diag_off(a); lem_diag_off(b);
  let n = a.rows - 1;
  let _ = (a.at(i, 0), a.at(0, i), b.at(cat_ix(n, i), 1), b.at(1, cat_ix(n, i)));
}
pub proof fn lem_cat_tri(a: Mat, b: Mat, c: Mat, w: spec_fn(int) -> real, i: int, j: int)
  requires cat_in(a, b), is_cat(a, b, c), sat(c, w), 0 <= i < c.rows, 0 <= j < c.rows
  ensures bsat_sum(sft(cat_up(a, b, j), w(j)), sft(cat_down(a, b, i), -w(i)))
{
  let n = a.rows - 1;
  lem_cat_ok(a, b, i); lem_cat_ok(a, b, j);
  assert(bsat(c.at(i, j), w(i) - w(j)));
  let (d, u) = (cat_down(a, b, i), cat_up(a, b, j));
  assert(bsat(badd(d, u), w(i) - w(j))) by {
    if 1 <= i <= n && 1 <= j <= n { assert(ble(dz(a, i, j), badd(a.at(i, 0), a.at(0, j)))); assert(okb(a.at(i, j))); }
    else if !(1 <= i <= n) && !(1 <= j <= n) {
      let (x, y) = (cat_ix(n, i), cat_ix(n, j));
      assert(ble(dz(b, x, y), badd(b.at(x, 1), b.at(1, y)))); assert(okb(b.at(x, y)));
      if i == 0 && j == 0 { assert(ble(bz(), b.at(0, 0))); }
    }
  }
}
pub proof fn lem_cat(a: Mat, b: Mat, c: Mat)
  requires cat_in(a, b), is_cat(a, b, c)
  ensures wf(c), nonempty(c), forall|w: spec_fn(int) -> real| #[trigger] sat(c, w) == cat_split(a, b, w), intm(a) && intm(b) ==> intm(c),
{
  let n = a.rows - 1;
  assert forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.cols implies okb(#[trigger] c.at(i, j)) by {
    lem_cat_ok(a, b, i); lem_cat_ok(a, b, j); let _ = (a.at(i, j), b.at(cat_ix(n, i), cat_ix(n, j)));
  }
  assert forall|w: spec_fn(int) -> real| #[trigger] sat(c, w) == cat_split(a, b, w) by {
    if sat(c, w) { let t = lem_cat_1(a, b, c, w); assert(sat(a, cat_l(w, t))); }
    if cat_split(a, b, w) { let t = choose|t: real| sat(a, #[trigger] cat_l(w, t)) && sat(b, cat_r(w, t, n)); lem_cat_2(a, b, c, w, t); }
  }
  if intm(a) && intm(b) {
    assert forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.cols implies intb(#[trigger] c.at(i, j)) by {
      lem_cat_ok(a, b, i); lem_cat_ok(a, b, j); let _ = (a.at(i, j), b.at(cat_ix(n, i), cat_ix(n, j)), a.at(i, 0), a.at(0, i), a.at(0, j), a.at(j, 0), b.at(cat_ix(n, i), 1), b.at(1, cat_ix(n, i)), b.at(cat_ix(n, j), 1), b.at(1, cat_ix(n, j)));
      lem_int_add(cat_down(a, b, i), cat_up(a, b, j));
    }
  }
  // non-empty: put solutions of both together
  let v = lem_sol_upto(a, a.rows); let u = lem_sol_upto(b, b.rows); assert(sat(a, v)); assert(sat(b, u));
  let w = |i: int| if i == 0 { u(0) } else if i <= n { v(i) - v(0) + u(1) } else { u(i - n + 1) };
  let t = u(1) - u(0);
  lem_shift(a, v, cat_l(w, t)); 
  lem_shift(b, u, cat_r(w, t, n));
  assert(cat_split(a, b, w)); assert(sat(c, w));
}
pub proof fn lem_cat_1(a: Mat, b: Mat, c: Mat, w: spec_fn(int) -> real) -> (t: real)
  requires cat_in(a, b), is_cat(a, b, c), sat(c, w)
  ensures sat(a, cat_l(w, t)), sat(b, cat_r(w, t, a.rows - 1))
{
  let n = a.rows - 1;
  let f = |j: int| sft(cat_up(a, b, j), w(j)); let g = |i: int| sft(cat_down(a, b, i), -w(i)); let s = |i: int| true;
  assert forall|j: int| 0 <= j < c.rows && s(j) implies okb(#[trigger] f(j)) by { lem_cat_ok(a, b, j); }
  assert forall|j: int| 0 <= j < c.rows && s(j) implies okb(#[trigger] g(j)) by { lem_cat_ok(a, b, j); }
  let u = lem_tight(f, s, c.rows); let l = lem_tight(g, s, c.rows);
  assert(!(u.first is NInf)) by { if u != binf() { let j = choose|j: int| 0 <= j < c.rows && s(j) && #[trigger] f(j) == u; lem_cat_ok(a, b, j); } }
  assert(!(l.first is NInf)) by { if l != binf() { let j = choose|j: int| 0 <= j < c.rows && s(j) && #[trigger] g(j) == l; lem_cat_ok(a, b, j); } }
  assert(ble(bz(), badd(u, l))) by {
    if u != binf() && l != binf() {
      let j = choose|j: int| 0 <= j < c.rows && s(j) && #[trigger] f(j) == u;
      let i = choose|i: int| 0 <= i < c.rows && s(i) && #[trigger] g(i) == l;
      lem_cat_tri(a, b, c, w, i, j);
    }
  }
  let x = lem_pick(u, l);
  let t = x - w(0);
  let p = cat_l(w, t); let q = cat_r(w, t, n);
  assert forall|j: int| 0 <= j < c.rows implies bsat(#[trigger] cat_up(a, b, j), x - w(j)) && bsat(cat_down(a, b, j), w(j) - x) by {
    assert(ble(u, f(j))); assert(ble(l, g(j))); lem_cat_ok(a, b, j);
  }
  assert forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols implies bsat(#[trigger] a.at(i, j), p(i) - p(j)) by {
    if i == 0 && j == 0 { assert(ble(bz(), a.at(0, 0))); }
    else if i == 0 { let _ = cat_up(a, b, j); }
    else if j == 0 { let _ = cat_up(a, b, i); }
    else { assert(bsat(c.at(i, j), w(i) - w(j))); }
  }
  assert forall|i: int, j: int| 0 <= i < b.rows && 0 <= j < b.cols implies bsat(#[trigger] b.at(i, j), q(i) - q(j)) by {
    let (k, m) = (if i == 0 { 0 } else { i + n - 1 }, if j == 0 { 0 } else { j + n - 1 });
    if i == j { assert(ble(bz(), b.at(i, i))); }
    else if i == 1 { let _ = cat_up(a, b, m); assert(cat_ix(n, m) == j); }
    else if j == 1 { let _ = cat_up(a, b, k); assert(cat_ix(n, k) == i); }
    else { assert(bsat(c.at(k, m), w(k) - w(m))); assert(cat_ix(n, k) == i && cat_ix(n, m) == j); }
  }
  t
}
pub proof fn lem_cat_2(a: Mat, b: Mat, c: Mat, w: spec_fn(int) -> real, t: real)
  requires cat_in(a, b), is_cat(a, b, c), sat(a, cat_l(w, t)), sat(b, cat_r(w, t, a.rows - 1))
  ensures sat(c, w)
{
  let n = a.rows - 1; let p = cat_l(w, t); let q = cat_r(w, t, n); let x = w(0) + t;
  assert forall|j: int| 0 <= j < c.rows implies bsat(#[trigger] cat_up(a, b, j), x - w(j)) && bsat(cat_down(a, b, j), w(j) - x) by {
    if 1 <= j <= n { assert(bsat(a.at(0, j), p(0) - p(j))); assert(bsat(a.at(j, 0), p(j) - p(0))); }
    else { let k = cat_ix(n, j); assert(bsat(b.at(1, k), q(1) - q(k))); assert(bsat(b.at(k, 1), q(k) - q(1))); }
  }
  assert forall|i: int, j: int| 0 <= i < c.rows && 0 <= j < c.cols implies bsat(#[trigger] c.at(i, j), w(i) - w(j)) by {
    let (k, m) = (cat_ix(n, i), cat_ix(n, j));
    if i == 0 && j == 0 { assert(ble(bz(), a.at(0, 0))); }
    else if 1 <= i <= n && 1 <= j <= n { assert(bsat(a.at(i, j), p(i) - p(j))); }
    else if !(1 <= i <= n) && !(1 <= j <= n) { assert(bsat(b.at(k, m), q(k) - q(m))); }
    else { lem_cat_ok(a, b, i); lem_cat_ok(a, b, j); let _ = cat_up(a, b, i); let _ = cat_up(a, b, j); lem_bsat_add(cat_down(a, b, i), cat_up(a, b, j), w(i) - x, x - w(j)); assert(w(i) - x + (x - w(j)) == w(i) - w(j)); }
  }
}
/// entries after copying a and, up to column / row i, its bounds to the new variables
pub open spec fn cat_cp(a: Mat, i: int, p: int, q: int) -> Bounds {
  let n = a.rows - 1;
  if p <= n && q <= n { a.at(p, q) } else if 1 <= p <= n && q < i { a.at(p, 0) } else if 1 <= q <= n && p < i { a.at(0, q) } else { binf() }
}
pub proof fn lem_badd_comm(a: Bounds, b: Bounds)
  ensures okb(a) && okb(b) ==> badd(a, b) == badd(b, a)
{}
