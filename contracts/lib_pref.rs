// ---- chains of regions
pub open spec fn nnv(v: spec_fn(int) -> real, rows: int) -> bool { forall|i: int| 0 <= i < rows - 1 ==> #[trigger] dur(v, i, i, rows) >= 0real }
/// all durations are non-negative
pub open spec fn nn(m: Mat) -> bool { forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) ==> nnv(v, m.rows) }
/// the first variable of the order z: T_{N,N} or -T_{0,0}
pub open spec fn endvar(z: int, rows: int) -> int { if z == 0 { rows - 2 } else { 0 } }
pub open spec fn isfirst(m: Mat, z: int) -> bool { let k = vix(z, m.rows, endvar(z, m.rows)); m.at(k, z) == bz() && m.at(z, k) == bz() }
/// the number of the cell
pub open spec fn cidx(m: Mat, z: int, i: int) -> int { 2 * st_c(m, z, i) + (if st_p(m, z, i) { 0int } else { 1int }) }
pub open spec fn ctot(m: Mat, z: int, n: int) -> int
  decreases n
{ if n <= 0 { 0 } else { ctot(m, z, n - 1) + (if z == 0 { cidx(m, z, n - 1) } else { -cidx(m, z, n - 1) }) } }
/// T_{i,N} >= T_{N,N} and T_{0,i} >= T_{0,0}
pub proof fn lem_nnv(v: spec_fn(int) -> real, rows: int, i: int)
  requires nnv(v, rows), rows >= 2, 0 <= i < rows - 1
  ensures st_val(v, 0, rows, i) >= st_val(v, 0, rows, rows - 2) >= 0real
  decreases rows - i
{
  assert(dur(v, rows - 2, rows - 2, rows) >= 0real);
  if i < rows - 2 { lem_nnv(v, rows, i + 1); assert(dur(v, i, i, rows) >= 0real); }
}
pub proof fn lem_nnv1(v: spec_fn(int) -> real, rows: int, i: int)
  requires nnv(v, rows), rows >= 2, 0 <= i < rows - 1
  ensures st_val(v, 1, rows, i) <= st_val(v, 1, rows, 0) <= 0real
  decreases i
{
  assert(dur(v, 0, 0, rows) >= 0real);
  if i > 0 { lem_nnv1(v, rows, i - 1); assert(dur(v, i, i, rows) >= 0real); }
}
pub proof fn lem_cidx(m: Mat, z: int, i: int, v: spec_fn(int) -> real)
  requires canonical(m), intm(m), simple(m), m.rows >= 2, 0 <= z <= 1, 0 <= i < m.rows - 1, sat(m, v)
  ensures in_cell(st_c(m, z, i), st_p(m, z, i), st_val(v, z, m.rows, i)), st_cell(m, z, i, st_c(m, z, i), st_p(m, z, i))
{
  lem_cells(m, z); let c = |i: int| st_c(m, z, i); let p = |i: int| st_p(m, z, i); lem_split(m, z, c, p, v); lem_cell(m, z, i);
  assert(in_cell(c(i), p(i), st_val(v, z, m.rows, i)));
}
pub proof fn lem_cell_pos(c: int, p: bool, x: real)
  requires in_cell(c, p, x), x >= 0real
  ensures 2 * c + (if p { 0int } else { 1int }) >= 0, 2 * c + (if p { 0int } else { 1int }) == 0 <==> (c == 0 && p)
{}
pub proof fn lem_cell_neg(c: int, p: bool, x: real)
  requires in_cell(c, p, x), x <= 0real
  ensures 2 * c + (if p { 0int } else { 1int }) <= 0, 2 * c + (if p { 0int } else { 1int }) == 0 <==> (c == 0 && p)
{}
pub proof fn lem_cell_posr(c: int, p: bool, x: real)
  requires in_cell(c, p, x), 2 * c + (if p { 0int } else { 1int }) >= 0
  ensures x >= 0real
{}
pub proof fn lem_cell_negr(c: int, p: bool, x: real)
  requires in_cell(c, p, x), 2 * c + (if p { 0int } else { 1int }) <= 0
  ensures x <= 0real
{}
/// the cells of the values of a region with non-negative durations
pub proof fn lem_nn_cells(m: Mat, z: int, i: int)
  requires canonical(m), intm(m), simple(m), m.rows >= 2, 0 <= z <= 1, nn(m), 0 <= i < m.rows - 1
  ensures z == 0 ==> cidx(m, z, i) >= 0, z == 1 ==> cidx(m, z, i) <= 0, i == endvar(z, m.rows) ==> (cidx(m, z, i) == 0) == isfirst(m, z)
{
  let v = lem_sol_upto(m, m.rows); assert(sat(m, v));
  lem_cidx(m, z, i, v);
  if z == 0 { lem_nnv(v, m.rows, i); lem_cell_pos(st_c(m, z, i), st_p(m, z, i), st_val(v, z, m.rows, i)); }
  else { lem_nnv1(v, m.rows, i); lem_cell_neg(st_c(m, z, i), st_p(m, z, i), st_val(v, z, m.rows, i)); }
  if i == endvar(z, m.rows) { lem_first_cell(m.at(vix(z, m.rows, i), z), m.at(z, vix(z, m.rows, i)), st_c(m, z, i), st_p(m, z, i)); }
}
pub proof fn lem_first_cell(u: Bounds, l: Bounds, c: int, p: bool)
  requires cell_ok(u, l, c, p)
  ensures (c == 0 && p) == (u == bz() && l == bz())
{ if c == 0 && p { assert(-(c as real) == 0real); } }
pub proof fn lem_ctot_pos(m: Mat, z: int, n: int)
  requires canonical(m), intm(m), simple(m), m.rows >= 2, 0 <= z <= 1, nn(m), 0 <= n <= m.rows - 1
  ensures ctot(m, z, n) >= 0
  decreases n
{ if n > 0 { lem_ctot_pos(m, z, n - 1); lem_nn_cells(m, z, n - 1); } }
/// m is q with the values of the variables in s moved upwards
pub proof fn lem_cidx_step(q: Mat, m: Mat, z: int, s: Seq<int>, i: int)
  requires canonical(q), intm(q), simple(q), canonical(m), intm(m), simple(m), q.rows >= 2, 0 <= z <= 1, st_moved(q, m, z, s, true), 0 <= i < q.rows - 1
  ensures cidx(m, z, i) == cidx(q, z, i) + (if s.contains(i) { 1int } else { 0int })
{
  lem_cell(q, z, i); lem_cell(m, z, i);
  lem_cells(q, z); let c = |i: int| st_c(q, z, i); let p = |i: int| st_p(q, z, i);
  lem_rise_cells(q, m, z, s, c, p); let c2 = st_c2(c, p, s); let p2 = st_p2(p, s);
  assert(st_cell(m, z, i, c2(i), p2(i)));
  let k = vix(z, m.rows, i);
  lem_cell_once(m.at(k, z), m.at(z, k), c2(i), p2(i), st_c(m, z, i), st_p(m, z, i));
}
pub proof fn lem_cell_once(u: Bounds, l: Bounds, c: int, p: bool, c2: int, p2: bool)
  requires cell_ok(u, l, c, p), cell_ok(u, l, c2, p2)
  ensures c == c2, p == p2
{ assert(dv(l.first) == -(c as real) && dv(l.first) == -(c2 as real)); }
pub proof fn lem_ctot_step(q: Mat, m: Mat, z: int, s: Seq<int>, n: int)
  requires canonical(q), intm(q), simple(q), canonical(m), intm(m), simple(m), q.rows >= 2, 0 <= z <= 1, st_moved(q, m, z, s, true), 0 <= n <= q.rows - 1
  ensures z == 0 ==> ctot(m, z, n) >= ctot(q, z, n), z == 1 ==> ctot(m, z, n) <= ctot(q, z, n), (exists|i: int| 0 <= i < n && #[trigger] s.contains(i)) ==> ctot(m, z, n) != ctot(q, z, n)
  decreases n
{
  if n > 0 {
    lem_ctot_step(q, m, z, s, n - 1); lem_cidx_step(q, m, z, s, n - 1);
    if exists|i: int| 0 <= i < n && #[trigger] s.contains(i) { let i = choose|i: int| 0 <= i < n && #[trigger] s.contains(i); if i < n - 1 { assert(exists|i: int| 0 <= i < n - 1 && #[trigger] s.contains(i)); } }
  }
}
pub proof fn lem_nn_back1_at(v: spec_fn(int) -> real, n: int, d: real, i: int)
  requires n >= 2, 0 <= i < n - 1, dur(st_mv(v, 1, -d), i, i, n) >= 0real, st_val(v, 1, n, 0) <= 0real
  ensures dur(v, i, i, n) >= 0real
{ if i == 0 { assert(dur(v, i, i, n) == -st_val(v, 1, n, 0)); } }
pub proof fn lem_nn_back1(v: spec_fn(int) -> real, n: int, d: real)
  requires nnv(st_mv(v, 1, -d), n), n >= 2, st_val(v, 1, n, 0) <= 0real
  ensures nnv(v, n)
{ assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(st_mv(v, 1, -d), i, i, n) >= 0real); lem_nn_back1_at(v, n, d, i); } }
pub proof fn lem_nn_back(v: spec_fn(int) -> real, n: int, d: real)
  requires nnv(st_mv(v, 0, d), n), n >= 2, st_val(v, 0, n, n - 2) >= 0real
  ensures nnv(v, n)
{
  let w = st_mv(v, 0, d);
  assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(w, i, i, n) >= 0real); if i == n - 2 { assert(dur(v, i, i, n) == st_val(v, 0, n, n - 2)); } }
}
/// the region before one that is not the first one has non-negative durations
pub proof fn lem_nn_fall(q: Mat, m: Mat, s: Seq<int>)
  requires canonical(q), intm(q), simple(q), canonical(m), intm(m), simple(m), q.rows >= 2, st_moved(q, m, 0, s, true), st_step(q, m, 0), nn(m), !isfirst(m, 0)
  ensures nn(q)
{
  let n = q.rows; let e = n - 2;
  lem_nn_cells(m, 0, e); lem_cidx_step(q, m, 0, s, e);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) implies nnv(v, n) by {
    lem_cidx(q, 0, e, v); lem_cell_posr(st_c(q, 0, e), st_p(q, 0, e), st_val(v, 0, n, e));
    let d = choose|d: real| #[trigger] st_reach(q, m, 0, v, d); let w = st_mv(v, 0, d); assert(sat(m, w)); assert(nnv(w, n));
    lem_nn_back(v, n, d);
  }
}
pub proof fn lem_nn_fall1(m: Mat, q: Mat, s: Seq<int>)
  requires canonical(q), intm(q), simple(q), canonical(m), intm(m), simple(m), q.rows >= 2, st_moved(m, q, 1, s, true), st_step(m, q, 1), nn(m), !isfirst(m, 1)
  ensures nn(q)
{
  let n = q.rows;
  lem_nn_cells(m, 1, 0); lem_cidx_step(m, q, 1, s, 0);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) implies nnv(v, n) by {
    lem_cidx(q, 1, 0, v); lem_cell_negr(st_c(q, 1, 0), st_p(q, 1, 0), st_val(v, 1, n, 0));
    let d = choose|d: real| #[trigger] st_back(m, q, 1, v, d); let w = st_mv(v, 1, -d); assert(sat(m, w)); assert(nnv(w, n)); lem_nn_back1(v, n, d);
  }
}
pub proof fn lem_nn_at(v: spec_fn(int) -> real, n: int, d: real, i: int)
  requires n >= 2, 0 <= i < n - 1, dur(st_mv(v, 0, -d), i, i, n) >= 0real, d >= 0real
  ensures dur(v, i, i, n) >= 0real
{}
pub proof fn lem_nn_fwd(v: spec_fn(int) -> real, n: int, d: real)
  requires n >= 2, nnv(st_mv(v, 0, -d), n), d >= 0real
  ensures nnv(v, n)
{ assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(st_mv(v, 0, -d), i, i, n) >= 0real); lem_nn_at(v, n, d, i); } }
pub proof fn lem_nn_at1(v: spec_fn(int) -> real, n: int, d: real, i: int)
  requires n >= 2, 0 <= i < n - 1, dur(st_mv(v, 1, d), i, i, n) >= 0real, d >= 0real
  ensures dur(v, i, i, n) >= 0real
{}
pub proof fn lem_nn_fwd1(v: spec_fn(int) -> real, n: int, d: real)
  requires n >= 2, nnv(st_mv(v, 1, d), n), d >= 0real
  ensures nnv(v, n)
{ assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(st_mv(v, 1, d), i, i, n) >= 0real); lem_nn_at1(v, n, d, i); } }
/// time elapses
pub proof fn lem_nn_rise(m: Mat, q: Mat)
  requires q.rows >= 2, st_step(m, q, 0), nn(m)
  ensures nn(q)
{
  let n = q.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) implies nnv(v, n) by {
    let d = choose|d: real| #[trigger] st_back(m, q, 0, v, d); let w = st_mv(v, 0, -d); assert(sat(m, w)); assert(nnv(w, n)); lem_nn_fwd(v, n, d);
  }
}
pub proof fn lem_nn_rise1(q: Mat, m: Mat)
  requires q.rows >= 2, st_step(q, m, 1), nn(m)
  ensures nn(q)
{
  let n = q.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) implies nnv(v, n) by {
    let d = choose|d: real| #[trigger] st_reach(q, m, 1, v, d); let w = st_mv(v, 1, d); assert(sat(m, w)); assert(nnv(w, n)); lem_nn_fwd1(v, n, d);
  }
}
/// events
pub proof fn lem_nn_ext_n(a: Mat, b: Mat)
  requires nn(a), a.rows >= 2, b.rows == a.rows + 1, forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && v(a.rows) == v(0))
  ensures nn(b)
{
  let n = a.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) implies nnv(v, n + 1) by {
    assert(nnv(v, n));
    assert forall|i: int| 0 <= i < n implies #[trigger] dur(v, i, i, n + 1) >= 0real by { if i < n - 1 { assert(dur(v, i, i, n) >= 0real); } }
  }
}
pub proof fn lem_nn_rem_n(a: Mat, b: Mat)
  requires nn(b), wf(a), a.rows >= 2, b.rows == a.rows + 1, forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && v(a.rows) == v(0))
  ensures nn(a)
{
  let n = a.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies nnv(v, n) by {
    let w = |k: int| if k == n { v(0) } else { v(k) };
    lem_sat_eqv(a, v, w); assert(sat(b, w)); assert(nnv(w, n + 1));
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(w, i, i, n + 1) >= 0real); }
  }
}
pub proof fn lem_nn_ext_z(a: Mat, b: Mat)
  requires nn(a), a.rows >= 2, b.rows == a.rows + 1, forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, shifted(v)) && v(1) == v(2))
  ensures nn(b)
{
  let n = a.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) implies nnv(v, n + 1) by {
    assert(nnv(shifted(v), n));
    assert forall|i: int| 0 <= i < n implies #[trigger] dur(v, i, i, n + 1) >= 0real by { if i > 0 { assert(dur(shifted(v), i - 1, i - 1, n) >= 0real); } }
  }
}
pub proof fn lem_nn_rem_z(a: Mat, b: Mat)
  requires nn(b), wf(a), a.rows >= 2, b.rows == a.rows + 1, forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, shifted(v)) && v(1) == v(2))
  ensures nn(a)
{
  let n = a.rows;
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies nnv(v, n) by {
    let w = |k: int| if k == 0 { v(0) } else if k == 1 { v(1) } else { v(k - 1) };
    lem_sat_eqv(a, v, shifted(w)); assert(sat(b, w)); assert(nnv(w, n + 1));
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by { assert(dur(w, i + 1, i + 1, n + 1) >= 0real); }
  }
}
pub open spec fn nnd(d: Seq<D>) -> bool { forall|k: int| 0 <= k < d.len() ==> (#[trigger] d[k]) is Fin && dv(d[k]) >= 0real }
pub proof fn lem_nn_reg(m: Mat, d: Seq<D>)
  requires reg_of(m, d), nnd(d), m.rows == d.len() + 1, d.len() >= 1, canonical(m), intm(m), simple(m)
  ensures nn(m)
{
  let n = m.rows; let w = wv(d);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) implies nnv(v, n) by {
    assert(same_region(v, w, n));
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] dur(v, i, i, n) >= 0real by {
      let j = hix(i, n); assert(tij(i + 1, j)); assert(tij(j, i + 1));
      assert(d[i] is Fin); lem_rsum_front(d, i); assert(w(i + 1) - w(j) == dv(d[i])) by { if i == n - 2 { assert(d.subrange(i + 1, d.len() as int) =~= Seq::<D>::empty()); } }
      lem_floor_nn(v(i + 1) - v(j), w(i + 1) - w(j));
    }
  }
}
pub proof fn lem_floor_nn(x: real, y: real)
  requires x.floor() == y.floor(), y >= 0real
  ensures x >= 0real
{ if x < 0real { assert(x.floor() < 0); assert(y.floor() >= 0); } }
/// the region before a region with non-negative durations, and the measure
pub proof fn lem_before(a: Mat, o: Seq<Seq<int>>, w: Seq<int>, b: Mat, p: Seq<Seq<int>>, x: Seq<int>)
  requires region_ok(a, o, 0), region_ok(b, p, 0), fr_next(a, o, w, b, p, x), nn(b), a.rows == w.len() + 2, b.rows == x.len() + 2, w.len() == x.len() ==> !isfirst(b, 0)
  ensures nn(a), ctot(a, 0, a.rows - 1) >= 0, ctot(b, 0, b.rows - 1) >= 0, w.len() < x.len() || (w.len() == x.len() && ctot(a, 0, a.rows - 1) < ctot(b, 0, b.rows - 1))
{
  if x == w { let s = fo_succ_vars(o); lem_vars(o, a.rows - 1); lem_nn_fall(a, b, s); lem_ctot_step(a, b, 0, s, a.rows - 1); lem_two(o, a.rows - 1); assert(s.contains(s[0])); }
  else { assert(x.len() == w.len() + 1); lem_nn_rem_n(a, b); }
  lem_ctot_pos(a, 0, a.rows - 1); lem_ctot_pos(b, 0, b.rows - 1);
}
pub proof fn lem_beforeb(a: Mat, o: Seq<Seq<int>>, w: Seq<int>, b: Mat, p: Seq<Seq<int>>, x: Seq<int>)
  requires region_ok(a, o, 1), region_ok(b, p, 1), br_next(a, o, w, b, p, x), nn(b), a.rows == w.len() + 2, b.rows == x.len() + 2, w.len() == x.len() ==> !isfirst(b, 1)
  ensures nn(a), ctot(a, 1, a.rows - 1) >= 0, ctot(b, 1, b.rows - 1) >= 0, w.len() < x.len() || (w.len() == x.len() && ctot(a, 1, a.rows - 1) < ctot(b, 1, b.rows - 1))
{
  if x == w { let s = fo_pred_vars(o); lem_vars(o, a.rows - 1); lem_nn_fall1(b, a, s); lem_ctot_step(b, a, 1, s, a.rows - 1); lem_two(o, a.rows - 1); assert(s.contains(s[0])); }
  else { assert(x.len() == w.len() + 1); lem_nn_rem_z(a, b); }
  lem_ctot_pos(a, 1, a.rows - 1); lem_ctot_pos(b, 1, b.rows - 1);
}
