// ---- regions: discrete steps
pub proof fn lem_diag_rx(m: Mat)
  requires canonical(m), intm(m)
  ensures rx_diag(m)
{ assert forall|i: int| 0 <= i < m.rows implies okb(#[trigger] m.at(i, i)) && intb(m.at(i, i)) && ble(bz(), m.at(i, i)) by {} }
pub proof fn lem_fr0()
  ensures st_fr(0real) == 0real
{ lem_floor_int(0real, 0); }
pub proof fn lem_reg_ext_n(m: Mat, o: Seq<Seq<int>>, b: Mat)
  requires region_ok(m, o, 0), ext_n(m, b), m.rows < 256
  ensures region_ok(b, fo_ext(o, m.rows - 1), 0), forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(m, v) && v(m.rows) == v(0))
{
  let n = m.rows; lem_ext_n(m, b); lem_ext(o, n - 1); lem_fr0();
  let w = lem_sol_upto(b, b.rows); assert(sat(b, w)); assert(sat(m, w));
  let f = st_fracs(w, 0, n); let h = st_fracs(w, 0, b.rows); let r = fo_ext(o, n - 1);
  assert(h(n - 1) == 0real) by { assert(st_val(w, 0, b.rows, n - 1) == 0real); }
  assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) == f(i) by {}
  lem_ext_order(o, n - 1, f, h);
  lem_order_one(b, r, 0, w);
}
pub proof fn lem_reg_ext_z(m: Mat, o: Seq<Seq<int>>, b: Mat)
  requires region_ok(m, o, 1), ext_z(m, b), m.rows < 256
  ensures region_ok(b, fo_ext0(o), 1), forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(m, shifted(v)) && v(1) == v(2))
{
  let n = m.rows; lem_ext_z(m, b); lem_ext(o, n - 1); lem_fr0();
  let w = lem_sol_upto(b, b.rows); assert(sat(b, w)); let u = shifted(w); assert(sat(m, u));
  let f = st_fracs(u, 1, n); let h = st_fracs(w, 1, b.rows);
  assert(h(0) == 0real) by { assert(vix(1, b.rows, 0) == 2); assert(st_val(w, 1, b.rows, 0) == 0real); }
  assert forall|i: int| 1 <= i < n implies #[trigger] h(i) == f(i - 1) by { assert(st_val(w, 1, b.rows, i) == st_val(u, 1, n, i - 1)); }
  lem_ext0_order(o, n - 1, f, h);
  lem_order_one(b, fo_ext0(o), 1, w);
}
pub proof fn lem_reg_first(b: Mat, o: Seq<Seq<int>>, z: int, i: int)
  requires region_ok(b, o, z), fo_asc(o), 0 <= i < b.rows - 1, b.at(vix(z, b.rows, i), z) == bz(), b.at(z, vix(z, b.rows, i)) == bz()
  ensures has_at(o, 0, i), o[0].len() > 0
{
  let w = lem_sol_upto(b, b.rows); assert(sat(b, w)); let k = vix(z, b.rows, i); lem_vix(z, b.rows, i); lem_fr0();
  assert(bsat(b.at(k, z), w(k) - w(z))); assert(bsat(b.at(z, k), w(z) - w(k)));
  let f = st_fracs(w, z, b.rows); assert(fo_order(o, f)); assert(f(i) == 0real);
  assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i;
  assert(g == 0);
}
pub proof fn lem_reg_rem_n(b: Mat, o: Seq<Seq<int>>, a: Mat)
  requires region_ok(b, o, 0), fo_asc(o), b.rows == a.rows + 1, a.rows >= 2, rx(b, a, src_i()), rx_diag(a), b.at(0, a.rows) == bz(), b.at(a.rows, 0) == bz()
  ensures o[0].len() > 0, o[0].last() == a.rows - 1, region_ok(a, fo_rem(o), 0), ext_n(a, b), fo_ext(fo_rem(o), a.rows - 1) =~= o
{
  let n = a.rows; lem_diag_rx(b); lem_rem_n(a, b); lem_reg_first(b, o, 0, n - 1); lem_asc(o, n); lem_ext(o, n);
  let w = lem_sol_upto(b, b.rows); assert(sat(b, w)); lem_rx_to(b, a, src_i(), w); assert(rx_val(w, src_i()) =~= w); assert(sat(a, w));
  let f = st_fracs(w, 0, b.rows); let h = st_fracs(w, 0, n);
  assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) == f(i) by {}
  lem_rem_order(o, n, f, h);
  lem_order_one(a, fo_rem(o), 0, w);
  assert(o[0].drop_last().push(n - 1) =~= o[0]);
}
pub proof fn lem_reg_rem_z(b: Mat, o: Seq<Seq<int>>, a: Mat)
  requires region_ok(b, o, 1), fo_asc(o), b.rows == a.rows + 1, a.rows >= 2, rx(b, a, sec_z()), rx_diag(a), b.at(1, 2) == bz(), b.at(2, 1) == bz()
  ensures o[0].len() > 0, o[0][0] == 0, region_ok(a, fo_rem0(o), 1), ext_z(a, b), fo_ext0(fo_rem0(o)) =~= o
{
  let n = a.rows; lem_diag_rx(b); lem_rem_z(a, b); lem_reg_first(b, o, 1, 0); lem_asc(o, n); lem_rem0(o, n);
  let w = lem_sol_upto(b, b.rows); assert(sat(b, w)); lem_rx_to(b, a, sec_z(), w); let u = rx_val(w, sec_z()); assert(sat(a, u));
  let f = st_fracs(w, 1, b.rows); let h = st_fracs(u, 1, n);
  assert forall|i: int| 0 <= i < n - 1 implies #[trigger] h(i) == f(i + 1) by { assert(st_val(w, 1, b.rows, i + 1) == st_val(u, 1, n, i)); }
  lem_rem0_order(o, n, f, h);
  lem_order_one(a, fo_rem0(o), 1, u);
  let s = fo_ext0(fo_rem0(o));
  assert forall|g: int| 0 <= g < o.len() implies s[g] =~= o[g] by {}
}

/// b, p, x is the next region of a, o, w: by time, or by an event
pub open spec fn fr_next(a: Mat, o: Seq<Seq<int>>, w: Seq<int>, b: Mat, p: Seq<Seq<int>>, x: Seq<int>) -> bool {
  (x == w && st_step(a, b, 0) && st_moved(a, b, 0, fo_succ_vars(o), true) && p == fo_succ(o))
  || (x == w.push(x.last()) && ext_n(a, b) && p == fo_ext(o, a.rows - 1) && forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && v(a.rows) == v(0)))
}
pub open spec fn br_next(a: Mat, o: Seq<Seq<int>>, w: Seq<int>, b: Mat, p: Seq<Seq<int>>, x: Seq<int>) -> bool {
  (x == w && st_step(b, a, 1) && st_moved(b, a, 1, fo_pred_vars(o), true) && p == fo_pred(o))
  || (x == Seq::<int>::empty().push(x[0]) + w && ext_z(a, b) && p == fo_ext0(o) && forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, shifted(v)) && v(1) == v(2)))
}
pub proof fn lem_back(m: Mat, o: Seq<Seq<int>>, q: Mat)
  requires region_ok(m, o, 1), st_moved(m, q, 1, fo_succ_vars(o), true)
  ensures region_ok(q, fo_succ(o), 1), st_step(m, q, 1), fo_pred(fo_succ(o)) =~= o, fo_pred_vars(fo_succ(o)) =~= fo_succ_vars(o)
{ lem_rise(m, o, 1, q); lem_rotate(o, m.rows - 1); lem_two(o, m.rows - 1); }
