// ---- regions of timed words
pub open spec fn fracs_from(d: Seq<D>, b: Seq<D>, i: int) -> bool { b.len() == d.len() && forall|k: int| i <= k < d.len() ==> (#[trigger] b[k]) == fin(st_fr(rsum(d.subrange(k, d.len() as int)))) }
pub open spec fn front_upto(d: Seq<D>, b: Seq<D>, i: int) -> bool { b.len() == d.len() && forall|k: int| 0 <= k < i ==> (#[trigger] b[k]) == fin(rsum(d.subrange(0, k + 1))) }
pub open spec fn bfracs_upto(d: Seq<D>, b: Seq<D>, i: int) -> bool { b.len() == d.len() && forall|k: int| 0 <= k < i ==> (#[trigger] b[k]) == fin(st_fr(-rsum(d.subrange(0, k + 1)))) }
pub proof fn lem_fo_same(o: Seq<Seq<int>>, n: int, f: spec_fn(int) -> real, h: spec_fn(int) -> real)
  requires fo_part(o, n), fo_order(o, f), forall|i: int| 0 <= i < n ==> #[trigger] f(i) == h(i)
  ensures fo_order(o, h)
{ assert forall|g: int, p: int| #[trigger] gi(o, g, p) implies f(o[g][p]) == h(o[g][p]) by { let i = o[g][p]; assert(f(i) == h(i)); } }
pub proof fn lem_front(d: Seq<D>, k: int)
  requires 0 <= k < d.len()
  ensures rsum(d.subrange(0, k + 1)) == rsum(d.subrange(0, k)) + dv(d[k]), rsum(d) == rsum(d.subrange(0, k + 1)) + rsum(d.subrange(k + 1, d.len() as int)), rsum(d.subrange(0, 0)) == 0real
{
  assert(d.subrange(0, k + 1).drop_last() =~= d.subrange(0, k));
  assert(d.subrange(0, k + 1) + d.subrange(k + 1, d.len() as int) =~= d); lem_rsum_cat(d.subrange(0, k + 1), d.subrange(k + 1, d.len() as int));
}
pub proof fn lem_av_wv(d: Seq<D>, b: Seq<D>)
  requires acc_from(d, b, 0)
  ensures forall|x: int| 0 <= x < d.len() + 1 ==> #[trigger] av(b)(x) == wv(d)(x), all_fin(b)
{ assert forall|x: int| 0 <= x < d.len() + 1 implies #[trigger] av(b)(x) == wv(d)(x) by { if x > 0 { assert(b[x - 1] == fin(rsum(d.subrange(x - 1, d.len() as int)))); } } }
pub proof fn lem_sat_eqv(m: Mat, v: spec_fn(int) -> real, w: spec_fn(int) -> real)
  requires sat(m, v), m.rows == m.cols, forall|x: int| 0 <= x < m.rows ==> #[trigger] v(x) == w(x)
  ensures sat(m, w)
{ assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols implies bsat(#[trigger] m.at(i, j), w(i) - w(j)) by { assert(v(i) == w(i) && v(j) == w(j)); assert(bsat(m.at(i, j), v(i) - v(j))); } }
/// the language is the region of the word with durations d
pub open spec fn reg_of(m: Mat, d: Seq<D>) -> bool { sat(m, wv(d)) && forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_region(v, wv(d), d.len() as int + 1) }
pub proof fn lem_regw(m: Mat, d: Seq<D>, b: Seq<D>, fr: Seq<D>, o: Seq<Seq<int>>, z: int)
  requires acc_from(d, b, 0), d.len() >= 1, 0 <= z <= 1, canonical(m), intm(m), simple(m), m.rows == d.len() + 1, sat(m, av(b)), fo_part(o, d.len() as int), fo_order(o, fpart(fr)),
    forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_region(v, av(b), d.len() as int + 1),
    if z == 0 { fracs_from(d, fr, 0) } else { bfracs_upto(d, fr, d.len() as int) }
  ensures region_ok(m, o, z), reg_of(m, d)
{
  let n = m.rows; let w = wv(d);
  lem_av_wv(d, b); lem_sat_eqv(m, av(b), w);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(m, v) == same_region(v, w, n) by {
    assert(same_region(v, av(b), n) == same_region(v, w, n)) by {
      if same_region(v, av(b), n) { assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] tij(x, y) implies (v(x) - v(y)).floor() == (w(x) - w(y)).floor() by { assert(av(b)(x) == w(x) && av(b)(y) == w(y)); } }
      if same_region(v, w, n) { assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] tij(x, y) implies (v(x) - v(y)).floor() == (av(b)(x) - av(b)(y)).floor() by { assert(av(b)(x) == w(x) && av(b)(y) == w(y)); } }
    }
  }
  let f = fpart(fr); let h = st_fracs(w, z, n);
  assert forall|i: int| 0 <= i < d.len() implies #[trigger] f(i) == h(i) by {
    if z == 0 { assert(fr[i] == fin(st_fr(rsum(d.subrange(i, d.len() as int))))); assert(st_val(w, z, n, i) == rsum(d.subrange(i, d.len() as int))); }
    else { assert(fr[i] == fin(st_fr(-rsum(d.subrange(0, i + 1))))); lem_front(d, i); assert(d.subrange(0, d.len() as int) =~= d); if i == d.len() - 1 { assert(d.subrange(d.len() as int, d.len() as int) =~= Seq::<D>::empty()); } assert(st_val(w, z, n, i) == -rsum(d.subrange(0, i + 1))); }
  }
  lem_fo_same(o, d.len() as int, f, h);
  lem_order_one(m, o, z, w);
}
