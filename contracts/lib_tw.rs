// ---- timed words: durations[0] word[0] durations[1] ... (silent events are 0)
pub open spec fn fin_all(s: Seq<D>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Fin }
pub open spec fn rsum(s: Seq<D>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rsum(s.drop_last()) + dv(s.last()) } }
pub open spec fn tw_ok(w: Seq<int>, d: Seq<D>) -> bool { d.len() == w.len() + 1 && fin_all(d) }
pub open spec fn no_silent(w: Seq<int>) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != 0 }
pub open spec fn add_last(d: Seq<D>, x: D) -> Seq<D> { d.drop_last().push(dadd(d.last(), x)) }
/// the events and durations after absorbing the silent ones among the first k events
pub open spec fn absorb_w(w: Seq<int>, k: int) -> Seq<int> decreases k { if k <= 0 { Seq::empty() } else if w[k - 1] != 0 { absorb_w(w, k - 1).push(w[k - 1]) } else { absorb_w(w, k - 1) } }
pub open spec fn absorb_d(w: Seq<int>, d: Seq<D>, k: int) -> Seq<D> decreases k { if k <= 0 { seq![d[0]] } else if w[k - 1] != 0 { absorb_d(w, d, k - 1).push(d[k]) } else { add_last(absorb_d(w, d, k - 1), d[k]) } }
pub proof fn lem_rsum_push(s: Seq<D>, x: D)
  ensures rsum(s.push(x)) == rsum(s) + dv(x)
{ assert(s.push(x).drop_last() =~= s); }
pub proof fn lem_rsum_add_last(s: Seq<D>, x: D)
  requires s.len() > 0, s.last() is Fin, x is Fin
  ensures rsum(add_last(s, x)) == rsum(s) + dv(x)
{ lem_rsum_push(s.drop_last(), dadd(s.last(), x)); }
pub proof fn lem_absorb(w: Seq<int>, d: Seq<D>, k: int)
  requires tw_ok(w, d), 0 <= k <= w.len()
  ensures tw_ok(absorb_w(w, k), absorb_d(w, d, k)), no_silent(absorb_w(w, k)), rsum(absorb_d(w, d, k)) == rsum(d.subrange(0, k + 1)),
    absorb_w(w, k) =~= w.subrange(0, k).filter(|c: int| c != 0),
    no_silent(w) ==> absorb_w(w, k) =~= w.subrange(0, k) && absorb_d(w, d, k) =~= d.subrange(0, k + 1)
  decreases k
{
  reveal(Seq::filter);
  let p = |c: int| c != 0;
  if k <= 0 {
    assert(d.subrange(0, 1) =~= Seq::<D>::empty().push(d[0])); lem_rsum_push(Seq::<D>::empty(), d[0]);
    assert(absorb_d(w, d, 0) =~= Seq::<D>::empty().push(d[0]));
    assert(w.subrange(0, 0) =~= Seq::<int>::empty());
  } else {
    lem_absorb(w, d, k - 1);
    let a = absorb_d(w, d, k - 1);
    assert(d.subrange(0, k + 1) =~= d.subrange(0, k).push(d[k])); lem_rsum_push(d.subrange(0, k), d[k]);
    assert(w.subrange(0, k) =~= w.subrange(0, k - 1).push(w[k - 1]));
    assert(w.subrange(0, k).drop_last() =~= w.subrange(0, k - 1));
    lem_rsum_push(a, d[k]); lem_rsum_add_last(a, d[k]);
    if w[k - 1] != 0 { assert(p(w[k - 1])); }
  }
}
/// the concatenation joins the last and the first duration
pub open spec fn cat_d(a: Seq<D>, b: Seq<D>) -> Seq<D> { add_last(a, b[0]) + b.subrange(1, b.len() as int) }
pub proof fn lem_rsum_cat(a: Seq<D>, b: Seq<D>)
  ensures rsum(a + b) == rsum(a) + rsum(b)
  decreases b.len()
{
  if b.len() == 0 { assert(a + b =~= a); } else { lem_rsum_cat(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
pub proof fn lem_cat_d(a: Seq<D>, b: Seq<D>)
  requires a.len() > 0, b.len() > 0, fin_all(a), fin_all(b)
  ensures cat_d(a, b).len() == a.len() + b.len() - 1, fin_all(cat_d(a, b)), rsum(cat_d(a, b)) == rsum(a) + rsum(b),
    forall|i: int| 0 <= i < a.len() - 1 ==> #[trigger] cat_d(a, b)[i] == a[i],
    forall|i: int| a.len() <= i < cat_d(a, b).len() ==> #[trigger] cat_d(a, b)[i] == b[i - a.len() + 1],
    cat_d(a, b)[a.len() - 1] == fin(dv(a.last()) + dv(b[0]))
{
  let t = b.subrange(1, b.len() as int);
  lem_rsum_cat(add_last(a, b[0]), t); lem_rsum_add_last(a, b[0]);
  lem_rsum_cat(seq![b[0]], t); assert(seq![b[0]] + t =~= b);
  assert(seq![b[0]] =~= Seq::<D>::empty().push(b[0])); lem_rsum_push(Seq::<D>::empty(), b[0]); assert(rsum(Seq::<D>::empty()) == 0real);
}
/// b[i] is the sum of the durations from i to the end
pub open spec fn acc_from(d: Seq<D>, b: Seq<D>, i: int) -> bool { b.len() == d.len() && forall|k: int| i <= k < d.len() ==> (#[trigger] b[k]) == fin(rsum(d.subrange(k, d.len() as int))) }
pub proof fn lem_rsum_front(d: Seq<D>, k: int)
  requires 0 <= k < d.len()
  ensures rsum(d.subrange(k, d.len() as int)) == dv(d[k]) + rsum(d.subrange(k + 1, d.len() as int))
{
  let t = d.subrange(k + 1, d.len() as int);
  lem_rsum_cat(seq![d[k]], t); assert(seq![d[k]] + t =~= d.subrange(k, d.len() as int));
  assert(seq![d[k]] =~= Seq::<D>::empty().push(d[k])); lem_rsum_push(Seq::<D>::empty(), d[k]); assert(rsum(Seq::<D>::empty()) == 0real);
}
/// (pw, pd) is a prefix of (w, d)
pub open spec fn tw_prefix(pw: Seq<int>, pd: Seq<D>, w: Seq<int>, d: Seq<D>) -> bool {
  pw.len() <= w.len() && pw =~= w.subrange(0, pw.len() as int) && pd.len() == pw.len() + 1 && pd.drop_last() =~= d.subrange(0, pw.len() as int)
}
pub open spec fn suf_d(pw: Seq<int>, pd: Seq<D>, d: Seq<D>) -> Seq<D> { let s = d.subrange(pw.len() as int, d.len() as int); s.update(0, dadd(s[0], dneg(pd.last()))) }
pub proof fn lem_suffix(pw: Seq<int>, pd: Seq<D>, w: Seq<int>, d: Seq<D>)
  requires tw_ok(w, d), tw_ok(pw, pd), tw_prefix(pw, pd, w, d)
  ensures pw + w.subrange(pw.len() as int, w.len() as int) =~= w, cat_d(pd, suf_d(pw, pd, d)) =~= d, tw_ok(w.subrange(pw.len() as int, w.len() as int), suf_d(pw, pd, d)),
{
  let n = pw.len() as int; let s = suf_d(pw, pd, d);
  assert(fin_all(s));
  lem_cat_d(pd, s);
  assert forall|i: int| 0 <= i < d.len() implies cat_d(pd, s)[i] == d[i] by {
    if i < n { assert(pd.drop_last()[i] == d.subrange(0, n)[i]); assert(cat_d(pd, s)[i] == pd[i]); } else if i == n { assert(d[n] is Fin); assert(pd.last() is Fin); } else { assert(cat_d(pd, s)[i] == s[i - pd.len() + 1]); }
  }
  assert forall|i: int| 0 <= i < w.len() implies (pw + w.subrange(n, w.len() as int))[i] == w[i] by { if i < n { assert(pw[i] == w.subrange(0, n)[i]); } }
}
