// ---- orders of fractional parts: groups of variables
pub open spec fn gi(o: Seq<Seq<int>>, g: int, p: int) -> bool { 0 <= g < o.len() && 0 <= p < o[g].len() }
pub open spec fn has(o: Seq<Seq<int>>, i: int) -> bool { exists|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i }
/// every one of the n variables is in exactly one place; only the first group may be empty
pub open spec fn fo_part(o: Seq<Seq<int>>, n: int) -> bool {
  o.len() >= 1 && (forall|g: int| 1 <= g < o.len() ==> (#[trigger] o[g]).len() > 0)
  && (forall|g: int, p: int| #[trigger] gi(o, g, p) ==> 0 <= o[g][p] < n)
  && (forall|i: int| 0 <= i < n ==> #[trigger] has(o, i))
  && fo_once(o)
}
pub open spec fn fo_once(o: Seq<Seq<int>>) -> bool { forall|g: int, p: int, h: int, q: int| #[trigger] gi(o, g, p) && #[trigger] gi(o, h, q) && o[g][p] == o[h][q] ==> g == h && p == q }
/// the groups are in increasing order of f, equal within a group, 0 exactly in the first group
pub open spec fn fo_order(o: Seq<Seq<int>>, f: spec_fn(int) -> real) -> bool {
  (forall|g: int, p: int, h: int, q: int| #[trigger] gi(o, g, p) && #[trigger] gi(o, h, q) ==> (g < h ==> f(o[g][p]) < f(o[h][q])) && (g == h ==> f(o[g][p]) == f(o[h][q])))
  && (forall|g: int, p: int| #[trigger] gi(o, g, p) ==> (if g == 0 { f(o[g][p]) == 0real } else { f(o[g][p]) > 0real }))
}
/// the variables of a group are in increasing order
pub open spec fn fo_asc(o: Seq<Seq<int>>) -> bool { forall|g: int, p: int, q: int| #[trigger] gi(o, g, p) && #[trigger] gi(o, g, q) && p < q ==> o[g][p] < o[g][q] }
pub proof fn lem_asc(o: Seq<Seq<int>>, n: int)
  requires fo_asc(o), fo_part(o, n), n >= 1
  ensures fo_asc(fo_succ(o)), fo_asc(fo_pred(o)), fo_asc(fo_ext(o, n)), fo_asc(fo_ext0(o)), o[0].len() > 0 ==> fo_asc(fo_rem(o)) && fo_asc(fo_rem0(o)),
    has_at(o, 0, n - 1) ==> o[0].last() == n - 1, has_at(o, 0, 0) ==> o[0][0] == 0
{
  lem_rotate(o, n); lem_two(o, n);
  let (a, b, c, d) = (fo_succ(o), fo_pred(o), fo_ext(o, n), fo_ext0(o));
  assert forall|g: int, p: int, q: int| #[trigger] gi(a, g, p) && #[trigger] gi(a, g, q) && p < q implies a[g][p] < a[g][q] by { assert(gi(o, fo_from(o, g), p) && gi(o, fo_from(o, g), q)); }
  assert forall|g: int, p: int, q: int| #[trigger] gi(b, g, p) && #[trigger] gi(b, g, q) && p < q implies b[g][p] < b[g][q] by { assert(gi(o, fo_pfrom(o, g), p) && gi(o, fo_pfrom(o, g), q)); }
  assert forall|g: int, p: int, q: int| #[trigger] gi(c, g, p) && #[trigger] gi(c, g, q) && p < q implies c[g][p] < c[g][q] by { assert(gi(o, g, p)); if g == 0 && q == o[0].len() {} else { assert(gi(o, g, q)); } }
  assert forall|g: int, p: int, q: int| #[trigger] gi(d, g, p) && #[trigger] gi(d, g, q) && p < q implies d[g][p] < d[g][q] by { if g == 0 { assert(gi(o, g, q - 1)); if p > 0 { assert(gi(o, g, p - 1)); } } else { assert(gi(o, g, p) && gi(o, g, q)); } }
  if o[0].len() > 0 {
    let (e, f) = (fo_rem(o), fo_rem0(o));
    assert forall|g: int, p: int, q: int| #[trigger] gi(e, g, p) && #[trigger] gi(e, g, q) && p < q implies e[g][p] < e[g][q] by { assert(gi(o, g, p) && gi(o, g, q)); }
    assert forall|g: int, p: int, q: int| #[trigger] gi(f, g, p) && #[trigger] gi(f, g, q) && p < q implies f[g][p] < f[g][q] by { if g == 0 { assert(gi(o, g, p + 1) && gi(o, g, q + 1)); } else { assert(gi(o, g, p) && gi(o, g, q)); } }
    let l = o[0].len() - 1; assert(gi(o, 0, l) && gi(o, 0, 0));
    if has_at(o, 0, n - 1) { let p = choose|p: int| #[trigger] gi(o, 0, p) && o[0][p] == n - 1; }
    if has_at(o, 0, 0) { let p = choose|p: int| #[trigger] gi(o, 0, p) && o[0][p] == 0; }
  }
}
pub open spec fn has_at(o: Seq<Seq<int>>, g: int, i: int) -> bool { exists|p: int| #[trigger] gi(o, g, p) && o[g][p] == i }
/// the first variable removed and the others renamed
pub open spec fn dec(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] - 1) }
pub open spec fn fo_rem0(o: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(o.len(), |g: int| if g == 0 { dec(o[0].drop_first()) } else { dec(o[g]) }) }
pub open spec fn fo_hd(o: Seq<Seq<int>>) -> Seq<Seq<int>> { o.update(0, o[0].drop_first()) }
pub proof fn lem_hd(o: Seq<Seq<int>>, n: int, g: int)
  requires fo_part(o, n), o[0].len() > 0, o[0][0] == 0, 0 <= g < o.len()
  ensures forall|p: int| 0 <= p < fo_hd(o)[g].len() ==> 1 <= #[trigger] fo_hd(o)[g][p] < n
{
  let h = fo_hd(o); assert(gi(o, 0, 0));
  assert forall|p: int| 0 <= p < h[g].len() implies 1 <= #[trigger] h[g][p] < n by { if g == 0 { assert(h[g][p] == o[0][p + 1]); assert(gi(o, 0, p + 1)); } else { assert(h[g][p] == o[g][p]); assert(gi(o, g, p)); } }
}
pub proof fn lem_rem0(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 1
  ensures o[0].len() > 0 && o[0][0] == 0 ==> fo_part(fo_rem0(o), n - 1), fo_rem0(fo_ext0(o)) =~= o
{
  let s = fo_ext0(o); let u = fo_rem0(s);
  assert forall|g: int| 0 <= g < o.len() implies u[g] =~= o[g] by {}
  assert(u =~= o);
  if o[0].len() > 0 && o[0][0] == 0 {
    let r = fo_rem0(o);
    assert(gi(o, 0, 0));
    assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == 0 { gi(o, g, p + 1) && r[g][p] == o[g][p + 1] - 1 } else { gi(o, g, p) && r[g][p] == o[g][p] - 1 }) && 0 <= r[g][p] < n - 1 by { if g == 0 { assert(gi(o, g, p + 1)); } else { assert(gi(o, g, p)); } }
    assert forall|g: int| 1 <= g < r.len() implies (#[trigger] r[g]).len() > 0 by { assert(o[g].len() > 0); }
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] has(r, i) by {
      assert(has(o, i + 1)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i + 1;
      if g == 0 { assert(gi(r, g, p - 1) && r[g][p - 1] == i); } else { assert(gi(r, g, p) && r[g][p] == i); }
    }
  }
}
/// the rotations
pub open spec fn fo_succ(o: Seq<Seq<int>>) -> Seq<Seq<int>> { if o[0].len() == 0 { Seq::<Seq<int>>::empty().push(o.last()) + o.subrange(1, o.len() - 1) } else { Seq::<Seq<int>>::empty().push(Seq::<int>::empty()) + o } }
pub open spec fn fo_pred(o: Seq<Seq<int>>) -> Seq<Seq<int>> { if o[0].len() == 0 { o.subrange(1, o.len() as int) } else { Seq::<Seq<int>>::empty().push(Seq::<int>::empty()) + o.subrange(1, o.len() as int) + Seq::<Seq<int>>::empty().push(o[0]) } }
pub open spec fn fo_succ_vars(o: Seq<Seq<int>>) -> Seq<int> { if o[0].len() == 0 { o.last() } else { o[0] } }
pub open spec fn fo_pred_vars(o: Seq<Seq<int>>) -> Seq<int> { if o[0].len() == 0 { o[1] } else { o[0] } }
/// where a position of the rotated order comes from
pub open spec fn fo_from(o: Seq<Seq<int>>, g: int) -> int { if o[0].len() == 0 { if g == 0 { o.len() - 1 } else { g } } else { g - 1 } }
pub open spec fn fo_pfrom(o: Seq<Seq<int>>, g: int) -> int { if o[0].len() == 0 { g + 1 } else if g == o.len() { 0 } else { g } }
pub proof fn lem_two(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 1
  ensures o[0].len() == 0 ==> o.len() >= 2
{ assert(has(o, 0)); }
pub proof fn lem_rotate(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 1
  ensures fo_part(fo_succ(o), n), fo_part(fo_pred(o), n), fo_pred(fo_succ(o)) =~= o, fo_succ(fo_pred(o)) =~= o,
    forall|g: int, p: int| #[trigger] gi(fo_succ(o), g, p) ==> gi(o, fo_from(o, g), p) && fo_succ(o)[g][p] == o[fo_from(o, g)][p],
    forall|g: int, p: int| #[trigger] gi(fo_pred(o), g, p) ==> gi(o, fo_pfrom(o, g), p) && fo_pred(o)[g][p] == o[fo_pfrom(o, g)][p],
{
  lem_two(o, n);
  let r = fo_succ(o); let q = fo_pred(o);
  if o[0].len() == 0 { assert(o[0] =~= Seq::<int>::empty()); assert(o.last().len() > 0); assert(o[1].len() > 0); }
  assert(fo_pred(r) =~= o); assert(fo_succ(q) =~= o);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies gi(o, fo_from(o, g), p) && r[g][p] == o[fo_from(o, g)][p] by {}
  assert forall|g: int, p: int| #[trigger] gi(q, g, p) implies gi(o, fo_pfrom(o, g), p) && q[g][p] == o[fo_pfrom(o, g)][p] by {}
  assert forall|i: int| 0 <= i < n implies #[trigger] has(r, i) by {
    assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i;
    let h = if o[0].len() == 0 { if g == o.len() - 1 { 0 } else { g } } else { g + 1 };
    assert(gi(r, h, p) && r[h][p] == i);
  }
  assert forall|i: int| 0 <= i < n implies #[trigger] has(q, i) by {
    assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i;
    let h = if o[0].len() == 0 { g - 1 } else if g == 0 { o.len() as int } else { g };
    assert(gi(q, h, p) && q[h][p] == i);
  }
}
/// extending and removing
pub open spec fn fo_ext(o: Seq<Seq<int>>, n: int) -> Seq<Seq<int>> { o.update(0, o[0].push(n)) }
pub open spec fn fo_rem(o: Seq<Seq<int>>) -> Seq<Seq<int>> { o.update(0, o[0].drop_last()) }
pub open spec fn inc(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |k: int| s[k] + 1) }
pub open spec fn fo_shift(o: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(o.len(), |g: int| inc(o[g])) }
pub open spec fn fo_ext0(o: Seq<Seq<int>>) -> Seq<Seq<int>> { fo_shift(o).update(0, Seq::<int>::empty().push(0) + inc(o[0])) }
pub proof fn lem_ext(o: Seq<Seq<int>>, n: int)
  requires fo_part(o, n), n >= 0
  ensures fo_part(fo_ext(o, n), n + 1), fo_part(fo_ext0(o), n + 1), o[0].len() > 0 && o[0].last() == n - 1 ==> fo_part(fo_rem(o), n - 1), fo_rem(fo_ext(o, n)) =~= o,
{
  let r = fo_ext(o, n);
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == 0 && p == o[0].len() { r[g][p] == n } else { gi(o, g, p) && r[g][p] == o[g][p] }) by {}
  assert forall|i: int| 0 <= i < n + 1 implies #[trigger] has(r, i) by {
    if i == n { assert(gi(r, 0, o[0].len() as int)); } else { assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i; assert(gi(r, g, p) && r[g][p] == i); }
  }
  assert(r[0].drop_last() =~= o[0]);
  assert forall|g: int| 1 <= g < r.len() implies (#[trigger] r[g]).len() > 0 by { assert(r[g] == o[g]); }
  let s = fo_ext0(o);
  assert forall|g: int| 1 <= g < s.len() implies (#[trigger] s[g]).len() > 0 by { assert(s[g].len() == o[g].len()); }
  assert forall|g: int, p: int| #[trigger] gi(s, g, p) implies (if g == 0 { if p == 0 { s[g][p] == 0 } else { gi(o, g, p - 1) && s[g][p] == o[g][p - 1] + 1 } } else { gi(o, g, p) && s[g][p] == o[g][p] + 1 }) by {}
  assert forall|i: int| 0 <= i < n + 1 implies #[trigger] has(s, i) by {
    if i == 0 { assert(gi(s, 0, 0)); } else { assert(has(o, i - 1)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i - 1; if g == 0 { assert(gi(s, g, p + 1) && s[g][p + 1] == i); } else { assert(gi(s, g, p) && s[g][p] == i); } }
  }
  if o[0].len() > 0 && o[0].last() == n - 1 {
    let t = fo_rem(o);
    assert(gi(o, 0, o[0].len() - 1));
    assert forall|g: int, p: int| #[trigger] gi(t, g, p) implies gi(o, g, p) && t[g][p] == o[g][p] && t[g][p] < n - 1 by { assert(gi(o, g, p)); }
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] has(t, i) by { assert(has(o, i)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == i; assert(gi(t, g, p) && t[g][p] == i); }
  }
}
// ---- construction from sorted fractional parts
pub open spec fn fpart(s: Seq<D>) -> spec_fn(int) -> real { |i: int| dv(s[i]) }
pub open spec fn in_unit(s: Seq<D>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Fin && 0real <= dv(s[i]) < 1real }
/// t lists the parts of s with their indices in increasing order
pub open spec fn sorted_of(t: Seq<Pair<D, int>>, s: Seq<D>) -> bool {
  t.len() == s.len() && (forall|q: int| 0 <= q < t.len() ==> 0 <= (#[trigger] t[q]).second < s.len() && t[q].first == s[t[q].second])
  && (forall|q: int, p: int| 0 <= q < p < t.len() ==> dle((#[trigger] t[q]).first, (#[trigger] t[p]).first) && t[q].second != t[p].second && (t[q].first == t[p].first ==> t[q].second < t[p].second))
  && (forall|i: int| 0 <= i < s.len() ==> #[trigger] placed(t, i, t.len() as int))
}
pub open spec fn placed(t: Seq<Pair<D, int>>, i: int, k: int) -> bool { exists|q: int| 0 <= q < k && (#[trigger] t[q]).second == i }
pub open spec fn indexed(u: Seq<Pair<D, int>>, s: Seq<D>, k: int) -> bool { u.len() == s.len() && forall|i: int| 0 <= i < k ==> #[trigger] u[i] == (Pair { first: s[i], second: i }) }
pub proof fn lem_sorted_of(u: Seq<Pair<D, int>>, s: Seq<D>)
  requires indexed(u, s, s.len() as int)
  ensures sorted_of(sort_di(u), s)
{
  lem_sort_di(u);
  let t = sort_di(u);
  assert(u.no_duplicates());
  assert forall|q: int| 0 <= q < t.len() implies 0 <= (#[trigger] t[q]).second < s.len() && t[q].first == s[t[q].second] by { assert(t.contains(t[q])); assert(u.contains(t[q])); }
  assert forall|q: int, p: int| 0 <= q < p < t.len() implies dle((#[trigger] t[q]).first, (#[trigger] t[p]).first) && t[q].second != t[p].second && (t[q].first == t[p].first ==> t[q].second < t[p].second) by { assert(t[q] != t[p]); }
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] placed(t, i, t.len() as int) by { assert(u.contains(u[i])); assert(t.contains(u[i])); let q = choose|q: int| 0 <= q < t.len() && t[q] == u[i]; assert(t[q].second == i); }
}
/// the first k entries of t are placed; cur is the part of the last group
pub open spec fn built(o: Seq<Seq<int>>, t: Seq<Pair<D, int>>, k: int, f: spec_fn(int) -> real, cur: D) -> bool {
  o.len() >= 1 && (forall|g: int| 1 <= g < o.len() ==> (#[trigger] o[g]).len() > 0) && fo_once(o) && fo_asc(o) && fo_order(o, f) && cur is Fin
  && (forall|g: int, p: int| #[trigger] gi(o, g, p) ==> placed(t, o[g][p], k))
  && (forall|q: int| 0 <= q < k ==> has(o, (#[trigger] t[q]).second) && dle(t[q].first, cur))
  && (forall|p: int| #[trigger] gi(o, o.len() - 1, p) ==> f(o[o.len() - 1][p]) == dv(cur)) && (if o.len() == 1 { dv(cur) == 0real } else { dv(cur) > 0real })
}
pub open spec fn place(o: Seq<Seq<int>>, cur: D, e: Pair<D, int>) -> Seq<Seq<int>> { if cur == e.first { o.update(o.len() - 1, o.last().push(e.second)) } else { o.push(Seq::<int>::empty().push(e.second)) } }
pub proof fn lem_built(o: Seq<Seq<int>>, t: Seq<Pair<D, int>>, k: int, s: Seq<D>, cur: D)
  requires built(o, t, k, fpart(s), cur), sorted_of(t, s), in_unit(s), 0 <= k < t.len()
  ensures built(place(o, cur, t[k]), t, k + 1, fpart(s), t[k].first)
{
  let r = place(o, cur, t[k]); let f = fpart(s); let e = t[k];
  assert(e.first == s[e.second]); assert(s[e.second] is Fin);
  let l = o.len() - 1;
  let (ng, np) = if cur == e.first { (l, o[l].len() as int) } else { (l + 1, 0) };
  assert(dle(cur, e.first)) by { if k > 0 { if gi(o, l, 0) { assert(placed(t, o[l][0], k)); let q = choose|q: int| 0 <= q < k && (#[trigger] t[q]).second == o[l][0]; assert(dle(t[q].first, t[k].first)); assert(f(o[l][0]) == dv(cur)); } else { assert(o.len() == 1); } } else { if gi(o, l, 0) { assert(placed(t, o[l][0], k)); } } }
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies (if g == ng && p == np { r[g][p] == e.second } else { gi(o, g, p) && r[g][p] == o[g][p] && r[g][p] != e.second && placed(t, r[g][p], k) }) by {
    if !(g == ng && p == np) { assert(gi(o, g, p)); let q = choose|q: int| 0 <= q < k && (#[trigger] t[q]).second == o[g][p]; assert(t[q].second != t[k].second); }
  }
  assert(gi(r, ng, np));
  assert forall|g: int, p: int| #[trigger] gi(r, g, p) implies placed(t, r[g][p], k + 1) by {
    if g == ng && p == np { assert(t[k].second == e.second); } else { let q = choose|q: int| 0 <= q < k && (#[trigger] t[q]).second == r[g][p]; assert(0 <= q < k + 1); }
  }
  assert forall|q: int| 0 <= q < k + 1 implies has(r, (#[trigger] t[q]).second) && dle(t[q].first, e.first) by {
    if q < k { assert(has(o, t[q].second)); let (g, p) = choose|g: int, p: int| #[trigger] gi(o, g, p) && o[g][p] == t[q].second; assert(gi(r, g, p)); }
  }
  // the new element is above all others, and equal to those of the last group if it joins that
  assert forall|g: int, p: int| #[trigger] gi(o, g, p) implies f(o[g][p]) <= dv(cur) && (g < l ==> f(o[g][p]) < dv(cur)) by {
    assert(placed(t, o[g][p], k)); let q = choose|q: int| 0 <= q < k && (#[trigger] t[q]).second == o[g][p]; assert(t[q].first == s[t[q].second]); assert(s[t[q].second] is Fin); assert(dle(t[q].first, cur));
    if g < l { assert(gi(o, l, 0)); assert(f(o[g][p]) < f(o[l][0])); }
  }
  assert(dv(e.first) == f(e.second));
  assert forall|g: int, p: int, q: int| #[trigger] gi(r, g, p) && #[trigger] gi(r, g, q) && p < q implies r[g][p] < r[g][q] by {
    if g == ng && q == np { if g == l { assert(placed(t, o[g][p], k)); let h = choose|h: int| 0 <= h < k && (#[trigger] t[h]).second == o[g][p]; assert(t[h].first == s[t[h].second]); assert(s[t[h].second] is Fin); assert(f(o[g][p]) == dv(cur)); assert(t[h].first == t[k].first); } }
  }
  assert forall|g: int, p: int, h: int, q: int| #[trigger] gi(r, g, p) && #[trigger] gi(r, h, q) implies (g < h ==> f(r[g][p]) < f(r[h][q])) && (g == h ==> f(r[g][p]) == f(r[h][q])) by { }
}
pub proof fn lem_built_end(o: Seq<Seq<int>>, t: Seq<Pair<D, int>>, s: Seq<D>, cur: D)
  requires built(o, t, s.len() as int, fpart(s), cur), sorted_of(t, s)
  ensures fo_part(o, s.len() as int), fo_order(o, fpart(s)), fo_asc(o)
{
  assert forall|g: int, p: int| #[trigger] gi(o, g, p) implies 0 <= o[g][p] < s.len() by { assert(placed(t, o[g][p], s.len() as int)); let q = choose|q: int| 0 <= q < s.len() && (#[trigger] t[q]).second == o[g][p]; }
  assert forall|i: int| 0 <= i < s.len() implies #[trigger] has(o, i) by { assert(placed(t, i, t.len() as int)); let q = choose|q: int| 0 <= q < t.len() && (#[trigger] t[q]).second == i; assert(has(o, t[q].second)); }
}
