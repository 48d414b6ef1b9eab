// the variables named by a renaming relation
pub open spec fn rn_seconds(ren: Seq<Pair<int, int>>) -> Seq<int> { Seq::new(ren.len(), |k: int| ren[k].second) }
pub open spec fn rn_ok(ren: Seq<Pair<int, int>>, n: int) -> bool { forall|k: int| 0 <= k < ren.len() ==> 0 <= (#[trigger] ren[k]).first < 256 && 0 <= ren[k].second < n }
pub open spec fn rn_full(ren: Seq<Pair<int, int>>, o: Mat) -> bool { forall|x: int| 0 <= x < o.rows - 1 ==> !#[trigger] rn_imprecise(ren, o, x) }
pub proof fn lem_rn_seconds(ren: Seq<Pair<int, int>>, s: Seq<int>)
  requires s.len() == ren.len(), forall|k: int| 0 <= k < ren.len() ==> #[trigger] s[k] == ren[k].second,
  ensures forall|x: int| #[trigger] s.contains(x) == rn_left(ren, x), s.no_duplicates() <==> rn_uniq(ren),
{
  assert forall|x: int| #[trigger] s.contains(x) == rn_left(ren, x) by {
    if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(ren[k].second == x); }
    if rn_left(ren, x) { let k = choose|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == x; assert(s[k] == x); }
  }
  if s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < j < ren.len() implies (#[trigger] ren[i]).second != (#[trigger] ren[j]).second by { assert(s[i] != s[j]); } }
  if rn_uniq(ren) { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { let _ = s[i]; let _ = s[j]; if i < j { assert(ren[i].second != ren[j].second); } else { assert(ren[j].second != ren[i].second); } } assert(s.no_duplicates()); }
}
/// a strictly ascending sequence of numbers below n has n elements iff it contains all of them
pub proof fn lem_asc_rank(s: Seq<int>, k: int)
  requires sasc_i(s), 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i],
  ensures s[k] >= k, decreases k
{ if k > 0 { lem_asc_rank(s, k - 1); assert(s[k - 1] < s[k]); } else { let _ = s[0]; } }
pub proof fn lem_asc_miss(s: Seq<int>, k: int, x: int)
  requires sasc_i(s), 0 <= k < s.len(), forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i], 0 <= x < s[k], !s.contains(x),
  ensures s[k] > k, decreases k
{ if k > 0 { if s[k - 1] > x { lem_asc_miss(s, k - 1, x); } else { assert(s[k - 1] != x) by { assert(s.contains(s[k - 1])); } lem_asc_rank(s, k - 1); assert(s[k] > x); } assert(s[k - 1] < s[k]); } }
pub proof fn lem_asc_all(s: Seq<int>, n: int)
  requires sasc_i(s), 0 <= n, forall|i: int| 0 <= i < s.len() ==> 0 <= #[trigger] s[i] < n,
  ensures s.len() <= n, s.len() == n <==> (forall|x: int| 0 <= x < n ==> #[trigger] s.contains(x)), decreases n
{
  if s.len() > 0 { lem_asc_rank(s, s.len() - 1); }
  if s.len() == n {
    assert forall|x: int| 0 <= x < n implies #[trigger] s.contains(x) by {
      if !s.contains(x) { let k = n - 1; assert(s.contains(s[k])); lem_asc_rank(s, k); assert(s[k] == k); if x < k { lem_asc_miss(s, k, x); } }
    }
  }
  if forall|x: int| 0 <= x < n ==> #[trigger] s.contains(x) {
    if n > 0 {
      assert(s.contains(n - 1)); let k = choose|k: int| 0 <= k < s.len() && s[k] == n - 1;
      if k < s.len() - 1 { assert(s[k] < s[s.len() - 1]); }
      let t = s.drop_last();
      assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < n - 1 by { assert(t[i] == s[i]); assert(s[i] < s[s.len() - 1]); }
      assert(sasc_i(t)) by { assert forall|i: int, j: int| 0 <= i < j < t.len() implies #[trigger] t[i] < #[trigger] t[j] by { assert(s[i] < s[j]); } }
      assert forall|x: int| 0 <= x < n - 1 implies #[trigger] t.contains(x) by { assert(s.contains(x)); let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
      lem_asc_all(t, n - 1);
    }
  }
}
pub open spec fn rn_restricted(ren: Seq<Pair<int, int>>, o: Mat, s: Seq<int>, n: int) -> bool { forall|x: int| #[trigger] s.contains(x) <==> (rn_left(ren, x) || (0 <= x < n && ptb(o.at(x + 1, 0), o.at(0, x + 1)))) }
pub proof fn lem_rn_restricted(ren: Seq<Pair<int, int>>, o: Mat, s: Seq<int>, t: Seq<int>, n: int)
  requires rn_restricted(ren, o, s, n), 0 <= n, t =~= (if ptb(o.at(n + 1, 0), o.at(0, n + 1)) { s.push(n) } else { s }),
  ensures rn_restricted(ren, o, t, n + 1)
{
  assert forall|x: int| #[trigger] t.contains(x) <==> (rn_left(ren, x) || (0 <= x < n + 1 && ptb(o.at(x + 1, 0), o.at(0, x + 1)))) by {
    assert(s.contains(x) <==> (rn_left(ren, x) || (0 <= x < n && ptb(o.at(x + 1, 0), o.at(0, x + 1)))));
    if ptb(o.at(n + 1, 0), o.at(0, n + 1)) { lem_contains_push(s, n, x); }
  }
}
pub proof fn lem_contains_push(s: Seq<int>, a: int, x: int)
  ensures s.push(a).contains(x) == (s.contains(x) || x == a)
{
  if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s.push(a)[j] == x); }
  if x == a { assert(s.push(a)[s.len() as int] == x); }
}
pub proof fn lem_rn_full(ren: Seq<Pair<int, int>>, o: Mat, s: Seq<int>, t: Seq<int>)
  requires rn_restricted(ren, o, s, o.rows - 1), rn_ok(ren, o.rows - 1), o.rows >= 1, sasc_i(t), forall|x: int| #[trigger] t.contains(x) == s.contains(x),
  ensures t.len() == o.rows - 1 <==> rn_full(ren, o)
{
  assert forall|i: int| 0 <= i < t.len() implies 0 <= #[trigger] t[i] < o.rows - 1 by {
    assert(t.contains(t[i])); assert(s.contains(t[i]));
    if rn_left(ren, t[i]) { let k = choose|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == t[i]; let _ = ren[k]; }
  }
  lem_asc_all(t, o.rows - 1);
  if rn_full(ren, o) { assert forall|x: int| 0 <= x < o.rows - 1 implies #[trigger] t.contains(x) by { assert(!rn_imprecise(ren, o, x)); assert(s.contains(x)); } }
  if t.len() == o.rows - 1 { assert forall|x: int| 0 <= x < o.rows - 1 implies !#[trigger] rn_imprecise(ren, o, x) by { assert(t.contains(x)); assert(s.contains(x)); } }
}
pub open spec fn rn_keeps(q: spec_fn(Pair<int, int>) -> bool, left: int) -> bool { forall|e: Pair<int, int>| #[trigger] q(e) == (e.first != left) }
pub open spec fn rn_erased(s: Seq<Pair<int, int>>, t: Seq<Pair<int, int>>, left: int) -> bool { forall|p: Pair<int, int>| #[trigger] t.contains(p) == (s.contains(p) && p.first != left) }
pub proof fn lem_rn_erased(s: Seq<Pair<int, int>>, q: spec_fn(Pair<int, int>) -> bool, left: int)
  requires rn_keeps(q, left), ensures rn_erased(s, s.filter(q), left)
{
  lem_filt(s, q); let t = s.filter(q);
  assert forall|p: Pair<int, int>| #[trigger] t.contains(p) == (s.contains(p) && p.first != left) by {
    if t.contains(p) { let i = choose|i: int| 0 <= i < t.len() && t[i] == p; assert(q(t[i])); }
    if s.contains(p) && p.first != left { let i = choose|i: int| 0 <= i < s.len() && s[i] == p; assert(q(s[i])); }
  }
}
