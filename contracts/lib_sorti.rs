// std::sort and std::unique on integers
pub open spec fn sort_i(s: Seq<int>) -> Seq<int> { s.sort_by(|a: int, b: int| a <= b) }
pub proof fn lem_sort_i(s: Seq<int>)
  ensures sort_i(s).len() == s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] sort_i(s)[i] <= #[trigger] sort_i(s)[j],
    forall|x: int| #[trigger] sort_i(s).contains(x) == s.contains(x), s.no_duplicates() ==> sort_i(s).no_duplicates(),
    sort_i(s).no_duplicates() ==> s.no_duplicates()
{
  let le = |a: int, b: int| a <= b;
  assert(vstd::relations::total_ordering(le)) by { reveal(vstd::relations::total_ordering) };
  s.lemma_sort_by_ensures(le);
  let t = sort_i(s);
  s.to_multiset_ensures(); t.to_multiset_ensures();
  if s.no_duplicates() { s.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv(); }
  if t.no_duplicates() { t.lemma_multiset_has_no_duplicates(); s.lemma_multiset_has_no_duplicates_conv(); }
  assert forall|x: int| #[trigger] t.contains(x) == s.contains(x) by { assert(t.contains(x) == (t.to_multiset().count(x) > 0)); assert(s.contains(x) == (s.to_multiset().count(x) > 0)); }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] t[i] <= #[trigger] t[j] by { assert(vstd::relations::sorted_by(t, le)); assert(le(t[i], t[j])); }
}
// the first element of each run of equal elements
pub open spec fn uniq_i(s: Seq<int>) -> Seq<int> decreases s.len() {
  if s.len() <= 1 { s } else if s[s.len() - 1] == s[s.len() - 2] { uniq_i(s.drop_last()) } else { uniq_i(s.drop_last()).push(s.last()) }
}
pub open spec fn asc_i(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn sasc_i(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub proof fn lem_uniq_i(s: Seq<int>)
  ensures uniq_i(s).len() <= s.len(), s.len() > 0 ==> uniq_i(s).len() > 0 && uniq_i(s).last() == s.last(),
    forall|x: int| #[trigger] uniq_i(s).contains(x) == s.contains(x),
    asc_i(s) ==> sasc_i(uniq_i(s)), asc_i(s) ==> (uniq_i(s).len() == s.len() <==> s.no_duplicates())
  decreases s.len()
{
  if s.len() > 1 {
    let p = s.drop_last(); let u = uniq_i(p);
    lem_uniq_i(p);
    assert(p.last() == s[s.len() - 2]);
    let n = s.len() - 1;
    assert forall|x: int| #[trigger] uniq_i(s).contains(x) == s.contains(x) by {
      assert(u.contains(x) == p.contains(x));
      if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < n { assert(p[i] == x); assert(p.contains(x)); } }
      if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(s[i] == x); }
      assert(s.contains(s[n]));
      if s[n] != s[n - 1] {
        let v = u.push(s.last());
        if v.contains(x) { let i = choose|i: int| 0 <= i < v.len() && v[i] == x; if i < u.len() { assert(u[i] == x); assert(u.contains(x)); } }
        if u.contains(x) { let i = choose|i: int| 0 <= i < u.len() && u[i] == x; assert(v[i] == x); }
        assert(v[u.len() as int] == s.last()); assert(v.contains(s.last()));
      } else { assert(p[n - 1] == s[n]); assert(p.contains(s[n])); }
    }
    if asc_i(s) {
      assert(asc_i(p)) by { assert forall|i: int, j: int| 0 <= i < j < p.len() implies #[trigger] p[i] <= #[trigger] p[j] by { assert(s[i] <= s[j]); } }
      if s[n] != s[n - 1] {
        let v = u.push(s.last());
        assert(s[n - 1] <= s[n]);
        assert(sasc_i(v)) by { assert forall|i: int, j: int| 0 <= i < j < v.len() implies #[trigger] v[i] < #[trigger] v[j] by { if j < u.len() { assert(u[i] < u[j]); } else { let k = u.len() - 1; if i < k { assert(u[i] < u[k]); } } } }
        if p.no_duplicates() {
          assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            if i < n && j < n { assert(p[i] == s[i] && p[j] == s[j]); }
            if i == n { if j < n - 1 { assert(s[j] <= s[n - 1]); } }
            if j == n { if i < n - 1 { assert(s[i] <= s[n - 1]); } }
          }
          assert(s.no_duplicates());
        }
        if s.no_duplicates() { assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by { assert(s[i] != s[j]); } assert(p.no_duplicates()); }
      } else { assert(s[n] == s[n - 1]); assert(!s.no_duplicates()); }
    }
  } else {
    if s.len() == 1 { assert(s.no_duplicates()); } 
  }
}
