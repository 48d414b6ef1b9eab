// std::sort on pairs (value, index)
pub open spec fn di_le(a: Pair<D, int>, b: Pair<D, int>) -> bool { dlt(a.first, b.first) || (a.first == b.first && a.second <= b.second) }
pub open spec fn sort_di(s: Seq<Pair<D, int>>) -> Seq<Pair<D, int>> { s.sort_by(|a: Pair<D, int>, b: Pair<D, int>| di_le(a, b)) }
pub proof fn lem_sort_di(s: Seq<Pair<D, int>>)
  ensures sort_di(s).len() == s.len(), forall|i: int, j: int| 0 <= i < j < s.len() ==> di_le(#[trigger] sort_di(s)[i], #[trigger] sort_di(s)[j]),
    forall|x: Pair<D, int>| #[trigger] sort_di(s).contains(x) == s.contains(x), s.no_duplicates() ==> sort_di(s).no_duplicates()
{
  let le = |a: Pair<D, int>, b: Pair<D, int>| di_le(a, b);
  assert(vstd::relations::total_ordering(le)) by { reveal(vstd::relations::total_ordering) };
  s.lemma_sort_by_ensures(le);
  let t = sort_di(s);
  s.to_multiset_ensures(); t.to_multiset_ensures();
  if s.no_duplicates() { s.lemma_multiset_has_no_duplicates(); t.lemma_multiset_has_no_duplicates_conv(); }
  assert forall|x: Pair<D, int>| #[trigger] t.contains(x) == s.contains(x) by { assert(t.contains(x) == (t.to_multiset().count(x) > 0)); assert(s.contains(x) == (s.to_multiset().count(x) > 0)); }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies di_le(#[trigger] t[i], #[trigger] t[j]) by { assert(vstd::relations::sorted_by(t, le)); assert(le(t[i], t[j])); }
}
