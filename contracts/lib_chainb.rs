// ---- chains of regions
pub open spec fn br_inv(x: BackwardRegionalElementaryLanguage) -> bool { let m = x.base.timedCondition.zone.value; region_ok(m, x.fractionalOrder.order, 1) && fo_asc(x.fractionalOrder.order) && x.fractionalOrder.size == x.base.word.len() + 1 && m.rows == x.base.word.len() + 2 && nn(m) }
pub open spec fn br_first(x: BackwardRegionalElementaryLanguage) -> bool { x.base.word.len() == 0 && isfirst(x.base.timedCondition.zone.value, 1) }
pub open spec fn br_link(a: BackwardRegionalElementaryLanguage, b: BackwardRegionalElementaryLanguage) -> bool { br_next(a.base.timedCondition.zone.value, a.fractionalOrder.order, a.base.word, b.base.timedCondition.zone.value, b.fractionalOrder.order, b.base.word) }
pub open spec fn br_chain(s: Seq<BackwardRegionalElementaryLanguage>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] br_inv(s[i])) && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] br_link(s[i], s[i + 1]) }
pub open spec fn br_meas(x: BackwardRegionalElementaryLanguage) -> int { ctot(x.base.timedCondition.zone.value, 1, x.base.timedCondition.zone.value.rows - 1) }
pub proof fn lem_br_front(q: BackwardRegionalElementaryLanguage, s: Seq<BackwardRegionalElementaryLanguage>)
  requires br_chain(s), br_inv(q), s.len() > 0, br_link(q, s[0])
  ensures br_chain(seq![q] + s), (seq![q] + s).last() == s.last(), (seq![q] + s)[0] == q, (seq![q] + s).len() == s.len() + 1
{
  let t = seq![q] + s;
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] br_inv(t[i]) by { if i > 0 { assert(t[i] == s[i - 1]); } }
  assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] br_link(t[i], t[i + 1]) by { if i > 0 { assert(br_link(s[i - 1], s[i - 1 + 1])); assert(t[i] == s[i - 1] && t[i + 1] == s[i]); } }
}
