// ---- chains of regions
pub open spec fn fr_inv(x: ForwardRegionalElementaryLanguage) -> bool { let m = x.base.timedCondition.zone.value; region_ok(m, x.fractionalOrder.order, 0) && fo_asc(x.fractionalOrder.order) && x.fractionalOrder.size == x.base.word.len() + 1 && m.rows == x.base.word.len() + 2 && nn(m) }
pub open spec fn fr_first(x: ForwardRegionalElementaryLanguage) -> bool { x.base.word.len() == 0 && isfirst(x.base.timedCondition.zone.value, 0) }
pub open spec fn fr_link(a: ForwardRegionalElementaryLanguage, b: ForwardRegionalElementaryLanguage) -> bool { fr_next(a.base.timedCondition.zone.value, a.fractionalOrder.order, a.base.word, b.base.timedCondition.zone.value, b.fractionalOrder.order, b.base.word) }
pub open spec fn fr_chain(s: Seq<ForwardRegionalElementaryLanguage>) -> bool { (forall|i: int| 0 <= i < s.len() ==> #[trigger] fr_inv(s[i])) && forall|i: int| 0 <= i < s.len() - 1 ==> #[trigger] fr_link(s[i], s[i + 1]) }
pub open spec fn fr_meas(x: ForwardRegionalElementaryLanguage) -> int { ctot(x.base.timedCondition.zone.value, 0, x.base.timedCondition.zone.value.rows - 1) }
pub proof fn lem_fr_front(q: ForwardRegionalElementaryLanguage, s: Seq<ForwardRegionalElementaryLanguage>)
  requires fr_chain(s), fr_inv(q), s.len() > 0, fr_link(q, s[0])
  ensures fr_chain(seq![q] + s), (seq![q] + s).last() == s.last(), (seq![q] + s)[0] == q, (seq![q] + s).len() == s.len() + 1
{
  let t = seq![q] + s;
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] fr_inv(t[i]) by { if i > 0 { assert(t[i] == s[i - 1]); } }
  assert forall|i: int| 0 <= i < t.len() - 1 implies #[trigger] fr_link(t[i], t[i + 1]) by { if i > 0 { assert(fr_link(s[i - 1], s[i - 1 + 1])); assert(t[i] == s[i - 1] && t[i + 1] == s[i]); } }
}
