// ---- hulls of elementary languages over the same word
pub open spec fn el_member(e: ElementaryLanguage, w: Seq<int>) -> bool { e.word == w && canonical(e.timedCondition.zone.value) && e.timedCondition.zone.value.rows == w.len() + 2 }
pub open spec fn el_above(l: Seq<ElementaryLanguage>, d: Mat, n: int) -> bool { wf(d) && l.len() > 0 && d.rows == l[0].word.len() + 2 && forall|k: int| 0 <= k < n ==> subset((#[trigger] l[k]).timedCondition.zone.value, d) }
pub proof fn lem_subset_trans(a: Mat, b: Mat, c: Mat)
  requires subset(a, b), subset(b, c)
  ensures subset(a, c)
{ assert forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) implies sat(c, v) by { assert(sat(b, v)); } }
pub open spec fn el_bounded(l: Seq<ElementaryLanguage>) -> bool { forall|k: int| 0 <= k < l.len() ==> intm((#[trigger] l[k]).timedCondition.zone.value) && bounded_m(l[k].timedCondition.zone.value) }
