// ---- symbolic membership queries
/// the system does not distinguish words of a simple elementary language
pub open spec fn uniform(lang: int) -> bool {
  forall|w: TimedWord, x: TimedWord, m: Mat| #![trigger member(lang, w), member(lang, x), simple(m)] w.word == x.word && tw_ok(w.word, w.durations) && tw_ok(x.word, x.durations) && canonical(m) && intm(m) && m.rows == w.word.len() + 2 && simple(m)
    && sat(m, wv(w.durations)) && sat(m, wv(x.durations)) ==> member(lang, w) == member(lang, x)
}
/// the conditions describe exactly the words of e which are in the language
pub open spec fn sym_of(lang: int, e: ElementaryLanguage, s: Seq<TimedCondition>) -> bool {
  forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == e.word && tw_ok(w.word, w.durations) ==> (in_some(s, wv(w.durations)) == (sat(e.timedCondition.zone.value, wv(w.durations)) && member(lang, w)))
}
pub open spec fn sym_cache(m: Map<ElementaryLanguage, TimedConditionSet>, lang: int) -> bool { forall|k: ElementaryLanguage| #[trigger] m.dom().contains(k) ==> q_el(k) && sym_of(lang, k, m[k].conditions) }
