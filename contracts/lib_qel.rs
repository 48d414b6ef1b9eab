/// an elementary language that can be queried
pub open spec fn q_el(e: ElementaryLanguage) -> bool {
  canonical(e.timedCondition.zone.value) && intm(e.timedCondition.zone.value) && bounded_m(e.timedCondition.zone.value) && e.timedCondition.zone.value.rows == e.word.len() + 2 && no_silent(e.word) && e.word.len() < 0x7fff_ffff
}
