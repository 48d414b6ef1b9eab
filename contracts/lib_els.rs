// ---- the conditions of a list of elementary languages
pub open spec fn conds(s: Seq<ElementaryLanguage>) -> Seq<TimedCondition> { Seq::new(s.len(), |i: int| s[i].timedCondition) }
