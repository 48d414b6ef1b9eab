// recognizable languages: prefixes, final prefixes, and morphisms that rewrite the remaining words
pub open spec fn el_ok(e: ElementaryLanguage) -> bool { wf(e.timedCondition.zone.value) && e.timedCondition.zone.value.rows == e.word.len() + 2 }
pub open spec fn mor_ok(m: SingleMorphism) -> bool {
  &&& wf(m.domain.timedCondition.zone.value) && nng(m.domain.timedCondition.zone.value) && m.domain.timedCondition.zone.value.rows == m.domain.word.len() + 2
  &&& canonical(m.codomain.timedCondition.zone.value) && nng(m.codomain.timedCondition.zone.value) && m.codomain.timedCondition.zone.value.rows == m.codomain.word.len() + 2 && no_silent(m.codomain.word)
  &&& m.domain.word.len() + m.codomain.word.len() + 4 <= 256
  &&& forall|k: int| 0 <= k < m.renaming.base.len() ==> 0 <= (#[trigger] m.renaming.base[k]).first <= m.domain.word.len() && 0 <= m.renaming.base[k].second <= m.codomain.word.len()
}
pub open spec fn els_ok(s: Seq<ElementaryLanguage>) -> bool { forall|k: int| 0 <= k < s.len() ==> el_ok(#[trigger] s[k]) }
pub open spec fn rl_ok(l: RecognizableLanguage) -> bool { els_ok(l.prefixes) && els_ok(l.final_) && forall|k: int| 0 <= k < l.morphisms.len() ==> mor_ok(#[trigger] l.morphisms[k]) }
pub open spec fn member_of(e: ElementaryLanguage, w: TimedWord) -> bool { w.word == e.word && sat(e.timedCondition.zone.value, wv(w.durations)) }
pub open spec fn in_any(s: Seq<ElementaryLanguage>, w: TimedWord) -> bool { exists|k: int| 0 <= k < s.len() && member_of(#[trigger] s[k], w) }
pub open spec fn none_upto(s: Seq<ElementaryLanguage>, w: TimedWord, n: int) -> bool { forall|k: int| 0 <= k < n ==> !member_of(#[trigger] s[k], w) }
/// the prefix of the triple is in the domain of its morphism, which relates it to a word of the codomain
pub open spec fn trip_ok(t: RecognizableLanguage_SplitTriple) -> bool {
  &&& mor_ok(t.morphism) && tw_ok(t.prefix.word, t.prefix.durations) && tw_ok(t.suffix.word, t.suffix.durations) && no_silent(t.suffix.word)
  &&& member_of(t.morphism.domain, t.prefix) && morph_to(t.morphism.codomain.timedCondition.zone.value, t.morphism.renaming.base, wv(t.prefix.durations))
}
/// the triple splits the word
pub open spec fn splits(l: RecognizableLanguage, w: TimedWord, t: RecognizableLanguage_SplitTriple) -> bool {
  trip_ok(t) && l.morphisms.contains(t.morphism) && w.word == t.prefix.word + t.suffix.word && w.durations == cat_d(t.prefix.durations, t.suffix.durations)
}
// how a word is split is a function of the language and the word
pub uninterp spec fn split_raw(l: RecognizableLanguage, w: TimedWord) -> Option<RecognizableLanguage_SplitTriple>;
pub open spec fn rl_split(l: RecognizableLanguage, w: TimedWord) -> Option<RecognizableLanguage_SplitTriple> {
  if split_raw(l, w) is Some && splits(l, w, split_raw(l, w)->Some_0) { split_raw(l, w) } else { None }
}
/// the prefix p of the triple replaced by the word q of the codomain
pub open spec fn mor_image(t: RecognizableLanguage_SplitTriple, q: TimedWord) -> bool {
  tw_ok(q.word, q.durations) && member_of(t.morphism.codomain, q) && renamed(t.morphism.renaming.base, wv(t.prefix.durations), wv(q.durations))
}
pub open spec fn applied(t: RecognizableLanguage_SplitTriple, r: TimedWord) -> bool {
  exists|q: TimedWord| #[trigger] mor_image(t, q) && r.word == q.word + t.suffix.word && r.durations == cat_d(q.durations, t.suffix.durations)
}
/// w1 is a next rewriting of w (a word in the prefixes stays)
pub open spec fn rl_step(l: RecognizableLanguage, w: TimedWord, w1: TimedWord) -> bool {
  if in_any(l.prefixes, w) { w1 == w } else { rl_split(l, w) is Some && applied(rl_split(l, w)->Some_0, w1) }
}
pub open spec fn leads_n(l: RecognizableLanguage, w: TimedWord, w1: TimedWord, n: nat) -> bool decreases n {
  if n == 0 { w1 == w } else { exists|m: TimedWord| #[trigger] rl_step(l, m, w1) && leads_n(l, w, m, (n - 1) as nat) }
}
/// w1 is reached from w by rewriting
pub open spec fn leads(l: RecognizableLanguage, w: TimedWord, w1: TimedWord) -> bool { exists|n: nat| #[trigger] leads_n(l, w, w1, n) }
/// every rewriting of w ends in the prefixes after at most n steps
pub open spec fn ends_n(l: RecognizableLanguage, w: TimedWord, n: nat) -> bool decreases n {
  in_any(l.prefixes, w) || (n > 0 && rl_split(l, w) is Some && forall|w1: TimedWord| #[trigger] rl_step(l, w, w1) && tw_ok(w1.word, w1.durations) ==> ends_n(l, w1, (n - 1) as nat))
}
pub open spec fn ends(l: RecognizableLanguage, w: TimedWord) -> bool { exists|n: nat| #[trigger] ends_n(l, w, n) }
pub open spec fn is_rank(l: RecognizableLanguage, w: TimedWord, n: nat) -> bool { ends_n(l, w, n) && forall|k: nat| #[trigger] ends_n(l, w, k) ==> n <= k }
pub open spec fn rank(l: RecognizableLanguage, w: TimedWord) -> nat { choose|n: nat| is_rank(l, w, n) }
pub proof fn lem_least(l: RecognizableLanguage, w: TimedWord, n: nat)
  requires ends_n(l, w, n), ensures exists|k: nat| is_rank(l, w, k), decreases n,
{ if exists|k: nat| #[trigger] ends_n(l, w, k) && k < n { let k = choose|k: nat| #[trigger] ends_n(l, w, k) && k < n; lem_least(l, w, k); } else { assert(is_rank(l, w, n)); } }
pub proof fn lem_rank(l: RecognizableLanguage, w: TimedWord)
  requires ends(l, w), ensures is_rank(l, w, rank(l, w)),
{ let n = choose|n: nat| #[trigger] ends_n(l, w, n); lem_least(l, w, n); }
pub proof fn lem_step(l: RecognizableLanguage, w0: TimedWord, w: TimedWord, w1: TimedWord)
  requires ends(l, w), leads(l, w0, w), !in_any(l.prefixes, w), rl_step(l, w, w1), tw_ok(w1.word, w1.durations),
  ensures ends(l, w1), leads(l, w0, w1), rank(l, w1) < rank(l, w),
{
  lem_rank(l, w); let n = rank(l, w); assert(ends_n(l, w, n)); assert(n > 0); assert(ends_n(l, w1, (n - 1) as nat));
  lem_rank(l, w1);
  let k = choose|k: nat| #[trigger] leads_n(l, w0, w, k); assert(leads_n(l, w0, w1, k + 1));
}
pub proof fn lem_leads0(l: RecognizableLanguage, w: TimedWord)
  ensures leads(l, w, w),
{ assert(leads_n(l, w, w, 0)); }
