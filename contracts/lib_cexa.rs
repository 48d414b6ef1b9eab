// analysing a counterexample: m are the rewritings of the word, s[i + 1] is what remains of m[i] after the rewritten prefix
pub open spec fn chain_of(l: RecognizableLanguage, w: TimedWord, m: Seq<TimedWord>, s: Seq<TimedWord>) -> bool {
  &&& m.len() >= 1 && s.len() == m.len() && m[0] == w
  &&& forall|i: int| 0 <= i < m.len() ==> tw_ok((#[trigger] m[i]).word, m[i].durations) && leads(l, w, m[i])
  &&& forall|i: int| 0 <= i < m.len() - 1 ==> cut_at(l, #[trigger] m[i], m[i + 1], s[i + 1])
}
/// w1 is w with a prefix rewritten and s is the rest
pub open spec fn cut_at(l: RecognizableLanguage, w: TimedWord, w1: TimedWord, s: TimedWord) -> bool {
  tw_ok(s.word, s.durations) && !in_any(l.prefixes, w) && rl_split(l, w) is Some && rl_split(l, w)->Some_0.suffix == s && applied(rl_split(l, w)->Some_0, w1)
}
/// a word that the hypothesis and the language disagree on (whatever words the hypothesis rewrites it to); they agree on the prefixes
pub open spec fn is_cex(l: RecognizableLanguage, lang: int, w: TimedWord) -> bool {
  &&& forall|w1: TimedWord| #[trigger] leads(l, w, w1) && in_any(l.prefixes, w1) ==> member(lang, w) != in_any(l.final_, w1)
  &&& forall|w1: TimedWord| #[trigger] in_any(l.prefixes, w1) ==> member(lang, w1) == in_any(l.final_, w1)
}
/// s, put after a prefix of some rewriting of w and after what this prefix is rewritten to, makes a member and a non-member
pub open spec fn distinguishes(l: RecognizableLanguage, lang: int, w: TimedWord, s: TimedWord) -> bool {
  exists|u: TimedWord, u1: TimedWord| #[trigger] cut_at(l, u, u1, s) && leads(l, w, u) && member(lang, u) != member(lang, u1)
}
pub open spec fn bsufs_ok(c: Seq<BackwardRegionalElementaryLanguage>) -> bool { forall|k: int| 0 <= k < c.len() ==> el_ok((#[trigger] c[k]).base) }
pub open spec fn fresh_upto(c: Seq<BackwardRegionalElementaryLanguage>, s: TimedWord, n: int) -> bool { forall|k: int| 0 <= k < n ==> !member_of((#[trigger] c[k]).base, s) }
/// what the analysis asserts: the last rewriting is answered like the hypothesis answers the word, the word itself is not
pub proof fn lem_cex_front(l: RecognizableLanguage, lang: int, w: TimedWord, m: Seq<TimedWord>, s: Seq<TimedWord>)
  requires chain_of(l, w, m, s), is_cex(l, lang, w), in_any(l.prefixes, m.last()),
  ensures m[0] == w, forall|w1: TimedWord| #[trigger] leads(l, m.last(), w1) && in_any(l.prefixes, w1) ==> w1 == m.last(),
    member(lang, m.last()) == in_any(l.final_, m.last()), member(lang, m[0]) != in_any(l.final_, m.last()),
{
  assert(leads(l, w, m[m.len() - 1]));
  assert forall|w1: TimedWord| #[trigger] leads(l, m.last(), w1) && in_any(l.prefixes, w1) implies w1 == m.last() by { let n = choose|n: nat| #[trigger] leads_n(l, m.last(), w1, n); lem_stays(l, m.last(), w1, n); }
}
pub proof fn lem_stays(l: RecognizableLanguage, w: TimedWord, w1: TimedWord, n: nat)
  requires leads_n(l, w, w1, n), in_any(l.prefixes, w), ensures w1 == w, decreases n,
{ if n > 0 { let m = choose|m: TimedWord| #[trigger] rl_step(l, m, w1) && leads_n(l, w, m, (n - 1) as nat); lem_stays(l, w, m, (n - 1) as nat); } }
pub open spec fn fresh(c: Seq<BackwardRegionalElementaryLanguage>, s: TimedWord) -> bool { forall|k: int| 0 <= k < c.len() ==> !member_of((#[trigger] c[k]).base, s) }
pub proof fn lem_chain0(l: RecognizableLanguage, w: TimedWord, m: Seq<TimedWord>, s: Seq<TimedWord>)
  requires m.len() == 1, m[0] == w, s.len() == 1, tw_ok(w.word, w.durations), ensures chain_of(l, w, m, s),
{ lem_leads0(l, w); }
pub proof fn lem_chain(l: RecognizableLanguage, w: TimedWord, m: Seq<TimedWord>, s: Seq<TimedWord>, m1: Seq<TimedWord>, s1: Seq<TimedWord>)
  requires chain_of(l, w, m, s), ends(l, m.last()), m1.len() == m.len() + 1, s1.len() == s.len() + 1, m1.drop_last() =~= m, s1.drop_last() =~= s,
    cut_at(l, m.last(), m1.last(), s1.last()), tw_ok(m1.last().word, m1.last().durations),
  ensures chain_of(l, w, m1, s1), ends(l, m1.last()), rank(l, m1.last()) < rank(l, m.last()),
{
  lem_step(l, w, m.last(), m1.last());
  assert forall|i: int| 0 <= i < m1.len() implies tw_ok((#[trigger] m1[i]).word, m1[i].durations) && leads(l, w, m1[i]) by { if i < m.len() { assert(m1[i] == m1.drop_last()[i]); assert(m1[i] == m[i]); } }
  assert forall|i: int| 0 <= i < m1.len() - 1 implies cut_at(l, #[trigger] m1[i], m1[i + 1], s1[i + 1]) by {
    assert(m1[i] == m1.drop_last()[i]); 
    if i + 1 < m.len() { assert(m1[i + 1] == m1.drop_last()[i + 1]); assert(s1[i + 1] == s1.drop_last()[i + 1]); assert(cut_at(l, m[i], m[i + 1], s[i + 1])); }
  }
}
pub open spec fn stale_upto(lang: int, c: Seq<BackwardRegionalElementaryLanguage>, m: Seq<TimedWord>, s: Seq<TimedWord>, n: int) -> bool {
  forall|i: int| #![trigger m[i]] 0 <= i < n && member(lang, m[i]) != member(lang, m[i + 1]) ==> !fresh(c, s[i + 1])
}
/// along some complete chain of rewritings, every rest that distinguishes a word from its rewriting is already in a current suffix
pub open spec fn none_fresh(l: RecognizableLanguage, lang: int, w: TimedWord, c: Seq<BackwardRegionalElementaryLanguage>) -> bool {
  exists|m: Seq<TimedWord>, s: Seq<TimedWord>| #[trigger] chain_of(l, w, m, s) && in_any(l.prefixes, m.last()) && stale_upto(lang, c, m, s, m.len() - 1)
}
