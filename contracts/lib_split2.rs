/// the domains are bounded conditions on words without silent events, and the renaming relates each of their words to one of the codomain
pub open spec fn mor_dom(m: SingleMorphism) -> bool {
  canonical(m.domain.timedCondition.zone.value) && bounded_m(m.domain.timedCondition.zone.value) && no_silent(m.domain.word)
  && forall|v: spec_fn(int) -> real| #[trigger] sat(m.domain.timedCondition.zone.value, v) ==> morph_to(m.codomain.timedCondition.zone.value, m.renaming.base, v)
}
pub open spec fn mors_ok(s: Seq<SingleMorphism>) -> bool { forall|k: int| 0 <= k < s.len() ==> mor_dom(#[trigger] s[k]) }
pub open spec fn same_el(a: ElementaryLanguage, b: ElementaryLanguage) -> bool { a.word == b.word && same_sols(a.timedCondition.zone.value, b.timedCondition.zone.value) }
pub open spec fn dom_upto(m: SingleMorphism, s: Seq<ForwardRegionalElementaryLanguage>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !same_el(m.domain, (#[trigger] s[i]).base) }
pub open spec fn no_dom(ms: Seq<SingleMorphism>, s: Seq<ForwardRegionalElementaryLanguage>, n: int) -> bool { forall|k: int| 0 <= k < n ==> dom_upto(#[trigger] ms[k], s, s.len() as int) }
/// s: the regions of the prefixes of the word
pub open spec fn pref_chain(s: Seq<ForwardRegionalElementaryLanguage>, w: TimedWord) -> bool {
  s.len() > 0 && fr_chain(s) && fr_first(s[0]) && s.last().base.word == w.word && reg_of(s.last().base.timedCondition.zone.value, w.durations)
}
pub open spec fn pref_with(e: ElementaryLanguage, d: Seq<D>, p: Seq<D>) -> bool { p.len() == e.word.len() + 1 && p.last() is Fin && p =~= pdur(d, e.word.len() as int, dv(p.last())) && pref_at(e, d, dv(p.last())) }
pub proof fn lem_pref_same(a: ElementaryLanguage, b: ElementaryLanguage, w: Seq<int>, d: Seq<D>)
  requires same_el(a, b), pref_in(b, w, d), ensures pref_in(a, w, d),
{ let t = choose|t: real| #[trigger] pref_at(b, d, t); assert(sat(b.timedCondition.zone.value, wv(pdur(d, b.word.len() as int, t)))); assert(pref_at(a, d, t)); }
pub proof fn lem_pref_cond(q: Mat, e: ElementaryLanguage, w: Seq<int>, d: Seq<D>)
  requires pref_in(e, w, d), tw_ok(w, d), wf(q), le_mat(q, e.timedCondition.zone.value), diag_ok(q) ==> closed(q), fixed(q, e.timedCondition.zone.value, d, e.word.len() as int), bounded_m(e.timedCondition.zone.value), e.timedCondition.zone.value.rows == e.word.len() + 2, wf(e.timedCondition.zone.value),
  ensures canonical(q), bounded_m(q), q.rows == e.word.len() + 2,
{
  let k = e.word.len() as int; let m = e.timedCondition.zone.value; let t = choose|t: real| #[trigger] pref_at(e, d, t); lem_fixed_self(q, m, d, k, t); lem_sat_diag(q, wv(pdur(d, k, t)));
  assert forall|i: int| 0 <= i < q.rows - 1 && #[trigger] tix(i) implies q.at(i + 1, hix(i, q.rows)).first is Fin && q.at(hix(i, q.rows), i + 1).first is Fin by {
    let h = hix(i, q.rows); assert(ble(q.at(i + 1, h), m.at(i + 1, h))); assert(ble(q.at(h, i + 1), m.at(h, i + 1))); assert(okb(q.at(i + 1, h)) && okb(q.at(h, i + 1)));
  }
}
/// the duration of the word, or the upper bound when that is smaller and attained
pub proof fn lem_pref_ub(q: Mat, e: ElementaryLanguage, w: Seq<int>, d: Seq<D>, x: D)
  requires pref_in(e, w, d), tw_ok(w, d), canonical(q), q.rows == e.word.len() + 2, e.timedCondition.zone.value.rows == q.rows, wf(e.timedCondition.zone.value), fixed(q, e.timedCondition.zone.value, d, e.word.len() as int),
    ({ let k = e.word.len() as int; let u = q.at(k + 1, 0); if ble(bnd(dv(d[k]), true), u) { x == d[k] } else { u.second && x == u.first } }),
  ensures x is Fin, pref_at(e, d, dv(x)),
{
  let k = e.word.len() as int; let m = e.timedCondition.zone.value; let t = choose|t: real| #[trigger] pref_at(e, d, t); assert(d[k] is Fin); lem_fixed_self(q, m, d, k, t);
  let v = wv(pdur(d, k, t)); lem_pdur(d, k, t, k + 1); assert(okb(q.at(k + 1, 0))); assert(bsat(q.at(k + 1, 0), v(k + 1) - v(0)));
  assert(x is Fin); assert(t <= dv(x)); assert(bsat(q.at(k + 1, 0), dv(x))); lem_split_last(q, m, d, k, t, dv(x));
}
/// otherwise any word of the restricted condition
pub proof fn lem_pref_samp(q: Mat, e: ElementaryLanguage, w: Seq<int>, d: Seq<D>, s: Seq<D>)
  requires pref_in(e, w, d), tw_ok(w, d), canonical(q), q.rows == e.word.len() + 2, e.timedCondition.zone.value.rows == q.rows, wf(e.timedCondition.zone.value), fixed(q, e.timedCondition.zone.value, d, e.word.len() as int),
    tw_ok(e.word, s), sat(q, wv(s)), !ble(bnd(dv(d[e.word.len() as int]), true), q.at(e.word.len() as int + 1, 0)),
  ensures s.last() is Fin, pref_at(e, d, dv(s.last())),
{
  let k = e.word.len() as int; let m = e.timedCondition.zone.value; assert(d[k] is Fin && s[k] is Fin); lem_wv_all(s); let v = wv(s); assert(tix(k)); assert(dur(v, k, k, m.rows) == dv(s[k]));
  lem_fixed_at(q, m, d, k, v); assert(okb(q.at(k + 1, 0))); assert(bsat(q.at(k + 1, 0), v(k + 1) - v(0)));
}
pub proof fn lem_split_done(l: RecognizableLanguage, w: TimedWord, t: RecognizableLanguage_SplitTriple, it: int)
  requires rl_ok(l), mors_ok(l.morphisms), tw_ok(w.word, w.durations), no_silent(w.word), 0 <= it < l.morphisms.len(), t.morphism == l.morphisms[it], pref_in(t.morphism.domain, w.word, w.durations), t.prefix.word == t.morphism.domain.word,
    (t.prefix == w && sat(t.morphism.domain.timedCondition.zone.value, wv(w.durations)) && t.suffix.word == Seq::<int>::empty() && t.suffix.durations =~= seq![D::Fin(0real)])
    || (pref_with(t.morphism.domain, w.durations, t.prefix.durations) && (tw_prefix(t.prefix.word, t.prefix.durations, w.word, w.durations) ==> t.prefix.word + t.suffix.word == w.word && cat_d(t.prefix.durations, t.suffix.durations) == w.durations)
      && t.suffix.word == w.word.subrange(t.prefix.word.len() as int, w.word.len() as int) && t.suffix.durations =~= suf_d(t.prefix.word, t.prefix.durations, w.durations)),
  ensures splits(l, w, t), dv(t.prefix.durations.last()) <= dv(w.durations[t.prefix.word.len() as int]),
{
  let k = t.prefix.word.len() as int; assert(mor_ok(l.morphisms[it]) && mor_dom(l.morphisms[it])); let m = t.morphism.domain.timedCondition.zone.value;
  if t.prefix == w && sat(m, wv(w.durations)) && t.suffix.word == Seq::<int>::empty() && t.suffix.durations =~= seq![D::Fin(0real)] {
    assert(w.word + t.suffix.word =~= w.word); assert(w.durations[k] is Fin); assert(cat_d(w.durations, t.suffix.durations) =~= w.durations);
    assert(t.suffix.durations[0] is Fin);
  } else {
    let p = t.prefix.durations; let x = dv(p.last());
    assert(p == pdur(w.durations, k, x)); assert(fin_all(p)) by { assert forall|i: int| 0 <= i < p.len() implies #[trigger] p[i] is Fin by { if i < k { assert(p[i] == w.durations[i]); assert(w.durations[i] is Fin); } } }
    assert(p.drop_last() =~= w.durations.subrange(0, k));
    assert(tw_prefix(t.prefix.word, p, w.word, w.durations)); lem_suffix(t.prefix.word, p, w.word, w.durations);
    assert(no_silent(t.suffix.word)) by { assert forall|i: int| 0 <= i < t.suffix.word.len() implies #[trigger] t.suffix.word[i] != 0 by { assert(t.suffix.word[i] == w.word[k + i]); } }
    assert(sat(m, wv(p)));
  }
  assert(l.morphisms.contains(t.morphism));
}
