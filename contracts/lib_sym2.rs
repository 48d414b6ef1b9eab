
/// membership of the parts looked at so far
pub open spec fn sym_part(lang: int, ps: Seq<ElementaryLanguage>, k: int, inc: Seq<ElementaryLanguage>, all: bool) -> bool {
  &&& forall|i: int| 0 <= i < inc.len() ==> q_el(#[trigger] inc[i]) && simple(inc[i].timedCondition.zone.value) && inc[i].word == ps[0].word
  &&& forall|v: spec_fn(int) -> real| #[trigger] cnt(conds(inc), v) <= cnt(conds(ps.subrange(0, k)), v)
  &&& forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == ps[0].word && tw_ok(w.word, w.durations) ==> (in_some(conds(inc), wv(w.durations)) == (in_some(conds(ps.subrange(0, k)), wv(w.durations)) && member(lang, w)))
  &&& all ==> inc == ps.subrange(0, k)
}
pub open spec fn parts_of(e: ElementaryLanguage, ps: Seq<ElementaryLanguage>) -> bool {
  &&& q_el(e)
  &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).word == e.word
  &&& simples(conds(ps), e.word.len() as int + 2) && split_of(conds(ps), e.timedCondition.zone.value)
}
pub proof fn lem_simple_bounded(m: Mat)
  requires canonical(m), simple(m), m.rows >= 2
  ensures bounded_m(m)
{
  assert forall|i: int| 0 <= i < m.rows - 1 && #[trigger] tix(i) implies m.at(i + 1, hix(i, m.rows)).first is Fin && m.at(hix(i, m.rows), i + 1).first is Fin by {
    let h = hix(i, m.rows); if h == 0 { assert(tij(0, i + 1)); } else { assert(tij(i + 1, h)); }
  }
}
pub proof fn lem_part_el(e: ElementaryLanguage, ps: Seq<ElementaryLanguage>, k: int)
  requires parts_of(e, ps), 0 <= k < ps.len()
  ensures q_el(ps[k]), simple(ps[k].timedCondition.zone.value), ps[k].word == ps[0].word
{ assert(conds(ps)[k] == ps[k].timedCondition); assert(ps[k].word == e.word && ps[0].word == e.word); lem_simple_bounded(ps[k].timedCondition.zone.value); }
/// the outcome of a membership query for part k
pub open spec fn part_in(lang: int, p: ElementaryLanguage, b: bool) -> bool {
  forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == p.word && tw_ok(w.word, w.durations) && sat(p.timedCondition.zone.value, wv(w.durations)) ==> b == member(lang, w)
}
pub proof fn lem_some_push(s: Seq<TimedCondition>, c: TimedCondition, v: spec_fn(int) -> real)
  ensures in_some(s.push(c), v) == (in_some(s, v) || sat(c.zone.value, v))
{ lem_cnt_push(s, c, v); lem_cnt_some(s, v); lem_cnt_some(s.push(c), v); }
pub proof fn lem_sym_step(lang: int, e: ElementaryLanguage, ps: Seq<ElementaryLanguage>, k: int, l: Seq<ElementaryLanguage>, a: bool, l1: Seq<ElementaryLanguage>, a1: bool)
  requires parts_of(e, ps), 0 <= k < ps.len(), sym_part(lang, ps, k, l, a), (l1 == l.push(ps[k]) && a1 == a && part_in(lang, ps[k], true)) || (l1 == l && !a1 && part_in(lang, ps[k], false))
  ensures sym_part(lang, ps, k + 1, l1, a1)
{
  lem_part_el(e, ps, k);
  let b = l1 == l.push(ps[k]) && part_in(lang, ps[k], true); let c = ps[k].timedCondition; let p0 = conds(ps.subrange(0, k)); let p1 = conds(ps.subrange(0, k + 1));
  assert(p1 =~= p0.push(c));
  if b { assert(conds(l1) =~= conds(l).push(c)); assert(ps.subrange(0, k + 1) =~= ps.subrange(0, k).push(ps[k])); }
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(conds(l1), v) <= cnt(p1, v) by { lem_cnt_push(p0, c, v); lem_cnt_push(conds(l), c, v); assert(cnt(conds(l), v) <= cnt(p0, v)); }
  assert forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == ps[0].word && tw_ok(w.word, w.durations) implies (in_some(conds(l1), wv(w.durations)) == (in_some(p1, wv(w.durations)) && member(lang, w))) by {
    let v = wv(w.durations); lem_some_push(p0, c, v); lem_some_push(conds(l), c, v);
    assert(in_some(conds(l), v) == (in_some(p0, v) && member(lang, w)));
  }
}
/// what holds after all parts were looked at
pub open spec fn sym_done(lang: int, e: ElementaryLanguage, inc: Seq<ElementaryLanguage>) -> bool { red_in(inc) && (inc.len() > 0 ==> inc[0].word == e.word) && sym_of(lang, e, conds(inc)) }
pub proof fn lem_sym_init(lang: int, ps: Seq<ElementaryLanguage>)
  ensures sym_part(lang, ps, 0, Seq::empty(), true)
{
  assert(ps.subrange(0, 0) =~= Seq::<ElementaryLanguage>::empty());
}
pub proof fn lem_sym_end(lang: int, e: ElementaryLanguage, ps: Seq<ElementaryLanguage>, inc: Seq<ElementaryLanguage>, all: bool)
  requires parts_of(e, ps), sym_part(lang, ps, ps.len() as int, inc, all)
  ensures sym_done(lang, e, inc), all ==> sym_of(lang, e, Seq::<TimedCondition>::empty().push(e.timedCondition)), inc.len() == 0 ==> sym_of(lang, e, Seq::empty())
{
  assert(ps.subrange(0, ps.len() as int) =~= ps);
  if ps.len() == 0 { let v = lem_sol_upto(e.timedCondition.zone.value, e.timedCondition.zone.value.rows); assert(cnt(conds(ps), v) == one(sat(e.timedCondition.zone.value, v))); assert(conds(ps).len() == 0); assert(false); }
  assert(ps[0].word == e.word);
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(conds(inc), v) <= 1 by { assert(cnt(conds(inc), v) <= cnt(conds(ps), v)); assert(cnt(conds(ps), v) == one(sat(e.timedCondition.zone.value, v))); }
  assert forall|k: int| 0 <= k < inc.len() implies q_el(#[trigger] inc[k]) && simple(inc[k].timedCondition.zone.value) && inc[k].word == inc[0].word by { assert(inc[k].word == ps[0].word); assert(inc[0].word == ps[0].word); }
  assert forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == e.word && tw_ok(w.word, w.durations) implies (in_some(conds(inc), wv(w.durations)) == (sat(e.timedCondition.zone.value, wv(w.durations)) && member(lang, w))) by {
    let v = wv(w.durations); lem_cnt_some(conds(ps), v); assert(cnt(conds(ps), v) == one(sat(e.timedCondition.zone.value, v)));
    assert(in_some(conds(inc), v) == (in_some(conds(ps), v) && member(lang, w)));
  }
  assert(sym_of(lang, e, conds(inc)));
  if all {
    let s = Seq::<TimedCondition>::empty().push(e.timedCondition);
    assert forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == e.word && tw_ok(w.word, w.durations) implies (in_some(s, wv(w.durations)) == (sat(e.timedCondition.zone.value, wv(w.durations)) && member(lang, w))) by {
      let v = wv(w.durations); lem_some_push(Seq::empty(), e.timedCondition, v); lem_cnt_some(conds(ps), v); assert(cnt(conds(ps), v) == one(sat(e.timedCondition.zone.value, v)));
    }
  }
  if inc.len() == 0 { assert(conds(inc) =~= Seq::<TimedCondition>::empty()); }
}
/// the same words in other conditions
pub proof fn lem_sym_cnt(lang: int, e: ElementaryLanguage, s: Seq<TimedCondition>, t: Seq<TimedCondition>)
  requires sym_of(lang, e, s), forall|v: spec_fn(int) -> real| #[trigger] cnt(t, v) == cnt(s, v)
  ensures sym_of(lang, e, t)
{
  assert forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == e.word && tw_ok(w.word, w.durations) implies (in_some(t, wv(w.durations)) == (sat(e.timedCondition.zone.value, wv(w.durations)) && member(lang, w))) by {
    let v = wv(w.durations); lem_cnt_some(s, v); lem_cnt_some(t, v); assert(cnt(t, v) == cnt(s, v));
  }
}
pub open spec fn over(h: ElementaryLanguage, inc: Seq<ElementaryLanguage>) -> bool { forall|k: int| 0 <= k < inc.len() ==> subset((#[trigger] inc[k]).timedCondition.zone.value, h.timedCondition.zone.value) }
/// the hull when it is exact
pub proof fn lem_sym_hull(lang: int, e: ElementaryLanguage, inc: Seq<ElementaryLanguage>, h: ElementaryLanguage)
  requires sym_done(lang, e, inc), inc.len() > 0, h.word == e.word, h.timedCondition.zone.value.rows == e.word.len() + 2, over(h, inc)
  ensures nsplit(h.timedCondition.zone.value, inc.len() as int) ==> sym_of(lang, e, Seq::<TimedCondition>::empty().push(h.timedCondition))
{
  if nsplit(h.timedCondition.zone.value, inc.len() as int) {
  let m = h.timedCondition.zone.value; let p = conds(inc);
  let q = choose|q: Seq<TimedCondition>| #[trigger] nsplit_by(m, inc.len() as int, q);
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(p, v) <= cnt(q, v) by {
    assert(cnt(q, v) == one(sat(m, v))); assert(cnt(p, v) <= 1); lem_cnt_some(p, v);
    if in_some(p, v) { let k = choose|k: int| 0 <= k < p.len() && sat((#[trigger] p[k]).zone.value, v); assert(p[k] == inc[k].timedCondition); assert(subset(inc[k].timedCondition.zone.value, m)); }
  }
  assert forall|k: int| 0 <= k < p.len() implies canonical((#[trigger] p[k]).zone.value) && intm(p[k].zone.value) && p[k].zone.value.rows == e.word.len() + 2 && simple(p[k].zone.value) by { assert(p[k] == inc[k].timedCondition); assert(q_el(inc[k])); }
  lem_pigeon(p, q, e.word.len() as int + 2);
  let s = Seq::<TimedCondition>::empty().push(h.timedCondition);
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(s, v) == cnt(p, v) by { lem_cnt_push(Seq::<TimedCondition>::empty(), h.timedCondition, v); assert(cnt(q, v) == one(sat(m, v))); assert(cnt(p, v) == cnt(q, v)); }
  lem_sym_cnt(lang, e, p, s);
}}
pub proof fn lem_sym_same(lang: int, e: ElementaryLanguage, inc: Seq<ElementaryLanguage>)
  requires sym_done(lang, e, inc)
  ensures forall|t: Seq<TimedCondition>| #[trigger] same_cnt(t, conds(inc)) ==> sym_of(lang, e, t)
{ assert forall|t: Seq<TimedCondition>| #[trigger] same_cnt(t, conds(inc)) implies sym_of(lang, e, t) by { lem_sym_cnt(lang, e, conds(inc), t); } }
pub open spec fn sym_same(lang: int, k: ElementaryLanguage, e: ElementaryLanguage) -> bool { forall|s: Seq<TimedCondition>| #![trigger sym_of(lang, k, s)] #![trigger sym_of(lang, e, s)] sym_of(lang, k, s) == sym_of(lang, e, s) }
pub proof fn lem_sym_key1(lang: int, k: ElementaryLanguage, e: ElementaryLanguage, s: Seq<TimedCondition>)
  requires k.word == e.word, same_sols(k.timedCondition.zone.value, e.timedCondition.zone.value), sym_of(lang, k, s)
  ensures sym_of(lang, e, s)
{
  assert forall|w: TimedWord| #![trigger member(lang, w)] #![trigger tw_ok(w.word, w.durations)] w.word == e.word && tw_ok(w.word, w.durations) implies (in_some(s, wv(w.durations)) == (sat(e.timedCondition.zone.value, wv(w.durations)) && member(lang, w))) by { assert(sat(k.timedCondition.zone.value, wv(w.durations)) == sat(e.timedCondition.zone.value, wv(w.durations))); }
}
pub proof fn lem_sym_key(lang: int, k: ElementaryLanguage, e: ElementaryLanguage)
  requires k.word == e.word, same_sols(k.timedCondition.zone.value, e.timedCondition.zone.value)
  ensures sym_same(lang, k, e)
{
  assert forall|s: Seq<TimedCondition>| #![trigger sym_of(lang, k, s)] #![trigger sym_of(lang, e, s)] sym_of(lang, k, s) == sym_of(lang, e, s) by {
    if sym_of(lang, k, s) { lem_sym_key1(lang, k, e, s); }
    if sym_of(lang, e, s) { lem_sym_key1(lang, e, k, s); }
  }
}
