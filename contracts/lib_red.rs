// ---- reducing a set of simple conditions
pub open spec fn firsts(s: Seq<Pair<TimedCondition, int>>) -> Seq<TimedCondition> { Seq::new(s.len(), |i: int| s[i].first) }
pub open spec fn red_item(p: Pair<TimedCondition, int>, rows: int) -> bool { canonical(p.first.zone.value) && intm(p.first.zone.value) && bounded_m(p.first.zone.value) && p.first.zone.value.rows == rows && nsplit(p.first.zone.value, p.second) }
/// a list of disjoint conditions with their numbers of simple conditions that together admit what c admits
pub open spec fn red_ok(s: Seq<Pair<TimedCondition, int>>, c: Seq<TimedCondition>, rows: int) -> bool {
  &&& forall|k: int| 0 <= k < s.len() ==> red_item(#[trigger] s[k], rows)
  &&& forall|v: spec_fn(int) -> real| #[trigger] cnt(firsts(s), v) == cnt(c, v)
}
/// what reduce requires: disjoint simple parts with the same events
pub open spec fn red_in(l: Seq<ElementaryLanguage>) -> bool {
  &&& forall|k: int| 0 <= k < l.len() ==> q_el(#[trigger] l[k]) && simple(l[k].timedCondition.zone.value) && l[k].word == l[0].word
  &&& forall|v: spec_fn(int) -> real| #[trigger] cnt(conds(l), v) <= 1
}
pub open spec fn all_ok(s: Seq<TimedCondition>, rows: int) -> bool { forall|k: int| 0 <= k < s.len() ==> canonical((#[trigger] s[k]).zone.value) && intm(s[k].zone.value) && bounded_m(s[k].zone.value) && s[k].zone.value.rows == rows }
pub proof fn lem_one_split(c: TimedCondition)
  requires canonical(c.zone.value), intm(c.zone.value), simple(c.zone.value)
  ensures nsplit(c.zone.value, 1)
{
  let q = Seq::<TimedCondition>::empty().push(c);
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(q, v) == one(sat(c.zone.value, v)) by { lem_cnt_push(Seq::<TimedCondition>::empty(), c, v); }
  assert(nsplit_by(c.zone.value, 1, q));
}
pub proof fn lem_red_init(l: Seq<ElementaryLanguage>, s: Seq<Pair<TimedCondition, int>>)
  requires red_in(l), l.len() > 0, s.len() == l.len(), forall|k: int| 0 <= k < s.len() ==> (#[trigger] s[k]).first == l[k].timedCondition && s[k].second == 1
  ensures red_ok(s, conds(l), l[0].word.len() as int + 2)
{
  assert(firsts(s) =~= conds(l));
  assert forall|k: int| 0 <= k < s.len() implies red_item(#[trigger] s[k], l[0].word.len() as int + 2) by { assert(q_el(l[k])); lem_one_split(l[k].timedCondition); }
}
/// two conditions whose hull has exactly as many simple conditions: the hull is their union
pub proof fn lem_merge(a: Mat, n: int, b: Mat, k: int, h: Mat)
  requires nsplit(a, n), nsplit(b, k), a.rows == b.rows, h.rows == a.rows, subset(a, h), subset(b, h), nsplit(h, n + k),
    forall|v: spec_fn(int) -> real| #![trigger sat(a, v)] #![trigger sat(b, v)] !(sat(a, v) && sat(b, v))
  ensures forall|v: spec_fn(int) -> real| #[trigger] sat(h, v) == (sat(a, v) || sat(b, v))
{
  let qa = choose|q: Seq<TimedCondition>| #[trigger] nsplit_by(a, n, q); let qb = choose|q: Seq<TimedCondition>| #[trigger] nsplit_by(b, k, q);
  let p = qa + qb; let q = choose|q: Seq<TimedCondition>| #[trigger] nsplit_by(h, n + k, q);
  assert forall|i: int| 0 <= i < p.len() implies canonical((#[trigger] p[i]).zone.value) && intm(p[i].zone.value) && p[i].zone.value.rows == a.rows && simple(p[i].zone.value) by { if i < qa.len() { assert(p[i] == qa[i]); } else { assert(p[i] == qb[i - qa.len()]); } }
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(p, v) <= cnt(q, v) by { lem_cnt_add(qa, qb, v); assert(cnt(qa, v) == one(sat(a, v))); assert(cnt(qb, v) == one(sat(b, v))); assert(cnt(q, v) == one(sat(h, v))); }
  lem_pigeon(p, q, a.rows);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(h, v) == (sat(a, v) || sat(b, v)) by { lem_cnt_add(qa, qb, v); assert(cnt(p, v) == cnt(q, v)); assert(cnt(qa, v) == one(sat(a, v))); assert(cnt(qb, v) == one(sat(b, v))); assert(cnt(q, v) == one(sat(h, v))); }
}
pub proof fn lem_cnt_two(s: Seq<TimedCondition>, i: int, j: int, v: spec_fn(int) -> real)
  requires 0 <= i < j < s.len()
  ensures cnt(s, v) >= one(sat(s[i].zone.value, v)) + one(sat(s[j].zone.value, v))
{ lem_cnt_remove(s, j, v); lem_cnt_remove(s.remove(j), i, v); lem_cnt_some(s.remove(j).remove(i), v); assert(s.remove(j)[i] == s[i]); }
/// one merge step
pub proof fn lem_red_step(s: Seq<Pair<TimedCondition, int>>, c: Seq<TimedCondition>, rows: int, i: int, j: int, h: TimedCondition, s1: Seq<Pair<TimedCondition, int>>)
  requires red_ok(s, c, rows), 0 <= i < j < s.len(), forall|v: spec_fn(int) -> real| #[trigger] cnt(c, v) <= 1,
    canonical(h.zone.value), intm(h.zone.value), bounded_m(h.zone.value), h.zone.value.rows == rows, subset(s[i].first.zone.value, h.zone.value), subset(s[j].first.zone.value, h.zone.value),
    nsplit(h.zone.value, s[i].second + s[j].second),
    s1 =~= s.update(i, Pair { first: h, second: s[i].second + s[j].second }).remove(j),
  ensures red_ok(s1, c, rows)
{
  let a = s[i].first.zone.value; let b = s[j].first.zone.value; let f = firsts(s); let f1 = firsts(s1);
  assert(f[i] == s[i].first && f[j] == s[j].first);
  assert forall|v: spec_fn(int) -> real| !(#[trigger] sat(a, v) && #[trigger] sat(b, v)) by { lem_cnt_two(f, i, j, v); assert(cnt(f, v) == cnt(c, v)); }
  assert(red_item(s[i], rows) && red_item(s[j], rows));
  assert forall|v: spec_fn(int) -> real| #![trigger sat(a, v)] #![trigger sat(b, v)] !(sat(a, v) && sat(b, v)) by { lem_cnt_two(f, i, j, v); assert(cnt(f, v) == cnt(c, v)); }
  lem_merge(a, s[i].second, b, s[j].second, h.zone.value);
  assert forall|k: int| 0 <= k < s1.len() implies red_item(#[trigger] s1[k], rows) by { if k != i { assert(s1[k] == s[if k < j { k } else { k + 1 }]); } }
  assert forall|v: spec_fn(int) -> real| #[trigger] cnt(f1, v) == cnt(c, v) by {
    lem_cnt_remove(f, j, v); lem_cnt_remove(f.remove(j), i, v); lem_cnt_remove(f1, i, v);
    assert(f.remove(j).remove(i) =~= f1.remove(i)); assert(f.remove(j)[i] == f[i]); assert(f1[i] == h);
    assert(cnt(f, v) == cnt(c, v)); assert(sat(h.zone.value, v) == (sat(a, v) || sat(b, v))); assert(!(sat(a, v) && sat(b, v)));
  }
}
pub open spec fn same_cnt(t: Seq<TimedCondition>, s: Seq<TimedCondition>) -> bool { forall|v: spec_fn(int) -> real| #[trigger] cnt(t, v) == cnt(s, v) }
