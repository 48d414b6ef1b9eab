// ---- counting simple conditions
/// some condition admits v
pub open spec fn in_some(s: Seq<TimedCondition>, v: spec_fn(int) -> real) -> bool { exists|k: int| 0 <= k < s.len() && sat((#[trigger] s[k]).zone.value, v) }
pub proof fn lem_cnt_some(s: Seq<TimedCondition>, v: spec_fn(int) -> real)
  ensures cnt(s, v) >= 0, (cnt(s, v) > 0) == in_some(s, v)
  decreases s.len()
{
  if s.len() > 0 {
    let p = s.drop_last(); lem_cnt_some(p, v);
    if sat(s.last().zone.value, v) { assert(s[s.len() - 1] == s.last()); }
    if in_some(p, v) { let k = choose|k: int| 0 <= k < p.len() && sat((#[trigger] p[k]).zone.value, v); assert(s[k] == p[k]); }
    if in_some(s, v) { let k = choose|k: int| 0 <= k < s.len() && sat((#[trigger] s[k]).zone.value, v); if k < p.len() { assert(p[k] == s[k]); } }
  }
}
pub proof fn lem_cnt_remove(s: Seq<TimedCondition>, k: int, v: spec_fn(int) -> real)
  requires 0 <= k < s.len()
  ensures cnt(s.remove(k), v) == cnt(s, v) - one(sat(s[k].zone.value, v))
  decreases s.len()
{
  if k < s.len() - 1 {
    lem_cnt_remove(s.drop_last(), k, v);
    assert(s.remove(k).drop_last() =~= s.drop_last().remove(k)); assert(s.remove(k).last() == s.last());
  } else { assert(s.remove(k) =~= s.drop_last()); }
}
pub proof fn lem_cnt_add(a: Seq<TimedCondition>, b: Seq<TimedCondition>, v: spec_fn(int) -> real)
  ensures cnt(a + b, v) == cnt(a, v) + cnt(b, v)
  decreases b.len()
{
  if b.len() > 0 { lem_cnt_add(a, b.drop_last(), v); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); } else { assert(a + b =~= a); }
}
/// a point or a unit interval with integer ends is determined by any of its values
pub proof fn lem_srp_eq(a: Bounds, b: Bounds, c: Bounds, e: Bounds, d: real)
  requires okb(a), okb(b), okb(c), okb(e), intb(a), intb(b), intb(c), intb(e), ptb(a, b) || unitb(a, b), ptb(c, e) || unitb(c, e), bsat(a, d), bsat(b, -d), bsat(c, d), bsat(e, -d)
  ensures a == c, b == e
{
  assert(a.first is Fin && b.first is Fin && c.first is Fin && e.first is Fin);
  let x = dv(a.first).floor(); let y = dv(c.first).floor();
  assert(dv(a.first) == x as real && dv(c.first) == y as real);
  if x < y { assert(x + 1 <= y); assert((x + 1) as real <= y as real); }
  if y < x { assert(y + 1 <= x); assert((y + 1) as real <= x as real); }
}
pub proof fn lem_simple_same(p: Mat, q: Mat, v: spec_fn(int) -> real)
  requires canonical(p), canonical(q), intm(p), intm(q), simple(p), simple(q), p.rows == q.rows, sat(p, v), sat(q, v)
  ensures same_sols(p, q)
{
  assert forall|i: int, j: int| 0 <= i < p.rows && 0 <= j < p.rows && i != j implies p.at(i, j) == q.at(i, j) by {
    let (x, y) = if i < j { (i, j) } else { (j, i) };
    assert(tij(x, y)); assert(okb(p.at(x, y)) && okb(p.at(y, x)) && okb(q.at(x, y)) && okb(q.at(y, x)));
    assert(intb(p.at(x, y)) && intb(p.at(y, x)) && intb(q.at(x, y)) && intb(q.at(y, x)));
    assert(bsat(p.at(x, y), v(x) - v(y)) && bsat(p.at(y, x), v(y) - v(x)) && bsat(q.at(x, y), v(x) - v(y)) && bsat(q.at(y, x), v(y) - v(x)));
    assert(v(y) - v(x) == -(v(x) - v(y)));
    lem_srp_eq(p.at(x, y), p.at(y, x), q.at(x, y), q.at(y, x), v(x) - v(y));
  }
  assert(eq_off(p, q));
  lem_eq_off(p, q);
}
/// as many simple conditions as another list that admits at least as much admit the same
pub proof fn lem_pigeon(p: Seq<TimedCondition>, q: Seq<TimedCondition>, rows: int)
  requires simples(p, rows), simples(q, rows), p.len() == q.len(), forall|v: spec_fn(int) -> real| #[trigger] cnt(p, v) <= cnt(q, v)
  ensures forall|v: spec_fn(int) -> real| #[trigger] cnt(p, v) == cnt(q, v)
  decreases p.len()
{
  if p.len() > 0 {
    let c = p.last(); assert(c == p[p.len() - 1]);
    let m = c.zone.value;
    let v0 = lem_sol_upto(m, m.rows);
    assert(cnt(p, v0) >= 1) by { lem_cnt_some(p, v0); assert(in_some(p, v0)); }
    lem_cnt_some(q, v0);
    let j = choose|j: int| 0 <= j < q.len() && sat((#[trigger] q[j]).zone.value, v0);
    lem_simple_same(m, q[j].zone.value, v0);
    let p1 = p.drop_last(); let q1 = q.remove(j);
    assert forall|k: int| 0 <= k < p1.len() implies canonical((#[trigger] p1[k]).zone.value) && intm(p1[k].zone.value) && p1[k].zone.value.rows == rows && simple(p1[k].zone.value) by { assert(p1[k] == p[k]); }
    assert forall|k: int| 0 <= k < q1.len() implies canonical((#[trigger] q1[k]).zone.value) && intm(q1[k].zone.value) && q1[k].zone.value.rows == rows && simple(q1[k].zone.value) by { assert(q1[k] == q[if k < j { k } else { k + 1 }]); }
    assert forall|v: spec_fn(int) -> real| #[trigger] cnt(p1, v) <= cnt(q1, v) by { lem_cnt_remove(q, j, v); assert(cnt(p, v) <= cnt(q, v)); assert(sat(m, v) == sat(q[j].zone.value, v)); }
    lem_pigeon(p1, q1, rows);
    assert forall|v: spec_fn(int) -> real| #[trigger] cnt(p, v) == cnt(q, v) by { lem_cnt_remove(q, j, v); assert(cnt(p1, v) == cnt(q1, v)); assert(sat(m, v) == sat(q[j].zone.value, v)); }
  }
}
