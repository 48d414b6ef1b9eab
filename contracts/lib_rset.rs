// lists of clock updates as simultaneous assignments (the last update of a clock counts)
pub open spec fn ru_named(rs: Seq<Pair<int, VarDC>>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && i < rs.len() && (#[trigger] rs[i]).first == x }
pub open spec fn ru_at(rs: Seq<Pair<int, VarDC>>, k: int, x: int) -> VarDC decreases k {
  if k <= 0 { VarDC::Clk(x) } else if rs[k - 1].first == x { rs[k - 1].second } else { ru_at(rs, k - 1, x) }
}
pub open spec fn ru_eff(rs: Seq<Pair<int, VarDC>>, x: int) -> VarDC { ru_at(rs, rs.len() as int, x) }
// no clock is updated twice
pub open spec fn ru_uniq(rs: Seq<Pair<int, VarDC>>) -> bool { forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).first != (#[trigger] rs[j]).first }
pub open spec fn map_of(m: Map<int, VarDC>, rs: Seq<Pair<int, VarDC>>, k: int) -> bool {
  forall|x: int| #![trigger m.dom().contains(x)] #![trigger ru_at(rs, k, x)] (m.dom().contains(x) <==> ru_named(rs, k, x)) && (m.dom().contains(x) ==> m[x] == ru_at(rs, k, x)) && (!m.dom().contains(x) ==> ru_at(rs, k, x) == VarDC::Clk(x))
}
// first the right assignments, then the left ones
pub open spec fn ru_comp(left: Seq<Pair<int, VarDC>>, right: Seq<Pair<int, VarDC>>, x: int) -> VarDC {
  match ru_eff(left, x) { VarDC::Dbl(d) => VarDC::Dbl(d), VarDC::Clk(y) => ru_eff(right, y) }
}
pub open spec fn ru_const(u: VarDC) -> bool { match u { VarDC::Dbl(d) => d == dfloor(d), VarDC::Clk(c) => false } }
pub open spec fn ru_precise(o: VarDC, u: VarDC, copies: bool) -> VarDC {
  if ru_const(o) { o } else if ru_const(u) || (copies && u is Clk) { u } else { o }
}
pub open spec fn ru_added(o: Seq<Pair<int, VarDC>>, rs: Seq<Pair<int, VarDC>>, k: int, copies: bool, x: int) -> VarDC {
  if ru_named(rs, k, x) { ru_precise(ru_eff(o, x), ru_at(rs, k, x), copies) } else { ru_eff(o, x) }
}
pub open spec fn ru_identity(u: Pair<int, VarDC>) -> bool { u.second == VarDC::Clk(u.first) }
pub open spec fn ru_count(rs: Seq<Pair<int, VarDC>>, k: int, copies: bool) -> int decreases k {
  if k <= 0 { 0 } else { ru_count(rs, k - 1, copies) + if (rs[k - 1].second is Dbl && !ru_const(rs[k - 1].second)) || (copies && rs[k - 1].second is Clk) { 1int } else { 0 } }
}
pub proof fn lem_named(rs: Seq<Pair<int, VarDC>>, k: int, x: int)
  requires 0 <= k < rs.len(),
  ensures ru_named(rs, k + 1, x) <==> (ru_named(rs, k, x) || rs[k].first == x), ru_at(rs, k + 1, x) == if rs[k].first == x { rs[k].second } else { ru_at(rs, k, x) },
{ if rs[k].first == x { assert(0 <= k < k + 1); } }
pub proof fn lem_named_all(rs: Seq<Pair<int, VarDC>>, k: int)
  requires 0 <= k < rs.len(),
  ensures forall|x: int| #[trigger] ru_named(rs, k + 1, x) <==> (ru_named(rs, k, x) || rs[k].first == x), forall|x: int| #[trigger] ru_at(rs, k + 1, x) == if rs[k].first == x { rs[k].second } else { ru_at(rs, k, x) },
{
  assert forall|x: int| #[trigger] ru_named(rs, k + 1, x) <==> (ru_named(rs, k, x) || rs[k].first == x) by { lem_named(rs, k, x); }
}
pub proof fn lem_unnamed(rs: Seq<Pair<int, VarDC>>, k: int, x: int)
  requires 0 <= k <= rs.len(), !ru_named(rs, k, x), ensures ru_at(rs, k, x) == VarDC::Clk(x), decreases k,
{ if k > 0 { assert(rs[k - 1].first != x); assert(!ru_named(rs, k - 1, x)); lem_unnamed(rs, k - 1, x); } }
pub proof fn lem_uniq_at(rs: Seq<Pair<int, VarDC>>, k: int, i: int)
  requires ru_uniq(rs), 0 <= i < k <= rs.len(), ensures ru_at(rs, k, rs[i].first) == rs[i].second, decreases k,
{ if i < k - 1 { assert(rs[i].first != rs[k - 1].first); lem_uniq_at(rs, k - 1, i); } }
pub proof fn lem_last_at(rs: Seq<Pair<int, VarDC>>, k: int, x: int) -> (i: int)
  requires 0 <= k <= rs.len(), ru_named(rs, k, x), ensures 0 <= i < k, rs[i].first == x, rs[i].second == ru_at(rs, k, x), decreases k,
{ if rs[k - 1].first == x { k - 1 } else { let j = choose|j: int| 0 <= j < k && j < rs.len() && (#[trigger] rs[j]).first == x; assert(j < k - 1); assert(ru_named(rs, k - 1, x)); lem_last_at(rs, k - 1, x) } }
pub proof fn lem_at_prefix(rs: Seq<Pair<int, VarDC>>, q: Seq<Pair<int, VarDC>>, k: int, x: int)
  requires 0 <= k <= rs.len(), k <= q.len(), forall|i: int| 0 <= i < k ==> (#[trigger] rs[i]) == q[i],
  ensures ru_at(rs, k, x) == ru_at(q, k, x), ru_named(rs, k, x) == ru_named(q, k, x), decreases k,
{
  if k > 0 { assert(rs[k - 1] == q[k - 1]); lem_at_prefix(rs, q, k - 1, x); lem_named(rs, k - 1, x); lem_named(q, k - 1, x); }
  else { assert(ru_named(rs, k, x) == ru_named(q, k, x)); }
}
pub proof fn lem_push_eff(rs: Seq<Pair<int, VarDC>>, u: Pair<int, VarDC>)
  ensures forall|x: int| #[trigger] ru_eff(rs.push(u), x) == if u.first == x { u.second } else { ru_eff(rs, x) }, forall|x: int| #[trigger] ru_named(rs.push(u), rs.len() as int + 1, x) <==> (ru_named(rs, rs.len() as int, x) || u.first == x),
{
  assert forall|x: int| #[trigger] ru_eff(rs.push(u), x) == if u.first == x { u.second } else { ru_eff(rs, x) } by { lem_named(rs.push(u), rs.len() as int, x); lem_at_prefix(rs.push(u), rs, rs.len() as int, x); }
  assert forall|x: int| #[trigger] ru_named(rs.push(u), rs.len() as int + 1, x) <==> (ru_named(rs, rs.len() as int, x) || u.first == x) by { lem_named(rs.push(u), rs.len() as int, x); lem_at_prefix(rs.push(u), rs, rs.len() as int, x); }
}
pub proof fn lem_uniq_push(rs: Seq<Pair<int, VarDC>>, u: Pair<int, VarDC>)
  requires ru_uniq(rs), !ru_named(rs, rs.len() as int, u.first), ensures ru_uniq(rs.push(u)),
{
  assert forall|i: int, j: int| 0 <= i < j < rs.push(u).len() implies (#[trigger] rs.push(u)[i]).first != (#[trigger] rs.push(u)[j]).first by { assert(rs.push(u)[i] == rs[i]); if j < rs.len() { assert(rs.push(u)[j] == rs[j]); } }
}
pub proof fn lem_map_first(rs: Seq<Pair<int, VarDC>>)
  requires ru_uniq(rs), ensures map_of(map_first(rs), rs, rs.len() as int), decreases rs.len(),
{
  let m = map_first(rs); let k = rs.len() as int;
  if k > 0 {
    let q = rs.drop_last();
    assert(ru_uniq(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).first != (#[trigger] q[j]).first by { assert(rs[i].first != rs[j].first); } }
    lem_map_first(q);
    let p = map_first(q);
    assert(!p.dom().contains(rs.last().first)) by {
      if p.dom().contains(rs.last().first) { assert(ru_named(q, q.len() as int, rs.last().first)); let i = choose|i: int| 0 <= i < q.len() && i < q.len() && (#[trigger] q[i]).first == rs.last().first; assert(rs[i].first == rs[k - 1].first); }
    }
    assert forall|x: int| #![trigger m.dom().contains(x)] #![trigger ru_at(rs, k, x)] (m.dom().contains(x) <==> ru_named(rs, k, x)) && (m.dom().contains(x) ==> m[x] == ru_at(rs, k, x)) && (!m.dom().contains(x) ==> ru_at(rs, k, x) == VarDC::Clk(x)) by {
      lem_named(rs, k - 1, x); lem_at_prefix(rs, q, k - 1, x);
      assert(p.dom().contains(x) <==> ru_named(q, k - 1, x));
    }
  } else {
    assert forall|x: int| #![trigger m.dom().contains(x)] #![trigger ru_at(rs, k, x)] (m.dom().contains(x) <==> ru_named(rs, k, x)) && (m.dom().contains(x) ==> m[x] == ru_at(rs, k, x)) && (!m.dom().contains(x) ==> ru_at(rs, k, x) == VarDC::Clk(x)) by { }
  }
}
// the entries of a map, listed in any order, assign what the map says
pub open spec fn ents_of(m: Map<int, VarDC>, e: Seq<Pair<int, VarDC>>) -> bool {
  e.len() == enum_keys(m.dom()).len() && forall|i: int| 0 <= i < e.len() ==> (#[trigger] e[i]).first == enum_keys(m.dom())[i] && e[i].second == m[e[i].first]
}
pub proof fn lem_ents(m: Map<int, VarDC>, e: Seq<Pair<int, VarDC>>)
  requires ents_of(m, e),
  ensures ru_uniq(e), forall|x: int| #[trigger] ru_eff(e, x) == if m.dom().contains(x) { m[x] } else { VarDC::Clk(x) },
{
  lem_enum_keys(m.dom());
  let q = enum_keys(m.dom());
  assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).first != (#[trigger] e[j]).first by { assert(q[i] != q[j]); }
  assert forall|x: int| #[trigger] ru_eff(e, x) == if m.dom().contains(x) { m[x] } else { VarDC::Clk(x) } by {
    if m.dom().contains(x) { assert(q.contains(x)); let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(e[i].first == x); lem_uniq_at(e, e.len() as int, i); }
    else { if ru_named(e, e.len() as int, x) { let i = choose|i: int| 0 <= i < e.len() && i < e.len() && (#[trigger] e[i]).first == x; assert(q[i] == x); assert(q.contains(x)); } lem_unnamed(e, e.len() as int, x); }
  }
}
// the first k keys of a traversal
pub open spec fn kin(keys: Seq<int>, k: int, x: int) -> bool { exists|i: int| 0 <= i < k && i < keys.len() && (#[trigger] keys[i]) == x }
pub proof fn lem_kin(keys: Seq<int>, k: int)
  requires 0 <= k < keys.len(), keys.no_duplicates(),
  ensures !kin(keys, k, keys[k]), forall|x: int| #[trigger] kin(keys, k + 1, x) <==> (kin(keys, k, x) || x == keys[k]),
{
  if kin(keys, k, keys[k]) { let i = choose|i: int| 0 <= i < k && i < keys.len() && (#[trigger] keys[i]) == keys[k]; assert(i != k && keys[i] == keys[k]); }
  assert forall|x: int| #[trigger] kin(keys, k + 1, x) <==> (kin(keys, k, x) || x == keys[k]) by {
    if kin(keys, k, x) { let i = choose|i: int| 0 <= i < k && i < keys.len() && (#[trigger] keys[i]) == x; assert(0 <= i < k + 1); }
    if x == keys[k] { assert(0 <= k < k + 1); }
  }
}
pub proof fn lem_kin_all(s: Set<int>, keys: Seq<int>)
  requires is_enum(s, keys), ensures forall|x: int| #[trigger] kin(keys, keys.len() as int, x) <==> s.contains(x),
{
  assert forall|x: int| #[trigger] kin(keys, keys.len() as int, x) <==> s.contains(x) by {
    if s.contains(x) { assert(keys.contains(x)); let i = choose|i: int| 0 <= i < keys.len() && keys[i] == x; assert(kin(keys, keys.len() as int, x)); }
    if kin(keys, keys.len() as int, x) { let i = choose|i: int| 0 <= i < keys.len() && i < keys.len() && (#[trigger] keys[i]) == x; assert(keys.contains(x)); }
  }
}
pub open spec fn mcomp(lm: Map<int, VarDC>, rm: Map<int, VarDC>, x: int) -> VarDC {
  match lm[x] { VarDC::Dbl(d) => VarDC::Dbl(d), VarDC::Clk(y) => if rm.dom().contains(y) { rm[y] } else { VarDC::Clk(y) } }
}
pub open spec fn comp1(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, keys: Seq<int>, k: int) -> bool {
  ru_uniq(rs) && forall|x: int| #![trigger ru_eff(rs, x)] #![trigger ru_named(rs, rs.len() as int, x)] ru_eff(rs, x) == (if kin(keys, k, x) { mcomp(lm, rm, x) } else { VarDC::Clk(x) }) && (ru_named(rs, rs.len() as int, x) <==> kin(keys, k, x))
}
pub open spec fn comp2(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, keys: Seq<int>, k: int) -> bool {
  ru_uniq(rs) && forall|x: int| #![trigger ru_eff(rs, x)] #![trigger ru_named(rs, rs.len() as int, x)] ru_eff(rs, x) == (if lm.dom().contains(x) { mcomp(lm, rm, x) } else if kin(keys, k, x) { rm[x] } else { VarDC::Clk(x) }) && (ru_named(rs, rs.len() as int, x) <==> (lm.dom().contains(x) || kin(keys, k, x)))
}
pub proof fn lem_comp1(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, keys: Seq<int>, k: int)
  requires comp1(rs, lm, rm, keys, k), 0 <= k < keys.len(), keys.no_duplicates(),
  ensures comp1(rs.push(Pair { first: keys[k], second: mcomp(lm, rm, keys[k]) }), lm, rm, keys, k + 1),
{
  let u = Pair { first: keys[k], second: mcomp(lm, rm, keys[k]) }; let q = rs.push(u);
  lem_kin(keys, k); lem_push_eff(rs, u);
  assert(!ru_named(rs, rs.len() as int, keys[k])); lem_uniq_push(rs, u);
  assert forall|x: int| #![trigger ru_eff(q, x)] #![trigger ru_named(q, q.len() as int, x)] ru_eff(q, x) == (if kin(keys, k + 1, x) { mcomp(lm, rm, x) } else { VarDC::Clk(x) }) && (ru_named(q, q.len() as int, x) <==> kin(keys, k + 1, x)) by {
    assert(ru_eff(rs, x) == (if kin(keys, k, x) { mcomp(lm, rm, x) } else { VarDC::Clk(x) })); assert(ru_eff(rs.push(u), x) == if u.first == x { u.second } else { ru_eff(rs, x) }); assert(ru_named(rs.push(u), rs.len() as int + 1, x) <==> (ru_named(rs, rs.len() as int, x) || u.first == x));
  }
}
pub proof fn lem_comp2(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, keys: Seq<int>, k: int)
  requires comp2(rs, lm, rm, keys, k), 0 <= k < keys.len(), keys.no_duplicates(),
  ensures lm.dom().contains(keys[k]) ==> comp2(rs, lm, rm, keys, k + 1), !lm.dom().contains(keys[k]) ==> comp2(rs.push(Pair { first: keys[k], second: rm[keys[k]] }), lm, rm, keys, k + 1),
{
  lem_kin(keys, k);
  if lm.dom().contains(keys[k]) {
    assert forall|x: int| #![trigger ru_eff(rs, x)] #![trigger ru_named(rs, rs.len() as int, x)] ru_eff(rs, x) == (if lm.dom().contains(x) { mcomp(lm, rm, x) } else if kin(keys, k + 1, x) { rm[x] } else { VarDC::Clk(x) }) && (ru_named(rs, rs.len() as int, x) <==> (lm.dom().contains(x) || kin(keys, k + 1, x))) by { assert(kin(keys, k + 1, x) <==> (kin(keys, k, x) || x == keys[k])); }
  } else {
    let u = Pair { first: keys[k], second: rm[keys[k]] }; let q = rs.push(u);
    lem_push_eff(rs, u);
    assert(!ru_named(rs, rs.len() as int, keys[k])); lem_uniq_push(rs, u);
    assert forall|x: int| #![trigger ru_eff(q, x)] #![trigger ru_named(q, q.len() as int, x)] ru_eff(q, x) == (if lm.dom().contains(x) { mcomp(lm, rm, x) } else if kin(keys, k + 1, x) { rm[x] } else { VarDC::Clk(x) }) && (ru_named(q, q.len() as int, x) <==> (lm.dom().contains(x) || kin(keys, k + 1, x))) by {
      assert(kin(keys, k + 1, x) <==> (kin(keys, k, x) || x == keys[k]));
      assert(ru_eff(rs.push(u), x) == if u.first == x { u.second } else { ru_eff(rs, x) }); assert(ru_named(rs.push(u), rs.len() as int + 1, x) <==> (ru_named(rs, rs.len() as int, x) || u.first == x));
    }
  }
}
pub proof fn lem_comp_done(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, left: Seq<Pair<int, VarDC>>, right: Seq<Pair<int, VarDC>>, keys: Seq<int>)
  requires comp2(rs, lm, rm, keys, keys.len() as int), is_enum(rm.dom(), keys), map_of(lm, left, left.len() as int), map_of(rm, right, right.len() as int),
  ensures forall|x: int| #[trigger] ru_eff(rs, x) == ru_comp(left, right, x),
{
  lem_kin_all(rm.dom(), keys);
  assert forall|x: int| #[trigger] ru_eff(rs, x) == ru_comp(left, right, x) by {
    assert(lm.dom().contains(x) <==> ru_named(left, left.len() as int, x)); assert(rm.dom().contains(x) <==> ru_named(right, right.len() as int, x)); assert(kin(keys, keys.len() as int, x) <==> rm.dom().contains(x));
    match ru_eff(left, x) { VarDC::Dbl(d) => {}, VarDC::Clk(y) => { assert(rm.dom().contains(y) <==> ru_named(right, right.len() as int, y)); } }
  }
}
// updates for the clocks the original list does not mention
pub open spec fn default_inv(rs: Seq<Pair<int, VarDC>>, o: Seq<Pair<int, VarDC>>, d: Seq<Pair<int, VarDC>>, k: int) -> bool {
  forall|x: int| #[trigger] ru_eff(rs, x) == if ru_named(o, o.len() as int, x) { ru_eff(o, x) } else { ru_at(d, k, x) }
}
pub proof fn lem_default(rs: Seq<Pair<int, VarDC>>, o: Seq<Pair<int, VarDC>>, d: Seq<Pair<int, VarDC>>, k: int)
  requires default_inv(rs, o, d, k), 0 <= k < d.len(),
  ensures ru_named(o, o.len() as int, d[k].first) ==> default_inv(rs, o, d, k + 1), !ru_named(o, o.len() as int, d[k].first) ==> default_inv(rs.push(Pair { first: d[k].first, second: d[k].second }), o, d, k + 1),
{
  let u = Pair { first: d[k].first, second: d[k].second };
  lem_push_eff(rs, u); lem_named_all(d, k);
  assert forall|x: int| #[trigger] ru_at(d, k + 1, x) == if d[k].first == x { d[k].second } else { ru_at(d, k, x) } by { lem_named(d, k, x); }
}
// a predicate which accepts exactly the updates that do something
pub open spec fn only_ids(p: spec_fn(Pair<int, VarDC>) -> bool) -> bool { forall|u: Pair<int, VarDC>| (#[trigger] p(u)) == !ru_identity(u) }
pub open spec fn filt_at(s: Seq<Pair<int, VarDC>>, f: Seq<Pair<int, VarDC>>) -> bool {
  ru_uniq(f) && (forall|x: int| #[trigger] ru_eff(f, x) == ru_eff(s, x)) && (forall|i: int| 0 <= i < f.len() ==> !ru_identity(#[trigger] f[i]))
}
pub proof fn lem_filt_at(s: Seq<Pair<int, VarDC>>, p: spec_fn(Pair<int, VarDC>) -> bool)
  requires ru_uniq(s), forall|u: Pair<int, VarDC>| !(#[trigger] p(u)) ==> ru_identity(u),
  ensures ru_uniq(s.filter(p)), forall|x: int| #[trigger] ru_eff(s.filter(p), x) == ru_eff(s, x), forall|x: int| #[trigger] ru_named(s.filter(p), s.filter(p).len() as int, x) ==> ru_named(s, s.len() as int, x),
  decreases s.len(),
{
  reveal(Seq::filter);
  if s.len() > 0 {
    let q = s.drop_last(); let k = s.len() as int; let f = q.filter(p); let u = s.last();
    assert(ru_uniq(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).first != (#[trigger] q[j]).first by { assert(s[i].first != s[j].first); } }
    lem_filt_at(q, p);
    assert(q.push(u) =~= s);
    lem_push_eff(q, u);
    assert(!ru_named(q, k - 1, u.first)) by { if ru_named(q, k - 1, u.first) { let i = choose|i: int| 0 <= i < k - 1 && i < q.len() && (#[trigger] q[i]).first == u.first; assert(s[i].first != s[k - 1].first); } }
    if p(u) { lem_push_eff(f, u); lem_uniq_push(f, u); assert(s.filter(p) == f.push(u));
      assert forall|x: int| #[trigger] ru_named(s.filter(p), s.filter(p).len() as int, x) implies ru_named(s, s.len() as int, x) by { assert(ru_named(f.push(u), f.len() as int + 1, x)); assert(ru_named(q.push(u), k, x)); }
    } else {
      assert(s.filter(p) == f);
      lem_unnamed(q, k - 1, u.first);
      assert forall|x: int| #[trigger] ru_eff(s.filter(p), x) == ru_eff(s, x) by { assert(ru_eff(q.push(u), x) == if u.first == x { u.second } else { ru_eff(q, x) }); assert(ru_eff(f, x) == ru_eff(q, x)); }
      assert forall|x: int| #[trigger] ru_named(s.filter(p), s.filter(p).len() as int, x) implies ru_named(s, s.len() as int, x) by { assert(ru_named(f, f.len() as int, x)); assert(ru_named(q.push(u), k, x)); }
    }
  } else { assert(s.filter(p) =~= s); }
}
// the map of updates after k precise ones have been merged into it
pub open spec fn add_inv(m: Map<int, VarDC>, o: Seq<Pair<int, VarDC>>, rs: Seq<Pair<int, VarDC>>, k: int, copies: bool) -> bool {
  forall|x: int| #![trigger m.dom().contains(x)] #![trigger ru_added(o, rs, k, copies, x)] (if m.dom().contains(x) { m[x] } else { VarDC::Clk(x) }) == ru_added(o, rs, k, copies, x)
}
pub proof fn lem_add_start(o: Seq<Pair<int, VarDC>>, rs: Seq<Pair<int, VarDC>>, copies: bool)
  requires ru_uniq(o), ensures add_inv(map_first(o), o, rs, 0, copies),
{
  lem_map_first(o); let m = map_first(o);
  assert forall|x: int| #![trigger m.dom().contains(x)] #![trigger ru_added(o, rs, 0, copies, x)] (if m.dom().contains(x) { m[x] } else { VarDC::Clk(x) }) == ru_added(o, rs, 0, copies, x) by { assert(ru_at(o, o.len() as int, x) == ru_eff(o, x)); }
}
pub open spec fn add_step(m: Map<int, VarDC>, u: Pair<int, VarDC>, copies: bool) -> Map<int, VarDC> {
  if m.dom().contains(u.first) && ru_const(m[u.first]) { m } else if ru_const(u.second) || (copies && u.second is Clk) { m.insert(u.first, u.second) } else { m }
}
pub proof fn lem_add(m: Map<int, VarDC>, o: Seq<Pair<int, VarDC>>, rs: Seq<Pair<int, VarDC>>, k: int, copies: bool)
  requires add_inv(m, o, rs, k, copies), 0 <= k < rs.len(), ru_uniq(rs), ensures add_inv(add_step(m, rs[k], copies), o, rs, k + 1, copies),
{
  let u = rs[k]; let q = add_step(m, u, copies);
  assert forall|x: int| #![trigger q.dom().contains(x)] #![trigger ru_added(o, rs, k + 1, copies, x)] (if q.dom().contains(x) { q[x] } else { VarDC::Clk(x) }) == ru_added(o, rs, k + 1, copies, x) by {
    lem_named(rs, k, x);
    assert((if m.dom().contains(x) { m[x] } else { VarDC::Clk(x) }) == ru_added(o, rs, k, copies, x));
    if x == u.first { if ru_named(rs, k, x) { let i = choose|i: int| 0 <= i < k && i < rs.len() && (#[trigger] rs[i]).first == x; assert(rs[i].first != rs[k].first); } }
  }
}
pub proof fn lem_comp12(rs: Seq<Pair<int, VarDC>>, lm: Map<int, VarDC>, rm: Map<int, VarDC>, keys: Seq<int>)
  requires comp1(rs, lm, rm, keys, keys.len() as int), is_enum(lm.dom(), keys),
  ensures forall|q: Seq<int>| #[trigger] comp2(rs, lm, rm, q, 0),
{
  lem_kin_all(lm.dom(), keys);
  assert forall|q: Seq<int>| #[trigger] comp2(rs, lm, rm, q, 0) by {
    assert forall|x: int| #![trigger ru_eff(rs, x)] #![trigger ru_named(rs, rs.len() as int, x)] ru_eff(rs, x) == (if lm.dom().contains(x) { mcomp(lm, rm, x) } else if kin(q, 0, x) { rm[x] } else { VarDC::Clk(x) }) && (ru_named(rs, rs.len() as int, x) <==> (lm.dom().contains(x) || kin(q, 0, x))) by {
      assert(ru_eff(rs, x) == (if kin(keys, keys.len() as int, x) { mcomp(lm, rm, x) } else { VarDC::Clk(x) }));
      assert(kin(keys, keys.len() as int, x) <==> lm.dom().contains(x));
    }
  }
}
