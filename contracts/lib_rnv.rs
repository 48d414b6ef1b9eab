// choosing a valuation of a simple condition
pub open spec fn pins(m: Mat, r: Seq<D>, n: int) -> bool { forall|v: spec_fn(int) -> real, k: int| #![trigger sat(m, v), r[k]] sat(m, v) && 0 <= k < n ==> v(k + 1) - v(0) == dv(r[k]) }
pub open spec fn val_upto(o: Mat, m: Mat, r: Seq<D>, n: int) -> bool {
  canonical(m) && m.rows == o.rows && r.len() == m.rows - 1 && 0 <= n <= r.len() && subset(m, o) && pins(m, r, n) && (forall|k: int| 0 <= k < n ==> (#[trigger] r[k]) is Fin)
}
/// the valuation is admitted by the condition, and exactly the constant variables have integer values
pub open spec fn val_ok(o: Mat, r: Seq<D>) -> bool {
  r.len() == o.rows - 1 && sat(o, valof(r)) && forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]) is Fin && (is_int(dv(r[k])) <==> ptb(o.at(k + 1, 0), o.at(0, k + 1)))
}
pub proof fn lem_val_fin(o: Mat, m: Mat, x: int)
  requires canonical(o), simple(o), canonical(m), m.rows == o.rows, subset(m, o), 0 < x < o.rows,
  ensures m.at(x, 0).first is Fin, m.at(0, x).first is Fin, dv(m.at(x, 0).first) + dv(m.at(0, x).first) >= 0real,
    dv(m.at(x, 0).first) + dv(m.at(0, x).first) == 0real ==> m.at(x, 0).second && m.at(0, x).second,
{
  lem_includes(m, o); lem_diag_off(m);
  assert(tij(0, x));
  assert(ble(m.at(0, x), o.at(0, x)) && ble(m.at(x, 0), o.at(x, 0)));
  assert(ble(bz(), badd(m.at(0, x), m.at(x, 0)))) by { assert(ble(dz(m, 0, 0), badd(m.at(0, x), m.at(x, 0)))); }
  assert(okb(m.at(0, x)) && okb(m.at(x, 0)));
}
/// a constant variable
pub proof fn lem_val_point(o: Mat, m: Mat, r: Seq<D>, n: int, c: D)
  requires val_upto(o, m, r, n), n < r.len(), canonical(o), simple(o), m.at(n + 1, 0).first == c, m.at(0, n + 1).first == dneg(c), m.at(0, n + 1).second, m.at(n + 1, 0).second,
  ensures val_upto(o, m, r.update(n, c), n + 1)
{
  lem_val_fin(o, m, n + 1);
  let q = r.update(n, c);
  assert forall|v: spec_fn(int) -> real, k: int| #![trigger sat(m, v), q[k]] sat(m, v) && 0 <= k < n + 1 implies v(k + 1) - v(0) == dv(q[k]) by {
    if k < n { assert(r[k] == q[k]); } else { assert(bsat(m.at(n + 1, 0), v(n + 1) - v(0))); assert(bsat(m.at(0, n + 1), v(0) - v(n + 1))); }
  }
}
/// a value strictly between the bounds exists in the condition
pub proof fn lem_val_mid(o: Mat, m: Mat, r: Seq<D>, n: int, a: Mat, b: Mat, c: D)
  requires val_upto(o, m, r, n), n < r.len(), canonical(o), simple(o), !ptb(m.at(n + 1, 0), m.at(0, n + 1)),
    c is Fin, dv(c) + dv(c) == dv(m.at(n + 1, 0).first) - dv(m.at(0, n + 1).first),
    wf(a), wf(b), a.rows == m.rows, b.rows == m.rows, diag_ok(b) ==> closed(b),
    forall|v: spec_fn(int) -> real| #[trigger] sat(a, v) == (sat(m, v) && bsat(Pair { first: dneg(c), second: true }, -(v(n + 1) - v(0)))),
    forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) == (sat(a, v) && bsat(Pair { first: c, second: true }, v(n + 1) - v(0))),
  ensures val_upto(o, b, r.update(n, c), n + 1)
{
  let x = n + 1; let d = dv(c);
  lem_val_fin(o, m, x);
  let v0 = |i: int| if i == x { d } else { 0real };
  let s0 = |i: int| i == x || i == 0;
  assert(bsat(m.at(x, 0), d) && bsat(m.at(0, x), -d));
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && s0(i) && s0(j) implies bsat(#[trigger] m.at(i, j), v0(i) - v0(j)) by { assert(ble(bz(), m.at(x, x))); assert(ble(bz(), m.at(0, 0))); }
  let w = lem_extend_all(m, v0, s0, 0);
  assert(s0(x) && s0(0)); assert(w(x) == d && w(0) == 0real);
  assert(sat(a, w)); assert(sat(b, w)); lem_sat_diag(b, w);
  let q = r.update(n, c);
  assert forall|v: spec_fn(int) -> real| #[trigger] sat(b, v) implies sat(o, v) by { assert(sat(a, v)); assert(sat(m, v)); }
  assert forall|v: spec_fn(int) -> real, k: int| #![trigger sat(b, v), q[k]] sat(b, v) && 0 <= k < n + 1 implies v(k + 1) - v(0) == dv(q[k]) by {
    assert(sat(a, v)); assert(sat(m, v)); if k < n { assert(r[k] == q[k]); }
  }
}
pub proof fn lem_val_done(o: Mat, m: Mat, r: Seq<D>)
  requires val_upto(o, m, r, r.len() as int), canonical(o), simple(o), intm(o),
  ensures val_ok(o, r)
{
  let u = lem_extend_all(m, |i: int| 0real, |i: int| false, 0);
  assert(sat(m, u)); assert(sat(o, u));
  assert forall|i: int, j: int| 0 <= i < o.rows && 0 <= j < o.cols implies #[trigger] tij(i, j) && u(i) - u(j) == valof(r)(i) - valof(r)(j) by {
    if i > 0 { let _ = r[i - 1]; assert(u(i) - u(0) == dv(r[i - 1])); }
    if j > 0 { let _ = r[j - 1]; assert(u(j) - u(0) == dv(r[j - 1])); }
  }
  lem_shift(o, u, valof(r));
  assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) is Fin && (is_int(dv(r[k])) <==> ptb(o.at(k + 1, 0), o.at(0, k + 1))) by {
    let x = k + 1; let d = dv(r[k]);
    assert(u(x) - u(0) == d);
    assert(bsat(o.at(x, 0), u(x) - u(0)) && bsat(o.at(0, x), u(0) - u(x)));
    assert(tij(0, x)); assert(intb(o.at(x, 0)) && intb(o.at(0, x)));
    if ptb(o.at(x, 0), o.at(0, x)) { assert(d == dv(o.at(x, 0).first)); }
    else {
      assert(unitb(o.at(0, x), o.at(x, 0)));
      let t = dv(o.at(x, 0).first);
      assert(t - 1real < d < t);
      if is_int(d) { assert(t == t.floor() as real); assert(d == d.floor() as real); assert((t.floor() - 1) as real == t - 1real); assert(t.floor() - 1 < d.floor() < t.floor()); }
    }
  }
}
// ---- the update list of a renaming relation
pub open spec fn rn_left(ren: Seq<Pair<int, int>>, x: int) -> bool { exists|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == x }
pub open spec fn rn_uniq(ren: Seq<Pair<int, int>>) -> bool { forall|i: int, j: int| 0 <= i < j < ren.len() ==> (#[trigger] ren[i]).second != (#[trigger] ren[j]).second }
/// the updates after the target variables below n have been treated
pub open spec fn rn_upto(ren: Seq<Pair<int, int>>, val: Seq<D>, r: Seq<Pair<int, VarDC>>, n: int) -> bool {
  r.len() >= ren.len() && 0 <= n <= val.len()
  && (forall|k: int| 0 <= k < ren.len() ==> (#[trigger] r[k]).first == ren[k].second && r[k].second == (if ren[k].second < n && val[ren[k].second] == dfloor(val[ren[k].second]) { VarDC::Dbl(val[ren[k].second]) } else { VarDC::Clk(ren[k].first) }))
  && (forall|k: int| ren.len() <= k < r.len() ==> 0 <= (#[trigger] r[k]).first < n && !rn_left(ren, r[k].first) && r[k].second == VarDC::Dbl(val[r[k].first]))
  && (forall|x: int| 0 <= x < n ==> #[trigger] ru_named(r, r.len() as int, x))
  && ru_uniq(r)
}
/// what the update list does to the target variable x
pub open spec fn rn_effect(ren: Seq<Pair<int, int>>, o: Mat, val: Seq<D>, x: int, e: VarDC) -> bool {
  if ptb(o.at(x + 1, 0), o.at(0, x + 1)) { e == VarDC::Dbl(val[x]) }
  else if rn_left(ren, x) { exists|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == x && e == VarDC::Clk(ren[k].first) }
  else { e == VarDC::Dbl(val[x]) }
}
pub open spec fn rn_realised(ren: Seq<Pair<int, int>>, o: Mat, val: Seq<D>, r: Seq<Pair<int, VarDC>>) -> bool {
  val_ok(o, val) && ru_uniq(r) && (forall|k: int| 0 <= k < r.len() ==> 0 <= (#[trigger] r[k]).first < o.rows - 1)
  && forall|x: int| 0 <= x < o.rows - 1 ==> ru_named(r, r.len() as int, x) && rn_effect(ren, o, val, x, #[trigger] ru_eff(r, x))
}
pub proof fn lem_rn_step(ren: Seq<Pair<int, int>>, val: Seq<D>, r: Seq<Pair<int, VarDC>>, q: Seq<Pair<int, VarDC>>, x: int)
  requires rn_upto(ren, val, r, x), x < val.len(), rn_uniq(ren),
    forall|k: int| 0 <= k < r.len() && (#[trigger] r[k]).first == x ==> q == (if val[x] == dfloor(val[x]) { r.update(k, Pair { first: x, second: VarDC::Dbl(val[x]) }) } else { r }),
    (forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).first != x) ==> q == r.push(Pair { first: x, second: VarDC::Dbl(val[x]) }),
  ensures rn_upto(ren, val, q, x + 1)
{
  if rn_left(ren, x) { let k = choose|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == x; assert(r[k].first == x); }
  else { assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).first != x by { if k < ren.len() { assert(ren[k].second != x); } } }
  if rn_left(ren, x) {
    let k = choose|k: int| 0 <= k < ren.len() && (#[trigger] ren[k]).second == x;
    assert(q.len() == r.len());
    assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).first == r[i].first by { }
    assert forall|i: int| 0 <= i < ren.len() implies (#[trigger] q[i]).first == ren[i].second && q[i].second == (if ren[i].second < x + 1 && val[ren[i].second] == dfloor(val[ren[i].second]) { VarDC::Dbl(val[ren[i].second]) } else { VarDC::Clk(ren[i].first) }) by {
      let _ = r[i]; if i != k { if i < k { assert(ren[i].second != ren[k].second); } else { assert(ren[k].second != ren[i].second); } }
    }
    assert forall|y: int| 0 <= y < x + 1 implies #[trigger] ru_named(q, q.len() as int, y) by {
      if y == x { assert(q[k].first == x); } else { assert(ru_named(r, r.len() as int, y)); let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).first == y; assert(q[i].first == y); }
    }
    assert forall|k2: int| ren.len() <= k2 < q.len() implies 0 <= (#[trigger] q[k2]).first < x + 1 && !rn_left(ren, q[k2].first) && q[k2].second == VarDC::Dbl(val[q[k2].first]) by { let _ = r[k2]; }
    assert(ru_uniq(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).first != (#[trigger] q[j]).first by { assert(r[i].first != r[j].first); } }
  } else {
    let l = r.len() as int;
    assert(q[l].first == x);
    assert forall|i: int| 0 <= i < l implies #[trigger] q[i] == r[i] by { }
    assert forall|i: int| 0 <= i < ren.len() implies (#[trigger] q[i]).first == ren[i].second && q[i].second == (if ren[i].second < x + 1 && val[ren[i].second] == dfloor(val[ren[i].second]) { VarDC::Dbl(val[ren[i].second]) } else { VarDC::Clk(ren[i].first) }) by { let _ = r[i]; assert(ren[i].second != x); }
    assert forall|k2: int| ren.len() <= k2 < q.len() implies 0 <= (#[trigger] q[k2]).first < x + 1 && !rn_left(ren, q[k2].first) && q[k2].second == VarDC::Dbl(val[q[k2].first]) by { if k2 < l { let _ = r[k2]; } }
    assert forall|y: int| 0 <= y < x + 1 implies #[trigger] ru_named(q, q.len() as int, y) by {
      if y < x { assert(ru_named(r, r.len() as int, y)); let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).first == y; assert(q[i].first == y); }
    }
    assert(ru_uniq(q)) by { assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).first != (#[trigger] q[j]).first by {
      if j < l { assert(r[i].first != r[j].first); } else { if i < ren.len() { assert(r[i].first == ren[i].second); } else { let _ = r[i]; } } } }
  }
}
pub proof fn lem_rn_done(ren: Seq<Pair<int, int>>, o: Mat, val: Seq<D>, r: Seq<Pair<int, VarDC>>)
  requires rn_upto(ren, val, r, o.rows - 1), val_ok(o, val), rn_uniq(ren), forall|k: int| 0 <= k < ren.len() ==> 0 <= (#[trigger] ren[k]).second < o.rows - 1,
  ensures rn_realised(ren, o, val, r)
{
  assert forall|k: int| 0 <= k < r.len() implies 0 <= (#[trigger] r[k]).first < o.rows - 1 by { if k < ren.len() { let _ = ren[k]; } }
  assert forall|x: int| 0 <= x < o.rows - 1 implies ru_named(r, r.len() as int, x) && rn_effect(ren, o, val, x, #[trigger] ru_eff(r, x)) by {
    assert(ru_named(r, r.len() as int, x));
    let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).first == x;
    lem_uniq_at(r, r.len() as int, i);
    assert(ru_eff(r, x) == r[i].second);
    let d = val[x]; assert(d is Fin);
    assert(is_int(dv(d)) <==> d == dfloor(d));
    if i < ren.len() { assert(ren[i].second == x); assert(rn_left(ren, x)); }
  }
}
/// the imprecise variables: constant neither in the condition nor renamed
pub open spec fn rn_imprecise(ren: Seq<Pair<int, int>>, o: Mat, x: int) -> bool { !ptb(o.at(x + 1, 0), o.at(0, x + 1)) && !rn_left(ren, x) }
pub open spec fn rn_active(ren: Seq<Pair<int, int>>, o: Mat) -> bool { exists|k: int| 0 <= k < ren.len() && !ptb(o.at((#[trigger] ren[k]).second + 1, 0), o.at(0, ren[k].second + 1)) }
