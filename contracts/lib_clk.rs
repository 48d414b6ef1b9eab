// the same automaton over fewer clocks: clock i of the new one is clock e[i] of the old one
pub open spec fn rst(v: Seq<D>, w: Seq<D>, e: Seq<int>) -> bool { forall|i: int| 0 <= i < e.len() ==> #[trigger] w[i] == v[e[i]] }
pub open spec fn clk_emb(e: Seq<int>, n: int) -> bool { e.no_duplicates() && forall|i: int| 0 <= i < e.len() ==> 0 <= #[trigger] e[i] < n }
pub open spec fn clk_guard(g0: Seq<Constraint>, g1: Seq<Constraint>, e: Seq<int>) -> bool {
  g1.len() == g0.len() && forall|i: int| 0 <= i < g1.len() ==> 0 <= (#[trigger] g1[i]).x < e.len() && g0[i].x == e[g1[i].x] && g0[i].odr == g1[i].odr && g0[i].c == g1[i].c
}
pub open spec fn clk_resets(r0: Seq<Pair<int, VarDC>>, r1: Seq<Pair<int, VarDC>>, e: Seq<int>, n: int) -> bool {
  forall|v: Seq<D>, w: Seq<D>, i: int| #![trigger rst(v, w, e), ru_val(r1, r1.len() as int, w, i)] v.len() == n && w.len() == e.len() && rst(v, w, e) && 0 <= i < e.len() ==> ru_val(r1, r1.len() as int, w, i) == ru_val(r0, r0.len() as int, v, e[i])
}
pub open spec fn clk_tr(t0: TATransition, t1: TATransition, e: Seq<int>, n: int) -> bool {
  t0.target == t1.target && clk_guard(t0.guard, t1.guard, e) && clk_resets(t0.resetVars, t1.resetVars, e, n) && rus_ok(t1.resetVars, e.len() as int) && nn_resets(t1.resetVars)
}
pub open spec fn clk_list(T: Seq<TATransition>, U: Seq<TATransition>, e: Seq<int>, n: int) -> bool { T.len() == U.len() && forall|i: int| 0 <= i < T.len() ==> clk_tr(T[i], #[trigger] U[i], e, n) }
pub open spec fn clk_st(s: TAState, t: TAState, e: Seq<int>, n: int) -> bool { s.isMatch == t.isMatch && forall|a: int| clk_list(trans_of(s, a), #[trigger] trans_of(t, a), e, n) }
pub open spec fn clk_ta(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, e: Seq<int>) -> bool {
  &&& clk_emb(e, t.maxConstraints.len() as int) && e.len() == t1.maxConstraints.len()
  &&& forall|p: int| #[trigger] own(t1).contains(p) ==> own(t).contains(p) && g.dom().contains(p) && clk_st(h[p], g[p], e, t.maxConstraints.len() as int)
  &&& forall|p: int, a: int, i: int| #![trigger trans_of(h[p], a)[i]] own(t1).contains(p) && 0 <= i < trans_of(h[p], a).len() ==> own(t1).contains(trans_of(h[p], a)[i].target)
  &&& t1.base.initialStates == t.base.initialStates && (t.base.states.len() > 0 ==> own(t1).contains(t.base.initialStates[0])) && (t.base.states.len() == 0 ==> t1.base.states.len() == 0)
}
pub proof fn lem_clk_guard(g0: Seq<Constraint>, g1: Seq<Constraint>, e: Seq<int>, v: Seq<D>, w: Seq<D>)
  requires clk_guard(g0, g1, e), rst(v, w, e), ensures ga_holds(g0, v) == ga_holds(g1, w),
{
  assert forall|i: int| 0 <= i < g1.len() implies con_holds(g0[i], dv(v[g0[i].x])) == con_holds(#[trigger] g1[i], dv(w[g1[i].x])) by { assert(w[g1[i].x] == v[e[g1[i].x]]); }
  if ga_holds(g1, w) { assert forall|i: int| 0 <= i < g0.len() implies con_holds(#[trigger] g0[i], dv(v[g0[i].x])) by { assert(con_holds(g1[i], dv(w[g1[i].x]))); } }
  if ga_holds(g0, v) { assert forall|i: int| 0 <= i < g1.len() implies con_holds(#[trigger] g1[i], dv(w[g1[i].x])) by { assert(con_holds(g0[i], dv(v[g0[i].x]))); } }
}
pub open spec fn clk_rel(c: Conf, d: Conf, e: Seq<int>, n: int, S: Set<int>) -> bool {
  match c { Conf::Dead => d is Dead, Conf::At(p, v) => match d { Conf::Dead => false, Conf::At(q, w) => p == q && S.contains(p) && v.len() == n && w.len() == e.len() && rst(v, w, e) } }
}
pub proof fn lem_clk_event(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, e: Seq<int>, c: Conf, d: Conf, a: int)
  requires usable(h, t), clk_ta(h, t, g, t1, e), clk_rel(c, d, e, t.maxConstraints.len() as int, own(t1)),
  ensures clk_rel(c_event(h, c, a), c_event(g, d, a), e, t.maxConstraints.len() as int, own(t1)),
{
  let n = t.maxConstraints.len() as int;
  match c { Conf::At(p, v) => { match d { Conf::At(q, w) => {
    let T = trans_of(h[p], a); let U = trans_of(g[p], a);
    assert(clk_list(T, U, e, n)); assert(own(t).contains(p)); assert(det_state(h[p]));
    assert forall|k: int| #[trigger] en_at(g[p], a, w, k) implies en_at(h[p], a, v, k) by { assert(clk_tr(T[k], U[k], e, n)); lem_clk_guard(T[k].guard, U[k].guard, e, v, w); }
    assert forall|k: int| #[trigger] en_at(h[p], a, v, k) implies en_at(g[p], a, w, k) by { assert(clk_tr(T[k], U[k], e, n)); lem_clk_guard(T[k].guard, U[k].guard, e, v, w); }
    if stuck(h[p], a, v) { assert forall|k: int| !#[trigger] en_at(g[p], a, w, k) by { if en_at(g[p], a, w, k) { assert(en_at(h[p], a, v, k)); } } }
    else {
      let k = choose|k: int| en_at(h[p], a, v, k); assert(en_at(h[p], a, v, k)); assert(en_at(g[p], a, w, k)); assert(!stuck(g[p], a, w));
      let m = choose|k: int| en_at(g[p], a, w, k); assert(en_at(g[p], a, w, m)); assert(en_at(h[p], a, v, m)); assert(m == k);
      assert(clk_tr(T[k], U[k], e, n)); assert(own(t1).contains(T[k].target));
      let v2 = ru_all(T[k].resetVars, v); let w2 = ru_all(U[k].resetVars, w);
      assert forall|i: int| 0 <= i < e.len() implies #[trigger] w2[i] == v2[e[i]] by { assert(w2[i] == ru_val(U[k].resetVars, U[k].resetVars.len() as int, w, i)); }
      assert(rst(v2, w2, e));
    }
  } _ => {} } } _ => {} }
}
pub proof fn lem_clk_upto(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, e: Seq<int>, w: Seq<int>, d: Seq<D>, i: int)
  requires usable(h, t), clk_ta(h, t, g, t1, e),
  ensures clk_rel(c_upto(h, t, w, d, i), c_upto(g, t1, w, d, i), e, t.maxConstraints.len() as int, own(t1)), decreases i,
{
  let n = t.maxConstraints.len() as int;
  if i <= 0 {
    if t.base.states.len() > 0 { assert(own(t1).contains(t.base.initialStates[0])); assert(t1.base.states.len() > 0); assert(rst(zeros(n), zeros(e.len() as int), e)); }
  } else {
    lem_clk_upto(h, t, g, t1, e, w, d, i - 1);
    let c = c_upto(h, t, w, d, i - 1); let q = c_upto(g, t1, w, d, i - 1);
    lem_clk_delay(c, q, e, n, own(t1), d[i - 1]);
    lem_clk_event(h, t, g, t1, e, c_delay(c, d[i - 1]), c_delay(q, d[i - 1]), w[i - 1]);
  }
}
pub proof fn lem_clk_delay(c: Conf, d: Conf, e: Seq<int>, n: int, S: Set<int>, x: D)
  requires clk_emb(e, n), clk_rel(c, d, e, n, S), ensures clk_rel(c_delay(c, x), c_delay(d, x), e, n, S),
{
  match c { Conf::At(p, v) => { match d { Conf::At(q, w) => {
    let v2 = ru_delayed(v, x); let w2 = ru_delayed(w, x);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] w2[i] == v2[e[i]] by { assert(w[i] == v[e[i]]); assert(0 <= e[i] < n); }
  } _ => {} } } _ => {} }
}
pub proof fn lem_clk_accepts(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, e: Seq<int>)
  requires usable(h, t), clk_ta(h, t, g, t1, e), ensures same_lang(h, t, g, t1), usable(g, t1),
{
  let n = t.maxConstraints.len() as int;
  assert forall|tw: TimedWord| #[trigger] accepts(g, t1, tw) == accepts(h, t, tw) by {
    let i = tw.word.len() as int; lem_clk_upto(h, t, g, t1, e, tw.word, tw.durations, i);
    lem_clk_delay(c_upto(h, t, tw.word, tw.durations, i), c_upto(g, t1, tw.word, tw.durations, i), e, n, own(t1), tw.durations[i]);
    match c_upto(h, t, tw.word, tw.durations, i) { Conf::At(p, v) => { assert(own(t1).contains(p)); assert(clk_st(h[p], g[p], e, n)); } _ => {} }
  }
  assert forall|p: int, a: int, i: int| #![trigger trans_of(g[p], a)[i]] own(t1).contains(p) && 0 <= i < trans_of(g[p], a).len() implies tr_ok(own(t1), trans_of(g[p], a)[i], e.len() as int) && nn_resets(trans_of(g[p], a)[i].resetVars) by {
    assert(clk_st(h[p], g[p], e, n)); assert(clk_list(trans_of(h[p], a), trans_of(g[p], a), e, n)); assert(clk_tr(trans_of(h[p], a)[i], trans_of(g[p], a)[i], e, n)); assert(own(t1).contains(trans_of(h[p], a)[i].target));
    assert forall|j: int| 0 <= j < trans_of(g[p], a)[i].guard.len() implies 0 <= (#[trigger] trans_of(g[p], a)[i].guard[j]).x < e.len() by { }
  }
  assert forall|p: int| #[trigger] own(t1).contains(p) implies trans_of(g[p], 0).len() == 0 && det_state(g[p]) by {
    assert(clk_list(trans_of(h[p], 0), trans_of(g[p], 0), e, n)); assert(own(t).contains(p)); assert(det_state(h[p]));
    assert forall|a: int, w: Seq<D>, i: int, j: int| #[trigger] en_at(g[p], a, w, i) && #[trigger] en_at(g[p], a, w, j) implies i == j by {
      let v = Seq::new(n as nat, |x: int| w[choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == x]);
      assert forall|k: int| 0 <= k < e.len() implies #[trigger] w[k] == v[e[k]] by { let x = e[k]; assert(0 <= x < n); let k2 = choose|k: int| 0 <= k < e.len() && #[trigger] e[k] == x; assert(e[k2] == e[k]); assert(k2 == k); }
      assert(rst(v, w, e));
      let T = trans_of(h[p], a); let U = trans_of(g[p], a); assert(clk_list(T, U, e, n)); assert(clk_tr(T[i], U[i], e, n)); assert(clk_tr(T[j], U[j], e, n));
      lem_clk_guard(T[i].guard, U[i].guard, e, v, w); lem_clk_guard(T[j].guard, U[j].guard, e, v, w);
      assert(en_at(h[p], a, v, i) && en_at(h[p], a, v, j));
    }
  }
  if t1.base.states.len() > 0 { assert(own(t1).contains(t1.base.states[0])); assert(own(t).contains(t1.base.states[0])); assert(t.base.states.len() > 0); }
  else { if t.base.states.len() > 0 { assert(own(t1).contains(t.base.initialStates[0])); } }
  assert(!own(t1).contains(0)) by { if own(t1).contains(0) { assert(own(t).contains(0)); } }
}
pub open spec fn clk_id(n: int) -> Seq<int> { Seq::new(n as nat, |i: int| i) }
pub proof fn lem_clk_id_val(rs: Seq<Pair<int, VarDC>>, k: int, v: Seq<D>, w: Seq<D>, n: int, i: int)
  requires rus_ok(rs, n), 0 <= k <= rs.len(), 0 <= i < n, rst(v, w, clk_id(n)), ensures ru_val(rs, k, w, i) == ru_val(rs, k, v, i), decreases k,
{
  if k > 0 { assert(ru_ok(rs[k - 1], n)); lem_clk_id_val(rs, k - 1, v, w, n, i); match rs[k - 1].second { VarDC::Clk(c) => { assert(w[c] == v[clk_id(n)[c]]); } _ => {} } }
  else { assert(w[i] == v[clk_id(n)[i]]); }
}
/// the transitions of t mention the first m clocks only
pub proof fn lem_clk_id_tr(t: TATransition, m: int, n: int)
  requires cov(t, m), nn_resets(t.resetVars), 0 <= m <= n, ensures clk_tr(t, t, clk_id(m), n),
{
  let e = clk_id(m); let rs = t.resetVars;
  assert forall|i: int| 0 <= i < t.guard.len() implies 0 <= (#[trigger] t.guard[i]).x < e.len() && t.guard[i].x == e[t.guard[i].x] by { }
  assert forall|v: Seq<D>, w: Seq<D>, i: int| #![trigger rst(v, w, e), ru_val(rs, rs.len() as int, w, i)] v.len() == n && w.len() == e.len() && rst(v, w, e) && 0 <= i < e.len() implies ru_val(rs, rs.len() as int, w, i) == ru_val(rs, rs.len() as int, v, e[i]) by { lem_clk_id_val(rs, rs.len() as int, v, w, m, i); }
}
