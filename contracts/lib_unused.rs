// renaming the clocks in use
pub open spec fn use_g(g: Seq<Constraint>, k: int, U: Set<int>) -> bool { forall|i: int| 0 <= i < k ==> U.contains((#[trigger] g[i]).x) }
pub open spec fn src_in(u: VarDC, U: Set<int>) -> bool { match u { VarDC::Clk(c) => U.contains(c), VarDC::Dbl(d) => true } }
pub open spec fn use_r(rs: Seq<Pair<int, VarDC>>, k: int, U: Set<int>) -> bool { forall|i: int| 0 <= i < k ==> src_in((#[trigger] rs[i]).second, U) }
pub open spec fn uses(t: TATransition, U: Set<int>) -> bool { use_g(t.guard, t.guard.len() as int, U) && use_r(t.resetVars, t.resetVars.len() as int, U) }
pub open spec fn use_list(T: Seq<TATransition>, k: int, U: Set<int>) -> bool { forall|i: int| 0 <= i < k ==> uses(#[trigger] T[i], U) }
pub open spec fn use_state(s: TAState, U: Set<int>) -> bool { forall|a: int| use_list(#[trigger] trans_of(s, a), trans_of(s, a).len() as int, U) }
pub open spec fn grow(A: Set<int>, B: Set<int>) -> bool { forall|x: int| #[trigger] A.contains(x) ==> B.contains(x) }
pub open spec fn below(U: Set<int>, n: int) -> bool { forall|x: int| #[trigger] U.contains(x) ==> 0 <= x < n }
pub proof fn lem_uses_grow(t: TATransition, A: Set<int>, B: Set<int>) requires uses(t, A), grow(A, B), ensures uses(t, B),
{ assert forall|i: int| 0 <= i < t.guard.len() implies B.contains((#[trigger] t.guard[i]).x) by { assert(A.contains(t.guard[i].x)); } assert forall|i: int| 0 <= i < t.resetVars.len() implies src_in((#[trigger] t.resetVars[i]).second, B) by { assert(src_in(t.resetVars[i].second, A)); } }
pub proof fn lem_use_list(T: Seq<TATransition>, k: int, A: Set<int>, B: Set<int>) requires use_list(T, k, A), grow(A, B), ensures use_list(T, k, B),
{ assert forall|i: int| 0 <= i < k implies uses(#[trigger] T[i], B) by { lem_uses_grow(T[i], A, B); } }
pub proof fn lem_use_state(s: TAState, A: Set<int>, B: Set<int>) requires use_state(s, A), grow(A, B), ensures use_state(s, B),
{ assert forall|a: int| use_list(#[trigger] trans_of(s, a), trans_of(s, a).len() as int, B) by { lem_use_list(trans_of(s, a), trans_of(s, a).len() as int, A, B); } }
/// the transitions speak about clocks in use only
pub open spec fn src_tr(t: TATransition, U: Set<int>, n: int) -> bool { uses(t, U) && cov(t, n) && nn_resets(t.resetVars) }
pub open spec fn src_list(T: Seq<TATransition>, U: Set<int>, n: int) -> bool { forall|i: int| 0 <= i < T.len() ==> src_tr(#[trigger] T[i], U, n) }
pub open spec fn src_state(s: TAState, U: Set<int>, n: int) -> bool { forall|a: int| src_list(#[trigger] trans_of(s, a), U, n) }
/// the position of each clock in use
pub open spec fn ren_upto(R: Map<int, int>, e: Seq<int>, k: int) -> bool { forall|j: int| 0 <= j < k ==> R.dom().contains(#[trigger] e[j]) && R[e[j]] == j }
pub open spec fn kren_ok(R: Map<int, int>, e: Seq<int>, U: Set<int>, n: int) -> bool { ren_upto(R, e, e.len() as int) && clk_emb(e, n) && forall|x: int| #[trigger] U.contains(x) <==> e.contains(x) }
pub proof fn lem_ren(R: Map<int, int>, e: Seq<int>, U: Set<int>, n: int, x: int)
  requires kren_ok(R, e, U, n), U.contains(x), ensures R.dom().contains(x), 0 <= R[x] < e.len(), e[R[x]] == x,
{ let j = choose|j: int| 0 <= j < e.len() && e[j] == x; assert(R.dom().contains(e[j])); }
pub open spec fn st_next(h: Map<int, TAState>, p: int, a: int, T: Seq<TATransition>) -> Map<int, TAState> { h.insert(p, TAState { isMatch: h[p].isMatch, next: h[p].next.insert(a, T) }) }
pub open spec fn upd_tr(h: Map<int, TAState>, p: int, a: int, k: int, t: TATransition) -> Map<int, TAState> { st_next(h, p, a, h[p].next[a].update(k, t)) }
pub proof fn lem_upd_tr(h: Map<int, TAState>, p: int, a: int, k: int, t: TATransition, u: TATransition)
  requires h.dom().contains(p), h[p].next.dom().contains(a), 0 <= k < h[p].next[a].len(), ensures upd_tr(upd_tr(h, p, a, k, t), p, a, k, u) == upd_tr(h, p, a, k, u),
{
  let g = upd_tr(h, p, a, k, t); let L = h[p].next[a];
  assert(L.update(k, t).update(k, u) =~= L.update(k, u));
  assert(h[p].next.insert(a, L.update(k, t)).insert(a, L.update(k, u)) =~= h[p].next.insert(a, L.update(k, u)));
  assert(upd_tr(g, p, a, k, u) =~= upd_tr(h, p, a, k, u));
}
pub proof fn lem_st_next(h: Map<int, TAState>, p: int, a: int, T: Seq<TATransition>, V: Seq<TATransition>)
  requires h.dom().contains(p), h[p].next.dom().contains(a), ensures st_next(st_next(h, p, a, T), p, a, V) == st_next(h, p, a, V),
{ assert(h[p].next.insert(a, T).insert(a, V) =~= h[p].next.insert(a, V)); assert(st_next(st_next(h, p, a, T), p, a, V) =~= st_next(h, p, a, V)); }
pub open spec fn rr1(u: Pair<int, VarDC>, R: Map<int, int>) -> Pair<int, VarDC> { Pair { first: R[u.first], second: match u.second { VarDC::Dbl(d) => VarDC::Dbl(d), VarDC::Clk(c) => VarDC::Clk(R[c]) } } }
pub open spec fn ren_resets(r0: Seq<Pair<int, VarDC>>, m: int, U: Set<int>, R: Map<int, int>) -> Seq<Pair<int, VarDC>> decreases m {
  if m <= 0 { Seq::empty() } else if U.contains(r0[m - 1].first) { ren_resets(r0, m - 1, U, R).push(rr1(r0[m - 1], R)) } else { ren_resets(r0, m - 1, U, R) }
}
pub proof fn lem_ru_ext(r: Seq<Pair<int, VarDC>>, s: Seq<Pair<int, VarDC>>, k: int, w: Seq<D>, x: int)
  requires forall|j: int| 0 <= j < k ==> #[trigger] r[j] == s[j], ensures ru_val(r, k, w, x) == ru_val(s, k, w, x), decreases k,
{ if k > 0 { assert(r[k - 1] == s[k - 1]); lem_ru_ext(r, s, k - 1, w, x); } }
pub proof fn lem_ren_resets(r0: Seq<Pair<int, VarDC>>, m: int, U: Set<int>, R: Map<int, int>, e: Seq<int>, n: int)
  requires 0 <= m <= r0.len(), kren_ok(R, e, U, n), rus_ok(r0, n), nn_resets(r0), use_r(r0, r0.len() as int, U),
  ensures
    forall|v: Seq<D>, w: Seq<D>, i: int| #![trigger rst(v, w, e), ru_val(ren_resets(r0, m, U, R), ren_resets(r0, m, U, R).len() as int, w, i)] v.len() == n && w.len() == e.len() && rst(v, w, e) && 0 <= i < e.len() ==> ru_val(ren_resets(r0, m, U, R), ren_resets(r0, m, U, R).len() as int, w, i) == ru_val(r0, m, v, e[i]),
    rus_ok(ren_resets(r0, m, U, R), e.len() as int), nn_resets(ren_resets(r0, m, U, R)),
  decreases m,
{
  let q = ren_resets(r0, m, U, R);
  if m > 0 {
    lem_ren_resets(r0, m - 1, U, R, e, n);
    let q0 = ren_resets(r0, m - 1, U, R); let u = r0[m - 1]; assert(ru_ok(u, n)); assert(src_in(u.second, U)); assert(nn_src(u.second));
    if U.contains(u.first) {
      lem_ren(R, e, U, n, u.first); match u.second { VarDC::Clk(c) => { lem_ren(R, e, U, n, c); } _ => {} }
      assert forall|j: int| 0 <= j < q.len() implies ru_ok(#[trigger] q[j], e.len() as int) by { if j < q0.len() { assert(q[j] == q0[j]); assert(ru_ok(q0[j], e.len() as int)); } }
      assert forall|j: int| 0 <= j < q.len() implies nn_src((#[trigger] q[j]).second) by { if j < q0.len() { assert(q[j] == q0[j]); assert(nn_src(q0[j].second)); } }
    }
    assert forall|v: Seq<D>, w: Seq<D>, i: int| #![trigger rst(v, w, e), ru_val(q, q.len() as int, w, i)] v.len() == n && w.len() == e.len() && rst(v, w, e) && 0 <= i < e.len() implies ru_val(q, q.len() as int, w, i) == ru_val(r0, m, v, e[i]) by {
      assert(ru_val(q0, q0.len() as int, w, i) == ru_val(r0, m - 1, v, e[i]));
      if U.contains(u.first) {
        lem_ru_ext(q, q0, q0.len() as int, w, i);
        assert((R[u.first] == i) == (u.first == e[i]));
        match u.second { VarDC::Clk(c) => { assert(w[R[c]] == v[e[R[c]]]); } _ => {} }
      } else { assert(U.contains(e[i])) by { assert(e.contains(e[i])); } }
    }
  } else {
    assert forall|v: Seq<D>, w: Seq<D>, i: int| #![trigger rst(v, w, e), ru_val(q, q.len() as int, w, i)] v.len() == n && w.len() == e.len() && rst(v, w, e) && 0 <= i < e.len() implies ru_val(q, q.len() as int, w, i) == ru_val(r0, m, v, e[i]) by { assert(w[i] == v[e[i]]); }
  }
}
pub open spec fn cg(c0: Constraint, c1: Constraint, e: Seq<int>) -> bool { 0 <= c1.x < e.len() && c0.x == e[c1.x] && c0.odr == c1.odr && c0.c == c1.c }
/// the processed updates come first, the others follow as they were
pub open spec fn half_ren(r0: Seq<Pair<int, VarDC>>, rc: Seq<Pair<int, VarDC>>, it: int, U: Set<int>, R: Map<int, int>) -> bool {
  0 <= it <= rc.len() <= r0.len() && rc.take(it) == ren_resets(r0, r0.len() - rc.len() + it, U, R) && forall|j: int| it <= j < rc.len() ==> #[trigger] rc[j] == r0[r0.len() - rc.len() + j]
}
pub proof fn lem_half_drop(r0: Seq<Pair<int, VarDC>>, rc: Seq<Pair<int, VarDC>>, it: int, U: Set<int>, R: Map<int, int>)
  requires half_ren(r0, rc, it, U, R), it < rc.len(), !U.contains(rc[it].first), ensures half_ren(r0, rc.remove(it), it, U, R),
{ let d = rc.remove(it); assert(d.take(it) =~= rc.take(it)); assert forall|j: int| it <= j < d.len() implies #[trigger] d[j] == r0[r0.len() - d.len() + j] by { assert(d[j] == rc[j + 1]); } }
pub proof fn lem_half_keep(r0: Seq<Pair<int, VarDC>>, rc: Seq<Pair<int, VarDC>>, it: int, U: Set<int>, R: Map<int, int>)
  requires half_ren(r0, rc, it, U, R), it < rc.len(), U.contains(rc[it].first), ensures half_ren(r0, rc.update(it, rr1(rc[it], R)), it + 1, U, R),
{ let d = rc.update(it, rr1(rc[it], R)); assert(d.take(it + 1) =~= rc.take(it).push(rr1(rc[it], R))); }
pub proof fn lem_incr(e: Seq<int>, i: int)
  requires forall|a: int, b: int| 0 <= a < b < e.len() ==> #[trigger] e[a] < #[trigger] e[b], forall|a: int| 0 <= a < e.len() ==> #[trigger] e[a] >= 0, 0 <= i < e.len(), ensures e[i] >= i, decreases i,
{ if i > 0 { lem_incr(e, i - 1); assert(e[i - 1] < e[i]); } }
