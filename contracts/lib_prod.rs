// products of timed automata: states are pairs, the clocks of the second automaton follow those of the first one
pub open spec fn pk(a: int, b: int) -> Pair<int, int> { Pair { first: a, second: b } }
pub open spec fn sh_src(u: VarDC, n: int) -> VarDC { match u { VarDC::Dbl(d) => VarDC::Dbl(d), VarDC::Clk(c) => VarDC::Clk(c + n) } }
pub open spec fn sh_resets(rs: Seq<Pair<int, VarDC>>, n: int) -> Seq<Pair<int, VarDC>> { Seq::new(rs.len(), |i: int| Pair { first: rs[i].first + n, second: sh_src(rs[i].second, n) }) }
pub open spec fn sh_guard(g: Seq<Constraint>, n: int) -> Seq<Constraint> { Seq::new(g.len(), |i: int| Constraint { x: g[i].x + n, ..g[i] }) }
/// both transitions at once
pub open spec fn pt(a: TATransition, b: TATransition, m: Map<Pair<int, int>, int>, n: int) -> TATransition {
  TATransition { target: m[pk(a.target, b.target)], resetVars: a.resetVars + sh_resets(b.resetVars, n), guard: a.guard + sh_guard(b.guard, n) }
}
pub open spec fn pt_row(a: TATransition, B: Seq<TATransition>, j: int, m: Map<Pair<int, int>, int>, n: int) -> Seq<TATransition> { Seq::new(j as nat, |k: int| pt(a, B[k], m, n)) }
/// the first i transitions of A combined with all of B
pub open spec fn pt_list(A: Seq<TATransition>, B: Seq<TATransition>, i: int, m: Map<Pair<int, int>, int>, n: int) -> Seq<TATransition> decreases i {
  if i <= 0 { Seq::empty() } else { pt_list(A, B, i - 1, m, n) + pt_row(A[i - 1], B, B.len() as int, m, n) }
}
pub open spec fn pt_all(A: Seq<TATransition>, B: Seq<TATransition>, m: Map<Pair<int, int>, int>, n: int) -> Seq<TATransition> { pt_list(A, B, A.len() as int, m, n) }
pub proof fn lem_pt_of(A: Seq<TATransition>, B: Seq<TATransition>, i: int, m: Map<Pair<int, int>, int>, n: int, k: int) -> (r: (int, int))
  requires 0 <= k < pt_list(A, B, i, m, n).len(), 0 <= i <= A.len(),
  ensures 0 <= r.0 < i, 0 <= r.1 < B.len(), pt_list(A, B, i, m, n)[k] == pt(A[r.0], B[r.1], m, n),
  decreases i,
{
  let L = pt_list(A, B, i - 1, m, n);
  if k < L.len() { lem_pt_of(A, B, i - 1, m, n, k) } else { (i - 1, k - L.len()) }
}
pub proof fn lem_pt_at(A: Seq<TATransition>, B: Seq<TATransition>, i: int, m: Map<Pair<int, int>, int>, n: int, a: int, b: int) -> (k: int)
  requires 0 <= a < i <= A.len(), 0 <= b < B.len(),
  ensures 0 <= k < pt_list(A, B, i, m, n).len(), pt_list(A, B, i, m, n)[k] == pt(A[a], B[b], m, n),
  decreases i,
{
  let L = pt_list(A, B, i - 1, m, n);
  if a == i - 1 { L.len() as int + b } else { lem_pt_at(A, B, i - 1, m, n, a, b) }
}
pub proof fn lem_pt_empty(A: Seq<TATransition>, B: Seq<TATransition>, i: int, m: Map<Pair<int, int>, int>, n: int)
  requires B.len() == 0 || i <= 0, ensures pt_list(A, B, i, m, n) =~= Seq::empty(), decreases i,
{ if i > 0 { lem_pt_empty(A, B, i - 1, m, n); } }
pub proof fn lem_pt_guard(a: Seq<Constraint>, b: Seq<Constraint>, v: Seq<D>, w: Seq<D>)
  requires ga_clk(a, v.len() as int), ga_clk(b, w.len() as int),
  ensures ga_holds(a + sh_guard(b, v.len() as int), v + w) == (ga_holds(a, v) && ga_holds(b, w)),
{
  let n = v.len() as int; let s = sh_guard(b, n); let g = a + s; let u = v + w;
  if ga_holds(g, u) {
    assert forall|i: int| 0 <= i < a.len() implies con_holds(#[trigger] a[i], dv(v[a[i].x])) by { assert(g[i] == a[i]); assert(0 <= a[i].x < n); }
    assert forall|i: int| 0 <= i < b.len() implies con_holds(#[trigger] b[i], dv(w[b[i].x])) by { assert(g[a.len() as int + i] == s[i]); assert(0 <= b[i].x < w.len()); }
  }
  if ga_holds(a, v) && ga_holds(b, w) {
    assert forall|i: int| 0 <= i < g.len() implies con_holds(#[trigger] g[i], dv(u[g[i].x])) by {
      if i < a.len() { assert(con_holds(a[i], dv(v[a[i].x]))); assert(0 <= a[i].x < n); } else { let j = i - a.len(); assert(g[i] == s[j]); assert(con_holds(b[j], dv(w[b[j].x]))); assert(0 <= b[j].x < w.len()); }
    }
  }
}
pub proof fn lem_pt_val(a: Seq<Pair<int, VarDC>>, b: Seq<Pair<int, VarDC>>, v: Seq<D>, w: Seq<D>, k: int, x: int)
  requires rus_ok(a, v.len() as int), rus_ok(b, w.len() as int), 0 <= k <= a.len() + b.len(), 0 <= x < v.len() + w.len(),
  ensures ({ let n = v.len() as int; ru_val(a + sh_resets(b, n), k, v + w, x) == (if x < n { ru_val(a, if k < a.len() { k } else { a.len() as int }, v, x) } else { ru_val(b, if k < a.len() { 0 } else { k - a.len() }, w, x - n) }) }),
  decreases k,
{
  let n = v.len() as int; let s = sh_resets(b, n); let r = a + s;
  if k > 0 {
    lem_pt_val(a, b, v, w, k - 1, x);
    if k <= a.len() { assert(r[k - 1] == a[k - 1]); assert(ru_ok(a[k - 1], n)); }
    else { let j = k - 1 - a.len(); assert(r[k - 1] == s[j]); assert(ru_ok(b[j], w.len() as int)); }
  }
}
pub proof fn lem_pt_resets(a: Seq<Pair<int, VarDC>>, b: Seq<Pair<int, VarDC>>, v: Seq<D>, w: Seq<D>)
  requires rus_ok(a, v.len() as int), rus_ok(b, w.len() as int),
  ensures ru_all(a + sh_resets(b, v.len() as int), v + w) =~= ru_all(a, v) + ru_all(b, w),
{
  let n = v.len() as int; let r = a + sh_resets(b, n); let u = v + w;
  assert forall|x: int| 0 <= x < u.len() implies #[trigger] ru_all(r, u)[x] == (ru_all(a, v) + ru_all(b, w))[x] by { lem_pt_val(a, b, v, w, r.len() as int, x); }
}
/// the state of the product that stands for p and q
pub open spec fn is_prod(s1: TAState, s2: TAState, s: TAState, m: Map<Pair<int, int>, int>, n: int) -> bool {
  s.isMatch == (s1.isMatch && s2.isMatch) && forall|a: int| #[trigger] trans_of(s, a) =~= pt_all(trans_of(s1, a), trans_of(s2, a), m, n)
}
pub open spec fn new_pair(s1: TAState, s2: TAState, s: TAState) -> bool { s.isMatch == (s1.isMatch && s2.isMatch) && forall|a: int| #[trigger] trans_of(s, a).len() == 0 }
/// cells before (i, j) in row order
pub open spec fn before(A: Seq<int>, B: Seq<int>, i: int, j: int, a: int, b: int) -> bool { 0 <= a < A.len() && 0 <= b < B.len() && (a < i || a == i && b < j) }
/// a new state for every cell before (i, j)
pub open spec fn pairs_made(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, S: Seq<int>) -> bool {
  &&& forall|p: int| #[trigger] h.dom().contains(p) ==> g.dom().contains(p) && g[p] == h[p]
  &&& forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) ==> m[k] != 0 && g.dom().contains(m[k]) && !h.dom().contains(m[k]) && new_pair(h[k.first], h[k.second], g[m[k]]) && S.contains(m[k])
  &&& forall|k: Pair<int, int>, l: Pair<int, int>| #![trigger m[k], m[l]] m.dom().contains(k) && m.dom().contains(l) && m[k] == m[l] ==> k == l
  &&& forall|a: int, b: int| #![trigger pk(A[a], B[b])] before(A, B, i, j, a, b) ==> m.dom().contains(pk(A[a], B[b]))
  &&& forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) ==> cell_of(A, B, i, j, k)
  &&& forall|x: int| 0 <= x < S.len() ==> in_vals(m, #[trigger] S[x])
}
pub open spec fn in_vals(m: Map<Pair<int, int>, int>, s: int) -> bool { exists|k: Pair<int, int>| #[trigger] m.dom().contains(k) && m[k] == s }
pub open spec fn cell_of(A: Seq<int>, B: Seq<int>, i: int, j: int, k: Pair<int, int>) -> bool { exists|a: int, b: int| #[trigger] before(A, B, i, j, a, b) && k == pk(A[a], B[b]) }
pub proof fn lem_pairs_step(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, S: Seq<int>, s: int, f: Map<int, TAState>)
  requires pairs_made(h, A, B, i, j, g, m, S), A.no_duplicates(), B.no_duplicates(), 0 <= i < A.len(), 0 <= j < B.len(), s != 0, !g.dom().contains(s), f.dom().contains(s),
    f =~= g.insert(s, f[s]), new_pair(h[A[i]], h[B[j]], f[s]),
  ensures pairs_made(h, A, B, i, j + 1, f, m.insert(pk(A[i], B[j]), s), S.push(s)),
{
  let x = pk(A[i], B[j]); let m1 = m.insert(x, s); let S1 = S.push(s);
  if m.dom().contains(x) { assert(cell_of(A, B, i, j, x)); let (a, b) = choose|a: int, b: int| #[trigger] before(A, B, i, j, a, b) && x == pk(A[a], B[b]); assert(A[a] == A[i] && B[b] == B[j]); }
  assert forall|p: int| #[trigger] h.dom().contains(p) implies f.dom().contains(p) && f[p] == h[p] by { assert(g.dom().contains(p)); }
  assert forall|k: Pair<int, int>| #[trigger] m1.dom().contains(k) implies m1[k] != 0 && f.dom().contains(m1[k]) && !h.dom().contains(m1[k]) && new_pair(h[k.first], h[k.second], f[m1[k]]) && S1.contains(m1[k]) by {
    if k == x { assert(S1[S.len() as int] == s); if h.dom().contains(s) { assert(g.dom().contains(s)); } } else { assert(m.dom().contains(k)); let y = choose|y: int| 0 <= y < S.len() && S[y] == m[k]; assert(S1[y] == m[k]); }
  }
  assert forall|k: Pair<int, int>, l: Pair<int, int>| #![trigger m1[k], m1[l]] m1.dom().contains(k) && m1.dom().contains(l) && m1[k] == m1[l] implies k == l by {
    if k != x { assert(m.dom().contains(k)); let z = m[k]; } if l != x { assert(m.dom().contains(l)); let z = m[l]; }
  }
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] before(A, B, i, j + 1, a, b) implies m1.dom().contains(pk(A[a], B[b])) by { if !(a == i && b == j) { assert(before(A, B, i, j, a, b)); } }
  assert forall|k: Pair<int, int>| #[trigger] m1.dom().contains(k) implies cell_of(A, B, i, j + 1, k) by {
    if k == x { assert(before(A, B, i, j + 1, i, j)); } else { assert(m.dom().contains(k)); let (a, b) = choose|a: int, b: int| #[trigger] before(A, B, i, j, a, b) && k == pk(A[a], B[b]); assert(before(A, B, i, j + 1, a, b)); }
  }
  assert forall|y: int| 0 <= y < S1.len() implies in_vals(m1, #[trigger] S1[y]) by {
    if y == S.len() { assert(m1.dom().contains(x)); } else { assert(in_vals(m, S[y])); let k = choose|k: Pair<int, int>| #[trigger] m.dom().contains(k) && m[k] == S[y]; assert(m1.dom().contains(k)); assert(k != x); }
  }
}
pub proof fn lem_pairs_row(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, S: Seq<int>)
  requires pairs_made(h, A, B, i, j, g, m, S), j >= B.len(), ensures pairs_made(h, A, B, i + 1, 0, g, m, S),
{
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] before(A, B, i + 1, 0, a, b) implies m.dom().contains(pk(A[a], B[b])) by { assert(before(A, B, i, j, a, b)); }
  assert forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) implies cell_of(A, B, i + 1, 0, k) by { assert(cell_of(A, B, i, j, k)); let (a, b) = choose|a: int, b: int| #[trigger] before(A, B, i, j, a, b) && k == pk(A[a], B[b]); assert(before(A, B, i + 1, 0, a, b)); }
}
/// every pair has its state
pub open spec fn paired(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, m: Map<Pair<int, int>, int>) -> bool {
  &&& forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) <==> A.contains(k.first) && B.contains(k.second)
  &&& forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) ==> m[k] != 0 && !h.dom().contains(m[k])
  &&& forall|k: Pair<int, int>, l: Pair<int, int>| #![trigger m[k], m[l]] m.dom().contains(k) && m.dom().contains(l) && m[k] == m[l] ==> k == l
}
pub open spec fn is_states(m: Map<Pair<int, int>, int>, S: Seq<int>) -> bool {
  (forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) ==> S.contains(m[k])) && (forall|x: int| 0 <= x < S.len() ==> in_vals(m, #[trigger] S[x]))
}
pub proof fn lem_paired(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, S: Seq<int>)
  requires pairs_made(h, A, B, i, 0, g, m, S), i >= A.len(), ensures paired(h, A, B, m), is_states(m, S), same_cells(h, A, B, 0, 0, g, m, 0),
{
  assert forall|k: Pair<int, int>| #[trigger] m.dom().contains(k) <==> A.contains(k.first) && B.contains(k.second) by {
    if m.dom().contains(k) { assert(cell_of(A, B, i, 0, k)); let (a, b) = choose|a: int, b: int| #[trigger] before(A, B, i, 0, a, b) && k == pk(A[a], B[b]); assert(A[a] == k.first); assert(B[b] == k.second); }
    if A.contains(k.first) && B.contains(k.second) { let a = choose|a: int| 0 <= a < A.len() && A[a] == k.first; let b = choose|b: int| 0 <= b < B.len() && B[b] == k.second; assert(before(A, B, i, 0, a, b)); assert(pk(A[a], B[b]) == k); }
  }
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] 0 <= a < A.len() && 0 <= b < B.len() implies g.dom().contains(m[pk(A[a], B[b])]) && pcell_ok(h, A, B, 0, 0, g, m, 0, a, b) by {
    assert(before(A, B, i, 0, a, b)); let k = pk(A[a], B[b]); assert(m.dom().contains(k));
  }
}
/// cells before (i, j) have their transitions, the others have none yet
pub open spec fn pcell_ok(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int, a: int, b: int) -> bool {
  if before(A, B, i, j, a, b) { is_prod(h[A[a]], h[B[b]], g[m[pk(A[a], B[b])]], m, n) } else { new_pair(h[A[a]], h[B[b]], g[m[pk(A[a], B[b])]]) }
}
pub open spec fn same_old(h: Map<int, TAState>, g: Map<int, TAState>) -> bool {
  forall|p: int| #![trigger h[p]] #![trigger g[p]] #![trigger h.dom().contains(p)] h.dom().contains(p) ==> g.dom().contains(p) && h[p].isMatch == g[p].isMatch && forall|a: int| #[trigger] trans_of(g[p], a) =~= trans_of(h[p], a)
}
pub open spec fn same_cells(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int) -> bool {
  &&& same_old(h, g)
  &&& forall|a: int, b: int| #![trigger pk(A[a], B[b])] 0 <= a < A.len() && 0 <= b < B.len() ==> g.dom().contains(m[pk(A[a], B[b])]) && pcell_ok(h, A, B, i, j, g, m, n, a, b)
}
pub proof fn lem_cells_row(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int)
  requires same_cells(h, A, B, i, j, g, m, n), j >= B.len(), ensures same_cells(h, A, B, i + 1, 0, g, m, n),
{
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] 0 <= a < A.len() && 0 <= b < B.len() implies g.dom().contains(m[pk(A[a], B[b])]) && pcell_ok(h, A, B, i + 1, 0, g, m, n, a, b) by {
    let z = pk(A[a], B[b]); assert(pcell_ok(h, A, B, i, j, g, m, n, a, b)); assert(before(A, B, i, j, a, b) == before(A, B, i + 1, 0, a, b));
  }
}
pub proof fn lem_cells_n(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int)
  requires same_cells(h, A, B, 0, 0, g, m, 0), ensures same_cells(h, A, B, 0, 0, g, m, n),
{
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] 0 <= a < A.len() && 0 <= b < B.len() implies g.dom().contains(m[pk(A[a], B[b])]) && pcell_ok(h, A, B, 0, 0, g, m, n, a, b) by { let z = pk(A[a], B[b]); assert(pcell_ok(h, A, B, 0, 0, g, m, 0, a, b)); }
}
/// the automaton made of all pairs
pub open spec fn produced(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, g: Map<int, TAState>, r: TimedAutomaton, m: Map<Pair<int, int>, int>) -> bool {
  let n = t.maxConstraints.len() as int;
  &&& same_old(h, g) && paired(h, t.base.states, u.base.states, m) && is_states(m, r.base.states)
  &&& forall|p: int, q: int| #![trigger pk(p, q)] own(t).contains(p) && own(u).contains(q) ==> g.dom().contains(m[pk(p, q)]) && is_prod(h[p], h[q], g[m[pk(p, q)]], m, n)
  &&& r.maxConstraints == t.maxConstraints + u.maxConstraints
  &&& t.base.initialStates.len() > 0 && u.base.initialStates.len() > 0 ==> r.base.initialStates.len() > 0 && r.base.initialStates[0] == m[pk(t.base.initialStates[0], u.base.initialStates[0])]
}
pub proof fn lem_cells_done(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int)
  requires same_cells(h, A, B, i, j, g, m, n), i >= A.len(),
  ensures forall|p: int, q: int| #![trigger pk(p, q)] A.to_set().contains(p) && B.to_set().contains(q) ==> g.dom().contains(m[pk(p, q)]) && is_prod(h[p], h[q], g[m[pk(p, q)]], m, n),
{
  assert forall|p: int, q: int| #![trigger pk(p, q)] A.to_set().contains(p) && B.to_set().contains(q) implies g.dom().contains(m[pk(p, q)]) && is_prod(h[p], h[q], g[m[pk(p, q)]], m, n) by {
    let a = choose|a: int| 0 <= a < A.len() && A[a] == p; let b = choose|b: int| 0 <= b < B.len() && B[b] == q; let z = pk(A[a], B[b]);
    assert(before(A, B, i, j, a, b)); assert(pcell_ok(h, A, B, i, j, g, m, n, a, b));
  }
}
// ---------------------------------------------------------------- the language of the product
pub open spec fn p_rel(c: Conf, d: Conf, e: Conf, m: Map<Pair<int, int>, int>, n: int, k: int) -> bool {
  match (c, d) { (Conf::At(p, v), Conf::At(q, w)) => v.len() == n && w.len() == k && e == Conf::At(m[pk(p, q)], v + w), _ => e is Dead }
}
pub proof fn lem_prod_event(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, g: Map<int, TAState>, r: TimedAutomaton, m: Map<Pair<int, int>, int>, c: Conf, d: Conf, e: Conf, a: int)
  requires produced(h, t, u, g, r, m), usable(h, t), usable(h, u), c_in(c, own(t)), c_in(d, own(u)), p_rel(c, d, e, m, t.maxConstraints.len() as int, u.maxConstraints.len() as int),
  ensures p_rel(c_event(h, c, a), c_event(h, d, a), c_event(g, e, a), m, t.maxConstraints.len() as int, u.maxConstraints.len() as int), c_in(c_event(h, c, a), own(t)), c_in(c_event(h, d, a), own(u)),
{
  let n = t.maxConstraints.len() as int; let k = u.maxConstraints.len() as int;
  lem_event_in(h, t, c, a); lem_event_in(h, u, d, a);
  match (c, d) {
    (Conf::At(p, v), Conf::At(q, w)) => {
      let z = pk(p, q); let A = trans_of(h[p], a); let B = trans_of(h[q], a); let s = g[m[z]]; let P = trans_of(s, a);
      assert(is_prod(h[p], h[q], s, m, n));
      assert(P =~= pt_all(A, B, m, n));
      if stuck(h[p], a, v) || stuck(h[q], a, w) {
        assert forall|x: int| !#[trigger] en_at(s, a, v + w, x) by {
          if en_at(s, a, v + w, x) {
            let (i, j) = lem_pt_of(A, B, A.len() as int, m, n, x);
            assert(tr_ok(own(t), trans_of(h[p], a)[i], n)); assert(tr_ok(own(u), trans_of(h[q], a)[j], k));
            lem_pt_guard(A[i].guard, B[j].guard, v, w); assert(en_at(h[p], a, v, i)); assert(en_at(h[q], a, w, j));
          }
        }
        assert(stuck(s, a, v + w));
      } else {
        let i0 = choose|i: int| en_at(h[p], a, v, i); assert(en_at(h[p], a, v, i0));
        let j0 = choose|j: int| en_at(h[q], a, w, j); assert(en_at(h[q], a, w, j0));
        assert(tr_ok(own(t), trans_of(h[p], a)[i0], n)); assert(tr_ok(own(u), trans_of(h[q], a)[j0], k));
        lem_pt_guard(A[i0].guard, B[j0].guard, v, w);
        let x0 = lem_pt_at(A, B, A.len() as int, m, n, i0, j0); assert(en_at(s, a, v + w, x0));
        let x = choose|x: int| en_at(s, a, v + w, x); assert(en_at(s, a, v + w, x));
        let (i, j) = lem_pt_of(A, B, A.len() as int, m, n, x);
        assert(tr_ok(own(t), trans_of(h[p], a)[i], n)); assert(tr_ok(own(u), trans_of(h[q], a)[j], k));
        lem_pt_guard(A[i].guard, B[j].guard, v, w); assert(en_at(h[p], a, v, i)); assert(en_at(h[q], a, w, j));
        assert(det_state(h[p])); assert(det_state(h[q])); assert(i == i0 && j == j0);
        lem_pt_resets(A[i].resetVars, B[j].resetVars, v, w);
      }
    }
    _ => {}
  }
}
pub proof fn lem_event_in(h: Map<int, TAState>, t: TimedAutomaton, c: Conf, a: int)
  requires usable(h, t), c_in(c, own(t)), ensures c_in(c_event(h, c, a), own(t)),
{
  match c { Conf::Dead => {} Conf::At(p, v) => { if !stuck(h[p], a, v) { let i0 = choose|i: int| en_at(h[p], a, v, i); assert(en_at(h[p], a, v, i0)); assert(tr_ok(own(t), trans_of(h[p], a)[i0], t.maxConstraints.len() as int)); } } }
}
pub proof fn lem_prod_delay(c: Conf, d: Conf, e: Conf, m: Map<Pair<int, int>, int>, n: int, k: int, x: D)
  requires p_rel(c, d, e, m, n, k), ensures p_rel(c_delay(c, x), c_delay(d, x), c_delay(e, x), m, n, k),
{ match (c, d) { (Conf::At(p, v), Conf::At(q, w)) => { assert(ru_delayed(v + w, x) =~= ru_delayed(v, x) + ru_delayed(w, x)); } _ => {} } }
pub proof fn lem_prod_conf0(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, g: Map<int, TAState>, r: TimedAutomaton, m: Map<Pair<int, int>, int>)
  requires produced(h, t, u, g, r, m), usable(h, t), usable(h, u),
  ensures p_rel(conf0(t), conf0(u), conf0(r), m, t.maxConstraints.len() as int, u.maxConstraints.len() as int), c_in(conf0(t), own(t)), c_in(conf0(u), own(u)),
{
  let n = t.maxConstraints.len() as int; let k = u.maxConstraints.len() as int;
  assert(zeros(r.maxConstraints.len() as int) =~= zeros(n) + zeros(k));
  if t.base.states.len() > 0 && u.base.states.len() > 0 {
    let z = pk(t.base.states[0], u.base.states[0]); assert(m.dom().contains(z)); assert(r.base.states.contains(m[z])); assert(r.base.states.len() > 0);
  } else {
    if r.base.states.len() > 0 { assert(in_vals(m, r.base.states[0])); let z = choose|k: Pair<int, int>| #[trigger] m.dom().contains(k) && m[k] == r.base.states[0]; assert(t.base.states.contains(z.first) && u.base.states.contains(z.second)); }
  }
}
pub proof fn lem_prod_upto(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, g: Map<int, TAState>, r: TimedAutomaton, m: Map<Pair<int, int>, int>, w: Seq<int>, d: Seq<D>, i: int)
  requires produced(h, t, u, g, r, m), usable(h, t), usable(h, u),
  ensures p_rel(c_upto(h, t, w, d, i), c_upto(h, u, w, d, i), c_upto(g, r, w, d, i), m, t.maxConstraints.len() as int, u.maxConstraints.len() as int), c_in(c_upto(h, t, w, d, i), own(t)), c_in(c_upto(h, u, w, d, i), own(u)),
  decreases i,
{
  if i <= 0 { lem_prod_conf0(h, t, u, g, r, m); } else {
    lem_prod_upto(h, t, u, g, r, m, w, d, i - 1);
    let c = c_upto(h, t, w, d, i - 1); let e = c_upto(h, u, w, d, i - 1); let f = c_upto(g, r, w, d, i - 1);
    lem_prod_delay(c, e, f, m, t.maxConstraints.len() as int, u.maxConstraints.len() as int, d[i - 1]);
    lem_prod_event(h, t, u, g, r, m, c_delay(c, d[i - 1]), c_delay(e, d[i - 1]), c_delay(f, d[i - 1]), w[i - 1]);
  }
}
/// the product accepts exactly the timed words that both automata accept
pub proof fn lem_prod_accepts(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, g: Map<int, TAState>, r: TimedAutomaton, m: Map<Pair<int, int>, int>, tw: TimedWord)
  requires produced(h, t, u, g, r, m), usable(h, t), usable(h, u),
  ensures accepts(g, r, tw) == (accepts(h, t, tw) && accepts(h, u, tw)),
{
  let w = tw.word; let d = tw.durations; let i = w.len() as int;
  lem_prod_upto(h, t, u, g, r, m, w, d, i);
  let c = c_upto(h, t, w, d, i); let e = c_upto(h, u, w, d, i); let f = c_upto(g, r, w, d, i);
  lem_prod_delay(c, e, f, m, t.maxConstraints.len() as int, u.maxConstraints.len() as int, d[i]);
  match (c, e) { (Conf::At(p, v), Conf::At(q, x)) => { let z = pk(p, q); assert(is_prod(h[p], h[q], g[m[z]], m, t.maxConstraints.len() as int)); } _ => {} }
}
// ---------------------------------------------------------------- building the transitions of one pair
pub open spec fn prod_ctx(h: Map<int, TAState>, t: TimedAutomaton, u: TimedAutomaton, m: Map<Pair<int, int>, int>) -> bool {
  usable(h, t) && usable(h, u) && t.base.states.no_duplicates() && u.base.states.no_duplicates() && paired(h, t.base.states, u.base.states, m)
}
/// g is f with the transitions L added to the state P on the action c
pub open spec fn put(f: Map<int, TAState>, g: Map<int, TAState>, P: int, c: int, L: Seq<TATransition>) -> bool {
  &&& g.dom() =~= f.dom() && f.dom().contains(P) && g[P].isMatch == f[P].isMatch
  &&& forall|p: int| #![trigger g[p]] #![trigger f[p]] p != P ==> g[p] == f[p]
  &&& forall|a: int| #[trigger] trans_of(g[P], a) =~= (if a == c { trans_of(f[P], a) + L } else { trans_of(f[P], a) })
}
pub proof fn lem_put_none(f: Map<int, TAState>, P: int, c: int, L: Seq<TATransition>)
  requires f.dom().contains(P), L.len() == 0, ensures put(f, f, P, c, L),
{ }
pub proof fn lem_put_more(f: Map<int, TAState>, g: Map<int, TAState>, k: Map<int, TAState>, P: int, c: int, L: Seq<TATransition>, M: Seq<TATransition>)
  requires put(f, g, P, c, L), put(g, k, P, c, M), ensures put(f, k, P, c, L + M),
{ assert forall|a: int| #[trigger] trans_of(k[P], a) =~= (if a == c { trans_of(f[P], a) + (L + M) } else { trans_of(f[P], a) }) by { let z = trans_of(g[P], a); }
  assert forall|p: int| #![trigger k[p]] #![trigger f[p]] p != P implies k[p] == f[p] by { let z = g[p]; } }
pub open spec fn done_key(ks: Seq<int>, i: int, a: int) -> bool { exists|j: int| 0 <= j < i && #[trigger] ks[j] == a }
/// the transitions of the pair for the first i actions
pub open spec fn pair_upto(h: Map<int, TAState>, p: int, q: int, f: Map<int, TAState>, g: Map<int, TAState>, P: int, m: Map<Pair<int, int>, int>, n: int, ks: Seq<int>, i: int) -> bool {
  &&& g.dom() =~= f.dom() && f.dom().contains(P) && g[P].isMatch == f[P].isMatch
  &&& forall|x: int| #![trigger g[x]] #![trigger f[x]] x != P ==> g[x] == f[x]
  &&& forall|a: int| #[trigger] trans_of(g[P], a) =~= (if done_key(ks, i, a) { pt_all(trans_of(h[p], a), trans_of(h[q], a), m, n) } else { Seq::empty() })
}
pub proof fn lem_pair_step(h: Map<int, TAState>, p: int, q: int, f: Map<int, TAState>, g: Map<int, TAState>, k: Map<int, TAState>, P: int, m: Map<Pair<int, int>, int>, n: int, ks: Seq<int>, i: int)
  requires pair_upto(h, p, q, f, g, P, m, n, ks, i), put(g, k, P, ks[i], pt_all(trans_of(h[p], ks[i]), trans_of(h[q], ks[i]), m, n)), 0 <= i < ks.len(), ks.no_duplicates(),
  ensures pair_upto(h, p, q, f, k, P, m, n, ks, i + 1),
{
  assert forall|a: int| #[trigger] trans_of(k[P], a) =~= (if done_key(ks, i + 1, a) { pt_all(trans_of(h[p], a), trans_of(h[q], a), m, n) } else { Seq::empty() }) by {
    let z = trans_of(g[P], a);
    if a == ks[i] { assert(ks[i] == a); assert(!done_key(ks, i, a)) by { if done_key(ks, i, a) { let j = choose|j: int| 0 <= j < i && #[trigger] ks[j] == a; } } }
    if done_key(ks, i, a) { let j = choose|j: int| 0 <= j < i && #[trigger] ks[j] == a; assert(ks[j] == a); }
    if done_key(ks, i + 1, a) && a != ks[i] { let j = choose|j: int| 0 <= j < i + 1 && #[trigger] ks[j] == a; assert(ks[j] == a && j < i); }
  }
  assert forall|x: int| #![trigger k[x]] #![trigger f[x]] x != P implies k[x] == f[x] by { let z = g[x]; }
}
/// every action was visited: the pair has all its transitions
pub proof fn lem_pair_done(h: Map<int, TAState>, p: int, q: int, f: Map<int, TAState>, g: Map<int, TAState>, P: int, m: Map<Pair<int, int>, int>, n: int, ks: Seq<int>, i: int)
  requires pair_upto(h, p, q, f, g, P, m, n, ks, i), i == ks.len(), new_pair(h[p], h[q], f[P]),
    forall|a: int| #[trigger] trans_of(h[p], a).len() > 0 ==> ks.contains(a),
  ensures is_prod(h[p], h[q], g[P], m, n),
{
  assert forall|a: int| #[trigger] trans_of(g[P], a) =~= pt_all(trans_of(h[p], a), trans_of(h[q], a), m, n) by {
    if trans_of(h[p], a).len() > 0 { let j = choose|j: int| 0 <= j < ks.len() && ks[j] == a; assert(ks[j] == a); assert(done_key(ks, i, a)); }
    else { lem_pt_empty(trans_of(h[p], a), trans_of(h[q], a), 0, m, n); }
  }
}
pub proof fn lem_cells_step(h: Map<int, TAState>, A: Seq<int>, B: Seq<int>, i: int, j: int, g: Map<int, TAState>, f: Map<int, TAState>, m: Map<Pair<int, int>, int>, n: int)
  requires same_cells(h, A, B, i, j, g, m, n), paired(h, A, B, m), A.no_duplicates(), B.no_duplicates(), 0 <= i < A.len(), 0 <= j < B.len(),
    f.dom() =~= g.dom(), same_old(h, f), is_prod(h[A[i]], h[B[j]], f[m[pk(A[i], B[j])]], m, n),
    forall|p: int| !h.dom().contains(p) && p != m[pk(A[i], B[j])] ==> #[trigger] f[p] == g[p],
  ensures same_cells(h, A, B, i, j + 1, f, m, n),
{
  let x = pk(A[i], B[j]); assert(m.dom().contains(x));
  assert forall|a: int, b: int| #![trigger pk(A[a], B[b])] 0 <= a < A.len() && 0 <= b < B.len() implies f.dom().contains(m[pk(A[a], B[b])]) && pcell_ok(h, A, B, i, j + 1, f, m, n, a, b) by {
    let y = pk(A[a], B[b]); assert(pcell_ok(h, A, B, i, j, g, m, n, a, b)); assert(m.dom().contains(y));
    if !(a == i && b == j) { if m[y] == m[x] { assert(y == x); assert(A[a] == A[i] && B[b] == B[j]); } assert(f[m[y]] == g[m[y]]); }
  }
}
/// the product transition, however it was assembled
pub proof fn lem_pt_eq(t: TATransition, a: TATransition, b: TATransition, m: Map<Pair<int, int>, int>, n: int)
  requires t.target == m[pk(a.target, b.target)], t.resetVars =~= a.resetVars + sh_resets(b.resetVars, n), t.guard =~= a.guard + sh_guard(b.guard, n),
  ensures t == pt(a, b, m, n),
{ }
/// a lookup that may insert an empty list changes nothing visible
pub proof fn lem_old_key(h: Map<int, TAState>, g: Map<int, TAState>, f: Map<int, TAState>, p: int)
  requires same_old(h, g), f.dom() =~= g.dom(), forall|x: int| x != p ==> #[trigger] f[x] == g[x], f[p].isMatch == g[p].isMatch, forall|a: int| #[trigger] trans_of(f[p], a) =~= trans_of(g[p], a),
  ensures same_old(h, f),
{
  assert forall|q: int| #![trigger h[q]] #![trigger f[q]] #![trigger h.dom().contains(q)] h.dom().contains(q) implies f.dom().contains(q) && h[q].isMatch == f[q].isMatch && (forall|a: int| #[trigger] trans_of(f[q], a) =~= trans_of(h[q], a)) by {
    assert(g.dom().contains(q)); if q != p { assert(f[q] == g[q]); }
    assert forall|a: int| #[trigger] trans_of(f[q], a) =~= trans_of(h[q], a) by { assert(trans_of(g[q], a) =~= trans_of(h[q], a)); }
  }
}
