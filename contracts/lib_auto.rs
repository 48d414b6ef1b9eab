// completing and complementing timed automata
pub open spec fn tg(T: Seq<TATransition>) -> Seq<Seq<Constraint>> { Seq::new(T.len(), |k: int| T[k].guard) }
/// a transition to the sink without clock updates
pub open spec fn to_sink(t: TATransition, sink: int, n: int) -> bool { t.target == sink && t.resetVars.len() == 0 && ga_clk(t.guard, n) && gok(t.guard) }
/// the list T1 extends T0 by transitions to the sink, enabled exactly when nothing in T0 is
pub open spec fn filled(T0: Seq<TATransition>, T1: Seq<TATransition>, sink: int, n: int) -> bool {
  &&& T0.len() <= T1.len()
  &&& forall|k: int| 0 <= k < T0.len() ==> #[trigger] T1[k] == T0[k]
  &&& forall|k: int| T0.len() <= k < T1.len() ==> to_sink(#[trigger] T1[k], sink, n)
  &&& forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(tg(T1.skip(T0.len() as int)), u) == !dnf_holds(tg(T0), u)
}
/// the first k letters are completed, the others are as before
pub open spec fn filled_upto(s: TAState, t: TAState, al: Seq<int>, k: int, sink: int, n: int) -> bool {
  &&& t.isMatch == s.isMatch
  &&& forall|a: int| !al.take(k).contains(a) ==> #[trigger] trans_of(t, a) =~= trans_of(s, a)
  &&& forall|j: int| 0 <= j < k ==> filled(trans_of(s, #[trigger] al[j]), trans_of(t, al[j]), sink, n)
}
pub open spec fn sink0() -> TAState { TAState { isMatch: false, next: Map::empty() } }
pub open spec fn gok_state(s: TAState) -> bool { forall|a: int, k: int| #![trigger trans_of(s, a)[k]] 0 <= k < trans_of(s, a).len() ==> gok(trans_of(s, a)[k].guard) }
pub open spec fn gok_ta(h: Map<int, TAState>, S: Set<int>) -> bool { forall|p: int| #[trigger] S.contains(p) ==> gok_state(h[p]) }
pub open spec fn clk_state(s: TAState, n: int) -> bool { forall|a: int, k: int| #![trigger trans_of(s, a)[k]] 0 <= k < trans_of(s, a).len() ==> ga_clk(trans_of(s, a)[k].guard, n) }
pub open spec fn made_complete(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, al: Seq<int>) -> bool {
  let sink = t1.base.states.last(); let n = t.maxConstraints.len() as int;
  &&& t1.base.states == t.base.states.push(sink) && !h.dom().contains(sink) && sink != 0
  &&& t1.maxConstraints == t.maxConstraints
  &&& t1.base.initialStates == (if t.base.initialStates.len() == 0 { seq![sink] } else { t.base.initialStates })
  &&& g.dom() =~= h.dom().insert(sink)
  &&& forall|p: int| h.dom().contains(p) && !own(t).contains(p) ==> #[trigger] g[p] == h[p]
  &&& forall|p: int| #[trigger] own(t).contains(p) ==> filled_upto(h[p], g[p], al, al.len() as int, sink, n)
  &&& filled_upto(sink0(), g[sink], al, al.len() as int, sink, n)
}
pub proof fn lem_tg_hold(T: Seq<TATransition>, u: spec_fn(int) -> real)
  ensures dnf_holds(tg(T), u) == exists|k: int| 0 <= k < T.len() && guard_holds(#[trigger] T[k].guard, u),
{
  if dnf_holds(tg(T), u) { let i = choose|i: int| 0 <= i < tg(T).len() && guard_holds(#[trigger] tg(T)[i], u); assert(guard_holds(T[i].guard, u)); }
  if exists|k: int| 0 <= k < T.len() && guard_holds(#[trigger] T[k].guard, u) { let k = choose|k: int| 0 <= k < T.len() && guard_holds(#[trigger] T[k].guard, u); assert(guard_holds(tg(T)[k], u)); }
}
pub proof fn lem_filled_same(T0: Seq<TATransition>, T1: Seq<TATransition>, k0: int, sink: int, n: int)
  requires T1 =~= T0, 0 <= k0 < T0.len(), T0[k0].guard.len() == 0, ensures filled(T0, T1, sink, n),
{
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(tg(T1.skip(T0.len() as int)), u) == !dnf_holds(tg(T0), u) by {
    assert(T1.skip(T0.len() as int).len() == 0); assert(guard_holds(tg(T0)[k0], u));
  }
}
pub proof fn lem_filled_new(T0: Seq<TATransition>, T1: Seq<TATransition>, sink: int, n: int)
  requires T0.len() == 0, T1.len() == 1, T1[0].target == sink, T1[0].resetVars.len() == 0, T1[0].guard.len() == 0, ensures filled(T0, T1, sink, n),
{
  assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies dnf_holds(tg(T1.skip(T0.len() as int)), u) == !dnf_holds(tg(T0), u) by {
    assert(guard_holds(tg(T1.skip(0))[0], u));
  }
}
/// the new transitions carry the guards N
pub open spec fn ext_by(T0: Seq<TATransition>, T1: Seq<TATransition>, N: Seq<Seq<Constraint>>, sink: int) -> bool {
  &&& T1.len() == T0.len() + N.len()
  &&& forall|k: int| 0 <= k < T0.len() ==> #[trigger] T1[k] == T0[k]
  &&& forall|k: int| T0.len() <= k < T1.len() ==> (#[trigger] T1[k]).target == sink && T1[k].resetVars.len() == 0 && T1[k].guard == N[k - T0.len()]
}
pub proof fn lem_filled_neg(T0: Seq<TATransition>, T1: Seq<TATransition>, N: Seq<Seq<Constraint>>, sink: int, n: int)
  requires ext_by(T0, T1, N, sink), dok(N), dclk(N, n),
    forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> dnf_holds(N, u) == !dnf_holds(tg(T0), u),
  ensures filled(T0, T1, sink, n),
{
  assert(tg(T1.skip(T0.len() as int)) =~= N);
  assert forall|k: int| T0.len() <= k < T1.len() implies to_sink(#[trigger] T1[k], sink, n) by { assert(gok(N[k - T0.len()])); assert(ga_clk(N[k - T0.len()], n)); }
}
pub proof fn lem_tg_ok(s: TAState, a: int, n: int)
  requires gok_state(s), clk_state(s, n), ensures dok(tg(trans_of(s, a))), dclk(tg(trans_of(s, a)), n),
{
  let T = trans_of(s, a);
  assert forall|i: int| 0 <= i < tg(T).len() implies gok(#[trigger] tg(T)[i]) by { assert(gok(trans_of(s, a)[i].guard)); }
  assert forall|i: int| 0 <= i < tg(T).len() implies ga_clk(#[trigger] tg(T)[i], n) by { assert(ga_clk(trans_of(s, a)[i].guard, n)); }
}
pub proof fn lem_filled_step(s: TAState, t: TAState, t1: TAState, al: Seq<int>, k: int, sink: int, n: int)
  requires filled_upto(s, t, al, k, sink, n), 0 <= k < al.len(), al.no_duplicates(), t1.isMatch == t.isMatch,
    forall|a: int| a != al[k] ==> #[trigger] trans_of(t1, a) =~= trans_of(t, a),
    filled(trans_of(t, al[k]), trans_of(t1, al[k]), sink, n),
  ensures filled_upto(s, t1, al, k + 1, sink, n),
{
  assert(!al.take(k).contains(al[k]));
  assert(al.take(k + 1) =~= al.take(k).push(al[k]));
  assert(trans_of(t, al[k]) =~= trans_of(s, al[k]));
  assert forall|a: int| !al.take(k + 1).contains(a) implies #[trigger] trans_of(t1, a) =~= trans_of(s, a) by {
    assert(al.take(k + 1)[k] == al[k]);
    if al.take(k).contains(a) { let j = choose|j: int| 0 <= j < k && al.take(k)[j] == a; assert(al.take(k + 1)[j] == a); }
    assert(trans_of(t, a) =~= trans_of(s, a));
  }
  assert forall|j: int| 0 <= j < k + 1 implies filled(trans_of(s, #[trigger] al[j]), trans_of(t1, al[j]), sink, n) by {
    if j < k { assert(al[j] != al[k]); assert(trans_of(t1, al[j]) =~= trans_of(t, al[j])); }
  }
}
// ---- copying
pub open spec fn map_tr(t: TATransition, m: Map<int, int>) -> TATransition { TATransition { target: m[t.target], resetVars: t.resetVars, guard: t.guard } }
pub open spec fn map_list(T: Seq<TATransition>, m: Map<int, int>) -> Seq<TATransition> { Seq::new(T.len(), |k: int| map_tr(T[k], m)) }
/// t is s with the targets renamed by m
pub open spec fn is_copy(s: TAState, t: TAState, m: Map<int, int>) -> bool {
  &&& t.isMatch == s.isMatch && t.next.dom() =~= s.next.dom()
  &&& forall|a: int| s.next.dom().contains(a) ==> #[trigger] t.next[a] =~= map_list(s.next[a], m)
}
pub open spec fn tgt_in(s: TAState, D: Set<int>) -> bool { forall|a: int, k: int| #![trigger s.next[a][k]] s.next.dom().contains(a) && 0 <= k < s.next[a].len() ==> D.contains(s.next[a][k].target) }
pub open spec fn tgt_in2(s: TAState, a: int, D: Set<int>) -> bool { forall|k: int| #![trigger s.next[a][k]] 0 <= k < s.next[a].len() ==> D.contains(s.next[a][k].target) }
/// m renames the states A to the states B, index by index
pub open spec fn renames(A: Seq<int>, B: Seq<int>, m: Map<int, int>, k: int) -> bool {
  &&& B.len() == k && k <= A.len() && m.dom() =~= A.take(k).to_set()
  &&& forall|i: int| 0 <= i < k ==> m[#[trigger] A[i]] == B[i]
}
pub open spec fn copied(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, d: TimedAutomaton, m: Map<int, int>) -> bool {
  let A = t.base.states; let B = d.base.states;
  &&& renames(A, B, m, A.len() as int) && B.no_duplicates()
  &&& forall|i: int| 0 <= i < B.len() ==> !h.dom().contains(#[trigger] B[i]) && B[i] != 0 && g.dom().contains(B[i])
  &&& forall|p: int| g.dom().contains(p) <==> #[trigger] h.dom().contains(p) || B.contains(p)
  &&& forall|p: int| #[trigger] h.dom().contains(p) ==> g[p] == h[p]
  &&& forall|i: int| 0 <= i < A.len() ==> is_copy(h[#[trigger] A[i]], g[B[i]], m)
  &&& d.base.initialStates.len() == t.base.initialStates.len() && forall|i: int| 0 <= i < t.base.initialStates.len() ==> #[trigger] d.base.initialStates[i] == m[t.base.initialStates[i]]
  &&& d.maxConstraints == t.maxConstraints
}
pub proof fn lem_renames_step(A: Seq<int>, B: Seq<int>, m: Map<int, int>, k: int, b: int)
  requires renames(A, B, m, k), k < A.len(), A.no_duplicates(), ensures renames(A, B.push(b), m.insert(A[k], b), k + 1),
{
  assert(A.take(k + 1) =~= A.take(k).push(A[k]));
  let m1 = m.insert(A[k], b);
  assert forall|p: int| #[trigger] m1.dom().contains(p) <==> A.take(k + 1).to_set().contains(p) by {
    if m.dom().contains(p) { let i = choose|i: int| 0 <= i < k && A.take(k)[i] == p; assert(A.take(k + 1)[i] == p); }
    if p == A[k] { assert(A.take(k + 1)[k] == p); }
    if A.take(k + 1).contains(p) && p != A[k] { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] A[i] == p; assert(A.take(k)[i] == p); }
  }
  assert forall|i: int| 0 <= i < k + 1 implies m1[#[trigger] A[i]] == B.push(b)[i] by { if i < k { assert(A[i] != A[k]); } }
}
pub proof fn lem_renames_in(A: Seq<int>, B: Seq<int>, m: Map<int, int>, p: int)
  requires renames(A, B, m, A.len() as int), ensures m.dom().contains(p) <==> A.contains(p), A.contains(p) ==> B.contains(m[p]),
{
  assert(A.take(A.len() as int) =~= A);
  if A.contains(p) { let i = choose|i: int| 0 <= i < A.len() && A[i] == p; assert(B[i] == m[p]); }
}
pub open spec fn flipped(s: TAState) -> TAState { TAState { isMatch: !s.isMatch, next: s.next } }
pub proof fn lem_copy_trans(s: TAState, t: TAState, m: Map<int, int>, a: int)
  requires is_copy(s, t, m), ensures trans_of(t, a) =~= map_list(trans_of(s, a), m),
{ if s.next.dom().contains(a) { assert(t.next[a] =~= map_list(s.next[a], m)); assert(t.next.dom().contains(a)); } else { assert(!t.next.dom().contains(a)); } }
pub proof fn lem_copy_ok(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, d: TimedAutomaton, m: Map<int, int>)
  requires copied(h, t, g, d, m), ta_ok(h, own(t), t.maxConstraints.len() as int), no_silent_trans(h, own(t)), gok_ta(h, own(t)),
  ensures ta_ok(g, own(d), d.maxConstraints.len() as int), no_silent_trans(g, own(d)), gok_ta(g, own(d)), d.base.states.no_duplicates(),
{
  let A = t.base.states; let B = d.base.states; let n = t.maxConstraints.len() as int;
  assert forall|p: int| #[trigger] own(d).contains(p) implies p != 0 && g.dom().contains(p) && trans_of(g[p], 0).len() == 0 && gok_state(g[p]) by {
    let i = choose|i: int| 0 <= i < B.len() && B[i] == p; assert(own(t).contains(A[i])); assert(is_copy(h[A[i]], g[B[i]], m));
    lem_copy_trans(h[A[i]], g[p], m, 0);
    assert forall|a: int, k: int| #![trigger trans_of(g[p], a)[k]] 0 <= k < trans_of(g[p], a).len() implies gok(trans_of(g[p], a)[k].guard) by { lem_copy_trans(h[A[i]], g[p], m, a); assert(gok_state(h[A[i]])); assert(gok(trans_of(h[A[i]], a)[k].guard)); }
  }
  assert forall|p: int, a: int, k: int| #![trigger trans_of(g[p], a)[k]] own(d).contains(p) && 0 <= k < trans_of(g[p], a).len() implies tr_ok(own(d), trans_of(g[p], a)[k], n) by {
    let i = choose|i: int| 0 <= i < B.len() && B[i] == p; assert(own(t).contains(A[i])); assert(is_copy(h[A[i]], g[B[i]], m)); lem_copy_trans(h[A[i]], g[p], m, a);
    let tr = trans_of(h[A[i]], a)[k]; assert(tr_ok(own(t), tr, n)); lem_renames_in(A, B, m, tr.target); assert(B.contains(m[tr.target]));
  }
}
