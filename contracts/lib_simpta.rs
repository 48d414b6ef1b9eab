// removing transitions and states that no accepting run needs
pub open spec fn covers(T0: Seq<TATransition>, T1: Seq<TATransition>, K: Set<int>) -> bool {
  forall|k: int| 0 <= k < T0.len() && !K.contains(#[trigger] T0[k].target) ==> covered(T0[k], T1)
}
pub open spec fn stronger(a: TATransition, b: TATransition) -> bool { a.target == b.target && a.resetVars == b.resetVars && forall|v: Seq<D>| #[trigger] ga_holds(a.guard, v) ==> ga_holds(b.guard, v) }
pub open spec fn covered(t: TATransition, T1: Seq<TATransition>) -> bool { exists|i: int| 0 <= i < T1.len() && stronger(t, #[trigger] T1[i]) }
/// some transitions are gone: only such that lead to K or that others subsume
pub open spec fn thinned(s: TAState, t: TAState, K: Set<int>) -> bool {
  s.isMatch == t.isMatch && forall|a: int| #[trigger] thin_at(s, t, K, a)
}
pub open spec fn thin_at(s: TAState, t: TAState, K: Set<int>, a: int) -> bool { subseq(trans_of(s, a), trans_of(t, a)) && covers(trans_of(s, a), trans_of(t, a), K) }
/// K is a trap without accepting states
pub open spec fn trap(h: Map<int, TAState>, S: Set<int>, K: Set<int>) -> bool {
  forall|p: int| #[trigger] S.contains(p) && K.contains(p) ==> !h[p].isMatch && forall|a: int, i: int| #![trigger trans_of(h[p], a)[i]] 0 <= i < trans_of(h[p], a).len() ==> K.contains(trans_of(h[p], a)[i].target)
}
/// t1 is t, where the runs that enter K may be cut
pub open spec fn cut(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, K: Set<int>) -> bool {
  &&& trap(h, own(t), K)
  &&& forall|p: int| #[trigger] own(t1).contains(p) ==> own(t).contains(p) && g.dom().contains(p) && thinned(h[p], g[p], K)
  &&& forall|p: int| #[trigger] own(t).contains(p) && !K.contains(p) ==> own(t1).contains(p)
  &&& forall|p: int, a: int, i: int| #![trigger trans_of(g[p], a)[i]] own(t1).contains(p) && 0 <= i < trans_of(g[p], a).len() ==> own(t1).contains(trans_of(g[p], a)[i].target)
  &&& t1.maxConstraints == t.maxConstraints
  &&& t1.base.states.len() > 0 ==> t1.base.initialStates == t.base.initialStates && own(t1).contains(t1.base.initialStates[0])
  &&& t1.base.states.len() == 0 ==> t1.base.initialStates.len() == 0
}
pub open spec fn trapped(c: Conf, K: Set<int>) -> bool { match c { Conf::Dead => true, Conf::At(p, v) => K.contains(p) } }
pub open spec fn cut_rel(c: Conf, d: Conf, S: Set<int>, S1: Set<int>, K: Set<int>) -> bool { c_in(c, S) && c_in(d, S1) && (c == d || trapped(c, K) && trapped(d, K)) }
pub proof fn lem_cut_event(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, K: Set<int>, c: Conf, d: Conf, a: int)
  requires usable(h, t), cut(h, t, g, t1, K), cut_rel(c, d, own(t), own(t1), K),
  ensures cut_rel(c_event(h, c, a), c_event(g, d, a), own(t), own(t1), K),
{
  let c1 = c_event(h, c, a); let d1 = c_event(g, d, a);
  match c { Conf::At(p, v) => { if !stuck(h[p], a, v) { let k = choose|k: int| en_at(h[p], a, v, k); assert(en_at(h[p], a, v, k)); assert(tr_ok(own(t), trans_of(h[p], a)[k], t.maxConstraints.len() as int)); } } _ => {} }
  match d { Conf::At(p, v) => { if !stuck(g[p], a, v) {
      let i = choose|i: int| en_at(g[p], a, v, i); assert(en_at(g[p], a, v, i));
      let z = trans_of(g[p], a)[i]; assert(own(t1).contains(z.target));
      assert(thin_at(h[p], g[p], K, a));
      let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(h[p], a), trans_of(g[p], a), f);
      assert(trans_of(h[p], a)[f[i]] == z); assert(en_at(h[p], a, v, f[i]));
    } } _ => {} }
  assert(c_in(c1, own(t)) && c_in(d1, own(t1)));
  if c == d && !trapped(c, K) {
    match c { Conf::At(p, v) => {
      assert(own(t1).contains(p)); assert(thin_at(h[p], g[p], K, a));
      let T0 = trans_of(h[p], a); let T1 = trans_of(g[p], a); let f = choose|f: Seq<int>| #[trigger] sub_at(T0, T1, f);
      if stuck(h[p], a, v) {
        assert forall|i: int| !#[trigger] en_at(g[p], a, v, i) by { if en_at(g[p], a, v, i) { assert(T1[i] == T0[f[i]]); assert(en_at(h[p], a, v, f[i])); } }
      } else {
        let k = choose|k: int| en_at(h[p], a, v, k); assert(en_at(h[p], a, v, k));
        assert(det_state(h[p]));
        if !stuck(g[p], a, v) { let i = choose|i: int| en_at(g[p], a, v, i); assert(en_at(g[p], a, v, i)); assert(T1[i] == T0[f[i]]); assert(en_at(h[p], a, v, f[i])); assert(f[i] == k); }
        else if !K.contains(T0[k].target) { assert(covered(T0[k], T1)); let i = choose|i: int| 0 <= i < T1.len() && stronger(T0[k], #[trigger] T1[i]); assert(en_at(g[p], a, v, i)); }
      }
    } _ => {} }
  } else {
    assert(trapped(c, K) && trapped(d, K));
  }
}
pub proof fn lem_cut_upto(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, K: Set<int>, w: Seq<int>, d: Seq<D>, i: int)
  requires usable(h, t), cut(h, t, g, t1, K), t1.base.states.len() == 0 ==> trapped(conf0(t), K),
  ensures cut_rel(c_upto(h, t, w, d, i), c_upto(g, t1, w, d, i), own(t), own(t1), K), decreases i,
{
  if i <= 0 { if t1.base.states.len() > 0 { assert(own(t1).contains(t1.base.states[0])); assert(own(t).contains(t1.base.states[0])); } }
  else {
    lem_cut_upto(h, t, g, t1, K, w, d, i - 1);
    let c = c_upto(h, t, w, d, i - 1); let e = c_upto(g, t1, w, d, i - 1);
    lem_cut_event(h, t, g, t1, K, c_delay(c, d[i - 1]), c_delay(e, d[i - 1]), w[i - 1]);
  }
}
/// cutting runs that cannot accept any more changes no language
pub proof fn lem_cut_accepts(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, K: Set<int>)
  requires usable(h, t), cut(h, t, g, t1, K), t1.base.states.len() == 0 ==> trapped(conf0(t), K),
  ensures same_lang(h, t, g, t1), usable(g, t1),
{
  assert forall|tw: TimedWord| #[trigger] accepts(g, t1, tw) == accepts(h, t, tw) by {
    let w = tw.word; let d = tw.durations; let i = w.len() as int;
    lem_cut_upto(h, t, g, t1, K, w, d, i);
    let c = c_upto(h, t, w, d, i); let e = c_upto(g, t1, w, d, i);
    match c { Conf::At(p, v) => { assert(own(t).contains(p)); } _ => {} }
    match e { Conf::At(p, v) => { assert(own(t1).contains(p)); assert(thinned(h[p], g[p], K)); } _ => {} }
  }
  lem_cut_usable(h, t, g, t1, K);
}
pub open spec fn same_lang(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton) -> bool { forall|tw: TimedWord| #[trigger] accepts(g, t1, tw) == accepts(h, t, tw) }
pub proof fn lem_cut_usable(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, K: Set<int>)
  requires usable(h, t), cut(h, t, g, t1, K), ensures usable(g, t1),
{
  let n = t.maxConstraints.len() as int;
  assert forall|p: int, a: int, i: int| #![trigger trans_of(g[p], a)[i]] own(t1).contains(p) && 0 <= i < trans_of(g[p], a).len() implies tr_ok(own(t1), trans_of(g[p], a)[i], n) && nn_resets(trans_of(g[p], a)[i].resetVars) && trans_of(h[p], a).len() > 0 by {
    assert(thin_at(h[p], g[p], K, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(h[p], a), trans_of(g[p], a), f);
    let z = trans_of(h[p], a)[f[i]]; assert(tr_ok(own(t), z, n)); assert(nn_resets(z.resetVars));
  }
  assert forall|p: int| #[trigger] own(t1).contains(p) implies trans_of(g[p], 0).len() == 0 && det_state(g[p]) by {
    assert(thin_at(h[p], g[p], K, 0)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(h[p], 0), trans_of(g[p], 0), f);
    if trans_of(g[p], 0).len() > 0 { assert(0 <= f[0] < trans_of(h[p], 0).len()); }
    assert forall|a: int, v: Seq<D>, i: int, j: int| #[trigger] en_at(g[p], a, v, i) && #[trigger] en_at(g[p], a, v, j) implies i == j by {
      assert(thin_at(h[p], g[p], K, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(h[p], a), trans_of(g[p], a), f);
      assert(trans_of(h[p], a)[f[i]] == trans_of(g[p], a)[i]); assert(trans_of(h[p], a)[f[j]] == trans_of(g[p], a)[j]);
      assert(en_at(h[p], a, v, f[i]) && en_at(h[p], a, v, f[j])); assert(det_state(h[p])); assert(f[i] == f[j]);
      if i < j { assert(f[i] < f[j]); } if j < i { assert(f[j] < f[i]); }
    }
  }
  if t.base.states.len() == 0 { if t1.base.states.len() > 0 { assert(own(t1).contains(t1.base.states[0])); assert(own(t).contains(t1.base.states[0])); } }
}
pub proof fn lem_thin_same(s: TAState, t: TAState, K: Set<int>)
  requires s.isMatch == t.isMatch, forall|a: int| #[trigger] trans_of(t, a) =~= trans_of(s, a), ensures thinned(s, t, K),
{
  assert forall|a: int| #[trigger] thin_at(s, t, K, a) by {
    let T = trans_of(s, a); assert(trans_of(t, a) =~= T); lem_sub_all(T);
    assert forall|k: int| 0 <= k < T.len() implies covered(#[trigger] T[k], T) by { assert(stronger(T[k], T[k])); }
  }
}
pub proof fn lem_sub_all<A>(g: Seq<A>) ensures subseq(g, g), { assert(sub_at(g, g, Seq::new(g.len(), |i: int| i))); }
pub proof fn lem_sub_none<A>(g: Seq<A>) ensures subseq(g, Seq::<A>::empty()), { assert(sub_at(g, Seq::<A>::empty(), Seq::<int>::empty())); }
pub open spec fn with_next(s: TAState, nx: Map<int, Seq<TATransition>>) -> TAState { TAState { isMatch: s.isMatch, next: nx } }
pub open spec fn no_states() -> Set<int> { Set::empty() }
pub proof fn lem_sub_trans<A>(g: Seq<A>, h: Seq<A>, k: Seq<A>)
  requires subseq(g, h), subseq(h, k), ensures subseq(g, k),
{
  let e = choose|f: Seq<int>| #[trigger] sub_at(g, h, f); let f = choose|f: Seq<int>| #[trigger] sub_at(h, k, f);
  let q = Seq::new(k.len(), |i: int| e[f[i]]);
  assert forall|i: int, j: int| 0 <= i < j < k.len() implies #[trigger] q[i] < #[trigger] q[j] by { assert(f[i] < f[j]); assert(e[f[i]] < e[f[j]]); }
  assert forall|i: int| 0 <= i < k.len() implies 0 <= #[trigger] q[i] < g.len() && k[i] == g[q[i]] by { assert(0 <= f[i] < h.len() && k[i] == h[f[i]]); assert(0 <= e[f[i]] < g.len()); }
  assert(sub_at(g, k, q));
}
pub proof fn lem_thin_trans(s: TAState, t: TAState, u: TAState, K: Set<int>)
  requires thinned(s, t, K), thinned(t, u, K), ensures thinned(s, u, K),
{
  assert forall|a: int| #[trigger] thin_at(s, u, K, a) by {
    assert(thin_at(s, t, K, a)); assert(thin_at(t, u, K, a));
    let T = trans_of(s, a); let U = trans_of(t, a); let W = trans_of(u, a);
    lem_sub_trans(T, U, W);
    assert forall|k: int| 0 <= k < T.len() && !K.contains(#[trigger] T[k].target) implies covered(T[k], W) by {
      assert(covered(T[k], U)); let i = choose|i: int| 0 <= i < U.len() && stronger(T[k], #[trigger] U[i]);
      assert(covered(U[i], W)); let j = choose|j: int| 0 <= j < W.len() && stronger(U[i], #[trigger] W[j]); assert(stronger(T[k], W[j]));
    }
  }
}
/// the list R stands for the first i transitions of T
pub open spec fn reduced_upto(T: Seq<TATransition>, i: int, R: Seq<TATransition>) -> bool { subseq(T.take(i), R) && covers(T.take(i), R, no_states()) }
pub proof fn lem_reduced_step(T: Seq<TATransition>, i: int, R: Seq<TATransition>, Q: Seq<TATransition>)
  requires 0 <= i < T.len(), reduced_upto(T, i, R), Q == R.push(T[i]) || Q == R && covered(T[i], R), ensures reduced_upto(T, i + 1, Q),
{
  let A = T.take(i); let B = T.take(i + 1);
  let f = choose|f: Seq<int>| #[trigger] sub_at(A, R, f);
  if Q == R { assert(sub_at(B, Q, f)); } else { assert(sub_at(B, Q, f.push(i))); }
  assert forall|k: int| 0 <= k < B.len() && !no_states().contains(#[trigger] B[k].target) implies covered(B[k], Q) by {
    if k < i { assert(B[k] == A[k]); assert(covered(A[k], R)); let j = choose|j: int| 0 <= j < R.len() && stronger(A[k], #[trigger] R[j]); assert(Q[j] == R[j]); }
    else if Q == R { assert(B[k] == T[i]); } else { assert(Q[R.len() as int] == T[i]); assert(stronger(T[i], Q[R.len() as int])); }
  }
}
pub proof fn lem_reduced_none(T: Seq<TATransition>) ensures reduced_upto(T, 0, Seq::<TATransition>::empty()), { lem_sub_none(T.take(0)); }
pub proof fn lem_ga_any(g: Seq<Constraint>, v: Seq<D>) ensures guard_holds(g, |x: int| dv(v[x])) == ga_holds(g, v), { }
pub proof fn lem_stronger(a: TATransition, b: TATransition)
  requires a.target == b.target, a.resetVars =~= b.resetVars, forall|u: spec_fn(int) -> real| #[trigger] guard_holds(a.guard, u) ==> guard_holds(b.guard, u), ensures stronger(a, b),
{ assert forall|v: Seq<D>| #[trigger] ga_holds(a.guard, v) implies ga_holds(b.guard, v) by { lem_ga_any(a.guard, v); lem_ga_any(b.guard, v); assert(guard_holds(a.guard, |x: int| dv(v[x]))); } }
pub open spec fn clear_of(s: TAState, K: Set<int>) -> bool { forall|a: int| #[trigger] clear_at(s, K, a) }
pub open spec fn clear_at(s: TAState, K: Set<int>, a: int) -> bool { forall|i: int| 0 <= i < trans_of(s, a).len() ==> !K.contains(#[trigger] trans_of(s, a)[i].target) }
pub proof fn lem_thin_refl(s: TAState, K: Set<int>) ensures thinned(s, s, K), { lem_thin_same(s, s, K); }
pub proof fn lem_thin_clear(s: TAState, t: TAState, K: Set<int>, K2: Set<int>)
  requires thinned(s, t, K), clear_of(s, K2), ensures clear_of(t, K2),
{
  assert forall|a: int| #[trigger] clear_at(t, K2, a) by {
    assert(thin_at(s, t, K, a)); assert(clear_at(s, K2, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(s, a), trans_of(t, a), f);
    assert forall|i: int| 0 <= i < trans_of(t, a).len() implies !K2.contains(#[trigger] trans_of(t, a)[i].target) by { assert(trans_of(s, a)[f[i]] == trans_of(t, a)[i]); }
  }
}
/// the list U is T without the transitions to K
pub open spec fn pruned(T: Seq<TATransition>, U: Seq<TATransition>, K: Set<int>) -> bool {
  &&& subseq(T, U)
  &&& forall|i: int| 0 <= i < T.len() && !K.contains(#[trigger] T[i].target) ==> U.contains(T[i])
  &&& forall|i: int| 0 <= i < U.len() ==> !K.contains(#[trigger] U[i].target)
}
pub proof fn lem_pruned(s: TAState, t: TAState, K: Set<int>, a: int)
  requires pruned(trans_of(s, a), trans_of(t, a), K), ensures thin_at(s, t, K, a), clear_at(t, K, a),
{
  let T = trans_of(s, a); let U = trans_of(t, a);
  assert forall|k: int| 0 <= k < T.len() && !K.contains(#[trigger] T[k].target) implies covered(T[k], U) by { assert(U.contains(T[k])); let i = choose|i: int| 0 <= i < U.len() && U[i] == T[k]; assert(stronger(T[k], U[i])); }
}
pub open spec fn pruned_l(T: Seq<TATransition>, U: Seq<TATransition>, L: Set<int>) -> bool {
  &&& subseq(T, U)
  &&& forall|i: int| 0 <= i < T.len() && L.contains(#[trigger] T[i].target) ==> U.contains(T[i])
  &&& forall|i: int| 0 <= i < U.len() ==> L.contains(#[trigger] U[i].target)
}
pub open spec fn minus(S: Set<int>, L: Set<int>) -> Set<int> { S.difference(L) }
pub proof fn lem_pruned_l(s: TAState, t: TAState, S: Set<int>, L: Set<int>, a: int)
  requires pruned_l(trans_of(s, a), trans_of(t, a), L), forall|i: int| 0 <= i < trans_of(s, a).len() ==> S.contains(#[trigger] trans_of(s, a)[i].target), ensures thin_at(s, t, minus(S, L), a), clear_at(t, minus(S, L), a),
{ lem_pruned(s, t, minus(S, L), a); }
/// some transition from p to q has been recorded
pub open spec fn be_has(B: Map<int, Set<int>>, p: int, q: int) -> bool { B.dom().contains(q) && B[q].contains(p) }
pub open spec fn be_in(B: Map<int, Set<int>>, S: Set<int>) -> bool { forall|p: int, q: int| #[trigger] be_has(B, p, q) ==> S.contains(p) }
pub open spec fn be_mono(A: Map<int, Set<int>>, B: Map<int, Set<int>>) -> bool { forall|p: int, q: int| #[trigger] be_has(A, p, q) ==> be_has(B, p, q) }
pub open spec fn be_list(B: Map<int, Set<int>>, p: int, T: Seq<TATransition>, n: int) -> bool { forall|i: int| 0 <= i < n ==> be_has(B, p, #[trigger] T[i].target) }
pub open spec fn be_state(B: Map<int, Set<int>>, p: int, s: TAState) -> bool { forall|a: int| be_list(B, p, #[trigger] trans_of(s, a), trans_of(s, a).len() as int) }
pub open spec fn be_closed(B: Map<int, Set<int>>, L: Set<int>, q: int) -> bool { forall|p: int| #[trigger] be_has(B, p, q) ==> L.contains(p) }
/// every set of states that contains the initial state and that no transition leaves contains all states
pub open spec fn conn(h: Map<int, TAState>, t: TimedAutomaton) -> bool { forall|K: Set<int>| #[trigger] no_exit(h, own(t), K) && (t.base.initialStates.len() > 0 ==> K.contains(t.base.initialStates[0])) ==> forall|p: int| #[trigger] own(t).contains(p) ==> K.contains(p) }
pub open spec fn no_exit(h: Map<int, TAState>, S: Set<int>, K: Set<int>) -> bool { forall|p: int, a: int, i: int| #![trigger trans_of(h[p], a)[i]] S.contains(p) && K.contains(p) && 0 <= i < trans_of(h[p], a).len() ==> K.contains(trans_of(h[p], a)[i].target) }
pub open spec fn kept(t: TimedAutomaton) -> bool { t.base.states.len() == 0 || t.base.initialStates.len() == 1 }
pub open spec fn no_lang(h: Map<int, TAState>, t: TimedAutomaton) -> bool { forall|tw: TimedWord| !#[trigger] accepts(h, t, tw) }
pub proof fn lem_trap_upto(h: Map<int, TAState>, t: TimedAutomaton, K: Set<int>, w: Seq<int>, d: Seq<D>, i: int)
  requires usable(h, t), trap(h, own(t), K), trapped(conf0(t), K), ensures trapped(c_upto(h, t, w, d, i), K), c_in(c_upto(h, t, w, d, i), own(t)), decreases i,
{
  if i <= 0 { if t.base.states.len() > 0 { assert(own(t).contains(t.base.initialStates[0])); } }
  else {
    lem_trap_upto(h, t, K, w, d, i - 1);
    let c = c_delay(c_upto(h, t, w, d, i - 1), d[i - 1]); let a = w[i - 1];
    match c { Conf::At(p, v) => { if !stuck(h[p], a, v) { let k = choose|k: int| en_at(h[p], a, v, k); assert(en_at(h[p], a, v, k)); assert(tr_ok(own(t), trans_of(h[p], a)[k], t.maxConstraints.len() as int)); } } _ => {} }
  }
}
pub proof fn lem_trap_none(h: Map<int, TAState>, t: TimedAutomaton, K: Set<int>)
  requires usable(h, t), trap(h, own(t), K), trapped(conf0(t), K), ensures no_lang(h, t),
{
  assert forall|tw: TimedWord| !#[trigger] accepts(h, t, tw) by {
    let i = tw.word.len() as int; lem_trap_upto(h, t, K, tw.word, tw.durations, i);
    match c_upto(h, t, tw.word, tw.durations, i) { Conf::At(p, v) => { assert(own(t).contains(p)); } _ => {} }
  }
}
pub proof fn lem_sub_len(A: Set<int>, B: Set<int>)
  requires forall|p: int| #[trigger] A.contains(p) ==> B.contains(p), ensures A.len() <= B.len(),
{ assert(A.subset_of(B)); vstd::set_lib::lemma_len_subset(A, B); }
/// a transition that speaks about n clocks only
pub open spec fn cov(t: TATransition, n: int) -> bool { ga_clk(t.guard, n) && rus_ok(t.resetVars, n) }
pub open spec fn cov_all(h: Map<int, TAState>, S: Set<int>, n: int) -> bool { n >= 0 && forall|p: int, a: int, i: int| #![trigger trans_of(h[p], a)[i]] S.contains(p) && 0 <= i < trans_of(h[p], a).len() ==> cov(trans_of(h[p], a)[i], n) }
/// every clock of the guard has an entry that is at least the constants it is compared with
pub open spec fn capg(g: Seq<Constraint>, k: int, mc: Seq<int>) -> bool { forall|i: int| 0 <= i < k ==> 0 <= (#[trigger] g[i]).x < mc.len() && g[i].c <= mc[g[i].x] }
pub open spec fn capr(rs: Seq<Pair<int, VarDC>>, k: int, n: int) -> bool { forall|i: int| 0 <= i < k ==> ru_ok(#[trigger] rs[i], n) }
pub open spec fn cap1(t: TATransition, mc: Seq<int>) -> bool { capg(t.guard, t.guard.len() as int, mc) && capr(t.resetVars, t.resetVars.len() as int, mc.len() as int) }
pub open spec fn cap_list(T: Seq<TATransition>, k: int, mc: Seq<int>) -> bool { forall|i: int| 0 <= i < k ==> cap1(#[trigger] T[i], mc) }
pub open spec fn cap_state(s: TAState, mc: Seq<int>) -> bool { forall|a: int| cap_list(#[trigger] trans_of(s, a), trans_of(s, a).len() as int, mc) }
pub open spec fn mc_le(a: Seq<int>, b: Seq<int>) -> bool { a.len() <= b.len() && forall|x: int| 0 <= x < a.len() ==> #[trigger] a[x] <= b[x] }
pub proof fn lem_cap1(t: TATransition, a: Seq<int>, b: Seq<int>) requires cap1(t, a), mc_le(a, b), ensures cap1(t, b),
{
  assert forall|i: int| 0 <= i < t.guard.len() implies 0 <= (#[trigger] t.guard[i]).x < b.len() && t.guard[i].c <= b[t.guard[i].x] by { assert(a[t.guard[i].x] <= b[t.guard[i].x]); }
  assert forall|i: int| 0 <= i < t.resetVars.len() implies ru_ok(#[trigger] t.resetVars[i], b.len() as int) by { assert(ru_ok(t.resetVars[i], a.len() as int)); }
}
pub proof fn lem_cap_list(T: Seq<TATransition>, k: int, a: Seq<int>, b: Seq<int>) requires cap_list(T, k, a), mc_le(a, b), ensures cap_list(T, k, b),
{ assert forall|i: int| 0 <= i < k implies cap1(#[trigger] T[i], b) by { lem_cap1(T[i], a, b); } }
pub proof fn lem_cap_state(s: TAState, a: Seq<int>, b: Seq<int>) requires cap_state(s, a), mc_le(a, b), ensures cap_state(s, b),
{ assert forall|x: int| cap_list(#[trigger] trans_of(s, x), trans_of(s, x).len() as int, b) by { lem_cap_list(trans_of(s, x), trans_of(s, x).len() as int, a, b); } }
pub proof fn lem_cap_cov(t: TATransition, mc: Seq<int>) requires cap1(t, mc), ensures cov(t, mc.len() as int),
{ assert forall|i: int| 0 <= i < t.guard.len() implies 0 <= (#[trigger] t.guard[i]).x < mc.len() by { } assert forall|i: int| 0 <= i < t.resetVars.len() implies ru_ok(#[trigger] t.resetVars[i], mc.len() as int) by { } }

/// removing elements keeps the others distinct
pub proof fn lem_filt_nodup(g: Seq<int>, p: spec_fn(int) -> bool) requires g.no_duplicates(), ensures g.filter(p).no_duplicates(),
{ lem_filt_sub(g, p); lem_sub_nodup(g, g.filter(p)); }
pub proof fn lem_filt_nodup_all() ensures forall|g: Seq<int>, p: spec_fn(int) -> bool| g.no_duplicates() ==> (#[trigger] g.filter(p)).no_duplicates(),
{ assert forall|g: Seq<int>, p: spec_fn(int) -> bool| g.no_duplicates() implies (#[trigger] g.filter(p)).no_duplicates() by { lem_filt_nodup(g, p); } }
