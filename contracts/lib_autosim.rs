// the runs of a completed (and complemented) copy follow the runs of the original automaton
pub open spec fn uval(v: Seq<D>) -> spec_fn(int) -> real { |x: int| if 0 <= x < v.len() { dv(v[x]) } else { 0real } }
pub open spec fn nn_vals(v: Seq<D>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]) is Fin && dv(v[i]) >= 0real }
pub open spec fn nn_src(u: VarDC) -> bool { match u { VarDC::Dbl(d) => dv(d) >= 0real, VarDC::Clk(c) => true } }
pub open spec fn nn_resets(rs: Seq<Pair<int, VarDC>>) -> bool { forall|i: int| 0 <= i < rs.len() ==> nn_src((#[trigger] rs[i]).second) }
/// clocks are never set to negative constants
pub open spec fn nn_ta(h: Map<int, TAState>, S: Set<int>) -> bool {
  forall|p: int, a: int, k: int| #![trigger trans_of(h[p], a)[k]] S.contains(p) && 0 <= k < trans_of(h[p], a).len() ==> nn_resets(trans_of(h[p], a)[k].resetVars)
}
pub proof fn lem_ga_uval(g: Seq<Constraint>, v: Seq<D>)
  requires ga_clk(g, v.len() as int), nn_vals(v), ensures ga_holds(g, v) == guard_holds(g, uval(v)), nonneg_u(uval(v)),
{
  assert forall|i: int| 0 <= i < g.len() implies con_holds(#[trigger] g[i], dv(v[g[i].x])) == con_holds(g[i], uval(v)(g[i].x)) by { assert(0 <= g[i].x < v.len()); }
  assert forall|x: int| #[trigger] uval(v)(x) >= 0real by { if 0 <= x < v.len() { assert(v[x] is Fin && dv(v[x]) >= 0real); } }
}
pub proof fn lem_ru_nn(rs: Seq<Pair<int, VarDC>>, k: int, v: Seq<D>, x: int)
  requires rus_ok(rs, v.len() as int), nn_resets(rs), 0 <= k <= rs.len(), 0 <= x < v.len(), nn_vals(v),
  ensures ru_val(rs, k, v, x) is Fin, dv(ru_val(rs, k, v, x)) >= 0real,
  decreases k,
{
  if k > 0 { assert(ru_ok(rs[k - 1], v.len() as int)); assert(nn_src(rs[k - 1].second)); if rs[k - 1].first != x { lem_ru_nn(rs, k - 1, v, x); } }
}
pub proof fn lem_all_nn(rs: Seq<Pair<int, VarDC>>, v: Seq<D>)
  requires rus_ok(rs, v.len() as int), nn_resets(rs), nn_vals(v), ensures nn_vals(ru_all(rs, v)), ru_all(rs, v).len() == v.len(),
{
  assert forall|i: int| 0 <= i < ru_all(rs, v).len() implies (#[trigger] ru_all(rs, v)[i]) is Fin && dv(ru_all(rs, v)[i]) >= 0real by { lem_ru_nn(rs, rs.len() as int, v, i); }
}
pub proof fn lem_delay_nn(v: Seq<D>, d: D)
  requires nn_vals(v), d is Fin, dv(d) >= 0real, ensures nn_vals(ru_delayed(v, d)), ru_delayed(v, d).len() == v.len(),
{
  assert forall|i: int| 0 <= i < v.len() implies (#[trigger] ru_delayed(v, d)[i]) is Fin && dv(ru_delayed(v, d)[i]) >= 0real by { assert(v[i] is Fin); }
}
/// T1 is T0 with renamed targets, followed by transitions to the sink that are enabled exactly when T0 is stuck
pub open spec fn lfill(T0: Seq<TATransition>, T1: Seq<TATransition>, m: Map<int, int>, sink: int, n: int) -> bool { filled(map_list(T0, m), T1, sink, n) }
pub open spec fn sim_ta(h: Map<int, TAState>, S: Set<int>, g: Map<int, TAState>, m: Map<int, int>, sink: int, al: Seq<int>, n: int, flip: bool) -> bool {
  &&& forall|p: int| #[trigger] S.contains(p) ==> g[m[p]].isMatch == (h[p].isMatch != flip)
  &&& forall|p: int, j: int| #![trigger S.contains(p), al[j]] S.contains(p) && 0 <= j < al.len() ==> lfill(trans_of(h[p], al[j]), trans_of(g[m[p]], al[j]), m, sink, n)
  &&& g[sink].isMatch == flip
  &&& forall|j: int| 0 <= j < al.len() ==> filled(Seq::empty(), trans_of(g[sink], #[trigger] al[j]), sink, n)
  &&& forall|p: int, a: int| #![trigger S.contains(p), al.contains(a)] S.contains(p) && !al.contains(a) ==> trans_of(g[m[p]], a) =~= map_list(trans_of(h[p], a), m)
  &&& forall|a: int| !#[trigger] al.contains(a) ==> trans_of(g[sink], a).len() == 0
}
pub open spec fn c_rel(c: Conf, e: Conf, m: Map<int, int>, sink: int, n: int, flip: bool) -> bool {
  match e { Conf::Dead => !flip && c is Dead, Conf::At(q, w) => w.len() == n && nn_vals(w) && match c { Conf::Dead => q == sink, Conf::At(p, v) => q == m[p] && w == v } }
}
/// some extra transition is enabled iff no old one is
pub proof fn lem_sink_en(T0: Seq<TATransition>, T1: Seq<TATransition>, sink: int, n: int, v: Seq<D>)
  requires filled(T0, T1, sink, n), v.len() == n, nn_vals(v), forall|k: int| 0 <= k < T0.len() ==> ga_clk((#[trigger] T0[k]).guard, n),
  ensures (exists|k: int| T0.len() <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, v)) == !(exists|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v)),
{
  let u = uval(v); let X = T1.skip(T0.len() as int); let z: Seq<Constraint> = Seq::empty(); lem_ga_uval(z, v);
  lem_tg_hold(X, u); lem_tg_hold(T0, u);
  assert forall|k: int| T0.len() <= k < T1.len() implies ga_holds((#[trigger] T1[k]).guard, v) == guard_holds(T1[k].guard, u) by { assert(to_sink(T1[k], sink, n)); lem_ga_uval(T1[k].guard, v); }
  assert forall|k: int| 0 <= k < T0.len() implies ga_holds((#[trigger] T0[k]).guard, v) == guard_holds(T0[k].guard, u) by { lem_ga_uval(T0[k].guard, v); }
  if exists|k: int| T0.len() <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, v) {
    let k = choose|k: int| T0.len() <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, v); assert(X[k - T0.len()] == T1[k]); assert(guard_holds(X[k - T0.len()].guard, u));
  }
  if exists|k: int| 0 <= k < X.len() && guard_holds((#[trigger] X[k]).guard, u) {
    let k = choose|k: int| 0 <= k < X.len() && guard_holds((#[trigger] X[k]).guard, u); assert(T1[k + T0.len()] == X[k]); assert(ga_holds(T1[k + T0.len()].guard, v));
  }
}
pub proof fn lem_sim_other(h: Map<int, TAState>, S: Set<int>, g: Map<int, TAState>, m: Map<int, int>, sink: int, al: Seq<int>, n: int, flip: bool, c: Conf, e: Conf, a: int)
  requires sim_ta(h, S, g, m, sink, al, n, flip), c_rel(c, e, m, sink, n, flip), c_in(c, S), ta_ok(h, S, n), nn_ta(h, S), det(h, S), !al.contains(a), !flip, !(e is Dead),
  ensures c_rel(c_event(h, c, a), c_event(g, e, a), m, sink, n, flip), c_in(c_event(h, c, a), S),
{
  let w = e->At_1; let q = e->At_0;
  match c {
    Conf::Dead => { assert(trans_of(g[q], a).len() == 0); assert(stuck(g[q], a, w)); }
    Conf::At(p, v) => {
      let T = trans_of(h[p], a); let T1 = trans_of(g[q], a);
      assert(S.contains(p) && !al.contains(a));
      assert(T1 =~= map_list(T, m));
      assert forall|k: int| #[trigger] en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k) by { if 0 <= k < T.len() { assert(T1[k] == map_tr(T[k], m)); } }
      if stuck(h[p], a, v) {
        assert forall|k: int| !#[trigger] en_at(g[q], a, v, k) by { assert(en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k)); }
      } else {
        let i = choose|k: int| en_at(h[p], a, v, k); assert(en_at(h[p], a, v, i)) by { assert(!stuck(h[p], a, v)); }
        let k = choose|k: int| en_at(g[q], a, v, k); assert(en_at(g[q], a, v, i)); assert(en_at(g[q], a, v, k)); assert(en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k));
        assert(det_state(h[p])); assert(k == i);
        assert(T1[k] == map_tr(T[k], m));
        assert(tr_ok(S, trans_of(h[p], a)[k], n)); assert(nn_resets(trans_of(h[p], a)[k].resetVars));
        lem_all_nn(T[k].resetVars, v);
      }
    }
  }
}
pub proof fn lem_sim_event(h: Map<int, TAState>, S: Set<int>, g: Map<int, TAState>, m: Map<int, int>, sink: int, al: Seq<int>, n: int, flip: bool, c: Conf, e: Conf, a: int)
  requires sim_ta(h, S, g, m, sink, al, n, flip), c_rel(c, e, m, sink, n, flip), c_in(c, S), ta_ok(h, S, n), nn_ta(h, S), det(h, S), al.contains(a) || !flip,
  ensures c_rel(c_event(h, c, a), c_event(g, e, a), m, sink, n, flip), c_in(c_event(h, c, a), S),
{
  if e is Dead { return; }
  let w = e->At_1; let q = e->At_0;
  if !al.contains(a) { lem_sim_other(h, S, g, m, sink, al, n, flip, c, e, a); return; }
  let j = choose|j: int| 0 <= j < al.len() && al[j] == a;
  match c {
    Conf::Dead => {
      let E: Seq<TATransition> = Seq::empty(); let T1 = trans_of(g[sink], al[j]);
      assert(filled(E, T1, sink, n));
      lem_sink_en(E, T1, sink, n, w);
      let k0 = choose|k: int| 0 <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, w);
      assert(en_at(g[q], a, w, k0));
      let k = choose|k: int| en_at(g[q], a, w, k);
      assert(to_sink(T1[k], sink, n));
      assert(ru_all(T1[k].resetVars, w) =~= w) by { assert(T1[k].resetVars.len() == 0); }
    }
    Conf::At(p, v) => {
      let T = trans_of(h[p], a); let T0 = map_list(T, m); let T1 = trans_of(g[q], a);
      assert(S.contains(p) && al[j] == a);
      assert(lfill(T, T1, m, sink, n));
      assert forall|k: int| 0 <= k < T0.len() implies ga_clk((#[trigger] T0[k]).guard, n) by { assert(tr_ok(S, trans_of(h[p], a)[k], n)); }
      lem_sink_en(T0, T1, sink, n, v);
      assert forall|k: int| 0 <= k < T.len() implies (#[trigger] en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k)) by { assert(T1[k] == T0[k]); }
      if stuck(h[p], a, v) {
        assert(!exists|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v)) by {
          if exists|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v) { let k = choose|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v); assert(en_at(h[p], a, v, k)); }
        }
        let k0 = choose|k: int| T0.len() <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, v);
        assert(en_at(g[q], a, v, k0));
        let k = choose|k: int| en_at(g[q], a, v, k);
        assert(en_at(g[q], a, v, k));
        if k < T0.len() { assert(en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k)); }
        assert(to_sink(T1[k], sink, n));
        assert(ru_all(T1[k].resetVars, w) =~= w) by { assert(T1[k].resetVars.len() == 0); }
      } else {
        let i = choose|k: int| en_at(h[p], a, v, k);
        assert(en_at(h[p], a, v, i)) by { assert(!stuck(h[p], a, v)); }
        assert(en_at(h[p], a, v, i) <==> en_at(g[q], a, v, i));
        assert(ga_holds(T0[i].guard, v));
        let k = choose|k: int| en_at(g[q], a, v, k);
        assert(en_at(g[q], a, v, k));
        if k >= T0.len() { assert(ga_holds(T1[k].guard, v)); }
        assert(en_at(h[p], a, v, k) <==> en_at(g[q], a, v, k));
        assert(det_state(h[p]));
        assert(k == i);
        assert(T1[k] == map_tr(T[k], m));
        assert(tr_ok(S, trans_of(h[p], a)[k], n)); assert(nn_resets(trans_of(h[p], a)[k].resetVars));
        lem_all_nn(T[k].resetVars, v);
      }
    }
  }
}
pub proof fn lem_sim_delay(c: Conf, e: Conf, m: Map<int, int>, sink: int, n: int, flip: bool, d: D)
  requires c_rel(c, e, m, sink, n, flip), d is Fin, dv(d) >= 0real, ensures c_rel(c_delay(c, d), c_delay(e, d), m, sink, n, flip),
{ if e is Dead { return; } lem_delay_nn(e->At_1, d); }
pub open spec fn letters_in(w: Seq<int>, al: Seq<int>) -> bool { forall|i: int| 0 <= i < w.len() ==> al.contains(#[trigger] w[i]) }
pub open spec fn word_nn(w: Seq<int>, d: Seq<D>) -> bool {
  &&& d.len() == w.len() + 1
  &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]) is Fin && dv(d[i]) >= 0real
}
pub proof fn lem_sim_upto(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, m: Map<int, int>, sink: int, al: Seq<int>, flip: bool, w: Seq<int>, d: Seq<D>, i: int)
  requires sim_ta(h, own(t), g, m, sink, al, t.maxConstraints.len() as int, flip), aut_ok(h, t), nn_ta(h, own(t)), det(h, own(t)), word_nn(w, d), letters_in(w, al) || !flip, 0 <= i <= w.len(),
    c_rel(conf0(t), conf0(t1), m, sink, t.maxConstraints.len() as int, flip),
  ensures c_rel(c_upto(h, t, w, d, i), c_upto(g, t1, w, d, i), m, sink, t.maxConstraints.len() as int, flip), c_in(c_upto(h, t, w, d, i), own(t)),
  decreases i,
{
  let n = t.maxConstraints.len() as int;
  if i > 0 {
    lem_sim_upto(h, t, g, t1, m, sink, al, flip, w, d, i - 1);
    let c = c_upto(h, t, w, d, i - 1); let e = c_upto(g, t1, w, d, i - 1);
    assert(d[i - 1] is Fin && dv(d[i - 1]) >= 0real);
    lem_sim_delay(c, e, m, sink, n, flip, d[i - 1]);
    if flip { assert(al.contains(w[i - 1])); }
    lem_sim_event(h, own(t), g, m, sink, al, n, flip, c_delay(c, d[i - 1]), c_delay(e, d[i - 1]), w[i - 1]);
  }
}
pub open spec fn tw_nn(tw: TimedWord) -> bool { word_nn(tw.word, tw.durations) }
pub open spec fn tw_over(tw: TimedWord, al: Seq<int>) -> bool { tw_nn(tw) && letters_in(tw.word, al) }
pub proof fn lem_sim_accepts(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, m: Map<int, int>, sink: int, al: Seq<int>, flip: bool, tw: TimedWord)
  requires sim_ta(h, own(t), g, m, sink, al, t.maxConstraints.len() as int, flip), aut_ok(h, t), nn_ta(h, own(t)), det(h, own(t)), tw_nn(tw), letters_in(tw.word, al) || !flip,
    c_rel(conf0(t), conf0(t1), m, sink, t.maxConstraints.len() as int, flip),
  ensures accepts(g, t1, tw) == (accepts(h, t, tw) != flip),
{
  let w = tw.word; let d = tw.durations; let k = w.len() as int; let n = t.maxConstraints.len() as int;
  lem_sim_upto(h, t, g, t1, m, sink, al, flip, w, d, k);
  assert(d[k] is Fin && dv(d[k]) >= 0real);
  let c = c_upto(h, t, w, d, k); let e = c_upto(g, t1, w, d, k);
  lem_sim_delay(c, e, m, sink, n, flip, d[k]);
  match c { Conf::Dead => {} Conf::At(p, v) => { assert(own(t).contains(p)); } }
}
pub proof fn lem_rel0(t: TimedAutomaton, t1: TimedAutomaton, m: Map<int, int>, sink: int, flip: bool)
  requires t1.base.states.len() > 0, t1.maxConstraints.len() == t.maxConstraints.len(),
    t1.base.initialStates.len() > 0, t1.base.initialStates[0] == (if t.base.states.len() == 0 { sink } else { m[t.base.initialStates[0]] }),
  ensures c_rel(conf0(t), conf0(t1), m, sink, t.maxConstraints.len() as int, flip),
{
  let z = zeros(t.maxConstraints.len() as int); assert(zeros(t1.maxConstraints.len() as int) =~= z); assert(nn_vals(z));
}
/// every valuation has an enabled transition for every letter
pub open spec fn complete_state(s: TAState, al: Seq<int>, n: int) -> bool {
  forall|j: int, v: Seq<D>| 0 <= j < al.len() && v.len() == n && nn_vals(v) ==> !#[trigger] stuck(s, al[j], v)
}
pub proof fn lem_complete(s: TAState, t: TAState, al: Seq<int>, sink: int, n: int)
  requires filled_upto(s, t, al, al.len() as int, sink, n), clk_state(s, n), ensures complete_state(t, al, n),
{
  assert forall|j: int, v: Seq<D>| 0 <= j < al.len() && v.len() == n && nn_vals(v) implies !#[trigger] stuck(t, al[j], v) by {
    let T0 = trans_of(s, al[j]); let T1 = trans_of(t, al[j]);
    assert(filled(T0, T1, sink, n));
    assert forall|k: int| 0 <= k < T0.len() implies ga_clk((#[trigger] T0[k]).guard, n) by { assert(ga_clk(trans_of(s, al[j])[k].guard, n)); }
    lem_sink_en(T0, T1, sink, n, v);
    if exists|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v) {
      let k = choose|k: int| 0 <= k < T0.len() && ga_holds((#[trigger] T0[k]).guard, v); assert(T1[k] == T0[k]); assert(en_at(t, al[j], v, k));
    } else {
      let k = choose|k: int| T0.len() <= k < T1.len() && ga_holds((#[trigger] T1[k]).guard, v); assert(en_at(t, al[j], v, k));
    }
  }
}
pub open spec fn flips(f: Map<int, TAState>, e: Map<int, TAState>, S: Seq<int>, flip: bool) -> bool { forall|i: int| 0 <= i < S.len() ==> e[#[trigger] S[i]] == (if flip { flipped(f[S[i]]) } else { f[S[i]] }) }
pub proof fn lem_sim_compose(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, d: TimedAutomaton, m: Map<int, int>, f: Map<int, TAState>, r: TimedAutomaton, e: Map<int, TAState>, al: Seq<int>, flip: bool)
  requires copied(h, t, g, d, m), made_complete(g, d, f, r, al), flips(f, e, r.base.states, flip), ta_ok(h, own(t), t.maxConstraints.len() as int),
  ensures sim_ta(h, own(t), e, m, r.base.states.last(), al, t.maxConstraints.len() as int, flip),
{
  let A = t.base.states; let B = d.base.states; let R = r.base.states; let n = t.maxConstraints.len() as int; let sink = R.last();
  assert(R[B.len() as int] == sink);
  assert(al.take(al.len() as int) =~= al);
  assert(trans_of(sink0(), 0).len() == 0);
  assert forall|j: int| 0 <= j < al.len() implies filled(Seq::empty(), trans_of(e[sink], #[trigger] al[j]), sink, n) by {
    assert(trans_of(sink0(), al[j]) =~= Seq::empty()); assert(filled(trans_of(sink0(), al[j]), trans_of(f[sink], al[j]), sink, n)); assert(trans_of(e[sink], al[j]) =~= trans_of(f[sink], al[j]));
  }
  assert forall|p: int| #[trigger] own(t).contains(p) implies e[m[p]].isMatch == (h[p].isMatch != flip) && filled_upto(g[m[p]], f[m[p]], al, al.len() as int, sink, n) && is_copy(h[p], g[m[p]], m) && e[m[p]].next == f[m[p]].next by {
    let i = choose|i: int| 0 <= i < A.len() && A[i] == p; assert(m[A[i]] == B[i]); assert(is_copy(h[A[i]], g[B[i]], m)); assert(R[i] == B[i]); assert(own(d).contains(B[i]));
  }
  assert forall|a: int| !#[trigger] al.contains(a) implies trans_of(e[sink], a).len() == 0 by { assert(trans_of(f[sink], a) =~= trans_of(sink0(), a)); assert(trans_of(sink0(), a).len() == 0); assert(trans_of(e[sink], a) == trans_of(f[sink], a)); }
  assert forall|p: int, a: int| #![trigger own(t).contains(p), al.contains(a)] own(t).contains(p) && !al.contains(a) implies trans_of(e[m[p]], a) =~= map_list(trans_of(h[p], a), m) by {
    lem_copy_trans(h[p], g[m[p]], m, a); assert(trans_of(f[m[p]], a) =~= trans_of(g[m[p]], a)); assert(trans_of(e[m[p]], a) == trans_of(f[m[p]], a));
  }
  assert forall|p: int, j: int| #![trigger own(t).contains(p), al[j]] own(t).contains(p) && 0 <= j < al.len() implies lfill(trans_of(h[p], al[j]), trans_of(e[m[p]], al[j]), m, sink, n) by {
    lem_copy_trans(h[p], g[m[p]], m, al[j]); assert(filled(trans_of(g[m[p]], al[j]), trans_of(f[m[p]], al[j]), sink, n)); assert(trans_of(g[m[p]], al[j]) == map_list(trans_of(h[p], al[j]), m));
    assert(trans_of(e[m[p]], al[j]) == trans_of(f[m[p]], al[j]));
  }
}
pub proof fn lem_complete_own(g: Map<int, TAState>, d: TimedAutomaton, f: Map<int, TAState>, r: TimedAutomaton, al: Seq<int>)
  requires made_complete(g, d, f, r, al), ta_ok(g, own(d), d.maxConstraints.len() as int), d.base.states.no_duplicates(),
  ensures r.base.states.no_duplicates(), forall|i: int| 0 <= i < r.base.states.len() ==> f.dom().contains(#[trigger] r.base.states[i]),
    forall|p: int| #[trigger] own(r).contains(p) ==> complete_state(f[p], al, d.maxConstraints.len() as int),
{
  let B = d.base.states; let R = r.base.states; let n = d.maxConstraints.len() as int; let sink = R.last();
  assert(R[B.len() as int] == sink);
  assert forall|i: int| 0 <= i < B.len() implies #[trigger] R[i] == B[i] && R[i] != sink && g.dom().contains(R[i]) by { assert(own(d).contains(B[i])); }
  assert forall|p: int| #[trigger] own(r).contains(p) implies complete_state(f[p], al, n) by {
    let i = choose|i: int| 0 <= i < R.len() && R[i] == p;
    if i < B.len() {
      assert(own(d).contains(B[i]));
      assert forall|a: int, k: int| #![trigger trans_of(g[p], a)[k]] 0 <= k < trans_of(g[p], a).len() implies ga_clk(trans_of(g[p], a)[k].guard, n) by { assert(tr_ok(own(d), trans_of(g[p], a)[k], n)); }
      lem_complete(g[p], f[p], al, sink, n);
    } else {
      assert forall|a: int, k: int| #![trigger trans_of(sink0(), a)[k]] 0 <= k < trans_of(sink0(), a).len() implies ga_clk(trans_of(sink0(), a)[k].guard, n) by { assert(trans_of(sink0(), a).len() == 0); }
      lem_complete(sink0(), f[sink], al, sink, n);
    }
  }
}
/// completing in place: the states keep their names
pub open spec fn idm(S: Set<int>) -> Map<int, int> { Map::new(S, |p: int| p) }
pub proof fn lem_sim_in_place(h: Map<int, TAState>, t: TimedAutomaton, g: Map<int, TAState>, t1: TimedAutomaton, al: Seq<int>)
  requires made_complete(h, t, g, t1, al), ta_ok(h, own(t), t.maxConstraints.len() as int),
  ensures sim_ta(h, own(t), g, idm(own(t)), t1.base.states.last(), al, t.maxConstraints.len() as int, false),
{
  let S = own(t); let m = idm(S); let n = t.maxConstraints.len() as int; let sink = t1.base.states.last();
  assert(al.take(al.len() as int) =~= al);
  assert forall|j: int| 0 <= j < al.len() implies filled(Seq::empty(), trans_of(g[sink], #[trigger] al[j]), sink, n) by { assert(trans_of(sink0(), al[j]) =~= Seq::empty()); }
  assert forall|a: int| !#[trigger] al.contains(a) implies trans_of(g[sink], a).len() == 0 by { assert(trans_of(g[sink], a) =~= trans_of(sink0(), a)); assert(trans_of(sink0(), a).len() == 0); }
  assert forall|p: int, a: int| #![trigger S.contains(p), trans_of(h[p], a)] S.contains(p) implies map_list(trans_of(h[p], a), m) =~= trans_of(h[p], a) by {
    assert forall|k: int| 0 <= k < trans_of(h[p], a).len() implies #[trigger] map_list(trans_of(h[p], a), m)[k] == trans_of(h[p], a)[k] by { assert(tr_ok(S, trans_of(h[p], a)[k], n)); }
  }
  assert forall|p: int| #[trigger] S.contains(p) implies g[m[p]].isMatch == (h[p].isMatch != false) by { assert(m[p] == p); assert(filled_upto(h[p], g[p], al, al.len() as int, sink, n)); }
  assert forall|p: int, j: int| #![trigger S.contains(p), al[j]] S.contains(p) && 0 <= j < al.len() implies lfill(trans_of(h[p], al[j]), trans_of(g[m[p]], al[j]), m, sink, n) by {
    assert(m[p] == p); assert(filled_upto(h[p], g[p], al, al.len() as int, sink, n)); let z = trans_of(h[p], al[j]); assert(map_list(z, m) =~= z);
  }
  assert forall|p: int, a: int| #![trigger S.contains(p), al.contains(a)] S.contains(p) && !al.contains(a) implies trans_of(g[m[p]], a) =~= map_list(trans_of(h[p], a), m) by {
    assert(m[p] == p); assert(filled_upto(h[p], g[p], al, al.len() as int, sink, n)); let z = trans_of(h[p], a); assert(map_list(z, m) =~= z); assert(trans_of(g[p], a) =~= z);
  }
}
/// a deterministic automaton with at most one initial state and without silent transitions
pub open spec fn usable(h: Map<int, TAState>, t: TimedAutomaton) -> bool { aut_ok(h, t) && nn_ta(h, own(t)) && det(h, own(t)) && (t.base.states.len() == 0 ==> t.base.initialStates.len() == 0) }
