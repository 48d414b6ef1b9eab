// include/timed_automaton.hh: simplifying automata
@fn TimedAutomaton::removeDeadLoop as ta_dead_loop()
@heap TAState
@requires
  usable(heap, this),
@ensures
  this1 == this, usable(heap1, this), same_lang(heap, this, heap1, this),
@loop 1
@invariant
  usable(heap, this), same_lang(old_heap, this, heap, this), forall|i: int| 0 <= i < nonAccepting.len() ==> own(this).contains(#[trigger] nonAccepting[i]) && !heap[nonAccepting[i]].isMatch,
@decreases nonAccepting.len()
@begin
  let ghost_h = heap; let ghost_c = nonAccepting[0]; assert(own(this).contains(ghost_c)); assert(heap.dom().contains(ghost_c));
@end
  if heap[ghost_c] != ghost_h[ghost_c] {
    let K = set![ghost_c]; let s = ghost_h[ghost_c]; let ks = enum_keys::<int>(s.next.dom()); lem_enum_keys::<int>(s.next.dom());
    assert forall|a: int, i: int| #![trigger trans_of(s, a)[i]] 0 <= i < trans_of(s, a).len() implies trans_of(s, a)[i].target == ghost_c by { assert(ks.contains(a)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == a; assert(ks[j] == a); }
    assert forall|p: int| #[trigger] own(this).contains(p) implies thinned(ghost_h[p], heap[p], K) by {
      if p != ghost_c { lem_thin_same(ghost_h[p], heap[p], K); }
      else { assert forall|a: int| #[trigger] thin_at(s, heap[p], K, a) by { lem_sub_none(trans_of(s, a)); assert(trans_of(heap[p], a) =~= Seq::<TATransition>::empty()); } }
    }
    assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies own(this).contains(trans_of(heap[p], a)[i].target) by { if p != ghost_c { assert(heap[p] == ghost_h[p]); assert(tr_ok(own(this), trans_of(ghost_h[p], a)[i], this.maxConstraints.len() as int)); } }
    assert(!s.isMatch);
    assert(trap(ghost_h, own(this), K));
    if this.base.states.len() > 0 { assert(own(this).contains(this.base.initialStates[0])); } else { assert(this.base.initialStates.len() == 0); }
    assert(forall|p: int| #[trigger] own(this).contains(p) ==> heap.dom().contains(p));
    assert(cut(ghost_h, this, heap, this, K)); lem_cut_accepts(ghost_h, this, heap, this, K);
  } else { assert(heap =~= ghost_h); }
@endloop
@fn TimedAutomaton::simplifyTransitions as ta_simp_trans()
@heap TAState
@requires
  usable(heap, this),
@ensures
  this1 == this, usable(heap1, this), same_lang(heap, this, heap1, this),
@return
  assert(cut(old_heap, this, heap, this, no_states())) by {
    if this.base.states.len() > 0 { assert(own(this).contains(this.base.initialStates[0])); }
    assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies own(this).contains(trans_of(heap[p], a)[i].target) by {
      assert(thin_at(old_heap[p], heap[p], no_states(), a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(old_heap[p], a), trans_of(heap[p], a), f);
      assert(tr_ok(own(this), trans_of(old_heap[p], a)[f[i]], this.maxConstraints.len() as int));
    }
  }
  lem_cut_accepts(old_heap, this, heap, this, no_states());
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == this.base.states, usable(old_heap, this), heap.dom() =~= old_heap.dom(), forall|p: int| #[trigger] own(this).contains(p) ==> thinned(old_heap[p], heap[p], no_states()),
@decreases rng1.len() - it1
@before
  assert forall|p: int| #[trigger] own(this).contains(p) implies thinned(old_heap[p], heap[p], no_states()) by { lem_thin_same(old_heap[p], heap[p], no_states()); }
@begin
  let ghost_h = heap; assert(own(this).contains(rng1[it1])); assert(old_heap.dom().contains(rng1[it1]));
@end
  let p = rng1[it1 - 1]; lem_thin_trans(old_heap[p], ghost_h[p], heap[p], no_states());
@loop 2
@invariant
  0 <= it2 <= keys2.len(), ixf1 == state, keys2.to_set() =~= heap[state].next.dom(), heap.dom().contains(state),
  forall|j: int| 0 <= j < it2 ==> newNext.dom().contains(#[trigger] keys2[j]),
  forall|a: int| #[trigger] newNext.dom().contains(a) ==> heap[state].next.dom().contains(a) && reduced_upto(heap[state].next[a], heap[state].next[a].len() as int, newNext[a]),
@decreases keys2.len() - it2
@begin
  assert(keys2.to_set().contains(keys2[it2]));
@exit
  let t = with_next(heap[state], newNext);
  assert forall|a: int| #[trigger] thin_at(heap[state], t, no_states(), a) by {
    let T = trans_of(heap[state], a); assert(T.take(T.len() as int) =~= T);
    if heap[state].next.dom().contains(a) { assert(keys2.to_set().contains(a)); let j = choose|j: int| 0 <= j < keys2.len() && keys2[j] == a; assert(newNext.dom().contains(keys2[j])); }
    else { lem_sub_none(T); assert(trans_of(t, a) =~= Seq::<TATransition>::empty()); }
  }
  assert(thinned(heap[state], t, no_states()));
@loop 3
@invariant
  0 <= it3 <= rng3.len(), reduced_upto(rng3, it3, reducedTransitions),
@decreases rng3.len() - it3
@before
  lem_reduced_none(rng3);
@begin
  let ghost_R = reducedTransitions;
  assert forall|k: int| #![trigger ghost_R[k]] 0 <= k < ghost_R.len() && rng3[it3].target == ghost_R[k].target && rng3[it3].resetVars =~= ghost_R[k].resetVars && guard_weaker(ghost_R[k].guard, rng3[it3].guard) implies covered(rng3[it3], ghost_R) by {
    guard_weaker_contract(ghost_R[k].guard, rng3[it3].guard); lem_stronger(rng3[it3], ghost_R[k]);
  }
@end
  lem_reduced_step(rng3, it3 - 1, ghost_R, reducedTransitions);
@endloop
@fn TimedAutomaton::removeUselessTransitions as ta_useless()
@heap TAState
@requires
  usable(heap, this),
@ensures
  usable(heap1, this1), same_lang(heap, this, heap1, this1), r == this1, this.base.states.no_duplicates() ==> this1.base.states.no_duplicates(), this1.maxConstraints == this.maxConstraints,
@loop 1
@invariant
  usable(heap, this), same_lang(old_heap, old_this, heap, this), old_this.base.states.no_duplicates() ==> this.base.states.no_duplicates(), this.maxConstraints == old_this.maxConstraints, forall|i: int| 0 <= i < nonAccepting.len() ==> heap.dom().contains(#[trigger] nonAccepting[i]) && !heap[nonAccepting[i]].isMatch,
@decreases nonAccepting.len()
@before
  assert forall|i: int| 0 <= i < nonAccepting.len() implies heap.dom().contains(#[trigger] nonAccepting[i]) by { assert(own(this).contains(nonAccepting[i])); }
@begin
  let ghost_h = heap; let ghost_t = this; let ghost_c = nonAccepting[0];
@loop 2
@invariant
  0 <= it2 <= this.base.states.len(), heap.dom() =~= pre_heap.dom(), forall|p: int| #[trigger] own(this).contains(p) ==> heap.dom().contains(p) && thinned(pre_heap[p], heap[p], set![current]),
  forall|j: int| 0 <= j < it2 ==> clear_of(heap[#[trigger] this.base.states[j]], set![current]),
  forall|p: int| #[trigger] heap.dom().contains(p) ==> heap[p].isMatch == pre_heap[p].isMatch,
@decreases this.base.states.len() - it2
@before
  assert forall|p: int| #[trigger] own(this).contains(p) implies heap.dom().contains(p) && thinned(heap[p], heap[p], set![current]) by { lem_thin_refl(heap[p], set![current]); assert(own(ghost_t).contains(p)); }
@begin
  let ghost_g = heap; let ghost_p = this.base.states[it2]; assert(own(this).contains(ghost_p));
@end
  let K = set![current];
  lem_thin_trans(pre_heap[ghost_p], ghost_g[ghost_p], heap[ghost_p], K);
  assert forall|j: int| 0 <= j < it2 implies clear_of(heap[#[trigger] this.base.states[j]], K) by { if this.base.states[j] != ghost_p { assert(heap[this.base.states[j]] == ghost_g[this.base.states[j]]); } }
@exit
  lem_filt_nodup_all();
  let K = set![ghost_c];
  assert(forall|p: int| #[trigger] own(this).contains(p) <==> own(ghost_t).contains(p) && p != ghost_c);
  assert(this.base.initialStates == ghost_t.base.initialStates);
  assert(trap(ghost_h, own(ghost_t), K)) by {
    let s = ghost_h[ghost_c]; let ks = enum_keys::<int>(s.next.dom()); lem_enum_keys::<int>(s.next.dom());
    assert forall|a: int, i: int| #![trigger trans_of(s, a)[i]] 0 <= i < trans_of(s, a).len() implies trans_of(s, a)[i].target == ghost_c by { assert(s.next.dom().contains(a)); assert(ks.contains(a)); let j = choose|j: int| 0 <= j < ks.len() && ks[j] == a; assert(s.next[ks[j]][i].target == ghost_c); }
  }
  assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies own(this).contains(trans_of(heap[p], a)[i].target) by {
    let j = choose|j: int| 0 <= j < this.base.states.len() && this.base.states[j] == p; assert(clear_of(heap[this.base.states[j]], K)); assert(clear_at(heap[p], K, a)); assert(trans_of(heap[p], a)[i].target != ghost_c);
    assert(thin_at(ghost_h[p], heap[p], K, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(ghost_h[p], a), trans_of(heap[p], a), f);
    assert(own(ghost_t).contains(p)); assert(tr_ok(own(ghost_t), trans_of(ghost_h[p], a)[f[i]], ghost_t.maxConstraints.len() as int));
  }
  assert(this.base.states.len() > 0 ==> own(ghost_t).contains(this.base.states[0])) by { if this.base.states.len() > 0 { assert(own(this).contains(this.base.states[0])); } }
  if ghost_t.base.states.len() > 0 { let q = ghost_t.base.initialStates[0]; assert(q != ghost_c); assert(own(ghost_t).contains(q)); assert(own(this).contains(q)); }
  assert(cut(ghost_h, ghost_t, heap, this, K)); lem_cut_accepts(ghost_h, ghost_t, heap, this, K);
@loop 3
@invariant
  0 <= it <= mkeys2.len(), heap.dom() =~= pre_heap.dom(), heap.dom().contains(ixf2), ixf2 == this.base.states[it2], mkeys2.no_duplicates(), mkeys2.to_set() =~= pre_heap[ixf2].next.dom(),
  forall|q: int| q != ixf2 ==> #[trigger] heap[q] == pre_heap[q], heap[ixf2].isMatch == pre_heap[ixf2].isMatch,
  forall|j: int| 0 <= j < it ==> pruned(trans_of(pre_heap[ixf2], mkeys2[j]), #[trigger] trans_of(heap[ixf2], mkeys2[j]), set![current]),
  forall|j: int| it <= j < mkeys2.len() ==> heap[ixf2].next.dom().contains(mkeys2[j]) && heap[ixf2].next[#[trigger] mkeys2[j]] == pre_heap[ixf2].next[mkeys2[j]],
@decreases mkeys2.len() - it
@begin
  let ghost_f = heap; assert(mkeys2.to_set().contains(mkeys2[it])); 
@anchor_after heap#1
  let ghost_U = trans_of(heap[ixf2], mkeys2[it]);
  assert(pruned(trans_of(ghost_f[ixf2], mkeys2[it]), ghost_U, set![current]));
@end
  let q = mkeys2[it - 1];
  assert(pruned(trans_of(pre_heap[ixf2], q), trans_of(heap[ixf2], q), set![current])) by { assert(trans_of(heap[ixf2], q) =~= ghost_U); }
  assert forall|j: int| 0 <= j < mkeys2.len() && j != it - 1 implies #[trigger] trans_of(heap[ixf2], mkeys2[j]) == trans_of(ghost_f[ixf2], mkeys2[j]) by { assert(mkeys2[j] != q); }
@exit
  let K = set![current]; let p = this.base.states[it2];
  assert forall|a: int| #[trigger] thin_at(ghost_g[p], heap[p], K, a) && clear_at(heap[p], K, a) by {
    if ghost_g[p].next.dom().contains(a) { assert(mkeys2.to_set().contains(a)); let j = choose|j: int| 0 <= j < mkeys2.len() && mkeys2[j] == a; assert(pruned(trans_of(ghost_g[p], a), trans_of(heap[p], mkeys2[j]), K)); lem_pruned(ghost_g[p], heap[p], K, a); }
    else { if heap[p].next.dom().contains(a) { assert(mkeys2.contains(a)); assert(mkeys2.to_set().contains(a)); } lem_sub_none(trans_of(ghost_g[p], a)); assert(trans_of(heap[p], a) =~= Seq::<TATransition>::empty()); }
  }
@endloop
@fn TimedAutomaton::removeTriviallyDeadStates as ta_dead()
@heap TAState
@requires
  usable(heap, this),
@ensures
  kept(this1) ==> usable(heap1, this1) && same_lang(heap, this, heap1, this1), !kept(this1) ==> no_lang(heap, this), conn(heap, this) ==> kept(this1),
  this.base.states.no_duplicates() ==> this1.base.states.no_duplicates(), this1.maxConstraints == this.maxConstraints,
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == this.base.states, usable(heap, this), be_in(backwardEdges, own(this)), forall|j: int| 0 <= j < it1 ==> be_state(backwardEdges, rng1[j], heap[#[trigger] rng1[j]]),
@decreases rng1.len() - it1
@begin
  let ghost_B = backwardEdges; assert(own(this).contains(rng1[it1]));
@end
  assert forall|j: int| 0 <= j < it1 implies be_state(backwardEdges, rng1[j], heap[#[trigger] rng1[j]]) by {
    if j < it1 - 1 { assert(be_state(ghost_B, rng1[j], heap[rng1[j]]));
      assert forall|a: int| be_list(backwardEdges, rng1[j], #[trigger] trans_of(heap[rng1[j]], a), trans_of(heap[rng1[j]], a).len() as int) by { assert(be_list(ghost_B, rng1[j], trans_of(heap[rng1[j]], a), trans_of(heap[rng1[j]], a).len() as int)); } }
  }
@loop 2
@invariant
  0 <= it2 <= keys2.len(), ixf1 == state, usable(heap, this), own(this).contains(state), be_in(backwardEdges, own(this)), be_mono(pre_backwardEdges, backwardEdges), forall|a: int| #[trigger] heap[state].next.dom().contains(a) <==> keys2.contains(a),
  forall|j: int| 0 <= j < it2 ==> be_list(backwardEdges, state, heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int),
@decreases keys2.len() - it2
@begin
  let ghost_C = backwardEdges; assert(keys2.contains(keys2[it2]));
@end
  assert forall|j: int| 0 <= j < it2 implies be_list(backwardEdges, state, heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int) by {
    if j < it2 - 1 { assert(be_list(ghost_C, state, heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int)); }
  }
@exit
  assert forall|a: int| be_list(backwardEdges, state, #[trigger] trans_of(heap[state], a), trans_of(heap[state], a).len() as int) by {
    if heap[state].next.dom().contains(a) { assert(keys2.contains(a)); let j = choose|j: int| 0 <= j < keys2.len() && keys2[j] == a; assert(be_list(backwardEdges, state, heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int)); }
  }
@loop 3
@invariant
  0 <= it3 <= rng3.len(), own(this).contains(state), be_in(backwardEdges, own(this)), be_mono(pre_backwardEdges, backwardEdges), be_list(backwardEdges, state, rng3, it3),
@decreases rng3.len() - it3
@begin
  let ghost_D = backwardEdges;
@end
  assert(be_has(backwardEdges, state, rng3[it3 - 1].target));
  assert forall|p: int, q: int| #[trigger] be_has(backwardEdges, p, q) implies be_has(ghost_D, p, q) || p == state by { }
  assert forall|p: int, q: int| #[trigger] be_has(ghost_D, p, q) implies be_has(backwardEdges, p, q) by { }
  assert forall|i: int| 0 <= i < it3 implies be_has(backwardEdges, state, #[trigger] rng3[i].target) by { if i < it3 - 1 { assert(be_has(ghost_D, state, rng3[i].target)); } }
@loop 4
@invariant
  0 <= it4 <= rng4.len(), rng4 == this.base.states, usable(heap, this), forall|p: int| #[trigger] liveStates.contains(p) ==> own(this).contains(p) && newLiveStates.contains(p),
  forall|j: int| 0 <= j < it4 && heap[#[trigger] rng4[j]].isMatch ==> liveStates.contains(rng4[j]),
@decreases rng4.len() - it4
@begin
  let ghost_Q = newLiveStates; assert(own(this).contains(rng4[it4]));
@end
  let y = rng4[it4 - 1];
  assert forall|p: int| #[trigger] liveStates.contains(p) implies newLiveStates.contains(p) by {
    if ghost_Q.contains(p) { let j = choose|j: int| 0 <= j < ghost_Q.len() && ghost_Q[j] == p; assert(newLiveStates[j] == p); } else { assert(newLiveStates[newLiveStates.len() - 1] == p); }
  }
@loop 5
@invariant
  be_in(backwardEdges, own(this)), forall|p: int| #[trigger] liveStates.contains(p) ==> own(this).contains(p), forall|p: int| #[trigger] pre_liveStates.contains(p) ==> liveStates.contains(p),
  forall|q: int| #[trigger] liveStates.contains(q) ==> newLiveStates.contains(q) || be_closed(backwardEdges, liveStates, q),
@decreases own(this).len() - liveStates.len(), newLiveStates.len()
@begin
  let ghost_L = liveStates; let ghost_N = newLiveStates; let ghost_q = newLiveStates[0];
@end
  lem_sub_len(liveStates, own(this));
  assert forall|q: int| #[trigger] liveStates.contains(q) implies newLiveStates.contains(q) || be_closed(backwardEdges, liveStates, q) by {
    if ghost_L.contains(q) && !newLiveStates.contains(q) {
      if q == ghost_q { assert forall|p: int| #[trigger] be_has(backwardEdges, p, q) implies liveStates.contains(p) by { } }
      else {
        if ghost_N.contains(q) { let j = choose|j: int| 0 <= j < ghost_N.len() && ghost_N[j] == q; assert(ghost_N.drop_first()[j - 1] == q); assert(ghost_N.drop_first().contains(q)); }
        assert(be_closed(backwardEdges, ghost_L, q)); assert forall|p: int| #[trigger] be_has(backwardEdges, p, q) implies liveStates.contains(p) by { assert(ghost_L.contains(p)); }
      }
    }
  }
@exit
  let S = own(this); let K = minus(S, liveStates); let n = this.maxConstraints.len() as int;
  assert(trap(heap, S, K)) by {
    assert forall|p: int| #[trigger] S.contains(p) && K.contains(p) implies !heap[p].isMatch && forall|a: int, i: int| #![trigger trans_of(heap[p], a)[i]] 0 <= i < trans_of(heap[p], a).len() ==> K.contains(trans_of(heap[p], a)[i].target) by {
      let k = choose|k: int| 0 <= k < rng1.len() && rng1[k] == p; assert(rng4[k] == p); assert(be_state(backwardEdges, rng1[k], heap[rng1[k]]));
      assert forall|a: int, i: int| #![trigger trans_of(heap[p], a)[i]] 0 <= i < trans_of(heap[p], a).len() implies K.contains(trans_of(heap[p], a)[i].target) by {
        let q = trans_of(heap[p], a)[i].target; assert(tr_ok(S, trans_of(heap[p], a)[i], n)); assert(be_list(backwardEdges, p, trans_of(heap[p], a), trans_of(heap[p], a).len() as int)); assert(be_has(backwardEdges, p, q));
        if liveStates.contains(q) { assert(be_closed(backwardEdges, liveStates, q)); assert(liveStates.contains(p)); }
      }
    }
  }
@loop 6
@invariant
  0 <= it6 <= keys6.len(), forall|p: int| #[trigger] pre_liveStates.contains(p) ==> liveStates.contains(p), forall|x: int| #[trigger] keys6.contains(x) ==> own(this).contains(x), forall|p: int| #[trigger] liveStates.contains(p) ==> own(this).contains(p),
  forall|j: int| 0 <= j < it6 ==> liveStates.contains(#[trigger] keys6[j]), forall|x: int| #[trigger] pre_newLiveStates.contains(x) ==> newLiveStates.contains(x),
  forall|q: int| #[trigger] liveStates.contains(q) ==> pre_liveStates.contains(q) || newLiveStates.contains(q),
  liveStates.len() >= pre_liveStates.len(), liveStates.len() == pre_liveStates.len() ==> newLiveStates == pre_newLiveStates,
@decreases keys6.len() - it6
@before
  assert forall|x: int| #[trigger] keys6.contains(x) implies own(this).contains(x) by { assert(be_has(backwardEdges, x, newLiveState)); }
@begin
  let ghost_R = newLiveStates; assert(keys6.contains(keys6[it6]));
@end
  let y = keys6[it6 - 1];
  assert forall|x: int| #[trigger] ghost_R.contains(x) implies newLiveStates.contains(x) by { let j = choose|j: int| 0 <= j < ghost_R.len() && ghost_R[j] == x; assert(newLiveStates[j] == x); }
  if newLiveStates != ghost_R { assert(newLiveStates[newLiveStates.len() - 1] == y); }
@exit
  assert forall|p: int| #[trigger] be_has(backwardEdges, p, newLiveState) implies liveStates.contains(p) by { assert(keys6.contains(p)); let j = choose|j: int| 0 <= j < keys6.len() && keys6[j] == p; assert(liveStates.contains(keys6[j])); }
@loop 7
@invariant
  0 <= it7 <= rng7.len(), usable(old_heap, old_this), rng7 == this.base.states, forall|p: int| #[trigger] own(this).contains(p) ==> own(old_this).contains(p), heap.dom() =~= old_heap.dom(),
  forall|p: int| #[trigger] own(this).contains(p) ==> thinned(old_heap[p], heap[p], minus(own(old_this), liveStates)),
  forall|j: int| 0 <= j < it7 ==> clear_of(heap[#[trigger] rng7[j]], minus(own(old_this), liveStates)),
@decreases rng7.len() - it7
@before
  assert forall|p: int| #[trigger] own(this).contains(p) implies own(old_this).contains(p) && liveStates.contains(p) && thinned(heap[p], heap[p], minus(own(old_this), liveStates)) by { lem_thin_refl(heap[p], minus(own(old_this), liveStates)); }
@begin
  let ghost_g = heap; let ghost_p = rng7[it7]; assert(own(this).contains(ghost_p)); assert(own(old_this).contains(ghost_p));
@end
  let K = minus(own(old_this), liveStates);
  lem_thin_trans(old_heap[ghost_p], ghost_g[ghost_p], heap[ghost_p], K);
  assert forall|j: int| 0 <= j < it7 implies clear_of(heap[#[trigger] rng7[j]], K) by { if rng7[j] != ghost_p { assert(heap[rng7[j]] == ghost_g[rng7[j]]); } }
@exit
  lem_filt_nodup_all();
  let S = own(old_this); let K = minus(S, liveStates); let n = old_this.maxConstraints.len() as int;
  assert(forall|p: int| #[trigger] own(this).contains(p) <==> own(old_this).contains(p) && liveStates.contains(p));
  assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies own(this).contains(trans_of(heap[p], a)[i].target) by {
    let j = choose|j: int| 0 <= j < rng7.len() && rng7[j] == p; assert(clear_of(heap[rng7[j]], K)); assert(clear_at(heap[p], K, a));
    assert(thin_at(old_heap[p], heap[p], K, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(old_heap[p], a), trans_of(heap[p], a), f);
    assert(own(old_this).contains(p)); assert(tr_ok(S, trans_of(old_heap[p], a)[f[i]], n));
  }
  let q = old_this.base.initialStates[0];
  if old_this.base.states.len() == 0 { assert(forall|p: int| !#[trigger] liveStates.contains(p)); assert(liveStates =~= Set::<int>::empty()); }
  assert(own(old_this).contains(q) && old_this.base.initialStates.len() == 1);
  if liveStates.contains(q) {
    assert(this.base.initialStates.contains(q)); assert(this.base.initialStates =~= old_this.base.initialStates); assert(own(this).contains(q));
  } else {
    if this.base.initialStates.len() > 0 { assert(this.base.initialStates[0] == q); }
    assert(K.contains(q)); lem_trap_none(old_heap, old_this, K);
    if conn(old_heap, old_this) { assert(no_exit(old_heap, S, K)); if this.base.states.len() > 0 { assert(own(this).contains(this.base.states[0])); } }
  }
  if kept(this) { assert(cut(old_heap, old_this, heap, this, K)); lem_cut_accepts(old_heap, old_this, heap, this, K); }
@loop 8
@invariant
  0 <= it <= mkeys1.len(), heap.dom() =~= pre_heap.dom(), heap.dom().contains(ixf5), ixf5 == state, mkeys1.no_duplicates(), mkeys1.to_set() =~= pre_heap[ixf5].next.dom(),
  forall|q: int| q != ixf5 ==> #[trigger] heap[q] == pre_heap[q], heap[ixf5].isMatch == pre_heap[ixf5].isMatch,
  forall|j: int| 0 <= j < it ==> pruned_l(trans_of(pre_heap[ixf5], mkeys1[j]), #[trigger] trans_of(heap[ixf5], mkeys1[j]), liveStates),
  forall|j: int| it <= j < mkeys1.len() ==> heap[ixf5].next.dom().contains(mkeys1[j]) && heap[ixf5].next[#[trigger] mkeys1[j]] == pre_heap[ixf5].next[mkeys1[j]],
@decreases mkeys1.len() - it
@begin
  let ghost_f = heap; assert(mkeys1.to_set().contains(mkeys1[it]));
@anchor_after heap#1
  let ghost_U = trans_of(heap[ixf5], mkeys1[it]);
  assert(pruned_l(trans_of(ghost_f[ixf5], mkeys1[it]), ghost_U, liveStates));
@end
  let q = mkeys1[it - 1];
  assert(pruned_l(trans_of(pre_heap[ixf5], q), trans_of(heap[ixf5], q), liveStates)) by { assert(trans_of(heap[ixf5], q) =~= ghost_U); }
  assert forall|j: int| 0 <= j < mkeys1.len() && j != it - 1 implies #[trigger] trans_of(heap[ixf5], mkeys1[j]) == trans_of(ghost_f[ixf5], mkeys1[j]) by { assert(mkeys1[j] != q); }
@exit
  let K = minus(own(old_this), liveStates); let p = state;
  assert forall|a: int| #[trigger] thin_at(ghost_g[p], heap[p], K, a) && clear_at(heap[p], K, a) by {
    if ghost_g[p].next.dom().contains(a) {
      assert(mkeys1.to_set().contains(a)); let j = choose|j: int| 0 <= j < mkeys1.len() && mkeys1[j] == a; assert(pruned_l(trans_of(ghost_g[p], a), trans_of(heap[p], mkeys1[j]), liveStates));
      assert(thin_at(old_heap[p], ghost_g[p], K, a)); let f = choose|f: Seq<int>| #[trigger] sub_at(trans_of(old_heap[p], a), trans_of(ghost_g[p], a), f);
      assert forall|i: int| 0 <= i < trans_of(ghost_g[p], a).len() implies own(old_this).contains(#[trigger] trans_of(ghost_g[p], a)[i].target) by { assert(tr_ok(own(old_this), trans_of(old_heap[p], a)[f[i]], old_this.maxConstraints.len() as int)); }
      lem_pruned_l(ghost_g[p], heap[p], own(old_this), liveStates, a);
    }
    else { if heap[p].next.dom().contains(a) { assert(mkeys1.contains(a)); assert(mkeys1.to_set().contains(a)); } lem_sub_none(trans_of(ghost_g[p], a)); assert(trans_of(heap[p], a) =~= Seq::<TATransition>::empty()); }
  }
@fn TimedAutomaton::makeMaxConstants as ta_max(states)
@heap TAState ro
@requires
  forall|p: int| #[trigger] states.to_set().contains(p) ==> heap.dom().contains(p), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n),
@ensures
  forall|p: int| #[trigger] states.to_set().contains(p) ==> cap_state(heap[p], r), forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> r.len() <= n,
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == states, forall|p: int| #[trigger] states.to_set().contains(p) ==> heap.dom().contains(p), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n),
  forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> maxConstants.len() <= n, 
  forall|j: int| 0 <= j < it1 ==> cap_state(heap[#[trigger] rng1[j]], maxConstants),
@decreases rng1.len() - it1
@begin
  let ghost_m = maxConstants; assert(states.to_set().contains(rng1[it1]));
@end
  assert forall|j: int| 0 <= j < it1 implies cap_state(heap[#[trigger] rng1[j]], maxConstants) by { if j < it1 - 1 { lem_cap_state(heap[rng1[j]], ghost_m, maxConstants); } }
@loop 2
@invariant
  0 <= it2 <= keys2.len(), ixf1 == state, states.to_set().contains(state), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n),
  forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> maxConstants.len() <= n, 
  forall|a: int| #[trigger] heap[state].next.dom().contains(a) <==> keys2.contains(a), mc_le(pre_maxConstants, maxConstants),
  forall|j: int| 0 <= j < it2 ==> cap_list(heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int, maxConstants),
@decreases keys2.len() - it2
@begin
  let ghost_m = maxConstants; assert(keys2.contains(keys2[it2]));
@end
  assert forall|j: int| 0 <= j < it2 implies cap_list(heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int, maxConstants) by { if j < it2 - 1 { lem_cap_list(heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int, ghost_m, maxConstants); } }
@exit
  assert forall|a: int| cap_list(#[trigger] trans_of(heap[state], a), trans_of(heap[state], a).len() as int, maxConstants) by {
    if heap[state].next.dom().contains(a) { assert(keys2.contains(a)); let j = choose|j: int| 0 <= j < keys2.len() && keys2[j] == a; assert(cap_list(heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int, maxConstants)); }
  }
@loop 3
@invariant
  0 <= it3 <= rng3.len(), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n), forall|n: int, i: int| #![trigger cov_all(heap, states.to_set(), n), rng3[i]] cov_all(heap, states.to_set(), n) && 0 <= i < rng3.len() ==> cov(rng3[i], n),
  forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> maxConstants.len() <= n, 
  mc_le(pre_maxConstants, maxConstants), cap_list(rng3, it3, maxConstants),
@decreases rng3.len() - it3
@before
  assert forall|n: int, i: int| #![trigger cov_all(heap, states.to_set(), n), rng3[i]] cov_all(heap, states.to_set(), n) && 0 <= i < rng3.len() implies cov(rng3[i], n) by { assert(trans_of(heap[state], keys2[it2])[i] == rng3[i]); }
@begin
  let ghost_m = maxConstants; let ghost_T = rng3[it3];
@end
  lem_cap_list(rng3, it3 - 1, ghost_m, maxConstants);
@loop 4
@invariant
  0 <= it4 <= rng4.len(), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n), forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> ga_clk(rng4, n),
  forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> maxConstants.len() <= n, 
  mc_le(pre_maxConstants, maxConstants), capg(rng4, it4, maxConstants),
@decreases rng4.len() - it4
@begin
  let ghost_n = choose|n: int| cov_all(heap, states.to_set(), n); assert(cov_all(heap, states.to_set(), ghost_n)); assert(0 <= rng4[it4].x < ghost_n); let ghost_m = maxConstants;
  assert forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) implies rng4[it4].x < n by { assert(ga_clk(rng4, n)); }
@end
  assert(mc_le(ghost_m, maxConstants));
@exit
  let ghost_g = maxConstants;
@loop 5
@invariant
  0 <= it5 <= rng5.len(), exists|n: int| #[trigger] cov_all(heap, states.to_set(), n), forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> rus_ok(rng5, n),
  forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) ==> maxConstants.len() <= n, 
  mc_le(pre_maxConstants, maxConstants), capr(rng5, it5, maxConstants.len() as int),
@decreases rng5.len() - it5
@begin
  let ghost_n = choose|n: int| cov_all(heap, states.to_set(), n); assert(cov_all(heap, states.to_set(), ghost_n)); assert(ru_ok(rng5[it5], ghost_n)); let ghost_m = maxConstants;
  assert forall|n: int| #[trigger] cov_all(heap, states.to_set(), n) implies ru_ok(rng5[it5], n) by { assert(rus_ok(rng5, n)); }
@end
  assert(mc_le(ghost_m, maxConstants));
  assert forall|i: int| 0 <= i < it5 implies ru_ok(#[trigger] rng5[i], maxConstants.len() as int) by { if i < it5 - 1 { assert(ru_ok(rng5[i], ghost_m.len() as int)); } }
@exit
  assert forall|i: int| 0 <= i < ghost_T.guard.len() implies 0 <= (#[trigger] ghost_T.guard[i]).x < maxConstants.len() && ghost_T.guard[i].c <= maxConstants[ghost_T.guard[i].x] by { assert(ghost_g[ghost_T.guard[i].x] <= maxConstants[ghost_T.guard[i].x]); }
@endloop
@fn TimedAutomaton::removeTriviallyUnreachableStates as ta_unreach()
@heap TAState
@requires
  usable(heap, this), this.base.states.no_duplicates(),
@ensures
  heap1 == heap, usable(heap, this1), same_lang(heap, this, heap, this1), conn(heap, this1), this1.base.states.no_duplicates(), this1.base.initialStates == this.base.initialStates, this1.maxConstraints.len() <= this.maxConstraints.len(),
@loop 1
@invariant
  0 <= it1 <= rng1.len() <= 1, rng1 == this.base.initialStates, usable(heap, this), forall|p: int| #[trigger] reachableStates.contains(p) ==> own(this).contains(p) && currentQueue.contains(p) && rng1.len() > 0 && p == rng1[0],
  forall|i: int| 0 <= i < currentQueue.len() ==> reachableStates.contains(#[trigger] currentQueue[i]), forall|j: int| 0 <= j < it1 ==> reachableStates.contains(#[trigger] rng1[j]),
@decreases rng1.len() - it1
@begin
  assert(this.base.states.len() > 0);
@end
  assert(currentQueue[currentQueue.len() - 1] == rng1[0]);
@loop 2
@invariant
  usable(heap, this), conn_in(heap, this, reachableStates), forall|p: int| #[trigger] reachableStates.contains(p) ==> own(this).contains(p), forall|i: int| 0 <= i < currentQueue.len() ==> reachableStates.contains(#[trigger] currentQueue[i]),
  forall|p: int| #[trigger] pre_reachableStates.contains(p) ==> reachableStates.contains(p),
  forall|q: int| #[trigger] reachableStates.contains(q) ==> currentQueue.contains(q) || succ_in(heap, reachableStates, q),
@decreases own(this).len() - reachableStates.len(), currentQueue.len()
@begin
  let ghost_L = reachableStates; let ghost_N = currentQueue; let ghost_q = currentQueue[0]; assert(own(this).contains(ghost_q)); assert(heap.dom().contains(ghost_q));
@end
  lem_sub_len(reachableStates, own(this));
  assert forall|q: int| #[trigger] reachableStates.contains(q) implies currentQueue.contains(q) || succ_in(heap, reachableStates, q) by {
    if ghost_L.contains(q) && !currentQueue.contains(q) && q != ghost_q {
      if ghost_N.contains(q) { let j = choose|j: int| 0 <= j < ghost_N.len() && ghost_N[j] == q; assert(ghost_N.drop_first()[j - 1] == q); assert(ghost_N.drop_first().contains(q)); }
      assert(succ_in(heap, ghost_L, q));
      assert forall|a: int| list_in(#[trigger] trans_of(heap[q], a), trans_of(heap[q], a).len() as int, reachableStates) by { assert(list_in(trans_of(heap[q], a), trans_of(heap[q], a).len() as int, ghost_L)); }
    }
  }
@loop 3
@invariant
  0 <= it3 <= keys3.len(), usable(heap, this), conn_in(heap, this, reachableStates), forall|p: int| #[trigger] reachableStates.contains(p) ==> own(this).contains(p), forall|i: int| 0 <= i < currentQueue.len() ==> reachableStates.contains(#[trigger] currentQueue[i]),
  forall|p: int| #[trigger] pre_reachableStates.contains(p) ==> reachableStates.contains(p),
  forall|p: int| #[trigger] pre_currentQueue.contains(p) ==> currentQueue.contains(p), forall|p: int| #[trigger] reachableStates.contains(p) ==> pre_reachableStates.contains(p) || currentQueue.contains(p),
  reachableStates.len() >= pre_reachableStates.len(), reachableStates.len() == pre_reachableStates.len() ==> currentQueue == pre_currentQueue,
  reachableStates.contains(ixf1), forall|a: int| #[trigger] heap[ixf1].next.dom().contains(a) <==> keys3.contains(a),
  forall|j: int| 0 <= j < it3 ==> list_in(heap[ixf1].next[#[trigger] keys3[j]], heap[ixf1].next[keys3[j]].len() as int, reachableStates),
@decreases keys3.len() - it3
@begin
  let ghost_M = reachableStates; let ghost_P = currentQueue; assert(keys3.contains(keys3[it3]));
@end
  assert forall|j: int| 0 <= j < it3 implies list_in(heap[ixf1].next[#[trigger] keys3[j]], heap[ixf1].next[keys3[j]].len() as int, reachableStates) by { if j < it3 - 1 { assert(list_in(heap[ixf1].next[keys3[j]], heap[ixf1].next[keys3[j]].len() as int, ghost_M)); } }
@exit
  assert forall|a: int| list_in(#[trigger] trans_of(heap[ixf1], a), trans_of(heap[ixf1], a).len() as int, reachableStates) by {
    if heap[ixf1].next.dom().contains(a) { assert(keys3.contains(a)); let j = choose|j: int| 0 <= j < keys3.len() && keys3[j] == a; assert(list_in(heap[ixf1].next[keys3[j]], heap[ixf1].next[keys3[j]].len() as int, reachableStates)); }
  }
  assert(succ_in(heap, reachableStates, ghost_q));
@loop 4
@invariant
  0 <= it4 <= rng4.len(), usable(heap, this), conn_in(heap, this, reachableStates), forall|p: int| #[trigger] reachableStates.contains(p) ==> own(this).contains(p), forall|i: int| 0 <= i < currentQueue.len() ==> reachableStates.contains(#[trigger] currentQueue[i]),
  forall|p: int| #[trigger] pre_reachableStates.contains(p) ==> reachableStates.contains(p),
  forall|p: int| #[trigger] pre_currentQueue.contains(p) ==> currentQueue.contains(p), forall|p: int| #[trigger] reachableStates.contains(p) ==> pre_reachableStates.contains(p) || currentQueue.contains(p),
  reachableStates.len() >= pre_reachableStates.len(), reachableStates.len() == pre_reachableStates.len() ==> currentQueue == pre_currentQueue,
  reachableStates.contains(ixf1), rng4 == trans_of(heap[ixf1], keys3[it3]), list_in(rng4, it4, reachableStates),
@decreases rng4.len() - it4
@begin
  let ghost_S = reachableStates; let ghost_R = currentQueue; assert(own(this).contains(ixf1)); lem_conn_step(heap, this, reachableStates, ixf1, keys3[it3], it4); assert(tr_ok(own(this), trans_of(heap[ixf1], keys3[it3])[it4], this.maxConstraints.len() as int));
@end
  let y = rng4[it4 - 1].target; assert(reachableStates =~= ghost_S.insert(y));
  assert forall|x: int| #[trigger] ghost_R.contains(x) implies currentQueue.contains(x) by { let j = choose|j: int| 0 <= j < ghost_R.len() && ghost_R[j] == x; assert(currentQueue[j] == x); }
  if currentQueue != ghost_R { assert(currentQueue[currentQueue.len() - 1] == y); }
@loop 5
@invariant
  0 <= it <= this.base.states.len(), this.base.states.no_duplicates(), this.base.initialStates == pre_this.base.initialStates, this.maxConstraints == pre_this.maxConstraints,
  forall|x: int| #[trigger] this.base.states.contains(x) ==> pre_this.base.states.contains(x), forall|x: int| #[trigger] pre_this.base.states.contains(x) && reachableStates.contains(x) ==> this.base.states.contains(x),
  forall|j: int| 0 <= j < it ==> reachableStates.contains(#[trigger] this.base.states[j]),
@decreases this.base.states.len() - it
@begin
  if it < this.base.states.len() { lem_remove_mem(this.base.states, it); }
@exit
  assert(forall|p: int| #[trigger] own(this).contains(p) <==> reachableStates.contains(p)) by {
    assert forall|p: int| #[trigger] own(this).contains(p) implies reachableStates.contains(p) by { let j = choose|j: int| 0 <= j < this.base.states.len() && this.base.states[j] == p; assert(reachableStates.contains(this.base.states[j])); }
    assert forall|p: int| #[trigger] reachableStates.contains(p) implies own(this).contains(p) by { assert(own(old_this).contains(p)); assert(old_this.base.states.contains(p)); }
  }
  assert(own(this) =~= reachableStates); this.base.states.unique_seq_to_set();
  assert forall|p: int| #[trigger] own(this).contains(p) implies heap.dom().contains(p) by { assert(own(old_this).contains(p)); }
  assert(cov_all(heap, own(this), old_this.maxConstraints.len() as int)) by {
    assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies cov(trans_of(heap[p], a)[i], old_this.maxConstraints.len() as int) by { assert(own(old_this).contains(p)); assert(tr_ok(own(old_this), trans_of(heap[p], a)[i], old_this.maxConstraints.len() as int)); }
  }
@return
  let R = reachableStates;
  assert(old_this.base.initialStates.len() > 0 ==> R.contains(old_this.base.initialStates[0]));
  if reachableStates.len() == old_this.base.states.len() { old_this.base.states.unique_seq_to_set(); lem_sub_eq(R, own(old_this)); lem_conn_done(heap, old_this, old_this, R); assert(this == old_this); }
  else {
    let m = this.maxConstraints.len() as int;
    assert(cov_all(heap, own(this), m)) by {
      assert forall|p: int, a: int, i: int| #![trigger trans_of(heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(heap[p], a).len() implies cov(trans_of(heap[p], a)[i], m) by {
        assert(cap_state(heap[p], this.maxConstraints)); assert(cap_list(trans_of(heap[p], a), trans_of(heap[p], a).len() as int, this.maxConstraints)); assert(cap1(trans_of(heap[p], a)[i], this.maxConstraints)); lem_cap_cov(trans_of(heap[p], a)[i], this.maxConstraints);
      }
    }
    lem_drop(heap, old_this, this, R, m); lem_conn_done(heap, old_this, this, R);
  }
@fn TimedAutomaton::removeUnusedClockVariables as ta_unused()
@heap TAState
@requires
  usable(heap, this), this.base.states.no_duplicates(), this.maxConstraints.len() <= 256,
@ensures
  usable(heap1, this1), same_lang(heap, this, heap1, this1), this1.base == this.base, this1.maxConstraints.len() <= this.maxConstraints.len(),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == this.base.states, usable(heap, this), below(usedClockVariables, this.maxConstraints.len() as int), grow(pre_usedClockVariables, usedClockVariables),
  forall|j: int| 0 <= j < it1 ==> use_state(heap[#[trigger] rng1[j]], usedClockVariables),
@decreases rng1.len() - it1
@begin
  let ghost_u = usedClockVariables; assert(own(this).contains(rng1[it1])); assert(heap.dom().contains(rng1[it1]));
@end
  assert forall|j: int| 0 <= j < it1 implies use_state(heap[#[trigger] rng1[j]], usedClockVariables) by { if j < it1 - 1 { lem_use_state(heap[rng1[j]], ghost_u, usedClockVariables); } }
@loop 2
@invariant
  0 <= it2 <= keys2.len(), ixf1 == state, usable(heap, this), own(this).contains(state), below(usedClockVariables, this.maxConstraints.len() as int), grow(pre_usedClockVariables, usedClockVariables),
  forall|a: int| #[trigger] heap[state].next.dom().contains(a) <==> keys2.contains(a),
  forall|j: int| 0 <= j < it2 ==> use_list(heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int, usedClockVariables),
@decreases keys2.len() - it2
@begin
  let ghost_u = usedClockVariables; assert(keys2.contains(keys2[it2]));
@end
  assert forall|j: int| 0 <= j < it2 implies use_list(heap[state].next[#[trigger] keys2[j]], heap[state].next[keys2[j]].len() as int, usedClockVariables) by { if j < it2 - 1 { lem_use_list(heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int, ghost_u, usedClockVariables); } }
@exit
  assert forall|a: int| use_list(#[trigger] trans_of(heap[state], a), trans_of(heap[state], a).len() as int, usedClockVariables) by {
    if heap[state].next.dom().contains(a) { assert(keys2.contains(a)); let j = choose|j: int| 0 <= j < keys2.len() && keys2[j] == a; assert(use_list(heap[state].next[keys2[j]], heap[state].next[keys2[j]].len() as int, usedClockVariables)); }
  }
@loop 3
@invariant
  0 <= it3 <= rng3.len(), below(usedClockVariables, this.maxConstraints.len() as int), grow(pre_usedClockVariables, usedClockVariables), use_list(rng3, it3, usedClockVariables), forall|i: int| 0 <= i < rng3.len() ==> cov(#[trigger] rng3[i], this.maxConstraints.len() as int),
@decreases rng3.len() - it3
@before
  assert forall|i: int| 0 <= i < rng3.len() implies cov(#[trigger] rng3[i], this.maxConstraints.len() as int) by { assert(tr_ok(own(this), trans_of(heap[state], keys2[it2])[i], this.maxConstraints.len() as int)); }
@begin
  let ghost_u = usedClockVariables; let ghost_T = rng3[it3];
@end
  lem_use_list(rng3, it3 - 1, ghost_u, usedClockVariables);
@loop 4
@invariant
  0 <= it4 <= rng4.len(), below(usedClockVariables, this.maxConstraints.len() as int), grow(pre_usedClockVariables, usedClockVariables), use_g(rng4, it4, usedClockVariables), ga_clk(rng4, this.maxConstraints.len() as int),
@decreases rng4.len() - it4
@exit
  let ghost_w = usedClockVariables;
@loop 5
@invariant
  0 <= it5 <= rng5.len(), below(usedClockVariables, this.maxConstraints.len() as int), grow(pre_usedClockVariables, usedClockVariables), use_r(rng5, it5, usedClockVariables), rus_ok(rng5, this.maxConstraints.len() as int),
@decreases rng5.len() - it5
@begin
  assert(ru_ok(rng5[it5], this.maxConstraints.len() as int)); let ghost_u = usedClockVariables;
@end
  assert forall|i: int| 0 <= i < it5 implies src_in((#[trigger] rng5[i]).second, usedClockVariables) by { if i < it5 - 1 { assert(src_in(rng5[i].second, ghost_u)); } }
@exit
  assert(uses(ghost_T, usedClockVariables)) by { assert forall|i: int| 0 <= i < ghost_T.guard.len() implies usedClockVariables.contains((#[trigger] ghost_T.guard[i]).x) by { assert(ghost_w.contains(ghost_T.guard[i].x)); } }
@loop 6
@invariant
  0 <= i <= usedClockVariablesVec.len() <= 256, usedClockVariablesVec.no_duplicates(), ren_upto(clockRenaming, usedClockVariablesVec, i),
@decreases usedClockVariablesVec.len() - i
@before
  assert forall|x: int| #[trigger] usedClockVariables.contains(x) <==> usedClockVariablesVec.contains(x) by { assert(mkeys1.contains(x) <==> usedClockVariables.contains(x)); assert(usedClockVariablesVec.contains(x) == mkeys1.contains(x)); }
  assert forall|j: int| 0 <= j < usedClockVariablesVec.len() implies 0 <= #[trigger] usedClockVariablesVec[j] < this.maxConstraints.len() as int by { assert(usedClockVariablesVec.contains(usedClockVariablesVec[j])); assert(usedClockVariables.contains(usedClockVariablesVec[j])); }
  assert forall|a: int, b: int| 0 <= a < b < usedClockVariablesVec.len() implies #[trigger] usedClockVariablesVec[a] < #[trigger] usedClockVariablesVec[b] by { assert(usedClockVariablesVec[a] <= usedClockVariablesVec[b]); }
  if usedClockVariablesVec.len() > 0 { lem_incr(usedClockVariablesVec, usedClockVariablesVec.len() - 1); }
@begin
  let ghost_R = clockRenaming;
@end
  assert forall|j: int| 0 <= j < i implies clockRenaming.dom().contains(#[trigger] usedClockVariablesVec[j]) && clockRenaming[usedClockVariablesVec[j]] == j by { if j < i - 1 { assert(usedClockVariablesVec[j] != usedClockVariablesVec[i - 1]); assert(ghost_R.dom().contains(usedClockVariablesVec[j])); } }
@loop 7
@invariant
  0 <= it7 <= rng7.len(), rng7 == this.base.states, rng7.no_duplicates(), usable(old_heap, this), kren_ok(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int), heap.dom() =~= old_heap.dom(),
  forall|j: int| 0 <= j < rng7.len() ==> use_state(old_heap[#[trigger] rng7[j]], usedClockVariables),
  forall|j: int| 0 <= j < it7 ==> clk_st(old_heap[rng7[j]], heap[#[trigger] rng7[j]], usedClockVariablesVec, this.maxConstraints.len() as int), forall|j: int| it7 <= j < rng7.len() ==> heap[#[trigger] rng7[j]] == old_heap[rng7[j]],
@decreases rng7.len() - it7
@begin
  let ghost_h = heap; let ghost_p = rng7[it7]; assert(own(this).contains(ghost_p));
@end
  assert forall|j: int| 0 <= j < rng7.len() && j != it7 - 1 implies #[trigger] heap[rng7[j]] == ghost_h[rng7[j]] by { assert(rng7[j] != ghost_p); }
  assert forall|j: int| 0 <= j < it7 implies clk_st(old_heap[rng7[j]], heap[#[trigger] rng7[j]], usedClockVariablesVec, this.maxConstraints.len() as int) by { if j < it7 - 1 { assert(heap[rng7[j]] == ghost_h[rng7[j]]); } }
@loop 8
@invariant
  0 <= it8 <= keys8.len(), kren_ok(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int), heap.dom() =~= pre_heap.dom(), heap.dom().contains(ixf4), ixf4 == state, keys8.no_duplicates(), forall|q: int| q != ixf4 ==> #[trigger] heap[q] == pre_heap[q],
  heap[ixf4].isMatch == pre_heap[ixf4].isMatch, heap[ixf4].next.dom() =~= pre_heap[ixf4].next.dom(), forall|a: int| #[trigger] pre_heap[ixf4].next.dom().contains(a) <==> keys8.contains(a),
  src_state(pre_heap[ixf4], usedClockVariables, this.maxConstraints.len() as int),
  forall|j: int| 0 <= j < it8 ==> clk_list(pre_heap[ixf4].next[keys8[j]], heap[ixf4].next[#[trigger] keys8[j]], usedClockVariablesVec, this.maxConstraints.len() as int), forall|j: int| it8 <= j < keys8.len() ==> heap[ixf4].next[#[trigger] keys8[j]] == pre_heap[ixf4].next[keys8[j]],
@decreases keys8.len() - it8
@before
  assert(src_state(heap[ixf4], usedClockVariables, this.maxConstraints.len() as int)) by {
    assert(heap[ixf4] == old_heap[ixf4]); assert(use_state(old_heap[rng7[it7]], usedClockVariables));
    assert forall|a: int| src_list(#[trigger] trans_of(heap[ixf4], a), usedClockVariables, this.maxConstraints.len() as int) by {
      assert(use_list(trans_of(old_heap[ixf4], a), trans_of(old_heap[ixf4], a).len() as int, usedClockVariables));
      assert forall|i: int| 0 <= i < trans_of(heap[ixf4], a).len() implies src_tr(#[trigger] trans_of(heap[ixf4], a)[i], usedClockVariables, this.maxConstraints.len() as int) by { assert(tr_ok(own(this), trans_of(old_heap[ixf4], a)[i], this.maxConstraints.len() as int)); assert(nn_resets(trans_of(old_heap[ixf4], a)[i].resetVars)); }
    }
  }
@begin
  let ghost_f = heap; let ghost_a = keys8[it8]; assert(keys8.contains(ghost_a));
@end
  assert forall|j: int| 0 <= j < keys8.len() && j != it8 - 1 implies #[trigger] heap[ixf4].next[keys8[j]] == ghost_f[ixf4].next[keys8[j]] by { assert(keys8[j] != ghost_a); }
  assert forall|j: int| 0 <= j < it8 implies clk_list(pre_heap[ixf4].next[keys8[j]], heap[ixf4].next[#[trigger] keys8[j]], usedClockVariablesVec, this.maxConstraints.len() as int) by { if j < it8 - 1 { assert(heap[ixf4].next[keys8[j]] == ghost_f[ixf4].next[keys8[j]]); } }
@exit
  assert forall|a: int| clk_list(trans_of(ghost_h[ghost_p], a), #[trigger] trans_of(heap[ghost_p], a), usedClockVariablesVec, this.maxConstraints.len() as int) by {
    if ghost_h[ghost_p].next.dom().contains(a) { assert(keys8.contains(a)); let j = choose|j: int| 0 <= j < keys8.len() && keys8[j] == a; assert(clk_list(ghost_h[ghost_p].next[keys8[j]], heap[ghost_p].next[keys8[j]], usedClockVariablesVec, this.maxConstraints.len() as int)); }
  }
@loop 9
@invariant
  0 <= it9 <= heap[ixf5].next[ixf6].len(), kren_ok(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int), heap == st_next(pre_heap, ixf5, ixf6, heap[ixf5].next[ixf6]), pre_heap.dom().contains(ixf5), pre_heap[ixf5].next.dom().contains(ixf6), heap[ixf5].next[ixf6].len() == pre_heap[ixf5].next[ixf6].len(),
  src_list(pre_heap[ixf5].next[ixf6], usedClockVariables, this.maxConstraints.len() as int),
  forall|k: int| 0 <= k < it9 ==> clk_tr(pre_heap[ixf5].next[ixf6][k], #[trigger] heap[ixf5].next[ixf6][k], usedClockVariablesVec, this.maxConstraints.len() as int), forall|k: int| it9 <= k < heap[ixf5].next[ixf6].len() ==> #[trigger] heap[ixf5].next[ixf6][k] == pre_heap[ixf5].next[ixf6][k],
@decreases heap[ixf5].next[ixf6].len() - it9
@before
  assert(heap =~= st_next(heap, ixf5, ixf6, heap[ixf5].next[ixf6])) by { assert(heap[ixf5].next =~= heap[ixf5].next.insert(ixf6, heap[ixf5].next[ixf6])); }
  assert(src_list(trans_of(heap[ixf5], ixf6), usedClockVariables, this.maxConstraints.len() as int)) by { assert(heap[ixf5].next[ixf6] == ghost_f[ixf4].next[ghost_a]); assert(src_list(trans_of(pre_heap[ixf4], ghost_a), usedClockVariables, this.maxConstraints.len() as int)); }
@begin
  let ghost_g = heap; let ghost_t = heap[ixf5].next[ixf6][it9]; let ghost_l = heap[ixf5].next[ixf6]; assert(src_tr(pre_heap[ixf5].next[ixf6][it9], usedClockVariables, this.maxConstraints.len() as int));
@end
  let L = heap[ixf5].next[ixf6]; let t = L[it9 - 1];
  assert(heap == upd_tr(ghost_g, ixf5, ixf6, it9 - 1, t));
  assert(L == ghost_l.update(it9 - 1, t));
  lem_st_next(pre_heap, ixf5, ixf6, ghost_l, L);
  assert(clk_tr(ghost_t, t, usedClockVariablesVec, this.maxConstraints.len() as int));
@exit
  assert(clk_list(ghost_f[ixf4].next[ghost_a], heap[ixf4].next[ghost_a], usedClockVariablesVec, this.maxConstraints.len() as int));
@loop 10
@invariant
  0 <= it10 <= heap[ixf7].next[ixf8][ixf9].guard.len(), kren_ok(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int), pre_heap.dom().contains(ixf7), pre_heap[ixf7].next.dom().contains(ixf8), 0 <= ixf9 < pre_heap[ixf7].next[ixf8].len(),
  heap == upd_tr(pre_heap, ixf7, ixf8, ixf9, heap[ixf7].next[ixf8][ixf9]), heap[ixf7].next[ixf8][ixf9].target == pre_heap[ixf7].next[ixf8][ixf9].target, heap[ixf7].next[ixf8][ixf9].resetVars == pre_heap[ixf7].next[ixf8][ixf9].resetVars,
  heap[ixf7].next[ixf8][ixf9].guard.len() == pre_heap[ixf7].next[ixf8][ixf9].guard.len(), use_g(pre_heap[ixf7].next[ixf8][ixf9].guard, pre_heap[ixf7].next[ixf8][ixf9].guard.len() as int, usedClockVariables),
  forall|k: int| 0 <= k < it10 ==> cg(pre_heap[ixf7].next[ixf8][ixf9].guard[k], #[trigger] heap[ixf7].next[ixf8][ixf9].guard[k], usedClockVariablesVec),
  forall|k: int| it10 <= k < heap[ixf7].next[ixf8][ixf9].guard.len() ==> #[trigger] heap[ixf7].next[ixf8][ixf9].guard[k] == pre_heap[ixf7].next[ixf8][ixf9].guard[k],
@decreases heap[ixf7].next[ixf8][ixf9].guard.len() - it10
@before
  assert(heap =~= upd_tr(heap, ixf7, ixf8, ixf9, heap[ixf7].next[ixf8][ixf9])) by { assert(heap[ixf7].next[ixf8] =~= heap[ixf7].next[ixf8].update(ixf9, heap[ixf7].next[ixf8][ixf9])); assert(heap[ixf7].next =~= heap[ixf7].next.insert(ixf8, heap[ixf7].next[ixf8])); }
@begin
  let ghost_q = heap; let ghost_c = heap[ixf7].next[ixf8][ixf9]; assert(ghost_c.guard[it10] == pre_heap[ixf7].next[ixf8][ixf9].guard[it10]); assert(usedClockVariables.contains(ghost_c.guard[it10].x)); lem_ren(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int, ghost_c.guard[it10].x);
@end
  let c = heap[ixf7].next[ixf8][ixf9];
  assert(heap == upd_tr(ghost_q, ixf7, ixf8, ixf9, c)); lem_upd_tr(pre_heap, ixf7, ixf8, ixf9, ghost_c, c);
@exit
  let ghost_b = heap; let ghost_d = heap[ixf5].next[ixf6][it9];
@loop 11
@invariant
  kren_ok(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int), pre_heap.dom().contains(ixf5), pre_heap[ixf5].next.dom().contains(ixf6), 0 <= it9 < pre_heap[ixf5].next[ixf6].len(),
  heap == upd_tr(pre_heap, ixf5, ixf6, it9, heap[ixf5].next[ixf6][it9]), heap[ixf5].next[ixf6][it9].target == pre_heap[ixf5].next[ixf6][it9].target, heap[ixf5].next[ixf6][it9].guard == pre_heap[ixf5].next[ixf6][it9].guard,
  use_r(pre_heap[ixf5].next[ixf6][it9].resetVars, pre_heap[ixf5].next[ixf6][it9].resetVars.len() as int, usedClockVariables), half_ren(pre_heap[ixf5].next[ixf6][it9].resetVars, heap[ixf5].next[ixf6][it9].resetVars, it, usedClockVariables, clockRenaming),
@decreases heap[ixf5].next[ixf6][it9].resetVars.len() - it
@before
  assert(heap =~= upd_tr(heap, ixf5, ixf6, it9, heap[ixf5].next[ixf6][it9])) by { assert(heap[ixf5].next[ixf6] =~= heap[ixf5].next[ixf6].update(it9, heap[ixf5].next[ixf6][it9])); assert(heap[ixf5].next =~= heap[ixf5].next.insert(ixf6, heap[ixf5].next[ixf6])); }
  assert(ghost_d.resetVars.take(0) =~= Seq::<Pair<int, VarDC>>::empty());
@begin
  let ghost_q = heap; let ghost_c = heap[ixf5].next[ixf6][it9]; let ghost_i = it;
  if it < ghost_c.resetVars.len() {
    let r0 = pre_heap[ixf5].next[ixf6][it9].resetVars; let m = r0.len() - ghost_c.resetVars.len() + it; assert(ghost_c.resetVars[it] == r0[m]); assert(src_in(r0[m].second, usedClockVariables));
    if usedClockVariables.contains(r0[m].first) { lem_ren(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int, r0[m].first); lem_half_keep(r0, ghost_c.resetVars, it, usedClockVariables, clockRenaming); } else { lem_half_drop(r0, ghost_c.resetVars, it, usedClockVariables, clockRenaming); }
    match r0[m].second { VarDC::Clk(c) => { lem_ren(clockRenaming, usedClockVariablesVec, usedClockVariables, this.maxConstraints.len() as int, c); } _ => {} }
  }
@anchor_after heap#2
  assert(heap == upd_tr(ghost_q, ixf5, ixf6, it9, heap[ixf5].next[ixf6][it9]));
@anchor_after heap#3
  let ghost_t1 = heap[ixf5].next[ixf6][it9]; assert(heap == upd_tr(ghost_q, ixf5, ixf6, it9, ghost_t1));
@anchor_after heap#4
  let ghost_t2 = heap[ixf5].next[ixf6][it9]; lem_upd_tr(ghost_q, ixf5, ixf6, it9, ghost_t1, ghost_t2); assert(heap == upd_tr(upd_tr(ghost_q, ixf5, ixf6, it9, ghost_t1), ixf5, ixf6, it9, ghost_t2));
@end
  let c = heap[ixf5].next[ixf6][it9];
  assert(heap == upd_tr(ghost_q, ixf5, ixf6, it9, c)); lem_upd_tr(pre_heap, ixf5, ixf6, it9, ghost_c, c);
  if it == ghost_i { assert(c.resetVars =~= ghost_c.resetVars.remove(ghost_i)); } else { assert(c.resetVars =~= ghost_c.resetVars.update(ghost_i, rr1(ghost_c.resetVars[ghost_i], clockRenaming))); }
@exit
  let r0 = ghost_d.resetVars; let t = heap[ixf5].next[ixf6][it9];
  assert(t.resetVars.take(t.resetVars.len() as int) =~= t.resetVars); lem_ren_resets(r0, r0.len() as int, usedClockVariables, clockRenaming, usedClockVariablesVec, this.maxConstraints.len() as int);
  lem_upd_tr(ghost_g, ixf5, ixf6, it9, ghost_d, t);
  assert(clk_tr(ghost_t, t, usedClockVariablesVec, this.maxConstraints.len() as int)) by {
    assert(clk_guard(ghost_t.guard, t.guard, usedClockVariablesVec)) by { assert forall|k: int| 0 <= k < t.guard.len() implies cg(ghost_t.guard[k], #[trigger] t.guard[k], usedClockVariablesVec) by { assert(cg(ghost_t.guard[k], ghost_d.guard[k], usedClockVariablesVec)); } }
    assert(clk_resets(ghost_t.resetVars, t.resetVars, usedClockVariablesVec, this.maxConstraints.len() as int));
  }
@loop 12
@invariant
  0 <= i <= usedClockVariablesVec.len() <= this.maxConstraints.len(), this.maxConstraints.len() == pre_this.maxConstraints.len(), this.base == pre_this.base, clk_emb(usedClockVariablesVec, this.maxConstraints.len() as int),
@decreases usedClockVariablesVec.len() - i
@return
  let e = usedClockVariablesVec; let n = old_this.maxConstraints.len() as int;
  assert forall|p: int| #[trigger] own(this).contains(p) implies own(old_this).contains(p) && heap.dom().contains(p) && clk_st(old_heap[p], heap[p], e, n) by { let j = choose|j: int| 0 <= j < rng7.len() && rng7[j] == p; assert(clk_st(old_heap[rng7[j]], heap[rng7[j]], e, n)); }
  assert forall|p: int, a: int, i: int| #![trigger trans_of(old_heap[p], a)[i]] own(this).contains(p) && 0 <= i < trans_of(old_heap[p], a).len() implies own(this).contains(trans_of(old_heap[p], a)[i].target) by { assert(tr_ok(own(old_this), trans_of(old_heap[p], a)[i], n)); }
  assert(clk_ta(old_heap, old_this, heap, this, e)); lem_clk_accepts(old_heap, old_this, heap, this, e);

@fn TimedAutomaton::simplify as ta_simplify()
@heap TAState
@requires
  usable(heap, this), this.base.states.no_duplicates(), this.maxConstraints.len() <= 256,
@ensures
  usable(heap1, this1), same_lang(heap, this, heap1, this1), r == this1,
@fn TimedAutomaton::simplifyStrong as ta_simplify_strong()
@heap TAState
@requires
  usable(heap, this), this.base.states.no_duplicates(), this.maxConstraints.len() <= 256,
@ensures
  usable(heap1, this1), same_lang(heap, this, heap1, this1), r == this1,
