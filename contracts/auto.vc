// include/timed_automaton.hh: copying, completing and complementing automata
@fn TimedAutomaton::deepCopy as ta_copy(dest, old2new)
@heap TAState
@requires
  ta_ok(heap, own(this), this.maxConstraints.len() as int), this.base.states.no_duplicates(),
  forall|i: int| 0 <= i < this.base.initialStates.len() ==> this.base.states.contains(#[trigger] this.base.initialStates[i]),
  dest.base.states.len() == 0, dest.base.initialStates.len() == 0, old2new.dom() =~= Set::empty(),
@ensures
  copied(heap, this, heap1, dest1, old2new1),
@loop 1
@invariant
  rng1.no_duplicates(), 0 <= it1 <= rng1.len(), renames(rng1, dest.base.states, old2new, it1), dest.base.states.no_duplicates(), dest.base.initialStates == pre_dest.base.initialStates,
  forall|i: int| 0 <= i < rng1.len() ==> pre_heap.dom().contains(#[trigger] rng1[i]),
  forall|i: int| 0 <= i < it1 ==> !pre_heap.dom().contains(#[trigger] dest.base.states[i]) && dest.base.states[i] != 0 && heap.dom().contains(dest.base.states[i]) && heap[dest.base.states[i]] == pre_heap[rng1[i]],
  forall|p: int| heap.dom().contains(p) <==> #[trigger] pre_heap.dom().contains(p) || dest.base.states.contains(p),
  forall|p: int| #[trigger] pre_heap.dom().contains(p) ==> heap[p] == pre_heap[p],
@decreases rng1.len() - it1
@begin
  let ghost_m = old2new; let ghost_d = dest; let ghost_h = heap;
@end
  let b = dest.base.states.last();
  lem_renames_step(rng1, ghost_d.base.states, ghost_m, it1 - 1, b);
  assert(old2new =~= ghost_m.insert(rng1[it1 - 1], b));
  assert(dest.base.states =~= ghost_d.base.states.push(b));
  assert(!ghost_h.dom().contains(b));
  assert(!pre_heap.dom().contains(b));
  assert forall|i: int| 0 <= i < it1 - 1 implies #[trigger] dest.base.states[i] != b by { assert(ghost_h.dom().contains(ghost_d.base.states[i])); }
  assert forall|p: int| heap.dom().contains(p) <==> #[trigger] pre_heap.dom().contains(p) || dest.base.states.contains(p) by {
    if p == b { assert(dest.base.states[it1 - 1] == p); }
    if ghost_d.base.states.contains(p) { let i = choose|i: int| 0 <= i < ghost_d.base.states.len() && ghost_d.base.states[i] == p; assert(dest.base.states[i] == p); }
    if dest.base.states.contains(p) && p != b { let i = choose|i: int| 0 <= i < dest.base.states.len() && dest.base.states[i] == p; assert(ghost_d.base.states[i] == p); }
    let z = pre_heap.dom().contains(p); assert(ghost_h.dom().contains(p) <==> z || ghost_d.base.states.contains(p));
  }
@before
  assert forall|i: int| 0 <= i < this.base.states.len() implies heap.dom().contains(#[trigger] this.base.states[i]) by { assert(own(this).contains(this.base.states[i])); }
@exit
  let ghost_g = heap;
  assert forall|i: int| 0 <= i < dest.base.states.len() implies tgt_in(heap[#[trigger] dest.base.states[i]], old2new.dom()) by {
    let s = heap[dest.base.states[i]]; let p = this.base.states[i]; assert(own(this).contains(p));
    assert forall|a: int, k: int| #![trigger s.next[a][k]] s.next.dom().contains(a) && 0 <= k < s.next[a].len() implies old2new.dom().contains(s.next[a][k].target) by {
      assert(tr_ok(own(this), trans_of(old_heap[p], a)[k], this.maxConstraints.len() as int)); lem_renames_in(this.base.states, dest.base.states, old2new, s.next[a][k].target);
    }
  }
  assert forall|i: int| 0 <= i < this.base.initialStates.len() implies old2new.dom().contains(#[trigger] this.base.initialStates[i]) by { lem_renames_in(this.base.states, dest.base.states, old2new, this.base.initialStates[i]); }
@loop 2
@invariant
  0 <= it2 <= rng2.len(), old2new == pre_old2new, dest.base.states == pre_dest.base.states, dest.base.initialStates.len() == it2,
  forall|i: int| 0 <= i < rng2.len() ==> old2new.dom().contains(#[trigger] rng2[i]),
  forall|i: int| 0 <= i < it2 ==> #[trigger] dest.base.initialStates[i] == old2new[rng2[i]],
@decreases rng2.len() - it2
@loop 3
@invariant
  0 <= it3 <= dest.base.states.len(), dest.base.states.no_duplicates(), old2new == pre_old2new, heap.dom() =~= pre_heap.dom(),
  forall|i: int| 0 <= i < dest.base.states.len() ==> heap.dom().contains(#[trigger] dest.base.states[i]) && tgt_in(pre_heap[dest.base.states[i]], old2new.dom()),
  forall|i: int| 0 <= i < it3 ==> is_copy(pre_heap[#[trigger] dest.base.states[i]], heap[dest.base.states[i]], old2new),
  forall|i: int| it3 <= i < dest.base.states.len() ==> heap[#[trigger] dest.base.states[i]] == pre_heap[dest.base.states[i]],
  forall|p: int| heap.dom().contains(p) && !dest.base.states.contains(p) ==> #[trigger] heap[p] == pre_heap[p],
@decreases dest.base.states.len() - it3
@begin
  let ghost_h = heap;
@end
  let q = dest.base.states[it3 - 1];
  assert(dest.base.states.contains(q));
  assert(ghost_h[q] == pre_heap[q]);
  assert(heap[q].next.dom() =~= pre_heap[q].next.dom());
  assert(is_copy(pre_heap[q], heap[q], old2new));
  assert forall|i: int| 0 <= i < dest.base.states.len() && i != it3 - 1 implies heap[#[trigger] dest.base.states[i]] == ghost_h[dest.base.states[i]] by { assert(dest.base.states[i] != q); }
@loop 4
@invariant
  0 <= it4 <= keys4.len(), keys4.no_duplicates(), forall|a: int| #[trigger] keys4.contains(a) <==> pre_heap[ixf1].next.dom().contains(a),
  old2new == pre_old2new, heap.dom() =~= pre_heap.dom(), heap.dom().contains(ixf1), tgt_in(pre_heap[ixf1], old2new.dom()),
  forall|p: int| p != ixf1 ==> #[trigger] heap[p] == pre_heap[p],
  heap[ixf1].isMatch == pre_heap[ixf1].isMatch, heap[ixf1].next.dom() =~= pre_heap[ixf1].next.dom(),
  forall|j: int| 0 <= j < it4 ==> heap[ixf1].next[#[trigger] keys4[j]] =~= map_list(pre_heap[ixf1].next[keys4[j]], old2new),
  forall|j: int| it4 <= j < keys4.len() ==> heap[ixf1].next[#[trigger] keys4[j]] == pre_heap[ixf1].next[keys4[j]],
@decreases keys4.len() - it4
@begin
  let ghost_h = heap;
  assert(keys4.contains(keys4[it4]));
@end
  let q = keys4[it4 - 1];
  assert(heap[ixf1].next[q] =~= map_list(pre_heap[ixf1].next[q], old2new));
  assert forall|j: int| 0 <= j < keys4.len() && j != it4 - 1 implies heap[ixf1].next[#[trigger] keys4[j]] == ghost_h[ixf1].next[keys4[j]] by { assert(keys4[j] != q); }
@exit
  assert forall|a: int| #[trigger] pre4_heap[ixf1].next.dom().contains(a) implies heap[ixf1].next[a] =~= map_list(pre4_heap[ixf1].next[a], old2new) by {
    assert(keys4.contains(a)); let j = choose|j: int| 0 <= j < keys4.len() && keys4[j] == a; assert(heap[ixf1].next[keys4[j]] =~= map_list(pre4_heap[ixf1].next[a], old2new));
  }
@loop 5
@invariant
  0 <= it5 <= heap[ixf2].next[ixf3].len(), old2new == pre_old2new, heap.dom() =~= pre_heap.dom(), heap.dom().contains(ixf2), tgt_in2(pre_heap[ixf2], ixf3, old2new.dom()),
  forall|p: int| p != ixf2 ==> #[trigger] heap[p] == pre_heap[p],
  heap[ixf2].isMatch == pre_heap[ixf2].isMatch, heap[ixf2].next.dom() =~= pre_heap[ixf2].next.dom(), heap[ixf2].next.dom().contains(ixf3),
  forall|a: int| a != ixf3 ==> #[trigger] heap[ixf2].next[a] == pre_heap[ixf2].next[a],
  heap[ixf2].next[ixf3].len() == pre_heap[ixf2].next[ixf3].len(),
  forall|k: int| 0 <= k < it5 ==> #[trigger] heap[ixf2].next[ixf3][k] == map_tr(pre_heap[ixf2].next[ixf3][k], old2new),
  forall|k: int| it5 <= k < pre_heap[ixf2].next[ixf3].len() ==> #[trigger] heap[ixf2].next[ixf3][k] == pre_heap[ixf2].next[ixf3][k],
@decreases heap[ixf2].next[ixf3].len() - it5
@begin
  assert(old2new.dom().contains(pre_heap[ixf2].next[ixf3][it5].target));
@endloop

@fn TimedAutomaton::makeComplete as ta_complete(alphabet)
@heap TAState
@requires
  ta_ok(heap, own(this), this.maxConstraints.len() as int), no_silent_trans(heap, own(this)), gok_ta(heap, own(this)),
  this.base.states.no_duplicates(), alphabet.no_duplicates(), !alphabet.contains(0),
@ensures
  made_complete(heap, this, heap1, this1, alphabet),
  // completing does not change the accepted words
  usable(heap, this) ==> forall|tw: TimedWord| #![trigger accepts(heap1, this1, tw)] tw_nn(tw) ==> accepts(heap1, this1, tw) == accepts(heap, this, tw),
  // and every valuation has an enabled transition for every letter
  forall|p: int| #[trigger] own(this1).contains(p) ==> heap1.dom().contains(p) && complete_state(heap1[p], alphabet, this1.maxConstraints.len() as int),
@loop 1
@invariant
  rng1 == this.base.states, 0 <= it1 <= rng1.len(), rng1.len() > 0, rng1.no_duplicates(), alphabet.no_duplicates(), !alphabet.contains(0),
  heap.dom() =~= pre_heap.dom(),
  forall|p: int| #[trigger] rng1.contains(p) ==> heap.dom().contains(p) && gok_state(pre_heap[p]) && clk_state(pre_heap[p], this.maxConstraints.len() as int) && trans_of(pre_heap[p], 0).len() == 0,
  forall|i: int| 0 <= i < it1 ==> filled_upto(pre_heap[#[trigger] rng1[i]], heap[rng1[i]], alphabet, alphabet.len() as int, rng1.last(), this.maxConstraints.len() as int),
  forall|i: int| it1 <= i < rng1.len() ==> heap[#[trigger] rng1[i]] == pre_heap[rng1[i]],
  forall|p: int| heap.dom().contains(p) && !rng1.contains(p) ==> #[trigger] heap[p] == pre_heap[p],
@decreases rng1.len() - it1
@begin
  assert(rng1.contains(rng1[it1]));
  assert(trans_of(heap[rng1[it1]], 0).len() == 0);
@end
  assert(forall|i: int| 0 <= i < rng1.len() && i != it1 - 1 ==> #[trigger] rng1[i] != state);
  assert(alphabet.take(alphabet.len() as int) =~= alphabet);
@before
  let ghost_n = this.maxConstraints.len() as int; let new_2 = this.base.states.last();
  assert(this.base.states =~= old_this.base.states.push(new_2));
  assert(own(this).contains(new_2)) by { assert(this.base.states[old_this.base.states.len() as int] == new_2); }
  assert forall|i: int| 0 <= i < old_this.base.states.len() implies #[trigger] this.base.states[i] != new_2 && old_heap.dom().contains(this.base.states[i]) && heap[this.base.states[i]] == old_heap[this.base.states[i]] by { assert(own(old_this).contains(old_this.base.states[i])); assert(old_heap.dom().contains(old_this.base.states[i])); }
  assert(this.base.states.no_duplicates());
  assert forall|p: int| #[trigger] this.base.states.contains(p) implies heap.dom().contains(p) && gok_state(heap[p]) && clk_state(heap[p], ghost_n) && trans_of(heap[p], 0).len() == 0 by {
    if p != new_2 {
      let i = choose|i: int| 0 <= i < this.base.states.len() && this.base.states[i] == p; assert(old_this.base.states[i] == p); assert(own(old_this).contains(p)); assert(heap[p] == old_heap[p]); assert(gok_state(old_heap[p]));
      assert forall|a: int, k: int| #![trigger trans_of(heap[p], a)[k]] 0 <= k < trans_of(heap[p], a).len() implies ga_clk(trans_of(heap[p], a)[k].guard, ghost_n) by { assert(tr_ok(own(old_this), trans_of(old_heap[p], a)[k], ghost_n)); }
    } else { assert(heap[p].next =~= Map::empty()); }
  }
  let ghost_g = heap; let ghost_s = new_2;
@exit
  assert forall|p: int| #[trigger] own(old_this).contains(p) implies filled_upto(old_heap[p], heap[p], alphabet, alphabet.len() as int, ghost_s, ghost_n) by {
    let i = choose|i: int| 0 <= i < old_this.base.states.len() && old_this.base.states[i] == p; assert(this.base.states[i] == p); assert(filled_upto(ghost_g[this.base.states[i]], heap[this.base.states[i]], alphabet, alphabet.len() as int, ghost_s, ghost_n));
  }
  assert(ghost_g[ghost_s] == sink0()) by { assert(ghost_g[ghost_s].next =~= Map::empty()); }
  assert(this.base.states[old_this.base.states.len() as int] == ghost_s);
  assert forall|p: int| old_heap.dom().contains(p) && !own(old_this).contains(p) implies #[trigger] heap[p] == old_heap[p] by {
    if this.base.states.contains(p) { let i = choose|i: int| 0 <= i < this.base.states.len() && this.base.states[i] == p; if i < old_this.base.states.len() { assert(old_this.base.states[i] == p); } }
    assert(ghost_g[p] == old_heap[p]);
  }
  assert(heap.dom() =~= old_heap.dom().insert(ghost_s));
  assert(this.base.initialStates =~= (if old_this.base.initialStates.len() == 0 { seq![ghost_s] } else { old_this.base.initialStates }));
  assert(this.base.states == old_this.base.states.push(ghost_s));
  assert(this.maxConstraints == old_this.maxConstraints);
  assert(filled_upto(sink0(), heap[ghost_s], alphabet, alphabet.len() as int, ghost_s, ghost_n));
  assert(made_complete(old_heap, old_this, heap, this, alphabet));
  lem_complete_own(old_heap, old_this, heap, this, alphabet);
  assert forall|p: int| #[trigger] own(this).contains(p) implies heap.dom().contains(p) by { let i = choose|i: int| 0 <= i < this.base.states.len() && this.base.states[i] == p; assert(heap.dom().contains(this.base.states[i])); }
  if usable(old_heap, old_this) {
    lem_sim_in_place(old_heap, old_this, heap, this, alphabet);
    if old_this.base.states.len() > 0 { assert(own(old_this).contains(old_this.base.initialStates[0])); }
    lem_rel0(old_this, this, idm(own(old_this)), ghost_s, false);
    assert forall|tw: TimedWord| #![trigger accepts(heap, this, tw)] tw_nn(tw) implies accepts(heap, this, tw) == accepts(old_heap, old_this, tw) by { lem_sim_accepts(old_heap, old_this, heap, this, idm(own(old_this)), ghost_s, alphabet, false, tw); }
  }
@loop 2
@invariant
  rng2.len() == 0, disjunctiveGuardOfUnobservable.len() == 0, it2 >= 0,
@decreases rng2.len() - it2
@loop 3
@invariant
  rng3 == alphabet, 0 <= it3 <= rng3.len(), rng3.no_duplicates(), disjunctiveGuardOfUnobservable.len() == 0, this.base.states.len() > 0,
  heap.dom() =~= pre_heap.dom(), heap.dom().contains(state), gok_state(pre_heap[state]), clk_state(pre_heap[state], this.maxConstraints.len() as int),
  forall|p: int| p != state ==> #[trigger] heap[p] == pre_heap[p],
  filled_upto(pre_heap[state], heap[state], rng3, it3, this.base.states.last(), this.maxConstraints.len() as int),
@decreases rng3.len() - it3
@begin
  let ghost_h = heap;
  let ghost_t = trans_of(heap[state], rng3[it3]);
  assert(!rng3.take(it3).contains(rng3[it3]));
  assert(ghost_t =~= trans_of(pre_heap[state], rng3[it3]));
  lem_tg_ok(pre_heap[state], rng3[it3], this.maxConstraints.len() as int);
@end
  let t1 = trans_of(heap[state], rng3[it3 - 1]); let sink = this.base.states.last(); let n = this.maxConstraints.len() as int;
  if ghost_t.len() == 0 { lem_filled_new(ghost_t, t1, sink, n); }
  lem_filled_step(pre_heap[state], ghost_h[state], heap[state], rng3, it3 - 1, sink, n);
@loop 4
@invariant
  rng4.len() > 0, 0 <= it4 <= rng4.len(), disjunctiveGuard =~= tg(rng4).take(it4), forall|k: int| 0 <= k < it4 ==> (#[trigger] rng4[k]).guard.len() > 0,
@break
  disjunctiveGuard.len() == 0, 0 <= it4 < rng4.len(), rng4[it4].guard.len() == 0,
@decreases rng4.len() - it4
@exit
  assert(disjunctiveGuard.len() > 0 ==> disjunctiveGuard =~= tg(rng4));
  if disjunctiveGuard.len() == 0 { lem_filled_same(rng4, rng4, it4, this.base.states.last(), this.maxConstraints.len() as int); }
@loop 5
@invariant
  rng5 == complementGuards, 0 <= it5 <= rng5.len(), this.base.states.len() > 0, heap.dom() =~= pre_heap.dom(), heap.dom().contains(state),
  forall|p: int| p != state ==> #[trigger] heap[p] == pre_heap[p],
  heap[state].isMatch == pre_heap[state].isMatch, heap[state].next.dom() =~= pre_heap[state].next.dom(), heap[state].next.dom().contains(action),
  forall|a: int| a != action ==> #[trigger] heap[state].next[a] == pre_heap[state].next[a],
  ext_by(pre_heap[state].next[action], heap[state].next[action], rng5.take(it5), this.base.states.last()),
@decreases rng5.len() - it5
@exit
  assert(rng5.take(rng5.len() as int) =~= rng5);
  lem_filled_neg(ghost_t, heap[state].next[action], rng5, this.base.states.last(), this.maxConstraints.len() as int);
@endloop

@fn TimedAutomaton::complement as ta_complement(alphabet)
@heap TAState
@requires
  usable(heap, this), gok_ta(heap, own(this)), this.base.states.no_duplicates(),
  alphabet.no_duplicates(), !alphabet.contains(0),
@ensures
  // complement: a word over the alphabet is accepted iff the original automaton rejects it
  forall|tw: TimedWord| #![trigger accepts(heap1, r, tw)] tw_over(tw, alphabet) ==> accepts(heap1, r, tw) == !accepts(heap, this, tw),
  // the original automaton is left as it was
  forall|p: int| #[trigger] heap.dom().contains(p) ==> heap1.dom().contains(p) && heap1[p] == heap[p],
  // the result is complete over the alphabet
  forall|p: int| #[trigger] own(r).contains(p) ==> heap1.dom().contains(p) && complete_state(heap1[p], alphabet, r.maxConstraints.len() as int),
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1.no_duplicates(), heap.dom() =~= pre_heap.dom(),
  forall|i: int| 0 <= i < rng1.len() ==> heap.dom().contains(#[trigger] rng1[i]),
  forall|i: int| 0 <= i < it1 ==> heap[#[trigger] rng1[i]] == flipped(pre_heap[rng1[i]]),
  forall|i: int| it1 <= i < rng1.len() ==> heap[#[trigger] rng1[i]] == pre_heap[rng1[i]],
  forall|p: int| heap.dom().contains(p) && !rng1.contains(p) ==> #[trigger] heap[p] == pre_heap[p],
@decreases rng1.len() - it1
@before
  let ghost_f = heap;
  assert(rng1.no_duplicates()) by { lem_complete_own(ghost_g, ghost_c, heap, result, alphabet); }
  assert forall|i: int| 0 <= i < rng1.len() implies heap.dom().contains(#[trigger] rng1[i]) by { lem_complete_own(ghost_g, ghost_c, heap, result, alphabet); }
@begin
  let ghost_h = heap;
@end
  assert(rng1.contains(rng1[it1 - 1]));
  assert forall|i: int| 0 <= i < rng1.len() && i != it1 - 1 implies heap[#[trigger] rng1[i]] == ghost_h[rng1[i]] by { assert(rng1[i] != rng1[it1 - 1]); }
@exit
  lem_sim_compose(old_heap, old_this, ghost_g, ghost_c, old2new, ghost_f, result, heap, alphabet, true);
  let ghost_sink = result.base.states.last();
  assert(conf0(result) == Conf::At(result.base.initialStates[0], zeros(result.maxConstraints.len() as int)));
  lem_rel0(old_this, result, old2new, ghost_sink, true);
  assert forall|tw: TimedWord| #![trigger accepts(heap, result, tw)] tw_over(tw, alphabet) implies accepts(heap, result, tw) == !accepts(old_heap, old_this, tw) by {
    lem_sim_accepts(old_heap, old_this, heap, result, old2new, ghost_sink, alphabet, true, tw);
  }
  lem_complete_own(ghost_g, ghost_c, ghost_f, result, alphabet);
  assert forall|p: int| #[trigger] old_heap.dom().contains(p) implies heap.dom().contains(p) && heap[p] == old_heap[p] by {
    assert(ghost_g.dom().contains(p)); assert(ghost_g[p] == old_heap[p]);
    if own(ghost_c).contains(p) { let i = choose|i: int| 0 <= i < ghost_c.base.states.len() && ghost_c.base.states[i] == p; assert(!old_heap.dom().contains(ghost_c.base.states[i])); }
    assert(ghost_f[p] == ghost_g[p]);
    if result.base.states.contains(p) { let i = choose|i: int| 0 <= i < result.base.states.len() && result.base.states[i] == p; if i < ghost_c.base.states.len() { assert(ghost_c.base.states[i] == p); assert(own(ghost_c).contains(p)); } }
  }
  assert forall|p: int| #[trigger] own(result).contains(p) implies heap.dom().contains(p) && complete_state(heap[p], alphabet, result.maxConstraints.len() as int) by {
    let i = choose|i: int| 0 <= i < result.base.states.len() && result.base.states[i] == p; assert(heap[result.base.states[i]] == flipped(ghost_f[result.base.states[i]]));
    assert(complete_state(ghost_f[p], alphabet, result.maxConstraints.len() as int));
    assert forall|j: int, v: Seq<D>| 0 <= j < alphabet.len() && v.len() == result.maxConstraints.len() && nn_vals(v) implies !#[trigger] stuck(heap[p], alphabet[j], v) by { lem_en_same(ghost_f[p], heap[p], alphabet[j]); assert(!stuck(ghost_f[p], alphabet[j], v)); }
  }
@anchor_after heap#1
  let ghost_g = heap; let ghost_c = result;
  lem_copy_ok(old_heap, old_this, heap, result, old2new);
@endloop

@fn intersectionTA as ta_product(in1, in2, prod, toIState)
@heap TAState
@requires
  usable(heap, in1), usable(heap, in2), in1.base.states.no_duplicates(), in2.base.states.no_duplicates(),
  prod.base.states.len() == 0, prod.maxConstraints.len() == 0, toIState.dom() =~= Set::empty(),
@ensures
  same_old(heap, heap1), produced(heap, in1, in2, heap1, prod1, toIState1),
  forall|tw: TimedWord| #[trigger] accepts(heap1, prod1, tw) == (accepts(heap, in1, tw) && accepts(heap, in2, tw)),
@return
  assert forall|tw: TimedWord| #[trigger] accepts(heap, prod, tw) == (accepts(old_heap, in1, tw) && accepts(old_heap, in2, tw)) by { lem_prod_accepts(old_heap, in1, in2, heap, prod, toIState, tw); }
@loop 1
@invariant
  0 <= it1 <= rng1.len(), rng1 == in1.base.states, usable(old_heap, in1), usable(old_heap, in2), in1.base.states.no_duplicates(), in2.base.states.no_duplicates(), pairs_made(old_heap, rng1, in2.base.states, it1, 0, heap, toIState, prod.base.states), prod.maxConstraints.len() == 0,
@decreases rng1.len() - it1
@end
  lem_pairs_row(old_heap, rng1, in2.base.states, it1 - 1, in2.base.states.len() as int, heap, toIState, prod.base.states);
@exit
  lem_paired(old_heap, in1.base.states, in2.base.states, in1.base.states.len() as int, heap, toIState, prod.base.states);
  lem_cells_n(old_heap, in1.base.states, in2.base.states, heap, toIState, in1.maxConstraints.len() as int);
@loop 2
@invariant
  0 <= it2 <= rng2.len(), rng2 == in2.base.states, usable(old_heap, in1), usable(old_heap, in2), in1.base.states.no_duplicates(), in2.base.states.no_duplicates(), pairs_made(old_heap, in1.base.states, rng2, it1, it2, heap, toIState, prod.base.states), prod.maxConstraints.len() == 0, 0 <= it1 < in1.base.states.len(), s1 == in1.base.states[it1],
@decreases rng2.len() - it2
@begin
  let ghost_m = toIState; let ghost_h = heap; let ghost_s = prod.base.states;
  assert(own(in1).contains(s1)); assert(own(in2).contains(rng2[it2])); assert(old_heap.dom().contains(s1)); assert(old_heap.dom().contains(rng2[it2]));
@end
  let s = prod.base.states.last();
  assert(toIState =~= ghost_m.insert(pk(s1, rng2[it2 - 1]), s)); assert(prod.base.states =~= ghost_s.push(s));
  assert(new_pair(old_heap[s1], old_heap[rng2[it2 - 1]], heap[s]));
  assert(heap =~= ghost_h.insert(s, heap[s]));
  lem_pairs_step(old_heap, in1.base.states, rng2, it1, it2 - 1, ghost_h, ghost_m, ghost_s, s, heap);
@loop 3
@invariant
  0 <= it3 <= rng3.len(), rng3 == in1.base.initialStates, toIState == pre_toIState, prod.base.states == pre_prod.base.states, prod.maxConstraints.len() == 0, prod_ctx(old_heap, in1, in2, toIState),
  it3 > 0 && in2.base.initialStates.len() > 0 ==> prod.base.initialStates.len() > 0 && prod.base.initialStates[0] == toIState[pk(rng3[0], in2.base.initialStates[0])],
  it3 == 0 ==> prod.base.initialStates.len() == 0,
@decreases rng3.len() - it3
@loop 4
@invariant
  0 <= it4 <= rng4.len(), rng4 == in2.base.initialStates, toIState == pre_toIState, prod.base.states == pre_prod.base.states, prod.maxConstraints.len() == 0, prod_ctx(old_heap, in1, in2, toIState),
  0 <= it3 < rng3.len(), rng3 == in1.base.initialStates, s1 == rng3[it3],
  it3 > 0 && rng4.len() > 0 ==> prod.base.initialStates.len() > 0 && prod.base.initialStates[0] == toIState[pk(rng3[0], rng4[0])],
  it3 == 0 && it4 > 0 ==> prod.base.initialStates.len() > 0 && prod.base.initialStates[0] == toIState[pk(rng3[0], rng4[0])],
  it3 == 0 && it4 == 0 ==> prod.base.initialStates.len() == 0,
@decreases rng4.len() - it4
@begin
  let ghost_m = toIState;
  assert(own(in1).contains(in1.base.initialStates[0])); assert(own(in2).contains(in2.base.initialStates[0]));
  assert(toIState.dom().contains(pk(s1, rng4[it4])));
@end
  assert(toIState =~= ghost_m);
@loop 5
@invariant
  0 <= it5 <= rng5.len(), rng5 == in1.base.states, toIState == pre_toIState, prod_ctx(old_heap, in1, in2, toIState), same_cells(old_heap, rng5, in2.base.states, it5, 0, heap, toIState, in1.maxConstraints.len() as int),
@decreases rng5.len() - it5
@end
  lem_cells_row(old_heap, rng5, in2.base.states, it5 - 1, in2.base.states.len() as int, heap, toIState, in1.maxConstraints.len() as int);
@exit
  lem_cells_done(old_heap, in1.base.states, in2.base.states, in1.base.states.len() as int, 0, heap, toIState, in1.maxConstraints.len() as int);
@loop 6
@invariant
  0 <= it6 <= rng6.len(), rng6 == in2.base.states, toIState == pre_toIState, prod_ctx(old_heap, in1, in2, toIState), 0 <= it5 < in1.base.states.len(), s1 == in1.base.states[it5], same_cells(old_heap, in1.base.states, rng6, it5, it6, heap, toIState, in1.maxConstraints.len() as int),
@decreases rng6.len() - it6
@begin
  let ghost_h = heap; let ghost_k = pk(in1.base.states[it5], in2.base.states[it6]);
  assert(own(in1).contains(s1)); assert(own(in2).contains(rng6[it6])); assert(old_heap.dom().contains(s1)); assert(old_heap.dom().contains(rng6[it6]));
  assert(trans_of(heap[s1], 0) =~= trans_of(old_heap[s1], 0)); assert(trans_of(heap[rng6[it6]], 0) =~= trans_of(old_heap[rng6[it6]], 0));
  assert(toIState.dom().contains(ghost_k)); assert(pcell_ok(old_heap, in1.base.states, rng6, it5, it6, heap, toIState, in1.maxConstraints.len() as int, it5, it6));
@end
  assert(same_old(old_heap, heap));
  assert(is_prod(old_heap[s1], old_heap[rng6[it6 - 1]], heap[toIState[ghost_k]], toIState, in1.maxConstraints.len() as int));
  lem_cells_step(old_heap, in1.base.states, rng6, it5, it6 - 1, ghost_h, heap, toIState, in1.maxConstraints.len() as int);
@loop 7
@invariant
  0 <= it7, rng7.len() == 0, toIState == pre_toIState, heap == pre_heap,
@decreases rng7.len() - it7
@exit
  lem_old_key(old_heap, ghost_h, heap, s1); let ghost_f = heap;
  assert(trans_of(heap[s2], 0) =~= trans_of(old_heap[s2], 0));
@loop 8
@invariant
  0 <= it8, rng8.len() == 0, toIState == pre_toIState, heap == pre_heap,
@decreases rng8.len() - it8
@exit
  lem_old_key(old_heap, ghost_f, heap, s2);
  let ghost_g = heap;
  assert(heap[toIState[ghost_k]] == ghost_h[toIState[ghost_k]]);
  assert forall|a: int| !done_key(Seq::<int>::empty(), 0, a) by { }
@loop 9
@invariant
  0 <= it1 <= mkeys1.len(), mkeys1.no_duplicates(), toIState == pre_toIState, prod_ctx(old_heap, in1, in2, toIState), same_old(old_heap, heap), own(in1).contains(s1), own(in2).contains(s2),
  mkeys1.to_set() =~= pre_heap[s1].next.dom(), s1 == ixf3,
  pair_upto(old_heap, s1, s2, pre_heap, heap, toIState[pk(s1, s2)], toIState, in1.maxConstraints.len() as int, mkeys1, it1),
@decreases mkeys1.len() - it1
@begin
  let ghost_h = heap; assert(toIState.dom().contains(pk(s1, s2))); assert(old_heap.dom().contains(s1)); assert(old_heap.dom().contains(s2));
  assert(it1 < mkeys1.len() ==> trans_of(heap[s1], mkeys1[it1]) =~= trans_of(old_heap[s1], mkeys1[it1]));
@end
  lem_pair_step(old_heap, s1, s2, pre_heap, ghost_h, heap, toIState[pk(s1, s2)], toIState, in1.maxConstraints.len() as int, mkeys1, it1 - 1);
@exit
  assert forall|a: int| #[trigger] trans_of(old_heap[s1], a).len() > 0 implies mkeys1.contains(a) by { assert(trans_of(ghost_g[s1], a) =~= trans_of(old_heap[s1], a)); assert(mkeys1.to_set().contains(a)); }
  lem_pair_done(old_heap, s1, s2, ghost_g, heap, toIState[pk(s1, s2)], toIState, in1.maxConstraints.len() as int, mkeys1, mkeys1.len() as int);
@loop 10
@invariant
  0 <= it10 <= rng10.len(), toIState == pre_toIState, prod_ctx(old_heap, in1, in2, toIState), same_old(old_heap, heap), own(in1).contains(s1), own(in2).contains(s2), toIState.dom().contains(pk(s1, s2)), old_heap.dom().contains(s1), old_heap.dom().contains(s2),
  rng10 =~= trans_of(old_heap[s1], c), s1 == ixf4, c == ixf5,
  put(pre_heap, heap, toIState[pk(s1, s2)], c, pt_list(rng10, trans_of(old_heap[s2], c), it10, toIState, in1.maxConstraints.len() as int)),
@decreases rng10.len() - it10
@begin
  let ghost_h = heap; let ghost_B = trans_of(old_heap[s2], c);
  assert(trans_of(heap[s2], c) =~= ghost_B);
  assert(tr_ok(own(in1), trans_of(old_heap[s1], c)[it10], in1.maxConstraints.len() as int));
  if ghost_B.len() == 0 { lem_pt_empty(rng10, ghost_B, it10, toIState, in1.maxConstraints.len() as int); lem_pt_empty(rng10, ghost_B, it10 + 1, toIState, in1.maxConstraints.len() as int); }
@end
  lem_put_more(pre_heap, ghost_h, heap, toIState[pk(s1, s2)], c, pt_list(rng10, ghost_B, it10 - 1, toIState, in1.maxConstraints.len() as int), pt_row(rng10[it10 - 1], ghost_B, ghost_B.len() as int, toIState, in1.maxConstraints.len() as int));
@loop 11
@invariant
  0 <= it11 <= rng11.len(), toIState == pre_toIState, prod_ctx(old_heap, in1, in2, toIState), same_old(old_heap, heap), own(in1).contains(s1), own(in2).contains(s2), toIState.dom().contains(pk(s1, s2)), old_heap.dom().contains(s1), old_heap.dom().contains(s2),
  rng11 =~= trans_of(old_heap[s2], c), s2 == ixf6, c == ixf7, nextS1 == e1.target, own(in1).contains(nextS1),
  put(pre_heap, heap, toIState[pk(s1, s2)], c, pt_row(e1, rng11, it11, toIState, in1.maxConstraints.len() as int)),
@decreases rng11.len() - it11
@begin
  let ghost_h = heap; let ghost_m = toIState;
  assert(tr_ok(own(in2), trans_of(old_heap[s2], c)[it11], in2.maxConstraints.len() as int));
  assert(toIState.dom().contains(pk(nextS1, rng11[it11].target)));
@end
  assert(toIState =~= ghost_m);
  let P = toIState[pk(s1, s2)]; let t = heap[P].next[c].last();
  lem_pt_eq(t, e1, rng11[it11 - 1], toIState, in1.maxConstraints.len() as int);
  let o = Seq::<TATransition>::empty().push(t);
  assert(put(ghost_h, heap, P, c, o));
  lem_put_more(pre_heap, ghost_h, heap, P, c, pt_row(e1, rng11, it11 - 1, toIState, in1.maxConstraints.len() as int), o);
  assert(pt_row(e1, rng11, it11 - 1, toIState, in1.maxConstraints.len() as int) + o =~= pt_row(e1, rng11, it11, toIState, in1.maxConstraints.len() as int));
@endloop
