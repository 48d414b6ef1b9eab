// include/timed_automaton_runner.hh
@fn TimedAutomatonRunner::applyReset/^std::vector/ as run_apply(oldValuation, resets)
@requires
  rus_ok(resets, oldValuation.len() as int),
@ensures
  r =~= ru_all(resets, oldValuation),
@loop 1
@invariant
  rus_ok(resets, oldValuation.len() as int), rng1 == resets, 0 <= it1 <= rng1.len(),
  valuation.len() == oldValuation.len(),
  forall|x: int| 0 <= x < valuation.len() ==> #[trigger] valuation[x] == ru_val(resets, it1, oldValuation, x),
@decreases rng1.len() - it1
@begin
  assert(ru_ok(rng1[it1], oldValuation.len() as int));
@endloop

@fn TimedAutomatonRunner::applyReset/^void/ as run_applyReset(resets)
@requires
  rus_ok(resets, this.clockValuation.len() as int),
@ensures
  this1 == (TimedAutomatonRunner { clockValuation: ru_all(resets, this.clockValuation), ..this }),

@fn TimedAutomatonRunner::TimedAutomatonRunner as run_ctor(automaton)
@heap TAState ro
@requires
  automaton.base.states.len() > 0 ==> automaton.base.initialStates.len() == 1 && own(automaton).contains(automaton.base.initialStates[0]),
  ta_ok(heap, own(automaton), automaton.maxConstraints.len() as int), no_silent_trans(heap, own(automaton)),
@ensures
  run_ok(this1, heap), this1.automaton == automaton, this1.isEmpty == (automaton.base.states.len() == 0), this1.numQueries == 0,
  !this1.isEmpty ==> at_start(this1), conf(this1) == conf0(automaton),
@return
  lem_conf0(this, heap);

@fn TimedAutomatonRunner::pre as run_pre()
@heap TAState ro
@requires
  run_ok(this, heap),
@ensures
  run_ok(this1, heap), same_aut(this, this1), this1.numQueries == this.numQueries + 1,
  !this.isEmpty ==> at_start(this1),
  this.isEmpty == (this.automaton.base.states.len() == 0) ==> conf(this1) == conf0(this.automaton),
@return
  if old_this.isEmpty == (old_this.automaton.base.states.len() == 0) { lem_conf0(this, heap); }

@fn TimedAutomatonRunner::post as run_post()
@heap TAState ro
@requires
  run_ok(this, heap),
@ensures
  this1 == this,

@fn TimedAutomatonRunner::count as run_count()
@mode pure
@ensures
  r == this.numQueries,

@fn TimedAutomatonRunner::step/\(char\)/ as run_event(action)
@heap TAState
@requires
  run_ok(this, heap),
@ensures
  run_ok(this1, heap1), same_aut(this, this1), same_ta(heap, heap1), this1.numQueries == this.numQueries,
  dead(this) ==> !r && dead(this1),
  !dead(this) && stuck(heap[this.state], action, this.clockValuation) ==> !r && dead(this1),
  !dead(this) && !stuck(heap[this.state], action, this.clockValuation) ==> exists|k: int| #[trigger] took(heap, this, action, k, this1, r),
  r == run_acc(this1, heap1), det(heap, own(this.automaton)) ==> conf(this1) == c_event(heap, conf(this), action),
@return
  if det(old_heap, own(old_this.automaton)) { lem_conf_event(old_heap, old_this, old_action, this, r); }
@loop 1
@invariant
  run_ok(this, heap), this == old_this, same_ta(old_heap, heap), action == old_action, !dead(this), run_ok(old_this, old_heap),
  rng1 =~= trans_of(old_heap[this.state], action), 0 <= it1 <= rng1.len(),
  forall|k: int| 0 <= k < it1 ==> !#[trigger] en_at(old_heap[this.state], action, this.clockValuation, k),
@decreases rng1.len() - it1
@begin
  assert(rng1[it1] == trans_of(old_heap[this.state], action)[it1]);
  assert(old_heap.dom().contains(this.state)); assert(tr_ok(own(this.automaton), rng1[it1], this.automaton.maxConstraints.len() as int));
@endloop
@anchor_after heap
  lem_same_ta(old_heap, heap, own(this.automaton), this.automaton.maxConstraints.len() as int);
@anchor_after call_applyReset
  lem_took(old_heap, heap, old_this, action, it1, TimedAutomatonRunner { state: rng1[it1].target, ..this }, heap[rng1[it1].target].isMatch);

@fn TimedAutomatonRunner::step/\(double\)/ as run_delay(duration)
@heap TAState
@unreached
@requires
  run_ok(this, heap), duration is Fin,
@ensures
  run_ok(this1, heap1), same_aut(this, this1), same_ta(heap, heap1), this1.numQueries == this.numQueries,
  dead(this) ==> !r && dead(this1),
  !dead(this) ==> this1.state == this.state && this1.clockValuation =~= ru_delayed(this.clockValuation, duration) && r == heap[this.state].isMatch,
  r == run_acc(this1, heap1), conf(this1) == c_delay(conf(this), duration),
@return
  if !dead(old_this) { assert(this.clockValuation =~= ru_delayed(old_this.clockValuation, old_duration)); }
