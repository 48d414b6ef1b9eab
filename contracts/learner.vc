// include/observation_table.hh as seen by the learner
@fn ObservationTable::close as table_close()
@abstract obj=TblObj opaque=1 result=tbl_close post=tbl_close1 heap=TAState

@fn ObservationTable::consistent as table_consistent()
@abstract obj=TblObj opaque=1 result=tbl_cons post=tbl_cons1 heap=TAState

@fn ObservationTable::exteriorConsistent as table_exterior()
@abstract obj=TblObj opaque=1 result=tbl_ext post=tbl_ext1 heap=TAState

@fn ObservationTable::timeSaturate as table_saturate()
@abstract obj=TblObj opaque=1 result=tbl_sat post=tbl_sat1 heap=TAState

@fn ObservationTable::renameConsistent as table_rename()
@abstract obj=TblObj opaque=1 result=tbl_ren post=tbl_ren1 heap=TAState

@fn ObservationTable::generateHypothesis as table_hypothesis()
@abstract obj=TblObj opaque=1 result=tbl_hyp post=tbl_hyp1 heap=TAState:tbl_hyp_heap

@fn ObservationTable::handleCEX as table_cex(cex)
@abstract obj=TblObj opaque=1 post=tbl_cex heap=TAState

// include/timed_automaton.hh
@fn TimedAutomaton::simplifyStrong as ta_strong()
@abstract obj=self result=simp_strong post=simp_strong heap=TAState:simp_strong_heap

@fn TimedAutomaton::simplifyWithZones as ta_zones()
@abstract obj=self result=simp_zones post=simp_zones heap=TAState:simp_zones_heap

// include/learner.hh
@fn Learner::run as learner_run()
@heap TAState
@noassert
@requires
  this.observationTable.seen == this.eqOracle.seen,
@ensures
  confirmed(this1.eqOracle, r, heap1),
  this1.observationTable.seen == this1.eqOracle.seen,
@loop 1
@invariant
  this.observationTable.seen == this.eqOracle.seen,
@decreases
  this.eqOracle.left
@loop 2
@invariant
  this.eqOracle == pre_this.eqOracle,
  this.observationTable.seen == pre_this.observationTable.seen,
@break
  this.eqOracle == pre_this.eqOracle,
  this.observationTable.seen == pre_this.observationTable.seen,
  settled(this.observationTable, heap),
@decreases
  this.observationTable.left
@exit
  let ghost_t = this.observationTable; let ghost_h = heap;
@endloop
@return
  assert(settled(ghost_t, ghost_h));
  assert forall|o: EqObj, h: Map<int, TAState>| #[trigger] eo_ans(o, r, h) is None && meaning(r, h) == meaning(tbl_hyp(ghost_t, ghost_h), tbl_hyp_heap(ghost_t, ghost_h))
    implies built_from(ghost_t, ghost_h, r, h) by {}
