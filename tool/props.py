"""Which contracts decide which property, and which native harness replays it."""
# units: lists of contract names (contracts/*.vc), each verified in its own process together with all callees.
PROPS = {
 'C01': dict(units=[['con_satisfy', 'con_satisfy_v', 'con_order', 'con_eq', 'con_isup', 'con_weaker', 'con_bound', 'con_dbm', 'con_negate', 'cm_lt', 'cm_le', 'cm_gt', 'cm_ge', 'guard_weaker', 'guard_widen', 'guard_conj', 'guard_negate_all', 'guard_bounds', 'guard_satisfiable', 'guard_simplify', 'guard_simple_vars']], harness='guard.cc'),
 'C02': dict(units=[['guard_negate', 'guard_negate_all']], harness='guard.cc'),
 'C03': dict(units=[['guard_hull', 'guard_hull2']], harness='guard.cc'),
 'C04': dict(units=[['zone_tighten', 'zone_tighten_c', 'zone_tighten_g', 'zone_and', 'zone_andassign', 'zone_nvars', 'zone_of_valuation'],
                    ['zone_sat_nc', 'zone_is_sat', 'zone_bool', 'zone_includes', 'zone_eq', 'zone_top', 'zone_zero', 'zone_make_unsat', 'zone_eq_ignore_zero', 'zone_strict_equal', 'is_point', 'is_unit_open', 'is_simple_b', 'bounds_sub', 'bounds_neg', 'bounds_addassign']],
             harness='zone.cc'),
 'C05': dict(units=[['zone_elapse', 'zone_reverse_elapse', 'zone_unconstrain', 'zone_reset'], ['zone_apply', 'zone_revert']], harness='zone.cc'),
 'C06': dict(units=[['zone_extrapolate', 'zone_abstractize']], harness='zone.cc'),
 'C08': dict(units=[['juxt_ctor', 'juxt_ctor_common'], ['juxt_add_renaming', 'juxt_make_renaming', 'juxt_get_right'], ['jzs_ctor', 'jzs_ctor_common', 'jzs_ctor_left', 'jzs_add_renaming', 'jzs_eq']], harness='tc.cc'),
 'C07': dict(units=[['zone_sample']], harness='zone.cc'),
}
PROPS.update({
 'C26': dict(units=[['cex_analyze'], ['rl_in_prefixes', 'rl_is_final'], ['rl_apply'], ['rl_maps', 'rl_contains'], ['rl_split_body']], harness='learn.cc', sources=['intersection.cc', 'timed_automaton.cc', 'ta2za.cc', 'observation_table.cc'],
             assumptions=['the interface MembershipOracle decides a fixed language', 'in its callers RecognizableLanguage::split is described by an uninterpreted function of the language and the word that either returns nothing or a prefix in the domain of one of the morphisms and the rest of the word; that its body does so is proved separately for words of nonnegative durations without silent events and with at most 250 events, and for morphisms whose domains are canonical bounded conditions on words without silent events and whose renaming relates each word of the domain to one of the codomain', 'every rewriting of the word reaches the prefixes after finitely many steps', 'on words of the prefixes the system and the recognizable language agree']),
 'C27': dict(units=[['learner_run']], harness='learn.cc', sources=['intersection.cc', 'timed_automaton.cc', 'ta2za.cc', 'observation_table.cc'],
             assumptions=['the interface EquivalenceOracle and the operations of ObservationTable are described by uninterpreted functions of their state and the automata heap', 'a refinement step of the table that reports no change leaves the table as it is', 'only finitely many counterexamples are reported and only finitely many refinement steps change the table between two of them (nothing is claimed about runs that do not end)', 'simplifyStrong and simplifyWithZones preserve the language (C21)', 'the assertion that the hypothesis is deterministic is not checked', 'a std::unique_ptr is modelled as the object it owns']),
})
NOT_APPLICABLE = {}
PROPS.update({
 'C09': dict(units=[['tc_concat'], ['el_concat']], harness='tc.cc'),
 'C10': dict(units=[['tc_size', 'tc_default', 'tc_empty', 'tc_lower', 'tc_upper', 'tc_is_point', 'tc_has_prefix', 'tc_has_suffix'], ['tc_restrict_lower', 'tc_restrict_upper'],
                    ['tc_hull', 'tc_hull_assign', 'tc_includes', 'tc_and', 'tc_eq', 'tc_ne', 'tc_sat_nc']], harness='tc.cc'),
 'C11': dict(units=[['tc_region'], ['tc_exact', 'tc_is_simple', 'tc_to_guard'], ['tw_accumulated']], harness='tc.cc'),
 'C12': dict(units=[['tc_enumerate', 'tc_enumerate0'], ['el_enumerate']], harness='lang.cc'),
 'C15': dict(units=[['el_contains', 'el_constrain'], ['el_sample'], ['el_hull', 'el_eq']], harness='lang.cc'),
 'C16': dict(units=[['tw_ctor', 'tw_cat', 'tw_cat_event', 'tw_cat_delay', 'tw_accumulated', 'tw_suffix', 'tw_size', 'tw_eq']], harness='lang.cc'),
})
PROPS.update({
 'C13': dict(units=[['fr_of_word'], ['br_of_word'], ['fr_succ_event', 'fr_succ', 'fr_succ_assign'], ['fr_prefix'], ['br_pred_event', 'br_pred'], ['br_suffix'], ['fr_prefixes'], ['br_prefixes'], ['tc_successor', 'tc_successor_assign', 'tc_predecessor'], ['tc_prefix', 'tc_suffix'], ['tc_extend_n', 'tc_remove_n', 'tc_extend_zero', 'tc_remove_zero']], harness='region.cc'),
 'C14': dict(units=[['fo_default', 'fo_ctor'], ['fo_succ_variables', 'fo_pred_variables', 'fo_successor', 'fo_successor_assign', 'fo_predecessor'], ['fo_extend', 'fo_remove', 'fo_extend_zero', 'fo_remove_zero', 'fo_size', 'fo_eq']], harness='region.cc'),
})
PROPS.update({
 'C17': dict(units=[['run_ctor', 'run_pre', 'run_post', 'run_count'], ['run_event'], ['run_delay'], ['run_apply', 'run_applyReset']], harness='ta.cc', sources=['intersection.cc', 'timed_automaton.cc', 'ta2za.cc']),
})
PROPS.update({
 'C28': dict(units=[['chain_find', 'chain_push'], ['bytest_find', 'bytest_push'], ['memo_ctor', 'memo_find'], ['rnd_find']], harness='oracle.cc', sources=['intersection.cc', 'timed_automaton.cc', 'ta2za.cc'],
             assumptions=['the interface EquivalenceOracle is described by uninterpreted functions of its state, the hypothesis and the automata heap', 'a std::unique_ptr is modelled as the object it owns; a null pointer is not modelled', 'a random generator yields arbitrary values in the range of the distribution']),
})
PROPS.update({
 'C23': dict(units=[['sulmem_query', 'memcache_query', 'symmem_query'], ['sym_included'], ['tcs_reduce'], ['sym_query']], harness='query.cc',
             assumptions=['the interface SUL is described by uninterpreted functions of its state; the interface MembershipOracle decides a fixed language (equal answers to equal words)', 'the system does not distinguish the words of a simple elementary language (integer constants)', 'a std::unique_ptr is modelled as the object it owns; a null pointer is not modelled', 'a moved-from object keeps its value in the model']),
})
PROPS.update({
 'C18': dict(units=[['rset_map', 'rset_comp'], ['rset_default', 'rset_clean', 'rset_cconst', 'rset_call', 'rset_addc', 'rset_adda']], harness='reset.cc'),
})
PROPS.update({
 'C24': dict(units=[['ren_reset'], ['ren_valuation'], ['ren_imprecise'], ['ren_has_imprecise', 'ren_trivial', 'ren_full'], ['ren_right', 'ren_unique', 'ren_erase', 'ascending_u', 'ascending_i']], harness='morph.cc',
             assumptions=['the target condition is a non-empty simple condition in canonical form (the documented precondition of toValuation)', 'the renaming relation relates each target variable to at most one source variable and names only variables of the two conditions']),
 'C25': dict(units=[['morph_in_domain'], ['morph_maps']], harness='morph.cc',
             assumptions=['the renaming relation relates the given word to some word of the codomain (that it does so for every word of the domain is what makes it a morphism)']),
})

TA_SRC = ['intersection.cc', 'timed_automaton.cc', 'ta2za.cc']
USABLE = 'the automata are deterministic, have at most one initial state, no silent transitions, nonnegative reset constants, and transitions only to their own states'
BOUNDED = 'Mixed: the functions named under functions_under_contract are proved for all inputs; the functions listed under bounded_stand_ins are beyond the reach of the verifier and are only exercised natively on random small automata and words (bounded, not counted as proved).'
PROPS.update({
 'C19': dict(units=[['ta_product'], ['con_satisfy', 'con_satisfy_v']], harness='ta.cc', sources=TA_SRC, budget=20, assumptions=[USABLE]),
 'C20': dict(units=[['ta_complement', 'ta_complete', 'ta_copy'], ['guard_negate_all', 'guard_satisfiable', 'guard_conj']], harness='ta.cc', sources=TA_SRC, budget=20, assumptions=[USABLE]),
 'C21': dict(units=[['ta_simplify'], ['ta_simplify_strong'], ['guard_hull', 'guard_hull2'], ['guard_negate', 'guard_negate_all', 'guard_conj', 'guard_satisfiable']], harness='ta.cc', sources=TA_SRC, level='other', note=BOUNDED, budget=25, assumptions=[USABLE, 'states of the automaton are distinct objects in its list; at most 256 clocks (clock indices are 8 bit)', 'removeTriviallyDeadStates: if unreachable states remain, it may remove the initial state (of an automaton with the empty language) and leave others; excluded when the unreachable states were removed before, as simplifyStrong does'],
             bounded=['simplifyWithZones, mergeAdjacentTransitions: random deterministic automata with up to 3 clocks and 5 states, random words of up to 6 events']),
 'C22': dict(units=[['zone_sample'], ['zone_elapse', 'zone_reverse_elapse', 'zone_unconstrain', 'zone_reset'], ['zone_extrapolate', 'zone_abstractize']], harness='ta.cc', sources=TA_SRC, level='other', note=BOUNDED, budget=25,
             bounded=['ta2za, ZoneAutomaton::sample, SymbolicRun::reconstructWord, ComplementTimedAutomataEquivalenceOracle: random deterministic automata with up to 2 clocks and 3 states, random words of up to 6 events']),
})
