#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a script so that the list stays reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in (state or [])],hook_needed=None)))
I=['inputs']
p('C01','Guards denote exactly the clock valuations that satisfy all their conjuncts',
  'For every guard (conjunction of comparisons of clocks with natural constants) and every valuation of the clocks with nonnegative reals: a comparison holds exactly when the arithmetic comparison does and its negation exactly when it does not; the per-clock bounds, the simplified guard and the conjunction of guards describe exactly the same valuations; a guard is reported satisfiable exactly when some nonnegative valuation satisfies it.  A guard reported weaker than another admits every valuation of the other, and dropping lower bounds only enlarges a guard.',
  I,'all guards over any number of clocks, all natural constants, all nonnegative real valuations',
  'The tests evaluate a handful of fixed guards; the claim ranges over all real valuations and all combinations of operators and constants, in particular equal constants with different strictness.',
  ['include/constraint.hh','include/bounds.hh'],
  [('Constraint::satisfy / negate / isWeaker / toBound / toDBMBound','include/constraint.hh'),('toBounds, satisfiable, simplify, simpleVariables, conjunction, widen','include/constraint.hh')],
  ['return values of the guard functions','the guards stored on automaton transitions'])
p('C02','Negating a disjunction of guards yields exactly its complement',
  'For every non-empty finite disjunction of guards (including guards without conjuncts, which admit everything), the computed negation (again a disjunction of guards) is satisfied by exactly those nonnegative clock valuations that satisfy none of the input guards.',
  I,'all disjunctions of guards of any length and dimension; all nonnegative real valuations',
  'The tests compare the output of two or three literal inputs syntactically; completeness and disjointness over all real valuations and all interactions of the pruning step are not reachable by sampling.',
  ['include/constraint.hh'],[('negate, negateAll','include/constraint.hh'),('pruning with satisfiable / simplify / isWeaker','include/constraint.hh')],
  ['guards of the transitions to the sink state created when an automaton is completed'])
p('C03','The hull of guards is the strongest guard weaker than all of them',
  'For every non-empty collection of guards in which each clock is bounded at most once from above and once from below, the hull admits every valuation any of them admits, bounds a clock in a direction only if every guard does, and then with exactly the loosest of the given bounds.  The hull of two guards does not depend on their order.',
  I,'all non-empty lists of guards without duplicate bounds; all valuations',
  'Tests use two or three literal unions; the weakest-bound and missing-bound cases multiply with the number of clocks and guards.',
  ['include/constraint.hh'],[('unionHull (both overloads)','include/constraint.hh')],['guards produced when transitions are merged'])
p('C04','Zone normal form and intersections keep exactly the same set of valuations',
  'Adding a difference constraint or a guard to a zone, intersecting two zones and bringing a zone to normal form yield exactly the valuations demanded: the conjunction of the constraints, no valuation lost or gained.  The normal form of a non-empty zone is closed under the triangle inequality and as tight as possible, emptiness is reported exactly for zones without valuation, and inclusion is reported only for real inclusion and always when the two normal forms are included.',
  I,'all zones of every dimension, all bounds (strict, non-strict, infinite), all real valuations',
  'The tests normalise a few matrices; the statement quantifies over every dimension and every mixture of strict and non-strict bounds and over all real valuations.',
  ['include/zone.hh','include/bounds.hh'],
  [('Zone::close1, canonize, tighten, operator&&, operator&=','include/zone.hh'),('Zone::isSatisfiable, isSatisfiableNoCanonize, includes','include/zone.hh'),('order and sum of bounds','include/bounds.hh')],
  ['the matrix of a zone, the emptiness verdict'],[('value','upper bounds on all clock differences','include/zone.hh')])
p('C05','Zone delay, backward delay, reset and freeing operations are exact',
  'Letting time elapse, going back in time, resetting a clock to zero, freeing a clock, and applying or reverting a list of clock updates transform a normalised zone into exactly the set of valuations reachable by (respectively able to reach the zone by) that operation.',
  I,'all normalised zones of every dimension, all clocks, all update lists of the supported shape',
  'Tests try the operations on two or three zones; mistakes in one matrix entry only show for particular bounds of other clocks.',
  ['include/zone.hh'],[('Zone::elapse, reverseElapse, reset, unconstrain, applyResets, revertResets','include/zone.hh')],
  ['the matrix of the zone after the operation'])
p('C06','Zone extrapolation only enlarges a zone and never changes small constraints',
  'Both extrapolations of a zone produce a superset of it, leave every bound whose constants do not exceed the maximal constants untouched, and produce only bounds out of a finite set determined by the maximal constants (so that exploring zones terminates).',
  I,'all zones, all maximal-constant vectors',
  'Tests check single zones; soundness must hold for every bound pattern relative to the thresholds.',
  ['include/zone.hh'],[('Zone::extrapolate, Zone::abstractize','include/zone.hh')],['the matrix after extrapolation'])
p('C07','A valuation sampled from a zone belongs to the zone',
  'For every non-empty zone of clock valuations, sampling returns one value per clock, and the returned valuation satisfies every constraint of the zone, strict ones included.',
  I,'all non-empty zones of every dimension with nonnegative clocks',
  'Tests sample a few zones with one or two strict bounds; the choice for later clocks depends on all previously chosen values.',
  ['include/zone.hh'],[('Zone::sample','include/zone.hh')],['concrete counterexample words, resets derived from sampled valuations'])
p('C08','Juxtaposition and renaming of zones constrain exactly the renamed pairs',
  'Juxtaposing two zones describes exactly the pairs of valuations of both (identified on the shared variables when there are any), independently of earlier calls; adding renaming equations keeps exactly the pairs that agree on every renamed variable pair; projecting to the right part yields exactly the right components, and the inferred equations are exactly those implied by the juxtaposition.',
  ['inputs','histories'],'all pairs of normalised zones, all numbers of shared variables, all renaming lists, all histories of earlier juxtapositions (results are memoised)',
  'Tests use fixed two-variable zones; the block index arithmetic depends on both dimensions and on the number of shared variables.',
  ['include/juxtaposed_zone.hh','include/timed_condition.hh'],[('JuxtaposedZone constructors, addRenaming, makeRenaming, getRight','include/juxtaposed_zone.hh')],
  ['the matrix of the juxtaposed zone'],[('memo','results of earlier juxtapositions','include/juxtaposed_zone.hh')])
p('C09','Concatenating timed conditions and elementary languages is exact',
  'The concatenation of two (normalised, non-empty) timed conditions contains a sequence of durations exactly when it can be split, with the middle duration divided between both, into a sequence of the first and a sequence of the second; the concatenation of elementary languages concatenates the words and the conditions accordingly.',
  I,'all pairs of normalised non-empty timed conditions of every length; all duration sequences',
  'Tests concatenate a few fixed conditions; off-by-one errors in the blocks show only for particular lengths and bounds.',
  ['include/timed_condition.hh','include/elementary_language.hh'],[('TimedCondition::operator+','include/timed_condition.hh'),('ElementaryLanguage::operator+','include/elementary_language.hh')],
  ['the bounds of the resulting condition'])
p('C10','Bounds of timed conditions are read and restricted for the right duration sums',
  'Reading the lower or upper bound of a sum of consecutive durations returns the bound of exactly that sum; restricting it keeps exactly those duration sequences that additionally satisfy the new bound (normalised again); intersection, inclusion, equality and hull of conditions agree with the sets of duration sequences, where the hull is the least condition containing both.',
  I,'all timed conditions, all index pairs, all bounds',
  'Tests call these with a few indices; the mapping from index pairs to matrix entries has a special case for the last index and must hold for all lengths.',
  ['include/timed_condition.hh'],[('getLowerBound, getUpperBound, restrictLowerBound, restrictUpperBound, convexHull, includes, operator&&','include/timed_condition.hh')],
  ['bounds returned by the accessors, printed conditions, derived guards'])
p('C11','The region of a timed word is simple and contains exactly its equivalent words',
  'The timed condition built from the durations of a timed word is simple (each sum is a point or an open unit interval), contains those durations, and bounds every sum of consecutive durations by its integer part; the exact variant contains only the given durations.  The guard derived from a timed condition holds exactly for the clock values admitted by the per-clock bounds of the condition.',
  I,'all sequences of nonnegative durations of every length',
  'Tests build a few regions; correctness depends on the fractional parts of all partial sums at once.',
  ['include/timed_condition.hh','include/timed_word.hh'],[('TimedCondition(durations), makeExact, isSimple, toGuard','include/timed_condition.hh'),('TimedWord::getAccumulatedDurations','include/timed_word.hh')],
  ['bounds of the constructed condition'])
p('C12','Enumerating a condition yields exactly its simple sub-conditions',
  'Enumerating a bounded timed condition produces simple conditions that are pairwise disjoint, all included in it, and cover it; enumerating an elementary language does the same with its word, and merging simple languages back into conditions denotes exactly their union.',
  I,'all bounded normalised timed conditions',
  'Tests enumerate small boxes; coverage and disjointness must hold for every mixture of strict and non-strict bounds and diagonal constraints.',
  ['include/timed_condition.hh','include/elementary_language.hh','include/timed_condition_set.hh'],[('TimedCondition::enumerate','include/timed_condition.hh'),('ElementaryLanguage::enumerate','include/elementary_language.hh'),('TimedConditionSet::reduce','include/timed_condition_set.hh')],
  ['the list of returned conditions','symbolic membership answers'])
p('C13','Continuous and discrete successors of a region are the next regions',
  'The successor of a regional elementary language by time is the region reached next when time elapses, the successor by an action appends that action with a zero duration, and taking the immediate prefix undoes exactly one such step; symmetrically for predecessors of backward regional languages.  Regional languages built from a timed word contain that word.',
  ['inputs','histories'],'all simple regions of every length, all sequences of successor steps',
  'Tests follow short fixed chains; the fractional order and the bounds must stay consistent along every chain.',
  ['include/timed_condition.hh','include/fractional_order.hh','include/forward_regional_elementary_language.hh','include/backward_regional_elementary_language.hh'],
  [('successor, predecessor, prefix, suffix, extendN, removeN, extendZero','include/timed_condition.hh'),('FractionalOrder','include/fractional_order.hh')],
  ['the region reached after each step'])
p('C14','The fractional order is a partition of the variables that steps by rotation',
  'The fractional order of a sequence of fractional parts lists every variable exactly once, grouped by equal parts in increasing order with the zero group first; time successors and predecessors rotate it so that they are inverse to each other, and adding or removing variables with fractional part zero only changes the zero group.',
  ['inputs','histories'],'all sequences of fractional parts, all sequences of operations',
  'Tests use two or three variables.',
  ['include/fractional_order.hh'],[('FractionalOrder constructor, successor(Assign), predecessor, successorVariables, predecessorVariables, extendN, removeN, extendZero','include/fractional_order.hh')],
  ['the sequence of groups'])
p('C15','Words sampled from an elementary language are members, and membership is exact',
  'An elementary language contains a timed word exactly when the events agree and the durations satisfy every bound on sums of consecutive durations; constraining it by a timed word keeps exactly the durations of that prefix; the word sampled from a non-empty bounded language is a member.',
  I,'all elementary languages and all timed words',
  'Tests check a few words; the sampled durations depend on all bounds jointly.',
  ['include/elementary_language.hh'],[('contains, constrain, sample, convexHull','include/elementary_language.hh')],['verdict of contains, words returned by sample'])
p('C16','Timed words form a monoid with correct durations',
  'Building a timed word drops silent events and adds the adjacent durations; concatenation joins the last and the first duration; the accumulated durations are the sums to the end of the word; removing a prefix from a word and concatenating it back restores the word.  Total duration and order of events are preserved by each of these.',
  I,'all timed words, including empty ones and ones with silent events',
  'Tests use one or two words each.',
  ['include/timed_word.hh'],[('TimedWord constructor, operator+, getAccumulatedDurations, getSuffix','include/timed_word.hh')],['words and durations of the results'])
p('C17','Running a timed automaton follows the semantics of timed automata',
  'Executing events and delays on a deterministic timed automaton without silent transitions reports, after each step, whether the unique configuration reached is accepting: delays advance all clocks equally, an event takes a transition whose guard holds and applies all clock updates simultaneously to the old values, and once no transition is enabled every later answer is negative until the run is restarted.  Restarting always returns to the initial configuration.',
  ['inputs','histories','programs'],'all automata, all sequences of restarts, events and delays',
  'Tests replay some words on some automata; simultaneous renaming, boundary guards and behaviour after getting stuck depend on the history.',
  ['include/timed_automaton_runner.hh','include/constraint.hh'],[('TimedAutomatonRunner::pre, step(char), step(double), applyReset','include/timed_automaton_runner.hh')],
  ['the verdict of every step'],[('state, clockValuation','current configuration','include/timed_automaton_runner.hh')])
p('C18','Composing and normalising clock updates preserves their effect',
  'The composition of two update lists has the effect of applying the first and then the second simultaneously; merging precise constant or copy updates from one list into a transition changes exactly the clocks whose update was missing or imprecise.',
  I,'all update lists (constants and copies) over any number of clocks, all valuations',
  'Tests check a few lists; interactions between copies and constants multiply.',
  ['include/timed_automaton.hh','include/external_transition_maker.hh'],[('composition of resets; TATransition::addPreciseConstantAssignments, addPreciseAssignments','include/timed_automaton.hh')],
  ['update lists of generated transitions'])
p('C19','The product automaton accepts exactly the intersection',
  'The intersection of two deterministic timed automata without silent transitions accepts a timed word exactly when both accept it, and its clocks are the disjoint union of theirs.',
  ['inputs','programs'],'all pairs of automata, all timed words',
  'Tests check structural facts of one product; language equality needs all words.',
  ['src/intersection.cc','include/intersection.hh'],[('intersectionTA','src/intersection.cc'),('IntersectionInterface/product and clock shift','src/intersection.cc')],['acceptance of timed words'])
p('C20','Complementing an automaton accepts exactly the rejected words',
  'For a deterministic timed automaton without silent transitions, completing it does not change the accepted words and makes some transition enabled for every event of the alphabet in every configuration, and the complement accepts a word over the alphabet exactly when the automaton rejects it.',
  ['inputs','programs'],'all deterministic automata and all timed words over the alphabet',
  'Tests complement a few automata and check a few words.',
  ['include/timed_automaton.hh','include/constraint.hh'],[('makeComplete, complement, deepCopy','include/timed_automaton.hh')],['acceptance of timed words'])
p('C21','Simplifying an automaton preserves its language',
  'Removing unreachable or dead states, useless transitions, dead self-loops, unused clocks and duplicated transitions, and simplifying with zones, never change the set of accepted timed words.',
  ['inputs','programs'],'all deterministic automata, all timed words',
  'Tests count states before and after for some automata; language preservation needs all words.',
  ['include/timed_automaton.hh','src/timed_automaton.cc'],[('simplify and its passes','src/timed_automaton.cc')],['acceptance of timed words'])
p('C22','Reported reachability witnesses and counterexamples are genuine',
  'A timed word reported as witness of a reachable accepting location is accepted, and a timed word reported by the automata-based equivalence check is accepted by exactly one of the two automata; if none is reported for automata without silent transitions, they accept the same words.',
  ['inputs','programs'],'all pairs of deterministic automata',
  'Tests compare a few pairs.',
  ['src/ta2za.cc','include/zone_automaton.hh','include/symbolic_run.hh','include/timed_automata_equivalence_oracle.hh'],[('ta2za, ZoneAutomaton::sample, SymbolicRun::reconstructWord','include/symbolic_run.hh'),('findEquivalenceCounterExample','include/timed_automata_equivalence_oracle.hh')],['the reported timed word'])
p('C23','Symbolic membership answers are exactly the accepted part of the language',
  'A symbolic membership query on an elementary language returns timed conditions whose union is exactly the union of those simple sub-languages whose words the system accepts; concrete membership queries feed the system the events and durations of the word in order after a restart, and caching never changes an answer.',
  ['inputs','histories','programs'],'all elementary languages, all systems under learning with region-uniform answers, all query histories',
  'Tests query some words on some automata.',
  ['include/symbolic_membership_oracle.hh','include/membership_oracle.hh','include/timed_condition_set.hh'],[('SymbolicMembershipOracle::query','include/symbolic_membership_oracle.hh'),('MembershipOracle / cache','include/membership_oracle.hh')],['returned conditions and verdicts'])
p('C24','Renaming relations translate to clock updates that realise them',
  'The update list derived from a renaming relation copies exactly the related source variables, assigns every other target variable a value admitted by the target condition, and prefers the constant value where the target variable is constant; when some non-constant target variable is renamed, the imprecise variables are exactly the non-constant target variables that are not renamed, and otherwise there are none.',
  I,'all renaming relations and source and target conditions',
  'Tests check a few relations.',
  ['include/renaming_relation.hh'],[('toReset, toValuation, impreciseClocks, full, onlyTrivial, addImplicitConstraints','include/renaming_relation.hh')],['update lists of generated transitions'])
p('C25','Mapping a word by a morphism yields a codomain word with equal renamed durations',
  'For every word of the domain, the mapped word is in the codomain, has the codomain events, and agrees with the given word on every renamed pair of remaining durations.',
  I,'all morphisms and all words of the domain','Tests map a few words.',
  ['include/single_morphism.hh'],[('SingleMorphism::maps','include/single_morphism.hh')],['the returned word'])
p('C26','Analysing a counterexample returns a distinguishing suffix',
  'Given a word on which the recognizable language of the hypothesis and the system disagree, counterexample analysis rewrites it prefix by prefix with the morphisms until it is in the prefixes, and returns a word that is the unchanged rest at some rewriting step, that makes the system answer differently before and after this step, and that no current suffix contains; it returns nothing only if every such rest is already contained in a current suffix. Membership in the recognizable language follows the same rewriting.',
  ['inputs','programs'],'all counterexamples and recognizable languages whose rewriting ends','Tests analyse a few counterexamples.',
  ['include/counterexample_analyzer.hh'],[('analyzeCEX','include/counterexample_analyzer.hh')],['the returned suffix'])
p('C27','Learning ends only when the equivalence check finds no counterexample',
  'The learner returns an automaton only if the last thing the equivalence check did was to examine exactly this automaton and to report no counterexample; every automaton it submits was generated from an observation table in which no refinement step (closing, consistency, exterior consistency, time saturation) had anything left to do; every reported counterexample is handed to the table. So with an exact equivalence check the returned automaton has the language of the system.',
  ['inputs','programs','histories'],'all systems under learning for which learning ends','The tests learn some fixed automata.',
  ['include/learner.hh','include/observation_table.hh','src/observation_table.cc'],[('Learner::run','include/learner.hh')],['the returned automaton'])
p('C28','Combining equivalence checks loses no counterexample',
  'A chain of equivalence checks reports a counterexample exactly when one of them does, and reports the first; replayed earlier counterexamples are reported only if the hypothesis still disagrees with the system on them; test-based checks only report words on which hypothesis and system disagree.',
  ['inputs','histories'],'all chains and all histories of queries','Tests run single oracles.',
  ['include/equivalance_oracle_chain.hh','include/equivalence_oracle_memo.hh','include/equivalence_oracle_by_test.hh'],[('EquivalenceOracleChain, EquivalenceOracleMemo, EquivalenceOracleByTest','include/equivalance_oracle_chain.hh')],['the reported counterexample'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
