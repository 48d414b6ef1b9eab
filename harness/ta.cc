#include "tautil.hh"
#include "intersection.hh"
#include "ta2za.hh"
#include "zone_automaton.hh"
#include "timed_automata_equivalence_oracle.hh"
// ------------------------------------------------------------------------------------------------ C17
VTEST(C17, run, 4) {
  IA a = rndTA(rng); note(showA(a)); TimedAutomatonRunner run(build(a)); size_t queries = 0; std::string hist;
  for (int round = 0; round < 6; round++) {
    run.pre(); queries++; hist = "round " + std::to_string(round) + ":"; VCHECK(run.count() == queries, "count");
    Conf c = startOf(a); int n = rng.in(0, 8);
    if (rng.chance(20)) { VCHECK(run.step(0.0) == accept(a, c), "initial verdict"); }
    for (int i = 0; i < n; i++) {
      std::ostringstream o;
      if (rng.chance(50)) { double d = guidedDelay(rng, a, c); o << " delay " << d; hist += o.str(); delay(c, d); bool r = run.step(d); VCHECK(r == accept(a, c), "after" << hist << " the runner answers " << r); }
      else { char e = rng.chance(4) ? 'c' : rng.pick(ALPHA); hist += std::string(" ") + e; event(a, c, e); bool r = run.step(e); VCHECK(r == accept(a, c), "after" << hist << " the runner answers " << r); }
    }
    if (rng.chance(70)) run.post(); VCHECK(run.count() == queries, "count after the run");
  }
}
VTEST(C17, word, 2) {
  IA a = rndTA(rng); note(showA(a)); TimedAutomatonRunner run(build(a));
  for (int k = 0; k < 20; k++) { Word w = guided(rng, a, 7, true); run.pre(); bool last = run.step(0.0); for (auto &s: w) { run.step(s.d); last = run.step(s.e); } VCHECK(last == accepts(a, w), "verdict " << last << " for " << showW(w)); run.post(); }
}
VTEST(C17, update, 1) {
  int n = rng.in(1, 5); GenOpt o; Resets r = rndResets(rng, n, o); std::vector<double> v(n); for (auto &x: v) x = rng.in(0, 20) / 4.0; note(showR(r) + " at " + str(v));
  VCHECK(TimedAutomatonRunner::applyReset(v, r) == updClocks(v, r), "gives " << str(TimedAutomatonRunner::applyReset(v, r)));
}
// ------------------------------------------------------------------------------------------------ C19
VTEST(C19, product, 1) {
  IA a = rndTA(rng), b = rng.chance(30) ? mutate(rng, a) : rndTA(rng); note(showA(a) + "and\n" + showA(b));
  TimedAutomaton ta = build(a), tb = build(b), out; boost::unordered_map<std::pair<TAState *, TAState *>, std::shared_ptr<TAState>> m; intersectionTA(ta, tb, out, m);
  VCHECK(out.clockSize() == (size_t) (a.nclk + b.nclk), "number of clocks"); std::vector<int> mc = ta.maxConstraints; mc.insert(mc.end(), tb.maxConstraints.begin(), tb.maxConstraints.end()); VCHECK(out.maxConstraints == mc, "maximal constants");
  for (int k = 0; k < 40; k++) { Word w = guided(rng, rng.chance(50) ? a : b, 6, true); bool want = accepts(a, w) && accepts(b, w);
    RRun r(out); for (auto &s: w) { r.delay(s.d); r.event(s.e); } VCHECK(r.accept() == want && !r.nondet, "the product " << (r.accept() ? "accepts " : "rejects ") << showW(w)); }
  // the arguments still accept the same words
  for (int k = 0; k < 10; k++) { Word w = guided(rng, a, 6); VCHECK(acceptsR(ta, w) == accepts(a, w), "the first automaton changed on " << showW(w)); w = guided(rng, b, 6); VCHECK(acceptsR(tb, w) == accepts(b, w), "the second automaton changed on " << showW(w)); }
}
// ------------------------------------------------------------------------------------------------ C20
VTEST(C20, complete, 1) {
  IA a = rndTA(rng); note(showA(a)); TimedAutomaton t = build(a); t.makeComplete(ALPHA); VCHECK(t.initialStates.size() == 1 && t.clockSize() == (size_t) a.nclk, "initial states or clocks");
  for (int k = 0; k < 40; k++) { Word w = guided(rng, a, 6); RRun r(t); for (auto &s: w) { r.delay(s.d); r.event(s.e); VCHECK(r.cs.size() == 1, r.cs.size() << " configurations are reached by the last event of a prefix of " << showW(w)); } VCHECK(r.accept() == accepts(a, w), "the completed automaton " << (r.accept() ? "accepts " : "rejects ") << showW(w)); }
}
VTEST(C20, complement, 1) {
  IA a = rndTA(rng); note(showA(a)); TimedAutomaton t0 = build(a); TimedAutomaton t = t0.complement(ALPHA);
  for (int k = 0; k < 40; k++) { Word w = guided(rng, a, 6); RRun r(t); for (auto &s: w) { r.delay(s.d); r.event(s.e); } VCHECK(r.cs.size() == 1 && r.accept() == !accepts(a, w), "the complement " << (r.accept() ? "accepts " : "rejects ") << showW(w)); 
    VCHECK(acceptsR(t0, w) == accepts(a, w), "the automaton itself changed on " << showW(w)); }
  TimedAutomaton d; std::unordered_map<TAState *, std::shared_ptr<TAState>> o2n; t0.deepCopy(d, o2n); for (auto &s: d.states) for (auto &u: t0.states) VCHECK(s != u, "the copy shares a state");
  for (int k = 0; k < 10; k++) { Word w = guided(rng, a, 6); VCHECK(acceptsR(d, w) == accepts(a, w), "the copy differs on " << showW(w)); }
}
// ------------------------------------------------------------------------------------------------ C21
static void pass(TimedAutomaton &t, int k) {
  switch (k) { case 0: t.simplifyTransitions(); break; case 1: t.removeTriviallyUnreachableStates(); break; case 2: t.removeTriviallyDeadStates(); break; case 3: t.removeDeadLoop(); break; case 4: t.removeUselessTransitions(); break;
    case 5: t.removeUnusedClockVariables(); break; case 6: t.simplify(); break; case 7: t.simplifyStrong(); break; case 8: t.simplifyWithZones(); break; default: t.mergeAdjacentTransitions(); } }
static const char *passName[] = {"simplifyTransitions", "removeTriviallyUnreachableStates", "removeTriviallyDeadStates", "removeDeadLoop", "removeUselessTransitions", "removeUnusedClockVariables", "simplify", "simplifyStrong", "simplifyWithZones", "mergeAdjacentTransitions"};
static void passTest(Rng &rng, int k, int k2) {
  GenOpt o; o.maxSt = 5; IA a = rndTA(rng, o); note(showA(a)); TimedAutomaton t = build(a); note(std::string(passName[k]) + (k2 >= 0 ? std::string(" then ") + passName[k2] : "")); pass(t, k); if (k2 >= 0) pass(t, k2);
  for (int i = 0; i < 60; i++) { Word w = guided(rng, a, 6, true); bool r = acceptsR(t, w); VCHECK(r == accepts(a, w), "the simplified automaton " << (r ? "accepts " : "rejects ") << showW(w)); }
  if (t.initialStates.size() != 1 && !t.states.empty()) return;
  TimedAutomatonRunner run(t); for (int i = 0; i < 10; i++) { Word w = guided(rng, a, 6); run.pre(); bool last = run.step(0.0); for (auto &s: w) { run.step(s.d); last = run.step(s.e); } VCHECK(last == accepts(a, w), "running the simplified automaton on " << showW(w) << " gives " << last); }
}
VTEST(C21, transitions, 1) { passTest(rng, 0, -1); }
VTEST(C21, unreachable, 1) { passTest(rng, 1, -1); }
VTEST(C21, dead, 1) { passTest(rng, 2, -1); }
VTEST(C21, loop, 1) { passTest(rng, 3, -1); }
VTEST(C21, useless, 1) { passTest(rng, 4, -1); }
VTEST(C21, clocks, 1) { passTest(rng, 5, -1); }
VTEST(C21, simplify, 2) { passTest(rng, 6, -1); }
VTEST(C21, strong, 2) { passTest(rng, 7, -1); }
VTEST(C21, zones, 3) { passTest(rng, 8, -1); }
VTEST(C21, merge, 2) { passTest(rng, 9, -1); }
VTEST(C21, two, 3) { int k = rng.in(0, 9), k2 = rng.in(0, 9); passTest(rng, k, k2); }
// ------------------------------------------------------------------------------------------------ C22
static GenOpt small() { GenOpt o; o.maxClk = 2; o.maxSt = 3; o.K = 2; return o; }

VISOLATE(C22, equivalence, 4)
VTEST(C22, witness, 1) {
  IA a = rndTA(rng, small()); note(showA(a)); TimedAutomaton t = build(a); ZoneAutomaton z; bool quick = rng.chance(50); note(quick ? "stop at the first witness" : "full exploration"); ta2za(t, z, quick);
  auto w = z.sample(); if (getenv("DBG")) for (auto &q: z.states) { size_t i = 0; for (; i < t.states.size(); i++) if (t.states[i].get() == q->taState) break; std::cout << "state " << i << " zone\n" << q->zone << "\n"; } if (w) { VCHECK(accepts(a, wordOf(*w)), "the witness " << showW(wordOf(*w)) << " is rejected"); }
  else for (int i = 0; i < 60; i++) { Word u = guided(rng, a, 6); VCHECK(!accepts(a, u), "no witness although " << showW(u) << " is accepted"); }
}
VTEST(C22, equivalence, 2) {
  GenOpt o = small(); IA a = rndTA(rng, o), b = rng.chance(70) ? mutate(rng, a) : rng.chance(20) ? a : rndTA(rng, o); note(showA(a) + "hypothesis\n" + showA(b));
  TimedAutomaton ta = build(a), tb = build(b); TimedAutomaton co = ta.complement(ALPHA); ComplementTimedAutomataEquivalenceOracle orc(ta, co, ALPHA); auto w = orc.findCounterExample(tb);
  if (w) { Word u = wordOf(*w); VCHECK(accepts(a, u) != accepts(b, u), "both automata agree on the counterexample " << showW(u)); }
  else for (int i = 0; i < 100; i++) { Word u = guided(rng, rng.chance(50) ? a : b, 6); VCHECK(accepts(a, u) == accepts(b, u), "no counterexample although the automata differ on " << showW(u)); }
}
VMAIN
