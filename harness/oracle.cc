// C28: equivalence oracles that combine or test; C23: membership oracles
#include "tautil.hh"
#include "equivalence_oracle.hh"
#include "equivalance_oracle_chain.hh"
#include "equivalence_oracle_by_test.hh"
#include "equivalence_oracle_memo.hh"
#include "equivalence_oracle_by_random_test.hh"
#include "sul.hh"
#include "symbolic_membership_oracle.hh"

static TimedWord tword(const Word &w, double last) { std::string s; std::vector<double> d; for (auto &x: w) { s += x.e; d.push_back(x.d); } d.push_back(last); return TimedWord{s, d}; }
static bool sameW(const TimedWord &a, const TimedWord &b) { return a.getWord() == b.getWord() && a.getDurations() == b.getDurations(); }
static std::string showT(const TimedWord &t) { std::ostringstream o; for (size_t i = 0; i < t.getDurations().size(); i++) { o << t.getDurations()[i] << " "; if (i < t.wordSize()) o << t.getWord()[i] << " "; } return o.str(); }
static std::string showO(const std::optional<TimedWord> &t) { return t ? showT(*t) : "none"; }
// an oracle whose answers are fixed in advance
struct Fixed : EquivalenceOracle {
  std::vector<std::optional<TimedWord>> answers; int id, *asked; std::vector<int> *log;
  Fixed(std::vector<std::optional<TimedWord>> a, int id, int *asked, std::vector<int> *log) : answers(std::move(a)), id(id), asked(asked), log(log) {}
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &) override { ++eqQueryCount; int k = asked[id]++; log->push_back(id); return k < (int) answers.size() ? answers[k] : std::nullopt; }
};
static TimedWord rndTW(Rng &r, const IA &a, int maxLen = 5) { Word w = guided(r, a, maxLen); return tword(w, r.in(0, 8) / 4.0); }

VTEST(C28, chain, 3) {
  IA ia = rndTA(rng); TimedAutomaton hyp = build(ia); int n = rng.in(0, 4); int asked[5] = {0}; std::vector<int> log; std::vector<std::vector<std::optional<TimedWord>>> ans(n);
  EquivalenceOracleChain chain; int rounds = rng.in(1, 4);
  for (int i = 0; i < n; i++) { for (int k = 0; k < rounds; k++) { if (rng.chance(40)) ans[i].push_back(rndTW(rng, ia)); else ans[i].push_back(std::nullopt); } chain.push_back(std::make_unique<Fixed>(ans[i], i, asked, &log)); }
  std::vector<int> used(n, 0); std::ostringstream o; o << n << " oracles, " << rounds << " rounds\n"; note(o.str());
  for (int k = 0; k < rounds; k++) {
    log.clear(); std::optional<TimedWord> want; std::vector<int> order;
    for (int i = 0; i < n && !want; i++) { int u = used[i]++; order.push_back(i); if (ans[i][u]) want = ans[i][u]; }
    auto got = chain.findCounterExample(hyp); o << "round " << k << ": expected " << showO(want) << ", reported " << showO(got) << "\n"; note(o.str());
    VCHECK(got.has_value() == want.has_value(), "the chain reports a counterexample although no oracle does, or misses one");
    VCHECK(!want || sameW(*got, *want), "the chain does not report the counterexample of the first oracle that has one");
    VCHECK(log.size() >= order.size() && std::equal(order.begin(), order.end(), log.begin()), "the oracles are not asked one after the other");
    for (int i = 0; i < n; i++) used[i] = asked[i];
  }
}
static bool disagree(const IA &a, const IA &b, const TimedWord &t) { return accepts(a, wordOf(t)) != accepts(b, wordOf(t)); }
VTEST(C28, by_test, 3) {
  IA a = rndTA(rng), b = rng.chance(85) ? mutate(rng, a) : rndTA(rng); TimedAutomaton A = build(a), B = build(b);
  EquivalenceOracleByTest o(A); std::vector<TimedWord> ws; std::string s = "target " + showA(a) + "hypothesis " + showA(b);
  for (int round = rng.in(1, 2); round > 0; round--) {
    for (int k = rng.in(0, 3); k > 0; k--) { ws.push_back(rndTW(rng, rng.chance(50) ? a : b, 6)); o.push_back(ws.back()); s += "word " + showT(ws.back()) + "\n"; }
    auto r = o.findCounterExample(B); s += "reported " + showO(r) + "\n"; note(s);
    bool pre = false; for (auto &w: ws) { for (size_t i = 0; i <= w.wordSize(); i++) { Word x = wordOf(w); x.resize(i); if (accepts(a, x) != accepts(b, x)) pre = true; } }
    bool any = false; for (auto &w: ws) if (disagree(a, b, w)) any = true;
    if (r) VCHECK(disagree(a, b, *r), "the reported word is no counterexample");
    if (r) VCHECK(pre, "a counterexample is reported although no tested word has a prefix that distinguishes the automata");
    if (any) VCHECK(r.has_value(), "a tested word distinguishes the automata but no counterexample is reported");
    if (rng.chance(30)) { b = mutate(rng, a); B = build(b); s += "next hypothesis " + showA(b); }
  }
}
VTEST(C28, memo, 3) {
  IA a = rndTA(rng); TimedAutomaton A = build(a); int asked[1] = {0}; std::vector<int> log; std::vector<std::optional<TimedWord>> ans; int rounds = rng.in(1, 5);
  std::vector<IA> hs; for (int k = 0; k < rounds; k++) { hs.push_back(rng.chance(30) && k ? hs[k - 1] : mutate(rng, a)); }
  for (int k = 0; k < rounds; k++) { if (rng.chance(70)) { TimedWord w = rndTW(rng, rng.pick(hs), 6); for (int t = 0; t < 10 && !disagree(a, hs[k], w); t++) w = rndTW(rng, hs[k], 6); ans.push_back(w); } else ans.push_back(std::nullopt); }
  EquivalenceOracleMemo o(std::make_unique<Fixed>(ans, 0, asked, &log), A); std::vector<TimedWord> seen; std::string s = "target " + showA(a);
  for (int k = 0; k < rounds; k++) {
    TimedAutomaton H = build(hs[k]); s += "hypothesis " + showA(hs[k]); log.clear(); int before = asked[0];
    auto r = o.findCounterExample(H); s += "reported " + showO(r) + "\n"; note(s);
    bool stored = false; for (auto &w: seen) if (disagree(a, hs[k], w)) stored = true;
    if (asked[0] == before) { VCHECK(r && disagree(a, hs[k], *r), "a replayed counterexample is reported although the hypothesis agrees with the target on it"); 
      bool pre = false; for (auto &w: seen) for (size_t i = 0; i <= w.wordSize(); i++) { Word x = wordOf(w); x.resize(i); if (accepts(a, x) != accepts(hs[k], x)) pre = true; } VCHECK(pre, "the replayed counterexample does not come from an earlier one"); }
    else { VCHECK(asked[0] == before + 1, "the wrapped oracle is asked more than once"); auto &want = ans[before]; VCHECK(r.has_value() == want.has_value() && (!r || sameW(*r, *want)), "the answer of the wrapped oracle is changed"); VCHECK(!stored, "an earlier counterexample still distinguishes the automata but was not replayed"); if (want) seen.push_back(*want); }
  }
}
VTEST(C28, random_test, 2) {
  IA a = rndTA(rng), b = rng.chance(85) ? mutate(rng, a) : rndTA(rng); TimedAutomaton A = build(a), B = build(b);
  EquivalenceOracleByRandomTest o(ALPHA, A, rng.in(1, 6), rng.in(1, 5), rng.in(1, 5)); auto r = o.findCounterExample(B); note("target " + showA(a) + "hypothesis " + showA(b) + "reported " + showO(r) + "\n");
  if (r) { VCHECK(r->getDurations().size() == r->wordSize() + 1, "the reported word is malformed"); for (auto d: r->getDurations()) VCHECK(d >= 0, "a negative duration"); VCHECK(disagree(a, b, *r), "the reported word is no counterexample"); }
}
VMAIN
