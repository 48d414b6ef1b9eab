// C26: counterexample analysis; C27: the learner
#include "tautil.hh"
#define private public
#include "recognizable_languages.hh"
#include "observation_table.hh"
#undef private
#include "learner.hh"
#include "timed_automata_equivalence_oracle.hh"
// the system under learning: our own interpreter; gives up after a number of queries (learning may take arbitrarily long)
struct Sys : SUL {
  const IA &a; Conf c; std::size_t n = 0; long limit;
  Sys(const IA &a, long limit) : a(a), c(startOf(a)), limit(limit) {}
  void pre() override { c = startOf(a); n++; if ((long) n > limit) throw Skip{}; }
  void post() override {}
  bool step(char e) override { event(a, c, e); return accept(a, c); }
  bool step(double d) override { delay(c, d); return accept(a, c); }
  [[nodiscard]] std::size_t count() const override { return n; }
};
static TimedWord tword(const Word &w, double last) { std::string s; std::vector<double> d; for (auto &x: w) { s += x.e; d.push_back(x.d); } d.push_back(last); return TimedWord{s, d}; }
static std::string showT(const TimedWord &t) { std::ostringstream o; for (size_t i = 0; i < t.getDurations().size(); i++) { o << t.getDurations()[i] << " "; if (i < t.wordSize()) o << t.getWord()[i] << " "; } return o.str(); }
static bool memberT(const IA &a, const TimedWord &t) { return accepts(a, wordOf(t)); }
// how the library runs an automaton with unobservable transitions
static bool hypT(TimedAutomatonRunner &r, const TimedWord &t) { r.pre(); bool b = false; for (size_t i = 0; i < t.wordSize(); i++) { b = r.step(t.getDurations()[i]); b = r.step(t.getWord()[i]); } b = r.step(t.getDurations().back()); r.post(); return b; }
static IA smallTA(Rng &rng, int size) { GenOpt o; o.maxClk = 1; o.maxSt = size; o.K = rng.chance(80) ? 1 : 2; o.halves = false; o.copies = false; o.consts = false; IA a = rndTA(rng, o); if (a.nclk == 0) { a.nclk = 1; } return a; }
static std::vector<TimedWord> pool(Rng &rng, const IA &a, int n, int len) { std::vector<TimedWord> ws; for (int k = 0; k < n; k++) { Word w = guided(rng, a, len); ws.push_back(tword(w, rng.in(0, 6) / 4.0)); } std::stable_sort(ws.begin(), ws.end(), [](auto &x, auto &y) { return x.wordSize() < y.wordSize(); }); return ws; }
// asks about the words of a pool and remembers what it did
struct Pool : EquivalenceOracle {
  const IA &a; const std::vector<TimedWord> &ws; int &asked; std::vector<TimedWord> &given; bool &none; std::string &last; int limit;
  Pool(const IA &a, const std::vector<TimedWord> &ws, int &asked, std::vector<TimedWord> &given, bool &none, std::string &last, int limit) : a(a), ws(ws), asked(asked), given(given), none(none), last(last), limit(limit) {}
  std::optional<TimedWord> findCounterExample(const TimedAutomaton &h) override {
    ++eqQueryCount; if (++asked > limit) throw Skip{}; std::ostringstream o; o << h; last = o.str(); TimedAutomatonRunner r(h);
    for (auto &w: ws) if (hypT(r, w) != memberT(a, w)) { given.push_back(w); none = false; return w; }
    none = true; return std::nullopt;
  }
};
// an aborted run returns nothing: nothing is claimed about it
static void mayAbort() { signal(SIGABRT, [](int) { _exit(3); }); }
static const std::vector<Alphabet> ONE{'a'};
static IA only(const IA &a, char c) { IA b = a; for (auto &s: b.st) for (auto it = s.next.begin(); it != s.next.end();) { if (it->first != c) it = s.next.erase(it); else ++it; } return b; }
VISOLATE(C27, learn_pool, 12)
VTEST(C27, learn_pool, 5) {
  mayAbort(); bool single = rng.chance(70); IA a = smallTA(rng, single ? 3 : 2); if (single) a = only(a, 'a'); std::string s = "system " + showA(a); note(s);
  std::vector<TimedWord> ws = pool(rng, a, 150, 4); for (int k = 0; k < 4; k++) ws.push_back(tword(Word(), k / 2.0)); if (rng.chance(30)) { ws.clear(); for (auto &w: pool(rng, a, 60, 12)) if (w.wordSize() >= 6) ws.push_back(w); } int asked = 0; std::vector<TimedWord> given; bool none = false; std::string last;
  if (single) { std::vector<TimedWord> u; for (auto &w: ws) if (w.getWord().find('b') == std::string::npos) u.push_back(w); ws = u; }
  auto sul = std::make_unique<Sys>(a, 20000); auto mem = std::make_unique<SymbolicMembershipOracle>(std::move(sul));
  Learner l(single ? ONE : ALPHA, std::move(mem), std::make_unique<Pool>(a, ws, asked, given, none, last, 30));
  TimedAutomaton h; try { h = l.run(); } catch (const std::logic_error &e) { throw Skip{}; }
  std::ostringstream o; o << h; s += "learned " + o.str(); for (auto &w: given) s += "counterexample " + showT(w) + "\n"; note(s);
  VCHECK(asked > 0, "the learner returned without asking for a counterexample");
  VCHECK(none, "the learner returned although the last check found a counterexample");
  VCHECK(o.str() == last, "the returned automaton is not the one that was checked");
  TimedAutomatonRunner r(h); for (auto &w: ws) VCHECK(hypT(r, w) == memberT(a, w), "the returned automaton and the system disagree on " << showT(w));
}
VISOLATE(C27, learn_exact, 12)
VTEST(C27, learn_exact, 3) {
  mayAbort(); bool single = rng.chance(75); IA a = smallTA(rng, single ? 3 : 2); if (single) a = only(a, 'a'); std::string s = "system " + showA(a); note(s);
  const auto &alpha = single ? ONE : ALPHA; TimedAutomaton t = build(a); TimedAutomaton c = t.complement(alpha);
  auto sul = std::make_unique<Sys>(a, 20000); auto mem = std::make_unique<SymbolicMembershipOracle>(std::move(sul));
  Learner l(alpha, std::move(mem), std::make_unique<ComplementTimedAutomataEquivalenceOracle>(t, c, alpha));
  TimedAutomaton h; try { h = l.run(); } catch (const std::logic_error &e) { throw Skip{}; }
  std::ostringstream o; o << h; s += "learned " + o.str(); note(s); TimedAutomatonRunner r(h);
  for (auto &w: pool(rng, a, 200, 5)) { if (single && w.getWord().find('b') != std::string::npos) continue; VCHECK(hypT(r, w) == memberT(a, w), "the learned automaton and the system disagree on " << showT(w)); }
}
VISOLATE(C26, analyze, 12)
VTEST(C26, analyze, 3) {
  mayAbort(); bool single = rng.chance(70); IA a = smallTA(rng, single ? 4 : 3); if (single) a = only(a, 'a'); std::string s = "system " + showA(a); note(s);
  auto sul = std::make_unique<Sys>(a, 20000); auto mem = std::make_unique<SymbolicMembershipOracle>(std::move(sul)); ObservationTable table(single ? ONE : ALPHA, std::move(mem));
  std::vector<TimedWord> ws = pool(rng, a, 150, 4); if (single) { std::vector<TimedWord> u; for (auto &w: ws) if (w.getWord().find('b') == std::string::npos) u.push_back(w); ws = u; }
  bool any = false;
  for (int round = 0; round < 8; round++) {
    while (!(table.close() && table.consistent() && table.exteriorConsistent() && table.timeSaturate())) {}
    RecognizableLanguage rl = table.toRecognizable(); int done = 0; std::optional<TimedWord> cex;
    for (auto &w: ws) {
      bool c; try { c = rl.contains(w); } catch (const std::exception &e) { continue; }
      if (c == memberT(a, w)) continue;
      if (!cex) cex = w; if (++done > 4) break;
      std::vector<BackwardRegionalElementaryLanguage> cs = table.suffixes; if (rng.chance(20)) cs.clear();
      auto r = analyzeCEX(w, *table.memOracle, rl, cs); any = true;
      // follow the rewriting independently
      TimedWord u = w; bool found = false; std::string tr = s + "counterexample " + showT(w) + "\n" + (r ? "returned " + showT(*r) : "returned nothing") + "\n"; int freshOnes = 0; bool hr = memberT(a, w);
      for (int k = 0; k < 50 && !rl.inPrefixes(u); k++) {
        auto t = rl.split(u); tr += "rewriting " + showT(u) + "\n"; note(tr); VCHECK(t, "a word outside the prefixes is not split"); tr += " prefix " + showT(t->prefix) + " suffix " + showT(t->suffix) + "\n"; note(tr);
        VCHECK(t->morphism.inDomain(t->prefix), "the prefix is not in the domain of the morphism");
        VCHECK(std::find(rl.morphisms.begin(), rl.morphisms.end(), t->morphism) != rl.morphisms.end(), "the morphism is not one of the language");
        TimedWord back = t->prefix + t->suffix; VCHECK(back.getWord() == u.getWord(), "prefix and suffix do not make the word"); for (size_t i = 0; i < u.getDurations().size(); i++) VCHECK(std::abs(back.getDurations()[i] - u.getDurations()[i]) < 1e-9, "prefix and suffix do not make the word");
        for (auto d: t->suffix.getDurations()) VCHECK(d >= 0, "negative duration"); 
        TimedWord v = t->morphism.maps(t->prefix) + t->suffix; 
        if (memberT(a, u) != memberT(a, v)) { bool fresh = true; for (auto &c: cs) if (c.contains(t->suffix)) fresh = false; if (fresh) freshOnes++; if (r && fresh && r->getWord() == t->suffix.getWord() && r->getDurations() == t->suffix.getDurations()) found = true; }
        u = v;
      }
      tr += "ends in " + showT(u) + "\n"; note(tr); VCHECK(rl.inPrefixes(u), "rewriting does not end"); VCHECK(hr != rl.isFinal(u), "contains does not follow the rewriting");
      if (r) VCHECK(found, "the returned suffix does not distinguish a word from its rewriting, or is not new"); else VCHECK(freshOnes == 0, "a new distinguishing suffix exists but none was returned");
    }
    if (!cex) break; try { table.handleCEX(*cex); } catch (const std::logic_error &e) { break; }
  }
  if (!any) throw Skip{};
}
static TimedWord rndTW(Rng &rng, int n) { std::string w; std::vector<double> d; int den = rng.pick(std::vector<int>{1, 2, 4, 8}); for (int k = 0; k <= n; k++) { if (k < n) w += rng.chance(70) ? 'a' : 'b'; d.push_back(rng.in(0, 3 * den) / (double) den); } return TimedWord{w, d}; }
VTEST(C26, split, 4) {
  TimedWord w = rndTW(rng, rng.in(0, 5)); auto ps = ForwardRegionalElementaryLanguage::fromTimedWord(w).prefixes(); std::string s = "word " + showT(w) + "\n";
  std::vector<SingleMorphism> ms; std::vector<ElementaryLanguage> doms; ElementaryLanguage e = ElementaryLanguage::empty(); int n = rng.in(1, 3); bool expect = false;
  for (int k = 0; k < n; k++) {
    auto qs = ps; if (rng.chance(30)) qs = ForwardRegionalElementaryLanguage::fromTimedWord(rndTW(rng, rng.in(0, 5))).prefixes();
    auto q = qs.at(rng.in(0, (int) qs.size() - 1)); ElementaryLanguage d{q.getWord(), q.getTimedCondition()}; doms.push_back(d); ms.push_back(SingleMorphism{d, e, RenamingRelation{}});
    for (auto &p: ps) if (p.getWord() == d.getWord() && p.getTimedCondition() == d.getTimedCondition()) expect = true;
    std::ostringstream o; o << d; s += "domain " + o.str() + "\n";
  }
  note(s); RecognizableLanguage rl({e}, {e}, ms); auto t = rl.split(w); VCHECK(t.has_value() == expect, "the word is split iff the region of one of its prefixes is a domain"); if (!t) return;
  s += "prefix " + showT(t->prefix) + " suffix " + showT(t->suffix) + "\n"; note(s); bool known = false; for (auto &m: ms) if (m == t->morphism) known = true;
  VCHECK(known, "the morphism is not one of the language"); VCHECK(t->morphism.inDomain(t->prefix), "the prefix is not in the domain of the morphism");
  TimedWord back = t->prefix + t->suffix; VCHECK(back.getWord() == w.getWord(), "prefix and suffix do not make the word"); for (size_t i = 0; i < w.getDurations().size(); i++) VCHECK(std::abs(back.getDurations()[i] - w.getDurations()[i]) < 1e-9, "prefix and suffix do not make the word");
  for (auto d: t->suffix.getDurations()) VCHECK(d >= 0, "negative duration");
}
VMAIN
