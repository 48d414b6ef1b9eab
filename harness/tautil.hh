// Independent description, generator and interpreter of timed automata; conversion to and from the library's automata.
#pragma once
#include "dbm.hh"
#include "common.hh"
#include <variant>
#include <optional>
#include <boost/unordered_map.hpp>
#include <boost/unordered_set.hpp>
#include "zone.hh"
#include "timed_automaton.hh"
#include "timed_automaton_runner.hh"
#include "timed_word.hh"
using namespace vh; using namespace learnta;
typedef std::vector<Constraint> Guard;
typedef Constraint::Order O;
typedef TATransition::Resets Resets;
struct IT { int tgt; Guard g; Resets r; };
struct IS { bool acc; std::map<char, std::vector<IT>> next; };
struct IA { int nclk; int init; std::vector<IS> st; };
struct Step { double d; char e; };
typedef std::vector<Step> Word;
static const std::vector<Alphabet> ALPHA{'a', 'b'};

static bool holds1(const Constraint &c, double v) { int o = static_cast<int>(c.odr); return o == 0 ? v < c.c : o == 1 ? v <= c.c : o == 2 ? v >= c.c : v > c.c; }
static bool holdsG(const Guard &g, const std::vector<double> &v) { for (auto &c: g) { if (c.x >= v.size()) fail("a guard mentions a clock that does not exist"); if (!holds1(c, v[c.x])) return false; } return true; }
static std::vector<double> updClocks(const std::vector<double> &v, const Resets &r) {
  std::vector<double> w = v;
  for (auto &[x, y]: r) { if (x >= v.size() || (y.index() == 1 && std::get<1>(y) >= v.size())) fail("an update mentions a clock that does not exist"); w[x] = y.index() == 1 ? v[std::get<1>(y)] : std::get<0>(y); }
  return w;
}
static std::string showC(const Constraint &c) { std::ostringstream o; o << "x" << (int) c.x << (c.odr == O::lt ? "<" : c.odr == O::le ? "<=" : c.odr == O::ge ? ">=" : ">") << c.c; return o.str(); }
static std::string showG(const Guard &g) { std::string s = "{"; for (auto &c: g) s += " " + showC(c); return s + " }"; }
static std::string showR(const Resets &r) { std::ostringstream o; o << "["; for (auto &[x, y]: r) { o << " x" << (int) x << ":="; if (y.index() == 1) o << "x" << (int) std::get<1>(y); else o << std::get<0>(y); } o << " ]"; return o.str(); }
static std::string showA(const IA &a) {
  std::ostringstream o; o << a.nclk << " clocks, initial " << a.init << "\n";
  for (size_t i = 0; i < a.st.size(); i++) { o << " state " << i << (a.st[i].acc ? " accepting" : "") << "\n"; for (auto &[c, ts]: a.st[i].next) for (auto &t: ts) o << "   " << c << " " << showG(t.g) << " " << showR(t.r) << " -> " << t.tgt << "\n"; }
  return o.str();
}
static std::string showW(const Word &w) { std::ostringstream o; for (auto &s: w) o << s.d << " " << s.e << " "; return o.str(); }
static Constraint mkc(int x, O o, int c) { return Constraint{static_cast<ClockVariables>(x), o, c}; }
static bool disjoint(const Guard &a, const Guard &b, int nclk) { // no valuation of the half-integer grid in both
  for (int x = 0; x < nclk; x++) { bool any = false; for (int k = 0; k <= 14 && !any; k++) { bool ok = true; for (auto &c: a) if (c.x == x && !holds1(c, k / 2.0)) ok = false; for (auto &c: b) if (c.x == x && !holds1(c, k / 2.0)) ok = false; any = ok; } if (!any) return true; }
  return false;
}
struct GenOpt { int maxClk = 3, maxSt = 4, K = 3; bool halves = true, copies = true, consts = true; };
static Resets rndResets(Rng &r, int nclk, const GenOpt &o) {
  Resets res; std::vector<int> order; for (int x = 0; x < nclk; x++) order.push_back(x);
  for (int i = nclk; i > 1; i--) std::swap(order[i - 1], order[r.in(0, i - 1)]);
  for (int x: order) { if (r.chance(50)) continue; int k = r.in(0, 99);
    if (k < 30 && o.copies && nclk > 1) res.emplace_back(x, static_cast<ClockVariables>(r.in(0, nclk - 1)));
    else if (k < 42 && o.consts) res.emplace_back(x, (double) r.in(1, o.K));
    else if (k < 48 && o.halves) res.emplace_back(x, r.in(0, 2) + 0.5);
    else res.emplace_back(x, 0.0); }
  return res;
}
static void partition(Rng &r, int nclk, int K, int depth, Guard g, std::vector<Guard> &out) {
  if (nclk == 0 || r.chance(depth == 0 ? 25 : 55) || depth > 1) { for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[r.in(0, i - 1)]); out.push_back(g); return; }
  int x = r.in(0, nclk - 1), c = r.in(0, K); bool strict = r.chance(50); if (c == 0) strict = false;
  Guard lo = g, hi = g; lo.push_back(mkc(x, strict ? O::lt : O::le, c)); hi.push_back(mkc(x, strict ? O::ge : O::gt, c));
  if (r.chance(35)) { int c2 = r.in(c, K); bool s2 = r.chance(50); if (c2 == c && !(strict && !s2)) { s2 = false; c2 = c + 1; } Guard mid = hi; mid.push_back(mkc(x, s2 ? O::lt : O::le, c2)); partition(r, nclk, K, depth + 1, mid, out); hi = g; hi.push_back(mkc(x, s2 ? O::ge : O::gt, c2)); }
  partition(r, nclk, K, depth + 1, lo, out); partition(r, nclk, K, depth + 1, hi, out);
}
static IA rndTA(Rng &r, const GenOpt &o = GenOpt()) {
  IA a; a.nclk = r.in(1, o.maxClk); if (r.chance(4)) a.nclk = 0; int n = r.in(1, o.maxSt); a.st.resize(n); a.init = r.chance(80) ? 0 : r.in(0, n - 1);
  for (auto &s: a.st) { s.acc = r.chance(45);
    for (char c: ALPHA) { if (r.chance(15)) continue; std::vector<Guard> gs; partition(r, a.nclk, o.K, 0, {}, gs);
      for (size_t i = gs.size(); i > 1; i--) std::swap(gs[i - 1], gs[r.in(0, i - 1)]);
      int tgt = r.in(0, n - 1); Resets rs = rndResets(r, a.nclk, o);
      for (auto &g: gs) { if (r.chance(20)) continue; if (r.chance(60)) tgt = r.in(0, n - 1); if (r.chance(60)) rs = rndResets(r, a.nclk, o); s.next[c].push_back({tgt, g, rs}); }
      if (s.next[c].empty() && r.chance(60)) s.next.erase(c); } }
  return a;
}
static IA mutate(Rng &r, IA a) { // a small change that keeps it deterministic
  for (int tries = 0; tries < 20; tries++) {
    IA b = a; int s = r.in(0, b.st.size() - 1); int k = r.in(0, 9);
    if (k == 0) b.st[s].acc = !b.st[s].acc;
    else { if (b.st[s].next.empty()) continue; auto it = b.st[s].next.begin(); std::advance(it, r.in(0, b.st[s].next.size() - 1)); if (it->second.empty()) continue; IT &t = it->second[r.in(0, it->second.size() - 1)];
      if (k <= 2) t.tgt = r.in(0, b.st.size() - 1);
      else if (k <= 4) t.r = rndResets(r, b.nclk, GenOpt());
      else if (k == 5) { t.g.clear(); if (it->second.size() > 1) continue; }
      else { if (t.g.empty()) continue; Constraint &c = t.g[r.in(0, t.g.size() - 1)]; if (k <= 7) c.odr = c.odr == O::lt ? O::le : c.odr == O::le ? O::lt : c.odr == O::ge ? O::gt : O::ge; else c.c = r.in(0, 4); }
      bool ok = true; for (auto &u: it->second) if (&u != &t && !disjoint(u.g, t.g, b.nclk)) ok = false; if (!ok) continue; }
    a = b; if (r.chance(60)) break;
  }
  return a;
}
static TimedAutomaton build(const IA &a) {
  TimedAutomaton t; t.maxConstraints.assign(a.nclk, 0);
  for (auto &s: a.st) t.states.push_back(std::make_shared<TAState>(s.acc));
  for (size_t i = 0; i < a.st.size(); i++) for (auto &[c, ts]: a.st[i].next) { auto &v = t.states[i]->next[c]; for (auto &x: ts) { v.emplace_back(t.states[x.tgt].get(), x.r, x.g); for (auto &k: x.g) t.maxConstraints[k.x] = std::max(t.maxConstraints[k.x], k.c); } }
  t.initialStates = {t.states[a.init]}; return t;
}
// ---- interpreter of the description
struct Conf { int q; std::vector<double> v; };
static Conf startOf(const IA &a) { return {a.init, std::vector<double>(a.nclk, 0.0)}; }
static const IT *enabled(const IA &a, const Conf &c, char e) {
  auto it = a.st[c.q].next.find(e); if (it == a.st[c.q].next.end()) return nullptr; const IT *r = nullptr;
  for (auto &t: it->second) if (holdsG(t.g, c.v)) { if (r) fail("the generated automaton is not deterministic"); r = &t; }
  return r;
}
static void delay(Conf &c, double d) { if (c.q >= 0) for (auto &x: c.v) x += d; }
static void event(const IA &a, Conf &c, char e) { if (c.q < 0) return; auto t = enabled(a, c, e); if (!t) { c.q = -1; return; } c.v = updClocks(c.v, t->r); c.q = t->tgt; }
static bool accept(const IA &a, const Conf &c) { return c.q >= 0 && a.st[c.q].acc; }
static bool accepts(const IA &a, const Word &w) { Conf c = startOf(a); for (auto &s: w) { delay(c, s.d); event(a, c, s.e); } return accept(a, c); }
// ---- interpreter of the library's automaton as a graph (all runs); checks that at most one transition is enabled
struct RConf { TAState *q; std::vector<double> v; };
struct RRun { const TimedAutomaton &t; std::vector<RConf> cs; bool nondet = false;
  explicit RRun(const TimedAutomaton &t) : t(t) { for (auto &s: t.initialStates) cs.push_back({s.get(), std::vector<double>(t.clockSize(), 0.0)}); }
  void delay(double d) { for (auto &c: cs) for (auto &x: c.v) x += d; }
  void event(char e) { std::vector<RConf> ns; for (auto &c: cs) { auto it = c.q->next.find(e); if (it == c.q->next.end()) continue; int k = 0;
      for (auto &tr: it->second) if (holdsG(tr.guard, c.v)) { k++; bool known = false; for (auto &s: t.states) if (s.get() == tr.target) known = true; if (!known) fail("a transition leads to a state that is not a state of the automaton"); ns.push_back({tr.target, updClocks(c.v, tr.resetVars)}); }
      if (k > 1) nondet = true; } cs.clear(); for (auto &c: ns) { bool dup = false; for (auto &d: cs) if (d.q == c.q && d.v == c.v) dup = true; if (!dup) cs.push_back(c); } }
  bool accept() const { for (auto &c: cs) if (c.q->isMatch) return true; return false; }
};
static bool acceptsR(const TimedAutomaton &t, const Word &w) { RRun r(t); for (auto &s: w) { r.delay(s.d); r.event(s.e); } return r.accept(); }
// ---- words that hit the thresholds of the automaton
static double guidedDelay(Rng &r, const IA &a, const Conf &c) {
  int k = r.in(0, 9); if (k == 0) return 0; if (k <= 3 || c.q < 0) return r.in(0, 12) / 4.0;
  std::vector<double> cand; for (auto &[e, ts]: a.st[c.q].next) for (auto &t: ts) for (auto &g: t.g) { double d = g.c - c.v[g.x]; if (d >= 0) cand.push_back(d); }
  if (cand.empty()) return r.in(0, 12) / 4.0; double d = r.pick(cand); if (k <= 7) return d; return std::max(0.0, d + (r.chance(50) ? 0.25 : -0.25));
}
static Word guided(Rng &r, const IA &a, int maxLen, bool foreign = false) {
  Word w; Conf c = startOf(a); int n = r.in(0, maxLen);
  for (int i = 0; i < n; i++) { double d = guidedDelay(r, a, c); char e = r.pick(ALPHA); if (foreign && r.chance(3)) e = 'c'; Conf c1 = c; delay(c1, d);
    for (int t = 0; t < 3 && c1.q >= 0; t++) { Conf c2 = c1; event(a, c2, e); if (c2.q >= 0 || r.chance(15)) break; d = guidedDelay(r, a, c); e = r.pick(ALPHA); c1 = c; delay(c1, d); }
    event(a, c1, e); c = c1; w.push_back({d, e}); }
  return w;
}
static Word wordOf(const TimedWord &t) { Word w; for (size_t i = 0; i < t.wordSize(); i++) w.push_back({t.getDurations().at(i), t.getWord()[i]}); return w; }
struct NoLog { NoLog() { boost::log::core::get()->set_logging_enabled(false); } };
static NoLog nolog_;
