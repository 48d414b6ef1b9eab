#include "tcutil.hh"
#define private public
#define protected public
#include "forward_regional_elementary_language.hh"
#undef private
#undef protected
typedef ForwardRegionalElementaryLanguage FR; typedef BackwardRegionalElementaryLanguage BR;
typedef std::vector<std::vector<int>> Groups;
static const long DEN = 1L << 24;   // durations are multiples of 1 / DEN: exact in double
static long fr(long x) { return ((x % DEN) + DEN) % DEN; }
struct Run {                        // a concrete timed word; the region containing it is the reference
  std::string w; std::vector<long> d;
  int n() const { return d.size(); }
  long sum(int i, int j) const { long s = 0; for (int k = i; k <= j; k++) s += d[k]; return s; }
  std::vector<double> dur() const { std::vector<double> r; for (long x: d) r.push_back(x / (double) DEN); return r; }
  TimedWord word() const { return TimedWord(w, dur()); }
  RM cond() const { // v_0 = 0, v_i = d_(i-1) + ... + d_(n-1)
    int r = n() + 1; RM q = topRM(r);
    for (int i = 0; i < r; i++) for (int j = 0; j < r; j++) { if (i == j) { q[i][j] = {false, 0, true}; continue; }
      long x = (i == 0 ? 0 : sum(i - 1, n() - 1)) - (j == 0 ? 0 : sum(j - 1, n() - 1));
      double fl = (x - fr(x)) / (double) DEN; q[i][j] = toR(fr(x) == 0 ? Bounds(fl, true) : Bounds(fl + 1, false)); }
    return q;
  }
  long val(bool up, int i) const { return up ? sum(i, n() - 1) : -sum(0, i); }
  Groups order(bool up) const { std::map<long, std::vector<int>> m; m[0]; for (int i = 0; i < n(); i++) m[fr(val(up, i))].push_back(i); Groups g; for (auto &[k, v]: m) g.push_back(v); return g; }
  // time passes at the end (up) or at the beginning until the next region is entered
  Run later(bool up) const { bool pt = false; long gap = DEN; for (int i = 0; i < n(); i++) { long x = up ? sum(i, n() - 1) : sum(0, i); if (fr(x) == 0) pt = true; gap = std::min(gap, DEN - fr(x)); }
    if (pt && gap < 2) throw Skip{}; Run r = *this; (up ? r.d.back() : r.d.front()) += pt ? gap / 2 : gap; return r; }
};
static Groups norm(const FractionalOrder &o) { Groups g; for (auto &q: o.order) { std::vector<int> v(q.begin(), q.end()); std::sort(v.begin(), v.end()); g.push_back(v); } return g; }
static std::string show(const Groups &g) { std::ostringstream o; for (auto &v: g) { o << "{"; for (int x: v) o << " " << x; o << " }"; } return o.str(); }
static std::string show(const Run &r) { std::ostringstream o; for (size_t i = 0; i < r.d.size(); i++) { if (i) o << " " << r.w[i - 1] << " "; o << r.d[i] / (double) DEN; } return o.str(); }
static Run rndRun(Rng &rng, int n) { Run r; int den = rng.pick(std::vector<int>{1, 2, 4, 8, 8}); for (int i = 0; i <= n; i++) { if (i) r.w.push_back('a' + rng.in(0, 1)); r.d.push_back(rng.in(0, 2 * den) * (DEN / den)); } return r; }
template<class L> static void isRegion(const L &l, const Run &r, bool up, const char *what) {
  VCHECK(l.getWord() == r.w, what << ": events " << l.getWord() << " instead of " << r.w);
  sameAs(l.getTimedCondition().zone.value, r.cond(), what);
  if (up) VCHECK(norm(l.fractionalOrder) == r.order(up), what << ": order " << show(norm(l.fractionalOrder)) << " instead of " << show(r.order(up)));
  VCHECK(l.fractionalOrder.size == (size_t) r.n(), what << ": size of the order");
}
// ------------------------------------------------------------------------------------------------ C13
VTEST(C13, forward, 3) {
  Run r = rng.chance(30) ? Run{"", {0}} : rndRun(rng, rng.in(0, 3)); note("steps from the region of " + show(r));
  FR f = r.d.size() == 1 && r.d[0] == 0 && rng.chance(50) ? FR() : FR::fromTimedWord(r.word());
  isRegion(f, r, true, "region of the word"); VCHECK(f.contains(r.word()), "the region does not contain the word");
  for (int k = rng.in(1, 7); k > 0; k--) {
    FR prev = f; Run p = r; bool disc = rng.chance(35);
    if (disc) { char a = 'a' + rng.in(0, 1); f = prev.successor(a); r.w.push_back(a); r.d.push_back(0); note(std::string("event ") + a); }
    else { f = prev.successor(); r = r.later(true); note("time"); FR g = prev; g.successorAssign(); VCHECK(g == f, "successor and successorAssign differ"); }
    isRegion(f, r, true, disc ? "successor by an event" : "successor by time"); VCHECK(f.contains(r.word()), "the successor does not contain the run " << show(r));
    auto q = f.immediatePrefix(); VCHECK(q.has_value(), "no immediate prefix"); VCHECK(*q == prev, "the immediate prefix is not the language before the step"); isRegion(*q, p, true, "immediate prefix");
  }
}
VTEST(C13, prefixes, 1) {
  Run r{"", {0}}; FR f; std::vector<FR> all{f}; std::ostringstream o;
  for (int k = rng.in(0, 6); k > 0; k--) { if (rng.chance(35)) { f = f.successor('a'); o << "a"; } else { f = f.successor(); o << "."; } all.push_back(f); }
  note("steps " + o.str()); auto p = f.prefixes(); VCHECK(p.size() == all.size(), "number of prefixes " << p.size());
  for (size_t i = 0; i < p.size(); i++) VCHECK(p[i] == all[i], "prefix " << i);
}
VTEST(C13, backward, 3) {
  Run r = rng.chance(30) ? Run{"", {0}} : rndRun(rng, rng.in(0, 3)); note("steps back from the region of " + show(r));
  BR f = r.d.size() == 1 && r.d[0] == 0 && rng.chance(50) ? BR() : BR::fromTimedWord(r.word());
  isRegion(f, r, false, "region of the word"); VCHECK(f.contains(r.word()), "the region does not contain the word");
  for (int k = rng.in(1, 7); k > 0; k--) {
    BR prev = f; Run p = r; bool disc = rng.chance(35);
    if (disc) { char a = 'a' + rng.in(0, 1); f = prev.predecessor(a); r.w.insert(r.w.begin(), a); r.d.insert(r.d.begin(), 0); note(std::string("event ") + a); }
    else { f = prev.predecessor(); r = r.later(false); note("time"); }
    isRegion(f, r, false, disc ? "predecessor by an event" : "predecessor by time"); VCHECK(f.contains(r.word()), "the predecessor does not contain the run " << show(r));
    auto q = f.immediateSuffix(); VCHECK(q.has_value(), "no immediate suffix"); VCHECK(*q == prev, "the immediate suffix is not the language before the step"); isRegion(*q, p, false, "immediate suffix");
  }
}
VTEST(C13, suffix, 2) {
  Run r = rndRun(rng, rng.in(0, 3)); FR p = FR::fromTimedWord(r.word()), f = p; note("prefix " + show(r)); int k0 = r.n();
  for (int k = rng.in(0, 6); k > 0; k--) { if (rng.chance(35)) { f = f.successor('a'); note("event a"); } else { f = f.successor(); note("time"); } }
  BR s = f.suffix(p);
  auto all = (ElementaryLanguage(p.getWord(), p.getTimedCondition()) + s);
  VCHECK(all.getWord() == f.getWord(), "events of prefix and suffix");
  VCHECK(all.getTimedCondition().includes(f.getTimedCondition()), "the language is not included in the concatenation of the prefix and the suffix");
  // the suffix is the region of its words, with the order its predecessor relies on
  TimedWord w = s.sample(); Run q; q.w = w.getWord(); for (double x: w.getDurations()) { double y = x * DEN; if (y != std::floor(y)) throw Skip{}; q.d.push_back((long) y); }
  isRegion(s, q, false, "suffix"); (void) k0;
  for (int k = 0; k < 2 * q.n() + 1; k++) { s = s.predecessor(); q = q.later(false); note("time before the suffix"); isRegion(s, q, false, "predecessor of the suffix by time"); }
}
// ------------------------------------------------------------------------------------------------ C14
static Groups refGroups(const std::vector<double> &f) { std::map<double, std::vector<int>> m; m[0]; for (size_t i = 0; i < f.size(); i++) m[f[i]].push_back(i); Groups g; for (auto &[k, v]: m) g.push_back(v); return g; }
VTEST(C14, order, 2) {
  int n = rng.in(1, 6); std::vector<double> f; for (int i = 0; i < n; i++) f.push_back(rng.in(0, 7) / 8.0); std::ostringstream os; for (double x: f) os << x << " "; note("fractional parts " + os.str());
  FractionalOrder o(f); VCHECK(norm(o) == refGroups(f), "order " << show(norm(o))); VCHECK(o.getSize() == (size_t) n, "size");
  for (int k = 0; k < 8; k++) {
    Groups g = norm(o); FractionalOrder p = o; bool zero = !g.front().empty();
    std::vector<int> sv, pv; for (auto x: o.successorVariables()) sv.push_back(x); for (auto x: o.predecessorVariables()) pv.push_back(x); std::sort(sv.begin(), sv.end()); std::sort(pv.begin(), pv.end());
    VCHECK(sv == (zero ? g.front() : g.back()), "successor variables"); VCHECK(pv == (zero ? g.front() : g[1]), "predecessor variables");
    int c = rng.in(0, 3); note("operation " + std::to_string(c));
    if (c == 0) { FractionalOrder q = o.successor(), a = o; a.successorAssign(); Groups w = g; if (zero) w.insert(w.begin(), std::vector<int>{}); else { w.front() = w.back(); w.pop_back(); }
      VCHECK(norm(q) == w, "successor " << show(norm(q)) << " of " << show(g)); VCHECK(a == q, "successorAssign"); VCHECK(q.predecessor() == o, "the predecessor does not undo the successor"); o = q; }
    else if (c == 1) { FractionalOrder q = o.predecessor(); Groups w = g; if (zero) { w.push_back(w.front()); w.front().clear(); } else w.erase(w.begin());
      VCHECK(norm(q) == w, "predecessor " << show(norm(q)) << " of " << show(g)); VCHECK(q.successor() == o, "the successor does not undo the predecessor"); o = q; }
    else if (c == 2) { FractionalOrder q = o.extendN(); Groups w = g; w.front().push_back(o.getSize()); VCHECK(norm(q) == w && q.getSize() == o.getSize() + 1, "extendN"); VCHECK(q.removeN() == o, "removeN does not undo extendN"); o = q; }
    else { FractionalOrder q = o.extendZero(); Groups w = g; for (auto &v: w) for (int &x: v) x++; w.front().insert(w.front().begin(), 0); VCHECK(norm(q) == w && q.getSize() == o.getSize() + 1, "extendZero"); o = q; }
  }
}
VMAIN
