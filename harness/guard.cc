#include "common.hh"
#include <variant>
#include "constraint.hh"
#include "bounds.hh"
using namespace vh; using namespace learnta;
typedef std::vector<Constraint> Guard;
typedef Constraint::Order O;
// ---- independent oracle: evaluation of guards on a half-integer grid.  All constants are integers in [0, K], so two
// conjunctions of such constraints agree on all nonnegative reals iff they agree on {0, 1/2, 1, ..., K + 1/2}.
static bool holds(const Constraint &c, double v) {
  int o = static_cast<int>(c.odr); return o == 0 ? v < c.c : o == 1 ? v <= c.c : o == 2 ? v >= c.c : v > c.c;
}
static bool holds(const Guard &g, const std::vector<double> &v) { for (auto &c: g) if (!holds(c, v.at(c.x))) return false; return true; }
static std::string show(const Guard &g) { std::ostringstream o; o << "{"; for (auto &c: g) o << " x" << (int) c.x << (c.odr == O::lt ? "<" : c.odr == O::le ? "<=" : c.odr == O::ge ? ">=" : ">") << c.c; o << " }"; return o.str(); }
static std::string show(const std::vector<Guard> &gs) { std::string s; for (auto &g: gs) s += show(g) + " "; return s; }
static std::string show(const std::vector<double> &v) { std::ostringstream o; for (double d: v) o << d << " "; return o.str(); }
static Constraint con(int x, O o, int c) { return Constraint{static_cast<ClockVariables>(x), o, c}; }
static const O ORD[] = {O::lt, O::le, O::ge, O::gt};
static Guard rndGuard(Rng &r, int clocks, int maxLen, int K) { Guard g; int n = r.in(0, maxLen); for (int i = 0; i < n; i++) g.push_back(con(r.in(0, clocks - 1), ORD[r.in(0, 3)], r.in(0, K))); return g; }
// at most one upper and one lower bound per clock
static Guard rndSimpleGuard(Rng &r, int clocks, int K, bool nonEmpty) {
  Guard g; do { g.clear(); for (int x = 0; x < clocks; x++) { int a = r.in(0, K), b = r.in(a, K); bool lo = r.chance(50), up = r.chance(50);
    if (lo) g.push_back(con(x, r.chance(50) ? O::ge : O::gt, a));
    if (up) g.push_back(con(x, r.chance(50) ? O::le : O::lt, b)); }
    for (size_t i = g.size(); i > 1; i--) std::swap(g[i - 1], g[r.in(0, i - 1)]);
  } while (nonEmpty && g.empty()); return g;
}
template<class F> static void grid(int clocks, int K, F f) {
  std::vector<double> v(clocks, 0.0);
  for (;;) { f(v); int i = 0; for (; i < clocks; i++) { v[i] += 0.5; if (v[i] <= K + 0.5) break; v[i] = 0; } if (i == clocks) break; }
}
static bool sat(const Guard &g, int clocks, int K) { bool r = false; grid(clocks, K, [&](const std::vector<double> &v) { r = r || holds(g, v); }); return r; }
static void sameGuard(const Guard &a, const Guard &b, int clocks, int K, const char *what) {
  grid(clocks, K, [&](const std::vector<double> &v) { VCHECK(holds(a, v) == holds(b, v), what << ": " << show(a) << " and " << show(b) << " differ at " << show(v)); });
}

VTEST(C01, comparison, 2) {
  // exhaustive over order x constant x value
  int o = index % 4, c = (index / 4) % 7, k = (index / 28) % 16, x = rng.in(0, 2);
  double v = k / 2.0; if (rng.chance(30)) v += rng.pick(std::vector<double>{0.25, 0.125, -0.25}); if (v < 0) v = 0;
  Constraint a = con(x, ORD[o], c); std::vector<double> val{9.5, 9.5, 9.5}; val[x] = v;
  std::ostringstream s; s << show(Guard{a}) << " at " << v; note(s.str());
  bool want = holds(a, v);
  VCHECK(a.satisfy(v) == want, "satisfy(double)"); VCHECK(a.satisfy(val) == want, "satisfy(valuation)");
  VCHECK(a.negate().satisfy(v) == !want && a.negate().x == a.x, "negate gives " << show(Guard{a.negate()}));
  auto ord = a(val); bool up = o < 2;
  VCHECK((ord == learnta::Order::EQ) == want, "comparison says EQ"); if (!want) VCHECK(ord == (up ? learnta::Order::GT : learnta::Order::LT), "comparison direction");
  VCHECK(a.isUpperBound() == up, "isUpperBound");
  auto b = a.toBound(); VCHECK(b.first == c && b.second == (o == 1 || o == 2), "toBound");
  auto d = a.toDBMBound(); VCHECK(d.first == (up ? c : -c) && d.second == (o == 1 || o == 2), "toDBMBound");
  ConstraintMaker m(x); Constraint w = o == 0 ? m < c : o == 1 ? m <= c : o == 2 ? m >= c : m > c; VCHECK(w == a, "ConstraintMaker");
  Constraint e = con(rng.in(0, 2), ORD[rng.in(0, 3)], rng.in(0, 6)); VCHECK((e == a) == (e.x == a.x && e.odr == a.odr && e.c == a.c), "operator==");
  if (a.isWeaker(e)) grid(3, 7, [&](const std::vector<double> &u) { VCHECK(!holds(e, u.at(e.x)) || holds(a, u.at(a.x)), show(Guard{a}) << " reported weaker than " << show(Guard{e}) << ", which is not so at " << show(u)); });
  if (a.x == e.x && (a.isUpperBound() == e.isUpperBound())) { bool weaker = true; grid(3, 7, [&](const std::vector<double> &u) { if (holds(e, u.at(e.x)) && !holds(a, u.at(a.x))) weaker = false; }); bool trivial = sat({e}, 3, 7); if (trivial) VCHECK(a.isWeaker(e) == weaker || (!a.isUpperBound() && a.c == 0 && a.odr == O::ge) , show(Guard{a}) << " versus " << show(Guard{e}) << ": isWeaker gives " << a.isWeaker(e)); }
}
VTEST(C01, satisfiable, 2) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 5, K); note(show(g)); bool got = satisfiable(g);
  VCHECK(got == sat(g, clocks, K), "satisfiable returns " << got);
}
VTEST(C01, simplify, 2) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 6, K); note(show(g)); Guard s = simplify(g);
  sameGuard(g, s, clocks, K, "simplify");
  std::set<std::pair<int, bool>> seen; for (auto &c: s) VCHECK(seen.emplace(c.x, c.isUpperBound()).second, "simplify keeps two bounds of one kind for one clock: " << show(s));
}
VTEST(C01, toBounds, 2) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 6, K); note(show(g));
  const auto [up, lo] = toBounds(g); VCHECK(up.size() == lo.size(), "sizes differ");
  size_t want = 0; for (auto &c: g) want = std::max<size_t>(want, c.x + 1); VCHECK(up.size() == want, "one pair of bounds for every clock up to the largest");
  auto &u_ = up; auto &l_ = lo;
  grid(clocks, K, [&](const std::vector<double> &v) { bool in = true; for (size_t i = 0; i < u_.size(); i++) { in = in && (v[i] < u_[i].first || (v[i] == u_[i].first && u_[i].second)) && (v[i] > l_[i].first || (v[i] == l_[i].first && l_[i].second)); }
    VCHECK(in == holds(g, v), "the bounds differ from the guard at " << show(v)); });
}
VTEST(C01, conjunction, 1) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 4, K), h = rndGuard(rng, clocks, 4, K); note(show(g) + " and " + show(h)); Guard c = conjunction(g, h);
  grid(clocks, K, [&](const std::vector<double> &v) { VCHECK(holds(c, v) == (holds(g, v) && holds(h, v)), "conjunction " << show(c) << " at " << show(v)); });
}
VTEST(C01, isWeaker, 2) {
  int clocks = rng.in(1, 2), K = 3; Guard g = rng.chance(50) ? rndSimpleGuard(rng, clocks, K, false) : rndGuard(rng, clocks, 3, K), h = rng.chance(50) ? g : rndGuard(rng, clocks, 4, K);
  if (rng.chance(50) && !h.empty()) h.at(rng.in(0, h.size() - 1)).c = rng.in(0, K);
  note(show(g) + " versus " + show(h));
  if (isWeaker(g, h)) grid(clocks, K, [&](const std::vector<double> &v) { VCHECK(!holds(h, v) || holds(g, v), "reported weaker, which is not so at " << show(v)); });
  else { bool all = true; for (auto &c: g) { bool any = false; for (auto &d: h) any = any || (c.x == d.x && c.isUpperBound() == d.isUpperBound() && (c.isUpperBound() ? (d.c < c.c || (d.c == c.c && (c.odr == O::le || d.odr == O::lt))) : (d.c > c.c || (d.c == c.c && (c.odr == O::ge || d.odr == O::gt))))); all = all && any; }
    VCHECK(!all, "every conjunct is implied by one conjunct of the other, but not reported weaker"); }
}
VTEST(C01, widen, 1) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 6, K), w = g; note(show(g)); widen(w); Guard want; for (auto &c: g) if (c.odr == O::lt || c.odr == O::le) want.push_back(c);
  sameGuard(w, want, clocks, K, "widen must drop exactly the lower bounds");
}
VTEST(C01, simpleVariables, 2) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rng.chance(60) ? rndSimpleGuard(rng, clocks, K, false) : rndGuard(rng, clocks, 6, K); note(show(g)); if (!sat(g, clocks, K)) throw Skip{};
  std::vector<ClockVariables> got = simpleVariables(g), want; 
  for (int x = 0; x < clocks; x++) { std::set<double> vals; grid(clocks, K, [&](const std::vector<double> &v) { if (holds(g, v)) vals.insert(v[x]); }); if (vals.size() == 1 && *vals.begin() <= K) want.push_back(x); }
  VCHECK(got == want, "the clocks whose values form a point or an open unit interval");
}

VTEST(C02, negate, 6) {
  int clocks = rng.in(1, 3), K = rng.in(1, 3); int n = rng.in(1, 4); std::vector<Guard> d; bool simple = rng.chance(60);
  bool trivial = rng.chance(10);
  for (int i = 0; i < n; i++) { Guard g; do g = simple ? rndSimpleGuard(rng, clocks, K, !trivial) : rndGuard(rng, clocks, 4, K); while (g.empty() && !trivial); d.push_back(g); }
  note(show(d)); auto neg = negate(d);
  grid(clocks, K, [&](const std::vector<double> &v) { bool in = false, out = false; for (auto &g: d) in = in || holds(g, v); for (auto &g: neg) out = out || holds(g, v);
    VCHECK(in != out, "at " << show(v) << ": input " << in << ", negation " << out << "; negation is " << show(neg)); });
}
VTEST(C02, negateAll, 1) {
  int clocks = rng.in(1, 3), K = 3; Guard g = rndGuard(rng, clocks, 5, K); note(show(g)); Guard n = negateAll(g); VCHECK(n.size() == g.size(), "size");
  for (size_t i = 0; i < g.size(); i++) VCHECK(n[i] == g[i].negate(), "conjunct " << i);
}
static std::string bad(const std::vector<Guard> &gs, const Guard &h, int clocks) {
  for (int x = 0; x < clocks; x++) for (bool up: {true, false}) {
    bool all = true; Constraint best{}; bool any = false;
    for (auto &g: gs) { bool f = false; for (auto &c: g) if (c.x == x && (c.odr == O::lt || c.odr == O::le) == up) { f = true;
        bool nonstrict = c.odr == O::le || c.odr == O::ge, bn = best.odr == O::le || best.odr == O::ge;
        if (!any || (up ? c.c > best.c : c.c < best.c) || (c.c == best.c && nonstrict && !bn)) best = c; any = true; } all = all && f; }
    int cnt = 0; Constraint got{}; for (auto &c: h) if (c.x == x && (c.odr == O::lt || c.odr == O::le) == up) { cnt++; got = c; }
    std::ostringstream o; o << "x" << x << (up ? " from above: " : " from below: ");
    if (all && cnt != 1) return o.str() + "bounded by every guard, but not (once) by the hull";
    if (!all && cnt != 0) return o.str() + "not bounded by every guard, but by the hull";
    if (all && !(got.odr == best.odr && got.c == best.c)) return o.str() + "not the loosest of the given bounds";
  }
  return "";
}
VTEST(C03, unionHull, 5) {
  int clocks = rng.in(1, 3), K = 3; int n = rng.in(1, 4); std::vector<Guard> gs; for (int i = 0; i < n; i++) gs.push_back(rndSimpleGuard(rng, clocks, K, rng.chance(80)));
  if (rng.chance(40) && n > 1) { gs[1] = gs[0]; for (auto &c: gs[1]) if (rng.chance(30)) c.odr = c.odr == O::le ? O::lt : c.odr == O::lt ? O::le : c.odr == O::ge ? O::gt : O::ge; }
  note(show(gs)); Guard h = unionHull(gs); std::string b = bad(gs, h, clocks); VCHECK(b.empty(), b << "; hull " << show(h));
  for (auto &g: gs) grid(clocks, K, [&](const std::vector<double> &v) { VCHECK(!holds(g, v) || holds(h, v), show(g) << " admits " << show(v) << " but the hull " << show(h) << " does not"); });
}
VTEST(C03, unionHull2, 3) {
  int clocks = rng.in(1, 3), K = 3; Guard a = rndSimpleGuard(rng, clocks, K, false), b = rndSimpleGuard(rng, clocks, K, false); note(show(a) + " with " + show(b));
  Guard h = unionHull(a, b), k = unionHull(b, a); std::string s = bad({a, b}, h, clocks); VCHECK(s.empty(), s << "; hull " << show(h)); sameGuard(h, k, clocks, K, "the hull depends on the order");
}
int main(int c, char **v) { return vh::run(c, v); }
