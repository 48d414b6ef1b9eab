#include "dbm.hh"
using namespace vh; using namespace learnta;
typedef std::vector<std::pair<ClockVariables, std::variant<double, ClockVariables>>> Upd;
static Zone mk(const BM &m) { return Zone(m); }
static std::string showUpd(const Upd &u) { std::ostringstream o; for (auto &[x, s]: u) { o << "x" << (int) x << ":="; if (s.index() == 0) o << std::get<double>(s); else o << "x" << (int) std::get<ClockVariables>(s); o << " "; } return o.str(); }
static int divOf(Rng &r) { return r.chance(25) ? 2 : 1; }
static bool canonicalForm(const BM &m, bool strictDiag = false) {   // equal to the reference normal form off the diagonal
  RM q = toRM(m); if (!close(q)) return true;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (i != j && !eqR(q[i][j], toR(m(i, j)))) return false;
  return true;
}
static void sameAs(const BM &got, const RM &want, const char *what) {
  VCHECK(sameSet(toRM(got), want), what << ": got\n" << show(got) << "want (any equivalent matrix)\n" << show(want));
}
// a zone as the analysis builds it: top, then bounds
static BM rndRaw(Rng &rng, int dim) { return rndMatrix(rng, dim, 4, rng.pick(std::vector<int>{20, 50, 80}), divOf(rng), true); }

VTEST(C04, canonize, 3) {
  int dim = rng.in(1, 5); BM m = rndRaw(rng, dim); note("canonize of\n" + show(m));
  Zone z = mk(m); z.canonize();
  sameAs(z.value, toRM(m), "canonize changes the set of valuations");
  VCHECK(canonicalForm(z.value), "not in normal form:\n" << show(z.value));
}
VTEST(C04, satisfiable, 3) {
  int dim = rng.in(1, 5); BM m = rndMatrix(rng, dim, 3, rng.pick(std::vector<int>{10, 30, 60}), divOf(rng), true); note("isSatisfiable of\n" + show(m));
  RM q = toRM(m); bool want = close(q);
  Zone z = mk(m); bool got = z.isSatisfiable(); VCHECK(got == want, "isSatisfiable returned " << got);
  Zone y = mk(m); got = static_cast<bool>(y); VCHECK(got == want, "operator bool returned " << got);
  if (want) { Zone x = mk(fromRM(q)); VCHECK(x.isSatisfiableNoCanonize(), "isSatisfiableNoCanonize on a non-empty zone in normal form"); sameAs(z.value, toRM(m), "isSatisfiable changes the set"); }
}
VTEST(C04, tightenDifference, 3) {
  int dim = rng.in(2, 5); BM m = rndCanonical(rng, dim, 4, 50, rng.chance(50), divOf(rng));
  if (rng.chance(30)) for (int i = 0; i < dim; i++) m(i, i) = Bounds(std::numeric_limits<double>::max(), false);
  int x = rng.in(-1, dim - 2), y = rng.in(-1, dim - 2); Bounds c = rndBound(rng, -4, 4, 5, divOf(rng));
  std::ostringstream o; o << "tighten(" << x << ", " << y << ", (" << c.first << "," << c.second << ")) of\n" << show(m); note(o.str());
  Zone z = mk(m); z.tighten(x, y, c);
  RM w = toRM(m); R b = toR(c); if (lessR(b, w[x + 1][y + 1])) w[x + 1][y + 1] = b;
  sameAs(z.value, w, "tighten"); 
  RM t = w; if (close(t)) VCHECK(canonicalForm(z.value), "tighten of a zone in normal form is not in normal form:\n" << show(z.value));
}
VTEST(C04, tightenGuard, 3) {
  int dim = rng.in(2, 4); BM m = rndCanonical(rng, dim, 4, 50, rng.chance(50));
  std::vector<Constraint> g; int n = rng.in(0, 4); std::ostringstream o; RM w = toRM(m);
  static const std::vector<Constraint::Order> ords{Constraint::Order::lt, Constraint::Order::le, Constraint::Order::ge, Constraint::Order::gt};
  for (int i = 0; i < n; i++) {
    Constraint c{static_cast<ClockVariables>(rng.in(0, dim - 2)), rng.pick(ords), rng.in(0, 4)}; g.push_back(c); o << c << " ";
    bool up = c.odr == Constraint::Order::lt || c.odr == Constraint::Order::le; bool cl = c.odr == Constraint::Order::ge || c.odr == Constraint::Order::le;
    R b{false, up ? (double) c.c : -(double) c.c, cl}; R &e = up ? w[c.x + 1][0] : w[0][c.x + 1]; if (lessR(b, e)) e = b;
  }
  note("tighten({" + o.str() + "}) of\n" + show(m));
  Zone z = mk(m); z.tighten(g); sameAs(z.value, w, "tighten with a guard");
  Zone y = mk(m); for (auto &c: g) y.tighten(c); sameAs(y.value, w, "tighten with constraints one by one");
}
VTEST(C04, intersection, 3) {
  int dim = rng.in(1, 5), d = divOf(rng); BM a = rndRaw(rng, dim), b = rndRaw(rng, dim); (void) d;
  note("intersection of\n" + show(a) + "and\n" + show(b));
  RM w = meet(toRM(a), toRM(b));
  Zone x = mk(a), y = mk(b); Zone r = x && y; sameAs(r.value, w, "operator&&"); VCHECK(canonicalForm(r.value), "result of && is not in normal form\n" << show(r.value));
  Zone s = mk(a); s &= y; sameAs(s.value, w, "operator&="); VCHECK(canonicalForm(s.value), "result of &= is not in normal form\n" << show(s.value));
  VCHECK(x.value == a && y.value == b, "the operands of && changed");
}
VTEST(C04, includes, 3) {
  int dim = rng.in(1, 4); BM a = rndCanonical(rng, dim, 3, 40, rng.chance(50)), b;
  if (rng.chance(50)) { RM w = toRM(a); int k = rng.in(1, 2); for (int t = 0; t < k; t++) { int i = rng.in(0, dim - 1), j = rng.in(0, dim - 1); if (i != j) w[i][j] = toR(rndBound(rng, -3, 3, 20)); } if (!close(w)) throw Skip{}; b = fromRM(w); }
  else b = rndCanonical(rng, dim, 3, 40, rng.chance(50));
  note("inclusion between normal forms A\n" + show(a) + "and B\n" + show(b));
  VCHECK(mk(a).includes(mk(b)) == subsetOf(toRM(b), toRM(a)), "A.includes(B)");
  VCHECK(mk(b).includes(mk(a)) == subsetOf(toRM(a), toRM(b)), "B.includes(A)");
  VCHECK((mk(a) == mk(b)) == sameSet(toRM(a), toRM(b)), "A == B");
}
VTEST(C04, topZero, 1) {
  int n = rng.in(1, 5); note("top/zero of size " + std::to_string(n));
  Zone t = Zone::top(n); VCHECK(t.value.rows() == n && t.value.cols() == n, "size of top"); VCHECK(t.getNumOfVar() == (size_t) n - 1, "number of variables");
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) VCHECK(toR(t.value(i, j)).inf, "top constrains");
  if (n > 1) { Zone u = Zone::top(n); u.tighten(0, -1, Bounds(1, true)); Zone v = Zone::top(n); VCHECK(v == t, "top is shared"); }
  Zone z = Zone::zero(n); RM w(n, std::vector<R>(n, R{false, 0, true})); sameAs(z.value, w, "zero");
}
VTEST(C04, valuationZone, 1) {
  int n = rng.in(0, 4); std::vector<double> v; RM w(n + 1, std::vector<R>(n + 1, R{true, 0, false}));
  for (int i = 0; i < n; i++) { v.push_back(rng.in(0, 16) / 4.0); w[i + 1][0] = {false, v[i], true}; w[0][i + 1] = {false, -v[i], true}; }
  note("zone of the valuation " + str(v)); Bounds M(3, true); Zone z(v, M); sameAs(z.value, w, "Zone(valuation)"); VCHECK(z.M == M, "M");
  VCHECK(z.maxConstraints == std::vector<double>(n, 3), "maxConstraints");
}
// ------------------------------------------------------------------------------------------------ C05
struct Iv { double lo = -1e9, hi = 1e9; bool lc = true, hc = true;
  void below(double c, bool cl) { if (c < hi || (c == hi && !cl)) { hi = c; hc = cl; } }
  void above(double c, bool cl) { if (c > lo || (c == lo && !cl)) { lo = c; lc = cl; } }
  bool nonempty() const { return lo < hi || (lo == hi && lc && hc); } };
// exists d in the interval such that v - d (all clocks) is in m
static bool delayedIn(const RM &m, const std::vector<double> &v, bool forward) {
  Iv d; d.above(0, true); int n = m.size();
  if (!satR(m[0][0], 0)) return false;
  for (int i = 1; i < n; i++) {
    for (int j = 1; j < n; j++) if (!satR(m[i][j], v[i] - v[j])) return false;
    // forward: w = v - d ; backward: w = v + d ; w_i <= b(i,0), -w_i <= b(0,i)
    if (!m[i][0].inf) { if (forward) d.above(v[i] - m[i][0].c, m[i][0].closed); else d.below(m[i][0].c - v[i], m[i][0].closed); }
    if (!m[0][i].inf) { if (forward) d.below(v[i] + m[0][i].c, m[0][i].closed); else d.above(-m[0][i].c - v[i], m[0][i].closed); }
  }
  return d.nonempty();
}
VTEST(C05, elapse, 3) {
  int dim = rng.in(1, 4); BM m = rndCanonical(rng, dim, 4, 40, rng.chance(80), divOf(rng)); note("elapse of\n" + show(m));
  Zone z = mk(m); z.elapse(); RM q = toRM(m), r = toRM(z.value); r[0][0] = q[0][0];
  VCHECK(!lessR(toR(z.value(0, 0)), R{false, 0, true}), "elapse empties the zone");
  for (int t = 0; t < 12; t++) { auto v = rndNear(rng, q, 4); if (rng.chance(50)) { double s = rng.in(0, 8) / 4.0; for (size_t i = 1; i < v.size(); i++) v[i] += s; }
    VCHECK(member(r, v) == delayedIn(q, v, true), "valuation " << str(v) << " after elapse: " << member(r, v) << "\n" << show(z.value)); }
}
VTEST(C05, reverseElapse, 3) {
  int dim = rng.in(1, 4); BM m = rndCanonical(rng, dim, 4, 40, true, divOf(rng)); note("reverseElapse of\n" + show(m));
  Zone z = mk(m); z.reverseElapse(); RM q = toRM(m), r = toRM(z.value);
  for (int t = 0; t < 12; t++) { auto v = rndNear(rng, q, 4); if (rng.chance(50)) { double s = rng.in(0, 8) / 4.0; for (size_t i = 1; i < v.size(); i++) v[i] -= s; }
    bool nn = true; for (double x: v) nn = nn && x >= 0;
    VCHECK(member(r, v) == (nn && delayedIn(q, v, false)), "valuation " << str(v) << " after reverseElapse: " << member(r, v) << "\n" << show(z.value)); }
}
// the exact image / pre-image of simultaneous updates, by projection of the joint system over old and new clocks
static RM updateSet(const RM &z, const Upd &u, bool forward) {
  int n = z.size() - 1; RM big(2 * n + 1, std::vector<R>(2 * n + 1, R{true, 0, false}));
  auto old = [&](int i) { return i; }; auto nw = [&](int i) { return i == 0 ? 0 : n + i; };
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) { R &e = forward ? big[old(i)][old(j)] : big[nw(i)][nw(j)]; if (lessR(z[i][j], e)) e = z[i][j]; }
  std::vector<std::pair<int, double>> src(n + 1); for (int i = 0; i <= n; i++) src[i] = {i, 0};
  for (auto &[x, s]: u) src[x + 1] = s.index() == 0 ? std::make_pair(0, std::get<double>(s)) : std::make_pair((int) std::get<ClockVariables>(s) + 1, 0.0);
  for (int i = 1; i <= n; i++) { auto put = [&](int a, int b, double c) { R r{false, c, true}; if (lessR(r, big[a][b])) big[a][b] = r; };
    put(nw(i), old(src[i].first), src[i].second); put(old(src[i].first), nw(i), -src[i].second); }
  bool ok = close(big); RM r(n + 1, std::vector<R>(n + 1));
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) r[i][j] = forward ? big[nw(i)][nw(j)] : big[old(i)][old(j)];
  if (!ok) r[0][0] = R{false, -1, true};
  return r;
}
static Upd rndUpd(Rng &rng, int n) {
  Upd u; std::vector<int> xs; for (int i = 0; i < n; i++) xs.push_back(i);
  for (int i = 0; i < n; i++) std::swap(xs[i], xs[rng.in(i, n - 1)]);
  int k = rng.in(0, n); for (int i = 0; i < k; i++) { std::variant<double, ClockVariables> s; if (rng.chance(45)) s = rng.in(0, 6) / (rng.chance(70) ? 1.0 : 2.0); else s = static_cast<ClockVariables>(rng.in(0, n - 1)); u.emplace_back(xs[i], s); }
  return u;
}
VTEST(C05, reset, 2) {
  int dim = rng.in(2, 5); BM m = rndCanonical(rng, dim, 4, 40, rng.chance(80), divOf(rng)); int x = rng.in(0, dim - 2); note("reset(" + std::to_string(x) + ") of\n" + show(m));
  Zone z = mk(m); z.reset(x); sameAs(z.value, updateSet(toRM(m), Upd{{static_cast<ClockVariables>(x), 0.0}}, true), "reset");
  VCHECK(canonicalForm(z.value), "reset leaves the normal form\n" << show(z.value));
}
VTEST(C05, unconstrain, 2) {
  int dim = rng.in(2, 5); BM m = rndCanonical(rng, dim, 4, 40, rng.chance(80), divOf(rng)); int x = rng.in(0, dim - 2); note("unconstrain(" + std::to_string(x) + ") of\n" + show(m));
  Zone z = mk(m); z.unconstrain(x); RM w = toRM(m); for (int i = 0; i < dim; i++) { w[i][x + 1] = w[x + 1][i] = R{true, 0, false}; } sameAs(z.value, w, "unconstrain");
}
VTEST(C05, applyResets, 4) {
  int dim = rng.in(2, 4); BM m = rndCanonical(rng, dim, 4, 40, rng.chance(80), divOf(rng)); Upd u = rndUpd(rng, dim - 1); note("applyResets(" + showUpd(u) + ") of\n" + show(m));
  Zone z = mk(m); z.applyResets(u); sameAs(z.value, updateSet(toRM(m), u, true), "applyResets");
}
VTEST(C05, revertResets, 4) {
  int dim = rng.in(2, 4); BM m = rndCanonical(rng, dim, 4, 40, rng.chance(80), divOf(rng)); Upd u = rndUpd(rng, dim - 1);
  if (rng.chance(70)) { RM w = updateSet(toRM(m), u, true); if (!close(w)) throw Skip{}; m = fromRM(w); }   // a zone inside the image of the updates
  note("revertResets(" + showUpd(u) + ") of\n" + show(m));
  Zone z = mk(m); z.revertResets(u); RM w = updateSet(toRM(m), u, false); RM t = toRM(z.value);
  sameAs(z.value, w, "revertResets");
}
// ------------------------------------------------------------------------------------------------ C06
VTEST(C06, extrapolate, 4) {
  int dim = rng.in(2, 4); BM m = rndCanonical(rng, dim, 6, 40, true, divOf(rng)); Zone z = mk(m);
  int K = 0; for (int i = 1; i < dim; i++) { z.maxConstraints.push_back(rng.in(0, 4)); K = std::max(K, (int) z.maxConstraints.back()); } z.M = Bounds(K, true);
  note("extrapolate with maximal constants " + str(z.maxConstraints) + " of\n" + show(m));
  Zone y = z; y.extrapolate();
  VCHECK(subsetOf(toRM(m), toRM(y.value)), "the extrapolated zone is not a superset\n" << show(y.value));
  for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) {
    const Bounds &o = m(i, j), &e = y.value(i, j);
    double mi = i ? z.maxConstraints[i - 1] : 0, mj = j ? z.maxConstraints[j - 1] : 0;
    bool smallI = i == 0 || -m(0, i).first <= mi, smallJ = j == 0 || -m(0, j).first <= mj;
    bool small = (i == 0 || o.first <= mi) && smallI && smallJ;
    if (small) VCHECK(e == o, "the bound (" << i << "," << j << ") is small but changed to (" << e.first << "," << e.second << ")\n" << show(y.value));
    if (i != j) VCHECK(toR(e).inf || (e.first <= (i ? mi : 0) && e.first >= -mj) , "the bound (" << i << "," << j << ") = (" << e.first << "," << e.second << ") is not determined by the maximal constants\n" << show(y.value));
  }
}
VTEST(C06, abstractize, 2) {
  int dim = rng.in(2, 4); BM m = rndCanonical(rng, dim, 6, 40, rng.chance(80), divOf(rng)); Zone z = mk(m); z.M = Bounds(rng.in(0, 4), true);
  note("abstractize with M = " + std::to_string(z.M.first) + " of\n" + show(m)); Zone y = z; y.abstractize();
  VCHECK(subsetOf(toRM(m), toRM(y.value)), "the abstracted zone is not a superset\n" << show(y.value));
  for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) { const Bounds &o = m(i, j), &e = y.value(i, j);
    if (std::abs(o.first) <= z.M.first) VCHECK(e == o || (o == Bounds(-z.M.first, false)), "bound changed");
    VCHECK(toR(e).inf || (e.first <= z.M.first && e.first >= -z.M.first), "bound (" << i << "," << j << ") exceeds M"); }
}
// ------------------------------------------------------------------------------------------------ C07
VTEST(C07, sample, 4) {
  int dim = rng.in(1, 5); BM m = rndCanonical(rng, dim, 4, rng.pick(std::vector<int>{10, 40, 70}), true, divOf(rng));
  if (rng.chance(40)) for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) if (i != j && rng.chance(20)) m(i, j).second = false;   // possibly not in normal form any more
  RM q = toRM(m); if (!close(q)) throw Skip{};
  note("sample of\n" + show(m)); Zone z = mk(m); auto v = z.sample(); VCHECK(v.size() == (size_t) dim - 1, "size of the valuation");
  std::vector<double> w{0}; w.insert(w.end(), v.begin(), v.end()); VCHECK(member(q, w), "the sampled valuation " << str(v) << " is not in the zone");
  sameAs(z.value, toRM(m), "sample changes the zone");
}
VMAIN
