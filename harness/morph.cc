// C24: renaming relations and clock updates; C25: morphisms
#include "tcutil.hh"
#include <cmath>
#define private public
#include "single_morphism.hh"
#undef private
#include "external_transition_maker.hh"
static std::string showD(const std::vector<double> &d) { std::ostringstream o; for (double x: d) o << x << " "; return o.str(); }
static std::string rndWord(Rng &rng, int n) { std::string w; for (int i = 0; i < n; i++) w.push_back((char) ('a' + rng.in(0, 1))); return w; }
static std::vector<double> accOf(const std::vector<double> &d) { std::vector<double> a(d.size()); double s = 0; for (int i = (int) d.size() - 1; i >= 0; i--) { s += d[i]; a[i] = s; } return a; }
// a random condition (canonical) that admits the accumulated durations a; each sum of durations is an exact value, in a region or in a wider interval
static BM around(Rng &rng, const std::vector<double> &a, int wide) {
  int n = a.size() + 1; RM q = topRM(n); for (int i = 0; i < n; i++) q[i][i] = {false, 0, true};
  for (int i = 1; i < n; i++) for (int j = i + 1; j <= n; j++) { int k = j == n ? 0 : j; double x = a[i - 1] - (k ? a[k - 1] : 0.0);
    double lo = std::floor(x), hi = std::ceil(x); bool lc = true, hc = true; if (lo == hi) { if (rng.chance(wide)) { lo -= rng.in(0, 1); hi += rng.in(0, 1); } } else { lc = hc = false; if (rng.chance(wide)) { lo -= rng.in(0, 2); hi += rng.in(0, 2); lc = rng.chance(50); hc = rng.chance(50); } }
    if (lo < 0) { lo = 0; lc = true; } 
    low(q[i][k], toR(Bounds(hi, hc))); low(q[k][i], toR(Bounds(-lo, lc))); }
  close(q); return fromRM(q);
}
static bool memberD(const BM &m, const std::vector<double> &d) {
  auto a = accOf(d); int n = m.rows(); if ((int) d.size() != n - 1) return false;
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) continue; double x = (i ? a[i - 1] : 0) - (j ? a[j - 1] : 0); const Bounds &b = m(i, j); if (b.first >= INF) continue; if (x > b.first || (x == b.first && !b.second)) return false; }
  return true;
}
static void pairWord(Rng &rng, std::vector<double> &d, std::vector<double> &e) {
  int n = rng.in(0, 3), m = rng.in(0, 3), den = rng.chance(70) ? 4 : 2; d.resize(n + 1); e.resize(m + 1);
  for (auto &x: d) x = rng.in(0, 3 * den) / (double) den;
  auto a = accOf(d); // the target shares some of the remaining durations of the source
  std::vector<double> b(m + 1); for (auto &x: b) x = rng.chance(65) ? rng.pick(a) : rng.in(0, 4 * den) / (double) den; std::sort(b.rbegin(), b.rend());
  for (int i = 0; i <= m; i++) e[i] = b[i] - (i < m ? b[i + 1] : 0);
}
VTEST(C25, maps, 3) {
  std::vector<double> d, e; pairWord(rng, d, e); auto a = accOf(d), b = accOf(e); std::string u = rndWord(rng, d.size() - 1), w = rndWord(rng, e.size() - 1);
  RenamingRelation ren; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < b.size(); j++) if (a[i] == b[j] && rng.chance(60)) ren.emplace_back(i, j);
  BM dm = around(rng, a, 20), cm = around(rng, b, 40); std::ostringstream o; o << "domain " << u << "\n" << show(dm) << "codomain " << w << "\n" << show(cm) << "renaming " << show(Ren(ren.begin(), ren.end())) << "\nword " << showD(d) << "\n"; note(o.str());
  SingleMorphism f(ElementaryLanguage{u, tc(dm)}, ElementaryLanguage{w, tc(cm)}, ren); TimedWord word{u, d};
  VCHECK(f.inDomain(word), "a word of the domain is not recognised");
  auto r = f.maps(word); o << "mapped to " << r.getWord() << ": " << showD(r.getDurations()) << "\n"; note(o.str());
  VCHECK(r.getWord() == w, "the mapped word does not have the events of the codomain"); VCHECK(r.getDurations().size() == w.size() + 1, "the mapped word is malformed");
  VCHECK(memberD(cm, r.getDurations()), "the mapped word is not in the codomain");
  auto ra = accOf(r.getDurations()); for (auto &[i, j]: ren) VCHECK(a[i] == ra[j], "the renamed pair (" << i << "," << j << ") has different remaining durations");
}
VTEST(C25, domain, 1) {
  std::vector<double> d, e; pairWord(rng, d, e); auto a = accOf(d); std::string u = rndWord(rng, d.size() - 1); BM dm = around(rng, a, 40);
  SingleMorphism f(ElementaryLanguage{u, tc(dm)}, ElementaryLanguage{u, tc(dm)}, RenamingRelation{}); std::vector<double> x = d; if (rng.chance(70)) x[rng.in(0, x.size() - 1)] += rng.in(0, 6) / 4.0; std::string v = rng.chance(70) ? u : rndWord(rng, u.size());
  note("domain " + u + "\n" + show(dm) + "word " + v + " " + showD(x) + "\n"); VCHECK(f.inDomain(TimedWord{v, x}) == (v == u && memberD(dm, x)), "the domain is not decided correctly");
}
// ---- C24
static std::vector<double> rndDurs(Rng &rng, int n) { std::vector<double> d(n); for (auto &x: d) x = rng.chance(30) ? rng.in(0, 2) : rng.in(0, 12) / 4.0; return d; }
static Ren rightUnique(Rng &rng, int src, int n) { Ren r; for (int j = 0; j < n; j++) if (rng.chance(50)) r.emplace_back(rng.in(0, src - 1), j); for (int i = (int) r.size() - 1; i > 0; i--) std::swap(r[i], r[rng.in(0, i)]); return r; }
static bool pinned(const BM &m, int x) { return m(x + 1, 0).first == -m(0, x + 1).first && m(x + 1, 0).second && m(0, x + 1).second; }
static bool admits(const BM &m, const std::vector<std::pair<int, double>> &vals) { RM q = toRM(m); for (auto &[x, v]: vals) { low(q[x + 1][0], R{false, v, true}); low(q[0][x + 1], R{false, -v, true}); } return close(q); }
VTEST(C24, valuation, 2) {
  int n = rng.in(1, 6); BM m = around(rng, accOf(rndDurs(rng, n)), 0); note("condition\n" + show(m));
  auto r = RenamingRelation::toValuation(tc(m)); VCHECK((int) r.size() == n, "the valuation has " << r.size() << " values"); 
  std::vector<std::pair<int, double>> vs; for (int i = 0; i < n; i++) vs.emplace_back(i, r[i]);
  VCHECK(admits(m, vs), "the valuation " << showD(r) << " is not admitted by the condition");
  for (int i = 0; i < n; i++) VCHECK((r[i] == std::floor(r[i])) == pinned(m, i), "variable " << i << " has the value " << r[i] << " but its constancy differs");
}
VTEST(C24, reset, 3) {
  int k = rng.in(1, 6), n = rng.in(1, 6); BM s = around(rng, accOf(rndDurs(rng, k)), 0), m = around(rng, accOf(rndDurs(rng, n)), 0); Ren ren = rightUnique(rng, k, n);
  note("target condition\n" + show(m) + "renaming " + show(ren) + "\n"); RenamingRelation rr; for (auto &p: ren) rr.push_back(p);
  auto r = rr.toReset(tc(s), tc(m)); std::ostringstream o; for (auto &[x, v]: r) { o << "x" << (int) x << ":="; if (v.index() == 0) o << std::get<double>(v); else o << "x" << (int) std::get<ClockVariables>(v); o << " "; } note("target condition\n" + show(m) + "renaming " + show(ren) + "\nupdates " + o.str() + "\n");
  std::vector<int> seen(n, 0); std::vector<std::pair<int, double>> vs;
  for (auto &[x, v]: r) { VCHECK(x < n, "an update of a variable that is not in the target condition"); VCHECK(!seen[x]++, "variable " << (int) x << " is updated twice");
    auto it = std::find_if(ren.begin(), ren.end(), [&, x = x](auto &p) { return (int) p.second == (int) x; });
    if (v.index() == 0) { vs.emplace_back(x, std::get<double>(v)); if (pinned(m, x)) VCHECK(std::get<double>(v) == m(x + 1, 0).first, "the constant variable " << (int) x << " is set to " << std::get<double>(v)); else VCHECK(it == ren.end(), "the renamed variable " << (int) x << " is set to a value"); }
    else { VCHECK(!pinned(m, x), "the constant variable " << (int) x << " is copied"); VCHECK(it != ren.end() && it->first == std::get<ClockVariables>(v), "variable " << (int) x << " is copied from a variable it is not related to"); } }
  for (int x = 0; x < n; x++) VCHECK(seen[x], "variable " << x << " is not updated");
  VCHECK(admits(m, vs), "the assigned values are not admitted by the target condition");
}
VTEST(C24, imprecise, 3) {
  int k = rng.in(1, 6), n = rng.in(1, 6); BM m = around(rng, accOf(rndDurs(rng, n)), rng.chance(50) ? 0 : 30); RenamingRelation rr; for (int i = rng.in(0, 5); i > 0; i--) rr.emplace_back(rng.in(0, k - 1), rng.in(0, n - 1));
  Ren ren(rr.begin(), rr.end()); note("target condition\n" + show(m) + "renaming " + show(ren) + "\n"); TimedCondition c = tc(m);
  std::vector<int> named(n, 0); bool active = false; for (auto &p: ren) { named[p.second]++; active |= !pinned(m, p.second); }
  std::vector<ClockVariables> want, right; bool full = true, uniq = true; for (int x = 0; x < n; x++) { if (named[x]) right.push_back(x); uniq &= named[x] < 2; if (!named[x] && !pinned(m, x)) { full = false; if (active) want.push_back(x); } }
  VCHECK(rr.rightVariables() == right, "wrong right variables"); VCHECK(rr.full(c) == full, "full is wrong"); VCHECK(rr.onlyTrivial(c) == !active, "onlyTrivial is wrong"); VCHECK(rr.isRightUnique() == uniq, "isRightUnique is wrong");
  VCHECK(rr.hasImpreciseClocks(c) == (active && !full), "hasImpreciseClocks is wrong"); VCHECK(rr.impreciseClocks(c) == want, "wrong imprecise variables");
  auto q = rr; int left = rng.in(0, k - 1); q.eraseLeft(left); Ren e; for (auto &p: ren) if ((int) p.first != left) e.push_back(p); VCHECK(Ren(q.begin(), q.end()) == e, "eraseLeft is wrong");
}
VMAIN
