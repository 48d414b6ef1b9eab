#include "tcutil.hh"
// ------------------------------------------------------------------------------------------------ C08
VTEST(C08, juxtapose, 3) {
  int m = rng.in(1, 4), n = rng.in(1, 4); 
  static std::vector<BM> pool; auto get = [&](int d) { for (int t = 0; t < 3; t++) if (!pool.empty() && rng.chance(40)) { const BM &x = rng.pick(pool); if (x.rows() == d) return x; } BM x = rng.chance(80) ? anyCanonical(rng, d) : rndMatrix(rng, d, 3, 40); if (pool.size() < 40) pool.push_back(x); return x; };
  if (index < 1) pool.clear();
  BM a = get(m), b = get(n); note("juxtaposition of\n" + show(a) + "and\n" + show(b));
  RM w = jux(toRM(a), toRM(b), 0);
  for (int t = 0; t < 2; t++) {
    JuxtaposedZone z(Zone{a}, Zone{b}); sameAs(z.value, w, t ? "second juxtaposition of the same zones" : "juxtaposition"); VCHECK(canonicalForm(z.value), "not in normal form\n" << show(z.value));
    VCHECK(z.getLeftSize() == m - 1, "left size");
    JuxtaposedZone y = tc(a) ^ tc(b); sameAs(y.value, w, "operator^");
    RM q = w; if (close(q)) { Zone r = z.getRight(); std::vector<int> keep{0}; for (int i = m; i < m + n - 1; i++) keep.push_back(i); sameAs(r.value, proj(w, keep), "getRight"); VCHECK(canonicalForm(r.value), "right part is not in normal form"); }
  }
}
VTEST(C08, juxtaposeCommon, 3) {
  int m = rng.in(1, 4), n = rng.in(1, 4), l = rng.in(0, std::min(m, n) - 1);
  BM a = anyCanonical(rng, m), b = anyCanonical(rng, n);
  if (l && rng.chance(70)) { // make the common part of b compatible: project a point
    RM qa = toRM(a); std::vector<double> v; if (rndPoint(rng, qa, v)) { RM q = topRM(n); for (int i = 0; i < n; i++) q[i][i] = {false, 0, true};
      auto val = [&](int k) { return k == 0 ? 0.0 : k <= n - 1 - l ? rng.in(0, 3) : v[m - 1 - (n - 1 - k)]; }; std::vector<double> u; for (int k = 0; k < n; k++) u.push_back(val(k));
      for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j && !rng.chance(40)) q[i][j] = {false, std::ceil(u[i] - u[j]) + rng.in(0, 1), true}; if (close(q)) b = fromRM(q); } }
  note("juxtaposition with " + std::to_string(l) + " common variables of\n" + show(a) + "and\n" + show(b));
  RM w = jux(toRM(a), toRM(b), l);
  for (int t = 0; t < 2; t++) {
    JuxtaposedZone z(Zone{a}, Zone{b}, l); sameAs(z.value, w, t ? "second juxtaposition" : "juxtaposition"); VCHECK(canonicalForm(z.value), "not in normal form\n" << show(z.value)); VCHECK(z.getLeftSize() == m - 1, "left size");
    sameAs(tc(a).juxtaposeRight(tc(b), l).value, w, "juxtaposeRight"); sameAs(tc(b).juxtaposeLeft(tc(a), l).value, w, "juxtaposeLeft");
  }
  if (l + 1 < std::min(m, n)) { JuxtaposedZone z(Zone{a}, Zone{b}, l + 1); sameAs(z.value, jux(toRM(a), toRM(b), l + 1), "juxtaposition of the same zones with one more common variable"); }
}
static RM renamed(RM w, const Ren &r, int m) { for (auto &[x, y]: r) { low(w[x + 1][y + m + 1], {false, 0, true}); low(w[y + m + 1][x + 1], {false, 0, true}); } return w; }
VTEST(C08, addRenaming, 4) {
  int m = rng.in(1, 4), n = rng.in(1, 4); BM a = anyCanonical(rng, m + 1), b = rng.chance(30) && m == n ? a : anyCanonical(rng, n + 1); if (rng.chance(10)) b = fromRM(topRM(n + 1));
  Ren r = rndRen(rng, m, n, 3), s = rndRen(rng, m, n, 1); note("addRenaming " + show(r) + " then " + show(s) + " to the juxtaposition of\n" + show(a) + "and\n" + show(b));
  JuxtaposedZone z(Zone{a}, Zone{b}); z.addRenaming(r); RM w = renamed(jux(toRM(a), toRM(b), 0), r, m); sameAs(z.value, w, "addRenaming"); VCHECK(canonicalForm(z.value), "not in normal form\n" << show(z.value));
  if (close(w)) { z.addRenaming(s); RM u = renamed(w, s, m); sameAs(z.value, u, "second addRenaming"); VCHECK(canonicalForm(z.value), "not in normal form\n" << show(z.value));
    if (close(u)) {
      Ren got = z.makeRenaming(); std::set<std::pair<size_t, size_t>> gs(got.begin(), got.end()), want; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) if (eqR(u[i + 1][m + 1 + j], {false, 0, true}) && eqR(u[m + 1 + j][i + 1], {false, 0, true})) want.emplace(i, j);
      VCHECK(gs == want && got.size() == gs.size(), "inferred equations " << show(got) << " want " << show(Ren(want.begin(), want.end())));
      std::vector<int> keep{0}; for (int i = m + 1; i <= m + n; i++) keep.push_back(i); sameAs(z.getRight().value, proj(u, keep), "right part after renaming"); } }
}
VTEST(C08, sets, 3) {
  int m = rng.in(1, 3), n = rng.in(1, 3), l = rng.in(0, std::min(m, n)); int k = rng.in(0, 3); TimedConditionSet s; std::vector<BM> as; BM b = anyCanonical(rng, n + 1); std::string d;
  for (int i = 0; i < k; i++) { as.push_back(anyCanonical(rng, m + 1)); s.push_back(tc(as.back())); d += show(as.back()) + "\n"; }
  Ren r = rndRen(rng, m, n - l, 2); note("juxtaposed sets, " + std::to_string(l) + " common variables, renaming " + show(r) + "of the set\n" + d + "and\n" + show(b));
  auto cmp = [&](const JuxtaposedZoneSet &js, bool swap, int ll, bool nonempty) {
    std::vector<RM> want; for (auto &a: as) { RM w = swap ? jux(toRM(b), toRM(a), ll) : jux(toRM(a), toRM(b), ll); RM q = w; if (!nonempty || close(q)) want.push_back(w); }
    VCHECK(js.zones.size() == want.size(), "number of zones " << js.zones.size() << " want " << want.size()); for (size_t i = 0; i < want.size(); i++) sameAs(js.zones[i].value, want[i], "zone of the set"); };
  JuxtaposedZoneSet j0(s, tc(b)); cmp(j0, false, 0, false); JuxtaposedZoneSet j1(s, tc(b), l); cmp(j1, false, l, false); JuxtaposedZoneSet j2(tc(b), s, l); cmp(j2, true, l, false);
  bool ok = true; for (auto &a: as) { RM w = jux(toRM(a), toRM(b), l); ok = ok && close(w); }
  if (ok) { JuxtaposedZoneSet j3 = j1; j3.addRenaming(r); std::vector<RM> want; for (auto &a: as) { RM w = jux(toRM(a), toRM(b), l); for (auto &[x, y]: r) { low(w[x + 1][y + m + 1], {false, 0, true}); low(w[y + m + 1][x + 1], {false, 0, true}); } if (close(w)) want.push_back(w); }
    VCHECK(j3.zones.size() == want.size(), "after addRenaming: " << j3.zones.size() << " zones, want " << want.size()); for (size_t i = 0; i < want.size(); i++) { sameAs(j3.zones[i].value, want[i], "renamed zone of the set"); VCHECK(canonicalForm(j3.zones[i].value), "not in normal form"); }
    bool all = j3.zones.size() == j1.zones.size(); for (auto &x: j3.zones) { bool any = false; for (auto &y: j1.zones) any = any || sameSet(toRM(x.value), toRM(y.value)); all = all && any; }
    VCHECK((j3 == j1) == all && (j3 != j1) == !all, "equality of sets");
    VCHECK(j1 == j1, "a set equals itself"); }
}

// a different, equally normalised diagonal
static BM lift(Rng &rng, BM m) { for (int i = 0; i < m.rows(); i++) if (rng.chance(50)) { R b{true, 0, false}; for (int h = 0; h < m.rows(); h++) if (h != i) low(b, addR(toR(m(i, h)), toR(m(h, i)))); m(i, i) = fromR(b); } return m; }
// ------------------------------------------------------------------------------------------------ C09
VTEST(C09, concat, 3) {
  int n = rng.in(1, 4), m = rng.in(1, 4); BM a = anyCanonical(rng, n + 1), b = anyCanonical(rng, m + 1); if (rng.chance(30)) { a = lift(rng, a); b = lift(rng, b); }
  note("concatenation of\n" + show(a) + "and\n" + show(b));
  RM w = topRM(n + m + 1); int d = n + m;   // d: the end of the first part
  auto ia = [&](int i) { return i == 0 ? d : i; }; auto ib = [&](int i) { return i == 0 ? 0 : i == 1 ? d : n + i - 1; };
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) low(w[ia(i)][ia(j)], toR(a(i, j))); for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) low(w[ib(i)][ib(j)], toR(b(i, j)));
  std::vector<int> keep; for (int i = 0; i < n + m; i++) keep.push_back(i);
  TimedCondition r = tc(a) + tc(b); sameAs(r.zone.value, proj(w, keep), "concatenation"); VCHECK(canonicalForm(r.zone.value), "not in normal form\n" << show(r.zone.value));
}
VTEST(C09, concatLanguages, 1) {
  int n = rng.in(1, 3), m = rng.in(1, 3); BM a = rndCond(rng, n + 1, 3, 20), b = rndCond(rng, m + 1, 3, 20); std::string u, v; for (int i = 1; i < n; i++) u += 'a' + rng.in(0, 2); for (int i = 1; i < m; i++) v += 'a' + rng.in(0, 2);
  note("words " + u + " and " + v + " with\n" + show(a) + "and\n" + show(b));
  ElementaryLanguage r = ElementaryLanguage(u, tc(a)) + ElementaryLanguage(v, tc(b)); VCHECK(r.getWord() == u + v, "word " << r.getWord()); sameAs(r.getTimedCondition().zone.value, toRM((tc(a) + tc(b)).zone.value), "condition of the concatenation");
}
// ------------------------------------------------------------------------------------------------ C10
static Bounds rndBound(Rng &rng, int lo, int hi) { if (rng.chance(10)) return Bounds(INF, false); return Bounds(rng.in(lo, hi) / (rng.chance(15) ? 2.0 : 1.0), rng.chance(60)); }
VTEST(C10, bounds, 3) {
  int n = rng.in(1, 5); BM a = anyCanonical(rng, n + 1); int i = rng.in(0, n - 1), j = rng.in(i, n - 1); RM q = toRM(a); close(q); TimedCondition c = tc(a); bool force = rng.chance(30);
  Bounds b = rndBound(rng, -6, 6); note("sum of durations " + std::to_string(i) + ".." + std::to_string(j) + " bound " + std::to_string(b.first) + (b.second ? " <=" : " <") + (force ? " forced" : "") + " of\n" + show(a));
  int x = i + 1, y = hix(j, n); VCHECK(c.size() == (size_t) n, "size");
  VCHECK(eqR(toR(c.getUpperBound(i, j)), q[x][y]), "upper bound " << c.getUpperBound(i, j)); VCHECK(eqR(toR(c.getLowerBound(i, j)), q[y][x]), "lower bound " << c.getLowerBound(i, j));
  TimedCondition u = c, l = c; u.restrictUpperBound(i, j, b, force); l.restrictLowerBound(i, j, b, force);
  RM wu = q, wl = q; if (force) { wu[x][y] = toR(b); wl[y][x] = toR(b); } else { low(wu[x][y], toR(b)); low(wl[y][x], toR(b)); }
  sameAs(u.zone.value, wu, "restrictUpperBound"); VCHECK(canonicalForm(u.zone.value), "not in normal form after restrictUpperBound\n" << show(u.zone.value));
  sameAs(l.zone.value, wl, "restrictLowerBound"); VCHECK(canonicalForm(l.zone.value), "not in normal form after restrictLowerBound\n" << show(l.zone.value));
  R z{false, 0, true}; bool pt = !q[x][0].inf && !q[0][x].inf && q[x][0].closed && q[0][x].closed && q[x][0].c == -q[0][x].c; VCHECK(c.isPoint(i) == pt, "isPoint");
  VCHECK(c.hasPrefix() == !(eqR(q[n][0], z) && eqR(q[0][n], z)), "hasPrefix"); int k = hix(0, n); VCHECK(c.hasSuffix() == !(eqR(q[1][k], z) && eqR(q[k][1], z)), "hasSuffix");
}
VTEST(C10, sets, 3) {
  int n = rng.in(1, 4); BM a = anyCanonical(rng, n + 1), b = rng.chance(30) ? a : anyCanonical(rng, n + 1);
  if (rng.chance(40)) { RM q = meet(toRM(a), toRM(anyCanonical(rng, n + 1))); if (close(q)) b = fromRM(q); } if (rng.chance(50)) a = lift(rng, a); if (rng.chance(50)) b = lift(rng, b); if (rng.chance(50)) std::swap(a, b);
  note("conditions\n" + show(a) + "and\n" + show(b)); TimedCondition x = tc(a), y = tc(b); RM p = toRM(a), q = toRM(b);
  VCHECK(x.includes(y) == subsetOf(q, p), "includes returned " << x.includes(y)); VCHECK((x == y) == sameSet(p, q), "== returned " << (x == y)); VCHECK((x != y) == !sameSet(p, q), "!= returned " << (x != y));
  TimedCondition z = x && y; sameAs(z.zone.value, meet(p, q), "intersection"); VCHECK(canonicalForm(z.zone.value), "intersection is not in normal form");
  TimedCondition z2 = z; VCHECK(static_cast<bool>(z2) == ({ RM t = meet(p, q); close(t); }), "satisfiability of the intersection"); { RM t = meet(p, q); bool ne = close(t); if (ne) VCHECK(z.isSatisfiableNoCanonize(), "satisfiability"); }
  close(p); close(q); RM h = p; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (lessR(h[i][j], q[i][j])) h[i][j] = q[i][j];
  TimedCondition c = x.convexHull(y); sameAs(c.zone.value, h, "hull"); VCHECK(canonicalForm(c.zone.value), "hull is not in normal form"); TimedCondition e = x; e.convexHullAssign(y); sameAs(e.zone.value, h, "hull (assigned)");
}
// ------------------------------------------------------------------------------------------------ C11
static std::vector<double> rndAcc(Rng &rng, int n, int den) { std::vector<double> r(n); double s = 0; for (int i = n - 1; i >= 0; i--) { s += rng.in(0, 2 * den) / (double) den; r[i] = s; } return r; }
VTEST(C11, region, 3) {
  int n = rng.in(0, 5), den = rng.pick(std::vector<int>{1, 2, 4, 8}); std::vector<double> acc = rndAcc(rng, n, den);
  if (rng.chance(40)) for (auto &x: acc) if (rng.chance(50)) x += rng.in(1, 3) / (double) (1 << rng.pick(std::vector<int>{10, 20, 27}));   // close to an integer, without being one
  note("region of the accumulated durations " + show(acc));
  TimedCondition c(acc), e = TimedCondition::makeExact(acc); auto v = [&](int k) { return k == 0 ? 0.0 : acc[k - 1]; };
  RM w = topRM(n + 1), we = w; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) if (i != j) { double d = v(i) - v(j); w[i][j] = std::floor(d) == d ? R{false, d, true} : R{false, std::floor(d) + 1, false}; we[i][j] = {false, d, true}; }
  sameAs(c.zone.value, w, "region"); VCHECK(canonicalForm(c.zone.value), "region not in normal form\n" << show(c.zone.value)); sameAs(e.zone.value, we, "makeExact"); VCHECK(canonicalForm(e.zone.value), "exact condition not in normal form");
  VCHECK(c.isSimple(), "region is not simple"); bool ex = true; for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) ex = ex && v(i) - v(j) == std::floor(v(i) - v(j)); (void) ex;
}
VTEST(C11, simple, 2) {
  int n = rng.in(1, 4); BM a; if (rng.chance(60)) { a = TimedCondition(rndAcc(rng, n, 4)).zone.value; if (rng.chance(60) && n >= 1) { int i = rng.in(0, n), j = rng.in(0, n); if (i != j) { a(i, j).first += rng.in(0, 1); if (rng.chance(50)) a(i, j).second = !a(i, j).second; } RM q = toRM(a); if (!close(q)) throw Skip{}; a = fromRM(q); } } else a = anyCanonical(rng, n + 1);
  note("isSimple of\n" + show(a)); RM q = toRM(a); bool want = true;
  for (int i = 0; i <= n; i++) for (int j = i + 1; j <= n; j++) { R u = q[i][j], l = q[j][i]; bool pt = !u.inf && !l.inf && u.closed && l.closed && u.c == -l.c, un = !u.inf && !l.inf && !u.closed && !l.closed && u.c == -l.c + 1; want = want && (pt || un); }
  VCHECK(tc(a).isSimple() == want, "isSimple returned " << !want);
}
VTEST(C11, guard, 2) {
  int n = rng.in(1, 4); BM a = rndCond(rng, n + 1, 3, rng.pick(std::vector<int>{10, 40})); if (rng.chance(20)) a = TimedCondition(rndAcc(rng, n, 4)).zone.value; note("guard of\n" + show(a)); auto g = tc(a).toGuard(); RM q = toRM(a);
  for (auto &c: g) VCHECK(c.x < n, "clock out of range");
  for (int t = 0; t < 12; t++) { std::vector<double> v(n); for (auto &x: v) x = rng.in(0, 14) / 2.0; bool in = true, want = true; for (auto &c: g) in = in && c.satisfy(v); for (int i = 0; i < n; i++) want = want && satR(q[i + 1][0], v[i]) && satR(q[0][i + 1], -v[i]); VCHECK(in == want, "guard " << (in ? "holds" : "fails") << " at " << show(v)); }
}
VMAIN
