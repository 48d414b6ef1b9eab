#include "tcutil.hh"
static std::string rndWord(Rng &rng, int n, bool silent = false) { std::string w; for (int i = 0; i < n; i++) w.push_back(silent && rng.chance(35) ? UNOBSERVABLE : (char) ('a' + rng.in(0, 1))); return w; }
static std::vector<double> rndDur(Rng &rng, int n, int den = 4) { std::vector<double> d(n); for (auto &x: d) x = rng.in(0, 2 * den) / (double) den; return d; }
static std::string show(const std::string &w, const std::vector<double> &d) { std::ostringstream o; for (size_t i = 0; i < d.size(); i++) { if (i) o << " " << (i - 1 < w.size() ? (w[i - 1] == UNOBSERVABLE ? std::string("eps") : std::string(1, w[i - 1])) : "?") << " "; o << d[i]; } return o.str(); }
static std::string show(const TimedWord &w) { return show(w.getWord(), w.getDurations()); }
// membership of durations in a condition, from the definition: every sum of consecutive durations is within its bounds
static bool member(const TimedCondition &c, const std::vector<double> &d) {
  const BM &m = c.zone.value; int n = m.rows(); std::vector<double> v(n, 0);
  if ((int) d.size() != n - 1) return false;
  for (int i = n - 1; i >= 1; i--) v[i] = (i == n - 1 ? 0 : v[i + 1]) + d[i - 1];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) continue; double x = v[i] - v[j]; const Bounds &b = m(i, j); if (b.first >= INF) continue; if (x > b.first || (x == b.first && !b.second)) return false; }
  return true;
}
static bool isBounded(const BM &m) { for (int i = 1; i < m.rows(); i++) if (m(i, i + 1 < m.rows() ? i + 1 : 0).first >= INF) return false; return true; }
static std::vector<double> nearby(Rng &rng, const TimedCondition &c) { // durations within or at the border of the condition
  std::vector<double> d; int n = c.size();
  for (int i = 0; i < n; i++) { double lo = std::max(0.0, -c.getLowerBound(i, i).first), up = c.getUpperBound(i, i).first; if (up >= INF) up = lo + 2; if (lo >= INF || lo < -1e9) lo = 0;
    int k = rng.in(0, 5); d.push_back(k == 0 ? lo : k == 1 ? up : k == 2 ? std::max(0.0, lo - 0.25) : k == 3 ? up + 0.25 : lo + (up - lo) * rng.in(1, 7) / 8); }
  return d;
}
// ------------------------------------------------------------------------------------------------ C15
VTEST(C15, contains, 3) {
  int n = rng.in(0, 3); std::string w = rndWord(rng, n); BM m = anyCanonical(rng, n + 2); ElementaryLanguage l(w, tc(m));
  note("language over " + w + " with\n" + show(m));
  for (int t = 0; t < 8; t++) {
    std::string u = rng.chance(80) ? w : rndWord(rng, rng.in(0, 3)); std::vector<double> d = u.size() == w.size() ? nearby(rng, l.getTimedCondition()) : rndDur(rng, u.size() + 1);
    VCHECK(l.contains(TimedWord(u, d)) == (u == w && member(l.getTimedCondition(), d)), "contains " << show(u, d) << " answers " << l.contains(TimedWord(u, d)));
  }
}
VTEST(C15, sample, 3) {
  int n = rng.in(0, 4); std::string w = rndWord(rng, n); BM m = rndCond(rng, n + 2, 3, 0, divOf(rng)); if (!isBounded(m)) throw Skip{};
  ElementaryLanguage l(w, tc(m)); note("language over " + w + " with\n" + show(m));
  TimedWord s = l.sample();
  VCHECK(s.getWord() == w && member(l.getTimedCondition(), s.getDurations()), "sampled word " << show(s) << " is not a member");
}
VTEST(C15, sample_region, 3) {
  int n = rng.in(0, 7); std::string w = rndWord(rng, n); std::vector<TimedCondition> cs; int k = rng.chance(70) ? 1 : 2; bool wide = rng.chance(30);
  for (int t = 0; t < k; t++) { std::vector<double> acc(n + 1); double s = 0; for (int i = n; i >= 0; i--) { s += rng.in(0, wide ? 24 : 7) / 8.0; acc[i] = s; } cs.emplace_back(acc); }
  TimedCondition c = cs[0]; for (auto &x: cs) c = c.convexHull(x);
  ElementaryLanguage l(w, c); note("language over " + w + " with\n" + show(c.zone.value)); TimedWord s = l.sample();
  VCHECK(s.getWord() == w && member(c, s.getDurations()), "sampled word " << show(s) << " is not a member");
}
VTEST(C15, constrain, 2) {
  int n = rng.in(0, 3); std::string w = rndWord(rng, n); BM m = rndCond(rng, n + 2, 3, 0, 1); if (!isBounded(m)) throw Skip{};
  ElementaryLanguage l(w, tc(m)); TimedWord s = l.sample(); int k = rng.in(0, n);
  std::vector<double> pd(s.getDurations().begin(), s.getDurations().begin() + k + 1); pd.back() *= rng.in(0, 4) / 4.0;
  note("language over " + w + " with\n" + show(m) + "prefix " + show(w.substr(0, k), pd));
  ElementaryLanguage c = l.constrain(TimedWord(w.substr(0, k), pd)); VCHECK(c.getWord() == w, "the events changed");
  RM want = toRM(m); for (int i = 0; i < k; i++) { int h = hix(i, m.rows()); low(want[i + 1][h], toR(Bounds(pd[i], true))); low(want[h][i + 1], toR(Bounds(-pd[i], true))); }
  sameAs(c.getTimedCondition().zone.value, want, "constrained condition");
}
VTEST(C15, hull, 2) {
  int n = rng.in(0, 2); std::string w = rndWord(rng, n); std::list<ElementaryLanguage> ls; int k = rng.in(1, 3); RM want; std::ostringstream o;
  for (int i = 0; i < k; i++) { BM m = rndCond(rng, n + 2, 3, 20, 1); o << show(m); ls.emplace_back(w, tc(m)); RM q = toRM(m); if (i == 0) want = q; else for (int a = 0; a < n + 2; a++) for (int b = 0; b < n + 2; b++) if (lessR(want[a][b], q[a][b])) want[a][b] = q[a][b]; }
  note("hull of languages with\n" + o.str());
  ElementaryLanguage h = ElementaryLanguage::convexHull(ls); VCHECK(h.getWord() == w, "the events changed"); sameAs(h.getTimedCondition().zone.value, want, "hull");
}
// ------------------------------------------------------------------------------------------------ C12
static void splits(const std::vector<RM> &parts, const RM &whole, Rng &rng, const char *what) {
  for (size_t i = 0; i < parts.size(); i++) {
    int n = parts[i].size(); for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { const R &u = parts[i][a][b], &l = parts[i][b][a]; bool point = !u.inf && !l.inf && u.c == -l.c && u.closed && l.closed && std::floor(u.c) == u.c, unit = !u.inf && !l.inf && u.c + l.c == 1 && !u.closed && !l.closed && std::floor(u.c) == u.c; VCHECK(point || unit, what << ": part is not simple\n" << show(parts[i])); }
    RM q = parts[i]; VCHECK(close(q), what << ": empty part\n" << show(parts[i]));
    RM w = whole; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) if (a != b) low(w[a][b], q[a][b]); VCHECK(sameSet(w, q), what << ": part is not included in the condition\n" << show(q));
    for (size_t j = 0; j < i; j++) { RM w2 = parts[j]; for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) low(w2[a][b], q[a][b]); VCHECK(!close(w2), what << ": two parts overlap\n" << show(q)); }
  }
  for (int t = 0; t < 12; t++) { RM q = whole; std::vector<double> v; if (!rndPoint(rng, q, v)) break; int k = 0; for (auto &p: parts) { bool in = true; for (size_t a = 0; a < p.size(); a++) for (size_t b = 0; b < p.size(); b++) { if (a == b || p[a][b].inf) continue; double x = v[a] - v[b]; if (x > p[a][b].c || (x == p[a][b].c && !p[a][b].closed)) in = false; } k += in; } std::ostringstream o; for (size_t a = 1; a < v.size(); a++) o << v[a] << " "; VCHECK(k == 1, what << ": the valuation " << o.str() << "of the condition is in " << k << " parts"); }
}
VTEST(C12, enumerate, 3) {
  int n = rng.in(1, 3); BM m = rndCond(rng, n + 1, 2, 0, 1); if (!isBounded(m)) throw Skip{};
  note("enumeration of\n" + show(m)); std::vector<RM> parts; auto got = tc(m).enumerate(); for (auto &c: got) parts.push_back(toRM(c.zone.value)); splits(parts, toRM(m), rng, "TimedCondition::enumerate");
  for (auto &c: got) VCHECK(canonicalForm(c.zone.value), "part is not in normal form");
}
VTEST(C12, language, 2) {
  int n = rng.in(0, 2); std::string w = rndWord(rng, n); BM m = rndCond(rng, n + 2, 2, 0, 1); if (!isBounded(m)) throw Skip{}; ElementaryLanguage l(w, tc(m));
  note("enumeration of the language over " + w + " with\n" + show(m)); std::vector<RM> parts; for (auto &e: l.enumerate()) { VCHECK(e.getWord() == w, "the events changed"); parts.push_back(toRM(e.getTimedCondition().zone.value)); } splits(parts, toRM(m), rng, "ElementaryLanguage::enumerate");
}
VTEST(C12, reduce, 3) {
  int n = rng.in(0, 2); std::string w = rndWord(rng, n); BM m = rndCond(rng, n + 2, 2, 0, 1); if (!isBounded(m)) throw Skip{};
  auto all = tc(m).enumerate(); std::list<ElementaryLanguage> ls; std::vector<RM> want; std::ostringstream o; int pc = rng.pick(std::vector<int>{30, 60, 90, 100}); for (auto &c: all) if (rng.chance(pc)) { o << show(c.zone.value) << "\n"; want.push_back(toRM(c.zone.value)); if (rng.chance(50)) ls.emplace_back(w, c); else ls.emplace_front(w, c); }
  note("reduction of the simple conditions\n" + o.str()); auto got = TimedConditionSet::reduce(ls); std::vector<RM> parts; for (auto &c: got.getConditions()) for (auto &e: c.enumerate()) parts.push_back(toRM(e.zone.value));
  VCHECK(parts.size() == want.size(), "reduce: " << parts.size() << " simple parts, given " << want.size());
  for (auto &p: parts) { int k = 0; for (auto &q: want) k += sameSet(p, q); VCHECK(k == 1, "reduce: the result contains a simple condition given " << k << " times\n" << show(p)); }
  for (auto &q: want) { int k = 0; for (auto &p: parts) k += sameSet(p, q); VCHECK(k == 1, "reduce: a given simple condition is covered " << k << " times\n" << show(q)); }
}
// ------------------------------------------------------------------------------------------------ C16
static double total(const std::vector<double> &d) { double s = 0; for (double x: d) s += x; return s; }
static void checkWord(const TimedWord &w, const std::string &ew, const std::vector<double> &ed, const char *what) {
  VCHECK(w.getWord() == ew, what << ": events of " << show(w) << ", expected " << show(ew, ed));
  VCHECK(w.getDurations() == ed, what << ": durations of " << show(w) << ", expected " << show(ew, ed));
}
VTEST(C16, words, 1) {
  int n = rng.in(0, 5); std::string w = rndWord(rng, n, rng.chance(70)); std::vector<double> d = rndDur(rng, n + 1); note("word " + show(w, d));
  std::string ew; std::vector<double> ed{d[0]}; for (int i = 0; i < n; i++) if (w[i] == UNOBSERVABLE) ed.back() += d[i + 1]; else { ew.push_back(w[i]); ed.push_back(d[i + 1]); }
  TimedWord a(w, d); checkWord(a, ew, ed, "constructor"); VCHECK(total(a.getDurations()) == total(d), "total duration changed"); VCHECK(a.wordSize() == ew.size(), "wordSize");
  int k = rng.in(0, 4); std::string w2 = rndWord(rng, k, rng.chance(50)); std::vector<double> d2 = rndDur(rng, k + 1); TimedWord b(w2, d2); note("second word " + show(w2, d2));
  TimedWord c = a + b; std::vector<double> cd = a.getDurations(); auto bd = b.getDurations(); cd.back() += bd[0]; cd.insert(cd.end(), bd.begin() + 1, bd.end());
  checkWord(c, a.getWord() + b.getWord(), cd, "concatenation");
  TimedWord e = a + 'c'; auto xd = ed; xd.push_back(0); checkWord(e, ew + "c", xd, "appended event");
  TimedWord f = a + 1.25; xd = ed; xd.back() += 1.25; checkWord(f, ew, xd, "appended delay");
  auto acc = c.getAccumulatedDurations(); VCHECK(acc.size() == cd.size(), "number of accumulated durations"); double s = 0; for (int i = cd.size() - 1; i >= 0; i--) { s += cd[i]; VCHECK(acc[i] == s, "accumulated duration " << i << " of " << show(c) << " is " << acc[i] << ", expected " << s); }
  TimedWord g = c.getSuffix(a); checkWord(a + g, c.getWord(), c.getDurations(), "prefix concatenated with the suffix"); checkWord(g, b.getWord(), b.getDurations(), "suffix");
  VCHECK(a == a && (a == b) == (a.getWord() == b.getWord() && a.getDurations() == b.getDurations()), "operator==");
  TimedWord z; checkWord(z, "", {0}, "empty word"); checkWord(z + a, ew, ed, "neutral element"); checkWord(a + z, ew, ed, "neutral element");
}
VMAIN
