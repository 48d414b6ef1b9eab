// C23: membership oracles and symbolic membership queries
#include "tcutil.hh"
#include "sul.hh"
#define private public
#include "symbolic_membership_oracle.hh"
#undef private
static std::string showW(const std::string &w, const std::vector<double> &d) { std::ostringstream o; for (size_t i = 0; i < d.size(); i++) { o << d[i] << " "; if (i < w.size()) o << w[i] << " "; } return o.str(); }
// membership of durations in a condition, from the definition
static bool member(const BM &m, const std::vector<double> &d) {
  int n = m.rows(); std::vector<double> v(n, 0);
  if ((int) d.size() != n - 1) return false;
  for (int i = n - 1; i >= 1; i--) v[i] = (i == n - 1 ? 0 : v[i + 1]) + d[i - 1];
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { if (i == j) continue; double x = v[i] - v[j]; const Bounds &b = m(i, j); if (b.first >= INF) continue; if (x > b.first || (x == b.first && !b.second)) return false; }
  return true;
}
static bool isBounded(const BM &m) { for (int i = 1; i < m.rows(); i++) if (m(i, i + 1 < m.rows() ? i + 1 : 0).first >= INF) return false; return true; }
static std::string rndWord(Rng &rng, int n) { std::string w; for (int i = 0; i < n; i++) w.push_back((char) ('a' + rng.in(0, 1))); return w; }
// a system that records what it is fed; its answer is a function of the whole run
struct Sys : SUL {
  std::vector<std::string> log; std::string w; std::vector<double> d; std::size_t cnt = 0; bool open = false, bad = false, lastEvent = true;
  virtual bool accepts() = 0;
  void pre() override { log.push_back("pre"); w.clear(); d.clear(); if (open) bad = true; open = true; lastEvent = true; cnt++; }
  void post() override { log.push_back("post"); if (!open) bad = true; open = false; }
  bool step(char a) override { log.push_back(std::string("event ") + a); w.push_back(a); d.resize(std::max(d.size(), w.size())); lastEvent = true; return accepts(); }
  bool step(double x) override { std::ostringstream o; o << "delay " << x; log.push_back(o.str()); if (lastEvent) d.push_back(x); else d.back() += x; lastEvent = false; return accepts(); }
  std::size_t count() const override { return cnt; }
};
struct Hash : Sys { int salt; bool accepts() override { unsigned h = 17 + salt; for (char c: w) h = h * 31 + c; for (double x: d) h = h * 131 + (unsigned) (x * 8); h += log.size() * 0; return (h >> 3) & 1; } };
// accepts the words of a union of integer zones, per word of events
struct Zones : Sys { std::vector<std::pair<std::string, BM>> zs; bool accepts() override { return has(w, d); } bool has(const std::string &u, const std::vector<double> &e) { for (auto &[a, m]: zs) if (a == u && member(m, e)) return true; return false; } };
static std::vector<std::string> wantLog(const std::string &w, const std::vector<double> &d) { std::vector<std::string> l{"pre"}; for (size_t i = 0; i < d.size(); i++) { std::ostringstream o; o << "delay " << d[i]; l.push_back(o.str()); if (i < w.size()) l.push_back(std::string("event ") + w[i]); } l.push_back("post"); return l; }
static std::string join(const std::vector<std::string> &l) { std::string s; for (auto &x: l) s += x + "; "; return s; }

VTEST(C23, feed, 2) {
  auto owned = std::make_unique<Hash>(); Hash *sys = owned.get(); sys->salt = rng.in(0, 1000); SULMembershipOracle o(std::move(owned)); Hash ref; ref.salt = sys->salt;
  for (int t = 0; t < 6; t++) {
    std::string w = rndWord(rng, rng.in(0, 4)); std::vector<double> d(w.size() + 1); for (auto &x: d) x = rng.in(0, 12) / 4.0;
    sys->log.clear(); bool got = o.answerQuery(TimedWord(w, d)); note("query " + showW(w, d) + "\nfed: " + join(sys->log));
    VCHECK(sys->log == wantLog(w, d), "the system is not restarted and fed with the events and durations of the word in order; expected " << join(wantLog(w, d)));
    ref.w = w; ref.d = d; VCHECK(got == ref.accepts(), "the answer is not the one of the system after the last duration");
  }
}
VTEST(C23, cache, 3) {
  auto owned = std::make_unique<Hash>(); Hash *sys = owned.get(); sys->salt = rng.in(0, 1000);
  MembershipOracleCache o(std::make_unique<SULMembershipOracle>(std::move(owned))); Hash ref; ref.salt = sys->salt; std::vector<std::pair<std::string, std::vector<double>>> pool; std::ostringstream out;
  for (int t = 0; t < 14; t++) {
    std::string w; std::vector<double> d;
    if (!pool.empty() && rng.chance(65)) { auto p = rng.pick(pool); w = p.first; d = p.second; int k = rng.in(0, 4); if (k == 0 && w.size()) w[rng.in(0, w.size() - 1)] ^= 3; if (k == 1) d[rng.in(0, d.size() - 1)] += rng.chance(50) ? 0.25 : 1; if (k == 2) std::swap(d[rng.in(0, d.size() - 1)], d[rng.in(0, d.size() - 1)]); if (k == 3 && w.size() > 1) std::swap(w[0], w[1]); }
    else { w = rndWord(rng, rng.in(0, 3)); d.resize(w.size() + 1); for (auto &x: d) x = rng.in(0, 4) / 4.0; }
    pool.emplace_back(w, d); bool got = o.answerQuery(TimedWord(w, d)); ref.w = w; ref.d = d; bool want = ref.accepts();
    out << showW(w, d) << " -> " << got << "\n"; note(out.str()); VCHECK(got == want, "the cached answer differs from the one of the system (" << want << ")");
  }
}
static BM rndInt(Rng &rng, int n) { for (int t = 0; t < 20; t++) { BM m = rndCond(rng, n + 2, n > 1 ? 1 : 2, 0, 1); if (isBounded(m)) return m; } throw Skip{}; }
VTEST(C23, symbolic, 4) {
  auto owned = std::make_unique<Zones>(); Zones *sys = owned.get(); int n = rng.in(0, 2); std::string w = rndWord(rng, n); std::ostringstream out;
  for (int k = rng.in(0, 4); k > 0; k--) { std::string u = rng.chance(85) ? w : rndWord(rng, n); BM m = rndCond(rng, u.size() + 2, n > 1 ? 1 : 2, 30, 1); out << "the system accepts " << u << " with\n" << show(m); sys->zs.emplace_back(u, m); }
  SymbolicMembershipOracle o(std::move(owned)); std::vector<std::pair<std::string, BM>> asked;
  for (int t = rng.in(1, 4); t > 0; t--) {
    std::string u = rng.chance(85) ? w : rndWord(rng, n); BM m = rndInt(rng, u.size());
    if (!asked.empty() && rng.chance(30)) { auto p = rng.pick(asked); u = rng.chance(70) ? p.first : rndWord(rng, n); m = p.second; }
    asked.emplace_back(u, m); ElementaryLanguage e(u, tc(m)); if (e.enumerate().size() > 400) throw Skip{};
    out << "query " << u << " with\n" << show(m); note(out.str());
    TimedConditionSet r = o.query(e); for (auto &c: r.conditions) { out << "result\n" << show(c.zone.value); } note(out.str());
    for (auto &c: r.conditions) VCHECK(c.zone.value.rows() == m.rows(), "a result has another number of durations");
    int K = n > 1 ? 8 : 16; std::vector<double> d(u.size() + 1);
    auto check = [&] { bool in = false; for (auto &c: r.conditions) in = in || member(c.zone.value, d); bool want = member(m, d) && sys->has(u, d); VCHECK(in == want, "the word " << showW(u, d) << "is " << (in ? "" : "not ") << "in the answer but " << (member(m, d) ? "in" : "not in") << " the language and " << (sys->has(u, d) ? "" : "not ") << "accepted"); };
    if (u.size() == 0) { for (int a = 0; a <= 24; a++) { d[0] = a / 4.0; check(); } }
    else for (int s = 0; s < 500; s++) { for (auto &x: d) x = rng.chance(40) ? (double) rng.in(0, K / 4) : rng.in(0, K) / 4.0; check(); }
    VCHECK(!sys->bad, "the system is not restarted before each query");
  }
}
VMAIN
