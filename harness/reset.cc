// C18: lists of clock updates
#include "tautil.hh"
#include "timed_automaton.hh"
#include <set>
#include <cmath>
typedef std::variant<double, ClockVariables> Val;
static Val val(Rng &r, int n) { int k = r.in(0, 99); if (k < 40) return (ClockVariables) r.in(0, n - 1); if (k < 75) return (double) r.in(0, 4); return r.in(0, 4) + (r.chance(50) ? 0.5 : 0.25); }
static Resets lst(Rng &r, int n, bool uniq) {
  Resets res; std::set<int> seen; int len = r.in(0, n + 2);
  for (int i = 0; i < len; i++) { int x = r.in(0, n - 1); if (uniq && !seen.insert(x).second) continue; Val v = val(r, n); if (r.chance(15)) v = (ClockVariables) x; res.emplace_back(x, v); }
  return res;
}
// the updated valuation, all updates being evaluated at once; the last update of a clock counts
static std::vector<double> eff(const Resets &r, const std::vector<double> &v) { return updClocks(v, r); }
static std::vector<double> vals(Rng &r, int n) { std::vector<double> v; for (int i = 0; i < n; i++) v.push_back(i * 7 + 100 + r.in(0, 6) / 8.0); return v; }
static bool uniqR(const Resets &r) { std::set<int> s; for (auto &p: r) if (!s.insert(p.first).second) return false; return true; }
static bool named(const Resets &r, int x) { for (auto &p: r) if (p.first == x) return true; return false; }
static const Val *last(const Resets &r, int x) { const Val *p = nullptr; for (auto &q: r) if (q.first == x) p = &q.second; return p; }
static bool isConst(const Val *v) { return v && v->index() == 0 && std::get<0>(*v) == std::floor(std::get<0>(*v)); }
VTEST(C18, composition, 3) {
  int n = rng.in(1, 6); Resets l = lst(rng, n, rng.chance(70)), r = lst(rng, n, rng.chance(70)); note("left " + showR(l) + " right " + showR(r) + "\n");
  Resets c = composition(l, r); note("left " + showR(l) + " right " + showR(r) + " composition " + showR(c) + "\n");
  for (int k = 0; k < 3; k++) { auto v = vals(rng, n); VCHECK(eff(c, v) == eff(l, eff(r, v)), "the composition differs from the right updates followed by the left ones"); }
  VCHECK(uniqR(c), "a clock is updated twice");
}
VTEST(C18, add_default, 1) {
  int n = rng.in(1, 6); Resets o = lst(rng, n, rng.chance(80)), d = lst(rng, n, rng.chance(80)); Resets c = addDefault(o, d); note("original " + showR(o) + " default " + showR(d) + " result " + showR(c) + "\n");
  auto v = vals(rng, n), eo = eff(o, v), ed = eff(d, v), ec = eff(c, v);
  for (int x = 0; x < n; x++) VCHECK(ec[x] == (named(o, x) ? eo[x] : ed[x]), "an update of the original list is changed, or a missing one is not the default");
}
VTEST(C18, clean, 1) {
  int n = rng.in(1, 6); Resets o = lst(rng, n, true); Resets c = clean(o); note("updates " + showR(o) + " cleaned " + showR(c) + "\n");
  auto v = vals(rng, n); VCHECK(eff(c, v) == eff(o, v), "cleaning changes the effect of the updates");
  for (auto &p: c) VCHECK(!(p.second.index() == 1 && std::get<1>(p.second) == p.first), "an update that does nothing remains");
}
VTEST(C18, precise, 4) {
  int n = rng.in(1, 6); Resets o = lst(rng, n, true), p = lst(rng, n, true); bool copies = rng.chance(50); Guard g; for (int k = rng.in(0, 2); k > 0; k--) g.push_back(mkc(rng.in(0, n - 1), rng.chance(50) ? O::lt : O::ge, rng.in(0, 3)));
  TAState st; TATransition t{&st, o, g}; std::string s = std::string(copies ? "constants and copies " : "constants ") + showR(p) + " into " + showR(o); note(s + "\n");
  if (copies) t.addPreciseAssignments(p); else t.addPreciseConstantAssignments(p); note(s + " result " + showR(t.resetVars) + "\n");
  VCHECK(t.target == &st && showG(t.guard) == showG(g), "the target or the guard is changed"); VCHECK(uniqR(t.resetVars), "a clock is updated twice");
  auto v = vals(rng, n), eo = eff(o, v), ep = eff(p, v), et = eff(t.resetVars, v);
  for (int x = 0; x < n; x++) {
    bool take = !isConst(last(o, x)) && named(p, x) && (isConst(last(p, x)) || (copies && last(p, x)->index() == 1));
    VCHECK(et[x] == (take ? ep[x] : eo[x]), take ? "a missing or imprecise update is not replaced by the precise one" : "the update of a clock is changed although it was precise or no precise one is given");
  }
}
VTEST(C18, count, 1) {
  int n = rng.in(1, 6); Resets o = lst(rng, n, rng.chance(70)); note("updates " + showR(o) + "\n"); size_t a = 0, b = 0; for (auto &p: o) { bool imp = p.second.index() == 0 && !isConst(&p.second); if (imp) a++; if (imp || p.second.index() == 1) b++; }
  VCHECK(TATransition::impreciseConstantAssignSize(o) == a, "the number of imprecise constant updates is wrong"); VCHECK(TATransition::impreciseAssignSize(o) == b, "the number of imprecise updates is wrong");
}
VMAIN
