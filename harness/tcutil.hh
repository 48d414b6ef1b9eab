#pragma once
#include "dbm.hh"
#include <deque>
#include <list>
#include <unordered_map>
#include <variant>
#include <optional>
#include <memory>
#include <iterator>
#include <numeric>
#include <Eigen/Core>
#include <boost/functional/hash.hpp>
#include <boost/unordered_map.hpp>
#include <boost/log/trivial.hpp>
#include "timed_automaton.hh"
#define private public
#define protected public
#include "juxtaposed_zone_set.hh"
#include "elementary_language.hh"
#undef private
#undef protected
#include "dbm.hh"
using namespace vh; using namespace learnta;
typedef std::vector<std::pair<std::size_t, std::size_t>> Ren;
[[maybe_unused]] static const double INF = std::numeric_limits<double>::max();
[[maybe_unused]] static TimedCondition tc(const BM &m) { return TimedCondition(Zone(m)); }
[[maybe_unused]] static int divOf(Rng &r) { return r.chance(20) ? 2 : 1; }
[[maybe_unused]] static bool canonicalForm(const BM &m) {
  RM q = toRM(m); if (!close(q)) return true;
  for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) if (i != j && !eqR(q[i][j], toR(m(i, j)))) return false;
  return true;
}
[[maybe_unused]] static void sameAs(const BM &got, const RM &want, const char *what) {
  VCHECK(got.rows() == (int) want.size() && got.cols() == got.rows(), what << ": dimension " << got.rows());
  VCHECK(sameSet(toRM(got), want), what << ": got\n" << show(got) << "want (any equivalent matrix)\n" << show(want));
}
[[maybe_unused]] static RM topRM(int n) { return RM(n, std::vector<R>(n, R{true, 0, false})); }
[[maybe_unused]] static void low(R &e, const R &b) { if (lessR(b, e)) e = b; }
// reference juxtaposition, the last l variables identified
[[maybe_unused]] static RM jux(const RM &a, const RM &b, int l) {
  int m = a.size() - 1, n = b.size() - 1; RM w = topRM(m + n - l + 1);
  for (int i = 0; i <= m; i++) for (int j = 0; j <= m; j++) w[i][j] = a[i][j];
  auto ix = [&](int k) { return k == 0 ? 0 : k <= n - l ? m + k : m - (n - k); };
  for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) low(w[ix(i)][ix(j)], b[i][j]);
  return w;
}
[[maybe_unused]] static RM proj(RM w, const std::vector<int> &keep) { RM r = topRM(keep.size()); if (!close(w)) { r[0][0] = {false, -1, true}; return r; } for (size_t i = 0; i < keep.size(); i++) for (size_t j = 0; j < keep.size(); j++) r[i][j] = w[keep[i]][keep[j]]; return r; }
[[maybe_unused]] static Ren rndRen(Rng &rng, int l, int r, int maxn) { Ren q; int k = rng.in(0, maxn); for (int i = 0; i < k && l && r; i++) q.emplace_back(rng.in(0, l - 1), rng.in(0, r - 1)); return q; }
[[maybe_unused]] static std::string show(const Ren &r) { std::ostringstream o; for (auto &[a, b]: r) o << "(" << a << "," << b << ") "; return o.str(); }
// conditions as in the learner: integer bounds, nonnegative sums of durations
[[maybe_unused]] static BM rndCond(Rng &rng, int dim, int K, int infp, int div = 1) {
  for (int t = 0; t < 60; t++) {
    RM q = topRM(dim);
    for (int i = 0; i < dim; i++) q[i][i] = {false, 0, true};
    for (int i = 1; i < dim; i++) { int k = i + 1 < dim ? i + 1 : 0; q[k][i] = {false, 0, true}; }
    for (int i = 1; i < dim; i++) for (int j = i + 1; j <= dim; j++) { int k = j == dim ? 0 : j; int lo = rng.in(0, K * div);
      if (!rng.chance(infp)) low(q[i][k], toR(Bounds((lo + rng.in(0, 2 * div)) / (double) div, rng.chance(60))));
      if (!rng.chance(infp)) low(q[k][i], toR(Bounds(-lo / (double) div, rng.chance(60)))); }
    if (close(q)) return fromRM(q);
  }
  throw Skip{};
}
[[maybe_unused]] static BM anyCanonical(Rng &rng, int dim) { return rng.chance(60) ? rndCond(rng, dim, 3, rng.pick(std::vector<int>{10, 50, 80}), divOf(rng)) : rndCanonical(rng, dim, 3, rng.pick(std::vector<int>{20, 50, 80}), rng.chance(60), divOf(rng)); }
[[maybe_unused]] static int hix(int j, int n) { return j == n - 1 ? 0 : j + 2; }
