// Reference semantics of difference bound matrices, written independently of /repo.
#pragma once
#include "common.hh"
#include "zone.hh"
namespace vh {
  using learnta::Bounds; using learnta::Zone;
  typedef Eigen::Matrix<Bounds, Eigen::Dynamic, Eigen::Dynamic> BM;
  // upper bounds on x_i - x_j; inf = no bound
  struct R { bool inf; double c; bool closed; };
  inline bool lessR(const R &a, const R &b) { if (a.inf || b.inf) return !a.inf && b.inf; return a.c < b.c || (a.c == b.c && !a.closed && b.closed); }
  inline R addR(const R &a, const R &b) { if (a.inf || b.inf) return {true, 0, false}; return {false, a.c + b.c, a.closed && b.closed}; }
  typedef std::vector<std::vector<R>> RM;
  inline R toR(const Bounds &b) { if (b.first >= std::numeric_limits<double>::max()) return {true, 0, false}; return {false, b.first, b.second}; }
  inline Bounds fromR(const R &r) { return r.inf ? Bounds(std::numeric_limits<double>::max(), false) : Bounds(r.c, r.closed); }
  inline RM toRM(const BM &m) { RM r(m.rows(), std::vector<R>(m.cols())); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) r[i][j] = toR(m(i, j)); return r; }
  // canonical form; false iff empty
  inline bool close(RM &m) {
    int n = m.size();
    for (int i = 0; i < n; i++) { R z{false, 0, true}; if (lessR(z, m[i][i])) m[i][i] = z; }
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { R s = addR(m[i][k], m[k][j]); if (lessR(s, m[i][j])) m[i][j] = s; }
    for (int i = 0; i < n; i++) if (lessR(m[i][i], R{false, 0, true})) return false;
    return true;
  }
  inline bool eqR(const R &a, const R &b) { return a.inf == b.inf && (a.inf || (a.c == b.c && a.closed == b.closed)); }
  // same set of solutions
  inline bool sameSet(RM a, RM b) {
    bool x = close(a), y = close(b);
    if (!x || !y) return x == y;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (!eqR(a[i][j], b[i][j])) return false;
    return true;
  }
  inline bool subsetOf(RM a, RM b) { if (!close(a)) return true; if (!close(b)) return false;
    for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (lessR(b[i][j], a[i][j])) return false; return true; }
  inline RM meet(const RM &a, const RM &b) { RM r = a; for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < a.size(); j++) if (lessR(b[i][j], r[i][j])) r[i][j] = b[i][j]; return r; }
  // membership of a valuation (v[0] is the reference)
  inline bool satR(const R &b, double d) { return b.inf || d < b.c || (d == b.c && b.closed); }
  inline bool member(const RM &m, const std::vector<double> &v) { for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) if (!satR(m[i][j], v[i] - v[j])) return false; return true; }
  inline std::string show(const BM &m) { std::ostringstream o; for (int i = 0; i < m.rows(); i++) { for (int j = 0; j < m.cols(); j++) { o << "("; if (m(i, j).first == std::numeric_limits<double>::max()) o << "DBL_MAX"; else o << m(i, j).first; o << "," << (m(i, j).second ? "<=" : "<") << ") "; } o << "\n"; } return o.str(); }
  inline std::string show(const RM &m) { std::ostringstream o; for (auto &r: m) { for (auto &x: r) { if (x.inf) o << "inf "; else o << "(" << x.c << "," << (x.closed ? "<=" : "<") << ") "; } o << "\n"; } return o.str(); }
  inline std::string show(const std::vector<double> &v) { return str(v); }
  // a random bound; constants are multiples of 1/div
  inline Bounds rndBound(Rng &r, int lo, int hi, int infPercent, int div = 1) {
    if (r.chance(infPercent)) return {std::numeric_limits<double>::max(), false};
    return {r.in(lo * div, hi * div) / static_cast<double>(div), r.chance(60)};
  }
  inline BM rndMatrix(Rng &r, int dim, int K, int infPercent, int div = 1, bool rawDiag = false) {
    BM m(dim, dim);
    for (int i = 0; i < dim; i++) for (int j = 0; j < dim; j++) {
      if (i == j) m(i, j) = (rawDiag && r.chance(50)) ? Bounds(std::numeric_limits<double>::max(), false) : Bounds(0, true);
      else m(i, j) = j == 0 ? rndBound(r, 0, K, infPercent, div) : i == 0 ? rndBound(r, -K, 0, infPercent, div) : rndBound(r, -K, K, infPercent, div);
    }
    return m;
  }
  inline BM fromRM(const RM &m) { BM b(m.size(), m.size()); for (size_t i = 0; i < m.size(); i++) for (size_t j = 0; j < m.size(); j++) b(i, j) = fromR(m[i][j]); return b; }
  // a random non-empty canonical zone matrix; nonneg: clocks are nonnegative
  inline BM rndCanonical(Rng &r, int dim, int K, int infPercent, bool nonneg, int div = 1) {
    for (int t = 0; t < 50; t++) {
      BM m = rndMatrix(r, dim, K, t > 25 ? 90 : infPercent, div);
      RM q = toRM(m);
      if (nonneg) for (int j = 1; j < dim; j++) { R z{false, 0, true}; if (lessR(z, q[0][j])) q[0][j] = z; }
      if (close(q)) return fromRM(q);
    }
    throw Skip{};
  }
  // a random solution of a canonical non-empty matrix; multiples of 1/8
  inline bool rndPoint(Rng &r, const RM &m, std::vector<double> &v, double range = 6) {
    int n = m.size(); v.assign(n, 0);
    std::vector<int> order; for (int i = 1; i < n; i++) order.push_back(i);
    for (int i = 0; i < (int) order.size(); i++) std::swap(order[i], order[r.in(i, order.size() - 1)]);
    std::vector<int> done{0};
    for (int x: order) {
      double lo = -range, hi = range; bool lc = true, hc = true;
      for (int y: done) {
        if (!m[x][y].inf) { double c = m[x][y].c + v[y]; if (c < hi || (c == hi && !m[x][y].closed)) { hi = c; hc = m[x][y].closed; } }
        if (!m[y][x].inf) { double c = v[y] - m[y][x].c; if (c > lo || (c == lo && !m[y][x].closed)) { lo = c; lc = m[y][x].closed; } }
      }
      std::vector<double> cand;
      double den = 64;
      if (lc && lo <= hi && (lo < hi || hc)) cand.push_back(lo);
      if (hc && hi >= lo && (lo < hi || lc)) cand.push_back(hi);
      if (lo < hi) { cand.push_back((lo + hi) / 2); cand.push_back(lo + (hi - lo) / 4); double f = std::floor(lo * den) / den; (void) f; double g = std::floor(lo) + 1; if (g < hi) cand.push_back(g); }
      if (cand.empty()) return false;
      v[x] = r.pick(cand); done.push_back(x);
    }
    return member(m, v);
  }
  // a random point near the matrix: a solution with some coordinates moved
  inline std::vector<double> rndNear(Rng &r, const RM &m, int K) {
    std::vector<double> v; 
    if (!rndPoint(r, m, v)) { v.assign(m.size(), 0); for (size_t i = 1; i < v.size(); i++) v[i] = r.in(0, 4 * K) / 4.0; }
    int moves = r.in(0, 2);
    for (int t = 0; t < moves && v.size() > 1; t++) { int x = r.in(1, v.size() - 1); static const std::vector<double> d{-1, -0.5, -0.25, 0.25, 0.5, 1, -2, 2}; v[x] += r.pick(d); }
    return v;
  }
}
