// ---- moving values of the variables to the next or the previous point or unit interval
// ---- steps of regions by time.  The values of the variables are v(k) - v(z): z = 0 for T_{i,N}, z = 1 for -T_{0,i}
pub open spec fn vix(z: int, rows: int, i: int) -> int { if z == 0 { i + 1 } else { hix(i, rows) } }
pub open spec fn xiv(z: int, rows: int, k: int) -> int { if z == 0 { k - 1 } else if k == 0 { rows - 2 } else { k - 2 } }
pub open spec fn st_up(u: Bounds, l: Bounds) -> Pair<Bounds, Bounds> { if l.second { Pair { first: bnd(dv(u.first) + 1real, false), second: bnd(dv(l.first), false) } } else { Pair { first: bnd(dv(u.first), true), second: bnd(dv(l.first) - 1real, true) } } }
pub open spec fn st_chg(u: Bounds, l: Bounds, uu: Bounds, ll: Bounds, c: bool, rise: bool) -> bool {
  if !c { uu == u && ll == l } else if rise { uu == st_up(u, l).first && ll == st_up(u, l).second } else { ll == st_up(l, u).first && uu == st_up(l, u).second }
}
pub open spec fn st_at(m: Mat, b: Mat, z: int, i: int, c: bool, rise: bool) -> bool { let k = vix(z, m.rows, i); st_chg(m.at(k, z), m.at(z, k), b.at(k, z), b.at(z, k), c, rise) }
/// the entries that do not concern one of the values
pub open spec fn st_same(m: Mat, b: Mat, z: int) -> bool { b.rows == m.rows && b.cols == m.cols && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && ((i == z) == (j == z)) ==> #[trigger] b.at(i, j) == m.at(i, j) }
/// b is m with the bounds of the values of the variables in s raised or lowered
pub open spec fn st_moved(m: Mat, b: Mat, z: int, s: Seq<int>, rise: bool) -> bool { st_same(m, b, z) && forall|i: int| 0 <= i < m.rows - 1 ==> #[trigger] st_at(m, b, z, i, s.contains(i), rise) }
pub proof fn lem_vix(z: int, rows: int, i: int)
  requires 0 <= z <= 1, rows >= 2, 0 <= i < rows - 1
  ensures 0 <= vix(z, rows, i) < rows, vix(z, rows, i) != z, xiv(z, rows, vix(z, rows, i)) == i
{}
pub proof fn lem_xiv(z: int, rows: int, k: int)
  requires 0 <= z <= 1, rows >= 2, 0 <= k < rows, k != z
  ensures 0 <= xiv(z, rows, k) < rows - 1, vix(z, rows, xiv(z, rows, k)) == k
{}
pub proof fn lem_srp(m: Mat, i: int, j: int)
  requires simple(m), 0 <= i < m.rows, 0 <= j < m.rows, i != j
  ensures ptb(m.at(i, j), m.at(j, i)) || unitb(m.at(i, j), m.at(j, i))
{ if i < j { assert(tij(i, j)); } else { assert(tij(j, i)); } }
// ---- moving the variables one after the other
pub open spec fn st_vars(s: Seq<int>, n: int) -> bool { (forall|k: int| 0 <= k < s.len() ==> 0 <= #[trigger] s[k] < n) && forall|k: int, h: int| 0 <= k < h < s.len() ==> #[trigger] s[k] != #[trigger] s[h] }
pub open spec fn st_fin(m: Mat, z: int) -> bool { m.rows >= 2 && m.cols == m.rows && 0 <= z <= 1 && forall|i: int| 0 <= i < m.rows - 1 ==> #[trigger] st_sp(m, z, i) }
pub open spec fn st_sp(m: Mat, z: int, i: int) -> bool { let k = vix(z, m.rows, i); ptb(m.at(k, z), m.at(z, k)) || unitb(m.at(k, z), m.at(z, k)) }
pub proof fn lem_fin(m: Mat, z: int)
  requires simple(m), m.rows >= 2, m.cols == m.rows, 0 <= z <= 1
  ensures st_fin(m, z)
{
  assert forall|i: int| 0 <= i < m.rows - 1 implies #[trigger] st_sp(m, z, i) by { lem_vix(z, m.rows, i); let k = vix(z, m.rows, i); lem_srp(m, k, z); }
}
pub proof fn lem_moved_one(m: Mat, a: Mat, b: Mat, z: int, s: Seq<int>, t: int, rise: bool)
  requires st_moved(m, a, z, s.take(t), rise), st_same(a, b, z), m.rows >= 2, 0 <= z <= 1, 0 <= t < s.len(), st_vars(s, m.rows - 1), st_at(a, b, z, s[t], true, rise),
    forall|i: int| 0 <= i < m.rows - 1 && i != s[t] ==> #[trigger] st_at(a, b, z, i, false, rise)
  ensures st_moved(m, b, z, s.take(t + 1), rise)
{
  assert(!s.take(t).contains(s[t])) by { if s.take(t).contains(s[t]) { let k = choose|k: int| 0 <= k < t && s.take(t)[k] == s[t]; assert(s[k] != s[t]); } }
  assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.rows && ((i == z) == (j == z)) implies #[trigger] b.at(i, j) == m.at(i, j) by { assert(a.at(i, j) == m.at(i, j)); }
  assert(st_same(m, b, z));
  assert forall|i: int| 0 <= i < m.rows - 1 implies #[trigger] st_at(m, b, z, i, s.take(t + 1).contains(i), rise) by {
    assert(st_at(m, a, z, i, s.take(t).contains(i), rise));
    if i == s[t] { assert(s.take(t + 1)[t] == i); assert(st_at(a, b, z, s[t], true, rise)); }
    else {
      assert(st_at(a, b, z, i, false, rise));
      if s.take(t).contains(i) { let k = choose|k: int| 0 <= k < t && s.take(t)[k] == i; assert(s.take(t + 1)[k] == i); }
      if s.take(t + 1).contains(i) { let u = s.take(t + 1); let k = choose|k: int| 0 <= k < t + 1 && #[trigger] u[k] == i; assert(s.take(t)[k] == i); }
    }
  }
}
/// the current bounds of a variable that has not been moved yet
pub proof fn lem_moved_next(m: Mat, a: Mat, z: int, s: Seq<int>, t: int, rise: bool)
  requires st_moved(m, a, z, s.take(t), rise), st_fin(m, z), 0 <= t < s.len(), st_vars(s, m.rows - 1)
  ensures st_sp(a, z, s[t]), 0 <= vix(z, m.rows, s[t]) < m.rows, vix(z, m.rows, s[t]) != z, a.rows == m.rows, a.cols == m.cols
{
  assert(!s.take(t).contains(s[t])) by { if s.take(t).contains(s[t]) { let k = choose|k: int| 0 <= k < t && s.take(t)[k] == s[t]; assert(s[k] != s[t]); } }
  assert(st_at(m, a, z, s[t], s.take(t).contains(s[t]), rise)); assert(st_sp(m, z, s[t])); lem_vix(z, m.rows, s[t]);
}
/// only the two bounds of the value at index k are changed
pub open spec fn st_two(a: Mat, b: Mat, z: int, k: int) -> bool { b.rows == a.rows && b.cols == a.cols && forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.rows && !(i == k && j == z) && !(i == z && j == k) ==> #[trigger] b.at(i, j) == a.at(i, j) }
pub proof fn lem_moved_two(m: Mat, a: Mat, b: Mat, z: int, s: Seq<int>, t: int, rise: bool)
  requires st_moved(m, a, z, s.take(t), rise), m.rows >= 2, 0 <= z <= 1, 0 <= t < s.len(), st_vars(s, m.rows - 1), st_two(a, b, z, vix(z, m.rows, s[t])), st_at(a, b, z, s[t], true, rise)
  ensures st_moved(m, b, z, s.take(t + 1), rise)
{
  let k = vix(z, m.rows, s[t]); lem_vix(z, m.rows, s[t]);
  assert forall|i: int| 0 <= i < m.rows - 1 && i != s[t] implies #[trigger] st_at(a, b, z, i, false, rise) by { lem_vix(z, m.rows, i); let h = vix(z, m.rows, i); assert(h != k); assert(b.at(h, z) == a.at(h, z)); assert(b.at(z, h) == a.at(z, h)); }
  lem_moved_one(m, a, b, z, s, t, rise);
}

pub proof fn lem_hmod(i: int, n: int)
  requires 0 <= i < n - 1
  ensures itmod(i + 2, n) == hix(i, n)
{
  if i + 2 == n { assert(n / n == 1) by (nonlinear_arith) requires n > 0; assert(itdiv(n, n) == 1); assert(n * 1 == n) by (nonlinear_arith); assert(itmod(i + 2, n) == n - n * 1); }
  else { assert((i + 2) / n == 0) by (nonlinear_arith) requires 0 <= i + 2, i + 2 < n; assert(itdiv(i + 2, n) == 0); assert(n * 0 == 0) by (nonlinear_arith); assert(itmod(i + 2, n) == i + 2 - n * 0); }
}
