// ---- enumeration of the simple parts of a condition
/// how many of the conditions admit v
pub open spec fn cnt(s: Seq<TimedCondition>, v: spec_fn(int) -> real) -> int decreases s.len() { if s.len() == 0 { 0 } else { cnt(s.drop_last(), v) + (if sat(s.last().zone.value, v) { 1int } else { 0 }) } }
pub open spec fn one(b: bool) -> int { if b { 1 } else { 0 } }
/// the bounds of the difference of x and y are a point or an open unit interval
pub open spec fn srp(m: Mat, x: int, y: int) -> bool { ptb(m.at(x, y), m.at(y, x)) || unitb(m.at(x, y), m.at(y, x)) }
/// every sum of consecutive durations has finite bounds
pub open spec fn finite_m(m: Mat) -> bool { forall|i: int, j: int| 0 <= i <= j < m.rows - 1 && #[trigger] tij(i, j) ==> m.at(i + 1, hix(j, m.rows)).first is Fin && m.at(hix(j, m.rows), i + 1).first is Fin }
/// a part under refinement: the sums of consecutive durations before (i, j) are points or open unit intervals
pub open spec fn part(m: Mat, rows: int, i: int, j: int) -> bool {
  canonical(m) && intm(m) && m.rows == rows && finite_m(m)
  && forall|a: int, b: int| 0 <= a <= b < rows - 1 && (a < i || (a == i && b < j)) && #[trigger] tij(a, b) ==> srp(m, a + 1, hix(b, rows))
}
pub open spec fn parts(s: Seq<TimedCondition>, rows: int, i: int, j: int) -> bool { forall|k: int| 0 <= k < s.len() ==> part((#[trigger] s[k]).zone.value, rows, i, j) && !simple(s[k].zone.value) }
pub open spec fn simples(s: Seq<TimedCondition>, rows: int) -> bool { forall|k: int| 0 <= k < s.len() ==> canonical((#[trigger] s[k]).zone.value) && intm(s[k].zone.value) && s[k].zone.value.rows == rows && simple(s[k].zone.value) }
/// v is in exactly one of the conditions if it satisfies m, and in none otherwise
pub open spec fn split_of(s: Seq<TimedCondition>, m: Mat) -> bool { forall|v: spec_fn(int) -> real| #[trigger] cnt(s, v) == one(sat(m, v)) }
pub proof fn lem_cnt_push(s: Seq<TimedCondition>, c: TimedCondition, v: spec_fn(int) -> real)
  ensures cnt(s.push(c), v) == cnt(s, v) + one(sat(c.zone.value, v))
{ assert(s.push(c).drop_last() =~= s); }
pub proof fn lem_cnt_pre(s: Seq<TimedCondition>, k: int, v: spec_fn(int) -> real)
  requires 0 <= k < s.len()
  ensures cnt(s.subrange(0, k + 1), v) == cnt(s.subrange(0, k), v) + one(sat(s[k].zone.value, v))
{ assert(s.subrange(0, k + 1) =~= s.subrange(0, k).push(s[k])); lem_cnt_push(s.subrange(0, k), s[k], v); }
pub proof fn lem_hix_pair(a: int, b: int, rows: int) -> (r: (int, int))
  requires 0 <= a < b < rows
  ensures 0 <= r.0 <= r.1 < rows - 1, (r.0 + 1 == a && hix(r.1, rows) == b) || (r.0 + 1 == b && hix(r.1, rows) == a)
{ if a == 0 { (b - 1, rows - 2) } else { (a - 1, b - 2) } }
pub proof fn lem_part_simple(m: Mat, rows: int)
  requires part(m, rows, rows - 1, rows - 1) || part(m, rows, rows, 0)
  ensures simple(m)
{
  assert forall|a: int, b: int| 0 <= a < b < m.rows && #[trigger] tij(a, b) implies srp(m, a, b) by { let (i, j) = lem_hix_pair(a, b, rows); assert(tij(i, j)); assert(srp(m, i + 1, hix(j, rows))); }
}
pub proof fn lem_finite(m: Mat, i: int, j: int)
  requires canonical(m), bounded_m(m), 0 <= i <= j < m.rows - 1
  ensures m.at(i + 1, hix(j, m.rows)).first is Fin, m.at(hix(j, m.rows), i + 1).first is Fin
  decreases j - i
{
  assert(tix(j));
  if i < j {
    lem_diag_off(m);
    lem_finite(m, i, j - 1);
    let x = i + 1; let y = hix(j - 1, m.rows); let z = hix(j, m.rows);
    assert(y == j + 1);
    assert(ble(dz(m, x, z), badd(m.at(x, y), m.at(y, z)))); assert(ble(dz(m, z, x), badd(m.at(z, y), m.at(y, x))));
  }
}
pub proof fn lem_finite_m(m: Mat)
  requires canonical(m), bounded_m(m)
  ensures finite_m(m)
{ assert forall|i: int, j: int| 0 <= i <= j < m.rows - 1 && #[trigger] tij(i, j) implies m.at(i + 1, hix(j, m.rows)).first is Fin && m.at(hix(j, m.rows), i + 1).first is Fin by { lem_finite(m, i, j); } }
/// every value admitted by both bounds of a difference is attained
pub proof fn lem_attain(m: Mat, x: int, y: int, d: real) -> (v: spec_fn(int) -> real)
  requires canonical(m), 0 <= x < m.rows, 0 <= y < m.rows, x != y, bsat(m.at(x, y), d), bsat(m.at(y, x), -d)
  ensures sat(m, v), v(x) - v(y) == d
{
  let s = |k: int| k == x || k == y;
  let u = |k: int| if k == x { d } else { 0real };
  assert forall|a: int, b: int| 0 <= a < m.rows && 0 <= b < m.rows && s(a) && s(b) implies bsat(#[trigger] m.at(a, b), u(a) - u(b)) by { if a == b { assert(ble(bz(), m.at(a, a))); assert(okb(m.at(a, a))); } }
  let v = lem_extend_all(m, u, s, 0);
  assert(s(x) && s(y));
  v
}
/// a non-empty part of p keeps the pairs that are already points or unit intervals
pub proof fn lem_part_le(p: Mat, q: Mat, rows: int, i: int, j: int)
  requires part(p, rows, i, j), canonical(q), intm(q), le_mat(q, p), q.rows == rows, q.cols == rows
  ensures part(q, rows, i, j)
{
  lem_diag_off(q);
  assert forall|a: int, b: int| 0 <= a <= b < rows - 1 && #[trigger] tij(a, b) implies q.at(a + 1, hix(b, rows)).first is Fin && q.at(hix(b, rows), a + 1).first is Fin by {
    let (x, y) = (a + 1, hix(b, rows)); assert(ble(q.at(x, y), p.at(x, y))); assert(ble(q.at(y, x), p.at(y, x)));
    assert(okb(q.at(x, y)) && okb(q.at(y, x)));
  }
  assert forall|a: int, b: int| 0 <= a <= b < rows - 1 && (a < i || (a == i && b < j)) && #[trigger] tij(a, b) implies srp(q, a + 1, hix(b, rows)) by { lem_srp_le(p, q, a + 1, hix(b, rows)); }
}
pub proof fn lem_srp_le(p: Mat, q: Mat, x: int, y: int)
  requires canonical(q), intm(q), wf(p), le_mat(q, p), q.rows == p.rows, 0 <= x < p.rows, 0 <= y < p.rows, srp(p, x, y)
  ensures srp(q, x, y)
{
  lem_diag_off(q);
  assert(ble(q.at(x, y), p.at(x, y))); assert(ble(q.at(y, x), p.at(y, x)));
  assert(ble(dz(q, x, x), badd(q.at(x, y), q.at(y, x)))); assert(ble(bz(), q.at(x, x)));
  let a = q.at(x, y); let b = q.at(y, x); assert(okb(a) && okb(b) && intb(a) && intb(b));
  lem_srp_s(p.at(x, y), p.at(y, x), a, b);
}
pub proof fn lem_srp_s(pa: Bounds, pb: Bounds, a: Bounds, b: Bounds)
  requires okb(a), okb(b), intb(a), intb(b), ble(a, pa), ble(b, pb), ble(bz(), badd(a, b)), ptb(pa, pb) || unitb(pa, pb), !(a.first is NInf), !(b.first is NInf)
  ensures ptb(a, b) || unitb(a, b)
{
  assert(a.first is Fin && b.first is Fin);
  let x = dv(a.first).floor(); let y = dv(b.first).floor();
  assert(dv(a.first) == x as real && dv(b.first) == y as real);
  if ptb(pa, pb) { assert(ptb(a, b)); } else {
    assert(x as real + y as real <= 1real); assert(x + y <= 1);
    assert(x as real + y as real >= 0real); assert(x + y >= 0);
    if x + y == 0 { assert(a.second && b.second); assert(dv(a.first) < dv(pa.first) || a == pa); }
  }
}
/// the piece of the interval of a difference that starts at lower bound l (on the negated difference)
pub open spec fn upper_of(l: Bounds) -> Bounds { if l.second { Pair { first: dneg(l.first), second: true } } else { Pair { first: dadd(dneg(l.first), fin(1real)), second: false } } }
pub open spec fn next_low(l: Bounds) -> Bounds { if l.second { Pair { first: l.first, second: false } } else { Pair { first: dadd(l.first, dneg(fin(1real))), second: true } } }
/// l is a lower bound reached from that of p
pub open spec fn low_from(p: Bounds, l: Bounds) -> bool { l.first is Fin && intb(l) && ble(l, p) }
pub proof fn lem_piece_s(l: Bounds, d: real)
  requires l.first is Fin
  ensures bsat(l, -d) == ((bsat(l, -d) && bsat(upper_of(l), d)) || bsat(next_low(l), -d)), !(bsat(upper_of(l), d) && bsat(next_low(l), -d)), bsat(next_low(l), -d) ==> bsat(l, -d), ble(next_low(l), l), okb(upper_of(l)), okb(next_low(l)),
{}
pub proof fn lem_piece_int(l: Bounds)
  requires l.first is Fin, intb(l)
  ensures intb(upper_of(l)), intb(next_low(l)), upper_of(l).first is Fin, next_low(l).first is Fin
{ let k = dv(l.first).floor(); lem_floor_int(-dv(l.first), -k); lem_floor_int(-dv(l.first) + 1real, 1 - k); lem_floor_int(dv(l.first) - 1real, k - 1); }
/// refining a pair by one piece yields a non-empty part in which the pair is done
pub proof fn lem_piece(p: Mat, q: Mat, rows: int, i: int, j: int, l: Bounds)
  requires part(p, rows, i, j), 0 <= i <= j < rows - 1, wf(q), intm(q), q.rows == rows, le_mat(q, p), diag_ok(q) ==> closed(q),
    low_from(p.at(hix(j, rows), i + 1), l), ble(upper_of(l), p.at(i + 1, hix(j, rows))),
    forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) == (sat(p, v) && bsat(l, -dur(v, i, j, rows)) && bsat(upper_of(l), dur(v, i, j, rows))),
  ensures part(q, rows, i, j + 1)
{
  let x = i + 1; let y = hix(j, rows);
  assert(tij(i, j)); lem_piece_int(l);
  let k = dv(l.first).floor();
  let u = p.at(x, y); let low = p.at(y, x);
  // a value inside the piece
  let d = if l.second { -dv(l.first) } else { -dv(l.first) + 0.5real };
  lem_piece_in(low, u, l, d);
  let v = lem_attain(p, x, y, d);
  assert(bsat(l, -dur(v, i, j, rows)) && bsat(upper_of(l), dur(v, i, j, rows)));
  assert(sat(q, v)); lem_sat_diag(q, v);
  lem_part_le(p, q, rows, i, j);
  lem_piece_done(q, x, y, l, i, j);
  assert forall|a: int, b: int| 0 <= a <= b < rows - 1 && (a < i || (a == i && b < j + 1)) && #[trigger] tij(a, b) implies srp(q, a + 1, hix(b, rows)) by { if a == i && b == j { assert(srp(q, x, y)); } }
}
pub proof fn lem_piece_in(low: Bounds, u: Bounds, l: Bounds, d: real)
  requires low_from(low, l), ble(upper_of(l), u), d == (if l.second { -dv(l.first) } else { -dv(l.first) + 0.5real }), okb(low), okb(u), intb(low)
  ensures bsat(u, d), bsat(low, -d), bsat(l, -d), bsat(upper_of(l), d)
{}
pub proof fn lem_piece_done(q: Mat, x: int, y: int, l: Bounds, i: int, j: int)
  requires canonical(q), intm(q), 0 <= x < q.rows, 0 <= y < q.rows, x == i + 1, y == hix(j, q.rows), x != y, l.first is Fin, intb(l),
    forall|v: spec_fn(int) -> real| #[trigger] sat(q, v) ==> bsat(l, -dur(v, i, j, q.rows)) && bsat(upper_of(l), dur(v, i, j, q.rows))
  ensures srp(q, x, y)
{
  lem_piece_int(l);
  if !ble(q.at(x, y), upper_of(l)) { lem_tight_entry(q, upper_of(l), x, y); let v = choose|v: spec_fn(int) -> real| sat(q, v) && !bsat(upper_of(l), v(x) - v(y)); assert(false); }
  if !ble(q.at(y, x), l) { lem_tight_entry(q, l, y, x); let v = choose|v: spec_fn(int) -> real| sat(q, v) && !bsat(l, v(y) - v(x)); assert(bsat(l, -dur(v, i, j, q.rows))); assert(-dur(v, i, j, q.rows) == v(y) - v(x)); assert(false); }
  lem_diag_off(q);
  assert(ble(dz(q, x, x), badd(q.at(x, y), q.at(y, x)))); assert(ble(bz(), q.at(x, x)));
  let a = q.at(x, y); let b = q.at(y, x); assert(okb(a) && okb(b) && intb(a) && intb(b));
  lem_srp_s(upper_of(l), l, a, b);
}
/// no value is left above the last piece
pub proof fn lem_pieces_end(l: Bounds, u: Bounds, d: real)
  requires l.first is Fin, intb(l), u.first is Fin, intb(u), blt(u, upper_of(l)), bsat(u, d)
  ensures !bsat(l, -d)
{ let k = dv(l.first).floor(); let n = dv(u.first).floor(); assert(dv(l.first) == k as real); assert(dv(u.first) == n as real); if !l.second { assert(n <= -k) by { assert((n as real) < 1real - k as real || (n as real) == 1real - k as real); } } }
pub open spec fn piece_measure(l: Bounds, u: Bounds) -> int { 2 * (dv(u.first).floor() + dv(l.first).floor()) + one(l.second) + 2 }
pub proof fn lem_piece_measure(l: Bounds, u: Bounds)
  requires l.first is Fin, intb(l), u.first is Fin, intb(u), ble(upper_of(l), u)
  ensures 0 <= piece_measure(next_low(l), u) < piece_measure(l, u)
{ let k = dv(l.first).floor(); let n = dv(u.first).floor(); assert(dv(l.first) == k as real); assert(dv(u.first) == n as real); lem_floor_int(dv(l.first) - 1real, k - 1);
  if l.second { assert(-(k as real) <= n as real); } else { assert(1real - k as real <= n as real); } }
pub proof fn lem_parts_row(s: Seq<TimedCondition>, rows: int, i: int, j: int)
  requires parts(s, rows, i, j), j == rows - 1
  ensures parts(s, rows, i + 1, i + 1)
{ assert forall|k: int| 0 <= k < s.len() implies part((#[trigger] s[k]).zone.value, rows, i + 1, i + 1) && !simple(s[k].zone.value) by { assert(part(s[k].zone.value, rows, i, j)); } }
pub proof fn lem_parts_end(s: Seq<TimedCondition>, rows: int)
  requires parts(s, rows, rows - 1, rows - 1), s.len() > 0
  ensures false
{ assert(part(s[0].zone.value, rows, rows - 1, rows - 1)); lem_part_simple(s[0].zone.value, rows); }
