// ===================================================================== numbers
// double is modelled by: finite values = exact reals; +-DBL_MAX and +-infinity are separate values.
pub enum D { NInf, NMax, Fin(real), Max, Inf }
pub open spec fn rk(a: D) -> int { match a { D::NInf => -2, D::NMax => -1, D::Fin(_) => 0, D::Max => 1, D::Inf => 2 } }
pub open spec fn dv(a: D) -> real { match a { D::Fin(r) => r, _ => 0real } }
pub open spec fn dlt(a: D, b: D) -> bool { rk(a) < rk(b) || (rk(a) == 0 && rk(b) == 0 && dv(a) < dv(b)) }
pub open spec fn dle(a: D, b: D) -> bool { dlt(a, b) || a == b }
pub uninterp spec fn nan() -> D;
pub uninterp spec fn dmul_other(a: D, b: D) -> D;
pub open spec fn dadd(a: D, b: D) -> D {
    if rk(a) == 0 && rk(b) == 0 { D::Fin(dv(a) + dv(b)) }
    else if rk(a) == 0 { b } else if rk(b) == 0 { a }
    else if rk(a) > 0 && rk(b) > 0 { D::Inf }
    else if rk(a) < 0 && rk(b) < 0 { D::NInf }
    else if rk(a) + rk(b) == 0 { if rk(a) == 1 || rk(a) == -1 { D::Fin(0real) } else { nan() } }
    else if rk(a) == 2 || rk(a) == -2 { a } else { b }
}
pub open spec fn dneg(a: D) -> D { match a { D::NInf => D::Inf, D::NMax => D::Max, D::Fin(r) => D::Fin(-r), D::Max => D::NMax, D::Inf => D::NInf } }
pub open spec fn dmul(a: D, b: D) -> D { if rk(a) == 0 && rk(b) == 0 { D::Fin(dv(a) * dv(b)) } else { dmul_other(a, b) } }
pub open spec fn ddiv(a: D, b: D) -> D { if rk(a) == 0 && rk(b) == 0 { D::Fin(dv(a) / dv(b)) } else { dmul_other(a, b) } }
pub open spec fn dmin(a: D, b: D) -> D { if dlt(b, a) { b } else { a } }
pub open spec fn dmax(a: D, b: D) -> D { if dlt(a, b) { b } else { a } }
pub open spec fn dabs(a: D) -> D { if dlt(a, D::Fin(0real)) { dneg(a) } else { a } }
pub open spec fn dtrunc(a: D) -> int { if dv(a) >= 0real { dv(a).floor() } else { -((-dv(a)).floor()) } }
pub open spec fn dfloor(a: D) -> D { if rk(a) == 0 { D::Fin(dv(a).floor() as real) } else { a } }
pub open spec fn dceil(a: D) -> D { if rk(a) == 0 { D::Fin(-((-dv(a)).floor() as real)) } else { a } }
pub open spec fn dround(a: D) -> D { if rk(a) == 0 { if dv(a) >= 0real { D::Fin((dv(a) + 1real / 2real).floor() as real) } else { D::Fin(-((-dv(a) + 1real / 2real).floor() as real)) } } else { a } }
pub open spec fn fin(x: real) -> D { D::Fin(x) }
pub open spec fn min2(a: int, b: int) -> int { if b < a { b } else { a } }
pub open spec fn max2(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn itdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn itmod(a: int, b: int) -> int { a - b * itdiv(a, b) }
pub open spec fn tij(i: int, j: int) -> bool { true }
pub open spec fn tix(i: int) -> bool { true }

// ===================================================================== pairs, bounds
pub struct Pair<A, B> { pub first: A, pub second: B }
pub type Bounds = Pair<D, bool>;
pub enum VarDC { Dbl(D), Clk(int) }
pub open spec fn blt(a: Bounds, b: Bounds) -> bool { dlt(a.first, b.first) || (a.first == b.first && !a.second && b.second) }
pub open spec fn ble(a: Bounds, b: Bounds) -> bool { !blt(b, a) }
pub open spec fn bmin(a: Bounds, b: Bounds) -> Bounds { if blt(b, a) { b } else { a } }
pub open spec fn bmax(a: Bounds, b: Bounds) -> Bounds { if blt(a, b) { b } else { a } }
pub open spec fn badd(a: Bounds, b: Bounds) -> Bounds { Pair { first: dmin(dadd(a.first, b.first), D::Max), second: a.second && b.second } }
pub open spec fn bsub(a: Bounds, b: Bounds) -> Bounds { Pair { first: dadd(a.first, dneg(b.first)), second: a.second && b.second } }
pub open spec fn iblt(a: Pair<int, bool>, b: Pair<int, bool>) -> bool { a.first < b.first || (a.first == b.first && !a.second && b.second) }
pub open spec fn bz() -> Bounds { Pair { first: D::Fin(0real), second: true } }
pub open spec fn binf() -> Bounds { Pair { first: D::Max, second: false } }
pub open spec fn bnd(x: real, s: bool) -> Bounds { Pair { first: D::Fin(x), second: s } }
/// an upper bound on a difference as the code represents it: finite, or (DBL_MAX, <), or (-infinity, <) for an empty zone
pub open spec fn okb(b: Bounds) -> bool { rk(b.first) == 0 || (b.first == D::Max && !b.second) || (b.first == D::NInf && !b.second) }
/// d satisfies the bound
pub open spec fn bsat(b: Bounds, d: real) -> bool {
    b.first == D::Max || b.first == D::Inf || (rk(b.first) == 0 && (d < dv(b.first) || (d == dv(b.first) && b.second)))
}

// ===================================================================== matrices
pub struct Mat { pub rows: int, pub cols: int, pub f: spec_fn(int, int) -> Bounds }
impl Mat { pub open spec fn at(self, i: int, j: int) -> Bounds { (self.f)(i, j) } }
pub open spec fn mat_empty() -> Mat { Mat { rows: 0, cols: 0, f: |i: int, j: int| arbitrary::<Bounds>() } }
pub open spec fn mat_fill(m: Mat, b: Bounds) -> Mat { Mat { rows: m.rows, cols: m.cols, f: |i: int, j: int| b } }
/// Eigen resize: the coefficients are unspecified unless the size is unchanged
pub open spec fn mat_resize(m: Mat, r: int, c: int) -> Mat { if m.rows == r && m.cols == c { m } else { Mat { rows: r, cols: c, f: |i: int, j: int| arbitrary::<Mat>().at(i, j) } } }
pub open spec fn mat_cresize(m: Mat, r: int, c: int) -> Mat {
    Mat { rows: r, cols: c, f: |i: int, j: int| if 0 <= i < m.rows && 0 <= j < m.cols { m.at(i, j) } else { arbitrary::<Mat>().at(i, j) } }
}
pub open spec fn mset(m: Mat, r: int, c: int, b: Bounds) -> Mat { Mat { f: |i: int, j: int| if i == r && j == c { b } else { m.at(i, j) }, ..m } }
pub open spec fn is_min_coeff(m: Mat, b: Bounds) -> bool {
    (exists|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] tij(i, j) && m.at(i, j) == b)
    && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] tij(i, j) ==> ble(b, m.at(i, j))
}
pub open spec fn min_coeff(m: Mat) -> Bounds { choose|b: Bounds| is_min_coeff(m, b) }
pub open spec fn nonan(m: Mat) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> !(#[trigger] m.at(i, j).first == nan()) }
// minimum over the first k coefficients (row major) - existence of the minimum
pub proof fn lem_min_row(m: Mat, i: int, k: int) -> (b: Bounds)
    requires 0 <= i < m.rows, 1 <= k <= m.cols,
    ensures exists|j: int| 0 <= j < k && #[trigger] m.at(i, j) == b, forall|j: int| 0 <= j < k ==> ble(b, #[trigger] m.at(i, j)),
    decreases k
{
    if k == 1 { assert(m.at(i, 0) == m.at(i, 0)); m.at(i, 0) } else {
        let b = lem_min_row(m, i, k - 1);
        if blt(m.at(i, k - 1), b) { m.at(i, k - 1) } else { b }
    }
}
pub proof fn lem_min_rows(m: Mat, k: int) -> (b: Bounds)
    requires 1 <= k <= m.rows, 1 <= m.cols,
    ensures exists|i: int, j: int| 0 <= i < k && 0 <= j < m.cols && #[trigger] m.at(i, j) == b, forall|i: int, j: int| 0 <= i < k && 0 <= j < m.cols ==> ble(b, #[trigger] m.at(i, j)),
    decreases k
{
    let r = lem_min_row(m, k - 1, m.cols);
    if k == 1 { r } else {
        let b = lem_min_rows(m, k - 1);
        if blt(r, b) { r } else { b }
    }
}
pub proof fn lem_min_coeff(m: Mat)
    requires m.rows >= 1, m.cols >= 1,
    ensures is_min_coeff(m, min_coeff(m)),
{
    let b = lem_min_rows(m, m.rows);
    let (i, j) = choose|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] m.at(i, j) == b;
    assert(tij(i, j));
    assert forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols && #[trigger] tij(i, j) implies ble(b, m.at(i, j)) by {}
    assert(is_min_coeff(m, b));
}

// ===================================================================== sequences
pub open spec fn seq_n<A>(n: int, a: A) -> Seq<A> { Seq::new(n as nat, |i: int| a) }
pub open spec fn seq_put<A>(s: Seq<A>, o: int, a: Seq<A>) -> Seq<A> { Seq::new(s.len(), |i: int| if o <= i < o + a.len() { a[i - o] } else { s[i] }) }
pub open spec fn seq_resize<A>(s: Seq<A>, n: int, a: A) -> Seq<A> { Seq::new(n as nat, |i: int| if i < s.len() { s[i] } else { a }) }
pub open spec fn is_first(p: spec_fn(int) -> bool, lo: int, hi: int, r: int) -> bool {
    lo <= r <= hi && (r < hi ==> p(r)) && forall|k: int| lo <= k < r ==> !#[trigger] p(k)
}
pub open spec fn find_first(p: spec_fn(int) -> bool, lo: int, hi: int) -> int { choose|r: int| is_first(p, lo, hi, r) }
pub proof fn lem_first_ex(p: spec_fn(int) -> bool, lo: int, hi: int) -> (r: int)
    requires lo <= hi,
    ensures is_first(p, lo, hi, r),
    decreases hi - lo
{
    if lo == hi { lo } else if p(lo) { lo } else { lem_first_ex(p, lo + 1, hi) }
}
pub proof fn lem_first(p: spec_fn(int) -> bool, lo: int, hi: int)
    requires lo <= hi,
    ensures is_first(p, lo, hi, find_first(p, lo, hi)),
{ let r = lem_first_ex(p, lo, hi); }
pub open spec fn dsum(z: D, s: Seq<D>) -> D decreases s.len() { if s.len() == 0 { z } else { dadd(dsum(z, s.drop_last()), s.last()) } }
/// three-way comparison of strings: zero exactly for equal strings
pub uninterp spec fn str_cmp_other(a: Seq<int>, b: Seq<int>) -> int;
pub open spec fn str_cmp(a: Seq<int>, b: Seq<int>) -> int { if a == b { 0 } else if str_cmp_other(a, b) >= 0 { 1 } else { -1 } }
/// a map built from a range of pairs: the first pair with a key determines its value
pub open spec fn map_first<A, B>(s: Seq<Pair<A, B>>) -> Map<A, B> decreases s.len() {
  if s.len() == 0 { Map::empty() } else if map_first(s.drop_last()).dom().contains(s.last().first) { map_first(s.drop_last()) } else { map_first(s.drop_last()).insert(s.last().first, s.last().second) }
}
/// the order in which an unordered container is traversed: some enumeration of its keys
pub open spec fn is_enum<A>(s: Set<A>, q: Seq<A>) -> bool { q.no_duplicates() && forall|a: A| #[trigger] q.contains(a) <==> s.contains(a) }
// an iterated associative container gets no new keys (and loses none) while it is iterated
pub open spec fn no_new_keys<A>(s: Set<A>, q: Seq<A>) -> bool { forall|a: A| #[trigger] s.contains(a) ==> q.contains(a) }
pub open spec fn same_keys<A>(s: Set<A>, q: Seq<A>) -> bool { forall|a: A| #[trigger] s.contains(a) <==> q.contains(a) }
pub open spec fn enum_keys<A>(s: Set<A>) -> Seq<A> { choose|q: Seq<A>| is_enum(s, q) }
pub proof fn lem_enum_ex<A>(s: Set<A>) -> (q: Seq<A>)
    ensures is_enum(s, q), q.len() == s.len(),
    decreases s.len()
{
    if s.len() == 0 { assert(s =~= Set::empty()); Seq::empty() } else {
        let a = s.choose();
        let q = lem_enum_ex(s.remove(a));
        let r = q.push(a);
        assert forall|b: A| #[trigger] r.contains(b) <==> s.contains(b) by {
            if s.contains(b) { if b == a { assert(r[q.len() as int] == a); } else { assert(q.contains(b)); let i = choose|i: int| 0 <= i < q.len() && q[i] == b; assert(r[i] == b); } }
            if r.contains(b) { let i = choose|i: int| 0 <= i < r.len() && r[i] == b; if i < q.len() { assert(q.contains(q[i])); } }
        }
        assert(r.no_duplicates()) by {
            assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i < q.len() { assert(q.contains(q[i])); } if j < q.len() { assert(q.contains(q[j])); } }
        }
        r
    }
}
// allocation: an address that is not in use
pub open spec fn fresh_ptr(s: Set<int>) -> int { choose|p: int| p > 0 && !s.contains(p) }
pub proof fn lem_ptr_bound(s: Set<int>) -> (b: int)
  ensures b >= 0, forall|x: int| #[trigger] s.contains(x) ==> x <= b,
  decreases s.len(),
{
  if s.len() == 0 { assert(s =~= Set::empty()); 0 } else {
    let x = s.choose(); assert(s.contains(x));
    let b = lem_ptr_bound(s.remove(x));
    assert forall|y: int| #[trigger] s.contains(y) implies y <= (if x > b { x } else { b }) by { if y != x { assert(s.remove(x).contains(y)); } }
    if x > b { x } else { b }
  }
}
pub proof fn lem_fresh_ptr(s: Set<int>)
  ensures fresh_ptr(s) > 0, !s.contains(fresh_ptr(s)),
{
  let b = lem_ptr_bound(s);
  assert(b + 1 > 0 && !s.contains(b + 1));
}
pub proof fn lem_enum_keys<A>(s: Set<A>)
    ensures is_enum(s, enum_keys(s)), enum_keys(s).no_duplicates(), forall|a: A| #[trigger] enum_keys(s).contains(a) <==> s.contains(a),
        forall|i: int| 0 <= i < enum_keys(s).len() ==> s.contains(#[trigger] enum_keys(s)[i]),
{
    let q = lem_enum_ex(s);
    assert(is_enum(s, enum_keys(s)));
    assert forall|i: int| 0 <= i < enum_keys(s).len() implies s.contains(#[trigger] enum_keys(s)[i]) by { assert(enum_keys(s).contains(enum_keys(s)[i])); }
}

/// filtering keeps exactly the elements with the property
pub proof fn lem_filt<A>(g: Seq<A>, p: spec_fn(A) -> bool)
    ensures
        forall|i: int| 0 <= i < g.filter(p).len() ==> p(#[trigger] g.filter(p)[i]) && g.contains(g.filter(p)[i]),
        forall|i: int| 0 <= i < g.len() && p(#[trigger] g[i]) ==> g.filter(p).contains(g[i]),
        g.filter(p).len() <= g.len(),
    decreases g.len()
{
    reveal(Seq::filter);
    if g.len() > 0 {
        let g0 = g.drop_last(); let f0 = g0.filter(p); let f = g.filter(p);
        lem_filt(g0, p);
        assert forall|i: int| 0 <= i < f.len() implies p(#[trigger] g.filter(p)[i]) && g.contains(g.filter(p)[i]) by {
            if i < f0.len() { assert(g.filter(p)[i] == g0.filter(p)[i]); let j = choose|j: int| 0 <= j < g0.len() && g0[j] == f0[i]; assert(g[j] == f0[i]); } else { assert(g[g.len() - 1] == g.filter(p)[i]); }
        }
        assert forall|i: int| 0 <= i < g.len() && p(#[trigger] g[i]) implies f.contains(g[i]) by {
            if i < g.len() - 1 { assert(g0[i] == g[i]); assert(f0.contains(g0[i])); let j = choose|j: int| 0 <= j < f0.len() && f0[j] == g0[i]; assert(f[j] == g[i]); } else { assert(f[f.len() - 1] == g[i]); }
        }
    }
}
/// h consists of elements of g, in the same order
pub open spec fn sub_at<A>(g: Seq<A>, h: Seq<A>, f: Seq<int>) -> bool {
    &&& f.len() == h.len()
    &&& forall|i: int| 0 <= i < h.len() ==> 0 <= #[trigger] f[i] < g.len() && h[i] == g[f[i]]
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] f[i] < #[trigger] f[j]
}
pub open spec fn subseq<A>(g: Seq<A>, h: Seq<A>) -> bool { exists|f: Seq<int>| #[trigger] sub_at(g, h, f) }
pub proof fn lem_filt_sub<A>(g: Seq<A>, p: spec_fn(A) -> bool)
    ensures subseq(g, g.filter(p)),
    decreases g.len()
{
    reveal(Seq::filter);
    if g.len() > 0 {
        let g0 = g.drop_last();
        lem_filt_sub(g0, p);
        let f0 = choose|f: Seq<int>| #[trigger] sub_at(g0, g0.filter(p), f);
        if p(g.last()) { assert(sub_at(g, g.filter(p), f0.push(g.len() - 1))); } else { assert(sub_at(g, g.filter(p), f0)); }
    } else { assert(sub_at(g, g.filter(p), Seq::empty())); }
}
pub proof fn lem_sub_contains<A>(g: Seq<A>, h: Seq<A>, x: A)
    requires subseq(g, h), h.contains(x), ensures g.contains(x),
{ let f = choose|f: Seq<int>| #[trigger] sub_at(g, h, f); let i = choose|i: int| 0 <= i < h.len() && h[i] == x; assert(g[f[i]] == x); }
pub proof fn lem_sub_nodup<A>(g: Seq<A>, h: Seq<A>)
    requires subseq(g, h), g.no_duplicates(), ensures h.no_duplicates(),
{ let f = choose|f: Seq<int>| #[trigger] sub_at(g, h, f); assert forall|i: int, j: int| 0 <= i < j < h.len() implies h[i] != h[j] by { assert(f[i] < f[j]); } }
pub proof fn lem_push_contains<A>(s: Seq<A>, a: A)
    ensures forall|b: A| #[trigger] s.push(a).contains(b) == (s.contains(b) || b == a),
{
    assert forall|b: A| #[trigger] s.push(a).contains(b) == (s.contains(b) || b == a) by {
        if s.contains(b) { let j = choose|j: int| 0 <= j < s.len() && s[j] == b; assert(s.push(a)[j] == b); }
        if b == a { assert(s.push(a)[s.len() as int] == b); }
    }
}

// ---- hash maps whose keys are compared by a user-defined equality; a lookup may also miss (the hash need not respect the equality)
pub open spec fn hfind_ok<K, V>(m: Map<K, V>, eq: spec_fn(K, K) -> bool, key: K, o: Option<K>) -> bool { match o { Some(k) => m.dom().contains(k) && eq(k, key), None => !(m.dom().contains(key) && eq(key, key)) } }
pub open spec fn hfind<K, V>(m: Map<K, V>, eq: spec_fn(K, K) -> bool, key: K) -> Option<K> { choose|o: Option<K>| #[trigger] hfind_ok(m, eq, key, o) }
pub open spec fn hkey<K, V>(m: Map<K, V>, eq: spec_fn(K, K) -> bool, key: K) -> K { match hfind(m, eq, key) { Some(k) => k, None => key } }
pub proof fn lem_hfind<K, V>(m: Map<K, V>, eq: spec_fn(K, K) -> bool, key: K)
  ensures hfind_ok(m, eq, key, hfind(m, eq, key))
{ assert(hfind_ok(m, eq, key, None) || hfind_ok(m, eq, key, Some(key))); }
