// ---- conjunctions of comparisons over nonnegative valuations
pub open spec fn nonneg_u(u: spec_fn(int) -> real) -> bool { forall|x: int| #[trigger] u(x) >= 0real }
/// a comparison as the code represents it: 8-bit clock, natural constant (the largest int is the mark for "no bound")
pub open spec fn con_ok(c: Constraint) -> bool { 0 <= c.x <= 255 && 0 <= c.c < 2147483647 }
pub open spec fn gok(g: Seq<Constraint>) -> bool { forall|i: int| 0 <= i < g.len() ==> con_ok(#[trigger] g[i]) }
pub open spec fn is_up(c: Constraint) -> bool { c.odr is lt || c.odr is le }
pub open spec fn is_eqc(c: Constraint) -> bool { c.odr is le || c.odr is ge }
pub open spec fn ibnd(c: Constraint) -> Pair<int, bool> { Pair { first: c.c, second: is_eqc(c) } }
pub open spec fn ubinf() -> Pair<int, bool> { Pair { first: 2147483647, second: false } }
pub open spec fn lbzero() -> Pair<int, bool> { Pair { first: 0, second: true } }
/// the lower bound a is strictly weaker than b
pub open spec fn lblt(a: Pair<int, bool>, b: Pair<int, bool>) -> bool { a.first < b.first || (a.first == b.first && a.second && !b.second) }
/// the tightest upper / lower bound of clock x among the first n conjuncts
pub open spec fn ub_of(g: Seq<Constraint>, n: int, x: int) -> Pair<int, bool> decreases n {
    if n <= 0 { ubinf() } else { let p = ub_of(g, n - 1, x); if g[n - 1].x == x && is_up(g[n - 1]) && iblt(ibnd(g[n - 1]), p) { ibnd(g[n - 1]) } else { p } }
}
pub open spec fn lb_of(g: Seq<Constraint>, n: int, x: int) -> Pair<int, bool> decreases n {
    if n <= 0 { lbzero() } else { let p = lb_of(g, n - 1, x); if g[n - 1].x == x && !is_up(g[n - 1]) && lblt(p, ibnd(g[n - 1])) { ibnd(g[n - 1]) } else { p } }
}
/// one more than the largest clock among the first n conjuncts
pub open spec fn nclk(g: Seq<Constraint>, n: int) -> int decreases n { if n <= 0 { 0 } else { let p = nclk(g, n - 1); if g[n - 1].x + 1 > p { g[n - 1].x + 1 } else { p } } }
pub open spec fn ubsat(b: Pair<int, bool>, v: real) -> bool { b == ubinf() || v < b.first as real || (v == b.first as real && b.second) }
pub open spec fn lbsat(b: Pair<int, bool>, v: real) -> bool { v > b.first as real || (v == b.first as real && b.second) }
pub open spec fn box_holds(ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>, u: spec_fn(int) -> real) -> bool { forall|x: int| 0 <= x < ub.len() ==> #[trigger] in_box(ub, lb, u, x) }
pub open spec fn in_box(ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>, u: spec_fn(int) -> real, x: int) -> bool { ubsat(ub[x], u(x)) && lbsat(lb[x], u(x)) }
/// the per-clock bounds the code computes
pub open spec fn is_bounds_of(g: Seq<Constraint>, n: int, ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>) -> bool {
    ub.len() == nclk(g, n) && lb.len() == nclk(g, n)
    && (forall|x: int| 0 <= x < ub.len() ==> #[trigger] ub[x] == ub_of(g, n, x))
    && (forall|x: int| 0 <= x < lb.len() ==> #[trigger] lb[x] == lb_of(g, n, x))
}
pub proof fn lem_nclk(g: Seq<Constraint>, n: int)
    requires 0 <= n <= g.len(), gok(g),
    ensures 0 <= nclk(g, n) <= 256, forall|i: int| 0 <= i < n ==> (#[trigger] g[i]).x < nclk(g, n),
    decreases n
{ if n > 0 { lem_nclk(g, n - 1); assert(con_ok(g[n - 1])); } }
pub proof fn lem_outside(g: Seq<Constraint>, n: int, x: int)
    requires 0 <= n <= g.len(), x >= nclk(g, n) || x < 0, gok(g),
    ensures ub_of(g, n, x) == ubinf(), lb_of(g, n, x) == lbzero(),
    decreases n
{ if n > 0 { assert(con_ok(g[n - 1])); lem_outside(g, n - 1, x); } }
pub proof fn lem_bnd_rng(g: Seq<Constraint>, n: int, x: int)
    requires 0 <= n <= g.len(), gok(g),
    ensures 0 <= lb_of(g, n, x).first < 2147483647, 0 <= ub_of(g, n, x).first, ub_of(g, n, x).first < 2147483647 || ub_of(g, n, x) == ubinf(),
    decreases n
{ if n > 0 { assert(con_ok(g[n - 1])); lem_bnd_rng(g, n - 1, x); } }
/// the bounds are attained: each is a conjunct or the trivial bound
pub proof fn lem_bnd_from(g: Seq<Constraint>, n: int, x: int)
    requires 0 <= n <= g.len(), gok(g),
    ensures ub_of(g, n, x) == ubinf() || exists|i: int| 0 <= i < n && (#[trigger] g[i]).x == x && is_up(g[i]) && ibnd(g[i]) == ub_of(g, n, x),
        lb_of(g, n, x) == lbzero() || exists|i: int| 0 <= i < n && (#[trigger] g[i]).x == x && !is_up(g[i]) && ibnd(g[i]) == lb_of(g, n, x),
    decreases n
{ if n > 0 { assert(con_ok(g[n - 1])); lem_bnd_from(g, n - 1, x);
    if ub_of(g, n, x) != ub_of(g, n - 1, x) { assert(g[n - 1].x == x); }
    if lb_of(g, n, x) != lb_of(g, n - 1, x) { assert(g[n - 1].x == x); } } }
/// one clock: the first n conjuncts on x hold iff its two bounds hold
pub open spec fn clk_upto(g: Seq<Constraint>, n: int, x: int, v: real) -> bool { forall|i: int| 0 <= i < n && (#[trigger] g[i]).x == x ==> con_holds(g[i], v) }
pub proof fn lem_clk(g: Seq<Constraint>, n: int, x: int, v: real)
    requires 0 <= n <= g.len(), gok(g), v >= 0real,
    ensures clk_upto(g, n, x, v) == (ubsat(ub_of(g, n, x), v) && lbsat(lb_of(g, n, x), v)),
    decreases n
{
    if n > 0 {
        lem_clk(g, n - 1, x, v); lem_bnd_rng(g, n - 1, x);
        let c = g[n - 1]; assert(con_ok(c));
        assert(clk_upto(g, n, x, v) == (clk_upto(g, n - 1, x, v) && (c.x == x ==> con_holds(c, v)))) by {
            if clk_upto(g, n - 1, x, v) && (c.x == x ==> con_holds(c, v)) {
                assert forall|i: int| 0 <= i < n && (#[trigger] g[i]).x == x implies con_holds(g[i], v) by { if i < n - 1 { } }
            }
        }
        if c.x == x {
            let pu = ub_of(g, n - 1, x); let pl = lb_of(g, n - 1, x);
            if is_up(c) { assert(con_holds(c, v) == (v < c.c as real || (v == c.c as real && is_eqc(c)))); }
            else { assert(con_holds(c, v) == lbsat(ibnd(c), v)); }
        }
    }
}
pub proof fn lem_box(g: Seq<Constraint>, ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>, u: spec_fn(int) -> real)
    requires gok(g), is_bounds_of(g, g.len() as int, ub, lb), nonneg_u(u),
    ensures guard_holds(g, u) == box_holds(ub, lb, u),
{
    let n = g.len() as int;
    lem_nclk(g, n);
    if guard_holds(g, u) {
        assert forall|x: int| 0 <= x < ub.len() implies #[trigger] in_box(ub, lb, u, x) by {
            assert(u(x) >= 0real);
            lem_clk(g, n, x, u(x));
            assert(clk_upto(g, n, x, u(x))) by { assert forall|i: int| 0 <= i < n && (#[trigger] g[i]).x == x implies con_holds(g[i], u(x)) by { } }
            assert(ub[x] == ub_of(g, n, x)); assert(lb[x] == lb_of(g, n, x));
        }
    }
    if box_holds(ub, lb, u) {
        assert forall|i: int| 0 <= i < n implies con_holds(#[trigger] g[i], u(g[i].x)) by {
            let x = g[i].x; assert(con_ok(g[i]));
            assert(in_box(ub, lb, u, x));
            assert(u(x) >= 0real);
            assert(ub[x] == ub_of(g, n, x)); assert(lb[x] == lb_of(g, n, x));
            lem_clk(g, n, x, u(x));
            assert(clk_upto(g, n, x, u(x)));
        }
    }
}
/// equivalent for all nonnegative valuations
pub open spec fn geqv(a: Seq<Constraint>, b: Seq<Constraint>) -> bool { forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> guard_holds(a, u) == guard_holds(b, u) }
/// the first n clocks have a value between their bounds
pub open spec fn ne_box(lb: Pair<int, bool>, ub: Pair<int, bool>) -> bool { !(lb.first > ub.first || (lb.first == ub.first && !(lb.second && ub.second))) }
pub open spec fn in_val(lb: Pair<int, bool>, ub: Pair<int, bool>) -> real { if lb.second { lb.first as real } else if ub == ubinf() { lb.first as real + 1real } else { (lb.first as real + ub.first as real) / 2real } }
pub proof fn lem_sat_wit(g: Seq<Constraint>, ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>) -> (u: spec_fn(int) -> real)
    requires gok(g), is_bounds_of(g, g.len() as int, ub, lb), forall|x: int| 0 <= x < ub.len() ==> #[trigger] ne_box(lb[x], ub[x]),
    ensures nonneg_u(u), guard_holds(g, u),
{
    let n = g.len() as int;
    let u = |x: int| if 0 <= x < ub.len() { in_val(lb[x], ub[x]) } else { 0real };
    assert forall|x: int| #[trigger] u(x) >= 0real by { if 0 <= x < ub.len() { lem_bnd_rng(g, n, x); assert(lb[x] == lb_of(g, n, x)); assert(ub[x] == ub_of(g, n, x)); } }
    assert forall|x: int| 0 <= x < ub.len() implies #[trigger] in_box(ub, lb, u, x) by { lem_bnd_rng(g, n, x); assert(lb[x] == lb_of(g, n, x)); assert(ub[x] == ub_of(g, n, x)); assert(ne_box(lb[x], ub[x])); }
    lem_box(g, ub, lb, u);
    u
}
pub proof fn lem_unsat(g: Seq<Constraint>, ub: Seq<Pair<int, bool>>, lb: Seq<Pair<int, bool>>, x: int)
    requires gok(g), is_bounds_of(g, g.len() as int, ub, lb), 0 <= x < ub.len(), !ne_box(lb[x], ub[x]),
    ensures forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) ==> !guard_holds(g, u),
{
    assert forall|u: spec_fn(int) -> real| #![trigger nonneg_u(u)] nonneg_u(u) implies !guard_holds(g, u) by {
        lem_box(g, ub, lb, u);
        lem_bnd_rng(g, g.len() as int, x);
        assert(lb[x] == lb_of(g, g.len() as int, x)); assert(ub[x] == ub_of(g, g.len() as int, x));
        if box_holds(ub, lb, u) { assert(in_box(ub, lb, u, x)); }
    }
}
/// a conjunct of a is implied by one conjunct of b on the same clock and side
pub open spec fn weaker1(c: Constraint, d: Constraint) -> bool { c.x == d.x && is_up(c) == is_up(d) && (if is_up(c) { !iblt(ibnd(c), ibnd(d)) } else { !lblt(ibnd(d), ibnd(c)) }) }
pub open spec fn has_stronger(c: Constraint, b: Seq<Constraint>) -> bool { exists|j: int| 0 <= j < b.len() && weaker1(c, #[trigger] b[j]) }
pub open spec fn weaker_g(a: Seq<Constraint>, b: Seq<Constraint>) -> bool { forall|i: int| 0 <= i < a.len() ==> has_stronger(#[trigger] a[i], b) }
pub proof fn lem_weaker(a: Seq<Constraint>, b: Seq<Constraint>)
    requires weaker_g(a, b),
    ensures forall|u: spec_fn(int) -> real| #[trigger] guard_holds(b, u) ==> guard_holds(a, u),
{
    assert forall|u: spec_fn(int) -> real| #[trigger] guard_holds(b, u) implies guard_holds(a, u) by {
        assert forall|i: int| 0 <= i < a.len() implies con_holds(#[trigger] a[i], u(a[i].x)) by {
            let j = choose|j: int| 0 <= j < b.len() && weaker1(a[i], #[trigger] b[j]);
            assert(con_holds(b[j], u(b[j].x)));
        }
    }
}
pub open spec fn neg_con(c: Constraint) -> Constraint { Constraint { x: c.x, odr: match c.odr { Constraint_Order::lt => Constraint_Order::ge, Constraint_Order::le => Constraint_Order::gt, Constraint_Order::ge => Constraint_Order::lt, Constraint_Order::gt => Constraint_Order::le }, c: c.c } }
/// a disjunction of guards
pub open spec fn dnf_upto(d: Seq<Seq<Constraint>>, u: spec_fn(int) -> real, n: int) -> bool { exists|i: int| 0 <= i < n && guard_holds(#[trigger] d[i], u) }
pub open spec fn dnf_holds(d: Seq<Seq<Constraint>>, u: spec_fn(int) -> real) -> bool { dnf_upto(d, u, d.len() as int) }
pub open spec fn dok(d: Seq<Seq<Constraint>>) -> bool { forall|i: int| 0 <= i < d.len() ==> gok(#[trigger] d[i]) }
/// a clause: some of the first n conjuncts holds
pub open spec fn some_upto(g: Seq<Constraint>, u: spec_fn(int) -> real, n: int) -> bool { exists|i: int| 0 <= i < n && con_holds(#[trigger] g[i], u(g[i].x)) }
pub open spec fn some_holds(g: Seq<Constraint>, u: spec_fn(int) -> real) -> bool { some_upto(g, u, g.len() as int) }
pub open spec fn cnf_upto(d: Seq<Seq<Constraint>>, u: spec_fn(int) -> real, n: int) -> bool { forall|i: int| 0 <= i < n ==> some_holds(#[trigger] d[i], u) }
pub proof fn lem_push_holds(g: Seq<Constraint>, c: Constraint, u: spec_fn(int) -> real)
    ensures guard_holds(g.push(c), u) == (guard_holds(g, u) && con_holds(c, u(c.x))),
{
    let h = g.push(c);
    if guard_holds(h, u) { assert forall|i: int| 0 <= i < g.len() implies con_holds(#[trigger] g[i], u(g[i].x)) by { assert(h[i] == g[i]); } assert(h[g.len() as int] == c); }
    if guard_holds(g, u) && con_holds(c, u(c.x)) { assert forall|i: int| 0 <= i < h.len() implies con_holds(#[trigger] h[i], u(h[i].x)) by { if i < g.len() { assert(h[i] == g[i]); } } }
}
pub proof fn lem_dnf_push(d: Seq<Seq<Constraint>>, g: Seq<Constraint>, u: spec_fn(int) -> real)
    ensures dnf_holds(d.push(g), u) == (dnf_holds(d, u) || guard_holds(g, u)),
{
    let e = d.push(g);
    if dnf_holds(d, u) { let i = choose|i: int| 0 <= i < d.len() && guard_holds(#[trigger] d[i], u); assert(e[i] == d[i]); }
    if guard_holds(g, u) { assert(e[d.len() as int] == g); }
    if dnf_holds(e, u) { let i = choose|i: int| 0 <= i < e.len() && guard_holds(#[trigger] e[i], u); if i < d.len() { assert(d[i] == e[i]); } }
}
pub proof fn lem_dnf_remove(d: Seq<Seq<Constraint>>, k: int, j: int, u: spec_fn(int) -> real)
    requires 0 <= k < d.len(), 0 <= j < d.len(), j != k, guard_holds(d[k], u) ==> guard_holds(d[j], u),
    ensures dnf_holds(d.remove(k), u) == dnf_holds(d, u),
{
    let e = d.remove(k);
    if dnf_holds(d, u) {
        let i0 = choose|i: int| 0 <= i < d.len() && guard_holds(#[trigger] d[i], u);
        let i = if i0 == k { j } else { i0 };
        assert(guard_holds(d[i], u));
        if i < k { assert(e[i] == d[i]); } else { assert(e[i - 1] == d[i]); }
    }
    if dnf_holds(e, u) { let i = choose|i: int| 0 <= i < e.len() && guard_holds(#[trigger] e[i], u); if i < k { assert(d[i] == e[i]); } else { assert(d[i + 1] == e[i]); } }
}
pub proof fn lem_conj(a: Seq<Constraint>, b: Seq<Constraint>, u: spec_fn(int) -> real)
    ensures guard_holds(a + b, u) == (guard_holds(a, u) && guard_holds(b, u)),
{
    let c = a + b;
    if guard_holds(c, u) {
        assert forall|i: int| 0 <= i < a.len() implies con_holds(#[trigger] a[i], u(a[i].x)) by { assert(c[i] == a[i]); }
        assert forall|i: int| 0 <= i < b.len() implies con_holds(#[trigger] b[i], u(b[i].x)) by { assert(c[i + a.len()] == b[i]); }
    }
}

pub proof fn lem_filter_any(g: Seq<Constraint>)
    ensures
        forall|p: spec_fn(Constraint) -> bool, i: int| 0 <= i < g.filter(p).len() ==> p(#[trigger] g.filter(p)[i]) && g.contains(g.filter(p)[i]),
        forall|p: spec_fn(Constraint) -> bool, i: int| 0 <= i < g.len() && p(g[i]) ==> #[trigger] g.filter(p).contains(#[trigger] g[i]),
        forall|p: spec_fn(Constraint) -> bool, u: spec_fn(int) -> real| guard_holds(g, u) ==> #[trigger] guard_holds(g.filter(p), u),
{
    assert forall|p: spec_fn(Constraint) -> bool, i: int| 0 <= i < g.filter(p).len() implies p(#[trigger] g.filter(p)[i]) && g.contains(g.filter(p)[i]) by { lem_filt(g, p); assert(p(g.filter(p)[i])); }
    assert forall|p: spec_fn(Constraint) -> bool, i: int| 0 <= i < g.len() && p(g[i]) implies #[trigger] g.filter(p).contains(#[trigger] g[i]) by { lem_filt(g, p); }
    assert forall|p: spec_fn(Constraint) -> bool, u: spec_fn(int) -> real| guard_holds(g, u) implies #[trigger] guard_holds(g.filter(p), u) by {
        let f = g.filter(p);
        assert forall|i: int| 0 <= i < f.len() implies con_holds(#[trigger] f[i], u(f[i].x)) by { lem_filt(g, p); assert(p(g.filter(p)[i])); assert(g.contains(g.filter(p)[i])); let j = choose|j: int| 0 <= j < g.len() && g[j] == f[i]; assert(con_holds(g[j], u(g[j].x))); }
    }
}
// ---- guards rebuilt from per-clock bounds
pub open spec fn lcon(b: Pair<int, bool>, x: int) -> Constraint { Constraint { x: x, odr: if b.second { Constraint_Order::ge } else { Constraint_Order::gt }, c: b.first } }
pub open spec fn ucon(b: Pair<int, bool>, x: int) -> Constraint { Constraint { x: x, odr: if b.second { Constraint_Order::le } else { Constraint_Order::lt }, c: b.first } }
pub open spec fn is_lower_part(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, n: int) -> bool {
    (forall|k: int| 0 <= k < g.len() ==> con_ok(#[trigger] g[k]) && 0 <= g[k].x < n && !is_up(g[k]) && g[k] == lcon(lb[g[k].x], g[k].x) && lb[g[k].x] != lbzero())
    && (forall|x: int| 0 <= x < n && #[trigger] lb[x] != lbzero() ==> g.contains(lcon(lb[x], x)))
    && (forall|i: int, j: int| 0 <= i < j < g.len() ==> (#[trigger] g[i]).x < (#[trigger] g[j]).x)
}
pub proof fn lem_lower_step(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, n: int, h: Seq<Constraint>)
    requires is_lower_part(g, lb, n), 0 <= n < lb.len() <= 256, 0 <= lb[n].first < 2147483647, h == (if lb[n] != lbzero() { g.push(lcon(lb[n], n)) } else { g }),
    ensures is_lower_part(h, lb, n + 1),
{
    assert forall|x: int| 0 <= x < n + 1 && #[trigger] lb[x] != lbzero() implies h.contains(lcon(lb[x], x)) by {
        if x < n { assert(g.contains(lcon(lb[x], x))); let j = choose|j: int| 0 <= j < g.len() && g[j] == lcon(lb[x], x); assert(h[j] == lcon(lb[x], x)); } else { assert(h[g.len() as int] == lcon(lb[x], x)); }
    }
    assert forall|k: int| 0 <= k < h.len() implies con_ok(#[trigger] h[k]) && 0 <= h[k].x < n + 1 && !is_up(h[k]) && h[k] == lcon(lb[h[k].x], h[k].x) && lb[h[k].x] != lbzero() by { if k < g.len() { assert(h[k] == g[k]); } }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies (#[trigger] h[i]).x < (#[trigger] h[j]).x by { assert(h[i] == g[i]); if j < g.len() { assert(h[j] == g[j]); } }
}
pub open spec fn is_both_parts(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, ub: Seq<Pair<int, bool>>, n: int) -> bool {
    (forall|k: int| 0 <= k < g.len() ==> con_ok(#[trigger] g[k]) && (if is_up(g[k]) { g[k].x < n && g[k] == ucon(ub[g[k].x], g[k].x) && ub[g[k].x] != ubinf() } else { g[k].x < lb.len() && g[k] == lcon(lb[g[k].x], g[k].x) && lb[g[k].x] != lbzero() }))
    && (forall|x: int| 0 <= x < lb.len() && #[trigger] lb[x] != lbzero() ==> g.contains(lcon(lb[x], x)))
    && (forall|x: int| 0 <= x < n && #[trigger] ub[x] != ubinf() ==> g.contains(ucon(ub[x], x)))
    && (forall|i: int, j: int| 0 <= i < j < g.len() ==> !((#[trigger] g[i]).x == (#[trigger] g[j]).x && is_up(g[i]) == is_up(g[j])))
}
pub proof fn lem_both_start(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, ub: Seq<Pair<int, bool>>)
    requires is_lower_part(g, lb, lb.len() as int),
    ensures is_both_parts(g, lb, ub, 0),
{ }
pub proof fn lem_both_step(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, ub: Seq<Pair<int, bool>>, n: int, h: Seq<Constraint>)
    requires is_both_parts(g, lb, ub, n), 0 <= n < ub.len() <= 256, ub[n] == ubinf() || 0 <= ub[n].first < 2147483647, h == (if ub[n] != ubinf() { g.push(ucon(ub[n], n)) } else { g }),
    ensures is_both_parts(h, lb, ub, n + 1),
{
    assert forall|x: int| 0 <= x < lb.len() && #[trigger] lb[x] != lbzero() implies h.contains(lcon(lb[x], x)) by {
        assert(g.contains(lcon(lb[x], x))); let j = choose|j: int| 0 <= j < g.len() && g[j] == lcon(lb[x], x); assert(h[j] == lcon(lb[x], x));
    }
    assert forall|x: int| 0 <= x < n + 1 && #[trigger] ub[x] != ubinf() implies h.contains(ucon(ub[x], x)) by {
        if x < n { assert(g.contains(ucon(ub[x], x))); let j = choose|j: int| 0 <= j < g.len() && g[j] == ucon(ub[x], x); assert(h[j] == ucon(ub[x], x)); } else { assert(h[g.len() as int] == ucon(ub[x], x)); }
    }
    assert forall|k: int| 0 <= k < h.len() implies con_ok(#[trigger] h[k]) && (if is_up(h[k]) { h[k].x < n + 1 && h[k] == ucon(ub[h[k].x], h[k].x) && ub[h[k].x] != ubinf() } else { h[k].x < lb.len() && h[k] == lcon(lb[h[k].x], h[k].x) && lb[h[k].x] != lbzero() }) by { if k < g.len() { assert(h[k] == g[k]); } }
    assert forall|i: int, j: int| 0 <= i < j < h.len() implies !((#[trigger] h[i]).x == (#[trigger] h[j]).x && is_up(h[i]) == is_up(h[j])) by { assert(h[i] == g[i]); if j < g.len() { assert(h[j] == g[j]); } }
}
pub proof fn lem_parts(g: Seq<Constraint>, lb: Seq<Pair<int, bool>>, ub: Seq<Pair<int, bool>>, u: spec_fn(int) -> real)
    requires is_both_parts(g, lb, ub, ub.len() as int), nonneg_u(u), lb.len() == ub.len(),
    ensures guard_holds(g, u) == box_holds(ub, lb, u),
{
    if guard_holds(g, u) {
        assert forall|x: int| 0 <= x < ub.len() implies #[trigger] in_box(ub, lb, u, x) by {
            assert(u(x) >= 0real);
            if ub[x] != ubinf() { assert(g.contains(ucon(ub[x], x))); let j = choose|j: int| 0 <= j < g.len() && g[j] == ucon(ub[x], x); assert(con_holds(g[j], u(g[j].x))); }
            if lb[x] != lbzero() { assert(g.contains(lcon(lb[x], x))); let j = choose|j: int| 0 <= j < g.len() && g[j] == lcon(lb[x], x); assert(con_holds(g[j], u(g[j].x))); }
        }
    }
    if box_holds(ub, lb, u) {
        assert forall|k: int| 0 <= k < g.len() implies con_holds(#[trigger] g[k], u(g[k].x)) by { assert(con_ok(g[k])); assert(in_box(ub, lb, u, g[k].x)); }
    }
}
pub open spec fn simple_in(g: Seq<Constraint>, x: int) -> bool {
    0 <= x < nclk(g, g.len() as int) && ({ let l = lb_of(g, g.len() as int, x); let u = ub_of(g, g.len() as int, x); (l.first == u.first && l.second && u.second) || (l.first + 1 == u.first && !l.second && !u.second) })
}
// ---- negation of a disjunction
pub open spec fn is_neg_all(g: Seq<Constraint>, n: Seq<Constraint>) -> bool { n.len() == g.len() && forall|i: int| 0 <= i < n.len() ==> #[trigger] n[i] == neg_con(g[i]) }
pub open spec fn is_cnf_neg(d: Seq<Seq<Constraint>>, c: Seq<Seq<Constraint>>) -> bool { c.len() == d.len() && forall|i: int| 0 <= i < c.len() ==> is_neg_all(d[i], #[trigger] c[i]) }
pub proof fn lem_cnf_ok(d: Seq<Seq<Constraint>>, c: Seq<Seq<Constraint>>)
    requires dok(d), is_cnf_neg(d, c),
    ensures dok(c),
{ assert forall|i: int| 0 <= i < c.len() implies gok(#[trigger] c[i]) by { assert(is_neg_all(d[i], c[i])); assert(gok(d[i])); assert forall|k: int| 0 <= k < c[i].len() implies con_ok(#[trigger] c[i][k]) by { assert(con_ok(d[i][k])); } } }
pub proof fn lem_neg_one(g: Seq<Constraint>, n: Seq<Constraint>, u: spec_fn(int) -> real)
    requires is_neg_all(g, n),
    ensures some_holds(n, u) == !guard_holds(g, u),
{
    if !guard_holds(g, u) { let i = choose|i: int| 0 <= i < g.len() && !con_holds(#[trigger] g[i], u(g[i].x)); assert(n[i] == neg_con(g[i])); assert(con_holds(n[i], u(n[i].x))); }
    if some_holds(n, u) { let i = choose|i: int| 0 <= i < n.len() && con_holds(#[trigger] n[i], u(n[i].x)); assert(n[i] == neg_con(g[i])); assert(!con_holds(g[i], u(g[i].x))); }
}
pub proof fn lem_neg_all(d: Seq<Seq<Constraint>>, c: Seq<Seq<Constraint>>, u: spec_fn(int) -> real)
    requires is_cnf_neg(d, c),
    ensures cnf_upto(c, u, c.len() as int) == !dnf_holds(d, u),
{
    assert forall|i: int| 0 <= i < c.len() implies #[trigger] some_holds(c[i], u) == !guard_holds(d[i], u) by { assert(is_neg_all(d[i], c[i])); lem_neg_one(d[i], c[i], u); }
    if cnf_upto(c, u, c.len() as int) && dnf_holds(d, u) { let i = choose|i: int| 0 <= i < d.len() && guard_holds(#[trigger] d[i], u); assert(some_holds(c[i], u)); }
    if !dnf_holds(d, u) { assert forall|i: int| 0 <= i < c.len() implies some_holds(#[trigger] c[i], u) by { assert(!guard_holds(d[i], u)); } }
}
pub proof fn lem_cnf_step(c: Seq<Seq<Constraint>>, u: spec_fn(int) -> real, n: int)
    requires 0 < n <= c.len(),
    ensures cnf_upto(c, u, n) == (cnf_upto(c, u, n - 1) && some_holds(c[n - 1], u)),
{ if cnf_upto(c, u, n - 1) && some_holds(c[n - 1], u) { assert forall|i: int| 0 <= i < n implies some_holds(#[trigger] c[i], u) by { } } if cnf_upto(c, u, n) { assert(some_holds(c[n - 1], u)); } }
pub proof fn lem_dnf_step(d: Seq<Seq<Constraint>>, u: spec_fn(int) -> real, n: int)
    requires 0 < n <= d.len(),
    ensures dnf_upto(d, u, n) == (dnf_upto(d, u, n - 1) || guard_holds(d[n - 1], u)),
{ }
pub proof fn lem_some_step(g: Seq<Constraint>, u: spec_fn(int) -> real, n: int)
    requires 0 < n <= g.len(),
    ensures some_upto(g, u, n) == (some_upto(g, u, n - 1) || con_holds(g[n - 1], u(g[n - 1].x))),
{ }
/// a clause as a disjunction of one-conjunct guards
pub proof fn lem_single_dnf(c: Seq<Constraint>, d: Seq<Seq<Constraint>>, u: spec_fn(int) -> real)
    requires d.len() == c.len(), forall|k: int| 0 <= k < d.len() ==> #[trigger] d[k] == seq![c[k]],
    ensures dnf_holds(d, u) == some_holds(c, u),
{
    assert forall|k: int| 0 <= k < c.len() implies #[trigger] guard_holds(d[k], u) == con_holds(c[k], u(c[k].x)) by { assert(d[k][0] == c[k]); }
    if some_holds(c, u) { let i = choose|i: int| 0 <= i < c.len() && con_holds(#[trigger] c[i], u(c[i].x)); assert(guard_holds(d[i], u)); }
}
// ---- hull of guards
/// every clock is bounded at most once from above and once from below
pub open spec fn once(g: Seq<Constraint>) -> bool { forall|i: int, j: int| 0 <= i < j < g.len() ==> !((#[trigger] g[i]).x == (#[trigger] g[j]).x && is_up(g[i]) == is_up(g[j])) }
pub open spec fn ckey(c: Constraint) -> Pair<int, bool> { Pair { first: c.x, second: is_up(c) } }
pub open spec fn cbnd(c: Constraint) -> Pair<D, bool> { bnd(if is_up(c) { c.c as real } else { -(c.c as real) }, is_eqc(c)) }
/// the bound the first m conjuncts of g put on a clock in a direction
pub open spec fn kb(g: Seq<Constraint>, m: int, k: Pair<int, bool>) -> Option<Pair<D, bool>> decreases m { if m <= 0 { None } else if ckey(g[m - 1]) == k { Some(cbnd(g[m - 1])) } else { kb(g, m - 1, k) } }
/// the loosest of the bounds of the first n guards, if all of them bound the clock in the direction
pub open spec fn hb(gs: Seq<Seq<Constraint>>, n: int, k: Pair<int, bool>) -> Option<Pair<D, bool>> decreases n {
    if n <= 0 { None } else { let b = kb(gs[n - 1], gs[n - 1].len() as int, k); if n == 1 { b } else { let a = hb(gs, n - 1, k); if a is Some && b is Some { Some(bmax(a->Some_0, b->Some_0)) } else { None } } }
}
pub type PK = Pair<int, bool>;
pub open spec fn is_kbmap(m: Map<Pair<int, bool>, Pair<D, bool>>, g: Seq<Constraint>, n: int) -> bool {
    (forall|k: PK| #[trigger] m.dom().contains(k) == (kb(g, n, k) is Some)) && (forall|k: PK| #[trigger] m.dom().contains(k) ==> m[k] == kb(g, n, k)->Some_0)
}
pub open spec fn is_hbmap(m: Map<Pair<int, bool>, Pair<D, bool>>, gs: Seq<Seq<Constraint>>, n: int) -> bool {
    (forall|k: PK| #[trigger] m.dom().contains(k) == (hb(gs, n, k) is Some)) && (forall|k: PK| #[trigger] m.dom().contains(k) ==> m[k] == hb(gs, n, k)->Some_0)
}
/// r bounds a clock in a direction exactly if every guard does, and then by the loosest of these bounds
pub open spec fn is_hull(gs: Seq<Seq<Constraint>>, r: Seq<Constraint>) -> bool {
    (forall|i: int| 0 <= i < r.len() ==> hb(gs, gs.len() as int, ckey(#[trigger] r[i])) == Some(cbnd(r[i])))
    && (forall|k: Pair<int, bool>| (#[trigger] hb(gs, gs.len() as int, k)) is Some ==> exists|i: int| 0 <= i < r.len() && ckey(#[trigger] r[i]) == k)
}
pub proof fn lem_key_kb(g: Seq<Constraint>, m: int, k: Pair<int, bool>)
    requires 0 <= m <= g.len(), gok(g),
    ensures (kb(g, m, k) is Some) == (exists|i: int| 0 <= i < m && ckey(#[trigger] g[i]) == k),
        kb(g, m, k) is Some ==> exists|i: int| 0 <= i < m && ckey(#[trigger] g[i]) == k && cbnd(g[i]) == kb(g, m, k)->Some_0,
    decreases m
{ if m > 0 { lem_key_kb(g, m - 1, k); if ckey(g[m - 1]) == k { assert(cbnd(g[m - 1]) == kb(g, m, k)->Some_0); } } }
/// a conjunct that is not repeated has not been seen before
pub proof fn lem_once(g: Seq<Constraint>, m: int)
    requires once(g), 0 <= m < g.len(), gok(g),
    ensures kb(g, m, ckey(g[m])) is None,
{ lem_key_kb(g, m, ckey(g[m])); if kb(g, m, ckey(g[m])) is Some { let i = choose|i: int| 0 <= i < m && ckey(#[trigger] g[i]) == ckey(g[m]); assert(g[i].x == g[m].x); } }
/// the comparison with the given key and bound
pub open spec fn mk_con(k: Pair<int, bool>, b: Pair<D, bool>) -> Constraint {
    Constraint { x: k.first, odr: if k.second { if b.second { Constraint_Order::le } else { Constraint_Order::lt } } else { if b.second { Constraint_Order::ge } else { Constraint_Order::gt } }, c: if k.second { dtrunc(b.first) } else { dtrunc(dneg(b.first)) } }
}
pub proof fn lem_mk(c: Constraint)
    requires con_ok(c),
    ensures mk_con(ckey(c), cbnd(c)) == c, rk(cbnd(c).first) == 0,
{ assert(-(-(c.c as real)) == c.c as real); assert((c.c as real).floor() == c.c); }
pub proof fn lem_hb(gs: Seq<Seq<Constraint>>, n: int, k: Pair<int, bool>)
    requires dok(gs), 0 < n <= gs.len(),
    ensures hb(gs, n, k) is Some ==> ({ let b = hb(gs, n, k)->Some_0; con_ok(mk_con(k, b)) && ckey(mk_con(k, b)) == k && cbnd(mk_con(k, b)) == b && rk(b.first) == 0 && (k.second ==> dv(b.first) >= 0real) && (!k.second ==> dv(b.first) <= 0real) }),
    decreases n
{
    assert(gok(gs[n - 1]));
    lem_key_kb(gs[n - 1], gs[n - 1].len() as int, k);
    if kb(gs[n - 1], gs[n - 1].len() as int, k) is Some {
        let g = gs[n - 1];
        let i = choose|i: int| 0 <= i < g.len() && ckey(#[trigger] g[i]) == k && cbnd(g[i]) == kb(g, g.len() as int, k)->Some_0;
        assert(con_ok(g[i]));
        lem_mk(g[i]);
    }
    if n > 1 { lem_hb(gs, n - 1, k); }
}
pub proof fn lem_hb_ge(gs: Seq<Seq<Constraint>>, n: int, q: int, k: Pair<int, bool>)
    requires dok(gs), 0 <= q < n <= gs.len(), hb(gs, n, k) is Some,
    ensures kb(gs[q], gs[q].len() as int, k) is Some, ble(kb(gs[q], gs[q].len() as int, k)->Some_0, hb(gs, n, k)->Some_0),
    decreases n
{
    lem_hb(gs, n, k);
    if n > 1 { lem_hb(gs, n - 1, k); if q < n - 1 { lem_hb_ge(gs, n - 1, q, k); } }
    assert(gok(gs[q]));
    lem_key_kb(gs[q], gs[q].len() as int, k);
}
pub proof fn lem_hb_weak(gs: Seq<Seq<Constraint>>, n: int, q: int, c: Constraint)
    requires dok(gs), 0 <= q < n <= gs.len(), hb(gs, n, ckey(c)) == Some(cbnd(c)), con_ok(c),
    ensures has_stronger(c, gs[q]),
{
    let k = ckey(c); let g = gs[q];
    lem_hb_ge(gs, n, q, k);
    assert(gok(gs[q]));
    lem_key_kb(g, g.len() as int, k);
    let i = choose|i: int| 0 <= i < g.len() && ckey(#[trigger] g[i]) == k && cbnd(g[i]) == kb(g, g.len() as int, k)->Some_0;
    assert(con_ok(g[i]));
    assert(ble(cbnd(g[i]), cbnd(c)));
    assert(weaker1(c, g[i]));
}
pub proof fn lem_hull_swap(l: Seq<Constraint>, r: Seq<Constraint>, h: Seq<Constraint>)
    requires gok(l), gok(r), is_hull(seq![l, r], h),
    ensures is_hull(seq![r, l], h),
{
    let a = seq![l, r]; let b = seq![r, l];
    assert forall|k: PK| #[trigger] hb(b, 2, k) == hb(a, 2, k) by {
        assert(a[0] == l && a[1] == r && b[0] == r && b[1] == l);
        lem_key_kb(l, l.len() as int, k); lem_key_kb(r, r.len() as int, k);
        assert(hb(a, 1, k) == kb(l, l.len() as int, k)); assert(hb(b, 1, k) == kb(r, r.len() as int, k));
        assert(dok(seq![l])); assert(dok(seq![r]));
        assert(seq![l][0] == l && seq![r][0] == r);
        lem_hb(seq![l], 1, k); lem_hb(seq![r], 1, k);
        assert(hb(seq![l], 1, k) == kb(l, l.len() as int, k)); assert(hb(seq![r], 1, k) == kb(r, r.len() as int, k));
    }
}
/// the conjuncts only mention clocks below n
pub open spec fn ga_clk(g: Seq<Constraint>, n: int) -> bool { forall|i: int| 0 <= i < g.len() ==> 0 <= (#[trigger] g[i]).x < n }
pub open spec fn dclk(d: Seq<Seq<Constraint>>, n: int) -> bool { forall|i: int| 0 <= i < d.len() ==> ga_clk(#[trigger] d[i], n) }
pub proof fn lem_nclk_le(g: Seq<Constraint>, k: int, n: int)
    requires 0 <= k <= g.len(), ga_clk(g, n), gok(g), ensures k > 0 ==> nclk(g, k) <= n, decreases k,
{ if k > 0 { assert(0 <= g[k - 1].x < n); assert(nclk(g, 0) == 0); lem_nclk_le(g, k - 1, n); } }
pub proof fn lem_neg_clk(d: Seq<Seq<Constraint>>, c: Seq<Seq<Constraint>>, n: int)
    requires is_cnf_neg(d, c), dclk(d, n), ensures dclk(c, n),
{
    assert forall|i: int| 0 <= i < c.len() implies ga_clk(#[trigger] c[i], n) by { assert(ga_clk(d[i], n)); assert(is_neg_all(d[i], c[i])); assert forall|k: int| 0 <= k < c[i].len() implies 0 <= (#[trigger] c[i][k]).x < n by { assert(c[i][k] == neg_con(d[i][k])); assert(0 <= d[i][k].x < n); } }
}
