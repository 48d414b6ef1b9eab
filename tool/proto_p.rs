use vstd::prelude::*;
verus! {
pub enum D { NInf, NMax, Fin(real), Max, Inf }
pub open spec fn rk(a: D) -> int { match a { D::NInf => -2, D::NMax => -1, D::Fin(_) => 0, D::Max => 1, D::Inf => 2 } }
pub open spec fn dv(a: D) -> real { match a { D::Fin(r) => r, _ => 0real } }
pub open spec fn dlt(a: D, b: D) -> bool { rk(a) < rk(b) || (rk(a) == 0 && rk(b) == 0 && dv(a) < dv(b)) }
pub open spec fn dle(a: D, b: D) -> bool { dlt(a, b) || a == b }
pub open spec fn mkd(k: int) -> D { if k == -2 { D::NInf } else if k == -1 { D::NMax } else if k == 1 { D::Max } else if k == 2 { D::Inf } else { D::Fin(0real) } }
pub uninterp spec fn nan() -> D;
pub open spec fn dadd(a: D, b: D) -> D {
    if rk(a) == 0 && rk(b) == 0 { D::Fin(dv(a) + dv(b)) }
    else if rk(a) == 0 { b } else if rk(b) == 0 { a }
    else if rk(a) > 0 && rk(b) > 0 { D::Inf }
    else if rk(a) < 0 && rk(b) < 0 { D::NInf }
    else if rk(a) + rk(b) == 0 { if rk(a) == 1 || rk(a) == -1 { D::Fin(0real) } else { nan() } }
    else if rk(a) == 2 || rk(a) == -2 { a } else { b }
}
pub open spec fn dneg(a: D) -> D { match a { D::NInf => D::Inf, D::NMax => D::Max, D::Fin(r) => D::Fin(-r), D::Max => D::NMax, D::Inf => D::NInf } }
pub struct Pair<A, B> { pub first: A, pub second: B }
pub type Bounds = Pair<D, bool>;
pub open spec fn blt(a: Bounds, b: Bounds) -> bool { dlt(a.first, b.first) || (a.first == b.first && !a.second && b.second) }
pub open spec fn ble(a: Bounds, b: Bounds) -> bool { !blt(b, a) }
pub open spec fn bmin(a: Bounds, b: Bounds) -> Bounds { if blt(b, a) { b } else { a } }
pub open spec fn badd(a: Bounds, b: Bounds) -> Bounds { Pair { first: dadd(a.first, b.first), second: a.second && b.second } }
pub open spec fn bz() -> Bounds { Pair { first: D::Fin(0real), second: true } }
pub struct Mat { pub rows: int, pub cols: int, pub f: spec_fn(int, int) -> Bounds }
impl Mat { pub open spec fn at(self, i: int, j: int) -> Bounds { (self.f)(i, j) } }
// proper entries: no negative infinities, and no (Max, true)
pub open spec fn okb(b: Bounds) -> bool { rk(b.first) == 0 || (b.first == D::Max && !b.second) }
pub open spec fn bsat(b: Bounds, d: real) -> bool { b.first == D::Max || b.first == D::Inf || (rk(b.first) == 0 && (d < dv(b.first) || (d == dv(b.first) && b.second))) }
pub open spec fn wf(m: Mat) -> bool { m.rows == m.cols && m.rows >= 1 && forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> okb(#[trigger] m.at(i, j)) }
pub open spec fn sat(m: Mat, v: spec_fn(int) -> real) -> bool { forall|i: int, j: int| 0 <= i < m.rows && 0 <= j < m.cols ==> bsat(#[trigger] m.at(i, j), v(i) - v(j)) }
pub open spec fn diag_ok(m: Mat) -> bool { forall|i: int| 0 <= i < m.rows ==> ble(bz(), #[trigger] m.at(i, i)) }
pub open spec fn closed_upto(m: Mat, k: int) -> bool { forall|i: int, j: int, h: int| 0 <= i < m.rows && 0 <= j < m.cols && 0 <= h < k ==> ble(#[trigger] m.at(i, j), badd(#[trigger] m.at(i, h), #[trigger] m.at(h, j))) }

pub proof fn close1_loop(this: Mat, x: int, i: int, pre: Mat) -> (out: (Mat, int))
  requires wf(this), wf(pre), this.rows == pre.rows, 0 <= x < this.rows, 0 <= i <= this.rows,
    diag_ok(pre),
    forall|a: int, b: int| 0 <= a < this.rows && 0 <= b < this.rows ==> #[trigger] this.at(a,b) == (if a < i { bmin(pre.at(a,b), badd(pre.at(a,x), pre.at(x,b))) } else { pre.at(a,b) }),
  ensures wf(out.0), out.0.rows == pre.rows, 
    forall|a: int, b: int| 0 <= a < this.rows && 0 <= b < this.rows ==> #[trigger] out.0.at(a,b) == bmin(pre.at(a,b), badd(pre.at(a,x), pre.at(x,b))),
  decreases this.rows - i
{
  let mut this = this; let mut i = i;
  if i < this.rows {
    let t = this;
    let c = t.at(i, x);
    this = Mat { f: |a: int, b: int| if a == i && 0 <= b < t.cols { bmin(t.at(i, b), badd(t.at(x, b), c)) } else { t.at(a, b) }, ..t };
    i = i + 1;
    assert forall|a: int, b: int| 0 <= a < this.rows && 0 <= b < this.rows implies #[trigger] this.at(a,b) == (if a < i { bmin(pre.at(a,b), badd(pre.at(a,x), pre.at(x,b))) } else { pre.at(a,b) }) by {
       assert(ble(bz(), pre.at(x,x)));
    }
    return close1_loop(this, x, i, pre);
  }
  (this, i)
}
pub proof fn lem_step(p: Mat, q: Mat, k: int)
  requires wf(p), wf(q), p.rows == q.rows, 0 <= k < p.rows, diag_ok(q), diag_ok(p), closed_upto(p, k),
    forall|a: int, b: int| 0 <= a < p.rows && 0 <= b < p.rows ==> #[trigger] q.at(a,b) == bmin(p.at(a,b), badd(p.at(a,k), p.at(k,b))),
  ensures closed_upto(q, k + 1)
{
  assert forall|i: int, j: int, h: int| 0 <= i < q.rows && 0 <= j < q.cols && 0 <= h < k + 1 implies ble(#[trigger] q.at(i, j), badd(#[trigger] q.at(i, h), #[trigger] q.at(h, j))) by {
    let _ = (p.at(i,j), p.at(i,k), p.at(k,j), p.at(i,h), p.at(h,j), p.at(k,h), p.at(h,k), p.at(k,k), p.at(h,h));
    assert(ble(bz(), p.at(k,k)));
    assert(ble(bz(), q.at(h,h)));
    assert(ble(bz(), p.at(h,h)));
    if h < k {
      assert(ble(p.at(i,j), badd(p.at(i,h), p.at(h,j))));
      assert(ble(p.at(k,j), badd(p.at(k,h), p.at(h,j))));
      assert(ble(p.at(i,k), badd(p.at(i,h), p.at(h,k))));
      assert(ble(p.at(k,k), badd(p.at(k,h), p.at(h,k))));
    }
  }
}
fn main(){}
}
