// a random generator: nothing is known about the numbers except their range
pub struct RngObj { pub id: int }
pub uninterp spec fn rng_new(k: int) -> RngObj;
pub uninterp spec fn rng_next(e: RngObj) -> RngObj;
pub uninterp spec fn rng_raw(e: RngObj) -> real;
pub uninterp spec fn rng_rawi(e: RngObj) -> int;
pub open spec fn rng_real(e: RngObj, a: D, b: D) -> D { if dlt(a, b) && a is Fin && b is Fin && dv(a) <= rng_raw(e) < dv(b) { D::Fin(rng_raw(e)) } else { a } }
pub open spec fn rng_int(e: RngObj, a: int, b: int) -> int { if a <= rng_rawi(e) <= b { rng_rawi(e) } else { a } }
pub open spec fn alph_ok(a: Seq<int>) -> bool { forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] != 0 }
