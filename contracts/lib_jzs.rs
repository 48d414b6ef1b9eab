// sets of juxtaposed zones
pub open spec fn jz_in(z: JuxtaposedZone, r: Seq<Pair<int, int>>) -> bool { canonical(z.base.value) && 0 <= z.leftSize && 0 <= z.rightSize && ren_ok(r, z.leftSize, z.rightSize, z.base.value.rows) }
pub open spec fn anyz(z: Seq<JuxtaposedZone>, lo: int, hi: int, v: spec_fn(int) -> real) -> bool { exists|k: int| lo <= k < hi && sat((#[trigger] z[k]).base.value, v) }
pub open spec fn anyz_ren(z: Seq<JuxtaposedZone>, lo: int, hi: int, r: Seq<Pair<int, int>>, v: spec_fn(int) -> real) -> bool { exists|k: int| lo <= k < hi && sat((#[trigger] z[k]).base.value, v) && ren_sat(r, z[k].leftSize, r.len() as int, v) }
/// zone i was constrained and then kept (j == i + 1) or removed because it is empty (j == i)
pub proof fn lem_jzs_step(z: Seq<JuxtaposedZone>, y: Seq<JuxtaposedZone>, i: int, j: int, r: Seq<Pair<int, int>>, v: spec_fn(int) -> real)
  requires 0 <= i < z.len(),
    (j == i + 1 && y.len() == z.len() && (forall|k: int| 0 <= k < z.len() && k != i ==> #[trigger] y[k] == z[k]) && sat(y[i].base.value, v) == (sat(z[i].base.value, v) && ren_sat(r, z[i].leftSize, r.len() as int, v)))
    || (j == i && y.len() == z.len() - 1 && (forall|k: int| 0 <= k < i ==> #[trigger] y[k] == z[k]) && (forall|k: int| i <= k < y.len() ==> #[trigger] y[k] == z[k + 1]) && !(sat(z[i].base.value, v) && ren_sat(r, z[i].leftSize, r.len() as int, v)))
  ensures (anyz(z, 0, i, v) || anyz_ren(z, i, z.len() as int, r, v)) == (anyz(y, 0, j, v) || anyz_ren(y, j, y.len() as int, r, v))
{
  if anyz(z, 0, i, v) { let k = choose|k: int| 0 <= k < i && sat((#[trigger] z[k]).base.value, v); assert(y[k] == z[k]); }
  else if anyz_ren(z, i, z.len() as int, r, v) {
    let k = choose|k: int| i <= k < z.len() && sat((#[trigger] z[k]).base.value, v) && ren_sat(r, z[k].leftSize, r.len() as int, v);
    if k > i { if j == i { assert(y[k - 1] == z[k]); } else { assert(y[k] == z[k]); } } else { assert(j == i + 1); let _ = y[i]; }
  }
  if anyz(y, 0, j, v) { let k = choose|k: int| 0 <= k < j && sat((#[trigger] y[k]).base.value, v); let _ = z[k]; if k < i { assert(y[k] == z[k]); } else { assert(k == i); } }
  else if anyz_ren(y, j, y.len() as int, r, v) {
    let k = choose|k: int| j <= k < y.len() && sat((#[trigger] y[k]).base.value, v) && ren_sat(r, y[k].leftSize, r.len() as int, v);
    if j == i { let _ = z[k + 1]; assert(y[k] == z[k + 1]); } else { let _ = z[k]; assert(y[k] == z[k]); }
  }
}
/// some zone of the sequence has the same solutions
pub open spec fn jz_among(z: JuxtaposedZone, s: Seq<JuxtaposedZone>) -> bool { exists|l: int| 0 <= l < s.len() && same_sols(z.base.value, (#[trigger] s[l]).base.value) }
pub open spec fn jz_canon(a: JuxtaposedZone, b: JuxtaposedZone) -> bool { canonical(a.base.value) && a.base.value.rows == b.base.value.rows }
