// the composed updates act on every valuation like the right updates followed by the left ones
pub proof fn lem_at_val(rs: Seq<Pair<int, VarDC>>, k: int, v: Seq<D>, x: int)
  requires 0 <= k <= rs.len(), ensures ru_val(rs, k, v, x) == ru_src(ru_at(rs, k, x), v), decreases k,
{ if k > 0 { lem_at_val(rs, k - 1, v, x); } }
pub proof fn lem_comp_val(left: Seq<Pair<int, VarDC>>, right: Seq<Pair<int, VarDC>>, r: Seq<Pair<int, VarDC>>, v: Seq<D>)
  requires forall|x: int| #[trigger] ru_eff(r, x) == ru_comp(left, right, x), rus_ok(left, v.len() as int), rus_ok(right, v.len() as int),
  ensures ru_all(r, v) =~= ru_all(left, ru_all(right, v)),
{
  let u = ru_all(right, v);
  assert forall|x: int| 0 <= x < v.len() implies (#[trigger] ru_all(r, v)[x]) == ru_all(left, u)[x] by {
    lem_at_val(r, r.len() as int, v, x); lem_at_val(left, left.len() as int, u, x);
    assert(ru_eff(r, x) == ru_comp(left, right, x));
    match ru_eff(left, x) { VarDC::Dbl(d) => {}, VarDC::Clk(y) => {
      if ru_named(left, left.len() as int, x) { let i = lem_last_at(left, left.len() as int, x); assert(ru_ok(left[i], v.len() as int)); } else { lem_unnamed(left, left.len() as int, x); }
      lem_at_val(right, right.len() as int, v, y);
    } }
  }
}
