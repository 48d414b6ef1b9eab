/// the hull of bounded conditions is bounded
pub proof fn lem_bounded_hull(a: Mat, b: Mat, c: Mat)
  requires wf(a), wf(b), a.rows == b.rows, c.rows == a.rows, c.cols == a.cols,
    forall|i: int, j: int| 0 <= i < a.rows && 0 <= j < a.cols ==> #[trigger] c.at(i, j) == bmax(a.at(i, j), b.at(i, j)),
  ensures bounded_m(a) && bounded_m(b) ==> bounded_m(c)
{
  if bounded_m(a) && bounded_m(b) {
    assert forall|i: int| 0 <= i < c.rows - 1 && #[trigger] tix(i) implies c.at(i + 1, hix(i, c.rows)).first is Fin && c.at(hix(i, c.rows), i + 1).first is Fin by {
      let h = hix(i, c.rows);
      assert(c.at(i + 1, h) == bmax(a.at(i + 1, h), b.at(i + 1, h))); assert(c.at(h, i + 1) == bmax(a.at(h, i + 1), b.at(h, i + 1)));
    }
  }
}
