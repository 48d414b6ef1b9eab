/// m is split exactly into n simple conditions
pub open spec fn nsplit(m: Mat, n: int) -> bool { exists|q: Seq<TimedCondition>| #[trigger] nsplit_by(m, n, q) }
pub open spec fn nsplit_by(m: Mat, n: int, q: Seq<TimedCondition>) -> bool { simples(q, m.rows) && split_of(q, m) && q.len() == n }
