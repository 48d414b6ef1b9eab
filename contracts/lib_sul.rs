// a system under learning behind its interface: an object of unknown state; answers and next states are uninterpreted
pub struct SULObj { pub id: int }
pub uninterp spec fn sul_pre(o: SULObj) -> SULObj;
pub uninterp spec fn sul_post(o: SULObj) -> SULObj;
pub uninterp spec fn sul_ev(o: SULObj, a: int) -> bool;
pub uninterp spec fn sul_evn(o: SULObj, a: int) -> SULObj;
pub uninterp spec fn sul_dl(o: SULObj, d: D) -> bool;
pub uninterp spec fn sul_dln(o: SULObj, d: D) -> SULObj;
/// the system restarted and fed with the first i events and i + 1 durations, alternately
pub open spec fn fed(o: SULObj, w: Seq<int>, d: Seq<D>, i: int) -> SULObj decreases i { if i <= 0 { sul_dln(sul_pre(o), d[0]) } else { sul_dln(sul_evn(fed(o, w, d, i - 1), w[i - 1]), d[i]) } }
/// what it says after the last of these durations
pub open spec fn fed_ans(o: SULObj, w: Seq<int>, d: Seq<D>, i: int) -> bool { if i <= 0 { sul_dl(sul_pre(o), d[0]) } else { sul_dl(sul_evn(fed(o, w, d, i - 1), w[i - 1]), d[i]) } }
