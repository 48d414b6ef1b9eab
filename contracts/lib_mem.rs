// a membership oracle behind its interface: it decides a fixed language (its own state may change)
pub struct MemObj { pub lang: int, pub st: int }
pub uninterp spec fn member(lang: int, w: TimedWord) -> bool;
pub uninterp spec fn mem_st(o: MemObj, w: TimedWord) -> int;
pub open spec fn mem_ans(o: MemObj, w: TimedWord) -> bool { member(o.lang, w) }
pub open spec fn mem_next(o: MemObj, w: TimedWord) -> MemObj { MemObj { lang: o.lang, st: mem_st(o, w) } }
/// the cached answers are those of the language
pub open spec fn cache_ok(m: Map<TimedWord, bool>, lang: int) -> bool { forall|k: TimedWord| #[trigger] m.dom().contains(k) ==> m[k] == member(lang, k) }
