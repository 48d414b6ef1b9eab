pub open spec fn words_ok(ws: Seq<TimedWord>) -> bool { forall|i: int| 0 <= i < ws.len() ==> tw_ok((#[trigger] ws[i]).word, ws[i].durations) && no_silent(ws[i].word) }
