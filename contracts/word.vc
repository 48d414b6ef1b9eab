// include/timed_word.hh
@fn TimedWord::TimedWord/string.*vector<double>/ as tw_ctor(word, durations)
@requires
  tw_ok(word, durations),
@ensures
  this1.word == absorb_w(word, word.len() as int), this1.durations == absorb_d(word, durations, word.len() as int),
  tw_ok(this1.word, this1.durations), no_silent(this1.word), rsum(this1.durations) == rsum(durations), this1.word == word.filter(|c: int| c != 0),
  no_silent(word) ==> this1.word == word && this1.durations == durations,
@loop 1
@invariant
  tw_ok(word, durations), 0 <= i <= word.len(), this.word == absorb_w(word, i), this.durations =~= absorb_d(word, durations, i), tw_ok(this.word, this.durations),
@decreases
  word.len() - i
@begin
  lem_absorb(word, durations, i); lem_absorb(word, durations, i + 1); assert(this.durations == absorb_d(word, durations, i));
@return
  lem_absorb(word, durations, word.len() as int); assert(word.subrange(0, word.len() as int) =~= word); assert(durations.subrange(0, durations.len() as int) =~= durations);

@fn TimedWord::operator+/TimedWord &\) const/ as tw_cat(another)
@requires
  tw_ok(this.word, this.durations), tw_ok(another.word, another.durations),
@ensures
  r.word == this.word + another.word, r.durations =~= cat_d(this.durations, another.durations), tw_ok(r.word, r.durations), rsum(r.durations) == rsum(this.durations) + rsum(another.durations),
@loop 1
@invariant
  tw_ok(this.word, this.durations), tw_ok(another.word, another.durations), 1 <= it <= another.durations.len(),
  result.word == this.word + another.word, result.durations =~= add_last(this.durations, another.durations[0]) + another.durations.subrange(1, it),
@decreases
  another.durations.len() - it
@return
  lem_cat_d(this.durations, another.durations);

@fn TimedWord::operator+/char/ as tw_cat_event(action)
@mode pure
@ensures
  r.word == this.word.push(action), r.durations == this.durations.push(fin(0real)), rsum(r.durations) == rsum(this.durations),
@entry
  lem_rsum_push(this.durations, fin(0real));

@fn TimedWord::operator+/double\)/ as tw_cat_delay(duration)
@mode pure
@requires
  tw_ok(this.word, this.durations), duration is Fin,
@ensures
  r.word == this.word, r.durations =~= add_last(this.durations, duration), rsum(r.durations) == rsum(this.durations) + dv(duration),
@entry
  lem_rsum_add_last(this.durations, duration); assert(add_last(this.durations, duration) =~= this.durations.update(this.durations.len() - 1, dadd(this.durations.last(), duration)));

@fn TimedWord::getAccumulatedDurations as tw_accumulated()
@requires
  fin_all(this.durations), 1 <= this.durations.len() < 0x7fff_ffff,
@ensures
  acc_from(this.durations, r, 0), all_fin(r), r.len() == this.durations.len(),
@loop 1
@invariant
  fin_all(this.durations), 1 <= this.durations.len() < 0x7fff_ffff, -1 <= i <= this.durations.len() - 2, acc_from(this.durations, accumulatedDurations, i + 1),
@decreases
  i + 1
@before
  lem_rsum_front(this.durations, this.durations.len() - 1); assert(this.durations.subrange(this.durations.len() as int, this.durations.len() as int) =~= Seq::empty());
@begin
  lem_rsum_front(this.durations, i);

@fn TimedWord::getSuffix as tw_suffix(prefix)
@requires
  tw_ok(this.word, this.durations), tw_ok(prefix.word, prefix.durations), no_silent(this.word), prefix.word.len() <= this.word.len(),
@ensures
  r.word == this.word.subrange(prefix.word.len() as int, this.word.len() as int), r.durations =~= suf_d(prefix.word, prefix.durations, this.durations),
  tw_prefix(prefix.word, prefix.durations, this.word, this.durations) ==> prefix.word + r.word == this.word && cat_d(prefix.durations, r.durations) == this.durations,
@return
  if tw_prefix(prefix.word, prefix.durations, this.word, this.durations) { lem_suffix(prefix.word, prefix.durations, this.word, this.durations); }

@fn TimedWord::wordSize as tw_size()
@mode pure
@ensures
  r == this.word.len(),

@fn TimedWord::operator== as tw_eq(another)
@mode pure
@ensures
  r == (this.word == another.word && this.durations == another.durations),
