
// include/single_morphism.hh
@fn SingleMorphism::inDomain as morph_in_domain(word)
@requires
  wf(this.domain.timedCondition.zone.value), this.domain.timedCondition.zone.value.rows == this.domain.word.len() + 2, tw_ok(word.word, word.durations),
@ensures
  r == (word.word == this.domain.word && sat(this.domain.timedCondition.zone.value, wv(word.durations))),

@fn SingleMorphism::maps as morph_maps(word)
@requires
  wf(this.domain.timedCondition.zone.value), nng(this.domain.timedCondition.zone.value), this.domain.timedCondition.zone.value.rows == this.domain.word.len() + 2,
  canonical(this.codomain.timedCondition.zone.value), nng(this.codomain.timedCondition.zone.value), this.codomain.timedCondition.zone.value.rows == this.codomain.word.len() + 2, no_silent(this.codomain.word),
  this.domain.word.len() + this.codomain.word.len() + 4 <= 256,
  forall|k: int| 0 <= k < this.renaming.base.len() ==> 0 <= (#[trigger] this.renaming.base[k]).first <= this.domain.word.len() && 0 <= this.renaming.base[k].second <= this.codomain.word.len(),
  tw_ok(word.word, word.durations), word.word == this.domain.word, sat(this.domain.timedCondition.zone.value, wv(word.durations)),
  morph_to(this.codomain.timedCondition.zone.value, this.renaming.base, wv(word.durations)),
@ensures
  r.word == this.codomain.word, tw_ok(r.word, r.durations), sat(this.codomain.timedCondition.zone.value, wv(r.durations)),
  renamed(this.renaming.base, wv(word.durations), wv(r.durations)),
@anchor_after juxtaposedCondition#1
  let ghost_c = this.codomain.timedCondition.zone.value; let ghost_m = juxtaposedCondition.base.value; let ghost_n = word.durations.len() as int;
  assert forall|x: int| 1 <= x <= ghost_n implies 0real <= #[trigger] wv(word.durations)(x) by { lem_nonneg_sat(this.domain.timedCondition.zone.value, wv(word.durations), x); }
  assert(morph_ex(ghost_c, ghost_m, word.durations, ghost_n));
  let (ghost_e, ghost_a) = choose|e: Mat, acc: Seq<D>| #![trigger is_juxt(e, ghost_c, ghost_m), acc_from(word.durations, acc, 0)] morph_in(e, ghost_c, ghost_m, word.durations, acc, ghost_n);
  let ghost_w = choose|w: spec_fn(int) -> real| #[trigger] sat(ghost_c, w) && w(0) == 0real && renamed(this.renaming.base, wv(word.durations), w);
  lem_morph_in(ghost_e, ghost_c, ghost_m, word.durations, ghost_a, ghost_n, this.renaming.base, ghost_w);
  let ghost_u = join(wv(word.durations), ghost_w, ghost_n);
@anchor_after juxtaposedCondition#2
  let ghost_m2 = juxtaposedCondition.base.value; assert(sat(ghost_m2, ghost_u));
  lem_nonneg_le(ghost_m, ghost_m2);
@anchor_after juxtaposedCondition#3
  let ghost_m3 = juxtaposedCondition.base.value; assert(sat(ghost_m3, ghost_u)); lem_nonneg_le(ghost_m2, ghost_m3); lem_sat_diag(ghost_m3, ghost_u);
@anchor_after values#1
  assert(sat(ghost_m3, valof(values))); assert(sat(ghost_m2, valof(values))); assert(sat(ghost_m, valof(values)));
@loop 1
@invariant
  -1 <= i <= this.codomain.word.len(), this == old_this, durations.len() == this.codomain.word.len() + 1, values.len() == this.domain.word.len() + this.codomain.word.len() + 2, this.codomain.word.len() < 256, this.domain.word.len() < 256,
  forall|k: int| 0 <= k < values.len() ==> isfin(#[trigger] values[k]),
  durs_from(rightv(valof(values), this.domain.word.len() as int + 1), durations, i + 1, this.codomain.word.len() as int + 2),
@decreases
  i + 1
@exit
  lem_morph_out(ghost_e, ghost_c, ghost_m, word.durations, ghost_a, ghost_n, this.renaming.base, valof(values), durations);
@endloop
