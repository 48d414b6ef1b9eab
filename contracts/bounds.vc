// include/bounds.hh
@fn ::operator+/^learnta::Bounds \(/ as bounds_add(a, b)
@mode pure
@ensures
  r == badd(a, b),

@fn ::operator-/\(const learnta::Bounds &, const learnta::Bounds &\)/ as bounds_sub(a, b)
@mode pure
@ensures
  r == bsub(a, b),

@fn ::operator-/\(const learnta::Bounds &\)$/ as bounds_neg(a)
@mode pure
@ensures
  r == (Pair { first: dneg(a.first), second: a.second }),

@fn ::operator+=/Bounds/ as bounds_addassign(a, b)
@mode pure
@ensures
  a1 == badd(a, b),

@fn isPoint as is_point(ub, lb)
@mode pure
@requires
  okb(ub), okb(lb),
@ensures
  // the interval described by the two bounds is a single point
  r == (ub.first is Fin && lb.first is Fin && dv(ub.first) == -dv(lb.first) && ub.second && lb.second),
  r ==> forall|d: real| (bsat(ub, d) && bsat(lb, -d)) <==> d == dv(ub.first),

@fn isUnitOpen as is_unit_open(ub, lb)
@mode pure
@requires
  okb(ub), okb(lb),
@ensures
  r == (ub.first is Fin && lb.first is Fin && dv(ub.first) == -dv(lb.first) + 1real && !ub.second && !lb.second),

@fn isSimple/Bounds/ as is_simple_b(ub, lb)
@mode pure
@requires
  okb(ub), okb(lb),
@ensures
  r == (ub.first is Fin && lb.first is Fin && ((dv(ub.first) == -dv(lb.first) && ub.second && lb.second) || (dv(ub.first) == -dv(lb.first) + 1real && !ub.second && !lb.second))),
