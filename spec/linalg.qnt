// -*- mode: Bluespec; -*-
/// 3x3 matrices (C09), chromaticity coordinates (C10), chromatic adaptation (C06).
module linalg {
  import fix.* from "./fix"
  import common.* from "./common"
  import cats.* from "./cats"

  var c: Call
  var n: int

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  // ======================================================================= C09
  /// 0 dense, 1 small integers, 2 affine (last column 0 0 1), 3 nearly affine,
  /// 4 permuted diagonal, 5 triangular, 6 scaled, 7 zero-rich
  pure def small(s: int, i: int): int = rndIn(s, i, -3, 3) * ONE
  pure def pickMat(s: int, cls: int, w: int): List[int] = {
    pure def real(i: int): int = fw(rndReal(s, i, -4 * ONE, 4 * ONE), w)
    pure val p = rndIn(s, 60, 0, 5)
    // permutation p of the columns
    pure val perm = if (p == 0) [0, 1, 2] else if (p == 1) [0, 2, 1] else if (p == 2) [1, 0, 2]
      else if (p == 3) [1, 2, 0] else if (p == 4) [2, 0, 1] else [2, 1, 0]
    pure val tiny = fw(rndLog(s, 62, if (w == 64) -30 else -8, -1), w)
    if (cls == 0) tab(9, i => real(i))
    else if (cls == 1) tab(9, i => small(s, i))
    else if (cls == 2) mat(((i, j)) => if (j == 2) (if (i == 2) ONE else 0) else (if (rnd(s, 61) % 2 == 0) real(3 * i + j) else small(s, 3 * i + j)))
    else if (cls == 3) {
      // one entry of the last column of an affine matrix is changed
      pure val k = rndIn(s, 63, 0, 2)
      pure val sg = if (rnd(s, 64) % 2 == 0) 1 else -1
      pure val v = if (rnd(s, 65) % 2 == 0) sg * tiny else sg * rndIn(s, 66, 1, 4) * ONE
      mat(((i, j)) => if (j == 2) (if (i == 2) (if (k == 2) fw(ONE + v, w) else ONE) else if (i == k) v else 0) else small(s, 3 * i + j))
    }
    else if (cls == 4) mat(((i, j)) => if (perm[i] == j) (if (rnd(s, 67) % 2 == 0) real(i) else ONE) else 0)
    else if (cls == 5) (if (rnd(s, 68) % 2 == 0) mat(((i, j)) => if (j <= i) real(3 * i + j) else 0) else mat(((i, j)) => if (j >= i) real(3 * i + j) else 0))
    else if (cls == 6) {
      pure val k = rndIn(s, 69, -12, 12)
      tab(9, i => fw(shl(real(i), k), w))
    }
    else tab(9, i => if (rnd(s, 70 + i) % 5 < 2) 0 else real(i))
  }
  pure def className(cls: int): str =
    if (cls == 0) "dense" else if (cls == 1) "small integers" else if (cls == 2) "affine" else if (cls == 3) "nearly affine"
    else if (cls == 4) "permuted diagonal" else if (cls == 5) "triangular" else if (cls == 6) "scaled" else "zero-rich"
  pure def isAffine(m: List[int]): bool = m[2] == 0 and m[5] == 0 and m[8] == ONE
  pure def kmax(w: int): int = if (w == 64) 2^26 * ONE else 2^9 * ONE
  /// 0 inverse, 1 gj_inverse: Some(inverse) for every well-conditioned matrix.
  /// answer: 1 then nine entries, or 0
  action inverseAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet which = 0.to(1).oneOf()
    nondet cls = 0.to(7).oneOf()
    val m = pickMat(s, cls, w)
    if (det(m) == 0 or kappa(m) > kmax(w)) emit({ op: "mat_inv", ints: [w, which], fs: m, kind: "any", exp: [], tag: "ill-conditioned" })
    else {
      val v = minv(m)
      val t = mul(64 * mul(kappa(m), ulp(w)), maxAbs(v))
      emit(okCall("mat_inv", [w, which], m, [exactly(ONE)].concat(tabIv(9, i => within(v[i], t))), className(cls)))
    }
  }
  /// matrices that are singular in exact floating-point arithmetic
  action singularAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet which = 0.to(1).oneOf()
    nondet cls = 0.to(4).oneOf()
    val k = rndIn(s, 80, 0, 2)
    val k2 = (k + rndIn(s, 81, 1, 2)) % 3
    val b = tab(9, i => small(s, i))
    val m =
      if (cls == 0) mat(((i, j)) => if (i == k) 0 else at(b, i, j))
      else if (cls == 1) mat(((i, j)) => if (j == k) 0 else at(b, i, j))
      else if (cls == 2) mat(((i, j)) => if (i == k) at(b, k2, j) else at(b, i, j))
      else if (cls == 3) tab(9, i => 0)
      // affine with a singular upper-left block
      else mat(((i, j)) => if (j == 2) (if (i == 2) ONE else 0) else if (i == 1) 2 * at(b, 0, j) else at(b, i, j))
    emit(okCall("mat_inv", [w, which], m, [exactly(0)], "singular"))
  }
  action twice = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet which = 0.to(1).oneOf()
    nondet cls = 0.to(7).oneOf()
    val m = pickMat(s, cls, w)
    if (det(m) == 0 or kappa(m) > kmax(w) / 2^5) emit({ op: "mat_inv_mul", ints: [w, which], fs: m, kind: "any", exp: [], tag: "ill-conditioned" })
    else {
      val v = minv(m)
      val t = mul(400 * mul(kappa(m), ulp(w)), mul(maxAbs(v), maxAbs(m)))
      emit(okCall("mat_inv_mul", [w, which], m, tabIv(9, i => within(IDENT[i], t)), className(cls)))
    }
  }
  /// rows and columns scaled by powers of two: the same rounding errors, scaled.
  /// (Gauss-Jordan may pivot differently when rows are scaled differently.)
  action scaledInverse = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet which = 0.to(1).oneOf()
    nondet cls = 0.to(7).oneOf()
    val sbm = pickMat(s, cls, 32)
    val all1 = rnd(s, 200) % 2 == 0
    val e0 = if (w == 64) rndIn(s, 201, -60, 150) else rndIn(s, 201, -24, 24)
    val lim = if (w == 64) 20 else 6
    def rowE(i: int): int = if (all1 or which == 1) 0 else rndIn(s, 210 + i, -lim, lim)
    def colE(j: int): int = e0 + (if (all1) 0 else rndIn(s, 220 + j, -lim, lim))
    val m = mat(((i, j)) => shl(at(sbm, i, j), rowE(i) + colE(j)))
    // scaling must stay exact
    val exact = range(0, 9).indices().forall(k => shl(m[k], -(rowE(k / 3) + colE(k % 3))) == sbm[k])
    if (not(exact) or det(sbm) == 0 or kappa(sbm) > kmax(w))
      emit({ op: "mat_inv", ints: [w, which], fs: m, kind: "any", exp: [], tag: "ill-conditioned" })
    else {
      val v = minv(sbm)
      val t = mul(64 * mul(kappa(sbm), ulp(w)), maxAbs(v))
      emit(okCall("mat_inv", [w, which], m, [exactly(ONE)].concat(tabIv(9, k =>
        within(shl(v[k], -(rowE(k % 3) + colE(k / 3))), shl(t, -(rowE(k % 3) + colE(k / 3))) + 2))), "scaled rows and columns"))
    }
  }
  action detAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cls = 0.to(7).oneOf()
    val m = pickMat(s, cls, w)
    emit(okCall("mat_det", [w], m, [within(det(m), 8 * mul(6 * cube(maxAbs(m)), ulp(w)) + 2^20)], className(cls)))
  }
  action mulAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cls = 0.to(7).oneOf()
    val a = pickMat(s, cls, w)
    val b = pickMat(s + 1, (cls + s) % 8, w)
    val p = mmul(a, b)
    val q = mmul(mabs(a), mabs(b))
    emit(okCall("mat_mul", [w], a.concat(b), tabIv(9, i => within(p[i], 4 * mul(q[i], ulp(w)) + 2^20)), className(cls)))
  }
  /// matrix * colour: 0 XYZ, 1 RGB
  action vecAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = 0.to(1).oneOf()
    nondet cls = 0.to(7).oneOf()
    val a = pickMat(s, cls, w)
    val v = tab(3, i => fw(rndReal(s, 90 + i, -2 * ONE, 2 * ONE), w))
    emit(okCall("mat_vec", [w, ty], a.concat(v), mvecIv(a, v, w), className(cls)))
  }
  /// 0 add 1 sub 2 mul 3 div 4 neg 5 transpose 6 identity 7 new
  action scalarAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(7).oneOf()
    nondet cls = 0.to(7).oneOf()
    val a = pickMat(s, cls, w)
    val b0 = fw(rndReal(s, 95, -4 * ONE, 4 * ONE), w)
    val b = if (b0 == 0) ONE else b0
    val v = if (k == 0) mapl(a, x => x + b) else if (k == 1) mapl(a, x => x - b) else if (k == 2) mapl(a, x => mul(x, b))
      else if (k == 3) mapl(a, x => div(x, b)) else if (k == 4) mapl(a, x => -x)
      else if (k == 5) mat(((i, j)) => at(a, j, i)) else if (k == 6) IDENT else a
    emit(okCall("mat_scalar", [w, k], a.append(b), tabIv(9, i => if (k == 3) within(v[i], mul(absf(v[i]), 3 * ulp(w)) + 1) else if (k < 4) rounded(v[i], w) else exactly(v[i])), "element-wise"))
  }
  action matIndex = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = 0.to(4).oneOf()
    nondet j = 0.to(4).oneOf()
    val a = pickMat(s, 0, w)
    if (i > 2 or j > 2) emit(panicCall("mat_index", [w, i, j], a, "out of range"))
    else emit(okCall("mat_index", [w, i, j], a, [exactly(at(a, i, j))], "in range"))
  }
  action matSet = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = 0.to(2).oneOf()
    nondet j = 0.to(2).oneOf()
    val a = pickMat(s, 0, w)
    emit(okCall("mat_set", [w, i, j], a.append(7 * ONE), tabIv(9, k => exactly(if (k == 3 * i + j) 7 * ONE else a[k])), "in range"))
  }
  action matNarrow = {
    nondet s = SEEDS.oneOf()
    nondet cls = 0.to(7).oneOf()
    val a = pickMat(s, cls, 64)
    emit(okCall("mat_narrow", [], a, tabIv(9, i => rounded(a[i], 32)), "narrow"))
  }
  action matEq = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(10).oneOf()
    val a = pickMat(s, 0, w)
    // tiny matrices and tiny differences count too
    val e = if (rnd(s, 300) % 2 == 0) 0 else -rndIn(s, 301, 1, 50)
    val by = if (rnd(s, 302) % 2 == 0) ONE else rndLog(s, 303, if (w == 64) -40 else -16, -1)
    val a1 = mapl(a, x => fw(shl(x, e), w))
    val b2 = tab(9, i => if (i == k) fw(shl(a[i] + by, e), w) else a1[i])
    emit(okCall("mat_eq", [w], a1.concat(b2), [exactly(if (a1 == b2) ONE else 0)], "equality"))
  }
  action stepC09 = any { inverseAct, inverseAct, inverseAct, scaledInverse, singularAct, twice, detAct, mulAct, vecAct, scalarAct, matIndex, matSet, matNarrow, matEq }

  /// the specification's inverse is an inverse, the singular ones have none
  val specInv = (c.op == "mat_inv" and c.kind == "ok" and c.tag != "singular" and c.tag != "scaled rows and columns") implies {
    val v = tab(9, i => (c.exp[i + 1].lo + c.exp[i + 1].hi) / 2)
    val p = mmul(c.fs, v)
    p.indices().forall(i => absf(p[i] - IDENT[i]) < E12)
  }
  val specSingular = c.tag == "singular" implies absf(det(c.fs)) < 2^40
  val specDetMul = (c.op == "mat_mul") implies {
    val a = tab(9, i => c.fs[i])
    val b = tab(9, i => c.fs[9 + i])
    val x = det(mmul(a, b))
    val y = mul(det(a), det(b))
    absf(x - y) <= mul(absf(y), E12) + mul(cube(maxAbs(a)), cube(maxAbs(b))) / 2^60 + E12
  }

  // ======================================================================= C10
  pure def pickXYY(s: int, i: int, w: int): List[int] = {
    pure val cls = rndIn(s, 9 * i, 0, 4)
    pure val x = if (cls == 0) 0 else if (cls == 1) -rndReal(s, 9 * i + 1, 0, ONE) else rndReal(s, 9 * i + 1, ONE / 100, ONE)
    pure val y = if (cls == 2) -rndReal(s, 9 * i + 2, ONE / 50, ONE) else if (cls == 3) (if (rnd(s, 9 * i + 5) % 2 == 0) ONE else rndLog(s, 9 * i + 6, -16, -7)) else rndReal(s, 9 * i + 2, ONE / 100, ONE)
    pure val l = if (rnd(s, 9 * i + 3) % 3 == 0) ONE else if (rnd(s, 9 * i + 3) % 3 == 1) rndLog(s, 9 * i + 4, -10, 8) else rndLog(s, 9 * i + 4, -50, 50)
    [fw(x, w), fw(y, w), fw(l, w)]
  }
  pure def xyzTol(p: List[int], w: int): List[int] = {
    // the third coordinate subtracts: 1 - x - y
    pure val k = absf(div(100 * p[2], p[1]))
    [8 * mul(mul(absf(p[0]), k), ulp(w)) + 2^20, 8 * mul(100 * absf(p[2]), ulp(w)) + 2^20,
     8 * mul(mul(ONE + absf(p[0]) + absf(p[1]), k), ulp(w)) + 2^20]
  }
  /// 0 from_chromaticity, 1 From<XYY>; 2 from_xy (Y = 1), 3 xy() then From
  action toXyzAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet how = 0.to(3).oneOf()
    val p0 = pickXYY(s, 0, w)
    val p = if (how >= 2) [p0[0], p0[1], ONE] else p0
    val v = toXYZ(p)
    val t = xyzTol(p, w)
    emit(okCall("xyy_to_xyz", [w, how], p, tabIv(3, i => within(v[i], t[i])), if (p[1] < 0) "negative y" else "to XYZ"))
  }
  pure def pickXYZ(s: int, w: int): List[int] = {
    pure val cls = rndIn(s, 0, 0, 3)
    pure val k = if (rnd(s, 9) % 2 == 0) rndIn(s, 1, -12, 8) else rndIn(s, 1, -60, 60)
    pure val v = tab(3, i => if (cls == 0 and i != 1) -rndReal(s, 2 + i, 0, 20 * ONE) else if (cls == 1) rndLog(s, 2 + i, -4, 7) else rndReal(s, 2 + i, ONE, 100 * ONE))
    tab(3, i => fw(if (cls == 2) shl(v[i], k) else v[i], w))
  }
  pure def condSum(v: List[int]): int = {
    pure val t = absf(v[0] + v[1] + v[2])
    if (t == 0) BIG else div(absf(v[0]) + absf(v[1]) + absf(v[2]), t)
  }
  /// 0 from_xyz, 1 From<XYZ>
  action toXyyAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet how = 0.to(1).oneOf()
    val v = pickXYZ(s, w)
    val k = condSum(v)
    if (k > 100 * ONE) emit({ op: "xyz_to_xyy", ints: [w, how], fs: v, kind: "any", exp: [], tag: "ill-conditioned" })
    else {
      val p = toXYY(v)
      emit(okCall("xyz_to_xyy", [w, how], v, tabIv(3, i => within(p[i], 8 * mul(mul(absf(p[i]), if (i == 2) ONE else k), ulp(w)) + 2^20)), "to xyY"))
    }
  }
  /// xyY -> XYZ -> xyY
  action xyyRound = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val p = pickXYY(s, 0, w)
    // x + y + z = 1: error of the sum relative to its parts
    val k = ONE + absf(p[0]) + absf(p[1])
    emit(okCall("xyy_rt", [w], p, tabIv(3, i => within(p[i], 40 * mul(mul(absf(p[i]), sq(k)), ulp(w)) + 2^20)), "round trip"))
  }
  action xyzRound = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val v = pickXYZ(s, w)
    val k = condSum(v)
    val p = toXYY(v)
    if (k > 20 * ONE or absf(p[1]) < ONE / 100) emit({ op: "xyz_rt", ints: [w], fs: v, kind: "any", exp: [], tag: "ill-conditioned" })
    else emit(okCall("xyz_rt", [w], v,
      tabIv(3, i => within(v[i], 100 * mul(mul(sq(k), maxAbs(v) + div(maxAbs(v), absf(p[1]))), ulp(w)) + 2^20)), "round trip"))
  }
  /// 0 normalized (Y = 1), 1 normalized_y (Y = 100)
  action normAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet how = 0.to(1).oneOf()
    val v0 = pickXYZ(s, w)
    // a negative luminance too, and components which are nothing
    val v1 = if (rnd(s, 60) % 4 == 0) v0.replaceAt(1, -v0[1]) else v0
    val v = if (rnd(s, 61) % 6 == 0) v1.replaceAt(2 * (rnd(s, 62) % 2), 0) else v1
    val k = if (how == 0) 1 else 100
    emit(okCall("xyz_norm", [w, how], v, tabIv(3, i => ulps(k * div(v[i], v[1]), 4, w)), if (v[1] < 0) "normalise, negative" else "normalise"))
  }
  /// scaling does not move the chromaticity: the difference of the two is zero
  action scaleAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val v = pickXYZ(s, w)
    val k = condSum(v)
    val f = fw(rndLog(s, 50, -8, 8), w)
    if (k > 100 * ONE) emit({ op: "xyz_scale_xy", ints: [w], fs: v.append(f), kind: "any", exp: [], tag: "ill-conditioned" })
    else emit(okCall("xyz_scale_xy", [w], v.append(f), tabIv(2, i => within(0, 40 * mul(sq(k), ulp(w)))), "scale"))
  }
  action stepC10 = any { toXyzAct, toXyyAct, xyyRound, xyzRound, normAct, scaleAct }
  val specXyyRound = c.op == "xyy_rt" implies {
    val q = toXYY(toXYZ(c.fs))
    range(0, 3).indices().forall(i => inIv(c.exp[i], q[i]))
  }
  val specXyzRound = (c.op == "xyz_rt" and c.kind == "ok") implies {
    val q = toXYZ(toXYY(c.fs))
    range(0, 3).indices().forall(i => inIv(c.exp[i], q[i]))
  }
  val specUnitLum = (c.op == "xyy_to_xyz" and c.fs[2] == ONE) implies inIv(c.exp[1], 100 * ONE)

  // ======================================================================= C06
  /// form of each white: 0 given as xyY, 1 given as XYZ
  pure def wvec(form: int, p: List[int], w: int): List[int] = if (form == 0) toXYZ(p) else fw3(toXYZ(p), w)
  pure def warg(form: int, p: List[int], w: int): List[int] = if (form == 0) p else fw3(toXYZ(p), w)
  /// the second white: unrelated, equal, same chromaticity with other luminance,
  /// or different in one coordinate only
  pure def other(s: int, a: List[int], w: int): List[int] = {
    pure val k = rndIn(s, 300, 0, 12)
    pure val j = rndIn(s, 302, 0, 2)
    if (k == 0) a
    // almost the same white
    else if (k <= 3) tab(3, i => if (i == j) fw(a[i] + mul(a[i], rndLog(s, 303, if (w == 64) -34 else -14, -5)), w) else a[i])
    else if (k == 4) [a[0], a[1], fw(mul(a[2], rndReal(s, 301, ONE / 2, 2 * ONE)), w)]
    else if (k == 5) [a[0], a[1], fw(rndLog(s, 301, -12, 12), w)]
    else if (k == 7) [a[0], fw(mul(a[1], rndReal(s, 301, rat(9, 10), rat(11, 10))), w), a[2]]
    else if (k == 8) [fw(mul(a[0], rndReal(s, 301, rat(9, 10), rat(11, 10))), w), a[1], a[2]]
    else pickStrange(s, 1, w)
  }
  action catMatrix = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(2).oneOf()
    nondet f1 = 0.to(1).oneOf()
    nondet f2 = 0.to(1).oneOf()
    val a = pickStrange(s, 0, w)
    val b = other(s, a, w)
    val va = wvec(f1, a, w)
    val vb = wvec(f2, b, w)
    val m = adapt(k, va, vb)
    val t = adaptTol(k, va, vb, w)
    val exact = a == b and f1 == f2
    emit(okCall("cat", [w, k, f1, f2], warg(f1, a, w).concat(warg(f2, b, w)),
      tabIv(9, i => if (exact) exactly(IDENT[i]) else within(m[i], t[i])),
      if (exact) "equal whites" else if (a[0] == b[0] and a[1] == b[1]) "other luminance" else "two whites"))
  }
  /// source white goes to destination white
  action catWhite = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(2).oneOf()
    val a = pickStrange(s, 0, w)
    val b = other(s, a, w)
    val va = toXYZ(a)
    val vb = toXYZ(b)
    val t = adaptTol(k, va, vb, w)
    val e = mvec(t, mabs(va))
    val rw = if (k == 1) rat(1, 1000000) else 0
    emit(okCall("cat_white", [w, k], a.concat(b),
      tabIv(3, i => within(vb[i], 2 * e[i] + mul(maxAbs(vb), 64 * ulp(w) + rw))), "white"))
  }
  /// a -> b -> c equals a -> c; with c = a this is the inverse
  action catChain = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(2).oneOf()
    val p = pickStrange(s, 0, w)
    val q = pickStrange(s, 1, w)
    val r = if (rnd(s, 400) % 3 == 0) p else pickStrange(s, 2, w)
    val vp = toXYZ(p)
    val vq = toXYZ(q)
    val vr = toXYZ(r)
    val m1 = adapt(k, vp, vq)
    val m2 = adapt(k, vq, vr)
    val t1 = adaptTol(k, vp, vq, w)
    val t2 = adaptTol(k, vq, vr, w)
    val m = adapt(k, vp, vr)
    val e1 = mmul(mabs(m2), t1)
    val e2 = mmul(t2, mabs(m1))
    val e3 = mmul(mabs(m2), mabs(m1))
    emit(okCall("cat_chain", [w, k], p.concat(q).concat(r),
      tabIv(9, i => within(m[i], 2 * (e1[i] + e2[i]) + 8 * mul(e3[i], ulp(w)))), if (r == p) "inverse" else "chain"))
  }
  action stepC06 = any { catMatrix, catMatrix, catWhite, catChain }

  val specWhitesOk = (c.op == "cat_white") implies clearWhite(toXYZ([c.fs[0], c.fs[1], c.fs[2]]))
  val specCatWhite = (c.op == "cat_white") implies {
    val va = toXYZ([c.fs[0], c.fs[1], c.fs[2]])
    val vb = toXYZ([c.fs[3], c.fs[4], c.fs[5]])
    val r = mvec(adapt(c.ints[1], va, vb), va)
    range(0, 3).indices().forall(i => absf(r[i] - vb[i]) < E12)
  }
  val specCatChain = (c.op == "cat_chain") implies {
    def wh(i: int): List[int] = toXYZ([c.fs[3 * i], c.fs[3 * i + 1], c.fs[3 * i + 2]])
    val k = c.ints[1]
    val p = mmul(adapt(k, wh(1), wh(2)), adapt(k, wh(0), wh(1)))
    val q = adapt(k, wh(0), wh(2))
    range(0, 9).indices().forall(i => absf(p[i] - q[i]) < E12)
  }
}
