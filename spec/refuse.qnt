// -*- mode: Bluespec; -*-
/// What has no meaning is refused, what does is accepted (C26).
module refuse {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import gensp.* from "./gensp"

  var c: Call
  action init = c' = NOCALL
  action emit(call: Call): bool = c' = call

  /// refused, or accepted with this answer
  pure def decide(ok: bool, op: str, ints: List[int], args: List[int], exp: List[Iv], tag: str): Call =
    if (ok) okCall(op, ints, args, exp, tag) else panicCall(op, ints, args, tag)

  // ---- spectra -------------------------------------------------------------------
  /// listed samples: at least two; 0 new, 1 collected samples, 2 collected pairs
  action listed = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(2).oneOf()
    nondet n = Set(0, 1, 1, 2, 3, 7).oneOf()
    val sp = if (n < 2) NOSP else {
      val st = pickStep(s, 2)
      mk(range(0, n).foldl([], (l, i) => l.append(f64(400 * ONE + i * st))), values(s, n), 0)
    }
    val args = if (n == 0) [] else if (n == 1) [pickNm(s, 1, 0, 900), f64(rndReal(s, 2, -ONE, ONE))] else flatSp(sp)
    emit(decide(n >= 2, "r_peek", [how, n], args, if (n < 2) [] else view(sp), if (n < 2) "fewer than two samples" else "samples"))
  }
  /// a shape of n wavelengths (its end may lie between two)
  pure def shapeOfN(s: int, n: int): Shape = {
    pure val st = pickStep(s, 10)
    pure val a = pickNm(s, 11, 0, 900)
    { start: a, end: f64(a + (n - 1) * st + (if (rnd(s, 12) % 2 == 0) (st * rndIn(s, 13, 1, 7)) / 8 else 0)), step: st }
  }
  /// a constant: at least two wavelengths, and an interval
  action constants = {
    nondet s = SEEDS.oneOf()
    nondet n = Set(1, 1, 2, 3, 20).oneOf()
    nondet varying = Set(true, false, false, false).oneOf()
    val h = shapeOfN(s, n)
    val x = f64(rndReal(s, 14, -ONE, ONE))
    if (not(clearGrid(h)) or gridSize(h) != n) emit(NOCALL)
    else if (varying) emit(panicCall("r_const", [-1], [h.start, h.end, 0, x], "shape without interval"))
    else emit(decide(n >= 2, "r_const", [-1], sh3(h).append(x), view(onGrid(h, range(0, n).foldl([], (l, i) => l.append(x)), 0)),
      if (n < 2) "fewer than two wavelengths" else "constant"))
  }
  /// as many values as wavelengths, at least two
  action counted = {
    nondet s = SEEDS.oneOf()
    nondet n = Set(1, 2, 3, 5, 9, 40).oneOf()
    nondet d = Set(-20, -2, -1, 0, 0, 0, 1, 2, 20).oneOf()
    nondet varying = Set(true, false, false, false, false, false).oneOf()
    val h = shapeOfN(s, n)
    val num = maxf(0, n + d)
    val v = range(0, num).foldl([], (l, i) => l.append(f64(rndReal(s, 20 + i, -ONE, ONE))))
    if (not(clearGrid(h)) or gridSize(h) != n) emit(NOCALL)
    else if (varying) emit(panicCall("r_vals", [-1, num], [h.start, h.end, 0].concat(v), "shape without interval"))
    else emit(decide(num == n and n >= 2, "r_vals", [-1, num], sh3(h).concat(v), if (num == n) view(onGrid(h, v, 0)) else [],
      if (num < 2) "fewer than two values" else if (num < n) "too few values" else if (num > n) "too many values" else "values"))
  }
  /// 0 interpolate, 1 extrapolate, 2 align, 3 trim with a shape that has no interval:
  /// only those that make new wavelengths need one
  action noInterval = {
    nondet s = SEEDS.oneOf()
    nondet k = 0.to(3).oneOf()
    val sp = pickSp(s, 16)
    val r = pickRange(s, sp, 30)
    val h = { start: f64(r._1), end: f64(r._2), step: 0 }
    val st = sp.sh.step
    val far = st != 0 and maxf(0, div(firstNm(sp) - h.start, st)) + maxf(0, div(h.end - lastNm(sp), st)) > 300 * ONE
    val out = if (k == 1 and st != 0 and not(far) and dyadic(st)) extrapolate(sp, h) else if (k == 3) trimTo(sp, h) else NOSP
    val args = flatSp(sp).concat(sh3(h))
    if (k == 0 or k == 2) emit(panicCall("sp_op", [k, samples(sp)], args, "no interval to sample at"))
    else if (k == 1 and st == 0) emit(panicCall("sp_op", [k, samples(sp)], args, "no interval to extrapolate at"))
    else if (samples(out) == 0) emit(NOCALL)
    else emit(okCall("sp_op", [k, samples(sp)], args, view(out), "interval not needed"))
  }
  /// a range without samples cannot be trimmed to
  action trimNothing = {
    nondet s = SEEDS.oneOf()
    nondet wide = Set(true, false).oneOf()
    val sp = pickSp(s, 16)
    val i = rndIn(s, 40, 0, samples(sp) - 2)
    val gap = sp.nm[i + 1] - sp.nm[i]
    val where = rnd(s, 41) % 3
    // below, above, or between two samples
    val a = if (where == 0) firstNm(sp) - rndIn(s, 42, 2, 300) * ONE else if (where == 1) lastNm(sp) + rndIn(s, 42, 1, 300) * ONE
      else sp.nm[i] + gap / 4
    val b = if (where == 2) sp.nm[i] + gap / 2 else a + ONE
    val h = { start: f64(a), end: f64(b), step: ONE }
    // or one that holds just one
    val one = { start: sp.nm[i] - gap / 64, end: sp.nm[i] + gap / 64, step: ONE }
    val h2 = if (wide) { start: f64(one.start), end: f64(one.end), step: ONE } else h
    val r = trimTo(sp, h2)
    val n = samples(sp)
    // no sample lies on the boundary up to rounding
    val clear1 = sp.nm.foldl(true, (t, w) => t and absf(w - h2.start) > E9 and absf(w - h2.end) > E9)
    if (not(clear1)) emit(NOCALL)
    else emit(decide(samples(r) > 0, "sp_op", [3, n], flatSp(sp).concat(sh3(h2)), if (samples(r) > 0) view(r) else [], if (samples(r) == 0) "nothing to keep" else "something to keep"))
  }
  /// luminance is defined for uniform samples
  action nitVarying = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 16)
    if (sp.sh.step != 0) emit(NOCALL)
    else emit(panicCall("nit", [samples(sp), 0, 0, 0], flatSp(sp), "luminance of uneven samples"))
  }
  // ---- colours and matrices ---------------------------------------------------------
  pure def someF(s: int, i: int, w: int): int = fw(rndReal(s, i, -4 * ONE, 4 * ONE), w)
  action index = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = 0.to(1).oneOf()
    nondet i = Set(0, 1, 2, 3, 4, 5, 8, 255, 256, 65536, 4294967296, 9223372036854775807).oneOf()
    nondet set1 = Set(true, false).oneOf()
    val a = tab(3, j => someF(s, j, w))
    val v = someF(s, 3, w)
    if (set1) emit(decide(i < 3, "col_set", [w, ty, i], a.append(v), tabIv(3, j => exactly(if (j == i) v else a[j])), if (i < 3) "in range" else "beyond the last component"))
    else emit(decide(i < 3, "col_index", [w, ty, i], a, if (i < 3) [exactly(a[i])] else [], if (i < 3) "in range" else "beyond the last component"))
  }
  action matrixIndex = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = Set(0, 1, 2, 3, 6, 1000).oneOf()
    nondet j = Set(0, 1, 2, 3, 6, 1000).oneOf()
    val a = tab(9, k => someF(s, k, w))
    val ok = i < 3 and j < 3
    emit(decide(ok, "mat_index", [w, i, j], a, if (ok) [exactly(at(a, i, j))] else [], if (ok) "in range" else "beyond the matrix"))
  }
  action cast = {
    nondet s = SEEDS.oneOf()
    nondet w = Set(32, 64, 8).oneOf()
    nondet len = 0.to(50).oneOf()
    val a = tab(len, j => if (w == 8) ONE * rndIn(s, j, 0, 255) else someF(s, j, w))
    emit(decide(len % 3 == 0, "cast_slice", [w], a, [exactly(ONE * (len / 3))].concat(tabIv(len, j => exactly(a[j]))), if (len % 3 == 0) "triples" else "not triples"))
  }
  /// a matrix with a zero row or column, or two equal rows, has no inverse.  Entries are chosen so
  /// that both methods are exact in whatever order they go: small whole numbers for the determinant,
  /// powers of two and a unit row for elimination
  action singular = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet which = 0.to(1).oneOf()
    nondet kind = 0.to(2).oneOf()
    val k = rndIn(s, 80, 0, 2)
    val k2 = (k + rndIn(s, 81, 1, 2)) % 3
    val b = tab(9, i => rndIn(s, 82 + i, -8, 8) * ONE)
    val p2 = tab(3, i => (if (rnd(s, 92 + i) % 2 == 0) 1 else -1) * shl(ONE, rndIn(s, 95 + i, -3, 4)))
    val unit = rndIn(s, 98, 0, 2)
    val m = if (kind == 0) mat(((i, j)) => if (j == k) 0 else at(b, i, j))
      else if (kind == 1) mat(((i, j)) => if (i == k) 0 else at(b, i, j))
      else if (which == 0) mat(((i, j)) => if (i == k) at(b, k2, j) else at(b, i, j))
      else mat(((i, j)) => if (i == k or i == k2) p2[j] else if (j == unit) p2[(j + 1) % 3] else 0)
    emit(okCall("mat_inv", [w, which], m, [exactly(0)], "no inverse"))
  }
  action temperature = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet how = 0.to(7).oneOf()
    val t = if (how == 0) fw(rndReal(s, 1, -30000 * ONE, 4000 * ONE), w) else if (how == 1) fw(rndLog(s, 1, 15, 100), w)
      else if (how == 2) (if (w == 64) 4000 * ONE - ONE / 2^41 else 4000 * ONE - ONE / 2^12)
      else if (how == 3) (if (w == 64) 25000 * ONE + ONE / 2^38 else 25000 * ONE + ONE / 2^9)
      else if (how == 4) SPINF else if (how == 5) SNINF else if (how == 6) 0 else fw(-rndLog(s, 1, 11, 15), w)
    emit(okCall("cct", [w], [t], [exactly(0)], "no daylight of this temperature"))
  }
  action step = any { listed, constants, counted, noInterval, noInterval, trimNothing, nitVarying, index, matrixIndex, cast, singular, temperature }

  /// a refusal never comes with an answer, an acceptance always does
  val wellFormed = (c.kind == "panic") implies c.exp.length() == 0
}
