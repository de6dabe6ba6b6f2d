// -*- mode: Bluespec; -*-
/// Arithmetic on tristimulus values (property C24).
module arith {
  import fix.* from "./fix"
  import common.* from "./common"

  var c: Call
  var n: int

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  // type of colour: 0 RGB, 1 XYZ
  pure val TYPES = Set(0, 1)

  pure def pick(s: int, i0: int, w: int): int = {
    // sometimes neighbouring components, or the components of two colours, coincide
    pure val al = rnd(s, 990) % 8
    pure val i = if (al == 0) 3 * (i0 / 3) else if (al == 1 and i0 >= 3) i0 - 3
      else if (al == 2 and i0 > 0 and rnd(s, 991 + i0) % 2 == 0) i0 - 1 else i0
    pure val cls = rndIn(s, 6 * i, 0, 7)
    pure val sg = if (rnd(s, 6 * i + 1) % 2 == 0) 1 else -1
    if (cls == 0) sg * rndIn(s, 6 * i + 2, 0, 9) * ONE
    else if (cls == 1) 0
    else if (cls == 2) fw(sg * (if (rnd(s, 6 * i + 3) % 2 == 0) rndLog(s, 6 * i + 2, -20, 20) else rndLog(s, 6 * i + 2, -58, 60)), w)
    else if (cls == 3) sg * ONE
    else if (cls == 4) fw(-rndReal(s, 6 * i + 2, 0, 100 * ONE), w)
    else fw(sg * rndReal(s, 6 * i + 2, 0, 4 * ONE), w)
  }
  pure def nz(x: int): int = if (x == 0) ONE else x
  pure def b2f(b: bool): int = if (b) ONE else 0

  // ---- operators on two colours: 0 add, 1 sub, 2 mul, 3 div, 4 add_assign ----
  pure def bin(k: int, a: int, b: int): int =
    if (k == 0 or k == 4) a + b else if (k == 1) a - b else if (k == 2) mul(a, b) else div(a, b)
  action binary = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(4).oneOf()
    val a = tab(3, i => pick(s, i, w))
    val b = tab(3, i => if (k == 3) nz(pick(s, 3 + i, w)) else pick(s, 3 + i, w))
    emit(okCall("col_bin", [w, ty, k], a.concat(b), tabIv(3, i => rounded(bin(k, a[i], b[i]), w)), "binary"))
  }
  // ---- with a scalar on the right: 0 add, 1 sub, 2 mul, 3 div ----------------
  action scalarRight = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(3).oneOf()
    val a = tab(3, i => pick(s, i, w))
    val b = if (k == 3) nz(pick(s, 3, w)) else pick(s, 3, w)
    emit(okCall("col_scalar", [w, ty, k], a.append(b), tabIv(3, i => rounded(bin(k, a[i], b), w)), "scalar"))
  }
  // ---- scalar on the left (single-precision RGB only) ------------------------
  action scalarLeft = {
    nondet s = SEEDS.oneOf()
    nondet k = 0.to(3).oneOf()
    val a = tab(3, i => if (k == 3) nz(pick(s, i, 32)) else pick(s, i, 32))
    val b = pick(s, 3, 32)
    emit(okCall("scalar_col", [32, 0, k], a.append(b), tabIv(3, i => rounded(bin(k, b, a[i]), 32)), "scalar"))
  }
  // ---- unary: 0 neg, 1 abs ----------------------------------------------------
  action unary = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(1).oneOf()
    val a = tab(3, i => pick(s, i, w))
    emit(okCall("col_un", [w, ty, k], a, tabIv(3, i => exactly(if (k == 0) -a[i] else absf(a[i]))), "unary"))
  }
  action power = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val a = tab(3, i => minf(absf(pick(s, i, w)), 2^30 * ONE))
    val p = fw(rndReal(s, 9, ONE / 4, 3 * ONE), w)
    emit(okCall("rgb_powf", [w], a.append(p),
      tabIv(3, i => near(powf(a[i], p), (if (w == 64) 100 else 64) * ulp(w), if (w == 64) E12 / 10^6 else E12)), "power"))
  }
  /// a whole exponent is defined for negative bases too
  action wholePower = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(5).oneOf()
    val a = tab(3, i => {
      val x = pick(s, i, w)
      if (absf(x) > 2^20 * ONE or absf(x) < ONE / 2^20) (if (rnd(s, 60 + i) % 2 == 0) ONE else -2 * ONE) else x
    })
    def raised(x: int): int = if (k == 5) div(ONE, x) else powi(x, k)
    emit(okCall("rgb_powf", [w], a.append(if (k == 5) -ONE else k * ONE),
      tabIv(3, i => near(raised(a[i]), (if (w == 64) 100 else 64) * ulp(w), 2^10)), "whole power"))
  }
  action clampAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val a = tab(3, i => pick(s, i, w))
    val p = pick(s, 3, w)
    val q = if (rnd(s, 77) % 3 == 0) ONE else pick(s, 4, w)
    val lo = minf(p, q)
    val hi = maxf(p, q)
    val inf = rndIn(s, 78, 0, 11)
    val b = tab(3, i => if (i == inf) SPINF else if (i + 3 == inf) SNINF else a[i])
    emit(okCall("clamprgb", [w], b.concat([lo, hi]), tabIv(3, i => exactly(clampf(b[i], lo, hi))), "clamp"))
  }
  pure def max3(a: List[int]): int = maxf(a[0], maxf(a[1], a[2]))
  action hmaxAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val a = tab(3, i => pick(s, i, w))
    emit(okCall("hmax", [w], a, [exactly(max3(a))], "hmax"))
  }
  action normalizeAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val a0 = tab(3, i => pick(s, i, w))
    val a = if (max3(a0) == 0) [a0[0], a0[1], ONE] else a0
    emit(okCall("normalize", [w], a, tabIv(3, i => ulps(div(a[i], max3(a)), 2, w)), "normalize"))
  }
  /// sum of a list of colours (RGB both precisions, XYZ single)
  action sumAct = {
    nondet s = SEEDS.oneOf()
    nondet v = Set([32, 0], [64, 0], [32, 1]).oneOf()
    nondet len = 0.to(9).oneOf()
    val a = tab(3 * len, i => pick(s, i, v[0]))
    def comp(j: int): List[int] = tab(len, i => a[3 * i + j])
    emit(okCall("col_sum", v.append(len), a, tabIv(3, j => {
      val l = comp(j)
      within(sumf(l), (len + 1) * mul(sumf(mapl(l, x => absf(x))), ulp(v[0])) + 2^20)
    }), "sum"))
  }
  /// reading component i: refused above two
  action indexAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet i = Set(0, 1, 2, 0, 1, 2, 3, 4, 7, 1000000).oneOf()
    val a = tab(3, j => pick(s, j, w))
    if (i > 2) emit(panicCall("col_index", [w, ty, i], a, "out of range"))
    else emit(okCall("col_index", [w, ty, i], a, [exactly(a[i])], "in range"))
  }
  /// writing component i changes that component only
  action indexMutAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet i = Set(0, 1, 2, 3, 5).oneOf()
    val a = tab(3, j => pick(s, j, w))
    val v = pick(s, 3, w)
    if (i > 2) emit(panicCall("col_set", [w, ty, i], a.append(v), "out of range"))
    else emit(okCall("col_set", [w, ty, i], a.append(v), tabIv(3, j => exactly(if (j == i) v else a[j])), "in range"))
  }
  /// flat array -> pixels; kind 0 RGBf, 1 RGBu8
  action castSlice = {
    nondet s = SEEDS.oneOf()
    nondet w = Set(32, 64, 8).oneOf()
    nondet len = 0.to(14).oneOf()
    val a = tab(len, j => if (w == 8) ONE * rndIn(s, j, 0, 255) else pick(s, j, w))
    if (len % 3 != 0) emit(panicCall("cast_slice", [w], a, "not triples"))
    else emit(okCall("cast_slice", [w], a, [exactly(ONE * (len / 3))].concat(tabIv(len, j => exactly(a[j]))), "triples"))
  }
  /// long slices: element j is number j % period of a few; the answer gives the number of
  /// pixels and, for every (element, channel) class, the least and the greatest value
  action castLong = {
    nondet s = SEEDS.oneOf()
    nondet w = Set(32, 64, 8).oneOf()
    val period = rndIn(s, 800, 1, 5)
    val len = if (rnd(s, 801) % 2 == 0) rndIn(s, 802, 15, 300) else if (rnd(s, 801) % 4 == 1) rndIn(s, 802, 300, 20000) else rndIn(s, 802, 20000, 420000)
    val a = tab(3 * period, j => if (w == 8) ONE * rndIn(s, j, 0, 255) else pick(s, j, w))
    if (len % 3 != 0) emit(panicCall("cast_long", [w, len, period], a, "not triples"))
    else emit(okCall("cast_long", [w, len, period], a, [exactly(ONE * (len / 3))].concat(tabIv(6 * period, j => exactly(a[j / 2]))), "triples"))
  }
  /// sum of many colours
  action sumLong = {
    nondet s = SEEDS.oneOf()
    nondet v = Set([32, 0], [64, 0], [32, 1]).oneOf()
    val period = rndIn(s, 800, 1, 5)
    val nrep = rndIn(s, 801, 2, 200)
    val a = tab(3 * period, i => pick(s, i, v[0]))
    emit(okCall("col_sum_long", v.concat([period, nrep]), a, tabIv(3, j => {
      val tot = range(0, period).foldl((0, 0), (st, q) => (st._1 + a[3 * q + j], st._2 + absf(a[3 * q + j])))
      within(nrep * tot._1, (period * nrep + 1) * mul(nrep * tot._2, ulp(v[0])) + 2^20)
    }), "long sum"))
  }
  /// double -> single: component-wise nearest single
  action narrow = {
    nondet s = SEEDS.oneOf()
    nondet ty = TYPES.oneOf()
    val a = tab(3, i => pick(s, i, 64))
    emit(okCall("col_narrow", [ty], a, tabIv(3, i => rounded(a[i], 32)), "narrow"))
  }
  /// equality and order (lexicographic, as derived) of two colours
  pure def lexCmp(a: List[int], b: List[int]): int =
    if (a[0] != b[0]) (if (a[0] < b[0]) -1 else 1)
    else if (a[1] != b[1]) (if (a[1] < b[1]) -1 else 1)
    else if (a[2] != b[2]) (if (a[2] < b[2]) -1 else 1) else 0
  action compare = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(3).oneOf()
    val a = tab(3, i => pick(s, i, w))
    val b0 = tab(3, i => if (rnd(s, 50 + i) % 2 == 0) a[i] else pick(s, 3 + i, w))
    val b = if (k == 3) b0 else tab(3, i => if (i == k) pick(s, 9, w) else a[i])
    val o = lexCmp(a, b)
    emit(okCall("col_cmp", [w, ty], a.concat(b), [exactly(b2f(o == 0)), exactly(o * ONE)],
      if (o == 0) "equal" else "different"))
  }
  /// approximate comparison with an absolute margin: true iff every component is within it
  action approx = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(4).oneOf()
    val a = tab(3, i => rndIn(s, i, 1, 8) * ONE)
    val eps = ONE / 2^(rndIn(s, 5, 4, 12))
    // in at most one component the two differ by more than the margin
    val b = tab(3, i => a[i] + (if (i == k) 2 * eps else if (rnd(s, 20 + i) % 2 == 0) eps / 2 else 0))
    emit(okCall("col_approx", [w, ty], a.concat(b).append(eps), [exactly(b2f(k > 2))], if (k > 2) "within" else "outside"))
  }
  // float_cmp also accepts values a given number of representable steps apart
  action approxUlps = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(4).oneOf()
    nondet u = 2.to(20).oneOf()
    val a = tab(3, i => 2^(rndIn(s, i, 0, 6)) * ONE)
    val b = tab(3, i => a[i] + mul(a[i], ulp(w)) * (if (i == k) u + 1 else rndIn(s, 10 + i, 0, u - 1)))
    emit(okCall("col_approx_ulps", [w, ty, u], a.concat(b), [exactly(b2f(k > 2))], if (k > 2) "within" else "outside"))
  }
  /// constants: 0 zero, 1 one, 2 min, 3 max, 4 from_scalar, 5 new, 6 default
  pure def maxVal(w: int): int = if (w == 64) (2^53 - 1) * 2^(971 + 128) else (2^24 - 1) * 2^(104 + 128)
  action constants = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(7).oneOf()
    val a = tab(3, i => pick(s, i, w))
    val want = if (k == 0 or k == 6) [0, 0, 0] else if (k == 1) [ONE, ONE, ONE]
      else if (k == 2) [-maxVal(w), -maxVal(w), -maxVal(w)] else if (k == 3) [maxVal(w), maxVal(w), maxVal(w)]
      else if (k == 4) [a[0], a[0], a[0]] else a
    emit(okCall("col_const", [w, ty, k], a, tabIv(3, i => exactly(want[i])), "constant"))
  }
  action isZero = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    val a = tab(3, i => if (rnd(s, 30 + i) % 3 != 0) (if (rnd(s, 40 + i) % 4 == 0) SNZERO else 0) else pick(s, i, w))
    val z = range(0, 3).foldl(true, (t, i) => t and (a[i] == 0 or a[i] == SNZERO))
    emit(okCall("col_is_zero", [w, ty], a, [exactly(b2f(z))], if (z) "zero" else "nonzero"))
  }
  /// textual form "(a, b, c)" in component order
  action display = {
    nondet s = SEEDS.oneOf()
    nondet w = Set(32, 64, 8, 16).oneOf()
    nondet ty = TYPES.oneOf()
    val a = tab(3, i => if (w == 8) ONE * rndIn(s, i, 0, 255) else if (w == 16) ONE * rndIn(s, i, 0, 65535) else pick(s, i, w))
    emit(okCall("col_display", [w, ty], a, tabIv(3, i => exactly(a[i])), "display"))
  }
  /// one component infinite or not a number: the others are what they would be
  pure def isOf(z: int): Iv = { lo: z, hi: z }
  action special = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet k = 0.to(3).oneOf()
    nondet how = 0.to(3).oneOf()
    nondet i = 0.to(2).oneOf()
    nondet z = Set(SNAN, SPINF, SNINF).oneOf()
    val a0 = tab(3, j => pick(s, j, w))
    val a = a0.replaceAt(i, z)
    // the other operand is positive and finite
    val b = tab(3, j => maxf(ONE / 16, absf(pick(s, 3 + j, w))))
    val flip = if (z == SNAN) z else if (how == 2 and k % 2 == 1) SPINF else if (how == 2) -z else z
    if (how == 0) emit(okCall("col_bin", [w, ty, k], a.concat(b), tabIv(3, j => if (j == i) isOf(z) else rounded(bin(k, a0[j], b[j]), w)), "special"))
    else if (how == 1) emit(okCall("col_scalar", [w, ty, k], a.append(b[0]), tabIv(3, j => if (j == i) isOf(z) else rounded(bin(k, a0[j], b[0]), w)), "special"))
    else if (how == 2) emit(okCall("col_un", [w, ty, k % 2], a, tabIv(3, j => if (j == i) isOf(flip) else exactly(if (k % 2 == 0) -a0[j] else absf(a0[j]))), "special"))
    else emit(okCall("col_narrow", [ty], a, tabIv(3, j => if (j == i) isOf(z) else rounded(a0[j], 32)), "special"))
  }
  /// what is not a number equals nothing and is ordered against nothing
  action unordered = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = TYPES.oneOf()
    nondet i = 0.to(2).oneOf()
    nondet which = 0.to(2).oneOf()
    nondet margin = Set(true, false).oneOf()
    val a = tab(3, j => pick(s, j, w))
    // in the left, the right or both
    val l = if (which == 1) a else a.replaceAt(i, SNAN)
    val r = if (which == 0) a else a.replaceAt(i, SNAN)
    // (float_cmp counts a NaN as close to itself)
    if (margin and which < 2) emit(okCall("col_approx", [w, ty], l.concat(r).append(ONE / 4), [exactly(0)], "not a number"))
    else emit(okCall("col_cmp", [w, ty], l.concat(r), [exactly(0), exactly(99 * ONE)], "not a number"))
  }
  // ---- scalar helpers ---------------------------------------------------------
  action lerpAct = {
    nondet s = SEEDS.oneOf()
    val a = pick(s, 0, 32)
    val b = pick(s, 1, 32)
    val t = if (rnd(s, 9) % 4 == 0) 0 else if (rnd(s, 9) % 4 == 1) ONE else fw(rndReal(s, 8, 0, ONE), 32)
    emit(okCall("lerp", [], [a, b, t],
      [within(mul(ONE - t, a) + mul(t, b), 4 * mul(absf(a) + absf(b), ulp(32)) + 2^20)], "lerp"))
  }
  /// 0 sqrt 1 sqr 2 abs 3 sin 4 cos 5 atan2 6 exp 7 pow 8 hypot 9 powi(3) 10 tan 11 asin 12 acos
  action mathAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(12).oneOf()
    val sg = if (rnd(s, 3) % 2 == 0) 1 else -1
    val p = fw(rndReal(s, 0, ONE / 100, 3 * ONE), w)
    val q = fw(sg * rndReal(s, 1, ONE / 100, 3 * ONE), w)
    val u = fw(sg * rndReal(s, 1, 0, rat(9, 10)), w)
    val x = if (k == 0 or k == 7) p else if (k == 10) fw(q / 3, w) else if (k == 11 or k == 12) u else q
    val v = if (k == 0) sqrtf(x) else if (k == 1) sq(x) else if (k == 2) absf(x) else if (k == 3) sinf(x)
      else if (k == 4) cosf(x) else if (k == 5) atan2f(x, p) else if (k == 6) expf(x) else if (k == 7) powf(x, q)
      else if (k == 8) sqrtf(sq(x) + sq(p)) else if (k == 9) cube(x) else if (k == 10) div(sinf(x), cosf(x))
      else if (k == 11) atan2f(x, sqrtf(ONE - sq(x))) else atan2f(sqrtf(ONE - sq(x)), x)
    emit(okCall("math", [w, k], [x, if (k == 7) q else p], [near(v, 16 * ulp(w), 16 * ulp(w))], "math"))
  }
  action step = any { binary, binary, scalarRight, scalarLeft, unary, power, wholePower, clampAct, hmaxAct, normalizeAct, sumAct,
    indexAct, indexMutAct, castSlice, castLong, sumLong, narrow, compare, approx, approxUlps, constants, isZero, display, special, unordered, lerpAct, mathAct }

  /// the answers the specification asks for are those of an algebra
  val algebra = (c.op == "col_bin" and c.tag != "special") implies {
    val k = c.ints[2]
    c.exp.indices().forall(i => {
      val a = c.fs[i]
      val b = c.fs[3 + i]
      (k == 0 implies inIv(c.exp[i], b + a)) and (k == 1 implies inIv(c.exp[i], -(b - a)))
        and (k == 2 implies inIv(c.exp[i], mul(b, a)))
    })
  }
  val normalizeMax = c.op == "normalize" implies c.exp.indices().exists(i => inIv(c.exp[i], ONE))
  val clampInside = c.op == "clamprgb" implies c.exp.indices().forall(i => c.exp[i].lo >= c.fs[3] and c.exp[i].hi <= c.fs[4])
  val castPanics = c.op == "cast_slice" implies ((c.kind == "panic") == (c.fs.length() % 3 != 0))
}
