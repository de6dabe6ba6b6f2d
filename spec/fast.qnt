// -*- mode: Bluespec; -*-
/// The fixed-shape spectrum (C18) and the planar SIMD conversion (C19).
module fast {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import tables.* from "./tables"
  import conv.* from "./conv"

  var c: Call
  action init = c' = NOCALL
  action emit(call: Call): bool = c' = call

  pure val N = 40
  pure val TEN: Shape = { start: 380 * ONE, end: 770 * ONE, step: 10 * ONE }
  /// the tristimulus values of unit samples under D65: weighting factors of the reference
  pure val REFW: List[List[int]] = range(0, N).foldl([], (l, i) =>
    l.append(toXyz(onGrid(TEN, range(0, N).foldl([], (k, j) => k.append(if (i == j) ONE else 0)), 0), WT[3])))
  pure val FASTW: List[List[int]] = [unpack(FAST0), unpack(FAST1), unpack(FAST2)]

  // ======================================================================= C18
  pure def vals32(s: int): List[int] = {
    pure val k = rnd(s, 1) % 6
    pure val p = rndIn(s, 2, 0, N - 1)
    pure val a = f32(rndReal(s, 3, ONE / 16, 4 * ONE))
    range(0, N).foldl([], (l, i) => l.append(
      if (k == 0) a
      else if (k == 1) (if (i == p) a else 0)
      else if (k == 2) f32(rndReal(s, 10 + i, -100 * ONE, 100 * ONE))
      else if (k == 3) f32(rndLog(s, 10 + i, -20, 20))
      // whole numbers, among them zero and one
      else if (k == 4) rndIn(s, 10 + i, -2, 2) * ONE
      else f32(rndReal(s, 10 + i, 0, ONE))))
  }
  /// reference value and room for single precision
  pure def fastIv(v: List[int]): List[Iv] = tabIv(3, k => {
    pure val t = range(0, N).foldl((0, 0), (st, i) => (st._1 + mul(v[i], REFW[i][k]), st._2 + mul(absf(v[i]), absf(REFW[i][k]))))
    within(t._1, mul(t._2, 24 * ulp(32)) + mul(maxAbs(v), E6 / 1000) + E12 / 10^12)
  })
  /// 0 default entry point (method), 1 free function, 2 scalar path, 3 AVX path
  action convert = {
    nondet s = SEEDS.oneOf()
    val v = vals32(s)
    val iv = fastIv(v)
    emit(okCall("fast_xyz", [], v, iv.concat(iv).concat(iv).concat(iv), "convert"))
  }
  /// the reference type on the same samples gives the same (double precision) value
  action reference = {
    nondet s = SEEDS.oneOf()
    val v = vals32(s)
    // fast minus reference
    val t = fastIv(v)
    emit(okCall("fast_ref", [], v, tabIv(3, k => within(0, t[k].hi - t[k].lo)), "against the reference type"))
  }
  action product2 = {
    nondet s = SEEDS.oneOf()
    nondet s2 = SEEDS.oneOf()
    val v = vals32(s)
    val w = vals32(s2)
    emit(okCall("fast_mul", [], v.concat(w), tabIv(N, i => rounded(mul(v[i], w[i]), 32)), "multiply"))
  }
  action constant = {
    nondet s = SEEDS.oneOf()
    val a = f32(rndReal(s, 3, -4 * ONE, 4 * ONE))
    val iv = fastIv(range(0, N).foldl([], (l, i) => l.append(a)))
    emit(okCall("fast_const", [], [a], tabIv(N, i => exactly(a)).concat(iv), "constant"))
  }
  /// new, iter, iter_mut (adds its index + 1 to every sample), clone: all 40, in order
  action iterate = {
    nondet s = SEEDS.oneOf()
    val v = range(0, N).foldl([], (l, i) => l.append(rndIn(s, 10 + i, -1000, 1000) * (ONE / 16)))
    emit(okCall("fast_iter", [], v, tabIv(N, i => exactly(v[i])).concat(tabIv(N, i => exactly(v[i] + (i + 1) * ONE))), "iterate"))
  }
  /// equality sees every sample
  action compare = {
    nondet s = SEEDS.oneOf()
    nondet p = 0.to(N - 1).oneOf()
    nondet same = Set(true, false).oneOf()
    // also spectra that are small as a whole
    val e = if (rnd(s, 9) % 2 == 0) 0 else -rndIn(s, 4, 1, 60)
    val v = range(0, N).foldl([], (l, i) => l.append(shl(rndIn(s, 10 + i, -64, 64) * (ONE / 16), e)))
    val how = rnd(s, 5) % 7
    val p2 = rndIn(s, 6, 0, N - 1)
    val d = shl(rndIn(s, 7, 1, 16) * (ONE / 16), e)
    // one sample differs (by much or by a little), two differ by opposite amounts, two are exchanged, one changes sign
    val w = if (same) v
      else if (how == 0) v.replaceAt(p, v[p] + d)
      else if (how == 1) v.replaceAt(p, f32(v[p] + shl(rndLog(s, 8, -12, -6), e)))
      else if (how == 2) v.replaceAt(p, v[p] + d).replaceAt(p2, (if (p2 == p) v[p] + d else v[p2]) - d)
      else if (how == 3) v.replaceAt(p, v[p2]).replaceAt(p2, v[p])
      else if (how == 4) v.replaceAt(p, -v[p])
      // by one unit in the last place
      else if (how == 5 and v[p] != 0) v.replaceAt(p, v[p] + (if (rnd(s, 3) % 2 == 0) 1 else -1) * (2^(ilog2(absf(v[p]))) / 2^23))
      // something small instead of nothing
      else v.replaceAt(p, if (v[p] == 0) shl(f32(rndLog(s, 8, -40, -1)), e) else 0)
    val q = v == w
    // zero is zero whatever its sign
    val k = rnd(s, 20) % 4
    if (k == 0) {
      val a = range(0, N).foldl([], (l, i) => l.append(if (v[i] == 0 or rnd(s, 100 + i) % 5 == 0) (if (rnd(s, 200 + i) % 2 == 0) SNZERO else 0) else v[i]))
      val b = range(0, N).foldl([], (l, i) => l.append(if (a[i] == 0 or a[i] == SNZERO) (if (rnd(s, 300 + i) % 2 == 0) SNZERO else 0) else v[i]))
      emit(okCall("fast_eq", [], a.concat(b), [exactly(ONE), exactly(ONE)], "zeros of either sign"))
    }
    else emit(okCall("fast_eq", [], v.concat(w), [exactly(if (q) ONE else 0), exactly(if (q) ONE else 0)], if (q) "equal" else "different"))
  }
  action stepC18 = any { convert, convert, convert, reference, product2, constant, iterate, compare }
  /// the published fast weights are the reference's weights to single precision
  val specWeights = c.op == "fast_const" implies
    0.to(N - 1).forall(i => 0.to(2).forall(k => absf(FASTW[k][i] - REFW[i][k]) <= E6 / 2000 + mul(absf(REFW[i][k]), 2 * ulp(32))))

  // ======================================================================= C19
  /// planes of any length; 0 scalar, 1 SSE2, 2 SSE4.1, 3 AVX2
  pure def coord(s: int, i: int): int = if (rnd(s, 6000 + i) % 12 == 0) 0 else if (rnd(s, 6000 + i) % 12 == 1) f32(rndLog(s, 100 + i, -12, 12)) else f32(if (rnd(s, 5000) % 4 == 0) rndReal(s, 100 + i, -200 * ONE, 200 * ONE) else rndReal(s, 100 + i, 0, 100 * ONE))
  action planes = {
    nondet s = SEEDS.oneOf()
    nondet lanes = 0.to(3).oneOf()
    val n = if (rnd(s, 1) % 2 == 0) rndIn(s, 2, 0, 17) else rndIn(s, 2, 0, 70)
    val m = range(0, 9).foldl([], (l, k) => l.append(f32(rndReal(s, 10 + k, -3 * ONE, 3 * ONE))))
    val x = range(0, 3 * n).foldl([], (l, i) => l.append(coord(s, i)))
    val r = range(0, n).foldl([], (l, i) => l.append(mvecWide(m, [x[i], x[n + i], x[2 * n + i]])))
    val iv = range(0, 3).foldl([], (l, k) => l.concat(range(0, n).foldl([], (q, i) => q.append(r[i][k]))))
    // lengths of the three planes, then r, g, b
    emit(okCall("planes", [lanes, n, n, n], m.concat(x), tabIv(3, k => exactly(n * ONE)).concat(iv),
      if (n == 0) "empty" else if (n < 8) "shorter than a vector" else if (n % 8 == 0) "whole vectors" else "with remainder"))
  }
  /// one hundredth of the tristimulus value, through the matrix, in single precision
  pure def mvecWide(m: List[int], v: List[int]): List[Iv] = {
    pure val pv = mvec(m, v)
    pure val pq = mvec(mabs(m), mabs(v))
    tabIv(3, i => within(pv[i] / 100, (8 * mul(pq[i], ulp(32))) / 100 + E12 / 10^12))
  }
  /// the same as converting every colour alone
  action planesScalar = {
    nondet s = SEEDS.oneOf()
    nondet lanes = 0.to(3).oneOf()
    nondet k = 0.to(5).oneOf()
    val n = rndIn(s, 2, 1, 40)
    val x = range(0, 3 * n).foldl([], (l, i) => l.append(coord(s, i)))
    val t = 64 * mul(5 * maxAbs(x), ulp(32)) / 100
    emit(okCall("planes_alone", [lanes, n, k], x, tabIv(3 * n, i => within(0, t)), "against the scalar conversion"))
  }
  /// long planes: colour j is number j % period of a few; the answer gives the lengths and, for
  /// every colour and channel, the least and the greatest value
  action planesLong = {
    nondet s = SEEDS.oneOf()
    nondet lanes = 0.to(3).oneOf()
    val n = if (rnd(s, 1) % 2 == 0) rndIn(s, 2, 60, 600) else if (rnd(s, 1) % 4 == 1) rndIn(s, 2, 500, 9000) else rndIn(s, 2, 9000, 140000)
    val period = rndIn(s, 3, 2, 7)
    val m = range(0, 9).foldl([], (l, k) => l.append(f32(rndReal(s, 10 + k, -3 * ONE, 3 * ONE))))
    val x = range(0, 3 * period).foldl([], (l, i) => l.append(coord(s, i)))
    val r = range(0, period).foldl([], (l, i) => l.concat(mvecWide(m, [x[3 * i], x[3 * i + 1], x[3 * i + 2]])))
    emit(okCall("planes_long", [lanes, n, period], m.concat(x),
      tabIv(3, k => exactly(n * ONE)).concat(tabIv(6 * period, i => r[i / 2])), "long"))
  }
  /// planes that do not fit together are refused
  action misfit = {
    nondet s = SEEDS.oneOf()
    nondet lanes = 0.to(3).oneOf()
    nondet which = 0.to(2).oneOf()
    val n = rndIn(s, 2, 1, 40)
    val d = if (rnd(s, 3) % 2 == 0) rndIn(s, 4, 0, n - 1) else n + rndIn(s, 4, 1, 20)
    val a = if (which == 0) d else n
    val b = if (which == 1) d else n
    val e = if (which == 2) d else n
    emit(panicCall("planes", [lanes, a, b, e], range(0, 9 + a + b + e).foldl([], (l, i) => l.append(ONE)), "planes of different lengths"))
  }
  action stepC19 = any { planes, planes, planes, planesLong, planesScalar, misfit }
}
