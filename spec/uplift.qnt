// -*- mode: Bluespec; -*-
/// Spectral uplifting (C20) and daylight whites (C21).
module uplift {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import tables.* from "./tables"
  import conv.* from "./conv"
  import gamuts.* from "./gamuts"

  var c: Call
  var n: int
  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  // ======================================================================= C20
  pure val BASIS: List[Sp] = [tableSp(MYR), tableSp(MYG), tableSp(MYB)]
  pure val NB = 81
  pure def lifted(rgb: List[int]): Sp = {
    nm: BASIS[0].nm, sh: BASIS[0].sh, nt: 0, st: 0,
    v: range(0, NB).foldl([], (l, i) => l.append(mul(BASIS[0].v[i], rgb[0]) + mul(BASIS[1].v[i], rgb[1]) + mul(BASIS[2].v[i], rgb[2]))),
    vt: 8 * mul(maxAbs(rgb), ulp(64)) + 2,
  }
  /// a reflectance for a colour of the unit cube is between zero and (almost) one
  pure def clampUnit(i: Iv): Iv = { lo: maxf(i.lo, -E12), hi: minf(i.hi, ONE + rat(1, 1000)) }
  pure def pickRgb(s: int): List[int] = {
    pure val k = rnd(s, 1) % 14
    if (k == 0) [0, 0, 0]
    // grey, dark, bright, two channels equal, tiny negative, 8-bit codes
    else if (k == 8) { pure val g8 = f64(rndReal(s, 10, 0, ONE)) [g8, g8, g8] }
    else if (k == 9) tab(3, i => f64(rndLog(s, 10 + i, -30, -3)))
    else if (k == 10) tab(3, i => f64(rndLog(s, 10 + i, 0, 10)))
    else if (k == 11) { pure val p11 = rnd(s, 2) % 3 tab(3, i => f64(rndReal(s, if (i == p11) 10 else 11, 0, ONE))) }
    else if (k == 12) tab(3, i => f64((if (rnd(s, 20 + i) % 2 == 0) 1 else -1) * rndLog(s, 10 + i, -12, 1)))
    else if (k == 13) tab(3, i => f64(rat(rndIn(s, 10 + i, 0, 255), 255)))
    else if (k == 1) [ONE, ONE, ONE]
    else if (k == 2) { pure val p = rnd(s, 2) % 3 tab(3, i => if (i == p) ONE else 0) }
    else if (k == 3) tab(3, i => f64(rndReal(s, 10 + i, -2 * ONE, 4 * ONE)))
    else if (k == 4) tab(3, i => if (rnd(s, 10 + i) % 2 == 0) ONE else 0)
    else tab(3, i => f64(rndReal(s, 10 + i, 0, ONE)))
  }
  pure def unit(rgb: List[int]): bool = rgb.foldl(true, (t, x) => t and x >= 0 and x <= ONE)
  pure def kindOf(rgb: List[int]): str =
    if (rgb == [0, 0, 0]) "black" else if (rgb == [ONE, ONE, ONE]) "white" else if (unit(rgb)) "in the unit cube" else "outside the unit cube"
  action lift = {
    nondet s = SEEDS.oneOf()
    val rgb = pickRgb(s)
    val m = lifted(rgb)
    val t = view(m)
    // values follow the nine shape entries, wavelength and value in turn
    val e = if (unit(rgb)) range(0, NB).foldl(t, (l, i) => l.replaceAt(10 + 2 * i, clampUnit(l[10 + 2 * i]))) else t
    emit(okCall("uplift", [], rgb, e, kindOf(rgb)))
  }
  /// the colour of the uplifted spectrum under D65, through the published sRGB matrix
  pure val BACK: List[List[int]] = [toXyz(BASIS[0], WT[3]), toXyz(BASIS[1], WT[3]), toXyz(BASIS[2], WT[3])]
  pure def backXyz(rgb: List[int]): List[int] =
    tab(3, i => mul(BACK[0][i], rgb[0]) + mul(BACK[1][i], rgb[1]) + mul(BACK[2][i], rgb[2]))
  pure def backRgb(rgb: List[int]): List[int] = mapl(mvec(SRGB_TO_RGB, backXyz(rgb)), x => x / 100)
  action back = {
    nondet s = SEEDS.oneOf()
    val rgb = pickRgb(s)
    val m = lifted(rgb)
    val xt = xyzTol(sizeOf(m), evalTol(m), WT[3], 5)
    val r = backRgb(rgb)
    val x = backXyz(rgb)
    emit(okCall("uplift_back", [], rgb, tabIv(3, i => within(x[i], xt[i] + E12)).concat(tabIv(3, i => within(r[i], 6 * maxAbs(xt) / 100 + E12))), kindOf(rgb)))
  }
  /// spectrum(a p + b q) - a spectrum(p) - b spectrum(q)
  action mix = {
    nondet s = SEEDS.oneOf()
    nondet s2 = SEEDS.oneOf()
    val p = pickRgb(s)
    val q = pickRgb(s2)
    val a = f64(rndReal(s, 30, -2 * ONE, 2 * ONE))
    val b = f64(rndReal(s, 31, -2 * ONE, 2 * ONE))
    val t = 64 * mul(maxAbs(p) + maxAbs(q), ulp(64)) + 2
    emit(okCall("uplift_mix", [], p.concat(q).concat([a, b]), tabIv(NB, i => within(0, t)), "linear"))
  }
  action stepC20 = any { lift, lift, back, back, mix }
  /// the uplifted spectrum has the colour it was made from
  val specBack = c.op == "uplift_back" implies {
    val r = backRgb(c.fs)
    0.to(2).forall(i => absf(r[i] - c.fs[i]) <= mul(rat(5, 1000), maxf(ONE, maxAbs(c.fs))))
  }
  val specUnit = (c.op == "uplift" and unit(c.fs)) implies
    lifted(c.fs).v.foldl(true, (t, x) => t and x >= 0 and x <= ONE + rat(1, 1000))

  // ======================================================================= C21
  pure def locus(t: int): List[int] = {
    pure val u = div(ONE, t)
    pure val x = if (t <= 7000 * ONE)
        -(4607000000 * cube2(t)) + 2967800 * sq2(t) + mul(rat(9911, 100), u) + rat(244063, 1000000)
      else
        -(2006400000 * cube2(t)) + 1901800 * sq2(t) + mul(rat(24748, 100), u) + rat(237040, 1000000)
    [x, -3 * sq(x) + mul(rat(2870, 1000), x) - rat(275, 1000)]
  }
  /// 1 / t^2 and 1 / t^3 without losing digits
  pure def sq2(t: int): int = (ONE * ONE * ONE) / (t * t)
  pure def cube2(t: int): int = (ONE * ONE * ONE * ONE) / (t * t * t)
  pure def inRange(t: int): bool = t >= 4000 * ONE and t <= 25000 * ONE
  /// accepted?, x, y, Y
  pure def cctExp(t: int, w: int): List[Iv] =
    if (not(inRange(t))) [exactly(0)]
    else {
      pure val l = locus(t)
      [exactly(ONE), within(l[0], 6 * ulp(w)), within(l[1], 16 * ulp(w)), exactly(ONE)]
    }
  pure def step1(t: int, w: int, up: bool): int = {
    pure val d = mul(2^(ilog2(t)), ulp(w))
    if (up) t + d else t - d
  }
  pure val EDGES = [4000, 25000, 7000]
  action temperature = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val k = rnd(s, 1) % 12
    val e = EDGES[rndIn(s, 2, 0, 2)] * ONE
    val t = if (k == 0) e
      else if (k == 1) step1(e, w, rnd(s, 3) % 2 == 0)
      else if (k == 2) fw(e + rndReal(s, 4, -50 * ONE, 50 * ONE), w)
      else if (k == 3) fw(rndReal(s, 4, -30000 * ONE, 4000 * ONE), w)
      else if (k == 4) fw(rndReal(s, 4, 25000 * ONE, 10^9 * ONE), w)
      else if (k == 10) rndIn(s, 4, 30, 260) * 100 * ONE
      else if (k == 11) rndIn(s, 4, 3990, 25010) * ONE
      else if (k <= 6) fw(rndReal(s, 4, 4000 * ONE, 7000 * ONE), w)
      else fw(rndReal(s, 4, 7000 * ONE, 25000 * ONE), w)
    emit(okCall("cct", [w], [t], cctExp(t, w),
      if (t < 4000 * ONE) "below" else if (t > 25000 * ONE) "above" else if (t <= 7000 * ONE) "lower formula" else "upper formula"))
  }
  /// not a colour temperature
  action extreme = {
    nondet w = WIDTHS.oneOf()
    nondet t = Set(0, SPINF, SNINF, SNZERO, -ONE, ONE, 2^100 * ONE, -(2^100) * ONE).oneOf()
    emit(okCall("cct", [w], [t], [exactly(0)], "not a temperature"))
  }
  /// whites as tabulated: D50, D55, D60, D65 with their temperatures on today's scale
  pure val NOMINAL = [5000, 5500, 6000, 6500]
  pure def nominal(k: int): int = f64((NOMINAL[k] * 14388 * ONE) / 14380)
  action tabulated = {
    nondet k = 0.to(3).oneOf()
    // tabulated minus the locus
    emit(okCall("white_cct", [k], [nominal(k)], [within(0, rat(2, 10000)), within(0, rat(2, 10000)), exactly(0)], "tabulated white"))
  }
  /// chromaticity of the tabulated spectra
  pure def chroma(x: List[int]): List[int] = {
    pure val t = sumf(x)
    [div(x[0], t), div(x[1], t)]
  }
  action spectraWhite = {
    nondet k = 0.to(3).oneOf()
    nondet st = Set(1, 5).oneOf()
    val w = chroma(whiteOf(WT[k], st))
    emit(okCall("white_spectrum", [k], [st * ONE], [within(w[0], E9), within(w[1], E9)], "spectrum"))
  }
  action stepC21 = any { temperature, temperature, temperature, temperature, temperature, temperature, temperature, temperature, extreme, tabulated, spectraWhite }
  /// the published spectra have the published chromaticities
  val specWhites = c.op == "white_spectrum" implies {
    val w = chroma(whiteOf(WT[c.ints[0]], 1))
    absf(w[0] - entry(WHITEXY, 3 * c.ints[0])) < rat(2, 10000) and absf(w[1] - entry(WHITEXY, 3 * c.ints[0] + 1)) < rat(2, 10000)
  }
  /// and so do the tabulated whites lie on the locus
  val specLocus = c.op == "white_cct" implies {
    val w = locus(nominal(c.ints[0]))
    absf(w[0] - entry(WHITEXY, 3 * c.ints[0])) < rat(2, 10000) and absf(w[1] - entry(WHITEXY, 3 * c.ints[0] + 1)) < rat(2, 10000)
  }
}
