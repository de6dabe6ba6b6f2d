// -*- mode: Bluespec; -*-
/// Spectrum to tristimulus values after ASTM E308 / E2022 as pure functions.
module conv {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import tables.* from "./tables"

  /// the visible range of the standard at 1 nm: 360 .. 780
  pure val VIS: Shape = { start: 360 * ONE, end: 780 * ONE, step: ONE }
  pure val NV = 421

  pure def f64s(l: List[int]): List[int] = l.foldl([], (acc, x) => acc.append(f64(x)))
  pure def tableSp(t: Table): Sp = {
    pure val v = f64s(unpack(t.v))
    { nm: range(0, t.v.n).foldl([], (l, i) => l.append(t.start + i * t.step)), v: v, sh: { start: t.start, end: t.end, step: t.step }, vt: 0, nt: 0, st: 0 }
  }
  /// the published observer at 1 nm
  pure val OBS: List[List[int]] = [f64s(unpack(XBAR.v)).slice(0, NV), f64s(unpack(YBAR.v)).slice(0, NV), f64s(unpack(ZBAR.v)).slice(0, NV)]
  /// published daylight spectra (D50, D55, D60, D65) interpolated to 1 nm
  pure val DAY: List[List[int]] = [align(tableSp(SD50), VIS).v, align(tableSp(SD55), VIS).v, align(tableSp(SD60), VIS).v, align(tableSp(SD65), VIS).v]

  /// illuminant times observer at 1 nm, three lists; err: how far the sum of
  /// each may be from the implementation's (rounding of interpolated data)
  type Weights = { w: List[List[int]], err: List[int] }
  /// si: illuminant at 1 nm, se: rounding of its values; ob: observer, oe: rounding
  pure def product(si: List[int], se: int, ob: List[List[int]], oe: int): Weights = {
    w: range(0, 3).foldl([], (acc, k) => acc.append(range(0, NV).foldl([], (l, i) => l.append(mul(si[i], ob[k][i]))))),
    err: tab(3, k => NV * (mul(maxAbs(si), oe + mul(maxAbs(ob[k]), 64 * ulp(64))) + mul(maxAbs(ob[k]), se) + mul(se, oe) + 1)),
  }
  pure def dayErr(k: int): int = if (k == 0) align(tableSp(SD50), VIS).vt else if (k == 1) align(tableSp(SD55), VIS).vt
    else if (k == 2) align(tableSp(SD60), VIS).vt else align(tableSp(SD65), VIS).vt
  pure val DAYERR: List[int] = [dayErr(0), dayErr(1), dayErr(2), dayErr(3)]
  pure val WT: List[Weights] = [product(DAY[0], DAYERR[0], OBS, E12 / 1000), product(DAY[1], DAYERR[1], OBS, E12 / 1000),
    product(DAY[2], DAYERR[2], OBS, E12 / 1000), product(DAY[3], DAYERR[3], OBS, E12 / 1000)]

  /// sums over every m-th nanometre: sum of w * r, and of |w|
  pure def total(w: List[int], m: int): int = range(0, (NV - 1) / m + 1).foldl(0, (t, i) => t + w[m * i])
  pure def totalAbs(w: List[int], m: int): int = range(0, (NV - 1) / m + 1).foldl(0, (t, i) => t + absf(w[m * i]))
  pure def weighted(w: List[int], r: List[int], m: int): int = range(0, (NV - 1) / m + 1).foldl(0, (t, i) => t + mul(w[m * i], r[i]))

  // ---- E2022: reflectance between 10 nm samples is interpolated by Lagrange polynomials
  pure def lag3(lr: int, la: int, lb: int, lc: int): int =
    (mul(mul(lr - ONE, lr - 2 * ONE), la)) / 2 - mul(mul(lr, lr - 2 * ONE), lb) + (mul(mul(lr, lr - ONE), lc)) / 2
  /// nodes -1, 0, 1, 2
  pure def lag4(lr: int, la: int, lb: int, lc: int, ld: int): int =
    -mul(mul(lr, lr - ONE), mul(lr - 2 * ONE, la)) / 6 + mul(mul(lr + ONE, lr - ONE), mul(lr - 2 * ONE, lb)) / 2
      - mul(mul(lr + ONE, lr), mul(lr - 2 * ONE, lc)) / 2 + mul(mul(lr + ONE, lr), mul(lr - ONE, ld)) / 6
  /// 43 samples at 360, 370 .. 780 -> 421 values
  pure def tenToOne(r: List[int]): List[int] =
    range(0, NV).foldl([], (l, i) => {
      pure val g = i / 10
      pure val t = rat(i % 10, 10)
      l.append(if (i % 10 == 0) r[g]
        else if (g == 0) lag3(t, r[0], r[1], r[2])
        else if (g == 41) lag3(ONE - t, r[42], r[41], r[40])
        else lag4(t, r[g - 1], r[g], r[g + 1], r[g + 2]))
    })
  /// a 10 nm spectrum on the 360 nm grid, nearest measured value outside
  pure def tenGrid(s: Sp): List[int] =
    range(0, 43).foldl([], (l, j) => {
      pure val x = (360 + 10 * j) * ONE
      l.append(s.v[clampf(floordiv(x - s.nm[0], 10 * ONE), 0, samples(s) - 1)])
    })

  /// which summation applies: 10 (weighting factors), 5, 1
  pure def method(s: Sp): int =
    if (s.sh.step == 10 * ONE and (s.sh.start - 360 * ONE) % (10 * ONE) == 0 and s.sh.start <= 780 * ONE and s.sh.end >= 360 * ONE) 10
    else if (s.sh.step == 5 * ONE) 5 else 1
  /// the reflectance the method sums, and every how many nanometres
  pure def reflect(s: Sp): (List[int], int) =
    if (method(s) == 10) (tenToOne(tenGrid(s)), 1)
    else if (method(s) == 5) (align(s, { ...VIS, step: 5 * ONE }).v, 5)
    else (align(s, VIS).v, 1)
  /// tristimulus values
  pure def toXyz(s: Sp, wt: Weights): List[int] = {
    pure val rf = reflect(s)
    pure val ksum = total(wt.w[1], rf._2)
    tab(3, i => (100 * ONE * weighted(wt.w[i], rf._1, rf._2)) / ksum)
  }
  /// rounding of tristimulus values of reflectances of size big, known to within re
  pure def xyzTol(big: int, re: int, wt: Weights, m: int): List[int] = {
    pure val ksum = absf(total(wt.w[1], m))
    tab(3, i => {
      pure val tw = totalAbs(wt.w[i], m)
      pure val q = (100 * ONE * tw) / ksum
      // reflectance error, weight error, normalisation error
      mul(q, re) + mul(big, (100 * ONE * wt.err[i]) / ksum) + mul(mul(q, big), (ONE * wt.err[1]) / ksum)
        + mul(mul(q, big), 4000 * ulp(64)) + 1
    })
  }
  /// largest reflectance that enters the sum
  pure def sizeOf(s: Sp): int = maxf(2 * maxAbs(s.v), maxAbs(extended(s.v)))
  pure def every(s: Sp): int = if (method(s) == 5) 5 else 1
  pure def xyzIv(s: Sp, wt: Weights): List[Iv] = {
    pure val xv = toXyz(s, wt)
    pure val xt = xyzTol(sizeOf(s), evalTol(s), wt, every(s))
    tabIv(3, i => within(xv[i], xt[i]))
  }
  /// white of an illuminant: the weights alone
  pure def whiteOf(wt: Weights, m: int): List[int] = {
    pure val ksum = total(wt.w[1], m)
    tab(3, i => (100 * ONE * total(wt.w[i], m)) / ksum)
  }
  /// luminous sum is well away from zero
  pure def okWeights(wt: Weights): bool = and {
    4 * total(wt.w[1], 1) > totalAbs(wt.w[1], 1),
    4 * total(wt.w[1], 5) > totalAbs(wt.w[1], 5),
    total(wt.w[1], 5) > ONE / 2^50,
  }
}
