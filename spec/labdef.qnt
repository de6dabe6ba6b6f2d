// -*- mode: Bluespec; -*-
/// CIE 1976 L*a*b* as pure functions, and how far floating point may be from them.
module labdef {
  import fix.* from "./fix"
  import common.* from "./common"

  // CIE 1976: break at (6/29)^3, slope (29/3)^3
  pure val EPS = rat(216, 24389)
  pure val KAPPA = rat(24389, 27)
  pure def f(r: int): int = if (r > EPS) cbrtf(r) else (mul(KAPPA, r) + 16 * ONE) / 116
  pure def finv(v: int): int = if (cube(v) > EPS) cube(v) else div(116 * v - 16 * ONE, KAPPA)
  pure def toLab(v: List[int], white: List[int]): List[int] = {
    pure val fx = f(div(v[0], white[0]))
    pure val fy = f(div(v[1], white[1]))
    pure val fz = f(div(v[2], white[2]))
    [116 * fy - 16 * ONE, 500 * (fx - fy), 200 * (fy - fz)]
  }
  pure def fOfLab(l: List[int]): List[int] = {
    pure val fy = (l[0] + 16 * ONE) / 116
    [fy + l[1] / 500, fy, fy - l[2] / 200]
  }
  pure def fromLab(l: List[int], white: List[int]): List[int] = {
    pure val v = fOfLab(l)
    tab(3, i => mul(finv(v[i]), white[i]))
  }

  // ---- how far a floating-point evaluation may be ----------------------------
  /// relative error of a reference white given as XYZ (form 0) or xyY (form 1)
  pure def whiteErr(p: List[int], form: int, i: int, w: int): int =
    if (form == 0) 0
    else if (i < 2) 8 * ulp(w)
    else 8 * ulp(w) + mul(4 * ulp(w), div(ONE + absf(p[0]) + absf(p[1]), absf(ONE - p[0] - p[1])))
  pure def fErr(r: int, rho: int, w: int): int =
    if (r > EPS) mul(f(r), rho + 8 * ulp(w)) else mul((mul(KAPPA, absf(r)) + 16 * ONE) / 116, rho + 6 * ulp(w))
  pure def labTol(v: List[int], white: List[int], we: List[int], w: int): List[int] = {
    pure val r = tab(3, i => div(v[i], white[i]))
    pure val fe = tab(3, i => fErr(r[i], we[i] + 2 * ulp(w), w) + 2 * mul(absf(f(r[i])), ulp(w)) + 1)
    [116 * fe[1] + 40 * ulp(w), 500 * (fe[0] + fe[1]), 200 * (fe[1] + fe[2])]
  }
  /// error of f recovered from L, a, b
  pure def fofErr(l: List[int], i: int, w: int): int = {
    pure val base = (absf(l[0]) + 16 * ONE) / 116
    pure val add = if (i == 0) absf(l[1]) / 500 else if (i == 1) 0 else absf(l[2]) / 200
    mul(4 * ulp(w), base + add) + 1
  }
  pure def finvErr(v: int, e: int, w: int): int =
    if (cube(v) > EPS) mul(3 * sq(v), e) + mul(absf(cube(v)), 6 * ulp(w)) + 3 * mul(absf(v), sq(e))
    else div(116 * e + mul(116 * absf(v) + 16 * ONE, 6 * ulp(w)), KAPPA) + mul(3 * sq(absf(v) + e), e)
  pure def xyzTol(l: List[int], white: List[int], we: List[int], w: int): List[int] = {
    pure val v = fOfLab(l)
    tab(3, i => mul(absf(white[i]), finvErr(v[i], fofErr(l, i, w), w) + mul(absf(finv(v[i])), we[i] + 3 * ulp(w))) + 1)
  }
}
