// -*- mode: Bluespec; -*-
/// RGB colour spaces as pure data and functions: published primaries, whites
/// and matrices; derivation of matrices; conversions.
module gamuts {
  import fix.* from "./fix"
  import common.* from "./common"
  import cats.* from "./cats"

  /// a colour space: primaries and white as (x, y, Y) each, both matrices, and
  /// how far floating point may be from the matrices
  type Space = { red: List[int], green: List[int], blue: List[int], white: List[int],
                 toRgb: List[int], toXyz: List[int], tolRgb: List[int], tolXyz: List[int] }

  // ---- derivation -------------------------------------------------------------
  pure def full(p: List[int]): List[int] = [p[0], p[1], ONE - p[0] - p[1]]
  /// columns are the primaries
  pure def primMat(r: List[int], g: List[int], b: List[int]): List[int] = {
    pure val fr = full(r)
    pure val fg = full(g)
    pure val fb = full(b)
    [fr[0], fg[0], fb[0], fr[1], fg[1], fb[1], fr[2], fg[2], fb[2]]
  }
  /// tristimulus of a white at unit luminance
  pure def whiteVec(p: List[int]): List[int] = [div(p[0], p[1]), ONE, div(ONE - p[0] - p[1], p[1])]
  /// amount of each primary in the white
  pure def amounts(pm: List[int], white: List[int]): List[int] = mvec(minv(pm), whiteVec(white))
  pure def derive(r: List[int], g: List[int], b: List[int], white: List[int], w: int): Space = {
    pure val pm = primMat(r, g, b)
    pure val a = amounts(pm, white)
    pure val x = mmul(pm, diag(a))
    pure val inv = minv(x)
    pure val big = 2 * sq(maxAbs(pm))
    pure val d = absf(det(pm))
    // error of row i of the XYZ -> RGB matrix
    pure val rowErr = tab(3, i => {
      pure val rw = mul(d, absf(a[i]))
      mul(16 * ulp(w), div(mul(big, 3 * maxAbs(whiteVec(white))), rw))
    })
    pure val tr = tab(9, k => mul(maxf(ONE, maxAbs([inv[3 * (k / 3)], inv[3 * (k / 3) + 1], inv[3 * (k / 3) + 2]])), rowErr[k / 3])
                              + mul(16 * ulp(w), div(big, mul(d, absf(a[k / 3])))))
    pure val t1 = mmul(mabs(x), mmul(tr, mabs(x)))
    pure val t2 = mul(64 * mul(kappa(inv), ulp(w)), maxAbs(x))
    { red: r, green: g, blue: b, white: white, toRgb: inv, toXyz: x, tolRgb: tr, tolXyz: mapl(t1, e => 2 * e + t2) }
  }
  /// clearly non-degenerate at the precision w (the primaries may be close together)
  pure def okGamut(r: List[int], g: List[int], b: List[int], white: List[int], w: int): bool = {
    pure val pm = primMat(r, g, b)
    pure val d = absf(det(pm))
    pure val least = if (w == 64) rat(1, 200000) else rat(3, 100)
    if (d < least or white[1] < rat(5, 100)) false
    else {
      pure val a = amounts(pm, white)
      pure val amt = if (w == 64) rat(1, 1000000) else rat(1, 100)
      mul(d, absf(a[0])) > amt and mul(d, absf(a[1])) > amt and mul(d, absf(a[2])) > amt
    }
  }

  // ---- built-in spaces ----------------------------------------------------------
  pure def q(x: int, y: int): List[int] = [rat(x, 100000), rat(y, 100000), ONE]
  pure val D65 = q(31270, 32900)
  /// 0 SRGB 1 BT709 2 BT2020 3 DCI_P3 4 DCI_P3_D65 5 ACES 6 ACES_CG
  /// 7 ADOBE_RGB_1998 8 ALEXA_WIDE_GAMUT 9 SRGB_DRV
  pure val PRIMS: List[List[List[int]]] = [
    [q(64000, 33000), q(30000, 60000), q(15000, 6000), D65],
    [q(64000, 33000), q(30000, 60000), q(15000, 6000), D65],
    [q(70800, 29200), q(17000, 79700), q(13100, 4600), D65],
    [q(68000, 32000), q(26500, 69000), q(15000, 6000), q(31400, 35100)],
    [q(68000, 32000), q(26500, 69000), q(15000, 6000), D65],
    [q(73470, 26530), q(0, 100000), q(10, -7700), q(32168, 33767)],
    [q(71300, 29300), q(16500, 83000), q(12800, 4400), q(32168, 33767)],
    [q(64000, 33000), q(21000, 71000), q(15000, 6000), D65],
    [q(68400, 31300), q(22100, 84800), q(8610, -10200), D65],
    [q(64000, 33000), q(30000, 60000), q(15000, 6000), D65]]
  pure def t10(l: List[int]): List[int] = mapl(l, x => rat(x, 10000000000))
  pure def t6(l: List[int]): List[int] = mapl(l, x => rat(x, 1000000))
  pure def given(sp: int): bool = sp == 0 or sp == 5 or sp == 7 or sp == 8
  pure val SRGB_TO_RGB = t6([3240600, -1537200, -498600, -968900, 1875800, 41500, 55700, -204000, 1057000])
  pure val SRGB_TO_XYZ = t6([412400, 357600, 180500, 212600, 715200, 72200, 19300, 119200, 950500])
  pure val ACES_TO_RGB = t10([10498110175, 0, -974845, -4959030231, 13733130458, 982400361, 0, 0, 9912520182])
  pure val ACES_TO_XYZ = t10([9525523959, 0, 936786, 3439664498, 7281660966, -721325464, 0, 0, 10088251844])
  pure val ADOBE_TO_RGB = t6([2041590, -565010, -344730, -969240, 1875970, 41560, 13440, -118360, 1015170])
  pure val ADOBE_TO_XYZ = t6([576670, 185560, 188230, 297340, 627360, 75290, 27030, 70690, 991340])
  pure val ALEXA_TO_RGB = t6([1789066, -482534, -200076, -639849, 1396400, 194432, -41532, 82335, 878868])
  pure val ALEXA_TO_XYZ = t6([638008, 214704, 97744, 291954, 823841, -115795, 2798, -67034, 1153294])
  pure def published(sp: int, w: int): Space = {
    pure val p = PRIMS[sp]
    pure val a = if (sp == 0) SRGB_TO_RGB else if (sp == 5) ACES_TO_RGB else if (sp == 7) ADOBE_TO_RGB else ALEXA_TO_RGB
    pure val b = if (sp == 0) SRGB_TO_XYZ else if (sp == 5) ACES_TO_XYZ else if (sp == 7) ADOBE_TO_XYZ else ALEXA_TO_XYZ
    { red: p[0], green: p[1], blue: p[2], white: p[3], toRgb: a, toXyz: b,
      tolRgb: mapl(a, e => mul(absf(e), ulp(w)) + 2^20), tolXyz: mapl(b, e => mul(absf(e), ulp(w)) + 2^20) }
  }
  pure def space(sp: int, w: int): Space =
    if (given(sp)) published(sp, w) else derive(PRIMS[sp][0], PRIMS[sp][1], PRIMS[sp][2], PRIMS[sp][3], w)
  /// precomputed for speed
  pure val SPACES64: List[Space] = range(0, 10).foldl([], (acc, i) => acc.append(space(i, 64)))
  pure val SPACES32: List[Space] = range(0, 10).foldl([], (acc, i) => acc.append(space(i, 32)))
  pure def builtin(sp: int, w: int): Space = if (w == 64) SPACES64[sp] else SPACES32[sp]

  // ---- conversions --------------------------------------------------------------
  type Mtx = { m: List[int], t: List[int] }
  /// product of two matrices known up to a tolerance
  pure def mprod(a: Mtx, b: Mtx, w: int): Mtx = {
    pure val e1 = mmul(a.t, mabs(b.m))
    pure val e2 = mmul(mabs(a.m), b.t)
    pure val e3 = mmul(mabs(a.m), mabs(b.m))
    pure val e4 = mmul(a.t, b.t)
    { m: mmul(a.m, b.m), t: tab(9, i => e1[i] + e2[i] + e4[i] + 4 * mul(e3[i], ulp(w)) + 2^20) }
  }
  pure def cat02Of(src: List[int], dst: List[int], w: int): Mtx =
    if (src == dst) { m: IDENT, t: tab(9, i => 0) }
    else { m: adapt(2, toXYZ(src), toXYZ(dst)), t: adaptTol(2, toXYZ(src), toXYZ(dst), w) }
  pure def xyzToRgbM(white: List[int], s: Space, w: int): Mtx = mprod({ m: s.toRgb, t: s.tolRgb }, cat02Of(white, s.white, w), w)
  pure def rgbToXyzM(white: List[int], s: Space, w: int): Mtx = mprod(cat02Of(s.white, white, w), { m: s.toXyz, t: s.tolXyz }, w)
  pure def rgbToRgbM(a: Space, b: Space, w: int): Mtx =
    mprod(mprod({ m: b.toRgb, t: b.tolRgb }, cat02Of(a.white, b.white, w), w), { m: a.toXyz, t: a.tolXyz }, w)
  /// matrix * vector, vector known up to e
  pure def apply(a: Mtx, v: List[int], e: List[int], w: int): List[Iv] = {
    pure val r = mvec(a.m, v)
    pure val d1 = mvec(a.t, mabs(v))
    pure val d2 = mvec(mabs(a.m), e)
    pure val d3 = mvec(mabs(a.m), mabs(v))
    tabIv(3, i => within(r[i], d1[i] + d2[i] + 4 * mul(d3[i], ulp(w)) + 2^20))
  }
  pure def ivm(a: Mtx): List[Iv] = tabIv(9, i => within(a.m[i], a.t[i]))
}
