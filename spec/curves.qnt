// -*- mode: Bluespec; -*-
/// The published transfer curves as pure functions.
module curves {
  import fix.* from "./fix"

  // Curves: 0 sRGB, 1 BT.709, 2 BT.2020, 3 linear, 4 ALEXA LogC v3 EI800,
  //         5 pure gamma 2.6 (DCI-P3), 6 pure gamma 2.19921875 (Adobe RGB 1998)
  pure val NCURVES = 7
  pure val GAMMA26 = rat(26, 10)
  pure val GAMMA22 = rat(219921875, 100000000)

  // ---- published curves -----------------------------------------------------
  pure def srgbEncLin(x: int): int = (x * 1292) / 100
  pure def srgbEncPow(x: int): int = (powf(x, rat(10, 24)) * 1055) / 1000 - rat(55, 1000)
  pure def srgbDecLin(x: int): int = (x * 100) / 1292
  pure def srgbDecPow(x: int): int = powf(((x + rat(55, 1000)) * 1000) / 1055, rat(24, 10))
  pure def bt709EncLin(x: int): int = (x * 45) / 10
  pure def bt709EncPow(x: int): int = (powf(x, rat(45, 100)) * 1099) / 1000 - rat(99, 1000)
  pure def bt709DecLin(x: int): int = (x * 10) / 45
  pure def bt709DecPow(x: int): int = powf(((x + rat(99, 1000)) * 1000) / 1099, rat(100, 45))
  pure val LCa = rat(5555556, 1000000)
  pure val LCb = rat(52272, 1000000)
  pure val LCc = rat(247190, 1000000)
  pure val LCd = rat(385537, 1000000)
  pure val LCe = rat(5367655, 1000000)
  pure val LCf = rat(92809, 1000000)
  pure def logcEncLog(x: int): int = mul(LCc, log10f(mul(LCa, x) + LCb)) + LCd
  pure def logcEncLin(x: int): int = mul(LCe, x) + LCf
  pure def logcDecLog(t: int): int = div(expf(mul(div(t - LCd, LCc), LN10)) - LCb, LCa)
  pure def logcDecLin(t: int): int = div(t - LCf, LCe)

  // break point of the piecewise curves (linear side is at or below it)
  pure def encBreak(cv: int): int =
    if (cv == 0) rat(31308, 10000000)
    else if (cv == 4) rat(10591, 1000000)
    else rat(18, 1000)
  pure def decBreak(cv: int): int =
    if (cv == 0) rat(40449936, 1000000000)
    else if (cv == 4) rat(149658, 1000000)
    else rat(81, 1000)
  pure def piecewise(cv: int): bool = cv == 0 or cv == 1 or cv == 2 or cv == 4
  pure def signedDomain(cv: int): bool = cv < 5

  pure def encLin(cv: int, x: int): int =
    if (cv == 0) srgbEncLin(x) else if (cv == 4) logcEncLin(x) else bt709EncLin(x)
  pure def encUp(cv: int, x: int): int =
    if (cv == 0) srgbEncPow(x) else if (cv == 4) logcEncLog(x) else bt709EncPow(x)
  pure def decLin(cv: int, x: int): int =
    if (cv == 0) srgbDecLin(x) else if (cv == 4) logcDecLin(x) else bt709DecLin(x)
  pure def decUp(cv: int, x: int): int =
    if (cv == 0) srgbDecPow(x) else if (cv == 4) logcDecLog(x) else bt709DecPow(x)

  pure def encode(cv: int, x: int): int =
    if (cv == 3) x
    else if (cv == 5) powf(x, div(ONE, GAMMA26))
    else if (cv == 6) powf(x, div(ONE, GAMMA22))
    else if (x <= encBreak(cv)) encLin(cv, x) else encUp(cv, x)
  pure def decode(cv: int, x: int): int =
    if (cv == 3) x
    else if (cv == 5) powf(x, GAMMA26)
    else if (cv == 6) powf(x, GAMMA22)
    else if (x <= decBreak(cv)) decLin(cv, x) else decUp(cv, x)

  // ---- allowed answers ------------------------------------------------------
  /// w = 64 or 32
  pure def rel(w: int): int = if (w == 64) E12 else 3 * E6
  pure def abst(w: int): int = if (w == 64) E12 / 10 else E6
  /// the straight piece through zero and the pure powers are relatively exact, however small the value
  pure def linAbs(cv: int, w: int): int = if (cv == 4) abst(w) else ONE / 2^90
  pure def linRel(cv: int, w: int): int = if (cv == 4) rel(w) else if (cv >= 5) rel(w) else if (w == 64) ONE / 2^50 else ONE / 2^21
  /// how far from the break point the choice of branch is not determined
  /// (the break constant itself is rounded to the float type)
  pure def fuzz(b: int, w: int): int = if (w == 64) b / 2^50 else b / 2^21

  pure def encIv(cv: int, x: int, w: int): Iv =
    if (cv == 3) exactly(x)
    else if (piecewise(cv) and absf(x - encBreak(cv)) <= fuzz(encBreak(cv), w))
      hull(near(encLin(cv, x), rel(w), abst(w)), near(encUp(cv, x), rel(w), abst(w)))
    else if (cv >= 5 or x <= encBreak(cv)) near(encode(cv, x), linRel(cv, w), linAbs(cv, w))
    else near(encode(cv, x), rel(w), abst(w))
  pure def decIv(cv: int, x: int, w: int): Iv =
    if (cv == 3) exactly(x)
    else if (piecewise(cv) and absf(x - decBreak(cv)) <= fuzz(decBreak(cv), w))
      hull(near(decLin(cv, x), rel(w), abst(w)), near(decUp(cv, x), rel(w), abst(w)))
    else if (cv >= 5 or x <= decBreak(cv)) near(decode(cv, x), linRel(cv, w), linAbs(cv, w))
    else near(decode(cv, x), rel(w), abst(w))

  /// of any value in an interval
  pure def encRange(cv: int, i: Iv, w: int): Iv = {
    pure val e = hull(encIv(cv, i.lo, w), encIv(cv, i.hi, w))
    if (piecewise(cv) and i.lo <= encBreak(cv) and i.hi >= encBreak(cv))
      hull(e, hull(encIv(cv, encBreak(cv), w), within(encUp(cv, encBreak(cv)), 4 * abst(w))))
    else e
  }
  pure def decRange(cv: int, i: Iv, w: int): Iv = {
    pure val d = hull(decIv(cv, i.lo, w), decIv(cv, i.hi, w))
    if (piecewise(cv) and i.lo <= decBreak(cv) and i.hi >= decBreak(cv))
      hull(d, hull(decIv(cv, decBreak(cv), w), within(decUp(cv, decBreak(cv)), 4 * abst(w))))
    else d
  }

  /// curve of each built-in space: 0 SRGB 1 BT709 2 BT2020 3 DCI_P3
  /// 4 DCI_P3_D65 5 ACES 6 ACES_CG 7 ADOBE_RGB_1998 8 ALEXA_WIDE_GAMUT 9 SRGB_DRV (f64 only)
  pure def curveOf(sp: int): int =
    if (sp == 0 or sp == 9) 0 else if (sp == 1) 1 else if (sp == 2) 2
    else if (sp == 3 or sp == 4) 5 else if (sp == 5 or sp == 6) 3
    else if (sp == 7) 6 else 4
}
