// -*- mode: Bluespec; -*-
/// Chromatic adaptation and xyY <-> XYZ as pure functions.
module cats {
  import fix.* from "./fix"
  import common.* from "./common"

  /// tristimulus of a chromaticity (x, y, Y): unit luminance is Y = 100
  pure def toXYZ(c: List[int]): List[int] = {
    pure val k = div(100 * c[2], c[1])
    [mul(c[0], k), 100 * c[2], mul(ONE - c[0] - c[1], k)]
  }
  pure def toXYY(v: List[int]): List[int] = {
    pure val s = v[0] + v[1] + v[2]
    [div(v[0], s), div(v[1], s), v[1] / 100]
  }
  // methods: 0 Bradford, 1 Von Kries, 2 CAT02
  pure def e7(n: int): int = rat(n, 10000000)
  pure val BRADFORD = [e7(8951000), e7(2664000), e7(-1614000), e7(-7502000), e7(17135000), e7(367000), e7(389000), e7(-685000), e7(10296000)]
  pure val VONKRIES = [e7(4002400), e7(7076000), e7(-808100), e7(-2263000), e7(11653200), e7(457000), 0, 0, e7(9182200)]
  pure val CAT02 = [e7(7328000), e7(4296000), e7(-1624000), e7(-7036000), e7(16975000), e7(61000), e7(30000), e7(136000), e7(9834000)]
  pure def cone(k: int): List[int] = if (k == 0) BRADFORD else if (k == 1) VONKRIES else CAT02
  pure val INVS: List[List[int]] = [minv(BRADFORD), minv(VONKRIES), minv(CAT02)]
  pure def coneInv(k: int): List[int] = INVS[k]
  /// the published Von Kries inverse has seven decimals
  pure def coneInvTol(k: int): int = if (k == 1) rat(2, 10000000) else 0

  pure def gains(k: int, src: List[int], dst: List[int]): List[int] = {
    pure val a = mvec(cone(k), src)
    pure val b = mvec(cone(k), dst)
    tab(3, i => div(b[i], a[i]))
  }
  /// adaptation matrix from src to dst (tristimulus values)
  pure def adapt(k: int, src: List[int], dst: List[int]): List[int] =
    if (src == dst) IDENT else mmul(coneInv(k), mmul(diag(gains(k, src, dst)), cone(k)))
  /// how far a floating-point evaluation may be from it, entry by entry
  pure def adaptTol(k: int, src: List[int], dst: List[int], w: int): List[int] = {
    pure val g = mabs(gains(k, src, dst))
    pure val m = mabs(cone(k))
    pure val a = mvec(cone(k), src)
    pure val b = mvec(cone(k), dst)
    pure val qa = mvec(m, mabs(src))
    pure val qb = mvec(m, mabs(dst))
    // relative error of each gain
    pure val rg = tab(3, i => mul(8 * ulp(w), div(qa[i], absf(a[i])) + div(qb[i], absf(b[i])) + 16 * ONE))
    pure val d1 = mmul(mabs(coneInv(k)), mmul(diag(tab(3, i => mul(g[i], rg[i]))), m))
    pure val d2 = mmul(tab(9, i => coneInvTol(k)), mmul(diag(g), m))
    tab(9, i => d1[i] + d2[i] + E12 / 10^6)
  }
  /// cone responses of a white are clearly positive
  pure def okWhite(v: List[int]): bool =
    range(0, 3).foldl(true, (t, k) => {
      pure val a = mvec(cone(k), v)
      pure val q = mvec(mabs(cone(k)), mabs(v))
      t and 16 * a[0] > q[0] and 16 * a[1] > q[1] and 16 * a[2] > q[2]
    })

  /// cone responses of a white are clearly not zero
  pure def clearWhite(v: List[int]): bool =
    range(0, 3).foldl(true, (t, k) => {
      pure val a = mvec(cone(k), v)
      pure val q = mvec(mabs(cone(k)), mabs(v))
      t and 16 * absf(a[0]) > q[0] and 16 * absf(a[1]) > q[1] and 16 * absf(a[2]) > q[2]
    })

  // ---- reference whites -------------------------------------------------------
  pure def xyw(x: int, y: int): List[int] = [rat(x, 100000), rat(y, 100000), ONE]
  /// D65, D50, DCI, ACES (~D60), E, A, C
  pure val WHITES: List[List[int]] = [xyw(31270, 32900), xyw(34567, 35850), xyw(31400, 35100), xyw(32168, 33767),
    [ONE / 3, ONE / 3, ONE], xyw(44757, 40745), xyw(31006, 31616)]
  pure def pickWhite(s: int, i: int, w: int): List[int] = {
    pure val cls = rndIn(s, 7 * i, 0, 4)
    pure val y = if (rnd(s, 7 * i + 1) % 3 == 0)
        fw(if (rnd(s, 7 * i + 6) % 2 == 0) rndReal(s, 7 * i + 2, ONE / 50, 3 * ONE) else rndLog(s, 7 * i + 2, -12, 12), w)
      else ONE
    pure val far = [rndReal(s, 7 * i + 4, rat(18, 100), rat(60, 100)), rndReal(s, 7 * i + 5, rat(20, 100), rat(50, 100)), ONE]
    pure val raw = if (cls == 0) WHITES[rndIn(s, 7 * i + 3, 0, 6)]
      // anywhere the cone responses are clearly positive
      else if (cls == 1 and far[0] + far[1] < rat(95, 100) and okWhite(toXYZ(far))) far
      else [rndReal(s, 7 * i + 4, ONE / 4, rat(9, 20)), rndReal(s, 7 * i + 5, rat(28, 100), rat(42, 100)), ONE]
    [fw(raw[0], w), fw(raw[1], w), y]
  }
  /// any chromaticity with definite cone responses, imaginary ones included
  pure def pickStrange(s: int, i: int, w: int): List[int] = {
    pure val far = [fw(rndReal(s, 7 * i + 4, -ONE / 2, rat(3, 2)), w), fw(rndReal(s, 7 * i + 5, ONE / 50, ONE), w), ONE]
    if (rnd(s, 7 * i + 3000) % 3 > 0 or not(clearWhite(toXYZ(far)))) pickWhite(s, i, w)
    else [far[0], far[1], if (rnd(s, 7 * i + 3001) % 2 == 0) ONE else fw(rndLog(s, 7 * i + 2, -12, 12), w)]
  }
}
