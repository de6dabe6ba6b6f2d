// -*- mode: Bluespec; -*-
/// Sampled spectra as pure values: shapes, grids, Sprague and linear interpolation,
/// trim, extrapolate, align.
module spectra {
  import fix.* from "./fix"
  import common.* from "./common"

  /// start, end, interval in nm (fixed point); interval 0 means varying
  type Shape = { start: int, end: int, step: int }
  /// samples and declared shape; vt / nt: how far the implementation's values /
  /// wavelengths may be from the ones here (rounding); st: how far its interval
  type Sp = { nm: List[int], v: List[int], sh: Shape, vt: int, nt: int, st: int }

  pure val NOSP: Sp = { nm: [], v: [], sh: { start: 0, end: 0, step: 0 }, vt: 0, nt: 0, st: 0 }
  pure def samples(s: Sp): int = s.nm.length()
  pure def firstNm(s: Sp): int = s.nm[0]
  pure def lastNm(s: Sp): int = s.nm[s.nm.length() - 1]
  pure def lastV(s: Sp): int = s.v[s.v.length() - 1]

  pure val GRAIN = ONE / 10^8
  /// rounding of the difference of two neighbouring wavelengths
  pure val GAPERR = ONE / 2^40
  /// number of wavelengths start, start + step, ... up to end
  pure def gridSize(h: Shape): int = if (h.end < h.start) 0 else floordiv(div(h.end - h.start, h.step) + GRAIN, ONE) + 1
  pure def grid(h: Shape): List[int] = {
    pure val n = gridSize(h)
    range(0, n).foldl([], (l, i) => l.append(h.start + i * h.step))
  }
  /// is the size of this grid the same whatever the rounding?
  pure def clearGrid(h: Shape): bool = {
    pure val q = div(h.end - h.start, h.step)
    pure val fr = q - floordiv(q, ONE) * ONE
    fr < E10 or (fr > E6 and fr < ONE - E6) or fr > ONE - E10
  }
  /// exactly representable spacing: sums of multiples are exact
  pure def dyadic(x: int): bool = x % (ONE / 65536) == 0
  pure def gridTol(h: Shape): int = if (dyadic(h.start) and dyadic(h.step)) 0 else ONE / 2^41

  /// shape of explicitly listed samples: uniform if all gaps are equal (to 1e-11 nm)
  pure def shapeOf(nm: List[int]): Shape = {
    pure val d = nm[1] - nm[0]
    pure val u = range(1, nm.length()).foldl(true, (t, i) => t and absf(nm[i] - nm[i - 1] - d) <= E11)
    { start: nm[0], end: nm[nm.length() - 1], step: if (u) d else 0 }
  }
  pure def mk(nm: List[int], v: List[int], nt: int): Sp = { nm: nm, v: v, sh: shapeOf(nm), vt: 0, nt: nt, st: if (nt == 0) 0 else GAPERR }
  pure def onGrid(h: Shape, v: List[int], vt: int): Sp = { nm: grid(h), v: v, sh: h, vt: vt, nt: gridTol(h), st: 0 }

  // ---- Sprague interpolation ---------------------------------------------------
  pure def boundary(c: List[int], y: List[int]): int =
    (c[0] * y[0] + c[1] * y[1] + c[2] * y[2] + c[3] * y[3] + c[4] * y[4] + c[5] * y[5]) / 209
  pure val C0 = [884, -1960, 3033, -2648, 1080, -180]
  pure val C1 = [508, -540, 488, -367, 144, -24]
  pure val C2 = [-24, 144, -367, 488, -540, 508]
  pure val C3 = [-180, 1080, -2648, 3033, -1960, 884]
  /// the values with two extra points on either side
  pure def extended(v: List[int]): List[int] = {
    pure val n = v.length()
    if (n >= 6) {
      pure val e = v.slice(n - 6, n)
      [boundary(C0, v), boundary(C1, v)].concat(v).concat([boundary(C2, e), boundary(C3, e)])
    } else {
      // too short for the published boundary points: straight line
      pure val d0 = v[1] - v[0]
      pure val d1 = v[n - 1] - v[n - 2]
      [v[0] - 2 * d0, v[0] - d0].concat(v).concat([v[n - 1] + d1, v[n - 1] + 2 * d1])
    }
  }
  /// polynomial of the gap between r[i] and r[i + 1], given r[i - 2] .. r[i + 3]
  pure def quintic(a: int, b: int, c: int, d: int, e: int, f: int): List[int] = [
    c,
    (2 * a - 16 * b + 16 * d - 2 * e) / 24,
    (-a + 16 * b - 30 * c + 16 * d - e) / 24,
    (-9 * a + 39 * b - 70 * c + 66 * d - 33 * e + 7 * f) / 24,
    (13 * a - 64 * b + 126 * c - 124 * d + 61 * e - 12 * f) / 24,
    (-5 * a + 25 * b - 50 * c + 50 * d - 25 * e + 5 * f) / 24]
  pure def quintics(v: List[int]): List[List[int]] = {
    pure val r = extended(v)
    range(0, v.length() - 1).foldl([], (l, i) => l.append(quintic(r[i], r[i + 1], r[i + 2], r[i + 3], r[i + 4], r[i + 5])))
  }
  pure def poly(c: List[int], t: int): int =
    c[0] + mul(t, c[1] + mul(t, c[2] + mul(t, c[3] + mul(t, c[4] + mul(t, c[5])))))
  /// index of the gap that contains x (first or last gap if x is outside)
  pure def gapOf(s: Sp, x: int): int = {
    pure val n = samples(s)
    pure val g = if (s.sh.step != 0) floordiv(x - s.nm[0], s.sh.step)
      else s.nm.foldl(-1, (k, w) => if (w <= x) k + 1 else k)
    clampf(g, 0, n - 2)
  }
  pure def evalAt(s: Sp, q: List[List[int]], x: int): int = {
    pure val g = gapOf(s, x)
    poly(q[g], div(x - s.nm[g], s.nm[g + 1] - s.nm[g]))
  }
  pure def narrowest(s: Sp): int =
    if (s.sh.step != 0) absf(s.sh.step) else range(1, samples(s)).foldl(10^6 * ONE, (t, i) => minf(t, absf(s.nm[i] - s.nm[i - 1])))
  /// rounding of one evaluation
  pure def evalTol(s: Sp): int = 64 * s.vt + mul(maxAbs(extended(s.v)), 1024 * ulp(64)) + (if (s.nt == 0) 0 else mul(8 * maxAbs(extended(s.v)), div(2 * s.nt, narrowest(s)))) + 1

  /// rounding of the position inside a gap, when the wavelengths asked for are themselves rounded
  pure def posTol(s: Sp, h: Shape): int =
    if (gridTol(h) == 0) 0 else mul(8 * maxAbs(extended(s.v)), div(gridTol(h), narrowest(s))) + 1

  pure def linearAt(s: Sp, x: int): int =
    if (x <= s.nm[0]) s.v[0] else if (x >= lastNm(s)) lastV(s) else {
      pure val g = gapOf(s, x)
      s.v[g] + (( s.v[g + 1] - s.v[g]) * (x - s.nm[g])) / (s.nm[g + 1] - s.nm[g])
    }

  // ---- operations ----------------------------------------------------------------
  /// narrower of both ranges, at the interval asked for
  pure def clip(s: Sp, h: Shape): Shape = { start: maxf(h.start, s.sh.start), end: minf(h.end, s.sh.end), step: h.step }
  pure def interpolate(s: Sp, h: Shape): Sp = {
    pure val k = clip(s, h)
    pure val q = quintics(s.v)
    { ...onGrid(k, grid(k).foldl([], (l, x) => l.append(evalAt(s, q, x))), evalTol(s) + posTol(s, k)), nt: s.nt + gridTol(k) }
  }
  pure def align(s: Sp, h: Shape): Sp = {
    pure val q = quintics(s.v)
    pure val lo = firstNm(s)
    pure val hi = lastNm(s)
    onGrid(h, grid(h).foldl([], (l, x) => l.append(if (x < lo) s.v[0] else if (x > hi) lastV(s) else evalAt(s, q, x))), evalTol(s) + posTol(s, h))
  }
  /// samples inside [start, end]; interval label kept
  pure def trimTo(s: Sp, h: Shape): Sp = {
    pure val r = range(0, samples(s)).foldl(([], []), (st, i) =>
      if (s.nm[i] >= h.start and s.nm[i] <= h.end) (st._1.append(s.nm[i]), st._2.append(s.v[i])) else st)
    if (r._1.length() == 0) NOSP
    else { nm: r._1, v: r._2, sh: { start: r._1[0], end: r._1[r._1.length() - 1], step: s.sh.step }, vt: s.vt, nt: s.nt, st: s.st }
  }
  /// whole intervals before the first and after the last sample
  pure def count(d: int, step: int): int = if (d <= 0) 0 else floordiv(div(d, step) + E9, ONE)
  pure def extrapolate(s: Sp, h: Shape): Sp = {
    pure val step = if (s.sh.step != 0) s.sh.step else h.step
    pure val before = count(firstNm(s) - h.start, step)
    pure val after = count(h.end - lastNm(s), step)
    pure val a = range(0, before).foldl(([], []), (st, i) => (st._1.append(firstNm(s) - (before - i) * step), st._2.append(s.v[0])))
    pure val b = range(1, after + 1).foldl((a._1.concat(s.nm), a._2.concat(s.v)), (st, i) =>
      (st._1.append(lastNm(s) + i * step), st._2.append(lastV(s))))
    pure val sh = shapeOf(b._1)
    { nm: b._1, v: b._2, sh: { start: sh.start, end: sh.end, step: if (s.sh.step != 0) s.sh.step else sh.step }, vt: s.vt,
      nt: if (before + after == 0 or (s.nt == 0 and dyadic(step))) s.nt else s.nt + maxf(before, after) * s.st + ONE / 2^40,
      st: if (s.sh.step != 0) s.st else if (s.nt == 0) 0 else GAPERR }
  }
  /// num / den times every value
  pure def scaled(s: Sp, num: int, den: int): Sp =
    { nm: s.nm, v: mapl2(s.v, num, den), sh: shapeOf(s.nm),
      vt: div(mul(s.vt, absf(num)), absf(den)) + mul(div(mul(maxAbs(s.v), absf(num)), absf(den)), 2 * ulp(64)) + 1, nt: s.nt,
      // the interval is found again from the first two wavelengths
      st: if (s.nt == 0) 0 else s.st + GAPERR }
  pure def mapl2(l: List[int], num: int, den: int): List[int] = l.foldl([], (acc, x) => acc.append((x * num) / den))

  // ---- what a spectrum looks like from outside --------------------------------------
  /// start, end, interval, length, emptiness, first, last, samples, accessors agree
  pure def view(s: Sp): List[Iv] = {
    pure val n = samples(s)
    pure def w(x: int): Iv = within(x, s.nt)
    pure val top = [w(s.sh.start), w(s.sh.end), within(s.sh.step, s.st), exactly(n * ONE), exactly(0),
      w(firstNm(s)), within(s.v[0], s.vt), w(lastNm(s)), within(lastV(s), s.vt)]
    range(0, n).foldl(top, (l, i) => l.append(within(s.nm[i], s.nt)).append(within(s.v[i], s.vt))).append(exactly(ONE))
  }

  // ---- invariants of a spectrum --------------------------------------------------------
  pure def sound(s: Sp): bool = and {
    s.sh.start == s.nm[0],
    // the last sample reaches the declared end to within one interval
    s.sh.end >= lastNm(s) - GRAIN,
    s.sh.step > 0 implies s.sh.end - lastNm(s) < s.sh.step,
    s.sh.step != 0 implies s.nm.indices().forall(i => absf(s.nm[i] - s.sh.start - i * s.sh.step) <= 200 * E11),
    s.nm.length() == s.v.length(),
  }
}
