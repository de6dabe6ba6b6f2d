// -*- mode: Bluespec; -*-
/// Generators of spectra and shapes from one seed.
module gensp {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"

  // ---- inputs -----------------------------------------------------------------
  pure val STEPS: List[int] = [ONE, 5 * ONE, 10 * ONE, 20 * ONE, 2 * ONE, rat(5, 2), rat(109375, 10000), ONE / 2, 7 * ONE, 4 * ONE]
  pure val ODDSTEPS: List[int] = [f64(rat(1, 10)), f64(rat(3, 10)), f64(rat(33, 10)), f64(rat(10, 3)), f64(rat(47, 10))]
  pure def pickStep(s: int, i: int): int =
    if (rnd(s, i) % 6 == 0) ODDSTEPS[rndIn(s, i + 1000, 0, 4)] else STEPS[rndIn(s, i + 1000, 0, 9)]
  /// multiples of a quarter nanometre, mostly whole, mostly multiples of ten
  pure def pickNm(s: int, i: int, lo: int, hi: int): int = {
    pure val k = rnd(s, i) % 4
    if (k == 0) rndIn(s, i + 500, 4 * lo, 4 * hi) * (ONE / 4)
    else if (k == 1) rndIn(s, i + 500, lo, hi) * ONE
    else rndIn(s, i + 500, lo / 10, hi / 10) * 10 * ONE
  }
  /// sample values: noise, constant, a single spike, a ramp, negative and large ones
  pure def values(s: int, n: int): List[int] = {
    pure val k = rnd(s, 70) % 14
    pure val p = rndIn(s, 71, 0, n - 1)
    pure val a = f64(rndReal(s, 72, ONE / 16, 4 * ONE))
    pure val m = rndLog(s, 73, -40, 20)
    range(0, n).foldl([], (l, i) => l.append(
      if (k == 0) a
      else if (k == 1) (if (i == p) a else 0)
      else if (k == 2) f64((i * a) / 4)
      else if (k == 3) f64(rndReal(s, 100 + i, -500 * ONE, 500 * ONE))
      // any magnitude; runs of equal values; zeros in between; steps; alternating; mirror image
      else if (k == 8) f64(mul(m, rndReal(s, 100 + i, -ONE, ONE)))
      else if (k == 9) f64(rndReal(s, 100 + i / 4, 0, ONE))
      else if (k == 10) (if (rnd(s, 400 + i) % 3 == 0) f64(rndReal(s, 100 + i, 0, ONE)) else 0)
      else if (k == 11) (if (i < p) 0 else a)
      else if (k == 12) (if (i % 2 == 0) a else -a)
      else if (k == 13) f64(rndReal(s, 100 + minf(i, n - 1 - i), 0, ONE))
      else f64(rndReal(s, 100 + i, 0, ONE))))
  }
  /// a spectrum of explicitly listed samples
  pure def pickSp(s: int, maxn: int): Sp = {
    pure val n = if (rnd(s, 60) % 4 == 0) rndIn(s, 61, 2, 6) else rndIn(s, 61, 2, maxn)
    pure val start = if (rnd(s, 68) % 8 == 0) pickNm(s, 62, 0, 3000) else pickNm(s, 62, 300, 700)
    pure val v = values(s, n)
    pure val mode = rnd(s, 63) % 8
    if (mode <= 4) {
      pure val step = pickStep(s, 64)
      pure val nm = range(0, n).foldl([], (l, i) => l.append(f64(start + i * step)))
      mk(nm, v, 0)
    } else if (mode == 5) {
      // all gaps equal but one, by a little
      pure val step = STEPS[rndIn(s, 64, 0, 9)]
      pure val odd = rndIn(s, 65, 1, n - 1)
      // the shift is far above the rounding of a wavelength
      pure val by = [ONE / 1024, -ONE / 1024, ONE / 2^20, -ONE / 2^20, ONE / 2^28, ONE / 4, -ONE / 4][rndIn(s, 66, 0, 6)]
      // one gap, or one sample (two gaps), differs
      pure val one = rnd(s, 67) % 2 == 0
      mk(range(0, n).foldl([], (l, i) => l.append(start + i * step + (if (n > 2 and (if (one) i == odd else i >= odd)) by else 0))), v, 0)
    } else {
      pure val nm = range(1, n).foldl([start], (l, i) => l.append(l[i - 1] + rndIn(s, 300 + i, 1, 120) * (ONE / 4)))
      mk(nm, v, 0)
    }
  }
  /// a range relative to a spectrum: nested, overlapping, wider, on its samples, between them
  pure def pickRange(s: int, sp: Sp, i: int): (int, int) = {
    pure val lo = firstNm(sp)
    pure val hi = lastNm(sp)
    pure def edge(j: int): int = {
      pure val k = rnd(s, i + j) % 7
      if (k == 0) sp.nm[rndIn(s, i + j + 20, 0, samples(sp) - 1)]
      else if (k == 1) lo - pickNm(s, i + j + 40, 1, 60)
      else if (k == 2) hi + pickNm(s, i + j + 40, 1, 60)
      // just off a sample
      else if (k == 3 and sp.nt == 0) sp.nm[rndIn(s, i + j + 20, 0, samples(sp) - 1)]
        + [ONE / 2^7, -ONE / 2^7, ONE / 2^13, -ONE / 2^13, ONE / 2^19, -ONE / 2^19][rndIn(s, i + j + 80, 0, 5)]
      else lo + (rndReal(s, i + j + 60, 0, hi - lo) / (ONE / 8)) * (ONE / 8)
    }
    pure val a = edge(1)
    pure val b = edge(2)
    (minf(a, b), maxf(a, b))
  }
  /// a boundary that no sample lies on up to rounding
  pure def clearOf(sp: Sp, x: int): int =
    if (sp.nt == 0) x
    else if (sp.nm.foldl(false, (t, w) => t or absf(w - x) < E6)) x + ONE / 64 else x
  pure def pickShape(s: int, sp: Sp, i: int): Shape = {
    pure val r = pickRange(s, sp, i)
    pure val h = { start: f64(clearOf(sp, r._1)), end: f64(clearOf(sp, r._2)), step: pickStep(s, i + 7) }
    if (clearGrid(h)) h else { start: h.start, end: h.end, step: ONE }
  }
  pure def flatSp(sp: Sp): List[int] = sp.nm.concat(sp.v)
  pure def sh3(h: Shape): List[int] = [h.start, h.end, h.step]
}
