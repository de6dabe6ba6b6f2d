// -*- mode: Bluespec; -*-
/// Spectrum to tristimulus values: linear and normalised (C16), ASTM E308 (C17).
module vconv {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import tables.* from "./tables"
  import conv.* from "./conv"
  import gensp.* from "./gensp"

  var c: Call
  /// what the last call was about, for the invariants
  var sp: Sp
  var light: int

  action init = all { c' = NOCALL, sp' = NOSP, light' = 3 }
  action emit(call: Call, s: Sp, l: int): bool = all { c' = call, sp' = s, light' = l }

  // ---- light sources and observers -------------------------------------------
  /// an illuminant and an observer: both built in (index), or given by samples
  type Setup = { ints: List[int], fs: List[int], wt: Weights, kind: str }
  pure def builtin(k: int): Setup = { ints: [k, 0, 0], fs: [], wt: WT[k], kind: "published illuminant" }

  /// an illuminant: a few positive samples, or emission lines
  pure def pickLight(s: int): Sp = if (rnd(s, 17) % 3 == 0) pickLines(s) else pickSmooth(s)
  /// narrow emission lines, dark in between (the weights of 10 nm data then change sign)
  pure def pickLines(s: int): Sp = {
    pure val num = rndIn(s, 201, 1, 4)
    pure val at = tab(num, k => if (rnd(s, 202 + k) % 2 == 0) 10 * rndIn(s, 212 + k, 8, 29) + 5 else rndIn(s, 212 + k, 80, 300))
    pure val wide = rnd(s, 232) % 2
    pure val power2 = if (rnd(s, 233) % 2 == 0) ONE else rndLog(s, 234, -40, 40)
    pure val floor2 = if (rnd(s, 235) % 3 == 0) power2 / 1024 else 0
    mk(range(0, NV).foldl([], (l, i) => l.append((360 + i) * ONE)),
      range(0, NV).foldl([], (l, i) => l.append(f64(at.foldl(floor2, (t, x) => t + (if (i >= x and i <= x + wide) power2 else 0))))), 0)
  }
  /// a positive spectrum of 2 .. 40 samples somewhere around the visible range
  pure def pickSmooth(s: int): Sp = {
    pure val n = rndIn(s, 10, 2, 30)
    pure val start = pickNm(s, 11, 250, 500)
    pure val step = if (rnd(s, 12) % 2 == 0) 10 * ONE else pickStep(s, 13)
    pure val vary = rnd(s, 14) % 4 == 0
    pure val nm = range(1, n).foldl([start], (l, i) => l.append(f64(if (vary) l[i - 1] + rndIn(s, 300 + i, 1, 120) * (ONE / 4) else start + i * step)))
    // any size of light source: relative, absolute, per nanometre
    pure val power1 = if (rnd(s, 15) % 2 == 0) ONE else rndLog(s, 16, -40, 40)
    mk(nm, range(0, n).foldl([], (l, i) => l.append(f64(mul(power1, rndReal(s, 400 + i, ONE / 2, 2 * ONE))))), 0)
  }
  /// any triple of spectra is an observer; the three need not share their wavelengths
  pure def pickObserver(s: int): List[Sp] = {
    pure val n = rndIn(s, 20, 8, 30)
    pure val own = rnd(s, 23) % 3 == 0
    range(0, 3).foldl([], (acc, k) => {
      pure val start = pickNm(s, if (own) 21 + 3000 * k else 21, 300, 400)
      pure val step = if (rnd(s, if (own) 22 + 3000 * k else 22) % 3 == 0) 5 * ONE else 20 * ONE
      acc.append(mk(range(0, n).foldl([], (l, i) => l.append(start + i * step)),
        range(0, n).foldl([], (l, i) => l.append(f64(rndReal(s, 500 + 50 * k + i, ONE / 4, 2 * ONE)))), 0))
    })
  }
  pure def flatObs(ob: List[Sp]): List[int] = flatSp(ob[0]).concat(flatSp(ob[1])).concat(flatSp(ob[2]))
  pure def custom(s: int, ownObs: bool): Setup = {
    pure val il = pickLight(s)
    pure val ia = align(il, VIS)
    if (ownObs) {
      pure val ob = pickObserver(s)
      pure val oa = ob.foldl([], (l, x) => l.append(align(x, VIS)))
      { ints: [-1, samples(il), samples(ob[0])], fs: flatSp(il).concat(flatObs(ob)),
        wt: product(ia.v, ia.vt, oa.foldl([], (l, x) => l.append(x.v)), oa.foldl(0, (t, x) => maxf(t, x.vt))), kind: "own illuminant and observer" }
    }
    else { ints: [-1, samples(il), 0], fs: flatSp(il), wt: product(ia.v, ia.vt, OBS, E12 / 1000), kind: "own illuminant" }
  }
  pure def pickSetup(s: int): Setup = {
    pure val k = rnd(s, 1) % 10
    pure val u = if (k < 7) builtin(k % 4) else custom(s, k == 9)
    if (okWeights(u.wt)) u else builtin(3)
  }
  pure val LIGHTS = [3, 0, 1, 2]

  // ---- reflectances -------------------------------------------------------------
  pure def grid10(lo: int, n: int): List[int] = range(0, n).foldl([], (l, i) => l.append((lo + 10 * i) * ONE))
  /// wavelengths of a measurement
  pure def pickWl(s: int): List[int] = {
    pure val k = rnd(s, 30) % 14
    if (k == 12) {
      // all of the visible range and more, at 1 nm
      pure val lo = rndIn(s, 32, 330, 380) * ONE
      range(0, rndIn(s, 33, 300, 520)).foldl([], (l, i) => l.append(lo + i * ONE))
    }
    else if (k == 13) {
      // finer than 1 nm
      pure val lo = pickNm(s, 32, 340, 500)
      pure val st = [ONE / 2, ONE / 4, 3 * ONE / 4][rndIn(s, 35, 0, 2)]
      range(0, rndIn(s, 33, 100, 600)).foldl([], (l, i) => l.append(lo + i * st))
    }
    else if (k <= 2) {
      // 10 nm on the 360 nm grid: inside, wider than and partly outside the visible range
      pure val lo = if (rnd(s, 31) % 2 == 0) rndIn(s, 32, 30, 44) else rndIn(s, 32, 34, 79)
      grid10(10 * lo, rndIn(s, 33, 2, 50))
    }
    else if (k == 3) {
      // 10 nm off that grid
      pure val lo = rndIn(s, 32, 300, 600) * ONE + (if (rnd(s, 34) % 2 == 0) ONE / 2 else 0)
      range(0, rndIn(s, 33, 2, 45)).foldl([], (l, i) => l.append(lo + 10 * i * ONE))
    }
    else if (k <= 5) {
      // 5 nm
      pure val lo = if (rnd(s, 34) % 3 == 0) rndIn(s, 32, 300, 600) * ONE else rndIn(s, 32, 60, 120) * 5 * ONE
      range(0, rndIn(s, 33, 2, 100)).foldl([], (l, i) => l.append(lo + 5 * i * ONE))
    }
    else if (k <= 7) {
      // 1 nm
      pure val lo = rndIn(s, 32, 300, 760) * ONE + (if (rnd(s, 34) % 5 == 0) ONE / 4 else 0)
      range(0, rndIn(s, 33, 2, 150)).foldl([], (l, i) => l.append(lo + i * ONE))
    }
    else if (k == 8) {
      pure val lo = pickNm(s, 32, 300, 700)
      range(0, rndIn(s, 33, 2, 25)).foldl([], (l, i) => l.append(lo + 20 * i * ONE))
    }
    else if (k == 9) {
      pure val lo = pickNm(s, 32, 300, 700)
      pure val step = pickStep(s, 35)
      range(0, rndIn(s, 33, 2, 40)).foldl([], (l, i) => l.append(f64(lo + i * step)))
    }
    else if (k == 10) {
      pure val lo = pickNm(s, 32, 300, 500)
      range(1, rndIn(s, 33, 3, 30)).foldl([lo], (l, i) => l.append(l[i - 1] + rndIn(s, 300 + i, 1, 120) * (ONE / 4)))
    }
    // entirely below or above the visible range
    else if (rnd(s, 34) % 2 == 0) range(0, rndIn(s, 33, 2, 8)).foldl([], (l, i) => l.append((280 + i * (1 + rnd(s, 36) % 10)) * ONE))
    else range(0, rndIn(s, 33, 2, 8)).foldl([], (l, i) => l.append((781 + i * (1 + rnd(s, 36) % 10) + rnd(s, 37) % 10) * ONE))
  }
  pure def region(s: Sp): str =
    if (lastNm(s) < 360 * ONE) "below the visible range"
    else if (firstNm(s) > 780 * ONE) "above the visible range"
    else if (s.sh.step == 0) "varying"
    else if (method(s) == 10) (if (firstNm(s) < 360 * ONE or lastNm(s) > 780 * ONE) "10 nm, wider than visible" else "10 nm")
    else if (method(s) == 5) "5 nm"
    else if (s.sh.step == ONE) "1 nm"
    else if (s.sh.step == 10 * ONE) "10 nm off the grid"
    else if (s.sh.step == 20 * ONE) "20 nm" else "other interval"
  pure def pickReflectance(s: int): Sp = {
    pure val nm = pickWl(s)
    mk(nm, values(s, nm.length()), 0)
  }
  pure def callFs(u: Setup, m: Sp): List[int] = flatSp(m).concat(u.fs)
  pure def callInts(u: Setup, m: Sp): List[int] = [samples(m)].concat(u.ints)

  // ======================================================================= C17
  action convert = {
    nondet s = SEEDS.oneOf()
    val u = pickSetup(s)
    val m = pickReflectance(s)
    emit(okCall("xyz", callInts(u, m), callFs(u, m), xyzIv(m, u.wt), region(m)), m, if (u.ints[0] >= 0) u.ints[0] else 3)
  }
  /// one sample is one: its own weighting factor
  action impulse = {
    nondet s = SEEDS.oneOf()
    nondet k = 0.to(3).oneOf()
    val nm = pickWl(s)
    val p = rndIn(s, 40, 0, nm.length() - 1)
    val m = mk(nm, range(0, nm.length()).foldl([], (l, i) => l.append(if (i == p) ONE else 0)), 0)
    emit(okCall("xyz", callInts(builtin(k), m), callFs(builtin(k), m), xyzIv(m, WT[k]), region(m)), m, k)
  }
  /// a spectrum whose declared end lies beyond its last sample, on the tabulated intervals
  action declared = {
    nondet s = SEEDS.oneOf()
    nondet st = Set(1, 5, 10).oneOf()
    val lo = rndIn(s, 41, 30, 60) * 10
    val n = rndIn(s, 42, 2, 35)
    val h = { start: lo * ONE, end: (lo + (n - 1) * st) * ONE, step: st * ONE }
    val m = onGrid(h, values(s, n), 0)
    emit(okCall("xyz_vals", [n, 3], sh3(h).concat(m.v), xyzIv(m, WT[3]), region(m)), m, 3)
  }
  /// the chart: spectra and their published tristimulus values
  action chart = {
    nondet k = 0.to(23).oneOf()
    val m = tableSp(spectrumTable(100 + k))
    emit(okCall("xyz_chart", [k], [], xyzIv(m, WT[3]), "chart"), m, 3)
  }
  /// a spectrum that is the result of other operations: 1 extrapolate, 2 align, 3 trim, 4 scale
  action chained = {
    nondet s = SEEDS.oneOf()
    nondet k = 1.to(4).oneOf()
    nondet u = 0.to(3).oneOf()
    val m = pickReflectance(s)
    val lo = rndIn(s, 43, 32, 60) * 10 * ONE
    val st = [ONE, 5 * ONE, 10 * ONE, 20 * ONE][rndIn(s, 44, 0, 3)]
    val h = { start: lo, end: lo + rndIn(s, 45, 3, 45) * 10 * ONE, step: st }
    val step = if (m.sh.step != 0) m.sh.step else h.step
    val fine = k != 1 or (dyadic(step) and maxf(0, div(firstNm(m) - h.start, step)) + maxf(0, div(h.end - lastNm(m), step)) < 400 * ONE)
    val by = f64(rndReal(s, 46, ONE / 4, 2 * ONE))
    val r = if (not(fine)) NOSP else if (k == 1) extrapolate(m, h) else if (k == 2) align(m, h) else if (k == 3) trimTo(m, h) else scaled(m, by, ONE)
    if (samples(r) < 2 or r.nt != 0) emit(NOCALL, NOSP, 3)
    else emit(okCall("xyz_op", [k, samples(m), u], flatSp(m).concat(sh3(h)).append(by), xyzIv(r, WT[u]), "after another operation"), r, u)
  }
  /// the weighting factors' Lagrange coefficients at every node, for any whole interval
  pure def lagNode(r: int, j: int, deg: int): int =
    range(0, deg).foldl(ONE, (acc, i) => if (i == j) acc else mul(acc, r - i * ONE) / (j - i))
  action lagrange = {
    nondet s = SEEDS.oneOf()
    nondet deg = 3.to(4).oneOf()
    nondet iv = 2.to(40).oneOf()
    val exp = range(1, iv).foldl([], (l, k) => {
      val r = rat(k, iv) + (if (deg == 4) ONE else 0)
      range(0, deg).foldl(l, (acc, j) => acc.append(within(lagNode(r, j, deg), 64 * ulp(64))))
    })
    emit(okCall("lagrange", [iv, deg], [iv * ONE], exp, "coefficients"), NOSP, 3)
  }
  /// equally spaced numbers from start to end
  action spaced = {
    nondet s = SEEDS.oneOf()
    val a = f64(rndReal(s, 47, -1000 * ONE, 1000 * ONE))
    val b = f64(rndReal(s, 48, -1000 * ONE, 1000 * ONE))
    val num = rndIn(s, 49, 0, 40)
    emit(okCall("linspace", [num], [a, b], tabIv(num, i => within(if (num == 1) a else a + ((b - a) * i) / (num - 1), 4000 * ulp(64))), "equally spaced"), NOSP, 3)
  }
  action stepC17 = any { chained, lagrange, spaced, convert, convert, convert, convert, impulse, impulse, declared, chart }

  /// the published tristimulus values of the chart are those of this specification
  val specChart = c.op == "xyz_chart" implies {
    val x = toXyz(sp, WT[3])
    0.to(2).forall(i => absf(x[i] - entry(CHARTXYZ, 3 * c.ints[0] + i)) < E9)
  }

  // ======================================================================= C16
  /// a reflectance of one everywhere, however sampled
  action perfect = {
    nondet s = SEEDS.oneOf()
    val u = pickSetup(s)
    val nm = pickWl(s)
    val a = if (rnd(s, 50) % 3 == 0) f64(rndReal(s, 51, ONE / 8, 2 * ONE)) else ONE
    val m = mk(nm, range(0, nm.length()).foldl([], (l, i) => l.append(a)), 0)
    val w = whiteOf(u.wt, every(m))
    val t = xyzTol(sizeOf(m), evalTol(m), u.wt, every(m))
    emit(okCall("xyz", callInts(u, m), callFs(u, m),
      tabIv(3, i => if (i == 1) within(100 * a, t[i]) else within(mul(w[i], a), t[i])), region(m)), m, if (u.ints[0] >= 0) u.ints[0] else 3)
  }
  /// a constant built from a shape (whose end may lie between samples)
  action perfectShape = {
    nondet s = SEEDS.oneOf()
    val u = pickSetup(s)
    val h = { start: pickNm(s, 52, 300, 780), end: 0, step: pickStep(s, 53) }
    val n = rndIn(s, 54, 2, 60)
    val g = { ...h, end: f64(h.start + (n - 1) * h.step + (if (rnd(s, 55) % 2 == 0) (h.step * rndIn(s, 56, 1, 7)) / 8 else 0)) }
    val m = onGrid(g, range(0, n).foldl([], (l, i) => l.append(ONE)), 0)
    val w = whiteOf(u.wt, every(m))
    val t = xyzTol(sizeOf(m), evalTol(m), u.wt, every(m))
    if (not(clearGrid(g)) or gridSize(g) != n) emit(NOCALL, NOSP, 3)
    else emit(okCall("xyz_const", u.ints, sh3(g).append(ONE).concat(u.fs), tabIv(3, i => if (i == 1) within(100 * ONE, t[i]) else within(w[i], t[i])), region(m)), m, 3)
  }
  /// xyz(a s + b t) - a xyz(s) - b xyz(t), for measurements on the same wavelengths
  action linear = {
    nondet s = SEEDS.oneOf()
    nondet s2 = SEEDS.oneOf()
    val u = pickSetup(s)
    val m = pickReflectance(s)
    val n = samples(m)
    val v = range(0, n).foldl([], (l, i) => l.append(f64(rndReal(s2, 100 + i, -ONE, ONE))))
    val a = f64(rndReal(s, 57, -4 * ONE, 4 * ONE))
    val b = f64(rndReal(s, 58, -4 * ONE, 4 * ONE))
    val m2 = mk(m.nm, v, 0)
    val q = mk(m.nm, range(0, n).foldl([], (l, i) => l.append(mul(a, m.v[i]) + mul(b, v[i]))), 0)
    val t0 = xyzTol(sizeOf(q), 4 * evalTol(q), u.wt, every(m))
    val t1 = xyzTol(sizeOf(m), 4 * evalTol(m), u.wt, every(m))
    val t2 = xyzTol(sizeOf(m2), 4 * evalTol(m2), u.wt, every(m))
    emit(okCall("xyz_lin", callInts(u, m), flatSp(m).concat(v).concat([a, b]).concat(u.fs),
      tabIv(3, i => within(0, t0[i] + mul(absf(a), t1[i]) + mul(absf(b), t2[i]))), region(m)), m, 3)
  }
  /// xyz under k times the illuminant - xyz under the illuminant
  action dimmed = {
    nondet s = SEEDS.oneOf()
    val u = pickSetup(s)
    val m = pickReflectance(s)
    val k = f64(rndLog(s, 59, -60, 60))
    val t = xyzTol(sizeOf(m), 4 * evalTol(m), u.wt, every(m))
    emit(okCall("xyz_dim", callInts(u, m), flatSp(m).append(k).concat(u.fs), tabIv(3, i => within(0, 2 * t[i])), region(m)), m, 3)
  }
  action stepC16 = any { perfect, perfect, perfectShape, linear, linear, dimmed }

  /// in this specification a perfect reflector has Y = 100 up to truncation
  val specPerfect = (c.op == "xyz" and samples(sp) > 0 and sp.v.foldl(true, (t, x) => t and x == ONE)) implies
    absf(toXyz(sp, WT[light])[1] - 100 * ONE) < E12
  /// 1, 5 and 10 nm agree on a straight line to the accuracy of the summation
  val specAdditive = (c.op == "xyz_dim" and samples(sp) > 1) implies {
    val x = toXyz(sp, WT[3])
    val y = toXyz({ ...sp, v: sp.v.foldl([], (l, w) => l.append(ONE - w)) }, WT[3])
    val w = whiteOf(WT[3], every(sp))
    0.to(2).forall(i => absf(x[i] + y[i] - w[i]) < E9)
  }

  // ======================================================================= C23
  pure val YSP: Sp = tableSp(YBAR)
  pure val YQ: List[List[int]] = quintics(YSP.v)
  /// luminous efficiency at the wavelengths of a measurement
  pure def efficiency(o: Sp, q: List[List[int]], nm: List[int]): List[int] =
    nm.foldl([], (l, x) => l.append(if (x < firstNm(o)) o.v[0] else if (x > lastNm(o)) lastV(o) else evalAt(o, q, x)))
  /// 683 times the mean of spectrum times efficiency
  pure def nitIv(m: Sp, o: Sp, q: List[List[int]]): Iv = {
    pure val e = efficiency(o, q, m.nm)
    pure val n = samples(m)
    pure val total2 = range(0, n).foldl((0, 0), (t, i) => (t._1 + mul(m.v[i], e[i]), t._2 + mul(absf(m.v[i]), absf(e[i]))))
    within((683 * total2._1) / n, (683 * (mul(total2._2, 400 * ulp(64)) + mul(n * maxAbs(m.v), evalTol(o) + mul(maxAbs(o.v), if (dyadic(m.sh.step)) 0 else E9)) + 1)) / n)
  }
  pure def pickUniform(s: int): Sp = {
    pure val k = rnd(s, 80) % 4
    pure val lo = pickNm(s, 81, 250, 850)
    pure val step = pickStep(s, 82)
    pure val n = if (k == 0) rndIn(s, 83, 2, 6) else rndIn(s, 83, 2, 90)
    // sometimes from the longest wavelength to the shortest
    pure val down = rnd(s, 78) % 10 == 0
    mk(range(0, n).foldl([], (l, i) => l.append(f64(lo + (if (down) n - 1 - i else i) * step))), values(s, n), 0)
  }
  action nits = {
    nondet s = SEEDS.oneOf()
    nondet own = Set(false, false, true).oneOf()
    val m = pickUniform(s)
    if (m.sh.step == 0) emit(NOCALL, NOSP, 3)
    else if (own) {
      val ob = pickObserver(s)
      emit(okCall("nit", [samples(m), 0, 0, samples(ob[0])], flatSp(m).concat(flatObs(ob)),
        [nitIv(m, ob[1], quintics(ob[1].v))], "own observer"), m, 3)
    }
    else emit(okCall("nit", [samples(m), 0, 0, 0], flatSp(m), [nitIv(m, YSP, YQ)],
      if (firstNm(m) > lastNm(m)) "descending" else if (firstNm(m) < 360 * ONE or lastNm(m) > 830 * ONE) "outside the observer's range" else "inside"), m, 3)
  }
  /// a zero spectrum has no luminance; a single sample counts by its own wavelength
  action nitSpecial = {
    nondet s = SEEDS.oneOf()
    nondet zero = Set(true, false).oneOf()
    val n = rndIn(s, 84, 2, 60)
    val h0 = { start: pickNm(s, 85, 300, 700), end: 0, step: pickStep(s, 86) }
    val h = { ...h0, end: f64(h0.start + (n - 1) * h0.step + (if (rnd(s, 87) % 2 == 0) (h0.step * rndIn(s, 88, 1, 7)) / 8 else 0)) }
    val p = rndIn(s, 89, 0, n - 1)
    val m = onGrid(h, range(0, n).foldl([], (l, i) => l.append(if (i == p and not(zero)) ONE else 0)), 0)
    if (not(clearGrid(h)) or gridSize(h) != n) emit(NOCALL, NOSP, 3)
    else emit(okCall("nit_vals", [n, 0, 0, 0], sh3(h).concat(m.v), [if (zero) exactly(0) else nitIv(m, YSP, YQ)], if (zero) "zero" else "one sample"), m, 3)
  }
  action stepC23 = any { nits, nits, nitSpecial }
  /// linear: splitting a spectrum in two and adding gives the whole
  val specNit = (c.op == "nit" and c.tag == "inside") implies {
    val e = efficiency(YSP, YQ, sp.nm)
    // luminous efficiency lies between 0 and 1 where published
    e.foldl(true, (t, x) => t and x > -E5 and x < ONE + E5)
  }
}
