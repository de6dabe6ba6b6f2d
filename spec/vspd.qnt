// -*- mode: Bluespec; -*-
/// Spectra as a state machine (C13), interpolation (C14), trim / extrapolate / align (C15).
module vspd {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import gensp.* from "./gensp"

  pure val NREG = 4
  var c: Call
  /// the spectra the client holds; an empty register has no samples
  var regs: List[Sp]

  action init = all { c' = NOCALL, regs' = [NOSP, NOSP, NOSP, NOSP] }
  action emit(call: Call): bool = all { c' = call, regs' = regs }

  // ======================================================================= C13
  /// the operation answers with the new spectrum, which the client keeps in register d
  action store(d: int, op: str, ints: List[int], fs: List[int], sp: Sp, tag: str): bool = all {
    c' = okCall(op, ints, fs, view(sp), tag),
    regs' = regs.replaceAt(d, sp),
  }
  /// an answer the client does not keep
  action peek(op: str, ints: List[int], fs: List[int], exp: List[Iv], tag: str): bool = emit(okCall(op, ints, fs, exp, tag))
  action skip: bool = emit({ op: "r_none", ints: [], fs: [], kind: "any", exp: [], tag: "not enabled" })
  pure def usable(sp: Sp): bool = samples(sp) >= 2 and sp.vt < E6 and sp.nt < 4 * E11 and sp.st < E11 / 4
  pure def label(sp: Sp): str = if (sp.sh.step == 0) "varying" else if (sp.nt == 0) "uniform" else "uniform, inexact grid"

  /// 0 VSPD::new, 1 collect samples, 2 collect pairs
  action construct = {
    nondet s = SEEDS.oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    nondet how = 0.to(2).oneOf()
    val sp = pickSp(s, 14)
    store(d, "r_new", [d, how, samples(sp)], flatSp(sp), sp, label(sp))
  }
  /// samples in any order are kept in the order given (and need not be uniform)
  action unsorted = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(2).oneOf()
    val sp0 = pickSp(s, 9)
    val n = samples(sp0)
    val k = rndIn(s, 900, 0, n - 1)
    val rev = rnd(s, 901) % 2 == 0
    val nm = range(0, n).foldl([], (l, i) => l.append(sp0.nm[if (rev) n - 1 - i else (i + k) % n]))
    // a wavelength may be given more than once, with the same value or another
    val twice = rnd(s, 902) % 3
    val at = rndIn(s, 903, 0, n - 2)
    val nm2 = if (twice == 0 or n < 3) nm else nm.replaceAt(at + 1, nm[at])
    val sp = mk(nm2, if (twice == 2 and n >= 3) sp0.v.replaceAt(at + 1, sp0.v[at]) else sp0.v, 0)
    peek("r_peek", [how, n], flatSp(sp), view(sp), if (nm2 == nm) "any order" else "repeated wavelength")
  }
  /// a shape and one value per wavelength of it
  action fromValues = {
    nondet s = SEEDS.oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    nondet extra = (-1).to(1).oneOf()
    nondet constant = Set(true, false).oneOf()
    val step = pickStep(s, 1)
    val start = pickNm(s, 2, 300, 700)
    val n = rndIn(s, 3, 2, 14)
    // the declared end may lie beyond the last sample, by less than an interval
    val end = f64(start + (n - 1) * step + (if (rnd(s, 4) % 3 == 0) (step * rndIn(s, 5, 1, 7)) / 8 else 0))
    val h = { start: start, end: end, step: step }
    val v = values(s, n + extra)
    if (not(clearGrid(h)) or gridSize(h) != n) skip
    else if (constant) {
      val x = f64(rndReal(s, 6, -ONE, ONE))
      store(d, "r_const", [d], sh3(h).append(x), onGrid(h, range(0, n).foldl([], (l, i) => l.append(x)), 0), "constant")
    }
    else if (extra != 0) emit(panicCall("r_vals", [d, n + extra], sh3(h).concat(v), if (extra < 0) "too few values" else "too many values"))
    else store(d, "r_vals", [d, n], sh3(h).concat(v), onGrid(h, v, 0), if (end == start + (n - 1) * step) "values" else "values, end between samples")
  }
  /// fewer than two samples are refused
  action tooFew = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(2).oneOf()
    nondet n = 0.to(1).oneOf()
    emit(panicCall("r_peek", [how, n], if (n == 0) [] else [400 * ONE, ONE], "too few samples"))
  }
  action doInterpolate = {
    nondet s = SEEDS.oneOf()
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    val sp = regs[a]
    if (not(usable(sp))) skip
    else {
      val h = pickShape(s, sp, 10)
      val k = clip(sp, h)
      if (k.end < k.start or not(clearGrid(k)) or gridSize(k) > 120) skip
      else {
        val r = interpolate(sp, h)
        // beyond the last sample (up to the declared end) only the grid is specified
        if (lastNm(r) > lastNm(sp) + GRAIN)
          peek("r_interp", [-1, a], sh3(h), range(0, samples(r)).foldl(view(r), (l, i) =>
            if (r.nm[i] > lastNm(sp)) l.replaceAt(10 + 2 * i, ANYFINITE).replaceAt(8, ANYFINITE) else l), "past the last sample")
        else store(d, "r_interp", [d, a], sh3(h), r, label(sp))
      }
    }
  }
  action doExtrapolate = {
    nondet s = SEEDS.oneOf()
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    val sp = regs[a]
    if (not(usable(sp))) skip
    else {
      val h = pickShape(s, sp, 20)
      val step = if (sp.sh.step != 0) sp.sh.step else h.step
      val q = maxf(0, div(firstNm(sp) - h.start, step)) + maxf(0, div(h.end - lastNm(sp), step))
      if (q > 60 * ONE or not(clearGrid({ start: h.start, end: maxf(h.start, firstNm(sp)), step: step }))
          or not(clearGrid({ start: minf(h.end, lastNm(sp)), end: h.end, step: step }))) skip
      else {
        val r = extrapolate(sp, h)
        store(d, "r_extrap", [d, a], sh3(h), r, if (samples(r) == samples(sp)) "nothing to add" else label(sp))
      }
    }
  }
  action doAlign = {
    nondet s = SEEDS.oneOf()
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    val sp = regs[a]
    if (not(usable(sp))) skip
    else {
      val h = pickShape(s, sp, 30)
      if (gridSize(h) > 120) skip else store(d, "r_align", [d, a], sh3(h), align(sp, h), label(sp))
    }
  }
  action doTrim = {
    nondet s = SEEDS.oneOf()
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    val sp = regs[a]
    if (samples(sp) == 0) skip
    else {
      val h = pickShape(s, sp, 40)
      val r = trimTo(sp, h)
      // nothing left: unspecified
      if (samples(r) == 0) skip else store(d, "r_trim", [d, a], sh3(h), r, if (samples(r) == samples(sp)) "nothing to drop" else label(sp))
    }
  }
  /// 0 &s * k, 1 s * k, 2 &s / k, 3 s / k
  action doScale = {
    nondet s = SEEDS.oneOf()
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    nondet how = 0.to(3).oneOf()
    val sp = regs[a]
    val k = f64(if (rnd(s, 3) % 3 == 0) rndLog(s, 1, -30, 30) else rndReal(s, 1, ONE / 4, 4 * ONE))
    val kk = if (rnd(s, 2) % 3 == 0) -k else k
    if (not(usable(sp))) skip
    // equal gaps up to rounding must not sit at the threshold of "equal"
    else store(d, "r_scale", [d, a, how], [kk], if (how < 2) scaled(sp, kk, ONE) else scaled(sp, ONE, kk), label(sp))
  }
  action doClone = {
    nondet a = 0.to(NREG - 1).oneOf()
    nondet d = 0.to(NREG - 1).oneOf()
    if (samples(regs[a]) == 0) skip else store(d, "r_clone", [d, a], [], regs[a], "clone")
  }
  /// spectra held by the client have not changed
  action look = {
    nondet a = 0.to(NREG - 1).oneOf()
    if (samples(regs[a]) == 0) skip else peek("r_dump", [a], [], view(regs[a]), "unchanged")
  }
  /// equal means: same shape and same samples (decided where rounding cannot blur it)
  action compare = {
    nondet a = 0.to(NREG - 1).oneOf()
    nondet b = 0.to(NREG - 1).oneOf()
    val x = regs[a]
    val y = regs[b]
    if (samples(x) == 0 or samples(y) == 0) skip
    else {
      val exact = x.vt == 0 and y.vt == 0 and x.nt == 0 and y.nt == 0
      val differ = samples(x) != samples(y) or absf(x.sh.start - y.sh.start) > x.nt + y.nt
      if (a == b) peek("r_eq", [a, b], [], [exactly(ONE), exactly(ONE)], "same")
      else if (exact) {
        val same = x.nm == y.nm and x.v == y.v
        peek("r_eq", [a, b], [], [exactly(if (same and x.sh == y.sh) ONE else 0), exactly(if (same) ONE else 0)], if (same) "equal" else "different")
      }
      else if (differ) peek("r_eq", [a, b], [], [exactly(0), exactly(0)], "different")
      else skip
    }
  }
  /// one sample differs, in value or in wavelength
  action almost = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 12)
    val i = rndIn(s, 800, 0, samples(sp) - 1)
    val inV = rnd(s, 801) % 2 == 0
    // by much, by a little, by one unit in the last place
    val by = if (rnd(s, 802) % 3 == 0) ONE / 4 else if (rnd(s, 802) % 3 == 1) rndLog(s, 803, -50, -3)
      else if (sp.v[i] == 0) ONE / 2^70 else maxf(1, 2^(ilog2(absf(sp.v[i]))) / 2^52)
    val y = if (inV) mk(sp.nm, sp.v.replaceAt(i, f64(sp.v[i] + by)), 0)
      else mk(sp.nm.replaceAt(i, f64(sp.nm[i] + [ONE / 8, ONE / 2^12, ONE / 2^20][rndIn(s, 804, 0, 2)])), sp.v, 0)
    val still = exactly(if (y.nm == sp.nm and y.v == sp.v) ONE else 0)
    peek("sp_eq", [samples(sp)], flatSp(sp).concat(flatSp(y)), [still, still], if (inV) "value differs" else "wavelength differs")
  }
  /// approximate equality: as many samples, and every wavelength and every value within the margin
  /// (an absolute one, or in units in the last place)
  action alike = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 12)
    val n = samples(sp)
    val far = rnd(s, 820) % 2 == 0
    val i = rndIn(s, 821, 0, n - 1)
    val side = rnd(s, 822) % 3
    val eps = ONE / 2^(rndIn(s, 823, 3, 12))
    // far in nothing else than one value, one wavelength, or a sample more
    def off(j: int, k: int): int = {
      val sg = if (rnd(s, 840 + 2 * j + k) % 2 == 0) 1 else -1
      sg * (if (far and j == i and k == side) 2 * eps else if (rnd(s, 870 + 2 * j + k) % 2 == 0) eps / 2 else 0)
    }
    val b = range(0, n).foldl(([], []), (st, j) => (st._1.append(f64(sp.nm[j] + off(j, 0))), st._2.append(f64(sp.v[j] + off(j, 1)))))
    val longer = far and side == 2
    val nm2 = if (longer) b._1.append(f64(lastNm(sp) + 10 * ONE)) else b._1
    val v2 = if (longer) b._2.append(lastV(sp)) else b._2
    // the margin needs to be far above the rounding of a value
    val scale = maxf(maxAbs(sp.v), maxAbs(sp.nm))
    if (mul(scale, ONE / 2^50) > eps / 8) skip
    else peek("sp_alike", [n, n + (if (longer) 1 else 0)], [eps].concat(flatSp(sp)).concat(nm2).concat(v2), [exactly(if (far) 0 else ONE), exactly(if (far) 0 else ONE)],
      if (not(far)) "alike" else if (longer) "longer" else if (side == 0) "wavelength off" else "value off")
  }
  /// many samples, one of them possibly off the grid: what the client sees, and the operations on it
  action longShape = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(2).oneOf()
    val g = pickLong(s)
    val last = g.start + (g.n - 1) * g.step
    // sample `odd` moved by a quarter of the interval or by a little
    val odd = if (rnd(s, 710) % 3 == 0) -1 else if (rnd(s, 710) % 3 == 1) g.n - 1 - rndIn(s, 711, 0, 3) else rndIn(s, 711, 1, g.n - 1)
    val by = if (odd < 0) 0 else if (rnd(s, 712) % 2 == 0) g.step / 4 else ONE / 2^20
    val end = if (odd == g.n - 1) last + by else last
    val endV = longV(g, g.n - 1)
    val factor = rndIn(s, 713, 2, 9) * ONE
    emit(okCall("long_view", [how, g.n, g.pat.length(), odd], [by, factor].concat(longArgs(g)),
      [exactly(g.start), exactly(end), exactly(if (odd < 0) g.step else 0), exactly(g.n * ONE), exactly(longV(g, 0)), exactly(endV),
       // every sample is where and what it was given; a copy is equal; scaled samples are scaled, and unscaled again
       exactly(ONE), exactly(ONE), exactly(ONE), exactly(ONE),
       // not equal to one with another value, or wavelength, at `odd` (or at the end)
       exactly(0), exactly(0)], if (odd < 0) "long, uniform" else "long, one gap differs"))
  }
  action stepC13 = any {
    longShape, construct, construct, fromValues, fromValues, unsorted, tooFew, almost, alike,
    doInterpolate, doInterpolate, doExtrapolate, doExtrapolate, doAlign, doAlign, doTrim, doTrim, doScale, doClone, look, look, compare,
  }
  /// every spectrum in every reachable state has a sound shape
  val specSound = regs.indices().forall(i => samples(regs[i]) > 0 implies sound(regs[i]))

  // ======================================================================= C14
  /// 0 Sprague, 1 linear interpolator; several points at once
  pure def evalPoint(s: int, sp: Sp, j: int, outside: bool): int = {
    pure val n = samples(sp)
    pure val g = if (rnd(s, 400 + j) % 3 == 0) (if (rnd(s, 420 + j) % 2 == 0) 0 else n - 2) else rndIn(s, 440 + j, 0, n - 2)
    pure val a = sp.nm[g]
    pure val b = sp.nm[g + 1]
    pure val k = rnd(s, 460 + j) % 8
    f64(if (k == 0) a else if (k == 1) b else if (k == 2) a + (b - a) / 2
      else if (k == 3) a + (b - a) / 10^9 else if (k == 4) b - (b - a) / 10^9
      else if (k == 5 and outside) (if (rnd(s, 480 + j) % 2 == 0) sp.nm[0] - rndReal(s, 490 + j, 0, 300 * ONE) else lastNm(sp) + rndReal(s, 490 + j, 0, 300 * ONE))
      else rndReal(s, 500 + j, a, b))
  }
  pure val NPTS = 10
  pure def inside(sp: Sp, x: int): int = clampf(x, sp.nm[0], lastNm(sp))
  action evaluate = {
    nondet s = SEEDS.oneOf()
    nondet lin = Set(true, false).oneOf()
    val sp = pickSp(s, 20)
    val xs = range(0, NPTS).foldl([], (l, j) => l.append(if (lin) evalPoint(s, sp, j, true) else inside(sp, evalPoint(s, sp, j, false))))
    val q = quintics(sp.v)
    val t = if (lin) mul(maxAbs(sp.v), 8 * ulp(64)) + 1 else evalTol(sp)
    val exp = xs.foldl([], (l, x) => l.append(within(if (lin) linearAt(sp, x) else evalAt(sp, q, x), t)))
    emit(okCall(if (lin) "ip_linear" else "ip_sprague", [samples(sp)], flatSp(sp).concat(xs), exp, label(sp)))
  }
  /// interpolated spectra pass through the samples: same grid, or a refinement of it
  action refine = {
    nondet s = SEEDS.oneOf()
    nondet k = 1.to(6).oneOf()
    val step = STEPS[rndIn(s, 1, 0, 9)]
    val n = rndIn(s, 2, 2, 16)
    val start = pickNm(s, 3, 300, 700)
    val m = if (k == 3 or k == 6) 2 else if (k == 5) 4 else k
    val h = { start: start, end: start + (n - 1) * step, step: step / m }
    val v = values(s, n)
    val sp = onGrid({ start: start, end: h.end, step: step }, v, 0)
    val r = interpolate(sp, h)
    // at the samples themselves: the sample
    val exp = range(0, samples(r)).foldl([], (l, i) => l.append(within(if (i % m == 0) v[i / m] else r.v[i], r.vt)))
    emit(okCall("sp_values", [0, n], flatSp(sp).concat(sh3(h)), exp, if (m == 1) "same grid" else "refined grid"))
  }
  /// a constant stays constant, and straight lines stay straight (uniform samples)
  action reproduce = {
    nondet s = SEEDS.oneOf()
    nondet line = Set(true, false).oneOf()
    val sp0 = pickSp(s, 18)
    val n = samples(sp0)
    val a = f64(rndReal(s, 1, -2 * ONE, 2 * ONE))
    val uni = sp0.sh.step != 0 and dyadic(sp0.sh.step)
    val slope = rndIn(s, 2, -32, 32) * (ONE / 16)
    val v = range(0, n).foldl([], (l, i) => l.append(if (line and uni) i * slope else a))
    val sp = mk(sp0.nm, v, 0)
    val xs = range(0, NPTS).foldl([], (l, j) => l.append(inside(sp, evalPoint(s, sp, j, false))))
    val exp = xs.foldl([], (l, x) => l.append(within(if (line and uni) mul(slope, div(x - sp.nm[0], sp.sh.step)) else a, 2 * evalTol(sp))))
    emit(okCall("ip_sprague", [n], flatSp(sp).concat(xs), exp, if (line and uni) "straight line" else "constant"))
  }
  /// published coefficients, at both precisions
  action coefficients = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = 2.to(4).oneOf()
    val r = tab(8, k => fw(rndReal(s, k, -ONE, ONE), w))
    val q = quintic(r[i - 2], r[i - 1], r[i], r[i + 1], r[i + 2], r[i + 3])
    val cs = C0.concat(C1).concat(C2).concat(C3)
    emit(okCall("ip_coef", [w, i], r, tabIv(24, k => exactly(cs[k] * ONE)).concat(tabIv(6, k => within(q[k], 64 * ulp(w)))), "coefficients"))
  }
  // ---- long spectra: sample i has value pat[i % period] -----------------------
  type Long = { start: int, step: int, n: int, pat: List[int] }
  pure def pickLong(s: int): Long = {
    pure val k = rnd(s, 700) % 3
    { start: pickNm(s, 701, 200, 500), step: [ONE, ONE / 2, ONE / 4, ONE / 8, ONE / 16][rndIn(s, 702, 0, 4)],
      n: if (k == 0) rndIn(s, 703, 20, 200) else if (k == 1) rndIn(s, 703, 200, 1100) else rndIn(s, 703, 1000, 5000),
      pat: range(0, rndIn(s, 704, 3, 7)).foldl([], (l, i) => l.append(f64(rndReal(s, 705 + i, -ONE, ONE)))) }
  }
  pure def longV(g: Long, i: int): int = g.pat[i % g.pat.length()]
  /// with the two extra points on either side
  pure def longExt(g: Long, i: int): int =
    if (i >= 0 and i < g.n) longV(g, i)
    else {
      pure val ends = tab(6, k => longV(g, if (i < 0) k else g.n - 6 + k))
      boundary(if (i == -2) C0 else if (i == -1) C1 else if (i == g.n) C2 else C3, ends)
    }
  pure def longAt(g: Long, x: int): int = {
    pure val gi = clampf(floordiv(x - g.start, g.step), 0, g.n - 2)
    poly(quintic(longExt(g, gi - 2), longExt(g, gi - 1), longExt(g, gi), longExt(g, gi + 1), longExt(g, gi + 2), longExt(g, gi + 3)),
      div(x - g.start - gi * g.step, g.step))
  }
  pure def longLine(g: Long, x: int): int = {
    pure val gj = floordiv(x - g.start, g.step)
    if (gj < 0) longV(g, 0) else if (gj >= g.n - 1) longV(g, g.n - 1)
    else longV(g, gj) + ((longV(g, gj + 1) - longV(g, gj)) * (x - g.start - gj * g.step)) / g.step
  }
  pure def longArgs(g: Long): List[int] = [g.start, g.step].concat(g.pat)
  pure val LONGTOL = 64 * ONE / 2^42
  action evaluateLong = {
    nondet s = SEEDS.oneOf()
    nondet lin = 0.to(1).oneOf()
    val g = pickLong(s)
    val xs = range(0, NPTS).foldl([], (l, j) => {
      val at = if (j < 2) rndIn(s, 720 + j, 0, 4) else if (j < 4) g.n - 2 - rndIn(s, 720 + j, 0, 4) else rndIn(s, 720 + j, 0, g.n - 2)
      val fr = rndIn(s, 740 + j, 0, 16)
      l.append(g.start + at * g.step + fr * (g.step / 16))
    })
    emit(okCall("ip_long", [lin, g.n, g.pat.length()], longArgs(g).concat(xs),
      xs.foldl([], (l, x) => l.append(within(if (lin == 1) longLine(g, x) else longAt(g, x), LONGTOL))), if (lin == 1) "long, linear" else "long"))
  }
  action stepC14 = any { evaluate, evaluate, evaluate, refine, refine, reproduce, coefficients, evaluateLong }

  /// Sprague reproduces quadratics: a check on the polynomial table of this specification
  val specQuintic = c.op == "ip_coef" implies {
    // sample f(k) = k^2 + 3k at k = -2 .. 3
    val q = quintic(-2 * ONE, -2 * ONE, 0, 4 * ONE, 10 * ONE, 18 * ONE)
    absf(poly(q, ONE / 3) - (ONE / 9 + ONE)) < E12 and absf(poly(q, ONE) - 4 * ONE) < E12
  }
  /// each gap's polynomial meets both of its samples
  val specKnots = c.op == "ip_sprague" implies {
    val n = c.ints[0]
    val v = c.fs.slice(n, 2 * n)
    val q = quintics(v)
    q.indices().forall(i => absf(poly(q[i], 0) - v[i]) < E12 and absf(poly(q[i], ONE) - v[i + 1]) < E12)
  }

  // ======================================================================= C15
  /// 0 interpolate, 1 extrapolate, 2 align, 3 trim on a fresh spectrum
  action oneOp = {
    nondet s = SEEDS.oneOf()
    nondet k = 1.to(3).oneOf()
    val sp = pickSp(s, 30)
    val h = pickShape(s, sp, 30)
    val step = if (sp.sh.step != 0) sp.sh.step else h.step
    val ok = if (k == 1) clearGrid({ start: h.start, end: maxf(h.start, firstNm(sp)), step: step })
      and clearGrid({ start: minf(h.end, lastNm(sp)), end: h.end, step: step }) and
      maxf(0, div(firstNm(sp) - h.start, step)) + maxf(0, div(h.end - lastNm(sp), step)) < 200 * ONE
      else gridSize(h) <= 300
    val r = if (not(ok)) NOSP else if (k == 1) extrapolate(sp, h) else if (k == 2) align(sp, h) else trimTo(sp, h)
    if (samples(r) == 0) skip
    else emit(okCall("sp_op", [k, samples(sp)], flatSp(sp).concat(sh3(h)), view(r),
      if (h.start < firstNm(sp) and h.end > lastNm(sp)) "wider" else if (h.end < firstNm(sp) or h.start > lastNm(sp)) "disjoint"
      else if (h.start >= firstNm(sp) and h.end <= lastNm(sp)) "nested" else "overlapping"))
  }
  /// bounds at a sample, or a very little to one side of it
  action trimEdge = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 16)
    val n = samples(sp)
    val i = rndIn(s, 800, 0, n - 1)
    val j = rndIn(s, 801, 0, n - 1)
    val e = tab(2, k => (if (rnd(s, 802 + k) % 2 == 0) -1 else 1) * (if (rnd(s, 804 + k) % 4 == 0) 0
      else if (rnd(s, 804 + k) % 4 == 1) rndIn(s, 806 + k, 1, 3) * (2^(ilog2(sp.nm[i])) / 2^52) else rndLog(s, 806 + k, -43, -3)))
    val h = { start: f64(sp.nm[if (i < j) i else j] + e[0]), end: f64(sp.nm[if (i < j) j else i] + e[1]), step: ONE }
    val r = trimTo(sp, h)
    if (samples(r) == 0) skip
    else emit(okCall("sp_op", [3, n], flatSp(sp).concat(sh3(h)), view(r), "bound next to a sample"))
  }
  /// the whole visible range from a short measurement, as conversion to XYZ asks for
  action visible = {
    nondet s = SEEDS.oneOf()
    nondet k = 1.to(3).oneOf()
    val step = STEPS[rndIn(s, 1, 0, 4)]
    val start = pickNm(s, 2, 330, 480)
    val n = rndIn(s, 3, 3, 40)
    val sp = onGrid({ start: start, end: start + (n - 1) * step, step: step }, values(s, n), 0)
    val h = { start: 360 * ONE, end: 780 * ONE, step: [ONE, 5 * ONE, 10 * ONE][rndIn(s, 4, 0, 2)] }
    val r = if (k == 1) extrapolate(sp, h) else if (k == 2) align(sp, h) else trimTo(sp, h)
    if (samples(r) == 0) skip
    else emit(okCall("sp_op", [k, n], flatSp(sp).concat(sh3(h)), view(r), "visible range"))
  }
  /// the three curves of an observer are aligned alike
  action cmfAlign = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 16)
    val n = samples(sp)
    val h = pickShape(s, sp, 30)
    val y = mk(sp.nm, values(s + 1, n), 0)
    val z = mk(sp.nm, values(s + 2, n), 0)
    if (gridSize(h) > 100) skip
    else emit(okCall("cmf_align", [n], sp.nm.concat(sp.v).concat(y.v).concat(z.v).concat(sh3(h)),
      [exactly(h.start), exactly(h.end), exactly(h.step)].concat(view(align(sp, h))).concat(view(align(y, h))).concat(view(align(z, h))), "observer"))
  }
  /// wavelengths of a shape
  action shapes = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val step = fw(pickStep(s, 1), w)
    val n = rndIn(s, 2, 1, 40)
    val start = fw(if (rnd(s, 3) % 3 == 0) 0 else pickNm(s, 4, 300, 700), w)
    val h = { start: start, end: fw(start + (n - 1) * step + (if (rnd(s, 5) % 3 == 0) step / 2 else 0), w), step: step }
    val g = grid(h)
    // single precision: the last one must not be lost either
    if (w == 32 and not(dyadic(step))) emit(okCall("shape_len", [w], sh3(h), [exactly(n * ONE)], "single precision"))
    else emit(okCall("shape_iter", [w], sh3(h), g.foldl([], (l, x) => l.append(within(x, gridTol(h)))), "wavelengths"))
  }
  /// 1 extrapolate, 2 align, 3 trim, of a long spectrum to a long range: count, ends and some samples
  action opLong = {
    nondet s = SEEDS.oneOf()
    nondet k = 1.to(3).oneOf()
    val g = pickLong(s)
    val last = g.start + (g.n - 1) * g.step
    val lo = if (rnd(s, 760) % 2 == 0) g.start - rndIn(s, 761, 0, 800) * (g.step / 4) else g.start + rndIn(s, 761, 0, g.n / 2) * (g.step / 2)
    val hi0 = if (rnd(s, 762) % 2 == 0) last + rndIn(s, 763, 0, 800) * (g.step / 4) else last - rndIn(s, 763, 0, g.n / 2) * (g.step / 2)
    val hi = maxf(hi0, lo + 2 * g.step)
    val rs = if (k == 2) [ONE, ONE / 2, ONE / 4, ONE / 8][rndIn(s, 764, 0, 3)] else g.step
    // first sample, number of samples
    val first = if (k == 2) lo else if (k == 1) (if (lo < g.start) g.start - floordiv(g.start - lo, g.step) * g.step else g.start)
      else if (lo <= g.start) g.start else g.start - floordiv(g.start - lo, g.step) * g.step
    val top = if (k == 2) hi else if (k == 1) (if (hi > last) last + floordiv(hi - last, g.step) * g.step else last)
      else if (hi >= last) last else g.start + floordiv(hi - g.start, g.step) * g.step
    val num = floordiv(top - first, rs) + 1
    val js = range(0, 12).foldl([], (l, j) => l.append(if (j < 2) j % num else if (j < 4) num - 1 - j % num % 2 else rndIn(s, 770 + j, 0, num - 1)))
    val exp = js.foldl([], (l, j) => {
      val x = first + j * rs
      l.append(exactly(x)).append(if (x < g.start) within(longV(g, 0), LONGTOL) else if (x > last) within(longV(g, g.n - 1), LONGTOL)
        else if (k == 2) within(longAt(g, x), LONGTOL) else exactly(longV(g, floordiv(x - g.start, g.step))))
    })
    if (num < 2 or lo > last or hi < g.start) skip
    else emit(okCall("long_op", [k, g.n, g.pat.length()].concat(js), longArgs(g).concat([lo, hi, rs]),
      [exactly(num * ONE), exactly(first), exactly(if (k == 2) hi else top), exactly(rs)].concat(exp),
      if (k == 1) "long, extrapolate" else if (k == 2) "long, align" else "long, trim"))
  }
  /// the extrapolator itself, and shapes of many wavelengths
  action edges = {
    nondet s = SEEDS.oneOf()
    val sp = pickSp(s, 20)
    val xs = range(0, NPTS).foldl([], (l, j) => l.append(f64(if (rnd(s, 780 + j) % 2 == 0) firstNm(sp) - rndLog(s, 790 + j, -20, 9)
      else if (rnd(s, 780 + j) % 8 == 1) lastNm(sp) else lastNm(sp) + rndLog(s, 790 + j, -20, 9))))
    emit(okCall("ip_const", [samples(sp)], flatSp(sp).concat(xs), xs.foldl([], (l, x) => l.append(exactly(if (x < firstNm(sp)) sp.v[0] else lastV(sp)))), "held"))
  }
  action shapeLong = {
    nondet s = SEEDS.oneOf()
    val step = pickStep(s, 1)
    val n = rndIn(s, 2, 100, 8000)
    val start = if (rnd(s, 3) % 4 == 0) 0 else pickNm(s, 4, 1, 900)
    val h = { start: start, end: f64(start + (n - 1) * step + (if (rnd(s, 5) % 3 == 0) step / 2 else 0)), step: step }
    if (not(clearGrid(h))) skip
    else emit(okCall("shape_ends", [], sh3(h), [exactly(gridSize(h) * ONE), exactly(start), within(start + (gridSize(h) - 1) * step, ONE / 2^38)], "many wavelengths"))
  }
  action stepC15 = any { trimEdge, opLong, edges, shapeLong, oneOp, oneOp, oneOp, oneOp, visible, visible, cmfAlign, shapes }
  /// none of the operations loses or moves a sample
  val specKeeps = (c.op == "sp_op" and c.ints[0] == 1) implies {
    val n = c.ints[1]
    val sp = mk(c.fs.slice(0, n), c.fs.slice(n, 2 * n), 0)
    val r = extrapolate(sp, { start: c.fs[2 * n], end: c.fs[2 * n + 1], step: c.fs[2 * n + 2] })
    sp.nm.indices().forall(i => r.nm.indices().exists(j => r.nm[j] == sp.nm[i] and r.v[j] == sp.v[i]))
  }
  val specTrim = (c.op == "sp_op" and c.ints[0] == 3) implies {
    val n = c.ints[1]
    val sp = mk(c.fs.slice(0, n), c.fs.slice(n, 2 * n), 0)
    val lo = c.fs[2 * n]
    val hi = c.fs[2 * n + 1]
    val r = trimTo(sp, { start: lo, end: hi, step: ONE })
    and {
      r.nm.indices().forall(j => r.nm[j] >= lo and r.nm[j] <= hi),
      sp.nm.indices().forall(i => (sp.nm[i] >= lo and sp.nm[i] <= hi) implies r.nm.indices().exists(j => r.nm[j] == sp.nm[i])),
    }
  }
}
