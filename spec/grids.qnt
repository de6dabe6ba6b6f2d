// -*- mode: Bluespec; -*-
/// Small spectra, exhaustively: every range around each of them (C15) and every
/// short history of operations on each of them (C13).  The step number selects the case.
module grids {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import gensp.* from "./gensp"

  var c: Call
  /// the spectra of the current history: as constructed, after one, two, three operations
  var regs: List[Sp]
  /// number of the case
  var num: int

  // ---- the small spectra -------------------------------------------------------
  pure val GAPS: List[List[int]] = [
    [2], [3],
    [2, 2], [2, 3], [3, 2], [1, 4],
    [2, 2, 2], [2, 2, 3], [3, 1, 2],
    [2, 2, 2, 2, 2], [2, 2, 2, 2, 3], [1, 2, 2, 2, 2],
    [1, 1, 1, 1, 1, 1], [3, 3, 3, 3, 3, 3]]
  pure val VALUES = [3 * ONE, -2 * ONE, 7 * ONE, ONE / 2, 5 * ONE, -ONE, 4 * ONE]
  pure def small(g: int): Sp = {
    pure val nm = GAPS[g].foldl([400 * ONE], (l, d) => l.append(l[l.length() - 1] + d * ONE))
    mk(nm, VALUES.slice(0, nm.length()), 0)
  }
  pure val SMALL: List[Sp] = range(0, GAPS.length()).foldl([], (l, g) => l.append(small(g)))

  // ---- C15: operation x range ----------------------------------------------------
  /// (spectrum, operation, interval of the range, lower, upper end in half nanometres from the first sample)
  type Case = { g: int, k: int, iv: int, lo: int, hi: int }
  pure val CASES: List[Case] = range(0, GAPS.length()).foldl([], (l1, g) => {
    pure val span = floordiv(lastNm(SMALL[g]) - firstNm(SMALL[g]), ONE)
    range(-3, span + 4).foldl(l1, (l2, lo) => range(lo, span + 4).foldl(l2, (l3, hi) =>
      [(1, 1), (1, 2), (3, 1), (2, 1), (2, 2), (2, 3), (0, 1), (0, 2), (0, 3)].foldl(l3, (l4, o) =>
        // the interval asked for matters to extrapolation of unequal gaps only
        if (o == (1, 2) and SMALL[g].sh.step != 0) l4
        else l4.append({ g: g, k: o._1, iv: o._2, lo: 2 * lo, hi: 2 * hi })
          // once more between the samples
          .append({ g: g, k: o._1, iv: o._2, lo: 2 * lo + (if (hi > lo) 1 else 0), hi: 2 * hi + 1 }))))
  })
  pure val NCASES = CASES.length()
  pure def result(k: int, sp: Sp, h: Shape): Sp =
    if (k == 0) (if (clip(sp, h).end < clip(sp, h).start) NOSP else interpolate(sp, h))
    else if (k == 1) extrapolate(sp, h) else if (k == 2) align(sp, h) else trimTo(sp, h)
  /// none of the inputs is on the edge of rounding: all are multiples of half a nanometre
  pure def caseCall(x: Case): Call = {
    pure val sp = SMALL[x.g]
    pure val h = { start: firstNm(sp) + x.lo * (ONE / 2), end: firstNm(sp) + x.hi * (ONE / 2), step: x.iv * ONE }
    pure val r = result(x.k, sp, h)
    // nothing left is unspecified
    if (samples(r) == 0) { op: "r_none", ints: [], fs: [], kind: "any", exp: [], tag: "nothing left" }
    else okCall("sp_op", [x.k, samples(sp)], flatSp(sp).concat(sh3(h)), view(r), if (x.k == 0) "interpolate" else if (x.k == 1) "extrapolate" else if (x.k == 2) "align" else "trim")
  }
  action from(i: int): bool = all { c' = NOCALL, regs' = [NOSP, NOSP, NOSP, NOSP], num' = i }
  action caseStep = all { c' = caseCall(CASES[num % NCASES]), regs' = regs, num' = num + 1 }
  /// the whole set in sixteen parts
  pure val PART = NCASES / 16 + 1
  action case0 = from(0)
  action case1 = from(PART)
  action case2 = from(2 * PART)
  action case3 = from(3 * PART)
  action case4 = from(4 * PART)
  action case5 = from(5 * PART)
  action case6 = from(6 * PART)
  action case7 = from(7 * PART)
  action case8 = from(8 * PART)
  action case9 = from(9 * PART)
  action case10 = from(10 * PART)
  action case11 = from(11 * PART)
  action case12 = from(12 * PART)
  action case13 = from(13 * PART)
  action case14 = from(14 * PART)
  action case15 = from(15 * PART)
  /// somewhere
  action caseAny = { nondet i = 0.to(NCASES - 1).oneOf() from(i) }

  // ---- C13: histories ---------------------------------------------------------------
  /// operation number o applied to a spectrum
  pure val NOPS = 14
  type Op = { op: str, ints: List[int], fs: List[int], sp: Sp }
  pure val NOOP: Op = { op: "r_none", ints: [], fs: [], sp: NOSP }
  pure def operation(o: int, sp: Sp, d: int, a: int): Op = if (samples(sp) < 2) NOOP else {
    pure val f = firstNm(sp)
    pure val l = lastNm(sp)
    pure def h(x: int, y: int, st: int): Shape = { start: x, end: y, step: st }
    pure val hs = [
      h(f - 3 * ONE, l + 3 * ONE, ONE), h(f - 5 * ONE, l - ONE, 2 * ONE), h(f + ONE, l + 7 * ONE, ONE),
      h(f + ONE, l - ONE, ONE), h(f + 2 * ONE, l + ONE, ONE), h(f - ONE, l - 3 * ONE / 2, ONE),
      h(f - 2 * ONE, l + 2 * ONE, ONE), h(f + ONE / 2, l + ONE, 2 * ONE), h(f - ONE, maxf(f + ONE, l - ONE), 3 * ONE / 2),
      h(f, l, ONE), h(f + ONE / 2, l + ONE, 3 * ONE), h(f - ONE, l - ONE / 2, 2 * ONE)]
    if (o < 3) { pure val r = extrapolate(sp, hs[o]) { op: "r_extrap", ints: [d, a], fs: sh3(hs[o]), sp: r } }
    else if (o < 6) { pure val r = trimTo(sp, hs[o]) { op: "r_trim", ints: [d, a], fs: sh3(hs[o]), sp: r } }
    else if (o < 9) { pure val r = align(sp, hs[o]) { op: "r_align", ints: [d, a], fs: sh3(hs[o]), sp: r } }
    else if (o < 12) {
      pure val k = clip(sp, hs[o])
      pure val r = if (k.end < k.start) NOSP else interpolate(sp, hs[o])
      // beyond the last sample: unspecified
      if (samples(r) > 0 and lastNm(r) > l) NOOP else { op: "r_interp", ints: [d, a], fs: sh3(hs[o]), sp: r }
    }
    else if (o == 12) { op: "r_scale", ints: [d, a, 3], fs: [-4 * ONE], sp: scaled(sp, ONE, -4 * ONE) }
    else { op: "r_clone", ints: [d, a], fs: [], sp: sp }
  }
  pure val NHIST = GAPS.length() * NOPS * NOPS * NOPS
  /// six calls per history: construct, three operations, look at the first two spectra again
  action histStep = {
    val k = num / 6
    val phase = num % 6
    val g = k % GAPS.length()
    val os = [(k / GAPS.length()) % NOPS, (k / GAPS.length() / NOPS) % NOPS, (k / GAPS.length() / NOPS / NOPS) % NOPS]
    if (phase == 0) all { c' = okCall("r_new", [0, g % 3, samples(SMALL[g])], flatSp(SMALL[g]), view(SMALL[g]), "small"), regs' = [SMALL[g], NOSP, NOSP, NOSP], num' = num + 1 }
    else if (phase <= 3) {
      val r = operation(os[phase - 1], regs[phase - 1], phase, phase - 1)
      if (samples(r.sp) == 0) all { c' = { op: "r_none", ints: [], fs: [], kind: "any", exp: [], tag: "not enabled" }, regs' = regs.replaceAt(phase, NOSP), num' = num + 1 }
      else all { c' = okCall(r.op, r.ints, r.fs, view(r.sp), if (phase == 1) "first" else if (phase == 2) "second" else "third"), regs' = regs.replaceAt(phase, r.sp), num' = num + 1 }
    }
    else {
      // the spectra an operation was applied to are as they were
      val a = phase - 4
      if (samples(regs[a]) == 0) all { c' = { op: "r_none", ints: [], fs: [], kind: "any", exp: [], tag: "not enabled" }, regs' = regs, num' = num + 1 }
      else all { c' = okCall("r_dump", [a], [], view(regs[a]), "unchanged"), regs' = regs, num' = num + 1 }
    }
  }
  pure val HPART = 6 * (NHIST / 16 + 1)
  action hist0 = from(0)
  action hist1 = from(HPART)
  action hist2 = from(2 * HPART)
  action hist3 = from(3 * HPART)
  action hist4 = from(4 * HPART)
  action hist5 = from(5 * HPART)
  action hist6 = from(6 * HPART)
  action hist7 = from(7 * HPART)
  action hist8 = from(8 * HPART)
  action hist9 = from(9 * HPART)
  action hist10 = from(10 * HPART)
  action hist11 = from(11 * HPART)
  action hist12 = from(12 * HPART)
  action hist13 = from(13 * HPART)
  action hist14 = from(14 * HPART)
  action hist15 = from(15 * HPART)
  action histAny = { nondet i = 0.to(NHIST - 1).oneOf() from(6 * i) }

  // ---- laws of this specification, in every state ------------------------------------
  val gridSound = regs.indices().forall(i => samples(regs[i]) > 0 implies sound(regs[i]))
  /// aligning and interpolating keep a sample that lies on the grid asked for; extrapolating keeps them all
  val gridKeeps = (c.op == "sp_op" and c.ints[0] == 1) implies {
    val n = c.ints[1]
    range(0, n).foldl(true, (t, i) => t and range(0, (c.exp.length() - 10) / 2).foldl(false, (u, j) =>
      u or (c.exp[9 + 2 * j].lo <= c.fs[i] and c.fs[i] <= c.exp[9 + 2 * j].hi and c.exp[10 + 2 * j].lo <= c.fs[n + i] and c.fs[n + i] <= c.exp[10 + 2 * j].hi)))
  }
  val gridAlign = (c.op == "sp_op" and c.ints[0] == 2) implies {
    val n = c.ints[1]
    range(0, n).foldl(true, (t, i) => t and range(0, (c.exp.length() - 10) / 2).foldl(true, (u, j) =>
      u and ((c.exp[9 + 2 * j].lo <= c.fs[i] and c.fs[i] <= c.exp[9 + 2 * j].hi) implies (c.exp[10 + 2 * j].lo <= c.fs[n + i] and c.fs[n + i] <= c.exp[10 + 2 * j].hi))))
  }
}
