// -*- mode: Bluespec; -*-
/// A colour carried from representation to representation (C27).
///
/// State: one register holding a colour, in one of five representations, with
/// the exact value it stands for and how far rounding may have moved it so far.
/// Every action is one conversion of the library, applied to what the previous
/// conversion answered; the invariant is that the register still holds the colour
/// the journey started with.
module journey {
  import fix.* from "./fix"
  import common.* from "./common"
  import cats.* from "./cats"
  import gamuts.* from "./gamuts"
  import curves.* from "./curves"
  import labdef.* from "./labdef"

  /// kind: XYZ, xyY, Lab, RGB (linear), ENC (encoded), NONE
  /// ref: reference white as (x, y, Y) (of XYZ, xyY and Lab); sp: space (of RGB and ENC)
  /// lw: what the Lab conversion was given as white, and its tristimulus values
  type Reg = { kind: str, w: int, sp: int, ref: List[int], form: int, lw: List[int], lx: List[int],
               v: List[int], e: List[int], home: List[int], hops: int, loose: int }

  var c: Call
  var reg: Reg

  pure val NOREG: Reg = { kind: "NONE", w: 64, sp: 0, ref: [], form: 0, lw: [], lx: [], v: [0, 0, 0], e: [0, 0, 0], home: [], hops: 0, loose: 0 }
  action init = all { c' = NOCALL, reg' = NOREG }

  pure val D65W = [rat(3127, 10000), rat(329, 1000), ONE]
  /// the colour itself: tristimulus values adapted to D65
  pure def homeOf(v: List[int], ref: List[int]): List[int] = mvec(adapt(2, toXYZ(ref), toXYZ(D65W)), v)
  pure def homeRgb(v: List[int], sp: int): List[int] = {
    pure val x = mvec(builtin(sp, 64).toXyz, v)
    homeOf(mapl(x, t => 100 * t), builtin(sp, 64).white)
  }
  pure def homeReg(r: Reg): List[int] =
    if (r.kind == "XYZ") homeOf(r.v, r.ref)
    else if (r.kind == "xyY") homeOf(toXYZ(r.v), r.ref)
    else if (r.kind == "Lab") homeOf(fromLab(r.v, r.lx), r.ref)
    else if (r.kind == "RGB") homeRgb(r.v, r.sp)
    else homeRgb(tab(3, i => decode(curveOf(r.sp), r.v[i])), r.sp)

  pure def radius(v: int, i: Iv): int = maxf(i.hi - v, v - i.lo) + 1
  /// no use going on when rounding has eaten most of the colour
  pure def clear(r: Reg): bool =
    3 * maxAbs(r.e) < mul(maxAbs(r.v) + ONE / 100, if (r.w == 64) E9 else ONE / 200) and r.hops < 40

  action go(op: str, ints: List[int], args: List[int], r: Reg, tag: str): bool = all {
    c' = okCall(op, ints, args, tabIv(3, i => within(r.v[i], r.e[i])), tag),
    reg' = { ...r, hops: r.hops + 1 },
  }
  pure def lastSpace(w: int): int = if (w == 64) 9 else 8

  // ---- departures -----------------------------------------------------------------
  /// another white; sometimes close to the one in use
  pure def nextWhite(s: int, ref: List[int], w: int): List[int] =
    if (ref.length() == 0 or rnd(s, 40) % 3 > 0) pickWhite(s, 3, w)
    else {
      pure val one = rndIn(s, 41, 0, 3)
      pure val t = tab(3, i => if (one == 3 or one == i) fw(ref[i] + (if (rnd(s, 42 + i) % 2 == 0) 1 else -1) * rndLog(s, 45 + i, -26, -7), w) else ref[i])
      // stays a white
      if (okWhite(toXYZ([t[0], t[1], ONE])) and t[2] > ONE / 2^13) t else ref
    }
  pure def someXYZ(s: int, ref: List[int], w: int): List[int] = {
    pure val k = rndIn(s, 60, 0, 10)
    pure val wx = toXYZ(ref)
    pure val t = if (k == 0) tab(3, i => wx[i])
      else if (k == 1) mapl(wx, x => mul(x, rndReal(s, 61, 0, ONE)))
      else if (k == 2) mapl(wx, x => mul(x, rndLog(s, 61, -14, 3)))
      else if (k == 3) tab(3, i => mul(wx[i], rndReal(s, 62 + i, 0, ONE / 60)))
      else if (k == 4) tab(3, i => mul(wx[i], rndReal(s, 62 + i, 0, 12 * ONE)))
      // out of every gamut, some components negative
      else if (k == 5) tab(3, i => mul(wx[i], rndReal(s, 62 + i, -ONE / 3, ONE)))
      else if (k == 6) tab(3, i => mul(wx[i], rndReal(s, 62 + i, -ONE / 8, ONE / 40)))
      else if (k == 8) tab(3, i => -mul(wx[i], rndReal(s, 62 + i, ONE / 20, ONE)))
      // every component of its own magnitude
      else if (k == 7) tab(3, i => mul(wx[i], rndLog(s, 70 + i, -24, 6)))
      else tab(3, i => mul(wx[i], rndReal(s, 62 + i, ONE / 20, ONE)))
    tab(3, i => fw(t[i], w))
  }
  action depart = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(2).oneOf()
    val ref = pickWhite(s, 3, w)
    val sp = rndIn(s, 1, 0, lastSpace(w))
    val x = someXYZ(s, ref, w)
    val grey = rnd(s, 5) % 6 == 0
    val p = tab(3, i => {
      val j = if (grey) 0 else i
      val q = rndIn(s, 20 + j, 0, 6)
      fw(if (q == 0) 0 else if (q == 1) ONE else if (q == 2) rat(rndIn(s, 30 + j, 0, 255), 255) else if (q == 3) rndLog(s, 30 + j, -12, -3)
         else rndReal(s, 30 + j, 0, ONE), w)
    })
    val r = if (k == 0) { ...NOREG, kind: "XYZ", w: w, ref: ref, v: x }
      else { ...NOREG, kind: if (k == 1) "ENC" else "RGB", w: w, sp: sp, v: p }
    all { not(clear(reg)) or reg.kind == "NONE" or rnd(s, 6) % 4 == 0,
          go("j_put", [w], r.v, { ...r, home: homeReg(r) }, if (k == 0) "from XYZ" else if (k == 1) "from encoded RGB" else "from linear RGB") }
  }

  // ---- hops -------------------------------------------------------------------------
  /// 0, 1: two ways to ask
  action toChromaticity = {
    nondet how = 0.to(1).oneOf()
    val s = reg.v[0] + reg.v[1] + reg.v[2]
    val m = absf(reg.v[0]) + absf(reg.v[1]) + absf(reg.v[2])
    val es = reg.e[0] + reg.e[1] + reg.e[2] + mul(3 * m, ulp(reg.w)) + 1
    all {
      reg.kind == "XYZ", clear(reg), 4 * absf(s) > m, absf(s) > 64 * es, absf(s) > ONE / 2^20,
      64 * absf(reg.v[1]) > absf(s),
      {
        val v = toXYY(reg.v)
        val e = tab(3, i => if (i == 2) reg.e[1] / 100 + mul(absf(v[2]), 2 * ulp(reg.w)) + 1
                            else div(reg.e[i] + mul(absf(v[i]), es), absf(s) - es) + mul(absf(v[i]), 4 * ulp(reg.w)) + 1)
        go("j_xyy", [reg.w, how], [], { ...reg, kind: "xyY", v: v, e: e }, if (reg.v[1] < 0) "XYZ to xyY, negative luminance" else "XYZ to xyY")
      },
    }
  }
  action fromChromaticity = all {
    reg.kind == "xyY", clear(reg), 64 * reg.e[1] < absf(reg.v[1]), absf(reg.v[1]) > ONE / 100,
    {
      nondet how = 0.to(1).oneOf()
      val v = toXYZ(reg.v)
      val k = absf(div(100 * reg.v[2], reg.v[1]))
      val u = ulp(reg.w)
      val ek = div(100 * reg.e[2] + mul(k, reg.e[1]), absf(reg.v[1]) - reg.e[1]) + mul(k, 4 * u) + 1
      val z = ONE - reg.v[0] - reg.v[1]
      val ez = reg.e[0] + reg.e[1] + mul(4 * u, ONE + absf(reg.v[0]) + absf(reg.v[1]))
      val e = [mul(absf(reg.v[0]) + reg.e[0], ek) + mul(k, reg.e[0]) + mul(absf(v[0]), 4 * u) + 1,
               100 * reg.e[2] + mul(absf(v[1]), 4 * u) + mul(ek, reg.e[1]) + 1,
               mul(absf(z) + ez, ek) + mul(k, ez) + mul(absf(v[2]), 4 * u) + 1]
      go("j_xyz", [reg.w, how], [], { ...reg, kind: "XYZ", v: v, e: e }, "xyY to XYZ")
    },
  }
  action intoLab = {
    nondet form = 0.to(1).oneOf()
    val lw = if (form == 1) reg.ref else fw3(toXYZ(reg.ref), reg.w)
    val lx = if (form == 1) toXYZ(lw) else lw
    all {
      reg.kind == "XYZ", clear(reg),
      {
        val l = toLab(reg.v, lx)
        val t = labTol(reg.v, lx, tab(3, i => whiteErr(lw, form, i, reg.w)), reg.w)
        val fe = tab(3, i => {
          val r = div(reg.v[i], lx[i])
          val d = div(reg.e[i], lx[i])
          maxf(f(r + d) - f(r), f(r) - f(r - d)) + 1
        })
        val e = [t[0] + 116 * fe[1], t[1] + 500 * (fe[0] + fe[1]), t[2] + 200 * (fe[1] + fe[2])]
        go("j_lab", [reg.w, form], lw, { ...reg, kind: "Lab", form: form, lw: lw, lx: lx, v: l, e: e }, "XYZ to Lab")
      },
    }
  }
  action outOfLab = all {
    reg.kind == "Lab", clear(reg),
    {
      val v = fromLab(reg.v, reg.lx)
      val g = fOfLab(reg.v)
      val e = tab(3, i => {
        val d = fofErr(reg.v, i, reg.w) + reg.e[0] / 116 + (if (i == 0) reg.e[1] / 500 else if (i == 1) 0 else reg.e[2] / 200) + 3
        val we = whiteErr(reg.lw, reg.form, i, reg.w) + 3 * ulp(reg.w)
        mul(absf(reg.lx[i]), finvErr(g[i], d, reg.w) + cube(d) + mul(absf(finv(g[i])), we)) + 1
      })
      go("j_unlab", [reg.w, reg.form], reg.lw, { ...reg, kind: "XYZ", v: v, e: e }, "Lab to XYZ")
    },
  }
  /// matrices for single precision may have been derived in double precision
  pure def derivedWide(a: Mtx): Mtx = { m: a.m, t: tab(9, i => a.t[i] + mul(absf(a.m[i]) + a.t[i], ulp(32)) + 2^20) }
  /// 0 plain, 1 a narrowed matrix, 2 as a slice, 3 with the adaptation given
  action intoRgb = {
    nondet sp = 0.to(lastSpace(reg.w)).oneOf()
    nondet how = 0.to(3).oneOf()
    all {
      reg.kind == "XYZ", clear(reg),
      {
        val a = if (how == 1 and reg.w == 32) derivedWide(xyzToRgbM(reg.ref, builtin(sp, 64), 64)) else xyzToRgbM(reg.ref, builtin(sp, reg.w), reg.w)
        val i3 = apply(a, mapl(reg.v, x => x / 100), tab(3, i => reg.e[i] / 100 + mul(absf(reg.v[i]) / 50, ulp(reg.w)) + 1), reg.w)
        val v = mvec(a.m, mapl(reg.v, x => x / 100))
        go("j_rgb", [reg.w, sp, how], reg.ref, { ...reg, kind: "RGB", sp: sp, v: v, e: tab(3, i => radius(v[i], i3[i])), loose: reg.loose + 1 }, "XYZ to RGB")
      },
    }
  }
  action outOfRgb = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(1).oneOf()
    // under the space's own white, the previous one, or any other
    val k = rndIn(s, 1, 0, 3)
    val own = fw3(builtin(reg.sp, reg.w).white, reg.w)
    val ref = if (k == 0) own else if (k == 1 and reg.ref.length() > 0) reg.ref else nextWhite(s, if (reg.ref.length() > 0) reg.ref else own, reg.w)
    all {
      reg.kind == "RGB", clear(reg),
      {
        val a = if (how == 1 and reg.w == 32) derivedWide(rgbToXyzM(ref, builtin(reg.sp, 64), 64)) else rgbToXyzM(ref, builtin(reg.sp, reg.w), reg.w)
        val i3 = apply(a, reg.v, reg.e, reg.w)
        val v = mapl(mvec(a.m, reg.v), x => 100 * x)
        val e = tab(3, i => 100 * radius(v[i] / 100, i3[i]) + mul(absf(v[i]), 4 * ulp(reg.w)) + 100)
        go("j_unrgb", [reg.w, reg.sp, how], ref, { ...reg, kind: "XYZ", ref: ref, v: v, e: e, loose: reg.loose + 1 },
           if (k == 0) "RGB to XYZ, own white" else "RGB to XYZ, other white")
      },
    }
  }
  pure def sure(sp: int, v: List[int], e: List[int]): bool =
    signedDomain(curveOf(sp)) or (v[0] >= e[0] and v[1] >= e[1] and v[2] >= e[2])
  action encodeIt = all {
    reg.kind == "RGB", clear(reg), sure(reg.sp, reg.v, reg.e),
    {
      val cv = curveOf(reg.sp)
      val v = tab(3, i => encode(cv, reg.v[i]))
      val e = tab(3, i => radius(v[i], encRange(cv, within(reg.v[i], reg.e[i]), reg.w)))
      go("j_enc", [reg.w, reg.sp], [], { ...reg, kind: "ENC", v: v, e: e }, "encode")
    },
  }
  action decodeIt = all {
    reg.kind == "ENC", clear(reg), sure(reg.sp, reg.v, reg.e),
    {
      val cv = curveOf(reg.sp)
      val v = tab(3, i => decode(cv, reg.v[i]))
      val e = tab(3, i => radius(v[i], decRange(cv, within(reg.v[i], reg.e[i]), reg.w)))
      go("j_dec", [reg.w, reg.sp], [], { ...reg, kind: "RGB", v: v, e: e }, "decode")
    },
  }
  /// encoded in one space to encoded in another, in one call
  action across = {
    nondet sp = 0.to(lastSpace(reg.w)).oneOf()
    val cv = curveOf(reg.sp)
    all {
      reg.kind == "ENC", clear(reg), sure(reg.sp, reg.v, reg.e),
      {
        val a = rgbToRgbM(builtin(reg.sp, reg.w), builtin(sp, reg.w), reg.w)
        val lin = tab(3, i => decode(cv, reg.v[i]))
        val le = tab(3, i => radius(lin[i], decRange(cv, within(reg.v[i], reg.e[i]), reg.w)))
        val i3 = apply(a, lin, le, reg.w)
        val m = mvec(a.m, lin)
        val ok = sure(sp, tab(3, i => i3[i].lo), [0, 0, 0])
        all {
          ok,
          {
            val v = tab(3, i => encode(curveOf(sp), m[i]))
            val e = tab(3, i => radius(v[i], encRange(curveOf(sp), i3[i], reg.w)))
            go("j_r2r", [reg.w, reg.sp, sp], [], { ...reg, kind: "ENC", sp: sp, v: v, e: e, loose: reg.loose + 2 }, "RGB to RGB")
          },
        }
      },
    }
  }
  /// seen under another white
  action adaptIt = {
    nondet s = SEEDS.oneOf()
    nondet form = 0.to(3).oneOf()
    val dst = nextWhite(s, reg.ref, reg.w)
    all {
      reg.kind == "XYZ", clear(reg),
      {
        // the conversion may be given whites as XYZ
        val ps = if (form % 2 == 0) reg.ref else fw3(toXYZ(reg.ref), reg.w)
        val pd = if (form / 2 == 0) dst else fw3(toXYZ(dst), reg.w)
        val xs = if (form % 2 == 0) toXYZ(ps) else ps
        val xd = if (form / 2 == 0) toXYZ(pd) else pd
        val a = { m: adapt(2, xs, xd), t: adaptTol(2, xs, xd, reg.w) }
        val i3 = apply(a, reg.v, reg.e, reg.w)
        val v = mvec(a.m, reg.v)
        go("j_cat", [reg.w, form], ps.concat(pd), { ...reg, ref: dst, v: v, e: tab(3, i => radius(v[i], i3[i])) }, "adapt")
      },
    }
  }
  action narrow = all {
    reg.kind == "XYZ" or reg.kind == "RGB", reg.w == 64, clear(reg), reg.sp < 9,
    {
      val e = tab(3, i => reg.e[i] + mul(absf(reg.v[i]) + reg.e[i], ulp(32)) + 1)
      // a reference white narrows too
      val ref = if (reg.ref.length() > 0) fw3(reg.ref, 32) else reg.ref
      go("j_narrow", [64, if (reg.kind == "XYZ") 1 else 0], [], { ...reg, w: 32, ref: ref, e: e, loose: reg.loose }, "narrow")
    },
  }
  /// the colour as an image would store it; the register keeps the exact one
  action codes = {
    nondet bits = Set(8, 16).oneOf()
    all {
      reg.kind == "ENC", clear(reg),
      {
        val m = 2^bits - 1
        c' = okCall("j_code", [reg.w, bits], [], tabIv(3, i => {
          lo: ((2 * clampf(reg.v[i] - reg.e[i] - 4 * ulp(reg.w), 0, ONE) * m + ONE) / (2 * ONE)) * ONE,
          hi: ((2 * clampf(reg.v[i] + reg.e[i] + 4 * ulp(reg.w), 0, ONE) * m + ONE) / (2 * ONE)) * ONE }), "as codes")
      },
      reg' = { ...reg, hops: reg.hops + 1 },
    }
  }
  action step = any { depart, toChromaticity, fromChromaticity, intoLab, outOfLab, intoRgb, intoRgb, outOfRgb, encodeIt, decodeIt, across,
                      adaptIt, narrow, codes }

  // ---- what must hold ------------------------------------------------------------------
  /// the register still holds the colour the journey began with.  Published matrices are rounded to four
  /// or more digits, so every passage through an RGB space may move the colour a little.
  val sameColour = reg.kind != "NONE" implies {
    val h = homeReg(reg)
    val slack = mul(maxAbs(reg.home) + ONE / 1000, (reg.loose + (if (reg.w == 32) 1 else 0)) * rat(1, 1000) + E9)
    range(0, 3).indices().forall(i => absf(h[i] - reg.home[i]) <= slack)
  }
  val wellFormed = reg.e.indices().forall(i => reg.e[i] >= 0)
}
