// -*- mode: Bluespec; -*-
/// L*a*b* and colour differences (C11, C12).
module lab {
  import fix.* from "./fix"
  import common.* from "./common"
  import cats.* from "./cats"
  import labdef.* from "./labdef"

  var c: Call

  action init = { c' = NOCALL }
  action emit(call: Call): bool = { c' = call }

  // ======================================================================= C11
  // ---- inputs -------------------------------------------------------------------
  /// a reference white: xyY as given (fw), and its tristimulus values
  pure def someWhite(s: int, form: int, w: int): (List[int], List[int]) = {
    pure val p = pickWhite(s, 3, w)
    if (form == 1) (p, toXYZ(p))
    else {
      pure val k = rnd(s, 90) % 3
      pure val v = if (k == 0) fw3(toXYZ(p), w) else if (k == 1) fw3(mapl(toXYZ(p), x => x / 100), w)
        else tab(3, i => fw(rndReal(s, 91 + i, ONE / 2, 150 * ONE), w))
      (v, v)
    }
  }
  /// ratio to the white: any combination of dark, at the break, mid, bright, negative
  pure def ratio(s: int, i: int): int = {
    pure val k = rndIn(s, 5 * i, 0, 12)
    if (k == 0) 0 else if (k == 10) rndReal(s, 5 * i + 2, 8 * ONE, 2000 * ONE) else if (k == 11) ONE + rndReal(s, 5 * i + 2, -ONE / 50, ONE / 50)
    else if (k == 12) rndIn(s, 5 * i + 2, 0, 20) * (ONE / 20) else if (k == 1) ONE else if (k == 2) EPS + rndReal(s, 5 * i + 1, -EPS / 1000, EPS / 1000)
    else if (k <= 4) rndReal(s, 5 * i + 2, 0, EPS) else if (k == 5) -rndReal(s, 5 * i + 2, 0, ONE / 10)
    else if (k == 6) rndReal(s, 5 * i + 2, ONE, 8 * ONE) else if (k == 7) rndLog(s, 5 * i + 3, -16, 1)
    else rndReal(s, 5 * i + 4, 0, ONE)
  }
  pure def region(v: List[int], white: List[int]): str = {
    pure val n = range(0, 3).foldl(0, (t, i) => t + (if (div(v[i], white[i]) > EPS) 1 else 0))
    if (n == 0) "all below break" else if (n == 3) "all above break" else "both pieces"
  }
  pure def wErrs(p: List[int], form: int, w: int): List[int] = tab(3, i => whiteErr(p, form, i, w))

  action xyzToLab = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet form = 0.to(1).oneOf()
    val wh = someWhite(s, form, w)
    // sometimes two or three of the ratios coincide
    val co = rndIn(s, 7, 0, 5)
    val v = tab(3, i => fw(mul(wh._2[i], ratio(s, if (co == 0) 20 else if (co < 4 and i == co - 1) 20 + i % 2 else 20 + i)), w))
    val l = toLab(v, wh._2)
    val t = labTol(v, wh._2, wErrs(wh._1, form, w), w)
    emit(okCall("to_lab", [w, form], v.concat(wh._1), tabIv(3, i => within(l[i], t[i])), region(v, wh._2)))
  }
  /// the reference white itself and black
  action anchors = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(1).oneOf()
    val wh = someWhite(s, 0, w)._2
    val v = if (k == 0) wh else [0, 0, 0]
    emit(okCall("to_lab", [w, 0], v.concat(wh),
      if (k == 0) [within(100 * ONE, 200 * ulp(w)), within(0, 2000 * ulp(w)), within(0, 800 * ulp(w))]
      else [within(0, 64 * ulp(w)), within(0, 512 * ulp(w)), within(0, 256 * ulp(w))],
      if (k == 0) "white" else "black"))
  }
  pure def pickLab(s: int, i: int, w: int): List[int] = {
    pure val k = rndIn(s, 11 * i, 0, 6)
    pure val l = if (k == 0) 0 else if (k == 1) 8 * ONE + rndReal(s, 11 * i + 1, -ONE / 1000, ONE / 1000)
      else if (k == 2) rndReal(s, 11 * i + 1, 0, 8 * ONE) else if (k == 3) rndReal(s, 11 * i + 1, -5 * ONE, 150 * ONE)
      else if (k == 6) rndIn(s, 11 * i + 1, 0, 120) * ONE
      else rndReal(s, 11 * i + 1, 0, 100 * ONE)
    pure val m = rndIn(s, 11 * i + 2, 0, 5)
    pure val r = if (m == 0) 0 else if (m == 1) 5 * ONE else if (m == 2) ONE / 100 else if (m == 5) 400 * ONE else 128 * ONE
    pure val ax = rndIn(s, 11 * i + 5, 0, 7)
    pure val ca = if (r == 0 or ax == 0) 0 else rndReal(s, 11 * i + 3, -r, r)
    pure val cbv = if (r == 0 or ax == 1) 0 else if (ax == 2) ca else rndReal(s, 11 * i + 4, -r, r)
    [fw(l, w), fw(ca, w), fw(cbv, w)]
  }
  action labToXyz = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet form = 0.to(1).oneOf()
    val wh = someWhite(s, form, w)
    val l = pickLab(s, 5, w)
    val v = fromLab(l, wh._2)
    val t = xyzTol(l, wh._2, wErrs(wh._1, form, w), w)
    emit(okCall("from_lab", [w, form], l.concat(wh._1), tabIv(3, i => within(v[i], t[i])), region(v, wh._2)))
  }
  /// L*a*b* -> XYZ -> L*a*b*
  action labRound = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val wh = someWhite(s, 0, w)
    val l = pickLab(s, 5, w)
    val m = 64 * mul(80 * ONE + 5 * absf(l[0]) + absf(l[1]) + 3 * absf(l[2]), ulp(w))
    emit(okCall("lab_round", [w], l.concat(wh._1), tabIv(3, i => within(l[i], m)), "round trip"))
  }
  action stepC11 = any { xyzToLab, xyzToLab, anchors, labToXyz, labToXyz, labRound }

  /// the two definitions are inverse to each other
  val specLabInverse = (c.op == "from_lab") implies {
    val l = [c.fs[0], c.fs[1], c.fs[2]]
    val p = [c.fs[3], c.fs[4], c.fs[5]]
    val white = if (c.ints[1] == 0) p else toXYZ(p)
    val b = toLab(fromLab(l, white), white)
    range(0, 3).indices().forall(i => absf(b[i] - l[i]) < E12)
  }
  val specLabInverse2 = (c.op == "to_lab") implies {
    val v = [c.fs[0], c.fs[1], c.fs[2]]
    val p = [c.fs[3], c.fs[4], c.fs[5]]
    val white = if (c.ints[1] == 0) p else toXYZ(p)
    val b = fromLab(toLab(v, white), white)
    range(0, 3).indices().forall(i => absf(b[i] - v[i]) < E12)
  }
  /// lightness depends on Y only, and neutrals have a* = b* = 0
  val specNeutral = (c.op == "to_lab") implies {
    val p = [c.fs[3], c.fs[4], c.fs[5]]
    val white = if (c.ints[1] == 0) p else toXYZ(p)
    val r = div(c.fs[1], white[1])
    val l = toLab(mapl(white, x => mul(x, r)), white)
    absf(l[0] - toLab([c.fs[0], c.fs[1], c.fs[2]], white)[0]) < E12 and absf(l[1]) < E12 and absf(l[2]) < E12
  }

  // ======================================================================= C12
  pure def hyp(a: int, b: int): int = sqrtf(sq(a) + sq(b))
  pure def de76(p: List[int], q: List[int]): int = sqrtf(sq(p[0] - q[0]) + sq(p[1] - q[1]) + sq(p[2] - q[2]))

  pure val P25 = powi(25 * ONE, 7)
  /// sqrt(c^7 / (c^7 + 25^7))
  pure def rc(c: int): int = {
    pure val p = powi(c, 7)
    sqrtf(div(p, p + P25))
  }
  pure def hue(b: int, a: int): int = {
    pure val h = toDeg(atan2f(b, a))
    if (h < 0) h + 360 * ONE else h
  }
  pure def cosd(x: int): int = cosf(toRad(x))
  pure def sind(x: int): int = sinf(toRad(x))

  type Polar = { c1: int, c2: int, h1: int, h2: int }
  pure def polar(p: List[int], q: List[int]): Polar = {
    pure val cb = (hyp(p[1], p[2]) + hyp(q[1], q[2])) / 2
    pure val g = (ONE - rc(cb)) / 2
    pure val a1 = mul(ONE + g, p[1])
    pure val a2 = mul(ONE + g, q[1])
    { c1: hyp(a1, p[2]), c2: hyp(a2, q[2]), h1: hue(p[2], a1), h2: hue(q[2], a2) }
  }
  /// the formula, for a given hue difference and mean hue
  pure def de00(p: List[int], q: List[int], o: Polar, dh: int, hb: int): int = {
    pure val dl = q[0] - p[0]
    pure val dc = o.c2 - o.c1
    pure val dH = mul(2 * sqrtf(mul(o.c1, o.c2)), sind(dh / 2))
    pure val lb = (p[0] + q[0]) / 2 - 50 * ONE
    pure val cb = (o.c1 + o.c2) / 2
    pure val t = ONE - (17 * cosd(hb - 30 * ONE)) / 100 + (24 * cosd(2 * hb)) / 100 + (32 * cosd(3 * hb + 6 * ONE)) / 100
      - (20 * cosd(4 * hb - 63 * ONE)) / 100
    pure val z = (hb - 275 * ONE) / 25
    pure val dtheta = 30 * expf(-sq(z))
    pure val sl = ONE + div((15 * sq(lb)) / 1000, sqrtf(20 * ONE + sq(lb)))
    pure val sc = ONE + (45 * cb) / 1000
    pure val sh = ONE + (15 * mul(cb, t)) / 1000
    pure val rt = -mul(sind(2 * dtheta), 2 * rc(cb))
    pure val x = div(dl, sl)
    pure val y = div(dc, sc)
    pure val u = div(dH, sh)
    sqrtf(sq(x) + sq(y) + sq(u) + mul(rt, mul(y, u)))
  }
  /// published choice of hue difference and mean hue; where the choice is a tie
  /// up to rounding (opposite hues, mean at the 0/360 wrap) either side is allowed
  pure def de00Iv(p: List[int], q: List[int], w: int): Iv = {
    pure val o = polar(p, q)
    pure val raw = o.h2 - o.h1
    pure val ad = absf(raw)
    pure val sum = o.h1 + o.h2
    pure val slop = 2000 * ulp(w)
    pure val neutral = o.c1 == 0 or o.c2 == 0
    pure val same = { e: de00(p, q, o, raw, sum / 2) }
    pure val other = if (raw > 0) raw - 360 * ONE else raw + 360 * ONE
    pure val tol = mul(absf(o.c1) + absf(o.c2) + absf(p[0]) + absf(q[0]) + ONE / 1000, (if (w == 64) 8192 else 64) * ulp(w))
    pure def pad(v: int): Iv = within(v, mul(v, (if (w == 64) 8192 else 400) * ulp(w)) + tol)
    if (neutral) pad(de00(p, q, o, 0, sum))
    else if (ad < 180 * ONE - slop) pad(same.e)
    else {
      pure val up = de00(p, q, o, other, sum / 2 + 180 * ONE)
      pure val dn = de00(p, q, o, other, sum / 2 - 180 * ONE)
      pure val far = if (sum < 360 * ONE - slop) pad(up) else if (sum > 360 * ONE + slop) pad(dn) else hull(pad(up), pad(dn))
      if (ad > 180 * ONE + slop) far else hull(far, pad(same.e))
    }
  }

  /// colours and a partner: same hue, opposite, across the wrap, neutral, far, near, identical
  pure def partner(s: int, p: List[int], w: int): List[int] = {
    pure val k = rndIn(s, 300, 0, 10)
    if (k == 0) p
    // one component differs, by a little or a lot
    else if (k == 9) {
      pure val only = rndIn(s, 309, 0, 2)
      pure val dv = (if (rnd(s, 320) % 2 == 0) 1 else -1) * rndLog(s, 321, -20, 6)
      tab(3, i => if (i == only) fw(p[i] + dv, w) else p[i])
    }
    // a little of everything
    else if (k == 10) {
      pure val sc = rndLog(s, 321, -16, -2)
      tab(3, i => fw(p[i] + mul(sc, rndReal(s, 322 + i, -ONE, ONE)), w))
    }
    else if (k == 1 and rnd(s, 305) % 3 == 0) [p[0], fw(-p[1], w), fw(-p[2], w)]
    else if (k == 1) {
      // nearly opposite hue, on either side
      pure val th = PI + rndReal(s, 306, -ONE / 10, ONE / 10)
      pure val g = rndReal(s, 307, ONE / 2, 2 * ONE)
      [fw(p[0] + rndReal(s, 308, -ONE, ONE), w), fw(mul(g, mul(p[1], cosf(th)) - mul(p[2], sinf(th))), w),
       fw(mul(g, mul(p[1], sinf(th)) + mul(p[2], cosf(th))), w)]
    }
    else if (k == 2) [p[0], p[1], fw(-p[2], w)]
    else if (k == 3) [fw(rndReal(s, 301, 0, 100 * ONE), w), 0, 0]
    else if (k == 4) tab(3, i => fw(p[i] + rndReal(s, 302 + i, -ONE, ONE), w))
    else if (k == 5) [p[0], fw(mul(p[1], rndReal(s, 302, ONE / 4, 3 * ONE)), w), fw(mul(p[2], rndReal(s, 303, ONE / 4, 3 * ONE)), w)]
    else if (k == 6) [fw(rndReal(s, 301, 0, 100 * ONE), w), p[1], p[2]]
    else if (k == 7) [p[0], fw(absf(p[1]) + ONE, w), fw(-p[2] / 1000, w)]
    else tab(3, i => fw(if (i == 0) rndReal(s, 301, 0, 100 * ONE) else rndReal(s, 302 + i, -128 * ONE, 128 * ONE), w))
  }
  pure def colour(s: int, w: int): List[int] = {
    pure val k = rndIn(s, 310, 0, 8)
    pure val lt = if (rnd(s, 315) % 6 == 0) rndReal(s, 312, -10 * ONE, 400 * ONE)
      else if (rnd(s, 315) % 6 == 1) rndIn(s, 312, 0, 10) * 10 * ONE else rndReal(s, 312, 0, 100 * ONE)
    pure val r = if (k == 0) ONE else if (k == 1) 30 * ONE else if (k == 5) 300 * ONE else 128 * ONE
    if (k == 2 and rnd(s, 311) % 3 == 0) [fw(lt, w), 0, 0]
    // hue exactly on an axis or a diagonal
    else if (k == 6) {
      pure val d8 = rndIn(s, 313, 0, 7)
      pure val ch8 = fw(rndReal(s, 314, ONE / 1000, 128 * ONE), w)
      [fw(lt, w), if (d8 == 2 or d8 == 6) 0 else if (d8 > 2 and d8 < 6) -ch8 else ch8,
       if (d8 % 4 == 0) 0 else if (d8 > 4) -ch8 else ch8]
    }
    // hardly any chroma
    else if (k == 7) {
      pure val th7 = rndReal(s, 313, 0, TWOPI)
      pure val ch7 = rndLog(s, 314, -26, -3)
      [fw(lt, w), fw(mul(ch7, cosf(th7)), w), fw(mul(ch7, sinf(th7)), w)]
    }
    // around the blue region, where the rotation term matters
    else if (k == 8) {
      pure val th8 = rndReal(s, 313, (TWOPI * 230) / 360, (TWOPI * 320) / 360)
      pure val cx = rndReal(s, 314, 20 * ONE, 120 * ONE)
      [fw(lt, w), fw(mul(cx, cosf(th8)), w), fw(mul(cx, sinf(th8)), w)]
    }
    // polar, with a uniformly distributed hue
    else {
      pure val th = rndReal(s, 313, 0, TWOPI)
      pure val ch = rndReal(s, 314, ONE / 1000, r)
      [fw(lt, w), fw(mul(ch, cosf(th)), w), fw(mul(ch, sinf(th)), w)]
    }
  }
  /// tiny but non-zero chroma makes the hue ill-conditioned in the wrong way: keep it 0 or clearly positive
  pure def okChroma(p: List[int]): bool = (p[1] == 0 and p[2] == 0) or hyp(p[1], p[2]) > ONE / 2^30

  pure def pairCall(op: str, p: List[int], q: List[int], w: int, tag: str): Call = {
    pure val v = de76(p, q)
    pure val e = if (op == "de76") within(v, mul(v, 6 * ulp(w))) else de00Iv(p, q, w)
    pure val e0 = if (p == q) exactly(0) else { lo: maxf(e.lo, 0), hi: e.hi }
    // both orders
    okCall(op, [w], p.concat(q), [e0, e0, e0, e0], tag)
  }
  action diff = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(3).oneOf()
    val p = colour(s, w)
    val q = partner(s, p, w)
    val o = polar(p, q)
    val tag = if (p == q) "identical" else if (o.c1 == 0 or o.c2 == 0) "neutral"
      else if (absf(o.h1 - o.h2) > 180 * ONE) "across the wrap" else if (absf(o.h1 - o.h2) > 179 * ONE) "opposite" else "same side"
    if (okChroma(q)) emit(pairCall(if (k == 0) "de76" else "de00", p, q, w, tag))
    else emit(pairCall("de76", p, q, w, "small chroma"))
  }
  /// pairs published with the formula (Sharma et al. 2005, table 1), in 1/10000
  pure val SHARMA: List[List[int]] = [
    [500000, 26772, -797751, 500000, 0, -827485, 20425], [500000, 31571, -772803, 500000, 0, -827485, 28615],
    [500000, 28361, -740200, 500000, 0, -827485, 34412], [500000, -13802, -842814, 500000, 0, -827485, 10000],
    [500000, -11848, -848006, 500000, 0, -827485, 10000], [500000, -9009, -855211, 500000, 0, -827485, 10000],
    [500000, 0, 0, 500000, -10000, 20000, 23669], [500000, -10000, 20000, 500000, 0, 0, 23669],
    [500000, 24900, -10, 500000, -24900, 9, 71792], [500000, 24900, -10, 500000, -24900, 10, 71792],
    [500000, 24900, -10, 500000, -24900, 11, 72195], [500000, 24900, -10, 500000, -24900, 12, 72195],
    [500000, -10, 24900, 500000, 9, -24900, 48045], [500000, -10, 24900, 500000, 10, -24900, 48045],
    [500000, -10, 24900, 500000, 11, -24900, 47461], [500000, 25000, 0, 500000, 0, -25000, 43065],
    [500000, 25000, 0, 730000, 250000, -180000, 271492], [500000, 25000, 0, 610000, -50000, 290000, 228977],
    [500000, 25000, 0, 560000, -270000, -30000, 319030], [500000, 25000, 0, 580000, 240000, 150000, 194535],
    [500000, 25000, 0, 500000, 31736, 5854, 10000], [500000, 25000, 0, 500000, 32972, 0, 10000],
    [500000, 25000, 0, 500000, 18634, 5757, 10000], [500000, 25000, 0, 500000, 32592, 3350, 10000],
    [602574, -340099, 362677, 604626, -341751, 394387, 12644], [630109, -310961, -58663, 628187, -297946, -40864, 12630],
    [612901, 37196, -53901, 614292, 22480, -49620, 18731], [350831, -441164, 37933, 350232, -400716, 15901, 18645],
    [227233, 200904, -466940, 230331, 149730, -425619, 20373], [364612, 478580, 183852, 362715, 505065, 212231, 14146],
    [908027, -20831, 14410, 911528, -16435, 447, 14441], [909257, -5406, -9208, 886381, -8985, -7239, 15381],
    [67747, -2908, -24247, 58714, -985, -22286, 6377], [20776, 795, -11350, 9033, -636, -5514, 9082],
  ]
  pure def sharma(k: int, j: int): List[int] = tab(3, i => rat(SHARMA[k][3 * j + i], 10000))
  action published = {
    nondet k = 0.to(33).oneOf()
    nondet w = WIDTHS.oneOf()
    emit(pairCall("de00", fw3(sharma(k, 0), w), fw3(sharma(k, 1), w), w, "published pair"))
  }
  /// negative zero is a neutral like any other
  action negativeZero = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val p = [fw(rndReal(s, 1, 0, 100 * ONE), w), 0, 0]
    val q = colour(s, w)
    val e = pairCall("de00", p, q, w, "negative zero")
    val z = rndIn(s, 2, 1, 3)
    emit(okCall("de00", [w], [p[0], if (z % 2 == 1) SNZERO else 0, if (z >= 2) SNZERO else 0].concat(q), e.exp, "negative zero"))
  }
  action stepC12 = any { diff, diff, diff, diff, diff, diff, published, negativeZero }

  /// the formula of this specification reproduces the published values to their four decimals
  pure def de00Published(p: List[int], q: List[int]): int = {
    pure val o = polar(p, q)
    pure val raw = o.h2 - o.h1
    pure val sum = o.h1 + o.h2
    if (o.c1 == 0 or o.c2 == 0) de00(p, q, o, 0, sum)
    else if (absf(raw) <= 180 * ONE + 2^30) de00(p, q, o, raw, sum / 2)   // exactly opposite: truncation here
    else de00(p, q, o, if (raw > 0) raw - 360 * ONE else raw + 360 * ONE, if (sum < 360 * ONE) sum / 2 + 180 * ONE else sum / 2 - 180 * ONE)
  }
  val specSharma = range(0, 34).indices().forall(k =>
    absf(de00Published(sharma(k, 0), sharma(k, 1)) - rat(SHARMA[k][6], 10000)) < rat(51, 1000000))
  action stepSharma = { c' = NOCALL }
  val specSymmetric = (c.op == "de00" and c.tag != "negative zero") implies {
    val p = [c.fs[0], c.fs[1], c.fs[2]]
    val q = [c.fs[3], c.fs[4], c.fs[5]]
    val a = de00Iv(p, q, c.ints[0])
    val b = de00Iv(q, p, c.ints[0])
    absf(a.lo - b.lo) < E9 and absf(a.hi - b.hi) < E9
  }
  val specNonNegative = (c.op == "de00" or c.op == "de76") implies c.exp[0].hi >= 0
}
