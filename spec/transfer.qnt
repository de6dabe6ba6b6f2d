// -*- mode: Bluespec; -*-
/// Opto-electrical / electro-optical transfer functions (properties C02, C03).
module transfer {
  import fix.* from "./fix"
  import common.* from "./common"
  import curves.* from "./curves"

  var c: Call
  var n: int

  // ---- inputs ---------------------------------------------------------------
  /// regions: 0 around the break, 1 landmark, 2 unit interval, 3 negative,
  ///          4 small / log scale, 5 above one, 6 8-bit codes
  pure def pickX(s: int, i: int, brk: int, signed: bool, w: int): int = {
    pure val cls = rndIn(s, 10 * i, 0, 8)
    pure val k = rndIn(s, 10 * i + 1, 1, if (w == 64) 52 else 23)
    pure val up = rnd(s, 10 * i + 2) % 2 == 0
    pure val raw =
      if (cls == 0) (if (up) brk + brk / 2^k else brk - brk / 2^k)
      else if (cls == 1) {
        pure val lm = rndIn(s, 10 * i + 3, 0, 7)
        if (lm == 0) 0 else if (lm == 1) ONE else if (lm == 2) brk else if (lm == 3) HALF
        else if (lm == 4) rat(18, 100) else if (lm == 5) ONE - ONE / 2^k
        else if (lm == 6) ONE + ONE / 2^(minf(k, 20)) else (ONE / 2^k)
      }
      else if (cls == 2) rndReal(s, 10 * i + 4, 0, ONE)
      else if (cls == 3) (if (signed) -rndReal(s, 10 * i + 5, 0, 4 * ONE) else rndReal(s, 10 * i + 5, 0, 2 * ONE))
      else if (cls == 4) rndLog(s, 10 * i + 6, -40, -1)
      else if (cls == 5) rndReal(s, 10 * i + 7, ONE, 16 * ONE)
      else if (cls == 7) rndLog(s, 10 * i + 7, 0, if (up) 14 else 36)
      else if (cls == 8) (if (signed) (if (up) -rndLog(s, 10 * i + 7, -60, 3) else -brk - (if (rnd(s, 10 * i + 4) % 2 == 0) brk / 2^k else -brk / 2^k)) else rndLog(s, 10 * i + 6, -60, -1))
      else rat(rndIn(s, 10 * i + 8, 0, 255), 255)
    fw(raw, w)
  }
  /// sometimes channels coincide
  pure def ch(s: int, i: int): int = {
    pure val co = rndIn(s, 901, 0, 7)
    if (co == 0) 0 else if (co <= 2 and i == co) i - 1 else if (co == 3 and i == 2) 0 else i
  }
  // LogC code values above ~1.2 decode to > 500; keep to the useful range
  pure def pickCode(cv: int, s: int, i: int, w: int): int = {
    pure val x = pickX(s, i, decBreak(cv), signedDomain(cv), w)
    if (cv == 4 and x > 5 * (ONE / 4)) fw(minf(x / 16, 5 * (ONE / 4)), w) else x
  }
  pure def region(cv: int, x: int, brk: int): str =
    if (x < 0) "negative" else if (x == 0) "zero"
    else if (absf(x - brk) < brk / 1000) "break"
    else if (x <= brk) "below" else if (x <= ONE) "above" else "gt1"

  pure def opw(name: str, w: int): str =
    if (name == "enc_fn") (if (w == 64) "enc_fn64" else "enc_fn32")
    else if (name == "dec_fn") (if (w == 64) "dec_fn64" else "dec_fn32")
    else if (name == "enc_t") (if (w == 64) "enc_t64" else "enc_t32")
    else if (name == "dec_t") (if (w == 64) "dec_t64" else "dec_t32")
    else if (name == "enc_model") (if (w == 64) "enc_model64" else "enc_model32")
    else if (name == "dec_model") (if (w == 64) "dec_model64" else "dec_model32")
    else if (name == "decenc") (if (w == 64) "decenc64" else "decenc32")
    else if (name == "encdec") (if (w == 64) "encdec64" else "encdec32")
    else if (name == "enc_order") (if (w == 64) "enc_order64" else "enc_order32")
    else (if (w == 64) "dec_order64" else "dec_order32")

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }


  action encFn = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cv = 0.to(4).oneOf()
    val xs = tab(3, i => pickX(s, ch(s, i), encBreak(cv), true, w))
    emit(okCall(opw("enc_fn", w), [cv], xs, tabIv(3, i => encIv(cv, xs[i], w)), region(cv, xs[0], encBreak(cv))))
  }
  action decFn = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cv = 0.to(4).oneOf()
    val xs = tab(3, i => pickCode(cv, s, ch(s, i), w))
    emit(okCall(opw("dec_fn", w), [cv], xs, tabIv(3, i => decIv(cv, xs[i], w)), region(cv, xs[0], decBreak(cv))))
  }
  action encT = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cv = 0.to(4).oneOf()
    val x = pickX(s, 0, encBreak(cv), true, w)
    emit(okCall(opw("enc_t", w), [cv], [x], [encIv(cv, x, w)], region(cv, x, encBreak(cv))))
  }
  action decT = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cv = 0.to(4).oneOf()
    val x = pickCode(cv, s, 0, w)
    emit(okCall(opw("dec_t", w), [cv], [x], [decIv(cv, x, w)], region(cv, x, decBreak(cv))))
  }
  action encModel = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val xs = tab(3, i => pickX(s, ch(s, i), encBreak(cv), signedDomain(cv), w))
    emit(okCall(opw("enc_model", w), [sp], xs, tabIv(3, i => encIv(cv, xs[i], w)), region(cv, xs[0], encBreak(cv))))
  }
  action decModel = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val xs = tab(3, i => pickCode(cv, s, ch(s, i), w))
    emit(okCall(opw("dec_model", w), [sp], xs, tabIv(3, i => decIv(cv, xs[i], w)), region(cv, xs[0], decBreak(cv))))
  }

  action stepC02 = any { encFn, decFn, encT, decT, encModel, decModel }

  // ---- C03: inverse pair, order -------------------------------------------
  /// half-width of the neighbourhood of the break in which the published
  /// constants themselves do not meet exactly, and by how much
  pure def gap(cv: int): int = if (cv == 1 or cv == 2) rat(5, 10000) else E6
  pure def nearBreak(x: int, brk: int): bool = absf(x - brk) <= brk / 100
  pure def rtIv(cv: int, x: int, brk: int, w: int): Iv = {
    pure val t = if (w == 64) mul(absf(x), E10) + E12 else mul(absf(x), 40 * E6) + 4 * E6
    // the logarithmic code magnifies rounding by x + b/a
    pure val t2 = if (cv == 4) (if (w == 64) t + E11 else t + 8 * E6) else t
    if (piecewise(cv) and nearBreak(x, brk)) within(x, t2 + gap(cv)) else within(x, t2)
  }
  /// decode(encode(x)) = x on the whole domain
  action decEnc = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val xs = tab(3, i => pickX(s, ch(s, i), encBreak(cv), signedDomain(cv), w))
    emit(okCall(opw("decenc", w), [sp], xs, tabIv(3, i => rtIv(cv, xs[i], encBreak(cv), w)), region(cv, xs[0], encBreak(cv))))
  }
  /// encode(decode(t)) = t
  action encDec = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val xs = tab(3, i => pickCode(cv, s, ch(s, i), w))
    emit(okCall(opw("encdec", w), [sp], xs, tabIv(3, i => rtIv(cv, xs[i], decBreak(cv), w)), region(cv, xs[0], decBreak(cv))))
  }
  /// x <= y implies curve(x) <= curve(y), up to the published gap at the break
  pure def orderIv(cv: int, x: int, y: int, brk: int, w: int): Iv = {
    pure val straddles = piecewise(cv) and x <= brk + brk / 50 and y >= brk - brk / 50
    { lo: if (straddles) -gap(cv) else 0, hi: BIG }
  }
  action encOrder = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val x = pickX(s, 0, encBreak(cv), signedDomain(cv), w)
    val y0 = pickX(s, 1, encBreak(cv), signedDomain(cv), w)
    val y = if (rnd(s, 777) % 2 == 0) y0 else fw(x + absf(x) / 2^(rndIn(s, 778, 4, 18)), w)
    val a = minf(x, y)
    val b = maxf(x, y)
    emit(okCall(opw("enc_order", w), [sp], [a, b], tabIv(3, i => orderIv(cv, a, b, encBreak(cv), w)), region(cv, a, encBreak(cv))))
  }
  action decOrder = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet sp = 0.to(if (w == 64) 9 else 8).oneOf()
    val cv = curveOf(sp)
    val x = pickCode(cv, s, 0, w)
    val y0 = pickCode(cv, s, 1, w)
    val y = if (rnd(s, 777) % 2 == 0) y0 else fw(x + absf(x) / 2^(rndIn(s, 778, 4, 18)), w)
    val a = minf(x, y)
    val b = maxf(x, y)
    emit(okCall(opw("dec_order", w), [sp], [a, b], tabIv(3, i => orderIv(cv, a, b, decBreak(cv), w)), region(cv, a, decBreak(cv))))
  }
  action stepC03 = any { decEnc, encDec, encOrder, decOrder }

  // ---- invariants of the specification itself -------------------------------
  val wellFormed = c.exp.indices().forall(i => c.exp[i].lo <= c.exp[i].hi)
  /// the published curves invert each other up to the stated gap
  val specInverse = (c.op == "decenc64" or c.op == "decenc32") implies {
    val cv = curveOf(c.ints[0])
    c.fs.indices().forall(i => inIv(c.exp[i], decode(cv, encode(cv, c.fs[i]))))
  }
  val specInverse2 = (c.op == "encdec64" or c.op == "encdec32") implies {
    val cv = curveOf(c.ints[0])
    c.fs.indices().forall(i => inIv(c.exp[i], encode(cv, decode(cv, c.fs[i]))))
  }
  val specOrder = (c.op == "enc_order64") implies {
    val cv = curveOf(c.ints[0])
    inIv(c.exp[0], encode(cv, c.fs[1]) - encode(cv, c.fs[0]))
  }
  val specOrder2 = (c.op == "dec_order64") implies {
    val cv = curveOf(c.ints[0])
    inIv(c.exp[0], decode(cv, c.fs[1]) - decode(cv, c.fs[0]))
  }
}
