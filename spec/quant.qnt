// -*- mode: Bluespec; -*-
/// Integer storage of colours (property C01).
module quant {
  import fix.* from "./fix"
  import common.* from "./common"

  var c: Call
  var n: int

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  pure def maxCode(bits: int): int = if (bits == 8) 255 else 65535
  /// the code of the real x (fixed point): clamp, then nearest (2*x*M+1)/2 floored
  pure def quantise(x: int, m: int): int = {
    pure val y = clampf(x, 0, ONE)
    (2 * y * m + ONE) / (2 * ONE)
  }
  /// product rounding: codes within this of a half may go either way
  pure def slack(m: int, w: int): int = m * (2 * ulp(w))
  pure def quantIv(x: int, m: int, w: int): Iv =
    if (x == SNAN) { lo: 0, hi: m * ONE }
    else if (x == SPINF) exactly(m * ONE)
    else if (x == SNINF or x == SNZERO) exactly(0)
    else {
      pure val s = slack(m, w) / m
      if (x <= 0) exactly(0) else if (x >= ONE) exactly(m * ONE)
      else { lo: quantise(x - s, m) * ONE, hi: quantise(x + s, m) * ONE }
    }

  /// classes: half-way points, codes, out of range, special, log scale, uniform
  pure def pick(s: int, i0: int, m: int, w: int): int = {
    // some pixels are grey
    pure val i = if (rnd(s, 901) % 6 == 0) 0 else i0
    pure val cls = rndIn(s, 8 * i, 0, 9)
    pure val k = rndIn(s, 8 * i + 1, 0, m)
    pure val e = rndIn(s, 8 * i + 2, 2, if (w == 64) 50 else 20)
    pure val sg = if (rnd(s, 8 * i + 3) % 2 == 0) 1 else -1
    if (cls == 0) fw(rat(2 * k + 1, 2 * m) + sg * (rat(1, m) / 2^e), w)
    else if (cls == 1) fw(rat(2 * k + 1, 2 * m), w)
    else if (cls == 2) fw(rat(k, m), w)
    else if (cls == 3) fw(sg * rndReal(s, 8 * i + 4, ONE, 1000 * ONE), w)
    else if (cls == 4) {
      pure val t = rndIn(s, 8 * i + 5, 0, 8)
      if (t == 0) SPINF else if (t == 1) SNINF else if (t == 2) SNZERO else if (t == 3) 0 else if (t == 4) ONE
      else if (t == 5) HALF else if (t == 6) fw(ONE + ONE / 2^20, w) else if (t == 7) -(ONE / 2^60) else fw(ONE - ONE / 2^e, w)
    }
    else if (cls == 5) fw(sg * rndLog(s, 8 * i + 6, -60, 60), w)
    else if (cls == 6) fw(-rndReal(s, 8 * i + 6, 0, ONE), w)
    else if (cls == 7) fw(rndReal(s, 8 * i + 6, 0, rat(3, m)), w)
    else if (cls == 8) fw(ONE - rndReal(s, 8 * i + 6, 0, rat(3, m)), w)
    else fw(rndReal(s, 8 * i + 7, 0, ONE), w)
  }
  pure def region(x: int): str =
    if (x == SPINF or x == SNINF) "infinite" else if (x == SNZERO or x == 0) "zero"
    else if (x < 0) "negative" else if (x > ONE) "above one" else if (x == ONE) "one" else "inside"

  /// float colour -> codes
  action quantAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet bits = Set(8, 16).oneOf()
    val m = maxCode(bits)
    val xs = tab(3, i => pick(s, i, m, w))
    emit(okCall("quant", [w, bits], xs, tabIv(3, i => quantIv(xs[i], m, w)), region(xs[0])))
  }
  /// codes -> float colour
  action dequantAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet bits = Set(8, 16).oneOf()
    val m = maxCode(bits)
    val ks = tab(3, i => if (rnd(s, 911 + i) % 8 == 0) m else if (rnd(s, 911 + i) % 8 == 1) 0 else rndIn(s, if (rnd(s, 910) % 4 == 0) 0 else i, 0, m))
    emit(okCall("dequant", [w, bits, ks[0], ks[1], ks[2]], [], tabIv(3, i => ulps(rat(ks[i], m), 2, w)), "code"))
  }
  /// round trip of one pixel of arbitrary codes
  action roundTrip = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet bits = Set(8, 16).oneOf()
    val m = maxCode(bits)
    val ks = tab(3, i => if (rnd(s, 911 + i) % 8 == 0) m else if (rnd(s, 911 + i) % 8 == 1) 0 else rndIn(s, if (rnd(s, 910) % 4 == 0) 0 else i, 0, m))
    emit(okCall("code_rt", [w, bits, ks[0], ks[1], ks[2]], [], tabIv(3, i => exactly(ks[i] * ONE)), "code"))
  }
  /// all codes, 256 per step: value and round trip, in every channel position
  pure val BLOCKS = 257
  action blocks = {
    val k = n % (2 * BLOCKS)
    val w = if (k < BLOCKS) 32 else 64
    val b = k % BLOCKS
    val bits = if (b == 256) 8 else 16
    val base = if (b == 256) 0 else 256 * b
    val m = maxCode(bits)
    // the pixel built from code q is (q, m - q, q * 167 mod (m + 1))
    val px = range(0, 256).foldl([], (acc, i) => {
      val q = base + i
      acc.append(q).append(m - q).append((q * 167) % (m + 1))
    })
    emit(okCall("code_block", [w, bits].concat(px), [],
      range(0, 768).foldl([], (acc, i) => acc.append(exactly(px[i] * ONE)).append(near(rat(px[i], m), 2 * ulp(w), 1))), "all codes"))
  }
  action step = any { quantAct, dequantAct, roundTrip }

  /// the interval allowed is never more than two neighbouring codes, and
  /// contains the code of the exact value
  val quantTight = c.op == "quant" implies c.exp.indices().forall(i =>
    c.exp[i].lo <= c.exp[i].hi and c.exp[i].hi - c.exp[i].lo <= ONE)
  val quantHolds = c.op == "quant" implies c.exp.indices().forall(i => {
    val x = c.fs[i]
    (x == SPINF or x == SNINF or x == SNZERO) or inIv(c.exp[i], quantise(x, maxCode(c.ints[1])) * ONE)
  })
  /// on the specification: quantising code/max returns the code
  val specRoundTrip = (c.op == "code_rt" or c.op == "dequant") implies c.exp.indices().forall(i =>
    quantise(rat(c.ints[2 + i], maxCode(c.ints[1])), maxCode(c.ints[1])) == c.ints[2 + i])
}
