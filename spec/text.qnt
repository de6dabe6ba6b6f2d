// -*- mode: Bluespec; -*-
/// The textual form of every value (property C28): the numbers read back from the text are the
/// components, in their published order, exactly.
module text {
  import fix.* from "./fix"
  import common.* from "./common"
  import spectra.* from "./spectra"
  import gensp.* from "./gensp"

  var c: Call
  action init = c' = NOCALL
  action emit(call: Call): bool = c' = call

  /// numbers of every kind: whole, fractions, tiny, huge, negative, neighbours of one another,
  /// with up to 17 significant digits
  pure def num(s: int, i: int, w: int): int = {
    pure val k = rnd(s, 10 * i) % 9
    pure val sg = if (rnd(s, 10 * i + 1) % 3 == 0) -1 else 1
    if (k == 0) sg * rndIn(s, 10 * i + 2, 0, 1000) * ONE
    else if (k == 1) 0
    else if (k == 2) fw(sg * rndLog(s, 10 * i + 2, -58, 60), w)
    else if (k == 3) fw(sg * rndLog(s, 10 * i + 2, -20, 20), w)
    // one or a half with the last bit changed
    else if (k == 4) sg * (ONE + (if (rnd(s, 10 * i + 3) % 2 == 0) ulp(w) else -ulp(w) / 2))
    // few decimals
    else if (k == 5) fw(sg * rat(rndIn(s, 10 * i + 2, 0, 99999), 1000), w)
    else fw(sg * rndReal(s, 10 * i + 2, 0, 4 * ONE), w)
  }
  pure def nums(s: int, n: int, w: int): List[int] = range(0, n).foldl([], (l, i) =>
    // sometimes equal to the component before
    l.append(if (i > 0 and rnd(s, 900 + i) % 6 == 0) l[i - 1] else num(s, i, w)))
  pure def same(l: List[int]): List[Iv] = l.foldl([], (r, x) => r.append(exactly(x)))

  /// kind 0 RGB 1 XYZ 2 xyY 3 L*a*b*; how 0 Display 1 Debug (xyY and L*a*b* have only the latter)
  action colour = {
    nondet s = SEEDS.oneOf()
    nondet kind = 0.to(3).oneOf()
    nondet w = WIDTHS.oneOf()
    nondet how = 0.to(1).oneOf()
    val a = nums(s, 3, w)
    emit(okCall("t_colour", [kind, w, if (kind > 1) 1 else how], a, same(a), ["RGB", "XYZ", "xyY", "Lab"][kind]))
  }
  /// 8, 16 bit
  action codes = {
    nondet s = SEEDS.oneOf()
    nondet bits = Set(8, 16).oneOf()
    nondet how = 0.to(1).oneOf()
    val a = range(0, 3).foldl([], (l, i) => l.append(ONE * rndIn(s, i, 0, 2^bits - 1)))
    emit(okCall("t_codes", [bits, how], a, same(a), "code"))
  }
  /// a colour with alpha, and a matrix
  action others = {
    nondet s = SEEDS.oneOf()
    nondet k = 0.to(1).oneOf()
    nondet w = WIDTHS.oneOf()
    val a = nums(s, if (k == 0) 4 else 9, if (k == 0) 32 else w)
    emit(okCall(if (k == 0) "t_rgba" else "t_matrix", [w], a, same(a), if (k == 0) "alpha" else "matrix"))
  }
  /// a shape, with an interval or without (0), and an interval alone
  action shapes = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet whole = Set(true, false).oneOf()
    val a0 = tab(3, i => fw(if (i < 2) absf(num(s, i, w)) + 300 * ONE else pickStep(s, 50), w))
    val a = if (rnd(s, 40) % 3 == 0) a0.replaceAt(2, 0) else a0
    if (whole) emit(okCall("t_shape", [w], a, same(a), if (a[2] == 0) "varying" else "uniform"))
    else emit(okCall("t_interval", [w], [a[2]], [exactly(a[2])], if (a[2] == 0) "varying" else "uniform"))
  }
  action sample = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(1).oneOf()
    val a = [absf(num(s, 0, 64)), num(s, 1, 64)]
    emit(okCall("t_sample", [how], a, same(a), "sample"))
  }
  /// start, end, interval, then each sample's wavelength and value
  action spectrum = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(1).oneOf()
    val sp0 = if (rnd(s, 981) % 4 == 0) {
      val n = rndIn(s, 982, 25, 450)
      val st = [ONE, ONE / 2, 5 * ONE / 4][rndIn(s, 983, 0, 2)]
      mk(range(0, n).foldl([], (l, i) => l.append(300 * ONE + i * st)), range(0, n).foldl([], (l, i) => l.append(f64(rndReal(s, 1000 + i, -ONE, ONE)))), 0)
    } else pickSp(s, 24)
    // a third of them with values of every kind
    val sp = if (rnd(s, 980) % 3 == 0) mk(sp0.nm, nums(s, samples(sp0), 64), sp0.nt) else sp0
    val n = samples(sp)
    emit(okCall("t_spectrum", [how, n], flatSp(sp),
      [exactly(sp.sh.start), exactly(sp.sh.end), within(sp.sh.step, if (sp.sh.step == 0) 0 else GAPERR)]
        .concat(range(0, n).foldl([], (l, i) => l.concat([exactly(sp.nm[i]), exactly(sp.v[i])]))),
      if (sp.sh.step == 0) "varying" else "uniform"))
  }
  /// all forty values of a fixed-shape spectrum
  action fixedShape = {
    nondet s = SEEDS.oneOf()
    nondet how = 0.to(1).oneOf()
    val a = nums(s, 40, 32)
    emit(okCall("t_spd", [how], a, same(a), "fixed shape"))
  }
  action step = any { colour, colour, colour, codes, others, shapes, sample, spectrum, spectrum, fixedShape }

  /// nothing is lost or added: as many numbers as components, each of them exactly
  val complete = c.op != "nop" implies c.exp.length() == c.fs.length() + (if (c.op == "t_spectrum") 3 else 0)
  val exact = (c.op != "t_spectrum" and c.op != "nop") implies c.exp.indices().forall(i => c.exp[i].lo == c.fs[i] and c.exp[i].hi == c.fs[i])
}
