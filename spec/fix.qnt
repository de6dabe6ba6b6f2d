// -*- mode: Bluespec; -*-
/// Exact-integer numerics for the colorspace specification.
///
/// A real number r is represented by the integer r * 2^128 ("fixed point").
/// Every f32 / f64 the specification feeds to the implementation is a dyadic
/// rational that this format represents exactly; results are allowed to lie in
/// an interval around the value computed here (truncation error here is about
/// 2^-120, far below any tolerance used).
module fix {
  type Iv = { lo: int, hi: int }

  /// One step of a behaviour: an operation of the library, its arguments and
  /// the set of answers the specification allows.
  ///   op    name of the operation, as the conformance harness knows it
  ///   ints  integer arguments (indices, lengths, codes)
  ///   fs    real arguments, fixed point (or one of the sentinels below)
  ///   kind  "ok" (must return), "panic" (must panic), "any" (unspecified)
  ///   exp   for "ok": the allowed interval of every returned number
  ///   tag   which region of the input space the step lies in (coverage)
  type Call = { op: str, ints: List[int], fs: List[int], kind: str, exp: List[Iv], tag: str }

  // ---- sentinels for values that are not reals ------------------------------
  pure val SNAN  = 2^2000
  pure val SPINF = 2^2001
  pure val SNINF = -(2^2001)
  pure val SNZERO = 2^2002
  // as an expectation: any finite number / anything at all
  pure val BIG = 2^1900
  pure val ANYFINITE: Iv = { lo: -BIG, hi: BIG }
  pure val ANYTHING: Iv = { lo: 2^2003, hi: 2^2003 }
  pure val ISNAN: Iv = { lo: SNAN, hi: SNAN }
  pure val ISPINF: Iv = { lo: SPINF, hi: SPINF }
  pure val ISNINF: Iv = { lo: SNINF, hi: SNINF }

  pure val ONE: int = 2^128
  pure val HALF: int = 2^127

  // ---- basic arithmetic -----------------------------------------------------
  pure def absf(a: int): int = if (a < 0) -a else a
  pure def minf(a: int, b: int): int = if (a < b) a else b
  pure def maxf(a: int, b: int): int = if (a > b) a else b
  pure def clampf(x: int, a: int, b: int): int = if (x < a) a else if (x > b) b else x
  pure def mul(a: int, b: int): int = (a * b) / ONE
  pure def div(a: int, b: int): int = (a * ONE) / b
  pure def rat(n: int, d: int): int = (n * ONE) / d
  pure def sq(a: int): int = mul(a, a)
  pure def cube(a: int): int = mul(mul(a, a), a)
  pure def powi(a: int, n: int): int = 0.to(n - 1).fold(ONE, (p, i) => mul(p, a))
  /// floor(a / b) for b > 0, whatever the sign of a
  pure def floordiv(a: int, b: int): int = {
    pure val q = a / b
    if (q * b > a) q - 1 else q
  }
  pure def sumf(l: List[int]): int = l.foldl(0, (s, x) => s + x)
  pure def maxAbs(l: List[int]): int = l.foldl(0, (s, x) => maxf(s, absf(x)))
  pure def dot3(a: List[int], b: List[int]): int = mul(a[0], b[0]) + mul(a[1], b[1]) + mul(a[2], b[2])

  // ---- lists ----------------------------------------------------------------
  // The simulator keeps one register per parameter of a user-defined operator,
  // so an operator that calls its functional argument repeatedly must not be
  // re-entered from that argument.  These three hand the function to a built-in
  // (mapBy) once and never look at it again, which makes nesting safe.
  pure def mapl(l: List[int], f: (int) => int): List[int] =
    l.foldl(([], l.foldl(Set(), (s, x) => s.union(Set(x))).mapBy(f)), (st, x) => (st._1.append(st._2.get(x)), st._2))._1
  pure def tab(n: int, f: (int) => int): List[int] =
    range(0, n).foldl(([], 0.to(n - 1).mapBy(f)), (st, i) => (st._1.append(st._2.get(i)), st._2))._1
  pure def tabIv(n: int, f: (int) => Iv): List[Iv] =
    range(0, n).foldl(([], 0.to(n - 1).mapBy(f)), (st, i) => (st._1.append(st._2.get(i)), st._2))._1

  // ---- powers of two --------------------------------------------------------
  /// floor(log2(n)) for n >= 1 (n < 2^1024)
  pure val SHIFTS = [512, 256, 128, 64, 32, 16, 8, 4, 2, 1]
  pure val POW2S = SHIFTS.foldl([], (acc, s) => acc.append(2^s))
  pure def ilog2(n: int): int =
    range(0, 10).foldl((n, 0), (st, i) =>
      if (st._1 >= POW2S[i]) (st._1 / POW2S[i], st._2 + SHIFTS[i]) else st)._2

  pure def shl(a: int, k: int): int = if (k >= 0) a * 2^k else a / 2^(-k)

  /// Round the magnitude of a to `bits` significant bits (nearest, ties up):
  /// the result is exactly representable in a binary float with that mantissa
  /// and an unrestricted exponent.
  pure def fl(a: int, bits: int): int =
    if (a == 0) 0 else {
      pure val m = absf(a)
      pure val k = ilog2(m) + 1 - bits
      pure val r = if (k <= 0) m else ((m + 2^(k - 1)) / 2^k) * 2^k
      if (a < 0) -r else r
    }
  pure def f64(a: int): int = fl(a, 53)
  pure def f32(a: int): int = fl(a, 24)

  // ---- elementary functions -------------------------------------------------
  pure val LN2: int = 235865763225513294137944142764154484399
  pure val PI: int = 1069028584064966747859680373161870783300
  pure val HALFPI: int = PI / 2
  pure val TWOPI: int = 2 * PI

  pure def isqrt(n: int): int =
    if (n <= 0) 0 else {
      // start above the root; Newton from above decreases monotonically
      pure val g = 2^((ilog2(n) / 2) + 1)
      range(0, 12).foldl(g, (x, i) => {
        pure val y = (x + n / x) / 2
        if (y < x) y else x
      })
    }
  pure def sqrtf(a: int): int = isqrt(a * ONE)

  /// e^x, |x| < 700
  pure def expf(x: int): int = {
    pure val k = floordiv(x + LN2 / 2, LN2)
    pure val r = (x - k * LN2) / 256
    pure val t = range(1, 15).foldl((ONE, ONE), (st, i) => {
      pure val term = mul(st._2, r) / i
      (st._1 + term, term)
    })._1
    pure val y = range(0, 8).foldl(t, (a, i) => mul(a, a))
    shl(y, k)
  }

  /// natural logarithm, x > 0
  pure def lnf(x: int): int = {
    pure val k0 = ilog2(x) - 128
    pure val m0 = shl(x, -k0)               // [1, 2)
    pure val up = m0 > 3 * (ONE / 2)
    pure val m = if (up) m0 / 2 else m0     // [0.75, 1.5]
    pure val k = if (up) k0 + 1 else k0
    pure val z = div(m - ONE, m + ONE)      // |z| <= 0.2
    pure val z2 = mul(z, z)
    pure val s = range(0, 29).foldl((0, z), (st, i) => (st._1 + st._2 / (2 * i + 1), mul(st._2, z2)))._1
    2 * s + k * LN2
  }
  pure val LN10: int = lnf(10 * ONE)
  pure def log10f(x: int): int = div(lnf(x), LN10)
  /// x^p for x >= 0 (0^p = 0 for p > 0)
  pure def powf(x: int, p: int): int = if (x <= 0) 0 else expf(mul(lnf(x), p))
  pure def cbrtf(x: int): int = if (x <= 0) 0 else expf(lnf(x) / 3)

  pure def sinSmall(x: int): int = {         // |x| <= pi/2
    pure val x2 = mul(x, x)
    range(1, 21).foldl((x, x), (st, i) => {
      pure val term = -(mul(st._2, x2) / ((2 * i) * (2 * i + 1)))
      (st._1 + term, term)
    })._1
  }
  pure def sinf(x: int): int = {
    pure val k = floordiv(x + PI, TWOPI)
    pure val r = x - k * TWOPI               // [-pi, pi)
    if (r > HALFPI) sinSmall(PI - r)
    else if (r < -HALFPI) sinSmall(-PI - r)
    else sinSmall(r)
  }
  pure def cosf(x: int): int = sinf(x + HALFPI)
  pure def atanUnit(x: int): int = {         // |x| <= 1
    pure def half(t: int): int = div(t, ONE + sqrtf(ONE + mul(t, t)))
    pure val y = half(half(x))               // |y| <= 0.2
    pure val y2 = mul(y, y)
    4 * range(0, 29).foldl((0, y), (st, i) => (st._1 + st._2 / (2 * i + 1), -mul(st._2, y2)))._1
  }
  pure def atan2f(y: int, x: int): int =
    if (x == 0 and y == 0) 0
    else if (absf(y) <= absf(x)) {
      pure val a = atanUnit(div(y, x))
      if (x > 0) a else if (y >= 0) a + PI else a - PI
    } else {
      pure val a = atanUnit(div(x, y))
      if (y > 0) HALFPI - a else -HALFPI - a
    }
  pure def toRad(d: int): int = mul(d, PI) / 180
  pure def toDeg(r: int): int = div(180 * r, PI)

  // ---- allowed answers ------------------------------------------------------
  pure def exactly(v: int): Iv = { lo: v, hi: v }
  pure def within(v: int, t: int): Iv = { lo: v - t, hi: v + t }
  pure def near(v: int, rel: int, abst: int): Iv = within(v, mul(absf(v), rel) + abst)
  pure def hull(a: Iv, b: Iv): Iv = { lo: minf(a.lo, b.lo), hi: maxf(a.hi, b.hi) }
  pure def inIv(i: Iv, v: int): bool = i.lo <= v and v <= i.hi
  pure val E12 = ONE / 10^12
  pure val E11 = ONE / 10^11
  pure val E10 = ONE / 10^10
  pure val E9 = ONE / 10^9
  pure val E6 = ONE / 10^6
  pure val E5 = ONE / 10^5

  // ---- pseudo-random expansion of one nondeterministic seed -----------------
  pure val M64 = 2^64
  pure def rnd(s: int, i: int): int = {
    pure val a = ((s % M64) * 6364136223846793005 + (i + 1) * 1442695040888963407 + (s / M64)) % M64
    pure val b = (a * a + a * 2862933555777941757) / 4294967296
    pure val c = (b % M64) * 3202034522624059733
    ((c / 65536) % M64)
  }
  /// integer in [lo, hi]
  pure def rndIn(s: int, i: int, lo: int, hi: int): int = lo + rnd(s, i) % (hi - lo + 1)
  /// real in [lo, hi) (fixed point bounds)
  pure def rndReal(s: int, i: int, lo: int, hi: int): int = lo + ((hi - lo) * rnd(s, i)) / M64
  /// log-uniform magnitude: 2^e * [1,2), e in [elo, ehi]
  pure def rndLog(s: int, i: int, elo: int, ehi: int): int =
    shl(ONE + (ONE * rnd(s, 2 * i)) / M64, rndIn(s, 2 * i + 1, elo, ehi))

  pure def okCall(op: str, ints: List[int], fs: List[int], exp: List[Iv], tag: str): Call =
    { op: op, ints: ints, fs: fs, kind: "ok", exp: exp, tag: tag }
  pure def panicCall(op: str, ints: List[int], fs: List[int], tag: str): Call =
    { op: op, ints: ints, fs: fs, kind: "panic", exp: [], tag: tag }
  pure val NOCALL: Call = { op: "nop", ints: [], fs: [], kind: "ok", exp: [], tag: "init" }
}
