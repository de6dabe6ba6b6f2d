// -*- mode: Bluespec; -*-
/// Symbolic model of quantisation for `quint verify` (Apalache): every code and
/// every rounding error of the float representation at once (integers only).
/// A real v is v * SCALE where SCALE = max * 2^10.
module quantMc {
  var code: int      // the stored code
  var err: int       // representation error of code/max, in units of 1/(max*1024)
  var other: int     // a second value, for monotonicity
  var bits: int

  pure def maxCode(b: int): int = if (b == 8) 255 else 65535
  pure val K = 1024
  /// nearest code of the real v/(max*K), clamped
  pure def q(v: int, m: int): int = if (v <= 0) 0 else if (v >= m * K) m else (2 * v + K) / (2 * K)

  action init = {
    nondet b = Set(8, 16).oneOf()
    nondet k = 0.to(65535).oneOf()
    nondet e = (-511).to(511).oneOf()
    nondet o = (-1000000).to(100000000).oneOf()
    all { k <= maxCode(b), bits' = b, code' = k, err' = e, other' = o }
  }
  action step = all { bits' = bits, code' = code, err' = err, other' = other }

  /// code -> float (with any error below half a code) -> code is the identity
  val roundTrip = q(code * K + err, maxCode(bits)) == code
  /// never outside the code range
  val inRange = q(other, maxCode(bits)) >= 0 and q(other, maxCode(bits)) <= maxCode(bits)
  /// order is kept
  val monotone = (code * K + err <= other) implies q(code * K + err, maxCode(bits)) <= q(other, maxCode(bits))
  /// nearest: the code is within half a step of an in-range value
  val nearest = (other >= 0 and other <= maxCode(bits) * K) implies {
    val d = q(other, maxCode(bits)) * K - other
    -K <= 2 * d and 2 * d <= K
  }
}
