// -*- mode: Bluespec; -*-
/// Shared by all modules: float widths, rounding units, 3x3 matrices.
module common {
  import fix.* from "./fix"

  pure val SEEDS = 0.to(2^100)
  pure val WIDTHS = Set(32, 64)

  /// nearest float of width w
  pure def fw(x: int, w: int): int = if (w == 64) f64(x) else f32(x)
  pure def fw3(l: List[int], w: int): List[int] = mapl(l, x => fw(x, w))
  /// unit in the last place of 1.0
  pure def ulp(w: int): int = if (w == 64) ONE / 2^52 else ONE / 2^23
  pure def mantissa(w: int): int = if (w == 64) 53 else 24

  /// correctly rounded up to k units in the last place
  pure def ulps(v: int, k: int, w: int): Iv = {
    pure val m = absf(v)
    pure val u = if (m == 0) 1 else mul(2^(ilog2(m)), ulp(w)) + 1
    within(v, k * u)
  }
  /// exact value, as any of the two neighbouring floats
  pure def rounded(v: int, w: int): Iv = ulps(v, 1, w)

  // ---- 3x3 matrices, row major lists of nine --------------------------------
  pure def at(m: List[int], i: int, j: int): int = m[3 * i + j]
  pure def mat(f: ((int, int)) => int): List[int] =
    range(0, 9).foldl(([], tuples(0.to(2), 0.to(2)).mapBy(f)), (st, k) => (st._1.append(st._2.get((k / 3, k % 3))), st._2))._1
  pure val IDENT: List[int] = mat(((i, j)) => if (i == j) ONE else 0)
  pure def mmul(a: List[int], b: List[int]): List[int] =
    mat(((i, j)) => mul(at(a, i, 0), at(b, 0, j)) + mul(at(a, i, 1), at(b, 1, j)) + mul(at(a, i, 2), at(b, 2, j)))
  pure def mvec(a: List[int], v: List[int]): List[int] =
    tab(3, i => mul(at(a, i, 0), v[0]) + mul(at(a, i, 1), v[1]) + mul(at(a, i, 2), v[2]))
  pure def mabs(a: List[int]): List[int] = mapl(a, x => absf(x))
  pure def diag(v: List[int]): List[int] = mat(((i, j)) => if (i == j) v[i] else 0)
  /// cofactor of (i, j)
  pure def cof(m: List[int], i: int, j: int): int = {
    pure val r0 = (i + 1) % 3
    pure val r1 = (i + 2) % 3
    pure val c0 = (j + 1) % 3
    pure val c1 = (j + 2) % 3
    mul(at(m, r0, c0), at(m, r1, c1)) - mul(at(m, r0, c1), at(m, r1, c0))
  }
  pure def det(m: List[int]): int =
    mul(at(m, 0, 0), cof(m, 0, 0)) + mul(at(m, 0, 1), cof(m, 0, 1)) + mul(at(m, 0, 2), cof(m, 0, 2))
  pure def minv(m: List[int]): List[int] = {
    pure val d = det(m)
    mat(((i, j)) => div(cof(m, j, i), d))
  }
  /// conditioning of Cramer's rule: max^3 / |det| (at least 1)
  pure def kappa(m: List[int]): int = {
    pure val a = maxAbs(m)
    maxf(ONE, div(6 * cube(a), absf(det(m))))
  }
  /// matrix-vector product computed in floating point
  pure def mvecIv(a: List[int], v: List[int], w: int): List[Iv] = {
    pure val p = mvec(a, v)
    pure val q = mvec(mabs(a), mabs(v))
    tabIv(3, i => within(p[i], 3 * mul(q[i], ulp(w)) + 2^20))
  }
}
