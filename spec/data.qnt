// -*- mode: Bluespec; -*-
/// Tabulated reference data (C22): one table per step, all of them.
module data {
  import fix.* from "./fix"
  import common.* from "./common"
  import tables.* from "./tables"
  import curves.* from "./curves"

  var c: Call
  var n: int

  pure val NSTEPS = 119

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  /// start, end, interval, length, then wavelength and value of every sample
  pure def spectrumExp(t: Table): List[Iv] = {
    pure val v = unpack(t.v)
    range(0, t.v.n).foldl([exactly(t.start), exactly(t.end), exactly(t.step), exactly(t.v.n * ONE)],
      (l, i) => l.append(exactly(t.start + i * t.step)).append(exactly(f64(v[i]))))
  }
  pure def plain(t: Packed, w: int): List[Iv] = unpack(t).foldl([], (l, x) => l.append(exactly(fw(x, w))))

  action step =
    if (n < 18) emit(okCall("tbl_spectrum", [n], [], spectrumExp(spectrumTable(n)), "spectrum"))
    else if (n < 42) emit(okCall("tbl_spectrum", [n - 18 + 100], [], spectrumExp(spectrumTable(n - 18 + 100)), "chart spectrum"))
    else if (n < 45) emit(okCall("tbl_basis", [n - 42], [], spectrumExp(spectrumTable(n - 42 + 8)), "uplifting basis"))
    else if (n < 72) emit(okCall("tbl_fast", [n - 45], [], plain(fastTable(n - 45), 32), "fast spectrum"))
    else if (n == 72) emit(okCall("tbl_sizes", [], [], tabIv(8, i => exactly(SIZES[i] * ONE)), "sizes"))
    else if (n == 73) emit(okCall("tbl_names", [], [], tabIv(24, i => exactly(NAMECODES[i] * ONE)), "names"))
    else if (n == 74) emit(okCall("tbl_xyz", [], [], plain(CHARTXYZ, 64), "chart XYZ"))
    else if (n == 75) emit(okCall("tbl_white", [], [], plain(WHITEXY, 64), "whites"))
    else if (n < NSTEPS) emit(okCall("tbl_rgb", [n - 76], [], [exactly(24 * ONE)].concat(plain(rgbTable(n - 76), 64)), "chart RGB"))
    else all { c' = NOCALL, n' = n }

  // ---- the published data is consistent with itself ---------------------------
  /// the observer is normalised: equal-energy white has equal tristimulus values
  val specEqualEnergy = n == 1 implies {
    val s = [sumf(unpack(XBAR.v)), sumf(unpack(YBAR.v)), sumf(unpack(ZBAR.v))]
    range(0, 3).indices().forall(i => absf(s[i] - rat(10688, 100)) < rat(4, 100))
  }
  /// daylight illuminants are 100 at 560 nm
  val specDaylight = n == 1 implies
    range(3, 7).indices().forall(k => {
      val t = spectrumTable(k + 3)
      val i = (560 * ONE - t.start) / t.step
      absf(entry(t.v, i) - 100 * ONE) < rat(1, 100)
    })
  /// basis reflectances lie in [0, 1] and add up to one
  val specBasis = n == 1 implies {
    val r = unpack(MYR.v)
    val g = unpack(MYG.v)
    val b = unpack(MYB.v)
    r.indices().forall(i => r[i] >= 0 and g[i] >= 0 and b[i] >= 0 and absf(r[i] + g[i] + b[i] - ONE) < rat(1, 1000))
  }
  /// chart spectra in both representations agree where both are measured, and the first is DARK_SKIN
  val specCharts = n == 2 implies 0.to(23).forall(k => {
    val t = spectrumTable(100 + k)
    val a = unpack(t.v)
    val f = unpack(fastTable(3 + k))
    a.indices().forall(i => f32(a[i]) == f32(f[i])) and (k == 0 implies a == unpack(DARKSKIN.v))
  })
  /// encoded chart colours are the published curve of the linear ones (sRGB, BT.709, ALEXA, BT.2020)
  val specEncoded = n == 3 implies {
    def ok(lin: List[int], enc: List[int], cv: int, tol: int): bool =
      lin.indices().forall(i => absf(mid2(encIv(cv, lin[i], 64)) - enc[i]) < tol)
    and {
      ok(unpack(RGB0), unpack(RGB1), 0, E9),
      ok(unpack(RGB2), unpack(RGB3), 1, E9),
    }
  }
  pure def mid2(i: Iv): int = (i.lo + i.hi) / 2
}
