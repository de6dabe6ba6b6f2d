// -*- mode: Bluespec; -*-
/// RGB colour spaces and conversions (C04, C05, C07, C08).
module spaces {
  import fix.* from "./fix"
  import common.* from "./common"
  import curves.* from "./curves"
  import cats.* from "./cats"
  import gamuts.* from "./gamuts"

  var c: Call
  var n: int

  action init = all { c' = NOCALL, n' = 0 }
  action emit(call: Call): bool = all { c' = call, n' = n + 1 }

  // ======================================================================= C04
  /// primaries: near a real display, anywhere, imaginary; in any order
  pure def point(s: int, i: int, cls: int): List[int] =
    if (cls == 0) (if (i == 0) [rndReal(s, 1, rat(58, 100), rat(74, 100)), rndReal(s, 2, rat(25, 100), rat(36, 100))]
                   else if (i == 1) [rndReal(s, 3, 0, rat(33, 100)), rndReal(s, 4, rat(55, 100), rat(85, 100))]
                   else [rndReal(s, 5, rat(8, 100), rat(18, 100)), rndReal(s, 6, rat(-10, 100), rat(12, 100))])
    // round figures, so that coordinates often coincide
    else if (cls == 3) [rat(rndIn(s, 10 + i, 0, 10), 10), rat(rndIn(s, 20 + i, -1, 10), 10)]
    // a built-in gamut, exact or disturbed
    else if (cls == 4) {
      pure val base = PRIMS[rndIn(s, 8, 0, 9)]
      pure val by = if (rnd(s, 9) % 2 == 0) 0 else rat(1, 100)
      [base[i][0] + (if (by == 0) 0 else rndReal(s, 10 + i, -by, by)), base[i][1] + (if (by == 0) 0 else rndReal(s, 20 + i, -by, by))]
    }
    // close together somewhere in the middle
    else if (cls == 6) {
      pure val r = rndLog(s, 8, -8, -2)
      [rndReal(s, 40, rat(2, 10), rat(4, 10)) + mul(r, rndReal(s, 10 + i, -ONE, ONE)),
       rndReal(s, 41, rat(2, 10), rat(4, 10)) + mul(r, rndReal(s, 20 + i, -ONE, ONE))]
    }
    else [rndReal(s, 10 + i, rat(-20, 100), ONE), rndReal(s, 20 + i, rat(-20, 100), ONE)]
  pure def pickGamut(s: int, w: int): List[List[int]] = {
    pure val cls = if (rnd(s, 42) % 5 == 0) 6 else rndIn(s, 0, 0, 5)
    pure val o = rndIn(s, 7, 0, 5)
    pure val perm = if (o == 0) [0, 1, 2] else if (o == 1) [0, 2, 1] else if (o == 2) [1, 0, 2]
      else if (o == 3) [1, 2, 0] else if (o == 4) [2, 0, 1] else [2, 1, 0]
    pure val ps = [point(s, perm[0], cls), point(s, perm[1], cls), point(s, perm[2], cls)]
    // white inside (or a little outside) the triangle
    pure val u = rndReal(s, 30, rat(15, 100), rat(45, 100))
    pure val v = rndReal(s, 31, rat(15, 100), rat(45, 100))
    pure val wt = [u, v, ONE - u - v]
    pure def comb(j: int): int = mul(wt[0], ps[0][j]) + mul(wt[1], ps[1][j]) + mul(wt[2], ps[2][j])
    pure val lum = if (rnd(s, 32) % 4 == 0) fw(rndReal(s, 33, ONE / 10, 2 * ONE), w) else ONE
    pure val wh = if ((cls == 0 or cls == 4) and rnd(s, 34) % 2 == 0) WHITES[rndIn(s, 35, 0, 6)] else [comb(0), comb(1)]
    [[fw(ps[0][0], w), fw(ps[0][1], w), lum], [fw(ps[1][0], w), fw(ps[1][1], w), ONE],
     [fw(ps[2][0], w), fw(ps[2][1], w), lum], [fw(wh[0], w), fw(wh[1], w), lum]]
  }
  pure def flat(p: List[List[int]]): List[int] = p[0].concat(p[1]).concat(p[2]).concat(p[3])
  pure def spaceFields(s: Space): List[int] = s.red.concat(s.green).concat(s.blue).concat(s.white)
  pure def anyCall(op: str, ints: List[int], fs: List[int]): Call =
    { op: op, ints: ints, fs: fs, kind: "any", exp: [], tag: "degenerate" }

  action spaceNew = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet cv = 0.to(4).oneOf()
    val p = pickGamut(s, w)
    val f = flat(p)
    if (not(okGamut(p[0], p[1], p[2], p[3], w))) emit(anyCall("space_new", [w], f))
    else {
      val sp = derive(p[0], p[1], p[2], p[3], w)
      emit(okCall("space_new", [w], f, tabIv(12, i => exactly(f[i])).concat(tabIv(9, i => within(sp.toRgb[i], sp.tolRgb[i])))
        .concat(tabIv(9, i => within(sp.toXyz[i], sp.tolXyz[i]))), if (p[2][1] < 0 or p[0][1] < 0 or p[1][1] < 0) "imaginary" else "real"))
    }
  }
  /// white -> (1,1,1); pure primary i -> its chromaticity; matrices invert each other
  action spaceLaws = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val p = pickGamut(s, w)
    val f = flat(p)
    if (not(okGamut(p[0], p[1], p[2], p[3], w))) emit(anyCall("space_laws", [w], f))
    else {
      val sp = derive(p[0], p[1], p[2], p[3], w)
      val wv = whiteVec(p[3])
      val e = apply({ m: sp.toRgb, t: sp.tolRgb }, wv, tab(3, i => 4 * mul(absf(wv[i]) + ONE, ulp(w))), w)
      // chromaticity error of primary i: columns of toXyz relative to their sum
      def chrTol(i: int): int = {
        val t = maxAbs([sp.tolXyz[i], sp.tolXyz[3 + i], sp.tolXyz[6 + i]])
        val sum = absf(sp.toXyz[i] + sp.toXyz[3 + i] + sp.toXyz[6 + i])
        mul(8 * div(t, sum), ONE + absf(p[i][0]) + absf(p[i][1])) + 16 * ulp(w)
      }
      val pr = mprod({ m: sp.toRgb, t: sp.tolRgb }, { m: sp.toXyz, t: sp.tolXyz }, w)
      emit(okCall("space_laws", [w], f,
        tabIv(3, i => hull(e[i], exactly(ONE)))
        .concat(tabIv(6, k => within(p[k / 2][k % 2], chrTol(k / 2))))
        .concat(tabIv(9, i => within(IDENT[i], pr.t[i]))), "laws"))
    }
  }
  /// explicit matrices: everything is kept, and the curves are not swapped
  action spaceGiven = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ce = 0.to(4).oneOf()
    nondet cd = 0.to(4).oneOf()
    val p = pickGamut(s, w)
    val ms = tab(18, i => fw(rndReal(s, 100 + i, -3 * ONE, 3 * ONE), w))
    val v = tab(3, i => fw(rndReal(s, 130 + i, 0, ONE), w))
    emit(okCall("space_given", [w, ce, cd], flat(p).concat(ms).concat(v),
      tabIv(12, i => exactly(flat(p)[i])).concat(tabIv(18, i => exactly(ms[i])))
      .concat(tabIv(3, i => encIv(ce, v[i], w))).concat(tabIv(3, i => decIv(cd, v[i], w))), "given matrices"))
  }
  /// a derived space also keeps its curves
  action spaceCurves = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ce = 0.to(4).oneOf()
    nondet cd = 0.to(4).oneOf()
    val p = PRIMS[rndIn(s, 1, 0, 9)]
    val f = mapl(flat(p), x => fw(x, w))
    val v = tab(3, i => fw(rndReal(s, 130 + i, 0, ONE), w))
    emit(okCall("space_curves", [w, ce, cd], f.concat(v),
      tabIv(3, i => encIv(ce, v[i], w)).concat(tabIv(3, i => decIv(cd, v[i], w))), "curves"))
  }
  action stepC04 = any { spaceNew, spaceNew, spaceLaws, spaceLaws, spaceGiven, spaceCurves }

  val specLaws = (c.op == "space_laws" and c.kind == "ok") implies {
    def pt(i: int): List[int] = [c.fs[3 * i], c.fs[3 * i + 1], c.fs[3 * i + 2]]
    val sp = derive(pt(0), pt(1), pt(2), pt(3), c.ints[0])
    val one = mvec(sp.toRgb, whiteVec(pt(3)))
    val id = mmul(sp.toRgb, sp.toXyz)
    and {
      one.indices().forall(i => absf(one[i] - ONE) < E12),
      id.indices().forall(i => absf(id[i] - IDENT[i]) < E12),
      range(0, 3).indices().forall(i => {
        val x = sp.toXyz[i]
        val y = sp.toXyz[3 + i]
        val t = x + y + sp.toXyz[6 + i]
        absf(div(x, t) - pt(i)[0]) < E12 and absf(div(y, t) - pt(i)[1]) < E12
      }),
    }
  }

  // ======================================================================= C05
  /// published numbers, rounded to the precision of the space
  action fieldsAct = {
    val k = n % 19
    val w = if (k < 10) 64 else 32
    val i = if (k < 10) k else k - 10
    val sp = builtin(i, w)
    emit(okCall("builtin", [w, i], [], mapFields(spaceFields(sp), w)
      .concat(tabIv(9, j => within(sp.toRgb[j], sp.tolRgb[j]))).concat(tabIv(9, j => within(sp.toXyz[j], sp.tolXyz[j]))),
      if (given(i)) "given matrices" else "derived matrices"))
  }
  pure def mapFields(l: List[int], w: int): List[Iv] = tabIv(l.length(), i => within(l[i], mul(absf(l[i]), ulp(w))))
  /// encoded colour -> linear -> XYZ relative to the space's own white
  pure def pickCodeVal(s: int, i0: int, cv: int, w: int): int = {
    pure val co = rndIn(s, 99, 0, 7)
    pure val i = if (co == 0) 0 else if (co < 3 and i0 == co) i0 - 1 else i0
    pure val k = rnd(s, 3 * i) % 9
    fw(if (k == 0) rat(rndIn(s, 3 * i + 1, 0, 4), 4)
       else if (k == 1 and signedDomain(cv)) -rndReal(s, 3 * i + 2, 0, ONE)
       else if (k == 2) rndReal(s, 3 * i + 2, ONE, rat(12, 10))
       else if (k == 3) rndLog(s, 3 * i + 2, -60, -3)
       else if (k == 4 and cv != 4) rndLog(s, 3 * i + 2, 0, 6)
       else if (k == 5) rat(rndIn(s, 3 * i + 2, 0, 255), 255)
       else rndReal(s, 3 * i + 2, 0, ONE), w)
  }
  pure def mid(i: Iv): int = (i.lo + i.hi) / 2
  pure def rad(i: Iv): int = (i.hi - i.lo) / 2 + 1
  action chainAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = 0.to(if (w == 64) 9 else 8).oneOf()
    val sp = builtin(i, w)
    val v = tab(3, j => pickCodeVal(s, j, curveOf(i), w))
    val lin = tabIv(3, j => decIv(curveOf(i), v[j], w))
    val r = apply({ m: sp.toXyz, t: sp.tolXyz }, tab(3, j => mid(lin[j])), tab(3, j => rad(lin[j])), w)
    emit(okCall("bi_to_xyz", [w, i], v, tabIv(3, j => { lo: 100 * r[j].lo - 2^40 - mul(100 * absf(r[j].lo), ulp(w)), hi: 100 * r[j].hi + 2^40 + mul(100 * absf(r[j].hi), ulp(w)) }), "to XYZ"))
  }
  /// XYZ inside the gamut -> linear -> encoded
  action unchainAct = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet i = 0.to(if (w == 64) 9 else 8).oneOf()
    val sp = builtin(i, w)
    // in the gamut, dark, bright or (where the curve takes negatives) outside
    val how = rndIn(s, 50, 0, 6)
    val lin0 = tab(3, j => if (how == 0) rndLog(s, j, -45, -4) else if (how == 1) rndReal(s, j, ONE, 30 * ONE)
      else if (how == 2 and signedDomain(curveOf(i))) rndReal(s, j, -ONE, ONE)
      else if (how == 3) rat(rndIn(s, 51 + j, 0, 3), 3) else rndReal(s, j, rat(2, 100), ONE))
    val x0 = mvec(sp.toXyz, lin0)
    val x = tab(3, j => fw(100 * x0[j], w))
    val h = tab(3, j => x[j] / 100)
    val r = apply({ m: sp.toRgb, t: sp.tolRgb }, h, tab(3, j => 2 * mul(absf(h[j]), ulp(w)) + 4), w)
    emit(okCall("bi_from_xyz", [w, i], x, tabIv(3, j => if (not(signedDomain(curveOf(i))) and r[j].lo < 0) ANYTHING else encRange(curveOf(i), r[j], w)), "from XYZ"))
  }
  action stepC05 = any { chainAct, unchainAct }

  /// encoding of every value in an interval (curves are increasing up to the gap at the break)
  val specPublishedInverse = (c.op == "builtin") implies {
    val sp = builtin(c.ints[1], c.ints[0])
    val id = mmul(sp.toRgb, sp.toXyz)
    id.indices().forall(i => absf(id[i] - IDENT[i]) < rat(3, 10000))
  }
  /// published matrices agree with the primaries they were rounded from
  val specPublishedDerived = (c.op == "builtin") implies {
    val p = PRIMS[c.ints[1]]
    val sp = builtin(c.ints[1], 64)
    val d = derive(p[0], p[1], p[2], p[3], 64)
    d.toXyz.indices().forall(i => absf(d.toXyz[i] - sp.toXyz[i]) < rat(1, 1000))
  }

  // ======================================================================= C07
  /// a space: built in (index) or constructed (index 100, primaries in the arguments)
  pure def someSpace(s: int, w: int): (int, List[int], Space) = {
    pure val g = pickGamut(s + 17, w)
    pure val k = rndIn(s, 200, 0, if (w == 64) 13 else 12)
    if (k < (if (w == 64) 10 else 9) or not(okGamut(g[0], g[1], g[2], g[3], 32))) {
      pure val b = k % (if (w == 64) 10 else 9)
      (b, [], builtin(b, w))
    }
    else (100, flat([g[0], g[1], g[2], [g[3][0], g[3][1], ONE]]), derive(g[0], g[1], g[2], [g[3][0], g[3][1], ONE], w))
  }
  pure def okMtxWhite(sp: Space): bool = okWhite(toXYZ(sp.white))
  pure def refWhite(s: int, w: int, sp: Space): List[int] = {
    pure val p = pickWhite(s, 3, w)
    if (rnd(s, 210) % 4 == 0) mapl(sp.white, x => fw(x, w)) else if (rnd(s, 210) % 4 == 1) p else [p[0], p[1], ONE]
  }
  /// 0 xyz_to_rgb_matrix, 1 rgb_to_xyz_matrix
  action matrices = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(1).oneOf()
    val sp = someSpace(s, w)
    val wh = refWhite(s, w, sp._3)
    if (not(okMtxWhite(sp._3))) emit(anyCall("conv_mtx", [w, k, sp._1], wh.concat(sp._2)))
    else emit(okCall("conv_mtx", [w, k, sp._1], wh.concat(sp._2),
      ivm(if (k == 0) xyzToRgbM(wh, sp._3, w) else rgbToXyzM(wh, sp._3, w)),
      if (sp._1 == 100) "constructed" else "built in"))
  }
  action withCat = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val sp = someSpace(s, w)
    val m = tab(9, i => fw(rndReal(s, 220 + i, -ONE, 2 * ONE), w))
    emit(okCall("conv_mtx_cat", [w, sp._1], m.concat(sp._2),
      ivm(mprod({ m: sp._3.toRgb, t: sp._3.tolRgb }, { m: m, t: tab(9, i => 0) }, w)), "given adaptation"))
  }
  /// RGB (1,1,1) is the reference white; the two matrices invert each other
  action convLaws = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val sp = someSpace(s, w)
    val wh0 = refWhite(s, w, sp._3)
    val wh = [wh0[0], wh0[1], ONE]
    if (not(okMtxWhite(sp._3))) emit(anyCall("conv_laws", [w, sp._1], wh.concat(sp._2)))
    else {
      val a = xyzToRgbM(wh, sp._3, w)
      val b = rgbToXyzM(wh, sp._3, w)
      val v = toXYZ(wh)
      val one = apply(b, [ONE, ONE, ONE], [0, 0, 0], w)
      val back = apply(a, tab(3, i => v[i] / 100), tab(3, i => mul(4 * absf(v[i]) + ONE, ulp(w))), w)
      val p = mprod(a, b, w)
      emit(okCall("conv_laws", [w, sp._1], wh.concat(sp._2),
        tabIv(3, i => { lo: 100 * one[i].lo - mul(200 * absf(one[i].lo), ulp(w)), hi: 100 * one[i].hi + mul(200 * absf(one[i].hi), ulp(w)) })
        .concat(back).concat(ivm(p)), if (sp._1 == 100) "constructed" else "built in"))
    }
  }
  pure def pickColour(s: int, i0: int, w: int): int = {
    pure val i = if (rnd(s, 7000 + i0 / 3) % 6 == 0) 3 * (i0 / 3) else if (i0 >= 3 and rnd(s, 8000 + i0) % 4 == 0) i0 - 3 else i0
    pure val k = rndIn(s, 5 * i, 0, 5)
    // now and then the whole slice is very dark or very bright
    pure val e = if (rnd(s, 7500) % 4 == 0) rndIn(s, 7501, -64, 24) else 0
    fw(if (k == 0) 0 else if (k == 1) -shl(rndReal(s, 5 * i + 1, 0, 50 * ONE), e) else if (k == 2) 100 * ONE
       else if (k == 3) rndLog(s, 5 * i + 2, -12, 9) else shl(rndReal(s, 5 * i + 3, 0, 120 * ONE), e), w)
  }
  /// 0 xyz_to_rgb one colour, 1 xyz_slice_to_rgb a slice, 2 rgb_to_xyz one colour
  action convert = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(2).oneOf()
    nondet l = 0.to(9).oneOf()
    val len = if (k == 1) l else 1
    val m = tab(9, i => fw(rndReal(s, 900 + i, -3 * ONE, 3 * ONE), w))
    val v = tab(3 * len, i => pickColour(s, i, w))
    val exp = range(0, len).foldl([], (acc, j) => {
      val x = [v[3 * j], v[3 * j + 1], v[3 * j + 2]]
      val r = mvec(m, x)
      val d = mvec(mabs(m), mabs(x))
      val f = if (k == 2) 100 * ONE else ONE / 100
      acc.concat(tabIv(3, i => within(mul(r[i], f), 8 * mul(mul(d[i], f), ulp(w)) + 2^20)))
    })
    emit(okCall("convert", [w, k, len], m.concat(v), exp, if (k == 1) (if (len == 0) "empty slice" else "slice") else "one colour"))
  }
  /// a hundredth of each tristimulus value, through the matrix
  pure def viaMatrix(m: List[int], v: List[int], len: int, w: int): List[Iv] = range(0, len).foldl([], (acc, j) => {
    pure val tri = [v[3 * j], v[3 * j + 1], v[3 * j + 2]]
    pure val tr = mvec(m, tri)
    pure val td = mvec(mabs(m), mabs(tri))
    acc.concat(tabIv(3, i => within(tr[i] / 100, 8 * mul(td[i] / 100, ulp(w)) + 2^20)))
  })
  /// long slices, as in r2rLong
  action convertLong = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val period = rndIn(s, 320, 2, 5)
    val rep = rndIn(s, 321, 1, 4)
    val len = if (rnd(s, 322) % 2 == 0) rndIn(s, 323, 20, 1100) else if (rnd(s, 322) % 4 == 1) rndIn(s, 323, 1000, 9000) else rndIn(s, 323, 9000, 140000)
    val m = tab(9, i => fw(rndReal(s, 900 + i, -3 * ONE, 3 * ONE), w))
    val v = tab(3 * period, i => pickColour(s, i, w))
    val conv1 = viaMatrix(m, v, period, w)
    emit(okCall("convert_long", [w, len, period, rep], m.concat(v), [exactly(len * ONE)].concat(tabIv(6 * period, i => conv1[i / 2])), "long slice"))
  }
  action stepC07 = any { convertLong, matrices, matrices, withCat, convLaws, convert, convert }
  val specConvLaws = (c.op == "conv_laws" and c.kind == "ok") implies {
    val v = toXYZ([c.fs[0], c.fs[1], ONE])
    // published matrices are rounded: 0.05 of 100
    val slackW = if (c.ints[1] == 100 or not(given(c.ints[1]))) rat(1, 1000) else rat(12, 100)
    and {
      range(0, 3).indices().forall(i => absf(mid(c.exp[i]) - v[i]) < slackW),
      range(0, 3).indices().forall(i => absf(mid(c.exp[3 + i]) - ONE) < slackW),
      range(0, 9).indices().forall(i => absf(mid(c.exp[6 + i]) - IDENT[i]) < slackW),
    }
  }

  // ======================================================================= C08
  action r2rMatrix = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet a = 0.to(if (w == 64) 9 else 8).oneOf()
    nondet b = 0.to(if (w == 64) 9 else 8).oneOf()
    emit(okCall("r2r_mtx", [w, a, b], [], ivm(rgbToRgbM(builtin(a, w), builtin(b, w), w)), "matrix"))
  }
  action r2rMatrix2 = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    val a = curved(s, w)
    val b = curved(s + 1, w)
    val ints = [w, a.id, b.id]
    val args = a.prims.concat(b.prims)
    if (not(a.ok and b.ok)) emit(anyCall("r2r_mtx2", ints, args))
    else emit(okCall("r2r_mtx2", ints, args, ivm(rgbToRgbM(a.sp, b.sp, w)), "matrix of any spaces"))
  }
  /// what the destination stores: 0 float of the same width, 1 u8, 2 u16, 3 f32 from f64
  pure def stored(e: Iv, ty: int, w: int): Iv =
    if (ty == 0) e
    else if (ty == 3) { lo: e.lo - mul(absf(e.lo), ulp(32)), hi: e.hi + mul(absf(e.hi), ulp(32)) }
    else {
      pure val m = if (ty == 1) 255 else 65535
      pure def qz(x: int): int = (2 * clampf(x, 0, ONE) * m + ONE) / (2 * ONE)
      { lo: qz(e.lo - 4 * ulp(w)) * ONE, hi: qz(e.hi + 4 * ulp(w)) * ONE }
    }
  /// pixels of a slice: some are grey, some repeat a channel of the previous pixel
  pure def pixel(cv: int, s: int, i0: int, w: int): int = {
    pure val grey = rnd(s, 7000 + i0 / 3) % 6 == 0
    pure val again = i0 >= 3 and rnd(s, 8000 + i0) % 4 == 0
    pure val i = if (grey) 3 * (i0 / 3) else if (again) i0 - 3 else i0
    pure val k = rndIn(s, 5 * i, 0, 9)
    // now and then the whole slice is dark
    pure val dark = rnd(s, 7500) % 5 == 0
    pure val x = if (k == 0) 0 else if (dark) shl(rndReal(s, 5 * i + 3, 0, ONE), rndIn(s, 7501, -60, -16))
      else if (k == 1) ONE else if (k == 2) rat(rndIn(s, 5 * i + 1, 0, 255), 255)
      else if (k == 3 and signedDomain(cv)) -rndReal(s, 5 * i + 2, 0, ONE / 4)
      else if (k == 4) rndReal(s, 5 * i + 2, ONE, rat(12, 10))
      else if (k == 5) rndLog(s, 5 * i + 2, -50, -4)
      else if (k == 6 and cv == 3) rndLog(s, 5 * i + 2, 0, 6) else rndReal(s, 5 * i + 3, 0, ONE)
    fw(x, w)
  }
  /// a space with its curve
  type Spc = { id: int, prims: List[int], sp: Space, cv: int, ok: bool }
  pure def curved(s: int, w: int): Spc =
    if (rnd(s, 300) % 3 > 0) {
      pure val b = rndIn(s, 301, 0, if (w == 64) 9 else 8)
      { id: b, prims: [], sp: builtin(b, w), cv: curveOf(b), ok: true }
    } else {
      pure val t = someSpace(s, w)
      { id: t._1, prims: t._2, sp: t._3, cv: if (t._1 == 100) rndIn(s, 302, 0, 4) else curveOf(t._1), ok: okMtxWhite(t._3) }
    }
  /// untouched destination pixels keep this
  pure def filler(i: int): int = (3 + i % 3) * ONE
  /// what the first `cnt` pixels of v become
  pure def converted(v: List[int], cnt: int, a: Spc, b: Spc, ty: int, w: int): List[Iv] = {
    pure val m = rgbToRgbM(a.sp, b.sp, w)
    range(0, cnt).foldl([], (acc, j) => {
      pure val lin = tabIv(3, i => decIv(a.cv, v[3 * j + i], w))
      pure val r = apply(m, tab(3, i => mid(lin[i])), tab(3, i => rad(lin[i])), w)
      acc.concat(tabIv(3, i =>
        // a power of a value that may be negative is not a number
        if (not(signedDomain(b.cv)) and r[i].lo < 0) ANYTHING
        else stored(encRange(b.cv, r[i], w), ty, w)))
    })
  }
  action r2r = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet nin = 0.to(5).oneOf()
    nondet nout = 0.to(5).oneOf()
    nondet ty = 0.to(if (w == 64) 3 else 2).oneOf()
    val a = curved(s, w)
    val b = if (rnd(s, 310) % 8 == 0) a else curved(s + 1, w)
    val cnt = minf(nin, nout)
    val v = tab(3 * nin, i => pixel(a.cv, s, i, w))
    val ints = [w, a.id, b.id, ty, nin, nout, a.cv, b.cv, nin, 1]
    val args = v.concat(a.prims).concat(b.prims)
    if (not(a.ok and b.ok)) emit(anyCall("r2r", ints, args))
    else emit(okCall("r2r", ints, args, [exactly(cnt * ONE)].concat(converted(v, cnt, a, b, ty, w))
      .concat(tabIv(3 * (nout - cnt), i => exactly(filler(i)))),
      if (nin == nout) "same length" else if (nin < nout) "longer output" else "shorter output"))
  }
  /// long slices: pixel j is number (j / rep) % period of a few; the answer gives, for each
  /// of them, the least and the greatest value of each channel over the whole destination
  action r2rLong = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet ty = 0.to(if (w == 64) 3 else 2).oneOf()
    val a = curved(s, w)
    val b = curved(s + 1, w)
    val period = rndIn(s, 320, 2, 5)
    val rep = Set(1, 2, 3, 7).fold(1, (x, y) => if (y <= 1 + rndIn(s, 321, 0, 12)) maxf(x, y) else x)
    val base = if (rnd(s, 322) % 3 == 0) rndIn(s, 323, 6, 64) else if (rnd(s, 322) % 3 == 1) rndIn(s, 323, 65, 1100) else if (rnd(s, 326) % 3 > 0) rndIn(s, 323, 1000, 9000) else rndIn(s, 323, 9000, 140000)
    val delta = if (rnd(s, 324) % 3 == 0) 0 else rndIn(s, 325, -40, 40)
    val nin = maxf(period * rep, base)
    val nout = maxf(period * rep, base + delta)
    val cnt = minf(nin, nout)
    val v = tab(3 * period, i => pixel(a.cv, s, i, w))
    val ints = [w, a.id, b.id, ty, nin, nout, a.cv, b.cv, period, rep]
    val args = v.concat(a.prims).concat(b.prims)
    val px = converted(v, period, a, b, ty, w)
    val rest = if (nout > cnt) tabIv(6, i => exactly(filler(i / 2))) else []
    if (not(a.ok and b.ok)) emit(anyCall("r2r_long", ints, args))
    else emit(okCall("r2r_long", ints, args, [exactly(cnt * ONE)].concat(tabIv(6 * period, i => px[i / 2])).concat(rest),
      if (base < 65) "tens of pixels" else if (base < 1100) "hundreds of pixels" else "thousands of pixels"))
  }
  /// user code inside a conversion (the curves, the pixel type) may itself use the library, and may
  /// panic: 0 encoding, 1 decoding or 2 the pixel type converts something else meanwhile;
  /// 3 an earlier conversion was abandoned half way
  action r2rNested = {
    nondet s = SEEDS.oneOf()
    nondet w = WIDTHS.oneOf()
    nondet k = 0.to(3).oneOf()
    val len = rndIn(s, 330, 1, 4)
    def pub(j: int): List[int] = mapl(flat(PRIMS[rndIn(s, 331 + j, 0, 8)]), x => fw(x, w))
    val pa = pub(0)
    val pb = pub(1)
    def linear(p: List[int]): Spc =
      { id: 100, prims: p, cv: 3, ok: true, sp: derive([p[0], p[1], p[2]], [p[3], p[4], p[5]], [p[6], p[7], p[8]], [p[9], p[10], p[11]], w) }
    val v = tab(3 * len, i => pixel(3, s, i, w))
    emit(okCall("r2r_nested", [w, k, len], v.concat(pa).concat(pb), [exactly(len * ONE)].concat(converted(v, len, linear(pa), linear(pb), 0, w)), "user code uses the library"))
  }
  action stepC08 = any { r2rNested, r2rMatrix, r2rMatrix2, r2r, r2r, r2r, r2rLong }
  /// converting to the same space is the identity matrix (up to published rounding)
  val specSame = (c.op == "r2r_mtx" and c.ints[1] == c.ints[2]) implies
    range(0, 9).indices().forall(i => absf(mid(c.exp[i]) - IDENT[i]) < rat(3, 10000))
  /// white goes to white
  val specWhite = (c.op == "r2r_mtx") implies
    range(0, 3).indices().forall(i => absf(mid(c.exp[3 * i]) + mid(c.exp[3 * i + 1]) + mid(c.exp[3 * i + 2]) - ONE) < rat(1, 1000))
}
