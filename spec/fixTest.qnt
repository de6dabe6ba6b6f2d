module fixTest {
  import fix.* from "./fix"
  var c: int
  run elementaryTest = init.then(all{ c' = 0,
   assert(absf(expf(ONE) - 924983374546220337150911035843336795079) < 100000),
   assert(absf(mul(sqrtf(2*ONE),sqrtf(2*ONE)) - 2*ONE) < 10),
   assert(absf(lnf(expf(3*ONE)) - 3*ONE) < 100000),
   assert(absf(sinf(PI/6) - HALF) < 100000),
   assert(absf(sinf(-7*PI/6) - HALF) < 100000),
   assert(absf(cosf(PI/3) - HALF) < 100000),
   assert(absf(toDeg(atan2f(ONE, -ONE)) - 135*ONE) < 100000),
   assert(absf(toDeg(atan2f(-ONE, ONE)) + 45*ONE) < 100000),
   assert(absf(toDeg(atan2f(-sqrtf(3*ONE), -ONE)) + 120*ONE) < 100000),
   assert(absf(powf(rat(1,100), rat(1,2)) - rat(1,10)) < 100000),
   assert(absf(expf(-30*ONE) - 31842340925906738090071267) < 10^20),
   assert(ilog2(2^300) == 300 and ilog2(2^300-1)==299)
   })
  action init = c' = 0
  action step = { nondet s = oneOf(0.to(2^96)) c' = s }
  // nesting of the list builders (see fix.qnt)
  run nestTest = all {
    assert(tab(3, i => { pure val b = tab(2, j => 10 * j)  b[0] + i }) == [0, 1, 2]),
    assert(tab(2, i => tab(3, j => tab(2, k => i + j + k)[1])[2]) == [3, 4]),
    assert(mapl([3, 1, 3], x => sumf(mapl([1, 2], y => x * y))) == [9, 3, 9]),
    assert(tab(2, i => sumf(mapl(tab(3, j => j), y => y * i + 1))) == [3, 6]),
  }
  run lazyTest = {
    pure val b = tab(3, j => 100 * j)
    assert(tab(3, i => b[i] + i) == [0, 101, 202])
  }
}
