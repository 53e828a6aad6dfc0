// -*- mode: Bluespec; -*-
// Integers with a width, and the two fixed-point number types of the program.
//
// A computation that the program abandons (overflow, division by zero, negative
// difference) yields NONE.  Every operator below propagates NONE, so an expression
// built from them is NONE as soon as one of its parts is.
//
module num {
  import scale.* from "./scale"
  const NS: Scale
  pure val ONE = NS.one
  pure val RONE = NS.rone
  pure val SQBITS = NS.sqbits
  pure val PONE = NS.pone
  pure val SNAP = NS.snap
  pure val M64 = NS.m64
  pure val M128 = NS.m128
  pure val M256 = NS.m256

  pure val NONE = -1

  pure def lo(x: int, y: int): int = if (x < y) x else y
  pure def hi(x: int, y: int): int = if (x > y) x else y

  // ---- plain integers of 128 bits ------------------------------------------
  pure def fit(x: int, limit: int): int = if (x < 0 or x > limit) NONE else x
  pure def add128(x: int, y: int): int = if (x < 0 or y < 0) NONE else fit(x + y, M128)
  pure def sub128(x: int, y: int): int = if (x < 0 or y < 0) NONE else fit(x - y, M128)
  pure def mul128(x: int, y: int): int = if (x < 0 or y < 0) NONE else fit(x * y, M128)
  pure def div128(x: int, y: int): int = if (x < 0 or y <= 0) NONE else x / y
  pure def ceilDiv(x: int, y: int): int = (x + y - 1) / y

  /// ceiling division that refuses to turn less than one into one
  pure def strictCeilDiv(x: int, y: int): int =
    if (x < 0 or y <= 0) NONE else if (x < y) NONE else ceilDiv(x, y)

  /// what remains of `amount` units when it is zero: nothing to trade
  pure def nonZero(x: int): int = if (x == 0) NONE else x

  // ---- bit length and integer square root, by definition --------------------
  pure val BITSTEPS = [128, 64, 32, 16, 8, 4, 2, 1]
  /// number of bits needed to write x
  pure def bitLength(x: int): int = if (x == 0) 0 else
    BITSTEPS.foldl((0, x), (acc, s) =>
      if (acc._2 >= 2^s) (acc._1 + s, acc._2 / 2^s) else acc)._1 + 1

  pure val SQSTEPS: List[int] = range(0, SQBITS / 2 + 1).foldl([], (l, i) => l.append(2^(SQBITS / 2 - i)))
  /// the largest y with y*y <= x, for x of at most SQBITS+1 bits
  pure def isqrt(x: int): int =
    SQSTEPS.foldl(0, (y, p) => if ((y + p) * (y + p) <= x) y + p else y)

  // ---- 18-decimal fixed point -------------------------------------------------
  pure def dNew(x: int): int = if (x < 0) NONE else fit(x * ONE, M256)
  pure def dAdd(x: int, y: int): int = if (x < 0 or y < 0) NONE else fit(x + y, M256)
  pure def dSub(x: int, y: int): int = if (x < 0 or y < 0) NONE else fit(x - y, M256)
  pure def fixMul(one: int, x: int, y: int): int =
    if (x < 0 or y < 0) NONE
    else if (x * y <= M256) { val v = fit(x * y + one / 2, M256) if (v < 0) NONE else v / one }
    else if (x >= y) fit((x / one) * y, M256) else fit((y / one) * x, M256)
  pure def fixDiv(one: int, x: int, y: int): int =
    if (x < 0 or y <= 0) NONE
    else if (x * one <= M256) { val v = fit(x * one + one / 2, M256) if (v < 0) NONE else v / y }
    else { val v = fit(x + one / 2, M256) if (v < 0) NONE else fit((v / y) * one, M256) }
  pure def dMul(x: int, y: int): int = fixMul(ONE, x, y)
  pure def dDiv(x: int, y: int): int = fixDiv(ONE, x, y)
  pure def dFloor(x: int): int = if (x < 0) NONE else (x / ONE) * ONE
  pure def dCeil(x: int): int =
    if (x < 0) NONE else { val v = fit(x + ONE - 1, M256) if (v < 0) NONE else (v / ONE) * ONE }
  /// to the nearest integer, half up
  pure def dInt(x: int): int =
    if (x < 0) NONE else { val v = fit(x + ONE / 2, M256) if (v < 0) NONE else fit(v / ONE, M128) }

  /// the square root of a number of which SQBITS leading bits are kept, rounded
  /// in the direction asked for
  pure def dSqrt(x: int, up: bool): int = if (x < 0) NONE else {
    val bits = bitLength(x)
    if (bits <= SQBITS) {
      val pad = ((SQBITS - bits) / 2) * 2
      val c = 2^(pad / 2)
      val p = x * 2^pad
      val s0 = isqrt(p)
      val s = if (up and s0 * s0 < p) s0 + 1 else s0
      val n = dMul(s, RONE * ONE)
      val r = dDiv(n, c * ONE)
      if (up and dMul(r, c * ONE) < n) dAdd(r, 1) else r
    } else {
      val pad = ((bits - SQBITS + 1) / 2) * 2
      val p0 = x / 2^pad
      val p = if (up and p0 * 2^pad < x) p0 + 1 else p0
      val s0 = isqrt(p)
      val s = if (up and s0 * s0 < p) s0 + 1 else s0
      dMul(dMul(s, RONE * ONE), 2^(pad / 2) * ONE)
    }
  }

  // ---- 12-decimal fixed point ----------------------------------------------------
  pure def pNew(x: int): int = if (x < 0) NONE else fit(x * PONE, M256)
  pure def pMul(x: int, y: int): int = fixMul(PONE, x, y)
  pure def pDiv(x: int, y: int): int = fixDiv(PONE, x, y)
  pure def pFloorInt(x: int): int = if (x < 0) NONE else fit(x / PONE, M128)
  pure def pCeilInt(x: int): int =
    if (x < 0) NONE else { val v = fit(x + PONE - 1, M256) if (v < 0) NONE else fit(v / PONE, M128) }
  pure val NEWTON = range(0, 100)
  /// Newton's square root, stopping when two guesses agree to ten decimals
  pure def pSqrt(x: int): int =
    if (x < 0 or x > M128 * PONE) NONE else if (x == 0) 0 else
      NEWTON.foldl((pDiv(x + PONE, 2 * PONE), false), (acc, i) =>
        if (acc._2 or acc._1 < 0) acc else {
          val g = pDiv(dAdd(acc._1, pDiv(x, acc._1)), 2 * PONE)
          (g, g >= 0 and hi(g - acc._1, acc._1 - g) < SNAP)
        })._1

  /// from 18 to 12 decimals
  pure def toP(x: int): int = {
    val n = if (x < 0) NONE else fit(x / ONE, M128)
    if (n < 0) NONE else dAdd(pNew(n), pDiv(pNew(x % ONE), pNew(ONE)))
  }

  // ---- what the 18-decimal operations promise ---------------------------------------
  // (relations between operands and result, independent of how it was computed)
  pure def absDiff(x: int, y: int): int = hi(x - y, y - x)
  /// the same number, to the last decimal kept; only numbers too large for either have none
  pure def splPromise(x: int, r: int): bool =
    if (r < 0) x / ONE > M128 else and { r * (ONE / PONE) <= x, x - r * (ONE / PONE) < ONE / PONE }
  /// exact product rounded to nearest; beyond the width, loses less than 1/ONE of it
  pure def mulPromise(x: int, y: int, r: int): bool =
    if (r < 0) x * y + ONE / 2 > M256
    else if (x * y + ONE / 2 <= M256) 2 * absDiff(r * ONE, x * y) <= ONE
    else and { r * ONE <= x * y, x * y - r * ONE <= (x * y) / ONE + ONE }
  /// within half a unit for divisors of one and more; beyond the width, whole numbers
  pure def divPromise(x: int, y: int, r: int): bool =
    if (y == 0) r < 0
    else if (r < 0) x * ONE + ONE / 2 > M256
    else if (x * ONE + ONE / 2 <= M256)
      if (y >= ONE) and { r * y <= x * ONE + ONE / 2, x * ONE < (r + 1) * y }
      else and { r * y <= x * ONE + ONE / 2, x * ONE < (r + 1) * y }
    else absDiff(r * y, x * ONE) <= y * ONE + ONE * ONE
  pure def floorPromise(x: int, r: int): bool = and { r >= 0, r <= x, x - r < ONE, r % ONE == 0 }
  pure def ceilPromise(x: int, r: int): bool =
    if (r < 0) x + ONE - 1 > M256 else and { r >= x, r - x < ONE, r % ONE == 0 }
  pure def intPromise(x: int, r: int): bool =
    if (r < 0) (x + ONE / 2) / ONE > M128 or x + ONE / 2 > M256
    else and { 2 * (r * ONE - x) <= ONE, 2 * (x - r * ONE) < ONE }
  /// r is a lower (upper) bound of the root of x, off by at most one part in
  /// 2^(SQBITS/2-1) plus one unit
  pure def sqrtPromise(x: int, up: bool, r: int): bool = {
    val slack = r / 2^(SQBITS / 2 - 1) + 2
    if (r < 0) false
    else if (up) and { r * r >= x * ONE, r <= slack or (r - slack) * (r - slack) <= x * ONE }
    else and { r * r <= x * ONE, (r + slack) * (r + slack) >= x * ONE }
  }
}
