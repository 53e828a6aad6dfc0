// -*- mode: Bluespec; -*-
// The five pricing curves and the fee arithmetic: what each quote is to the base
// unit (definitions named after the quote) and what any quote must satisfy no
// matter how it was computed (definitions named ...Promise).
module curves {
  import scale.* from "./scale"
  const CS: Scale
  import num(NS=CS).* from "./num"

  // curve kinds, by their stored type byte
  pure val PRODUCT = 0
  pure val PRICE = 1
  pure val STABLE = 2
  pure val OFFSET = 3
  pure val LINEAR = 30
  pure val KINDS = Set(PRODUCT, PRICE, STABLE, OFFSET, LINEAR)

  type Quote = { src: int, dst: int }          // taken from the trader, paid to the trader
  pure val NOQUOTE = { src: NONE, dst: NONE }
  pure def quote(s: int, d: int): Quote = if (s <= 0 or d <= 0) NOQUOTE else { src: s, dst: d }

  pure def allowsDeposits(kind: int): bool = kind != OFFSET and kind != LINEAR
  pure def allowsWithdrawals(kind: int): bool = kind != LINEAR

  // ---- creation rules ------------------------------------------------------------
  /// the smallest admissible slope, by the 18-decimal resolution
  pure def slopeRepresentable(sn: int, sd: int): bool = {
    val q = dDiv(dNew(sn), dNew(sd))
    q >= dDiv(dNew(1), dNew(ONE))
  }
  pure def validParams(kind: int, p: List[int]): bool =
    if (kind == PRICE or kind == OFFSET) p[0] != 0
    else if (kind == LINEAR) and { p[0] != 0, p[1] != 0, p[3] != 0, slopeRepresentable(p[0], p[1]) }
    else true
  /// which amounts a pool may be created with
  pure def emptySupply(kind: int, a: int, b: int): bool =
    if (kind == PRICE or kind == OFFSET) a == 0
    else if (kind == LINEAR) b == 0
    else a == 0 or b == 0
  pure def wrongSupply(kind: int, a: int): bool = kind == LINEAR and a != 0

  // ---- fees --------------------------------------------------------------------------
  // stored order: trade, owner trade, owner withdraw, host; numerator then denominator
  pure def fee(x: int, n: int, d: int): int =
    if (x < 0) NONE else if (n == 0 or x == 0) 0 else {
      val f = div128(mul128(x, n), d)
      if (f == 0) 1 else f
    }
  pure def tradeFee(fs: List[int], x: int): int = fee(x, fs[0], fs[1])
  pure def ownerFee(fs: List[int], x: int): int = fee(x, fs[2], fs[3])
  pure def withdrawFee(fs: List[int], x: int): int = fee(x, fs[4], fs[5])
  pure def hostFee(fs: List[int], x: int): int = fee(x, fs[6], fs[7])
  pure def validFraction(n: int, d: int): bool = (n == 0 and d == 0) or n < d
  pure def validFees(fs: List[int]): bool = and {
    validFraction(fs[0], fs[1]), validFraction(fs[2], fs[3]),
    validFraction(fs[4], fs[5]), validFraction(fs[6], fs[7]) }
  /// f is the fee of fraction n/d on x: rounded down, but at least one unit
  pure def feePromise(x: int, n: int, d: int, f: int): bool =
    if (n == 0 or x == 0) f == 0
    else if (x * n < d) f == 1
    else and { f * d <= x * n, x * n < (f + 1) * d }

  // ---- constant price ------------------------------------------------------------------
  pure def priceSwap(p: int, x: int, aToB: bool): Quote =
    if (p == 0) NOQUOTE
    else if (aToB) quote((x / p) * p, x / p)
    else quote(x, mul128(x, p))
  pure def pricePromise(p: int, x: int, aToB: bool, q: Quote): bool =
    if (aToB) and { q.src <= x, x - q.src < p, q.src == q.dst * p, q.dst > 0 }
    else and { q.src == x, q.dst == x * p, q.dst > 0 }

  // ---- constant product, with an optional offset on the B side -----------------------------
  pure def productSwap(x: int, rs: int, rd: int): Quote = {
    val inv = mul128(rs, rd)
    val ns = add128(rs, x)
    val nd = strictCeilDiv(inv, ns)
    if (nd < 0) NOQUOTE else quote(if (inv % ns == 0) x else ceilDiv(inv, nd) - rs, rd - nd)
  }
  pure def productPromise(x: int, rs: int, rd: int, q: Quote): bool = and {
    q.src >= 0, q.src <= x, q.dst > 0, q.dst < rd,
    (rs + q.src) * (rd - q.dst) >= rs * rd,
    (rs + x) * (rd - q.dst - 1) < rs * rd,
    q.src == 0 or (rs + q.src - 1) * (rd - q.dst) < rs * rd }

  // ---- stable ---------------------------------------------------------------------------------
  pure val ROUNDS = range(0, 32)
  pure def leverage(amp: int): int = if (amp * 2 > M64) NONE else amp * 2
  /// one Newton step towards the invariant of reserves (a, b)
  pure def stableStep(lev: int, sum: int, a2: int, b2: int, d: int): int = {
    val p1 = fit(d * d, M256)
    val p2 = if (p1 < 0) NONE else fit((p1 / a2) * d, M256)
    val dp = if (p2 < 0) NONE else p2 / b2
    val l1 = fit(lev * sum, M256)
    val l2 = if (dp < 0 or l1 < 0) NONE else fit(l1 + 2 * dp, M256)
    val l = if (l2 < 0) NONE else fit(l2 * d, M256)
    val r = if (l < 0 or lev < 1) NONE else fit((lev - 1) * d + 3 * dp, M256)
    if (r <= 0) NONE else l / r
  }
  pure def stableD(lev: int, a: int, b: int): int = {
    val sum = add128(a, b)
    if (lev < 0 or sum < 0) NONE
    else if (sum == 0) 0
    else {
      val d = ROUNDS.foldl((sum, false), (acc, i) =>
        if (acc._2 or acc._1 < 0) acc else {
          val n = stableStep(lev, sum, 2 * a + 1, 2 * b + 1, acc._1)
          (n, n == acc._1)
        })._1
      fit(d, M128)
    }
  }
  /// the other reserve once one of them is ns and the invariant is d
  pure def stableY(lev: int, ns: int, d: int): int =
    if (lev <= 0 or ns <= 0 or d < 0) NONE else {
      val c = fit(d * d * d, M256)
      if (c < 0) NONE else {
        val c1 = c / (4 * ns * lev)
        val b = ns + d / lev
        val y = ROUNDS.foldl((d, false), (acc, i) =>
          if (acc._2 or acc._1 < 0) acc else {
            val den = 2 * acc._1 + b - d
            val n = if (den <= 0) NONE else fit(acc._1 * acc._1 + c1, M256)
            val m = if (n < 0) NONE else n / den
            (m, m == acc._1)
          })._1
        fit(y, M128)
      }
    }
  pure def stableSwap(amp: int, x: int, rs: int, rd: int): Quote = {
    val lev = leverage(amp)
    val y = stableY(lev, add128(rs, x), stableD(lev, rs, rd))
    val out = sub128(rd, y)
    if (y < 0 or out < 0) NOQUOTE else quote(x, out)
  }

  // ---- linear price ----------------------------------------------------------------------------
  // p = [slope numerator, slope denominator, initial price numerator, denominator]
  /// collateral below position b (raw): slope/2 * b^2 + initial * b
  pure def linIntegral(p: List[int], b: int): int = {
    val quad = dDiv(dDiv(dMul(dMul(dNew(p[0]), b), b), dNew(p[1])), dNew(2))
    val lin = dDiv(dMul(dNew(p[2]), b), dNew(p[3]))
    dAdd(quad, lin)
  }
  /// position reached with collateral a (raw), erring in the direction asked for
  pure def linPosition(p: List[int], a: int, up: bool): int = {
    val kn = dMul(dNew(p[0]), dNew(1))
    val kd = dMul(dNew(p[1]), dNew(2))
    val en = dNew(p[2])
    val ed = dNew(p[3])
    val fourKA = dDiv(dMul(dMul(kn, dNew(4)), a), kd)
    val s2 = dAdd(dDiv(dDiv(dMul(en, en), ed), ed), fourKA)
    val s = dSqrt(s2, up)
    val e = dDiv(en, ed)
    val n = if (s < 0 or e < 0) NONE else hi(0, s - e)
    dDiv(dDiv(dMul(n, kd), kn), dNew(2))
  }
  /// price of everything that is left, rounded up
  pure def linSoldOut(p: List[int], a: int, b0: int, rd: int): int =
    dInt(dCeil(dSub(linIntegral(p, dAdd(b0, dNew(rd))), a)))
  pure def linBuy(p: List[int], x: int, ra: int, rb: int): Quote = {
    val a0 = dNew(ra)
    val b0 = linPosition(p, a0, true)
    val whole = linSoldOut(p, a0, b0, rb)
    if (b0 < 0) NOQUOTE
    else if (whole >= 0 and whole <= x) quote(whole, rb)
    else quote(x, dInt(dFloor(dSub(linPosition(p, dAdd(a0, dNew(x)), false), b0))))
  }
  pure def linSell(p: List[int], x: int, ra: int): Quote = {
    val b0 = linPosition(p, dNew(ra), true)
    if (b0 < 0) NOQUOTE
    else if (dNew(x) > b0) quote(dInt(b0), ra)
    else quote(x, dInt(dFloor(dSub(dNew(ra), linIntegral(p, dCeil(b0 - dNew(x)))))))
  }
  pure def linBuyIsCapped(p: List[int], x: int, ra: int, rb: int): bool = {
    val whole = linSoldOut(p, dNew(ra), linPosition(p, dNew(ra), true), rb)
    whole >= 0 and whole <= x
  }
  pure def linSellIsCapped(p: List[int], x: int, ra: int): bool =
    dNew(x) > linPosition(p, dNew(ra), true)

  // Promises of the linear curve, over the rationals and without any fixed-point
  // procedure.  With slope m, initial price e and collateral a, the price at the current
  // position is S = sqrt(e^2 + 2*m*a); d tokens to the right cost m/2*d^2 + d*S and d
  // tokens to the left are worth d*S - m/2*d^2.  u is one unit of resolution.
  // S^2 as a fraction, lowered (raised) by `ulps` units
  pure def s2num(p: List[int], a: int, ulps: int): int =
    hi(0, p[2] * p[2] * p[1] * ONE + 2 * p[0] * a * p[3] * p[3] * ONE + ulps * p[3] * p[3] * p[1])
  pure def s2den(p: List[int]): int = p[3] * p[3] * p[1] * ONE
  /// d tokens for x: x + u/m + slack/16 >= m/2*d'^2 + d'*S', d' = d - 2u, S'^2 = S^2 - 2u
  pure def linBuyPromise(p: List[int], a: int, x: int, d: int, slack: int): bool = {
    val dn = d * ONE - 2
    val tn = 16 * x * 2 * p[1] * p[0] * ONE * ONE + 16 * 2 * p[1] * p[1] * ONE
             + slack * 2 * p[1] * p[0] * ONE * ONE - 16 * p[0] * p[0] * dn * dn
    val td = 16 * 2 * p[1] * p[0] * ONE * ONE
    or { dn <= 0,
         and { tn >= 0, dn * dn * s2num(p, a, -2) * td * td <= tn * tn * s2den(p) * ONE * ONE } }
  }
  /// y for d tokens: y - u*16/m - 1/16 + m/2*d^2 <= (d + 2u + 2u/m) * S
  pure def linSellPromise(p: List[int], a: int, d: int, y: int): bool = {
    // common denominator 16 * 2 * sd * sn * ONE
    val den = 16 * 2 * p[1] * p[0] * ONE
    val w = y * den - 16 * 16 * 2 * p[1] * p[1] - 2 * p[1] * p[0] * ONE + 16 * p[0] * p[0] * ONE * d * d
    val v = d * den + 2 * 16 * 2 * p[1] * p[0] + 2 * 16 * 2 * p[1] * p[1]
    or { w <= 0, w * w * s2den(p) <= v * v * s2num(p, a, 2) }
  }
  /// d tokens cover the whole collateral a: m/2*d^2 + e*d >= a (up to a base unit of a)
  pure def linCovers(p: List[int], a: int, d: int): bool =
    p[0] * d * d * p[3] + 2 * p[1] * p[2] * d >= (a - 1) * 2 * p[1] * p[3]
  /// collateral a covers the price integral of `sold` tokens, give or take n units of resolution
  pure def linSolvent(p: List[int], a: int, sold: int, n: int): bool = {
    // sold' = sold - 4nu (and nothing if negative); a' = a + n*(u/m + 1/16)
    val s = sold * ONE - 4 * n
    or { s <= 0,
         (p[0] * s * s * p[3] + 2 * p[1] * p[2] * s * ONE) * 16 * p[0]
           <= (16 * a * p[0] * ONE + n * (16 * p[1] + p[0] * ONE)) * 2 * p[1] * p[3] * ONE }
  }

  // ---- any curve: swap before fees -----------------------------------------------------------------
  pure def curveSwap(kind: int, p: List[int], x: int, rs: int, rd: int, aToB: bool): Quote =
    if (x < 0) NOQUOTE
    else if (kind == PRICE) priceSwap(p[0], x, aToB)
    else if (kind == STABLE) stableSwap(p[0], x, rs, rd)
    else if (kind == LINEAR) if (aToB) linBuy(p, x, rs, rd) else linSell(p, x, rd)
    else if (kind == OFFSET)
      productSwap(x, if (aToB) rs else add128(rs, p[0]), if (aToB) add128(rd, p[0]) else rd)
    else productSwap(x, rs, rd)

  // ---- pool tokens for both reserves --------------------------------------------------------------
  type Pair = { a: int, b: int }
  pure val NOPAIR = { a: NONE, b: NONE }
  pure def pair(a: int, b: int): Pair = if (a < 0 or b < 0) NOPAIR else { a: a, b: b }
  /// value of the reserves of a constant price pool, per side, in units of A
  pure def priceValue(p: int, a: int, b: int): int = div128(add128(a, mul128(b, p)), 2)
  pure def share(pt: int, s: int, r: int, up: bool): int = {
    val n = mul128(pt, r)
    val q = div128(n, s)
    if (q < 0) NONE else if (up and q > 0 and n % s > 0) q + 1 else q
  }
  pure def bothSides(kind: int, p: List[int], pt: int, s: int, a: int, b: int, up: bool): Pair =
    if (kind == LINEAR) NOPAIR
    else if (kind == PRICE) {
      val n = mul128(pt, priceValue(p[0], a, b))
      if (up) pair(strictCeilDiv(n, s), strictCeilDiv(strictCeilDiv(n, p[0]), s))
      else pair(div128(n, s), div128(div128(n, p[0]), s))
    }
    else pair(share(pt, s, a, up), share(pt, s, if (kind == OFFSET) add128(b, p[0]) else b, up))

  // ---- pool tokens for one side -----------------------------------------------------------------------
  pure def priceShare(p: int, x: int, a: int, b: int, s: int, ofA: bool, up: bool): int = {
    val given = if (ofA) x else x * p
    val total = b * p + a
    if (x < 0 or s < 0 or total == 0) NONE
    else fit(if (up) strictCeilDiv(s * given, total) else (s * given) / total, M128)
  }
  pure def productIn(x: int, r: int, s: int): int = {
    val root = dSub(pSqrt(dAdd(PONE, pDiv(pNew(x), pNew(r)))), PONE)
    pFloorInt(pMul(pNew(s), root))
  }
  pure def productOut(x: int, r: int, s: int): int = {
    val root = dSub(PONE, pSqrt(dSub(PONE, pDiv(pNew(x), pNew(r)))))
    pCeilInt(pMul(pNew(s), root))
  }
  pure def stableShare(d0: int, d1: int, s: int): int = pDiv(pMul(dSub(pNew(d1), pNew(d0)), pNew(s)), pNew(d0))
  // (the solver takes the two reserves in order, and the one that moves first after the
  // move; its last unit may depend on the order)
  pure def stableIn(amp: int, x: int, a: int, b: int, s: int, ofA: bool): int = if (x == 0) 0 else {
    val lev = leverage(amp)
    val d1 = if (ofA) stableD(lev, add128(a, x), b) else stableD(lev, add128(b, x), a)
    pFloorInt(stableShare(stableD(lev, a, b), d1, s))
  }
  pure def stableOut(amp: int, x: int, a: int, b: int, s: int, ofA: bool): int = if (x == 0) 0 else {
    val lev = leverage(amp)
    val d0 = stableD(lev, a, b)
    val r = if (ofA) a else b
    val d1 = if (r < x) NONE else stableD(lev, r - x, if (ofA) b else a)
    pCeilInt(pDiv(pMul(dSub(pNew(d0), pNew(d1)), pNew(s)), pNew(d0)))
  }
  /// pool tokens issued for x put in on one side, before any fee
  pure def oneSideIn(kind: int, p: List[int], x: int, a: int, b: int, s: int, ofA: bool): int =
    if (x < 0 or kind == LINEAR) NONE
    else if (kind == PRICE) priceShare(p[0], x, a, b, s, ofA, false)
    else if (kind == STABLE) stableIn(p[0], x, a, b, s, ofA)
    else productIn(x, if (ofA) a else if (kind == OFFSET) add128(b, p[0]) else b, s)
  /// pool tokens destroyed for x taken out on one side, before any fee
  pure def oneSideOut(kind: int, p: List[int], x: int, a: int, b: int, s: int, ofA: bool): int =
    if (x < 0 or kind == LINEAR) NONE
    else if (kind == PRICE) priceShare(p[0], x, a, b, s, ofA, true)
    else if (kind == STABLE) stableOut(p[0], x, a, b, s, ofA)
    else productOut(x, if (ofA) a else if (kind == OFFSET) add128(b, p[0]) else b, s)

  // half of a one-sided amount is deemed swapped and pays the trading fee
  pure def halfFee(fs: List[int], x: int): int = tradeFee(fs, hi(1, x / 2))
  pure def depositOne(kind: int, p: List[int], fs: List[int], x: int, a: int, b: int, s: int, ofA: bool): int =
    if (x == 0) 0 else oneSideIn(kind, p, sub128(x, halfFee(fs, x)), a, b, s, ofA)
  pure def withdrawOne(kind: int, p: List[int], fs: List[int], x: int, a: int, b: int, s: int, ofA: bool): int =
    if (x == 0) 0 else oneSideOut(kind, p, add128(x, halfFee(fs, x)), a, b, s, ofA)

  // ---- swap with fees -------------------------------------------------------------------------------------
  /// src includes the fees, lp is what the owner fee is worth in pool tokens
  type Trade = { src: int, dst: int, owner: int, lp: int }
  pure val NOTRADE = { src: NONE, dst: NONE, owner: NONE, lp: NONE }
  pure def trade(kind: int, p: List[int], fs: List[int], x: int, rs: int, rd: int, s: int, aToB: bool): Trade = {
    val ow = ownerFee(fs, x)
    val fees = add128(tradeFee(fs, x), ow)
    val q = curveSwap(kind, p, sub128(x, fees), rs, rd, aToB)
    val src = add128(q.src, fees)
    val left = sub128(rd, q.dst)
    if (src < 0 or left < 0 or q.dst < 0) NOTRADE else {
      val ns = rs + src
      val lp = if (ow == 0) 0
               else oneSideOut(kind, p, ow, if (aToB) ns else left, if (aToB) left else ns, s, aToB)
      { src: src, dst: q.dst, owner: ow, lp: lp }
    }
  }

  // ---- value of a pool, for the dilution promises ---------------------------------------------------------
  // Twice the value of a constant price pool, the square of the value of a product
  // pool and the invariant of a stable pool: the shape in which each is compared.
  /// (reserves, supply) -> (reserves', supply'): value per pool token has not fallen
  pure def productNotDiluted(a: int, b: int, s: int, a2: int, b2: int, s2: int): bool =
    a2 * b2 * s * s >= a * b * s2 * s2
  pure def priceNotDiluted(p: int, a: int, b: int, s: int, a2: int, b2: int, s2: int): bool =
    (a2 + p * b2) * s >= (a + p * b) * s2
}
