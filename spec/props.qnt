// -*- mode: Bluespec; -*-
// The listed properties, each as a judgement on one observed request: the ledger
// before, the request, and what the implementation made of it.
module props {
  import scale.* from "./scale"
  const JS: Scale
  import num(NS=JS).* from "./num"
  import curves(CS=JS).* from "./curves"
  import ledger(LS=JS).* from "./ledger"
  import pool(PS=JS).* from "./pool"

  // alien: something changed that is not readable as an account of its kind
  type Obs = { ok: bool, code: int, alien: bool, next: World }
  type Flag = { p: str, why: str }
  pure def flag(bad: bool, ps: Set[str], why: str): Set[Flag] =
    if (bad) ps.map(p => { p: p, why: why }) else Set()

  pure def curveProp(ck: int): str =
    if (ck == PRICE) "P09" else if (ck == STABLE) "P11" else if (ck == LINEAR) "P14" else "P10"
  /// the property that fixes the amounts of a request
  pure def amountProps(c: Call, q: Pool): Set[str] =
    if (c.op == SWAP) Set(curveProp(q.ck))
    else if (c.op == DEPOSIT or c.op == WITHDRAW) Set("P20")
    else if (isInit(c.op)) Set("P05")
    else Set("P21")
  pure def hasFees(q: Pool): bool = or { q.fees[0] != 0, q.fees[2] != 0 }

  // accounts in the user's hands, by position
  pure def userRoles(op: str): Set[int] =
    if (op == SWAP) Set(3, 6, 10) else if (op == DEPOSIT) Set(3, 4, 8)
    else if (op == WITHDRAW) Set(4, 7, 8) else if (op == DEPOSIT1) Set(3, 7)
    else if (op == WITHDRAW1) Set(4, 7) else Set(6)
  pure def userNames(c: Call): Set[str] =
    userRoles(c.op).filter(i => i < c.ac.length()).map(i => c.ac[i])
  pure def overlapping(c: Call): bool = c.ac.foldl(Set(), (s, n) => s.union(Set(n))).size() < c.ac.length()

  // ---- refusals ---------------------------------------------------------------------
  pure def allowedCodes(bad: List[Cond]): Set[int] = bad.foldl(Set(), (s, x) => s.union(x.codes))
  pure val FRAMECODES = Set(eUnknown, eArguments, eAccounts, eReadOnly, eUnsigned)
  pure def judgeRefusal(w: World, c: Call, out: Outcome, o: Obs): Set[Flag] = {
    val q = if (c.ac.length() > 0) pool(w, c.ac[0]) else NOPOOL
    if (out.bad.length() == 0)
      flag(true, Set("P23").union(amountProps(c, q)), "refused although every condition holds")
      .union(flag(o.code.in(FRAMECODES), Set("P27"), "refused a well-formed request"))
      .union(flag(o.code.in(Set(builtin(4), builtin(10))), Set("P06"), "refused to read a recorded pool"))
      .union(flag(isInit(c.op) and o.code.in(Set(eFee)), Set("P26", "P25"), "refused admissible fees"))
      .union(flag(isInit(c.op) and o.code.in(Set(eCurveType, eOwner)), Set("P25"), "refused an admissible creation"))
      .union(flag(c.op == SWAP and o.code == eFeeFailure, Set("P18"), "could not convert the owner fee"))
      .union(flag(c.op == SWAP and q.ck == LINEAR and not(isInit(c.op)), Set("P16"), "refused a trade the reserves can honour"))
    else {
      val codes = allowedCodes(out.bad)
      flag(not(o.code.in(codes) or ANYCODE.in(codes)), Set("P23", "P27"),
           "refused with an error that names no violated condition")
    }
  }

  // ---- requests carried out -------------------------------------------------------------
  type Delta = { gain: str -> int }
  pure def gain(w: World, o: Obs, n: str): int = amt(o.next, n) - amt(w, n)
  pure def loss(w: World, o: Obs, n: str): int = amt(w, n) - amt(o.next, n)
  pure def changed(w: World, o: Obs): Set[str] =
    o.next.toks.keys().filter(n => tok(o.next, n) != tok(w, n))
  pure def sum(s: Set[str], f: (str) => int): int = s.fold(0, (a, n) => a + f(n))

  /// P08: conservation, and nothing but amounts (and spent allowances) changes
  pure def accounted(w: World, o: Obs, ch: Set[str]): bool = and {
    not(o.alien),
    o.next.toks.keys() == w.toks.keys(),
    o.next.mints.keys() == w.mints.keys(),
    w.mints.keys().forall(m =>
      sum(ch.filter(n => tok(w, n).mint == m), n => gain(w, o, n)) == sup(o.next, m) - sup(w, m)),
    ch.forall(n => {
      val t = tok(w, n)
      val t2 = tok(o.next, n)
      and { { ...t2, amt: t.amt, dlg: t.dlg, dam: t.dam } == t,
            t2.amt >= 0 and t2.amt <= M64,
            (t2.dlg == t.dlg and t2.dam == t.dam) or (t2.amt < t.amt and t.dam - t2.dam == t.amt - t2.amt
               and t2.dlg == (if (t2.dam == 0) "" else t.dlg)) } }),
    w.mints.keys().forall(m => { ...mint(o.next, m), sup: sup(w, m) } == mint(w, m)) }

  /// P01: who lost tokens had signed for it, or is the pool asked
  pure def authorized(w: World, c: Call, q: Pool, o: Obs, ch: Set[str]): bool = and {
    ch.forall(n => or {
      gain(w, o, n) >= 0,
      n.in(Set(q.a, q.b)) and not(isInit(c.op)),
      and { not(isInit(c.op)), c.ac[2].in(c.sg), spendError(tok(w, n), c.ac[2], loss(w, o, n)) == 0 } }),
    w.mints.keys().forall(m => sup(o.next, m) == sup(w, m) or m == (if (isInit(c.op)) c.ac[4] else q.lp)) }

  /// P28: other pools keep what is theirs
  pure def isolated(w: World, c: Call, o: Obs): bool =
    w.pools.keys().forall(s => or {
      s == c.ac[0],
      { val q = pool(w, s)
        val q2 = pool(o.next, s)
        or { not(readable(q)), tok(w, q.a).own != authorityOf(s), tok(w, q.b).own != authorityOf(s),
             and { q2 == q, sup(o.next, q.lp) == sup(w, q.lp),
                   Set(q.a, q.b, q.fee).forall(n => or { tok(o.next, n) == tok(w, n), n.in(userNames(c)) }) } } } })

  /// P07: the limits stated by the sender
  pure def limitsKept(w: World, c: Call, o: Obs): bool =
    if (c.op == SWAP) and { loss(w, o, c.ac[3]) <= c.ar[0], gain(w, o, c.ac[6]) >= c.ar[1] }
    else if (c.op == DEPOSIT)
      and { loss(w, o, c.ac[3]) <= c.ar[1], loss(w, o, c.ac[4]) <= c.ar[2],
            gain(w, o, c.ac[8]) >= c.ar[0] or sup(w, c.ac[7]) == 0 }
    else if (c.op == WITHDRAW)
      // (what is paid into the other reserve, which can only be nothing, hides behind what that one pays)
      and { gain(w, o, c.ac[7]) >= c.ar[1] or (c.ac[7] == c.ac[6] and c.ar[1] == 0),
            gain(w, o, c.ac[8]) >= c.ar[2] or (c.ac[8] == c.ac[5] and c.ar[2] == 0), loss(w, o, c.ac[4]) <= c.ar[0] }
    else if (c.op == DEPOSIT1) and { loss(w, o, c.ac[3]) <= c.ar[0], gain(w, o, c.ac[7]) >= c.ar[1] }
    else and { gain(w, o, c.ac[7]) >= c.ar[0], loss(w, o, c.ac[4]) <= c.ar[1] }

  /// P22: nothing for nothing
  pure def fair(w: World, c: Call, o: Obs): bool =
    if (c.op == SWAP) and { loss(w, o, c.ac[3]) > 0, gain(w, o, c.ac[6]) > 0 }
    else if (c.op == DEPOSIT)
      and { loss(w, o, c.ac[3]) > 0, loss(w, o, c.ac[4]) > 0,
            gain(w, o, c.ac[8]) > 0 or depositPoolTokens(w, c) == 0 }
    else if (c.op == WITHDRAW)
      and { loss(w, o, c.ac[4]) > 0 or (c.ac[4] == c.ac[9] and sup(o.next, c.ac[3]) < sup(w, c.ac[3])),
            gain(w, o, c.ac[7]) > 0 or amt(w, c.ac[5]) == 0,
            gain(w, o, c.ac[8]) > 0 or amt(w, c.ac[6]) == 0 }
    else if (c.op == DEPOSIT1) and { loss(w, o, c.ac[3]) > 0, gain(w, o, c.ac[7]) > 0 }
    else and { loss(w, o, c.ac[4]) > 0, gain(w, o, c.ac[7]) > 0 }

  // ---- swaps: what each curve promises -------------------------------------------------------
  /// the quote that the change of the reserves amounts to, fees taken off
  pure def netQuote(w: World, c: Call, q: Pool, o: Obs): Quote = {
    val fees = tradeFee(q.fees, c.ar[0]) + ownerFee(q.fees, c.ar[0])
    { src: gain(w, o, c.ac[4]) - fees, dst: loss(w, o, c.ac[5]) }
  }
  pure def judgeQuote(w: World, c: Call, q: Pool, o: Obs): Set[Flag] = {
    val n = netQuote(w, c, q, o)
    val x = c.ar[0] - tradeFee(q.fees, c.ar[0]) - ownerFee(q.fees, c.ar[0])
    val rs = amt(w, c.ac[4])
    val rd = amt(w, c.ac[5])
    val aToB = c.ac[4] == q.a
    if (q.ck == PRICE) flag(not(pricePromise(q.cp[0], x, aToB, n)), Set("P09"), "not the configured price")
    else if (q.ck == PRODUCT) flag(not(productPromise(x, rs, rd, n)), Set("P10"), "not the best fair product price")
    else if (q.ck == OFFSET)
      flag(not(productPromise(x, if (aToB) rs else rs + q.cp[0], if (aToB) rd + q.cp[0] else rd, n)),
           Set("P10"), "not the best fair product price")
    else if (q.ck == STABLE) {
      val lev = leverage(q.cp[0])
      val d0 = stableD(lev, rs, rd)
      // the solver may err by one unit of the reserve that pays
      val d1 = stableD(lev, rs + n.src, rd - n.dst + 1)
      flag(n.src != x, Set("P11"), "a stable swap took another amount than offered")
      .union(flag(d0 >= 0 and d1 >= 0 and d1 < d0 - 1, Set("P11"), "the stable invariant shrank"))
    }
    else if (aToB)
      flag(not(linBuyPromise(q.cp, rs, n.src, n.dst, if (n.dst == rd) 1 else 0)), Set("P12"), "sold below the price integral")
      .union(flag(n.src > x, Set("P14"), "charged more than offered"))
    else if (n.dst < rd)
      flag(not(linSellPromise(q.cp, rd, n.src, n.dst)), Set("P13"), "bought back above the price integral")
      .union(flag(n.src != x, Set("P14", "P15"), "a sale that was not capped took another amount than offered"))
    else
      flag(not(linCovers(q.cp, rd, n.src)) and not(drainRounding(q, rd, n.src)), Set("P15"),
           "paid out all collateral for fewer tokens than cover it")
      .union(flag(not(linCovers(q.cp, rd, n.src)) and drainRounding(q, rd, n.src), Set("P15"), "KNOWN drain-rounding"))
      .union(flag(n.src > x, Set("P15"), "took more tokens than offered"))
  }
  /// the one recorded deviation: a sale for the whole collateral takes the position
  /// rounded to nearest, where rounding up would be needed
  pure def drainRounding(q: Pool, a: int, taken: int): bool = {
    val b0 = linPosition(q.cp, dNew(a), true)
    and { b0 >= 0, taken == dInt(b0), taken * ONE < b0 }
  }

  // ---- pool tokens: what each holder keeps ---------------------------------------------------
  /// P20 on both sides of a deposit (withdrawal): da and db against pt of s pool tokens
  pure def depositPromise(q: Pool, pt: int, s: int, a: int, b: int, da: int, db: int): bool =
    if (q.ck == PRICE) and {
      (a + da + q.cp[0] * (b + db)) * s + pt >= (a + q.cp[0] * b) * (s + pt),
      2 * (da - 1) * s <= pt * (a + q.cp[0] * b),
      2 * (db - 1) * q.cp[0] * s <= pt * (a + q.cp[0] * b) + 2 * q.cp[0] * s }
    else and { da * s >= pt * a, (da - 1) * s < pt * a or da == 0, db * s >= pt * b, (db - 1) * s < pt * b or db == 0 }
  pure def withdrawPromise(q: Pool, pt: int, s: int, a: int, b: int, da: int, db: int): bool =
    if (q.ck == PRICE) and {
      (a - da + q.cp[0] * (b - db)) * s >= (a + q.cp[0] * b) * (s - pt),
      da == a or 2 * (da + 2) * s >= pt * (a + q.cp[0] * b),
      db == b or 2 * (db + 2) * q.cp[0] * s >= pt * (a + q.cp[0] * b) }
    else {
      val vb = if (q.ck == OFFSET) b + q.cp[0] else b
      and { da * s <= pt * a, da == a or (da + 1) * s > pt * a,
            db * s <= pt * vb, db == b or (db + 1) * s > pt * vb }
    }
  /// P21: one side moves, pool tokens against it.  The resolution of the arithmetic is
  /// one unit of the twelfth decimal in the quotient of amount and reserve, and three times the closeness at
  /// which roots are taken in the share of the supply.
  pure def oneSidePromise(q: Pool, s: int, a: int, b: int, a2: int, b2: int, s2: int): bool =
    if (q.ck == PRICE) priceNotDiluted(q.cp[0], a, b, s, a2, b2, s2)
    else if (q.ck == STABLE) {
      // what the solver finds depends on the order of the reserves, and it may err by
      // as much as one unit of each reserve is worth
      val lev = leverage(q.cp[0])
      val d0 = lo(stableD(lev, a, b), stableD(lev, b, a))
      val d1 = hi(stableD(lev, a2 + 1, b2 + 1), stableD(lev, b2 + 1, a2 + 1))
      d0 < 0 or d1 < 0 or (d1 + 2) * s + d0 >= d0 * s2
    } else {
      val o = if (q.ck == OFFSET) q.cp[0] else 0
      val t = s2 - (s * 3 * SNAP) / PONE - 1
      def finer(n) = n * PONE
      t <= 0 or productNotDiluted(finer(a), finer(b + o), s, finer(a2) + (if (a2 < a) a else 0),
                                  finer(b2 + o) + (if (b2 < b) b + o else 0), t)
    }

  // ---- what differs from the prediction ---------------------------------------------------------
  pure def judgeDifference(w: World, c: Call, q: Pool, exp: World, o: Obs): Set[Flag] =
    if (o.next == exp) Set()
    else if (isInit(c.op))
      flag(o.alien or pool(o.next, c.ac[0]) != pool(exp, c.ac[0]), Set("P05", "P06"), "recorded another pool than asked for")
      .union(flag(sup(o.next, c.ac[4]) != sup(exp, c.ac[4]) or o.next.toks != exp.toks, Set("P05"),
                  "issued something else than the initial supply"))
      .union(flag(true, Set("P05"), "creation had another effect than specified"))
    else {
      val reserves = or { amt(o.next, q.a) != amt(exp, q.a), amt(o.next, q.b) != amt(exp, q.b) }
      val generous = or {
        amt(o.next, q.a) < amt(exp, q.a) and amt(o.next, q.b) <= amt(exp, q.b),
        amt(o.next, q.a) <= amt(exp, q.a) and amt(o.next, q.b) < amt(exp, q.b) }
      val lps = sup(o.next, q.lp) != sup(exp, q.lp)
      val fees = amt(o.next, q.fee) != amt(exp, q.fee)
      val records = o.next.pools != exp.pools
      val lin = c.op == SWAP and q.ck == LINEAR
      val buy = c.ac[4] == q.a
      val capped = lin and (if (buy) linBuyIsCapped(q.cp, c.ar[0], amt(w, q.a), amt(w, q.b))
                            else linSellIsCapped(q.cp, c.ar[0], amt(w, q.a)))
      flag(reserves, amountProps(c, q), "the reserves moved by other amounts than specified")
      .union(flag(reserves and c.op == SWAP and hasFees(q), Set("P18"), "the trade did not charge the specified fees"))
      .union(flag(reserves and lin and generous and buy, Set("P12"), "cheaper than the published procedure"))
      .union(flag(reserves and lin and generous and not(buy), Set("P13"), "dearer than the published procedure"))
      .union(flag(reserves and lin and generous, Set("P16"), "more generous than the published procedure"))
      .union(flag(reserves and capped, Set("P15"), "a capped trade moved other amounts than specified"))
      .union(flag((reserves or lps) and overlapping(c), Set("P03"), "overlapping roles moved the pool by other amounts"))
      .union(flag((lps or fees) and c.op == SWAP, Set("P18"), "the owner fee was not issued as specified"))
      .union(flag(fees and (c.op == WITHDRAW or c.op == WITHDRAW1), Set("P19"), "the withdrawal fee differs"))
      .union(flag(lps and c.op != SWAP, amountProps(c, q), "another amount of pool tokens than specified"))
      .union(flag(records, Set("P05", "P08"), "a recorded pool changed"))
      .union(flag(not(reserves or lps or fees or records), Set("P08"), "another account changed than specified")
        .union(flag(not(reserves or lps or fees or records) and c.op == SWAP and c.ac.length() > 10, Set("P18"), "the host was not paid as specified")))
    }

  // ---- the judgement ---------------------------------------------------------------------------------
  /// residues behind the parameters a curve uses are of no meaning
  pure def normal(q: Pool): Pool =
    if (not(readable(q))) q else { ...q, cp: if (paramCount(q.ck) == 4) q.cp else if (paramCount(q.ck) == 1) [q.cp[0], 0, 0, 0] else [0, 0, 0, 0] }

  pure def judgeEffects(w: World, c: Call, q: Pool, o: Obs): Set[Flag] = {
    val ch = changed(w, o)
    flag(not(accounted(w, o, ch)), Set("P08"), "tokens are not accounted for")
    .union(flag(not(authorized(w, c, q, o, ch)), Set("P01"), "moved without authority"))
    .union(flag(not(isolated(w, c, o)), Set("P28"), "another pool changed"))
    .union(flag(o.next.pools != w.pools and not(isInit(c.op)), Set("P05"), "a recorded pool changed"))
    .union(
      if (isInit(c.op)) {
        val r = pool(o.next, c.ac[0])
        flag(o.alien or not(readable(r)), Set("P06"), "what was recorded cannot be read")
        .union(flag(not(o.alien) and not(validFees(r.fees)), Set("P26"), "a fee of one hundred percent or more was recorded"))
        .union(flag(c.op == INITLINEAR and (r.fees[0] != 0 or r.fees[2] != 0 or r.fees[4] != 0 or r.fees[6] != 0),
                    Set("P17"), "a linear pool was created with fees"))
      } else {
        flag(not(limitsKept(w, c, o)), Set("P07"), "worse than the stated limit")
        .union(flag(not(fair(w, c, o)), Set("P22"), "something for nothing"))
        .union(
          if (c.op == SWAP) judgeQuote(w, c, q, o)
          else {
            val a = amt(w, q.a)
            val b = amt(w, q.b)
            val s = sup(w, q.lp)
            val a2 = amt(o.next, q.a)
            val b2 = amt(o.next, q.b)
            val s2 = sup(o.next, q.lp)
            if (c.op == DEPOSIT) flag(s > 0 and not(depositPromise(q, s2 - s, s, a, b, a2 - a, b2 - b)), Set("P20"), "not the share of the reserves")
            else if (c.op == WITHDRAW)
              flag(not(withdrawPromise(q, s - s2, s, a, b, a - a2, b - b2)), Set("P20"), "not the share of the reserves")
              .union(flag(c.ac[4] != c.ac[9] and not(feePromise(c.ar[0], q.fees[4], q.fees[5], gain(w, o, c.ac[9]))), Set("P19"), "not the withdrawal fee"))
              .union(flag(c.ac[4] == c.ac[9] and s - s2 != c.ar[0], Set("P19"), "the fee account was charged a fee"))
            else if (c.op == DEPOSIT1)
              flag(s > 0 and not(oneSidePromise(q, s, a, b, a2, b2, s2)), Set("P21"), "diluted the other holders")
              .union(flag(gain(w, o, if (ofA(w, c.ac[3], c.ac[4])) c.ac[4] else c.ac[5]) != c.ar[0], Set("P21"), "took another amount than stated"))
            else
              flag(not(oneSidePromise(q, s, a, b, a2, b2, s2)), Set("P21"), "diluted the other holders")
              .union(flag(loss(w, o, if (ofA(w, c.ac[7], c.ac[5])) c.ac[5] else c.ac[6]) != c.ar[0], Set("P21"), "paid another amount than stated"))
              .union(flag(c.ac[4] != c.ac[8] and not(feePromise(s - s2, q.fees[4], q.fees[5], gain(w, o, c.ac[8]))), Set("P19"), "not the withdrawal fee"))
              .union(flag(c.ac[4] == c.ac[8] and loss(w, o, c.ac[4]) != s - s2, Set("P19"), "the fee account was charged a fee"))
          })
      })
  }

  pure def judgeOutcome(w: World, c: Call, out: Outcome, o: Obs): Set[Flag] =
    if (not(o.ok)) judgeRefusal(w, c, out, o)
    else {
      val q = if (c.ac.length() > 0) pool(w, c.ac[0]) else NOPOOL
      val hard = out.bad.select(x => not(x.soft))
      hard.foldl(Set(), (s, x) => s.union(flag(true, x.ps, "carried out although a condition is violated")))
      .union(if (out.bad.length() == 0) judgeDifference(w, c, q, out.next, o) else Set())
      .union(flag(out.bad.length() > 0 and hard.length() == 0 and c.op == SWAP and q.ck == STABLE, Set("P11"), "paid without a quote"))
      .union(if (wellFormed(c) and (isInit(c.op) or readable(q))) judgeEffects(w, c, q, o) else Set())
    }
  pure def judge(w: World, c: Call, o: Obs): Set[Flag] = judgeOutcome(w, c, request(w, c), o)

  // ---- fixed-point numbers (P24) ---------------------------------------------------------------------
  // a computation: r is its result (a truth value as 0 or 1), NONE if it has none and
  // PANIC2 if it aborted; neg the sign of a difference
  type Num = { f: str, x: int, y: int, z: int }
  type Got = { r: int, neg: bool }
  pure val PANIC2 = -2
  pure def truth(b: bool): int = if (b) 1 else 0
  pure def numExpected(n: Num): int =
    if (n.f == "new") dNew(n.x)
    else if (n.f == "to_imprecise") dInt(n.x)
    else if (n.f == "floor") dFloor(n.x)
    else if (n.f == "ceiling") dCeil(n.x)
    else if (n.f == "add") dAdd(n.x, n.y)
    else if (n.f == "sub") dSub(n.x, n.y)
    else if (n.f == "mul") dMul(n.x, n.y)
    else if (n.f == "div") dDiv(n.x, n.y)
    else if (n.f == "usub") absDiff(n.x, n.y)
    else if (n.f == "sqrt_up") dSqrt(n.x, true)
    else if (n.f == "sqrt_down") dSqrt(n.x, false)
    else if (n.f == "to_spl") toP(n.x)
    else if (n.f == "almost") truth(absDiff(n.x, n.y) < n.z)
    else if (n.f == "lt") truth(n.x < n.y)
    else if (n.f == "gt") truth(n.x > n.y)
    else if (n.f == "le") truth(n.x <= n.y)
    else truth(n.x >= n.y)
  /// what the result must satisfy however it was computed
  pure def numPromise(n: Num, r: int): bool =
    if (n.f == "mul") mulPromise(n.x, n.y, r)
    else if (n.f == "div") divPromise(n.x, n.y, r)
    else if (n.f == "floor") floorPromise(n.x, r)
    else if (n.f == "ceiling") ceilPromise(n.x, r)
    else if (n.f == "to_imprecise") intPromise(n.x, r)
    else if (n.f == "sqrt_up") sqrtPromise(n.x, true, r)
    else if (n.f == "sqrt_down") sqrtPromise(n.x, false, r)
    else if (n.f == "to_spl") splPromise(n.x, r)
    else true
  pure def judgeNumber(n: Num, g: Got): Set[Flag] =
    if (g.r == PANIC2) flag(numExpected(n) >= 0, Set("P24"), "a number computation aborted")
    else flag(g.r != numExpected(n), Set("P24"), "not the specified value")
      .union(flag(n.f == "usub" and g.neg != (n.x < n.y), Set("P24"), "wrong sign"))
      .union(flag(not(numPromise(n, g.r)), Set("P24"), "outside the stated precision"))
}
