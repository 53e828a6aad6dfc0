// -*- mode: Bluespec; -*-
// An adversarial environment: worlds, what happens to them between requests, and
// requests that are close to the edge of what is permitted.  Every choice is a function
// of one large random number, so that a behaviour is reproduced by its seed.
module gen {
  import scale.* from "./scale"
  const GS: Scale
  import num(NS=GS).* from "./num"
  import curves(CS=GS).* from "./curves"
  import ledger(LS=GS).* from "./ledger"
  import pool(PS=GS).* from "./pool"

  // ---- choices ----------------------------------------------------------------------
  pure val DICE = 2^4096 - 1
  pure def die(r: int, i: int): int = (r / 2^(64 * i)) % 2^64
  pure def chance(x: int, percent: int): bool = (x / 2^20) % 100 < percent
  pure def choose(l: List[int], x: int): int = l[(x / 2^8) % l.length()]
  pure def pick(l: List[str], x: int): str = l[(x / 2^8) % l.length()]
  /// an amount of up to `bits` bits, each magnitude equally likely
  pure def mag(x: int, bits: int): int = (x / 2^6) % 2^(1 + (x % bits))
  /// a small multiple, close to one
  pure def around(n: int, x: int): int = {
    val k = x % 16
    val v = if (k < 4) n else if (k == 4) n + 1 else if (k == 5) n - 1 else if (k == 6) n / 2
            else if (k == 7) n * 2 else if (k == 8) n + mag(x / 16, 20) else if (k == 9) n - mag(x / 16, 20)
            else (n * ((x / 16) % 4096)) / 4096
    if (v < 0) 0 else if (v > M64) M64 else v
  }

  // ---- names --------------------------------------------------------------------------
  pure val USERS = ["u1", "u2"]
  pure val HOLDINGS: (str, str) -> str = Map(
    ("u1", "mA") -> "u1A", ("u1", "mB") -> "u1B", ("u1", "mC") -> "u1C",
    ("u1", "lpP") -> "u1P", ("u1", "lpQ") -> "u1Q", ("u1", "lpN") -> "u1N", ("u1", "lpX") -> "u1X",
    ("u2", "mA") -> "u2A", ("u2", "mB") -> "u2B", ("u2", "mC") -> "u2C",
    ("u2", "lpP") -> "u2P", ("u2", "lpQ") -> "u2Q", ("u2", "lpN") -> "u2N", ("u2", "lpX") -> "u2X")
  pure def holding(u: str, m: str): str =
    if ((u, m).in(HOLDINGS.keys())) HOLDINGS.get((u, m)) else "u1C"
  // the accounts that belong together as a pool
  type Kit = { s: str, auth: str, a: str, b: str, lp: str, fee: str, host: str }
  pure val KITS: str -> Kit = Map(
    "P" -> { s: "P", auth: "pda:P", a: "aP", b: "bP", lp: "lpP", fee: "fP", host: "hP" },
    "Q" -> { s: "Q", auth: "pda:Q", a: "aQ", b: "bQ", lp: "lpQ", fee: "fQ", host: "hQ" },
    "N" -> { s: "N", auth: "pda:N", a: "aN", b: "bN", lp: "lpN", fee: "fN", host: "hN" },
    "X" -> { s: "X", auth: "pda:X", a: "aX", b: "bX", lp: "lpX", fee: "fX", host: "hX" })
  pure val TOKNAMES = ["aP", "bP", "aQ", "bQ", "aX", "bX", "aN", "bN", "fP", "fQ", "fX", "fN", "hP", "hQ", "u1A", "u1B", "u1P",
    "u1Q", "u1X", "u1N", "u2A", "u2B", "u2P", "u2Q", "u2X", "u2N", "u1C", "sA", "sB", "sP", "sL", "fkA", "fkB", "zz"]
  pure val ANYNAMES = TOKNAMES.concat(["P", "Q", "N", "X", "pda:P", "pda:Q", "pda:X", "lpP", "lpQ", "lpX", "mA", "mB", "u1", "u2", "adm", "del",
    "TOK", "FAKE", "SYS"])

  // ---- pools in every shape ------------------------------------------------------------------
  pure def kindsFor(focus: str): List[int] =
    if (focus == "P09") [PRICE] else if (focus == "P10") [PRODUCT, PRODUCT, OFFSET]
    else if (focus == "P11") [STABLE]
    else if (focus.in(Set("P12", "P13", "P14", "P15", "P16"))) [LINEAR]
    else if (focus == "P17") [LINEAR, OFFSET, LINEAR, OFFSET, LINEAR, PRODUCT]
    else if (focus.in(Set("P19", "P20", "P21"))) [PRODUCT, PRICE, STABLE, OFFSET, PRODUCT, PRICE]
    else if (focus == "P18") [PRODUCT, PRICE, STABLE, PRODUCT, OFFSET]
    else [PRODUCT, PRICE, STABLE, OFFSET, LINEAR, PRICE, LINEAR]
  pure def fraction(x: int): List[int] = {
    val k = x % 8
    val d = 2 + mag(x / 8, if (k < 5) 14 else 40)
    if (k == 0) [0, 0] else if (k == 1) [0, d]
    else if (k == 7) [(x / 2^40) % d, d] else [((x / 2^40) % d) / (1 + mag(x / 2^20, 10)), d]
  }
  pure def someFees(focus: str, k: int, x: int, y: int): List[int] = {
    val none = if (focus.in(Set("P18", "P19"))) 2 else if (focus.in(Set("P09", "P10", "P11"))) 50 else 25
    if (k == LINEAR and not(chance(y, 3))) [0, 1, 0, 1, 0, 1, 0, 1]
    else if (chance(x, none)) if (x % 2 == 0) [0, 0, 0, 0, 0, 0, 0, 0] else [0, 1, 0, 1, 0, 1, 0, 1]
    else if (chance(x / 3, 40)) {
      val d = [1000, 10000, 100, 1000000][x % 4]
      [1 + x % 30, d, 1 + (x / 64) % 30, d, (x / 4096) % 20, d, (x / 2^18) % 90, 100]
    }
    else fraction(x).concat(fraction(y)).concat(fraction(x / 977)).concat(fraction(y / 977))
  }
  pure def someParams(k: int, x: int, y: int): List[int] =
    if (k == PRODUCT) [0, 0, 0, 0]
    else if (k == STABLE) [if (chance(y, 80)) 1 + mag(x, 10) else mag(x, 64), 0, 0, 0]
    else if (k == PRICE) [if (chance(y, 80)) 1 + mag(x, 16) else 1 + mag(x, 60), 0, 0, 0]
    else if (k == OFFSET) [1 + mag(x, 50), 0, 0, 0]
    else {
      val style = y % 8
      // price per token rises by one per `sd/sn` tokens
      if (style < 3) [1 + mag(x, 4), 1 + mag(x / 2^10, 34), mag(x / 2^20, 8), 1 + mag(x / 2^30, 8)]
      else if (style < 5) [1, 10^(1 + (x / 16) % 9), mag(x / 2^20, 12), 10^((x / 2^12) % 7)]
      else if (style == 5) [1 + mag(x, 12), 1 + mag(x / 2^10, 8), mag(x / 2^20, 20), 1 + mag(x / 2^30, 8)]
      else if (style == 6) [1 + mag(x, 40), 1 + mag(x / 2^10, 40), mag(x / 2^20, 40), 1 + mag(x / 2^30, 30)]
      else [1 + mag(x, 6), 1 + mag(x / 2^10, 56), 0, 1]
    }
  // reserves (a, b) that fit the curve
  pure def someReserves(k: int, p: List[int], x: int, y: int): Pair =
    if (k == LINEAR) {
      val b = 1 + mag(y, 60)
      if (chance(x, 25)) { a: 0, b: b }
      else if (chance(x / 7, 50)) {
        // what buying s tokens costs
        val s = mag(x / 2^9, 40)
        val a = dInt(linIntegral(p, dNew(s)))
        { a: if (a < 0) mag(x, 50) else lo(a + (x % 3), M64), b: b }
      }
      else { a: mag(x, 60), b: b }
    }
    else if (k == STABLE and chance(y / 3, 70)) {
      val base = 1 + mag(x, 50)
      { a: base, b: 1 + (base * (1 + (y / 2^12) % 4096)) / 1024 }
    }
    else if (chance(y / 5, 6)) { a: mag(x, 40), b: 0 }
    else if (chance(y / 5, 94)) { a: 1 + mag(x, 56), b: 1 + mag(y, 56) }
    else { a: mag(x, 64), b: mag(y, 64) }

  pure def newTok(m: str, o: str, n: int): Tok =
    { mint: m, own: o, amt: if (n > M64) M64 else n, dlg: "", dam: 0, cls: "", st: 1, prog: "TOK" }
  pure def newMint(auth: str, s: int): Mint = { auth: auth, sup: s, frz: "", st: 1, prog: "TOK" }

  // a pool with its accounts and some holders of its tokens
  pure def addPool(w: World, focus: str, s: str, ma: str, mb: str, r: int): World = {
    val t = KITS.get(s)
    val k = choose(kindsFor(focus), die(r, 0))
    val p = someParams(k, die(r, 1), die(r, 2))
    val fs = someFees(focus, k, die(r, 3), die(r, 4))
    val v = someReserves(k, p, die(r, 5), die(r, 6))
    val style = die(r, 7) % 16
    val supply = if (style == 0 or (focus == "P17" and style < 6)) 0 else if (style < 6) INITIAL else mag(die(r, 8), 62)
    val h1 = if (style == 6) supply else if (style < 9) supply / 2 else (supply * (die(r, 9) % 1024)) / 1024
    val h2 = (supply - h1) / 2
    val hf = if (style == 8) supply - h1 - h2 else (supply - h1 - h2) / 2
    { toks: w.toks
        .put(t.a, newTok(ma, t.auth, v.a)).put(t.b, newTok(mb, t.auth, v.b))
        .put(t.fee, newTok(t.lp, pick(["adm", "adm", "u1", "u2"], die(r, 10)), hf)).put(t.host, newTok(t.lp, "u2", 0))
        .put(holding("u1", t.lp), newTok(t.lp, "u1", h1)).put(holding("u2", t.lp), newTok(t.lp, "u2", h2)),
      mints: w.mints.put(t.lp, newMint(t.auth, supply)),
      pools: w.pools.put(s, { prog: "PROG", ver: 1, ini: 1, bump: 0, tp: "TOK", a: t.a, b: t.b, lp: t.lp, am: ma, bm: mb,
        fee: t.fee, fees: fs, ck: k, cp: p, len: LENGTH }) }
  }
  /// an impostor: sound in all respects but one
  pure def forge(w: World, r: int): World = {
    val q = pool(w, "X")
    val k = r % 8
    { ...w, pools: w.pools.put("X",
      if (k == 0 or k == 1) { ...q, prog: "FAKE" } else if (k == 2) { ...q, ver: 2 * ((r / 8) % 2) }
      else if (k == 3) { ...q, ini: 2 * ((r / 8) % 2) } else if (k == 4) { ...q, ck: 4 + (r / 8) % 25 }
      else if (k == 5) { ...q, len: 323 + 2 * ((r / 8) % 2) } else if (k == 6) { ...q, ver: 3 + (r / 8) % 250 }
      else { ...q, prog: "TOK" }) }
  }
  pure def blank(w: World): World = {
    val t = KITS.get("N")
    { toks: w.toks.put("aN", newTok("mA", t.auth, 1000)).put("bN", newTok("mB", t.auth, 1000000))
        .put("fN", newTok("lpN", "adm", 0)).put("hN", newTok("lpN", "u2", 0))
        .put("u1N", newTok("lpN", "u1", 0)).put("u2N", newTok("lpN", "u2", 0)),
      mints: w.mints.put("lpN", newMint(t.auth, 0)),
      pools: w.pools.put("N", { ...NOPOOL, prog: "PROG", tp: "SYS", a: "SYS", b: "SYS", lp: "SYS", am: "SYS", bm: "SYS", fee: "SYS", len: LENGTH }) }
  }
  pure def wealth(x: int): int = if (x % 4 == 0) mag(x / 4, 50) else 2^60 + mag(x / 4, 40)
  pure def newWorld(focus: str, r: int): World = {
    val w0: World = { toks: Map(), mints: Map(
      "mA" -> newMint("adm", 2^62), "mB" -> newMint("adm", 2^62), "mC" -> newMint("adm", 2^62)), pools: Map() }
    val flip = chance(die(r, 20), 30)
    val w1 = w0.addPool(focus, "P", "mA", "mB", r)
      .addPool(focus, "Q", if (flip) "mB" else "mA", if (flip) "mA" else "mB", r / 2^(64 * 21))
      .addPool(focus, "X", "mA", "mB", r / 2^(64 * 31)).forge(die(r, 42)).blank()
    { ...w1, toks: w1.toks
      .put("u1A", newTok("mA", "u1", wealth(die(r, 43)))).put("u1B", newTok("mB", "u1", wealth(die(r, 44))))
      .put("u2A", newTok("mA", "u2", wealth(die(r, 45)))).put("u2B", newTok("mB", "u2", wealth(die(r, 46))))
      .put("u1C", newTok("mC", "u1", 2^40)).put("u2C", newTok("mC", "u2", 2^40))
      .put("sA", newTok("mA", "pda:P", 2^60)).put("sB", newTok("mB", "pda:P", 2^60))
      .put("sP", newTok("lpP", "pda:P", w1.sup("lpP") / 8)).put("sL", newTok("lpP", "adm", w1.sup("lpP") / 16))
      .put("fkA", { ...newTok("mA", "u1", 2^60), prog: "FAKE" }).put("fkB", { ...newTok("mB", "pda:P", 2^60), prog: "FAKE" })
      .put("zz", { ...NOTOK, prog: "TOK" }) }
  }

  // ---- what happens between requests -----------------------------------------------------------
  pure def setTok(w: World, n: str, t: Tok): World = { ...w, toks: w.toks.put(n, t) }
  pure def donate(w: World, n: str, x: int): World =
    setTok(w, n, { ...tok(w, n), amt: lo(M64, amt(w, n) + x) })
  /// gifts, approvals, freezes
  pure def weather(w: World, focus: str, r: int): World = {
    val x = die(r, 0)
    val n = pick(TOKNAMES, die(r, 1))
    val t = tok(w, n)
    val gentle = focus == "P16"
    if (not(chance(x, 30))) w
    else if (gentle or x % 5 == 0) {
      val s = pick(["aP", "bP", "aQ", "bQ", "u1A", "u1B", "u2A", "u2B"], die(r, 1))
      donate(w, s, mag(die(r, 2), if (gentle) 34 else 60))
    }
    else if (t.st == 0 or t.prog != "TOK") w
    else if (x % 5 == 1) setTok(w, n, { ...t, st: if (x % 3 == 0 and t.st == 1) 2 else 1 })
    else if (x % 5 == 2) setTok(w, n, { ...t, cls: if (t.cls == "") "u2" else "" })
    else {
      // an approval, generous or tight
      val user = pick(["u1A", "u1B", "u1P", "u1Q", "u2A", "u2B", "u2P", "fP", "sL", "u1A", "u1B", "u1P"], die(r, 1))
      val d = pick(["del", "del", "u2", "u1", "pda:P", "pda:Q"], die(r, 2))
      setTok(w, user, { ...tok(w, user), dlg: d, dam: if (x % 3 == 0) M64 else mag(die(r, 3), 62) })
    }
  }

  // ---- requests ------------------------------------------------------------------------------------
  pure def call(op: str, mode: str, ac: List[str], ar: List[int]): Call =
    { op: op, mode: mode, ac: ac, sg: Set("u1", "u2", "adm", "del", "N"), ro: Set(), ar: ar,
      fees: [0, 0, 0, 0, 0, 0, 0, 0], ck: 0, cp: [0, 0, 0, 0], con: NOCON }

  /// the amount of the i-th operation of what c would do if it were carried out
  pure def wouldMove(w: World, c: Call, kind: str, i: int): int = {
    val q = pool(w, c.ac[0])
    val ops = if (readable(q)) terms(w, c, q).ops.select(o => o.kind == kind) else []
    if (i < ops.length()) ops[i].n else NONE
  }
  pure def atLeast(exact: int, x: int): int =
    if (exact < 0 or x % 8 < 3) 0 else lo(M64, if (x % 8 < 6) exact else if (x % 8 == 6) exact + 1 else hi(0, exact - 1))
  pure def atMost(exact: int, x: int): int =
    if (exact < 0 or exact > M64 or x % 8 < 3) M64 else if (x % 8 < 6) exact else if (x % 8 == 6) hi(0, exact - 1) else lo(M64, exact + 1)

  pure def swapAmount(w: World, q: Pool, have: int, rs: int, rd: int, aToB: bool, last: int, x: int, y: int): int = {
    val k = x % 16
    if (k == 0) mag(y, 64) else if (k == 1) [0, 1, 2, M64][y % 4]
    else if (k == 2) around(have, y) else if (k == 3) around(last, y)
    else if (k < 8) around(rs, y)
    else if (q.ck == LINEAR) {
      val b0 = linPosition(q.cp, dNew(amt(w, q.a)), true)
      if (aToB) {
        if (k < 12) around(hi(0, linSoldOut(q.cp, dNew(rs), b0, rd)), y)
        else { // what some tokens cost
          val d = mag(y, 40)
          val c = dSub(linIntegral(q.cp, dAdd(b0, dNew(d))), dNew(rs))
          around(hi(0, dInt(c)), y / 2^30) }
      } else around(hi(0, dInt(b0)), if (k < 12) y else 12 + 16 * (y / 16))
    }
    else if (q.ck == PRICE) {
      if (aToB) around(q.cp[0] * (1 + mag(y, 24)), y / 2^24) else around(if (rd == 0) 1 else hi(1, rd / q.cp[0]), y)
    }
    else if (k < 12) mag(y, 40) else around(hi(1, rs / 1000), y)
  }

  pure def makeSwap(w: World, s: str, mode: str, last: int, r: int): Call = {
    val t = KITS.get(s)
    val q = pool(w, s)
    val u = pick(USERS, die(r, 0))
    val buy = if (q.ck == LINEAR) chance(die(r, 1), 55) else chance(die(r, 1), 50)
    val rs = if (buy) t.a else t.b
    val rd = if (buy) t.b else t.a
    val src = holding(u, if (buy) q.am else q.bm)
    val dst = holding(if (chance(die(r, 2), 85)) u else "u1", if (buy) q.bm else q.am)
    val who = if (tok(w, src).dlg == "del" and chance(die(r, 3), 70)) "del" else u
    val x = swapAmount(w, q, amt(w, src), amt(w, rs), amt(w, rd), buy, last, die(r, 4), die(r, 5))
    val ac = [s, t.auth, who, src, rs, rd, dst, t.lp, t.fee, "TOK"]
    val c = call(SWAP, mode, if (mode == "direct" and chance(die(r, 6), 70)) ac.append(pick([t.host, t.host, t.host, t.fee, "hQ", "u1P", "u1A", "fkA"], die(r, 7))) else ac, [x, 0])
    { ...c, ar: [x, atLeast(wouldMove(w, c, "transfer", 1), die(r, 8))] }
  }
  pure def poolTokens(w: World, have: int, total: int, last: int, x: int, y: int): int = {
    val k = x % 12
    if (k == 0) mag(y, 64) else if (k == 1) [0, 1, 2, M64][y % 4] else if (k == 2) around(total, y)
    else if (k == 3) around(last, y) else if (k < 8) around(have, y) else around(hi(1, total / 1000), y)
  }
  pure def makeDeposit(w: World, s: str, last: int, r: int): Call = {
    val t = KITS.get(s)
    val q = pool(w, s)
    val u = pick(USERS, die(r, 0))
    val pt = poolTokens(w, amt(w, holding(u, t.lp)), sup(w, t.lp), last, die(r, 4), die(r, 5))
    val who = if (tok(w, holding(u, q.am)).dlg == "del" and tok(w, holding(u, q.bm)).dlg == "del") "del" else u
    val c = call(DEPOSIT, "entry", [s, t.auth, who, holding(u, q.am), holding(u, q.bm), t.a, t.b, t.lp, holding(u, t.lp), "TOK"], [pt, M64, M64])
    { ...c, ar: [pt, atMost(wouldMove(w, c, "transfer", 0), die(r, 6)), atMost(wouldMove(w, c, "transfer", 1), die(r, 7))] }
  }
  pure def lpSource(w: World, t: Kit, u: str, x: int): str =
    if (chance(x, 15)) t.fee else if (t.s == "P" and chance(x / 101, 10)) "sL" else holding(u, t.lp)
  pure def makeWithdraw(w: World, s: str, last: int, r: int): Call = {
    val t = KITS.get(s)
    val q = pool(w, s)
    val u = pick(USERS, die(r, 0))
    val src = lpSource(w, t, u, die(r, 1))
    val pt = poolTokens(w, amt(w, src), sup(w, t.lp), last, die(r, 4), die(r, 5))
    val who = if (tok(w, src).dlg == "del" and chance(die(r, 3), 70)) "del" else tok(w, src).own
    val c = call(WITHDRAW, "entry", [s, t.auth, who, t.lp, src, t.a, t.b, holding(u, q.am), holding(u, q.bm), t.fee, "TOK"], [pt, 0, 0])
    val r2 = withdrawPair(w, c, q)
    { ...c, ar: [pt, atLeast(lo(M64, r2.a), die(r, 6)), atLeast(lo(M64, r2.b), die(r, 7))] }
  }
  pure def makeDeposit1(w: World, s: str, last: int, r: int): Call = {
    val t = KITS.get(s)
    val q = pool(w, s)
    val u = pick(USERS, die(r, 0))
    val inA = chance(die(r, 1), 50)
    val src = holding(u, if (inA) q.am else q.bm)
    val x = swapAmount(w, { ...q, ck: PRODUCT }, amt(w, src), amt(w, if (inA) t.a else t.b), 1, true, last, die(r, 4), die(r, 5))
    val who = if (tok(w, src).dlg == "del" and chance(die(r, 3), 70)) "del" else u
    val c = call(DEPOSIT1, "entry", [s, t.auth, who, src, t.a, t.b, t.lp, holding(u, t.lp), "TOK"], [x, 0])
    { ...c, ar: [x, atLeast(wouldMove(w, c, "mint", 0), die(r, 6))] }
  }
  pure def makeWithdraw1(w: World, s: str, last: int, r: int): Call = {
    val t = KITS.get(s)
    val q = pool(w, s)
    val u = pick(USERS, die(r, 0))
    val fromA = chance(die(r, 1), 50)
    val src = lpSource(w, t, u, die(r, 2))
    val res = amt(w, if (fromA) t.a else t.b)
    val s1 = hi(1, sup(w, t.lp))
    // usually an amount the source's pool tokens can pay for
    val fair = (res * lo(amt(w, src), s1)) / s1
    val x = if (die(r, 4) % 8 == 0) swapAmount(w, { ...q, ck: PRODUCT }, 1, res, 1, true, last, die(r, 4) / 8, die(r, 5))
            else if (die(r, 4) % 8 < 3) mag(die(r, 5), 40)
            else around(if (die(r, 4) % 8 < 5) fair else fair / 1000, die(r, 5))
    val who = if (tok(w, src).dlg == "del" and chance(die(r, 3), 70)) "del" else tok(w, src).own
    val c = call(WITHDRAW1, "entry", [s, t.auth, who, t.lp, src, t.a, t.b, holding(u, if (fromA) q.am else q.bm), t.fee, "TOK"], [x, M64])
    val f = wouldMove(w, c, "burn", 0)
    val e = if (f < 0) f else f + exitFee(q, src, t.fee, f)
    { ...c, ar: [x, atMost(e, die(r, 6))] }
  }

  // ---- creation --------------------------------------------------------------------------------------
  /// fee fractions near the edge of what is admissible
  pure def edgeFraction(x: int): List[int] = {
    val k = x % 12
    val d = 1 + mag(x / 16, 20)
    if (k == 0) [0, 0] else if (k == 1) [d, d] else if (k == 2) [d + 1, d] else if (k == 3) [d, 0]
    else if (k == 4) [d - 1, d] else if (k == 5) [M64, M64] else if (k == 6) [M64 - 1, M64] else if (k == 7) [0, d]
    else [(x / 2^40) % d, d]
  }
  pure def replaced(l: List[int], i: int, x: int): List[int] =
    range(0, l.length()).foldl([], (acc, j) => acc.append(if (j == i) x else l[j]))
  pure def putAt(l: List[str], i: int, x: str): List[str] =
    range(0, l.length()).foldl([], (acc, j) => acc.append(if (j == i) x else l[j]))
  pure def initFees(focus: str, x: int, y: int): List[int] =
    if (focus == "P26" or chance(x, 20)) {
      // valid but for, perhaps, one fraction
      val f = edgeFraction(y)
      val i = 2 * ((x / 2^10) % 4)
      replaced(replaced(someFees("P18", PRICE, x / 3, y / 3), i, f[0]), i + 1, f[1])
    } else someFees(focus, PRICE, x / 3, y / 3)
  pure def initParams(k: int, x: int, y: int): List[int] = {
    val p = someParams(k, x, y)
    if (not(chance(x / 11, 20))) p
    else if (k == LINEAR)
      if (chance(y / 7, 60)) replaced(p, (x / 2^20) % 4, 0)
      else [1 + mag(x, 4), 10^18 / (1 + (y % 9)) + (y / 2^10) % 3 - 1, p[2], p[3]]
    else if (k == PRODUCT) p
    else [[0, 1, M64][x % 3], 0, 0, 0]
  }
  /// sets the stage for a creation, with at most a few flaws
  pure def prepare(w0: World, focus: str, k: int, r: int): World = {
    val w = blank(w0)
    val t = KITS.get("N")
    val f = if (chance(die(r, 0), if (focus == "P04") 75 else 30)) die(r, 1) % 26 else 99
    val v = someReserves(k, someParams(k, die(r, 4), die(r, 5)), die(r, 2), die(r, 3))
    val clean = setTok(setTok(w, "aN", { ...tok(w, "aN"), amt: if (k == LINEAR) 0 else hi(1, v.a) }), "bN", { ...tok(w, "bN"), amt: hi(1, v.b) })
    val a = tok(clean, "aN")
    val b = tok(clean, "bN")
    val m = mint(clean, "lpN")
    val n = pool(clean, "N")
    if (f == 0) setTok(clean, "aN", { ...a, dlg: "del", dam: die(r, 2) % 2 }) else if (f == 1) setTok(clean, "bN", { ...b, dlg: "u1", dam: 5 })
    else if (f == 2) setTok(clean, "aN", { ...a, cls: "u1" }) else if (f == 3) setTok(clean, "bN", { ...b, cls: "u2" })
    else if (f == 4) setTok(clean, "aN", { ...a, own: "u1" }) else if (f == 5) setTok(clean, "bN", { ...b, own: "pda:P" })
    else if (f == 6) setTok(clean, "aN", { ...a, amt: 0 }) else if (f == 7) setTok(clean, "bN", { ...b, amt: 0 })
    else if (f == 8) setTok(clean, "aN", { ...a, amt: 1 + mag(die(r, 2), 40) }) else if (f == 9) setTok(clean, "bN", { ...b, mint: "mA" })
    else if (f == 10) { ...clean, mints: clean.mints.put("lpN", { ...m, sup: 1 + mag(die(r, 2), 30) }) }
    else if (f == 11) { ...clean, mints: clean.mints.put("lpN", { ...m, frz: pick(["adm", "pda:N"], die(r, 2)) }) }
    else if (f == 12) { ...clean, mints: clean.mints.put("lpN", { ...m, auth: pick(["adm", "", "pda:P"], die(r, 2)) }) }
    else if (f == 13) setTok(clean, "fN", { ...tok(clean, "fN"), own: "pda:N" }) else if (f == 14) setTok(clean, "u1N", { ...tok(clean, "u1N"), own: "pda:N" })
    else if (f == 15) setTok(clean, "fN", { ...tok(clean, "fN"), mint: "lpP" }) else if (f == 16) setTok(clean, "u1N", { ...tok(clean, "u1N"), mint: "lpP" })
    else if (f == 17) { ...clean, pools: clean.pools.put("N", { ...n, prog: pick(["FAKE", "TOK", "SYS"], die(r, 2)) }) }
    else if (f == 18) { ...clean, pools: clean.pools.put("N", { ...n, len: [323, 325, 400, 200][die(r, 2) % 4] }) }
    else if (f == 19) { ...clean, pools: clean.pools.put("N", { ...pool(w, "Q"), bump: 0 }) }
    else if (f == 20) setTok(clean, "u1N", { ...tok(clean, "u1N"), st: 2 }) else if (f == 21) setTok(clean, "aN", { ...a, st: 0 })
    else if (f == 22) setTok(clean, "fN", { ...tok(clean, "fN"), st: 0 }) else if (f == 23) setTok(clean, "bN", { ...b, prog: "FAKE" })
    else if (f == 24) { ...clean, mints: clean.mints.put("lpN", { ...m, prog: "FAKE" }) }
    else if (f == 25) { ...clean, pools: clean.pools.put("N", { ...pool(w, "Q"), ver: [0, 2, 255][die(r, 2) % 3] }) }
    else clean
  }
  pure def someCon(focus: str, k: int, fs: List[int], x: int, y: int): Con =
    if (focus != "P25" or chance(x, 15)) NOCON
    else {
      val i = (x / 2^8) % 8
      val bump1 = (y / 2^4) % 5
      val near = if (bump1 == 0) replaced(fs, i, lo(M64, fs[i] + 1)) else if (bump1 == 1) replaced(fs, i, hi(0, fs[i] - 1)) else fs
      val kinds = [[k], [k, PRICE], [PRODUCT, k], [PRODUCT, PRICE], [STABLE, OFFSET], [LINEAR], [], [k]][(x / 2^20) % 8]
      { on: true, owner: pick(["adm", "adm", "adm", "adm", "u1"], y), kinds: kinds, fees: near }
    }
  pure def makeInit(focus: str, k: int, mode: str, r: int): Call = {
    val t = KITS.get("N")
    val ac = [t.s, t.auth, t.a, t.b, t.lp, t.fee, "u1N", "TOK"]
    val fs = initFees(focus, die(r, 0), die(r, 1))
    val p = initParams(k, die(r, 2), die(r, 3))
    if (mode == "direct") { ...call(INIT, "direct", ac, []), fees: fs, ck: k, cp: p, con: someCon(focus, k, fs, die(r, 4), die(r, 5)) }
    else if (k == LINEAR) call(INITLINEAR, "entry", ac, p)
    else call(INITPRICE, "entry", ac, fs.append(p[0]))
  }

  // ---- tampering -------------------------------------------------------------------------------------
  // accounts that could pass for the one at a position
  pure def lookalikes(n: str): List[str] =
    if (n.in(Set("P", "Q", "N", "X"))) ["Q", "X", "N", "P", "aP", "u1", "lpP"]
    else if (n.in(Set("pda:P", "pda:Q", "pda:N", "pda:X"))) ["pda:Q", "pda:P", "pda:X", "u1", "adm"]
    else if (n.in(Set("aP", "aQ", "aX", "aN"))) ["sA", "aQ", "u1A", "u2A", "bP", "fkA", "aP", "bQ", "aX", "zz", "sA"]
    else if (n.in(Set("bP", "bQ", "bX", "bN"))) ["sB", "bQ", "u1B", "u2B", "aP", "fkB", "bP", "aQ", "bX", "sB"]
    else if (n.in(Set("lpP", "lpQ", "lpN", "lpX"))) ["lpQ", "lpP", "lpX", "mA", "mB", "u1P"]
    else if (n.in(Set("fP", "fQ", "fN", "fX"))) ["sL", "u1P", "u2P", "sP", "fQ", "hP", "fP", "u1A", "hP"]
    else if (n.in(Set("u1P", "u2P", "u1Q", "u2Q", "u1X", "u2X"))) ["fP", "sP", "u2P", "u1P", "hP", "sL", "u1Q", "fQ"]
    else if (n.in(Set("u1A", "u2A"))) ["u2A", "u1A", "aP", "aQ", "sA", "bP", "u1B", "fkA", "sA"]
    else if (n.in(Set("u1B", "u2B"))) ["u2B", "u1B", "bP", "bQ", "sB", "aP", "u1A", "sB"]
    else if (n.in(Set("u1", "u2", "adm", "del"))) ["u2", "u1", "del", "adm", "pda:P", "pda:Q", "P"]
    else if (n == "TOK") ["FAKE", "SYS", "PROG", "TOK"]
    else ANYNAMES
  pure def swapAt(l: List[str], i: int, j: int): List[str] = putAt(putAt(l, i, l[j]), j, l[i])
  /// writing everything a request does under the accounts of another pool but for some
  pure def tamper(c: Call, focus: str, r: int): Call = {
    val x = die(r, 0)
    val n = c.ac.length()
    val i = (x / 2^16) % n
    val j = (x / 2^24) % n
    val k = (x / 2^32) % 20
    val one = { ...c, ac: putAt(c.ac, i, pick(lookalikes(c.ac[i]), die(r, 1))) }
    if (focus == "P27" and k < 12) {
      val kk = k % 6
      if (kk == 0) { ...c, sg: Set("adm") }
      else if (kk == 1) { ...c, ro: Set(c.ac[i]) }
      else if (kk == 2) { ...c, ac: c.ac.slice(0, hi(0, n - 1 - (x % 3))) }
      else if (kk == 3) { ...c, ar: c.ar.slice(0, hi(0, c.ar.length() - 1)) }
      else if (kk == 4) { ...c, op: pick(["deposit", "Swap", "initialize", "withdraw_all", "process_swap", "initialize_offset"], x) }
      else { ...c, ac: c.ac.append(pick(ANYNAMES, x)), ar: c.ar.append(die(r, 1)) }
    }
    else if (focus == "P01" and k < 8)
      if (k < 3) { ...c, sg: Set("adm") }
      else if (k < 5 and n > 2) { ...c, sg: Set("u1", "adm"), ac: putAt(c.ac, 2, pick(["u2", "u1", "del", "pda:P", "adm"], die(r, 1))) }
      else if (n > 3) { ...c, ac: putAt(putAt(c.ac, 2, pick(["pda:P", "pda:Q", "u2", "u1"], die(r, 1))), 3, pick(["sA", "sB", "u2A", "u2B", "aQ", "bQ"], die(r, 2))) }
      else one
    else if (k < 9) one
    else if (k < 11) { ...one, ac: putAt(one.ac, j, pick(lookalikes(one.ac[j]), die(r, 2))) }
    else if (k < 14) { ...c, ac: putAt(c.ac, i, c.ac[j]) }
    else if (k < 16) { ...c, ac: swapAt(c.ac, i, j) }
    else if (k == 16) { ...c, ac: putAt(c.ac, i, pick(ANYNAMES, die(r, 1))) }
    else if (k == 17) { ...c, sg: Set("u2") }
    else if (k == 18) { ...c, ro: Set(c.ac[i]) }
    else { ...c, ac: putAt(c.ac, i, pick(ANYNAMES, die(r, 1))) }
  }
  pure def tamperRate(focus: str): int =
    if (focus.in(Set("P01", "P02", "P03", "P27"))) 75
    else if (focus.in(Set("P06", "P08", "P23", "P28", "P04", "P22"))) 30
    else if (focus.in(Set("P12", "P13", "P14", "P15", "P16", "P09", "P10", "P11"))) 4
    else 12

  // ---- the next request ----------------------------------------------------------------------------
  pure def opsFor(focus: str): List[str] =
    if (focus.in(Set("P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16"))) [SWAP]
    else if (focus == "P18") [SWAP, SWAP, SWAP, SWAP, SWAP, DEPOSIT]
    else if (focus == "P17") [DEPOSIT, WITHDRAW, DEPOSIT1, WITHDRAW1, INIT, DEPOSIT, DEPOSIT1, SWAP]
    else if (focus == "P19") [WITHDRAW, WITHDRAW1]
    else if (focus == "P20") [DEPOSIT, WITHDRAW, DEPOSIT, WITHDRAW, SWAP]
    else if (focus == "P21") [DEPOSIT1, WITHDRAW1]
    else if (focus.in(Set("P04", "P05", "P25", "P26"))) [INIT, INIT, INIT, INIT, SWAP, WITHDRAW, DEPOSIT]
    else if (focus == "P06") [INIT, SWAP, SWAP, DEPOSIT, WITHDRAW, DEPOSIT1, WITHDRAW1]
    else [SWAP, SWAP, SWAP, DEPOSIT, WITHDRAW, DEPOSIT1, WITHDRAW1, DEPOSIT1, WITHDRAW1, INIT]
  pure def statesFor(focus: str, w: World): List[str] = {
    val live = if (readable(pool(w, "N"))) ["P", "P", "N"] else ["P", "P"]
    if (focus == "P06") ["P", "X", "X", "Q"].concat(live)
    else if (focus == "P02") ["P", "P", "P", "X", "Q"]
    else if (focus == "P28") ["P", "Q"]
    else live.concat(["P", "P", "Q", "X"])
  }
  type Plan = { w: World, c: Call }
  pure def plan(w0: World, focus: str, direct: bool, last: int, r: int): Plan = {
    val w1 = weather(w0, focus, r / 2^(64 * 40))
    val op = pick(opsFor(focus), die(r, 30))
    val mode = if (direct and chance(die(r, 31), if (op == INIT) 65 else if (focus == "P18") 70 else 15)) "direct" else "entry"
    val s = pick(statesFor(focus, w1), die(r, 32))
    val ik = if (mode == "direct") choose([PRODUCT, PRICE, STABLE, OFFSET, LINEAR], die(r, 33)) else choose([PRICE, LINEAR], die(r, 33))
    val w = if (op == INIT) prepare(w1, focus, ik, r / 2^(64 * 50)) else w1
    val c = if (op == SWAP) makeSwap(w, s, mode, last, r) else if (op == DEPOSIT) makeDeposit(w, s, last, r)
      else if (op == WITHDRAW) makeWithdraw(w, s, last, r) else if (op == DEPOSIT1) makeDeposit1(w, s, last, r)
      else if (op == WITHDRAW1) makeWithdraw1(w, s, last, r) else makeInit(focus, ik, mode, r)
    val t = if (chance(die(r, 34), tamperRate(focus)) and (mode == "entry" or c.op == INIT)) tamper(c, if (mode == "direct") "" else focus, r / 2^(64 * 35)) else c
    // an address derived from a pool cannot sign
    { w: w, c: { ...t, ro: if (mode == "direct") Set() else t.ro, sg: t.sg.filter(n => not(n.in(Set("pda:P", "pda:Q", "pda:N", "pda:X")))) } }
  }

  // ---- every account in every place ---------------------------------------------------------------
  /// a request of the i-th kind on pool P that would be carried out, if one is found
  pure def roleCall(w: World, i: int, r: int): Call =
    if (i == 0 or i == 1) makeSwap(w, "P", "entry", 0, r) else if (i == 2) makeDeposit(w, "P", 0, r)
    else if (i == 3) makeWithdraw(w, "P", 0, r) else if (i == 4 or i == 5) makeDeposit1(w, "P", 0, r)
    else if (i == 6 or i == 7) makeWithdraw1(w, "P", 0, r) else makeInit("P02", if (i == 8) PRICE else LINEAR, "entry", r)
  pure def everyone: Set[str] = Set("u1", "u2", "adm", "del", "N")
  /// the places of a request from which its authority spends
  pure def sourcePlaces(op: str): Set[int] =
    if (op == DEPOSIT) Set(3, 4) else if (op == WITHDRAW or op == WITHDRAW1) Set(4) else if (isInit(op)) Set() else Set(3)
  pure val SPENDERS = ["pda:P", "pda:Q", "pda:X", "u1", "u2", "adm", "del", "P", "N"]
  pure def signersAs(x: int): Set[str] = [everyone, everyone, Set(), Set("u1"), Set("u2", "adm"), Set("del"), Set("N")][x % 7]
  /// the number of variations of a request: one account replaced; the authority and all it
  /// spends from replaced; two places exchanged; other signers; an account read-only
  pure def variations(c: Call): int = {
    val n = c.ac.length()
    val m = ANYNAMES.length()
    n * m + (if (isInit(c.op)) 0 else 9 * m * 2) + n * n + 7 + n
  }
  pure def variation(c: Call, k: int): Call = {
    val n = c.ac.length()
    val m = ANYNAMES.length()
    val k2 = k - n * m
    val k3 = if (isInit(c.op)) k2 else k2 - 9 * m * 2
    val k4 = k3 - n * n
    if (k2 < 0) { ...c, ac: putAt(c.ac, k % n, ANYNAMES[k / n]) }
    else if (k3 < 0) {
      val a = SPENDERS[(k2 / 2) % 9]
      val src = ANYNAMES[k2 / 18]
      // (of two sources only the one of the same token, if any, is replaced)
      val i = sourcePlaces(c.op).fold(0, (s, j) => if (s == 0 or src.in(Set("sB", "bP", "bQ", "bX", "bN", "u1B", "u2B", "fkB"))) hi(s, j) else lo(s, j))
      val s2 = if (c.op == DEPOSIT and src == "sA") putAt(c.ac, 4, "sB") else c.ac
      { ...c, ac: putAt(putAt(s2, i, src), 2, a), sg: if (k2 % 2 == 0) c.sg else Set() }
    }
    else if (k4 < 0) { ...c, ac: swapAt(c.ac, k3 / n, k3 % n) }
    else if (k4 < 7) { ...c, sg: signersAs(k4) }
    else { ...c, ro: Set(c.ac[k4 - 7]) }
  }

  // ---- computations on numbers (P24) ----------------------------------------------------------------
  pure val NUMFUNS = ["new", "to_imprecise", "floor", "ceiling", "add", "sub", "mul", "div", "usub", "sqrt_up", "sqrt_down",
    "to_spl", "almost", "lt", "gt", "le", "ge", "mul", "div", "sqrt_up", "sqrt_down", "sqrt_up", "sqrt_down", "mul", "div"]
  pure def wide(r: int): int = r % 2^256
  pure def clamp(x: int): int = hi(0, lo(M256, x))
  /// a raw value of any magnitude, often one where rounding or width matters
  pure def rawNumber(r: int): int = {
    val k = die(r, 0) % 16
    val x = die(r, 1)
    val big = wide(r / 2^128) % 2^(1 + die(r, 7) % 256)
    val d = (x / 16) % 5 - 2
    if (k < 4) big
    else if (k == 4) mag(x, 64)
    else if (k == 5) clamp((big % 2^196) * ONE + d)
    else if (k == 6) clamp((big % 2^196) * ONE + ONE / 2 + d)
    else if (k == 7) clamp(2^(x % 257) + d)
    else if (k == 8) clamp((2^64 - 1) * 2^(x % 193) + (if (x % 3 == 0) d else mag(die(r, 2), 1 + x % 193)))
    else if (k == 9) clamp((2^64 - 1 - mag(x, 5)) * 2^(2 * (die(r, 2) % 96)) + d)
    else if (k == 10) { val s = big % 2^128 clamp(s * s + d) }
    else if (k == 11) { val s = mag(x, 34) clamp(s * s * 4^(die(r, 2) % 94) + d) }
    else if (k == 12) clamp(M256 - mag(x, 1 + x % 80))
    else if (k == 13) clamp((M128 + 1) * ONE - ONE / 2 + d)
    else if (k == 14) clamp(mag(x, 64) * ONE)
    else (x / 16) % 4
  }
  pure def someNumber(r: int): { f: str, x: int, y: int, z: int } = {
    val f = pick(NUMFUNS, die(r, 40))
    val x0 = rawNumber(r)
    val k = die(r, 41) % 8
    val d = die(r, 42) % 5 - 2
    val x = if (f == "new") x0 % (M128 + 1) else x0
    val y = if (k < 3) rawNumber(r / 2^(64 * 20))
      else if (f == "mul") clamp((if (k < 5) M256 else if (k == 5) M256 - ONE / 2 else (mag(die(r, 43), 60) * 2 + 1) * (ONE / 2)) / hi(1, x) + d)
      else if (f == "div" and k < 6) mag(die(r, 43), 1 + die(r, 44) % 64) * (if (k < 5) 1 else ONE) + 1
      else if (k == 3) clamp(M256 - x + d) else clamp(x + d)
    val x2 = if (f == "div" and k == 7) clamp(M256 / ONE + d) else x
    { f: f, x: x2, y: y, z: if (die(r, 45) % 2 == 0) clamp(absDiff(x, y) + d) else rawNumber(r / 2^(64 * 30)) }
  }
}
