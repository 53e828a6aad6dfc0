// -*- mode: Bluespec; -*-
// Closed models on a tiny machine, explored exhaustively: every request the
// specification lets through is judged by the listed properties.
module mc {
  import scale.* from "./scale"
  import num(NS=NANO).* from "./num"
  import curves(CS=NANO).* from "./curves"
  import ledger(LS=NANO).* from "./ledger"
  import pool(PS=NANO).* from "./pool"
  import props(JS=NANO).* from "./props"

  var w: World
  var flags: Set[Flag]
  var left: int

  pure val NOTHING: Call = { op: "", mode: "", ac: [], sg: Set(), ro: Set(), ar: [], fees: [], ck: 0, cp: [], con: NOCON }
  pure def open(m: str, o: str, n: int): Tok =
    { mint: m, own: o, amt: n, dlg: "", dam: 0, cls: "", st: 1, prog: "TOK" }
  pure def newMint(auth: str, s: int): Mint = { auth: auth, sup: s, frz: "", st: 1, prog: "TOK" }
  /// what the specification does, as if observed
  pure def carriedOut(v: World, out: Outcome): Obs =
    { ok: out.bad.length() == 0, code: 0, alien: false, next: out.next }
  pure def judged(v: World, c: Call, out: Outcome): Set[Flag] =
    if (out.bad.length() > 0) Set()
    else judgeOutcome(v, c, out, carriedOut(v, out)).filter(f => f.why != "KNOWN drain-rounding")

  // ---- trade: one pool, one user, all amounts ------------------------------------------
  pure def tradeWorld(k: int, p: int, fs: List[int], a: int, b: int, s: int): World = {
    toks: Map("aP" -> open("mA", "pda:P", a), "bP" -> open("mB", "pda:P", b), "fP" -> open("lpP", "adm", 0),
      "uA" -> open("mA", "u", 6), "uB" -> open("mB", "u", 6), "uP" -> open("lpP", "u", s)),
    mints: Map("mA" -> newMint("adm", a + 6), "mB" -> newMint("adm", b + 6), "lpP" -> newMint("pda:P", s)),
    pools: Map("P" -> { prog: "PROG", ver: 1, ini: 1, bump: 0, tp: "TOK", a: "aP", b: "bP", lp: "lpP", am: "mA", bm: "mB",
      fee: "fP", fees: fs, ck: k, cp: [p, 0, 0, 0], len: LENGTH }) }
  pure val KINDSETUPS = Set((PRODUCT, 0), (PRICE, 1), (PRICE, 2), (PRICE, 3), (OFFSET, 2), (STABLE, 1), (STABLE, 3))
  pure val FEESETUPS = Set([0, 0, 0, 0, 0, 0, 0, 0], [1, 4, 1, 8, 1, 4, 0, 1])
  action initTrade = {
    nondet k = oneOf(Set((PRODUCT, 0), (PRICE, 2), (OFFSET, 2), (STABLE, 1)))
    nondet fs = oneOf(FEESETUPS)
    nondet a = oneOf(Set(4, 5))
    nondet s = oneOf(Set(0, 4))
    all { w' = tradeWorld(k._1, k._2, fs, a, 4, s), flags' = Set(), left' = 2 }
  }
  // one curve at a time, more reserves
  action initCurve(kinds: Set[(int, int)]): bool = {
    nondet k = oneOf(kinds)
    nondet fs = oneOf(FEESETUPS)
    nondet a = oneOf(Set(1, 4, 5, 9))
    nondet b = oneOf(Set(2, 3, 4, 7))
    nondet s = oneOf(Set(0, 4, 6))
    all { w' = tradeWorld(k._1, k._2, fs, a, b, s), flags' = Set(), left' = 1 }
  }
  action initPrice = initCurve(Set((PRICE, 1), (PRICE, 2), (PRICE, 3)))
  action initProduct = initCurve(Set((PRODUCT, 0), (OFFSET, 1), (OFFSET, 2), (OFFSET, 5)))
  action initStable = initCurve(Set((STABLE, 1), (STABLE, 2), (STABLE, 3)))
  action initDeep = {
    nondet k = oneOf(KINDSETUPS)
    nondet fs = oneOf(FEESETUPS)
    nondet a = oneOf(Set(1, 4, 5))
    nondet b = oneOf(Set(2, 4))
    nondet s = oneOf(Set(0, 4, 6))
    all { w' = tradeWorld(k._1, k._2, fs, a, b, s), flags' = Set(), left' = 3 }
  }
  pure def ask(op: str, ac: List[str], ar: List[int]): Call = { ...NOTHING, op: op, mode: "entry", ac: ac, sg: Set("u"), ar: ar }
  pure val AMOUNTS = 0.to(7)
  pure val TRADES: Set[Call] = AMOUNTS.map(x => Set(
    ask(SWAP, ["P", "pda:P", "u", "uA", "aP", "bP", "uB", "lpP", "fP", "TOK"], [x, 0]),
    ask(SWAP, ["P", "pda:P", "u", "uB", "bP", "aP", "uA", "lpP", "fP", "TOK"], [x, 2]),
    ask(DEPOSIT, ["P", "pda:P", "u", "uA", "uB", "aP", "bP", "lpP", "uP", "TOK"], [x, 5, 6]),
    ask(WITHDRAW, ["P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "uB", "fP", "TOK"], [x, 0, 1]),
    ask(DEPOSIT1, ["P", "pda:P", "u", "uA", "aP", "bP", "lpP", "uP", "TOK"], [x, 0]),
    ask(DEPOSIT1, ["P", "pda:P", "u", "uB", "aP", "bP", "lpP", "uP", "TOK"], [x, 1]),
    ask(WITHDRAW1, ["P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "fP", "TOK"], [x, 4]),
    ask(WITHDRAW1, ["P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uB", "fP", "TOK"], [x, 6]))).flatten()
  action stepTrade = {
    nondet c = oneOf(TRADES)
    val out = request(w, c)
    all { left > 0, out.bad.length() == 0, w' = out.next, flags' = judged(w, c, out), left' = left - 1 }
  }
  action nothing = all { w' = w, flags' = flags, left' = left }
  val sound = flags == Set()

  // ---- roles: two pools, everyone's accounts, any account in any place --------------------
  pure def rolesWorld(k: int, fs: List[int]): World = {
    val base = tradeWorld(k, 2, fs, 8, 4, 6)
    { toks: base.toks
        .put("uP", open("lpP", "u", 3)).put("fP", open("lpP", "adm", 1)).put("sP", open("lpP", "pda:P", 2))
        .put("vA", { ...open("mA", "v", 5), dlg: "d", dam: 3 }).put("sA", open("mA", "pda:P", 5))
        .put("aQ", open("mA", "pda:Q", 6)).put("bQ", open("mB", "pda:Q", 6))
        .put("fQ", open("lpQ", "adm", 0)).put("uQ", open("lpQ", "u", 6)).put("fk", { ...open("mA", "u", 5), prog: "FAKE" })
        .put("zz", { ...open("mB", "u", 4), st: 2 }),
      mints: base.mints.put("mA", newMint("adm", 35)).put("lpQ", newMint("pda:Q", 6)),
      pools: base.pools
        .put("Q", { ...base.pools.get("P"), a: "aQ", b: "bQ", lp: "lpQ", fee: "fQ" })
        .put("F", { ...base.pools.get("P"), prog: "FAKE" })
        .put("V", { ...base.pools.get("P"), ver: 2 }).put("L", { ...base.pools.get("P"), len: 323 }) }
  }
  pure val NAMES = Set("P", "Q", "F", "V", "L", "pda:P", "pda:Q", "u", "v", "d", "uA", "uB", "uP", "uQ", "vA", "sA", "sP", "aP", "bP", "aQ",
    "bQ", "fP", "fQ", "fk", "zz", "lpP", "lpQ", "mA", "TOK", "FAKE")
  pure val BASES: Set[Call] = Set(
    ask(SWAP, ["P", "pda:P", "u", "uA", "aP", "bP", "uB", "lpP", "fP", "TOK"], [4, 1]),
    ask(SWAP, ["P", "pda:P", "u", "uB", "bP", "aP", "uA", "lpP", "fP", "TOK"], [2, 1]),
    ask(SWAP, ["P", "pda:P", "d", "vA", "aP", "bP", "uB", "lpP", "fP", "TOK"], [3, 1]),
    ask(SWAP, ["P", "pda:P", "d", "vA", "aP", "bP", "uB", "lpP", "fP", "TOK"], [4, 1]),
    ask(DEPOSIT, ["P", "pda:P", "u", "uA", "uB", "aP", "bP", "lpP", "uP", "TOK"], [3, 5, 6]),
    ask(WITHDRAW, ["P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "uB", "fP", "TOK"], [3, 1, 0]),
    ask(DEPOSIT1, ["P", "pda:P", "u", "uA", "aP", "bP", "lpP", "uP", "TOK"], [4, 1]),
    ask(WITHDRAW1, ["P", "pda:P", "u", "lpP", "uP", "aP", "bP", "uA", "fP", "TOK"], [1, 3]))
  pure def placed(c: Call, i: int, n: str): Call =
    { ...c, ac: range(0, c.ac.length()).foldl([], (l, j) => l.append(if (j == i) n else c.ac[j])) }
  pure val SIGNERS = Set(Set("u"), Set("u", "v", "d"), Set("v"), Set("d"), Set())
  action initRoles = {
    nondet k = oneOf(Set(PRODUCT, PRICE))
    nondet fs = oneOf(FEESETUPS)
    all { w' = rolesWorld(k, fs), flags' = Set(), left' = 2 }
  }
  action initRolesOnce = {
    nondet k = oneOf(Set(PRODUCT, PRICE, OFFSET, STABLE))
    nondet fs = oneOf(FEESETUPS)
    all { w' = rolesWorld(k, fs), flags' = Set(), left' = 1 }
  }
  action ordered(c: Call): bool = {
    val out = request(w, c)
    all { out.bad.length() == 0, w' = out.next, flags' = judged(w, c, out), left' = left - 1 }
  }
  /// any one account replaced, any signers, any account read-only
  action stepRoles = {
    nondet c = oneOf(BASES)
    nondet i = oneOf(0.to(10))
    nondet n = oneOf(NAMES)
    nondet sg = oneOf(SIGNERS)
    all { left > 0, i < c.ac.length(), ordered({ ...placed(c, i, n), sg: sg }) }
  }
  /// any two
  action stepRoles2 = {
    nondet c = oneOf(BASES)
    nondet i = oneOf(0.to(9))
    nondet n = oneOf(NAMES)
    nondet j = oneOf(1.to(10))
    nondet m = oneOf(NAMES)
    all { left > 1, i < j, j < c.ac.length(), ordered({ ...placed(placed(c, i, n), j, m), sg: Set("u", "v", "d") }) }
  }
  /// in every state: nobody but the pools' own reserves holds less than was given away
  /// with authority, and what the pools recorded is as it was
  val recorded = w.pools.keys().forall(n => w.pools.get(n).lp.in(w.mints.keys()) or not(readable(w.pools.get(n))))

  // ---- creation: every combination of two flaws ---------------------------------------------
  pure val LINEARP = [1, 1, 0, 1]
  pure def stage(k: int): World = {
    toks: Map("aN" -> open("mA", "pda:N", if (k == LINEAR) 0 else 4), "bN" -> open("mB", "pda:N", 6), "fN" -> open("lpN", "adm", 0),
      "uN" -> open("lpN", "u", 0), "uA" -> open("mA", "u", 8), "uB" -> open("mB", "u", 8), "uC" -> open("mC", "u", 8)),
    mints: Map("mA" -> newMint("adm", if (k == LINEAR) 8 else 12), "mB" -> newMint("adm", 14), "mC" -> newMint("adm", 8), "lpN" -> newMint("pda:N", 0)),
    pools: Map("N" -> { ...NOPOOL, prog: "PROG", tp: "SYS", a: "SYS", b: "SYS", lp: "SYS", am: "SYS", bm: "SYS", fee: "SYS", len: LENGTH }) }
  pure def flawed(v: World, f: int): World = {
    def t(n, x) = { ...v, toks: v.toks.put(n, x) }
    def m(x) = { ...v, mints: v.mints.put("lpN", x) }
    def q(x) = { ...v, pools: v.pools.put("N", x) }
    val a = tok(v, "aN")
    val b = tok(v, "bN")
    val lp = mint(v, "lpN")
    val n = pool(v, "N")
    if (f == 1) t("aN", { ...a, dlg: "d", dam: 0 }) else if (f == 2) t("bN", { ...b, dlg: "u", dam: 2 })
    else if (f == 3) t("aN", { ...a, cls: "u" }) else if (f == 4) t("bN", { ...b, cls: "pda:N" })
    else if (f == 5) t("aN", { ...a, own: "u" }) else if (f == 6) t("bN", { ...b, own: "u" })
    else if (f == 7) t("aN", { ...a, amt: 0 }) else if (f == 8) t("bN", { ...b, amt: 0 }) else if (f == 9) t("aN", { ...a, amt: 1 })
    else if (f == 10) t("bN", { ...b, mint: "mA" }) else if (f == 11) m({ ...lp, sup: 1 }) else if (f == 12) m({ ...lp, frz: "pda:N" })
    else if (f == 13) m({ ...lp, auth: "adm" }) else if (f == 14) m({ ...lp, auth: "" }) else if (f == 15) t("fN", { ...tok(v, "fN"), own: "pda:N" })
    else if (f == 16) t("uN", { ...tok(v, "uN"), own: "pda:N" }) else if (f == 17) t("fN", { ...tok(v, "fN"), mint: "mA" })
    else if (f == 18) t("uN", { ...tok(v, "uN"), mint: "mB" }) else if (f == 19) q({ ...n, prog: "FAKE" }) else if (f == 20) q({ ...n, len: 323 })
    else if (f == 21) q({ ...n, ver: 1, ini: 1, ck: 1 }) else if (f == 22) q({ ...n, ver: 1, ini: 0 }) else if (f == 23) t("uN", { ...tok(v, "uN"), st: 2 })
    else if (f == 24) t("aN", { ...a, st: 0 }) else if (f == 25) t("bN", { ...b, prog: "FAKE" }) else if (f == 26) m({ ...lp, prog: "FAKE" }) else v
  }
  pure def creation(op: str, mode: str, k: int, p: List[int], fs: List[int], con: Con): Call =
    { ...NOTHING, op: op, mode: mode, ac: ["N", "pda:N", "aN", "bN", "lpN", "fN", "uN", "TOK"], sg: Set("N", "u"), fees: fs, ck: k, cp: p, con: con,
      ar: if (op == INITPRICE) fs.append(p[0]) else if (op == INITLINEAR) p else [] }
  pure val FEECHOICES = Set([0, 0, 0, 0, 0, 0, 0, 0], [0, 1, 0, 1, 0, 1, 0, 1], [1, 4, 1, 8, 1, 4, 1, 2], [1, 1, 0, 1, 0, 1, 0, 1],
    [0, 1, 4, 4, 0, 1, 0, 1], [0, 1, 0, 1, 1, 0, 0, 1], [0, 1, 0, 1, 0, 1, 2, 1], [3, 4, 7, 8, 3, 4, 1, 1])
  pure val CONS: Set[Con] = Set(NOCON,
    { on: true, owner: "adm", kinds: [PRICE, PRODUCT], fees: [1, 4, 1, 8, 1, 4, 1, 2] },
    { on: true, owner: "adm", kinds: [STABLE, LINEAR, OFFSET], fees: [0, 1, 0, 1, 0, 1, 0, 1] },
    { on: true, owner: "u", kinds: [PRICE], fees: [0, 0, 0, 0, 0, 0, 0, 0] },
    { on: true, owner: "adm", kinds: [PRICE, LINEAR], fees: [0, 4, 1, 8, 1, 4, 1, 2] })
  pure val PARAMS = Set([0, 1, 1, 1], [1, 0, 1, 1], [1, 1, 0, 1], [1, 1, 1, 0], [2, 3, 1, 4], [1, 8, 0, 1], [1, 9, 0, 1], [1, 17, 0, 1])
  pure val CREATIONS: Set[Call] = PARAMS.map(p => Set(creation(INITLINEAR, "entry", LINEAR, p, [0, 1, 0, 1, 0, 1, 0, 1], NOCON)).union(
    FEECHOICES.map(fs => Set(creation(INITPRICE, "entry", PRICE, p, fs, NOCON)).union(
      KINDS.map(k => CONS.map(con => creation(INIT, "direct", k, p, fs, con))).flatten())).flatten())).flatten()
  action initCreation = {
    nondet k = oneOf(Set(PRODUCT, LINEAR))
    nondet f = oneOf(0.to(26))
    nondet g = oneOf(0.to(26))
    all { f <= g or g == 0, w' = flawed(flawed(stage(k), f), g), flags' = Set(), left' = 2 }
  }
  /// what every pool in existence rests on
  pure def wellFounded(v: World, s: str): bool = {
    val q = pool(v, s)
    val a = tok(v, q.a)
    val b = tok(v, q.b)
    val m = mint(v, q.lp)
    or { not(readable(q)), q.a == "SYS", and {
      q.prog == "PROG", a.own == authorityOf(s), b.own == authorityOf(s), a.mint != b.mint, a.mint == q.am, b.mint == q.bm,
      a.dlg == "", b.dlg == "", a.cls == "", b.cls == "", m.auth == authorityOf(s), m.frz == "",
      tok(v, q.fee).mint == q.lp, tok(v, q.fee).own != authorityOf(s), q.tp == "TOK", validFees(q.fees) } }
  }
  action create = {
    nondet c = oneOf(CREATIONS)
    all { left > 0, ordered(c) }
  }
  action use = {
    nondet x = oneOf(Set(1, 3, 6))
    nondet c = oneOf(Set(
      ask(SWAP, ["N", "pda:N", "u", "uA", "aN", "bN", "uB", "lpN", "fN", "TOK"], [x, 0]),
      ask(SWAP, ["N", "pda:N", "u", "uB", "bN", "aN", "uA", "lpN", "fN", "TOK"], [x, 0]),
      ask(DEPOSIT, ["N", "pda:N", "u", "uA", "uB", "aN", "bN", "lpN", "uN", "TOK"], [x, 8, 8]),
      ask(WITHDRAW, ["N", "pda:N", "u", "lpN", "uN", "aN", "bN", "uA", "uB", "fN", "TOK"], [x, 0, 0]),
      ask(DEPOSIT1, ["N", "pda:N", "u", "uA", "aN", "bN", "lpN", "uN", "TOK"], [x, 0]),
      ask(WITHDRAW1, ["N", "pda:N", "u", "lpN", "uN", "aN", "bN", "uA", "fN", "TOK"], [x, 6])))
    all { left > 0, readable(pool(w, "N")), pool(w, "N").a != "SYS", pool(w, "N").ck != LINEAR, ordered(c) }
  }
  action createAgain = {
    nondet op = oneOf(Set(INITPRICE, INITLINEAR))
    all { readable(pool(w, "N")), ordered(creation(op, "entry", 0, [1, 1, 1, 1], [0, 0, 0, 0, 0, 0, 0, 0], NOCON)) }
  }
  action stepCreation = any { create, use, createAgain }
  val founded = w.pools.keys().forall(s => wellFounded(w, s))
  val issued = readable(pool(w, "N")) and pool(w, "N").a != "SYS" and left == 1 implies sup(w, "lpN") == INITIAL and amt(w, "uN") == INITIAL
}
