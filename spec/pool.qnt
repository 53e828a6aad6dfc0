// -*- mode: Bluespec; -*-
// The requests of the program: under which conditions each is carried out, with which
// error it is refused, and what it does to the ledger.
//
// Conditions are a set.  A request is carried out exactly if none is violated; a
// refusal may name any violated one, so nothing here depends on the order in which an
// implementation tests them.
module pool {
  import scale.* from "./scale"
  const PS: Scale
  import num(NS=PS).* from "./num"
  import curves(CS=PS).* from "./curves"
  import ledger(LS=PS).* from "./ledger"
  pure val INITIAL = PS.initial

  // Deployment constraints, when on
  type Con = { on: bool, owner: str, kinds: List[int], fees: List[int] }
  // A request.  mode "entry": through the published interface; "direct": through the
  // library, which offers every curve, constraints and a host fee account.
  // ac: accounts by position; sg: those that signed; ro: those passed read-only.
  type Call = { op: str, mode: str, ac: List[str], sg: Set[str], ro: Set[str], ar: List[int],
                fees: List[int], ck: int, cp: List[int], con: Con }
  pure val NOCON: Con = { on: false, owner: "", kinds: [], fees: [0, 0, 0, 0, 0, 0, 0, 0] }

  // ---- the published interface ---------------------------------------------------
  type Shape = { accounts: int, args: int, signers: List[int], writable: List[int] }
  pure val SWAP = "swap"
  pure val DEPOSIT = "deposit_all_token_types"
  pure val WITHDRAW = "withdraw_all_token_types"
  pure val DEPOSIT1 = "deposit_single_token_type_exact_amount_in"
  pure val WITHDRAW1 = "withdraw_single_token_type_exact_amount_out"
  pure val INITPRICE = "initialize_constant_price"
  pure val INITLINEAR = "initialize_linear_price"
  pure val INIT = "initialize"               // library only
  pure val SHAPES: str -> Shape = Map(
    SWAP -> { accounts: 10, args: 2, signers: [2], writable: [3, 4, 5, 6, 7, 8] },
    DEPOSIT -> { accounts: 10, args: 3, signers: [2], writable: [3, 4, 5, 6, 7, 8] },
    WITHDRAW -> { accounts: 11, args: 3, signers: [2], writable: [3, 4, 5, 6, 7, 8, 9] },
    DEPOSIT1 -> { accounts: 9, args: 2, signers: [2], writable: [3, 4, 5, 6, 7] },
    WITHDRAW1 -> { accounts: 10, args: 2, signers: [2], writable: [3, 4, 5, 6, 7, 8] },
    INITPRICE -> { accounts: 8, args: 9, signers: [0], writable: [0, 4, 6] },
    INITLINEAR -> { accounts: 8, args: 4, signers: [0], writable: [0, 4, 6] })
  pure def isInit(op: str): bool = op == INIT or op == INITPRICE or op == INITLINEAR

  // ---- conditions ------------------------------------------------------------------
  // ps: the properties broken by carrying out the request all the same.
  // soft: the quote has no value in the arithmetic of the program; an implementation
  // that finds one anyway is judged by what the quote promises.
  type Cond = { bad: bool, ps: Set[str], codes: Set[int], soft: bool }
  pure def when(bad: bool, ps: Set[str], codes: Set[int]): Cond =
    { bad: bad, ps: ps, codes: codes, soft: false }
  pure def unquoted(bad: bool, codes: Set[int]): Cond =
    { bad: bad, ps: Set(), codes: codes, soft: true }

  // which errors the program gives these conditions
  pure val eInUse = 0
  pure val eAuthority = 1
  pure val eOwner = 2
  pure val eOutOwner = 3
  pure val eMint = 4
  pure val eAccount = 5
  pure val eEmpty = 6
  pure val eSupply = 7
  pure val eDelegate = 8
  pure val eInput = 9
  pure val eReserve = 10
  pure val ePoolMint = 11
  pure val eCalculation = 13
  pure val eRepeated = 15
  pure val eSlippage = 16
  pure val eClose = 17
  pure val eFreeze = 18
  pure val eFeeAccount = 19
  pure val eZero = 20
  pure val eFeeFailure = 21
  pure val eConversion = 22
  pure val eFee = 23
  pure val eTokenProgram = 24
  pure val eCurveType = 25
  pure val eCurve = 26
  pure val eUnsupported = 27
  pure val eUnknown = 101
  pure val eArguments = 102
  pure val eReadOnly = 2000
  pure val eUnsigned = 2002
  pure val eAccounts = 3005
  pure val eIllegalWrite = 900004

  pure def wellFormed(c: Call): bool = or {
    c.mode == "direct",
    and { c.op.in(SHAPES.keys()),
          { val sh = SHAPES.get(c.op) and { c.ac.length() >= sh.accounts, c.ar.length() >= sh.args } } } }
  pure def framing(c: Call): List[Cond] =
    if (c.mode == "direct") []
    else if (not(c.op.in(SHAPES.keys()))) [when(true, Set("P27"), Set(eUnknown))]
    else {
      val sh = SHAPES.get(c.op)
      def named(i) = i < c.ac.length()
      [ when(c.ar.length() < sh.args, Set("P27"), Set(eArguments)),
        when(c.ac.length() < sh.accounts, Set("P27"), Set(eAccounts)),
        when(sh.signers.select(i => named(i) and not(c.ac[i].in(c.sg))).length() > 0,
             if (isInit(c.op)) Set("P27", "P04") else Set("P27", "P01"), Set(eUnsigned)),
        when(sh.writable.select(i => named(i) and c.ac[i].in(c.ro)).length() > 0, Set("P27"), Set(eReadOnly)) ]
    }

  /// n is a token account (a mint) of token program tp
  pure def tokConds(w: World, n: str, tp: str, ps: Set[str]): List[Cond] = [
    when(not(isTok(w, n)) or tok(w, n).prog != tp, ps, Set(eTokenProgram, eAccount)) ]
  pure def mintConds(w: World, n: str, tp: str, ps: Set[str]): List[Cond] = [
    when(not(isMint(w, n)) or mint(w, n).prog != tp, ps, Set(eTokenProgram, eMint)) ]

  pure def stateConds(w: World, n: str): List[Cond] = [
    when(pool(w, n).prog != "PROG", Set("P02"), Set(builtin(7))),
    when(not(readable(pool(w, n))), Set("P06"), Set(builtin(4), builtin(10))) ]

  /// the conditions shared by deposits and withdrawals
  pure def bindConds(q: Pool, s: str, auth: str, a: str, b: str, m: str, tp: str): List[Cond] = [
    when(auth != authorityOf(s), Set("P02"), Set(eAuthority)),
    when(a != q.a or b != q.b, Set("P02"), Set(eReserve)),
    when(m != q.lp, Set("P02"), Set(ePoolMint)),
    when(tp != q.tp, Set("P02"), Set(eTokenProgram)) ]

  // ---- what a request amounts to ------------------------------------------------------
  // conds: conditions on the amounts; ops: what happens on the ledger
  type Terms = { conds: List[Cond], ops: List[Op] }
  pure val NOTERMS: Terms = { conds: [], ops: [] }

  pure val NOQUOTECODES = Set(eZero, eCalculation, eConversion, eFeeFailure, PANIC)

  // -- swap: [state, authority, user, source, reserve in, reserve out, destination, pool
  //           mint, fee account, token program, (library only) host fee account]
  pure def swapBinding(w: World, c: Call, q: Pool): List[Cond] = {
    val inner = Set(q.a, q.b)
    [ when(c.ac[1] != authorityOf(c.ac[0]), Set("P02"), Set(eAuthority)),
      when(not(c.ac[4].in(inner)), Set("P02"), Set(eReserve)),
      when(not(c.ac[5].in(inner)), Set("P02"), Set(eReserve)),
      when(c.ac[4] == c.ac[5], Set("P03"), Set(eInput)),
      when(c.ac[4] == c.ac[3], Set("P03"), Set(eInput)),
      when(c.ac[5] == c.ac[6], Set("P03"), Set(eInput)),
      when(c.ac[7] != q.lp, Set("P02"), Set(ePoolMint)),
      when(c.ac[8] != q.fee, Set("P02"), Set(eFeeAccount)),
      when(c.ac[9] != q.tp, Set("P02"), Set(eTokenProgram)) ]
      .concat(tokConds(w, c.ac[4], q.tp, Set("P02"))).concat(tokConds(w, c.ac[5], q.tp, Set("P02")))
      .concat(mintConds(w, c.ac[7], q.tp, Set("P02")))
  }
  pure def swapTrade(w: World, c: Call, q: Pool): Trade =
    trade(q.ck, q.cp, q.fees, c.ar[0], amt(w, c.ac[4]), amt(w, c.ac[5]), sup(w, c.ac[7]), c.ac[4] == q.a)
  pure def swapTerms(w: World, c: Call, q: Pool): Terms = {
    val t = swapTrade(w, c, q)
    val hosted = c.ac.length() > 10 and c.mode == "direct" and t.lp > 0
    val host = if (hosted) c.ac[10] else ""
    val share = if (hosted) hostFee(q.fees, t.lp) else 0
    if (t.src < 0) { conds: [unquoted(true, NOQUOTECODES)], ops: [] }
    else { conds: [
        when(t.dst < c.ar[1], Set("P07"), Set(eSlippage)),
        unquoted(t.src > M64 or t.dst > M64, Set(eConversion)),
        when(t.src > M64 or t.dst > M64, Set("P08"), Set(eConversion)),
        unquoted(t.lp < 0, NOQUOTECODES),
        when(t.lp > M64, Set("P08"), Set(eConversion)),
        when(hosted and (not(isTok(w, host)) or tok(w, host).prog != q.tp), Set("P18"), Set(eTokenProgram, eAccount)),
        when(hosted and isTok(w, host) and tok(w, host).mint != c.ac[7], Set("P18"), Set(ePoolMint)) ],
      ops: [opTransfer(c.ac[3], c.ac[4], c.ac[2], t.src)]
        .concat(if (share > 0) [opMint(c.ac[7], host, c.ac[1], share)] else [])
        .concat(if (t.lp > 0) [opMint(c.ac[7], c.ac[8], c.ac[1], t.lp - share)] else [])
        .append(opTransfer(c.ac[5], c.ac[6], c.ac[1], t.dst)) }
  }

  // -- two-sided deposit: [state, authority, user, source A, source B, reserve A, reserve
  //                        B, pool mint, destination, token program]
  pure def closedToDeposits(q: Pool): Cond =
    when(not(allowsDeposits(q.ck)), Set("P17"), Set(eUnsupported))
  pure def closedToWithdrawals(q: Pool): Cond =
    when(not(allowsWithdrawals(q.ck)), Set("P17"), Set(eUnsupported, eZero))
  pure def depositBinding(w: World, c: Call, q: Pool): List[Cond] =
    [ closedToDeposits(q),
      when(c.ac[3] == c.ac[5] or c.ac[4] == c.ac[6], Set("P03"), Set(eInput)) ]
    .concat(bindConds(q, c.ac[0], c.ac[1], c.ac[5], c.ac[6], c.ac[7], c.ac[9]))
    .concat(tokConds(w, c.ac[5], q.tp, Set("P02"))).concat(tokConds(w, c.ac[6], q.tp, Set("P02")))
    .concat(mintConds(w, c.ac[7], q.tp, Set("P02")))
  /// pool tokens to issue: an empty pool always issues the initial supply
  pure def depositPoolTokens(w: World, c: Call): int = if (sup(w, c.ac[7]) == 0) INITIAL else c.ar[0]
  pure def depositPair(w: World, c: Call, q: Pool): Pair = {
    val s = if (sup(w, c.ac[7]) == 0) INITIAL else sup(w, c.ac[7])
    bothSides(q.ck, q.cp, depositPoolTokens(w, c), s, amt(w, c.ac[5]), amt(w, c.ac[6]), true)
  }
  pure def depositTerms(w: World, c: Call, q: Pool): Terms = {
    val r = depositPair(w, c, q)
    if (r.a < 0) { conds: [unquoted(true, NOQUOTECODES)], ops: [] }
    else { conds: [
        when(r.a > c.ar[1] or r.b > c.ar[2], Set("P07"), Set(eSlippage)),
        when(r.a == 0 or r.b == 0, Set("P22", "P20"), Set(eZero)),
        when(r.a > M64 or r.b > M64, Set("P08"), Set(eConversion)) ],
      ops: [ opTransfer(c.ac[3], c.ac[5], c.ac[2], r.a),
             opTransfer(c.ac[4], c.ac[6], c.ac[2], r.b),
             opMint(c.ac[7], c.ac[8], c.ac[1], depositPoolTokens(w, c)) ] }
  }

  // -- two-sided withdrawal: [state, authority, user, pool mint, source, reserve A, reserve
  //                           B, destination A, destination B, fee account, token program]
  pure def withdrawBinding(w: World, c: Call, q: Pool): List[Cond] =
    [ closedToWithdrawals(q),
      when(c.ac[7] == c.ac[5] or c.ac[8] == c.ac[6], Set("P03"), Set(eInput)),
      when(c.ac[9] != q.fee, Set("P02"), Set(eFeeAccount)) ]
    .concat(bindConds(q, c.ac[0], c.ac[1], c.ac[5], c.ac[6], c.ac[3], c.ac[10]))
    .concat(tokConds(w, c.ac[5], q.tp, Set("P02"))).concat(tokConds(w, c.ac[6], q.tp, Set("P02")))
    .concat(mintConds(w, c.ac[3], q.tp, Set("P02")))
  /// only pool tokens that come out of the fee account are exempt
  pure def exitFee(q: Pool, source: str, feeAccount: str, pt: int): int =
    if (source == feeAccount) 0 else withdrawFee(q.fees, pt)
  pure def withdrawPair(w: World, c: Call, q: Pool): Pair = {
    val f = exitFee(q, c.ac[4], c.ac[9], c.ar[0])
    val r = bothSides(q.ck, q.cp, sub128(c.ar[0], f), sup(w, c.ac[3]), amt(w, c.ac[5]), amt(w, c.ac[6]), false)
    { a: if (r.a > M64) r.a else lo(r.a, amt(w, c.ac[5])), b: if (r.b > M64) r.b else lo(r.b, amt(w, c.ac[6])) }
  }
  pure def withdrawTerms(w: World, c: Call, q: Pool): Terms = {
    val f = exitFee(q, c.ac[4], c.ac[9], c.ar[0])
    val r = withdrawPair(w, c, q)
    if (f < 0 or r.a < 0) { conds: [unquoted(true, NOQUOTECODES)], ops: [] }
    else { conds: [
        when(r.a < c.ar[1] or r.b < c.ar[2], Set("P07"), Set(eSlippage)),
        when((r.a == 0 and amt(w, c.ac[5]) != 0) or (r.b == 0 and amt(w, c.ac[6]) != 0), Set("P22", "P20"), Set(eZero)),
        when(r.a > M64 or r.b > M64, Set("P08"), Set(eConversion)) ],
      ops: (if (f > 0) [opTransfer(c.ac[4], c.ac[9], c.ac[2], f)] else [])
        .append(opBurn(c.ac[4], c.ac[3], c.ac[2], c.ar[0] - f))
        .concat(if (r.a > 0) [opTransfer(c.ac[5], c.ac[7], c.ac[1], r.a)] else [])
        .concat(if (r.b > 0) [opTransfer(c.ac[6], c.ac[8], c.ac[1], r.b)] else []) }
  }

  // -- one-sided deposit: [state, authority, user, source, reserve A, reserve B, pool mint,
  //                        destination, token program]
  pure def ofA(w: World, user: str, a: str): bool = tok(w, user).mint == tok(w, a).mint
  pure def deposit1Binding(w: World, c: Call, q: Pool): List[Cond] = {
    val toA = ofA(w, c.ac[3], c.ac[4])
    [ closedToDeposits(q),
      when(not(toA) and tok(w, c.ac[3]).mint != tok(w, c.ac[5]).mint, Set("P21"), Set(eReserve)),
      when(c.ac[3] == (if (toA) c.ac[4] else c.ac[5]), Set("P03"), Set(eInput)) ]
    .concat(bindConds(q, c.ac[0], c.ac[1], c.ac[4], c.ac[5], c.ac[6], c.ac[8]))
    .concat(tokConds(w, c.ac[3], q.tp, Set("P08")))
    .concat(tokConds(w, c.ac[4], q.tp, Set("P02"))).concat(tokConds(w, c.ac[5], q.tp, Set("P02")))
    .concat(mintConds(w, c.ac[6], q.tp, Set("P02")))
  }
  pure def deposit1Tokens(w: World, c: Call, q: Pool): int =
    if (sup(w, c.ac[6]) == 0) INITIAL
    else depositOne(q.ck, q.cp, q.fees, c.ar[0], amt(w, c.ac[4]), amt(w, c.ac[5]), sup(w, c.ac[6]), ofA(w, c.ac[3], c.ac[4]))
  pure def deposit1Terms(w: World, c: Call, q: Pool): Terms = {
    val pt = deposit1Tokens(w, c, q)
    if (pt < 0) { conds: [unquoted(true, NOQUOTECODES)], ops: [] }
    else { conds: [
        when(pt < c.ar[1], Set("P07"), Set(eSlippage)),
        when(pt == 0 or c.ar[0] == 0, Set("P22"), Set(eZero)),
        when(pt > M64, Set("P08"), Set(eConversion)) ],
      ops: [ opTransfer(c.ac[3], if (ofA(w, c.ac[3], c.ac[4])) c.ac[4] else c.ac[5], c.ac[2], c.ar[0]),
             opMint(c.ac[6], c.ac[7], c.ac[1], pt) ] }
  }

  // -- one-sided withdrawal: [state, authority, user, pool mint, source, reserve A, reserve
  //                           B, destination, fee account, token program]
  pure def withdraw1Binding(w: World, c: Call, q: Pool): List[Cond] = {
    val fromA = ofA(w, c.ac[7], c.ac[5])
    [ closedToWithdrawals(q),
      when(not(fromA) and tok(w, c.ac[7]).mint != tok(w, c.ac[6]).mint, Set("P21"), Set(eReserve)),
      when(c.ac[7] == (if (fromA) c.ac[5] else c.ac[6]), Set("P03"), Set(eInput)),
      when(c.ac[8] != q.fee, Set("P02"), Set(eFeeAccount)) ]
    .concat(bindConds(q, c.ac[0], c.ac[1], c.ac[5], c.ac[6], c.ac[3], c.ac[9]))
    .concat(tokConds(w, c.ac[7], q.tp, Set("P08")))
    .concat(tokConds(w, c.ac[5], q.tp, Set("P02"))).concat(tokConds(w, c.ac[6], q.tp, Set("P02")))
    .concat(mintConds(w, c.ac[3], q.tp, Set("P02")))
  }
  pure def withdraw1Tokens(w: World, c: Call, q: Pool): int =
    withdrawOne(q.ck, q.cp, q.fees, c.ar[0], amt(w, c.ac[5]), amt(w, c.ac[6]), sup(w, c.ac[3]), ofA(w, c.ac[7], c.ac[5]))
  pure def withdraw1Terms(w: World, c: Call, q: Pool): Terms = {
    val burn = withdraw1Tokens(w, c, q)
    val f = if (burn < 0) NONE else exitFee(q, c.ac[4], c.ac[8], burn)
    if (burn < 0 or f < 0) { conds: [unquoted(true, NOQUOTECODES)], ops: [] }
    else { conds: [
        when(burn + f > c.ar[1], Set("P07"), Set(eSlippage)),
        when(burn + f == 0, Set("P22"), Set(eZero)),
        when(burn + f > M64, Set("P08"), Set(eConversion)) ],
      ops: (if (f > 0) [opTransfer(c.ac[4], c.ac[8], c.ac[2], f)] else [])
        .append(opBurn(c.ac[4], c.ac[3], c.ac[2], burn))
        .append(opTransfer(if (ofA(w, c.ac[7], c.ac[5])) c.ac[5] else c.ac[6], c.ac[7], c.ac[1], c.ar[0])) }
  }

  // -- creation: [state, authority, reserve A, reserve B, pool mint, fee account,
  //               destination, token program]
  type Offer = { fees: List[int], ck: int, cp: List[int] }
  pure def offer(c: Call): Offer =
    if (c.op == INITPRICE) { fees: c.ar.slice(0, 8), ck: PRICE, cp: [c.ar[8], 0, 0, 0] }
    else if (c.op == INITLINEAR) { fees: [0, 1, 0, 1, 0, 1, 0, 1], ck: LINEAR, cp: c.ar.slice(0, 4) }
    else { fees: c.fees, ck: c.ck, cp: c.cp }
  pure def permitted(f: List[int], min: List[int]): bool = and {
    f[0] >= min[0], f[1] == min[1], f[2] >= min[2], f[3] == min[3],
    f[4] >= min[4], f[5] == min[5], f[6] == min[6], f[7] == min[7] }
  pure def initConds(w: World, c: Call): List[Cond] = {
    val o = offer(c)
    val ta = tok(w, c.ac[2])
    val tb = tok(w, c.ac[3])
    val m = mint(w, c.ac[4])
    val q = pool(w, c.ac[0])
    val unsound = Set("P04")
    [ when(readable(q), Set("P04", "P05"), Set(eInUse)),
      when(q.prog != "PROG", unsound, Set(eIllegalWrite, builtin(7))),
      when(q.len != LENGTH, Set("P04", "P06"), Set(builtin(4), PANIC, eIllegalWrite)),
      when(c.ac[1] != authorityOf(c.ac[0]), unsound, Set(eAuthority)),
      when(c.ac[7] != "TOK", unsound, Set(eTokenProgram, builtin(7))),
      when(ta.own != c.ac[1], unsound, Set(eOwner)),
      when(tb.own != c.ac[1], unsound, Set(eOwner)),
      when(tok(w, c.ac[6]).own == c.ac[1], unsound, Set(eOutOwner)),
      when(tok(w, c.ac[5]).own == c.ac[1], unsound, Set(eOutOwner)),
      when(m.auth != c.ac[1], unsound, Set(eOwner)),
      when(ta.mint == tb.mint, unsound, Set(eRepeated)),
      when(emptySupply(o.ck, ta.amt, tb.amt), unsound, Set(eEmpty)),
      when(wrongSupply(o.ck, ta.amt), unsound, Set(eSupply)),
      when(ta.dlg != "" or tb.dlg != "", unsound, Set(eDelegate)),
      when(ta.cls != "" or tb.cls != "", unsound, Set(eClose)),
      when(m.sup != 0, unsound, Set(eSupply)),
      when(m.frz != "", unsound, Set(eFreeze)),
      when(tok(w, c.ac[5]).mint != c.ac[4], unsound, Set(ePoolMint)),
      when(tok(w, c.ac[6]).mint != c.ac[4], unsound, Set(ePoolMint, 3)),
      when(c.con.on and tok(w, c.ac[5]).own != c.con.owner, Set("P25"), Set(eOwner)),
      when(c.con.on and c.con.kinds.select(k => k == o.ck).length() == 0, Set("P25"), Set(eCurveType)),
      when(c.con.on and not(permitted(o.fees, c.con.fees)), Set("P25"), Set(eFee)),
      when(not(validFees(o.fees)), Set("P26"), Set(eFee)),
      when(not(validParams(o.ck, o.cp)), unsound, Set(eCurve)) ]
    .concat(tokConds(w, c.ac[2], c.ac[7], unsound)).concat(tokConds(w, c.ac[3], c.ac[7], unsound))
    .concat(tokConds(w, c.ac[5], c.ac[7], unsound)).concat(tokConds(w, c.ac[6], c.ac[7], unsound))
    .concat(mintConds(w, c.ac[4], c.ac[7], unsound))
  }
  pure def record(w: World, c: Call): Pool = {
    val o = offer(c)
    { prog: "PROG", ver: 1, ini: 1, bump: 0, tp: c.ac[7], a: c.ac[2], b: c.ac[3], lp: c.ac[4],
      am: tok(w, c.ac[2]).mint, bm: tok(w, c.ac[3]).mint, fee: c.ac[5], fees: o.fees, ck: o.ck,
      cp: if (paramCount(o.ck) == 4) o.cp else if (paramCount(o.ck) == 1) [o.cp[0], 0, 0, 0] else [0, 0, 0, 0],
      len: LENGTH }
  }

  // ---- every request ---------------------------------------------------------------------
  type Outcome = { bad: List[Cond], ops: List[Op], next: World }

  pure def binding(w: World, c: Call, q: Pool): List[Cond] =
    if (c.op == SWAP) swapBinding(w, c, q)
    else if (c.op == DEPOSIT) depositBinding(w, c, q)
    else if (c.op == WITHDRAW) withdrawBinding(w, c, q)
    else if (c.op == DEPOSIT1) deposit1Binding(w, c, q)
    else withdraw1Binding(w, c, q)
  pure def terms(w: World, c: Call, q: Pool): Terms =
    if (c.op == SWAP) swapTerms(w, c, q)
    else if (c.op == DEPOSIT) depositTerms(w, c, q)
    else if (c.op == WITHDRAW) withdrawTerms(w, c, q)
    else if (c.op == DEPOSIT1) deposit1Terms(w, c, q)
    else withdraw1Terms(w, c, q)

  pure def violated(l: List[Cond]): List[Cond] = l.select(x => x.bad)
  /// the ledger's own objections
  pure def ledgerConds(w: World, c: Call, ops: List[Op]): Cond = {
    val r = perform(w, ops)
    val unauthorized = ops.select(o => o.kind != "mint" and spendError(tok(w, o.src), o.who, o.n) != 0).length() > 0
    when(r.err != 0, if (unauthorized) Set("P01", "P08") else Set("P08"),
         eachError(w, ops).union(Set(r.err)))
  }
  pure def refuse(w: World, bad: List[Cond]): Outcome = { bad: bad, ops: [], next: w }
  pure def request(w: World, c: Call): Outcome =
    if (not(wellFormed(c))) refuse(w, violated(framing(c)))
    else if (isInit(c.op)) {
      val bad = violated(framing(c).concat(initConds(w, c)))
      val ops = [opMint(c.ac[4], c.ac[6], c.ac[1], INITIAL)]
      val l = ledgerConds(w, c, ops)
      val all1 = if (l.bad) bad.append(l) else bad
      if (all1.length() > 0) refuse(w, all1)
      else {
        val w1 = perform(w, ops).w
        { bad: [], ops: ops, next: { ...w1, pools: w1.pools.put(c.ac[0], record(w, c)) } }
      }
    }
    else {
      val q = pool(w, c.ac[0])
      val frame = violated(framing(c).concat(stateConds(w, c.ac[0])))
      if (not(readable(q))) refuse(w, frame)
      else {
        val bound = frame.concat(violated(binding(w, c, q)))
        val t = terms(w, c, q)
        val quoted = bound.concat(violated(t.conds))
        val l = ledgerConds(w, c, t.ops)
        val objections = if (l.bad) quoted.append(l) else quoted
        if (objections.length() > 0) { bad: objections, ops: t.ops, next: w }
        else { bad: [], ops: t.ops, next: perform(w, t.ops).w }
      }
    }
}
