// -*- mode: Bluespec; -*-
// The world outside the program: the token ledger with its accounts, mints and
// transfer rules, and the accounts in which pools are recorded.
module ledger {
  import scale.* from "./scale"
  const LS: Scale
  import num(NS=LS).* from "./num"

  // A token account.  st: 0 uninitialized, 1 open, 2 frozen.  prog: the program that
  // owns the account ("TOK" is the token program).  "" stands for nobody.
  type Tok = { mint: str, own: str, amt: int, dlg: str, dam: int, cls: str, st: int, prog: str }
  type Mint = { auth: str, sup: int, frz: str, st: int, prog: str }
  // The record of a pool.  bump 0 is the canonical one.  cp: four curve parameters.
  type Pool = { prog: str, ver: int, ini: int, bump: int, tp: str, a: str, b: str, lp: str,
                am: str, bm: str, fee: str, fees: List[int], ck: int, cp: List[int], len: int }
  type World = { toks: str -> Tok, mints: str -> Mint, pools: str -> Pool }

  pure val NOTOK: Tok = { mint: "", own: "", amt: 0, dlg: "", dam: 0, cls: "", st: 0, prog: "" }
  pure val NOMINT: Mint = { auth: "", sup: 0, frz: "", st: 0, prog: "" }
  pure val NOPOOL: Pool = { prog: "", ver: 0, ini: 0, bump: 0, tp: "", a: "", b: "", lp: "", am: "", bm: "",
                            fee: "", fees: [0, 0, 0, 0, 0, 0, 0, 0], ck: 0, cp: [0, 0, 0, 0], len: 0 }
  pure def tok(w: World, n: str): Tok = if (n.in(w.toks.keys())) w.toks.get(n) else NOTOK
  pure def mint(w: World, n: str): Mint = if (n.in(w.mints.keys())) w.mints.get(n) else NOMINT
  pure def pool(w: World, n: str): Pool = if (n.in(w.pools.keys())) w.pools.get(n) else NOPOOL
  pure def isTok(w: World, n: str): bool = tok(w, n).st != 0
  pure def isMint(w: World, n: str): bool = mint(w, n).st != 0
  pure def amt(w: World, n: str): int = tok(w, n).amt
  pure def sup(w: World, n: str): int = mint(w, n).sup

  // ---- the layout in which a pool is recorded ------------------------------------
  // field name, width in bytes, kind of content
  type Field = { name: str, width: int, kind: str }
  pure val LAYOUT: List[Field] = [
    { name: "ver", width: 1, kind: "number" },
    { name: "ini", width: 1, kind: "number" },
    { name: "bump", width: 1, kind: "bump" },
    { name: "tp", width: 32, kind: "address" },
    { name: "a", width: 32, kind: "address" },
    { name: "b", width: 32, kind: "address" },
    { name: "lp", width: 32, kind: "address" },
    { name: "am", width: 32, kind: "address" },
    { name: "bm", width: 32, kind: "address" },
    { name: "fee", width: 32, kind: "address" },
    { name: "fees", width: 64, kind: "numbers" },
    { name: "ck", width: 1, kind: "number" },
    { name: "cp", width: 32, kind: "numbers" } ]
  pure val LENGTH = 324
  pure val CURVES = Set(0, 1, 2, 3, 30)
  pure def readable(q: Pool): bool =
    and { q.len == LENGTH, q.ver == 1, q.ini == 1, q.ck.in(CURVES) }
  /// how many of the four parameters a curve uses
  pure def paramCount(ck: int): int = if (ck == 0) 0 else if (ck == 30) 4 else 1

  /// the address derived from a state account that controls its pool
  pure val AUTHORITIES: str -> str = Map("P" -> "pda:P", "Q" -> "pda:Q", "N" -> "pda:N", "X" -> "pda:X")
  pure def authorityOf(s: str): str = if (s.in(AUTHORITIES.keys())) AUTHORITIES.get(s) else "?"

  // ---- error numbers ------------------------------------------------------------------
  pure val PANIC = -1
  pure val ANYCODE = -2
  pure def builtin(n: int): int = 1000000 + n

  // ---- token program -------------------------------------------------------------------
  // An operation of the token program; who: the authority it is performed under
  type Op = { kind: str, src: str, dst: str, mint: str, who: str, n: int }
  pure def opTransfer(src: str, dst: str, who: str, n: int): Op =
    { kind: "transfer", src: src, dst: dst, mint: "", who: who, n: n }
  pure def opMint(m: str, dst: str, who: str, n: int): Op =
    { kind: "mint", src: "", dst: dst, mint: m, who: who, n: n }
  pure def opBurn(src: str, m: str, who: str, n: int): Op =
    { kind: "burn", src: src, dst: "", mint: m, who: who, n: n }

  /// may `who` move n units out of t: 0 or the error
  pure def spendError(t: Tok, who: str, n: int): int =
    if (t.dlg == who and who != "") if (t.dam < n) 1 else 0
    else if (t.own != who) 4 else 0
  /// t after n units were spent by `who`
  pure def spent(t: Tok, who: str, n: int): Tok =
    if (t.dlg == who and who != "")
      { ...t, amt: t.amt - n, dam: t.dam - n, dlg: if (t.dam == n) "" else t.dlg }
    else { ...t, amt: t.amt - n }

  pure def opError(w: World, o: Op): int =
    if (o.kind == "transfer") {
      val s = tok(w, o.src)
      val d = tok(w, o.dst)
      if (s.st == 0 or d.st == 0 or s.prog != "TOK" or d.prog != "TOK") ANYCODE
      else if (s.st == 2 or d.st == 2) 17
      else if (s.amt < o.n) 1
      else if (s.mint != d.mint) 3
      else {
        val e = spendError(s, o.who, o.n)
        if (e != 0) e else if (o.src != o.dst and d.amt + o.n > M64) 14 else 0
      }
    } else if (o.kind == "mint") {
      val d = tok(w, o.dst)
      val m = mint(w, o.mint)
      if (d.st == 0 or m.st == 0 or d.prog != "TOK" or m.prog != "TOK") ANYCODE
      else if (d.st == 2) 17
      else if (d.mint != o.mint) 3
      else if (m.auth == "") 5
      else if (m.auth != o.who) 4
      else if (m.sup + o.n > M64 or d.amt + o.n > M64) 14 else 0
    } else {
      val s = tok(w, o.src)
      val m = mint(w, o.mint)
      if (s.st == 0 or m.st == 0 or s.prog != "TOK" or m.prog != "TOK") ANYCODE
      else if (s.st == 2) 17
      else if (s.amt < o.n) 1
      else if (s.mint != o.mint) 3
      else {
        val e = spendError(s, o.who, o.n)
        if (e != 0) e else if (m.sup < o.n) 14 else 0
      }
    }
  pure def opApply(w: World, o: Op): World =
    if (o.kind == "transfer") {
      val s = tok(w, o.src)
      if (o.src == o.dst) w
      else {
        val d = tok(w, o.dst)
        { ...w, toks: w.toks.put(o.src, spent(s, o.who, o.n)).put(o.dst, { ...d, amt: d.amt + o.n }) }
      }
    } else if (o.kind == "mint") {
      val d = tok(w, o.dst)
      val m = mint(w, o.mint)
      { ...w, toks: w.toks.put(o.dst, { ...d, amt: d.amt + o.n }), mints: w.mints.put(o.mint, { ...m, sup: m.sup + o.n }) }
    } else {
      val s = tok(w, o.src)
      val m = mint(w, o.mint)
      { ...w, toks: w.toks.put(o.src, spent(s, o.who, o.n)), mints: w.mints.put(o.mint, { ...m, sup: m.sup - o.n }) }
    }
  /// performs operations in order until one fails; err is 0 if none does
  type Run = { w: World, err: int }
  pure def perform(w: World, ops: List[Op]): Run =
    ops.foldl({ w: w, err: 0 }, (acc, o) =>
      if (acc.err != 0) acc else {
        val e = opError(acc.w, o)
        if (e != 0) { w: acc.w, err: e } else { w: opApply(acc.w, o), err: 0 }
      })
  /// the errors any single operation would meet on its own
  pure def eachError(w: World, ops: List[Op]): Set[int] =
    ops.foldl(Set(), (acc, o) => { val e = opError(w, o) if (e == 0) acc else acc.union(Set(e)) })
}
