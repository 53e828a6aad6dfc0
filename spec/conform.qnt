// -*- mode: Bluespec; -*-
// The conformance run: this module generates behaviours step by step (choose), the
// driver has the real program carry out each request and writes what it observed into
// `obs`, and `absorb` judges the observation and moves to the world the program made.
module conform {
  import scale.* from "./scale"
  import num(NS=DEPLOYED).* from "./num"
  import curves(CS=DEPLOYED).* from "./curves"
  import ledger(LS=DEPLOYED).* from "./ledger"
  import pool(PS=DEPLOYED).* from "./pool"
  import props(JS=DEPLOYED).* from "./props"
  import gen(GS=DEPLOYED).* from "./gen"

  var w: World                  // the ledger
  var req: Call                 // the request being made
  var out: Outcome              // what the specification says about it
  var obs: Obs                  // what the program made of it
  var flags: Set[Flag]          // properties found broken
  // bonded tokens sold by each linear pool, less those bought back, and its trades
  var sold: str -> int
  var trades: str -> int
  var last: int                 // what the last trade paid
  // reserves each pool had since the last donation, and those it had before a sale
  // with the recorded deviation of P15
  var past: str -> Set[(int, int)]
  var before: str -> Set[(int, int)]

  var turn: { w: World, c: Call, k: int }  // the request being varied, and the variation
  var num: Num                  // a computation on fixed-point numbers
  var got: Got                  // its result

  pure val NOCALL: Call = { op: "", mode: "", ac: [], sg: Set(), ro: Set(), ar: [], fees: [], ck: 0, cp: [], con: NOCON }
  pure val NOTURN: { w: World, c: Call, k: int } = { w: { toks: Map(), mints: Map(), pools: Map() }, c: NOCALL, k: 0 }
  pure def nothing(x: World): Obs = { ok: false, code: 0, alien: false, next: x }
  pure val EMPTY: World = { toks: Map(), mints: Map(), pools: Map() }

  def reserves(v: World, s: str): (int, int) = (amt(v, pool(v, s).a), amt(v, pool(v, s).b))

  action init = all {
    w' = EMPTY, req' = NOCALL, out' = { bad: [], ops: [], next: EMPTY }, obs' = nothing(EMPTY), flags' = Set(),
    sold' = Map(), trades' = Map(), last' = 0, past' = Map(), before' = Map(), turn' = NOTURN, num' = NONUM, got' = NOGOT
  }
  /// a fresh world; in a history (P16) linear pools start as they are created
  action setup(focus: str): bool = {
    nondet r = oneOf(0.to(DICE))
    val n = newWorld(focus, r)
    val v = if (focus != "P16") n else {
      ...n, toks: n.toks.keys().filter(k => k.in(Set("aP", "aQ"))).fold(n.toks, (m, k) => m.put(k, { ...m.get(k), amt: 0 })) }
    all {
      w' = v, req' = NOCALL, out' = { bad: [], ops: [], next: v }, obs' = nothing(v), flags' = Set(),
      sold' = Map("P" -> 0, "Q" -> 0), trades' = Map("P" -> 0, "Q" -> 0), last' = 0,
      past' = Map("P" -> Set(), "Q" -> Set()), before' = Map("P" -> Set(), "Q" -> Set()), turn' = NOTURN, num' = NONUM, got' = NOGOT
    }
  }
  action choose1(focus: str, direct: bool): bool = {
    nondet r = oneOf(0.to(DICE))
    val p = plan(w, focus, direct, last, r)
    all {
      w' = p.w, req' = p.c, out' = request(p.w, p.c), obs' = nothing(p.w), flags' = Set(),
      // a donation is somebody's loss: what others gain by it is no profit at the pool's expense
      past' = past.keys().mapBy(s => if (reserves(p.w, s) == reserves(w, s)) past.get(s).union(Set(reserves(w, s))) else Set(reserves(p.w, s))),
      before' = before.keys().mapBy(s => if (reserves(p.w, s) == reserves(w, s)) before.get(s) else Set()),
      sold' = sold, trades' = trades, last' = last, turn' = turn, num' = num, got' = got
    }
  }
  /// a request of the i-th kind to vary, in the world as it is (kinds 8 and 9 are creations)
  action chooseBase(i: int): bool = {
    nondet r = oneOf(0.to(DICE))
    val p = if (i >= 8) prepare(w, "P02", if (i == 8) PRICE else LINEAR, r / 2^(64 * 50)) else w
    val c = { ...roleCall(p, i, r), sg: everyone }
    all {
      w' = p, req' = c, out' = request(p, c), obs' = nothing(p), flags' = Set(),
      sold' = sold, trades' = trades, last' = last, past' = past, before' = before, turn' = turn, num' = num, got' = got
    }
  }
  action settle = all {
    turn' = { w: w, c: req, k: 0 },
    w' = w, req' = req, out' = out, obs' = obs, flags' = flags, sold' = sold, trades' = trades, last' = last, past' = past, before' = before, num' = num, got' = got
  }
  val promising = out.bad.length() == 0
  val howMany = variations(turn.c)
  /// the next variation of the settled request, in the world it was made in; they are
  /// visited in strides, so that any part of them is spread over all
  action vary(stride: int): bool = {
    val v = variation(turn.c, turn.k % variations(turn.c))
    all {
      w' = turn.w, req' = v, out' = request(turn.w, v), obs' = nothing(turn.w), flags' = Set(), turn' = { ...turn, k: turn.k + stride },
      sold' = sold, trades' = trades, last' = last, past' = past, before' = before, num' = num, got' = got
    }
  }
  /// a request written out in full (a replay)
  action retell = all {
    w' = w, req' = req, out' = request(w, req), obs' = nothing(w), flags' = Set(),
    past' = past.keys().mapBy(s => past.get(s).union(Set(reserves(w, s)))), before' = before,
    sold' = sold, trades' = trades, last' = last, turn' = turn, num' = num, got' = got
  }
  def isTrade: bool = obs.ok and req.op == SWAP and req.ac[0].in(sold.keys())
  /// how many bonded tokens the observed trade took out of the pool
  def bonded: int = amt(w, pool(w, req.ac[0]).b) - amt(obs.next, pool(w, req.ac[0]).b)
  /// P16: the collateral covers what is in circulation
  def insolvent(focus: str): bool = and {
    focus == "P16", isTrade, pool(w, req.ac[0]).ck == LINEAR,
    { val q = pool(w, req.ac[0])
      not(linSolvent(q.cp, amt(obs.next, q.a), sold.get(req.ac[0]) + bonded, trades.get(req.ac[0]) + 1)) } }
  /// P16: what has left the pool for nothing since some earlier moment
  def profitable(earlier: str -> Set[(int, int)]): bool = and {
    isTrade, pool(w, req.ac[0]).ck == LINEAR,
    { val now = reserves(obs.next, req.ac[0])
      earlier.get(req.ac[0]).exists(r => now._1 <= r._1 and now._2 <= r._2 and now != r) } }
  def judgement: Set[Flag] =
    judgeOutcome(w, req, out, if (obs.ok and isInit(req.op)) { ...obs, next: { ...obs.next, pools: obs.next.pools.keys().mapBy(s => normal(obs.next.pools.get(s))) } } else obs)
  action absorb(focus: str): bool = {
    val found = judgement
    val deviates = isTrade and found.exists(f => f.why == "KNOWN drain-rounding")
    val loot = profitable(past)
    all {
      past' = if (deviates) past.set(req.ac[0], Set()) else past,
      before' = if (deviates) before.set(req.ac[0], before.get(req.ac[0]).union(past.get(req.ac[0]))) else before,
      w' = if (obs.ok) { ...obs.next, pools: obs.next.pools.keys().mapBy(s => normal(obs.next.pools.get(s))) } else w,
      flags' = found
        .union(flag(insolvent(focus), Set("P16"), "the collateral no longer covers the tokens in circulation"))
        .union(flag(loot and not(deviates), Set("P16"), "a sequence of trades took from the pool and gave nothing"))
        .union(flag(profitable(before) or (loot and deviates), Set("P16"), "KNOWN drain-rounding")),
      sold' = if (isTrade) sold.set(req.ac[0], sold.get(req.ac[0]) + bonded) else sold,
      trades' = if (isTrade) trades.set(req.ac[0], trades.get(req.ac[0]) + 1) else trades,
      last' = if (isTrade) gain(w, obs, req.ac[6]) else last,
      req' = req, out' = out, obs' = obs, turn' = turn, num' = num, got' = got
    }
  }
  pure val NONUM: Num = { f: "", x: 0, y: 0, z: 0 }
  pure val NOGOT: Got = { r: 0, neg: false }
  action chooseNumber = {
    nondet r = oneOf(0.to(DICE))
    all { w' = w, req' = req, out' = out, obs' = obs, flags' = Set(), sold' = sold, trades' = trades, last' = last, past' = past, before' = before,
          turn' = turn, num' = someNumber(r), got' = NOGOT }
  }
  action absorbNumber = all {
    w' = w, req' = req, out' = out, obs' = obs, flags' = judgeNumber(num, got), sold' = sold, trades' = trades, last' = last, past' = past, before' = before,
    turn' = turn, num' = num, got' = got
  }
}
