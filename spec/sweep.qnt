// -*- mode: Bluespec; -*-
// Exhaustive evaluation on tiny machines, for what outgrows the integers of TLC: the
// driver puts a case number (or a state) into `k` and evaluates one definition for it.
module sweep {
  import scale.* from "./scale"
  import num(NS=TINY).* from "./num"
  import curves(CS=TINY).* from "./curves"

  var k: int
  var at: { p: List[int], a: int, b: int, sold: int, trades: int }
  action init = all { k' = 0, at' = { p: [1, 1, 0, 1], a: 0, b: 0, sold: 0, trades: 0 } }

  // ---- numbers: every raw value of one argument -----------------------------------------
  pure val GRID = 0.to(40).union(0.to(18).map(i => 2^i)).union(1.to(18).map(i => 2^i - 1))
    .union(1.to(30).map(i => i * ONE + ONE / 2)).union(0.to(8).map(i => M256 - i)).union(0.to(20).map(i => (M256 * i) / 20))
  def broken(bad: bool, why: str): Set[str] = if (bad) Set(why) else Set()
  def unary: Set[str] =
    broken(not(sqrtPromise(k, true, dSqrt(k, true))), "sqrt up")
    .union(broken(not(sqrtPromise(k, false, dSqrt(k, false))), "sqrt down"))
    .union(broken(not(floorPromise(k, dFloor(k))), "floor")).union(broken(not(ceilPromise(k, dCeil(k))), "ceiling"))
    .union(broken(not(intPromise(k, dInt(k))), "to integer"))
  def binary: Set[str] =
    GRID.map(y =>
      broken(not(mulPromise(k, y, dMul(k, y))), "mul").union(broken(not(divPromise(k, y, dDiv(k, y))), "div"))
      .union(broken(not(mulPromise(y, k, dMul(y, k))), "mul")).union(broken(not(divPromise(y, k, dDiv(y, k))), "div"))).flatten()

  // ---- the linear curve: every trade from a state -----------------------------------------
  type Move = { buy: bool, x: int, q: Quote, broken: Set[str] }
  pure def judgedMove(p: List[int], a: int, b: int, sold: int, trades: int, buy: bool, x: int, q: Quote): Set[str] = {
    val now = if (buy) sold + q.dst else sold - q.src
    val a2 = if (buy) a + q.src else a - q.dst
    val own = if (buy)
      broken(not(linBuyPromise(p, a, q.src, q.dst, if (q.dst == b) 1 else 0)), "P12").union(broken(q.src > x, "P14"))
      .union(broken(q.dst > b, "P08"))
      .union(broken(q.dst < b and q.src != x, "P14"))
    else if (q.dst < a)
      broken(not(linSellPromise(p, a, q.src, q.dst)), "P13").union(broken(q.src != x, "P15"))
    else broken(not(linCovers(p, a, q.src)) and not(q.src * ONE < linPosition(p, dNew(a), true) and q.src == dInt(linPosition(p, dNew(a), true))), "P15")
      .union(broken(q.src > x, "P15"))
    own.union(broken(q.dst <= 0 or q.src <= 0, "P22"))
    .union(broken(not(linSolvent(p, a2, now, trades + 1)), "P16"))
  }
  def moves(top: int): Set[Move] =
    0.to(top).map(x => Set(
      { buy: true, x: x, q: linBuy(at.p, x, at.a, at.b), broken: Set() },
      { buy: false, x: x, q: linSell(at.p, x, at.a), broken: Set() })).flatten()
    .filter(m => m.q.src >= 0 and (if (m.buy) m.q.dst <= at.b else m.x <= at.sold))
    .map(m => { ...m, broken: judgedMove(at.p, at.a, at.b, at.sold, at.trades, m.buy, m.x, m.q) })
}
