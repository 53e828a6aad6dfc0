'use strict'
// one process of an exhaustive sweep: evaluates spec/sweep.qnt case by case
const { Spec, dir } = require('./quint.js')
const big = l => l.map(BigInt)
const bare = x => JSON.stringify(x, (k, v) => typeof v === 'bigint' ? v.toString() : v instanceof Set ? [...v] : v)
let spec = null

function numbers(t) {
  const r = { states: 0, transitions: 0, failures: [] }
  const grid = t.kind === 'binary' ? Number(spec.eval('GRID.size() * 4')) : 5
  for (let k = t.from; k < t.to; k += t.by) {
    spec.set('k', BigInt(k))
    for (const w of spec.eval(t.kind)) r.failures.push(`${w} of ${k}`)
    r.states++; r.transitions += grid
  }
  return r
}

/** all states linear trades reach from one, every trade's promises, and that no sequence
 *  of trades leads to less in both reserves (P16) */
function linear(t) {
  const r = { states: 0, transitions: 0, failures: [] }
  const g = new Map(), p = big(t.p)
  const key = c => c.a + ' ' + c.b
  const todo = [{ p, a: BigInt(t.a), b: BigInt(t.b), sold: 0n, trades: 0n }]
  while (todo.length && g.size < t.most) {
    const c = todo.shift()
    if (g.has(key(c))) continue
    spec.set('at', c)
    const nx = []
    for (const m of spec.eval(`moves(${t.top})`)) {
      r.transitions++
      for (const b of m.broken) r.failures.push(`${b} at ${bare(c)} by ${bare(m)}`)
      const d = m.buy ? { p, a: c.a + m.q.src, b: c.b - m.q.dst, sold: c.sold + m.q.dst, trades: c.trades + 1n }
        : { p, a: c.a - m.q.dst, b: c.b + m.q.src, sold: c.sold - m.q.src, trades: c.trades + 1n }
      nx.push(d); todo.push(d)
    }
    g.set(key(c), { c, nx })
  }
  r.states = g.size
  for (const { c } of g.values()) {
    const seen = new Set([key(c)]), q = [c]
    while (q.length) {
      const e = g.get(key(q.shift()))
      if (e) for (const d of e.nx) if (!seen.has(key(d))) {
        seen.add(key(d)); q.push(d)
        if (d.a <= c.a && d.b <= c.b) r.failures.push(`P16 less left from ${bare(c)} to ${bare(d)}`)
      }
    }
  }
  return r
}

process.on('message', async t => {
  if (!spec) { spec = await Spec.load(dir + '/sweep.qnt', 'sweep', 1); spec.step('init') }
  process.send(t.kind === 'linear' ? linear(t) : numbers(t))
})
