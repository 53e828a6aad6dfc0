'use strict'
// One conformance machine: the specification chooses, the program acts, the
// specification judges.
const path = require('path')
const { Spec, dir } = require('./quint.js')
const { Program, bare } = require('./program.js')

class Machine {
  static async start(binary, direct) {
    const m = new Machine()
    m.spec = await Spec.load(path.join(dir, 'conform.qnt'), 'conform', 1)
    m.direct = direct
    m.prog = new Program(binary)
    const names = m.spec.eval('ANYNAMES.concat(["fN", "fX", "hP", "hQ", "hN", "hX", "aN", "bN", "lpN", "u1X", "u2N", "u2X", "mC", "pda:N", "SYS", "PROG", "TOK", "u2C", "fQ"])')
    await m.prog.introduce([...new Set(names)], ['P', 'Q', 'N', 'X'], m.spec.eval('LAYOUT'))
    m.spec.step('init')
    return m
  }
  close() { this.prog.close() }
  seed(n) { this.spec.rng.setState(BigInt(n)) }
  /** a behaviour of at most `steps` requests from the given seed; `each` sees every step */
  async behaviour(focus, seed, steps, each) {
    this.seed(seed)
    this.spec.step(`setup("${focus}")`)
    for (let i = 0; i < steps; i++) {
      const s = await this.stepOnce(focus)
      s.i = i
      if (await each(s)) return
    }
  }
  async stepOnce(focus) {
    this.spec.step(`choose1("${focus}", ${this.direct})`)
    const w = this.spec.get('w')
    const req = this.spec.get('req')
    const obs = await this.prog.run(w, req)
    this.spec.set('obs', obs)
    this.spec.step(`absorb("${focus}")`)
    return { w, req, obs, flags: [...this.spec.get('flags')] }
  }
  /** the requests that put other accounts, signers and rights in the places of one that is
      carried out: a share of all variations of a request of the given kind */
  async variations(focus, seed, kind, share, each) {
    this.seed(seed)
    for (let i = 0; ; i++) {
      if (i === 40) return false
      if (i % 5 === 0) this.spec.step(`setup("${focus}")`)
      this.spec.step(`chooseBase(${kind})`)
      if (this.spec.eval('promising')) break
    }
    this.spec.step('settle')
    const n = Number(this.spec.eval('howMany'))
    const gcd = (a, b) => (b ? gcd(b, a % b) : a)
    let stride = Math.floor(n * 0.382) + seed % 7
    while (gcd(stride, n) > 1) stride++
    this.spec.step(`vary(${stride})`)
    for (let i = 0; i < Math.ceil(n * share); i++) {
      if (i) this.spec.step(`vary(${stride})`)
      const w = this.spec.get('w')
      const req = this.spec.get('req')
      const obs = await this.prog.run(w, req)
      this.spec.set('obs', obs)
      this.spec.step(`absorb("${focus}")`)
      if (await each({ w, req, obs, flags: [...this.spec.get('flags')], i })) return true
    }
    return true
  }
  /** written-out requests, as in a replay file: the accounts before them and what they ask */
  async replay(story) {
    const number = x => (typeof x === 'string' && /^-?\d+$/.test(x) ? BigInt(x) : Array.isArray(x) ? x.map(number)
      : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, number(v)])) : x)
    const w = { toks: new Map(), mints: new Map(), pools: new Map() }
    for (const [n, v] of Object.entries(number(story.before))) (v.ver !== undefined ? w.pools : v.sup !== undefined ? w.mints : w.toks).set(n, v)
    this.spec.step('init')
    this.spec.set('w', w)
    for (const v of ['sold', 'trades']) this.spec.set(v, new Map([...w.pools.keys()].map(s => [s, 0n])))
    for (const v of ['past', 'before']) this.spec.set(v, new Map([...w.pools.keys()].map(s => [s, new Set()])))
    for (const request of story.history || [story.request]) {
      const req = number(request)
      req.sg = new Set(req.sg)
      req.ro = new Set(req.ro)
      this.spec.set('req', req)
      this.spec.step('retell')
      const obs = await this.prog.run(this.spec.get('w'), req)
      this.spec.set('obs', obs)
      this.spec.step('absorb("")')
    }
    return [...this.spec.get('flags')]
  }
  /** a computation on fixed-point numbers */
  async number() {
    this.spec.step('chooseNumber')
    const num = this.spec.get('num')
    const got = await this.prog.num(num.f, num.x, num.y, num.z)
    this.spec.set('got', { r: got.r, neg: got.neg })
    this.spec.step('absorbNumber')
    return { num, got, flags: [...this.spec.get('flags')] }
  }
}
module.exports = { Machine, bare }
