'use strict'
// The implementation side: speaks to the conformance harness, which runs the real
// program, and translates between the specification's values and account data.
const { spawn } = require('child_process')
const readline = require('readline')

const bare = x => JSON.stringify(x, (k, v) => (typeof v === 'bigint' ? v.toString() : v instanceof Set ? [...v] : v instanceof Map ? [...v] : v))

// an answer that takes longer than this is none: on chain the computation is metered
const PATIENCE = 30000
const ABORTED = { ok: false, code: -1, diff: {} }

class Program {
  constructor(binary) {
    this.binary = binary
    this.deaths = 0
    this.launch()
  }
  launch() {
    const proc = spawn(this.binary, [], { stdio: ['pipe', 'pipe', 'inherit'] })
    this.proc = proc
    this.waiting = []
    readline.createInterface({ input: proc.stdout }).on('line', l => {
      const w = proc === this.proc && this.waiting.shift()
      if (w) { clearTimeout(w.timer); w.ok(JSON.parse(l)) }
    })
    proc.on('exit', (c, s) => {
      if (proc !== this.proc) return
      this.proc = null
      for (const w of this.waiting.splice(0)) { clearTimeout(w.timer); w.no(new Error(`the harness ended (${c === null ? s : c})`)) }
    })
    proc.stdin.on('error', () => {})
  }
  ask(o) {
    if (!this.proc) return Promise.reject(new Error('the harness ended'))
    const proc = this.proc
    return new Promise((ok, no) => {
      this.waiting.push({ ok, no, timer: setTimeout(() => proc.kill('SIGKILL'), PATIENCE) })
      proc.stdin.write(bare(o) + '\n')
    })
  }
  /** as ask, but a program that dies or does not come back has aborted the request */
  async attempt(o, aborted) {
    try { return await this.ask(o) } catch (e) {
      if (++this.deaths > 50) throw e
      this.launch()
      await this.introduce(...this.introduced)
      return aborted
    }
  }
  close() { if (this.proc) this.proc.stdin.end() }

  /** learns the addresses of names and the layout of pool records from the specification */
  async introduce(names, states, layout) {
    this.introduced = [names, states, layout]
    const r = await this.ask({ cmd: 'keys', names, bumps: states })
    this.keys = new Map(Object.entries(r.keys))
    this.names = new Map([...this.keys].map(([n, k]) => [k, n]))
    this.names.set('0'.repeat(64), 'SYS')
    this.bumps = r.bumps
    this.layout = layout
  }

  // ---- pool records ----
  encodePool(n, q) {
    let hex = ''
    const le = (v, w) => {
      let s = ''
      for (let i = 0; i < w; i++) { s += Number(v & 255n).toString(16).padStart(2, '0'); v >>= 8n }
      return s
    }
    for (const f of this.layout) {
      const v = q[f.name]
      const w = Number(f.width)
      if (f.kind === 'number') hex += le(v, w)
      else if (f.kind === 'bump') hex += le(v === 0n && q.ini !== 0n ? BigInt(this.bumps[n]) : v, w)
      else if (f.kind === 'address') {
        if (!this.keys.has(v === '' ? 'SYS' : v)) throw new Error('no address for ' + v)
        hex += this.keys.get(v === '' ? 'SYS' : v)
      }
      else for (let i = 0; i < w / 8; i++) hex += le(v[i], 8)
    }
    const len = Number(q.len)
    return hex.length >= 2 * len ? hex.slice(0, 2 * len) : hex.padEnd(2 * len, '0')
  }
  /** null when the bytes are no record in the specified layout */
  decodePool(n, hex, prog) {
    const q = { prog, len: BigInt(hex.length / 2) }
    let at = 0
    for (const f of this.layout) {
      const w = Number(f.width)
      const h = hex.slice(2 * at, 2 * (at + w))
      if (h.length !== 2 * w) return null
      const num = s => BigInt('0x' + (s.match(/../g).reverse().join('') || '0'))
      if (f.kind === 'number') q[f.name] = num(h)
      else if (f.kind === 'bump') {
        const v = num(h)
        q[f.name] = v === BigInt(this.bumps[n]) ? 0n : v
      } else if (f.kind === 'address') {
        if (!this.names.has(h)) return null
        q[f.name] = this.names.get(h)
      } else q[f.name] = h.match(/.{16}/g).map(num)
      at += w
    }
    return q
  }

  // ---- requests ----
  encodeWorld(w, only) {
    const o = {}
    for (const n of only) {
      if (w.pools.has(n)) o[n] = { k: 'raw', hex: this.encodePool(n, w.pools.get(n)), prog: w.pools.get(n).prog }
      else if (w.mints.has(n)) o[n] = { k: 'mint', ...w.mints.get(n) }
      else if (w.toks.has(n)) o[n] = { k: 'tok', ...w.toks.get(n) }
    }
    return o
  }
  wire(w, c) {
    for (const x of c.ar.concat(c.fees, c.cp, c.con.fees)) if (x < 0n || x > 0xffffffffffffffffn) throw new Error('not a 64-bit number: ' + x)
    return { cmd: 'run', mode: c.mode, op: c.op, accts: c.ac, sg: c.sg, ro: c.ro, args: c.ar, fees: c.fees, ck: c.ck, cp: c.cp,
      con: c.con, world: this.encodeWorld(w, new Set(c.ac)) }
  }
  /** carries out request c in world w; what was observed, in the specification's terms */
  async run(w, c) {
    const r = await this.attempt(this.wire(w, c), ABORTED)
    return this.observe(w, r)
  }
  observe(w, r) {
    const next = { toks: new Map(w.toks), mints: new Map(w.mints), pools: new Map(w.pools) }
    let alien = false
    for (const [n, d] of Object.entries(r.diff || {})) {
      if (d.k === 'tok' && w.toks.has(n))
        next.toks.set(n, { mint: d.mint, own: d.own, amt: BigInt(d.amt), dlg: d.dlg, dam: BigInt(d.dam), cls: d.cls, st: BigInt(d.st), prog: d.prog })
      else if (d.k === 'mint' && w.mints.has(n))
        next.mints.set(n, { auth: d.auth, sup: BigInt(d.sup), frz: d.frz, st: BigInt(d.st), prog: d.prog })
      else if (d.k === 'raw' && w.pools.has(n)) {
        const q = this.decodePool(n, d.hex, d.prog)
        if (q) next.pools.set(n, q); else alien = true
      } else alien = true
    }
    return { ok: r.ok, code: BigInt(r.code), alien, next }
  }
  async num(f, x, y, z) {
    const r = await this.attempt({ cmd: 'num', f, x: x.toString(), y: y.toString(), z: z.toString() }, { panic: true })
    if (r.error) throw new Error(r.error)
    return r.panic ? { panic: true, r: -2n, neg: false } : { r: BigInt(r.r), neg: !!r.neg }
  }
}
module.exports = { Program, bare }
