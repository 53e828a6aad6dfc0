'use strict'
// One of several processes that run conformance behaviours.  Work arrives as messages:
//   { focus, from, to, steps }      behaviours with seeds from..to-1
//   { numbers, from, count }        computations on fixed-point numbers
// and is answered with what was covered and the flags that were raised.
const crypto = require('crypto')
const { Machine, bare } = require('./machine.js')

let m = null
const start = async ({ binary, direct }) => { m = await Machine.start(binary, direct) }

const digest = x => crypto.createHash('sha1').update(bare(x, true)).digest('hex').slice(0, 16)
/** the accounts of a request as they were, and what became of them */
function story(s) {
  const at = (w, n) => w.pools.get(n) || w.mints.get(n) || w.toks.get(n)
  const before = {}, after = {}, expected = {}
  const names = new Set(s.req.ac)
  const q = s.w.pools.get(s.req.ac[0])
  if (q) for (const n of [q.a, q.b, q.lp, q.fee]) names.add(n)
  for (const n of names) {
    const b = at(s.w, n)
    if (!b) continue
    before[n] = b
    if (bare(at(s.obs.next, n)) !== bare(b)) after[n] = at(s.obs.next, n)
    if (s.out && bare(at(s.out.next, n)) !== bare(b)) expected[n] = at(s.out.next, n)
  }
  return { request: s.req, before, observed: { ok: s.obs.ok, code: s.obs.code, changed: after },
    specified: s.out ? { ok: s.out.bad.length === 0, violated: s.out.bad.map(x => [...x.codes].join('/')), changed: expected } : undefined }
}

async function behaviours(job) {
  const r = { steps: 0, behaviours: 0, ok: 0, refused: 0, known: 0, calls: {}, flags: [], errors: [], states: [], samples: [] }
  for (let k = job.from; k < job.to; k++) {
    try {
      const each = s => {
        r.steps++
        const q = s.w.pools.get(s.req.ac[0])
        const key = s.req.op + (s.req.mode === 'direct' ? '*' : '') + (q && q.ini === 1n && !s.req.op.startsWith('init') ? '/' + q.ck : '') + (s.obs.ok ? ' done' : ' ' + s.obs.code)
        r.calls[key] = (r.calls[key] || 0) + 1
        if (s.obs.ok) r.ok++; else r.refused++
        r.states.push(digest([s.w.pools, s.w.toks, s.w.mints, s.req]))
        for (const f of s.flags) {
          if (!job.all && f.p !== job.property) continue
          if ((job.known || []).includes(f.why)) { r.known++; continue }
          s.out = m.spec.get('out')
          r.flags.push({ ...f, focus: job.focus, direct: m.direct, seed: k, step: s.i, kind: job.kind, ...(r.flags.length < 3 ? story(s) : {}) })
        }
        if (k === job.from && s.obs.ok && r.samples.length < 1) { s.out = null; r.samples.push({ focus: job.focus, seed: k, step: s.i, ...story(s) }) }
        return false
      }
      if (job.kind === undefined) await m.behaviour(job.focus, k, job.steps, each)
      else if (!await m.variations(job.focus, k, job.kind, job.share, each)) continue
      r.behaviours++
    } catch (e) {
      r.errors.push(job.focus + ' ' + k + ': ' + String(e.stack || e).slice(0, 600))
      if (r.errors.length > 5) break
    }
  }
  return r
}
async function numbers(job) {
  const r = { steps: 0, behaviours: 0, ok: 0, refused: 0, known: 0, calls: {}, flags: [], errors: [], states: [], samples: [] }
  m.seed(job.from)
  m.spec.step('init')
  for (let i = 0; i < job.count; i++) {
    try {
      const s = await m.number()
      r.steps++
      const key = s.num.f + (s.got.panic ? ' aborted' : s.got.r === -1n ? ' none' : ' done')
      r.calls[key] = (r.calls[key] || 0) + 1
      if (s.got.r < 0n) r.refused++; else r.ok++
      r.states.push(digest(s.num))
      for (const f of s.flags) r.flags.push({ ...f, numbers: true, seed: job.from, step: i, computation: s.num, result: s.got })
      if (i === 0) r.samples.push({ computation: s.num, result: s.got })
    } catch (e) {
      r.errors.push('numbers ' + job.from + ': ' + String(e.stack || e).slice(0, 600))
      if (r.errors.length > 5) break
    }
  }
  r.behaviours = 1
  return r
}

process.on('message', async msg => {
  try {
    if (msg.start) { await start(msg.start); process.send({ ready: true }) }
    else process.send(JSON.parse(bare({ done: msg.job.id, result: await (msg.job.numbers ? numbers(msg.job) : behaviours(msg.job)) })))
  } catch (e) { process.send({ failed: String(e.stack || e).slice(0, 1500) }) }
})
process.on('disconnect', () => process.exit(0))
