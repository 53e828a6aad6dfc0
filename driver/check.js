'use strict'
// check.js PROPERTY quick|thorough
// Builds the conformance harness from /repo's working tree, runs behaviours of the
// specification against it on several processes, and reports those in which the
// property is broken.  Exit 0: held; 1: broken; 2: no answer.
const path = require('path')
const fs = require('fs')
const os = require('os')
const { fork, spawn, execFileSync } = require('child_process')
const { PLANS } = require('./plans.js')
const models = require('./models.js')

const ROOT = path.join(__dirname, '..')
const [property, tier] = [process.argv[2], process.argv[3] || process.env.VERIF_TIER || 'quick']
const plan = PLANS[property]
if (!plan || !['quick', 'thorough'].includes(tier)) { console.error('usage: check.js P01..P28 quick|thorough'); process.exit(2) }
const SEED = Number.parseInt(process.env.VERIF_SEED || '1', 10) || 0
const thorough = tier === 'thorough'
const WORKERS = Math.max(2, Math.min(8, os.cpus().length))
const LIMIT = (thorough ? 560 : 330) * 1000     // exploring ends here, however far it got
const t0 = Date.now()
const say = s => console.log(s)

// ---- what is already known --------------------------------------------------------------
const known = fs.readFileSync(path.join(ROOT, 'KNOWN_FINDINGS'), 'utf8').split('\n')
  .map(l => /^finding: property=(\S+) why="([^"]*)" witness=(\S+) (.*)$/.exec(l)).filter(Boolean)
  .map(x => ({ property: x[1], why: x[2], witness: x[3], what: x[4] })).filter(x => x.property === property)

// ---- the harness --------------------------------------------------------------------------
function build(bin) {
  return new Promise(done => {
    const p = spawn(path.join(ROOT, 'harness', 'build.sh'), [bin], { stdio: ['ignore', 'pipe', 'pipe'] })
    let log = ''
    p.stdout.on('data', d => { log += d })
    p.stderr.on('data', d => { log += d })
    p.on('exit', c => done(c === 0 ? path.join(process.env.TBC_TARGET || path.join(ROOT, '.build', 'target'), 'debug', bin) : (say(log.slice(-3000)), null)))
  })
}

// ---- the work -----------------------------------------------------------------------------
function jobs() {
  const list = []
  const base = (Math.abs(SEED) % 900) * 1e10 + (thorough ? 5e9 : 0) + Object.keys(PLANS).indexOf(property) * 1e8
  let id = 0
  for (const part of plan.behaviours) {
    const n = Math.ceil(part.n * (thorough ? plan.deeper || 9 : 1))
    const chunk = Math.max(1, Math.round(240 / part.steps))
    for (let k = 0; k < n; k += chunk)
      list.push({ id: id++, property, known: known.map(k => k.why), focus: part.focus, steps: part.steps, from: base + k, to: base + Math.min(n, k + chunk), weight: k / n })
  }
  if (plan.numbers) for (let k = 0; k < plan.numbers * (thorough ? 8 : 1); k += 2000)
    list.push({ id: id++, property, numbers: true, from: base + 5e7 + k, count: 2000, weight: k / (plan.numbers * (thorough ? 8 : 1)) })
  // other accounts, signers and rights in the places of requests that are carried out
  if (plan.roles) {
    const n = Math.ceil(plan.roles * (thorough ? 10 : 1))
    for (let k = 0; k < n; k++) for (const kind of plan.kinds || [0, 1, 2, 3, 4, 5, 6, 7, 8, 9])
      list.push({ id: id++, property, known: known.map(x => x.why), focus: property, kind, share: thorough ? 1 : plan.share || 1, from: base + 6e7 + k * 16 + kind, to: base + 6e7 + k * 16 + kind + 1, weight: k / n })
  }
  // every part advances at the same rate, should time run out
  return list.sort((a, b) => a.weight - b.weight || a.id - b.id)
}

async function explore(binary, direct) {
  const todo = jobs()
  const total = todo.length
  const sum = { steps: 0, behaviours: 0, ok: 0, refused: 0, known: 0, calls: {}, flags: [], errors: [], states: new Set(), samples: [], jobs: 0, planned: total }
  await Promise.all(Array.from({ length: WORKERS }, () => new Promise(done => {
    const w = fork(path.join(__dirname, 'worker.js'), [], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'] })
    let busy = null
    const next = () => {
      busy = Date.now() - t0 < LIMIT && sum.flags.length < 40 && sum.errors.length < 40 ? todo.shift() : null
      if (busy) w.send({ job: busy }); else { w.disconnect(); done() }
    }
    w.on('message', msg => {
      if (msg.failed) { sum.errors.push(msg.failed); w.disconnect(); return done() }
      if (msg.done !== undefined) {
        const r = msg.result
        for (const k of ['steps', 'behaviours', 'ok', 'refused', 'known']) sum[k] += r[k]
        for (const [k, v] of Object.entries(r.calls)) sum.calls[k] = (sum.calls[k] || 0) + v
        sum.flags.push(...r.flags.map(f => ({ ...f, job: msg.done })))
        sum.errors.push(...r.errors)
        for (const s of r.states) sum.states.add(s)
        if (sum.samples.length < 2) sum.samples.push(...r.samples)
        sum.jobs++
      }
      next()
    })
    w.on('exit', c => { if (busy && c) { sum.errors.push('a worker ended: ' + c); busy = null } done() })
    w.send({ start: { binary, direct } })
  })))
  return sum
}

/** does the recorded witness of a known finding still fail the recorded way? */
async function witness(binary, direct, k) {
  const { Machine } = require('./machine.js')
  const m = await Machine.start(binary, direct)
  try {
    const flags = await m.replay(JSON.parse(fs.readFileSync(path.join(ROOT, k.witness), 'utf8')))
    return flags.some(f => f.p === k.property && f.why === k.why)
  } finally { m.close() }
}

async function main() {
  const modelled = models.run(property, thorough, ROOT)
  let direct = !!plan.direct
  let binary = await build(direct ? 'direct' : 'entry')
  if (!binary && direct && !plan.needsDirect) { direct = false; binary = await build('entry') }
  if (!binary) { say('no answer: the harness does not build against /repo'); process.exit(2) }
  const model = await modelled
  const r = await explore(binary, direct)

  const fresh = r.flags
  for (const k of known) if (await witness(binary, direct, k)) say(`KNOWN-FINDING: property=${property} ${k.what}`)

  const wall = (Date.now() - t0) / 1000
  fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
  fs.writeFileSync(path.join(ROOT, 'evidence', property + '.json'), JSON.stringify({
    property, tier, seed: SEED, level: 'model_checking',
    coverage: {
      states: model.states + r.states.size,
      transitions: model.transitions + r.steps,
      traces_validated_against_impl: r.behaviours,
      requests_validated_against_impl: r.steps,
      carried_out: r.ok, refused: r.refused,
      distinct_situations_against_impl: r.states.size,
      requests_by_kind_and_outcome: Object.fromEntries(Object.entries(r.calls).sort()),
      models: model.parts,
      explored_fully: r.jobs === r.planned,
      harness: direct ? 'direct' : 'entry',
      violations: fresh.length, known: r.known,
      samples: r.samples,
    },
    wall_s: wall,
  }, null, 1) + '\n')

  say(`${property}: ${r.behaviours} behaviours, ${r.steps} requests (${r.ok} carried out, ${r.refused} refused), ${r.states.size} situations; model: ${model.states} states, ${model.transitions} transitions; ${wall.toFixed(0)} s`)
  for (const f of model.failures) say('model: ' + f)
  if (fresh.length) {
    fresh.sort((a, b) => a.job - b.job || a.seed - b.seed || a.step - b.step)
    const first = fresh.find(f => f.request || f.computation) || fresh[0]
    const file = path.join(ROOT, 'evidence', `${property}.violation.json`)
    fs.writeFileSync(file, JSON.stringify(first, null, 1) + '\n')
    say(`${fresh.length} times broken, e.g. (${first.focus || 'numbers'} seed ${first.seed} step ${first.step}): ${first.why}`)
    say(`VIOLATION property=${property} replay=${file}`)
    process.exit(1)
  }
  for (const e of r.errors.slice(0, 5)) say('error: ' + e)
  if (r.errors.length || model.failures.length || r.steps === 0) { say('no answer'); process.exit(2) }
  process.exit(0)
}
main().catch(e => { console.error(e); process.exit(2) })
