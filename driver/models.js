'use strict'
// The closed models behind a property: TLC on the compiled specification (spec/mc.qnt),
// and exhaustive sweeps on tiny machines (spec/sweep.qnt) where values outgrow TLC's.
const path = require('path')
const fs = require('fs')
const os = require('os')
const { spawn, fork } = require('child_process')

const TRADE = { quick: ['trade'], thorough: ['trade', 'deep'] }
const ROLES = { quick: ['once'], thorough: ['roles', 'roles2'] }
const CREATION = { quick: ['creation'], thorough: ['creation'] }
const PLAN = {
  P01: { tlc: ROLES }, P02: { tlc: ROLES }, P03: { tlc: ROLES }, P27: { tlc: ROLES }, P28: { tlc: ROLES },
  P04: { tlc: CREATION }, P05: { tlc: CREATION }, P06: { tlc: CREATION }, P17: { tlc: CREATION }, P25: { tlc: CREATION }, P26: { tlc: CREATION },
  P07: { tlc: TRADE }, P08: { tlc: TRADE }, P18: { tlc: TRADE }, P19: { tlc: TRADE }, P20: { tlc: TRADE }, P21: { tlc: TRADE }, P22: { tlc: TRADE }, P23: { tlc: TRADE },
  P09: { tlc: { quick: ['price'], thorough: ['price', 'deep'] } },
  P10: { tlc: { quick: ['product'], thorough: ['product', 'deep'] } },
  P11: { tlc: { quick: ['stable'], thorough: ['stable', 'deep'] } },
  P12: { linear: true }, P13: { linear: true }, P14: { linear: true }, P15: { linear: true }, P16: { linear: true },
  P24: { numbers: true },
}
const JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'

function tlc(cfg, thorough, root) {
  return new Promise(done => {
    const scratch = fs.mkdtempSync(path.join(os.tmpdir(), 'tlc-'))
    const seconds = thorough ? 420 : 200
    const p = spawn('timeout', [String(seconds + 60), 'java', `-Dtlc2.TLC.stopAfter=${seconds}`, '-XX:+UseParallelGC', '-Xmx6g', '-cp', JARS, 'tlc2.TLC',
      '-workers', '4', '-metadir', scratch, '-config', cfg + '.cfg', 'mc.tla'], { cwd: path.join(root, 'spec', 'tla'), stdio: ['ignore', 'pipe', 'pipe'] })
    let log = ''
    p.stdout.on('data', d => { log += d })
    p.stderr.on('data', d => { log += d })
    p.on('error', e => { log += e })
    p.on('exit', code => {
      fs.rmSync(scratch, { recursive: true, force: true })
      const counts = [...log.matchAll(/([\d,]+) states generated.*?([\d,]+) distinct states found/g)].pop()
      const [generated, distinct] = counts ? [1, 2].map(i => Number(counts[i].replace(/,/g, ''))) : [0, 0]
      const complete = /Model checking completed\. No error has been found/.test(log)
      const part = { model: `spec/tla/${cfg}.cfg`, tool: 'TLC', states: distinct, transitions: generated, explored_fully: complete }
      // running out of time is not a failure, an error or no exploration at all is
      const failed = /Error:|Invariant .* is violated/.test(log) || (!complete && distinct === 0)
      done({ part, failure: failed ? `${cfg}: ${(/Error: .*/.exec(log) || [`exit ${code}`])[0]}` : null })
    })
  })
}

function sweep(kind, tasks) {
  return new Promise(done => {
    const sum = { part: { model: `spec/sweep.qnt ${kind}`, tool: 'Quint evaluator', states: 0, transitions: 0, explored_fully: true }, failure: null }
    let alive = 0
    for (let i = 0; i < Math.min(4, tasks.length); i++) {
      alive++
      const w = fork(path.join(__dirname, 'sweeper.js'), [], { stdio: ['ignore', 'inherit', 'inherit', 'ipc'] })
      let busy = false
      const next = () => { const t = tasks.shift(); busy = !!t; if (t) w.send(t); else w.disconnect() }
      w.on('message', r => {
        sum.part.states += r.states; sum.part.transitions += r.transitions
        if (r.failures.length && !sum.failure) sum.failure = `${kind}: ${r.failures[0]} (and ${r.failures.length - 1} more)`
        next()
      })
      w.on('exit', c => { if (busy) sum.failure = `${kind}: a sweeper ended: ${c}`; if (!--alive) done(sum) })
      next()
    }
  })
}

const LINEAR = [[1, 1, 0, 1], [1, 2, 0, 1], [1, 1, 1, 1], [1, 2, 1, 2], [2, 1, 1, 3], [3, 2, 0, 1], [1, 4, 2, 1], [1, 7, 1, 5], [1, 16, 1, 1], [2, 5, 3, 2]]
function linearTasks(thorough) {
  const l = []
  for (const p of LINEAR) for (const a of thorough ? [0, 1, 2, 3, 5, 7] : [0, 3]) for (const b of thorough ? [4, 7, 9] : [6])
    l.push({ kind: 'linear', p, a, b, top: thorough ? 14 : 9, most: thorough ? 400 : 60 })
  return l
}
function numberTasks(thorough) {
  const l = []
  const [all, some] = [262144, thorough ? 16 : 64]
  for (let from = 0; from < all; from += 8192) l.push({ kind: 'unary', from, to: from + 8192, by: thorough ? 1 : 8 })
  for (let from = 0; from < all; from += 8192) l.push({ kind: 'binary', from: from + (from / 8192) % some, to: from + 8192, by: thorough ? 256 : 2048 })
  l.push({ kind: 'binary', from: 0, to: thorough ? 512 : 64, by: 1 })
  return l
}

async function run(property, thorough, root) {
  const plan = PLAN[property] || {}
  const out = { states: 0, transitions: 0, parts: [], failures: [] }
  const add = r => {
    out.states += r.part.states; out.transitions += r.part.transitions; out.parts.push(r.part)
    if (r.failure) out.failures.push(r.failure)
  }
  await Promise.all([
    (async () => { for (const c of plan.tlc ? plan.tlc[thorough ? 'thorough' : 'quick'] : []) add(await tlc(c, thorough, root)) })(),
    (async () => { if (plan.linear) add(await sweep('linear trades', linearTasks(thorough))) })(),
    (async () => { if (plan.numbers) add(await sweep('arithmetic', numberTasks(thorough))) })(),
  ])
  return out
}
module.exports = { run, PLAN }
