'use strict'
// replay.js FILE: carries out the request (or computation) of a replay file once more
// against /repo's working tree and says what is wrong with it.
const fs = require('fs')
const path = require('path')
const { execFileSync } = require('child_process')
const { Machine, bare } = require('./machine.js')
;(async () => {
  const story = JSON.parse(fs.readFileSync(process.argv[2], 'utf8'))
  const bin = story.direct || story.computation ? 'direct' : 'entry'
  const root = path.join(__dirname, '..')
  execFileSync(path.join(root, 'harness', 'build.sh'), [bin], { stdio: ['ignore', 'ignore', 'inherit'] })
  const m = await Machine.start(path.join(process.env.TBC_TARGET || path.join(root, '.build', 'target'), 'debug', bin), bin === 'direct')
  let flags
  if (story.computation) {
    const n = story.computation
    const got = await m.prog.num(n.f, BigInt(n.x), BigInt(n.y), BigInt(n.z))
    m.spec.step('init')
    m.spec.set('num', { f: n.f, x: BigInt(n.x), y: BigInt(n.y), z: BigInt(n.z) })
    m.spec.set('got', { r: got.r, neg: got.neg })
    m.spec.step('absorbNumber')
    flags = [...m.spec.get('flags')]
  } else if (story.history || (story.request && story.focus !== 'P16')) flags = await m.replay(story)
  else await m.behaviour(story.focus, story.seed, story.step + 1, s => { flags = s.flags; return s.i === story.step })
  m.close()
  for (const f of flags) console.log(`${f.p}: ${f.why}`)
  if (!flags.length) console.log('nothing is wrong')
  process.exit(flags.length ? 1 : 0)
})().catch(e => { console.error(e); process.exit(2) })
