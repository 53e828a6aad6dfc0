'use strict'
// Loads a Quint specification with Quint's own parser, type checker and evaluator and
// runs its definitions and actions.  Values cross the border as plain JavaScript:
// int <-> BigInt, str, bool, record <-> object, list <-> array, map <-> Map, set <-> Set.
const path = require('path')
const fs = require('fs')
const Q = process.env.QUINT_LIB || '/opt/veriftools/quint/node_modules/@informalsystems/quint/dist/src/'
const { rv } = require(Q + 'runtime/impl/runtimeValue')
const { Evaluator } = require(Q + 'runtime/impl/evaluator')
const { buildExpr } = require(Q + 'runtime/impl/builder')
const { newRng } = require(Q + 'rng')
const { noExecutionListener } = require(Q + 'runtime/trace')
const { quintErrorToString } = require(Q + 'quintError')
const cli = require(Q + 'cliCommands')
const { toExpr } = require(Q + 'cliHelpers')

function fromRv(v) {
  switch (v.constructor.name) {
    case 'RuntimeValueInt': return v.toInt()
    case 'RuntimeValueBool': return v.toBool()
    case 'RuntimeValueStr': return v.toStr()
    case 'RuntimeValueTupleOrList': return v.toList().toArray().map(fromRv)
    case 'RuntimeValueRecord': {
      const o = {}
      v.toOrderedMap().forEach((x, k) => { o[k] = fromRv(x) })
      return o
    }
    case 'RuntimeValueMap': {
      const m = new Map()
      v.toMap().forEach((x, k) => m.set(fromRv(k), fromRv(x)))
      return m
    }
    case 'RuntimeValueVariant': return { tag: v.label, value: fromRv(v.value) }
    default: return new Set([...v.toSet()].map(fromRv))
  }
}
function toRv(x) {
  switch (typeof x) {
    case 'bigint': return rv.mkInt(x)
    case 'number': return rv.mkInt(BigInt(x))
    case 'boolean': return rv.mkBool(x)
    case 'string': return rv.mkStr(x)
  }
  if (Array.isArray(x)) return rv.mkList(x.map(toRv))
  if (x instanceof Map) return rv.mkMap([...x].map(([k, v]) => [toRv(k), toRv(v)]))
  if (x instanceof Set) return rv.mkSet([...x].map(toRv))
  return rv.mkRecord(Object.entries(x).map(([k, v]) => [k, toRv(v)]))
}

class SpecError extends Error {}
function ok(e, what) {
  if (e.isLeft()) {
    const v = e.value
    const msg = v.code ? quintErrorToString(v) : JSON.stringify(v, (k, x) => (typeof x === 'bigint' ? x.toString() : k === 'stage' ? (x.errors || []).slice(0, 5) : x))
    throw new SpecError(what + ': ' + msg.slice(0, 4000))
  }
  return e.unwrap()
}

class Spec {
  static async load(file, main, seed, typecheck) {
    const args = { input: file, main, verbosity: 0 }
    const loaded = ok(await cli.load(args), 'load')
    let st = ok(await cli.parse(loaded), 'parse')
    if (typecheck) st = ok(await cli.typecheck(st), 'typecheck')
    return new Spec(st, seed)
  }
  constructor(stage, seed) {
    this.stage = stage
    this.rng = newRng(BigInt(seed))
    // no call-tree recording: the recorder would keep every evaluation in memory
    this.ev = new Evaluator(stage.resolver.table, noExecutionListener, this.rng)
    this.cache = new Map()
  }
  compile(src) {
    let f = this.cache.get(src)
    if (!f) {
      const e = ok(toExpr(this.stage, src), src)
      f = buildExpr(this.ev.builder, e)
      this.cache.set(src, f)
    }
    return f
  }
  /** value of an expression in the current state */
  eval(src) { return fromRv(ok(this.compile(src)(this.ev.ctx), src)) }
  /** takes one transition; false when the action is not enabled */
  step(action) {
    const r = ok(this.compile(action)(this.ev.ctx), action)
    if (!r.toBool()) return false
    this.ev.builder.varStorage.shiftVars()
    return true
  }
  reg(name) {
    if (!this.regs) this.regs = new Map()
    let r = this.regs.get(name)
    if (!r) {
      this.ev.builder.varStorage.vars.forEach(x => { if (x.name === name || x.name.endsWith('::' + name)) r = x })
      if (!r) throw new SpecError('no variable ' + name)
      this.regs.set(name, r)
    }
    return r
  }
  get(name) { return fromRv(this.reg(name).value.unwrap()) }
  set(name, v) {
    this.reg(name).value = require('@sweet-monads/either').right(toRv(v))
    this.ev.builder.varStorage.clearCaches()
  }
}
module.paths.push('/opt/veriftools/quint/node_modules')
module.exports = { Spec, SpecError, toRv, fromRv, dir: path.join(__dirname, '..', 'spec'), fs }
