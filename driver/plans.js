'use strict'
// What each property is explored with: how many behaviours, with the generator's
// attention on which property (see spec/gen.qnt), and how long they are.
// direct: also through the library, which offers what has no instruction.
const b = (own, others, steps = 12) => (id) =>
  [{ focus: id, n: own, steps }].concat(Object.entries(others).map(([focus, n]) => ({ focus, n, steps: focus === 'P16' ? 40 : 12 })))
const make = {
  P01: [b(2400, { P08: 400, P19: 200 }), { roles: 3 }],
  P02: [b(2600, { P08: 300 }), { roles: 2 }],
  P03: [b(2600, { P08: 300 }), { roles: 2 }],
  P04: [b(2800, {}), { direct: true, roles: 2, kinds: [8, 9] }],
  P05: [b(2200, { P04: 400, P25: 300 }), { direct: true }],
  P06: [b(2600, { P05: 300 })],
  P07: [b(1800, { P09: 250, P10: 250, P20: 250, P21: 250 })],
  P08: [b(2000, { P18: 300, P19: 300, P28: 300 }), { direct: true, roles: 1 }],
  P09: [b(2800, {})],
  P10: [b(2800, {})],
  P11: [b(2800, {})],
  P12: [b(2400, { P16: 100 })],
  P13: [b(2400, { P16: 100 })],
  P14: [b(2400, { P16: 100 })],
  P15: [b(2400, { P16: 100 })],
  P16: [b(750, { P15: 400 }, 40)],
  P17: [b(2400, { P05: 400 }), { direct: true }],
  P18: [b(2800, {}), { direct: true }],
  P19: [b(2800, {})],
  P20: [b(2800, {})],
  P21: [b(2800, {})],
  P22: [b(1800, { P09: 200, P11: 300, P20: 250, P21: 250 })],
  P23: [b(1500, { P04: 200, P11: 200, P14: 200, P17: 200, P18: 200, P20: 200, P21: 200 })],
  P24: [b(200, { P14: 200 }), { direct: true, needsDirect: true, numbers: 120000 }],
  P25: [b(2800, {}), { direct: true, needsDirect: true }],
  P26: [b(2800, {}), { direct: true }],
  P27: [b(2800, {}), { roles: 1 }],
  P28: [b(2600, { P08: 200 }), { roles: 1 }],
}
const PLANS = {}
for (const [id, [f, more]] of Object.entries(make)) PLANS[id] = { behaviours: f(id), ...more }
module.exports = { PLANS }
