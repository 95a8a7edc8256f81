'use strict';
const { outcome, perform, show } = require('../tasks');
const NAMES = ['eachParallel', 'eachRightParallel', 'mapParallel', 'mapRightParallel'];

async function parallelIter(ctx) {
    const { c, sim } = ctx;
    const lib = ctx.load('array');
    const finals = [];
    const calls = c.int(1, c.pick([1, 3]));
    for (let k = 0; k < calls; k++) {
        const name = c.pick(NAMES), right = name.includes('Right'), each = name.startsWith('each');
        const n = ctx.big(3) ? c.int(50, 1500) : c.small(12);
        const arr = Array.from({ length: n }, (_, i) => (c.chance(10) ? undefined : { i }));
        const fails = c.pick(n > 12 ? [0, 0, 1] : [0, 0, 10, 40, 80]);
        const outs = arr.map((_, i) => outcome(c, i, fails, { maxLatency: 30 }));
        const label = `${name}${k}`, shrink = n && c.chance(20) ? c.raw(n) : n;
        sim.at(c.int(0, 15), 'start ' + label, () => {
            const order = arr.map((_, i) => (right ? n - 1 - i : i));
            const st = { visited: [], settled: 0, firstFail: null, failures: 0 };
            const call = ctx.call(label, () => lib[name](arr, function (v, i, a) {
                const p = st.visited.length;
                ctx.check(arguments.length === 3 && a === arr && i === order[p] && Object.is(v, arr[i]), 'wrong-visit', () => `${label}: visit ${p} got index ${show(i)}, expected ${order[p]}`);
                st.visited.push(i);
                // the owner of the array takes elements out once all of them have been visited
                if (p === n - 1 && shrink < n) { sim.fault('array-emptied-by-its-owner'); arr.splice(shrink, right ? n : n - shrink); }
                sim.note(`${label} visits ${i}`);
                const o = outs[i];
                return perform(sim, o, `${label}.${i}`, () => {
                    st.settled++;
                    if (!o.ok) { st.failures++; if (!st.firstFail) st.firstFail = { step: sim.steps, errors: [] }; if (st.firstFail.step === sim.steps) st.firstFail.errors.push(o.error); }
                });
            }));
            ctx.check(!call.sync, 'sync-outcome', `${label}: no promise returned`);
            const syncThrow = order.findIndex(i => !outs[i].ok && outs[i].mode === 'sync');
            sim.idleHooks.push(() => {
                // all callbacks are started in the turn of the call, whether or not one throws
                if (!st.judged) { st.judged = true; ctx.check(st.visited.length === n, 'not-started', () => `${label}: only ${st.visited.length} of ${n} callbacks started at once`); }
                if (call.state === 'fulfilled') ctx.check(st.settled === n, 'early', `${label}: resolved with ${st.settled} of ${n} callbacks finished`);
                else if (call.state === 'pending' && st.settled === st.visited.length) ctx.fail('stalled', `${label}: everything finished but the call is pending`);
            });
            finals.push(() => {
                if (!ctx.check(call.state !== 'pending', 'never-settled', label)) return;
                if (st.firstFail) {
                    ctx.check(call.state === 'rejected' && st.firstFail.errors.some(e => Object.is(e, call.value)), 'wrong-outcome', () => `${label}: first failure ${st.firstFail.errors.map(show)}, call gave ${call.state} ${show(call.value)}`);
                    if (st.failures > 1) ctx.probe('several-failures');
                    if (syncThrow > 0) ctx.probe('sync-throw-after-others-started');
                } else {
                    ctx.check(call.state === 'fulfilled', 'wrong-outcome', () => `${label}: rejected ${show(call.value)}`);
                    ctx.check(st.visited.length === n, 'missed-visit', `${label}`);
                    if (!each) ctx.check(Array.isArray(call.value) && call.value.length === n && call.value.every((v, p) => Object.is(v, outs[order[p]].value)), 'wrong-result', () => `${label}: got ${show(call.value)}`);
                }
            });
            if (n > 1) ctx.nontrivial();
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
}
module.exports = {
    property: 'A02', packages: ['array'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'parallel', run: parallelIter }],
    rule: 'Each run overlaps up to three parallel iterations with generated completion orders and failures; non-trivial = an array of at least two elements.',
    real: ['packages/array eachParallel, eachRightParallel, mapParallel, mapRightParallel'], stub: ['clock (virtual)', 'callbacks (generated)'],
    assumptions: ['The array is not modified before its last element has been visited']
};
