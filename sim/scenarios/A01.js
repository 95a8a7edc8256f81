'use strict';
const { outcome, perform, show } = require('../tasks');
const NAMES = ['eachAsync', 'eachRightAsync', 'mapAsync', 'mapRightAsync'];

async function serial(ctx) {
    const { c, sim } = ctx;
    const lib = ctx.load('array');
    const finals = [];
    const calls = c.int(1, c.pick([1, 3]));
    for (let k = 0; k < calls; k++) {
        const name = c.pick(NAMES), right = name.includes('Right'), each = name.startsWith('each');
        const n = ctx.big(3) ? c.int(50, 1500) : c.small(12);
        const arr = Array.from({ length: n }, (_, i) => (c.chance(10) ? undefined : { i }));
        const quiet = n > 12 && c.bool();
        const outs = arr.map((_, i) => {
            const o = outcome(c, i, n > 12 ? c.pick(quiet ? [0] : [0, 0, 1]) : c.pick([0, 0, 8, 25]), { maxLatency: 30 });
            // true stops; truthy values that are not true must not
            if (each && o.ok) o.value = c.weighted([[8, undefined], [2, false], [1, 1], [1, 'true'], [1, {}], [n > 12 ? 0 : 1, true]]);
            return o;
        });
        const label = `${name}${k}`;
        sim.at(c.int(0, 15), 'start ' + label, () => {
            const st = { visited: [], active: 0, over: false };
            const order = arr.map((_, i) => (right ? n - 1 - i : i));
            let stopAt = n, failAt = -1;
            for (let p = 0; p < n; p++) {
                const o = outs[order[p]];
                if (!o.ok) { failAt = p; stopAt = p + 1; break; }
                if (each && o.value === true) { stopAt = p + 1; ctx.probe('stopped-early'); break; }
            }
            const call = ctx.call(label, () => lib[name](arr, function (v, i, a) {
                const p = st.visited.length;
                sim.note(`${label} visits ${i}`);
                ctx.check(arguments.length === 3 && a === arr && i === order[p] && Object.is(v, arr[i]), 'wrong-visit', () => `${label}: visit ${p} got index ${show(i)}, expected ${order[p]}`);
                ctx.check(st.active === 0, 'overlap', () => `${label}: index ${i} visited while index ${st.visited[p - 1]} is unfinished`);
                ctx.check(!st.over, 'visit-after-settle', `${label}: index ${i}`);
                if (p >= stopAt) { ctx.fail('visit-after-stop', `${label}: index ${i} visited after the iteration had to stop`); return; }
                st.visited.push(i);
                st.active++;
                return perform(sim, outs[i], `${label}.${i}`, () => { st.active--; st.last = sim.now; });
            }));
            ctx.check(!call.sync, 'sync-outcome', `${label}: no promise returned`);
            sim.idleHooks.push(() => {
                if (call.state !== 'pending') st.over = true;
                else if (st.active === 0) ctx.fail('stalled', `${label}: nothing is running, ${st.visited.length} of ${stopAt} visited`);
            });
            finals.push(() => {
                if (!ctx.check(call.state !== 'pending', 'never-settled', label)) return;
                ctx.check(st.visited.length === stopAt, 'missed-visit', () => `${label}: visited ${st.visited}, expected ${order.slice(0, stopAt)}`);
                if (failAt >= 0) { ctx.check(call.state === 'rejected' && Object.is(call.value, outs[order[failAt]].error), 'wrong-outcome', () => `${label}: callback failed with ${show(outs[order[failAt]].error)}, call gave ${call.state} ${show(call.value)}`); ctx.probe('failed'); }
                else if (each) ctx.check(call.state === 'fulfilled', 'wrong-outcome', () => `${label}: rejected with ${show(call.value)}`);
                else ctx.check(call.state === 'fulfilled' && Array.isArray(call.value) && call.value.length === n && call.value.every((v, p) => Object.is(v, outs[order[p]].value)), 'wrong-result', () => `${label}: got ${show(call.value)}`);
                if (st.last !== undefined) ctx.check(call.at >= st.last, 'early', `${label}`);
            });
            if (n > 1) ctx.nontrivial();
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
}
module.exports = {
    property: 'A01', packages: ['array'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'serial', run: serial }],
    rule: 'Each run overlaps up to three serial iterations with generated callback latencies, failures and stop values; non-trivial = an array of at least two elements.',
    real: ['packages/array eachAsync, eachRightAsync, mapAsync, mapRightAsync'], stub: ['clock (virtual)', 'callbacks (generated)'], assumptions: ['The array is not modified during the iteration']
};
