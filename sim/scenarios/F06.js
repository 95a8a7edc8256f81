'use strict';
const { later, latency, value, error, show } = require('../tasks');

async function collect(ctx) {
    const { c, sim } = ctx;
    const big = ctx.big();
    const total = c.chance(60) ? c.int(1, big ? 150 : 4) : undefined;
    const isRestart = c.chance(70), isAccumulate = c.chance(25);
    const n = big ? c.int(50, 500) : c.int(1, 12);
    const pFail = c.pick(big ? [0, 0, 1] : [0, 0, 15, 40]);
    const { collectItems } = ctx.load('function');
    const opts = {};
    if (total !== undefined) opts.total = total;
    if (isRestart || c.bool()) opts.isRestart = isRestart;
    if (isAccumulate || c.bool()) opts.isAccumulate = isAccumulate;
    const add = Object.keys(opts).length || c.bool() ? collectItems(opts) : collectItems();
    // model
    let buffer = [], over = false, pendingBatches = 0, overlap = 0, rejectedBatches = 0, batches = 0;
    const pushes = [], seen = [];
    let i = 0;
    const push = () => {
        if (i >= n) return;
        const id = i++;
        const ok = !c.chance(pFail);
        // one and the same promise may be pushed again: it is another item
        const old = seen.length && c.chance(12) ? c.pick(seen) : null;
        const o = old ? old.o : ok ? { ok, value: c.chance(20) ? value(c, id) : { item: id } } : { ok, error: error(c, id) };
        const ms = latency(c, 60);
        const mode = c.weighted([[4, 'later'], [1, 'settled']]);
        const p = old ? old.p : mode === 'later' ? later(sim, ms, 'item ' + id, o) : ok ? Promise.resolve(o.value) : Promise.reject(o.error);
        if (old) sim.fault('same-item-again'); else seen.push({ p, o });
        p.then(() => { o.done = true; }, () => { o.done = true; }); // the pusher also watches its own item
        const flag = total === undefined && c.chance(30);
        sim.note(`push ${id}${flag ? ' done' : ''}`);
        let expect = { done: false };
        if (!over || isAccumulate || true) buffer.push(o);
        if (!over && ((total === undefined && flag) || (total !== undefined && buffer.length % total === 0))) {
            expect = { done: true, items: buffer.slice() };
            if (!isRestart) over = true;
            if (!isAccumulate) buffer = [];
            batches++;
            if (pendingBatches > 0) overlap++;
            pendingBatches++;
        }
        if (pendingBatches > 0 && !expect.done) overlap++;
        let r;
        try { r = total !== undefined || (!flag && c.bool()) ? add(p) : add(p, flag); } catch (e) { ctx.fail('sync-throw', show(e)); return; }
        const rec = { id, expect, settled: false };
        pushes.push(rec);
        const fin = f => v => { rec.settled = true; if (expect.done) pendingBatches--; f(v); };
        r.then(fin(v => {
            sim.note(`push ${id} -> ${show(v)}`);
            if (!expect.done) { ctx.check(v && v.done === false && v.value === undefined, 'spurious-batch', () => `push ${id} reported ${show(v)}, expected nothing`); return; }
            ctx.check(expect.items.every(x => x.ok), 'failed-batch-delivered', () => `push ${id} delivered ${show(v)} although an item was rejected`);
            ctx.check(v && v.done === true && Array.isArray(v.value), 'batch-missing', () => `push ${id} reported ${show(v)}, expected a batch of ${expect.items.length}`);
            if (v && Array.isArray(v.value)) ctx.check(v.value.length === expect.items.length && v.value.every((x, k) => Object.is(x, expect.items[k].value)), 'batch-content', () => `push ${id} delivered ${show(v.value)}, expected ${show(expect.items.map(x => x.value))}`);
            ctx.check(expect.items.every(x => x.done), 'batch-early', () => `push ${id} delivered before all its items settled`);
        }), fin(e => {
            sim.note(`push ${id} !! ${show(e)}`);
            rejectedBatches++;
            ctx.check(expect.done && expect.items.some(x => !x.ok && Object.is(x.error, e)), 'wrong-rejection', () => `push ${id} rejected with ${show(e)}${expect.done ? '' : ', although it closes no batch'}`);
        }));
        if (c.chance(40)) push(); // same synchronous burst
        else sim.at(c.chance(50) ? 0 : c.int(0, 30), 'push', push);
    };
    sim.at(0, 'push', push);
    await sim.drive();
    if (sim.violations.length) return;
    for (const r of pushes) ctx.check(r.settled, 'push-never-settled', `push ${r.id} never settled`);
    if (batches) ctx.nontrivial();
    if (overlap) ctx.probe('pushed-while-batch-pending');
    if (batches > 1) ctx.probe('several-batches');
    if (rejectedBatches) ctx.probe('batch-rejected');
}

module.exports = {
    property: 'F06', packages: ['function'], runs: { quick: 90000, thorough: 1200000 },
    scenarios: [{ name: 'collect', run: collect }],
    rule: 'Each run draws a mode (size limit or manual flag, restart, accumulate), a history of pushes in bursts and an item completion order; non-trivial = at least one batch closed.',
    real: ['packages/function collectItems'], stub: ['items (generated promises)'],
    assumptions: ['the size limit is a positive integer', 'every pushed value is a promise whose own rejection the pusher also observes']
};
