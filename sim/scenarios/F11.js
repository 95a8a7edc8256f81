'use strict';
class TickError extends Error {}

// A MutationObserver with the DOM's delivery rule: one microtask per batch of records.
function makeObserverDom(sim) {
    const observers = [];
    let queued = false;
    const notify = () => {
        queued = false;
        for (const o of observers) {
            const r = o.records;
            if (!r.length) continue;
            o.records = [];
            sim.note('observer notified');
            try { o.cb(r, o.self); } catch (e) { sim.onUncaught(e, 'mutation observer'); }
        }
    };
    const record = node => {
        for (const o of observers) if (o.node === node) o.records.push({ target: node });
        if (!queued) { queued = true; queueMicrotask(notify); }
    };
    const MO = class MutationObserver {
        constructor(cb) { this._o = { cb, records: [], node: null, self: this }; observers.push(this._o); }
        observe(node, opts) { this._o.node = opts && opts.characterData ? node : null; }
        disconnect() { this._o.node = null; this._o.records = []; }
        takeRecords() { const r = this._o.records; this._o.records = []; return r; }
    };
    const document = {
        createTextNode(t) {
            let data = String(t);
            const node = { nodeType: 3 };
            const def = { get: () => data, set: v => { data = String(v); record(node); }, enumerable: true };
            Object.defineProperty(node, 'data', def);
            Object.defineProperty(node, 'nodeValue', def);
            Object.defineProperty(node, 'textContent', def);
            return node;
        }
    };
    return { MO, document };
}

const ENVS = ['node', 'microtask', 'observer', 'webkit', 'immediate', 'timer'];
async function ticks(ctx) {
    const { c, sim } = ctx;
    const kind = c.pick(ENVS);
    sim.note('environment ' + kind);
    const dom = makeObserverDom(sim);
    const globals = {};
    if (kind !== 'node') globals.process = c.bool() ? undefined : {};
    if (!['node', 'microtask'].includes(kind)) globals.queueMicrotask = undefined;
    if (kind === 'observer') Object.assign(globals, { MutationObserver: dom.MO, document: dom.document });
    if (kind === 'webkit') Object.assign(globals, { WebKitMutationObserver: dom.MO, document: dom.document });
    if (kind !== 'node' && kind !== 'immediate') globals.setImmediate = undefined;
    const { nextTick } = ctx.load('function', { globals });
    ctx.probe('env-' + kind);
    ctx.allowUncaught = true;
    const scheduled = [], ran = [], thrown = [];
    let n = 0, inSchedule = 0;
    const big = ctx.big(), total = big ? c.int(100, 3000) : c.int(1, 14);
    const schedule = () => {
        if (n >= total) return;
        const id = n++;
        const kids = c.weighted([[4, 0], [3, 1], [2, 2], [1, 3]]);
        const throws = c.chance(big ? 1 : 20);
        const again = kids && c.chance(30);
        scheduled.push(id);
        sim.note('schedule ' + id);
        inSchedule++;
        nextTick(() => {
            sim.note('tick ' + id);
            if (inSchedule) ctx.fail('synchronous', `callback ${id} ran inside the scheduling call`);
            if (ran.includes(id)) ctx.fail('ran-twice', `callback ${id} ran again`);
            ran.push(id);
            if (kids) ctx.probe('nested');
            for (let k = 0; k < kids; k++) { schedule(); if (again && k === 0) Promise.resolve().then(schedule); }
            if (throws) { const e = new TickError('tick ' + id); thrown.push(e); ctx.probe('throwing'); throw e; }
        });
        inSchedule--;
    };
    for (let k = c.int(1, 4); k > 0; k--) {
        const burst = big ? c.int(1, 1500) : c.int(1, 4);
        sim.at(c.int(0, 6), 'burst', () => { for (let b = 0; b < burst; b++) schedule(); });
    }
    await sim.drive();
    // Node resumes its tick queue from an immediate after each uncaught error
    for (let k = 0; k < 60 + total && ran.length < scheduled.length; k++) await sim.drain();
    if (sim.violations.length) return;
    ctx.check(ran.length === scheduled.length, 'lost', () => `in environment ${kind}: scheduled ${scheduled}, ran ${ran}`);
    ctx.check(ran.every((x, i) => x === scheduled[i]), 'order', () => `in environment ${kind}: scheduled ${scheduled}, ran ${ran}`);
    const own = new Set(thrown);
    for (const u of sim.uncaught) ctx.check(own.has(u.error), 'crash', () => `in environment ${kind}: ${u.error && u.error.stack}`);
    if (scheduled.length > 1) ctx.nontrivial();
}

module.exports = {
    property: 'F11', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'ticks', run: ticks }],
    rule: 'Each run picks one of six simulated environments and schedules up to 14 callbacks in bursts, from inside other callbacks and from microtasks, a fifth of them throwing; non-trivial = more than one callback.',
    real: ['packages/function nextTick (all platform branches)', 'Node tick and microtask queues'], stub: ['MutationObserver and text nodes (DOM delivery rule)', 'setImmediate, setTimeout (virtual, first in first out)'],
    assumptions: ['Timers of equal duration fire in the order they were set']
};
