'use strict';
// Generators for asynchronous tasks whose latency and outcome the chooser decides.
class TaskError extends Error {
    constructor(m) { super(m); this.name = 'TaskError'; }
}
const LAT = [[3, 0], [3, 1], [4, 2]];
function latency(c, max = 100) {
    switch (c.weighted(LAT)) {
        case 0: return 0;
        case 1: return c.int(1, 3);
        default: return c.int(1, max);
    }
}
// a promise settled by a simulator event
function later(sim, ms, label, outcome) {
    return new Promise((res, rej) => {
        sim.at(ms, label, () => (outcome.ok ? res(outcome.value) : rej(outcome.error)));
    });
}
let uid = 0;
const VALUES = [i => 'v' + i, i => i, () => undefined, () => null, () => 0, () => '', () => false, i => ({ i }), i => [i], i => () => i, () => NaN];
function value(c, i, noFunction) {
    let v = c.pick(noFunction ? VALUES.filter((_, k) => k !== 9) : VALUES)(i);
    return v;
}
function error(c, i) {
    switch (c.raw(8)) {
        case 0: case 1: case 2: case 3: return new TaskError('E' + i);
        case 4: return 'str' + i;
        case 5: return undefined;
        case 6: return { code: i };
        default: return new TypeError('T' + i);
    }
}
// outcome of one call of a generated function
//   mode: 'sync' | 'async'; async resolves after ms (0 = already settled promise)
function outcome(c, i, pFail, opts = {}) {
    const ok = !c.chance(pFail);
    const mode = c.weighted([[3, 'async'], [2, 'sync'], [1, 'settled']]);
    const ms = mode === 'async' ? latency(c, opts.maxLatency) : 0;
    return { ok, mode, ms, value: ok ? value(c, i, opts.noFunction) : undefined, error: ok ? undefined : error(c, i) };
}
// perform an outcome: return / throw / promise.  onDone runs when it settles.
function perform(sim, o, label, onDone = () => {}) {
    if (o.mode === 'sync') { onDone(); if (o.ok) return o.value; throw o.error; }
    if (o.mode === 'settled') {
        onDone();
        return o.ok ? Promise.resolve(o.value) : Promise.reject(o.error);
    }
    return new Promise((res, rej) => {
        sim.at(o.ms, label, () => { onDone(); if (o.ok) res(o.value); else rej(o.error); });
    });
}
const show = v => {
    try {
        if (typeof v === 'function') return 'fn';
        if (v instanceof Error) return v.name + ':' + v.message + (v.errors ? '[' + v.errors.map(show) + ']' : '');
        if (typeof v === 'number' && v !== v) return 'NaN';
        return JSON.stringify(v) ?? String(v);
    } catch { return String(v); }
};
module.exports = { TaskError, latency, later, value, error, outcome, perform, show };
