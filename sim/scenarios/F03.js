'use strict';
const { perform, outcome, show, latency, later, error } = require('../tasks');

function genWait(c) {
    switch (c.weighted([[3, 0], [3, 1], [3, 2], [1, 3]])) {
        case 0: return { opt: undefined, lo: 0, hi: 0 };
        case 1: { const v = c.int(1, 60); return { opt: v, lo: v, hi: v }; }
        case 2: { const a = c.int(0, 40), b = a + c.int(0, 30); return { opt: { start: a, end: b }, lo: a, hi: b }; }
        default: return { opt: 0, lo: 0, hi: 0 };
    }
}
// the reference: which attempts run and what comes out
function model(max, outcomes, stopAt, onError) {
    const errors = [], retryCalls = [];
    for (let a = 0; a <= max; a++) {
        const o = outcomes(a);
        if (o.ok) return { attempts: a + 1, ok: true, value: o.value, errors, retryCalls, errorCalls: [] };
        if (a > 0 && stopAt !== undefined) {
            retryCalls.push([o.error, a]);
            if (stopAt.has(a)) return { attempts: a + 1, ok: true, value: onError ? onError.value : undefined, errors, retryCalls, errorCalls: onError ? [o.error] : [], stopped: true };
        }
        errors.push(o.error);
        if (a === max) {
            if (onError) return { attempts: a + 1, ok: true, value: onError.value, errors, retryCalls, errorCalls: [o.error], handled: true };
            return { attempts: a + 1, ok: false, errors, retryCalls, errorCalls: [] };
        }
    }
}
function genOutcomes(c, pFail) {
    const list = [];
    return a => {
        while (list.length <= a) list.push(outcome(c, list.length, pFail, { noFunction: true }));
        return list[a];
    };
}

async function retryRun(ctx) {
    const { c, sim } = ctx;
    const hostile = c.bool();
    if (hostile) { sim.lateTimers = c.int(5, 60); sim.lateMax = c.pick([3, 40, 1000]); }
    const max = c.weighted([[2, 0], [3, 1], [5, 2]]) === 0 ? 0 : ctx.big() ? c.int(20, 300) : c.int(1, 6);
    const w = genWait(c);
    const promiseTask = c.chance(8);
    const pFail = max > 6 ? c.pick([100, 99, 97]) : c.pick([60, 30, 85, 100]);
    const outcomes = genOutcomes(c, pFail);
    for (let a = 0; a <= max; a++) outcomes(a);
    const stopAt = c.chance(40) ? new Set([c.int(1, 6), c.chance(50) ? 99 : c.int(1, 6)]) : undefined;
    const truthyNotTrue = c.chance(30);
    const onError = c.chance(40) ? { value: c.chance(25) ? undefined : c.pick(['fallback', 0, null, false]) } : null;
    if (c.chance(30)) { // wall clock jumps while it runs
        for (let k = c.int(1, 3); k > 0; k--) sim.at(c.int(0, 200), 'clock-jump', () => { const j = c.int(-100000, 100000); sim.skew += j; sim.fault('clock-jump'); });
    }
    const { retry } = ctx.load('function');
    let attempt = 0, open = 0, lastEnd = -1;
    const retryLog = [], errorLog = [];
    const first = outcomes(0);
    let task, waits = [];
    if (promiseTask) {
        task = later(sim, first.ms, 'task', first);
        task.catch(() => {});
    } else task = function () {
        const a = attempt++;
        sim.note('attempt ' + a);
        ctx.check(open === 0, 'attempts-overlap', `attempt ${a} started while another one is running`);
        ctx.check(a <= max, 'too-many-attempts', `attempt number ${a + 1} with maxRetry ${max}`);
        if (a > 0) {
            const gap = sim.now - lastEnd;
            waits.push(gap);
            ctx.check(gap >= w.lo, 'wait-too-short', () => `attempt ${a} came ${gap} ms after the failure, wait ${show(w.opt)}`);
            if (!hostile) ctx.check(gap <= Math.max(w.hi, w.hi ? 1 : 0), 'wait-too-long', () => `attempt ${a} came ${gap} ms after the failure, wait ${show(w.opt)}`);
        }
        open++;
        return perform(sim, outcomes(a), 'end attempt ' + a, () => { open--; lastEnd = sim.now; sim.note('ended ' + a); });
    };
    const options = {};
    if (w.opt !== undefined) options.retryWait = w.opt;
    if (stopAt) options.onRetry = (e, k) => { retryLog.push([e, k]); return stopAt.has(k) ? true : truthyNotTrue ? undefined : false; };
    if (onError) options.onError = e => { errorLog.push(e); return onError.value; };
    const call = ctx.call('retry', () => (Object.keys(options).length || c.bool() ? retry(max, task, options) : retry(max, task)));
    await sim.drive();
    if (sim.violations.length) return;
    const m = model(max, promiseTask ? () => first : outcomes, stopAt, onError);
    if (!promiseTask) ctx.check(attempt === m.attempts, 'attempt-count', `ran ${attempt} attempts, expected ${m.attempts} (maxRetry ${max})`);
    ctx.check(open === 0, 'settled-while-running', 'an attempt is still running');
    if (m.ok) {
        ctx.check(call.state === 'fulfilled' && Object.is(call.value, m.value), 'wrong-result', () => `expected value ${show(m.value)}, got ${call.state} ${show(call.value)}`);
    } else {
        ctx.check(call.state === 'rejected', 'wrong-result', () => `expected a rejection, got ${call.state} ${show(call.value)}`);
        if (call.state === 'rejected') {
            const es = call.value && call.value.errors;
            ctx.check(Array.isArray(es) && es.length === m.errors.length && es.every((e, i) => Object.is(e, m.errors[i])), 'errors-lost', () => `expected errors ${show(m.errors)}, got ${show(call.value)}`);
        }
    }
    if (stopAt) ctx.check(retryLog.length === m.retryCalls.length && retryLog.every((x, i) => Object.is(x[0], m.retryCalls[i][0]) && x[1] === m.retryCalls[i][1]), 'retry-callback', () => `retry callback saw ${show(retryLog)}, expected ${show(m.retryCalls)}`);
    if (onError) ctx.check(errorLog.length === m.errorCalls.length && errorLog.every((x, i) => Object.is(x, m.errorCalls[i])), 'error-callback', () => `error callback saw ${show(errorLog)}, expected ${show(m.errorCalls)}`);
    ctx.check(sim.armed().length === 0, 'timer-left', 'a timer is still armed');
    if (m.attempts > 1) { ctx.nontrivial(); ctx.probe('retried'); }
    if (m.stopped) ctx.probe('stopped-by-callback');
    if (!m.ok) ctx.probe('exhausted');
    if (w.hi > w.lo && waits.includes(w.lo)) ctx.probe('wait-range-start');
    if (w.hi > w.lo && waits.includes(w.hi)) ctx.probe('wait-range-end');
}

// every wait of a range is drawn for some output of the random source
async function waitRange(ctx) {
    const { c, sim } = ctx;
    const lo = c.int(1, 40), n = c.int(1, 6), hi = lo + n - 1;
    let i = 0;
    const m = n * c.int(2, 3), off = c.raw(1000) / 1000;
    const { retry } = ctx.load('function', { random: () => ((i++ % m) + off) / m, u32: () => Math.floor((((i++ % m) + off) / m) * 0x100000000) });
    const waits = new Set();
    let last = -1, runs = 0;
    const call = ctx.call('retry', () => retry(m * 2, () => { if (runs++) waits.add(sim.now - last); last = sim.now; throw new Error('no'); }, { retryWait: { start: lo, end: hi } }));
    await sim.drive();
    ctx.check(call.state === 'rejected' && runs === m * 2 + 1, 'attempt-count', `ran ${runs} attempts of ${m * 2 + 1}`);
    const miss = [];
    for (let v = lo; v <= hi; v++) if (!waits.has(v)) miss.push(v);
    ctx.check(!miss.length, 'wait-unreachable', `a wait of ${lo}..${hi} ms never lasted ${miss} ms`);
    const bad = [...waits].filter(v => v < lo || v > hi);
    ctx.check(!bad.length, 'wait-out-of-range', `a wait of ${lo}..${hi} ms lasted ${bad} ms`);
    ctx.nontrivial();
    ctx.probe('wait-range-covered');
}

module.exports = {
    property: 'F03', packages: ['function'], runs: { quick: 90000, thorough: 1500000 }, model, genWait, genOutcomes,
    scenarios: [{ name: 'retry', weight: 12, run: retryRun }, { name: 'wait-range', weight: 1, run: waitRange }],
    rule: 'Each run draws maxRetry, a wait (number or range), per-attempt outcome and latency, callbacks, late timers and wall-clock jumps; non-trivial = at least one retry happened.',
    real: ['packages/function retry, delay, setTimeout wrapper; packages/number range'],
    stub: ['timers, clock and random source (virtual)', 'tasks (generated)'],
    assumptions: ['maxRetry is a non-negative integer', 'callbacks do not throw', 'An attempt may start at the earliest permitted instant plus 1 ms (timer granularity) when timers are punctual']
};
