'use strict';
const { perform, outcome, show, later, latency } = require('../tasks');
const { model, genWait, genOutcomes } = require('./F03');

async function pool(ctx) {
    const { c, sim } = ctx;
    const hostile = c.bool();
    if (hostile) { sim.lateTimers = c.int(5, 60); sim.lateMax = c.pick([3, 40, 500]); }
    const big = ctx.big();
    const n = big ? c.int(30, 300) : c.int(1, c.pick([3, 6, 10]));
    const conc = c.chance(20) ? undefined : c.int(1, n + 1);
    const limit = conc === undefined ? n : Math.min(conc, n);
    const max = c.weighted([[3, 0], [4, 1]]) === 0 ? 0 : c.int(1, big ? 12 : 4);
    const w = genWait(c);
    const pFail = big ? c.pick([2, 25, 50]) : c.pick([25, 50, 80]);
    const withOnError = c.chance(50);
    const withOnRetry = c.chance(40);
    const stopAt = withOnRetry && c.bool() ? new Set([c.int(1, 3)]) : new Set();
    const { parallel } = ctx.load('function');
    const T = [], tasks = [];
    let running = 0, fails = 0, overlapFail = false;
    for (let i = 0; i < n; i++) {
        const isPromise = c.chance(15);
        const outs = genOutcomes(c, pFail);
        const fallback = c.chance(30) ? undefined : 'fb' + i;
        const t = { i, outs, attempts: 0, open: 0, lastEnd: -1, retryLog: [], errorLog: [], fallback, isPromise };
        for (let a = 0; a <= max; a++) outs(a);
        t.model = model(max, isPromise ? () => outs(0) : outs, withOnRetry ? stopAt : undefined, withOnError ? { value: fallback } : null);
        T.push(t);
        if (isPromise) { tasks.push(perform(sim, { ...outs(0), mode: outs(0).mode === 'sync' ? 'settled' : outs(0).mode }, 'promise ' + i)); continue; }
        tasks.push(function () {
            const a = t.attempts++;
            sim.note(`attempt ${i}.${a}`);
            ctx.check(t.open === 0, 'attempts-overlap', `task ${i} attempt ${a} overlaps the previous attempt`);
            ctx.check(a <= max, 'too-many-attempts', `task ${i} attempt number ${a + 1}, maxRetry ${max}`);
            if (a > 0) {
                const gap = sim.now - t.lastEnd;
                ctx.check(gap >= w.lo, 'wait-too-short', () => `task ${i} attempt ${a} after ${gap} ms, wait ${show(w.opt)}`);
            }
            t.open++; running++;
            ctx.check(running <= limit, 'concurrency-exceeded', () => `${running} attempts running, limit ${limit}`);
            const o = outs(a);
            return perform(sim, o, `end ${i}.${a}`, () => { t.open--; running--; t.lastEnd = sim.now; if (!o.ok) { fails++; if (running) overlapFail = true; } });
        });
    }
    const options = {};
    if (conc !== undefined) options.concurrency = conc;
    if (max || c.bool()) options.maxRetry = max;
    if (w.opt !== undefined) options.retryWait = w.opt;
    if (withOnError) options.onError = (i, e) => { T[i].errorLog.push(e); return T[i].fallback; };
    if (withOnRetry) options.onRetry = (i, e, k) => { T[i].retryLog.push([e, k]); return stopAt.has(k) ? true : undefined; };
    const dataLog = [];
    if (c.chance(30)) options.onData = (i, v) => dataLog.push([i, v]);
    const call = ctx.call('parallel', () => parallel(tasks, options));
    let rejectedAt = null;
    sim.idleHooks.push(() => { if (call.state === 'rejected' && !rejectedAt) rejectedAt = T.map(t => t.attempts); });
    await sim.drive();
    if (sim.violations.length) return;
    const dead = T.filter(t => !t.model.ok);
    if (!dead.length) {
        ctx.check(call.state === 'fulfilled', 'wrong-result', () => `no task failed for good, but the call is ${call.state} ${show(call.value)}`);
        if (call.state === 'fulfilled') for (const t of T) {
            ctx.check(Object.is(call.value[t.i], t.model.value), 'wrong-value', () => `task ${t.i}: got ${show(call.value[t.i])}, expected ${show(t.model.value)}`);
            if (!t.isPromise) ctx.check(t.attempts === t.model.attempts, 'attempt-count', `task ${t.i}: ${t.attempts} attempts, expected ${t.model.attempts}`);
            if (withOnError) ctx.check(t.errorLog.length === t.model.errorCalls.length && t.errorLog.every((e, k) => Object.is(e, t.model.errorCalls[k])), 'error-callback', () => `task ${t.i}: error callback saw ${show(t.errorLog)}, expected ${show(t.model.errorCalls)}`);
            if (withOnRetry) ctx.check(t.retryLog.length === t.model.retryCalls.length && t.retryLog.every((x, k) => Object.is(x[0], t.model.retryCalls[k][0]) && x[1] === t.model.retryCalls[k][1]), 'retry-callback', () => `task ${t.i}: retry callback saw ${show(t.retryLog)}, expected ${show(t.model.retryCalls)}`);
        }
    } else {
        ctx.check(call.state === 'rejected', 'failure-lost', () => `tasks ${dead.map(t => t.i)} failed for good, but the call is ${call.state} ${show(call.value)}`);
        if (call.state === 'rejected') {
            const e = call.value;
            const idx = e && e.cause && e.cause.index;
            const named = dead.filter(t => idx === t.i || (e && typeof e.message === 'string' && new RegExp(`(^|\\D)${t.i}(\\D|$)`).test(e.message)));
            ctx.check(named.length > 0, 'error-without-index', () => `error ${show(e)} (cause index ${show(idx)}) names none of the failed tasks ${dead.map(t => t.i)}`);
            if (idx !== undefined && Array.isArray(e.errors)) {
                const t = T[idx];
                ctx.check(t && e.errors.length === t.model.errors.length && e.errors.every((x, k) => Object.is(x, t.model.errors[k])), 'errors-lost', () => `errors ${show(e)} for task ${idx}, expected ${show(t && t.model.errors)}`);
            }
        }
        ctx.probe('call-rejected');
    }
    if (fails) ctx.nontrivial();
    if (overlapFail) ctx.probe('failed-while-others-run');
    if (T.some(t => t.model.attempts > 1)) ctx.probe('retried');
    if (T.some(t => t.model.stopped)) ctx.probe('stopped-by-callback');
    if (T.some(t => t.isPromise && !t.outs(0).ok)) ctx.probe('rejecting-promise-task');
    ctx.check(sim.armed().length === 0, 'timer-left', 'a timer is still armed');
}

module.exports = {
    property: 'F02', packages: ['function'], runs: { quick: 75000, thorough: 1200000 },
    scenarios: [{ name: 'pool-failures', run: pool }],
    rule: 'Each run draws tasks with per-attempt outcomes and latencies, a retry budget, waits, callbacks and a concurrency limit; non-trivial = at least one attempt failed.',
    real: ['packages/function parallel, retry, delay; packages/number range'],
    stub: ['timers, clock, random source (virtual)', 'tasks (generated)'],
    assumptions: ['callbacks do not throw', 'task failures are any JavaScript value', 'the retry callback is called from the first failed retry on, as documented']
};
