'use strict';
const { perform, latency, value, show, later } = require('../tasks');

async function pool(ctx) {
    const { c, sim } = ctx;
    if (c.chance(30)) sim.lateTimers = c.int(5, 50);
    const big = ctx.big();
    const n = big ? c.int(60, 1200) : c.weighted([[1, 2], [3, 4], [4, 6], [1, 0]]) === 0 ? 0 : c.int(1, c.pick([4, 8, 14]));
    const conc = c.chance(15) ? undefined : c.int(1, Math.max(1, Math.min(n + 2, c.pick(big ? [2, 16, 100, 2000] : [2, 4, 16]))));
    const limit = conc === undefined ? n : Math.min(conc, n);
    const onlyFns = c.chance(60);
    const useStart = c.chance(70), useData = c.chance(70);
    const { parallel } = ctx.load('function');
    let running = 0, maxRunning = 0, started = [], finished = new Set(), dataLog = [], startLog = [], running_ids = new Set();
    const expected = [];
    const tasks = [];
    let allPlainFns = true;
    for (let i = 0; i < n; i++) {
        const kind = onlyFns ? 'fn' : c.weighted([[6, 'fn'], [1, 'value'], [1, 'promise'], [1, 'resolved']]);
        if (kind === 'fn') {
            const mode = c.weighted([[5, 'async'], [1, 'sync'], [1, 'settled']]);
            const o = { ok: true, mode, ms: mode === 'async' ? latency(c) : 0, value: value(c, i, true) };
            expected.push(o.value);
            tasks.push(function () {
                sim.note('start ' + i);
                ctx.check(!started.includes(i), 'task-started-twice', () => `task ${i} of ${n} started twice, concurrency ${conc}`);
                ctx.check(!started.length || started[started.length - 1] < i, 'start-order', () => `task ${i} started after ${started}`);
                started.push(i);
                running++; running_ids.add(i);
                if (running > maxRunning) maxRunning = running;
                ctx.check(running <= limit, 'concurrency-exceeded', () => `${running} tasks unfinished (${[...running_ids]}), limit ${limit}, n=${n}`);
                return perform(sim, o, 'finish ' + i, () => { running--; running_ids.delete(i); finished.add(i); sim.note('finish ' + i); });
            });
        } else if (kind === 'value') {
            allPlainFns = false;
            const v = value(c, i, true);
            expected.push(v); tasks.push(v); finished.add(i);
        } else if (kind === 'promise') {
            allPlainFns = false;
            const v = value(c, i, true);
            expected.push(v);
            const p = later(sim, latency(c), 'resolve ' + i, { ok: true, value: v });
            p.then(() => finished.add(i));
            tasks.push(p);
        } else {
            allPlainFns = false;
            const v = value(c, i, true);
            expected.push(v); finished.add(i);
            tasks.push(Promise.resolve(v));
        }
    }
    const original = tasks.slice();
    const options = conc === undefined && c.bool() ? {} : { concurrency: conc };
    if (conc === undefined) delete options.concurrency;
    if (useStart) options.onStart = (i, t) => {
        startLog.push(i);
        ctx.check(Object.is(t, original[i]), 'onstart-task', () => `start callback for ${i} got another task`);
        ctx.check(!started.includes(i), 'onstart-late', () => `start callback for ${i} ran after the task`);
    };
    if (useData) options.onData = (i, r) => {
        ctx.check(!dataLog.includes(i), 'ondata-twice', () => `data callback ran twice for ${i}`);
        ctx.check(finished.has(i), 'ondata-early', () => `data callback for ${i} before it finished`);
        ctx.check(Object.is(r, expected[i]), 'ondata-value', () => `data callback for ${i} got ${show(r)} expected ${show(expected[i])}`);
        dataLog.push(i);
    };
    if (c.chance(20)) options.maxRetry = c.int(0, 3);
    if (c.chance(10)) options.onError = () => ctx.fail('spurious-error', 'error callback without failing task');
    if (c.chance(10)) options.onRetry = () => { ctx.fail('spurious-retry', 'retry callback without failing task'); };
    const calls = c.chance(10) && !Object.keys(options).length ? ctx.call('parallel', () => parallel(tasks)) : ctx.call('parallel', () => parallel(tasks, options));
    // work conservation: a free slot is used without waiting for unrelated tasks
    if (allPlainFns && n) {
        let idleSince = -1;
        sim.idleHooks.push(() => {
            const unstarted = n - started.length;
            if (unstarted > 0 && running < limit && calls.state === 'pending') {
                if (idleSince < 0) idleSince = sim.now;
                else if (sim.now - idleSince >= 5) ctx.fail('slot-idle', `${running} running, ${unstarted} waiting, limit ${limit}, idle since t=${idleSince}`);
            } else idleSince = -1;
        });
    }
    sim.idleHooks.push(() => {
        if (calls.state !== 'pending' && finished.size < n) ctx.fail('settled-early', `call ${calls.state} with ${finished.size}/${n} tasks finished: ${show(calls.value)}`);
    });
    await sim.drive();
    if (sim.violations.length) return;
    ctx.check(calls.state === 'fulfilled', 'not-resolved', () => `call is ${calls.state}: ${show(calls.value)}`);
    if (calls.state !== 'fulfilled') return;
    const r = calls.value;
    ctx.check(Array.isArray(r) && r.length === n, 'result-length', () => `got ${show(r)}`);
    for (let i = 0; i < n; i++) ctx.check(i in r && Object.is(r[i], expected[i]), 'result-value', () => `index ${i}: got ${show(r[i])}, expected ${show(expected[i])}`);
    for (let i = 0; i < n; i++) if (typeof tasks[i] === 'function' && original[i] === tasks[i]) ctx.check(started.includes(i), 'never-started', `task ${i} never started`);
    if (useStart) ctx.check(startLog.length === n && startLog.every((v, i) => v === i), 'onstart-log', () => `start callbacks ${startLog}`);
    if (useData) ctx.check(dataLog.length === n, 'ondata-log', () => `data callbacks ${dataLog}`);
    if (maxRunning >= 2) { ctx.nontrivial(); ctx.probe('overlap'); }
    if (n > limit) ctx.probe('queueing');
    if (dataLog.length > 1 && dataLog.some((v, i) => i && v < dataLog[i - 1])) ctx.probe('completed-out-of-order');
}

module.exports = {
    property: 'F01', packages: ['function'], runs: { quick: 90000, thorough: 1500000 },
    scenarios: [{ name: 'pool', run: pool }],
    rule: 'Each run draws a task list (functions, values, promises), per-task latency, a concurrency limit and callbacks, and a completion order; non-trivial = at least two tasks overlapped in time.',
    real: ['packages/function parallel, retry, toPromise (current working tree)', 'JavaScript promises'],
    stub: ['timers and clock (virtual)', 'tasks (generated)'],
    assumptions: ['The task array is not mutated while the call runs', 'concurrency is a positive integer or absent']
};
