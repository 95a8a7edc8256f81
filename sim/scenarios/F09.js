'use strict';
const { latency, outcome, show } = require('../tasks');

// a duration argument together with the set of values it may stand for
function duration(c) {
    const one = () => c.pick([0, 1, c.int(1, 9), c.int(2, 120), c.chance(3) ? 2147483647 : c.chance(20) ? c.int(121, 3000000) : 40]);
    const range = () => {
        const far = c.chance(6), a = far ? c.int(61, 2000000) : c.int(0, 60), b = a + c.int(0, far ? 5000 : c.pick([1, 3, 30]));
        switch (c.raw(4)) {
            case 0: return { v: { start: a, end: b }, lo: a, hi: b };
            case 1: return { v: { start: b, end: a }, lo: a, hi: b };
            case 2: return { v: { end: b }, lo: 0, hi: b };
            default: return { v: { start: b }, lo: 0, hi: b };
        }
    };
    const base = () => {
        switch (c.weighted([[5, 'n'], [2, 's'], [4, 'r'], [2, 'a'], [1, 'neg']])) {
            case 'n': { const d = one(); return { v: d, set: [[d, d]] }; }
            case 's': { const d = one(); return { v: String(d), set: [[d, d]] }; }
            case 'neg': return { v: -c.int(1, 50), set: [[0, 0]] };
            case 'r': { const r = range(); return { v: r.v, set: [[r.lo, r.hi]] }; }
            default: {
                const v = [], set = [];
                for (let k = c.int(1, 4); k > 0; k--) {
                    if (c.chance(70)) { const d = one(); v.push(d); set.push([d, d]); }
                    else { const r = range(); v.push(r.v); set.push([r.lo, r.hi]); }
                }
                return { v, set };
            }
        }
    };
    const b = base();
    return c.chance(25) ? { v: () => b.v, set: b.set } : b;
}
const within = (set, t, slack) => set.some(([lo, hi]) => t >= lo && t <= hi + slack);
const minOf = set => Math.min(...set.map(s => s[0]));
const extremes = c => () => c.weighted([[1, 0], [1, 1 - 2 ** -53], [1, 0.5], [4, -1]]) < 0 ? c.raw(0x100000000) / 0x100000000 : [0, 1 - 2 ** -53, 0.5][c.raw(3)];

async function asyncDelays(ctx) {
    const { c, sim } = ctx;
    const hostile = c.chance(50);
    if (hostile && c.chance(70)) { sim.lateTimers = c.int(20, 90); sim.lateMax = c.pick([2, 20, 400]); }
    if (hostile) for (let k = c.int(1, 4); k > 0; k--) sim.at(c.int(0, 150), 'clock-jump', () => { sim.skew += c.int(-1e6, 1e6); sim.fault('clock-jump'); });
    const env = ctx.env({ random: extremes(c) });
    const fn = ctx.load('function', env);
    const { sleep } = ctx.load('process', env);
    const finals = [];
    for (let k = c.int(1, 4); k > 0; k--) {
        const kind = c.pick(['delay', 'delayRun', 'delayReturn', 'setTimeout', 'sleep']);
        const label = kind + k;
        let d = duration(c);
        if (kind === 'sleep') { const n = c.int(0, 120); d = { v: n, set: [[n, n]] }; }
        const args = [];
        for (let a = c.int(0, 3); a > 0; a--) args.push({ a });
        const o = outcome(c, k, 40, { maxLatency: 160 });
        sim.at(c.int(0, 30), 'start ' + label, () => {
            const t0 = sim.now;
            const st = { runs: 0, startAt: -1, doneAt: -1 };
            const task = (...got) => {
                st.runs++;
                if (st.runs === 1) st.startAt = sim.now;
                ctx.check(got.length === args.length && args.every((x, j) => got[j] === x), 'wrong-arguments', `${label}: task got other arguments`);
                if (o.mode === 'sync') { st.doneAt = sim.now; if (o.ok) return o.value; throw o.error; }
                if (o.mode === 'settled') { st.doneAt = sim.now; return o.ok ? Promise.resolve(o.value) : Promise.reject(o.error); }
                return new Promise((res, rej) => sim.at(o.ms, label + ' task', () => { st.doneAt = sim.now; o.ok ? res(o.value) : rej(o.error); }));
            };
            let call;
            switch (kind) {
                case 'delay': call = ctx.call(label, () => fn.delay(d.v)); break;
                case 'sleep': call = ctx.call(label, () => sleep(d.v)); break;
                case 'delayRun': call = ctx.call(label, () => fn.delayRun(d.v, task, ...args)); break;
                case 'delayReturn': call = ctx.call(label, () => fn.delayReturn(d.v, task, ...args)); break;
                default:
                    o.mode = 'sync'; o.ok = true;
                    call = ctx.call(label, () => new Promise((res, rej) => { fn.setTimeout((...g) => { try { res(task(...g)); } catch (e) { rej(e); } }, d.v, ...args); }));
            }
            finals.push(() => {
                if (!ctx.check(call.state !== 'pending', 'never-settled', `${label} never settled`)) return;
                const el = call.at - t0;
                const dur = () => `${show(typeof d.v === 'function' ? d.v() : d.v)}`;
                const slack = el <= 1 ? 1 : 0; // a zero delay may take the minimum timer tick
                if (kind === 'delay' || kind === 'sleep') {
                    ctx.check(call.state === 'fulfilled', 'wrong-outcome', `${label} rejected`);
                    if (hostile) ctx.check(el >= minOf(d.set), 'early', `${label}(${dur()}) ended after ${el} ms`);
                    else ctx.check(within(d.set, el, slack), 'wrong-duration', `${label}(${dur()}) ended after ${el} ms`);
                    return;
                }
                ctx.check(st.runs === 1, 'run-count', `${label}: task ran ${st.runs} times`);
                const good = o.ok ? call.state === 'fulfilled' && Object.is(call.value, o.value) : call.state === 'rejected' && Object.is(call.value, o.error);
                ctx.check(good, 'wrong-outcome', () => `${label}: task gave ${o.ok ? 'value ' + show(o.value) : 'error ' + show(o.error)}, call gave ${call.state} ${show(call.value)}`);
                if (kind === 'delayReturn') {
                    ctx.check(st.startAt === t0, 'task-delayed', `${label}: the task started late`);
                    ctx.check(call.at >= st.doneAt, 'before-task', `${label}`);
                    if (hostile) ctx.check(el >= minOf(d.set), 'early', `${label}(${dur()}) ${call.state} after ${el} ms`);
                    else {
                        const dt = st.doneAt - t0;
                        ctx.check(d.set.some(([lo, hi]) => el >= Math.max(lo, dt) && el <= Math.max(hi, dt) + slack), 'wrong-duration', `${label}(${dur()}) ${call.state} after ${el} ms, task took ${dt}`);
                        if (!o.ok) ctx.probe('failed-minimum-duration');
                    }
                } else {
                    const sd = st.startAt - t0;
                    if (hostile) ctx.check(sd >= minOf(d.set), 'early', `${label}(${dur()}): task started after ${sd} ms`);
                    else ctx.check(within(d.set, sd, sd <= 1 ? 1 : 0), 'wrong-duration', `${label}(${dur()}): task started after ${sd} ms`);
                    ctx.check(call.at === st.doneAt, 'late-result', `${label}: outcome passed on at ${call.at}, task finished at ${st.doneAt}`);
                }
            });
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
    ctx.nontrivial();
}

// every value of a range is drawn for some output of the random source
async function reach(ctx) {
    const { c, sim } = ctx;
    const lo = c.int(0, 50), n = c.int(1, 8), hi = lo + n - 1;
    let i = 0;
    const m = n * c.int(2, 4), off = c.raw(1000) / 1000;
    const env = ctx.env({ random: () => { const v = ((i++ % m) + off) / m; return v >= 1 ? 0 : v; }, u32: () => Math.floor(((((i++ % m) + off) / m) % 1) * 0x100000000) });
    const { delay } = ctx.load('function', env);
    const form = c.raw(4);
    const arg = form === 0 ? { start: lo, end: hi } : form === 1 ? { start: hi, end: lo } : form === 2 ? () => ({ start: lo, end: hi }) : Array.from({ length: n }, (_, k) => lo + k);
    const seen = new Set();
    let done = 0;
    const draws = m * 2;
    sim.at(0, 'start', () => {
        for (let k = 0; k < draws; k++) delay(arg).then(() => { done++; seen.add(sim.now); });
    });
    await sim.drive();
    ctx.check(done === draws, 'never-settled', `${draws - done} delays never ended`);
    const want = [];
    for (let v = lo; v <= hi; v++) want.push(v);
    const bad = [...seen].filter(v => v < lo || v > hi);
    ctx.check(!bad.length, 'out-of-range', `delay(${show(arg)}) took ${bad} ms`);
    const miss = want.filter(v => !seen.has(v));
    // known finding: a range object never yields its lower bound; nothing else may be missing (its upper bound comes only with a draw of exactly 0)
    const inner = want.filter(v => v > lo && v < hi);
    const swapped = form !== 3 && n > 1 && !seen.has(lo) && (n === 2 ? seen.has(hi) : inner.every(v => seen.has(v)));
    const text = () => `delay(${show(typeof arg === 'function' ? arg() : arg)}) never took ${miss} ms in ${draws} draws covering the random source's range`;
    if (miss.length) { if (swapped) ctx.known('range-ends', 'unreachable-duration', text()); else ctx.fail('unreachable-duration', text()); }
    ctx.nontrivial();
    ctx.probe('range-covered');
}

async function sync(ctx) {
    const { c, sim } = ctx;
    sim.readTick = c.pick([1, 0.25, 0.7, 5]);
    sim.now = c.raw(100) / 16;
    const { delaySync } = ctx.load('function', { random: extremes(c) });
    for (let k = c.int(1, 3); k > 0; k--) {
        const d = duration(c);
        if (d.set.some(s => s[1] > 5000)) continue;
        const t0 = sim.now;
        delaySync(d.v);
        const el = sim.now - t0;
        sim.note(`delaySync ${el}`);
        ctx.check(within(d.set, el, 2 * sim.readTick + 1), el < minOf(d.set) ? 'early' : 'wrong-duration', `delaySync(${show(d.v)}) took ${el} ms (clock step ${sim.readTick})`);
        ctx.nontrivial();
        ctx.probe('busy-wait');
    }
    // ranges may contain the elapsed time of a neighbouring value: only the bounds are decided here
}

// a timer cannot wait longer than 2^31-1 ms: longer durations are refused, never shortened
async function overlong(ctx) {
    const { c, sim } = ctx;
    const fn = ctx.load('function', ctx.env({ random: extremes(c) }));
    const big = c.pick([2147483648, 2147483649, 4294967296, 4294967297, 1e12, 9007199254740991, Infinity]);
    const arg = c.pick([() => big, () => String(big), () => [big], () => ({ start: big, end: big }), () => () => big])();
    const kind = c.pick(['delay', 'delayRun', 'delayReturn', 'setTimeout', 'timeoutOr', 'delaySync']);
    let ran = 0;
    const task = () => { ran++; return 'ran'; };
    let call;
    sim.at(c.int(0, 20), 'start', () => {
        call = ctx.call(kind, () => { switch (kind) {
            case 'delay': return fn.delay(arg);
            case 'delayRun': return fn.delayRun(arg, task);
            case 'delayReturn': return fn.delayReturn(arg, () => 'ok');
            case 'setTimeout': return fn.setTimeout(task, arg);
            case 'timeoutOr': return fn.timeoutOr(arg, () => new Promise(() => {}), task);
            default: return fn.delaySync(arg);
        } });
    });
    await sim.drive();
    const info = () => `${kind}(${show(typeof arg === 'function' ? arg() : arg)}) -> ${call.state} ${show(call.value)} at ${call.at}; task ran ${ran} times`;
    ctx.check(call.state === 'rejected' && call.value instanceof Error && ran === 0, 'overlong-accepted', info);
    ctx.check(sim.now < 1000, 'overlong-waited', info);
    ctx.probe('overlong ' + kind);
    ctx.nontrivial();
}

module.exports = {
    property: 'F09', packages: ['function', 'process'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'async-delays', weight: 6, run: asyncDelays }, { name: 'range-coverage', weight: 2, run: reach }, { name: 'overlong', weight: 1, run: overlong }, { name: 'busy-wait', weight: 1, run: sync }],
    rule: 'Each run draws overlapping delays of every kind and duration form with task latencies and outcomes, half of them under late timers and wall-clock jumps; range-coverage runs feed the random source a grid over [0,1) and require every duration; every run is non-trivial.',
    real: ['packages/function delay, delayRun, delayReturn, delaySync, setTimeout, timeoutMsResolve, evaluateInt', 'packages/number range, random', 'packages/process sleep'],
    stub: ['timers and clocks (virtual)', 'Math.random and crypto (chooser)', 'tasks (generated)'],
    assumptions: ['The synchronous delay counts on the wall clock, so no wall-clock jump happens during it', 'A zero delay may take one timer tick']
};
