'use strict';
const { later, value, error, show, perform } = require('../tasks');

async function timed(ctx) {
    const { c, sim } = ctx;
    const hostile = c.chance(35);
    if (hostile) { sim.lateTimers = c.int(20, 90); sim.lateMax = c.pick([2, 20, 400]); }
    if (c.chance(20)) for (let k = c.int(1, 3); k > 0; k--) sim.at(c.int(0, 120), 'clock-jump', () => { sim.skew += c.int(-1e6, 1e6); sim.fault('clock-jump'); });
    const { timeoutOr } = ctx.load('function');
    const calls = c.int(1, c.pick([1, 3]));
    for (let k = 0; k < calls; k++) {
        const D = c.pick([0, 1, c.int(2, 80), c.int(20, 60), ...(c.chance(5) ? [c.int(81, 5000000)] : [])]);
        const never = c.chance(8);
        const S = never ? Infinity : c.weighted([[2, 0], [5, 1], [3, 2]]);
        const lat = S === Infinity ? Infinity : S === 0 ? 0 : S === 1 ? Math.max(0, D + c.int(-3, 3)) : c.int(0, Math.max(160, D * 2));
        const ok = c.chance(65);
        const kind = c.weighted([[5, 'async'], [2, 'promise'], [lat === 0 ? 3 : 0, 'sync']]);
        const out = ok ? { ok, value: { own: k, x: c.chance(20) ? value(c, k) : 0 } } : { ok, error: error(c, k) };
        const args = [];
        for (let a = c.int(0, 3); a > 0; a--) args.push({ a });
        const st = { runs: 0, fbRuns: 0, settledAt: Infinity, fbAt: -1 };
        const start0 = c.chance(50) ? 0 : c.int(0, 20);
        const label = 'timed' + k;
        const fbKind = c.weighted([[4, 'fn'], [2, 'value'], [1, 'promise'], [1, 'none'], [2, 'slow'], [1, 'throw'], [1, 'reject']]);
        const fbVal = { fallback: k }, fbErr = new Error('fb' + k), fbLat = c.int(1, 60);
        sim.at(start0, 'start ' + label, () => {
            const t0 = sim.now;
            const same = (got, who) => ctx.check(got.length === args.length && args.every((x, j) => got[j] === x), 'wrong-arguments', `${who} of ${label} got ${got.length} other arguments`);
            const mk = () => new Promise((res, rej) => {
                if (lat === Infinity) return;
                const go = () => { st.settledAt = sim.now; sim.note(label + ' task settles'); ok ? res(out.value) : rej(out.error); };
                sim.at(lat, label + ' settle', go);
            });
            let callable;
            if (kind === 'promise') callable = mk();
            else callable = function (...got) {
                st.runs++;
                same(got, 'callable');
                if (kind === 'sync') { st.settledAt = sim.now; if (ok) return out.value; throw out.error; }
                return mk();
            };
            const fbStart = () => { st.fbAt = sim.now; sim.note(label + ' fallback runs'); };
            let fb, fbOut = { ok: true, value: fbVal }, fbDelay = 0, fbIsFn = true;
            switch (fbKind) {
                case 'fn': fb = (...got) => { st.fbRuns++; same(got, 'fallback'); fbStart(); return fbVal; }; break;
                case 'slow': fbDelay = fbLat; fb = (...got) => { st.fbRuns++; same(got, 'fallback'); fbStart(); return later(sim, fbLat, label + ' fallback', { ok: true, value: fbVal }); }; break;
                case 'throw': fbOut = { ok: false, error: fbErr }; fb = () => { st.fbRuns++; fbStart(); throw fbErr; }; break;
                case 'reject': fbOut = { ok: false, error: fbErr }; fbDelay = fbLat; fb = () => { st.fbRuns++; fbStart(); return later(sim, fbLat, label + ' fallback', { ok: false, error: fbErr }); }; break;
                case 'value': fb = fbVal; fbIsFn = false; break;
                case 'promise': fb = Promise.resolve(fbVal); fbIsFn = false; break;
                default: fb = undefined; fbOut = { ok: true, value: undefined }; fbIsFn = false;
            }
            const call = ctx.call(label, () => timeoutOr(D, callable, fb, ...args));
            // decide as soon as it settles
            let judged = false;
            sim.idleHooks.push(() => {
                if (judged) return;
                const t = sim.now - t0;
                if (call.state === 'pending') {
                    if (st.settledAt < t0 + D) ctx.fail('outcome-withheld', `${label}: callable settled at +${st.settledAt - t0} (deadline ${D}) but the call is still pending at +${t}`);
                    return;
                }
                judged = true;
                const S2 = st.settledAt - t0;
                const own = ok ? call.state === 'fulfilled' && Object.is(call.value, out.value) : call.state === 'rejected' && Object.is(call.value, out.error);
                const fbk = fbOut.ok ? call.state === 'fulfilled' && Object.is(call.value, fbOut.value) : call.state === 'rejected' && Object.is(call.value, fbOut.error);
                const at = call.at - t0;
                const dl = Math.max(1, D);
                if (S2 < D) {
                    ctx.check(own, 'wrong-outcome', () => `${label}: callable settled at +${S2}, before the deadline ${D}, but the call gave ${call.state} ${show(call.value)}`);
                    ctx.check(st.fbRuns === 0, 'fallback-ran', () => `${label}: fallback ran although the callable was in time`);
                    st.inTime = true;
                    ctx.probe('in-time');
                    if (!ok) ctx.probe('failed-in-time');
                } else if (S2 > t) { // the callable has not settled: it must be the fallback's outcome
                    ctx.check(fbk, 'wrong-outcome', () => `${label}: deadline ${D} passed, call gave ${call.state} ${show(call.value)} at +${at} instead of the fallback's outcome`);
                    ctx.check(at >= D + (fbIsFn ? fbDelay : 0), 'early', () => `${label}: settled at +${at}, deadline ${D}`);
                    if (fbIsFn) ctx.check(st.fbRuns === 1, 'fallback-count', () => `${label}: fallback ran ${st.fbRuns} times`);
                    if (!hostile) ctx.check(at <= dl + fbDelay, 'late', () => `${label}: settled at +${at}, deadline ${D}, fallback takes ${fbDelay}`);
                    ctx.probe('timed-out');
                } else {
                    // settled at or after the deadline, but before the call settled
                    const fbStarted = fbIsFn ? st.fbAt >= 0 : null;
                    if (!hostile && S2 > dl) {
                        ctx.check(fbk, 'wrong-outcome', () => `${label}: callable settled at +${S2}, after the deadline ${D}, but the call gave ${call.state} ${show(call.value)}`);
                        ctx.probe('task-settled-during-fallback');
                    } else ctx.check(own || fbk, 'wrong-outcome', () => `${label}: invented outcome ${call.state} ${show(call.value)}`);
                    if (fbStarted && st.fbAt < st.settledAt) ctx.check(fbk, 'wrong-outcome', () => `${label}: the fallback ran, then the callable's outcome was used`);
                }
                if (st.fbRuns) ctx.check(st.fbAt - t0 >= D, 'fallback-early', `${label}: fallback ran at +${st.fbAt - t0}, deadline ${D}`);
                if (st.inTime && calls === 1) ctx.check(sim.armed().length === 0, 'timer-left', `${label}: timer still armed after the callable settled (${ok ? 'value' : 'error'})`);
                st.fbAtSettle = st.fbRuns;
            });
            sim.finals = sim.finals || [];
            sim.finals.push(() => {
                ctx.check(call.state !== 'pending', 'never-settled', `${label} never settled`);
                if (kind !== 'promise') ctx.check(st.runs === 1, 'callable-count', `${label}: callable ran ${st.runs} times`);
                ctx.check(st.fbRuns <= 1, 'fallback-count', `${label}: fallback ran ${st.fbRuns} times`);
                ctx.check(!st.inTime || st.fbRuns === 0, 'fallback-ran-later', `${label}: fallback ran after the callable's outcome was delivered`);
            });
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of sim.finals || []) f();
    ctx.nontrivial();
}

module.exports = {
    property: 'F07', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'timed-call', run: timed }],
    rule: 'Each run draws up to three overlapping timed calls with callable latency biased to the deadline, outcomes, fallback kinds, late timers and clock jumps; every run is non-trivial (distinct event logs are counted).',
    real: ['packages/function timeoutOr, setTimeout wrapper, executeToPromise, toPromise'], stub: ['timers and clock (virtual)', 'callables and fallbacks (generated)'],
    assumptions: ['A callable settling at the very instant of the deadline may win or lose', 'When the timer fires late, an outcome that arrives between the deadline and the firing may be used']
};
