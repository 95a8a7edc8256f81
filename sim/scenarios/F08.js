'use strict';
const { later, latency, value, error, show } = require('../tasks');

async function cancelRun(ctx) {
    const { c, sim } = ctx;
    const { cancelExec } = ctx.load('function');
    const n = c.int(1, c.pick([1, 3]));
    const finals = [];
    for (let k = 0; k < n; k++) {
        const lat = c.chance(8) ? Infinity : latency(c, 60);
        const ok = c.chance(65);
        const kind = c.weighted([[5, 'async'], [2, 'promise'], [lat === 0 ? 3 : 0, 'sync']]);
        const out = ok ? { ok, value: c.chance(20) ? value(c, k) : { own: k } } : { ok, error: error(c, k) };
        const args = [];
        for (let a = c.int(0, 3); a > 0; a--) args.push({ a });
        const st = { runs: 0, settledStep: Infinity, cancels: [] };
        const label = 'exec' + k;
        sim.at(c.int(0, 10), 'start ' + label, () => {
            const mk = () => new Promise((res, rej) => {
                if (lat === Infinity) return;
                sim.at(lat, label + ' settle', () => { st.settledStep = sim.steps; ok ? res(out.value) : rej(out.error); });
            });
            const callable = kind === 'promise' ? mk() : function (...got) {
                st.runs++;
                ctx.check(got.length === args.length && args.every((x, j) => got[j] === x), 'wrong-arguments', `task of ${label} got ${got.length} arguments, expected ${args.length}`);
                if (kind === 'sync') { st.settledStep = sim.steps; if (ok) return out.value; throw out.error; }
                return mk();
            };
            let ret;
            try { ret = cancelExec(callable, ...args); } catch (e) { ctx.fail('sync-throw', show(e)); return; }
            const [promise, abort] = ret;
            const call = ctx.observe(promise, label);
            const cancels = c.weighted([[1, 0], [5, 1], [2, 2], [1, 3]]);
            for (let x = 0; x < cancels; x++) {
                const when = lat === Infinity || c.bool() ? c.int(0, 60) : Math.max(0, lat + c.int(-2, 2));
                const pk = c.weighted([[3, 'value'], [1, 'none'], [2, 'promise'], [3, 'fn'], [2, 'slowfn'], [1, 'throw'], [1, 'rejectfn']]);
                const pv = { cancel: k, x }, pe = new Error('cancel' + x), pl = c.int(1, 40);
                sim.at(when, `cancel ${label}.${x}`, () => {
                    const rec = { step: sim.steps, pk, runs: 0, out: { ok: true, value: pv }, first: st.cancels.length === 0 };
                    const same = got => { rec.runs++; sim.note(`payload ${label}.${x} runs`); ctx.check(got.length === args.length && args.every((a, j) => got[j] === a), 'wrong-arguments', `cancel payload of ${label} got other arguments`); };
                    let payload;
                    switch (pk) {
                        case 'value': payload = pv; break;
                        case 'none': payload = undefined; rec.out.value = undefined; break;
                        case 'promise': payload = later(sim, pl, 'payload', rec.out); break;
                        case 'fn': payload = (...g) => { same(g); return pv; }; break;
                        case 'slowfn': payload = (...g) => { same(g); return later(sim, pl, 'payload', rec.out); }; break;
                        case 'throw': rec.out = { ok: false, error: pe }; payload = (...g) => { same(g); throw pe; }; break;
                        default: rec.out = { ok: false, error: pe }; payload = (...g) => { same(g); return later(sim, pl, 'payload', rec.out); };
                    }
                    st.cancels.push(rec);
                    try { pk === 'none' && c.bool() ? abort() : abort(payload); } catch (e) { ctx.fail('cancel-threw', show(e)); }
                });
            }
            finals.push(() => {
                const first = st.cancels[0];
                const own = ok ? call.state === 'fulfilled' && Object.is(call.value, out.value) : call.state === 'rejected' && Object.is(call.value, out.error);
                const is = r => (r.out.ok ? call.state === 'fulfilled' && Object.is(call.value, r.out.value) : call.state === 'rejected' && Object.is(call.value, r.out.error));
                if (!first && st.settledStep === Infinity) { ctx.check(call.state === 'pending', 'invented', `${label} settled although nothing happened`); return; }
                ctx.check(call.state !== 'pending', 'never-settled', `${label} never settled`);
                if (!first || st.settledStep < first.step) {
                    ctx.check(own, 'wrong-outcome', () => `${label}: task settled first, call gave ${call.state} ${show(call.value)}`);
                    for (const r of st.cancels) ctx.check(r.runs === 0, 'late-payload-ran', () => `${label}: the payload of a cancel after completion was run`);
                    if (first) ctx.probe('cancel-after-completion');
                } else {
                    ctx.check(is(first), 'wrong-outcome', () => `${label}: cancelled first (${first.pk}), call gave ${call.state} ${show(call.value)}`);
                    if (st.settledStep !== Infinity) ctx.probe('task-settled-after-cancel');
                    if (!ok && st.settledStep !== Infinity) ctx.probe('task-failed-after-cancel');
                    if (['fn', 'slowfn', 'throw', 'rejectfn'].includes(first.pk)) ctx.check(first.runs === 1, 'payload-count', `${label}: cancel payload ran ${first.runs} times`);
                    for (const r of st.cancels.slice(1)) ctx.check(r.runs === 0, 'second-cancel-ran', () => `${label}: the payload of a later cancel was run`);
                }
                if (kind !== 'promise') ctx.check(st.runs === 1, 'task-count', `${label}: task ran ${st.runs} times`);
                if (st.cancels.length) ctx.nontrivial();
                if (st.cancels.length > 1) ctx.probe('cancelled-twice');
            });
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
}

module.exports = {
    property: 'F08', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'cancel', run: cancelRun }],
    rule: 'Each run draws up to three cancellable executions with task latency/outcome and up to three cancels around the completion; non-trivial = at least one cancel was issued.',
    real: ['packages/function cancelExec, toPromise, executeToPromise'], stub: ['clock (virtual)', 'tasks and payloads (generated)'],
    assumptions: ['cancel is invoked in a different turn than the one in which the task settles']
};
