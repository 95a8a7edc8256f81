'use strict';
const { latency, outcome, show, later } = require('../tasks');

// a generated participant: function (any outcome), promise or plain value
function part(ctx, label, st, args, opts = {}) {
    const { c, sim } = ctx;
    const o = outcome(c, label, opts.pFail ?? 45, { noFunction: opts.noFunction });
    if (opts.bool) { if (o.ok) o.value = c.pick([true, false, 1, 0, '', null, 'x']); }
    const form = opts.forms ? c.weighted(opts.forms) : 'fn';
    const p = { o, form, runs: 0, value: undefined, expect: o, startAt: -1, endStep: -1 };
    if (form === 'fn') p.value = function (...got) {
        p.runs++;
        p.startAt = sim.now;
        sim.note(label + ' runs');
        const want = opts.argsOf ? opts.argsOf() : args;
        ctx.check(got.length === want.length && want.every((x, j) => Object.is(got[j], x)), 'wrong-arguments', () => `${label} got ${got.length} arguments ${show(got)}, expected ${show(want)}`);
        if (o.mode === 'sync') { if (o.ok) return o.value; throw o.error; }
        if (o.mode === 'settled') return o.ok ? Promise.resolve(o.value) : Promise.reject(o.error);
        return later(sim, o.ms, label + ' settles', o);
    };
    else if (form === 'promise') {
        if (opts.noRejectingPromise) { o.ok = true; o.error = undefined; if (o.value === undefined) o.value = { p: label }; }
        p.value = o.mode === 'async' ? later(sim, o.ms, label + ' settles', o) : o.ok ? Promise.resolve(o.value) : Promise.reject(o.error);
    } else { // plain value
        const v = c.pick([undefined, null, 0, 'plain', { plain: 1 }]);
        p.value = v;
        p.expect = { ok: true, value: v };
    }
    return p;
}
const FORMS = [[6, 'fn'], [2, 'promise'], [1, 'value']];

async function wrappers(ctx) {
    const { c, sim } = ctx;
    const fn = ctx.load('function');
    const finals = [];
    for (let k = c.int(1, 4); k > 0; k--) {
        const kind = c.pick(['padding', 'ifThrow', 'noCatch', 'tryCatch', 'select', 'toPromise', 'executeToPromise']);
        const label = kind + k;
        sim.at(c.int(0, 40), 'start ' + label, () => {
            const args = [];
            for (let a = c.int(0, 3); a > 0; a--) args.push(c.chance(20) ? undefined : { a });
            const taskForms = kind === 'tryCatch' ? [[1, 'fn']] : kind === 'ifThrow' ? FORMS : FORMS;
            const task = kind === 'select' ? part(ctx, label + '.cond', null, args, { bool: true, forms: [[6, 'fn'], [2, 'promise'], [2, 'value']], pFail: 20 })
                : part(ctx, label + '.task', null, args, { forms: taskForms });
            let a, b, call;
            const exp = { ok: undefined };
            const same = e => (call.state === 'fulfilled') === e.ok && Object.is(call.value, e.ok ? e.value : e.error);
            const T = task.expect;
            switch (kind) {
                case 'padding':
                    call = ctx.call(label, () => fn.padding(task.value, ...args));
                    finals.push(() => {
                        ctx.check(call.state === 'fulfilled', 'wrapper-rejected', () => `${label} ${call.state} ${show(call.value)}`);
                        const v = call.value;
                        ctx.check(Array.isArray(v) && v.length === 2, 'wrong-shape', () => `${label} gave ${show(v)}`);
                        if (Array.isArray(v)) ctx.check(T.ok ? Object.is(v[0], T.value) && v[1] === null : v[0] === null && Object.is(v[1], T.error), 'wrong-outcome', () => `${label}: task gave ${T.ok ? 'value ' + show(T.value) : 'error ' + show(T.error)}, pair is ${show(v)}`);
                    });
                    break;
                case 'noCatch':
                    call = ctx.call(label, () => fn.noCatch(task.value, ...args));
                    finals.push(() => ctx.check(call.state === 'fulfilled' && Object.is(call.value, T.ok ? T.value : undefined), 'wrong-outcome', () => `${label}: task ${T.ok ? show(T.value) : 'failed'}, call gave ${call.state} ${show(call.value)}`));
                    break;
                case 'tryCatch': case 'toPromise': case 'executeToPromise':
                    call = ctx.call(label, () => (kind === 'tryCatch' ? fn.tryCatch(task.value, ...args) : fn[kind](task.value, args)));
                    ctx.check(!call.sync, 'sync-outcome', () => `${label} did not return a promise (${call.state} ${show(call.value)})`);
                    finals.push(() => ctx.check(same(T), 'wrong-outcome', () => `${label}: task gave ${T.ok ? 'value ' + show(T.value) : 'error ' + show(T.error)}, call gave ${call.state} ${show(call.value)}`));
                    break;
                case 'ifThrow':
                    a = part(ctx, label + '.fallback', null, args, { forms: FORMS, noRejectingPromise: true, argsOf: () => [T.error, ...args] });
                    call = ctx.call(label, () => fn.ifThrow(task.value, a.value, ...args));
                    finals.push(() => {
                        const e = T.ok ? T : a.expect;
                        ctx.check(same(e), 'wrong-outcome', () => `${label}: task ${T.ok ? 'gave ' + show(T.value) : 'failed'}, expected ${e.ok ? show(e.value) : 'error ' + show(e.error)}, got ${call.state} ${show(call.value)}`);
                        if (a.form === 'fn') ctx.check(a.runs === (T.ok ? 0 : 1), 'fallback-count', () => `${label}: fallback ran ${a.runs} times, task ${T.ok ? 'succeeded' : 'failed'}`);
                        if (!T.ok) ctx.probe('fell-back');
                    });
                    break;
                default: {
                    a = part(ctx, label + '.if', null, args, { forms: FORMS, noRejectingPromise: true });
                    b = part(ctx, label + '.else', null, args, { forms: FORMS, noRejectingPromise: true });
                    call = ctx.call(label, () => fn.select(task.value, a.value, b.value, ...args));
                    finals.push(() => {
                        const chosen = !T.ok ? null : T.value ? a : b;
                        const e = chosen ? chosen.expect : T;
                        ctx.check(same(e), 'wrong-outcome', () => `${label}: condition ${T.ok ? show(T.value) : 'failed'}, expected ${e.ok ? show(e.value) : 'error ' + show(e.error)}, got ${call.state} ${show(call.value)}`);
                        for (const x of [a, b]) if (x.form === 'fn') ctx.check(x.runs === (x === chosen ? 1 : 0), 'branch-count', () => `${label}: ${x === a ? 'if' : 'else'} branch ran ${x.runs} times, condition ${T.ok ? show(T.value) : 'failed'}`);
                        if (chosen && task.form === 'fn' && task.o.mode === 'async') ctx.probe('late-condition');
                    });
                }
            }
            finals.push(() => {
                ctx.check(call.state !== 'pending', 'never-settled', `${label} never settled`);
                if (task.form === 'fn') ctx.check(task.runs === 1, 'task-count', `${label}: task ran ${task.runs} times`);
                if (!T.ok) ctx.probe('task-failed');
                if (task.form === 'fn' && task.o.mode === 'async') ctx.check(call.at >= task.startAt + task.o.ms, 'before-task', `${label} settled at ${call.at}, task ended at ${task.startAt + task.o.ms}`);
            });
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
    ctx.nontrivial();
}

module.exports = {
    property: 'F10', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'wrappers', run: wrappers }],
    rule: 'Each run overlaps up to four wrapper calls; tasks, conditions, fallbacks and branches are generated functions (throwing, returning, resolving or rejecting later), promises or plain values; every run is non-trivial.',
    real: ['packages/function padding, ifThrow, noCatch, tryCatch, select, toPromise, executeToPromise'], stub: ['clock (virtual)', 'tasks, fallbacks, branches (generated)'],
    assumptions: ['A promise passed in as fallback or branch does not itself reject before it is chosen']
};
