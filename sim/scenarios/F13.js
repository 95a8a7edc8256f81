'use strict';
const { show, later } = require('../tasks');

// Wrapped functions are called by interleaved callers at random times; they return, throw, call back into
// their wrapper or return promises that settle later. A small model of each wrapper says what must happen.
async function run(ctx) {
    const { c, sim } = ctx;
    const fn = ctx.load('function');
    const finals = [];
    let serial = 0;
    // a function with a scripted outcome per run; every run is recorded
    const scripted = (label, pThrow = 25) => {
        const runs = [];
        const f = function (...args) {
            const r = { args, outcome: null };
            runs.push(r);
            sim.note(`${label} runs ${runs.length}`);
            if (f.inside) f.inside(r);
            const form = c.weighted([[60 - pThrow, 'value'], [pThrow, 'throw'], [15, 'odd'], [15, 'later']]);
            if (form === 'throw') { sim.fault('function-throws'); r.outcome = { ok: false, value: new Error(label + ' failed ' + ++serial) }; throw r.outcome.value; }
            const value = form === 'value' ? { from: label, n: ++serial } : form === 'odd' ? c.pick([undefined, null, 0, false, '', NaN])
                : later(sim, c.int(0, 20), label + ' settles', c.chance(70) ? { ok: true, value: ++serial } : { ok: false, error: new Error('late ' + ++serial) });
            if (form === 'later') value.catch(() => {});
            r.outcome = { ok: true, value };
            return value;
        };
        f.runs = runs;
        return f;
    };
    const list = n => Array.from({ length: c.int(0, n) }, () => (c.chance(15) ? undefined : { a: ++serial }));
    const attempt = f => { try { return { ok: true, value: f() }; } catch (e) { return { ok: false, value: e }; } };
    const same = (a, b) => a.ok === b.ok && Object.is(a.value, b.value);
    const sameList = (a, b) => a.length === b.length && a.every((x, i) => Object.is(x, b[i]));
    const expect = (label, got, want) => ctx.check(same(got, want), 'wrong-outcome', () => `${label}: expected ${want.ok ? 'value' : 'error'} ${show(want.value)}, got ${got.ok ? 'value' : 'error'} ${show(got.value)}`);
    const ranWith = (label, f, n, args) => ctx.check(f.runs.length === n, 'wrong-run-count', () => `${label}: the function ran ${f.runs.length} times, expected ${n}`) && (!n || !args || ctx.check(sameList(f.runs[n - 1].args, args), 'wrong-arguments', () => `${label}: got arguments ${show(f.runs[n - 1].args)}, expected ${show(args)}`));
    // callers: `n` calls at random times
    const callers = (label, n, f) => { for (let i = 0; i < n; i++) sim.at(c.int(0, 40), `${label} call`, () => { if (!sim.violations.length) f(i); }); };

    const kinds = {
        once(label) {
            const f = scripted(label, 35), pre = list(2), w = fn.once(f, ...pre);
            let done = null;
            callers(label, c.int(1, 6), () => {
                const args = list(2), before = f.runs.length;
                const got = attempt(() => w(...args));
                if (done) { ranWith(label, f, before); expect(label, got, done); return; }
                if (!ranWith(label, f, before + 1, pre.concat(args))) return;
                expect(label, got, f.runs[before].outcome);
                if (f.runs[before].outcome.ok) done = got; else ctx.probe('once-failed-first');
            });
        },
        firstN(label) {
            const n = ctx.big(8) ? c.int(5, 300) : c.int(0, 4), f = scripted(label), pre = list(2), w = fn.runOnlyNTimes(n, f, ...pre);
            let left = n;
            const inside = c.chance(40);
            const go = () => {
                const args = list(2), before = f.runs.length, may = left > 0;
                if (may) left--;
                let mine = null;
                if (inside) f.inside = r => { mine ??= r; f.inside = null; if (c.chance(50)) { ctx.probe('re-entered'); go(); } };
                const got = attempt(() => w(...args));
                f.inside = null;
                if (!may) { ctx.check(f.runs.length === before, 'ran-too-often', () => `${label}: ran again after its ${n} calls`); expect(label, got, { ok: true, value: undefined }); return; }
                const r = mine || f.runs[before];
                if (!ctx.check(!!r && r === f.runs[before], 'wrong-run-count', () => `${label}: call ${n - left} of ${n} did not run the function`)) return;
                ctx.check(sameList(r.args, pre.concat(args)), 'wrong-arguments', () => `${label}: got ${show(r.args)}, expected ${show(pre.concat(args))}`);
                expect(label, got, r.outcome);
            };
            callers(label, n > 4 ? n + c.int(-2, 3) : c.int(1, n + 3), go);
            finals.push(() => ctx.check(f.runs.length <= n, 'ran-too-often', () => `${label}: ran ${f.runs.length} times, at most ${n} allowed`));
        },
        afterN(label) {
            const n = ctx.big(8) ? c.int(5, 300) : c.int(0, 4), f = scripted(label), pre = list(2), w = fn.runAfterTimes(n, f, ...pre);
            let calls = 0, last = w;
            callers(label, n > 4 ? n + c.int(-2, 3) : c.int(1, n + 3), () => {
                const before = f.runs.length, chained = c.chance(40);
                calls++;
                const got = attempt(() => (chained && typeof last === 'function' ? last() : w()));
                if (calls < n) {
                    ranWith(label, f, before);
                    ctx.check(got.ok && typeof got.value === 'function', 'not-a-function', () => `${label}: call ${calls} of ${n} gave ${show(got.value)}`);
                    last = got.value;
                } else if (ranWith(label, f, before + 1, pre)) expect(label, got, f.runs[before].outcome);
            });
        },
        pair(label) {
            // two functions run one after the other; the kind of wrapper says which result and arguments count
            const kind = c.pick(['before', 'after', 'applyBefore', 'applyAfter', 'withBefore', 'withAfter']);
            const x = scripted(label + '.' + kind), t = scripted(label + '.target'), xa = list(3);
            const curriedArgs = kind === 'before' || kind === 'after' || kind === 'applyAfter' || kind === 'withAfter';
            const w = curriedArgs ? fn[kind](x, ...xa) : fn[kind](x);
            const order = [];
            x.inside = () => order.push('x');
            t.inside = () => order.push('t');
            callers(label, c.int(1, 4), () => {
                const ta = list(3), nx = x.runs.length, nt = t.runs.length;
                order.length = 0;
                const got = attempt(() => w(t, ...ta));
                const targetFirst = kind.toLowerCase().endsWith('after');
                const [a, b, na] = targetFirst ? [t, x, nt] : [x, t, nx];
                const nb = targetFirst ? nx : nt;
                const argsA = kind === 'before' ? xa : ta; // of the one that runs first
                if (!ranWith(label, a, na + 1, argsA)) return;
                const ra = a.runs[na].outcome;
                if (!ra.ok) { ctx.probe('first-threw'); ranWith(label, b, nb); expect(label, got, ra); return; }
                const argsB = kind === 'before' ? ta : kind === 'after' ? xa : kind === 'applyBefore' || kind === 'withBefore' ? [ra.value] : [ra.value, ...xa];
                if (!ranWith(label, b, nb + 1, argsB)) return;
                ctx.check(order.join('') === (targetFirst ? 'tx' : 'xt'), 'wrong-order', () => `${label} ${kind}: ran ${order}`);
                const rb = b.runs[nb].outcome;
                if (!rb.ok) { expect(label, got, rb); return; }
                // the value of the target, of the function that ran last, or of the wrapped-around one
                expect(`${label} ${kind}`, got, kind === 'after' || kind === 'withAfter' || kind === 'withBefore' ? ra : rb);
            });
        },
        compose(label) {
            const fs = Array.from({ length: ctx.big(8) ? c.int(6, 80) : c.int(1, 5) }, (_, i) => scripted(`${label}.${i}`, i > 5 ? 1 : 12)), w = fn.compose(...fs);
            callers(label, c.int(1, 3), () => {
                const before = fs.map(f => f.runs.length), v = { v: ++serial };
                const got = attempt(() => w(v));
                let cur = { ok: true, value: v };
                fs.forEach((f, i) => {
                    if (!cur.ok) { ranWith(label + '.' + i, f, before[i]); return; }
                    if (!ctx.check(f.runs.length === before[i] + 1, 'wrong-run-count', () => `${label}: function ${i} ran ${f.runs.length - before[i]} times`)) { cur = { ok: false }; return; }
                    ctx.check(f.runs[before[i]].args.length === 1 && Object.is(f.runs[before[i]].args[0], cur.value), 'wrong-arguments', () => `${label}: function ${i} got ${show(f.runs[before[i]].args)}, expected ${show(cur.value)}`);
                    cur = f.runs[before[i]].outcome;
                });
                if (!sim.violations.length) expect(label, got, cur);
            });
        },
        curry(label) {
            const n = ctx.big(8) ? c.int(6, 40) : c.int(1, 5), f = scripted(label);
            Object.defineProperty(f, 'length', { value: n });
            const pool = [{ w: fn.currying(f), args: [] }]; // partial applications, used again and again
            callers(label, n > 5 ? n * 2 : c.int(2, 9), () => {
                const p = n > 5 && c.chance(80) ? pool[pool.length - 1] : pool[c.raw(pool.length)];
                const args = Array.from({ length: c.weighted([[1, 0], [5, 1], [4, 2], [2, 3]]) }, () => (c.chance(15) ? undefined : { a: ++serial }));
                const before = f.runs.length, all = p.args.concat(args);
                if (!args.length) ctx.probe('empty-call');
                const got = attempt(() => p.w(...args));
                if (all.length >= n) { if (ranWith(label, f, before + 1, all)) expect(label, got, f.runs[before].outcome); return; }
                ranWith(label, f, before);
                if (ctx.check(got.ok && typeof got.value === 'function', 'not-a-function', () => `${label}: ${all.length} of ${n} arguments given, got ${show(got.value)}`)) pool.push({ w: got.value, args: all });
            });
        },
        toggle(label) {
            const odd = [0, -0, '', null, undefined, NaN, false, true, 1, {}, []];
            const l = c.pick(odd), r = c.pick(odd.filter(v => !Object.is(v, l))), t = fn.toggle(l, r);
            let cur = l;
            callers(label, c.int(1, 8), () => {
                const what = c.pick(['toggle', 'toggle', 'left', 'right', 'read']);
                if (what === 'toggle') { cur = Object.is(cur, l) ? r : l; const got = t.toggle(); ctx.check(Object.is(got, cur), 'wrong-outcome', () => `${label} of ${show(l)} and ${show(r)}: toggling gave ${show(got)}, expected ${show(cur)}`); }
                else if (what === 'left') { t.setLeft(); cur = l; } else if (what === 'right') { t.setRight(); cur = r; }
                ctx.check(Object.is(t.value, cur), 'wrong-value', () => `${label} of ${show(l)} and ${show(r)}: value is ${show(t.value)}, expected ${show(cur)} after ${what}`);
            });
        },
        singleton(label) {
            // a class, a singleton subclass of it and an unrelated class; constructors may throw
            const built = [];
            const mk = (Base, name) => ({ [name]: class extends Base { constructor(...a) { super(...a); if (new.target.prototype === cls[name].prototype) { if (c.chance(20)) { sim.fault('constructor-throws'); throw new Error('constructor of ' + name); } this.args = a; built.push(name); } } } })[name];
            const cls = {}, single = {}, inst = {};
            cls.A = mk(Object, 'A'); single.A = fn.singletonClass(cls.A);
            cls.B = mk(single.A, 'B'); single.B = fn.singletonClass(cls.B);
            cls.C = mk(Object, 'C'); single.C = fn.singletonClass(cls.C);
            callers(label, c.int(2, 8), () => {
                const name = c.pick(['A', 'B', 'C']), args = list(2), before = built.length;
                const got = attempt(() => new single[name](...args));
                if (!got.ok) { ctx.check(!inst[name] && /constructor of/.test(got.value.message), 'constructor-failed', () => `${label}: new ${name} failed: ${show(got.value)}${inst[name] ? ' although it was built before' : ''}`); return; }
                ctx.check(got.value && Object.getPrototypeOf(got.value) === cls[name].prototype, 'wrong-class', () => `${label}: new ${name} gave an instance of ${got.value && got.value.constructor && got.value.constructor.name}`);
                if (inst[name]) { ctx.check(got.value === inst[name] && built.length === before, 'second-instance', () => `${label}: a second instance of ${name} was made`); ctx.probe('instance-reused'); return; }
                inst[name] = got.value;
                ctx.check(built.length === before + 1 && sameList(got.value.args, args), 'wrong-arguments', () => `${label}: constructor of ${name} got ${show(got.value.args)}`);
            });
        },
        deferred(label) {
            const d = fn.deferred(), o = ctx.observe(d.promise, label);
            let first = null;
            callers(label, c.int(1, 4), () => {
                const ok = c.chance(60), v = ok ? c.pick([undefined, 0, { v: ++serial }]) : new Error('refused ' + ++serial);
                first ??= { ok, value: v };
                if (ok) d.resolve(v); else d.reject(v);
            });
            finals.push(() => ctx.check(o.state === (first.ok ? 'fulfilled' : 'rejected') && Object.is(o.value, first.value) && o.count === 1, 'wrong-outcome', () => `${label}: first settled with ${show(first.value)}, promise ${o.state} ${show(o.value)}`));
        },
        bind(label) {
            const f = scripted(label), self = c.weighted([[4, { me: ++serial }], [1, null], [1, undefined], [1, 7]]);
            let seen;
            const w = fn.bind(function (...a) { seen = this; return f(...a); }, self);
            callers(label, c.int(1, 3), () => {
                const args = list(3), before = f.runs.length;
                const got = attempt(() => w.apply({ other: 1 }, args));
                if (ranWith(label, f, before + 1, args)) expect(label, got, f.runs[before].outcome);
                ctx.check(Object.is(seen, self), 'wrong-this', () => `${label}: ran with another receiver`);
            });
        }
    };
    for (let k = c.int(1, 3); k > 0; k--) {
        const kind = c.pick(Object.keys(kinds));
        kinds[kind](kind + k);
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
    ctx.nontrivial();
}

module.exports = {
    property: 'F13', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'histories', run }],
    rule: 'Each run makes up to three wrappers (once, first-N, after-N, before/after family, compose, curry, toggle, singleton class, deferred, bind) that interleaved callers use at random times, with functions and constructors that throw, re-enter or return late promises; every run is non-trivial.',
    real: ['packages/function once, runOnlyNTimes, runAfterTimes, before, after, applyBefore, applyAfter, withBefore, withAfter, compose, currying, toggle, singletonClass, deferred, bind'], stub: ['clock (virtual)', 'wrapped functions and classes (generated)'],
    assumptions: ['A function given to once does not call its own wrapper']
};
