'use strict';
// asyncStringify over trees with promises and asynchronous serialisers that settle while it works. The text that is
// delivered is read back against the tree as it is at that moment; every promise has to be shown in a state it can
// have been seen in, the same one wherever it occurs.
const ASYNC = Symbol.for('__ASYNC_TO_STRING_METHOD__'), SYNC = Symbol.for('__TO_STRING_METHOD__');
const SYM = Symbol.for('shared');
const LEAVES = [[undefined, 'undefined'], [null, 'null'], [true, 'true'], [0, '0'], [-0, '-0'], [NaN, 'NaN'], [1.5, '1.5'], [10n, '10n'], ['', '""'], ['a"b', '"a\\"b"'], [SYM, 'Symbol.for("shared")'], [/x/g, '/x/g'], [new Boolean(false), 'new Boolean(false)'], [new TypeError('bad'), 'new TypeError("bad")'], [new Error(''), 'new Error()'], [new URL('http://a.example/'), 'new URL("http://a.example/")'], [new Uint8Array([1, 2]), 'Uint8Array.from([1,2])']];
const STATE = { 'Promise.resolve(': 'fulfilled', 'Promise.reject(': 'rejected', 'new Promise(() => { /* pending */ })': 'pending', 'new Promise(() => { /* unknown */ })': 'unknown' };
class Mismatch extends Error {}

async function run(ctx) {
    const { c, sim } = ctx;
    if (c.chance(40)) { sim.lateTimers = c.pick([10, 40, 100]); sim.lateMax = c.pick([1, 5, 50]); }
    const { asyncStringify, stringify } = ctx.load('util');
    let serial = 0, promises = 0;
    const nodes = [], leaves = [], bad = [];
    const big = ctx.big(), budgetOf = () => (big ? c.int(60, 300) : c.int(1, 14));
    let budget = 0;

    const settle = (node, ms, go) => {
        node.settledAt = Infinity;
        if (ms === null) { ctx.probe('never-settles'); return; }
        if (ms < 0) { node.settledAt = sim.now; go(); } else sim.at(ms, `settle ${node.id}`, () => { node.settledAt = sim.now; go(); });
    };
    const when = () => c.weighted([[4, -1], [2, 0], [3, 1], [2, 2], [3, 'later'], [2, null]]);
    const delay = () => { const w = when(); return w === 'later' ? c.int(3, 60) : w; };
    const make = (up, depth) => {
        budget--;
        const kind = budget <= 0 || depth > (big ? 40 : 6) ? c.weighted([[4, 'leaf'], [1, 'same']]) : c.weighted([[6, 'leaf'], [5, 'promise'], [3, 'array'], [3, 'object'], [2, 'serialiser'], [1, 'map'], [1, 'set'], [2, 'same'], [1, 'date'], [1, 'text'], [1, 'fails']]);
        const node = { kind, id: `${kind}${++serial}`, addedAt: sim.now };
        const path = up.concat(node);
        const kids = () => Array.from({ length: c.int(0, big ? 6 : 3) }, () => make(path, depth + 1));
        switch (kind) {
            case 'leaf': case 'date':
                break;
            case 'same': {
                const others = nodes.filter(n => n.value && typeof n.value === 'object');
                if (!others.length) { node.kind = 'leaf'; break; }
                return c.pick(others);
            }
            default: break;
        }
        if (node.kind === 'leaf') { [node.value, node.text] = c.pick(LEAVES); return node; }
        if (kind === 'date') {
            node.value = new Date(sim.base + sim.skew + c.pick([sim.now, sim.now + 500, sim.now - 3000, sim.now + 3600000]));
        } else if (kind === 'promise') {
            promises++;
            node.ok = c.chance(70);
            let res, rej;
            node.value = new Promise((a, b) => { res = a; rej = b; });
            node.value.catch(() => {});
            nodes.push(node);
            node.child = make(path, depth + 1);
            // a promise that is fulfilled with a promise follows it
            if (node.ok && node.child.kind === 'promise') node.child = leaf();
            const { child } = node;
            settle(node, delay(), () => (node.ok ? res(child.value) : rej(child.value)));
            return node;
        } else if (kind === 'serialiser') {
            promises++;
            node.form = c.weighted([[5, 'text'], [2, 'reject'], [1, 'throw'], [1, 'never']]);
            node.ms = c.pick([-1, -1, 0, 1, 2, 3, 40]);
            node.calls = 0;
            node.value = { in: serial };
            node.keys = [['in', { kind: 'leaf', value: serial, text: String(serial) }]];
            const result = `<<${node.id}>>`;
            node.text = result;
            Object.defineProperty(node.value, ASYNC, {
                value() {
                    node.calls++;
                    sim.note(`serialise ${node.id}`);
                    ctx.check(this === node.value, 'serialiser-this', () => `the serialiser of ${node.id} was called on something else`);
                    if (node.form === 'throw') { sim.fault('serialiser-throws'); throw new Error('serialiser failed'); }
                    if (node.form === 'never') return new Promise(() => {});
                    const out = go => (node.ms < 0 ? go() : new Promise((res, rej) => sim.at(node.ms, `serialised ${node.id}`, () => go().then(res, rej))));
                    if (node.form === 'reject') { sim.fault('serialiser-rejects'); return out(() => Promise.reject(new Error('serialiser failed'))); }
                    return out(() => Promise.resolve(result));
                }
            });
        } else if (kind === 'array') {
            node.value = [];
            nodes.push(node);
            node.kids = kids();
            for (const k of node.kids) node.value.push(k.value);
            if (node.kids.length) leaves.push([node, path]);
            return node;
        } else if (kind === 'set') {
            node.value = new Set();
            nodes.push(node);
            const all = kids();
            node.kids = [];
            for (const k of all) if (!node.value.has(k.value) && !Object.is(k.value, -0)) { node.kids.push(k); node.value.add(k.value); }
            return node;
        } else if (kind === 'map') {
            node.value = new Map();
            nodes.push(node);
            node.keys = kids().map((k, i) => [`k${i}`, k]);
            for (const [k, n] of node.keys) node.value.set(k, n.value);
            return node;
        } else if (kind === 'object') {
            node.value = c.chance(15) ? Object.create(null) : {};
            node.bare = Object.getPrototypeOf(node.value) === null;
            nodes.push(node);
            node.keys = kids().map((k, i) => [c.pick([`k${i}`, `with space ${i}`, `"${i}"`]), k]);
            for (const [k, n] of node.keys) node.value[k] = n.value;
            if (node.keys.length) leaves.push([node, path]);
            return node;
        } else if (kind === 'text') {
            node.text = `<${node.id}>`;
            const { text } = node, how = c.int(0, 2);
            node.value = how === 0 ? { toString: () => text } : { [SYNC]: () => text };
            // a serialiser that throws counts as none
            if (how === 2) { node.value = { toString: () => text, [SYNC]() { throw new Error('serialiser failed'); } }; ctx.probe('sync-serialiser-throws'); }
        } else if (kind === 'fails') {
            const e = new Error('no text ' + node.id);
            node.error = e;
            node.value = { toString() { sim.fault('to-string-throws'); throw e; } };
            bad.push(node);
        }
        nodes.push(node);
        return node;
    };
    const leaf = () => { const n = { kind: 'leaf', addedAt: sim.now }; [n.value, n.text] = c.pick(LEAVES); return n; };

    // reads the text back against the tree
    const read = (text, root, { sync, startedAt, handled, nearest, seen = new Map() }) => {
        let pos = 0;
        const want = s => { if (!text.startsWith(s, pos)) throw new Mismatch(`expected ${s} at ${pos}: ${text.slice(Math.max(0, pos - 60), pos + 60)}`); pos += s.length; };
        const list = (items, path, lb, top, f) => items.forEach((k, i) => { if (i) want(','); f(k); });
        const shown = new Set();
        const go = (node, path, lb, top) => {
            const nested = node.value !== null && typeof node.value === 'object';
            if (nested && path.includes(node.value)) { want('[Circular]'); ctx.probe('circular'); return; }
            const here = path.concat([node.value]);
            lb = Math.max(lb, node.addedAt ?? 0);
            if (node.addedAt > startedAt) top = false;
            switch (node.kind) {
                case 'leaf': case 'text': want(node.text); return;
                case 'date': {
                    const now = sim.base + sim.now + sim.skew;
                    want(nearest && Math.floor(now / 1e3) === Math.floor(+node.value / 1e3) ? 'new Date()' : `new Date(${JSON.stringify(node.value.toISOString())})`);
                    return;
                }
                case 'fails':
                    if (!handled) throw new Mismatch('a value without a text was passed over');
                    want('<failed ' + node.id + '>');
                    return;
                case 'array': want('['); list(node.kids, here, lb, top, k => go(k, here, lb, top)); want(']'); return;
                case 'set': {
                    want('new Set([');
                    list(node.kids, here, lb, top, k => go(k, here, lb, top));
                    want('])');
                    return;
                }
                case 'map': want('new Map(['); list(node.keys, here, lb, top, ([k, n]) => { want(`[${JSON.stringify(k)},`); go(n, here, lb, top); want(']'); }); want('])'); return;
                case 'serialiser': {
                    shown.add(node);
                    const done = text.startsWith(node.text, pos), before = seen.get(node);
                    if (before !== undefined && before !== done) throw new Mismatch(`${node.id} is shown in two ways`);
                    seen.set(node, done);
                    const may = !sync && node.form === 'text';
                    if (done && !may) throw new Mismatch(`${node.id} has no text of its own (${node.form})`);
                    if (!done && may && node.ms <= 0) throw new Mismatch(`the text of ${node.id} was there in time`);
                    if (done && may && node.ms > 1 + (sim.lateTimers ? sim.lateMax : 0)) throw new Mismatch(`${node.id} was waited for`);
                    if (done) { want(node.text); ctx.probe('serialised'); return; }
                }
                // falls through
                case 'object':
                    if (node.bare) want(node.keys.length ? 'Object.assign(Object.create(null),' : 'Object.create(null)');
                    if (!node.bare || node.keys.length) {
                        want('{');
                        list(node.keys, here, lb, top, ([k, n]) => { want(JSON.stringify(k) + ':'); go(n, here, lb, top); });
                        want('}');
                    }
                    if (node.bare && node.keys.length) want(')');
                    return;
                case 'promise': {
                    const form = Object.keys(STATE).find(f => text.startsWith(f, pos));
                    if (!form) want('Promise');
                    const state = STATE[form], before = seen.get(node);
                    want(form);
                    if (before !== undefined && before !== state) throw new Mismatch(`${node.id} is both ${before} and ${state}`);
                    seen.set(node, state);
                    const truth = node.settledAt <= sim.now ? (node.ok ? 'fulfilled' : 'rejected') : 'pending';
                    if (sync || state === 'unknown') {
                        if (!sync || state !== 'unknown') throw new Mismatch(`${node.id} is shown as ${state}`);
                        return;
                    }
                    if (state === 'pending') {
                        if (node.settledAt <= lb) throw new Mismatch(`${node.id} had settled (${truth} at ${node.settledAt}) when it was first seen (${lb} or later)`);
                        ctx.probe(truth === 'pending' ? 'pending' : 'settled-too-late');
                        return;
                    }
                    if (state !== truth) throw new Mismatch(`${node.id} is shown as ${state}, it is ${truth}`);
                    if (top && !sim.lateTimers && node.settledAt > startedAt + 1) throw new Mismatch(`${node.id}, which settled ${node.settledAt - startedAt} ms later, was waited for`);
                    ctx.probe('seen-' + state);
                    go(node.child, here, Math.max(lb, node.settledAt), false);
                    want(')');
                    return;
                }
                default: throw new Error('node ' + node.kind);
            }
        };
        go(root, [], startedAt, true);
        if (pos !== text.length) throw new Mismatch(`more text: ${text.slice(pos, pos + 80)}`);
        return shown;
    };

    const finals = [], shownBy = new Map();
    let asked = 0, open = 0;
    const trees = c.int(1, 3);
    for (let t = 0; t < trees; t++) sim.at(c.int(0, 30), `tree ${t}`, () => {
        budget = budgetOf();
        const root = make([], 0);
        const ownSerialisers = nodes.filter(n => n.kind === 'serialiser');
        for (let k = c.weighted([[3, 1], [2, 2], [1, 3]]); k > 0; k--) sim.at(c.int(0, 12), 'call', () => {
            const startedAt = sim.now, nearest = c.bool(), handled = c.chance(50), sync = c.chance(15);
            const opts = { ...(nearest ? { nearestDate: true } : {}), ...(handled ? { errorHandler: e => `<failed ${String(e.message).slice(8)}>` } : {}) };
            const args = c.chance(30) && !nearest && !handled ? [root.value] : [root.value, opts];
            const label = `call ${++serial}`;
            const verify = text => {
                if (typeof text !== 'string') return ctx.fail('no-text', `${label} gave ${typeof text}`);
                try {
                    for (const n of read(text, root, { sync, startedAt, handled, nearest })) if (!sync) shownBy.set(n, (shownBy.get(n) || 0) + 1);
                } catch (e) {
                    if (!(e instanceof Mismatch)) throw e;
                    ctx.fail('wrong-text', `${label}${sync ? ' (synchronous)' : ''} started at ${startedAt}: ${e.message}`);
                }
            };
            const failed = e => {
                if (handled || !bad.some(n => n.error === e)) ctx.fail('failed', `${label}: ${e && e.stack}`);
                else ctx.probe('failed-as-it-should');
            };
            if (sync) {
                const calls = ownSerialisers.map(n => n.calls);
                let text;
                try { text = stringify(...args); } catch (e) { failed(e); return; }
                verify(text);
                ctx.check(ownSerialisers.every((n, i) => n.calls === calls[i]), 'serialised-in-vain', 'the synchronous form called an asynchronous serialiser');
                return;
            }
            let done = false;
            const p = asyncStringify(...args);
            p.then(text => {
                done = true;
                verify(text);
                if (--open === 0 && !bad.length) ctx.check(sim.armed().length === 0, 'timer-left', () => `${label} left ${sim.armed().length} timers behind`);
            }, e => { done = true; open--; failed(e); });
            asked++;
            open++;
            finals.push(() => ctx.check(done, 'never-settles', `${label}, started at ${startedAt}, is still waiting`));
        });
    });
    // the owner of a tree changes it while it is being written
    for (let k = c.int(0, 4); k > 0; k--) sim.at(c.int(0, 40), 'change', () => {
        if (!leaves.length) return;
        const [node, path] = c.pick(leaves);
        const list = node.keys || node.kids, i = c.raw(list.length);
        budget = 3;
        const fresh = c.chance(60) ? leaf() : make(path, 5);
        sim.fault('changed-meanwhile');
        if (node.keys) { list[i][1] = fresh; node.value[list[i][0]] = fresh.value; } else { list[i] = fresh; node.value[i] = fresh.value; }
    });
    if (c.chance(30)) for (let k = c.int(1, 3); k > 0; k--) sim.at(c.int(0, 40), 'clock', () => { sim.fault('clock-jump'); sim.skew += c.int(-5000, 5000); });
    await sim.drive();
    if (sim.violations.length) return;
    for (const f of finals) f();
    for (const n of nodes) if (n.kind === 'serialiser') {
        ctx.check(n.calls <= asked, 'serialised-again', () => `${n.id} was serialised ${n.calls} times for ${asked} calls`);
        ctx.check(n.calls >= (shownBy.get(n) || 0), 'not-serialised', () => `${n.id} was serialised ${n.calls} times, it is in ${shownBy.get(n)} texts`);
    }
    ctx.check(sim.armed().length === 0, 'timer-left', () => `${sim.armed().length} timers are left`);
    if (promises) ctx.nontrivial();
}

module.exports = {
    property: 'U01', packages: ['util'], runs: { quick: 100000, thorough: 1500000 },
    scenarios: [{ name: 'text of promises', run }],
    rule: 'Each run builds up to three values of nested arrays, objects, maps, sets, dates, errors, promises (settled, settling within or after a timer turn, never) and asynchronous serialisers (with a text in time or late, rejecting, throwing, silent), with shared and circular references, and has them turned into text by overlapping calls while promises settle, the owner changes the value, the clock jumps and timers fire late; non-trivial = at least one promise or serialiser.',
    real: ['packages/util stringify, asyncStringify', 'promises and microtasks'], stub: ['timers and clock (virtual)'],
    assumptions: ['A zero-delay timer fires at least one millisecond later']
};
