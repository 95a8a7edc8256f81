'use strict';
// Reference model and workload for memoised functions, shared by F04 and F05.
const { perform, outcome, show } = require('./tasks');

// a computation's value: mostly unique, so that each read is attributable to one computation, sometimes falsy
const FALSY = [undefined, null, 0, false, '', NaN];
const value = (c, n) => (c.chance(25) ? c.pick(FALSY) : { n });
const KEYS = [k => 'k' + k, k => k, k => [NaN, undefined, null][k], k => ['', 0, false][k]];

// the container a user may put in place of Map
function store() {
    return class Store {
        constructor() { this.m = new Map(); this.set0 = 0; }
        has(k) { return this.m.has(k); }
        get(k) { return this.m.get(k); }
        set(k, v) { this.set0++; this.m.set(k, v); return this; }
        delete(k) { return this.m.delete(k); }
        clear() { this.m.clear(); }
    };
}
function withStore(ctx, memoize, make) {
    const kind = ctx.c.chance(30) ? store() : null;
    if (!kind) return make();
    memoize.cacheInitializer = kind;
    let memo;
    try { memo = make(); } finally { memoize.cacheInitializer = Map; }
    ctx.check(memo.cache instanceof kind, 'wrong-container', 'the results are not kept in the given container');
    ctx.probe('own-container');
    return memo;
}

async function asyncHistory(ctx, cfg) {
    const { c, sim } = ctx;
    const big = ctx.big(4), nKeys = big ? c.int(1, c.pick([20, 400, 3000])) : c.int(1, 3);
    const ttl = cfg.ttl(c);
    const hasTtl = Number.isSafeInteger(ttl);
    const maxOps = big ? c.int(300, 2500) : c.int(2, cfg.maxOps);
    const mkKey = c.pick(big ? KEYS.slice(0, 2) : KEYS);
    const { memoizeWithAsync } = ctx.load('function');
    // model
    const cache = new Map(), inflight = new Map(), comps = [];
    const just = new Map(); // settled in the current step: the memoiser may not have noticed yet
    let expectComp = null, inCall = null, joined = 0, invalidatedInflight = 0, expired = 0, hits = 0, failedShared = 0;
    const func = function (k, extra) {
        const comp = { n: comps.length, k, start: sim.now, settled: false, waiters: 0 };
        comps.push(comp);
        sim.note(`compute ${comp.n} key ${k}`);
        ctx.check(inCall !== null, 'unexpected-compute', `function ran outside a call (key ${k})`);
        ctx.check(expectComp === true || expectComp === 'either', 'recomputed', () => `call for key ${k} recomputed although ${inCall && inCall.why}`);
        ctx.check(inCall && inCall.k === k && inCall.extra === extra, 'wrong-arguments', () => `computation for key ${k} got arguments of another call`);
        if (inCall) inCall.computed = comp;
        comp.o = outcome(c, comp.n, cfg.pFail, { noFunction: true, maxLatency: 60 });
        if (!comp.o.ok && comp.o.error === undefined) comp.o.error = new Error('E' + comp.n);
        if (comp.o.ok) comp.o.value = value(c, comp.n);
        inflight.set(k, comp);
        return perform(sim, comp.o, 'settle ' + comp.n, () => {
            comp.settled = true; comp.end = sim.now;
            sim.note(`computed ${comp.n} ${comp.o.ok ? 'ok' : 'fail'}`);
            if (inflight.get(k) === comp) {
                inflight.delete(k);
                just.set(k, { comp, step: sim.steps });
                if (comp.o.ok) cache.set(k, { comp, exp: sim.now + ttl });
            }
        });
    };
    const memo = withStore(ctx, memoizeWithAsync, () => (hasTtl || c.bool() ? memoizeWithAsync(func, k => mkKey(k), ttl) : memoizeWithAsync(func, k => mkKey(k))));
    const calls = [];
    let ops = 0;
    const doCall = (k, why) => {
        const call = { k, extra: 'x' + calls.length, at: sim.now, computed: null, id: calls.length };
        calls.push(call);
        sim.note(`call ${call.id} key ${k} ${why || ''}`);
        const e = cache.get(k);
        let expect;
        if (e && (!hasTtl || sim.now < e.exp)) { expect = { comp: e.comp, kind: 'cache' }; expectComp = false; call.why = `computation ${e.comp.n} is cached`; hits++; }
        else if (e && sim.now === e.exp) { expect = { comp: e.comp, kind: 'boundary' }; expectComp = 'either'; call.why = 'boundary'; }
        else if (inflight.has(k)) { expect = { comp: inflight.get(k), kind: 'join' }; expectComp = false; call.why = `computation ${inflight.get(k).n} is in flight`; joined++; expect.comp.waiters++; }
        else if (just.has(k) && just.get(k).step === sim.steps) { expect = { kind: 'just', comp: just.get(k).comp }; expectComp = 'either'; call.why = 'just settled'; }
        else { expect = { kind: 'new' }; expectComp = true; if (e) expired++; }
        if (e && hasTtl && sim.now > e.exp) cache.delete(k);
        // on the boundary an in-flight computation may exist too
        const alt = expect.kind === 'boundary' && (inflight.get(k) || (just.has(k) && just.get(k).step === sim.steps && just.get(k).comp));
        inCall = call;
        let p;
        try { p = memo(k, call.extra); } catch (err) { ctx.fail('sync-throw', show(err)); inCall = null; return; }
        inCall = null; expectComp = null;
        if (call.computed) {
            expect.comp = call.computed;
            if (expect.kind === 'boundary' || expect.kind === 'just') expect.kind = 'new';
        } else if (expect.kind === 'new') { ctx.fail('stale-or-missing', `call ${call.id} for key ${k} did not compute although nothing valid is cached or in flight`); return; }
        call.expect = expect;
        p.then(
            v => {
                call.done = true;
                sim.note(`call ${call.id} -> ${show(v)}`);
                const o = expect.comp.o;
                ctx.check((o.ok && Object.is(v, o.value)) || (alt && alt.o.ok && Object.is(v, alt.o.value)), 'wrong-value', () => `call ${call.id} key ${k} (${expect.kind}) got ${show(v)}, expected computation ${expect.comp.n} ${o.ok ? show(o.value) : 'failure'}`);
                if (cfg.recall && ops < maxOps && c.chance(20)) { ops++; doCall(k, 'from-then'); }
            },
            err => {
                call.done = true;
                sim.note(`call ${call.id} !! ${show(err)}`);
                const o = expect.comp.o;
                ctx.check((!o.ok && Object.is(err, o.error)) || (alt && !alt.o.ok && Object.is(err, alt.o.error)), 'wrong-error', () => `call ${call.id} key ${k} (${expect.kind}) rejected with ${show(err)}, expected computation ${expect.comp.n} ${o.ok ? 'to succeed' : show(o.error)}`);
                if (expect.kind === 'join') failedShared++;
                if (cfg.recall && ops < maxOps && c.chance(30)) { ops++; doCall(k, 'from-catch'); }
            }
        );
    };
    const step = () => {
        if (ops >= maxOps) return;
        ops++;
        const k = c.raw(nKeys);
        const op = cfg.invalidate ? c.weighted(big ? [[500, 'call'], [10, 'delete'], [1, 'clear'], [10, 'evict']] : [[6, 'call'], [1, 'delete'], [1, 'clear'], [1, 'evict']]) : 'call';
        if (op === 'call') doCall(k);
        else if (op === 'evict') {
            // the kept result alone is dropped: a computation in flight goes on and is kept
            if (just.has(k) && just.get(k).step === sim.steps) return void sim.at(1, 'op', step);
            sim.note('evict ' + k);
            const had = cache.has(k), gone = memo.cache.delete(mkKey(k));
            ctx.check(!had || hasTtl || gone, 'not-kept', `the result for key ${k} is not in the cache property`);
            cache.delete(k);
        }
        else if (op === 'delete') {
            sim.note('delete ' + k);
            if (inflight.has(k)) invalidatedInflight++;
            memo.delete(k, 'whatever'); cache.delete(k); inflight.delete(k); just.delete(k);
        } else {
            sim.note('clear');
            invalidatedInflight += inflight.size;
            memo.clear(); cache.clear(); inflight.clear(); just.clear();
        }
        // next operation: at once, soon, or around an expiry
        let gap;
        switch (c.weighted([[3, 0], [4, 1], [hasTtl ? 3 : 0, 2]])) {
            case 0: gap = 0; break;
            case 1: gap = c.int(0, 40); break;
            default: {
                const es = [...cache.values()].map(e => e.exp).filter(x => x >= sim.now - 1);
                gap = es.length ? Math.max(0, c.pick(es) - sim.now + c.int(-1, 1)) : ttl;
            }
        }
        sim.at(gap, 'op', step);
    };
    sim.at(0, 'op', step);
    await sim.drive();
    if (sim.violations.length) return;
    for (const call of calls) ctx.check(call.done, 'call-never-settled', () => `call ${call.id} key ${call.k} never settled`);
    if (joined) ctx.probe('shared-in-flight');
    if (failedShared) ctx.probe('failure-shared');
    if (invalidatedInflight) ctx.probe('invalidated-in-flight');
    if (hits) ctx.probe('cache-hit');
    if (expired) ctx.probe('expired');
    if (joined || expired || invalidatedInflight || hits) ctx.nontrivial();
}

async function syncHistory(ctx, cfg) {
    const { c, sim } = ctx;
    const big = ctx.big(4), nKeys = big ? c.int(1, c.pick([20, 400, 3000])) : c.int(1, 3);
    const ttl = cfg.ttl(c), hasTtl = Number.isSafeInteger(ttl), maxOps = big ? c.int(300, 2500) : c.int(2, cfg.maxOps);
    const { memoizeWith } = ctx.load('function');
    const cache = new Map();
    let comps = 0, ran = null, expired = 0, hits = 0;
    const func = function (k, extra) {
        const n = comps++;
        if (c.chance(30)) sim.now += c.int(1, 30); // a slow computation
        const fail = c.chance(cfg.pFail);
        ran = { n, k, extra, fail, value: value(c, n) };
        sim.note(`compute ${n} key ${k} ${fail ? 'fails' : ''}`);
        if (fail) throw (ran.error = new Error('E' + n));
        return ran.value;
    };
    const mkKey = c.pick(big ? KEYS.slice(0, 2) : KEYS);
    const memo = withStore(ctx, memoizeWith, () => (hasTtl || c.bool() ? memoizeWith(func, k => mkKey(k), ttl) : memoizeWith(func, k => mkKey(k))));
    let ops = 0;
    const step = () => {
        if (ops++ >= maxOps) return;
        const k = c.raw(nKeys), op = c.weighted(big ? [[500, 'call'], [10, 'delete'], [1, 'clear'], [10, 'evict']] : [[8, 'call'], [1, 'delete'], [1, 'clear'], [1, 'evict']]);
        if (op === 'evict') { sim.note('evict ' + k); const gone = memo.cache.delete(mkKey(k)); ctx.check(!cache.has(k) || hasTtl || gone, 'not-kept', `the result for key ${k} is not in the cache property`); cache.delete(k); } else
        if (op === 'delete') { sim.note('delete ' + k); memo.delete(k); cache.delete(k); }
        else if (op === 'clear') { sim.note('clear'); memo.clear(); cache.clear(); }
        else {
            const e = cache.get(k), t = sim.now;
            sim.note('call ' + k);
            ran = null;
            let v, err, threw = false;
            try { v = memo(k, 'x' + ops); } catch (x) { threw = true; err = x; }
            const fresh = e && (!hasTtl || t < e.exp), boundary = e && hasTtl && t === e.exp;
            if (fresh) { hits++; ctx.check(!ran, 'recomputed', `key ${k} recomputed at ${t}, valid until ${e.exp}`); }
            if (!fresh && !boundary) { if (e) expired++; ctx.check(!!ran, 'served-expired', () => `key ${k} not recomputed at ${t}, ${e ? 'expired at ' + e.exp : 'nothing cached'}`); }
            if (sim.violations.length) return;
            if (ran) {
                ctx.check(ran.k === k && ran.extra === 'x' + ops, 'wrong-arguments', 'arguments differ');
                ctx.check(ran.fail ? threw && err === ran.error : !threw && Object.is(v, ran.value), 'wrong-result', `key ${k}: outcome differs from the computation's`);
                if (!ran.fail) cache.set(k, { value: ran.value, exp: sim.now + ttl });
                // a failed recomputation leaves no value that may be served (the old one is expired)
            } else if (e) ctx.check(!threw && Object.is(v, e.value), 'wrong-value', () => `key ${k}: got ${show(v)}, cached ${show(e.value)}`);
        }
        let gap;
        switch (c.weighted([[2, 0], [4, 1], [hasTtl ? 4 : 0, 2]])) {
            case 0: gap = 0; break;
            case 1: gap = c.int(0, 40); break;
            default: { const es = [...cache.values()].map(e => e.exp).filter(x => x >= sim.now - 1); gap = es.length ? Math.max(0, c.pick(es) - sim.now + c.int(-1, 1)) : ttl; }
        }
        sim.at(gap, 'op', step);
    };
    sim.at(0, 'op', step);
    await sim.drive();
    if (hits) ctx.probe('cache-hit');
    if (expired) ctx.probe('expired');
    if (hits || expired) ctx.nontrivial();
}
module.exports = { asyncHistory, syncHistory };
