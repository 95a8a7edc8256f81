'use strict';
// The world a bundle is instantiated in: every source of nondeterminism is shadowed.
const vm = require('vm');
const util = require('util');
const { EventEmitter } = require('events');
const realCrypto = require('crypto');
const { RealDate } = require('./core');

const PARAMS = ['require', 'module', 'exports', 'globalThis', 'global', 'process', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval',
    'setImmediate', 'clearImmediate', 'queueMicrotask', 'Date', 'Math', 'performance', 'crypto', 'console', 'window', 'self', 'document',
    'MutationObserver', 'WebKitMutationObserver', '__dirname', '__filename', 'fetch', 'AbortSignal', 'MessageChannel'];

const compiled = new Map();
function compile(name, code) {
    const key = name + '\0' + code.length + '\0' + realCrypto.createHash('md5').update(code).digest('hex');
    if (!compiled.has(key)) {
        const src = `(function(${PARAMS.join(',')}){\n${code}\n})`;
        compiled.set(key, new vm.Script(src, { filename: `sim-${name}.js` }).runInThisContext());
    }
    return compiled.get(key);
}

function makeTimers(sim) {
    class Timeout {
        constructor(t) { Object.defineProperty(this, '_t', { value: t }); t.self = this; }
        ref() { this._t.refed = true; return this; }
        unref() { this._t.refed = false; return this; }
        hasRef() { return this._t.refed; }
        refresh() { if (this._t.active) { sim.cancel(this._t.ev); sim._arm(this._t); } return this; }
        close() { sim.clearTimer(this._t); return this; }
        [Symbol.toPrimitive]() { return this._t.id; }
        [Symbol.dispose]() { sim.clearTimer(this._t); }
    }
    const chk = fn => {
        if (typeof fn !== 'function') { const e = new TypeError('The "callback" argument must be of type function.'); e.code = 'ERR_INVALID_ARG_TYPE'; throw e; }
    };
    const st = function setTimeout(fn, ms, ...args) { chk(fn); return new Timeout(sim.addTimer(fn, ms, args, false)); };
    const si = function setInterval(fn, ms, ...args) { chk(fn); return new Timeout(sim.addTimer(fn, ms, args, true)); };
    const clear = function clearTimeout(h) {
        if (h === null || h === undefined) return;
        if (typeof h === 'object') { if (h._t) sim.clearTimer(h._t); return; }
        sim.clearTimer(sim.timers.get(+h));
    };
    let immId = 0;
    const imm = function setImmediate(fn, ...args) {
        chk(fn);
        const o = { _ev: null, ref() { return this; }, unref() { return this; }, hasRef() { return true; } };
        const id = ++immId;
        o._ev = sim.at(0, 'immediate ' + id, () => fn(...args));
        o._ev.kind = 'fifo';
        return o;
    };
    const cimm = function clearImmediate(o) { if (o && o._ev) sim.cancel(o._ev); };
    const p = (ms, v, o) => new Promise((res, rej) => {
        const s = o && o.signal;
        if (s && s.aborted) return rej(s.reason);
        const t = st(() => res(v), ms);
        if (s) s.addEventListener('abort', () => { clear(t); rej(s.reason); }, { once: true });
    });
    Object.defineProperty(st, util.promisify.custom, { enumerable: false, value: p });
    Object.defineProperty(imm, util.promisify.custom, { enumerable: false, value: v => new Promise(r => imm(() => r(v))) });
    async function* every(ms, v, o) {
        const s = o && o.signal;
        let due = 0, wake = null;
        const t = si(() => { due++; if (wake) wake(); }, ms);
        try {
            for (;;) {
                if (s && s.aborted) throw s.reason;
                if (due) { due--; yield v; } else await new Promise(r => { wake = r; if (s) s.addEventListener('abort', r, { once: true }); });
            }
        } finally { clear(t); }
    }
    const Signal = new Proxy(AbortSignal, { get(t, k) {
        if (k !== 'timeout') return Reflect.get(t, k, t);
        return ms => { const a = new AbortController(); st(() => a.abort(new DOMException('The operation was aborted due to timeout', 'TimeoutError')), ms); return a.signal; };
    } });
    class Channel {
        constructor() {
            const port = () => { const p = Object.assign(new EventTarget(), { onmessage: null, closed: false, start() {}, ref() { return p; }, unref() { return p; }, close() { p.closed = true; },
                on(n, f) { p.addEventListener(n, e => f(e.data)); return p; }, once(n, f) { p.addEventListener(n, e => f(e.data), { once: true }); return p; },
                postMessage(v) {
                    const data = structuredClone(v);
                    const ev = sim.at(0, 'message', () => { if (p.closed || p.peer.closed) return; const e = Object.assign(new Event('message'), { data }); if (p.peer.onmessage) p.peer.onmessage(e); p.peer.dispatchEvent(e); });
                    ev.kind = 'fifo';
                } }); return p; };
            this.port1 = port(); this.port2 = port();
            this.port1.peer = this.port2; this.port2.peer = this.port1;
        }
    }
    return { AbortSignal: Signal, MessageChannel: Channel, setTimeout: st, clearTimeout: clear, setInterval: si, clearInterval: clear, setImmediate: imm, clearImmediate: cimm,
        promises: { setTimeout: p, setInterval: every, setImmediate: v => new Promise(r => imm(() => r(v))), scheduler: { wait: ms => p(ms), yield: () => new Promise(r => imm(r)) } } };
}

function makeDate(sim) {
    const D = function Date(...a) {
        if (!new.target) return new RealDate(sim.wall()).toString();
        return Reflect.construct(RealDate, a.length ? a : [sim.wall()], new.target === D ? RealDate : new.target);
    };
    D.prototype = RealDate.prototype;
    D.now = () => sim.wall();
    D.parse = RealDate.parse;
    D.UTC = RealDate.UTC;
    return D;
}

function makeRandom(sim, opts) {
    // default: draws from the choice sequence, biased to extreme values when asked
    const u32 = opts.u32 || (() => sim.c.raw(0x100000000) >>> 0);
    const f = opts.random || (() => u32() / 0x100000000);
    return { u32, f };
}

function makeCrypto(sim, r) {
    const fill = arr => {
        const b = new Uint8Array(arr.buffer, arr.byteOffset, arr.byteLength);
        let i = 0;
        for (; i + 4 <= b.length; i += 4) { const v = r.u32(); b[i] = v; b[i + 1] = v >>> 8; b[i + 2] = v >>> 16; b[i + 3] = v >>> 24; }
        if (i < b.length) { let v = r.u32(); for (; i < b.length; i++) { b[i] = v; v >>>= 8; } }
        return arr;
    };
    const web = {
        getRandomValues(arr) {
            if (!ArrayBuffer.isView(arr)) throw new TypeError('not a typed array');
            if (arr.byteLength > 65536) { const e = new Error('QuotaExceededError'); e.name = 'QuotaExceededError'; throw e; }
            return fill(arr);
        },
        randomUUID() { const b = Buffer.from(fill(new Uint8Array(16))); b[6] = (b[6] & 15) | 64; b[8] = (b[8] & 63) | 128; const h = b.toString('hex'); return `${h.slice(0, 8)}-${h.slice(8, 12)}-${h.slice(12, 16)}-${h.slice(16, 20)}-${h.slice(20)}`; },
        subtle: realCrypto.webcrypto.subtle
    };
    const mod = derive(realCrypto, {
        webcrypto: web, getRandomValues: web.getRandomValues, randomUUID: web.randomUUID,
        randomBytes(n, cb) { const b = fill(Buffer.alloc(n)); if (cb) { sim.at(0, 'randomBytes', () => cb(null, b)); return; } return b; },
        randomFillSync(b) { return fill(b); },
        randomInt(lo, hi, cb) {
            if (hi === undefined || typeof hi === 'function') { cb = hi; hi = lo; lo = 0; }
            const v = lo + Math.floor(r.f() * (hi - lo));
            if (cb) { sim.at(0, 'randomInt', () => cb(null, v)); return; }
            return v;
        }
    });
    return { web, mod };
}

// an object that inherits from `base` and overrides `props` (also over accessors)
function derive(base, props) {
    const o = Object.create(base);
    for (const k of Reflect.ownKeys(props)) Object.defineProperty(o, k, { value: props[k], writable: true, configurable: true, enumerable: true });
    return o;
}

class Forbidden extends Error {}
const forbid = name => new Proxy({}, {
    get(_t, k) {
        if (k === '__esModule' || k === 'default' || typeof k === 'symbol') return undefined;
        const f = function () { throw new Forbidden(`sim: ${name}.${String(k)} is not simulated in this scenario`); };
        return f;
    }
});

/**
 * env: one instantiated world. opts: { modules: {name: stub}, platform, kind: 'node'|'browser', globals: {...}, stdin, stdout }
 */
function makeEnv(sim, opts = {}) {
    const timers = makeTimers(sim);
    const SimDate = makeDate(sim);
    const rnd = makeRandom(sim, opts);
    const cr = makeCrypto(sim, rnd);
    const SimMath = Object.create(Object.prototype, { ...Object.getOwnPropertyDescriptors(Math), random: { value: () => rnd.f(), writable: true, configurable: true } });
    const perf = { now: () => sim.mono(), timeOrigin: sim.base, mark() {}, measure() {} };
    const logs = [];
    const con = {};
    for (const k of ['log', 'info', 'warn', 'error', 'debug', 'trace']) con[k] = (...a) => { logs.push([k, a]); };
    const proc = opts.process || makeProcess(sim, opts);
    const mods = {
        process: proc,
        timers: { ...timers, AbortSignal: undefined, MessageChannel: undefined, promises: timers.promises },
        worker_threads: { MessageChannel: timers.MessageChannel, isMainThread: true, threadId: 0, parentPort: null },
        'timers/promises': timers.promises,
        perf_hooks: { performance: perf },
        crypto: cr.mod,
        os: makeOs(opts),
        ...(opts.modules || {})
    };
    const PURE = new Set(['path', 'path/posix', 'path/win32', 'util', 'util/types', 'events', 'stream', 'stream/promises', 'buffer', 'querystring', 'url', 'string_decoder', 'assert', 'constants', 'punycode', 'async_hooks', 'zlib', 'tty']);
    const req = name => {
        const n = name.startsWith('node:') ? name.slice(5) : name;
        if (Object.prototype.hasOwnProperty.call(mods, n)) return mods[n];
        if (PURE.has(n)) return require(n);
        return (mods[n] = forbid(n));
    };
    const g = Object.create(globalThis);
    const vals = {
        process: proc, setTimeout: timers.setTimeout, clearTimeout: timers.clearTimeout, setInterval: timers.setInterval, clearInterval: timers.clearInterval,
        setImmediate: timers.setImmediate, clearImmediate: timers.clearImmediate, queueMicrotask, Date: SimDate, Math: SimMath, performance: perf,
        crypto: cr.web, console: con, window: undefined, self: undefined, document: undefined, MutationObserver: undefined, WebKitMutationObserver: undefined,
        __dirname: '/sim/pkg/dist', __filename: '/sim/pkg/dist/index.js', fetch: undefined, AbortSignal: timers.AbortSignal, MessageChannel: timers.MessageChannel,
        ...(opts.globals || {})
    };
    for (const k of Object.keys(vals)) if (!k.startsWith('__')) Object.defineProperty(g, k, { value: vals[k], writable: true, configurable: true, enumerable: false });
    Object.defineProperty(g, 'globalThis', { value: g, configurable: true, writable: true });
    Object.defineProperty(g, 'global', { value: g, configurable: true, writable: true });
    return {
        sim, logs, timers, proc, mods, globals: g, Date: SimDate,
        load(name, code) {
            const module = { exports: {} };
            const args = PARAMS.map(p => {
                switch (p) {
                    case 'require': return req;
                    case 'module': return module;
                    case 'exports': return module.exports;
                    case 'globalThis': case 'global': return g;
                    default: return vals[p];
                }
            });
            compile(name, code).apply(g, args);
            return module.exports;
        }
    };
}

function makeProcess(sim, opts) {
    const ee = new EventEmitter();
    const p = Object.assign(ee, {
        platform: opts.platform || 'linux', arch: 'x64', pid: 4242, ppid: 1, argv: ['node', 'sim'], execArgv: [], env: { PATH: '/usr/bin:/bin', ...(opts.env || {}) },
        version: process.version, versions: process.versions, release: { name: 'node' }, title: 'node', exitCode: undefined,
        cwd: () => '/', nextTick: (...a) => process.nextTick(...a), hrtime: Object.assign(prev => {
            const ns = BigInt(Math.round(sim.mono() * 1e6));
            const r = [Number(ns / 1000000000n), Number(ns % 1000000000n)];
            if (prev) { r[0] -= prev[0]; r[1] -= prev[1]; if (r[1] < 0) { r[0]--; r[1] += 1e9; } }
            return r;
        }, { bigint: () => BigInt(Math.round(sim.mono() * 1e6)) }),
        uptime: () => sim.mono() / 1000, memoryUsage: () => ({ rss: 1, heapTotal: 1, heapUsed: 1, external: 0, arrayBuffers: 0 }),
        umask: () => 0o022, getuid: () => 1000, getgid: () => 1000, geteuid: () => 1000, getegid: () => 1000,
        emitWarning() {}, exit(code) { sim.fail('process-exit', 'process.exit called with ' + code); },
        kill(pid, sig) { throw new Error('sim: process.kill not simulated here'); },
        stdin: opts.stdin, stdout: opts.stdout || { write: () => true, isTTY: false, on() {}, once() {}, columns: 80 }, stderr: { write: () => true, isTTY: false },
        ...(opts.processProps || {})
    });
    Object.defineProperty(p, Symbol.toStringTag, { value: 'process' });
    return p;
}

function makeOs(opts) {
    const real = require('os');
    return derive(real, {
        platform: () => opts.platform || 'linux', release: () => opts.release || '6.0.0-sim', type: () => ({ win32: 'Windows_NT', darwin: 'Darwin' })[opts.platform] || 'Linux',
        tmpdir: () => '/tmp', homedir: () => '/home/sim', EOL: '\n', cpus: () => new Array(4).fill({ model: 'sim', speed: 1, times: {} }), hostname: () => 'sim',
        networkInterfaces: () => ({}), userInfo: () => ({ uid: 1000, gid: 1000, username: 'sim', homedir: '/home/sim', shell: '/bin/sh' }), arch: () => 'x64'
    });
}

module.exports = { derive, makeEnv, makeProcess, Forbidden };
