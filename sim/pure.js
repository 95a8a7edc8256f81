'use strict';
// Histories of calls to helpers that should keep nothing between calls.
// Every call is compared with the same call made first thing on a freshly loaded instance of the package.
const { Readable } = require('stream');
const { makeEnv } = require('./env');
const { Chooser, Sim, hashSeed } = require('./core');
const { brief } = require('./run');

// ---- a text that says everything observable about some values -------------
const ANSI = /\u001b\[[0-9;]*m/g;
function message(m) {
    return String(m).replace(ANSI, '').replace(/\d+[-/]\d\d?[-/]\d+[ T,]+\d\d?:\d\d:\d\d(\.\d+)?Z?( [AP]M)?/g, 'T').split('\n').filter(l => !/^\s*at /.test(l)).join('\n').slice(0, 300);
}
function canon(values) {
    const seen = new Map();
    const attempt = f => { try { return f(); } catch (e) { return '<throws ' + (e && e.message) + '>'; } };
    const prim = v => {
        if (typeof v === 'string') return JSON.stringify(v);
        if (typeof v === 'symbol') return v.toString();
        if (typeof v === 'bigint') return v + 'n';
        return Object.is(v, -0) ? '-0' : String(v);
    };
    const walk = (v, depth) => {
        if ((typeof v !== 'object' || v === null) && typeof v !== 'function') return prim(v);
        if (seen.has(v)) return '#' + seen.get(v);
        seen.set(v, seen.size);
        if (depth > 12) return '…';
        const tag = attempt(() => {
            const p = Object.getPrototypeOf(v);
            if (p === null) return 'null';
            const c = Object.getOwnPropertyDescriptor(p, 'constructor');
            return c && c.value && typeof c.value.name === 'string' ? c.value.name : '?';
        });
        let head = tag;
        if (tag[0] === '<') return tag; // nothing can be asked of it
        if (typeof v === 'function') return `fn(${attempt(() => v.name)}${attempt(() => Object.getOwnPropertyDescriptor(v, 'called')) ? ' was called' : ''})`;
        if (v instanceof Readable) return `stream(${v.readableFlowing},${v.destroyed},${v.readableLength},${v.eventNames().length})`;
        if (v instanceof Error) {
            head += `!${attempt(() => v.name)}:${attempt(() => message(v.message))}`;
            if ('cause' in v) head += ' cause ' + walk(v.cause, depth + 1);
            return head;
        }
        if (v instanceof Date) head += attempt(() => String(v.getTime()));
        else if (v instanceof RegExp) head += attempt(() => `/${v.source}/${v.flags}`);
        else if (v instanceof URL) return 'URL ' + v.href;
        else if (v instanceof URLSearchParams) return 'params ' + v;
        else if (v instanceof Number || v instanceof String || v instanceof Boolean || v instanceof Symbol || v instanceof BigInt) head += attempt(() => prim(v.valueOf()));
        else if (v instanceof ArrayBuffer) return head + Buffer.from(v).toString('hex');
        else if (ArrayBuffer.isView(v)) return head + Buffer.from(v.buffer, v.byteOffset, v.byteLength).toString('hex').slice(0, 200);
        else if (v instanceof Map) { let i = 0; for (const [k, x] of Map.prototype.entries.call(v)) if (i++ < 40) head += ` {${walk(k, depth + 1)}=>${walk(x, depth + 1)}}`; }
        else if (v instanceof Set) { let i = 0; for (const x of Set.prototype.values.call(v)) if (i++ < 40) head += ` <${walk(x, depth + 1)}>`; }
        return attempt(() => {
            const keys = Reflect.ownKeys(v), out = [];
            for (const k of keys.slice(0, 60)) {
                const d = Reflect.getOwnPropertyDescriptor(v, k);
                if (!d) { out.push(String(k) + '?'); continue; }
                const fl = (d.writable ? 'w' : '') + (d.enumerable ? 'e' : '') + (d.configurable ? 'c' : '');
                out.push((fl === 'wec' ? '' : fl + ' ') + String(k) + ':' + ('value' in d ? walk(d.value, depth + 1) : `accessor(${!!d.get},${!!d.set})`));
            }
            const ext = Object.isExtensible(v) ? '' : '!';
            return `${head}${ext}${Array.isArray(v) ? `[${v.length}]` : ''}{${out.join(', ')}}${keys.length > 60 ? '+' + keys.length : ''}`;
        });
    };
    return values.map(v => walk(v, 0)).join(' | ');
}

// ---- arguments: descriptions that can be built again and again ------------
const lit = v => ({ key: () => canon([v]), val: () => v });
// an object with a description; `live` is what the clients of this run share
class Shared {
    constructor(base, make) { this.base = base; this.make = make; this.ops = []; this.live = make(); this.snap = canon([this.live]); }
    rebuild() { const v = this.make(); for (const o of this.ops) OPS[o](v); return v; }
    key(ids) { if (!ids.has(this)) ids.set(this, ids.size); return `${this.base}${this.ops.map(o => '+' + o).join('')}@${ids.get(this)}`; }
    val(w) { if (!w.fresh) { w.used.add(this); return this.live; } if (!w.fresh.has(this)) w.fresh.set(this, this.rebuild()); return w.fresh.get(this); }
    apply(op) { if (OPS[op](this.live) === false) return false; this.ops.push(op); this.snap = canon([this.live]); return true; }
}
const tryTo = f => { try { return f(); } catch { return false; } };
const OPS = {
    push: v => tryTo(() => Array.isArray(v) ? (v.push('zz'), true) : false),
    shift: v => tryTo(() => Array.isArray(v) && v.length ? (v.shift(), true) : false),
    reverse: v => tryTo(() => Array.isArray(v) && v.length > 1 ? (v.reverse(), true) : false),
    first: v => tryTo(() => Array.isArray(v) && v.length ? (v[0] = 'q', true) : false),
    set: v => tryTo(() => plain(v) ? (v.a = 'changed', true) : v instanceof Map ? (v.set('k', 1), true) : v instanceof Set ? (v.add('k'), true) : false),
    drop: v => tryTo(() => plain(v) ? Reflect.ownKeys(v).length && delete v[Reflect.ownKeys(v)[0]] : v instanceof Map || v instanceof Set ? (v.clear(), true) : false),
    tag: v => tryTo(() => plain(v) ? (v[Symbol.toStringTag] = 'Map', true) : false),
    proto: v => tryTo(() => isPlain(v) || v instanceof Point ? (Object.setPrototypeOf(v, Object.getPrototypeOf(v) === Object.prototype ? null : Object.prototype), true) : false),
    then: v => tryTo(() => plain(v) ? (v.then = v.next = function () { this.ran = true; }, true) : false),
    grow: v => tryTo(() => plain(v) ? (v['extra' + Reflect.ownKeys(v).length] = [1], true) : false)
};
// objects of the whole process: never changed by a client
const COMMON = new Set([globalThis, Math, JSON, Object.prototype, Array.prototype, Function.prototype, Error.prototype, Map.prototype, process, Reflect]);
const plain = v => tryTo(() => isPlain(v));
const isPlain = v => { if (typeof v !== 'object' || v === null || COMMON.has(v)) return false; const p = Object.getPrototypeOf(v); return (p === Object.prototype || p === null) && !Object.prototype.hasOwnProperty.call(v, 'constructor'); };
const arr = parts => ({ key: ids => `[${parts.map(p => p.key(ids)).join(',')}]`, val: w => parts.map(p => p.val(w)) });
const rec = o => ({ key: ids => `{${Object.keys(o).map(k => k + ':' + o[k].key(ids)).join(',')}}`, val: w => { const r = {}; for (const k of Object.keys(o)) r[k] = o[k].val(w); return r; } });
// a callback: kind decides what it returns; it may throw at one of its calls, and may call the library again
function callback(kind, body, throwAt) {
    return {
        key: () => `cb ${kind} ${throwAt}`,
        val: w => {
            let n = 0;
            return function (a, b, c, d) {
                n++;
                if (n === throwAt) { if (w.onThrow) w.onThrow(); throw new RangeError('callback ' + kind); }
                if (w.reenter) w.reenter();
                return body(a, b, c, d);
            };
        }
    };
}

// ---- texts ----------------------------------------------------------------
const FRAGS = {
    text: ['hello', 'Hello world', ' ', '  ', '\t', '.', ',', '。', '，', '你好', '世界', '"', "'", '`', '(', ')', '“', '”', '‘', '’', '[', ']', '{', '}', '<', '>', '&lt;', '&#60;', '&amp;', '&', '©', '&copy;', '\u200b', '\uFEFF', '\u00a0', '\u3000', '\u2028', '1', '42', 'a', 'b', 'A', 'é', '\u{1f600}', 'e.g.', '\\', '\n', '-', '：', ':', '!', '?', ';', 'カナ', 'ひら', "it's ", '$1', '$&', '……', '...', '·', '＋１', 'Ａ', '%', '#tag', '*', '=', '1.5', 'end. ', '完。'],
    path: ['C:\\', '\\\\?\\C:\\', '..', '.', 'a', 'b c', '/', '\\', '~', '~/', 'CON', 'a.', 'x ', '\\dir', '\\文件', 'D:', './', '|'],
    cookie: ['a=1', 'b=2', '; ', ';', 'Expires=Wed, 21 Oct 2015 07:28:00 GMT', 'Path=/', 'secure=', 'HttpOnly=1', 'Max-Age=10', '%20', '%', '"q"', ', ', 'c=d', 'name=va=lue', '\n', ' '],
    keys: ["'+(wasRun=1)+'", "x'+(wasRun=1)", '\\', "'", '`', '__proto__', 'a', 'b', '[0]', '.', '["x"]', "['y z']", '[k]', ' ', 'c1', '0', ']', '你'],
    id: ['me@ex.com', 'a.b@c.org', '13812345678', '+86', '0086', '127.0.0.1', '::1', 'fe80::', 'https://a.b/c?d=e', 'ftp://', 'x', '1', '.', '@', ' ', 'É'],
    json: ['{', '}', '[', ']', '"a":', '1', ',', 'null', 'true', '"b"', ' '],
    num: ['1', '2', '.', '-', '1234567', '0', ' ', 'e3', 'x'],
    extra: [',', '-', '|', '.', 'a', ']', '^', 'ab'],
    word: ['a', 'b', 'B', 'é', 'zz', 'ab', 'c', '']
};
function text(S, kind) {
    const { c } = S, pool = (S.texts[kind] ||= []);
    if (pool.length < 4 && !(pool.length && c.chance(40))) {
        let s;
        if (pool.length && c.chance(35)) {
            // a near miss of a text that is already in use
            s = c.pick(pool);
            const i = s.length ? c.raw(s.length) : 0;
            s = c.weighted([[2, () => s.slice(0, i) + c.pick(FRAGS[kind]) + s.slice(i + 1)], [1, () => s + c.pick(FRAGS[kind])], [1, () => s.toUpperCase()], [1, () => s.slice(i) + s.slice(0, i)]])();
        } else { s = ''; for (let n = c.int(0, 6); n > 0; n--) s += c.pick(FRAGS[kind]); if (S.large && c.chance(30)) s = s.repeat(c.int(20, 200)); }
        pool.push(s);
        return s;
    }
    return pool.length ? c.pick(pool) : '';
}
const str = kind => S => lit(text(S, kind));
const int = (lo, hi) => S => lit(S.c.int(lo, hi));
const one = (...vs) => S => lit(S.c.pick(vs));
const opt = g => S => (S.c.chance(50) ? g(S) : null); // null: leave this and the following arguments out
const RES = ['a', 'a*', '\\d+', '[,.]', '(?<x>b)', '(a)|(b)', '$', '\\s+', '\u4f60', '', 'l+', '[a-z]+', '\\b', '(.)(.)', '[“”]', '.'];
const FLAGS = ['', 'g', 'g', 'i', 'gi', 'u', 'gu', 'gm'];
function pooled(S, type, max, gen) {
    const p = (S.pools[type] ||= []);
    if (p.length < max && !(p.length && S.c.chance(55))) { const s = gen(); p.push(s); S.shared.add(s); return s; }
    return S.c.pick(p);
}
const re = S => pooled(S, 're', 3, () => { const src = S.c.pick(RES), fl = S.c.pick(FLAGS); return new Shared(`/${src}/${fl}`, () => new RegExp(src, fl)); });
const strs = (kind, lo = 0) => S => pooled(S, 'strs ' + kind, 3, () => { const a = []; for (let n = S.c.int(lo, 5); n > 0; n--) a.push(text(S, kind)); return new Shared(canon([a]), () => a.slice()); });
const many = (g, lo, hi) => S => { const a = []; for (let n = S.c.int(lo, hi); n > 0; n--) a.push(g(S)); return arr(a); };
const obj = (fields, prob = 50) => S => { const o = {}; for (const k of Object.keys(fields)) if (S.c.chance(prob)) o[k] = fields[k](S); return rec(o); };
const shobj = (type, fields) => S => pooled(S, type, 2, () => { const o = {}; for (const k of Object.keys(fields)) if (S.c.bool()) o[k] = S.c.pick(fields[k]); return new Shared(canon([o]), () => structuredClone(o)); });
const cb = (...kinds) => S => { const [k, f] = S.c.pick(kinds); return callback(k, f, S.c.chance(15) ? S.c.int(1, 3) : 0); };
const either = (...gs) => S => S.c.pick(gs)(S);

// ---- any value ------------------------------------------------------------
class Point { constructor(x) { this.x = x; } get twice() { return this.x * 2; } static make() {} }
class Sub extends Array {}
function* gen() { yield 1; yield 2; }
const cyc = () => { const o = { a: 1 }; o.self = o; o.list = [o]; return o; };
const ANY = {
    undefined: () => undefined, null: () => null, true: () => true, false: () => false, zero: () => 0, negzero: () => -0, one: () => 1, '-1': () => -1, two: () => 2, 1.5: () => 1.5, '-0.5': () => -0.5,
    nan: () => NaN, inf: () => Infinity, '-inf': () => -Infinity, 255: () => 255, 256: () => 256, 65536: () => 65536, 2000: () => 2000, 2001: () => 2001, 97: () => 97, max: () => Number.MAX_SAFE_INTEGER, big: () => 2 ** 53, tiny: () => 5e-324, 127: () => 127, 128: () => 128, '-128': () => -128, '-129': () => -129, 32767: () => 32767, 32768: () => 32768, '-32769': () => -32769, 65535: () => 65535, '2^31': () => 2 ** 31, '2^31-1': () => 2 ** 31 - 1, '-2^31': () => -(2 ** 31), '2^32': () => 2 ** 32, '2^32-1': () => 2 ** 32 - 1, 1900: () => 1900, 4: () => 4, '-2': () => -2, 2048: () => 2048, 2049: () => 2049, '2^24+1': () => 2 ** 24 + 1, 3.4e38: () => 3.5e38, 65504: () => 65504.5,
    '0n': () => 0n, '5n': () => 5n, '': () => '', a: () => 'a', ab: () => 'ab', ' ': () => ' ', "'1'": () => '1', url: () => 'https://a.b/c', emoji: () => '\u{1f600}', name: () => '$x1', class: () => 'class',
    sym: () => Symbol.for('s'), symit: () => Symbol.iterator,
    '[]': () => [], '[1]': () => [1], '[1,2]': () => [1, 2], "['a']": () => ['a'], "['']": () => [''], '[null]': () => [null], '[undefined]': () => [undefined], '[[1],[2]]': () => [[1], [2]], '[[[]]]': () => [[[]]], '[nan]': () => [NaN], '[true]': () => [true], '[0]': () => [0, ''], '[{}]': () => [{}], '[fn]': () => [function () {}], '[sym]': () => [Symbol.for('q')], '[n]': () => [1n], sparse: () => [1, , 3], '[buf]': () => [Buffer.from('a')], sub: () => Sub.from([1]),
    '{}': () => ({}), '{a}': () => ({ a: 1 }), '{a2}': () => ({ a: 2 }), '{ab}': () => ({ a: 1, b: [1, { c: 2 }] }), '{A}': () => ({ A: 1, a: 2, B: 3 }), '{sym}': () => ({ [Symbol.for('k')]: 1, z: 0, y: 1 }), null_: () => Object.create(null), nullab: () => Object.assign(Object.create(null), { b: 1, a: 2 }), cyc,
    frozen: () => Object.freeze({ a: 1 }), sealed: () => Object.seal({ a: 1, b: 2 }), hidden: () => Object.defineProperty({ b: 1 }, 'a', { value: 1 }), getter: () => ({ get a() { return 1; }, b: 2 }), boom: () => ({ get a() { throw new RangeError('boom'); }, b: 1 }), length: () => ({ length: 2, 0: 'a', 1: 'b' }), length0: () => ({ length: 0 }), lengthbad: () => ({ length: -1 }), size: () => ({ size: 1 }), then: () => ({ then() { this.called = true; } }), witness: () => { const f = function () { f.called = true; }; return f; }, witnesscls: () => class W { constructor() { W.called = true; } }, iter: () => ({ [Symbol.iterator]: () => [1][Symbol.iterator]() }), aiter: () => ({ [Symbol.asyncIterator]() {} }), tag: () => ({ [Symbol.toStringTag]: 'Map' }), desc: () => ({ value: 1, writable: true }), err: () => ({ name: 'Error', message: 'm' }), react: () => ({ $$typeof: Symbol.for('react.element') }), node: () => ({ nodeType: 1, nodeName: 'DIV' }), textnode: () => ({ nodeType: 3, nodeName: '#text' }),
    str: () => new String('ab'), strempty: () => new String(''), num: () => new Number(1), numnan: () => new Number(NaN), bool: () => new Boolean(false), symo: () => Object(Symbol.for('s')), bigo: () => Object(5n),
    date: () => new Date(0), baddate: () => new Date(NaN), re: () => /a/g, map: () => new Map([['a', 1]]), emptymap: () => new Map(), set: () => new Set([1]), emptyset: () => new Set(), mapobj: () => new Map([['a', { b: 1 }], [{ k: 1 }, [2]]]), setobj: () => { const s = new Set([1, { a: [1] }]); s.add(s); return s; }, wm: () => new WeakMap(), ws: () => new WeakSet(), wr: () => new WeakRef(Array),
    promise: () => Promise.resolve(1), gen: () => gen(), agen: () => (async function* () { yield 1; })(), arrit: () => [1, 2][Symbol.iterator](), mapit: () => new Map([[1, 2]]).entries(),
    fn: () => function () {}, fn1: () => function (a) { return a; }, arrow: () => () => 1, async: () => async a => a, asyncgen: () => async function* () {}, genfn: () => gen, cls: () => class {}, bound: () => function x() {}.bind(null), native: () => Math.max, method: () => Point.make, Point: () => Point,
    point: () => new Point(1), pointproto: () => Point.prototype, err_: () => new Error('e'), typeerr: () => new TypeError('t'), rangeerr: () => new RangeError('r'), agg: () => new AggregateError([new Error('x')], 'm'), dom: () => new DOMException('d', 'AbortError'), evalerr: () => new EvalError('e'), uri: () => new URIError('u'), syn: () => new SyntaxError('s'), refe: () => new ReferenceError('r'),
    u8: () => new Uint8Array([1]), u8c: () => new Uint8ClampedArray(1), i8: () => new Int8Array(2), u16: () => new Uint16Array(1), i16: () => new Int16Array(1), u32: () => new Uint32Array(1), i32: () => new Int32Array(1), f32: () => new Float32Array(1), f64: () => new Float64Array(1), b64: () => new BigInt64Array(1), bu64: () => new BigUint64Array(1), ab_: () => new ArrayBuffer(2), sab: () => new SharedArrayBuffer(2), dv: () => new DataView(new ArrayBuffer(2)), dvpart: () => new DataView(new Uint8Array([1, 2, 3, 4, 5]).buffer, 1, 2), u16part: () => new Uint16Array(new Uint8Array([1, 2, 3, 4, 5, 6]).buffer, 2, 1), buf: () => Buffer.from('ab'), emptybuf: () => Buffer.alloc(0),
    URL: () => new URL('https://a.b/c'), usp: () => new URLSearchParams('a=1'), form: () => new FormData(), blob: () => new Blob(['a']), event: () => new Event('x'), readable: () => Readable.from(['a', 'b']),
    args: () => (function () { return arguments; })(1, 2), global: () => globalThis, math: () => Math, json: () => JSON, proto: () => Object.prototype,
    proxy: () => new Proxy({ a: 1 }, {}), hostile: () => new Proxy({}, { get() { throw new RangeError('hostile'); }, has() { throw new RangeError('hostile'); }, getPrototypeOf() { throw new RangeError('hostile'); }, ownKeys() { throw new RangeError('hostile'); } }), revoked: () => { const r = Proxy.revocable({}, {}); r.revoke(); return r.proxy; }, revokedfn: () => { const r = Proxy.revocable(function () {}, {}); r.revoke(); return r.proxy; }
};
const SHAREDOBJ = new Set();
for (const k of Object.keys(ANY)) { const v = ANY[k](); if ((typeof v === 'object' && v !== null) || typeof v === 'function') SHAREDOBJ.add(k); }
const any = (names, pool = 'any', max = 3) => { const list = names || Object.keys(ANY); return S => { const n = S.c.pick(list); if (!SHAREDOBJ.has(n)) return { key: () => n, val: () => ANY[n]() }; const p = (S.pools[pool] ||= []); if (p.length >= max || (p.length && S.c.chance(50))) return S.c.pick(p); const s = new Shared(n, ANY[n]); p.push(s); S.shared.add(s); return s; }; };
const PLAINS = ['{}', '{a}', '{a2}', '{ab}', '{A}', '{sym}', 'null_', 'nullab', 'cyc', 'frozen', 'sealed', 'hidden', 'getter', 'boom', 'point', 'length'];
const LISTS = ['[]', '[1]', '[1,2]', "['a']", "['']", '[null]', '[[1],[2]]', '[[[]]]', '[nan]', '[true]', '[0]', '[{}]', 'sparse', 'sub'];

// ---- the history ----------------------------------------------------------
const cache = new Map();
// some errors are thrown as a formatted text with a time and a stack
const thrown = e => (typeof e === 'string' ? 'text ' + message(e) : canon([e]));
function isolated(ctx, f, args, platform, key) {
    const hit = cache.get(key);
    if (hit !== undefined) return hit;
    const sim = new Sim(new Chooser(hashSeed('isolated')));
    const lib = makeEnv(sim, { platform }).load(f.pkg, ctx.bundles[f.pkg]);
    const out = outcome(lib, f, args, { fresh: new Map() });
    if (!f.async) { if (cache.size > 60000) cache.clear(); cache.set(key, out.text); return out.text; }
    return out;
}
function outcome(lib, f, args, w) {
    const vals = args.map(a => a.val(w));
    let value, ok = true;
    try {
        value = (f.call || ((l, a) => l[f.name](...a)))(lib, vals);
    } catch (e) { ok = false; value = e; }
    if (ok && f.async && value && typeof value.then === 'function') {
        const o = { ok, value, text: null };
        o.done = value.then(v => { o.text = 'resolved ' + canon([v]); }, e => { o.text = 'rejected ' + thrown(e); });
        return o;
    }
    return { ok, value, text: (ok ? `returned ${canon([value, ...vals])}` : `threw ${thrown(value)} ; ${canon(vals)}`) };
}
// a client that changes what it was given
function scribble(v, depth = 0) { tryTo(() => scribbleOn(v, depth)); }
function scribbleOn(v, depth) {
    if (typeof v !== 'object' || v === null || depth > 3 || COMMON.has(v)) return;
    if (Array.isArray(v)) { for (const x of v) scribble(x, depth + 1); tryTo(() => { v[0] = 'scribble'; v.push('scribble'); }); } else if (v instanceof RegExp) tryTo(() => { v.lastIndex = 1; });
    else if (v instanceof Map || v instanceof Set) { for (const x of [...v].flat()) scribble(x, depth + 1); tryTo(() => v.clear()); }
    else if (v instanceof Date) tryTo(() => v.setTime(86400000));
    else if (v instanceof URL) tryTo(() => { v.pathname = '/scribble'; });
    else if (v instanceof URLSearchParams) tryTo(() => v.append('scribble', '1'));
    else if (v instanceof ArrayBuffer || v instanceof SharedArrayBuffer) tryTo(() => { new Uint8Array(v)[0] ^= 255; });
    else if (ArrayBuffer.isView(v)) tryTo(() => { new Uint8Array(v.buffer, v.byteOffset, v.byteLength)[0] ^= 255; });
    else if (v instanceof Error) { scribble(v.errors, depth + 1); tryTo(() => { v.message = 'scribble'; }); }
    else if (v instanceof Point) tryTo(() => { v.x = 'scribble'; });
    else if (plain(v)) { for (const k of Reflect.ownKeys(v)) { const d = Object.getOwnPropertyDescriptor(v, k); if (d && 'value' in d) scribble(d.value, depth + 1); } tryTo(() => { for (const k of Reflect.ownKeys(v)) v[k] = 'scribble'; v.scribble = 1; }); }
}
const BUILTINS = [Object.prototype, Array.prototype, Function.prototype, String.prototype, RegExp.prototype, Map.prototype, Set.prototype, Error.prototype, Object, Array, Reflect, Math, JSON];
const builtins = () => BUILTINS.map(o => Reflect.ownKeys(o).length).join();
// what these return is the caller's own: never one of the arguments themselves
const FRESH = new Set(['allAttrs', 'derive', 'flat', 'fromArrayLike', 'keys', 'lackAttrs', 'mapRight', 'range', 'sortKeys', 'sortToIndexes', 'splitByStep', 'splitChunk', 'toCascadeKeys', 'toLowerCaseKey', 'toObject', 'toTree', 'uniqueFromPrimitive', 'values', 'bytesArray', 'chars', 'matchSplit', 'matchOrder', 'parseSetCookie', 'splitSetCookie', 'execAll']);
async function history(ctx, fns, opts = {}) {
    const { c, sim } = ctx;
    const S = { c, texts: {}, pools: {}, shared: new Set(), large: ctx.big() };
    const platform = c.weighted([[4, 'linux'], [1, 'win32']]);
    const libs = new Map();
    const lib = pkg => { if (!libs.has(pkg)) libs.set(pkg, ctx.load(pkg, ctx.env({ platform }))); return libs.get(pkg); };
    // few functions per run, called often
    const chosen = [];
    const about = c.weighted([[3, 0], [1, 1]]) ? null : c.pick(fns).pkg;
    const from = about ? fns.filter(f => f.pkg === about) : fns;
    for (let n = c.int(1, 5); n > 0; n--) chosen.push(c.pick(from));
    const calls = S.large ? c.int(60, 400) : c.int(3, 24);
    const waiting = [];
    let done = 0;
    const results = []; // what earlier calls returned: nobody but the caller changes it
    const again = () => { for (const r of results) r.snap = canon([r.value]); };
    const world = builtins();
    const retire = s => { S.shared.delete(s); for (const k of Object.keys(S.pools)) S.pools[k] = S.pools[k].filter(x => x !== s); };
    const one = (depth, list) => {
        if (sim.violations.length) return;
        const f = c.pick(list), args = [];
        for (const g of f.args) { const a = g(S); if (a === null) break; args.push(a); }
        const ids = new Map();
        const key = `${f.pkg}.${f.name} ${platform} ${args.map(a => a.key(ids)).join(' , ')}`;
        const w = { used: new Set(), onThrow: () => sim.fault('callback-throws') };
        if (depth < 2) {
            const inner = chosen.filter(x => !x.mutates && !x.async);
            if (inner.length) w.reenter = () => { if (c.chance(6)) { sim.fault('reentrant-call'); one(depth + 1, inner); } };
        }
        sim.note('call ' + key.slice(0, 120));
        const h = outcome(lib(f.pkg), f, args, w);
        done++;
        const show = () => `${key.slice(0, 600)}\n in this history ${String(h.text).slice(0, 500)}`;
        // nobody else's objects, and no argument unless that is what the function is for
        for (const s of [...S.shared]) {
            const now = canon([s.live]);
            if (now === s.snap) continue;
            const mine = w.used.has(s);
            if (!(mine && f.mutates && f.mutates(args, s))) { ctx.fail(mine ? 'argument-modified' : 'other-object-modified', `${key.slice(0, 600)}\n before ${s.snap.slice(0, 300)}\n after  ${now.slice(0, 300)}`); return; }
            retire(s);
        }
        if (f.mutates) again();
        for (const r of results) if (canon([r.value]) !== r.snap) { ctx.fail('earlier-result-modified', `${key.slice(0, 600)}\n changed what ${r.name} had returned: ${r.snap.slice(0, 300)} is now ${canon([r.value]).slice(0, 300)}`); return; }
        if (h.ok && !f.async && !f.keep && typeof h.value === 'object' && h.value !== null) { results.push({ name: f.name, value: h.value, snap: canon([h.value]) }); if (results.length > 5) results.shift(); }
        if (h.ok && FRESH.has(f.name) && [...w.used].some(x => x.live === h.value)) { ctx.fail('result-is-the-argument', show()); return; }
        if ('wasRun' in globalThis) { delete globalThis.wasRun; ctx.fail('text-was-run', show()); return; }
        if (builtins() !== world) { ctx.fail('builtin-modified', show()); return; }
        const i = isolated(ctx, f, args, platform, key);
        delete globalThis.wasRun;
        const compare = (a, b) => ctx.check(a === b, 'depends-on-history', () => `${key.slice(0, 600)}\n in this history ${a.slice(0, 500)}\n first call ever ${b.slice(0, 500)}`);
        if (typeof i === 'string') { if (!compare(h.text ?? 'async', i)) return; } else if (h.done && i.done) waiting.push(Promise.all([h.done, i.done]).then(() => compare(h.text, i.text)));
        else if (!compare(String(h.text), String(i.text))) return;
        if (opts.after) opts.after({ f, args, h, S, lib, show });
        sim.note((h.text || 'async').slice(0, 80));
        ctx.probe((h.ok ? 'ok ' : 'throws ') + f.pkg);
        if (!depth && h.ok && !f.async && !f.keep && typeof h.value === 'object' && h.value !== null && c.chance(20)) {
            scribble(h.value);
            sim.fault('result-modified');
            for (const s of [...S.shared]) {
                if (canon([s.live]) === s.snap) continue;
                if (f.own) { ctx.fail('result-is-the-argument', `${key.slice(0, 600)}\n a change to the result changed the argument: ${s.snap.slice(0, 300)} is now ${canon([s.live]).slice(0, 300)}`); return; }
                retire(s);
            }
            again();
        } else if (!depth && S.shared.size && c.chance(12)) {
            const s = c.pick([...S.shared]);
            if (s.apply(c.pick(Object.keys(OPS)))) sim.fault('argument-modified-by-its-owner');
            // objects inside other shared objects
            for (const t of [...S.shared]) if (canon([t.live]) !== t.snap) retire(t);
            again();
        }
    };
    for (let n = calls; n > 0; n--) sim.at(c.weighted([[5, 0], [3, 5], [1, 100000]]), 'client ' + c.raw(3), () => one(0, chosen));
    await sim.drive();
    await Promise.all(waiting);
    if (opts.end && !sim.violations.length) await opts.end({ S, lib, platform });
    if (done > 1) ctx.nontrivial();
}
module.exports = { ANY, LISTS, PLAINS, any, arr, brief, callback, canon, cb, either, history, int, lit, many, obj, one, opt, pooled, re, rec, Shared, shobj, str, strs, text };
