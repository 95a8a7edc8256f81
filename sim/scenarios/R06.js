'use strict';
const { world, genResponse, deliver, brief, show, httpServer } = require('../httpworld');

// What every simulated server received, parsed independently, against what the caller asked for.
const WORDS = ['a', 'key', 'x y', 'ü', '漢字', 'a+b', 'p%20q', 'semi;colon', 'amp&eq=', 'sla/sh', 'quo"te', "it's", '#frag', '$5,00', 'c:d@e', '[0]', '~-_.!*()', '\u{1f600}', '1', 'Z'];
const VALUES = [...WORDS, '', ' ', 'line\nbreak', 'two\r\nlines', 'old\rmac', '\n\r\n\r'];
const DEFAULTS = { dnt: '1', connection: 'close', 'cache-control': 'no-store', 'content-type': 'application/x-www-form-urlencoded; charset=UTF-8', accept: /./, 'accept-encoding': /./, 'accept-language': /./, 'x-requested-with': 'XMLHttpRequest', 'user-agent': /./ };
const spell = (c, n) => c.pick([n, n.toLowerCase(), n.toUpperCase(), n.toLowerCase().replace(/^./, x => x.toUpperCase())]);
const pairs = q => q.split('&').filter(Boolean).map(p => { const i = p.indexOf('='); return (i < 0 ? [p, ''] : [p.slice(0, i), p.slice(i + 1)]).map(x => decodeURIComponent(x.replace(/\+/g, ' '))); });

function genQuery(c) {
    const q = {}, want = [];
    for (let i = c.large ? c.int(20, 300) : c.int(0, 4); i > 0; i--) {
        const k = c.pick(WORDS) + (c.chance(c.large ? 95 : 30) ? i : '');
        if (k in q) continue;
        const v = c.weighted([[5, c.pick(VALUES)], [2, c.int(-5, 1e9)], [1, c.bool()], [1, null], [1, undefined], [1, new Date(86400000 * c.int(0, 9))], [1, { n: c.pick(VALUES) }], [2, [c.pick(VALUES), c.int(0, 9), c.pick(VALUES)].slice(0, c.int(0, 3))]]);
        q[k] = v;
    }
    for (const k of Object.keys(q)) { // integer-like keys come first in an object
        const v = q[k];
        if (v === null || v === undefined) continue;
        for (const x of Array.isArray(v) ? v : [v]) want.push([k, x instanceof Date ? x.toISOString() : typeof x === 'object' ? JSON.stringify(x) : String(x)]);
    }
    return { q, want };
}
const flat = c => { const o = {}; for (let i = c.large ? c.int(20, 300) : c.int(1, 5); i > 0; i--) o[c.pick(WORDS) + (c.large ? i : '')] = c.weighted([[4, c.pick(VALUES)], [2, c.int(0, 1e6)], [1, c.bool()], [1, [c.pick(VALUES), c.pick(VALUES)]]]); return o; };
const deep = (c, d) => { const o = {}; for (let i = c.large && d ? c.int(5, 30) : c.int(1, 4); i > 0; i--) o[c.pick(WORDS)] = c.weighted([[4, c.pick(VALUES)], [2, c.int(-9, 9)], [1, null], [1, c.bool()], [d && 2, d && deep(c, d - 1)], [1, d ? [deep(c, 0), c.pick(VALUES)] : []]]); return o; };
const bytes = c => { const n = c.weighted([[1, 1], [4, c.int(2, 60)], [2, c.int(500, 40000)], [c.large ? 8 : 0, c.large && c.int(60000, 150000)]]); const b = Buffer.alloc(n); let x = c.raw(65536); for (let i = 0; i < n; i++) { x = (Math.imul(x, 1103515245) + 12345) >>> 0; b[i] = x >>> 16; } return b; };

function parseMultipart(buf, boundary) {
    const out = [], sep = Buffer.from('--' + boundary);
    let p = buf.indexOf(sep);
    if (p !== 0) return null;
    for (;;) {
        p += sep.length;
        if (buf.subarray(p, p + 2).toString() === '--') { const rest = buf.subarray(p + 2).toString(); return /^(\r\n)*$/.test(rest) ? out : null; }
        if (buf.subarray(p, p + 2).toString() !== '\r\n') return null;
        const he = buf.indexOf('\r\n\r\n', p), next = buf.indexOf(Buffer.concat([Buffer.from('\r\n'), sep]), p + 2);
        if (he < 0 || next < 0 || he + 4 > next + 2) return null;
        const head = buf.subarray(p + 2, he).toString();
        out.push({ head, data: buf.subarray(he + 4, Math.max(he + 4, next)) });
        p = next + 2;
    }
}
const esc = s => s.replace(/[\r\n"]/g, m => ({ '\r': '%0D', '\n': '%0A', '"': '%22' })[m]);

// -> {body, type?, check(req) -> problem | null}
function genRequestBody(c, env) {
    const kind = c.weighted([[3, 'none'], [3, 'string'], [2, 'buffer'], [2, 'uint8'], [2, 'arraybuffer'], [4, 'form'], [4, 'json'], [4, 'multipart'], [2, 'formdata']]);
    const exact = (b, want) => req => (Buffer.compare(req.body, want) === 0 ? null : `body is ${show(req.body)}, the caller gave ${show(want)}`);
    if (kind === 'none') return { kind, body: c.pick([undefined, undefined, '', null]), check: exact(null, Buffer.alloc(0)), len: 0 };
    if (kind === 'string') { const s = c.pick(VALUES.filter(x => x)).repeat(c.pick([1, 1, 50, c.large ? 200000 : 3000])); return { kind, body: s, type: c.pick([undefined, 'text/plain', 'application/json']), check: exact(null, Buffer.from(s)) }; }
    if (kind === 'buffer' || kind === 'uint8' || kind === 'arraybuffer') {
        const b = bytes(c), off = c.int(0, 9);
        const whole = new Uint8Array(b.length + off + 3); whole.set(b, off);
        const body = kind === 'buffer' ? b : kind === 'uint8' ? whole.subarray(off, off + b.length) : new Uint8Array(b).buffer;
        return { kind, body, type: c.pick([undefined, 'application/octet-stream']), check: exact(null, Buffer.from(b)) };
    }
    if (kind === 'form') {
        const body = flat(c), want = [];
        for (const k of Object.keys(body)) for (const v of [].concat(body[k])) want.push([k, String(v)]);
        return { kind, body, type: c.pick([undefined, 'application/x-www-form-urlencoded', 'application/x-www-form-urlencoded; charset=utf-8']), check: req => { const got = pairs(req.body.toString()); return JSON.stringify(got) === JSON.stringify(want) ? null : `form is ${JSON.stringify(got)}, the caller gave ${JSON.stringify(want)}`; } };
    }
    if (kind === 'json') {
        const body = c.chance(15) ? [deep(c, 1), 1] : deep(c, 2), want = JSON.stringify(body);
        return { kind, body, type: c.pick(['application/json', 'application/json; charset=utf-8']), check: req => { let g; try { g = JSON.stringify(JSON.parse(req.body.toString())); } catch (e) { g = 'not JSON: ' + show(req.body); } return g === want ? null : `json is ${g}, the caller gave ${want}`; } };
    }
    const want = [];
    let body;
    const file = () => { const b = bytes(c); const type = c.pick(['', 'image/png', 'text/plain']); return c.bool() ? { v: new File([b], c.pick(WORDS) + '.bin', { type }), b, type } : { v: new Blob([b], { type }), b, type }; };
    if (kind === 'formdata') {
        body = new FormData();
        for (let i = c.large ? c.int(10, 60) : c.int(1, 5); i > 0; i--) {
            const k = c.pick(VALUES.filter(x => x));
            if (c.chance(30)) { const f = file(); body.append(k, f.v); want.push([k, f.b, f.v.name || 'blob', f.type]); } else { const v = c.pick(VALUES); body.append(k, v); want.push([k, v]); }
        }
    } else {
        const add = (o, into, d) => {
            for (const k of new Set(Array.from({ length: c.int(1, 3) }, () => c.pick(WORDS)))) {
                const t = c.weighted([[5, 'text'], [1, 'number'], [1, 'file'], [d && 2, 'object'], [d && 1, 'array']]);
                o[k] = t === 'text' ? c.pick(VALUES) : t === 'number' ? c.int(0, 99) : t === 'file' ? file() : t === 'object' ? add({}, null, d - 1) : [c.pick(VALUES), c.int(0, 9), add({}, null, 0)].slice(0, c.int(1, 3));
            }
            return o;
        };
        const spec = add({}, null, 2);
        const build = (v, key) => {
            if (v && v.v && v.b) { want.push([key, v.b, v.v.name || 'blob', v.type]); return v.v; }
            if (Array.isArray(v)) return v.map((x, i) => build(x, `${key}[${i}]`));
            if (v && typeof v === 'object') { const o = {}; for (const k of Object.keys(v)) o[k] = build(v[k], key === null ? k : `${key}.${k}`); return o; }
            want.push([key, String(v)]);
            return v;
        };
        body = build(spec, null);
    }
    return { kind, body, type: kind === 'formdata' && c.bool() ? undefined : 'multipart/form-data', multipart: true, check: req => {
        const m = /^multipart\/form-data; boundary=(\S+)$/.exec(req.header('content-type') || '');
        if (!m) return `content type ${req.header('content-type')} names no boundary`;
        const parts = parseMultipart(req.body, m[1]);
        if (!parts) return `not a multipart body: ${show(req.body)}`;
        const got = parts.map(p => p.head), exp = [];
        for (const [k, v, name, type] of want) exp.push(typeof v === 'string' ? [`Content-Disposition: form-data; name="${esc(k)}"`] : [`Content-Disposition: form-data; name="${esc(k)}"; filename="${esc(name)}"`, `Content-Type: ${type || 'application/octet-stream'}`]);
        if (got.length !== exp.length) return `${got.length} parts ${JSON.stringify(got)} instead of ${JSON.stringify(exp)}`;
        for (let i = 0; i < exp.length; i++) {
            if (got[i].split('\r\n').filter(Boolean).join('|') !== exp[i].join('|')) return `part ${i} is ${JSON.stringify(got[i])} instead of ${JSON.stringify(exp[i])}`;
            const v = want[i][1], w = typeof v === 'string' ? Buffer.from(v.replace(/\r?\n|\r\n?/g, '\r\n')) : v;
            if (Buffer.compare(parts[i].data, w)) return `part ${i} is ${show(parts[i].data)} instead of ${show(w)}`;
        }
        return null;
    } };
}

async function run(ctx) {
    const { c, sim } = ctx;
    const { net, env, lib } = world(ctx, { large: ctx.big() });
    const ORIGINS = [];
    for (const h of ['a.test', 'b.test', '10.1.2.3', '::1', 'bad.test']) for (const [p, n] of [['http', 80], ['https', 443], ['http', 8080], ['https', 8443], ['http', 443]]) if ((h === 'b.test') === (p === 'http' && n === 443) || n > 443 || n === 80) ORIGINS.push({ host: h, proto: p, port: n });
    const jobs = [];
    const many = c.large && c.chance(30);
    if (many) c.large = false; // many requests or long ones
    for (let i = many ? c.int(10, 50) : c.weighted([[5, 1], [3, 2], [1, 4]]); i > 0; i--) jobs.push(genJob(ctx, env, ORIGINS, 'j' + i));
    const server = o => httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const j = jobs.find(x => x.id === req.header('x-id'));
        if (!ctx.check(j, 'lost-header', () => `a request without its X-Id arrived: ${req.headers.join(' | ')}`)) return;
        j.seen++;
        const what = () => `${j.how}; server ${o.proto}://${o.host}:${o.port} received ${req.method} ${req.target} ${req.headers.map(h => h.join(': ')).join(' | ')} ${show(req.body)}`;
        ctx.check(j.o === o || (j.o.host === o.host && j.o.port === o.port && j.o.proto === o.proto), 'wrong-server', what);
        ctx.check(req.method === j.method.toUpperCase(), 'wrong-method', what);
        ctx.check(sim.now >= j.startedAt + (j.delay || 0), 'sent-too-early', () => `at ${sim.now}, started ${j.startedAt}, delay ${j.delay}; ${what()}`);
        const q = req.target.indexOf('?'), path = q < 0 ? req.target : req.target.slice(0, q);
        ctx.check(path === j.path, 'wrong-path', () => `expected ${j.path}; ${what()}`);
        let got; try { got = pairs(q < 0 ? '' : req.target.slice(q + 1)); } catch (e) { got = String(e); }
        ctx.check(JSON.stringify(got) === JSON.stringify(j.pairs), 'wrong-query', () => `got ${JSON.stringify(got)}, asked for ${JSON.stringify(j.pairs)}; ${what()}`);
        for (const h of new Set(req.headers.map(x => x[0].toLowerCase()))) ctx.check(h === 'x-multi' || h === 'cookie' || req.all(h).length === 1, 'duplicate-header', () => `${h}; ${what()}`);
        for (const [k, v] of Object.entries(j.expect)) {
            const g = req.all(k).join(', ');
            if (v === null) ctx.check(!req.all(k).length, 'unwanted-header', () => `${k}; ${what()}`);
            else ctx.check(v instanceof RegExp ? v.test(g) : g === v, 'wrong-header', () => `${k}: ${g}, expected ${v}; ${what()}`);
        }
        const len = req.header('content-length');
        if (j.b.len === 0) ctx.check(!+(len || 0) && !req.chunked, 'wrong-length', what);
        else ctx.check(len === String(req.body.length), 'wrong-length', what);
        const p = sim.violations.length ? null : j.b.check(req);
        if (p) ctx.fail('wrong-body', `${p}; ${what()}`);
        ctx.probe('body ' + j.b.kind);
        const r = genResponse(c, { method: req.method, status: 200, body: Buffer.from(j.id) });
        deliver(ctx, conn, r.wire, { style: c.pick([0, 3]) });
        if (r.framing === 'close' || conn.closing || /close/i.test(r.headers.filter(h => /^connection$/i.test(h[0])).map(h => h[1]).join())) { conn.closing = true; conn.fin(c.int(0, 5)); }
    }, why => ctx.fail('malformed-request', why));
    for (const o of ORIGINS) net.listen(o.host, o.port, server(o), { badCert: o.host === 'bad.test' });
    for (const j of jobs) sim.at(c.int(0, 30), 'start', () => {
        j.startedAt = sim.now;
        j.call = ctx.call('request', () => lib.request(...j.args));
        if (j.abortAt !== undefined) sim.at(j.abortAt, 'abort', () => { if (j.call.state === 'pending') { j.aborted = true; j.early = !j.seen; sim.fault('abort'); j.ac.abort(); } });
    });
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const info = () => `${j.how}: ${j.call.state} ${brief(j.call.value)}, ${j.seen} requests arrived`;
        if (j.rejects) { ctx.check(j.call.state === 'rejected' && j.seen === 0, 'sent-to-an-unverified-server', info); ctx.probe('certificate refused'); continue; }
        if (j.aborted && (j.early || j.call.state !== 'fulfilled')) { ctx.check(j.call.state === 'rejected' && j.call.value instanceof Error && j.seen <= 1, 'abort-ignored', info); ctx.probe('aborted'); continue; }
        ctx.check(j.call.state === 'fulfilled' && j.seen === 1, 'refused', info);
        if (sim.violations.length) return;
        if (j.agent) ctx.check(j.agent.used === 1, 'agent-ignored', info);
        if (j.method.toUpperCase() !== 'HEAD') ctx.check(j.call.value.data.toString() === j.id, 'wrong-response', info);
    }
    ctx.check(net.open.size === 0 || jobs.some(j => j.expect.connection !== 'close'), 'connection-leak', () => `${net.open.size} connections still open`);
    ctx.nontrivial();
}
function genJob(ctx, env, ORIGINS, id) {
    const { c } = ctx;
    const j = { id, seen: 0, expect: {} };
    const o = j.o = c.pick(ORIGINS);
    const lit = o.host.includes(':') ? `[${o.host}]` : o.host, std = o.port === (o.proto === 'http' ? 80 : 443);
    j.method = c.pick(['GET', 'GET', 'POST', 'POST', 'PUT', 'DELETE', 'HEAD', 'PATCH', 'OPTIONS', 'TRACE', 'LINK', 'UNLINK', 'get', 'post', 'put']);
    j.path = c.pick(['/', '/x', '/a/b.html', '/p%20q/~u', "/it's;v=1", '/%E6%BC%A2']);
    const search = c.weighted([[4, ''], [2, 'k=v'], [1, 'k=1&k=2&%C3%BC=+%2B'], [1, 'flag']]);
    const { q, want } = c.chance(60) ? genQuery(c) : { want: [] };
    j.pairs = [...pairs(search), ...want];
    const b = j.b = genRequestBody(c, env);
    const opt = {};
    if (j.method !== 'GET' || c.bool()) opt.method = j.method;
    if (q) opt.query = q;
    if (b.body !== undefined) opt.body = b.body;
    const headers = { [spell(c, 'X-Id')]: id };
    Object.assign(j.expect, DEFAULTS);
    const set = (n, v, as = String(v)) => { headers[spell(c, n)] = v; j.expect[n.toLowerCase()] = as; };
    if (b.type) set('Content-Type', b.type);
    if (b.multipart) delete j.expect['content-type'];
    if (c.chance(20)) set('Accept', 'text/x');
    if (c.chance(15)) set('User-Agent', 'agent/1');
    if (c.chance(15)) set('Connection', 'keep-alive');
    if (c.chance(15)) set('Cache-Control', 'max-age=0');
    if (c.chance(15)) set('DNT', 0);
    if (c.chance(15)) set('X-Multi', ['a', 'b'], 'a, b');
    if (c.chance(15)) set('Cookie', 'a=1; b=2');
    if (c.chance(10)) set('X-Num', 0);
    if (c.chance(10)) set('X-Empty', '');
    if (c.chance(10)) set('Accept-Language', 'xx');
    if (c.chance(10)) set('X-Requested-With', 'me');
    const hostHeader = lit + (std ? '' : ':' + o.port);
    if (c.chance(15)) set('Host', 'virtual.test'); else j.expect.host = hostHeader;
    if (c.chance(15)) set('Origin', 'http://o.test'); else j.expect.origin = `${o.proto}://${j.expect.host}`;
    if (c.chance(15)) set('Referer', 'http://r.test/x'); else j.expect.referer = `${o.proto}://${j.expect.host}`;
    if (c.chance(15) && b.len !== 0) set('Content-Length', c.pick([b.body && b.body.length || 5, 1]), undefined), j.expect['content-length'] = /./;
    opt.headers = headers;
    if (c.chance(40)) { j.delay = c.pick([0, 1, 50, 1000, 60000]); opt.delay = j.delay; }
    if (c.chance(20)) opt.timeout = 3e6;
    let userinfo = '';
    j.expect.authorization = null;
    if (c.chance(30)) {
        const user = c.pick(['bob', 'a b', 'ü@x', 'u%', '']), pass = c.pick(['pw', 'p:w', 'p/@', '']);
        if (user || pass) {
            if (c.bool()) opt.auth = `${user}:${pass}`; else userinfo = encodeURIComponent(user) + (pass || c.bool() ? ':' + encodeURIComponent(pass) : '') + '@';
            j.expect.authorization = 'Basic ' + Buffer.from(`${user}:${pass}`).toString('base64');
        }
    }
    if (c.chance(15)) set('Authorization', 'Bearer t');
    if (o.host === 'bad.test' && c.bool()) { opt.rejectUnauthorized = true; j.rejects = o.proto === 'https'; }
    if (c.chance(10)) {
        const mod = env.mods[o.proto];
        const A = mod.Agent;
        const agent = new A({ keepAlive: c.bool() });
        agent.used = 0;
        const add = agent.addRequest;
        agent.addRequest = function (...a) { agent.used++; return add.apply(this, a); };
        opt.agent = j.agent = agent;
    }
    if (c.chance(10)) { j.ac = new AbortController(); opt.signal = j.ac.signal; j.abortAt = c.int(0, 150); }
    const form = userinfo ? c.pick(['string', 'URL']) : c.pick(['options', 'string', 'URL']);
    if (form === 'options') {
        opt.hostname = o.host;
        if (j.path !== '/' || search || c.bool()) opt.path = (c.chance(10) && j.path === '/' && !search ? '' : j.path) + (search ? '?' + search : '');
        if (!std || c.chance(40)) opt.port = o.port;
        if (o.proto === 'http' || c.bool()) opt.https = o.proto === 'https';
        j.args = [opt];
        if (c.bool()) j.args.push({});
    } else {
        const addr = `${o.proto}://${userinfo}${lit}${std && c.bool() ? '' : ':' + o.port}${j.path}${search ? '?' + search : ''}${c.chance(15) ? '#frag' : ''}`;
        j.args = [form === 'URL' ? new URL(addr) : c.chance(10) ? ` ${addr} ` : addr, opt];
    }
    j.how = `${form} ${String(j.args[0] === opt ? opt.hostname + (opt.path || '') : j.args[0])} ${opt.method || ''} query ${JSON.stringify(opt.query)} ${b.kind} body headers ${JSON.stringify(headers)}${opt.auth ? ' auth ' + opt.auth : ''}`;
    return j;
}
// without a usable address nothing is sent, not even to a default host
async function refused(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx);
    const opt = () => ({ ...(c.bool() ? { path: '/x' } : {}), ...(c.bool() ? { headers: { 'X-Id': '1' } } : {}), ...(c.bool() ? { method: c.pick(['GET', 'POST', 'PUT']), body: 'b=1' } : {}), ...(c.chance(30) ? { port: c.pick([80, 8080]) } : {}), ...(c.chance(30) ? { https: c.bool() } : {}), ...(c.chance(20) ? { delay: c.pick([0, 5]) } : {}) });
    const bad = () => c.pick(['', ' ', 'not a url', 'a.test/x', '//a.test/x', 'http://', 'http:///', 'http://[bad', 'http://a.test:99999/', 'ftp://a.test/x', 'file:///etc/x', 'javascript:1', 'ws://a.test/', 'data:,x']);
    const calls = [];
    for (let i = c.int(1, 3); i > 0; i--) {
        const args = c.pick([
            () => [{ path: '/', ...opt() }], () => [{ method: 'GET', ...opt(), hostname: c.pick([null, undefined]) }], () => [undefined, opt()], () => [null, opt()],
            () => [bad(), opt()], () => [bad()], () => [new URL(c.pick(['ftp://a.test/x', 'file:///etc/x', 'ws://a.test/x'])), opt()], () => [{}, opt()]
        ])();
        const how = `request(${args.map(a => (a instanceof URL ? 'URL ' + a : JSON.stringify(a))).join(', ')})`;
        sim.at(c.int(0, 10), 'start', () => calls.push([how, ctx.call('request', () => lib.request(...args))]));
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const [how, call] of calls) ctx.check(call.state === 'rejected' && call.value instanceof Error, 'address-accepted', () => `${how}: ${call.state} ${brief(call.value)}`);
    ctx.check(net.seq === 0, 'connected-without-address', () => `${net.seq} connections for ${calls.map(x => x[0]).join(' and ')}`);
    ctx.probe('address refused', calls.length);
    ctx.nontrivial();
}
module.exports = {
    property: 'R06', packages: ['request'], runs: { quick: 36000, thorough: 500000 },
    scenarios: [{ name: 'wire', weight: 12, run }, { name: 'refused', weight: 1, run: refused }],
    rule: 'Each run sends up to four concurrent requests of any method, address form, path, query, header spelling, credentials, delay, agent, abort signal and body kind (text, bytes, form, JSON, nested multipart, files); an independent parser on the simulated server compares everything received with what was asked for.',
    real: ['packages/request', 'Node http/https client', 'WHATWG URL', 'FormData and Blob'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['two spellings of the same header in one options object are not generated', 'the boundary text does not occur in the content']
};
