'use strict';
const { world, genResponse, deliver, brief, httpServer } = require('../httpworld');

const clone = v => (Buffer.isBuffer(v) ? Buffer.from(v) : v instanceof Uint8Array ? v.slice() : v instanceof FormData ? [...v.entries()] : v instanceof Date ? new Date(v) : Array.isArray(v) ? v.map(clone) : v && typeof v === 'object' ? Object.fromEntries(Reflect.ownKeys(v).map(k => [k, clone(v[k])])) : v);
const key = v => (v instanceof Uint8Array ? 'bytes:' + Buffer.from(v).toString('hex') : v instanceof FormData ? 'form:' + JSON.stringify([...v.entries()]) : v instanceof Date ? 'date:' + +v : Array.isArray(v) ? '[' + v.map(key).join() + ']' : v && typeof v === 'object' ? '{' + Reflect.ownKeys(v).map(k => String(k) + ':' + key(v[k])).join() + '}' : typeof v + ':' + String(v));
const freeze = v => { if (v && typeof v === 'object' && !ArrayBuffer.isView(v) && !(v instanceof FormData)) { Object.freeze(v); Object.values(v).forEach(freeze); } return v; };

function genOptions(c, n) {
    const tag = 'tag' + n;
    const o = { method: c.pick(['GET', 'POST', 'post', 'PUT', 'HEAD']), headers: { 'X-Tag': tag } };
    if (c.bool()) o.headers[c.pick(['Cookie', 'cookie'])] = 'c=' + tag;
    if (c.bool()) o.headers[c.pick(['Authorization', 'AUTHORIZATION'])] = 'Bearer ' + tag;
    if (c.chance(40)) o.headers.Connection = 'keep-alive';
    if (c.chance(20)) o.headers['X-List'] = ['p' + n, 'q' + n];
    if (c.chance(40)) o.query = { tag, list: [1, 'two' + n] };
    if (/P/i.test(o.method[0])) {
        const k = c.raw(6);
        o.body = k === 0 ? 'text-' + tag : k === 1 ? { f: tag, n } : k === 2 ? Buffer.from('buffer-' + tag) : k === 3 ? new Uint8Array(Buffer.from('bytes-' + tag)) : k === 4 ? { deep: { tag, list: [n, { x: tag }] } } : (() => { const f = new FormData(); f.append('tag', tag); return f; })();
        if (k === 4) o.headers['Content-Type'] = 'application/json';
        if (k === 5) o.headers['content-type'] = 'multipart/form-data';
        o._body = b => (k === 0 ? b === 'text-' + tag : k === 1 ? b === `f=${tag}&n=${n}` : k === 2 ? b === 'buffer-' + tag : k === 3 ? b === 'bytes-' + tag : k === 4 ? b === JSON.stringify({ deep: { tag, list: [n, { x: tag }] } }) : b.includes(`name="tag"\r\n\r\n${tag}\r\n`));
    } else o._body = b => b === '';
    if (c.chance(30)) o.maxRedirects = c.int(1, 9);
    if (c.chance(30)) o.delay = c.pick([0, 5, 40]);
    o.timeout = 4000;
    const body = o._body; delete o._body;
    return { o, tag, body, cookie: Object.keys(o.headers).some(h => /cookie/i.test(h)), auth: Object.keys(o.headers).some(h => /auth/i.test(h)), query: o.query ? `tag=${tag}&list=1&list=two${n}` : '', method: o.method.toUpperCase(), list: o.headers['X-List'] };
}
async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx);
    const large = ctx.big();
    const sets = [];
    for (let i = large ? c.int(1, 12) : c.int(1, 3), n = 0; n < i; n++) sets.push(genOptions(c, n));
    if (c.chance(25)) for (const s of sets) if (c.bool()) { freeze(s.o); s.frozen = true; }
    for (const s of sets) s.before = key(s.o);
    const jobs = [];
    for (let i = large ? c.int(12, 80) : c.weighted([[2, 2], [3, 4], [2, 8]]), n = 0; n < i; n++) {
        const set = c.pick(sets);
        const max = set.o.maxRedirects ?? 21;
        const j = { id: 'j' + n, set, host: 'a.test', hops: Math.min(max, c.weighted([[5, 0], [3, 1], [2, c.int(2, 4)]])), status: c.pick([301, 302, 303, 307, 308]), to: c.pick(['a.test', 'a.test', 'b.test']), fate: c.weighted([[8, 'answer'], [1, 'reset'], [1, 'stall'], [1, 'garbage'], [1, 'refuse']]), seen: 0 };
        jobs.push(j);
    }
    const unchanged = when => {
        for (const s of sets) if (!s.mutated) ctx.check(key(s.o) === s.before, 'options-modified', () => `${when}: options of ${s.tag} are ${key(s.o)}, were ${s.before}`);
    };
    const server = (host, proto) => httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const [path, q = ''] = req.target.split('?');
        const [, id, k] = path.split('/');
        const j = jobs.find(x => x.id === id);
        if (!ctx.check(j && +k === j.seen, 'unexpected-request', () => `${req.method} ${host}${req.target} arrived, expected hop ${j && j.seen} of ${id}`)) return;
        j.seen++;
        const s = j.set, changed = +k > 0 && ((s.method === 'POST' && j.status <= 302) || (j.status === 303 && s.method !== 'HEAD')), left = +k > 0 && j.to !== 'a.test';
        const info = () => `${req.method} ${host}${req.target} ${req.headers.map(h => h.join(': ')).join(' | ')} ${req.body.toString('latin1').slice(0, 200)} for ${id} with options ${s.tag}, hop ${k} after ${j.status}`;
        ctx.check(req.header('x-tag') === s.tag, 'headers-mixed', info);
        ctx.check(req.method === (changed ? 'GET' : s.method), 'method-mixed', info);
        const b = req.body.toString('latin1');
        ctx.check(changed ? b === '' : s.body(b), 'body-mixed', info);
        ctx.check(q === (+k === 0 ? s.query : ''), 'query-mixed', info);
        ctx.check(req.header('cookie') === (s.cookie && !left ? 'c=' + s.tag : undefined), 'cookie-mixed', info);
        ctx.check(req.header('authorization') === (s.auth && !left ? 'Bearer ' + s.tag : undefined), 'authorization-mixed', info);
        ctx.check(req.all('x-list').join() === (s.list ? s.list.join() : ''), 'headers-mixed', info);
        unchanged('while serving ' + req.target);
        if (sim.violations.length) return;
        if (+k < j.hops) {
            const r = genResponse(c, { method: req.method, status: j.status, headers: [['Location', `${proto}://${j.to}/${id}/${+k + 1}`]] });
            deliver(ctx, conn, r.wire, { style: c.pick([0, 3]) });
            if (r.framing === 'close' || conn.closing) { conn.closing = true; conn.fin(c.int(0, 5)); }
            return;
        }
        if (j.fate === 'reset') { sim.fault('reset'); conn.rst(c.int(0, 30)); return; }
        if (j.fate === 'stall') { sim.fault('stall'); return; }
        if (j.fate === 'garbage') { sim.fault('malformed-response'); conn.send(Buffer.from('HTTP/1.1 200 OK\r\nContent-Length: x\r\n\r\n')); conn.fin(); return; }
        const r = j.r = genResponse(c, { method: req.method, status: c.pick([200, 200, 404]), tag: id, body: Buffer.from(`answer for ${id} `.repeat(c.int(1, 50))) });
        deliver(ctx, conn, r.wire, { slow: c.pick([0, 50]) });
        if (r.framing === 'close' || conn.closing || /close/i.test(r.headers.filter(h => /^connection$/i.test(h[0])).map(h => h[1]).join())) { conn.closing = true; conn.fin(c.int(0, 20)); }
    }, why => ctx.fail('malformed-request', why));
    for (const h of ['a.test', 'b.test']) { net.listen(h, 80, server(h, 'http')); net.listen(h, 443, server(h, 'https')); }
    net.plan = s => (jobs.some(j => j.fate === 'refuse' && j.refused === undefined && j.call && j.call.state === 'pending') && c.chance(20) ? (jobs.find(j => j.fate === 'refuse' && j.refused === undefined).refused = true, net.refusals = (net.refusals || 0) + 1, 'refuse') : null);
    const shared = c.chance(30) ? { header() {}, data() {} } : undefined;
    for (const j of jobs) sim.at(c.int(0, 120), 'start', () => {
        if (j.set.mutated) { j.skipped = true; return; }
        j.call = ctx.call('request', () => lib.request(`${c.pick(['http', 'https'])}://a.test/${j.id}/0`, j.set.o, shared));
        unchanged('right after the call');
    });
    // the caller may change its own object once the calls using it were made
    for (const s of sets) if (!s.frozen && c.chance(25)) sim.at(c.int(40, 140), 'caller changes its options', () => {
        s.mutated = true;
        const o = s.o;
        o.headers['X-Tag'] = 'changed'; o.headers['X-New'] = '1'; delete o.headers.Cookie; delete o.headers.cookie;
        o.method = 'DELETE'; o.maxRedirects = 0;
        if (o.query) o.query.tag = 'changed';
        if (o.body instanceof Uint8Array) o.body.fill(33); else if (o.body instanceof FormData) o.body.set('tag', 'changed'); else if (o.body && o.body.deep) { o.body.deep.tag = 'changed'; o.body.deep.list.push(1); } else if (o.body && typeof o.body === 'object') o.body.f = 'changed';
        ctx.probe('options changed by the caller in flight');
    });
    await sim.drive();
    if (sim.violations.length) return;
    unchanged('at the end');
    const results = [];
    for (const j of jobs) {
        if (j.skipped) continue;
        const v = j.call.value, info = () => `${j.id} (${j.fate}, ${j.hops} hops ${j.status} to ${j.to}, options ${j.set.tag}): ${j.call.state} ${brief(v)}`;
        if (j.call.state === 'fulfilled') {
            const want = j.r && (j.r.bodyless ? Buffer.alloc(0) : j.r.body);
            ctx.check(j.r && v.status === j.r.status && v.response.headers['x-tag'] === j.id && Buffer.compare(v.data, want) === 0, 'responses-mixed', () => `${v.status} ${v.response.headers['x-tag']} ${v.data.toString().slice(0, 40)}; ${info()}`);
            ctx.check(j.seen === j.hops + 1, 'wrong-number-of-requests', info);
            results.push(v);
        } else ctx.check(j.call.state === 'rejected' && (j.fate !== 'answer' || net.refusals), 'refused', info);
        ctx.probe(`${j.fate} ${j.call.state}`);
    }
    for (const a of results) for (const b of results) if (a !== b) ctx.check(a.config !== b.config && a.config.headers !== b.config.headers && a.response !== b.response && a.request !== b.request, 'results-share-state', 'two results share their configuration');
    for (const v of results) for (const s of sets) ctx.check(v.config !== s.o && v.config.headers !== s.o.headers, 'result-exposes-options', 'the configuration of the result is the object of the caller');
    ctx.nontrivial();
}
module.exports = {
    property: 'R05', packages: ['request'], runs: { quick: 16000, thorough: 300000 },
    scenarios: [{ name: 'isolation', run }],
    rule: 'Each run makes two to eight overlapping requests from one to three shared (sometimes frozen) options objects; some are redirected, some fail in every way, some callers change their object in flight. The options are compared at every server event; every request and response is attributed by tag.',
    real: ['packages/request', 'packages/util copy', 'Node http/https client and parser'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['agents, signals and functions in the options are shared by reference on purpose']
};
