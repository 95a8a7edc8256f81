'use strict';
const { world, genResponse, deliver, brief, show, httpServer } = require('../httpworld');

// A graph of addresses that answer or redirect; the oracle follows it by the book.
async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx);
    const large = ctx.big(15);
    const HOSTS = [['a.test', 'http', 80], ['a.test', 'https', 443], ['b.test', 'http', 80], ['b.test', 'http', 8080], ['c.test', 'https', 443]];
    const N = large ? c.int(15, 60) : c.int(2, 8);
    const nodes = [];
    for (let i = 0; i < N; i++) {
        const [host, proto, port] = c.pick(HOSTS);
        const dir = c.pick(['/', '/d/', '/d/e/']);
        nodes.push({ i, host, proto, port, path: dir + 'n' + i, search: c.weighted([[4, ''], [1, '?k=' + i], [1, '?a=b&c=%20d']]) });
    }
    const addr = n => `${n.proto}://${n.host}${n.port === (n.proto === 'http' ? 80 : 443) ? '' : ':' + n.port}${n.path}${n.search}`;
    for (const n of nodes) {
        const kind = n.i === N - 1 ? 'final' : large ? 'hop' : c.weighted([[2, 'final'], [7, 'hop']]);
        n.final = kind === 'final';
        if (n.final) n.status = c.pick([200, 200, 404, 500, 304, 300, 302]); // 3xx without a location is final
        else {
            n.to = nodes[c.weighted([[5, n.i + 1], [large ? 0 : 3, c.raw(N)]])];
            n.status = c.pick([301, 302, 303, 307, 308]);
            const t = n.to, sameOrigin = t.host === n.host && t.proto === n.proto && t.port === n.port;
            const forms = [addr(t)];
            if (t.proto === n.proto) forms.push(addr(t).replace(/^https?:/, ''));
            if (sameOrigin) {
                forms.push(t.path + t.search);
                if (t.path.startsWith('/d/') && n.path.split('/').length === 3) forms.push(t.path.slice(3) + t.search);
                if (n.path.split('/').length === 3 && t.path.split('/').length === 2) forms.push('..' + t.path + t.search);
                if (n.path.split('/').length === 3) forms.push('../.' + t.path + t.search);
                if (t.path === n.path && t.search) forms.push(t.search);
            }
            n.location = c.chance(3) ? c.pick(['http://[bad', 'ftp://a.test/x', 'javascript:alert(1)']) : c.pick(forms);
            n.bad = /^(http:\/\/\[|ftp|java)/.test(n.location);
        }
        n.hname = c.pick(['Location', 'location', 'LOCATION']);
    }
    let injected = 0;
    const jobs = [];
    for (let i = c.weighted([[5, 1], [2, 2]]); i > 0; i--) {
        const j = { start: nodes[c.pick([0, 0, c.raw(N)])], method: c.pick(['GET', 'GET', 'POST', 'POST', 'PUT', 'HEAD', 'DELETE', 'post', 'PATCH']), seen: [] };
        j.o = { method: j.method };
        j.max = large ? c.pick([undefined, undefined, 10, 20, 21, 22, c.int(11, 70)]) : c.pick([undefined, 0, 1, 2, 3, 5]);
        if (j.max !== undefined) j.o.maxRedirects = j.max;
        if (/POST|PUT|PATCH/i.test(j.method)) j.o.body = c.pick(['hello=1', { a: 'b', n: 2 }, Buffer.from([1, 2, 3, 255])]);
        j.bodyBytes = j.o.body === undefined ? '' : typeof j.o.body === 'string' ? j.o.body : Buffer.isBuffer(j.o.body) ? j.o.body.toString('latin1') : 'a=b&n=2';
        j.o.headers = { 'X-Job': String(i), ...(c.bool() ? { 'X-Keep': 'yes' } : {}), ...(c.chance(30) && j.o.body ? { 'Content-Type': 'application/x-www-form-urlencoded' } : {}), ...(c.chance(15) ? { Connection: 'keep-alive' } : {}) };
        if (c.chance(20)) j.o.headers[c.pick(['Host', 'host'])] = j.vhost = 'virtual.test';
        j.tag = String(i);
        j.form = c.raw(3);
        // only the first request carries the caller's query; the address of a redirect is complete
        if (c.chance(25)) j.o.query = c.pick([{ q: 1 }, { q: 'x', k: 'y' }, { q: ['a', 'b'] }]);
        j.query = !j.o.query ? '' : (j.start.search ? '&' : '?') + (Array.isArray(j.o.query.q) ? 'q=a&q=b' : j.o.query.k ? 'q=x&k=y' : 'q=1');
        j.override = c.chance(10);
        // the reference: which requests have to arrive, and what ends the chain
        const want = []; let vhost = j.vhost, at = j.start, m = j.method.toUpperCase(), body = j.bodyBytes, left = j.max ?? 21;
        for (;;) {
            want.push({ n: at, m, body, vhost });
            if (at.final || left === 0) { j.end = at; break; }
            if (at.bad) { j.end = null; break; }
            left--;
            if ((m === 'POST' && (at.status === 301 || at.status === 302)) || (at.status === 303 && m !== 'GET' && m !== 'HEAD')) { m = 'GET'; body = ''; }
            if (at.to.host !== at.host) vhost = undefined;
            at = at.to;
        }
        j.want = want;
        jobs.push(j);
    }
    const server = (host, proto, port) => httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const j = jobs.find(x => x.tag === req.header('x-job'));
        if (!j) { ctx.fail('lost-header', `a request for ${req.target} arrived without the caller's header`); return; }
        const n = nodes.find(x => x.host === host && x.proto === proto && x.port === port && x.path + x.search + (j.seen.length ? '' : j.query) === req.target);
        const got = { addr: `${proto}://${host}:${port}${req.target}`, m: req.method, body: req.body.toString('latin1'), host: req.header('host'), keep: req.header('x-keep'), type: req.header('content-type'), len: req.header('content-length') };
        j.seen.push(got);
        const w = j.want[j.seen.length - 1];
        if (j.seen.length === 1 && j.query) ctx.probe('query then ' + (n && n.location ? 'redirect' : 'answer'));
        const info = () => `request ${j.seen.length} of job ${j.tag} (${j.method} ${addr(j.start)}, max ${j.max}) is ${got.m} ${got.addr} with body ${JSON.stringify(got.body)}; ${w ? 'expected ' + w.m + ' ' + addr(w.n) + ' with body ' + JSON.stringify(w.body) : 'no further request was due'}; chain ${j.want.map(x => x.n.status + ' ' + (x.n.location || '')).join(' , ')}`;
        if (!ctx.check(w, 'too-many-redirects', info)) return;
        ctx.check(n === w.n, 'wrong-address', info);
        ctx.check(got.m === w.m, 'wrong-method', info);
        ctx.check(got.body === w.body, 'wrong-body', info);
        ctx.check(got.host && got.host.split(':')[0] === (w.vhost || host), 'wrong-host-header', () => `Host: ${got.host} instead of ${w.vhost || host}; ${info()}`);
        ctx.check(got.keep === (j.o.headers['X-Keep'] || undefined), 'lost-header', info);
        if (w.m === 'GET' && j.bodyBytes) ctx.check(!+(got.len || 0), 'stale-length', () => `Content-Length: ${got.len}; ${info()}`);
        if (sim.violations.length || !n) return;
        const r = genResponse(c, { method: req.method, status: n.status, tag: 'n' + n.i, headers: n.location ? [[n.hname, n.location]] : [] });
        if (c.chance(large ? 0 : 4)) { injected++; sim.fault('reset'); deliver(ctx, conn, r.wire.subarray(0, c.int(0, r.wire.length - 1))); conn.rst(); j.hit = true; return; }
        n.served = r;
        j.last = r;
        deliver(ctx, conn, r.wire);
        if (r.framing === 'close' || conn.closing || /close/i.test(r.headers.filter(h => /^connection$/i.test(h[0])).map(h => h[1]).join())) { conn.closing = true; conn.fin(c.int(0, 5)); }
    }, why => ctx.fail('malformed-request', why));
    for (const [host, proto, port] of HOSTS) net.listen(host, port, server(host, proto, port));
    for (const j of jobs) sim.at(c.int(0, 10), 'start', () => {
        const s = j.start;
        const o2 = { ...j.o, hostname: s.host, port: s.port, path: s.path + s.search, https: s.proto === 'https' };
        // the path option replaces the path of the address
        const url = j.override ? addr({ ...s, path: '/elsewhere' }) : addr(s);
        if (j.override && j.form !== 0) j.o.path = s.path;
        j.call = ctx.call('request', () => (j.form === 0 ? lib.request(o2) : j.form === 1 ? lib.request(url, j.o) : lib.request(url, { ...j.o, headers: { ...j.o.headers } }, {})));
    });
    sim.maxSteps = 30000;
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const { call } = j;
        const detail = () => `${j.method} ${addr(j.start)} max ${j.max}: ${call.state} ${call.state === 'fulfilled' ? call.value.status : brief(call.value)}; requests ${j.seen.map(x => x.m + ' ' + x.addr).join(' -> ')}; chain ${j.want.map(x => x.n.status + ' ' + (x.n.location || '')).join(' , ')}`;
        if (!ctx.check(call.state !== 'pending', 'never-settles', detail)) return;
        if (j.hit) { continue; }
        if (!j.end) { ctx.check(call.state === 'rejected' && call.value instanceof Error, 'bad-location-accepted', detail); ctx.probe('bad-location'); continue; }
        if (!ctx.check(call.state === 'fulfilled', 'refused', detail)) return;
        ctx.check(j.seen.length === j.want.length, 'wrong-number-of-requests', detail);
        ctx.check(call.value.status === j.end.status && call.value.response.headers['x-tag'] === 'n' + j.end.i, 'wrong-final-response', detail);
        ctx.check(call.value.data.equals(j.last.bodyless ? Buffer.alloc(0) : j.last.body), 'wrong-final-body', detail);
        ctx.probe('hops ' + Math.min(9, j.seen.length - 1));
    }
    ctx.check(net.open.size === 0, 'connection-leak', () => `${net.open.size} connection(s) left`);
    ctx.nontrivial();
}
module.exports = {
    property: 'R03', packages: ['request'], runs: { quick: 30000, thorough: 400000 },
    scenarios: [{ name: 'redirects', run }],
    rule: 'Each run builds a random graph of addresses on five simulated origins (chains, loops, all location forms, final 3xx without location) and follows it with one or two requests of any method, body and redirect limit, with occasional resets; every request that arrives is compared with a reference follower.',
    real: ['packages/request', 'Node http/https client and parser', 'WHATWG URL'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['headers other than credentials and body headers are repeated on every hop']
};
