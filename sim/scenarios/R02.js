'use strict';
const { world, genResponse, deliver, brief, show, httpServer } = require('../httpworld');

const BAD_LOCATIONS = ['http://', 'http://[bad', 'http://h.test:99999/', '//', 'http://%zz/', 'ftp://h.test/x', 'javascript:alert(1)', 'http://nowhere.test/', 'https://h.test:81/', 'http://h.test:1/', '/plain', 'rel/ative', '?q=1', '', ' ', 'http://h.test/\u00e9', '#', 'http://h.test/a b', 'mailto:x@y', 'http:', '::', '\\\\x'];
const GARBAGE = [
    'garbage\r\n\r\n', '\0\0\0\0', 'HTTP/9.9 200 OK\r\n\r\n', 'HTTP/1.1 abc OK\r\n\r\n', 'HTTP/1.1 200 OK\r\nContent-Length: -5\r\n\r\nhello', 'HTTP/1.1 200 OK\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nhello!',
    'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nZZ\r\nhello\r\n0\r\n\r\n', 'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nhelloXX0\r\n\r\n', 'HTTP/1.1 200 OK\r\nBad Header Line\r\n\r\n', 'HTTP/1.1 200 OK\r\nX-Big: ' + 'x'.repeat(20000) + '\r\n\r\n',
    'HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\nabc', 'HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: 5\r\n\r\nhello', 'HTTP/1.1 200 OK\r\nContent-Encoding: br\r\nContent-Length: 5\r\n\r\nhello',
    'HTTP/1.1 200 OK\r\nContent-Encoding: deflate\r\nContent-Length: 5\r\n\r\nhello', 'HTTP/1.0 200 OK\r\n\r\nold style', '<html>not http</html>', 'HTTP/1.1 302 Found\r\nLocation: \r\nContent-Length: 0\r\n\r\n', 'HTTP/1.1 999 Odd\r\nContent-Length: 2\r\n\r\nhi', 'HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nabcEXTRA', '\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi'
];
async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx, { large: ctx.big() });
    const jobs = [], byConn = new Map();
    let planned = 0;
    net.plan = () => (c.chance(18) ? (planned++, c.weighted([[2, 'refuse'], [2, 'dns'], [2, 'unreachable'], [2, 'stall'], [1, 'tls-reset']])) : null);
    let stalled = 0, endless = 0;
    const server = httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const m = /^\/j(\d+)/.exec(req.target);
        const j = m && jobs[+m[1]];
        const act = c.weighted([[5, 'answer'], [3, 'cut'], [2, 'stall'], [3, 'garbage'], [3, 'redirect'], [1, 'rst'], [1, 'fin'], [1, 'drip']]);
        if (act === 'rst') { sim.fault('reset'); conn.rst(c.int(0, 5)); return; }
        if (act === 'fin') { sim.fault('close-without-answer'); conn.fin(c.int(0, 5)); return; }
        if (act === 'garbage') {
            sim.fault('malformed-response');
            deliver(ctx, conn, Buffer.from(c.pick(GARBAGE), 'latin1'));
            if (c.chance(80)) conn[c.pick(['fin', 'rst'])](c.int(0, 9)); else { stalled++; conn.stalledAt = true; }
            return;
        }
        if (act === 'redirect') {
            const loc = c.bool() ? c.pick(BAD_LOCATIONS) : c.pick(['/j' + (m ? m[1] : 0), 'http://h.test/j' + (m ? m[1] : 0), 'https://h.test/j' + (m ? m[1] : 0)]);
            const r = genResponse(c, { method: req.method, status: c.pick([301, 302, 303, 307, 308, 300]), headers: [['Location', loc]] });
            sim.fault('redirect');
            deliver(ctx, conn, r.wire);
            if (r.framing === 'close' || conn.closing) conn.fin(c.int(0, 5));
            return;
        }
        const r = genResponse(c, { method: req.method });
        if (act === 'answer') { deliver(ctx, conn, r.wire, { slow: c.chance(20) ? 30 : 0 }); if (r.framing === 'close' || conn.closing) conn.fin(c.int(0, 5)); return; }
        const k = c.int(0, r.wire.length - 1);
        if (act === 'cut') { sim.fault('cut'); deliver(ctx, conn, r.wire.subarray(0, k)); conn[c.pick(['fin', 'rst'])](c.int(0, 5)); return; }
        if (act === 'stall') { sim.fault('stall'); stalled++; deliver(ctx, conn, r.wire.subarray(0, k)); return; }
        sim.fault('drip');
        const step = Math.max(1, Math.ceil(r.wire.length / c.int(2, 8)));
        for (let p = 0; p < r.wire.length; p += step) conn.send(r.wire.subarray(p, p + step), c.int(20, 90));
        if (r.framing === 'close' || conn.closing) conn.fin();
    });
    net.listen('h.test', 80, server); net.listen('h.test', 443, server, { badCert: c.chance(20) });
    net.listen('h.test', 81, conn => { sim.fault('mute-server'); stalled++; });
    net.listen('h.test', 82, conn => { sim.fault('reset'); conn.rst(); });
    const many = c.large && c.bool();
    if (many) c.large = false;
    for (let i = many ? c.int(10, 60) : c.weighted([[4, 1], [3, 2], [2, 4]]), n = 0; n < i; n++) {
        const j = { i: n, timeout: c.weighted([[6, c.int(100, 400)], [1, undefined]]), log: [] };
        const o = { method: c.pick(['GET', 'GET', 'POST', 'HEAD', 'PUT', 'DELETE', 'OPTIONS']) };
        if (j.timeout) o.timeout = j.timeout;
        if (c.chance(30)) o.body = c.pick(['text', { a: 1 }, Buffer.alloc(40000, 'b')]);
        if (c.chance(15)) o.rejectUnauthorized = true;
        if (c.chance(15)) o.delay = c.int(1, 50);
        if (c.chance(15)) o.headers = { Connection: 'keep-alive' };
        o.maxRedirects = c.pick([undefined, 0, 1, 4]);
        if (o.maxRedirects === undefined) delete o.maxRedirects;
        const https = c.bool(), port = c.weighted([[10, ''], [1, ':81'], [1, ':82'], [1, ':9999']]);
        const host = c.chance(5) ? 'unknown.test' : 'h.test';
        j.o = o;
        const h = c.weighted([[4, undefined], [1, {}], [1, { header: () => c.chance(50) || undefined }], [1, { data: () => c.chance(50) || undefined }]]);
        jobs.push(j);
        sim.at(c.int(0, 40), 'start', () => {
            j.call = ctx.call('request', () => {
                const p = lib.request(`${https ? 'https' : 'http'}://${host}${port}/j${n}`, o, h);
                const done = () => { j.at = sim.now; };
                p.then(done, done);
                return p;
            });
        });
    }
    sim.maxSteps = 30000;
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const { call } = j;
        const detail = () => `${JSON.stringify(j.o).slice(0, 120)}: ${call.state} ${call.state === 'fulfilled' ? call.value && call.value.status : brief(call.value)}`;
        if (call.state === 'pending') { ctx.check(!j.timeout && (stalled || planned), 'never-settles', detail); ctx.probe('waits-for-stalled-server-without-timeout'); endless++; continue; }
        if (call.state === 'rejected') { ctx.check(call.value instanceof Error, 'rejected-without-an-error', detail); ctx.probe('rejected ' + (call.value && call.value.cause && call.value.cause.error && call.value.cause.error.code || String(call.value && call.value.message).slice(0, 20))); } else {
            const v = call.value;
            ctx.check(v && Number.isInteger(v.status) && Buffer.isBuffer(v.data) && (v.error === null || v.error instanceof Error), 'malformed-result', detail);
            ctx.probe('fulfilled');
        }
    }
    if (!endless) ctx.check(net.open.size === 0, 'connection-leak', () => `${net.open.size} connection(s) still open after every request settled: ${jobs.map(j => j.call.state + ' ' + brief(j.call.value)).join('; ')}`);
    ctx.nontrivial();
}
module.exports = {
    property: 'R02', packages: ['request'], runs: { quick: 24000, thorough: 400000 },
    scenarios: [{ name: 'network faults', run }],
    rule: 'Each run sends up to four requests into a network that fails at the name lookup, connection, TLS, request or response stage: refused, unreachable, stalled, reset or half closed at a random byte, dripping, malformed responses, senseless redirects, alone or combined; every run is non-trivial.',
    real: ['packages/request', 'Node http/https client and parser', 'Node zlib streams'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool (simulated completion)', 'timers'],
    assumptions: ['a request without a timeout may wait for ever for a server that never answers', 'user-supplied handlers do not throw']
};
