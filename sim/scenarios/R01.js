'use strict';
const { world, genResponse, deliver, decode, brief, show, checkHeaders, httpServer } = require('../httpworld');

async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx, { large: ctx.big() });
    const jobs = [];
    const many = c.large && c.bool();
    if (many) c.large = false; // many responses or long ones
    for (let i = many ? c.int(10, 60) : c.weighted([[5, 1], [2, 2], [1, 4]]); i > 0; i--) {
        const j = { id: i, keep: c.chance(20), method: c.pick(['GET', 'GET', 'POST', 'HEAD', 'PUT']), https: c.bool() };
        const fault = c.weighted([[6, 'none'], [3, 'cut'], [1, 'corrupt'], [1, 'extra']]);
        j.r = genResponse(c, { method: j.method, tag: 'job' + i, corrupt: fault === 'corrupt', informational: c.chance(10) ? c.int(1, 2) : 0 });
        if (j.r.bodyless && fault === 'cut') j.cut = c.int(0, j.r.headEnd - 1);
        else if (fault === 'cut') j.cut = c.chance(30) ? Math.max(0, j.r.wire.length - c.int(1, 9)) : c.int(0, Math.max(0, j.r.wire.length - 1));
        j.how = c.pick(['fin', 'rst']);
        j.extra = fault === 'extra' && (j.r.framing === 'length' || j.r.framing === 'chunked') && !j.r.bodyless;
        jobs.push(j);
    }
    const server = httpServer((req, conn) => {
        if (conn.closing) return; // a client that asked to close gets no further answers
        conn.closing = /close/i.test(req.header('connection') || '');
        const j = jobs[+req.target.slice(2) - 1] && jobs.find(x => '/j' + x.id === req.target);
        if (!j) { ctx.fail('wrong-target', req.target); return; }
        const { r } = j;
        const bytes = j.cut === undefined ? r.wire : r.wire.subarray(0, j.cut);
        deliver(ctx, conn, bytes, { first: c.chance(20) ? c.int(1, 200) : 0, slow: c.chance(20) ? 50 : 0 });
        if (j.extra) { conn.send(Buffer.from('HTTP/1.1 500 Extra\r\nContent-Length: 5\r\n\r\nEXTRA')); sim.fault('unsolicited-response'); }
        if (j.cut !== undefined) { sim.fault('cut-' + j.how); conn[j.how](c.int(0, 5)); } else if (r.framing === 'close' && !r.bodyless) conn.fin(c.int(0, 5));
        else if (conn.closing || /close/i.test(r.headers.filter(h => /^connection$/i.test(h[0])).map(h => h[1]).join())) { conn.closing = true; conn.fin(c.int(0, 20)); }
        if (r.corrupted !== undefined) sim.fault('corrupted-payload');
    }, (why, conn) => { ctx.fail('malformed-request', why); });
    net.listen('h.test', 80, server); net.listen('h.test', 443, server);
    for (const j of jobs) sim.at(c.int(0, 10), 'start', () => { j.call = ctx.call('request', () => lib.request(`${j.https ? 'https' : 'http'}://h.test/j${j.id}`, { method: j.method, maxRedirects: 0, ...(j.keep ? { headers: { Connection: 'keep-alive' } } : {}), ...(j.method === 'POST' ? { body: 'x' } : {}) })); });
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const { r, call } = j;
        const detail = () => `${j.method} ${r.status} ${r.codec} ${r.framing}, body ${show(r.body)}${j.cut !== undefined ? `, cut by ${j.how} after ${j.cut} of ${r.wire.length} bytes (head ${r.headEnd})` : ''}${r.corrupted !== undefined ? ', payload byte ' + r.corrupted + ' flipped' : ''}: ${call.state} ${call.state === 'fulfilled' ? call.value.status + ' ' + show(call.value.data) : brief(call.value)}`;
        if (!ctx.check(call.state !== 'pending', 'never-settles', detail)) return;
        const ok = call.state === 'fulfilled' && (call.value.error === null || call.value.error === undefined);
        let want = r.bodyless ? Buffer.alloc(0) : r.body;
        if (j.cut !== undefined) {
            const inHead = j.cut < r.headEnd;
            if (inHead || r.framing !== 'close' || j.how === 'rst') {
                ctx.check(!ok, 'cut-off-response-delivered', detail);
                ctx.probe('cut'); continue;
            }
            want = decode(r.codec, r.payload.subarray(0, j.cut - r.headEnd)); // the protocol cannot tell
            if (want === null) { continue; }
            ctx.probe('undetectable-cut');
            if (!ok) continue;
        } else if (r.corrupted !== undefined) {
            want = decode(r.codec, r.payload);
            // with a damaged first byte it may pass for deflate data without the zlib header
            if (want === null && r.codec === 'deflate' && r.corrupted < 2) want = decode('raw-deflate', r.payload);
            if (want === null) { ctx.check(!ok, 'undecodable-response-delivered', detail); ctx.probe('undecodable'); continue; }
            if (!ok) continue;
        } else ctx.check(ok, 'good-response-refused', detail);
        if (!ok) continue;
        const v = call.value;
        ctx.check(v.status === r.status && v.statusText === r.reason, 'wrong-status', () => `${v.status} ${v.statusText} instead of ${r.status} ${r.reason}; ${detail()}`);
        ctx.check(Buffer.isBuffer(v.data) && v.data.equals(want), 'wrong-body', () => `expected ${show(want)}; ${detail()}`);
        // a coding the body still has is announced, one that was undone is not
        const sent = r.headers.find(x => x[0].toLowerCase() === 'content-encoding'), coding = v.response.headers['content-encoding'];
        if (sent && !r.bodyless) ctx.check(coding === (r.codec === 'none' ? sent[1] : undefined), 'wrong-coding', () => `the body is ${r.codec === 'none' ? 'as sent' : 'decoded'}, content-encoding reads ${coding}, sent ${sent[1]}`);
        const h = checkHeaders(r, v.response.headers);
        ctx.check(!h, 'wrong-headers', () => `${h}; ${detail()}`);
        ctx.probe('delivered ' + r.codec + ' ' + r.framing);
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'R01', packages: ['request'], runs: { quick: 36000, thorough: 400000 },
    scenarios: [{ name: 'responses', run }],
    rule: 'Each run sends one to four concurrent requests to a simulated server whose responses vary in status, encoding, framing and headers and arrive split and delayed at random, cut off by FIN or RST at a random byte, corrupted, or followed by stray bytes; every run is non-trivial.',
    real: ['packages/request', 'Node http/https client and parser', 'Node zlib streams'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool (simulated completion)', 'timers'],
    assumptions: ['a response without length information that is ended by FIN is complete as far as the protocol can tell', 'raw deflate and br carry no checksum: a flipped bit that still decodes is not detectable']
};
