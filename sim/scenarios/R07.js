'use strict';
const { world, genResponse, deliver, decode, brief, show, checkHeaders, httpServer } = require('../httpworld');

// The log of handler calls against the response the server sent.
async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx, { large: ctx.big() });
    const jobs = [];
    for (let i = c.weighted([[5, 1], [2, 2], [1, 3]]); i > 0; i--) {
        const j = { id: 'j' + i, hops: c.weighted([[5, 0], [3, 1], [2, c.int(2, 4)]]), log: [], served: [] };
        j.stop = c.weighted([[4, 'never'], [2, 'header'], [4, 'data'], [1, 'throw-header'], [1, 'throw-data']]);
        j.at = c.weighted([[3, 0], [2, 1], [2, c.int(2, 10)], [c.large ? 5 : 0, c.large && c.int(11, 50)]]);
        j.has = c.weighted([[6, 'both'], [1, 'header'], [1, 'data'], [1, 'none']]);
        j.end = c.weighted([[6, 'all'], [1, 'stall'], [1, 'cut'], [1, 'rst']]);
        j.method = c.pick(['GET', 'GET', 'GET', 'POST', 'HEAD']);
        j.keep = c.chance(25);
        jobs.push(j);
    }
    const server = (host, proto) => httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const [, id, k] = req.target.split('/'), j = jobs.find(x => x.id === id);
        if (+k < j.hops) {
            const r = genResponse(c, { method: req.method, status: 307, headers: [['Location', c.pick([`/${id}/${+k + 1}`, `${c.pick(['http', 'https'])}://${c.pick(['a.test', 'b.test'])}/${id}/${+k + 1}`])]] });
            deliver(ctx, conn, r.wire);
            if (r.framing === 'close' || conn.closing) { conn.closing = true; conn.fin(c.int(0, 5)); }
            return;
        }
        const r = j.r = genResponse(c, { method: req.method, status: c.pick([200, 200, 206, 404, 500]) });
        j.served.push(r);
        let wire = r.wire;
        if (j.end !== 'all' && !r.bodyless && r.payload.length) wire = wire.subarray(0, c.int(r.headEnd, wire.length - 1)); else j.end = 'all';
        deliver(ctx, conn, wire, { slow: c.pick([0, 0, 200]) });
        if (j.end === 'stall') { sim.fault('stall'); return; }
        if (j.end === 'rst') { sim.fault('reset'); conn.rst(c.int(0, 20)); return; }
        if (j.end === 'cut') { sim.fault('cut'); conn.fin(c.int(0, 20)); return; }
        if (r.framing === 'close' || conn.closing || /close/i.test(r.headers.filter(h => /^connection$/i.test(h[0])).map(h => h[1]).join())) { conn.closing = true; conn.fin(c.int(0, 20)); }
    }, why => ctx.fail('malformed-request', why));
    for (const h of ['a.test', 'b.test']) { net.listen(h, 80, server(h, 'http')); net.listen(h, 443, server(h, 'https')); }
    for (const j of jobs) sim.at(c.int(0, 20), 'start', () => {
        const enter = (what, x) => {
            const late = j.ended || (j.call && j.call.state !== 'pending');
            j.log.push([what, x]);
            sim.note(`${j.id} ${what}`);
            ctx.check(!late, 'handler-after-the-end', () => `${j.id}: ${what} handler called again after ${j.ended || 'settlement'}`);
        };
        const handlers = {};
        if (j.has === 'both' || j.has === 'header') handlers.header = (res, options) => {
            enter('header', res);
            ctx.check(options && typeof options === 'object' && options.path === `/${j.id}/${j.hops}`, 'wrong-options', () => `header handler of ${j.id} got options of ${options && options.path}`);
            ctx.check(j.r && res.statusCode === j.r.status && !checkHeaders(j.r, res.headers), 'wrong-response', () => `header handler of ${j.id} saw ${res.statusCode} ${JSON.stringify(res.headers)}`);
            if (j.stop === 'throw-header') { j.ended = 'throw'; throw (j.thrown = new Error('from header handler')); }
            if (j.stop === 'header') { j.ended = 'stop in header'; j.endAt = sim.now; return true; }
        };
        if (j.has === 'both' || j.has === 'data') handlers.data = (chunk, res, options) => {
            enter('data', Buffer.from(chunk));
            ctx.check(j.r && res.statusCode === j.r.status && options.path === `/${j.id}/${j.hops}`, 'wrong-response', () => `data handler of ${j.id} saw ${res.statusCode}`);
            const n = j.log.filter(x => x[0] === 'data').length - 1;
            if (n === j.at && j.stop === 'throw-data') { j.ended = 'throw'; throw (j.thrown = new Error('from data handler')); }
            if (n === j.at && j.stop === 'data') { j.ended = 'stop in data'; j.endAt = sim.now; return true; }
        };
        const o = { method: j.method };
        if (j.method === 'POST') o.body = { a: 1 };
        if (j.keep) o.headers = { Connection: 'keep-alive' };
        if (j.end === 'stall') o.timeout = 30000;
        const url = `${c.pick(['http', 'https'])}://a.test/${j.id}/0`;
        j.call = ctx.call('request', () => (c.bool() ? lib.request(url, o, handlers) : lib.request({ ...o, hostname: 'a.test', https: c.bool(), path: `/${j.id}/0` }, handlers)));
    });
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const v = j.call.value, info = () => `${j.id} ${j.method} ${j.hops} hops, stop ${j.stop} at ${j.at}, response ${j.r && j.r.status} ${j.r && j.r.codec} ${j.r && j.r.framing} ${j.r && j.r.payload.length} bytes ends ${j.end}; ${j.call.state} ${brief(v)}; log ${j.log.map(x => x[0] + (x[0] === 'data' ? ' ' + x[1].length : '')).join(', ')}`;
        const heads = j.log.filter(x => x[0] === 'header'), chunks = j.log.filter(x => x[0] === 'data').map(x => x[1]);
        if (!ctx.check(j.served.length === 1 && j.call.state !== 'pending', 'unsettled', info)) return;
        ctx.check(heads.length === (j.has === 'both' || j.has === 'header' ? 1 : 0), 'header-handler-count', info);
        ctx.check(!heads.length || j.log[0][0] === 'header', 'header-after-data', info);
        const full = j.r.bodyless ? Buffer.alloc(0) : j.r.body;
        const seen = Buffer.concat(chunks);
        ctx.check(Buffer.compare(seen, full.subarray(0, seen.length)) === 0, 'wrong-chunks', () => `handler saw ${show(seen)} of ${show(full)}; ${info()}`);
        ctx.check(!chunks.some(x => !x.length), 'empty-chunk', info);
        if (j.ended === 'throw') { ctx.check(j.call.state === 'rejected' && v instanceof Error, 'handler-error-lost', info); ctx.probe('handler throws'); } else if (j.ended) {
            ctx.check(j.call.state === 'fulfilled', 'stop-ignored', info);
            if (sim.violations.length) return;
            const want = j.ended === 'stop in header' ? Buffer.alloc(0) : Buffer.concat(chunks.slice(0, -1));
            ctx.check(Buffer.compare(v.data, want) === 0, 'wrong-data', () => `resolved with ${show(v.data)} instead of ${show(want)}; ${info()}`);
            ctx.check(v.status === j.r.status && !v.error, 'wrong-status', info);
            ctx.check(j.call.at === j.endAt, 'late', () => `stopped at ${j.endAt}, settled at ${j.call.at}; ${info()}`);
            ctx.probe(j.ended);
        } else if (j.call.state === 'fulfilled') {
            const complete = j.end === 'all' || j.r.framing === 'close' || j.end === 'cut';
            ctx.check(complete, 'cut-response-delivered', info);
            if (j.end === 'all') {
                ctx.check(Buffer.compare(v.data, full) === 0 && v.status === j.r.status, 'wrong-data', info);
                if (j.has === 'both' || j.has === 'data') ctx.check(Buffer.compare(seen, full) === 0, 'handler-missed-data', info);
            }
            ctx.probe('to the end');
        } else { ctx.check(j.end !== 'all' && v instanceof Error, 'refused', info); ctx.probe('failed'); }
    }
    const alive = [...net.open].length, may = jobs.filter(j => j.keep).length;
    ctx.check(alive === 0 || (may && jobs.some(j => j.keep && !j.ended)), 'connection-leak', () => `${alive} connections still open after ${jobs.map(j => j.ended || 'end').join(', ')}`);
    if (jobs.some(j => j.log.length)) ctx.nontrivial();
}
module.exports = {
    property: 'R07', packages: ['request'], runs: { quick: 30000, thorough: 400000 },
    scenarios: [{ name: 'handlers', run }],
    rule: 'Each run sends up to three concurrent requests with header and data handlers that stop or throw at a seeded point, over redirects, all encodings and segmentations, with stalls, cuts and resets after the headers.',
    real: ['packages/request', 'Node http/https client and parser', 'zlib codecs'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['the chunk at which the data handler stops does not belong to what was received before']
};
