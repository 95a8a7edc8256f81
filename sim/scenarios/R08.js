'use strict';
const net = require('net');
const { world, genResponse, deliver, brief, httpServer } = require('../httpworld');

const NAMES = ['github.com', 'a.test', 'b.test', 'xn--bcher-kva.test', 'bücher.test', 'a b', 'x&dn=evil.test', 'no.such.name', '127.0.0.1', 'A.TEST', 'plus+name', 'per%20cent'];
const ADDR = ['13.250.177.223', '1.1.1.1', '255.255.255.255', '0.0.0.0', '10.0.0.1', '::1', '2001:db8::1'];
const finish = (ctx, conn, r) => { deliver(ctx, conn, r.wire, { slow: ctx.c.pick([0, 20]) }); if (r.framing === 'close' || conn.closing) { conn.closing = true; conn.fin(ctx.c.int(0, 5)); } };
function trouble(ctx, conn, r) {
    const { c, sim } = ctx;
    const k = c.pick(['rst', 'cut', 'garbage', 'fin']);
    sim.fault(k === 'cut' ? 'cut' : k === 'rst' ? 'reset' : k === 'fin' ? 'close-without-answer' : 'malformed-response');
    if (k === 'rst') conn.rst(c.int(0, 9)); else if (k === 'fin') conn.fin(c.int(0, 9)); else if (k === 'garbage') { conn.send(Buffer.from('NOPE\r\n\r\n')); conn.fin(); } else { deliver(ctx, conn, r.wire.subarray(0, c.int(0, r.headEnd - 1))); conn.rst(); }
}

async function dns(ctx) {
    const { c, sim } = ctx;
    const { net: network, lib } = world(ctx);
    const jobs = [];
    let refused = 0;
    const large = ctx.big();
    for (let i = c.weighted([[4, 1], [2, 2], [1, 3]]), n = 0; n < i; n++) {
        const list = Array.from({ length: large ? c.int(20, 120) : c.weighted([[1, 0], [3, 1], [4, c.int(2, 6)]]) }, () => c.pick(NAMES));
        jobs.push({ list, arg: list.length === 1 && c.bool() ? list[0] : list, before: list.slice() });
    }
    const zone = {};
    for (const n of NAMES) {
        const kind = c.weighted([[6, 'some'], [2, 'none'], [2, 'error'], [1, 'junk'], [1, 'trouble']]);
        zone[n] = { kind, list: kind === 'some' ? Array.from({ length: large ? c.int(1, 60) : c.int(1, 4) }, () => c.pick(ADDR)) : [] };
    }
    const asked = {};
    network.listen('119.29.29.29', 80, httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const [path, q = ''] = req.target.split('?');
        let name; try { const p = new URLSearchParams(q); name = p.get('dn'); if ([...p.keys()].length !== 1) name = null; } catch {}
        if (!ctx.check(path === '/d' && req.method === 'GET' && Object.hasOwn(zone, name), 'wrong-question', () => `${req.method} ${req.target}`)) return;
        asked[name] = (asked[name] || 0) + 1;
        const z = zone[name];
        const r = genResponse(c, { status: z.kind === 'error' ? c.pick([400, 404, 500, 503, 204]) : 200, body: Buffer.from(z.kind === 'some' ? z.list.join(';') + c.pick(['', '', ';']) : z.kind === 'none' ? '' : z.kind === 'junk' ? c.pick(['<html>login</html>', '0', ';;', 'null']) : c.pick(ADDR)) });
        if (z.kind === 'trouble') { trouble(ctx, conn, r); return; }
        finish(ctx, conn, r);
    }, why => ctx.fail('malformed-request', why)));
    network.plan = () => (c.chance(3) ? (refused++, c.pick(['refuse', 'unreachable'])) : null);
    for (const j of jobs) sim.at(c.int(0, 50), 'start', () => { j.call = ctx.call('queryDNS', () => lib.queryDNS(j.arg)); });
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const v = j.call.value, info = () => `${JSON.stringify(j.before)} -> ${j.call.state} ${j.call.state === 'fulfilled' ? JSON.stringify(v) : brief(v)}; zone ${j.before.map(n => `${n}: ${zone[n].kind} ${zone[n].list}`).join(', ')}`;
        ctx.check(JSON.stringify(j.list) === JSON.stringify(j.before), 'argument-modified', info);
        if (j.call.state === 'fulfilled') {
            ctx.check(!j.before.some(n => zone[n].kind === 'trouble'), 'failure-hidden', info);
            ctx.check(JSON.stringify(Object.keys(v).sort()) === JSON.stringify([...new Set(j.before)].sort()), 'wrong-names', info);
            for (const n of j.before) ctx.check(JSON.stringify(v[n]) === JSON.stringify(zone[n].list), 'wrong-addresses', info);
            ctx.probe('names ' + j.before.length);
        } else { ctx.check(j.call.state === 'rejected' && (refused || j.before.some(n => zone[n].kind === 'trouble')), 'refused', info); ctx.probe('failed'); }
    }
    ctx.check(network.open.size === 0, 'connection-leak', () => `${network.open.size} connections still open`);
    ctx.nontrivial();
}

async function ip(ctx) {
    const { c, sim } = ctx;
    const { net: network, lib } = world(ctx);
    const calls = [];
    const gbk = { 北京市: 'b1b1bea9cad0', 上海市: 'c9cfbaa3cad0', GERMANY: Buffer.from('GERMANY').toString('hex'), '': '' };
    let refused = 0, served = [];
    network.listen('pv.sohu.com', 443, httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        ctx.check(req.method === 'GET' && req.target === '/cityjson', 'wrong-question', () => `${req.method} ${req.target}`);
        const cip = c.pick(ADDR), cid = c.pick(['110000', 'CN', 'DE', '']), cname = c.pick(Object.keys(gbk));
        const obj = Buffer.concat([Buffer.from(`{"cip": "${cip}", "cid": "${cid}", "cname": "`), Buffer.from(gbk[cname], 'hex'), Buffer.from('"}')]);
        const whole = Buffer.concat([Buffer.from('var returnCitySN = '), obj, Buffer.from(c.pick([';', '', ';\n', ';\r\n']))]);
        const kind = c.weighted([[6, 'good'], [5, 'malformed'], [2, 'error'], [1, 'trouble']]);
        let body = whole;
        if (kind === 'malformed') {
            const k = c.raw(12);
            body = k === 0 ? Buffer.from('<html>var returnCitySN = {}</html>') : k === 1 ? Buffer.from('var returnCitySN = {};') : k === 2 ? Buffer.from('var returnCitySN = {"cip": "", "cid": "1", "cname": "x"};') : k === 3 ? whole.subarray(0, c.int(0, whole.lastIndexOf(0x7d)))
                : k === 4 ? Buffer.from('var returnCitySN = {"cid": "1", "cname": "x"};') : k === 5 ? Buffer.concat([Buffer.from('callback('), obj, Buffer.from(')')]) : k === 6 ? Buffer.from('var returnCitySN = {"cip": "unknown", "cid": "1", "cname": "x"};')
                : k === 8 ? Buffer.from(c.pick(['var returnCitySN = {"cip": "1.1.1.1", "cid": 110000, "cname": "x"};', 'var returnCitySN = {"cip": "1.1.1.1", "cid": null, "cname": "x"};', 'var returnCitySN = {"cip": "1.1.1.1", "cname": "x"}'])) : k === 9 ? Buffer.from(c.pick(['var returnCitySN = {"cip": "1.1.1.1", "cid": "1"};', 'var returnCitySN = {"cip": "1.1.1.1", "cid": "1", "cname": {}};', 'var returnCitySN = null;', 'var returnCitySN = {"cip": ["1.1.1.1"], "cid": "1"};']))
                : k === 7 ? Buffer.from(`var returnCitySN = {"cip": "1.1.1.1", "cid": "1", "cname": (globalThis.__pwned = 1, "x")};`) : Buffer.from('var returnCitySN = {"cip": "1.1.1.1", "cid": "1", "cname": "x"}; globalThis.__pwned = 1;');
        }
        const r = genResponse(c, { status: kind === 'error' ? c.pick([400, 404, 500, 503]) : 200, body });
        served.push({ kind, cip, cid, cname, body });
        if (kind === 'trouble') { trouble(ctx, conn, r); return; }
        finish(ctx, conn, r);
    }, why => ctx.fail('malformed-request', why)), { badCert: c.chance(20) });
    network.plan = () => (c.chance(8) ? (refused++, c.pick(['refuse', 'unreachable', 'dns', 'tls-reset'])) : null);
    const n = c.weighted([[4, 1], [1, 3]]);
    delete globalThis.__pwned;
    // one after the other, so that each call has one answer
    const next = () => {
        const before = { s: served.length, r: refused };
        const call = ctx.call('publicIP', () => lib.publicIP());
        calls.push({ call, before });
        const poll = () => {
            if (call.state === 'pending') { if (sim.now < 600000) sim.at(10, 'poll', poll); return; }
            calls[calls.length - 1].after = { s: served.length, r: refused };
            if (calls.length < n) next();
        };
        poll();
    };
    sim.at(0, 'start', next);
    await sim.drive();
    if (sim.violations.length) return;
    for (const { call, before, after } of calls) {
        const s = served[before.s], v = call.value, info = () => `${s ? s.kind + ' ' + JSON.stringify(s.body.toString('latin1')) : 'no reply'} -> ${call.state} ${call.state === 'fulfilled' ? JSON.stringify(v) : brief(v)}`;
        if (!ctx.check(after && call.state !== 'pending', 'unsettled', info)) return;
        if (call.state === 'fulfilled') {
            ctx.check(s && s.kind === 'good', 'malformed-reply-accepted', info);
            if (s && s.kind === 'good') ctx.check(v && v.ip === s.cip && v.city && v.city.id === s.cid && v.city.name === s.cname, 'wrong-address', () => `expected ${s.cip} ${s.cid} ${s.cname}; ${info()}`);
        } else ctx.check((s && s.kind !== 'good') || after.r > before.r, 'refused', info);
        ctx.probe(s ? s.kind : 'no reply');
    }
    const pwned = globalThis.__pwned !== undefined; delete globalThis.__pwned;
    ctx.check(!pwned, 'reply-executed', 'code in the reply of the service was executed');
    ctx.check(network.open.size === 0, 'connection-leak', () => `${network.open.size} connections still open`);
    ctx.nontrivial();
}
module.exports = {
    property: 'R08', packages: ['request'], runs: { quick: 24000, thorough: 300000 },
    scenarios: [{ name: 'dns', run: dns }, { name: 'ip', run: ip }],
    rule: 'Each run asks a simulated resolver for lists of names, or a simulated address service, with good, empty, error, malformed, truncated and hostile replies, resets and refused connections.',
    real: ['packages/request', 'Node http/https client and parser'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['what is not an IP address in the reply of the resolver is not an address it returned']
};
