'use strict';
const { world, genResponse, deliver, brief, httpServer } = require('../httpworld');

// Taint tracking: each credential is a unique string; every simulated host records what it is shown.
async function run(ctx) {
    const { c, sim } = ctx;
    const { net, lib } = world(ctx);
    const HOSTS = ['a.test', 'b.test', 'sub.a.test', 'a.test.evil.test', 'xa.test', '127.0.0.1'];
    const ORIGINS = [];
    for (const h of HOSTS) for (const [p, n] of [['http', 80], ['https', 443], ['http', 8080]]) ORIGINS.push({ host: h, proto: p, port: n });
    const large = ctx.big(10);
    const jobs = [];
    const shared = {};
    for (let i = c.weighted([[5, 1], [3, 2], [1, 3]]); i > 0; i--) {
        const j = { id: 'j' + i, hops: [], seen: [] };
        const len = large ? c.int(8, 21) : c.int(1, 6);
        let at = c.pick(ORIGINS.slice(0, 3));
        for (let k = 0; k < len; k++) {
            const o = k === 0 ? at : c.weighted([[4, at], [2, c.pick(ORIGINS.filter(x => x.host === at.host))], [4, c.pick(ORIGINS)], [1, ORIGINS[0]]]);
            j.hops.push({ ...o, path: `/${j.id}/${k}`, status: c.pick([301, 302, 303, 307, 308]) });
            at = o;
        }
        j.hops.forEach((h, k) => {
            const n = j.hops[k + 1];
            if (!n) return;
            const user = c.weighted([[8, ''], [1, 'a.test@'], [1, 'u:p@']]);
            const same = n.host === h.host && n.proto === h.proto && n.port === h.port;
            const host = c.chance(15) ? n.host.toUpperCase() : n.host;
            h.location = same && c.bool() ? n.path : `${n.proto === h.proto && c.chance(20) ? '' : n.proto + ':'}//${user}${host}${n.port === (n.proto === 'http' ? 80 : 443) ? '' : ':' + n.port}${n.path}`;
            h.status = c.pick([301, 302, 303, 307, 308]);
        });
        j.cookie = c.chance(70) ? `sid=COOKIE${j.id}` : null;
        j.authz = c.chance(40) ? `Bearer TOKEN${j.id}` : null;
        j.basic = c.chance(50) ? `user${j.id}:PASS${j.id}` : null;
        j.basicBy = c.pick(['option', 'url']);
        j.headers = { 'X-Job': j.id };
        if (j.cookie) j.headers[c.pick(['Cookie', 'cookie', 'COOKIE', 'cOOkie'])] = c.chance(15) ? [j.cookie] : j.cookie;
        if (j.authz) j.headers[c.pick(['Authorization', 'authorization', 'AUTHORIZATION', 'authoriZation'])] = j.authz;
        j.secrets = [j.cookie && `COOKIE${j.id}`, j.authz && `TOKEN${j.id}`, j.basic && Buffer.from(j.basic).toString('base64').replace(/=+$/, ''), j.basic && `PASS${j.id}`].filter(Boolean);
        j.method = c.pick(['GET', 'GET', 'POST', 'HEAD']);
        jobs.push(j);
    }
    const server = o => httpServer((req, conn) => {
        if (conn.closing) return;
        conn.closing = /close/i.test(req.header('connection') || '');
        const [, id, k] = req.target.split('/');
        const j = jobs.find(x => x.id === id), h = j && j.hops[+k];
        if (!h || h.host !== o.host || h.proto !== o.proto || h.port !== o.port) { ctx.fail('wrong-address', `${o.proto}://${o.host}:${o.port}${req.target} was never named by anyone`); return; }
        j.seen.push(+k);
        const left = j.hops.slice(0, +k + 1).some(x => x.host !== j.hops[0].host);
        const raw = req.headers.map(x => x.join(': ')).join(' | ') + ' | ' + req.target + ' | ' + req.body.toString('latin1');
        const info = () => `hop ${k} of ${j.hops.map(x => `${x.proto}://${x.host}:${x.port}`).join(' -> ')} received ${raw}`;
        for (const other of jobs) for (const s of other.secrets) if (raw.includes(s)) {
            ctx.check(other === j, 'credentials-of-another-request', info);
            ctx.check(!left, 'credentials-leaked', () => `${s}: ${info()}`);
        }
        if (!left) {
            if (j.cookie) ctx.check(req.header('cookie') === j.cookie, 'cookie-lost', info);
            const want = j.authz || (j.basic && 'Basic ' + Buffer.from(j.basic).toString('base64'));
            if (want) ctx.check(req.header('authorization') === want, 'authorization-lost', () => `expected ${want}; ${info()}`);
            ctx.probe('same host');
        } else ctx.probe('other host');
        const r = genResponse(c, { method: req.method, status: h.location ? h.status : 200, headers: h.location ? [['Location', h.location]] : [] });
        deliver(ctx, conn, r.wire, { style: c.pick([0, 3]) });
        if (r.framing === 'close' || conn.closing) conn.fin(c.int(0, 5));
    }, why => ctx.fail('malformed-request', why));
    for (const o of ORIGINS) net.listen(o.host, o.port, server(o));
    for (const j of jobs) sim.at(c.int(0, 20), 'start', () => {
        const h = j.hops[0];
        const o = { method: j.method, headers: j.headers };
        if (j.method === 'POST') o.body = 'x=1';
        const userinfo = j.basic && j.basicBy === 'url' ? j.basic + '@' : '';
        if (j.basic && !userinfo) o.auth = j.basic;
        const url = `${h.proto}://${userinfo}${h.host}:${h.port}${h.path}`;
        j.call = ctx.call('request', () => (c.bool() || userinfo ? lib.request(url, o) : lib.request({ ...o, hostname: c.chance(20) ? h.host.toUpperCase() : h.host, port: h.port, path: h.path, https: h.proto === 'https' })));
    });
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        ctx.check(j.call.state === 'fulfilled' && j.call.value.status === 200, 'refused', () => `${j.hops.map(x => `${x.proto}://${x.host}:${x.port} ${x.location}`).join(' -> ')}: ${j.call.state} ${brief(j.call.value)}`);
        ctx.check(j.seen.length === j.hops.length, 'wrong-number-of-requests', () => j.seen.join());
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'R04', packages: ['request'], runs: { quick: 30000, thorough: 400000 },
    scenarios: [{ name: 'credentials', run }],
    rule: 'Each run sends up to three concurrent requests with cookies, authorization headers in any letter case and basic credentials (option or address) through chains of up to six hops over look-alike hosts; every host reports every credential it is shown.',
    real: ['packages/request', 'Node http/https client and parser', 'WHATWG URL'], stub: ['TCP/TLS sockets and DNS (simulated)', 'zlib thread pool', 'timers'],
    assumptions: ['the same host name on another port or scheme is the same host']
};
