'use strict';
const { Procs } = require('../procsim');
const { sysError } = require('../net');
const { brief } = require('../run');

const BADSIG = { SIGFOO: 'ERR_UNKNOWN_SIGNAL', sigterm1: 'ERR_UNKNOWN_SIGNAL', 4096: 'EINVAL' };
// a simulated process table; signals only ever reach this table
class Table {
    constructor(ctx) { this.ctx = ctx; this.c = ctx.c; this.list = new Map(); this.sent = []; this.eperm = new Set(); }
    add(pid, ppid, call) { this.list.set(pid, { pid, ppid, call, alive: true }); }
    children(ppid) { return [...this.list.values()].filter(p => p.alive && p.ppid === ppid).map(p => p.pid); }
    exit(pid) { const p = this.list.get(pid); if (!p || !p.alive) return; p.alive = false; for (const q of this.list.values()) if (q.ppid === pid) q.ppid = 1; this.ctx.sim.note('process exits ' + pid); }
    kill(pid, sig) {
        this.ctx.sim.note(`signal ${String(sig)} to ${pid}`);
        const p = this.list.get(pid);
        if (BADSIG[sig]) { this.ctx.sim.fault('bad-signal'); this.sent.push({ pid, type: typeof pid, sig, alive: true }); throw sig === 4096 ? sysError('EINVAL', 'kill') : Object.assign(new TypeError('Unknown signal: ' + sig), { code: 'ERR_UNKNOWN_SIGNAL' }); }
        this.sent.push({ pid, type: typeof pid, sig, alive: !!(p && p.alive), at: this.ctx.sim.now });
        if (!p || !p.alive) throw sysError('ESRCH', 'kill');
        if (this.eperm.has(pid)) { this.ctx.sim.fault('eperm'); throw sysError('EPERM', 'kill'); }
        if (this.c.bool()) this.exit(pid);
        return true;
    }
}
function lister(ctx, table, platform, job) {
    const { c, sim } = ctx;
    return child => {
        const a = child.spawnargs.join(' ');
        const m = platform === 'linux' ? /^ps -o pid --no-headers --ppid (\d+)$/.exec(a) : /^pgrep -P (\d+)$/.exec(a);
        const ppid = m ? +m[1] : null;
        const p = table.list.get(ppid);
        const j = p && p.call;
        if (!j) { ctx.fail('wrong-query', a); return { exit: { code: 1 } }; }
        const q = { ppid, pids: [], ok: false };
        j.queries.push(q);
        const trouble = c.chance(job.faulty);
        const how = trouble ? c.pick(['spawn', 'throw', 'fail', 'signal', 'stream', 'silent']) : 'ok';
        if (how === 'spawn' || how === 'throw') return { spawnError: how === 'throw' ? c.pick(['ENOMEM', 'E2BIG']) : c.pick(['ENOENT', 'EMFILE', 'EAGAIN', 'EACCES']) };
        const script = { out: [], exit: {} };
        if (how === 'silent') { sim.fault('lister-silent'); script.exit = { code: 0 }; q.ok = true; return script; }
        // what the lister reports is decided when it runs
        q.pids = table.children(ppid);
        const text = platform === 'linux' ? q.pids.map(x => String(x).padStart(7)).join('\n') + '\n' : q.pids.join('\n') + '\n';
        let bytes = q.pids.length ? Buffer.from(text) : Buffer.alloc(0);
        if (q.pids.length && c.chance(5)) { bytes = Buffer.concat([bytes, Buffer.from(platform === 'linux' ? String(q.pids[0]).padStart(7) + '\n' : q.pids[0] + '\n')]); sim.fault('lister-duplicate'); }
        if (how === 'fail') { sim.fault('lister-fails'); if (c.bool()) bytes = Buffer.alloc(0); script.exit = { code: c.pick([1, 2, 127]) }; q.partial = true; } else if (how === 'signal') { sim.fault('lister-killed'); script.exit = { signal: 'SIGKILL' }; q.partial = true; } else script.exit = { code: q.pids.length ? 0 : 1 };
        q.ok = how === 'ok';
        // what a lister wrote before it went wrong may end in the middle of a number
        if ((how === 'fail' || how === 'signal') && bytes.length && c.bool()) { bytes = bytes.subarray(0, c.int(0, bytes.length)); sim.fault('lister-output-cut'); }
        script.exit.delay = c.pick([0, 0, 3, 30]);
        for (let i = 0; i < bytes.length;) { const n = c.weighted([[3, bytes.length - i], [2, c.int(1, Math.min(9, bytes.length - i))]]); script.out.push({ fd: 1, data: bytes.subarray(i, i + n), delay: c.pick([0, 0, 2]) }); i += n; }
        if (c.chance(10)) script.out.push({ fd: 2, data: Buffer.from('warning: 12345\n'), delay: 0 });
        if (how === 'stream') { script.streamError = { fd: 1, code: 'EIO', after: c.int(0, script.out.filter(o => o.fd === 1).length) }; q.partial = true; q.ok = false; }
        return script;
    };
}
const SIGNALS = [undefined, 'SIGKILL', 'SIGTERM', 'SIGINT', 9, 15, 0];
async function tree(ctx) {
    const { c, sim } = ctx;
    const platform = c.pick(['linux', 'darwin']);
    const table = new Table(ctx);
    const world = { faulty: c.pick([0, 0, 8, 30]) };
    const procs = new Procs(sim, lister(ctx, table, platform, world));
    const env = ctx.env({ platform, modules: { child_process: procs.module() }, processProps: { kill: (pid, sig) => table.kill(pid, sig) } });
    const { kill, asyncKill } = ctx.load('os', env);
    const jobs = [];
    const pids = c.shuffle([2, 3, 9, 10, 11, 12, 13, 101, 102, 110, 111, 123, 1000, 1001, 1010, 1234, 4194303, 99999, 100000, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42]);
    let churn = c.chance(40);
    for (let i = 0, n = c.weighted([[5, 1], [2, 2], [1, 3]]); i < n; i++) {
        const root = pids.pop();
        const j = { root, queries: [], cb: [], pids: [root] };
        const big = ctx.big(), deep = big && c.bool();
        if (c.chance(90)) table.add(root, 1, j); else { table.add(root, 1, j); table.exit(root); }
        if (table.list.get(root).alive) for (let k = 0, m = c.weighted([[1, 0], [3, c.int(1, 3)], [3, c.int(3, 8)]]); k < m && pids.length > 4; k++) { const p = pids.pop(); table.add(p, c.pick(j.pids), j); j.pids.push(p); }
        if (big && table.list.get(root).alive) for (let k = 0, m = c.int(40, deep ? 250 : 600), wide = c.pick(j.pids); k < m; k++) { const p = 20000 + i * 1000 + k; table.add(p, deep ? j.pids[j.pids.length - 1] : c.chance(90) ? wide : c.pick(j.pids), j); j.pids.push(p); }
        j.signal = c.pick(SIGNALS);
        if (c.chance(4)) { j.signal = c.pick(['SIGFOO', 'sigterm1', 4096]); j.bad = true; }
        else if (c.chance(8)) { const v = c.pick(j.pids); table.eperm.add(v); j.eperm = true; }
        j.arg = c.pick([root, root, String(root), String(root), '00' + root, ` ${root} `, '0x' + root.toString(16)]);
        j.style = c.pick(['callback', 'callback', 'async', j.eperm || j.bad ? 'async' : 'none', j.signal === undefined ? 'short' : 'callback']);
        jobs.push(j);
        if (churn) for (let k = c.int(1, 4); k-- > 0;) sim.at(c.int(0, 60), 'exit', () => { const v = c.pick(j.pids); if (!j.done) { sim.fault('process-exits'); table.exit(v); } });
        sim.at(c.int(0, 20), 'kill', () => {
            const report = (...a) => { j.cb.push(a); j.sentAtCb = table.sent.filter(s => j.pids.includes(s.pid)).length; j.done = true; };
            const cb = c.pick([report, e => report(e), (e, x) => report(...(x === undefined ? [e] : [e, x])), function () { report(...arguments); }]);
            j.call = ctx.call('kill', () => {
                if (j.style === 'async') { const p = j.signal === undefined && c.bool() ? asyncKill(j.arg) : asyncKill(j.arg, j.signal); p.then(cb); return p; }
                if (j.style === 'short') return kill(j.arg, cb);
                if (j.style === 'none') return j.signal === undefined && c.bool() ? kill(j.arg) : kill(j.arg, j.signal);
                return kill(j.arg, j.signal, cb);
            });
        });
    }
    while (pids.length > 20) table.add(pids.pop(), 1, null);
    await sim.drive();
    if (sim.violations.length) return;
    for (const s of table.sent) ctx.check(jobs.some(j => j.pids.includes(s.pid)) && s.type === 'number', 'stray-signal', () => `${String(s.sig)} to ${s.pid}`);
    for (const j of jobs) {
        const mine = table.sent.filter(s => j.pids.includes(s.pid));
        const found = new Set([j.root]), maybe = new Set([j.root]);
        for (const q of j.queries) for (const p of q.pids) { if (q.ok) found.add(p); maybe.add(p); }
        const info = () => `kill(${j.arg}, ${String(j.signal)}) ${j.style} on ${platform}; found ${[...found]}; signalled ${mine.map(s => s.pid)}; callback ${JSON.stringify(j.cb.map(a => a.map(x => (x instanceof Error ? x.message : x))))}; queries ${JSON.stringify(j.queries)}`;
        if (!ctx.check(j.call.state === 'fulfilled', 'call-failed', () => `${brief(j.call.value)}; ${info()}`)) return;
        ctx.check(mine.every(s => s.sig === j.signal), 'wrong-signal', info);
        ctx.check(new Set(mine.map(s => s.pid)).size === mine.length, 'signalled-twice', info);
        ctx.check(mine.every(s => maybe.has(s.pid)), 'stray-signal', info);
        for (const q of j.queries) ctx.check(j.queries.filter(x => x.ppid === q.ppid).length === 1, 'asked-twice', info);
        for (const p of found) ctx.check(j.queries.some(q => q.ppid === p), 'not-asked', () => `nobody asked for the children of ${p}: ${info()}`);
        const hit = j.bad ? mine.length > 0 : j.eperm && mine.some(s => table.eperm.has(s.pid) && s.alive);
        if (!hit) ctx.check([...found].every(p => mine.some(s => s.pid === p)), 'not-signalled', info);
        if (j.style !== 'none') {
            if (!ctx.check(j.cb.length === 1, j.cb.length ? 'reported-twice' : 'never-reported', info)) return;
            ctx.check(j.sentAtCb === mine.length, 'reported-early', info);
            const e = j.cb[0][0];
            ctx.check(hit ? e && e.code === (j.bad ? BADSIG[j.signal] : 'EPERM') : !e, hit ? 'failure-hidden' : 'false-failure', info);
        }
        ctx.probe(`${platform} ${hit ? 'eperm' : j.queries.some(q => !q.ok) ? 'lister trouble' : 'clean'}`);
        ctx.probe('tree ' + Math.min(9, found.size));
    }
    ctx.nontrivial();
}
const BAD = [0, '0', '', ' ', -1, '-1', -4242, NaN, 'abc', 1.5, '1.5', Infinity, null, undefined, '12abc', {}, [], '1 2', 2 ** 53, '0x0', '-0', false];
async function invalid(ctx) {
    const { c, sim } = ctx;
    const platform = c.pick(['linux', 'darwin', 'win32']);
    const table = new Table(ctx);
    const procs = new Procs(sim, () => { ctx.fail('ran-a-command', procs.spawned[procs.spawned.length - 1].spawnargs.join(' ')); return { exit: { code: 1 } }; });
    const env = ctx.env({ platform, modules: { child_process: procs.module() }, processProps: { kill: (pid, sig) => table.kill(pid, sig) } });
    const { kill, asyncKill } = ctx.load('os', env);
    const arg = c.pick(BAD), style = c.pick(['callback', 'none', 'async']);
    const cb = [];
    let call = null;
    sim.at(0, 'kill', () => { call = ctx.call('kill', () => (style === 'async' ? asyncKill(arg, 'SIGKILL') : style === 'callback' ? kill(arg, 'SIGKILL', e => cb.push(e)) : kill(arg, 'SIGKILL'))); });
    await sim.drive();
    if (sim.violations.length) return;
    const info = () => `kill(${JSON.stringify(arg) ?? String(arg)}) ${style} on ${platform} -> ${call.state} ${brief(call.value)}; callback ${cb.map(brief)}; signals ${JSON.stringify(table.sent)}`;
    ctx.check(table.sent.length === 0, 'stray-signal', info);
    if (style === 'callback') ctx.check(call.state === 'fulfilled' && cb.length === 1 && cb[0] instanceof Error, 'accepted', info);
    else if (style === 'async') ctx.check(call.state === 'rejected' || (call.state === 'fulfilled' && call.value instanceof Error), 'accepted', info);
    else ctx.check(call.state === 'rejected' && call.value instanceof Error, 'accepted', info);
    ctx.probe('invalid');
    ctx.nontrivial();
}
async function windows(ctx) {
    const { c, sim } = ctx;
    const table = new Table(ctx);
    const jobs = [];
    const procs = new Procs(sim, ch => {
        const j = jobs.find(x => `taskkill /T /F /PID ${x.pid}` === ch.spawnargs[2]);
        if (!j) { ctx.fail('wrong-command', ch.spawnargs[2]); return { exit: { code: 1 } }; }
        j.ran++;
        return j.script;
    });
    const env = ctx.env({ platform: 'win32', modules: { child_process: procs.module() }, processProps: { kill: (pid, sig) => table.kill(pid, sig) } });
    const { kill, asyncKill } = ctx.load('os', env);
    for (let i = 0, n = c.int(1, 3); i < n; i++) {
        const j = { pid: 100 + i * 7, ran: 0, cb: [], script: { out: [{ fd: 1, data: Buffer.from('SUCCESS: The process with PID 1 has been terminated.\r\n') }], exit: { code: 0, delay: c.pick([0, 20]) } } };
        const k = c.weighted([[5, 'ok'], [2, 'fail'], [1, 'spawn']]);
        if (k === 'fail') { sim.fault('taskkill-fails'); j.script = { out: [{ fd: 2, data: Buffer.from('ERROR: The process "1" not found.\r\n') }], exit: { code: c.pick([1, 128]) } }; }
        if (k === 'spawn') j.script = { spawnError: c.pick(['ENOENT', 'EMFILE', 'EAGAIN']) };
        j.fails = k !== 'ok'; j.style = c.pick(['callback', 'async', 'none', 'short']);
        const cb = (...a) => j.cb.push(a);
        sim.at(c.int(0, 9), 'kill', () => { j.call = ctx.call('kill', () => { if (j.style === 'async') { const p = asyncKill(j.pid); p.then(cb); return p; } return j.style === 'callback' ? kill(String(j.pid), 'SIGKILL', cb) : j.style === 'short' ? kill(j.pid, cb) : kill(j.pid); }); });
        jobs.push(j);
    }
    await sim.drive();
    if (sim.violations.length) return;
    ctx.check(table.sent.length === 0, 'stray-signal', () => JSON.stringify(table.sent));
    for (const j of jobs) {
        const info = () => `kill(${j.pid}) ${j.style} fails ${j.fails}; ran ${j.ran} -> ${j.call.state}; callback ${JSON.stringify(j.cb.map(a => a.map(x => (x instanceof Error ? x.message : x))))}`;
        ctx.check(j.ran === 1, 'not-run-once', info);
        ctx.check(j.call.state === 'fulfilled', 'call-failed', info);
        if (j.style !== 'none' && ctx.check(j.cb.length === 1, 'not-reported-once', info)) ctx.check(!!j.cb[0][0] === j.fails, j.fails ? 'failure-hidden' : 'false-failure', info);
        ctx.probe('windows ' + (j.fails ? 'fails' : 'ok'));
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'P02', packages: ['os'], runs: { quick: 90000, thorough: 1000000 },
    scenarios: [{ name: 'tree', weight: 8, run: tree }, { name: 'invalid', weight: 1, run: invalid }, { name: 'windows', weight: 2, run: windows }],
    rule: 'Each run kills up to three generated process trees whose listers answer in any order and pieces, while processes exit, a process refuses the signal, and listers are missing, cannot be started, fail, are killed, lose their output or a part of it (down to half a number) or list a process twice; or passes an invalid pid; or runs on a simulated Windows.',
    real: ['packages/os kill', 'Node streams'], stub: ['process table, process.kill and ps/pgrep/taskkill (simulated)', 'child_process', 'timers'],
    assumptions: ['a lister ends', 'a process id is not reused during one call', 'a process does not kill its own tree', 'without a callback no signal is refused with EPERM']
};
