'use strict';
const { Procs } = require('../procsim');
const { winArgv } = require('../shells');
const { brief } = require('../run');

const NAMES = ['System Idle Process', 'System', 'svchost.exe', 'node.exe', 'NODE.EXE', 'My App.exe', 'My  App.exe', 'Memory Compression', 'a,b.exe', 'A-very-long-image-name-of-a-service.exe', 'exactly-25-characters.exe', 'cmd.exe', '1234.exe', 'x.exe', "it's.exe", 'a&b.exe'];
const SESSIONS = ['Services', 'Console', '', 'RDP-Tcp#0', '31C5CE94259D4006'];
const kb = n => String(n).replace(/\B(?=(\d{3})+$)/g, ',') + ' K';
function tasks(c, big) {
    const n = big ? c.int(100, 2500) : c.weighted([[1, 1], [3, c.int(2, 6)], [3, c.int(5, 25)]]);
    const list = [];
    for (let i = 0; i < n; i++) list.push({ imageName: i === 0 && c.bool() ? NAMES[0] : c.pick(NAMES), pid: i === 0 ? '0' : String(c.pick([4, 8, 99, 1234, 65532, 123456, 1048576, 12345678, 99999900]) + i), session: { name: c.pick(SESSIONS), id: String(c.pick([0, 1, 2, 65536])) }, memusage: String(c.pick([0, 8, 999, 1000, 28732, 1234567])) });
    return list;
}
// what tasklist.exe prints
function print(list, args) {
    const up = args.map(a => a.toUpperCase());
    const f = up.includes('/FO') ? up[up.indexOf('/FO') + 1] : 'TABLE', nh = up.includes('/NH');
    if (up.some((a, i) => !['/NH', '/FO', 'CSV', 'TABLE'].includes(a) && !(i > 0 && up[i - 1] === '/FO'))) return null;
    if (f === 'CSV') return (nh ? '' : '"Image Name","PID","Session Name","Session#","Mem Usage"\r\n') + list.map(t => [t.imageName, t.pid, t.session.name, t.session.id, kb(t.memusage)].map(v => `"${v}"`).join(',') + '\r\n').join('');
    if (f !== 'TABLE') return null;
    return '\r\n' + (nh ? '' : 'Image Name                     PID Session Name        Session#    Mem Usage\r\n========================= ======== ================ =========== ============\r\n')
        + list.map(t => `${t.imageName.slice(0, 25).padEnd(25)} ${t.pid.padStart(8)} ${t.session.name.padEnd(16)} ${t.session.id.padStart(11)} ${kb(t.memusage).padStart(12)}\r\n`).join('');
}
function pieces(c, text, fd) {
    const b = Buffer.from(text), out = [];
    for (let i = 0; i < b.length;) { const n = c.weighted([[3, b.length - i], [2, c.int(1, Math.min(b.length > 5000 ? 5000 : 40, b.length - i))]]); out.push({ fd, data: b.subarray(i, i + n), delay: c.pick([0, 0, 3]) }); i += n; }
    return out;
}
async function run(ctx) {
    const { c, sim } = ctx;
    let list = tasks(c, ctx.big());
    const locked = new Set(list.filter(() => c.chance(10)).map(t => t.imageName));
    if (list.length) locked.add(list[0].imageName);
    const ran = [];
    const faulty = c.pick([0, 0, 25]);
    const procs = new Procs(sim, ch => {
        const words = winArgv(ch.spawnargs[2]);
        const r = { words, failed: false };
        ran.push(r);
        if (c.chance(faulty)) {
            r.failed = true;
            if (c.bool()) return { spawnError: c.pick(['ENOENT', 'EAGAIN', 'EACCES']) };
            sim.fault('command-fails');
            return { out: pieces(c, c.pick(['', 'ERROR: The RPC server is unavailable.\r\n']), 2), exit: c.bool() ? { code: c.pick([1, 255]) } : { signal: 'SIGTERM' } };
        }
        if (words[0] === 'tasklist') {
            const text = print(list, words.slice(1));
            if (text === null) { ctx.fail('wrong-command', ch.spawnargs[2]); return { exit: { code: 1 } }; }
            r.list = list.slice();
            return { out: pieces(c, text, 1), exit: { code: 0, delay: c.pick([0, 5]) } };
        }
        if (words[0] === 'taskkill') {
            const up = words.map(w => w.toUpperCase());
            if (!ctx.check(up.includes('/IM') && up.includes('/F') && words.length === (up.includes('/T') ? 5 : 4), 'wrong-command', ch.spawnargs[2])) return { exit: { code: 1 } };
            const name = words[up.indexOf('/IM') + 1];
            r.target = name;
            const hit = list.filter(t => t.imageName.toLowerCase() === name.toLowerCase());
            r.killed = hit.filter(t => !locked.has(t.imageName));
            list = list.filter(t => !r.killed.includes(t));
            const good = r.killed.map(t => `SUCCESS: The process "${t.imageName}" with PID ${t.pid} has been terminated.\r\n`).join('');
            const bad = hit.length ? hit.filter(t => locked.has(t.imageName)).map(t => `ERROR: The process "${t.imageName}" with PID ${t.pid} could not be terminated.\r\nReason: Access is denied.\r\n`).join('') : `ERROR: The process "${name}" not found.\r\n`;
            r.ok = !bad;
            if (bad) sim.fault(hit.length ? 'kill-refused' : 'no-such-process');
            return { out: [...pieces(c, good, 1), ...pieces(c, bad, 2)], exit: { code: !hit.length ? 128 : bad ? 1 : 0 } };
        }
        ctx.fail('wrong-command', ch.spawnargs[2]);
        return { exit: { code: 1 } };
    });
    const { windowsTaskList, findWindowsTask, killWindowsTask } = ctx.load('os', ctx.env({ platform: 'win32', modules: { child_process: procs.module() } }));
    // one call after the other, so that each call has its own command
    const steps = Array.from({ length: c.int(1, 3) }, () => ({ op: c.pick(['list', 'find', 'kill']), name: c.chance(80) && list.length ? c.pick(list).imageName : c.pick([...NAMES, 'none.exe', 'node']) }));
    const next = i => {
        if (i >= steps.length) return;
        const s = steps[i], before = ran.length;
        s.call = ctx.call(s.op, () => (s.op === 'list' ? windowsTaskList() : s.op === 'find' ? findWindowsTask(s.name) : killWindowsTask(s.name)));
        const poll = () => { if (s.call.state === 'pending') { if (sim.now < 60000) sim.at(5, 'poll', poll); return; } s.ran = ran.slice(before); next(i + 1); };
        poll();
    };
    sim.at(0, 'start', () => next(0));
    await sim.drive();
    if (sim.violations.length) return;
    for (const s of steps) {
        const r = s.ran && s.ran[0], v = s.call && s.call.value;
        const info = () => `${s.op} ${s.name} failed ${r && r.failed} -> ${s.call && s.call.state} ${s.call && s.call.state === 'fulfilled' ? JSON.stringify(v) : brief(v)}${r && r.list ? '; listed ' + JSON.stringify(r.list) : ''}${r && r.killed ? '; killed ' + JSON.stringify(r.killed) : ''}`;
        if (!ctx.check(s.call && s.call.state !== 'pending', 'unsettled', info)) return;
        if (!ctx.check(s.ran.length === 1, 'not-run-once', info)) return;
        if (s.op === 'kill') {
            if (!ctx.check(s.call.state === 'fulfilled' && typeof v === 'boolean', 'kill-rejected', info)) return;
            if (!r.failed) ctx.check(r.target === s.name, 'wrong-target', info);
            ctx.check(v === (!r.failed && r.ok), v ? 'failure-hidden' : 'false-failure', info);
            ctx.probe('kill ' + v);
            continue;
        }
        if (r.failed) { ctx.check(s.call.state === 'rejected', 'failure-hidden', info); ctx.probe(s.op + ' failed'); continue; }
        if (!ctx.check(s.call.state === 'fulfilled' && Array.isArray(v), 'refused', info)) return;
        const want = s.op === 'list' ? r.list : r.list.filter(t => t.imageName === s.name);
        if (!ctx.check(v.length === want.length, 'wrong-count', () => `expected ${want.length}; ${info()}`)) return;
        want.forEach((t, i) => {
            const g = v[i];
            ctx.check(g && g.imageName === t.imageName && g.pid === t.pid, 'wrong-process', () => `row ${i}: expected ${t.imageName} ${t.pid}, got ${JSON.stringify(g)}; ${info()}`);
            ctx.check(g && g.memusage === t.memusage && g.session && g.session.id === t.session.id && (g.session.name || '') === t.session.name, 'wrong-details', () => `row ${i}: expected ${JSON.stringify(t)}, got ${JSON.stringify(g)}`);
        });
        ctx.probe(`${s.op} ${Math.min(want.length, 3)}`);
    }
    ctx.nontrivial();
}
const CULTURES = ['en-US', 'zh-CN', 'de', 'sr-Latn-RS', 'ja-JP'];
async function locale(ctx) {
    const { c, sim } = ctx;
    const platform = c.weighted([[4, 'win32'], [1, 'linux'], [1, 'darwin']]);
    const name = c.pick(CULTURES);
    const kind = c.weighted([[5, 'ok'], [2, 'fails'], [2, 'empty'], [1, 'short']]);
    const table = `\r\nLCID             Name             DisplayName\r\n----             ----             -----------\r\n${'1033'.padEnd(17)}${name.padEnd(17)}Some Language (Some Country)\r\n\r\n\r\n`;
    const procs = new Procs(sim, () => {
        if (kind === 'fails') { sim.fault('command-fails'); return c.bool() ? { spawnError: 'ENOENT' } : { out: pieces(c, 'not recognized\r\n', 2), exit: { code: 1 } }; }
        if (kind !== 'ok') sim.fault('short-output');
        return { out: pieces(c, kind === 'ok' ? table : kind === 'empty' ? '' : table.split('\r\n').slice(0, c.int(1, 3)).join('\r\n'), 1), exit: { code: 0 } };
    });
    const { windowsLocal, appendCmd } = ctx.load('os', ctx.env({ platform, modules: { child_process: procs.module() } }));
    let call = null;
    sim.at(0, 'start', () => { call = ctx.call('windowsLocal', () => windowsLocal()); });
    await sim.drive();
    if (sim.violations.length) return;
    const info = () => `${platform} ${kind} ${name} -> ${call.state} ${call.state === 'fulfilled' ? JSON.stringify(call.value) : brief(call.value)}`;
    if (platform !== 'win32') ctx.check(call.state === 'fulfilled' && call.value === null && procs.spawned.length === 0, 'wrong-locale', info);
    else if (kind === 'fails') ctx.check(call.state === 'rejected', 'failure-hidden', info);
    else ctx.check(call.state === 'fulfilled' && call.value === (kind === 'ok' ? name : null), 'wrong-locale', info);
    ctx.check(appendCmd('npm') === (platform === 'win32' ? 'npm.cmd' : 'npm'), 'wrong-command-name', platform);
    ctx.probe(`locale ${platform} ${kind}`);
    ctx.nontrivial();
}
module.exports = {
    property: 'P03', packages: ['os'], runs: { quick: 60000, thorough: 500000 },
    scenarios: [{ name: 'tasks', weight: 6, run }, { name: 'locale', weight: 1, run: locale }],
    rule: 'Each run asks a simulated Windows for its tasks, for tasks by name, to kill by name, or for its locale, with generated task tables, output cut into pieces, refused kills, missing tasks, and failing or missing commands.',
    real: ['packages/os windows helpers', 'packages/process exec', 'Node streams'], stub: ['tasklist, taskkill and powershell (simulated, table and CSV output)', 'child_process', 'timers'],
    assumptions: ['English number format in the output of tasklist', 'image names are ASCII']
};
