'use strict';
const path = require('path');
const { Procs } = require('../procsim');
const { shWords, cmdLine, winArgv } = require('../shells');
const { brief } = require('../run');

const TARGETS = ['http://a.test/x?y=1&z=2', 'file.txt', 'my file.txt', "it's.txt", 'a"b', '-flag', 'C:\\dir\\my file.txt', 'https://a.test/#frag', 'a;b', '$HOME/x', '日本.txt', 'a%20b', '(1).txt', 'x*', '', 'a,b.txt', ',', 'x, y', 'https://a.test/?q=1,2'];
async function open(ctx) {
    const { c, sim } = ctx;
    const platform = c.pick(['linux', 'darwin', 'win32']);
    const jobs = [];
    const procs = new Procs(sim, ch => { const j = jobs.find(x => x.id === ch.options.cwd); if (!j) { ctx.fail('options-lost', ch.spawnargs.join(' ')); return {}; } j.children.push(ch); return j.script; });
    procs.sync = () => ({ status: 1 });
    const comspec = 'C:\\Windows\\system32\\cmd.exe', environ = { ComSpec: comspec };
    const { open: openIt } = ctx.load('process', ctx.env({ platform, env: environ, modules: { child_process: procs.module() } }));
    for (let i = 0, n = c.int(1, 3); i < n; i++) {
        const list = Array.from({ length: c.weighted([[5, 1], [2, c.int(2, 3)]]) }, () => c.pick(TARGETS));
        const j = { id: '/w' + i, list, arg: list.length === 1 && c.bool() ? list[0] : list, children: [], opts: { cwd: '/w' + i } };
        if (c.chance(30)) j.opts.command = c.pick(['code', 'firefox -p', 'mpv']);
        if (c.chance(20)) j.opts.isToString = false;
        j.script = { out: [{ fd: 1, data: Buffer.from('out' + i) }, { fd: 2, data: Buffer.from('err' + i) }], exit: { code: c.pick([0, 0, 1, 3]), delay: c.pick([0, 10]) } };
        if (c.chance(20)) j.script.spawnError = c.pick(['ENOENT', 'EAGAIN', 'EMFILE', 'ENOMEM']);
        j.before = JSON.stringify([j.list, j.opts]);
        sim.at(c.int(0, 20), 'open', () => { j.call = ctx.call('open', () => openIt(j.arg, j.opts)); });
        jobs.push(j);
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const ch = j.children[0], v = j.call.value;
        const info = () => `${platform} open(${JSON.stringify(j.arg)}, ${JSON.stringify(j.opts)}) ran ${JSON.stringify(j.children.map(x => x.spawnargs))} -> ${j.call.state} ${v && JSON.stringify({ status: v.status, stdout: String(v.stdout), error: v.error && brief(v.error) })}`;
        if (!ctx.check(j.call.state !== 'pending' && j.children.length === 1, j.call.state === 'pending' ? 'unsettled' : 'not-run-once', info)) return;
        ctx.check(JSON.stringify([j.list, j.opts]) === j.before, 'argument-modified', info);
        const cmd = j.opts.command || { linux: 'xdg-open', darwin: 'open', win32: 'start ""' }[platform];
        let words = null;
        if (platform === 'win32') {
            ctx.check(ch.spawnfile === comspec && ch.spawnargs.slice(1, 4).join(' ') === '/d /s /c', 'wrong-shell', info);
            const r = cmdLine(ch.spawnargs.slice(4).join(' '), environ);
            ctx.check(r.special === null && r.text.startsWith(cmd + ' '), 'wrong-opener', () => `cmd runs ${r.text}; ${info()}`);
            words = winArgv(r.text.slice(cmd.length));
        } else {
            ctx.check(ch.spawnfile === 'sh' && ch.spawnargs[1] === '-c' && ch.spawnargs.length === 3 && ch.spawnargs[2].startsWith(cmd + ' '), 'wrong-opener', info);
            const w = shWords(ch.spawnargs[2].slice(cmd.length));
            ctx.check(w.special === null, 'interpreted-by-shell', info);
            words = w.words;
        }
        ctx.check(JSON.stringify(words) === JSON.stringify(j.list), 'wrong-targets', () => `opens ${JSON.stringify(words)}; ${info()}`);
        if (j.script.spawnError) ctx.check(j.call.state === 'rejected' && v && v.error && v.error.code === j.script.spawnError, 'failure-hidden', info);
        else if (ctx.check(j.call.state === 'fulfilled', 'refused', info)) {
            const n = j.id.slice(2);
            ctx.check(v.status === j.script.exit.code && String(v.stdout) === 'out' + n && String(v.stderr) === 'err' + n && Buffer.isBuffer(v.stdout) === (j.opts.isToString === false), 'wrong-outcome', info);
        }
        ctx.probe(`${platform} ${j.opts.command ? 'custom' : 'default'} ${j.call.state}`);
    }
    ctx.nontrivial();
}
async function shortcut(ctx) {
    const { c, sim } = ctx;
    const platform = c.weighted([[6, 'win32'], [1, 'linux'], [1, 'darwin']]);
    const script = { exit: { code: c.pick([0, 0, 1]), delay: c.pick([0, 10]) } };
    if (c.chance(15)) script.spawnError = c.pick(['ENOENT', 'EAGAIN', 'EMFILE', 'ENOMEM']);
    const procs = new Procs(sim, () => script);
    const files = new Set(['C:\\app\\my app.exe', 'C:\\app\\a.b.exe']), dirs = new Set(['C:\\app', 'C:\\links']);
    const fs = { existsSync: p => files.has(p) || dirs.has(p), lstatSync: p => ({ isDirectory: () => dirs.has(p), isFile: () => files.has(p) }), statSync: p => ({ isDirectory: () => dirs.has(p), isFile: () => files.has(p) }) };
    const { windowsMakeShortcut } = ctx.load('os', ctx.env({ platform, modules: { child_process: procs.module(), fs, path: platform === 'win32' ? path.win32 : path.posix }, globals: platform === 'win32' ? { __dirname: 'C:\\pkg\\dist' } : {} }));
    const source = c.pick(['C:\\app\\my app.exe', 'C:\\app\\a.b.exe', 'C:\\app\\gone.exe', 'C:\\app']);
    const opts = {};
    const set = (k, vals, pct) => { if (c.chance(pct)) opts[k] = c.pick(vals); };
    set('force', [true, false], 40); set('name', ['My App', 'x'], 40); set('description', ['what "it" does', ''], 30); set('dirPath', ['C:\\links', 'C:\\gone', 'C:\\app\\my app.exe'], 50);
    set('icon', ['C:\\app\\i.ico'], 30); set('args', ['-a "b c"', '--x'], 30); set('cwd', ['C:\\app'], 30); set('hotkey', ['Ctrl+Alt+T'], 30); set('windowMode', [0, 1, 3, 7], 30);
    const before = JSON.stringify(opts), given = c.bool() || before !== '{}';
    let call = null;
    sim.at(0, 'make', () => { call = ctx.call('windowsMakeShortcut', () => (given ? windowsMakeShortcut(source, opts) : windowsMakeShortcut(source))); });
    await sim.drive();
    if (sim.violations.length) return;
    const ch = procs.spawned[0];
    const info = () => `${platform} windowsMakeShortcut(${source}, ${before}) ran ${ch && JSON.stringify(ch.spawnargs)} -> ${call.state} ${brief(call.value)}`;
    if (!ctx.check(call.state !== 'pending', 'unsettled', info)) return;
    ctx.check(JSON.stringify(opts) === before, 'argument-modified', info);
    const missing = !opts.force && (!fs.existsSync(source) || (opts.dirPath && !dirs.has(opts.dirPath)));
    if (platform !== 'win32' || missing) {
        ctx.check(call.state === 'rejected' && call.value instanceof Error && procs.spawned.length === 0, 'accepted', info);
        ctx.probe(missing ? 'missing' : 'other platform');
    } else {
        if (!ctx.check(procs.spawned.length === 1, 'not-run-once', info)) return;
        const base = source.split('\\').pop(), name = base.includes('.') ? base.slice(0, base.lastIndexOf('.')) : base;
        const want = ['wscript', 'C:\\pkg\\scripts\\shortcut.vbs', source, opts.dirPath ?? '', opts.name ?? name, opts.args ?? '', opts.description ?? '', opts.cwd ?? '', opts.icon ?? source, String(opts.windowMode ?? 4), opts.hotkey ?? ''];
        ctx.check(JSON.stringify(ch.spawnargs) === JSON.stringify(want), 'wrong-settings', () => `expected ${JSON.stringify(want)}; ${info()}`);
        ctx.check((call.state === 'rejected') === !!script.spawnError, script.spawnError ? 'failure-hidden' : 'refused', info);
        ctx.probe('shortcut ' + call.state);
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'P04', packages: ['process', 'os'], runs: { quick: 36000, thorough: 300000 },
    scenarios: [{ name: 'open', weight: 3, run: open }, { name: 'shortcut', weight: 2, run: shortcut }],
    rule: 'Each run opens up to three lists of targets on a simulated Linux, macOS or Windows, or creates a Windows shortcut, with generated targets and settings, failing starts, missing files and non-zero exits.',
    real: ['packages/process open and spawn', 'packages/os windowsMakeShortcut'], stub: ['child_process', 'POSIX shell word splitting, cmd.exe and Windows argument parsing', 'file existence', 'timers'],
    assumptions: ['WSL, whose conversion of command lines cannot be reproduced here, is outside the property', 'the script host applies the settings it is given']
};
