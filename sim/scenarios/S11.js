'use strict';
const win = require('path').win32;
const { Procs } = require('../procsim');
const { cmdLine, winArgv, psScript, psString } = require('../shells');
const { brief } = require('../run');

const PARTS = ['a', 'Users', "Bob's", 'R&D', 'a b', 'a  b', '50%', '%TEMP%', '$x', '$(calc)', '`n', 'a;b', '(x86)', "''", 'it\u2019s', '\u2018q\u2019', '\u201cd\u201d', '\u201alow\u201a', 'x\u201by', '!x!', '^', 'ü', '\u{1f600}', "'+(calc)+'", "');calc;('", 'a,b', '#', '@{}', '-', '--%', '[x]', '{0}', "x'", '%', '~'];
function lnk(c) {
    const n = c.int(1, 3), parts = [];
    for (let i = 0; i < n; i++) parts.push(c.pick(PARTS));
    if (c.chance(15)) parts.splice(c.raw(parts.length), 0, c.pick(['..', '.', '']));
    const root = c.weighted([[6, 'C:\\'], [1, ''], [1, '\\\\server\\share\\'], [1, 'C:/'], [1, '.\\']]);
    return root + parts.join(c.weighted([[5, '\\'], [1, '/']])) + c.weighted([[8, '.lnk'], [1, '.LNK'], [1, '']]);
}
const TARGETS = ['C:\\Program Files\\x.exe', 'C:\\dir', "D:\\Bob's\\a&b.txt", 'C:\\ü\\\u4e2d\u6587.doc', '\\\\server\\share\\a', 'C:\\a  b', ''];
function pieces(c, text, fd) {
    const b = Buffer.from(text), out = [];
    for (let i = 0; i < b.length;) { const n = c.weighted([[2, b.length - i], [3, c.int(1, Math.min(9, b.length - i))]]); out.push({ fd, data: b.subarray(i, i + n), delay: c.pick([0, 0, 3]) }); i += n; }
    return out;
}
async function run(ctx) {
    const { c, sim } = ctx;
    const platform = c.weighted([[12, 'win32'], [1, 'linux'], [1, 'darwin']]);
    const environ = { PATH: 'C:\\Windows', ComSpec: 'C:\\Windows\\system32\\cmd.exe', TEMP: 'C:\\T' };
    const paths = [];
    for (let k = c.int(1, 4); k > 0; k--) { const p = lnk(c); if (!paths.some(q => win.normalize(q) === win.normalize(p))) paths.push(p); }
    // what each shortcut gives
    const plan = new Map();
    for (const p of paths) plan.set(win.normalize(p), { p, how: c.weighted([[6, 'ok'], [1, 'stderr'], [1, 'exit'], [1, 'spawn'], [1, 'signal']]), target: c.pick(TARGETS), ran: 0 });
    const procs = new Procs(sim, ch => {
        // the arguments powershell.exe gets
        let args, env = { ...environ, ...(ch.options.env || {}) };
        if (ch.spawnfile === '/bin/sh') {
            const { text, special } = cmdLine(`"${ch.spawnargs[2]}"`, environ, '&|<>');
            if (!ctx.check(!special, 'interpreted-by-the-shell', () => `the shell interprets ${special} in: ${ch.spawnargs[2]}`)) return { exit: { code: 1 } };
            args = winArgv(text);
        } else if (!ctx.check(!ch.options.shell, 'interpreted-by-the-shell', () => `arguments are joined and given to a shell: ${JSON.stringify(ch.spawnargs)}`)) return { exit: { code: 1 } };
        else args = [ch.spawnfile, ...ch.spawnargs.slice(1)];
        if (!ctx.check(/^(.*\\)?(powershell|pwsh)(\.exe)?$/i.test(args[0]), 'wrong-command', () => args.join(' '))) return { exit: { code: 1 } };
        const script = psScript(args.slice(1));
        const at = script === null ? -1 : script.search(/CreateShortcut\s*\(/i);
        const s = at < 0 ? null : psString(script.slice(at).replace(/^CreateShortcut\s*\(/i, ''), env);
        const info = () => `asked: ${script}; shortcuts ${JSON.stringify([...plan.keys()])}`;
        if (!ctx.check(s && /^\s*\)/.test(s.rest), 'not-one-literal', info)) return { exit: { code: 1 } };
        const e = plan.get(s.value);
        if (!ctx.check(!!e, 'wrong-path', () => `resolver was asked for ${JSON.stringify(s.value)}; ${info()}`)) return { exit: { code: 1 } };
        e.ran++;
        if (e.how === 'spawn') return { spawnError: c.pick(['ENOENT', 'EAGAIN', 'EACCES']) };
        if (e.how === 'stderr') { sim.fault('error-output'); return { out: [...pieces(c, c.bool() ? e.target + '\r\n' : '', 1), ...pieces(c, 'Exception calling "CreateShortcut"\r\n', 2)], exit: { code: c.pick([0, 0, 1]) } }; }
        if (e.how === 'exit') { sim.fault('command-fails'); return { out: pieces(c, c.bool() ? e.target : '', 1), exit: { code: 1 } }; }
        if (e.how === 'signal') { sim.fault('killed'); return { out: pieces(c, e.target.slice(0, 3), 1), exit: { signal: 'SIGKILL' } }; }
        return { out: pieces(c, e.target + '\r\n', 1), exit: { code: 0, delay: c.pick([0, 5]) } };
    });
    const lib = ctx.load('fs', ctx.env({ platform, env: environ, modules: { child_process: procs.module(), path: win, 'path/win32': win } }));
    const calls = [];
    for (const p of paths) for (let k = c.weighted([[4, 1], [1, 2]]); k > 0; k--) sim.at(c.int(0, 10), 'readLnk', () => calls.push({ e: plan.get(win.normalize(p)), call: ctx.call('readLnk', () => lib.readLnk(p)) }));
    await sim.drive();
    if (sim.violations.length) return;
    for (const { e, call } of calls) {
        const info = () => `${platform} ${JSON.stringify(e.p)} (${e.how}, target ${JSON.stringify(e.target)}) -> ${call.state} ${call.state === 'fulfilled' ? JSON.stringify(call.value) : brief(call.value)}`;
        if (!ctx.check(call.state !== 'pending', 'unsettled', info)) return;
        if (platform !== 'win32') { ctx.check(call.state === 'rejected' && !procs.spawned.length, 'wrong-platform', info); continue; }
        if (e.how === 'ok') ctx.check(call.state === 'fulfilled' && call.value === e.target, 'wrong-target', info);
        else ctx.check(call.state === 'rejected', 'failure-hidden', info);
        ctx.check(e.ran === calls.filter(x => x.e === e).length, 'not-run-once', () => `${info()}: resolver ran ${e.ran} times`);
        ctx.probe('lnk ' + e.how);
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'S11', packages: ['fs'], runs: { quick: 45000, thorough: 400000 },
    scenarios: [{ name: 'shortcut', run }],
    rule: 'Each run resolves up to four shortcuts at once whose paths contain spaces, quotes and characters that cmd.exe or PowerShell interpret, while the resolver prints in pieces, fails, is killed or cannot be started; every run is non-trivial.',
    real: ['packages/fs readLnk', 'path.win32'], stub: ['child_process (exec, execFile, spawn)', 'cmd.exe, the Windows argument rules and PowerShell string literals (independent readers)', 'powershell.exe output and failures'],
    assumptions: ['Windows file names contain neither double quotes nor control characters']
};
