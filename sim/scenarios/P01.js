'use strict';
const { Procs } = require('../procsim');
const { shWords, cmdLine, cmdPass, winArgv } = require('../shells');
const { brief } = require('../run');

const TEXT = ['ok', 'héllo', '日本語テキスト', '😀', ' padded ', '\n', '\r\nline\r\n', 'x'.repeat(300), '\u0000nul', 'é', '', '\t'];
function bytes(c) {
    // far more than a pipe holds, with characters cut by every boundary
    if (c.chance(3, 1000)) return Buffer.from(c.pick(['日本x\n', '0123456789', '😀é']).repeat(c.int(8000, 100000)));
    const parts = Array.from({ length: c.weighted([[2, 0], [4, 1], [3, c.int(2, 4)], [1, 12]]) }, () => (c.chance(8) ? Buffer.from([c.raw(256), 0xff, c.raw(256)]) : Buffer.from(c.pick(TEXT))));
    return Buffer.concat(parts);
}
// cut at random byte positions, also inside a character
function chunks(c, buf, fd) {
    const out = [];
    let i = 0;
    while (i < buf.length) { const n = buf.length > 5000 ? Math.min(buf.length - i, c.pick([65536, 65535, 8192, 200000])) : c.weighted([[3, buf.length - i], [3, c.int(1, Math.min(5, buf.length - i))], [2, c.int(1, buf.length - i)]]); out.push({ fd, data: buf.subarray(i, i + n), delay: c.pick([0, 0, 1, 20]) }); i += n; }
    return out;
}
function genScript(c, o = {}) {
    const s = { out: [...chunks(c, bytes(c), 1), ...chunks(c, bytes(c), 2)] };
    const how = c.weighted([[8, 'code'], [2, 'signal'], [2, 'spawn'], [2, 'stream'], [1, o.never ? 'never' : 'code']]);
    s.exit = how === 'signal' ? { signal: c.pick(['SIGKILL', 'SIGSEGV', 'SIGTERM']) } : { code: c.pick([0, 0, 1, 2, 127, 255]) };
    s.exit.delay = c.pick([0, 0, 5, 30, 200]);
    if (how === 'spawn') s.spawnError = c.pick(['ENOENT', 'EACCES', 'EAGAIN', 'EMFILE', 'ENFILE', 'E2BIG', 'ENOMEM']);
    if (how === 'stream') s.streamError = { fd: c.pick([1, 2]), code: c.pick(['EIO', 'ECONNRESET']), after: c.int(0, 2) };
    if (how === 'never') s.exit.never = true;
    if (c.chance(15)) s.holdOpen = true;
    if (c.chance(10)) s.earlyEof = true;
    return s;
}
const KIND = { 0: ['pipe', 'ignore', 'inherit'], 1: ['pipe', 'pipe', 'ignore', 'inherit', 'overlapped', undefined, null, 3], 2: ['pipe', 'ignore', 'inherit', 'overlapped', 1] };
const piped = k => k === undefined || k === null || k === 'pipe' || k === 'overlapped';
const same = (a, b) => (Buffer.isBuffer(b) ? Buffer.isBuffer(a) && a.equals(b) : a === b);
const show = v => (Buffer.isBuffer(v) ? 'buffer ' + v.toString('latin1') : JSON.stringify(v));

async function run(ctx) {
    const { c, sim } = ctx;
    const jobs = [];
    const procs = new Procs(sim, child => { const j = jobs.find(x => x.file === child.spawnfile); if (!j) { ctx.fail('wrong-command', child.spawnfile); return { exit: { code: 0 } }; } j.child = child; return j.script; });
    const env = ctx.env({ modules: { child_process: procs.module() } });
    const { spawn } = ctx.load('process', env);
    for (let i = 0, n = c.weighted([[4, 1], [3, 2], [1, 4]]); i < n; i++) {
        const j = { file: 'prog' + i, args: Array.from({ length: c.raw(3) }, () => c.pick(['-v', 'a b', '', "it's", '$HOME'])), script: genScript(c, { never: true }) };
        j.opts = {};
        const shape = c.weighted([[4, 'none'], [2, 'string'], [4, 'array']]);
        if (shape === 'string') j.opts.stdio = c.pick(['pipe', 'ignore', 'inherit', 'overlapped']);
        if (shape === 'array') j.opts.stdio = [c.pick(KIND[0]), c.pick(KIND[1]), c.pick(KIND[2])].slice(0, c.int(1, 3));
        if (c.chance(2)) { j.opts.stdio = 'bogus'; j.bad = true; }
        const kind = fd => (Array.isArray(j.opts.stdio) ? j.opts.stdio[fd] : j.opts.stdio);
        j.p = [null, piped(kind(1)), piped(kind(2))];
        j.inPiped = piped(kind(0));
        if (c.chance(40)) j.opts.isToString = c.bool();
        j.text = j.opts.isToString !== false;
        if (c.chance(2)) { j.args.push('nul\0byte'); j.bad = true; }
        if (c.chance(15) || j.script.exit.never) j.opts.timeout = c.int(20, 300);
        if (c.chance(12)) { j.abort = new AbortController(); j.opts.signal = j.abort.signal; sim.at(c.int(0, 100), 'abort', () => { if (!j.call || (j.call.state === 'pending' && j.child && !j.child._exited)) { sim.fault('abort'); j.aborted = true; } j.abort.abort(); }); }
        if (j.inPiped && c.chance(15)) { j.write = [Buffer.from(c.pick(TEXT)), Buffer.from(c.pick(TEXT))]; j.script.exit.afterInput = true; }
        j.before = JSON.stringify([j.args, Object.keys(j.opts), j.opts.stdio]);
        const argc = c.raw(3);
        sim.at(c.int(0, 30), 'start', () => {
            let p;
            j.call = ctx.call('spawn ' + j.file, () => (p = argc === 0 && !j.args.length && !Object.keys(j.opts).length ? spawn(j.file) : spawn(j.file, j.args, j.opts)));
            if (!p || typeof p.then !== 'function') return;
            p.then(() => { j.snap = taken(j); }, () => { j.snap = taken(j); });
            sim.at(2, 'handles', () => {
                if (j.child && !j.bad && !(j.script.spawnError && !['ENOENT', 'EACCES', 'EAGAIN', 'EMFILE', 'ENFILE'].includes(j.script.spawnError))) ctx.check(p.process === j.child && (p.stdin ?? null) === (j.child.stdin ?? null), 'wrong-handle', () => `${j.file}: process and stdin of the promise are not those of the child`);
                if (j.write) { if (p.stdin && !p.stdin.destroyed) { p.stdin.on('error', () => {}); for (const w of j.write) p.stdin.write(w); p.stdin.end(); j.wrote = true; } }
                else if (j.killLater) sim.at(c.int(0, 50), 'kill', () => { p.process.kill('SIGKILL'); });
            });
        });
        if (!j.bad && !j.script.spawnError && c.chance(8)) j.killLater = true;
        jobs.push(j);
    }
    const taken = j => [1, 2].map(fd => Buffer.concat((j.child && j.child.delivered && j.child.delivered[fd]) || []));
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const r = j.call, v = r.value, s = j.script, ch = j.child;
        const info = () => `${j.file} ${JSON.stringify(j.args)} stdio ${JSON.stringify(j.opts.stdio)} script ${JSON.stringify({ spawnError: s.spawnError, streamError: s.streamError, exit: s.exit, out: s.out.length })} -> ${r.state} ${v && typeof v === 'object' ? `{cmd ${show(v.cmd)} args ${JSON.stringify(v.args)} status ${v.status} signal ${v.signal} stdout ${show(v.stdout)} stderr ${show(v.stderr)} error ${v.error && brief(v.error)}}` : String(v)}`;
        if (!ctx.check(r.state !== 'pending', 'unsettled', info)) return;
        ctx.check(!r.sync, 'thrown-synchronously', info);
        ctx.check(JSON.stringify([j.args, Object.keys(j.opts), j.opts.stdio]) === j.before, 'argument-modified', info);
        if (!ctx.check(v && typeof v === 'object' && v.cmd === j.file && JSON.stringify(v.args) === JSON.stringify(j.args), 'wrong-command-reported', info)) return;
        const brokenPipe = s.streamError && j.p[s.streamError.fd] && ch && ch.stdio && ch.stdio[s.streamError.fd].errored;
        const mayFail = j.bad || s.spawnError || brokenPipe || j.aborted;
        const snap = j.snap || [Buffer.alloc(0), Buffer.alloc(0)];
        for (const fd of [1, 2]) {
            const want = !j.p[fd] ? null : j.text ? snap[fd - 1].toString().trim() : snap[fd - 1];
            if (j.bad && j.opts.stdio === 'bogus') continue;
            ctx.check(same(v[fd === 1 ? 'stdout' : 'stderr'], want), 'wrong-output', () => `fd ${fd}: the child wrote ${show(want)}; ${info()}`);
        }
        if (r.state === 'fulfilled') {
            ctx.check(!j.bad && !s.spawnError && !brokenPipe, 'failure-hidden', info);
            ctx.check(v.status === ch.exitCode && v.signal === ch.signalCode && (ch.exitCode !== null || ch.signalCode !== null), 'wrong-status', () => `the child ended with ${ch.exitCode} ${ch.signalCode}; ${info()}`);
            const end = taken(j);
            ctx.check(end[0].equals(snap[0]) && end[1].equals(snap[1]), 'settled-before-output-ended', info);
            if (j.wrote && !ch.signalCode) ctx.check(Buffer.concat(ch.input).equals(Buffer.concat(j.write)), 'wrong-input', () => `the child read ${show(Buffer.concat(ch.input))}; ${info()}`);
        } else {
            ctx.check(mayFail, 'refused', info);
            ctx.check(v.error instanceof Error || (v.error && v.error.code), 'no-error', info);
            if (s.spawnError) ctx.check(v.error.code === s.spawnError || j.bad, 'wrong-error', info);
            if (v.status !== undefined) ctx.fail('status-of-failed-start', info());
        }
        ctx.probe(r.state + (s.spawnError ? ' spawn error' : brokenPipe ? ' stream error' : j.aborted ? ' aborted' : ch && ch.signalCode ? ' signal' : ''));
    }
    ctx.nontrivial();
}

const ARGS = ['', ' ', 'a', 'a b', "it's", '"', '""', "''", "'", "a'b'c", '$HOME', '`id`', '*', '?', 'x*', '~', '~root', '#c', 'a#b', '[ab]', '{a,b}', '{1..3}', '!', '!!', '&', '&&', '|', ';', '(', ')', '<', '>', '\\', 'a\\', 'a b\\', '\\"', 'a\\"b', '\\\\"', '%PATH%', '%', '^', '^^', 'a^b', '--k=v', '=', 'tab\there', 'é 日', '-n', '@', '+', ',', '/a/b.c'];
const NL = ['\n', 'a\nb', '\r\n', 'x\ty\n'];
async function shell(ctx) {
    const { c, sim } = ctx;
    const win = c.chance(45);
    const comspec = c.pick(['C:\\Windows\\system32\\cmd.exe', 'cmd', 'CMD.EXE', 'cmd.exe']);
    let child = null;
    const script = genScript(c);
    const procs = new Procs(sim, ch => { child = ch; return script; });
    const mod = procs.module();
    const batch = win && c.chance(30);
    const prog = win ? c.pick(['prog', 'prog.exe', 'start ""', '"C:\\Program Files\\prog.exe"', 'prog -x "a b"']) : c.pick(['prog', 'prog -x', "'my prog'", 'FOO=1 prog', 'prog -x "a b"']);
    let where = 0;
    // a look-up answers for the program's own name only (quoted or not)
    const word = /^"[^"]*"|^[^ ]+/.exec(prog)[0], trouble = c.pick(['', '', '', '', 'ENOENT', 'EMFILE', 'missing']);
    const own = c.pick([undefined, undefined, {}, { FOO: 'expanded' }, { PATH: 'D:\\own' }, { PATHEXT: '.BAT;.CMD;.X' }, { PATH: 'D:\\own', PATHEXT: '.CMD' }]);
    procs.sync = (file, args, o) => {
        where++;
        if (trouble.startsWith('E')) return { error: trouble };
        if (file !== (win ? 'where' : 'which')) return { status: 1, stderr: 'is not recognized as an internal or external command' };
        // it looks where the command to run will look
        const e = (o && o.env) || environ;
        for (const key of ['PATH', 'PATHEXT']) if (e[key] !== ((own && own[key]) || environ[key])) return { status: 1, stderr: 'INFO: Could not find files' };
        if (trouble || args.length !== 1 || args[0].replace(/"/g, '') !== word.replace(/"/g, '')) return { status: 1, stderr: 'INFO: Could not find files' };
        return { status: 0, stdout: 'C:\\bin\\' + args[0].replace(/["']/g, '') + (batch ? c.pick(['.cmd', '.BAT', '.bat']) : '.exe') + '\r\n' };
    };
    const known = { v: batch && !trouble };
    const environ = { ComSpec: comspec, PATH: 'C:\\bin', PATHEXT: '.EXE;.CMD', FOO: 'expanded' };
    const env = ctx.env({ platform: win ? 'win32' : 'linux', env: environ, modules: { child_process: mod } });
    const { spawn } = ctx.load('process', env);
    const given = c.bool();
    const shellOpt = win ? (c.bool() ? true : comspec) : given ? true : c.pick(['sh', '/bin/bash', 'zsh']);
    const args = Array.from({ length: c.weighted([[1, 0], [3, 1], [4, c.int(2, 4)]]) }, () => {
        let a = c.weighted([[5, c.pick(ARGS)], [3, c.pick(ARGS) + c.pick(ARGS)], [1, Array.from({ length: c.int(3, 6) }, () => c.pick(ARGS)).join('')]]);
        if (!win && c.chance(10)) a += c.pick(NL);
        if (win && batch) a = a.replace(/%/g, '');
        return a;
    });
    const copy = args.slice(), opts = { shell: shellOpt, cwd: '/w', ...(own && { env: own }) }, optsBefore = JSON.stringify(opts);
    let call = null;
    sim.at(0, 'start', () => { call = ctx.call('spawn', () => spawn(prog, args, opts)); });
    await sim.drive();
    if (sim.violations.length) return;
    const info = () => `${prog} ${JSON.stringify(copy)} shell ${shellOpt}${batch ? ' batch' : ''} ran ${child && JSON.stringify([child.spawnfile, child.spawnargs.slice(1)])} -> ${call.state}`;
    if (!ctx.check(call.state !== 'pending', 'unsettled', info)) return;
    ctx.check(JSON.stringify(args) === JSON.stringify(copy) && JSON.stringify(opts) === optsBefore, 'argument-modified', info);
    if (!ctx.check(child && procs.spawned.length === 1, 'not-run-once', info)) return;
    const got = child.spawnargs.slice(1);
    ctx.check(JSON.stringify(call.value.args) === JSON.stringify(got) && call.value.cmd === child.spawnfile, 'wrong-command-reported', info);
    ctx.check(!child.options.shell, 'shell-twice', info);
    ctx.check(child.options.cwd === '/w' && JSON.stringify(child.options.env) === JSON.stringify(own), 'options-lost', info);
    if (!win) {
        ctx.check(child.spawnfile === (shellOpt === true ? 'sh' : shellOpt), 'wrong-shell', info);
        if (!ctx.check(got.length === 2 && got[0] === '-c' && got[1].startsWith(prog) && (args.length ? got[1][prog.length] === ' ' : got[1] === prog), 'wrong-script', info)) return;
        const w = shWords(got[1].slice(prog.length));
        ctx.check(w.special === null, 'interpreted-by-shell', () => `${w.special}: ${info()}`);
        ctx.check(JSON.stringify(w.words) === JSON.stringify(copy), 'wrong-words', () => `the shell passes ${JSON.stringify(w.words)}; ${info()}`);
    } else {
        ctx.check(child.spawnfile === comspec, 'wrong-shell', info);
        ctx.check(child.options.windowsVerbatimArguments === true, 'not-verbatim', info);
        if (!ctx.check(got.slice(0, 3).join(' ') === '/d /s /c', 'wrong-script', info)) return;
        let r = cmdLine(got.slice(3).join(' '), environ);
        ctx.check(r.special === null, 'interpreted-by-shell', () => `${r.special}: ${info()}`);
        if (!ctx.check(r.text.startsWith(prog), 'wrong-command-line', () => `cmd runs ${r.text}; ${info()}`)) return;
        let rest = r.text.slice(prog.length);
        if (known.v) { r = cmdPass(rest); ctx.check(r.special === null, 'interpreted-by-batch', () => `${r.special}: ${info()}`); rest = r.text; }
        const w = winArgv(rest);
        ctx.check(JSON.stringify(w) === JSON.stringify(copy), 'wrong-words', () => `the program gets ${JSON.stringify(w)}; ${info()}`);
    }
    ctx.probe((win ? 'cmd' : 'sh') + (known.v ? ' batch' : ''));
    ctx.nontrivial();
}

async function execs(ctx) {
    const { c, sim } = ctx;
    const jobs = [];
    const procs = new Procs(sim, child => { const j = jobs.find(x => x.line === child.spawnargs[2]); if (!j) { ctx.fail('wrong-command', child.spawnargs[2]); return { exit: { code: 0 } }; } j.child = child; return j.script; });
    const { exec } = ctx.load('process', ctx.env({ modules: { child_process: procs.module() } }));
    for (let i = 0, n = c.int(1, 3); i < n; i++) {
        const script = genScript(c);
        delete script.streamError;
        const j = { script, arg: c.bool() ? `cmd${i} -v` : ['cmd' + i, '-v', c.pick(['a', '"b c"'])] };
        j.line = Array.isArray(j.arg) ? j.arg.join(' ') : j.arg;
        j.opts = c.weighted([[3, undefined], [2, { encoding: 'buffer' }], [1, { encoding: 'utf8' }], [1, { encoding: 'latin1' }], [1, { timeout: 30 }]]);
        sim.at(c.int(0, 20), 'start', () => { j.call = ctx.call('exec', () => (j.opts ? exec(j.arg, j.opts) : exec(j.arg))); });
        jobs.push(j);
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const j of jobs) {
        const { call, script: s, child } = j, v = call.value;
        const info = () => `${j.line} ${JSON.stringify(j.opts)} exit ${JSON.stringify(s.exit)} ${s.spawnError || ''} -> ${call.state} ${v && show(v.stdout)} ${v && show(v.stderr)} ${v && v.code}`;
        if (!ctx.check(call.state !== 'pending', 'unsettled', info)) return;
        const buf = fd => Buffer.concat((child && child.delivered && child.delivered[fd]) || []);
        const enc = (j.opts && j.opts.encoding) || 'utf8';
        const want = fd => (enc === 'buffer' ? buf(fd) : buf(fd).toString(enc));
        const good = child && !s.spawnError && child.exitCode === 0;
        ctx.check((call.state === 'fulfilled') === !!good, good ? 'refused' : 'failure-hidden', info);
        if (call.state === 'fulfilled') ctx.check(same(v.stdout, want(1)) && same(v.stderr, want(2)), 'wrong-output', () => `the command wrote ${show(want(1))} ${show(want(2))}; ${info()}`);
        else if (v && !s.spawnError) ctx.check(v.code === child.exitCode && v.signal === child.signalCode, 'wrong-status', info);
        ctx.probe('exec ' + call.state);
    }
    ctx.nontrivial();
}
module.exports = {
    property: 'P01', packages: ['process'], runs: { quick: 120000, thorough: 1000000 },
    scenarios: [{ name: 'spawn', weight: 5, run }, { name: 'shell', weight: 4, run: shell }, { name: 'exec', weight: 1, run: execs }],
    rule: 'Each run starts up to four simulated children with generated stdio settings, output cut at arbitrary bytes, exit codes and signals, spawn failures, stream errors, timeouts, aborts, kills and descendants that keep the streams open; or passes generated arguments through a simulated POSIX shell or cmd.exe.',
    real: ['packages/process', 'Node streams'], stub: ['child_process (simulated children)', 'POSIX shell word splitting', 'cmd.exe and Windows argument parsing', 'timers'],
    assumptions: ['the operating system reports each child the way Node documents', 'percent signs in arguments of batch files and line breaks in arguments for cmd.exe are outside the property']
};
