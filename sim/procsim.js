'use strict';
// A simulated child_process module: children follow scripts, every event is scheduled by the simulator.
const { EventEmitter } = require('events');
const { Readable, Writable } = require('stream');
const util = require('util');
const os = require('os');
const { sysError } = require('./net');

class Pipe extends Readable {
    constructor() { super({ highWaterMark: 65536 }); }
    _read() {}
}
class SimChild extends EventEmitter {
    constructor(procs, file, args, options) {
        super();
        this.procs = procs; this.sim = procs.sim;
        this.spawnfile = file; this.spawnargs = [file, ...args];
        this.exitCode = null; this.signalCode = null; this.killed = false; this.connected = false;
        this._need = 1; this._got = 0; this._exited = false;
    }
    _open(stdio) {
        const kinds = [];
        const list = Array.isArray(stdio) ? stdio.slice() : [stdio, stdio, stdio];
        while (list.length < 3) list.push(undefined);
        for (let i = 0; i < list.length; i++) {
            let k = list[i];
            if (k === null || k === undefined) k = i < 3 ? 'pipe' : 'ignore';
            if (typeof k === 'string' && !['pipe', 'overlapped', 'ignore', 'inherit', 'ipc'].includes(k)) { const e = new TypeError(`The argument 'stdio' is invalid. Received '${k}'`); e.code = 'ERR_INVALID_ARG_VALUE'; throw e; }
            kinds.push(k);
        }
        return kinds;
    }
    _streams(kinds) {
        const piped = i => kinds[i] === 'pipe' || kinds[i] === 'overlapped';
        this.stdin = null; this.stdout = null; this.stderr = null;
        this.input = [];
        if (piped(0)) this.stdin = new Writable({ write: (d, e, cb) => { this.input.push(Buffer.from(d)); this.sim.at(this.procs.lat(), `child ${this.n} stdin`, () => cb()); } });
        for (const [i, name] of [[1, 'stdout'], [2, 'stderr']]) if (piped(i)) {
            const s = this[name] = new Pipe();
            this._need++;
            s.once('close', () => this._maybeClose());
        }
        this.stdio = [this.stdin, this.stdout, this.stderr];
    }
    _maybeClose() { if (++this._got === this._need) { this.sim.note(`child ${this.n} close`); this.emit('close', this.exitCode, this.signalCode); } }
    _onexit(code, signal, err) {
        if (this._exited) return;
        this._exited = true;
        if (signal) this.signalCode = signal; else this.exitCode = code;
        if (this.stdin) this.stdin.destroy();
        this.procs.alive.delete(this);
        if (err) { this.sim.note(`child ${this.n} error ${err.code}`); this.emit('error', err); } else { this.sim.note(`child ${this.n} exit ${code} ${signal}`); this.emit('exit', this.exitCode, this.signalCode); }
        // streams nobody reads must not keep the child from closing
        process.nextTick(() => { for (const s of [this.stdout, this.stderr]) if (s && s.readable && !s.readableFlowing && !s.listenerCount('data') && !s.listenerCount('readable')) s.resume(); });
        this._maybeClose();
    }
    kill(sig = 'SIGTERM') { if (this._exited) return false; this.killed = true; this.sim.note(`child ${this.n} kill ${sig}`); this.sim.at(this.procs.lat(), `child ${this.n} dies`, () => this._die(sig)); return true; }
    _die(sig) { if (this._exited) return; this._died = true; this._onexit(null, sig); for (const s of [this.stdout, this.stderr]) if (s && !s.destroyed) s.push(null); }
    ref() {} unref() {} disconnect() {}
}
class Procs {
    // behave(child) -> script: {spawnError} or {out: [{fd, data, delay}], exit: {code, signal, delay}, holdOpen, streamError: {fd, code, after}}
    constructor(sim, behave, o = {}) { this.sim = sim; this.c = sim.c; this.behave = behave; this.n = 0; this.pid = o.pid || 5000; this.latency = o.latency ?? 10; this.spawned = []; this.alive = new Set(); }
    lat() { return this.latency && this.c.chance(60) ? this.c.int(1, this.latency) : 0; }
    spawn(file, args, options) {
        if (!Array.isArray(args)) { options = args; args = []; }
        options = options || {};
        if (typeof file !== 'string') { const e = new TypeError('The "file" argument must be of type string.'); e.code = 'ERR_INVALID_ARG_TYPE'; throw e; }
        if (!file.length || [file, ...args].some(x => String(x).includes('\0'))) { const e = new TypeError(`The argument 'file' cannot be empty or contain null bytes.`); e.code = 'ERR_INVALID_ARG_VALUE'; throw e; }
        const child = new SimChild(this, file, args.map(String), options);
        child.n = ++this.n; child.options = options;
        const kinds = child._open(options.stdio === undefined || options.stdio === null ? 'pipe' : options.stdio);
        this.spawned.push(child);
        this.sim.note(`child ${child.n} spawn ${file} ${args.join(' ').slice(0, 80)}`);
        const script = child.script = this.behave(child) || {};
        const err = script.spawnError;
        if (err) this.sim.fault('spawn-' + err);
        if (err && !['ENOENT', 'EACCES', 'EAGAIN', 'EMFILE', 'ENFILE'].includes(err)) throw sysError(err, 'spawn');
        const many = err === 'EMFILE' || err === 'ENFILE';
        if (!many) child._streams(kinds);
        if (err) {
            const e = sysError(err, `spawn ${file}`); e.path = file; e.spawnargs = args;
            process.nextTick(() => child._onexit(e.errno, null, e));
            for (const s of [child.stdout, child.stderr]) if (s) this.sim.at(this.lat(), `child ${child.n} eof`, () => { if (!s.destroyed) s.push(null); });
            return child;
        }
        child.pid = ++this.pid;
        this.alive.add(child);
        process.nextTick(() => child.emit('spawn'));
        if (options.timeout > 0 && !options.isExec) { const t = this.sim.addTimer(() => { this.sim.fault('timeout'); child.kill(options.killSignal || 'SIGTERM'); }, options.timeout, [], false); child.once('exit', () => this.sim.clearTimer(t)); }
        const sig = options.signal;
        if (sig) {
            const abort = () => { if (child._exited) return; child.kill(options.killSignal); const e = new Error('The operation was aborted'); e.name = 'AbortError'; e.code = 'ABORT_ERR'; child.emit('error', e); };
            if (sig.aborted) process.nextTick(abort); else sig.addEventListener('abort', abort, { once: true });
        }
        this._play(child, script);
        return child;
    }
    _play(child, script) {
        const { sim } = this;
        // each stream delivers in order; the streams and the exit are independent of each other
        for (const fd of [1, 2]) {
            const stream = fd === 1 ? child.stdout : child.stderr;
            const out = (script.out || []).filter(x => x.fd === fd);
            const next = i => {
                if (!stream) return;
                const broken = script.streamError && script.streamError.fd === fd && script.streamError.after === i;
                const last = i >= out.length;
                if (last && !broken) {
                    // end of file: once the child and everybody who inherited the stream closed it
                    const eof = () => { if (child._exited || !child.pid || script.earlyEof) sim.at(script.holdOpen ? this.c.int(0, 200) : this.lat(), `child ${child.n} fd ${fd} eof`, () => { if (!stream.destroyed) stream.push(null); }); else child.once('exit', eof); };
                    eof();
                    return;
                }
                sim.at(broken ? this.lat() : (out[i].delay || 0) + this.lat(), `child ${child.n} fd ${fd} ${broken ? 'error' : out[i].data.length}`, () => {
                    if (stream.destroyed) return;
                    if (broken) { sim.fault('stream-error'); stream.destroy(sysError(script.streamError.code, 'read')); return; }
                    if (child._died) return;
                    child.delivered = child.delivered || { 1: [], 2: [] };
                    child.delivered[fd].push(out[i].data);
                    stream.push(out[i].data);
                    next(i + 1);
                });
            };
            next(0);
        }
        const e = script.exit || { code: 0 };
        const exit = () => sim.at((e.delay || 0) + this.lat(), `child ${child.n} exits`, () => child._onexit(e.code ?? null, e.signal || null));
        if (e.never) return;
        if (e.afterInput && child.stdin) child.stdin.once('finish', exit); else exit();
    }
    exec(command, options, cb) {
        if (typeof options === 'function') { cb = options; options = {}; }
        return this._collect(command, '/bin/sh', ['-c', command], options, cb);
    }
    execFile(file, args, options, cb) {
        if (!Array.isArray(args)) { cb = options; options = args; args = []; }
        if (typeof options === 'function') { cb = options; options = {}; }
        return this._collect([file, ...args].join(' '), file, args, options, cb);
    }
    _collect(command, file, args, options, cb) {
        options = { encoding: 'utf8', maxBuffer: 1024 * 1024, timeout: 0, killSignal: 'SIGTERM', ...options };
        let child;
        const chunks = { 1: [], 2: [] };
        let ended = false, error = null, over = null;
        const text = fd => { const b = Buffer.concat(chunks[fd]); return options.encoding && options.encoding !== 'buffer' ? b.toString(options.encoding) : b; };
        const finish = (code, signal) => {
            if (ended) return;
            ended = true;
            if (!cb) return;
            const stdout = text(1), stderr = text(2);
            if (!error && !over && code === 0 && signal === null) { cb(null, stdout, stderr); return; }
            const e = error || over || Object.assign(new Error('Command failed: ' + command + '\n' + stderr), { code: code < 0 ? util.getSystemErrorName(code) : code, killed: child.killed, signal });
            e.cmd = command; e.stdout = stdout; e.stderr = stderr;
            cb(e, stdout, stderr);
        };
        child = this.spawn(file, args, { ...options, stdio: undefined, isExec: true });
        child.command = command;
        for (const [fd, s] of [[1, child.stdout], [2, child.stderr]]) if (s) s.on('data', d => {
            chunks[fd].push(d);
            if (Buffer.concat(chunks[fd]).length > options.maxBuffer) { over = new RangeError('stdout maxBuffer length exceeded'); over.code = 'ERR_CHILD_PROCESS_STDIO_MAXBUFFER'; chunks[fd] = [Buffer.concat(chunks[fd]).subarray(0, options.maxBuffer)]; child.kill(); }
        }).on('error', () => {});
        child.on('close', finish);
        child.on('error', e => { error = e; finish(); });
        if (options.timeout > 0) this.sim.addTimer(() => child.kill(options.killSignal), options.timeout, [], false);
        return child;
    }
    spawnSync(file, args, options = {}) {
        const r = this.sync ? this.sync(file, args, options) : null;
        const enc = v => (options.encoding && options.encoding !== 'buffer' ? String(v) : Buffer.from(String(v)));
        if (!r || r.error) return { pid: 0, output: null, stdout: null, stderr: null, status: null, signal: null, error: sysError((r && r.error) || 'ENOENT', 'spawnSync ' + file) };
        return { pid: ++this.pid, status: r.status ?? 0, signal: null, stdout: enc(r.stdout || ''), stderr: enc(r.stderr || ''), output: [null, enc(r.stdout || ''), enc(r.stderr || '')] };
    }
    module() {
        const spawn = (...a) => this.spawn(...a), exec = (...a) => this.exec(...a);
        const execFile = (...a) => this.execFile(...a);
        for (const f of [exec, execFile]) Object.defineProperty(f, util.promisify.custom, { value: (...a) => {
            let child;
            const p = new Promise((res, rej) => { child = f(...a, (e, stdout, stderr) => { if (e) { e.stdout = stdout; e.stderr = stderr; rej(e); } else res({ stdout, stderr }); }); });
            p.child = child;
            return p;
        } });
        const spawnSync = (...a) => this.spawnSync(...a);
        const must = r => {
            if (r.error) throw r.error;
            if (r.status) throw Object.assign(new Error('Command failed'), { status: r.status, signal: r.signal, stdout: r.stdout, stderr: r.stderr });
            return r.stdout;
        };
        const execFileSync = (file, args, options) => must(Array.isArray(args) ? spawnSync(file, args, options) : spawnSync(file, [], args));
        return { spawn, exec, execFile, spawnSync, execFileSync, ChildProcess: SimChild };
    }
}
module.exports = { Procs, SimChild };
