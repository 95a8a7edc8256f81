'use strict';
// In-memory POSIX file system (Kernel) and a Node `fs` binding over it (makeFs).
// Every system call is one simulator step: it has a latency, may fail, and other actors may run in between.
const realFs = require('fs');
const os = require('os');
const pathMod = require('path').posix;
const util = require('util');
const { StringDecoder } = require('string_decoder');
const C = realFs.constants;
const ERR = os.constants.errno;
const MSG = new Map([...util.getSystemErrorMap()].map(([, [code, msg]]) => [code, msg]));

function errno(code, syscall, path, dest) {
    let m = `${code}: ${MSG.get(code) || 'error'}, ${syscall}`;
    if (path !== undefined) m += ` '${path}'`;
    if (dest !== undefined) m += ` -> '${dest}'`;
    const e = new Error(m);
    e.errno = -(ERR[code] || 1); e.code = code; e.syscall = syscall;
    if (path !== undefined) e.path = path;
    if (dest !== undefined) e.dest = dest;
    return e;
}
class Fail extends Error { constructor(code) { super(code); this.code = code; } }
const T = { file: C.S_IFREG, dir: C.S_IFDIR, symlink: C.S_IFLNK, fifo: C.S_IFIFO };

class Kernel {
    constructor(sim, opts = {}) {
        this.sim = sim;
        this.uid = opts.uid ?? 1000;
        this.umask = opts.umask ?? 0o022;
        this.cwd = opts.cwd || '/work';
        this.capacity = opts.capacity ?? Infinity;
        this.used = 0;
        this.inoSeq = 1;
        this.actor = 'ext';
        this.listeners = [];
        this.root = this.inode('dir', 0o777);
        this.root.parent = this.root; this.root.name = '';
        this.mutations = 0;
        this.as(0, () => this.mkdirp(this.cwd, 0o777));
    }
    as(uid, fn) { const u = this.uid; this.uid = uid; try { return fn(); } finally { this.uid = u; } }
    inode(type, mode) {
        const n = { ino: this.inoSeq++, type, mode: mode & 0o7777, uid: this.uid, gid: this.uid, nlink: type === 'dir' ? 2 : 0, mtime: this.sim.now, ctime: this.sim.now, atime: this.sim.now, birth: this.sim.now, synced: null, dirty: false };
        if (type === 'file') n.data = Buffer.alloc(0);
        if (type === 'dir') n.entries = new Map();
        return n;
    }
    emit(op, path, inode) {
        this.mutations++;
        const ch = { op, path, inode, actor: this.actor };
        for (const l of this.listeners) l(ch);
    }
    may(n, bit) { // 4 r, 2 w, 1 x
        if (this.uid === 0) return bit !== 1 || n.type === 'dir' || (n.mode & 0o111) !== 0;
        const m = n.uid === this.uid ? n.mode >> 6 : n.gid === this.uid ? n.mode >> 3 : n.mode;
        return (m & bit) === bit;
    }
    need(n, bit) { if (!this.may(n, bit)) throw new Fail('EACCES'); }
    canon(dir, name) {
        const parts = name === undefined ? [] : [name];
        for (let d = dir; d !== this.root; d = d.parent) parts.unshift(d.name);
        return '/' + parts.join('/');
    }
    // one component below a directory; `left` counts the links followed so far
    step(node, part, left) {
        if (part === '.') return node;
        if (part === '..') return node.parent;
        const child = node.entries.get(part);
        if (!child) throw new Fail('ENOENT');
        if (child.type !== 'symlink') return child;
        if (++left.n > 40) throw new Fail('ELOOP');
        const w = this.walk(child.target, true, left, node);
        if (!w.node) throw new Fail('ENOENT');
        return w.node;
    }
    // everything but the last component -> {parent, name, kind: norm|dot|dotdot|root, slash}
    parentat(p, left = { n: 0 }, base) {
        if (p === '') throw new Fail('ENOENT');
        if (p.length > 4095) throw new Fail('ENAMETOOLONG');
        let node = p[0] === '/' ? this.root : base || this.walk(this.cwd).node;
        const parts = p.split('/').filter(x => x !== '');
        if (!parts.length) return { parent: node, name: '', kind: 'root', slash: true };
        const name = parts.pop();
        const enter = () => { if (node.type !== 'dir') throw new Fail('ENOTDIR'); this.need(node, 1); };
        for (const part of parts) {
            enter();
            if (part.length > 255) throw new Fail('ENAMETOOLONG');
            node = this.step(node, part, left);
        }
        enter();
        if (name.length > 255) throw new Fail('ENAMETOOLONG');
        return { parent: node, name, kind: name === '.' ? 'dot' : name === '..' ? 'dotdot' : 'norm', slash: p.endsWith('/') };
    }
    // -> {parent, name, node|null, trailing}
    walk(p, follow = true, left = { n: 0 }, base) {
        const l = this.parentat(p, left, base);
        if (l.kind !== 'norm') {
            const node = l.kind === 'dotdot' ? l.parent.parent : l.parent;
            return { parent: node.parent, name: node.name, node, trailing: true, dots: true };
        }
        const { parent, name, slash } = l;
        let node = parent.entries.get(name) || null;
        if (node && node.type === 'symlink' && (follow || slash)) {
            if (++left.n > 40) throw new Fail('ELOOP');
            const w = this.walk(node.target, true, left, parent);
            if (slash && w.node && w.node.type !== 'dir') throw new Fail('ENOTDIR');
            return { ...w, trailing: w.trailing || slash };
        }
        if (node && slash && node.type !== 'dir') throw new Fail('ENOTDIR');
        return { parent, name, node, trailing: slash };
    }
    // the place of a name that is to be created
    create_(p, dir) {
        const l = this.parentat(p);
        if (l.kind !== 'norm' || l.parent.entries.has(l.name)) throw new Fail('EEXIST');
        if (l.slash && !dir) throw new Fail('ENOENT');
        this.need(l.parent, 3);
        return l;
    }
    get(p, follow = true) { const w = this.walk(p, follow); if (!w.node) throw new Fail('ENOENT'); return w; }
    link_(parent, name, node) {
        if (node.type === 'dir') { node.parent = parent; node.name = name; parent.nlink++; } else node.nlink++;
        parent.entries.set(name, node);
        parent.mtime = this.sim.now;
    }
    // --- system calls (throw Fail) ---
    open(p, flags, mode) {
        const acc = flags & 3;
        if (flags & C.O_CREAT) { const l = this.parentat(p); if (l.kind === 'norm' && l.slash) throw new Fail('EISDIR'); }
        let w = this.walk(p, !(flags & C.O_NOFOLLOW) && !((flags & C.O_CREAT) && (flags & C.O_EXCL)));
        let n = w.node;
        if (!n) {
            if (!(flags & C.O_CREAT)) throw new Fail('ENOENT');
            if (w.trailing) throw new Fail('EISDIR');
            this.need(w.parent, 3);
            n = this.inode('file', mode & ~this.umask);
            this.link_(w.parent, w.name, n);
            this.emit('create', this.canon(w.parent, w.name), n);
        } else {
            if ((flags & C.O_CREAT) && (flags & C.O_EXCL)) throw new Fail('EEXIST');
            if (n.type === 'symlink') throw new Fail('ELOOP');
            if (n.type === 'dir' && (acc !== C.O_RDONLY || (flags & C.O_CREAT))) throw new Fail('EISDIR');
            if ((flags & C.O_DIRECTORY) && n.type !== 'dir') throw new Fail('ENOTDIR');
            if (acc === C.O_RDONLY || acc === C.O_RDWR) this.need(n, 4);
            if (acc !== C.O_RDONLY) this.need(n, 2);
            if ((flags & C.O_TRUNC) && n.type === 'file' && n.data.length) this.setData(n, Buffer.alloc(0), 'truncate', this.pathOf(w));
        }
        return { inode: n, flags, pos: 0, path: this.pathOf(w) };
    }
    pathOf(w) { return w.node && w.node.type === 'dir' ? this.canon(w.node) : this.canon(w.parent, w.name); }
    setData(n, buf, op, path) {
        this.used += buf.length - n.data.length;
        if (!n.dirty) { n.dirty = true; n.synced = n.data; }
        n.data = buf;
        n.mtime = n.ctime = this.sim.now;
        this.emit(op, path, n);
    }
    pread(of, pos, len) {
        if (of.inode.type === 'dir') throw new Fail('EISDIR');
        if ((of.flags & 3) === C.O_WRONLY) throw new Fail('EBADF');
        if (of.inode.type !== 'file') return Buffer.alloc(0);
        return of.inode.data.subarray(pos, pos + len);
    }
    pwrite(of, pos, buf) {
        if ((of.flags & 3) === C.O_RDONLY) throw new Fail('EBADF');
        const n = of.inode;
        if (of.flags & C.O_APPEND) pos = n.data.length;
        const room = this.capacity - this.used + Math.max(0, n.data.length - pos);
        if (buf.length && room <= 0) throw new Fail('ENOSPC');
        if (buf.length > room) { buf = buf.subarray(0, room); this.sim.fault('disk-full-short-write'); }
        const end = pos + buf.length;
        const out = Buffer.alloc(Math.max(end, n.data.length));
        n.data.copy(out);
        Buffer.from(buf.buffer, buf.byteOffset, buf.byteLength).copy(out, pos);
        this.setData(n, out, 'write', of.path);
        return { n: buf.length, pos: end };
    }
    ftruncate(of, len) {
        if ((of.flags & 3) === C.O_RDONLY) throw new Fail('EINVAL');
        const out = Buffer.alloc(len);
        of.inode.data.copy(out, 0, 0, Math.min(len, of.inode.data.length));
        this.setData(of.inode, out, 'truncate', of.path);
    }
    mkdir(p, mode) {
        const w = this.create_(p, true);
        const n = this.inode('dir', mode & ~this.umask);
        this.link_(w.parent, w.name, n);
        this.emit('mkdir', this.canon(w.parent, w.name), n);
    }
    rmdir(p) {
        const l = this.parentat(p);
        if (l.kind !== 'norm') throw new Fail({ dot: 'EINVAL', dotdot: 'ENOTEMPTY', root: 'EBUSY' }[l.kind]);
        const node = l.parent.entries.get(l.name);
        if (!node) throw new Fail('ENOENT');
        this.need(l.parent, 3);
        if (node.type !== 'dir') throw new Fail('ENOTDIR');
        if (node.entries.size) throw new Fail('ENOTEMPTY');
        l.parent.entries.delete(l.name); l.parent.nlink--; node.nlink = 0;
        this.emit('rmdir', this.canon(l.parent, l.name), node);
    }
    unlink(p) {
        const l = this.parentat(p);
        if (l.kind !== 'norm') throw new Fail('EISDIR');
        const node = l.parent.entries.get(l.name);
        if (!node) throw new Fail('ENOENT');
        if (l.slash) throw new Fail(node.type === 'dir' ? 'EISDIR' : 'ENOTDIR');
        this.need(l.parent, 3);
        if (node.type === 'dir') throw new Fail('EISDIR');
        l.parent.entries.delete(l.name); node.nlink--;
        if (!node.nlink && node.data) this.used -= node.data.length;
        this.emit('unlink', this.canon(l.parent, l.name), node);
    }
    symlink(target, p) {
        if (target === '') throw new Fail('ENOENT');
        const w = this.create_(p);
        const n = this.inode('symlink', 0o777);
        n.target = target;
        this.link_(w.parent, w.name, n);
        this.emit('symlink', this.canon(w.parent, w.name), n);
    }
    link(from, p) {
        const a = this.get(from, false);
        const w = this.create_(p);
        if (a.node.type === 'dir') throw new Fail('EPERM');
        this.link_(w.parent, w.name, a.node);
        this.emit('link', this.canon(w.parent, w.name), a.node);
    }
    rename(from, to) {
        const a = this.parentat(from), b = this.parentat(to);
        if (a.kind !== 'norm' || b.kind !== 'norm') throw new Fail('EBUSY');
        const x = a.parent.entries.get(a.name), y = b.parent.entries.get(b.name) || null;
        if (!x) throw new Fail('ENOENT');
        if (x.type !== 'dir' && (a.slash || b.slash)) throw new Fail('ENOTDIR');
        const above = (n, d) => { for (; ; d = d.parent) { if (d === n) return true; if (d === this.root) return false; } };
        if (x.type === 'dir' && above(x, b.parent)) throw new Fail('EINVAL');
        if (y && y.type === 'dir' && above(y, a.parent)) throw new Fail('ENOTEMPTY');
        if (x === y) return;
        this.need(a.parent, 3); this.need(b.parent, 3);
        if (y) {
            if (x.type === 'dir' && y.type !== 'dir') throw new Fail('ENOTDIR');
            if (x.type !== 'dir' && y.type === 'dir') throw new Fail('EISDIR');
        }
        if (x.type === 'dir' && a.parent !== b.parent) this.need(x, 2);
        if (y) {
            if (y.type === 'dir' && y.entries.size) throw new Fail('ENOTEMPTY');
            if (y.type === 'dir') b.parent.nlink--; else y.nlink--;
            if (y.type === 'file' && !y.nlink) this.used -= y.data.length;
            b.parent.entries.delete(b.name);
            this.emit('unlink', this.canon(b.parent, b.name), y);
        }
        const old = this.canon(a.parent, a.name);
        a.parent.entries.delete(a.name);
        if (x.type === 'dir') a.parent.nlink--; else x.nlink--;
        this.link_(b.parent, b.name, x);
        this.emit('unlink', old, x);
        this.emit('create', this.canon(b.parent, b.name), x);
    }
    readlink(p) { const w = this.get(p, false); if (w.node.type !== 'symlink') throw new Fail('EINVAL'); return w.node.target; }
    list(p) { const w = this.get(p, true); if (w.node.type !== 'dir') throw new Fail('ENOTDIR'); this.need(w.node, 4); return [...w.node.entries]; }
    access(p, mode) { const n = this.get(p, true).node; for (const b of [4, 2, 1]) if (mode & b) this.need(n, b); }
    realpath(p) { const w = this.get(p.replace(/\/\.(?=\/|$)/g, '') || p, true); if (/\/\.?$/.test(p) && w.node.type !== 'dir') throw new Fail('ENOTDIR'); return this.pathOf(w); }
    setattr(w, what, fn) { if (this.uid !== 0 && w.node.uid !== this.uid) throw new Fail('EPERM'); fn(w.node); w.node.ctime = this.sim.now; this.emit(what, this.pathOf(w), w.node); }
    // --- helpers for scenarios (no permission checks when run through as(0, …)) ---
    mkdirp(p, mode = 0o755) {
        const parts = pathMod.resolve(this.cwd, p).split('/').filter(Boolean);
        let cur = '';
        for (const x of parts) { cur += '/' + x; const w = this.walk(cur); if (!w.node) this.as(0, () => { const u = this.umask; this.umask = 0; this.mkdir(cur, mode); this.umask = u; this.get(cur).node.uid = 1000; this.get(cur).node.gid = 1000; }); }
        return cur;
    }
    put(p, data, mode = 0o644) {
        const of = this.as(0, () => { const u = this.umask; this.umask = 0; try { return this.open(p, C.O_WRONLY | C.O_CREAT | C.O_TRUNC, mode); } finally { this.umask = u; } });
        of.inode.uid = of.inode.gid = 1000;
        this.setData(of.inode, Buffer.from(data), 'write', of.path);
        return of.inode;
    }
    ext(fn) { const a = this.actor; this.actor = 'ext'; try { return this.as(0, fn); } finally { this.actor = a; } }
    lookup(p, follow = false) { try { return this.as(0, () => this.get(p, follow).node); } catch { return null; } }
    content(p) { const n = this.lookup(p, true); return n && n.type === 'file' ? n.data : null; }
    // everything below p: relative path -> node (links not followed)
    tree(p) {
        const out = new Map();
        const rec = (n, rel) => { for (const [name, c] of n.entries) { const r = rel ? rel + '/' + name : name; out.set(r, c); if (c.type === 'dir') rec(c, r); } };
        const n = this.lookup(p, false);
        if (n && n.type === 'dir') rec(n, '');
        return out;
    }
    freeze(p = '/') { // comparable image of a tree
        const m = new Map();
        for (const [k, n] of this.tree(p)) m.set(k, n.type === 'file' ? { t: 'file', d: n.data, ino: n.ino, mode: n.mode } : n.type === 'symlink' ? { t: 'symlink', l: n.target, ino: n.ino } : { t: n.type, ino: n.ino, mode: n.mode });
        return m;
    }
    syncAll() { const rec = d => { for (const n of d.entries.values()) { if (n.type === 'dir') rec(n); else { n.dirty = false; n.synced = null; } } }; rec(this.root); }
    // power failure: unsynced file contents may be lost, truncated or zeroed; metadata survives
    powerLoss(c) {
        const seen = new Set();
        const rec = d => {
            for (const [name, n] of d.entries) {
                if (n.type === 'dir') rec(n);
                else if (n.type === 'file' && n.dirty && !seen.has(n)) {
                    seen.add(n);
                    const len = n.data.length;
                    switch (c.raw(5)) {
                        case 0: break;
                        case 1: n.data = n.data.subarray(0, c.int(0, len)); this.sim.fault('power-loss-truncated'); break;
                        case 2: { const b = Buffer.from(n.data); b.fill(0, c.int(0, len)); n.data = b; this.sim.fault('power-loss-zeroed'); break; }
                        case 3: n.data = n.synced || Buffer.alloc(0); this.sim.fault('power-loss-reverted'); break;
                        default: if (n.synced && !n.synced.length && n.nlink === 1) { d.entries.delete(name); this.sim.fault('power-loss-entry-lost'); }
                    }
                    n.dirty = false;
                }
            }
        };
        rec(this.root);
    }
}

// ------------------------------------------------------------------ Node binding
const FAULTS = {
    open: ['EIO', 'EMFILE', 'EACCES'], read: ['EIO'], write: ['EIO', 'ENOSPC', 'EDQUOT'], stat: ['EIO', 'EACCES'], lstat: ['EIO', 'EACCES'], fstat: ['EIO'],
    scandir: ['EIO', 'EMFILE', 'EACCES'], opendir: ['EIO', 'EMFILE'], mkdir: ['EIO', 'ENOSPC', 'EACCES'], unlink: ['EBUSY', 'EIO', 'EPERM'], rmdir: ['EBUSY', 'EIO', 'EACCES'],
    symlink: ['EIO', 'ENOSPC', 'EACCES'], readlink: ['EIO', 'EACCES'], copyfile: ['EIO', 'ENOSPC', 'EBUSY', 'EACCES'], rename: ['EIO', 'EXDEV', 'EBUSY'], link: ['EIO', 'EMLINK'],
    fsync: ['EIO'], fdatasync: ['EIO'], ftruncate: ['EIO', 'ENOSPC'], chmod: ['EPERM'], utime: ['EPERM'], access: ['EIO', 'EACCES'], realpath: ['EIO', 'EACCES'], mkdtemp: ['ENOSPC']
};
function parseFlags(f) {
    if (f === undefined || f === null) return C.O_RDONLY;
    if (typeof f === 'number') return f;
    const m = { r: 0, rs: C.O_SYNC, 'sr': C.O_SYNC, 'r+': 2, 'rs+': 2 | C.O_SYNC, 'sr+': 2 | C.O_SYNC, w: 1 | C.O_CREAT | C.O_TRUNC, 'w+': 2 | C.O_CREAT | C.O_TRUNC, a: 1 | C.O_CREAT | C.O_APPEND, 'a+': 2 | C.O_CREAT | C.O_APPEND };
    const mm = { wx: 'w', xw: 'w', 'wx+': 'w+', 'xw+': 'w+', ax: 'a', xa: 'a', 'ax+': 'a+', 'xa+': 'a+', as: 'a', sa: 'a', 'as+': 'a+', 'sa+': 'a+' };
    if (m[f] !== undefined) return m[f];
    if (mm[f]) return m[mm[f]] | (f.includes('x') ? C.O_EXCL : C.O_SYNC);
    const e = new TypeError(`The argument 'flags' is invalid. Received '${f}'`); e.code = 'ERR_INVALID_ARG_VALUE'; throw e;
}
function argError(name, v) { const e = new TypeError(`The "${name}" argument must be of a valid type. Received ${util.inspect(v)}`); e.code = 'ERR_INVALID_ARG_TYPE'; return e; }
function toPath(p) {
    if (p instanceof URL) p = require('url').fileURLToPath(p);
    if (Buffer.isBuffer(p)) p = p.toString();
    if (typeof p !== 'string') throw argError('path', p);
    if (p.includes('\0')) { const e = new TypeError('The argument path must be a string without null bytes'); e.code = 'ERR_INVALID_ARG_VALUE'; throw e; }
    return p;
}
const toMode = (m, d) => (m === undefined || m === null ? d : typeof m === 'string' ? parseInt(m, 8) : m);
const encOf = o => (typeof o === 'string' ? o : o && o.encoding);
class Stats {
    constructor(n, big) {
        const v = { dev: 1, ino: n.ino, mode: n.mode | T[n.type], nlink: n.nlink, uid: n.uid, gid: n.gid, rdev: 0, size: n.type === 'file' ? n.data.length : n.type === 'symlink' ? Buffer.byteLength(n.target) : 4096, blksize: 4096, blocks: 8, atimeMs: n.atime, mtimeMs: n.mtime, ctimeMs: n.ctime, birthtimeMs: n.birth };
        for (const k of Object.keys(v)) this[k] = big ? BigInt(Math.floor(v[k])) : v[k];
        for (const k of ['atime', 'mtime', 'ctime', 'birthtime']) this[k] = new Date(1700000000000 + Number(v[k + 'Ms']));
        Object.defineProperty(this, '_t', { value: n.type });
    }
    isFile() { return this._t === 'file'; } isDirectory() { return this._t === 'dir'; } isSymbolicLink() { return this._t === 'symlink'; } isFIFO() { return this._t === 'fifo'; }
    isSocket() { return false; } isBlockDevice() { return false; } isCharacterDevice() { return false; }
}
class Dirent {
    constructor(name, parentPath, n) { this.name = name; this.parentPath = parentPath; this.path = parentPath; Object.defineProperty(this, '_t', { value: n.type }); }
    isFile() { return this._t === 'file'; } isDirectory() { return this._t === 'dir'; } isSymbolicLink() { return this._t === 'symlink'; } isFIFO() { return this._t === 'fifo'; }
    isSocket() { return false; } isBlockDevice() { return false; } isCharacterDevice() { return false; }
}

// One process' view of the kernel: descriptor table, fault plan, latency; dies on crash.
class Proc {
    constructor(kernel, opts = {}) {
        this.k = kernel; this.sim = kernel.sim; this.c = kernel.sim.c;
        this.fds = new Map(); this.fdSeq = 20; this.opened = 0;
        this.dead = false; this.pending = 0; this.calls = 0;
        this.faultRate = opts.faultRate || 0; this.maxFaults = opts.maxFaults ?? 3; this.injected = 0;
        this.faultFilter = opts.faultFilter || (() => true);
        this.shortIo = opts.shortIo || 0; this.copyChunk = opts.copyChunk || 0;
        this.latency = opts.latency ?? 4;
        this.crashAt = opts.crashAt || 0; // crash before this system call
        this.uid = opts.uid ?? kernel.uid;
        this.actor = opts.actor || 'proc';
        this.onSyscall = null;
    }
    fdGet(fd, sc) { const f = typeof fd === 'number' ? this.fds.get(fd) : undefined; if (!f) { if (typeof fd !== 'number') throw argError('fd', fd); throw errno('EBADF', sc); } return f; }
    enter(req) {
        this.calls++;
        if (this.onSyscall) this.onSyscall(req);
        if (this.faultRate && this.injected < this.maxFaults && FAULTS[req.sc] && this.faultFilter(req)) {
            const den = this.faultRate >= 1 ? 100 : 1000;
            if (this.c.chance(den === 100 ? this.faultRate : Math.round(this.faultRate * 10), den)) {
                const code = this.c.pick(FAULTS[req.sc]);
                this.injected++;
                this.sim.fault(`${req.sc}:${code}`);
                return errno(code, req.sc, req.path, req.dest);
            }
        }
        return null;
    }
    kernel(req, fn) {
        const a = this.k.actor, u = this.k.uid;
        this.k.actor = this.actor; this.k.uid = this.uid;
        try { return fn(this.k); } catch (e) { if (e instanceof Fail) throw errno(e.code, req.sc, req.path, req.dest); throw e; } finally { this.k.actor = a; this.k.uid = u; }
    }
    // run an operation generator asynchronously; done(err, value)
    run(gen, done, first) {
        let r = first || gen.next();
        if (r.done) { this.sim.at(0, 'fs done', () => { if (!this.dead) done(null, r.value); }); return; }
        this.pending++;
        const step = () => {
            const lat = this.latency && this.c.chance(40) ? this.c.int(1, this.latency) : 0;
            this.sim.at(lat, `${r.value.sc} ${r.value.path ?? ''}`, () => {
                if (this.dead) return;
                if (this.crashAt && this.calls + 1 >= this.crashAt) { this.crash(); return; }
                const err = this.enter(r.value);
                try {
                    r = err ? gen.throw(err) : gen.next();
                } catch (e) { this.pending--; done(e); return; }
                if (r.done) { this.pending--; done(null, r.value); } else step();
            });
        };
        step();
    }
    runSync(gen) {
        let r = gen.next();
        while (!r.done) {
            if (this.dead) throw new Error('sim: process is dead');
            if (this.crashAt && this.calls + 1 >= this.crashAt) { this.crash(); throw new Error('sim: process crashed'); }
            const err = this.enter(r.value);
            this.sim.note(`sync ${r.value.sc} ${r.value.path ?? ''}${err ? ' ' + err.code : ''}`);
            r = err ? gen.throw(err) : gen.next();
        }
        return r.value;
    }
    crash() { this.dead = true; this.sim.fault('process-crash'); this.fds.clear(); if (this.onCrash) this.onCrash(); }
}

// generator helpers -----------------------------------------------------------
const call = function* (p, req, fn) { yield req; return p.kernel(req, fn); };
function toBuf(data, enc) {
    if (typeof data === 'string') return Buffer.from(data, enc || 'utf8');
    if (ArrayBuffer.isView(data)) return Buffer.from(data.buffer, data.byteOffset, data.byteLength);
    throw argError('data', data);
}
const OPS = {
    *open(p, path, flags, mode) {
        path = toPath(path); const fl = parseFlags(flags);
        const of = yield* call(p, { sc: 'open', path, flags: fl }, k => k.open(path, fl, toMode(mode, 0o666)));
        const fd = ++p.fdSeq;
        p.fds.set(fd, of); p.opened++;
        return fd;
    },
    *close(p, fd) { if (typeof fd !== 'number') throw argError('fd', fd); yield { sc: 'close' }; p.fdGet(fd, 'close'); p.fds.delete(fd); },
    *read(p, fd, buffer, offset = 0, length, position) {
        if (buffer && !ArrayBuffer.isView(buffer)) { ({ buffer = Buffer.alloc(16384), offset = 0, length, position } = buffer); }
        else if (typeof offset === 'object' && offset) { ({ offset = 0, length, position } = offset); }
        if (!buffer) buffer = Buffer.alloc(16384);
        length = length ?? buffer.byteLength - offset;
        p.fdGet(fd, 'read');
        const got = yield* call(p, { sc: 'read' }, k => {
            const of = p.fdGet(fd, 'read');
            const pos = position === null || position === undefined || Number(position) < 0 ? of.pos : Number(position);
            let d = k.pread(of, pos, length);
            if (d.length > 1 && p.shortIo && p.c.chance(p.shortIo)) { d = d.subarray(0, p.c.int(1, d.length - 1)); p.sim.fault('short-read'); }
            Buffer.from(buffer.buffer, buffer.byteOffset, buffer.byteLength).set(d, offset);
            if (position === null || position === undefined || Number(position) < 0) of.pos = pos + d.length;
            return d.length;
        });
        return { bytesRead: got, buffer };
    },
    *write(p, fd, data, offset, length, position) {
        let buf;
        if (typeof data === 'string') { position = offset; buf = Buffer.from(data, typeof length === 'string' ? length : 'utf8'); }
        else {
            if (!ArrayBuffer.isView(data)) throw argError('buffer', data);
            if (offset && typeof offset === 'object') ({ offset = 0, length, position } = offset);
            offset = offset ?? 0; length = length ?? data.byteLength - offset;
            buf = Buffer.from(data.buffer, data.byteOffset + offset, length);
        }
        p.fdGet(fd, 'write');
        const n = yield* call(p, { sc: 'write' }, k => {
            const of = p.fdGet(fd, 'write');
            let b = buf;
            if (b.length > 1 && p.shortIo && p.c.chance(p.shortIo)) { b = b.subarray(0, p.c.int(1, b.length - 1)); p.sim.fault('short-write'); }
            const at = typeof position === 'number' ? position : of.pos;
            const r = k.pwrite(of, at, b);
            if (typeof position !== 'number') of.pos = r.pos;
            return r.n;
        });
        return { bytesWritten: n, buffer: data };
    },
    *writev(p, fd, bufs, position) {
        let n = 0;
        for (const b of bufs) {
            const r = yield* OPS.write(p, fd, b, 0, b.byteLength, typeof position === 'number' ? position + n : undefined);
            n += r.bytesWritten;
            if (r.bytesWritten < b.byteLength) break;
        }
        return { bytesWritten: n, buffers: bufs };
    },
    *readv(p, fd, bufs, position) {
        let n = 0;
        for (const b of bufs) { const r = yield* OPS.read(p, fd, b, 0, b.byteLength, typeof position === 'number' ? position + n : null); n += r.bytesRead; if (r.bytesRead < b.byteLength) break; }
        return { bytesRead: n, buffers: bufs };
    },
    *stat(p, path, o) { path = toPath(path); return yield* call(p, { sc: 'stat', path }, k => new Stats(k.get(path, true).node, o && o.bigint)); },
    *lstat(p, path, o) { path = toPath(path); return yield* call(p, { sc: 'lstat', path }, k => new Stats(k.get(path, false).node, o && o.bigint)); },
    *fstat(p, fd, o) { p.fdGet(fd, 'fstat'); return yield* call(p, { sc: 'fstat' }, () => new Stats(p.fdGet(fd, 'fstat').inode, o && o.bigint)); },
    *readlink(p, path) { path = toPath(path); return yield* call(p, { sc: 'readlink', path }, k => k.readlink(path)); },
    *symlink(p, target, path) { target = toPath(target); path = toPath(path); yield* call(p, { sc: 'symlink', path: target, dest: path }, k => k.symlink(target, path)); },
    *link(p, from, to) { from = toPath(from); to = toPath(to); yield* call(p, { sc: 'link', path: from, dest: to }, k => k.link(from, to)); },
    *unlink(p, path) { path = toPath(path); yield* call(p, { sc: 'unlink', path }, k => k.unlink(path)); },
    *rename(p, from, to) { from = toPath(from); to = toPath(to); yield* call(p, { sc: 'rename', path: from, dest: to }, k => k.rename(from, to)); },
    *access(p, path, mode) { path = toPath(path); yield* call(p, { sc: 'access', path }, k => k.access(path, mode ?? 0)); },
    *realpath(p, path) { path = toPath(path); return yield* call(p, { sc: 'realpath', path }, k => k.realpath(path)); },
    *chmod(p, path, mode) { path = toPath(path); yield* call(p, { sc: 'chmod', path }, k => k.setattr(k.get(path), 'chmod', n => { n.mode = toMode(mode) & 0o7777; })); },
    *lchmod(p, path, mode) { path = toPath(path); yield* call(p, { sc: 'chmod', path }, k => k.setattr(k.get(path, false), 'chmod', n => { n.mode = toMode(mode) & 0o7777; })); },
    *fchmod(p, fd, mode) { yield* call(p, { sc: 'chmod' }, k => { const of = p.fdGet(fd, 'fchmod'); of.inode.mode = toMode(mode) & 0o7777; k.emit('chmod', of.path, of.inode); }); },
    *chown(p, path) { path = toPath(path); yield* call(p, { sc: 'chmod', path }, k => { k.get(path); }); },
    *lchown(p, path) { path = toPath(path); yield* call(p, { sc: 'chmod', path }, k => { k.get(path, false); }); },
    *fchown(p, fd) { yield* call(p, { sc: 'chmod' }, () => { p.fdGet(fd, 'fchown'); }); },
    *utimes(p, path, a, m) { path = toPath(path); yield* call(p, { sc: 'utime', path }, k => k.setattr(k.get(path), 'utimes', n => { n.mtime = Number(m); n.atime = Number(a); })); },
    *lutimes(p, path, a, m) { path = toPath(path); yield* call(p, { sc: 'utime', path }, k => k.setattr(k.get(path, false), 'utimes', n => { n.mtime = Number(m); n.atime = Number(a); })); },
    *futimes(p, fd, a, m) { yield* call(p, { sc: 'utime' }, k => { const of = p.fdGet(fd, 'futime'); of.inode.mtime = Number(m); k.emit('utimes', of.path, of.inode); }); },
    *fsync(p, fd) { yield* call(p, { sc: 'fsync' }, () => { p.fdGet(fd, 'fsync').inode.dirty = false; }); },
    *fdatasync(p, fd) { yield* call(p, { sc: 'fdatasync' }, () => { p.fdGet(fd, 'fdatasync').inode.dirty = false; }); },
    *ftruncate(p, fd, len) { yield* call(p, { sc: 'ftruncate' }, k => k.ftruncate(p.fdGet(fd, 'ftruncate'), len || 0)); },
    *truncate(p, path, len) { const fd = yield* OPS.open(p, path, 'r+'); try { yield* OPS.ftruncate(p, fd, len); } finally { yield* OPS.close(p, fd); } },
    *mkdtemp(p, prefix) { prefix = toPath(prefix); return yield* call(p, { sc: 'mkdtemp', path: prefix + 'XXXXXX' }, k => { for (let i = 0; ; i++) { const d = prefix + ('aaaaaa' + i).slice(-6); if (!k.lookup(d)) { k.mkdir(d, 0o700); return d; } } }); },
    *mkdir(p, path, o) {
        path = toPath(path);
        const mode = typeof o === 'number' || typeof o === 'string' ? toMode(o) : toMode(o && o.mode, 0o777);
        if (!(o && o.recursive)) { yield* call(p, { sc: 'mkdir', path }, k => k.mkdir(path, mode)); return undefined; }
        // as in Node: try the deepest directory, go up on ENOENT
        if (path === '') throw errno('ENOENT', 'mkdir', path);
        let first;
        const stack = [path];
        while (stack.length) {
            const cur = stack[stack.length - 1];
            try {
                yield* call(p, { sc: 'mkdir', path: cur }, k => k.mkdir(cur, mode));
                stack.pop();
                if (!first) first = cur;
            } catch (e) {
                if (e.code === 'ENOENT') {
                    const up = pathMod.dirname(cur.replace(/\/+$/, '') || '/');
                    if (up === cur || stack.length > 60) throw errno(e.code, 'mkdir', path);
                    stack.push(up);
                } else if (e.code === 'EEXIST' || e.code === 'EISDIR') {
                    let st;
                    try { st = yield* OPS.stat(p, cur); } catch (x) { throw cur === path ? errno(x.code, 'mkdir', path) : errno(x.code === 'ENOENT' ? 'ENOTDIR' : x.code, 'mkdir', cur); }
                    if (!st.isDirectory()) throw errno(cur === path ? 'EEXIST' : 'ENOTDIR', 'mkdir', path);
                    stack.pop();
                } else throw errno(e.code, 'mkdir', cur);
            }
        }
        return first;
    },
    *readdir(p, path, o) {
        path = toPath(path);
        const types = o && o.withFileTypes, rec = o && o.recursive, buf = encOf(o) === 'buffer';
        const out = [];
        const queue = [path];
        while (queue.length) {
            const d = queue.shift();
            const list = p.c.shuffle(yield* call(p, { sc: 'scandir', path: d }, k => k.list(d)));
            for (const [name, n] of list) {
                if (types) out.push(new Dirent(name, d, n));
                else { const nm = rec ? pathMod.relative(path, pathMod.join(d, name)) : name; out.push(buf ? Buffer.from(nm) : nm); }
                if (rec && n.type === 'dir') queue.push(pathMod.join(d, name));
            }
        }
        return out;
    },
    *rmdir(p, path, o) {
        path = toPath(path);
        if (o && o.recursive) {
            const st = yield* OPS.stat(p, path);
            if (st.isDirectory()) return yield* rimraf(p, path);
        }
        yield* call(p, { sc: 'rmdir', path }, k => k.rmdir(path));
    },
    *rm(p, path, o = {}) {
        path = toPath(path);
        let st;
        try { st = yield* OPS.lstat(p, path); } catch (e) { if (o.force && e.code === 'ENOENT') return; throw e; }
        if (st.isDirectory() && !o.recursive) { const e = new Error(`Path is a directory: rm returned EISDIR (is a directory) ${path}`); e.code = 'ERR_FS_EISDIR'; e.name = 'SystemError'; throw e; }
        let left = o.recursive ? o.maxRetries || 0 : 0;
        for (;;) {
            try { return yield* rimraf(p, path); } catch (e) { if (left-- > 0 && ['EBUSY', 'EMFILE', 'ENFILE', 'ENOTEMPTY', 'EPERM'].includes(e.code)) continue; throw e; }
        }
    },
    *copyFile(p, src, dst, mode = 0) {
        src = toPath(src); dst = toPath(dst);
        const req = sc => ({ sc, path: src, dest: dst });
        const s = yield* call(p, req('copyfile'), k => { const of = k.open(src, C.O_RDONLY); return of; });
        const fail = code => errno(code, 'copyfile', src, dst);
        if (s.inode.type !== 'file' && s.inode.type !== 'dir') throw fail('ENOTSUP');
        const d = yield* call(p, req('copyfile'), k => k.open(dst, C.O_WRONLY | C.O_CREAT | (mode & C.COPYFILE_EXCL ? C.O_EXCL : 0), s.inode.mode));
        if (d.inode === s.inode) return;
        const undo = function* () { p.kernel(req('copyfile'), k => { try { k.unlink(dst); } catch {} }); };
        try {
            yield* call(p, req('copyfile'), k => { if (d.inode.data.length) k.ftruncate(d, 0); });
            yield* call(p, req('copyfile'), k => { if (k.uid !== 0 && d.inode.uid !== k.uid) throw new Fail('EPERM'); if (d.inode.mode !== s.inode.mode) { d.inode.mode = s.inode.mode; k.emit('chmod', d.path, d.inode); } });
            if (s.inode.type === 'dir') throw errno('EISDIR');
            let pos = 0;
            const chunk = s.inode.data.length > 20000 ? 65536 : p.copyChunk || 65536;
            while (pos < s.inode.data.length) {
                const n = yield* call(p, req('copyfile'), k => k.pwrite(d, pos, s.inode.data.subarray(pos, pos + chunk)).n);
                pos += n;
            }
        } catch (e) { yield* undo(); throw errno(e.code, 'copyfile', src, dst); }
    },
    *cp(p, src, dst, o = {}) {
        src = toPath(src); dst = toPath(dst);
        const force = o.force !== false;
        if (o.filter && !(o.filter(src, dst))) return;
        const st = o.dereference ? yield* OPS.stat(p, src) : yield* OPS.lstat(p, src);
        let ds = null;
        try { ds = o.dereference ? yield* OPS.stat(p, dst) : yield* OPS.lstat(p, dst); } catch (e) { if (e.code !== 'ENOENT') throw e; }
        const cpErr = (code, m) => { const e = new Error(m); e.code = code; e.name = 'SystemError'; return e; };
        if (ds && ds.ino === st.ino) throw cpErr('ERR_FS_CP_EINVAL', 'src and dest cannot be the same');
        if (st.isDirectory()) {
            if (ds && !ds.isDirectory()) throw cpErr('ERR_FS_CP_DIR_TO_NON_DIR', 'cannot overwrite non-directory with directory');
            if ((pathMod.resolve(p.k.cwd, dst) + '/').startsWith(pathMod.resolve(p.k.cwd, src) + '/')) throw cpErr('ERR_FS_CP_EINVAL', 'cannot copy to a subdirectory of self');
            if (!ds) yield* OPS.mkdir(p, pathMod.dirname(dst), { recursive: true });
            if (!o.recursive) throw cpErr('ERR_FS_EISDIR', `Recursive option not enabled, cannot copy a directory: ${src}`);
            if (!ds) yield* OPS.mkdir(p, dst, { recursive: true });
            for (const name of yield* OPS.readdir(p, src)) yield* OPS.cp(p, pathMod.join(src, name), pathMod.join(dst, name), o);
            return;
        }
        if (ds && ds.isDirectory()) throw cpErr('ERR_FS_CP_NON_DIR_TO_DIR', 'cannot overwrite directory with non-directory');
        if (!ds) yield* OPS.mkdir(p, pathMod.dirname(dst), { recursive: true });
        if (st.isSymbolicLink()) {
            let t = yield* OPS.readlink(p, src);
            if (!o.verbatimSymlinks && !pathMod.isAbsolute(t)) t = pathMod.resolve(p.k.cwd, pathMod.dirname(src), t);
            if (ds) { if (!force) { if (o.errorOnExist) throw cpErr('ERR_FS_CP_EEXIST', 'exists'); return; } yield* OPS.unlink(p, dst); }
            return yield* OPS.symlink(p, t, dst);
        }
        if (st.isFIFO()) throw cpErr('ERR_FS_CP_FIFO_PIPE', 'cannot copy a FIFO pipe');
        if (ds) { if (!force) { if (o.errorOnExist) throw cpErr('ERR_FS_CP_EEXIST', 'exists'); return; } yield* OPS.unlink(p, dst); }
        yield* OPS.copyFile(p, src, dst, o.mode || 0);
    },
    *readFile(p, path, o) {
        const enc = encOf(o);
        const own = typeof path !== 'number';
        const fd = own ? yield* OPS.open(p, path, (o && o.flag) || 'r', 0o666) : path;
        try {
            yield* OPS.fstat(p, fd);
            const parts = [];
            const buf = Buffer.alloc(p.fdGet(fd, 'read').inode.data && p.fdGet(fd, 'read').inode.data.length > 20000 ? 65536 : p.copyChunk || 65536);
            for (;;) {
                const n = yield* call(p, { sc: 'read' }, k => { const of = p.fdGet(fd, 'read'); const d = k.pread(of, of.pos, buf.length); of.pos += d.length; d.copy(buf); return d.length; });
                if (!n) break;
                parts.push(Buffer.from(buf.subarray(0, n)));
            }
            const all = Buffer.concat(parts);
            return enc && enc !== 'buffer' ? all.toString(enc) : all;
        } finally { if (own) { p.fds.delete(fd); } }
    },
    *writeFile(p, path, data, o) {
        const enc = encOf(o) || 'utf8';
        if (data && !ArrayBuffer.isView(data) && typeof data !== 'string') throw argError('data', data);
        const buf = toBuf(data, enc);
        const own = typeof path !== 'number';
        const fd = own ? yield* OPS.open(p, path, (o && o.flag) || 'w', toMode(o && typeof o === 'object' ? o.mode : undefined, 0o666)) : path;
        try {
            let off = 0;
            while (off < buf.length) { const r = yield* OPS.write(p, fd, buf, off, Math.min(buf.length - off, buf.length > 20000 ? 524288 : p.copyChunk || 524288)); off += r.bytesWritten; }
            if (o && o.flush) yield* OPS.fsync(p, fd);
        } finally { if (own) p.fds.delete(fd); }
    },
    *appendFile(p, path, data, o) { const opts = typeof o === 'string' ? { encoding: o } : { ...o }; opts.flag = opts.flag || 'a'; return yield* OPS.writeFile(p, path, data, opts); }
};
function* rimraf(p, path) {
    let st;
    try { st = yield* OPS.lstat(p, path); } catch (e) { if (e.code === 'ENOENT') return; throw e; }
    if (!st.isDirectory()) { try { yield* OPS.unlink(p, path); } catch (e) { if (e.code !== 'ENOENT') throw e; } return; }
    try { yield* OPS.rmdir(p, path); return; } catch (e) { if (e.code === 'ENOENT' || e.code === 'ENOTDIR') return; if (e.code !== 'ENOTEMPTY' && e.code !== 'EEXIST') throw e; }
    let firstErr;
    for (const n of yield* OPS.readdir(p, path)) { try { yield* rimraf(p, path + '/' + n); } catch (e) { firstErr = firstErr || e; } }
    if (firstErr) throw firstErr;
    try { yield* OPS.rmdir(p, path); } catch (e) { if (e.code !== 'ENOENT') throw e; }
}

// result adaptors for the callback flavour with several values
const MULTI = { read: r => [r.bytesRead, r.buffer], write: r => [r.bytesWritten, r.buffer], writev: r => [r.bytesWritten, r.buffers], readv: r => [r.bytesRead, r.buffers] };

function makeFs(p) {
    const fs = {}, promises = {};
    class FileHandle extends (require('events')) {
        constructor(fd) { super(); Object.defineProperty(this, '_fd', { value: fd, writable: true }); }
        get fd() { return this._fd; }
        _op(name, ...a) { if (this._fd < 0) return Promise.reject(errno('EBADF', name)); return promiseRun(OPS[name], [this._fd, ...a]); }
        close() { if (this._fd < 0) return Promise.resolve(); const fd = this._fd; this._fd = -1; return promiseRun(OPS.close, [fd]).then(() => { this.emit('close'); }); }
        [Symbol.asyncDispose]() { return this.close(); }
        read(...a) { return this._op('read', ...a); } write(...a) { return this._op('write', ...a); } readv(...a) { return this._op('readv', ...a); } writev(...a) { return this._op('writev', ...a); }
        stat(o) { return this._op('fstat', o); } truncate(n) { return this._op('ftruncate', n); } sync() { return this._op('fsync'); } datasync() { return this._op('fdatasync'); }
        chmod(m) { return this._op('fchmod', m); } utimes(a, m) { return this._op('futimes', a, m); } chown() { return this._op('fchown'); }
        readFile(o) { return this._op('readFile', o); } writeFile(d, o) { return this._op('writeFile', d, o); } appendFile(d, o) { return this._op('writeFile', d, o); }
        createReadStream(o) { return fs.createReadStream('', { ...o, fd: this }); }
        createWriteStream(o) { return fs.createWriteStream('', { ...o, fd: this }); }
        readLines(o) { return fs._readline.createInterface({ input: this.createReadStream(o), crlfDelay: Infinity }); }
    }
    const stackOf = e => { if (e && typeof e === 'object' && e.code) e.stack = `${e.name}: ${e.message}`; return e; };
    const promiseRun = (op, args, map) => new Promise((res, rej) => {
        let gen, first;
        try { gen = op(p, ...args); first = gen.next(); } catch (e) { rej(e); return; }
        p.run(gen, (e, v) => (e ? rej(stackOf(e)) : res(map ? map(v) : v)), first);
    });
    for (const name of Object.keys(OPS)) {
        const op = OPS[name];
        fs[name] = function (...args) {
            let i = args.length - 1;
            while (i >= 0 && typeof args[i] !== 'function') i--;
            if (i < 0) { const e = new TypeError('The "callback" argument must be of type function. Received undefined'); e.code = 'ERR_INVALID_ARG_TYPE'; throw e; }
            const cb = args[i];
            const gen = op(p, ...args.slice(0, i));
            const first = gen.next();
            p.run(gen, (e, v) => { if (e) cb(stackOf(e)); else if (MULTI[name]) cb(null, ...MULTI[name](v)); else cb(null, v); }, first);
        };
        fs[name + 'Sync'] = (...args) => { const v = p.runSync(op(p, ...args)); return MULTI[name] ? MULTI[name](v)[0] : v; };
        promises[name] = (...args) => promiseRun(op, args);
    }
    for (const n of ['read', 'write', 'readv', 'writev']) Object.defineProperty(fs[n], util.promisify.custom, { value: (...a) => promiseRun(OPS[n], a) });
    for (const n of ['close', 'read', 'write', 'fstat', 'fsync', 'fdatasync', 'ftruncate', 'fchmod', 'futimes', 'fchown', 'readv', 'writev']) delete promises[n];
    const unwrap = x => (x instanceof FileHandle ? x.fd : x);
    promises.open = (...a) => promiseRun(OPS.open, a, fd => new FileHandle(fd));
    for (const n of ['readFile', 'writeFile', 'appendFile']) { const f = promises[n]; promises[n] = (x, ...a) => (x instanceof FileHandle ? f(unwrap(x), ...a) : f(x, ...a)); }
    const makeDir = (path, list) => {
        let i = 0, closed = false;
        const d = {
            path, read: cb => { const v = i < list.length ? list[i++] : null; if (typeof cb === 'function') { p.sim.at(0, 'dir read', () => cb(null, v)); return; } return Promise.resolve(v); },
            readSync: () => (i < list.length ? list[i++] : null), close: cb => { closed = true; if (typeof cb === 'function') { p.sim.at(0, 'dir close', () => cb(null)); return; } return Promise.resolve(); }, closeSync() { closed = true; },
            async *entries() { try { for (;;) { const v = await d.read(); if (!v) return; yield v; } } finally { if (!closed) await d.close(); } }
        };
        d[Symbol.asyncIterator] = d.entries;
        return d;
    };
    const opendirGen = function* (pp, path) { path = toPath(path); const l = pp.c.shuffle(yield* call(pp, { sc: 'opendir', path }, k => k.list(path))); return makeDir(path, l.map(([n, x]) => new Dirent(n, path, x))); };
    promises.opendir = (...a) => promiseRun(opendirGen, a);
    fs.opendirSync = (...a) => p.runSync(opendirGen(p, ...a));
    fs.opendir = (...a) => { const cb = a.pop(); p.run(opendirGen(p, ...a), (e, v) => cb(e, v)); };
    fs.existsSync = path => { try { p.runSync(OPS.access(p, path, 0)); return true; } catch { return false; } };
    fs.exists = (path, cb) => { p.run(OPS.access(p, path, 0), e => cb(!e)); };
    Object.defineProperty(fs.exists, util.promisify.custom, { value: path => promiseRun(OPS.access, [path, 0]).then(() => true, () => false) });
    fs.realpathSync.native = fs.realpathSync; fs.realpath.native = fs.realpath;
    const viaStat = n => { const f = fs[n + 'Sync']; fs[n + 'Sync'] = (path, o) => { try { return f(path, o); } catch (e) { if (o && o.throwIfNoEntry === false && e.code === 'ENOENT') return undefined; throw e; } }; };
    viaStat('stat'); viaStat('lstat');
    const streamFs = { open: fs.open, read: fs.read, write: fs.write, writev: fs.writev, close: fs.close, fsync: fs.fsync };
    const streamOpts = o => { const r = typeof o === 'string' ? { encoding: o } : { ...o }; if (r.fd instanceof FileHandle) { const h = r.fd; r.fd = h.fd; r.fs = { ...streamFs, close: (fd, cb) => { h._fd = -1; fs.close(fd, cb); } }; } else r.fs = r.fs || streamFs; return r; };
    fs.createReadStream = (path, o) => new realFs.ReadStream(path, streamOpts(o));
    fs.createWriteStream = (path, o) => { const r = streamOpts(o); if (!r.flush) r.fs = { ...r.fs, fsync: undefined }; return new realFs.WriteStream(path, r); };
    fs.ReadStream = function ReadStream(path, o) { return fs.createReadStream(path, o); };
    fs.WriteStream = function WriteStream(path, o) { return fs.createWriteStream(path, o); };
    promises.constants = C;
    Object.assign(fs, { constants: C, promises, Stats, Dirent, F_OK: C.F_OK, R_OK: C.R_OK, W_OK: C.W_OK, X_OK: C.X_OK });
    return fs;
}
// path module whose current directory is the simulated one
function makePath(cwd) {
    const P = Object.create(pathMod);
    const props = {
        resolve: (...a) => pathMod.resolve(cwd, ...a),
        relative: (a, b) => pathMod.relative(pathMod.resolve(cwd, a), pathMod.resolve(cwd, b)),
        posix: P, win32: require('path').win32, toNamespacedPath: x => x
    };
    for (const k of Object.keys(pathMod)) if (!(k in props)) P[k] = pathMod[k];
    for (const k of Object.keys(props)) Object.defineProperty(P, k, { value: props[k], enumerable: true, writable: true });
    return P;
}
module.exports = { Kernel, Proc, makeFs, makePath, errno, Fail, C };
