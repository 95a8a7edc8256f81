'use strict';
// A simulated machine with a disk for the fs package, plus tree generators and tree oracles.
const path = require('path').posix;
const { Kernel, Proc, makeFs, makePath } = require('./vfs');
const { makeReadline } = require('./readline');

function world(ctx, o = {}) {
    const { sim } = ctx;
    const k = o.kernel || new Kernel(sim, { uid: 1000, cwd: o.cwd || '/work', capacity: o.capacity });
    const p = new Proc(k, { uid: 1000, ...o.proc });
    const fs = makeFs(p);
    const readline = makeReadline(sim);
    fs._readline = readline;
    const P = makePath(k.cwd);
    const env = ctx.env({
        platform: o.platform || 'linux',
        modules: { fs, 'fs/promises': fs.promises, path: P, 'path/posix': P, readline, 'readline/promises': readline.promises, ...(o.modules || {}) },
        processProps: { cwd: () => k.cwd, ...(o.processProps || {}) }
    });
    const lib = o.lib === false ? null : ctx.load('fs', env);
    return { k, p, fs, env, lib, path: P };
}
// fs functions for Windows paths: C:\a\b is kept as /C/a/b on the simulated disk
const toPosix = s => (/^[A-Za-z]:[\\/]/.test(s) ? '/' + s[0].toUpperCase() + s.slice(2).replace(/\\/g, '/') : s.replace(/\\/g, '/'));
// names are found whatever their case when the disk is given
function sameCase(k, p) {
    let cur = '';
    for (const x of p.split('/').filter(Boolean)) {
        const n = cur ? k.lookup(cur) : k.lookup('/');
        const name = !n || !n.entries || n.entries.has(x) ? x : [...n.entries.keys()].find(y => y.toLowerCase() === x.toLowerCase()) || x;
        cur += '/' + name;
    }
    return cur || '/';
}
function winFs(fs, disk) {
    const wrap = o => new Proxy(o, { get(t, k, r) {
        const v = Reflect.get(t, k, t);
        if (k === 'promises') return promises;
        if (typeof v !== 'function' || /^[A-Z_]/.test(String(k))) return v;
        return function (...a) { return v.apply(t, a.map((x, i) => (i < 2 && typeof x === 'string' && /[\\/]/.test(x) ? (disk && x[1] === ':' ? sameCase(disk, toPosix(x)) : toPosix(x)) : x))); };
    } });
    const promises = wrap(fs.promises);
    return wrap(fs);
}
// fault plan of a run: mostly none, otherwise a few system calls fail
function faultPlan(c, extra = {}) {
    const rate = c.weighted([[5, 0], [3, 4], [2, 15], [1, 40]]);
    return { faultRate: rate, maxFaults: rate ? c.int(1, 3) : 0, shortIo: c.weighted([[3, 0], [2, 50]]), copyChunk: c.weighted([[3, 0], [2, 7]]), latency: c.pick([0, 3, 20]), ...extra };
}
const NAMES = ['a', 'b', 'c.txt', 'd', 'e e', 'ü', '.hid', 'lib', 'x.log', '-n', 'node_modules', 'a.b.c', ' lead', 'trail ', 'a\nb', '..x', '...', '*', 'e\u0301', '\\', '%20', 'A'];
function content(c) {
    const n = c.weighted([[2, 0], [4, c.int(1, 30)], [2, c.int(500, 530)], [1, c.int(1000, 1600)]]);
    const b = Buffer.alloc(n);
    const seed = c.raw(200);
    for (let i = 0; i < n; i++) b[i] = (seed + i * 7) & 0xff;
    return b;
}
// fill directory `root` (must exist) with a random tree; returns the relative paths created
function genTree(ctx, k, root, o = {}) {
    const { c } = ctx;
    const out = [];
    let budget = o.max ?? 10;
    const names = o.names || NAMES;
    const rec = (dir, rel, depth) => {
        const used = new Set();
        const n = c.int(depth === 0 ? (o.min ?? 0) : 0, 4);
        for (let i = 0; i < n && budget > 0; i++) {
            const name = c.pick(names);
            if (used.has(name)) continue;
            used.add(name);
            budget--;
            const full = dir + '/' + name, r = rel ? rel + '/' + name : name;
            const kind = c.weighted([[5, 'file'], [depth < (o.depth ?? 3) ? 4 : 0, 'dir'], [o.links ?? 2, 'link'], [o.fifos ?? 0, 'fifo']].filter(e => e[0]));
            out.push(r);
            if (kind === 'file') k.put(full, o.content ? o.content(c) : content(c), o.mode ? o.mode(c) : c.pick([0o644, 0o644, 0o755, 0o600]));
            else if (kind === 'dir') { k.mkdirp(full); rec(full, r, depth + 1); }
            else if (kind === 'fifo') addNode(k, full, 'fifo');
            else {
                const t = c.pick([...(o.targets || []), 'nowhere', '..', '.', ...out.slice(0, 6).map(x => path.relative(dir, root + '/' + x) || '.'), ...out.slice(0, 3).map(x => root + '/' + x)]);
                k.as(1000, () => k.symlink(t, full));
            }
        }
    };
    rec(root, '', 0);
    if (o.big !== false && ctx.big(4)) { // a wide folder, a deep chain or a long file
        const dirs = ['', ...[...k.tree(root)].filter(([, n]) => n.type === 'dir').map(([r]) => r)], d = c.pick(dirs), shape = c.pick(['wide', 'deep', 'long']);
        const add = (r, data) => { out.push(r); if (data === null) k.mkdirp(root + '/' + r); else k.put(root + '/' + r, data); };
        const name = i => (d ? d + '/' : '') + 'many' + i;
        if (shape === 'wide') for (let i = c.int(40, 260); i > 0; i--) add(name(i), c.chance(10) ? null : o.content ? o.content(c) : 'data ' + i);
        else if (shape === 'deep') { let r = name(0); for (let i = c.int(8, 30); i > 0; i--) { add(r, null); if (c.bool()) add(r + '/f' + i, o.content ? o.content(c) : 'deep ' + i); r += '/n' + i; } }
        else add(name(0), o.content ? o.content(c) : Buffer.alloc(c.pick([65535, 65536, 65537, c.int(66000, 500000)]), c.pick(['0123456789', 'z', '\n'])));
    }
    return out;
}
function addNode(k, full, type) {
    const w = k.walk(full, false);
    const n = k.as(1000, () => k.inode(type, 0o644));
    k.link_(w.parent, w.name, n);
    return n;
}
// where a path ends up when every link is followed: an inode, or null
const target = (k, p) => k.lookup(p, true);
const describe = n => (!n ? 'nothing' : n.type === 'file' ? `file(${n.data.length} bytes)` : n.type === 'symlink' ? `link -> ${n.target}` : n.type);
const showTree = (k, p) => [...k.tree(p)].map(([r, n]) => `${r}:${describe(n)}`).join(', ') || 'empty';

// everything of the frozen image still there and unchanged
function sameImage(k, root, image) {
    const now = k.freeze(root);
    for (const [r, a] of image) {
        const b = now.get(r);
        if (!b) return `${root}/${r} is gone`;
        if (a.t !== b.t || a.l !== b.l || (a.d && !a.d.equals(b.d)) || a.ino !== b.ino) return `${root}/${r} changed`;
    }
    return null;
}
function exactImage(k, root, image) {
    const e = sameImage(k, root, image);
    if (e) return e;
    for (const r of k.freeze(root).keys()) if (!image.has(r)) return `${root}/${r} appeared`;
    return null;
}
// no change by the program outside allowed(path, change)
function guard(ctx, k, allowed, kind = 'touched-outside') {
    k.listeners.push(ch => { if (ch.actor === 'proc' && !allowed(ch.path, ch)) ctx.fail(kind, `${ch.op} on ${ch.path}`); });
}
const under = (p, root) => p === root || p.startsWith(root === '/' ? '/' : root + '/');
function noLeak(ctx, p) {
    ctx.check(p.fds.size === 0, 'descriptor-leak', () => `${p.fds.size} descriptor(s) still open: ${[...p.fds.values()].map(f => f.path)}`);
}
module.exports = { world, faultPlan, genTree, addNode, target, describe, showTree, sameImage, exactImage, guard, under, noLeak, content, NAMES, winFs, toPosix, sameCase };
