'use strict';
const posix = require('path').posix;
const { world, faultPlan, genTree, addNode, target, describe, showTree, sameImage, guard, under, noLeak, content } = require('../fsworld');

// Copying one file, link or directory tree, overwriting allowed (the default).
async function copyTree(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    const faulty = p.faultRate > 0;
    let conflict = false; // the call may fail for a reason other than a fault
    k.mkdirp('/work/other/dir');
    k.put('/work/other/f1', 'outside one');
    k.put('/work/other/dir/f2', 'outside two');
    k.mkdirp('/work/in');
    const what = c.weighted([[6, 'dir'], [2, 'file'], [3, 'link']]);
    const src = '/work/in/src';
    let dst = c.pick(['/work/dst', '/work/out/deep/dst', '/work/in/dst', '/work/in/src2']);
    const targets = ['../../other/f1', '/work/other/dir', '/work/other/dir/f2', '../other/dir'];
    if (what === 'file') k.put(src, content(c), 0o644);
    else if (what === 'link') k.as(1000, () => k.symlink(c.pick([...targets, 'missing', 'src', '/work/other/f1', '../other/dir/f2', '.']), src));
    else { k.mkdirp(src); genTree(ctx, k, src, { min: c.int(0, 2), max: c.int(1, 14), links: c.pick([0, 2, 5]), targets }); }
    if (what === 'dir' && c.chance(3)) { addNode(k, src + '/pipe', 'fifo'); conflict = true; }
    if (what === 'dir' && c.chance(4)) { const t = [...k.tree(src)].filter(([, n]) => n.type !== 'symlink'); if (t.length) { c.pick(t)[1].mode = 0; conflict = true; } }
    const before = k.freeze('/work');
    const wanted = new Map([['', k.lookup(src)], ...k.tree(src)].map(([r, n]) => [r, { n, type: n.type, data: n.data && Buffer.from(n.data), aim: n.type === 'symlink' ? target(k, src + (r && '/' + r)) : null }]));
    // what the destination holds already
    if (c.chance(55)) {
        const place = (r, type) => {
            const full = dst + (r && '/' + r);
            k.mkdirp(posix.dirname(full));
            if (k.lookup(full)) return;
            if (type === 'file') k.put(full, content(c), 0o644); else if (type === 'dir') k.mkdirp(full); else { k.as(1000, () => k.symlink('/work/other/dir', full)); }
        };
        for (const [r, w] of wanted) {
            if (r && !c.chance(40)) continue;
            const parent = r ? k.lookup(dst + '/' + posix.dirname(r), true) : true;
            if (!parent || (parent.type && parent.type !== 'dir')) continue;
            if (w.type === 'symlink') { if (c.chance(15)) { place(r, c.pick(['file', 'dir', 'link'])); conflict = true; } } else if (w.type === 'fifo') continue;
            else if (c.chance(4)) { place(r, w.type === 'file' ? 'dir' : 'file'); conflict = true; } else place(r, w.type);
        }
        const d = k.lookup(dst);
        if (d && d.type === 'dir') { k.put(dst + '/EXTRA', 'keep me'); if (c.bool()) k.mkdirp(dst + '/EXTRADIR/x'); }
    }
    // copying a directory onto or into itself
    if (what === 'dir' && c.chance(4)) { dst = c.pick([src, src + '/sub', src + '/sub/sub2']); conflict = true; }
    const dstBefore = k.freeze(dst);
    // either path may lead through a link to a folder above
    let via = s => s;
    if (c.chance(20)) { const at = c.pick(['/work/alias', '/work/de/ep/alias', '/work/in/alias']); k.mkdirp(posix.dirname(at)); k.as(1000, () => k.symlink(c.bool() ? '/work/in' : posix.relative(posix.dirname(at), '/work/in') || '.', at)); via = s => (s.startsWith('/work/in/') && c.chance(60) ? at + s.slice(8) : s); }
    const rel = c.chance(40), vsrc = via(src), vdst = via(dst);
    const from = rel ? posix.relative('/work', vsrc) : vsrc, to = c.chance(30) ? './' + posix.relative('/work', vdst) : vdst;
    const selfCopy = under(dst, src);
    guard(ctx, k, (q, ch) => under(q, dst) && !(selfCopy && before.has(posix.relative('/work', q)) && ch.inode.type === 'dir') || (ch.op === 'mkdir' && under(dst, q)));
    sim.maxSteps = 8000;
    // an unrelated process works elsewhere meanwhile
    let beats = 0;
    sim.at(c.int(0, 5), 'other process', function beat() { k.ext(() => k.put('/work/unrelated', 'beat ' + beats)); if (beats++ < 3) sim.at(5, 'other process', beat); });
    const call = ctx.call('copy', () => lib.copy(from, to, c.pick([undefined, { forcibly: true }, {}])));
    await sim.drive();
    if (sim.violations.length) return;
    ctx.check(call.state !== 'pending', 'never-settles', 'copy did not settle');
    const e = sameImage(k, '/work', new Map([...before].filter(([r]) => under('/work/' + r, '/work/in/src') || under('/work/' + r, '/work/other'))));
    ctx.check(!e, 'source-changed', () => e + ` (copy ${from} to ${to}; ${call.state})`);
    for (const [r] of dstBefore) if (!wanted.has(r) && !selfCopy) { const now = k.freeze(dst).get(r), was = dstBefore.get(r); ctx.check(now && now.ino === was.ino && (!was.d || was.d.equals(now.d)), 'unrelated-destination-entry-changed', `${dst}/${r}`); }
    if (dst !== src) for (const r of k.tree(dst).keys()) if (!wanted.has(r) && !dstBefore.has(r)) { ctx.fail('unexpected-destination-entry', `${dst}/${r} appeared (copy ${from} to ${to})`.slice(0, 300)); return; }
    noLeak(ctx, p);
    const detail = () => `copy ${from} -> ${to} (${what}); source ${describe(k.lookup(src))}: ${showTree(k, src)}; destination ${describe(k.lookup(dst))}: ${showTree(k, dst)}`;
    if (call.state === 'fulfilled' && !selfCopy) {
        for (const [r, w] of wanted) {
            const full = dst + (r && '/' + r), n = k.lookup(full);
            if (!ctx.check(n, 'missing-at-destination', () => `${r || '(root)'} is missing; ${detail()}`)) return;
            if (!ctx.check(n.type === w.type, 'wrong-kind', () => `${r || '(root)'} became ${describe(n)}; ${detail()}`)) return;
            if (w.type === 'file') ctx.check(n.data.equals(w.data), 'wrong-bytes', () => `${r || '(root)'}: ${n.data.length} bytes instead of ${w.data.length}; ${detail()}`);
            if (w.type === 'symlink') ctx.check(target(k, full) === w.aim, 'link-points-elsewhere', () => `${r || '(root)'} (${describe(n)}) leads to ${describe(target(k, full))}, the source link to ${describe(w.aim)}; ${detail()}`);
        }
        ctx.probe('copied-' + what);
    } else if (call.state === 'rejected') {
        ctx.check(p.injected || conflict, 'failed-without-reason', () => `${String(call.value && call.value.message || call.value).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 600)}; ${detail()}`);
        ctx.probe('copy-rejected');
    }
    if (faulty && call.state === 'fulfilled' && p.injected) ctx.probe('fault-absorbed');
    if (wanted.size > 1 || what !== 'dir') ctx.nontrivial();
}

// copySymbolicLink on its own
async function copyLink(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    k.mkdirp('/work/a/dir'); k.put('/work/a/file', 'data'); k.put('/work/file', 'other'); k.mkdirp('/work/dir/in');
    const kind = c.weighted([[8, 'link'], [1, 'file'], [1, 'dir'], [1, 'none']]);
    const src = '/work/a/l';
    if (kind === 'link') k.as(1000, () => k.symlink(c.pick(['file', 'dir', '../file', '/work/dir', 'missing', 'l', '../a/dir']), src));
    else if (kind === 'file') k.put(src, 'plain'); else if (kind === 'dir') k.mkdirp(src);
    const dst = c.pick(['/work/b', '/work/x/y/z', '/work/a/l2', '/work/dir/in/l']);
    let conflict = kind !== 'link';
    if (c.chance(10)) { k.mkdirp(posix.dirname(dst)); k.put(dst, 'taken'); conflict = true; }
    const aim = target(k, src), before = k.freeze('/work');
    guard(ctx, k, (q, ch) => q === dst || (ch.op === 'mkdir' && under(dst, q)));
    const call = ctx.call('copySymbolicLink', () => lib.copySymbolicLink(c.bool() ? src : 'a/l', c.bool() ? dst : posix.relative('/work', dst)));
    await sim.drive();
    ctx.check(call.state !== 'pending', 'never-settles', 'copySymbolicLink did not settle');
    const e = sameImage(k, '/work', before);
    ctx.check(!e, 'source-changed', () => e);
    if (call.state === 'fulfilled') {
        const n = k.lookup(dst);
        ctx.check(kind === 'link', 'copied-a-non-link', `${kind} accepted`);
        if (ctx.check(n && n.type === 'symlink', 'missing-at-destination', () => `destination is ${describe(n)}`))
            ctx.check(target(k, dst) === aim, 'link-points-elsewhere', () => `copy ${describe(n)} leads to ${describe(target(k, dst))}, the source to ${describe(aim)}`);
    } else ctx.check(p.injected || conflict, 'failed-without-reason', () => String(call.value && call.value.message).slice(0, 300));
    noLeak(ctx, p);
    ctx.nontrivial();
}

module.exports = {
    property: 'S01', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'copy', weight: 6, run: copyTree }, { name: 'link', weight: 1, run: copyLink }],
    rule: 'Each run builds a random source tree (files, directories, relative/absolute/dangling/looping links), a partly filled destination and a fault plan, and copies; non-trivial when the source is not an empty directory.',
    real: ['packages/fs copy, copySymbolicLink, mkdir, isDir, isFile, isSymbolicLink'], stub: ['node:fs (simulated kernel, every system call a scheduling point)', 'path (real, simulated current directory)'],
    assumptions: ['the destination holds no link where the source has a file or directory', 'the source does not change during the copy', 'runs as an ordinary user who owns the files']
};
