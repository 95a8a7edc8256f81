'use strict';
const posix = require('path').posix;
const { world, faultPlan, genTree, target, describe, showTree, sameImage, guard, under, noLeak, content } = require('../fsworld');

// Copying with overwriting disabled while another process creates files at the destination.
async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    k.mkdirp('/work/other'); k.put('/work/other/f1', 'outside one');
    const src = '/work/src', dst = c.pick(['/work/dst', '/work/out/deep/dst']);
    const single = c.chance(25);
    if (single) k.put(src, content(c));
    else { k.mkdirp(src); genTree(ctx, k, src, { min: 1, max: c.int(2, 14), links: c.pick([0, 0, 1]), targets: ['/work/other/f1'] }); }
    const wanted = new Map([['', k.lookup(src)], ...k.tree(src)].map(([r, n]) => [r, { type: n.type, data: n.data && Buffer.from(n.data), aim: target(k, src + (r && '/' + r)) }]));
    const safe = new Map(); // inode -> path of every file that was at the destination before the copy got to it
    let conflict = false;
    const protect = full => { const n = k.lookup(full); safe.set(n, full); };
    for (const [r, w] of wanted) {
        if (!c.chance(45)) continue;
        const full = dst + (r && '/' + r), up = k.lookup(posix.dirname(full), true);
        if (up && up.type !== 'dir') continue;
        if (w.type === 'dir') k.mkdirp(full);
        else {
            let q = posix.dirname(full), blocked = false;
            for (; q !== '/work'; q = posix.dirname(q)) { const n = k.lookup(q); if (n && n.type !== 'dir') blocked = true; }
            if (blocked) continue;
            k.mkdirp(posix.dirname(full));
            if (w.type === 'file' && c.chance(6)) { k.mkdirp(full); conflict = true; } else { k.put(full, c.chance(10) && w.data ? w.data : content(c), c.pick([0o644, 0o600])); protect(full); if (w.type === 'symlink') conflict = true; }
        }
    }
    if (!single && c.chance(20)) { k.mkdirp(dst); k.put(dst + '/EXTRA', 'keep me'); protect(dst + '/EXTRA'); }
    const image = new Map([...safe].map(([n, full]) => [full, Buffer.from(n.data)]));
    // the other process: creates some of the missing files at a random moment
    const files = [...wanted].filter(([, w]) => w.type === 'file').map(([r]) => dst + (r && '/' + r));
    if (files.length && c.chance(60)) {
        for (let i = c.int(1, 3); i > 0; i--) {
            const full = c.pick(files);
            let armedAt = c.int(1, 12 + 4 * wanted.size), seen = 0, done = false;
            const prev = p.onSyscall;
            p.onSyscall = req => {
                if (prev) prev(req);
                if (done || ++seen < armedAt) return;
                const up = k.lookup(posix.dirname(full), true);
                if (!up || up.type !== 'dir') return;
                done = true;
                if (k.lookup(full)) return;
                k.ext(() => k.put(full, 'created by another process'));
                sim.note('other process creates ' + full);
                sim.fault('concurrent-create');
                protect(full); image.set(full, Buffer.from('created by another process'));
            };
        }
    }
    const before = k.freeze('/work');
    k.listeners.push(ch => { if (ch.actor === 'proc' && safe.has(ch.inode)) ctx.fail('existing-file-changed', `${ch.op} on ${ch.path}, which existed before`); });
    guard(ctx, k, (q, ch) => under(q, dst) || (ch.op === 'mkdir' && under(dst, q)));
    sim.maxSteps = 8000;
    const call = ctx.call('copy', () => lib.copy(src, dst, { forcibly: false }));
    await sim.drive();
    if (sim.violations.length) return;
    ctx.check(call.state !== 'pending', 'never-settles', 'copy did not settle');
    const e = sameImage(k, '/work', new Map([...before].filter(([r]) => !under('/work/' + r, dst))));
    ctx.check(!e, 'source-changed', () => e);
    for (const [full, data] of image) { const n = k.lookup(full); if (!ctx.check(n && n.type === 'file' && n.data.equals(data), 'existing-file-changed', () => `${full} is now ${describe(n)}`)) return; }
    const detail = () => `copy ${src} -> ${dst}; source ${showTree(k, src)}; destination ${describe(k.lookup(dst))}: ${showTree(k, dst)}`;
    if (call.state === 'fulfilled') {
        for (const [r, w] of wanted) {
            const full = dst + (r && '/' + r), n = k.lookup(full);
            if (!ctx.check(n, 'missing-at-destination', () => `${r || '(root)'} is missing; ${detail()}`)) return;
            if (image.has(full)) continue;
            if (!ctx.check(n.type === w.type, 'wrong-kind', () => `${r || '(root)'} is ${describe(n)} at the destination; ${detail()}`)) return;
            if (w.type === 'file') ctx.check(n.data.equals(w.data), 'wrong-bytes', () => `${r}: ${n.data.length} bytes instead of ${w.data.length}; ${detail()}`);
            if (w.type === 'symlink') ctx.check(target(k, full) === w.aim, 'link-points-elsewhere', () => `${r}; ${detail()}`);
        }
        ctx.probe('copied');
    } else ctx.check(p.injected || conflict, 'failed-without-reason', () => `${String(call.value && call.value.message).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 600)}; ${detail()}`);
    noLeak(ctx, p);
    if (image.size) ctx.nontrivial();
}
module.exports = {
    property: 'S02', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'copy', run }],
    rule: 'Each run copies a random tree with overwriting disabled onto a partly filled destination while system calls fail and another process creates missing files at random system calls; non-trivial when at least one file existed at the destination.',
    real: ['packages/fs copy, copySymbolicLink, mkdir, isDir, isFile'], stub: ['node:fs (simulated kernel, every system call a scheduling point)', 'path (real, simulated current directory)'],
    assumptions: ['the other process only creates whole files', 'the destination holds no link where the source has a file or directory']
};
