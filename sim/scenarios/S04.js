'use strict';
const posix = require('path').posix;
const { world, faultPlan, genTree, addNode, describe, showTree, sameImage, exactImage, guard, under, noLeak } = require('../fsworld');

async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    k.mkdirp('/work/other/dir/sub'); k.put('/work/other/f1', 'outside one'); k.put('/work/other/dir/sub/f2', 'outside two');
    k.mkdirp('/work/z/neighbour'); k.put('/work/z/neighbour/n', 'n'); k.put('/work/z/file2', 'n2');
    const targets = ['/work/other', '/work/other/dir', '/work/other/f1', '/work/z', '../other/dir', '..'];
    const jobs = [];
    const total = c.weighted([[4, 1], [2, 2]]);
    for (let i = 0; i < total; i++) {
        const name = c.pick(['v', 'v.txt', 'file', 'neigh', ' v']) + i;
        const clear = c.chance(40);
        const job = { clear, path: '/work/z/' + name, blocked: false, kind: clear ? c.weighted([[9, 'dir'], [1, 'file'], [1, 'none']]) : c.weighted([[6, 'dir'], [3, 'file'], [5, 'link'], [1, 'fifo'], [1, 'none']]) };
        const v = job.path;
        if (job.kind === 'dir') {
            k.mkdirp(v);
            genTree(ctx, k, v, { min: c.int(0, 3), max: c.int(0, 12), links: c.pick([0, 3, 6]), fifos: c.pick([0, 0, 1]), targets });
            if (c.chance(6)) { const d = [...k.tree(v)].filter(([, n]) => n.type === 'dir'); if (d.length) { c.pick(d)[1].mode = c.pick([0o555, 0]); job.blocked = true; } }
        } else if (job.kind === 'file') k.put(v, 'content', c.pick([0o644, 0o400, 0]));
        else if (job.kind === 'link') k.as(1000, () => k.symlink(c.pick([...targets, 'missing', name, './neighbour', 'file2']), v));
        else if (job.kind === 'fifo') addNode(k, v, 'fifo');
        job.valid = clear ? job.kind === 'dir' : job.kind !== 'none';
        jobs.push(job);
    }
    // sometimes the second job names something inside the first one
    if (jobs.length === 2 && jobs[0].kind === 'dir' && c.chance(25)) {
        const inner = [...k.tree(jobs[0].path)];
        if (inner.length) {
            const [r, n] = c.pick(inner);
            k.ext(() => { const w = k.lookup(jobs[1].path); if (w && w.type !== 'dir') k.unlink(jobs[1].path); });
            jobs[1] = { clear: n.type === 'dir' && c.bool(), path: jobs[0].path + '/' + r, blocked: jobs[0].blocked, kind: n.type === 'symlink' ? 'link' : n.type, valid: true };
            for (const j of jobs) j.nested = true;
            ctx.probe('nested');
        }
    }
    for (const j of jobs) j.inside = k.lookup(j.path) ? [...k.tree(j.path)].map(([r, n]) => [j.path + '/' + r, n]) : [];
    const doomed = q => jobs.some(j => (j.clear ? q !== j.path && under(q, j.path) : under(q, j.path)));
    const before = k.freeze('/work');
    const keep = new Map([...before].filter(([r]) => !doomed('/work/' + r)));
    guard(ctx, k, (q, ch) => (ch.op === 'unlink' || ch.op === 'rmdir') && doomed(q) && jobs.some(j => j.valid && under(q, j.path)));
    for (const j of jobs) sim.at(c.int(0, 15), 'start', () => {
        const f = j.clear ? 'clearDir' : 'deleteOne';
        const arg = c.chance(40) ? posix.relative('/work', j.path) : j.path + (j.kind === 'dir' && c.chance(10) ? '/' : '');
        j.call = ctx.call(f, () => lib[f](arg));
        if (j.call.state !== 'pending') return;
    });
    sim.maxSteps = 8000;
    await sim.drive();
    if (sim.violations.length) return;
    const e = sameImage(k, '/work', keep);
    ctx.check(!e, 'removed-outside', () => e);
    for (const j of jobs) {
        const { call } = j, what = () => `${j.clear ? 'clearDir' : 'deleteOne'}(${j.path}) of a ${j.kind}: ${call.state} ${String(call.value && call.value.message || '').replace(/\u001b\[[0-9;]*m/g, '').slice(0, 300)}; left: ${describe(k.lookup(j.path))} ${showTree(k, j.path)}`;
        if (!ctx.check(call && call.state !== 'pending', 'never-settles', what)) return;
        if (call.state === 'fulfilled') {
            ctx.check(j.valid || j.nested, 'succeeded-on-nothing', what);
            if (j.clear) { if (!j.nested) { const n = k.lookup(j.path); ctx.check(n && n.type === 'dir', 'directory-removed', what); } } else ctx.check(!k.lookup(j.path), 'left-behind', what);
            for (const [q, n] of j.inside) ctx.check(k.lookup(q) !== n, 'left-behind', () => `${q}; ${what()}`);
            ctx.probe(j.clear ? 'cleared' : 'deleted-' + j.kind);
        } else {
            ctx.check(p.injected || !j.valid || j.blocked || j.nested, 'failed-without-reason', what);
            if (!j.valid && !j.nested) ctx.check(!k.lookup(j.path) === (j.kind === 'none'), 'removed-outside', what);
        }
    }
    noLeak(ctx, p);
    ctx.nontrivial();
}
module.exports = {
    property: 'S04', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'delete', run }],
    rule: 'Each run deletes or clears one or two entries (trees with links leading out of them, dangling and looping links, named pipes, unreadable directories, missing paths, sometimes one inside the other) under failing system calls; every run is non-trivial.',
    real: ['packages/fs deleteOne, clearDir, fileList, isDir, isFile'], stub: ['node:fs (simulated kernel, every system call a scheduling point)', 'path (real, simulated current directory)'],
    assumptions: ['no other process creates entries inside the tree while it is deleted', 'the directory to clear is not named through a symbolic link']
};
