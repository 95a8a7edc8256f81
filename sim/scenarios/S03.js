'use strict';
const posix = require('path').posix;
const { world, faultPlan, genTree, describe, exactImage, sameImage, guard, under, noLeak, content } = require('../fsworld');

// Synchronising one file; the process or the machine may die in the middle, then it is run again.
async function run(ctx) {
    const { c, sim } = ctx;
    const crash = c.chance(35);
    const plan = faultPlan(c, crash ? { crashAt: c.int(1, 24) } : {});
    const { k, p, lib } = world(ctx, { proc: plan });
    k.mkdirp('/work/src/sub/deep');
    genTree(ctx, k, '/work/src', { max: 4, links: 1 });
    const rel = c.pick(['f', 'sub/f', 'sub/deep/f.txt', 'sub/f f']);
    const data = content(c);
    const srcMode = c.weighted([[6, 0o644], [2, 0o444]]);
    const old = k.lookup('/work/src/' + rel);
    if (old && old.type !== 'file') return;
    k.put('/work/src/' + rel, data, srcMode);
    k.mkdirp('/work/keep'); k.put('/work/keep/x', 'keep');
    const desDir = c.pick(['/work/dst', '/work/new/dst', '/work/dst']);
    const dest = desDir + '/' + rel;
    let conflict = false, readonly = false;
    const state = c.weighted([[3, 'absent'], [2, 'same'], [6, 'different'], [1, 'dir']]);
    if (state === 'dir') { k.mkdirp(dest); k.put(dest + '/inside', 'keep too'); conflict = true; }
    else if (state !== 'absent') {
        k.mkdirp(posix.dirname(dest));
        let d = data;
        if (state === 'different') {
            switch (c.raw(6)) {
                case 0: d = Buffer.concat([data, Buffer.alloc(c.int(1, 600))]); break; // zero padded
                case 1: d = data.subarray(0, c.int(0, data.length)); break;
                case 2: d = Buffer.from(data); if (d.length) d[c.int(0, d.length - 1)] ^= 1; break; // same size, one bit
                case 3: d = Buffer.alloc(data.length); break;
                case 4: d = Buffer.concat([data, data]); break;
                default: d = content(c);
            }
        }
        readonly = c.chance(20);
        k.put(dest, d, readonly ? 0o444 : 0o644);
    } else if (c.bool()) k.mkdirp(desDir);
    const forcibly = c.weighted([[3, undefined], [1, true], [1, false]]);
    const opts = forcibly === undefined ? c.pick([undefined, {}]) : { forcibly };
    k.syncAll();
    const before = k.freeze('/work');
    const others = new Map([...before].filter(([r]) => '/work/' + r !== dest));
    guard(ctx, k, (q, ch) => q === dest || (ch.op === 'mkdir' && under(dest, q)));
    const form = c.raw(3);
    const args = form === 0 ? ['/work/src/' + rel, '/work/src', desDir] : form === 1 ? ['src/' + rel, 'src', posix.relative('/work', desDir)] : ['/work/src/../src/' + rel, '/work/src/', desDir + '/'];
    const verify = (call, proc, label, excuse) => {
        const e = sameImage(k, '/work', others);
        ctx.check(!e, 'other-entry-changed', () => `${e} (${label}, ${call.state})`);
        if (call.state === 'fulfilled') {
            const n = k.lookup(dest);
            ctx.check(n && n.type === 'file' && n.data.equals(data), 'wrong-destination', () => `${label} succeeded but ${dest} is ${describe(n)}, the source has ${data.length} bytes (${state})`);
            ctx.check(typeof call.value === 'string' && posix.resolve('/work', call.value) === dest, 'wrong-result', () => `${label} returned ${call.value}, expected ${dest}`);
        } else if (call.state === 'rejected') ctx.check(excuse, 'failed-without-reason', () => `${label}: ${String(call.value && call.value.message).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 500)} (destination ${state}${readonly ? ', read-only' : ''})`);
        else ctx.check(proc.dead, 'never-settles', label);
        if (!proc.dead) noLeak(ctx, proc);
    };
    const call = ctx.call('copyFile', () => lib.copyFile(...args, opts));
    await sim.drive();
    verify(call, p, 'first run', p.injected || conflict || (readonly && forcibly === false) || (srcMode === 0o444 && forcibly === false));
    if (sim.violations.length || conflict) { ctx.nontrivial(); return; }
    if (p.dead && c.bool()) { k.powerLoss(c); ctx.probe('power-loss'); }
    // run it again, without faults
    const w2 = world(ctx, { kernel: k, proc: { shortIo: plan.shortIo } });
    const again = ctx.call('copyFile again', () => w2.lib.copyFile(...args));
    await sim.drive();
    verify(again, w2.p, 'second run', false);
    if (p.dead) ctx.probe('rerun-after-crash'); else if (call.state === 'rejected') ctx.probe('rerun-after-failure');
    ctx.nontrivial();
}
// Source and destination are the same file under two names, or one is a link to the other.
async function alias(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c, { faultRate: c.pick([0, 15, 40, 80]), maxFaults: c.int(1, 3) }) });
    const data = content(c), rel = c.pick(['f', 'sub/f', 'sub/f f']);
    const kind = c.pick(['same folder', 'linked folder', 'link to the source', 'hard link', 'link as source']);
    k.mkdirp('/work/src/sub'); k.mkdirp('/work/up');
    const from = '/work/src/' + rel;
    let dst = '/work/dst', real = from;
    if (kind === 'link as source') { real = '/work/dst/' + rel; k.mkdirp(posix.dirname(real)); k.put(real, data); k.as(1000, () => k.symlink(real, from)); } else k.put(from, data, c.weighted([[6, 0o644], [1, 0o444]]));
    if (kind === 'same folder') dst = c.pick(['/work/src', '/work/src/', '/work/src/sub/..']);
    if (kind === 'linked folder') k.as(1000, () => k.symlink(c.pick(['/work/src', 'src']), dst));
    if (kind === 'link to the source') { k.mkdirp(posix.dirname('/work/dst/' + rel)); k.as(1000, () => k.symlink(from, '/work/dst/' + rel)); }
    if (kind === 'hard link') { k.mkdirp(posix.dirname('/work/dst/' + rel)); k.as(1000, () => k.link(from, '/work/dst/' + rel)); }
    const intact = () => { const n = k.lookup(real, true); return n && n.type === 'file' && n.data.equals(data); };
    k.listeners.push(ch => { if (!intact()) ctx.fail('source-damaged', `${kind}: after ${ch.op} on ${ch.path} the source file is ${describe(k.lookup(real, true))}`); });
    const opts = c.pick([undefined, {}, { forcibly: true }, { forcibly: false }]);
    const call = ctx.call('copyFile', () => lib.copyFile(from, '/work/src', dst, opts));
    await sim.drive();
    const what = () => `${kind}, ${JSON.stringify(opts)}: ${call.state} ${String(call.value && call.value.message || call.value).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 300)}`;
    ctx.check(call.state !== 'pending', 'never-settles', what);
    ctx.check(intact(), 'source-damaged', what);
    if (call.state === 'fulfilled') { const n = k.lookup(posix.resolve('/work', call.value), true); ctx.check(n && n.type === 'file' && n.data.equals(data), 'wrong-destination', what); ctx.probe('alias ' + kind); } else ctx.check(p.injected, 'failed-without-reason', what);
    noLeak(ctx, p);
    ctx.nontrivial();
}
module.exports = {
    property: 'S03', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'copyFile', weight: 5, run }, { name: 'alias', weight: 1, run: alias }],
    rule: 'Each run synchronises one file onto an absent, equal, subtly different, read-only or blocked destination, with failing system calls, a process crash before a random system call or a power loss, and then repeats the call without faults; or source and destination are one file under two names or links to each other.',
    real: ['packages/fs copyFile, destPath, diffFile, deleteOne, mkdir'], stub: ['node:fs (simulated kernel, every system call a scheduling point)', 'path (real, simulated current directory)'],
    assumptions: ['the source file lies inside the source directory and is readable', 'after a power loss directory entries survive while unsynced file data may be lost, truncated or zeroed']
};
