'use strict';
const { world, faultPlan, describe, exactImage, noLeak } = require('../fsworld');

function bytes(c, n) {
    const b = Buffer.alloc(n), mode = c.raw(3), s = c.raw(251);
    for (let i = 0; i < n; i++) b[i] = mode === 0 ? 0x61 + ((i + s) % 26) : mode === 1 ? (i * 31 + s) & 0xff : 0;
    return b;
}
const size = c => c.weighted([[2, 0], [3, c.int(1, 20)], [4, c.pick([511, 512, 513, 1023, 1024, 1025, 1536, 2048])], [2, c.int(500, 2600)], [1, c.chance(8) ? c.int(140001, 2000000) : c.int(4000, 140000)]]);
async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c, { shortIo: c.weighted([[2, 0], [2, 40], [1, 95]]) }) });
    const pairs = [];
    for (let i = c.int(1, 3); i > 0; i--) {
        const a = `/work/a${i}`, b = `/work/b${i}`;
        const d = bytes(c, size(c));
        let e;
        switch (c.raw(8)) {
            case 0: case 1: case 2: e = Buffer.from(d); break;
            case 3: e = Buffer.concat([d, Buffer.alloc(c.pick([1, 5, 512 - (d.length % 512), 512, 600]))]); break;
            case 4: e = Buffer.from(d); if (e.length) e[c.pick([0, e.length - 1, c.int(0, e.length - 1)])] ^= c.pick([1, 0x80]); break;
            case 5: e = d.subarray(0, c.pick([Math.max(0, d.length - 1), Math.floor(d.length / 512) * 512, c.int(0, d.length)])); break;
            case 6: e = Buffer.concat([d, d.subarray(0, c.int(0, d.length))]); break;
            default: e = bytes(c, d.length);
        }
        k.put(a, d); k.put(b, e);
        let can = true, pa = a, pb = b;
        switch (c.weighted([[8, 0], [1, 1], [1, 2], [1, 3], [1, 4], [1, 5]])) {
            case 1: k.ext(() => k.unlink(c.bool() ? a : b)); can = false; break;
            case 2: k.lookup(c.bool() ? a : b).mode = 0; can = false; break;
            case 3: k.ext(() => k.unlink(b)); k.mkdirp(b); can = false; break;
            case 4: pb = pa; e = d; break;
            case 5: k.as(1000, () => k.symlink(`b${i}`, '/work/l' + i)); pb = '/work/l' + i; break;
        }
        if (c.chance(30)) [pa, pb] = [pb, pa];
        if (c.chance(30)) { pa = pa.slice(6); }
        pairs.push({ pa, pb, can, equal: d.equals(e), d, e, call: null, at: c.int(0, 10) });
    }
    const image = k.freeze('/work');
    for (const q of pairs) sim.at(q.at, 'start', () => { q.call = ctx.call('diffFile', () => lib.diffFile(q.pa, q.pb)); });
    await sim.drive();
    for (const q of pairs) {
        const { call } = q, what = () => `diffFile(${q.pa}, ${q.pb}) with ${q.d.length} and ${q.e.length} bytes, ${q.can ? 'readable' : 'not both readable'}, ${q.equal ? 'equal' : 'different'}: ${call.state} ${String(call.value).slice(0, 200)}`;
        ctx.check(call.state !== 'pending', 'never-settles', what);
        if (call.state === 'fulfilled') {
            ctx.check(typeof call.value === 'boolean', 'wrong-result', what);
            if (call.value) ctx.check(q.can && q.equal, 'different-reported-equal', what);
            else ctx.check(!(q.can && q.equal) || p.injected, 'equal-reported-different', what);
            ctx.probe(call.value ? 'equal' : 'different');
        } else ctx.check(p.injected || !q.can, 'failed-without-reason', what);
        if (call.state === 'rejected') ctx.probe('rejected');
    }
    noLeak(ctx, p);
    const e = exactImage(k, '/work', image);
    ctx.check(!e, 'changed-a-file', () => e);
    ctx.nontrivial();
}
module.exports = {
    property: 'S05', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'diffFile', run }],
    rule: 'Each run compares one to three pairs of files at once (equal, one bit different, truncated, zero padded, sizes around multiples of 512, missing, unreadable, directories) with short reads and failing system calls; every run is non-trivial.',
    real: ['packages/fs diffFile'], stub: ['node:fs (simulated kernel, every system call a scheduling point)'],
    assumptions: ['the files do not change while they are compared']
};
