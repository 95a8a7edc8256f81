'use strict';
const { world, faultPlan, exactImage, noLeak } = require('../fsworld');

const PIECES = ['alpha ', 'β', '漢字', '\u{1F600}', ' ', 'x'.repeat(40), 'é', 'tab\t', '\ufeff', '\0', '\u2028', '\v', 'a\u0301'];
async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c, { shortIo: c.weighted([[2, 0], [3, 40], [2, 90]]) }) });
    const jobs = [];
    for (let i = c.int(1, 3); i > 0; i--) {
        let text = '';
        const ascii = c.chance(30);
        for (let n = c.int(0, 12); n > 0; n--) text += c.chance(25) ? c.pick(['\n', '\r\n', '\n\n']) : ascii ? c.pick(['abc', 'd', ' ']) : c.pick(PIECES);
        if (c.chance(5)) text += 'y'.repeat(c.int(65500, 70000)) + '漢字\nend';
        if (ctx.big()) text += 'z\u6f22'.repeat(c.int(20000, 200000)) + '\nend';
        const data = Buffer.from(text);
        const edge = []; // byte offsets where a character starts (or the end)
        for (let b = 0; b <= data.length; b++) if (b === data.length || (data[b] & 0xc0) !== 0x80) edge.push(b);
        const aligned = c.chance(85);
        const at = () => (aligned ? c.pick(edge) : c.int(0, data.length));
        const start = c.weighted([[3, undefined], [6, at()], [1, data.length + c.int(1, 9)]]);
        let end = c.weighted([[7, Math.max(at() - 1, start || 0)], [2, data.length + c.int(0, 100)], [1, undefined], [1, 0]]);
        const first = c.weighted([[6, undefined], [1, false], [3, true]]);
        const mode = c.weighted([[9, 'ok'], [1, 'missing'], [1, 'dir'], [1, 'noaccess'], [1, 'bad']]);
        const o = {};
        if (start !== undefined) o.start = start;
        if (end !== undefined) o.end = end;
        if (first !== undefined) o.firstLine = first;
        const j = { path: '/work/f' + i, mode, o, data, aligned, first, none: !end };
        if (mode === 'bad') { if (c.bool()) o.end = c.pick([-1, 1.5, NaN, '5', 2 ** 53]); else o.start = c.pick([-1, 0.5, Infinity, 'x']); }
        if (mode === 'dir') k.mkdirp(j.path); else if (mode !== 'missing') k.put(j.path, data, mode === 'noaccess' ? 0 : c.pick([0o644, 0o444]));
        j.reversed = end > 0 && (start || 0) > end;
        j.want = data.subarray(start || 0, (end || 0) + 1).toString();
        jobs.push(j);
        sim.at(c.int(0, 6), 'start', () => { j.call = ctx.call('readFragment', () => lib.readFragment(j.path, o)); });
    }
    const image = k.freeze('/work');
    sim.maxSteps = 6000;
    await sim.drive();
    const bare = s => s.replace(/\ufffd/g, '');
    for (const j of jobs) {
        const { call } = j, what = () => `readFragment(${j.path}, ${JSON.stringify(j.o)}) of ${j.mode}, ${j.data.length} bytes ${JSON.stringify(j.data.toString()).slice(0, 200)}: ${call.state} ${JSON.stringify(call.value === undefined ? null : call.value instanceof Error ? call.value.message : call.value).slice(0, 300)}`;
        if (!ctx.check(call.state !== 'pending', 'never-settles', what)) return;
        if (call.state === 'fulfilled') {
            if (j.mode === 'bad') { ctx.fail('bad-range-accepted', what()); return; }
            if (j.none) { ctx.check(call.value === undefined, 'wrong-result', what); continue; }
            if (!ctx.check(j.mode === 'ok' && !j.reversed, 'succeeded-without-reading', what)) return;
            if (!ctx.check(typeof call.value === 'string', 'wrong-result', what)) return;
            let want = j.want, got = call.value;
            if (j.first) want = want.split(/\r?\n/)[0];
            // a range that ends between a line's CR and LF: either reading of its end is right
            if (j.first && want === j.want && want.endsWith('\r') && got === want.slice(0, -1)) got = want;
            const same = j.aligned ? got === want : bare(got) === bare(want);
            ctx.check(same, 'wrong-fragment', () => `expected ${JSON.stringify(want).slice(0, 300)}; ${what()}`);
            ctx.probe(j.first ? 'first-line' : 'fragment');
        } else ctx.check(p.injected || j.mode !== 'ok' || j.reversed, 'failed-without-reason', what);
    }
    noLeak(ctx, p);
    const e = exactImage(k, '/work', image);
    ctx.check(!e, 'changed-a-file', () => e);
    ctx.nontrivial();
}
module.exports = {
    property: 'S09', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'fragment', run }],
    rule: 'Each run reads one to three byte ranges at once (inside, past the end, first line only, missing or unreadable files, invalid ranges) while reads are split at random bytes and fail; every run is non-trivial.',
    real: ['packages/fs readFragment', 'Node fs.ReadStream'], stub: ['node:fs system calls (simulated kernel)'],
    assumptions: ['an end of 0 asks for nothing, as documented', 'where a range cuts a character in half only the whole characters are compared']
};
