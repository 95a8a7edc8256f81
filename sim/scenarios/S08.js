'use strict';
const { world, faultPlan, exactImage, noLeak } = require('../fsworld');

const PIECES = ['alpha', 'β', '漢字', '\u{1F600}', '', ' ', 'x'.repeat(40), 'é', 'tab\t', 'line\u2028sep', 'z', '\u0085', '\u2029x', '\ufeff', '\ufeffb', '\0', '\v', '\f', '  two', 'a\u0301', '\u200b', '\ufffd'];
function makeText(c, big, many) {
    let s = '';
    const ends = c.pick([['\n'], ['\r\n'], ['\n', '\r\n'], ['\n', '\r\n', '\r'], ['\r']]);
    for (let n = c.weighted([[1, 0], [5, c.int(1, 8)], [2, c.int(9, 40)]]) + many; n > 0; n--) {
        for (let m = c.int(0, 3); m > 0; m--) s += c.pick(PIECES);
        s += c.pick(ends);
    }
    if (big) s += 'y'.repeat(c.int(65500, 65540)) + c.pick(['\r\n', '\n', '漢\r\n', '\r']) + 'after';
    if (c.chance(40)) s += c.pick(['last', '漢', '\u{1F600}']);
    return s;
}
function linesOf(s) { const l = s.split(/\r\n|\n|\r/); if (l[l.length - 1] === '') l.pop(); return l; }

async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c, { shortIo: c.weighted([[2, 0], [3, 40], [2, 90]]), latency: c.pick([0, 5, 90, 400]) }) });
    const jobs = [];
    for (let i = c.int(1, 2); i > 0; i--) {
        const enc = c.weighted([[6, 'utf8'], [1, 'utf16le'], [1, 'latin1']]);
        let text = makeText(c, c.chance(6), ctx.big() ? c.int(300, 5000) : 0);
        if (enc === 'latin1') text = text.replace(/[^\x00-\xff]/g, 'é');
        const j = { text, path: '/work/f' + i, enc, want: linesOf(text), got: [], mode: c.weighted([[8, 'ok'], [1, 'missing'], [1, 'dir'], [1, 'noaccess']]) };
        if (j.mode === 'missing') { /* nothing */ } else if (j.mode === 'dir') k.mkdirp(j.path); else k.put(j.path, Buffer.from(text, enc), j.mode === 'noaccess' ? 0 : 0o644);
        j.cb = c.bool();
        const cb = function (l) { ctx.check(j.call && j.call.state === 'pending', 'line-after-settling', () => JSON.stringify(l)); j.got.push(l); };
        const args = [j.path];
        if (enc !== 'utf8' || c.bool()) args.push(enc);
        if (j.cb) args.push(cb);
        jobs.push(j);
        sim.at(c.int(0, 5), 'start', () => { j.call = ctx.call('readlineStream', () => lib.readlineStream(...args)); });
    }
    const image = k.freeze('/work');
    sim.maxSteps = 6000;
    await sim.drive();
    for (const j of jobs) {
        const { call } = j, what = () => `readlineStream(${j.path}, ${j.enc}${j.cb ? ', callback' : ''}) of ${j.mode === 'ok' ? JSON.stringify(j.want).slice(0, 300) : j.mode}: ${call.state} ${JSON.stringify(call.value === undefined ? null : call.value instanceof Error ? call.value.message : call.value).slice(0, 300)}`;
        ctx.check(call.state !== 'pending', 'never-settles', what);
        if (call.state === 'fulfilled') {
            if (!ctx.check(j.mode === 'ok', 'succeeded-without-reading', what)) return;
            const got = j.cb ? j.got : call.value;
            if (j.cb) ctx.check(call.value === true, 'wrong-result', what);
            const same = Array.isArray(got) && got.length === j.want.length && got.every((x, i) => x === j.want[i]);
            // the same content split in memory gives the same lines, and the code variant also ends lines at NEL, LS and PS
            for (const [name, want] of [['readline', [...j.want]], ['readlineFromCode', j.text.split(/\r\n|[\n\r\u0085\u2028\u2029]/)]]) {
                if (name === 'readline' && (j.text === '' || /[\r\n]$/.test(j.text))) want.push('');
                for (const form of ['text', 'bytes']) {
                    const back = [];
                    const data = form === 'text' ? j.text : Buffer.from(j.text, j.enc), viaCb = j.cb;
                    const out = viaCb ? lib[name](data, j.enc, (l, done) => { back.push([l, done]); }) : lib[name](data, j.enc);
                    if (viaCb) ctx.check(out === null && back.every((b, i) => b[1] === (i === back.length - 1)), 'wrong-in-memory', () => `${name} (${form}) with a callback returned ${JSON.stringify(out)}, flags ${JSON.stringify(back.map(b => b[1]))}`);
                    const lines = viaCb ? back.map(b => b[0]) : out;
                    ctx.check(Array.isArray(lines) && lines.length === want.length && lines.every((l, i) => l === want[i]), 'in-memory-differs', () => `${name} of the same ${form} (${j.enc}) gave ${JSON.stringify(lines).slice(0, 300)} instead of ${JSON.stringify(want).slice(0, 300)}`);
                }
            }
            ctx.check(same, 'wrong-lines', () => { const i = Array.isArray(got) ? j.want.findIndex((x, n) => x !== got[n]) : -1; return `${Array.isArray(got) ? got.length : String(got)} line(s) instead of ${j.want.length}; first difference at ${i}: ${JSON.stringify(got && got[i])} instead of ${JSON.stringify(j.want[i])}; ${what()}`; });
            ctx.probe('read');
        } else if (call.state === 'rejected') {
            ctx.check(p.injected || j.mode !== 'ok', 'failed-without-reason', what);
            // what was delivered before the failure is a prefix (its last line may be cut short)
            ctx.check(j.got.every((x, i) => x === j.want[i]), 'wrong-lines-before-failure', () => `${JSON.stringify(j.got)}; ${what()}`);
            ctx.probe('read-rejected');
        }
    }
    noLeak(ctx, p);
    const e = exactImage(k, '/work', image);
    ctx.check(!e, 'changed-a-file', () => e);
    ctx.nontrivial();
}
module.exports = {
    property: 'S08', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'lines', run }],
    rule: 'Each run reads one or two files by lines at once (all line endings, multi-byte text, empty files, three encodings) while reads are split at random bytes, delayed by up to 0.4 s and failing; every run is non-trivial.',
    real: ['packages/fs readlineStream, isFile, readline, readlineFromCode', 'Node readline and fs.ReadStream'], stub: ['node:fs system calls (simulated kernel)', 'the clock readline measures the CR/LF gap with'],
    assumptions: ['files are readable and writable by their owner (the package opens them with r+)', 'the callback does not throw']
};
