'use strict';
const posix = require('path').posix;
const { world, faultPlan, describe, sameImage, guard, under, noLeak } = require('../fsworld');

const TEXTS = ['', 'hello', 'line 1\nline 2\r\n', 'naïve café', '漢字かな交じり文', '\u{1F600}\u{1F468}\u200d\u{1F469}', '\ufeffwith mark', 'x'];
function text(c) {
    const n = c.weighted([[4, 1], [2, c.int(2, 20)], [1, c.chance(8) ? c.int(901, 40000) : c.int(100, 900)]]);
    return c.pick(TEXTS).repeat(n);
}
const lenEnc = { utf8: 1, 'utf-8': 1, latin1: 1, utf16le: 1, base64: 1, hex: 1 };
function payload(c) {
    switch (c.weighted([[5, 's'], [2, 'b'], [3, 'o'], [2, 'a']])) {
        case 's': { const t = text(c); return { value: t, kind: 'text' }; }
        case 'b': { const t = text(c); return c.bool() ? { value: Buffer.from(t), kind: 'bytes' } : { value: new Uint8Array(Buffer.from(t)), kind: 'bytes' }; }
        case 'o': return { value: c.pick([{ a: 1 }, { 'ключ': 'значение', nested: { x: [1, 2, { y: null }] } }, { s: text(c) }, { und: undefined, d: 0 }, { a: 1, toJSON() { return { z: [1] }; } }, Object.create(null, { k: { value: 'v', enumerable: true } })]), kind: 'json' };
        default: return { value: c.pick([[1, 2, 3], ['é', { a: [] }], [null], [text(c)]]), kind: 'json' };
    }
}
const bytesOf = (p, enc) => (p.kind === 'json' ? Buffer.from(JSON.stringify(p.value), enc) : p.kind === 'text' ? Buffer.from(p.value, enc) : Buffer.from(p.value));

async function run(ctx) {
    const { c, sim } = ctx;
    const small = c.chance(15);
    const { k, p, lib } = world(ctx, { capacity: small ? c.int(50, 3000) : undefined, proc: faultPlan(c) });
    k.mkdirp('/work/d');
    const paths = c.shuffle(['/work/f1', '/work/d/f2', '/work/n1/n2/f3', '/work/n1/f4.json', '/work/ro/f5']).slice(0, c.int(1, 4));
    const asked = []; // folders a write may make
    k.mkdirp('/work/ro'); if (c.chance(30)) k.lookup('/work/ro').mode = 0o555;
    k.put('/work/bystander', 'stay');
    const keep = new Map([...k.freeze('/work')].filter(([r]) => r === 'bystander'));
    guard(ctx, k, (q, ch) => paths.includes(q) || (ch.op === 'mkdir' && paths.some(f => under(f, q))));
    const waiting = [];
    async function done(obs) { while (obs.state === 'pending' && !sim.ended) await new Promise(r => waiting.push(r)); }
    sim.stepHooks.push(() => { const w = waiting.splice(0); for (const r of w) r(); });
    const jobs = [];
    for (const path of paths) {
        // the operations on one path run one after another, different paths at the same time
        const log = [];
        jobs.push((async () => {
            let known = null; // null: no such file; Buffer: exactly this; undefined: unknown (after a failed write)
            if (c.chance(30) && k.lookup(posix.dirname(path))) { known = Buffer.from(text(c)); k.put(path, known); }
            for (let i = c.int(1, 5); i > 0; i--) {
                if (c.chance(50)) await new Promise(r => sim.at(c.int(1, 10), 'wait', r));
                const injected = p.injected, full = k.capacity - k.used;
                if (c.chance(60)) {
                    const pl = payload(c);
                    const enc = c.weighted([[5, undefined], [1, 'utf8'], [1, 'utf16le'], [1, 'latin1'], [1, 'base64']]);
                    const flag = c.weighted([[5, undefined], [3, 'a'], [1, 'a+'], [2, 'w'], [1, 'wx']]);
                    const isMkdir = c.weighted([[2, undefined], [3, true], [1, false]]);
                    const bad = c.chance(8) ? c.pick(['circular', 'undefined', 'bigint']) : null;
                    let value = pl.value;
                    if (bad === 'circular') { value = { a: {} }; value.a.b = value; } else if (bad === 'undefined') value = undefined; else if (bad === 'bigint') value = { n: 1n };
                    const o = {};
                    if (enc) o.encoding = enc;
                    if (flag) o.flag = flag;
                    const mode = c.weighted([[6, undefined], [1, 0o600], [1, 0o644], [1, 0o666], [1, 0o777]]);
                    if (mode !== undefined) o.mode = mode;
                    if (isMkdir !== undefined) o.isMkdir = isMkdir;
                    const isFormat = c.weighted([[6, undefined], [1, true], [1, false]]);
                    if (isFormat !== undefined && !(isFormat === false && Array.isArray(value))) o.isFormat = isFormat; // (unserialised arrays are iterables of chunks)
                    const raw = o.isFormat === false && pl.kind === 'json' && !bad;
                    const input = JSON.stringify(o);
                    const parent = k.lookup(posix.dirname(path));
                    const possible = (parent ? !(parent.mode === 0o555 && known === null) : isMkdir === true) && !(flag === 'wx' && known !== null) && !bad && !raw;
                    if (isMkdir !== false) asked.push(posix.dirname(path));
                    const snapshot = k.content(path);
                    const obs = ctx.observe(lib.writeFile(path, value, Object.keys(o).length ? o : undefined), 'writeFile ' + path);
                    await done(obs);
                    const what = () => `writeFile(${path}, ${pl.kind} ${bad || ''}, ${input}) ${obs.state} ${String(obs.value && obs.value.message || '').replace(/\u001b\[[0-9;]*m/g, '').slice(0, 200)}`;
                    if (obs.state === 'fulfilled') {
                        if (!ctx.check(!bad && !raw, 'accepted-unwritable-data', what)) return;
                        if (!ctx.check(parent || asked.some(d => (d + '/').startsWith(posix.dirname(path) + '/')), 'made-a-folder-unasked', what)) return;
                        if (snapshot === null) ctx.check((k.lookup(path).mode & 0o777) === ((mode ?? 0o755) & ~0o022), 'wrong-mode', () => `${what()} made a file with mode 0${k.lookup(path).mode.toString(8)}`);
                        const want = (flag || 'w+')[0] === 'a' && known ? Buffer.concat([known, bytesOf(pl, enc || 'utf8')]) : bytesOf(pl, enc || 'utf8');
                        const got = k.content(path);
                        if (known === undefined && (flag || 'w')[0] === 'a') known = got; // after an unknown state only the tail is known
                        else { if (!ctx.check(got && got.equals(want), 'acknowledged-write-incomplete', () => `${what()}: ${got ? got.length : 'no'} bytes on disk, expected ${want.length}`)) return; known = Buffer.from(want); }
                        if (flag === 'wx') ctx.check(snapshot === null, 'exclusive-write-replaced', what);
                        ctx.probe('written');
                    } else {
                        const excuse = p.injected > injected || !possible || k.capacity - k.used < 20000;
                        if (!ctx.check(excuse, 'failed-without-reason', what)) return;
                        const got = k.content(path);
                        if (bad || raw || (flag === 'wx' && snapshot)) ctx.check(snapshot ? got && got.equals(snapshot) : got === null, 'refused-write-changed-the-file', what);
                        known = (known === null && !got) || (snapshot && got && got.equals(snapshot) && known !== undefined) ? known : undefined;
                        ctx.probe('write-rejected');
                    }
                } else {
                    const enc = c.weighted([[5, undefined], [1, 'utf8'], [1, 'utf16le'], [1, 'latin1'], [1, 'base64'], [1, 'hex']]);
                    const obs = ctx.observe(lib.readFile(path, enc ? { encoding: enc } : undefined), 'readFile ' + path);
                    await done(obs);
                    const disk = k.content(path);
                    const what = () => `readFile(${path}, ${enc}) ${obs.state}`;
                    if (obs.state === 'fulfilled') {
                        if (!ctx.check(disk && obs.value === disk.toString(enc || 'utf8'), 'wrong-content-read', () => `${what()}: ${String(obs.value).length} characters, the file has ${disk ? disk.length + ' bytes' : 'gone'}`)) return;
                        if (known !== undefined) ctx.check(known && known.equals(disk), 'model-mismatch', () => `${what()} file differs from what was written`);
                        ctx.probe('read');
                    } else { if (!ctx.check(p.injected > injected || disk === null, 'failed-without-reason', () => `${what()} ${String(obs.value && obs.value.message).slice(0, 200)}`)) return; ctx.probe('read-rejected'); }
                }
            }
        })());
    }
    const all = ctx.observe(Promise.all(jobs), 'all');
    for (let z = 0; z < 6 && all.state === 'pending' && !sim.violations.length; z++) { await sim.drive(); for (const r of waiting.splice(0)) r(); await sim.drain(3); }
    if (all.state === 'rejected') throw all.value;
    if (sim.violations.length) return;
    ctx.check(all.state === 'fulfilled', 'never-settles', 'a read or write did not settle');
    const e = sameImage(k, '/work', keep);
    ctx.check(!e, 'other-file-changed', () => e);
    noLeak(ctx, p);
    ctx.nontrivial();
}
module.exports = {
    property: 'S06', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'files', run }],
    rule: 'Each run performs up to five reads and writes on each of up to four paths (paths at the same time, operations of one path in order) with all data kinds, encodings and flags, under short and failing system calls and a filling disk; every run is non-trivial.',
    real: ['packages/fs writeFile, readFile, mkdir'], stub: ['node:fs (simulated kernel, every system call a scheduling point; write loop as in Node)', 'path (real)'],
    assumptions: ['a path has one writer at a time', 'files are readable and writable by their owner']
};
