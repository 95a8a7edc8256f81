'use strict';
const { win32, posix } = require('path');
const { world, faultPlan, sameImage, noLeak, winFs, toPosix } = require('../fsworld');
const { Procs } = require('../procsim');
const { psScript, psString } = require('../shells');
const { brief } = require('../run');

const NAMES = ['a', 'b c', 'f.txt', 'x.lnk.txt', '..x', 'ü', 'src', 'e.e', 'lnk'];
async function run(ctx) {
    const { c, sim } = ctx;
    const win = c.chance(70), path = win ? win32 : posix;
    const P = s => (win ? s.replace(/^\/([A-Z])\//, '$1:/').replace(/\//g, '\\') : s);
    const base = win ? '/C/work' : '/work';
    const src = base + c.pick(['/src', '/s p', '/deep/er/src']), dst = c.pick([base + '/dst', base + '/out/x', src + '/dst', win ? '/D/dst' : '/other/dst']);
    // shortcuts in the source folder: name -> { target, ok }
    const links = new Map();
    const flaky = c.chance(20);
    const procs = new Procs(sim, ch => {
        const script = psScript(ch.spawnfile === '/bin/sh' ? [] : ch.spawnargs.slice(1)) || ch.spawnargs.join(' ');
        const at = script.search(/CreateShortcut\s*\(/i);
        const s = at < 0 ? null : psString(script.slice(at).replace(/^CreateShortcut\s*\(/i, ''), {});
        const l = s && links.get(toPosix(s.value));
        if (!l || !l.ok) { sim.fault('shortcut-fails'); return { out: [{ fd: 2, data: Buffer.from('no'), delay: 0 }], exit: { code: 1 } }; }
        if (flaky && c.chance(30)) { sim.fault('shortcut-flaky'); l.missed = true; return c.bool() ? { spawnError: 'EAGAIN' } : { exit: { code: 1, delay: 3 } }; }
        return { out: [{ fd: 1, data: Buffer.from(P(l.target) + '\r\n'), delay: c.int(0, 20) }], exit: { code: 0 } };
    });
    const fp = faultPlan(c);
    const modules = { child_process: procs.module() };
    const w = world(ctx, { proc: fp, cwd: base, platform: win ? 'win32' : 'linux', lib: false });
    const { k, p } = w;
    const fs = win ? winFs(w.fs) : w.fs;
    const PM = win ? win32 : w.path;
    const env = ctx.env({ platform: win ? 'win32' : 'linux', modules: { fs, 'fs/promises': fs.promises, path: PM, 'path/win32': win32, 'path/posix': posix, readline: w.fs._readline, ...modules }, processProps: { cwd: () => (win ? 'C:\\work' : base) } });
    const lib = ctx.load('fs', env);
    k.mkdirp(src); k.mkdirp(win ? '/D/data' : '/other'); k.mkdirp(base + '/out');
    let seq = 0;
    // files: { path, want: Set of destinations }
    const files = [];
    const tree = (dir, place, depth) => {
        k.mkdirp(dir);
        for (let i = c.int(depth ? 0 : 1, 3); i > 0; i--) {
            const name = seq++ + c.pick(NAMES);
            if (depth < 3 && c.chance(35)) tree(dir + '/' + name, place + '/' + name, depth + 1);
            else { k.put(dir + '/' + name, 'content ' + name + ' '.repeat(c.int(0, 600))); files.push({ path: dir + '/' + name, want: new Set([place + '/' + name]) }); }
        }
    };
    tree(src, dst, 0);
    if (win) for (let i = c.weighted([[1, 0], [3, 1], [3, 2], [2, 3]]); i > 0; i--) {
        const stem = c.pick(['link', 'a b', 'doc.v1', 'x.txt']) + seq++;
        const at = src + '/' + stem + '.lnk';
        k.put(at, 'shortcut');
        const how = c.weighted([[5, 'dir'], [2, 'file'], [2, 'bad']]);
        const t = c.pick([`/D/data/t${seq++}`, `${src}-shared${seq++}`, `/C/work/else/t${seq++}`, `/C/t${seq++}.d`]);
        links.set(at, { target: t, ok: how !== 'bad' });
        if (how === 'dir') tree(t, dst + '/' + stem, 1);
        else if (how === 'file') { k.mkdirp(posix.dirname(t)); k.put(t, 'linked ' + t); files.push({ path: t, want: new Set([dst + '/' + stem]) }); }
        if (how === 'dir' && c.chance(15) && files.length) {
            // a second shortcut to the same folder: either place is right
            const second = 'again' + seq++;
            k.put(`${src}/${second}.lnk`, 'shortcut');
            links.set(`${src}/${second}.lnk`, { target: t, ok: true });
            for (const f of files) if (f.path.startsWith(t + '/')) f.want.add(dst + '/' + second + f.path.slice(t.length));
        }
    }
    if (win && c.chance(25)) { const at = src + '/folder.lnk'; k.put(at, 'shortcut'); links.set(at, { target: `/D/gone/${seq++}`, ok: true }); }
    if (c.chance(15)) files.push({ path: base + '-elsewhere/f' + seq, want: new Set(), stray: true });
    for (const f of files) if (f.stray) { k.mkdirp(posix.dirname(f.path)); k.put(f.path, 'stray'); }
    k.mkdirp(posix.dirname(dst)); if (c.bool()) k.mkdirp(dst);
    const root = '/', image = k.freeze(root);
    const calls = [];
    let order = files.slice();
    for (let n = Math.min(files.length, c.int(1, 5)); n > 0; n--) {
        const f = order.splice(c.raw(order.length), 1)[0];
        const what = c.pick(['path', 'make', 'copy']);
        const call = { f, what };
        calls.push(call);
        const messy = s => (c.chance(15) ? s + path.sep : c.chance(10) ? path.join(s, 'zz') + path.sep + '..' : s);
        const args = [P(f.path), messy(P(src)), messy(P(dst))];
        sim.at(c.int(0, 20), 'start', () => {
            call.obs = ctx.call(what, () => (what === 'copy' ? lib.copyFile(...args) : lib.destPath(...args, what === 'make' ? { isMakeDir: true } : c.pick([undefined, {}, { isMakeDir: false }]))));
        });
    }
    if (c.chance(5)) { const bad = [P(src + '/a'), P(src), P(dst)]; bad[c.raw(3)] = ''; const o = ctx.call('bad', () => lib.destPath(...bad)); calls.push({ f: null, what: 'bad', obs: o }); }
    await sim.drive();
    if (sim.violations.length) return;
    const lk = () => JSON.stringify([...links].map(([n, l]) => [n, l.ok ? l.target : null]));
    for (const { f, what, obs } of calls) {
        const info = () => `${what}(${f && P(f.path)}, ${P(src)}, ${P(dst)}) -> ${obs.state} ${obs.state === 'fulfilled' ? obs.value : brief(obs.value)}; right: ${f && [...f.want].map(P).join(' or ')}; shortcuts ${lk()}`;
        if (!ctx.check(obs && obs.state !== 'pending', 'never-settles', info)) return;
        if (what === 'bad') { ctx.check(obs.state === 'rejected', 'empty-path-accepted', info); continue; }
        if (obs.state === 'rejected') { ctx.check(p.injected, 'failed-without-reason', info); ctx.probe('rejected'); continue; }
        const got = win ? toPosix(obs.value) : obs.value;
        const missed = [...links.values()].some(l => l.missed);
        if (f.stray || (got === f.path && missed)) { ctx.check(got === f.path, 'wrong-place', info); ctx.probe('kept'); continue; }
        if (!ctx.check(f.want.has(got), 'wrong-place', info)) return;
        if (what !== 'path') { const n = k.lookup(posix.dirname(got), true); ctx.check(n && n.type === 'dir', 'folder-missing', info); }
        if (what === 'copy') { const a = k.lookup(f.path, true), b = k.lookup(got, true); ctx.check(b && b.type === 'file' && a.data.equals(b.data), 'not-copied', info); }
        ctx.probe(what + (f.path.startsWith(src + '/') ? '' : ' through a shortcut'));
    }
    const e = sameImage(k, root, image);
    ctx.check(!e, 'changed-something', () => e);
    // what appeared are destinations and their folders
    const may = new Set();
    for (const { f, what } of calls) if (f && what !== 'path') for (const d of f.want) { if (what === 'copy') may.add(d); for (let q = posix.dirname(d); q !== '/'; q = posix.dirname(q)) may.add(q); }
    for (const r of k.freeze(root).keys()) if (!image.has(r)) ctx.check(may.has('/' + r), 'appeared', () => `/${r}; ${lk()}`);
    noLeak(ctx, p);
    ctx.nontrivial();
}
module.exports = {
    property: 'S12', packages: ['fs'], runs: { quick: 45000, thorough: 400000 },
    scenarios: [{ name: 'places', run }],
    rule: 'Each run asks for the destinations of up to five files at once (below the source folder and below folders its shortcuts point to, on the same or another drive, with names that begin alike), or copies them there, while system calls and the shortcut resolver fail; every run is non-trivial.',
    real: ['packages/fs destPath, copyFile, diffFile, mkdir, isDir, readLnk', 'path.win32 and path.posix'], stub: ['node:fs (simulated kernel; Windows paths are mapped onto it)', 'child_process (shortcut resolver)'],
    assumptions: ['a file lies below the source folder or below the target of a shortcut directly in it; otherwise only its own path may be returned']
};
