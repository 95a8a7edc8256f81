'use strict';
const { posix, win32 } = require('path');
const { Procs } = require('../procsim');
const { psScript, psString } = require('../shells');
const { world, faultPlan, genTree, describe, showTree, exactImage, sameImage, noLeak, winFs, toPosix, sameCase } = require('../fsworld');

const NAMES = ['a', 'b', 'c.txt', 'lib', 'x', 'node_modules', 'dist', 'a.b', '.hid', 'short.lnk', 'e e', 'ü', 'x.lnk', 'xlib', 'LIB', 'lib ', 'a\nb', '..x'];
const FOLDERS = ['node_modules', 'dist', 'lib', 'x', 'a'];

async function run(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    k.mkdirp('/work/out/lib/x'); k.put('/work/out/f', 'o'); k.mkdirp('/work/out/node_modules');
    const root = c.pick(['/work/r', '/work/deep/r', '/work/lib']);
    k.mkdirp(root);
    genTree(ctx, k, root, { min: c.int(0, 3), max: c.int(1, 22), depth: 5, links: c.pick([0, 1, 3]), fifos: c.pick([0, 0, 1]), names: NAMES, targets: ['/work/out', '/work/out/lib', '..', '.'], content: () => 'x' });
    let blocked = null;
    if (c.chance(10)) { const d = [...k.tree(root)].filter(([, n]) => n.type === 'dir'); if (d.length) { const [r, n] = c.pick(d); n.mode = 0; blocked = root + '/' + r; } }
    // an unrelated process adds and removes entries while the listing runs
    const volatile = new Set();
    const dirs = ['', ...[...k.tree(root)].filter(([, n]) => n.type === 'dir').map(([r]) => r)];
    const image = k.freeze(root);
    if (c.chance(25)) for (let i = c.int(1, 3); i > 0; i--) {
        const d = c.pick(dirs), full = root + (d && '/' + d) + '/tmp' + i;
        volatile.add(full);
        sim.at(c.int(0, 25), 'other process', () => { k.ext(() => k.put(full, 't')); sim.fault('concurrent-create'); });
        if (c.bool()) sim.at(c.int(26, 60), 'other process', () => { k.ext(() => k.unlink(full)); sim.fault('concurrent-remove'); });
    }
    const calls = [];
    for (let i = c.int(1, 3); i > 0; i--) {
        const what = c.weighted([[3, 'deep'], [1, 'shallow'], [3, 'find']]);
        const missing = c.chance(5);
        const dir = missing ? root + '/missing' : c.chance(20) ? root + (c.pick(dirs.slice(0, 3)).replace(/^(?=.)/, '/')) : root;
        const arg = c.chance(40) ? posix.relative('/work', dir) : dir + (c.chance(15) ? '/' : '');
        const folders = c.pick([FOLDERS, c.pick(FOLDERS), [c.pick(FOLDERS), c.pick(FOLDERS)], [], 'nosuch']);
        const call = { what, dir, missing, folders };
        calls.push(call);
        sim.at(c.int(0, 12), 'start', () => {
            call.startFaults = p.injected;
            call.obs = ctx.call(what, () => (what === 'find' ? lib.findDir(arg, folders) : lib.fileList(arg, what === 'shallow' ? { depthOnce: true } : c.pick([undefined, {}, { depthOnce: false }]))));
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const call of calls) {
        const { what, dir, obs } = call;
        const clean = s => String(s && s.message || s).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 300);
        const node = [...image].filter(([r]) => { const full = root + '/' + r; return full !== dir && (dir === root || full.startsWith(dir + '/')); }).map(([r, n]) => [root + '/' + r, n]);
        const reach = full => !(blocked && full !== blocked && full.startsWith(blocked + '/')); // below the unreadable directory
        const hit = blocked && !call.missing && (blocked === dir || blocked.startsWith(dir + '/') || dir.startsWith(blocked + '/'));
        const detail = () => `${what}(${dir}${what === 'find' ? ', ' + JSON.stringify(call.folders) : ''}) gave ${obs.state} ${obs.state === 'fulfilled' ? JSON.stringify(obs.value) : clean(obs.value)}; tree ${showTree(k, root)}${blocked ? '; unreadable ' + blocked : ''}`;
        if (!ctx.check(obs && obs.state !== 'pending', 'never-settles', detail)) return;
        if (obs.state === 'rejected') {
            ctx.check(what === 'find' ? false : p.injected || call.missing || hit, 'failed-without-reason', detail);
            ctx.probe('listing-rejected');
            continue;
        }
        if (!ctx.check(Array.isArray(obs.value) && obs.value.every(x => typeof x === 'string'), 'wrong-result', detail)) return;
        if (what !== 'find' && call.missing) { ctx.fail('listed-a-missing-directory', detail()); return; }
        let want;
        if (what === 'shallow') want = node.map(([f]) => f).filter(f => posix.dirname(f) === dir);
        else if (what === 'deep') want = node.filter(([, n]) => n.t !== 'dir').map(([f]) => f);
        else {
            const names = typeof call.folders === 'string' ? [call.folders] : call.folders;
            want = call.missing ? [] : node.filter(([f, n]) => n.t === 'dir' && names.includes(posix.basename(f)) && !posix.relative(dir, posix.dirname(f)).split('/').some(x => names.includes(x))).map(([f]) => f).filter(reach);
            if (blocked && dir.startsWith(blocked + '/')) want = [];
        }
        const got = obs.value.map(x => (what === 'shallow' ? dir + '/' + x : posix.resolve('/work', x)));
        const seen = new Set();
        for (const g of got) {
            if (!ctx.check(!seen.has(g), 'listed-twice', () => g + '; ' + detail())) return;
            seen.add(g);
            if (!ctx.check(want.includes(g) || (volatile.has(g) && what !== 'find'), 'listed-wrongly', () => g + '; ' + detail())) return;
        }
        for (const w of want) if (!seen.has(w)) {
            if (what === 'find' && p.injected) continue; // a search skips what it cannot read
            ctx.fail(what === 'find' ? 'directory-not-found' : 'entry-dropped', `${w}; ${detail()}`);
            return;
        }
        if (what !== 'find' && hit && what === 'deep') { ctx.fail('unreadable-directory-dropped', detail()); return; }
        ctx.probe(what + '-complete');
    }
    noLeak(ctx, p);
    const e = sameImage(k, root, image);
    ctx.check(!e, 'changed-the-tree', () => e);
    ctx.nontrivial();
}

// Windows: a shortcut stands for what it points to (resolved by an external command that may fail)
async function shortcuts(ctx) {
    const { c, sim } = ctx;
    const links = new Map(); // shortcut path -> { ok, path } or { how it fails }
    const P = s => s.replace(/^\/([A-Z])(?=\/)/, '$1:').replace(/\//g, '\\');
    const procs = new Procs(sim, ch => {
        const script = psScript(ch.spawnfile === '/bin/sh' ? [] : ch.spawnargs.slice(1)) || ch.spawnargs.join(' ');
        const at = script.search(/CreateShortcut\s*\(/i), s = at < 0 ? null : psString(script.slice(at).replace(/^CreateShortcut\s*\(/i, ''), {});
        const t = s && links.get(sameCase(k, toPosix(s.value))), delay = c.int(0, 30);
        if (t && t.ok) return { out: [{ fd: 1, data: Buffer.from(t.text + '\r\n'), delay }], exit: { code: 0 } };
        if (t && t.how === 'empty') return { out: [{ fd: 1, data: Buffer.from('\r\n'), delay }], exit: { code: 0 } };
        if (t && t.how === 'spawn') return { spawnError: c.pick(['EAGAIN', 'EMFILE', 'ENOENT']) };
        sim.fault(t && t.how === 'stderr' ? 'shortcut-stderr' : 'shortcut-exit');
        return { out: [{ fd: 2, data: Buffer.from('cannot resolve'), delay }], exit: { code: t && t.how === 'stderr' ? 0 : 1 } };
    });
    const w = world(ctx, { cwd: '/C/work', platform: 'win32', lib: false });
    const { k, p } = w, fs = winFs(w.fs, k);
    const env = ctx.env({ platform: 'win32', modules: { fs, 'fs/promises': fs.promises, path: win32, 'path/win32': win32, 'path/posix': posix, readline: w.fs._readline, child_process: procs.module() }, processProps: { cwd: () => 'C:\\work' } });
    const lib = ctx.load('fs', env);
    let seq = 0, loops = 0;
    const gone = new Map(); // a target that does not exist may stand for itself or for its shortcut
    const fill = (dir, depth, listed, above) => {
        k.mkdirp(dir);
        const here = [...above, dir];
        for (let i = c.int(0, 3); i > 0; i--) {
            const n = seq++;
            switch (c.weighted([[4, 0], [depth < 3 ? 3 : 0, 1], [depth < 3 ? 5 : 0, 2], [1, 3]].filter(e => e[0]))) {
                case 0: { const f = `${dir}/f${n}${c.pick(['.txt', '', '.lnk.txt', '.d'])}`; k.put(f, 'x'); listed.files.push(f); break; }
                case 1: { const name = (c.chance(30) ? 'goal' + n : 'd' + n) + c.pick(['', '', '.v1']); if (name === 'goal' + n) { listed.goals.push(`${dir}/${name}`); fill(`${dir}/${name}`, depth + 1, { files: listed.files, goals: [] }, here); } else fill(`${dir}/${name}`, depth + 1, listed, here); break; }
                case 2: {
                    const lnk = `${dir}/${c.pick(['s', 'to it '])}${n}.lnk`;
                    k.put(lnk, 'shortcut');
                    const set = (path, text = P(path)) => links.set(lnk, { ok: true, path, text });
                    const mode = c.weighted([[4, 'dir'], [3, 'file'], [3, 'bad'], [1, 'loop'], [1, 'gone']]);
                    const t = `${c.pick(['/C/elsewhere', '/D/x y', '/C/work'])}/t${n}`;
                    if (mode === 'dir') { const d = t + c.pick(['', '', '.v2', '.d']); set(d); fill(d, depth + 1, listed, here); }
                    else if (mode === 'file') { const f = t + c.pick(['.doc', '.doc', '', '.lnk.x']); k.mkdirp(posix.dirname(f)); k.put(f, 'x'); set(f); listed.files.push(f); }
                    else if (mode === 'loop') { const up = c.pick(here); loops++; set(up, c.chance(30) ? P(up).toUpperCase() : c.chance(20) ? P(up) + '\\' : P(up)); } // back into a folder being listed
                    else if (mode === 'gone') { const g = t + c.pick(['', '.doc', '/x/y']); set(g); gone.set(lnk, g); listed.files.push(lnk); }
                    else { links.set(lnk, { ok: false, how: c.pick(['stderr', 'exit', 'empty', 'spawn']) }); listed.files.push(lnk); }
                    break;
                }
                default: k.mkdirp(`${dir}/e${n}`);
            }
        }
    };
    const L = { files: [], goals: [] };
    fill('/C/work/r', 0, L, []);
    const names = Array.from({ length: seq }, (_, i) => 'goal' + i);
    const image = k.freeze('/');
    const arg = c.pick(['C:\\work\\r', 'C:\\work\\r', 'C:/work/r', 'C:\\work\\r\\']);
    sim.maxSteps = 6000;
    const list = ctx.call('fileList', () => lib.fileList(arg)), find = ctx.call('findDir', () => lib.findDir(arg, names));
    await sim.drive();
    if (sim.violations.length) return;
    const show = o => `${o.state} ${o.state === 'fulfilled' ? JSON.stringify(o.value) : String(o.value && o.value.message).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 200)}`;
    const lk = () => JSON.stringify([...links].map(([a, l]) => [P(a), l.ok ? l.text : l.how]));
    const back = new Map([...gone].map(([lnk, g]) => [g, lnk]));
    const eq = (a, b) => Array.isArray(a) && a.length === b.length && a.map(toPosix).map(x => back.get(x) || x).sort().join('\n') === [...b].sort().join('\n');
    ctx.check(list.state !== 'pending' && find.state !== 'pending', 'never-settles', () => `listing or search of ${arg}; shortcuts ${lk()}`);
    ctx.check(list.state === 'fulfilled' && eq(list.value, L.files), 'shortcut-listing', () => `fileList gave ${show(list)}, expected ${JSON.stringify(L.files.map(P))}; shortcuts ${lk()}`);
    ctx.check(find.state === 'fulfilled' && eq(find.value, L.goals), 'shortcut-search', () => `findDir gave ${show(find)}, expected ${JSON.stringify(L.goals.map(P))}; shortcuts ${lk()}`);
    noLeak(ctx, p);
    const e = sameImage(k, '/', image);
    ctx.check(!e, 'changed-the-tree', () => e);
    if (loops) ctx.probe('loop');
    if (links.size) { ctx.probe('shortcuts'); ctx.nontrivial(); }
}
module.exports = {
    property: 'S07', packages: ['fs'], runs: { quick: 60000, thorough: 600000 },
    scenarios: [{ name: 'listing', weight: 6, run }, { name: 'shortcuts', weight: 2, run: shortcuts }],
    rule: 'Each run lists or searches a random tree (links, pipes, shortcut files, an unreadable directory) up to three times at once while system calls fail and another process adds and removes unrelated entries; every run with content is non-trivial.',
    real: ['packages/fs fileList, findDir, readLnk'], stub: ['node:fs (simulated kernel, every system call a scheduling point)', 'path (real, simulated current directory)', 'child_process (shortcut resolver)', 'Windows paths (mapped onto the simulated disk)'],
    assumptions: ['a folder is reached through at most one shortcut, apart from shortcuts back into a folder being listed']
};
