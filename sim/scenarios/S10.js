'use strict';
const posix = require('path').posix;
const { world, faultPlan, genTree, describe, showTree, guard, noLeak, under, content } = require('../fsworld');

const strip = v => String((v && v.message) || v).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 300);

// Questions about paths while other processes change them. The answer has to be true at some moment during the call.
async function queries(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c) });
    k.mkdirp('/work/t');
    genTree(ctx, k, '/work/t', { min: 2, max: 10, depth: 3, links: 3, fifos: 1, names: ['a', 'b', 'c.txt', 'd', 'l'], targets: ['l', '../l', 'a/b'] });
    const all = ['', ...k.tree('/work/t').keys()];
    if (c.chance(15)) { const n = k.lookup('/work/t/' + c.pick(all)); if (n && n.type === 'dir') { n.mode = 0; } }
    const read = fn => { try { return k.as(1000, fn); } catch { return undefined; } };
    const ASK = {
        isFile: q => { const w = read(() => k.get(q, true)); return !!w && w.node.type === 'file'; },
        isDir: q => { const w = read(() => k.get(q, true)); return !!w && w.node.type === 'dir'; },
        isSymbolicLink: q => { const w = read(() => k.get(q, false)); return !!w && w.node.type === 'symlink'; },
        symbolicLink: q => { const t = read(() => k.readlink(q)); return t === undefined ? null : t; }
    };
    const open = new Set();
    const look = j => j.truth.add(ASK[j.op](j.path));
    k.listeners.push(() => { for (const j of open) look(j); });
    const jobs = [];
    for (let i = c.int(1, 6); i > 0; i--) {
        const rel = c.pick(all);
        const odd = c.weighted([[12, null], [1, 'missing'], [1, 'slash'], [1, 'below'], [1, 'dots'], [1, 'long'], [1, 'nul'], [1, 'empty']]);
        let q = '/work/t' + (rel && '/' + rel);
        if (odd === 'missing') q += '/nope/nope';
        if (odd === 'slash') q += '/';
        if (odd === 'below') q += '/x';
        if (odd === 'dots') q = '/work/t/../t/./' + rel;
        if (odd === 'long') q += '/' + 'n'.repeat(300);
        if (odd === 'nul') q += '\0x';
        if (odd === 'empty') q = '';
        const j = { op: c.pick(Object.keys(ASK)), path: q, truth: new Set() };
        if (!odd && c.chance(30)) j.arg = posix.relative('/work', q) || '.'; else j.arg = q;
        jobs.push(j);
        sim.at(c.int(0, 15), 'ask', () => {
            j.faults = p.injected;
            if (odd === 'nul') j.truth.add(j.op === 'symbolicLink' ? null : false); else { look(j); open.add(j); }
            const done = () => { open.delete(j); j.faultsEnd = p.injected; };
            j.call = ctx.call(j.op, () => { const r = lib[j.op](j.arg); if (r && r.then) r.then(done, done); return r; });
        });
    }
    if (c.bool()) for (let i = c.int(1, 4); i > 0; i--) {
        const rel = c.pick(all.slice(1).concat('new'));
        sim.at(c.int(0, 25), 'other process', () => k.ext(() => {
            const full = '/work/t/' + rel, n = k.lookup(full, false);
            try {
                if (n && n.type === 'dir') { if (n.entries.size) return; k.rmdir(full); } else if (n) k.unlink(full);
                const to = c.weighted([[2, 'gone'], [2, 'file'], [2, 'dir'], [2, 'link']]);
                if (to === 'file') k.put(full, 'x'); else if (to === 'dir') k.mkdirp(full); else if (to === 'link') k.symlink(c.pick(all) || '.', full);
                sim.fault('concurrent-change');
            } catch (e) { if (!e.code) throw e; }
        }));
    }
    await sim.drive();
    for (const j of jobs) {
        const { call } = j;
        const detail = () => `${j.op}(${JSON.stringify(j.arg).slice(0, 100)}) gave ${call && call.state} ${call && (call.state === 'rejected' ? strip(call.value) : JSON.stringify(call.value))}, true answers ${[...j.truth].join('|')}; tree ${showTree(k, '/work/t')}`;
        if (!ctx.check(call && call.state !== 'pending', 'never-settles', detail)) return;
        if (!ctx.check(call.state === 'fulfilled', 'query-failed', detail)) return;
        const no = j.op === 'symbolicLink' ? null : false;
        ctx.check(j.truth.has(call.value) || (p.injected && call.value === no && j.faultsEnd > j.faults), 'wrong-answer', detail);
    }
    noLeak(ctx, p);
    ctx.nontrivial();
}
// Creating directories at once, with obstacles, failures and processes that race for the same path.
async function makeDirs(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { proc: faultPlan(c), cwd: '/work' });
    k.umask = c.pick([0o022, 0, 0o077]);
    k.mkdirp('/work/t'); k.put('/work/t/file', 'keep'); k.mkdirp('/work/t/dir/in');
    k.as(1000, () => { k.symlink('dir', '/work/t/tolink'); k.symlink('nowhere', '/work/t/dangling'); k.symlink('file', '/work/t/filelink'); });
    k.mkdirp('/work/t/locked'); k.lookup('/work/t/locked').mode = 0o555;
    const image = k.freeze('/work/t');
    let removals = false;
    const jobs = [];
    const SEG = ['file', 'dir', 'in', 'tolink', 'n1', 'n2', 'n3', 'dangling', 'filelink', 'locked', '..', 'é é'];
    for (let i = c.int(1, 4); i > 0; i--) {
        const segs = []; for (let n = c.int(1, 4); n > 0; n--) segs.push(c.pick(SEG));
        const full = '/work/t/' + segs.join('/') + (c.chance(10) ? '/' : '');
        const o = c.weighted([[4, undefined], [1, {}], [1, { mode: 0o700 }], [1, { recursive: true }], [2, { recursive: false }]]);
        const j = { full, o, arg: c.chance(30) ? full.slice('/work/'.length) : full };
        jobs.push(j);
        sim.at(c.int(0, 10), 'start', () => {
            j.before = k.lookup(full, true);
            j.call = ctx.call('mkdir', () => { const r = lib.mkdir(j.arg, o); const done = () => { j.after = k.lookup(full, true); j.faults = p.injected; }; r.then(done, done); return r; });
        });
    }
    if (c.chance(30)) sim.at(c.int(0, 12), 'other process', () => { const at = '/work/t/' + c.pick(['n1', 'n2', 'dir/n1']); if (!k.lookup(at)) { k.ext(() => (c.bool() ? k.mkdirp(at) : k.put(at, 'x'))); sim.fault('concurrent-create'); } });
    if (c.chance(10)) sim.at(c.int(2, 20), 'other process', () => { const at = '/work/t/' + c.pick(['n1', 'n2', 'dir/n1']), n = k.lookup(at); if (n && n.type === 'dir' && !n.entries.size) { removals = true; k.ext(() => k.rmdir(at)); sim.fault('concurrent-remove'); } });
    guard(ctx, k, (q, ch) => ch.op === 'mkdir', 'changed-something-else');
    await sim.drive();
    for (const j of jobs) {
        const { call } = j;
        const detail = () => `mkdir(${j.arg}, ${JSON.stringify(j.o)}) gave ${call && call.state} ${call && (call.state === 'rejected' ? strip(call.value) : call.value)}, the path is ${describe(j.after)}`;
        if (!ctx.check(call && call.state !== 'pending', 'never-settles', detail)) return;
        const isDir = j.after && j.after.type === 'dir', plain = j.o && j.o.recursive === false;
        if (call.state === 'fulfilled') {
            ctx.check(isDir || removals, 'created-nothing', detail);
            if (plain) ctx.check(!j.before, 'exclusive-creation-of-an-existing-path', detail);
        } else if (!plain) ctx.check(!isDir || p.injected || removals || j.full.includes('/../') || /\/\.\.\/?$/.test(j.full), 'failed-though-the-directory-exists', detail);
        if (!plain && call.state === 'rejected' && !p.injected && !removals) ctx.check(!simple(k, j.full), 'failed-without-obstacle', detail);
        if (call.state === 'fulfilled') ctx.probe('created');
    }
    for (const [r, n] of k.tree('/work/t')) if (!image.has(r) && n.type === 'dir' && n.uid === 1000) ctx.check((n.mode & 0o700) === (0o700 & ~k.umask) && (n.mode & ~0o755) === 0, 'wrong-permissions', () => `${r} was created with mode ${n.mode.toString(8)}, umask ${k.umask.toString(8)}`);
    const now = k.freeze('/work/t');
    for (const [r, a] of image) ctx.check(now.has(r) && now.get(r).ino === a.ino && now.get(r).t === a.t && (!a.d || a.d.equals(now.get(r).d)), 'changed-something-else', r);
    noLeak(ctx, p);
    ctx.nontrivial();
}
// no link, file, dot-dot or read-only directory on the way
function simple(k, full) {
    let at = '/work/t';
    for (const s of full.slice(at.length + 1).split('/').filter(Boolean)) {
        if (s === '..') return false;
        const n = k.lookup(at, false);
        if (n && (n.type !== 'dir' || !(n.mode & 0o200))) return false;
        at += '/' + s;
    }
    const n = k.lookup(at, false);
    return !n || n.type === 'dir';
}
// Everything at once on one small tree, with failing system calls.
async function mix(ctx) {
    const { c, sim } = ctx;
    const { k, p, lib } = world(ctx, { platform: 'linux', capacity: c.chance(20) ? c.int(2000, 9000) : undefined, proc: faultPlan(c, c.bool() ? { faultRate: c.pick([5, 20, 50, 90]), maxFaults: c.int(1, 12) } : {}) });
    k.mkdirp('/work/x/t'); k.mkdirp('/work/keep'); k.put('/work/keep/x', 'keep');
    k.put('/work/x/t/one', 'first\nsecond\r\nthird'); k.put('/work/x/t/two', content(c));
    genTree(ctx, k, '/work/x/t', { max: 12, links: 2, names: ['a', 'b', 'c.txt', 'd'], targets: ['one', 'a'] });
    const names = ['one', 'two', 'a', 'b', 'a/b', 'a/a', 'd', 'new', 'new/deep/er', ...[...k.tree('/work/x/t').keys()].slice(0, 6)];
    const at = () => '/work/x/t/' + c.pick(names);
    const OPS = {
        copy: () => lib.copy(at(), at(), c.pick([undefined, { forcibly: false }, { forcibly: true }])),
        copyFile: () => lib.copyFile(at(), '/work/x/t', '/work/x/t/dst', c.pick([undefined, { forcibly: true }])),
        copySymbolicLink: () => lib.copySymbolicLink(at(), at()),
        clearDir: () => lib.clearDir(at()),
        deleteOne: () => lib.deleteOne(at()),
        destPath: () => lib.destPath(at(), '/work/x/t', '/work/x/t/dst', c.pick([undefined, { isMakeDir: true }])),
        diffFile: () => lib.diffFile(at(), at()),
        fileList: () => lib.fileList(at(), c.pick([undefined, { depthOnce: true }])),
        findDir: () => lib.findDir(at(), c.pick(['a', ['a', 'd']])),
        isFile: () => lib.isFile(at()), isDir: () => lib.isDir(at()), isSymbolicLink: () => lib.isSymbolicLink(at()), symbolicLink: () => lib.symbolicLink(at()),
        mkdir: () => lib.mkdir(at()),
        readFile: () => lib.readFile(at()),
        readFragment: () => lib.readFragment(at(), { start: c.int(0, 5), end: c.int(5, 40), firstLine: c.bool() }),
        readlineStream: () => (c.bool() ? lib.readlineStream(at()) : lib.readlineStream(at(), () => {})),
        writeFile: () => lib.writeFile(at(), c.pick(['text', '', { a: 1 }, 'z'.repeat(700)]), c.pick([undefined, { isMkdir: true }, { flag: 'a' }, { flag: 'wx' }]))
    };
    const calls = [];
    const kinds = Object.keys(OPS);
    for (let i = c.int(2, 12); i > 0; i--) {
        const op = c.pick(kinds);
        sim.at(c.int(0, 25), 'start ' + op, () => calls.push(ctx.call(op, OPS[op])));
    }
    guard(ctx, k, q => under(q, '/work/x'));
    sim.maxSteps = 20000;
    await sim.drive();
    for (const call of calls) if (!ctx.check(call.state !== 'pending', 'never-settles', () => `${call.name} among ${calls.map(x => x.name + ' ' + x.state).join(', ')}`)) return;
    for (const call of calls) ctx.probe(call.name + (call.state === 'fulfilled' ? '' : ' refused'));
    noLeak(ctx, p);
    ctx.nontrivial();
}
module.exports = {
    property: 'S10', packages: ['fs'], runs: { quick: 72000, thorough: 700000 },
    scenarios: [{ name: 'queries', weight: 2, run: queries }, { name: 'mkdir', weight: 1, run: makeDirs }, { name: 'mix', weight: 3, run: mix }],
    rule: 'Each run asks about up to six paths while other processes replace them, or creates directories past obstacles and racing processes, or runs two to twelve file operations of any kind at once on one tree, all while system calls fail; every run is non-trivial.',
    real: ['all of packages/fs except readLnk'], stub: ['node:fs (simulated kernel)', 'path (real, simulated current directory)'],
    assumptions: ['a question whose system calls fail is answered no']
};
