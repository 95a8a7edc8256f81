'use strict';
// Differential validation of the simulated file system against the real one (not part of any check).
// node tools/diff-vfs.js [rounds] : runs as uid 1000 inside a scratch directory it creates and removes.
const fs = require('fs'), os = require('os'), path = require('path');
const { Chooser, Sim, hashSeed } = require('../sim/core');
const { Kernel, Proc, makeFs } = require('../sim/vfs');
const rounds = +process.argv[2] || 300;
const base = fs.mkdtempSync(path.join(os.tmpdir(), 'diff-vfs-'));
fs.chmodSync(base, 0o777);
if (process.getuid() === 0) { fs.chownSync(base, 1000, 1000); process.setgroups([]); process.setgid(1000); process.setuid(1000); }
process.umask(0o022);

const names = ['a', 'b', 'c', 'a/x', 'a/y', 'b/x', 'a/x/p', 'c/d', 'l', 'a/l', 'l/x', 'nope/x', 'a/x/../y', 'b/../a'];
const odd = ['.', '', 'a/', 'a/..']; // only for calls that read
const readers = new Set(['stat', 'lstat', 'readFile', 'readdir', 'access', 'realpath', 'stream', 'readlink']);
const datas = ['', 'one', 'zwei zwei', 'x'.repeat(3000), 'é漢'];
function gen(c) {
    const n = () => c.pick(names.filter(x => x !== '..' )), d = () => c.pick(datas);
    const g = c.weighted([
        [6, () => ['mkdir', [n(), c.bool() ? { recursive: true } : undefined]]],
        [8, () => ['writeFile', [n(), d(), c.pick([undefined, 'utf8', { flag: 'a' }, { flag: 'wx' }, { flag: 'r+' }, { flag: 'w+', mode: 0o755 }, { flag: 'a+' }])]]],
        [3, () => ['appendFile', [n(), d()]]],
        [5, () => ['readFile', [n(), c.pick(['utf8', undefined, { encoding: 'utf8', flag: 'r+' }, 'latin1', 'base64'])]]],
        [4, () => ['stat', [n()]]], [4, () => ['lstat', [n()]]], [3, () => ['readlink', [n()]]],
        [4, () => ['readdir', [n(), c.pick([undefined, { withFileTypes: true }, { recursive: true }])]]],
        [4, () => ['symlink', [c.pick(['a', 'b', '../b', 'x', 'nope', '.', 'l', process.cwd() + '/a']), n()]]],
        [3, () => ['unlink', [n()]]], [3, () => ['rmdir', [n()]]], [2, () => ['rmdir', [n(), { recursive: true }]]],
        [3, () => ['rm', [n(), c.pick([undefined, { recursive: true }, { force: true }, { recursive: true, force: true }])]]],
        [3, () => ['rename', [n(), n()]]], [5, () => ['copyFile', [n(), n(), c.pick([undefined, 0, fs.constants.COPYFILE_EXCL])]]],
        [2, () => ['link', [n(), n()]]], [2, () => ['access', [n(), c.pick([0, 4, 2, 1])]]], [2, () => ['realpath', [n()]]],
        [2, () => ['truncate', [n(), c.int(0, 20)]]], [3, () => ['chmod', [n(), c.pick([0o644, 0o755, 0o000, 0o444, 0o200, 0o711])]]],
        [3, () => ['cp', [n(), n(), c.pick([{ recursive: true }, { recursive: true, force: false }, {}])]]],
        [4, () => ['stream', [n(), c.pick([{}, { start: 1, end: 3 }, { encoding: 'utf8', highWaterMark: 2 }, { flags: 'r+', encoding: 'utf8' }, { start: 2 }])]]],
        [3, () => ['wstream', [n(), d(), c.pick([{}, { flags: 'a' }, { flags: 'wx' }])]]],
        [3, () => ['handle', [n(), c.pick(['r', 'r+', 'w', 'a', 'wx', 'w+']), c.int(0, 3)]]]
    ])();
    if (readers.has(g[0]) && c.chance(10)) g[1][0] = c.pick(odd);
    return g;
}
const collect = s => new Promise((res, rej) => { const out = []; s.on('error', rej); s.on('data', d => out.push(d)); s.on('end', () => res(out.map(String).join(''))); });
async function perform(F, [op, args]) {
    const P = F.promises;
    if (op === 'stream') return collect(F.createReadStream(...args));
    if (op === 'wstream') return new Promise((res, rej) => { const s = F.createWriteStream(args[0], args[2]); s.on('error', rej); s.on('finish', () => res('fin')); s.end(args[1]); });
    if (op === 'handle') {
        const h = await P.open(args[0], args[1]);
        try {
            switch (args[2]) {
                case 0: { const b = Buffer.alloc(8); const r = await h.read(b, 1, 5, 2); return [r.bytesRead, b.toString('hex')]; }
                case 1: { const r = await h.write('hello', 3); return r.bytesWritten; }
                case 2: return (await h.readFile('utf8'));
                default: { await h.truncate(4); return (await h.stat()).size; }
            }
        } finally { await h.close(); }
    }
    const v = await P[op](...args);
    if (op === 'stat' || op === 'lstat') return kindOf(v) + (v.isDirectory() ? '' : v.size) + ' ' + (v.isSymbolicLink() ? '' : (v.mode & 0o777).toString(8)) + ' ' + (v.isDirectory() ? '' : v.nlink);
    if (op === 'readdir') return v.map(x => (typeof x === 'string' ? x : x.name + ':' + kindOf(x) + ':' + x.parentPath)).sort();
    if (op === 'realpath') return v;
    if (op === 'mkdir') return v === undefined ? 'undef' : String(v);
    return Buffer.isBuffer(v) ? v.toString('hex') : v;
}
const kindOf = s => (s.isFile() ? 'f' : s.isDirectory() ? 'd' : s.isSymbolicLink() ? 'l' : '?');
function realTree(d, rel = '') {
    const out = [];
    let ents; try { ents = fs.readdirSync(d, { withFileTypes: true }); fs.accessSync(d, 1); } catch { return [rel + '!']; }
    for (const e of ents) {
        const p = path.join(d, e.name), r = rel + e.name;
        if (e.isDirectory()) { out.push(r + '/' + (fs.lstatSync(p).mode & 0o777).toString(8)); out.push(...realTree(p, r + '/')); } else if (e.isSymbolicLink()) out.push(r + '->' + fs.readlinkSync(p)); else { let c; try { c = fs.readFileSync(p, 'hex'); } catch (x) { c = x.code; } out.push(r + '=' + c); }
    }
    return out.sort();
}
function simTree(k, d, rel = '') {
    const out = [];
    let ents; try { ents = k.list(d); k.access(d, 1); } catch { return [rel + '!']; }
    for (const [name, n] of ents) {
        const p = path.join(d, name), r = rel + name;
        if (n.type === 'dir') { out.push(r + '/' + n.mode.toString(8)); let sub; try { k.get(p); sub = simTree(k, p, r + '/'); } catch { sub = [r + '/!']; } out.push(...sub); } else if (n.type === 'symlink') out.push(r + '->' + n.target); else { let c; try { c = k.open(p, 0).inode.data.toString('hex'); } catch (x) { c = x.code; } out.push(r + '=' + c); }
    }
    return out.sort();
}
const settle = p => p.then(v => ({ v }), e => ({ e: e.code || e.name, m: e.message }));
(async () => {
    let ops = 0, bad = 0;
    for (let i = 0; i < rounds; i++) {
        const c = new Chooser(hashSeed('diff', i));
        const top = path.join(base, 'r' + i), dir = path.join(top, 'w');
        fs.mkdirSync(dir, { recursive: true }); process.chdir(dir);
        const sim = new Sim(c); sim.unhandled = [];
        const k = new Kernel(sim, { cwd: dir }); k.umask = 0o022;
        for (const x of [dir, top]) { k.lookup(x).mode = 0o755; k.lookup(x).uid = k.lookup(x).gid = 1000; }
        k.lookup(dir).mode = 0o755; k.lookup(dir).uid = k.lookup(dir).gid = 1000;
        const proc = new Proc(k), F = makeFs(proc);
        const hist = [];
        for (let j = 0; j < 25; j++) {
            const op = gen(c);
            hist.push(JSON.stringify(op));
            const r = await settle(perform(fs, op));
            let s; settle(perform(F, op)).then(x => (s = x));
            for (let z = 0; z < 50 && !s; z++) await sim.drive();
            ops++;
            const key = x => JSON.stringify(x && x.e ? { e: x.e } : x);
            const tr = JSON.stringify(realTree(dir)), ts = JSON.stringify(simTree(k, dir));
            if (key(r) !== key(s) || tr !== ts || proc.fds.size) {
                if (bad++ < 12) console.log(`round ${i} op ${j}\n  ${hist.slice(-1)}\n  real ${JSON.stringify(r).slice(0, 300)}\n  sim  ${JSON.stringify(s || null).slice(0, 300)}\n  fds ${proc.fds.size}\n  tree ${tr === ts ? 'same' : '\n   ' + tr.slice(0, 600) + '\n   ' + ts.slice(0, 600)}`);
                break;
            }
            if (r.e && r.m !== s.m && op[0] !== 'cp' && op[0] !== 'rm') { if (bad++ < 12) console.log('message', hist.slice(-1)[0], r.m, '|', s.m); break; }
        }
        process.chdir('/');
        const unlock = d => { try { fs.chmodSync(d, 0o755); } catch { return; } for (const e of fs.readdirSync(d, { withFileTypes: true })) if (e.isDirectory()) unlock(path.join(d, e.name)); };
        unlock(dir);
        fs.rmSync(top, { recursive: true, force: true });
    }
    try { fs.rmdirSync(base); } catch { /* parent may be sticky */ }
    console.log(`${rounds} rounds, ${ops} operations compared, ${bad} rounds with a difference`);
    process.exit(bad ? 1 : 0);
})();
