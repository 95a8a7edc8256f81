'use strict';
// Compares the simulated disk (sim/vfs.js) with a real one: generated sequences of fs.promises calls are run on both
// and the results (value, or error code/syscall/paths) and the trees they leave are compared.
//   node tools/vfs-compare.js [sequences=300] [seed=1]
// fs.cp and recursive readdir are left out: nothing under test uses them.
// Known and left out: rm -r and realpath through '..' (the order of removal, search permission), O_CREAT through a
// symbolic link whose text ends with a slash.
// The real side runs as an unprivileged user inside a scratch directory that is removed afterwards.
const fs = require('fs'), os = require('os'), path = require('path');
const { Sim, Chooser, hashSeed } = require('../sim/core');
const { Kernel, Proc, makeFs } = require('../sim/vfs');

const NAMES = ['a', 'b', 'c', 'a/a', 'a/b', 'b/a', 'a/b/c', 'b/c/d', 'c/x/y', 'a/', 'b/c/', './a', 'a/../b', '.', '', 'a/.', 'b/..', 'a/b/..', 'a//b'];

function genOp(c) {
    const p = () => c.pick(NAMES), q = () => c.pick(NAMES.filter(n => !n.includes('..'))), data = () => 'x'.repeat(c.int(0, 12)) + c.int(0, 9), mode = () => c.pick([0o755, 0o700, 0o500, 0o300, 0o600, 0o444, 0o000, 0o644]);
    return c.weighted([
        [6, () => ['mkdir', p()]], [4, () => ['mkdir', p(), { recursive: true }]], [1, () => ['mkdir', p(), { mode: mode() }]],
        [7, () => ['writeFile', p(), data()]], [2, () => ['writeFile', p(), data(), { flag: c.pick(['wx', 'a', 'r+', 'w+', 'ax', 'a+']) }]], [2, () => ['appendFile', p(), data()]],
        [4, () => ['readFile', p(), 'utf8']], [4, () => ['unlink', p()]], [3, () => ['rmdir', p()]], [3, () => ['rm', q(), { recursive: c.chance(50), force: c.chance(50) }]],
        [5, () => ['rename', p(), p()]], [4, () => ['copyFile', p(), p(), c.chance(30) ? 1 : 0]],
        [6, () => ['symlink', c.pick(['a', 'b', '../a', 'a/b', 'nowhere', '.', 'b/c']), p()]], [2, () => ['link', p(), p()]],
        [2, () => ['readlink', p()]], [4, () => ['stat', p()]], [4, () => ['lstat', p()]], [3, () => ['readdir', p()]], [2, () => ['readdir', p(), { withFileTypes: true }]], 
        [2, () => ['access', p(), c.int(0, 7)]], [3, () => ['chmod', p(), mode()]], [2, () => ['truncate', p(), c.int(0, 20)]], [2, () => ['realpath', q()]], [2, () => ['opendir', p()]],
        [5, () => ['fd', p(), c.pick(['r', 'w', 'a', 'r+', 'wx', 'w+', 'a+', 'ax+']), Array.from({ length: c.int(1, 4) }, () => c.weighted([[3, ['write', data(), c.pick([null, 0, 3, 30])]], [3, ['read', c.int(1, 20), c.pick([null, 0, 2, 50])]], [1, ['truncate', c.int(0, 15)]], [1, ['stat']]]))]]
    ])();
}
const st = s => ({ t: s.isFile() ? 'f' : s.isDirectory() ? 'd' : s.isSymbolicLink() ? 'l' : '?', size: s.isDirectory() ? 0 : s.size, mode: s.isSymbolicLink() ? 0 : s.mode & 0o7777, nlink: s.isDirectory() ? 0 : s.nlink });
async function apply(fs, root, op) {
    const at = p => (p === '' ? '' : root + '/' + p);
    const [name, ...a] = op;
    try {
        let v;
        switch (name) {
            case 'symlink': v = await fs.symlink(a[0], at(a[1])); break;
            case 'rename': case 'link': v = await fs[name](at(a[0]), at(a[1])); break;
            case 'copyFile': case 'cp': v = await fs[name](at(a[0]), at(a[1]), a[2]); break;
            case 'opendir': { v = []; for await (const e of await fs.opendir(at(a[0]))) v.push(e.name); v.sort(); break; }
            case 'fd': {
                const h = await fs.open(at(a[0]), a[1]);
                v = [];
                try {
                    for (const [o, ...b] of a[2]) {
                        try {
                            if (o === 'write') v.push((await h.write(Buffer.from(b[0]), 0, b[0].length, b[1])).bytesWritten);
                            else if (o === 'read') { const buf = Buffer.alloc(b[0]); const r = await h.read(buf, 0, b[0], b[1]); v.push(buf.subarray(0, r.bytesRead).toString('latin1')); }
                            else if (o === 'truncate') { await h.truncate(b[0]); v.push('t'); }
                            else v.push(st(await h.stat()));
                        } catch (e) { v.push({ err: e.code, sc: e.syscall }); }
                    }
                } finally { await h.close(); }
                break;
            }
            default: v = await fs[name](at(a[0]), ...a.slice(1));
        }
        if (name === 'stat' || name === 'lstat') v = st(v);
        if (name === 'readdir') v = a[1]?.withFileTypes ? v.map(e => [e.name, e.isFile() ? 'f' : e.isDirectory() ? 'd' : e.isSymbolicLink() ? 'l' : '?', e.parentPath]).sort() : v.sort();
        return { v: v === undefined ? null : v };
    } catch (e) { return { err: e.code, sc: name === 'cp' || name === 'rm' ? undefined : e.syscall, path: name === 'cp' || name === 'rm' ? undefined : e.path, dest: name === 'cp' ? undefined : e.dest }; }
}
async function realTree(root) { // run by the unprivileged user, after everything was made readable
    const out = {};
    const rec = async (d, r) => {
        const s = fs.lstatSync(d);
        if (s.isDirectory()) { out[r + '/'] = s.mode & 0o7777; fs.chmodSync(d, 0o700); for (const n of fs.readdirSync(d)) await rec(d + '/' + n, r + '/' + n); }
        else if (s.isSymbolicLink()) out[r] = '-> ' + fs.readlinkSync(d);
        else { fs.chmodSync(d, 0o600); out[r] = (s.mode & 0o7777).toString(8) + ':' + fs.readFileSync(d, 'latin1'); fs.chmodSync(d, s.mode); }
    };
    await rec(root, '');
    return out;
}
function simTree(k, root) {
    const out = {};
    const rec = (n, r) => {
        if (n.type === 'dir') { out[r + '/'] = n.mode; for (const [name, x] of n.entries) rec(x, r + '/' + name); }
        else if (n.type === 'symlink') out[r] = '-> ' + n.target;
        else out[r] = n.mode.toString(8) + ':' + n.data.toString('latin1');
    };
    k.as(0, () => rec(k.get(root, true).node, ''));
    return out;
}
const sorted = o => JSON.stringify(Object.keys(o).sort().map(k => [k, o[k]]));

async function main() {
    const N = Number(process.argv[2] || 300), seed = Number(process.argv[3] || 1);
    if (!process.argv[4]) { // the parent only owns the scratch directory
        const base = fs.mkdtempSync(path.join(os.tmpdir(), 'vfscmp-'));
        const root = process.getuid() === 0;
        if (root) fs.chownSync(base, 65534, 65534);
        try { process.exitCode = require('child_process').spawnSync(process.execPath, [__filename, N, seed, base], { stdio: 'inherit', ...(root ? { uid: 65534, gid: 65534 } : {}), cwd: base }).status; } finally { fs.rmSync(base, { recursive: true, force: true }); }
        return;
    }
    const base = process.argv[4];
    let diffs = 0, ops = 0;
    const kinds = {};
    process.umask(0o022);
        for (let i = 0; i < N; i++) {
            const root = `${base}/s${i}/r`;
            fs.mkdirSync(root, { recursive: true });
            fs.chmodSync(root, 0o755);
            const c = new Chooser(hashSeed("vfs-compare", seed, i));
            const list = Array.from({ length: c.int(3, 25) }, () => genOp(c));
            const sim = new Sim(new Chooser(hashSeed("sim", i)));
            const k = new Kernel(sim, { uid: 1000, cwd: root });
            k.as(1000, () => { k.get(root + '/..', true).node.mode = 0o755; k.get(root + '/..', true).node.uid = 1000; k.get(root, true).node.uid = 1000; k.get(root, true).node.gid = 1000; k.get(root, true).node.mode = 0o755; });
            const p = new Proc(k, { uid: 1000 });
            const vfs = makeFs(p);
            for (let j = 0; j < list.length; j++) {
                const r = await apply(fs.promises, root, list[j]);
                let s;
                apply(vfs.promises, root, list[j]).then(x => { s = x; });
                sim.steps = 0; await sim.drive();
                ops++;
                if (JSON.stringify(r) !== JSON.stringify(s)) {
                    const key = list[j][0] + ' ' + (r.err || 'ok') + '/' + (s ? s.err || 'ok' : 'pending');
                    kinds[key] = (kinds[key] || 0) + 1;
                    if (kinds[key] <= 2) console.log(`#${i}.${j} ${JSON.stringify(list[j])}\n   real ${JSON.stringify(r).replaceAll(root, '~')}\n   sim  ${JSON.stringify(s)?.replaceAll(root, '~')}\n   after ${JSON.stringify(list.slice(Math.max(0, j - 40), j))}`);
                    diffs++;
                    break;
                }
            }
            fs.chmodSync(path.dirname(root), 0o755);
            const a = await realTree(root), b = simTree(k, root);
            if (sorted(a) !== sorted(b)) { diffs++; kinds.tree = (kinds.tree || 0) + 1; if (kinds.tree <= 3) console.log(`#${i} tree\n   real ${sorted(a)}\n   sim  ${sorted(b)}\n   ${JSON.stringify(list)}`); }
        }
    console.log(`${N} sequences, ${ops} calls compared, ${diffs} differences ${JSON.stringify(kinds)}`);
    process.exitCode = diffs ? 1 : 0;
}
main();
