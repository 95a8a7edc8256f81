'use strict';
// Bundles the packages of /repo's current working tree (nothing is written to disk).
const fs = require('fs');
const path = require('path');
const REPO = process.env.CURONG_REPO || '/repo';
function findEsbuild() {
    for (const p of ['/opt/veriftools/node/node_modules/esbuild', 'esbuild']) {
        try { return require(p); } catch {}
    }
    throw new Error('esbuild not found');
}
const EXTRA = {
    // implementation modules that the package index does not re-export
    function: ['cache/index.ts', 'class/index.ts'],
    util: ['stringify.ts'],
    number: ['amount/index.ts']
};
function entryFor(pkg) {
    const src = path.join(REPO, 'packages', pkg, 'src');
    const lines = [`export * from ${JSON.stringify(path.join(src, 'index.ts'))};`];
    for (const x of EXTRA[pkg] || []) {
        const f = path.join(src, x);
        if (fs.existsSync(f)) lines.push(`export * from ${JSON.stringify(f)};`);
    }
    return lines.join('\n');
}
function bundle(pkg) {
    const esbuild = findEsbuild();
    const alias = {
        name: 'curong',
        setup(b) {
            b.onResolve({ filter: /^@curong\// }, a => {
                const [, name, ...rest] = a.path.split('/');
                const base = path.join(REPO, 'packages', name, 'src', ...rest);
                if (!rest.length) return { path: path.join(base, 'index.ts'), sideEffects: false };
                for (const s of ['.ts', '/index.ts', '']) if (fs.existsSync(base + s) && fs.statSync(base + s).isFile()) return { path: base + s };
                return null;
            });
        }
    };
    return esbuild
        .build({
            stdin: { contents: entryFor(pkg), resolveDir: path.join(REPO, 'packages', pkg, 'src'), loader: 'ts', sourcefile: `entry-${pkg}.ts` },
            bundle: true, write: false, platform: 'node', format: 'cjs', target: 'node22', logLevel: 'silent',
            keepNames: true, tsconfigRaw: '{}', plugins: [alias], charset: 'utf8'
        })
        .then(r => r.outputFiles[0].text);
}
async function bundleAll(pkgs) {
    const out = {};
    await Promise.all(pkgs.map(async p => { out[p] = await bundle(p); }));
    return out;
}
module.exports = { bundleAll, REPO };
