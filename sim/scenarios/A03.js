'use strict';
const { makeRng, hashSeed } = require('../core');
const { show } = require('../tasks');

// Random sources: 'extreme' (0, largest, neighbours of k/n), 'grid' (walks [0,1) evenly), 'noise'
function sources(c, n) {
    const mode = c.pick(['extreme', 'grid', 'noise']);
    const rng = makeRng(hashSeed('a03', c.raw(1 << 30)));
    const noise = () => rng() / 0x100000000;
    let i = c.raw(256);
    const off = c.raw(1000) / 1000;
    const g = n > 26 ? n * 4 : 256;
    const near = () => {
        const k = rng() % 8;
        if (k === 0) return 0;
        if (k === 1) return 1 - 2 ** -53;
        if (k === 2) return 1 - 2 ** -32;
        if (k === 3) return 2 ** -53;
        const q = (rng() % (n + 1)) / n;
        return Math.min(1 - 2 ** -53, Math.max(0, k < 6 ? q : q - 2 ** -53));
    };
    const src = {
        mode, plain: 0, secure: 0,
        random() { src.plain++; return (mode === 'noise' ? noise() : mode === 'grid' ? ((i++ % g) + off) / g : near()); },
        u32() { src.secure++; return (mode === 'noise' ? rng() : mode === 'grid' ? Math.floor((i++ % g) / (g - 1) * 0xffffffff) : [0, 0xffffffff, 0x80000000, 0x7fffffff, 1, 0xfffffffe][rng() % 6]); }
    };
    return src;
}

async function numbers(ctx) {
    const { c } = ctx;
    const n = c.int(1, 10);
    const src = sources(c, n);
    const env = ctx.env({ random: src.random, u32: src.u32 });
    const lib = ctx.load('number', env);
    const name = c.pick(['range', 'rangeSafe']);
    const lo = c.pick([0, 1, -5, c.int(-1000, 1000), -9007199254740991, 9007199254740991 - n]), hi = lo + n - 1;
    const seen = new Set();
    for (let k = 0; k < 256; k++) {
        const v = lib[name](lo, hi);
        if (!ctx.check(Number.isInteger(v) && v >= lo && v <= hi, 'out-of-range', `${name}(${lo}, ${hi}) gave ${v}`)) return;
        seen.add(v);
    }
    ctx.check(name === 'range' || !src.plain, 'wrong-source', () => `${name} drew from the plain source`);
    const bad = c.pick([NaN, Infinity, -Infinity, 1.5, '3', null, undefined, 2 ** 53, {}, [1], true]), args = c.pick([[bad, 5], [0, bad], [bad, bad]]);
    let refused = false;
    try { lib[name](...args); } catch (e) { refused = e instanceof Error; }
    ctx.check(refused, 'invalid-accepted', () => `${name}(${args.map(show)})`);
    // every value of a small range is reachable when the source covers [0,1) evenly
    if (src.mode === 'grid') { ctx.check(seen.size === n, 'unreachable', () => `${name}(${lo}, ${hi}) reached only ${[...seen]}`); ctx.probe('range-covered'); }
    const wide = [-9007199254740991, 0, 0, 9007199254740990][c.raw(4)];
    const w = lib[name](Math.min(wide, 0), Math.max(wide, 0));
    ctx.check(w >= Math.min(wide, 0) && w <= Math.max(wide, 0), 'out-of-range', `${name} over a wide range gave ${w}`);
    for (const f of ['random', 'randomSafe']) { const r = lib[f](); ctx.check(r >= 0 && r < 1, 'out-of-range', `${f}() gave ${r}`); }
    ctx.sim.note(`${name} ${lo} ${hi} ${src.mode} ${[...seen]} ${w}`);
    ctx.nontrivial();
}

async function arrays(ctx) {
    const { c } = ctx;
    const n = ctx.big() ? c.int(13, 600) : c.pick([2, 3, 4, c.int(0, 12)]);
    const src = sources(c, Math.max(1, n));
    const lib = ctx.load('array', { random: src.random, u32: src.u32 });
    const arr = Array.from({ length: n }, (_, i) => (c.chance(15) ? 'same' : { i }));
    const copy = arr.slice();
    if (c.bool() && n) {
        const seen = new Set(), draws = n > 26 ? n * 4 : 256;
        for (let k = 0; k < draws; k++) {
            const v = lib.random(arr);
            const at = arr.indexOf(v);
            if (!ctx.check(at >= 0, 'not-an-element', () => `random([${n} elements]) gave ${show(v)}`)) return;
            seen.add(at);
        }
        if (src.mode === 'grid') ctx.check(seen.size === new Set(arr).size, 'unreachable', () => `random() reached ${seen.size} of ${new Set(arr).size} elements`);
        ctx.sim.note('random ' + n + src.mode + [...seen]);
    } else {
        const full = n >= 1 && n <= 4 && src.mode === 'noise';
        const rounds = full ? 700 : 20;
        const idx = arr.map((_, i) => i), seen = new Set();
        const ids = full ? idx : arr;
        for (let k = 0; k < rounds; k++) {
            const input = ids.slice();
            const out = lib.shuffle(input);
            ctx.check(n === 0 || out !== input, 'same-array', 'shuffle returned its input');
            ctx.check(input.length === ids.length && input.every((x, i) => x === ids[i]), 'input-changed', () => `input is now ${show(input)}`);
            const left = ids.slice();
            let ok = Array.isArray(out) && out.length === n;
            if (ok) for (let i = 0; i < n; i++) { const at = left.indexOf(out[i]); if (at < 0) { ok = false; break; } left.splice(at, 1); }
            if (!ctx.check(ok, 'not-a-permutation', () => `shuffle(${show(ids)}) gave ${show(out)}`)) return;
            seen.add(out.map(x => (typeof x === 'number' ? x : 0)).join());
        }
        if (full) {
            const fact = [1, 1, 2, 6, 24][n];
            ctx.check(seen.size === fact, 'unreachable', () => `shuffle of ${n} elements reached ${seen.size} of ${fact} arrangements in ${rounds} rounds`);
            ctx.probe('arrangements-covered');
        }
        ctx.sim.note('shuffle ' + n + src.mode + [...seen].slice(0, 5));
    }
    ctx.check(arr.every((x, i) => x === copy[i]) && arr.length === n, 'input-changed', 'the array was modified');
    ctx.nontrivial();
}

async function strings(ctx) {
    const { c } = ctx;
    const src = sources(c, 26);
    const lib = ctx.load('string', { random: src.random, u32: src.u32 });
    const safe = c.bool();
    const what = c.pick(['randomLower', 'randomUpper', 'randomHexColor', 'randomNumber', 'randomBoolean']);
    const seen = new Set(), places = Array.from({ length: 40 }, () => new Set());
    const size = c.chance(3) ? c.int(65530, 70000) : c.pick([15, c.int(1, 40)]);
    const rounds = what === 'randomNumber' && size > 1000 ? 1 : src.mode === 'noise' ? 800 : 300;
    for (let k = 0; k < rounds; k++) {
        let v, re;
        switch (what) {
            case 'randomLower': v = lib.randomLower(safe); re = /^[a-z]$/; break;
            case 'randomUpper': v = lib.randomUpper(safe); re = /^[A-Z]$/; break;
            case 'randomHexColor': v = lib.randomHexColor(safe); re = /^#[0-9A-F]{6}$/; break;
            case 'randomNumber': v = size === 15 && k % 2 ? lib.randomNumber() : lib.randomNumber(size); re = { test: s => typeof s === 'string' && s.length === size && /^[0-9]+$/.test(s) }; break;
            default: v = lib.randomBoolean(safe); re = { test: b => typeof b === 'boolean' };
        }
        if (!ctx.check(re.test(v), 'wrong-alphabet', () => `${what}(${what === 'randomNumber' ? size : safe}) gave ${show(v).slice(0, 80)} (length ${String(v).length})`)) return;
        seen.add(what === 'randomNumber' ? v.length : v);
        if (what === 'randomHexColor') for (let p = 1; p < 7; p++) places[p].add(v[p]);
        if (what === 'randomNumber' && size <= 40) for (let p = 0; p < size; p++) places[p].add(v[p]);
    }
    const secure = what === 'randomNumber' || safe;
    ctx.check(!secure || !src.plain, 'wrong-source', () => `${what}(${safe}) drew from the plain source`);
    if (src.mode === 'grid') {
        if (what === 'randomLower' || what === 'randomUpper') { ctx.check(seen.size === 26, 'unreachable', () => `${what}(${safe}) reached only ${[...seen].sort().join('')}`); ctx.probe('letters-covered'); }
        if (what === 'randomBoolean') ctx.check(seen.size === 2, 'unreachable', () => `${what}(${safe}) always gave ${[...seen]}`);
    }
    // every place of a colour takes every digit, the darkest and the lightest colour come out of the extreme draws
    if (what === 'randomHexColor' && src.mode === 'noise') {
        ctx.check(places.slice(1, 7).every(s => s.size === 16), 'unreachable', () => `randomHexColor(${safe}): places took ${places.slice(1, 7).map(s => s.size)} of 16 digits in ${rounds} draws`);
        const ends = [];
        for (const x of [0, 1]) { const l2 = ctx.load('string', { random: () => (x ? 1 - 2 ** -53 : 0), u32: () => (x ? 0xffffffff : 0) }); ends.push(l2.randomHexColor(safe)); }
        ctx.check(ends.sort().join() === '#000000,#FFFFFF', 'unreachable', () => `randomHexColor(${safe}) gave ${ends} for the extreme draws`);
        ctx.probe('colours-covered');
    }
    if (what === 'randomNumber' && src.mode === 'noise' && size <= 40) ctx.check(places.slice(0, size).every(s => s.size === 10), 'unreachable', () => `randomNumber(${size}): places took ${places.slice(0, size).map(s => s.size)} of 10 digits in ${rounds} draws`);
    ctx.sim.note(`${what} ${safe} ${src.mode} ${size} ${[...seen].slice(0, 6)}`);
    ctx.nontrivial();
}

module.exports = {
    property: 'A03', packages: ['number', 'array', 'string'], runs: { quick: 36000, thorough: 500000 },
    scenarios: [{ name: 'numbers', weight: 3, run: numbers }, { name: 'arrays', weight: 3, run: arrays }, { name: 'strings', weight: 3, run: strings }],
    rule: 'Each run fixes a random source (extreme values, an even grid over [0,1), or noise) and draws 20 to 700 values through one helper; grid and noise runs also require every outcome to be reached; every run is non-trivial.',
    real: ['packages/number range, rangeSafe, random, randomSafe', 'packages/array random, shuffle', 'packages/string random*'], stub: ['Math.random and Web Crypto (driven by the chooser)'],
    assumptions: ['Math.random returns values in [0,1); ranges are given as start <= end']
};
