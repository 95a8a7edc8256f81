'use strict';
const fs = require('fs');
const path = require('path');
const { ANY, any, brief, callback, history, one, opt, pooled, shobj } = require('../pure');
const value = any(null, 'any', 4);
const flag = opt(one(true, false));
const VAR = one('size', 'a name', '');
// a test that a client supplies: it may throw at a chosen call, and may call the library again
const test = S => { const [k, f] = S.c.pick([['yes', () => true], ['no', () => false], ['num', v => typeof v === 'number'], ['obj', v => typeof v === 'object']]); return callback(k, f, S.c.chance(15) ? S.c.int(1, 3) : 0); };
const values = any(['[]', '[1]', '[1,2]', '[nan]', '[true]', '[{}]', 'one', 'a', '{}', 'undefined'], 'vals');
const tests = S => (S.c.chance(60) ? test(S) : { key: ids => '[two]', val: w => [v => v !== undefined, v => v !== null] });
// ---- what takes more than a value -----------------------------------------
const MORE = {
    isNumberArray: [flag], isNumberObject: [flag], isNumberPrimitive: [flag], isNumber: [flag], isFinite: [flag], isNaN: [flag],
    isArrayLike: [opt(one(0, 1, 2))], isPlainObjectFilled: [opt(one(0, 1, 2, 3))], isObjectFilled: [opt(one(0, 1, 2, 3))],
    isPropertyDescriptor: [flag], isStringTrim: [opt(one(0, 1, 2))], isDOMException: [opt(one('AbortError', 'Error', ''))],
    isNumberValid: [opt(shobj('nv', { implicit: [true, false], allowNaN: [true, false], allowInfinity: [true, false], allowEmptyString: [true, false] }))],
    isSameError: [one('Error', 'TypeError', 'RangeError'), one('e', 't', 'm')], isWindow: [opt(test)], isDocument: [opt(test)],
    hasOwnProperty: [one('a', 0, 'length', 'toString', 'next')], isProperty: [one('a', 0, 'length', 'toString', 'next')], isPrototypeOf: [value],
    getTagEqual: [one('Array', 'Object', 'Map', 'Number', 'Null', 'Function')], typeofEqual: [one('object', 'number', 'undefined', 'function', 'symbol')]
};
const EQ = any(['one', 'a', 'nan', 'zero', 'negzero', '{}', '[]', 'undefined', 'null', 'num', 'date'], 'eq');
const PARTNER = { assertOwnProperty: 'hasOwnProperty', assertTagEqual: 'getTagEqual', assertTypeofEqual: 'typeofEqual' };
const NOVALUE = ['Browser', 'Deno', 'Nodejs', 'WebWorker'];
const TYPES = fs.readFileSync(path.join(__dirname, 'H03.names'), 'utf8').trim().split(/\s+/);
const args = name => {
    if (NOVALUE.includes(name.slice(2))) return [];
    if (/^is(Not)?Equal$/.test(name)) return [EQ, EQ, opt(EQ), opt(EQ)];
    if (name === 'isEvery' || name === 'isSome') return [values, tests];
    if (name === 'getTag') return [value, flag];
    return [value, ...(MORE[name] || [])];
};
const unnamed = name => NOVALUE.includes(name.slice(2)) || /^is(Not)?Equal$|^isEvery$|^isSome$/.test(name);
const fns = [];
for (const name of TYPES) {
    fns.push({ pkg: 'types', name, args: args(name) });
    if (name === 'getTag') continue;
    const a = args(name), assertName = Object.keys(PARTNER).find(k => PARTNER[k] === name) || 'assert' + name.slice(2);
    if (!unnamed(name)) a.splice(1, 0, VAR);
    fns.push({ pkg: 'asserts', name: assertName, args: a, partner: name, named: !unnamed(name) });
}
// an assertion throws exactly when its type check says no
function agrees(ctx, { f, args, h, lib, show }) {
    if (!f.partner) return;
    const w = { used: new Set() }, vals = args.map(a => a.val(w));
    if (f.named) vals.splice(1, 1);
    let yes = false, own = false;
    try { yes = lib('types')[f.partner](...vals); } catch { own = true; }
    ctx.check(h.ok === !!yes, 'assertion-and-check-disagree', () => `${f.name} ${h.ok ? 'passed' : 'threw'}, ${f.partner} ${own ? 'threw' : 'returned ' + brief(yes)}: ${show()}`);
    if (!h.ok && !own && f.named) ctx.check(h.value instanceof Error && h.value.name === 'TypeError' && String(h.value.message).includes(`"${args[1].val(w)}"`), 'assertion-error', () => `${brief(h.value)}: ${show()}`);
    else if (h.ok) ctx.check(h.value === undefined, 'assertion-returns', show);
    ctx.probe(yes ? 'assertion holds' : 'assertion fails');
    if (!vals.length || f.partner === 'isEvery' || f.partner === 'isSome' || vals.slice(1).some(v => typeof v === 'function') || !ctx.c.chance(40)) return;
    // the same question about some more values
    const names = Object.keys(ANY), { asserts, types } = { asserts: lib('asserts')[f.name], types: lib('types')[f.partner] };
    for (let i = ctx.c.raw(names.length), n = 0; n < 24; n++) {
        const name = names[(i + n * 7) % names.length], v = ANY[name](), rest = vals.slice(1);
        let yes = false, ok = true;
        try { yes = !!types(v, ...rest); } catch {}
        try { asserts(v, ...(f.named ? ['size', ...rest] : rest)); } catch { ok = false; }
        if (yes) ctx.probe('further value holds');
        if (!ctx.check(yes === ok, 'assertion-and-check-disagree', () => `${f.name} ${ok ? 'passed' : 'threw'}, ${f.partner} ${yes ? 'held' : 'did not hold'} for ${name} ${brief(rest)}`)) return;
    }
}
// nothing that was only looked at has been started
const FIRST = { gen: v => v.next().value === 1, arrit: v => v.next().value === 1, mapit: v => v.next().value[0] === 1, agen: v => v.next().then(r => r.value === 1), readable: v => v.read === undefined || !v.readableDidRead };
async function untouched(ctx, { S }) {
    for (const s of S.shared) if (FIRST[s.base]) { ctx.probe('iterator looked at'); ctx.check(await FIRST[s.base](s.live), 'value-consumed', () => s.base); }
}
module.exports = {
    property: 'H03', packages: ['types', 'asserts'], runs: { quick: 14000, thorough: 600000 },
    scenarios: [{ name: 'values', run: ctx => history(ctx, fns, { after: x => agrees(ctx, x), end: x => untouched(ctx, x) }) }], fns,
    rule: 'Each run is a history of up to 24 calls (400 in large runs) by several clients, at different times, to up to five type checks and assertions over about 170 kinds of values, among them ones that change between calls, unstarted generators and streams, thenables and functions that record a call, throwing accessors, hostile and revoked proxies; test callbacks throw at a chosen call and call the library again; non-trivial: at least two calls.',
    real: ['packages/types and asserts, one shared instance per run', 'a freshly loaded instance per compared call'], stub: ['test callbacks', 'clock', 'process (isNodejs)'],
    assumptions: ['assertions are compared with the type check of the same name, given the same value and the same further arguments']
};
