'use strict';
const { ANY, LISTS, PLAINS, any, arr, cb, either, history, int, lit, many, obj, one, opt, pooled, rec, Shared, shobj, str, strs } = require('../pure');
const list = any(LISTS, 'list'), plainObj = any(PLAINS, 'plain'), value = any(null, 'any');
// values that the copying and traversing helpers are made for
const COPYABLE = Object.keys(ANY).filter(k => !['global', 'readable', 'hostile', 'revoked', 'revokedfn', 'math', 'json', 'proto', 'pointproto', 'Point', 'method', 'native', 'wr', 'gen', 'agen', 'arrit', 'mapit', 'genfn', 'tag'].includes(k));
const copyable = any(COPYABLE, 'copy');
const nums = S => pooled(S, 'nums', 3, () => { const a = []; for (let n = S.c.int(0, 7); n > 0; n--) a.push(S.c.int(0, 4)); return new Shared('n' + JSON.stringify(a), () => a.slice()); });
const words = strs('word'), wordsFilled = strs('word', 1);
const keyNames = S => pooled(S, 'keys', 3, () => { const a = []; for (let n = S.c.int(0, 4); n > 0; n--) a.push(S.c.pick(['a', 'b', 'c', 0, 'y z', '$x', "'q'", "'+(wasRun=1)+'", '__proto__', "'a\\'", '+(wasRun=1)+', 'self', 'list', 'length'])); return new Shared('k' + JSON.stringify(a), () => a.slice()); });
const key = one('a', 'b', 'A', 0, 'length', 'x', 'twice', 'toString');
const level = opt(one(0, 1, 2, 3, 4));
const nested = S => pooled(S, 'nested', 2, () => {
    const g = d => { const a = []; for (let n = S.c.int(0, 3); n > 0; n--) a.push(d && S.c.chance(50) ? g(d - 1) : S.c.int(0, 3)); return a; };
    const a = g(3), text = JSON.stringify(a);
    return new Shared('nest' + text, () => JSON.parse(text));
});
const items = S => pooled(S, 'items', 2, () => {
    const a = [], ids = ['1', '2', '3', '4', 5];
    for (let n = S.c.int(0, 5); n > 0; n--) { const x = { id: S.c.pick(ids), parentId: S.c.pick([null, ...ids, '']) }; if (S.c.chance(30)) x.n = { id: S.c.pick(ids) }; a.push(x); }
    const text = JSON.stringify(a);
    return new Shared('items' + text, () => JSON.parse(text));
});
const treeOpts = shobj('tree', { id: ['n.id', 'id'], dataField: [null, 'data'], childrenField: ['kids'], throwIfOrphans: [true, false], nestedIds: [true, false], assign: [true, false], rootParentIds: [{ '': true }, { 1: true }] });
const objects = S => pooled(S, 'deep', 2, () => {
    const g = d => { const o = {}; for (const k of ['a', 'b', 'y z', '0']) if (S.c.chance(60)) o[k] = d && S.c.bool() ? (S.c.chance(30) ? [g(d - 1)] : g(d - 1)) : S.c.pick([1, 'v', null]); return o; };
    const o = g(3), text = JSON.stringify(o);
    return new Shared('deep' + text, () => JSON.parse(text));
});
const each = cb(['none', () => undefined], ['stop', (v, i) => i !== 1], ['mul', v => v]);
const conv = cb(['id', v => v], ['str', v => String(typeof v)], ['pair', (a, b) => `${String(a)}`]);
const cmp = cb(['lt', (a, b) => (a < b ? -1 : a > b ? 1 : 0)], ['gt', (a, b) => (a < b ? 1 : a > b ? -1 : 0)]);
const fns = [];
const add = (pkg, table) => { for (const [name, ...args] of table) { const o = args.length && typeof args[args.length - 1] === 'object' ? args.pop() : {}; fns.push({ pkg, name, args, ...o }); } };
// changes its n-th argument (and, for `deep`, what is inside it): that is what it is for
const changes = (...n) => ({ mutates: (args, s) => n.some(i => args[i] === s) });
add('array', [
    ['dimensionLevel', either(list, nested)], ['each', either(nums, list), each], ['eachRight', either(nums, list), each], ['mapRight', either(nums, list), conv], ['flat', either(nested, list)], ['fromArrayLike', either(list, any(['length', 'args', 'str', 'u8'], 'like'))],
    ['isMultiDimensional', either(nested, value), opt(one(2, 3, 1)), opt(one(true, false))], ['isUnique', either(nums, list)], ['maxLengthIndex', words], ['minLengthIndex', words], ['maxRecursionDepth', either(nested, list), opt(one(true, false))],
    ['range', int(-3, 5), int(-3, 9), opt(one(1, 2, -1))], ['move', either(nums, words), int(-3, 4), int(-3, 4), changes(0)], ['sortByEng', words, opt(one(true, false)), changes(0)], ['sortByEngInitials', wordsFilled, opt(one(true, false)), changes(0)], ['sortWords', words, opt(one(true, false)), changes(0)], ['sortToIndexes', words],
    ['splitByStep', either(nums, words), int(0, 4)], ['splitChunk', either(nums, words), int(0, 4), opt(one('start', 'end', 'x'))], ['toArray', either(value, list), opt(shobj('ta', { allowNull: [true, false], allowUndefined: [true, false] }))],
    ['toObject', either(nums, words), cb(['key', v => 'k' + v]), conv], ['toTree', items, opt(treeOpts), { mutates: (args, s) => args[0] === s && args[1] && args[1].live && args[1].live.assign === true && args[1].live.dataField === null }], ['uniqueFromPrimitive', either(nums, words), opt(either(nums, one(1, 'a')))]
]);
add('object', [
    ['cascade', objects, str('keys'), opt(shobj('dep', { k: ['a', 'b', 0, "it's", "'+(wasRun=1)+'"] })), opt(one(true, false))], ['constructor', value], ['constructorName', value], ['createWithNull', opt(any(['{}', 'undefined', 'null'], 'cwn'))],
    ['deleteAttrs', plainObj, keyNames, changes(0)], ['derive', plainObj, opt(keyNames)], ['fromCascadeKeys', keyNames, opt(shobj('fck', { optional: [true, false], startDot: [true, false] }))], ['getFromPaths', either(objects, value), keyNames, opt(one(true, false))], ['getProperty', value, key],
    ['getPropertyGetter', key, value, { call: (l, a) => l.getPropertyGetter(a[0])(a[1]) }], ['isInstanceOf', value, one(Array, Object, Error, Map, Function)], ['isKeysIncludes', plainObj, either(key, keyNames), opt(one(true, false, 0, 1, 2, 3)), level], ['isPrototypeProperty', value, key],
    ['isValuesIncludes', plainObj, either(one(1, 'v', 2), list), opt(one(true, false))], ['keys', plainObj, level], ['shallowEqual', either(plainObj, list), either(plainObj, list), opt(cmp)], ['sortKeys', either(plainObj, objects, list), opt(either(obj({ deep: one(true, false), compare: cmp })))],
    ['stringify', either(copyable, objects), opt(obj({ replacer: either(cb(['same', (k, v) => v]), keyNames), space: one(0, 2, '\t'), cycles: one(true, false), compare: cb(['kk', (a, b) => (a.key < b.key ? 1 : -1)]) })), { async: true }],
    ['toArray', plainObj, opt(cb(['kv', (k, v) => String(k)])), level], ['toCascadeKeys', str('keys'), opt(shobj('dep', { k: ['a', 'b', 0, "it's", "'+(wasRun=1)+'"] }))], ['toLowerCaseKey', plainObj, opt(one(true, false))], ['values', plainObj, level]
]);
add('util', [['allAttrs', value], ['copy', either(copyable, objects, nested), { own: true }], ['copyAttrs', either(plainObj, objects, list), either(plainObj, objects), opt(one(true, false)), changes(1)], ['lackAttrs', value, keyNames]]);
module.exports = {
    property: 'H02', packages: ['array', 'object', 'util'], runs: { quick: 40000, thorough: 800000 },
    scenarios: [{ name: 'objects', run: ctx => history(ctx, fns) }], fns,
    rule: 'Each run is a history of up to 24 calls (400 in large runs) by several clients, at different times, to up to five array, object and copying helpers that share arrays, objects (also cyclic, frozen, sealed, with accessors, with a throwing accessor, proxies), key lists and option objects; callbacks throw at a chosen call and call the library again, clients change what they were given and what they passed; non-trivial: at least two calls.',
    real: ['packages/array, object and util, one shared instance per run', 'a freshly loaded instance per compared call'], stub: ['callbacks', 'clock'],
    assumptions: ['move and the sort helpers change the array they are given, deleteAttrs its object, copyAttrs its destination, toTree its items with assign and no data field']
};
