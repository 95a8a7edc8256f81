'use strict';
const { arr, cb, either, history, int, lit, many, obj, one, opt, re, shobj, str, strs } = require('../pure');
const BIND = cb(['wrap', s => `<${s}>`], ['same', s => s], ['upper', s => String(s).toUpperCase()]);
const REPL = either(one('', '-', '$1', '[$&]'), cb(['len', s => String(s.length)], ['up', s => String(s).toUpperCase()]));
const TRIM = shobj('trim', { space: [true, false], zeroWidth: [true, false], likeSpace: [true, false], control: [true, false] });
const SIDE = shobj('side', { escape: [true, false], marks: [{ '<': '>' }, { '(': ')', '"': '"' }], ellipsis: [true, false] });
const POS = shobj('pos', { position: [0, 1, 3, -1], caseSensitivity: [true, false], preserve: [true, false] });
// a list of characters, one character, or a text that looks like a list
const EXTRA = either(one('.', 'ab'), strs('word'), strs('extra'), S => { const l = strs('extra')(S).live; return lit(l.join(S.c.pick([',', '', '|']))); });
const pair = (a, b) => S => arr([a(S), b(S)]);
const t = str('text'), id = str('id'), p = str('path'), k = str('cookie');
const fns = [];
const add = (pkg, table) => { for (const [name, ...args] of table) fns.push({ pkg, name, args }); };
add('regexp', [
    ['execAll', re, t, opt(either(one(0, 'index', 'input', 'groups', 'length', 1, 'bad', undefined), cb(['m', m => m[0]], ['i', m => m.index], ['same', m => m])))],
    ['testSome', many(re, 0, 3), t], ['testEvery', many(re, 0, 3), t], ['mapReplace', many(re, 0, 3), t, REPL],
    ['inChinese', t, opt(one(true, false))], ['inJapanese', t], ['inChkPunctuation', t], ['isEmail', id], ['isIp', id], ['isURI', id], ['isChinaPhoneNumber', id, opt(one(0, 1, 2))]
]);
add('string', [
    ['fromChars', strs('text')], ['chars', t], ['trimStart', t, opt(TRIM), opt(EXTRA)], ['trim', t, opt(TRIM), opt(EXTRA)], ['trimAll', t, opt(TRIM), opt(EXTRA)], ['trimEnd', t, opt(TRIM), opt(EXTRA)],
    ['multiReplace', t, many(either(obj({ match: either(re, one('a', '.')), replacer: REPL }, 100), pair(either(re, one('a', ',')), REPL)), 0, 3)],
    ['corrector', t, opt(shobj('corr', { enhanceRule: [true, false], toHalfWith: [true, false] }))],
    ['toRegExp', t, opt(one('g', 'i', 'gi', 'x', ''))], ['toRegExpSource', t], ['parseJson', str('json'), opt(cb(['same', (a, b) => b], ['key', a => a]))],
    ['bindInside', t, either(SIDE, BIND), opt(BIND)], ['bindOutside', t, either(SIDE, BIND), opt(BIND)], ['toSentences', t, opt(SIDE)],
    ['matchOrder', t, many(re, 0, 3)], ['matchSplit', t, re], ['notStarts', t, strs('text'), opt(POS)], ['startsSlice', t, t, opt(POS)],
    ['wordStart', t, opt(int(-1, 6))], ['word', t, opt(int(-1, 6))], ['wordEnd', t, opt(int(-1, 6))],
    ...['rmLikeSpaceEnd', 'rmLikeSpace', 'rmControlEnd', 'rmZeroWidthStart', 'rmControl', 'rmLikeSpaceStart', 'rmZeroWidthEnd', 'rmControlStart', 'rmZeroWidth', 'startTabsLength', 'startSpacesLength', 'quotePair', 'quoteClosed', 'bytesArray', 'bytesLength', 'decodeEntity', 'decodeEntityByName', 'decodeEntityByPoint', 'encodeEntityToName', 'encodeEntityToPoint'].map(n => [n, t]),
    ['isSpaceString', t, opt(TRIM), opt(EXTRA)], ['subSpaces', t, re, opt(cb(['len', s => String(s.length)], ['same', s => s]))],
    ['codePointAt', t, opt(int(-1, 5))], ['splitByBytes', t, opt(int(1, 9))], ['formatBytes', one(0, 1, 999, 1000, 1024, 1500, 1e6, 1e9, 1e24, -1500, 1e30), opt(one(true, false)), opt(int(0, 3))],
    ['frontOf', t, strs('text'), opt(POS)], ['behindOf', t, strs('text'), opt(POS)]
]);
add('cookie', [
    ['parseCookie', k, opt(cb(['dec', s => decodeURIComponent(s)], ['same', s => s], ['num', () => 1]))], ['splitSetCookie', k], ['parseSetCookie', strs('cookie'), opt(shobj('psc', { map: [true, false], decode: [true, false] }))],
    ['joinSetCookie', either(many(obj({ name: str('word'), value: str('word') }, 100), 0, 3), obj({ a: obj({ name: str('word'), value: str('word') }, 100) }))],
    ['createCookie', str('word'), t, shobj('cc', { maxAge: [1, 1.5, NaN], domain: ['a.b', '', '中'], path: ['/', 1], httpOnly: [true, false], secure: [true], sameSite: [true, 'LAX', 'none', 'x'], expires: [new Date(0)] })]
]);
add('path', [['isWindowsPath', p, opt(one(true, false))], ['isWindowsExtendedLengthPath', p], ['normalize', p], ['unifiedSeparator', p]]);
add('number', [
    ['amountInWords', either(str('num'), one(0, 10, 1234.5, -1.01, 100000000, 20030.0405, 1e15, '-0', ' 12.30 ', '', 'x', NaN, '0.1', '1e3')), opt(shobj('aw', { prefix: ['', '人民币'], negative: ['负', '-'] }))],
    ['inRange', one(0, 1, 5, -1, NaN), one(0, 1, 5, -3), opt(one(0, 1, 5, 9))], ['stringify', one(0, 1e21, 1.5e-7, -0, NaN, Infinity, 123456789012345680000)], ['toFiniteNumber', either(str('num'), one(null, undefined, Infinity, NaN, 1)), one(0, 7)], ['toInt', either(str('num'), one(1.5, -1.5, NaN))], ['withDelimiter', either(str('num'), one(1234567.891, -1234, NaN)), opt(shobj('wd', { delimiter: [',', '_', ''], capacity: [2, 3, 0] }))]
]);
const NAMES = ['black', 'red', 'brightRed', 'brightWhite', 'nope', 'white', 'gray'];
add('term', [
    ['ansiFormat', opt(shobj('ansi', { bold: [true, false], dim: [true], italic: [true], underlined: [true, false], blink: [true], reverse: [true], hidden: [true] }))],
    ['colorCode24bit', many(one(0, 1, 255, 256), 2, 4)], ['colorCode8bit', int(-1, 257)], ['colorNameCode24bit', one(...NAMES), opt(one('VGA', 'Ubuntu', 'CMD', 'PuTTY', 'nope'))], ['colorNameCode3bit', one(...NAMES)], ['colorNameCode8bit', one(...NAMES)],
    ['fontColor', t, opt(shobj('fc', { foreground: NAMES, background: NAMES, bold: [true, false], italic: [true] }))], ['cursorMove', one('up', 'down', 'forward', 'back', 'x'), opt(int(0, 4))], ['cursorPosition', opt(int(0, 9)), opt(int(0, 9))], ['eraseLine', opt(int(0, 2))], ['eraseScreen', opt(int(0, 2))], ['scrollUp', opt(int(0, 3))], ['scrollDown', opt(int(0, 3))], ['scrollPosition', opt(int(0, 3)), opt(int(0, 3))]
]);
for (const f of fns) if (f.name === 'parseJson') f.async = true;
module.exports = {
    property: 'H01', packages: ['regexp', 'string', 'cookie', 'path', 'number', 'term'], runs: { quick: 28000, thorough: 800000 },
    scenarios: [{ name: 'texts', run: ctx => history(ctx, fns) }], fns,
    rule: 'Each run is a history of up to 24 calls (400 in large runs) by several clients, at different times, to up to five text helpers that share regular expressions, arrays and option objects; callbacks throw at a chosen call and call the library again, clients change what they were given and what they passed; non-trivial: at least two calls.',
    real: ['packages/regexp, string, cookie, path, number and the colour and cursor functions of term, one shared instance per run', 'a freshly loaded instance per compared call'], stub: ['callbacks', 'clock'],
    assumptions: ['regular expressions without the sticky flag']
};
