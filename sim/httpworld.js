'use strict';
// The request package on a simulated network, with response generators.
const zlib = require('zlib');
const { Net, httpServer } = require('./net');
const { makeZlib } = require('./zlibsim');

function world(ctx, o = {}) {
    const { sim } = ctx;
    if (o.large !== undefined) sim.c.large = o.large;
    const net = new Net(sim, { latency: o.latency ?? sim.c.pick([0, 4, 30]) });
    const env = ctx.env({ platform: 'linux', modules: { ...net.modules(), net: { isIP: require('net').isIP, isIPv4: require('net').isIPv4, isIPv6: require('net').isIPv6 }, zlib: makeZlib(sim, { latency: 2 }) }, globals: { FormData, Blob, File: globalThis.File, URL, URLSearchParams } });
    const lib = ctx.load('request', env);
    return { net, env, lib };
}
const REASONS = { 200: 'OK', 201: 'Created', 204: 'No Content', 206: 'Partial Content', 301: 'Moved Permanently', 302: 'Found', 303: 'See Other', 304: 'Not Modified', 307: 'Temporary Redirect', 308: 'Permanent Redirect', 400: 'Bad Request', 404: 'Not Found', 500: 'Internal Server Error', 503: 'Service Unavailable' };

function genBody(c) {
    const kind = c.raw(5), n = c.weighted([[1, 0], [4, c.int(1, 40)], [3, c.int(200, 3000)], [1, c.int(15000, 70000)], [c.large ? 12 : 0, c.large && c.int(70000, 2000000)]]);
    if (kind === 0) return Buffer.from('héllo 漢字 '.repeat(Math.ceil(n / 16))).subarray(0, n);
    if (kind === 1) return Buffer.alloc(n, 'a');
    const b = Buffer.alloc(n);
    let x = c.raw(65536) + 1;
    for (let i = 0; i < n; i++) { x = (Math.imul(x, 1103515245) + 12345) >>> 0; b[i] = kind === 2 ? x >>> 16 : (x >>> 16) % 7 + 65; }
    return b;
}
const CODECS = ['none', 'gzip', 'x-gzip', 'deflate', 'raw-deflate', 'br'];
function encode(c, codec, body) {
    switch (codec) {
        case 'gzip': case 'x-gzip': return zlib.gzipSync(body, { level: c.pick([6, 0, 9]) });
        case 'deflate': return zlib.deflateSync(body, { level: c.pick([6, 1, 9]), windowBits: c.pick([15, 15, 14, 11, 9]) });
        case 'raw-deflate': return zlib.deflateRawSync(body, { level: c.pick([6, 0, 9]) });
        case 'br': return zlib.brotliCompressSync(body, { params: { [zlib.constants.BROTLI_PARAM_QUALITY]: 4 } });
        default: return body;
    }
}
// what a lenient decoder makes of these bytes: a Buffer, or null when they cannot be decoded
function decode(codec, data) {
    const z = { flush: zlib.constants.Z_SYNC_FLUSH, finishFlush: zlib.constants.Z_SYNC_FLUSH };
    try {
        switch (codec) {
            case 'gzip': case 'x-gzip': case 'deflate': return data.length ? zlib.unzipSync(data, z) : data;
            case 'raw-deflate': return data.length ? zlib.inflateRawSync(data, z) : data;
            case 'br': return data.length ? zlib.brotliDecompressSync(data, { flush: zlib.constants.BROTLI_OPERATION_FLUSH, finishFlush: zlib.constants.BROTLI_OPERATION_FLUSH }) : data;
            default: return data;
        }
    } catch { return null; }
}
// a response: logical content plus its bytes on the wire
function genResponse(c, o = {}) {
    const r = { status: o.status ?? c.pick([200, 200, 200, 201, 206, 404, 500, 204, 304]), method: o.method || 'GET' };
    r.reason = c.chance(10) ? c.pick(['', 'Custom Reason', 'Très bien']) : REASONS[r.status] || 'Status';
    r.body = o.body ?? genBody(c);
    r.codec = o.codec ?? c.pick(CODECS);
    r.bodyless = r.method === 'HEAD' || r.status === 204 || r.status === 304;
    r.framing = o.framing ?? c.pick(['length', 'chunked', 'close']);
    r.payload = encode(c, r.codec, r.body);
    if (o.corrupt && r.payload.length && !r.bodyless) {
        r.payload = Buffer.from(r.payload);
        const i = c.int(0, r.payload.length - 1);
        r.payload[i] ^= 1 << c.raw(8);
        r.corrupted = i;
    }
    const headers = [];
    const hname = n => (c.chance(20) ? n.toUpperCase() : n);
    if (r.codec !== 'none') { const e = r.codec === 'raw-deflate' ? 'deflate' : r.codec; headers.push([hname('Content-Encoding'), c.chance(15) ? e.toUpperCase() : e]); } else if (c.chance(10)) headers.push(['Content-Encoding', c.pick(['identity', 'zstd', 'x-own'])]);
    if (r.framing === 'length') headers.push([hname('Content-Length'), String(r.payload.length)]);
    else if (r.framing === 'chunked') headers.push([hname('Transfer-Encoding'), 'chunked']);
    if (r.status === 204 || r.status === 304) { r.framing = 'none'; headers.splice(0, headers.length, ...headers.filter(h => !/^(content-length|transfer-encoding)$/i.test(h[0]))); }
    headers.push(['X-Tag', o.tag ?? 't' + c.raw(1000)]);
    for (let i = c.large ? c.int(20, 150) : c.int(0, 3); i > 0; i--) headers.push(c.pick([['Set-Cookie', 'a=' + c.raw(9)], ['X-Empty', ''], ['Vary', 'x'], ['X-Long', 'v'.repeat(c.int(1, 400))], ['ETag', '"e"']]));
    if (c.bool()) headers.push(['Connection', c.pick(['close', 'keep-alive'])]);
    for (const h of o.headers || []) headers.push(h);
    r.headers = c.shuffle(headers);
    r.head = Buffer.from(`HTTP/1.1 ${r.status} ${r.reason}\r\n${r.headers.map(h => h[0] + ':' + c.pick([' ', '', '  ']) + h[1] + '\r\n').join('')}\r\n`, 'latin1');
    const parts = [];
    if (o.informational) for (let i = o.informational; i > 0; i--) parts.push(Buffer.from(c.pick(['HTTP/1.1 103 Early Hints\r\nLink: </s>\r\n\r\n', 'HTTP/1.1 100 Continue\r\n\r\n', 'HTTP/1.1 102 Processing\r\nX-P: 1\r\n\r\n'])));
    parts.push(r.head);
    r.headEnd = parts.reduce((a, b) => a + b.length, 0);
    if (!r.bodyless) {
        if (r.framing === 'chunked') {
            let p = 0;
            while (p < r.payload.length) {
                const n = Math.min(r.payload.length - p, c.pick([1, 7, 100, 5000, 1e6]));
                parts.push(Buffer.from(n.toString(16) + (c.chance(10) ? ';ext=1' : '') + '\r\n'), r.payload.subarray(p, p + n), Buffer.from('\r\n'));
                p += n;
                if (parts.length > 400) { parts.push(Buffer.from((r.payload.length - p).toString(16) + '\r\n'), r.payload.subarray(p), Buffer.from('\r\n')); if (p === r.payload.length) parts.splice(-3); p = r.payload.length; }
            }
            parts.push(Buffer.from('0\r\n' + (c.chance(10) ? 'X-Trailer: t\r\n' : '') + '\r\n'));
        } else parts.push(r.payload);
    }
    r.wire = Buffer.concat(parts);
    return r;
}
// put the bytes on the connection, split at random places
function deliver(ctx, conn, bytes, o = {}) {
    const { c } = ctx;
    const style = o.style ?? c.raw(4);
    let p = 0;
    const gap = () => (o.slow && c.chance(30) ? c.int(1, o.slow) : 0);
    if (o.first) conn.send(Buffer.alloc(0), o.first);
    let n = 0;
    while (p < bytes.length) {
        const len = style === 0 || ++n > 60 ? bytes.length - p : style === 1 ? c.int(1, 5) : style === 2 ? c.int(1, Math.max(1, bytes.length >> 1)) : c.int(1, 1500);
        conn.send(bytes.subarray(p, Math.min(bytes.length, p + len)), gap());
        p += len;
    }
}
const brief = v => String((v && v.stack && v.message) || v).replace(/\u001b\[[0-9;]*m/g, '').slice(0, 200) + (v && v.cause && v.cause.error ? ' <- ' + String(v.cause.error.code || v.cause.error.message) : '');
const show = b => (b && b.length !== undefined ? `${b.length} bytes ${JSON.stringify(Buffer.from(b).subarray(0, 40).toString('latin1'))}` : String(b));
function expectHeaders(r) {
    const out = {};
    for (const [k, v] of r.headers) {
        const n = k.toLowerCase();
        if (n === 'set-cookie') (out[n] ??= []).push(v);
        else if (out[n] === undefined) out[n] = v;
        else if (!['content-length', 'content-type', 'etag', 'location', 'retry-after'].includes(n)) out[n] += ', ' + v;
    }
    return out;
}
function checkHeaders(r, got) {
    const want = expectHeaders(r);
    for (const k of Object.keys(want)) {
        if (k === 'content-encoding' && got[k] === undefined) continue;
        if (JSON.stringify(got[k]) !== JSON.stringify(want[k])) return `${k} is ${JSON.stringify(got[k])}, the server sent ${JSON.stringify(want[k])}`;
    }
    for (const k of Object.keys(got)) if (want[k] === undefined) return `${k} was never sent`;
    return null;
}
module.exports = { world, genBody, genResponse, deliver, decode, encode, CODECS, REASONS, brief, show, checkHeaders, httpServer };
