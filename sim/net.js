'use strict';
// A simulated network under Node's real HTTP client: names, connections, byte segments, resets, stalls.
const http = require('http');
const https = require('https');
const { Duplex } = require('stream');
const { derive } = require('./env');
const util = require('util');
const os = require('os');

function sysError(code, syscall, extra) {
    const e = new Error(`${syscall} ${code}${extra && extra.address ? ' ' + extra.address + ':' + extra.port : extra && extra.hostname ? ' ' + extra.hostname : ''}`);
    e.errno = -(os.constants.errno[code] || 3008); e.code = code; e.syscall = syscall;
    return Object.assign(e, extra);
}
// Client end of a connection; the counterpart of net.Socket / tls.TLSSocket.
class SimSocket extends Duplex {
    constructor(net, options, secure) {
        super({ allowHalfOpen: false, emitClose: true, autoDestroy: true, decodeStrings: true });
        this.net = net; this.sim = net.sim; this.id = ++net.seq;
        this.secure = this.encrypted = secure;
        this.connecting = true; this.timeout = 0; this._timer = null;
        this.host = options.hostname || options.host || 'localhost';
        this.port = +(options.port || (secure ? 443 : 80));
        this.options = options;
        this._up = false; this._waiting = []; this._hungry = false;
        this.bytesRead = 0; this.bytesWritten = 0;
        this.authorized = false;
        this.remote = null;
        if (options.timeout) this.setTimeout(options.timeout);
        if (!secure) this.encrypted = undefined;
        this.on('end', () => { this.write = (c, e, cb) => { const err = new Error('This socket has been ended by the other party'); err.code = 'EPIPE'; const f = typeof e === 'function' ? e : cb; process.nextTick(() => { if (f) f(err); }); this.destroy(err); return false; }; });
    }
    get readyState() { return this.connecting ? 'opening' : this.destroyed ? 'closed' : 'open'; }
    get pending() { return this.connecting; }
    get remoteAddress() { return this.remote ? '10.0.0.1' : undefined; }
    get remotePort() { return this.port; }
    get remoteFamily() { return 'IPv4'; }
    address() { return { address: '10.0.0.2', port: 40000 + this.id, family: 'IPv4' }; }
    setNoDelay() { return this; }
    setKeepAlive() { return this; }
    ref() { return this; }
    unref() { return this; }
    getPeerCertificate() { return {}; }
    getCipher() { return {}; }
    isSessionReused() { return false; }
    setTimeout(ms, cb) {
        if (this.destroyed) return this;
        this.timeout = ms;
        if (typeof ms !== 'number') { const e = new TypeError('The "msecs" argument must be of type number.'); e.code = 'ERR_INVALID_ARG_TYPE'; throw e; }
        if (this._timer) { this.sim.clearTimer(this._timer); this._timer = null; }
        if (ms === 0) { if (cb) this.removeListener('timeout', cb); } else {
            this._timer = this.sim.addTimer(() => { this._timer = null; this.sim.note(`socket ${this.id} timeout`); this.emit('timeout'); }, ms, [], false);
            if (cb) this.once('timeout', cb);
        }
        return this;
    }
    _active() { if (this._timer && this.timeout > 0) { this.sim.clearTimer(this._timer); this._timer = this.sim.addTimer(() => { this._timer = null; this.sim.note(`socket ${this.id} timeout`); this.emit('timeout'); }, this.timeout, [], false); } }
    _opened() {
        this._up = true;
        const w = this._waiting; this._waiting = [];
        for (const f of w) f();
    }
    _read() { this._hungry = true; if (this.remote) this.remote._pump(); }
    _write(chunk, enc, cb) {
        const go = () => {
            this._active();
            if (!this.remote || this.remote.gone) { this.sim.at(0, `net ${this.id} write`, () => cb(this.destroyed ? null : sysError('EPIPE', 'write'))); return; }
            if (!chunk.length) { cb(); return; } // an empty write needs no round trip to the kernel
            const data = Buffer.from(chunk);
            this.remote._incoming(data);
            this.sim.at(this.net.lat(), `net ${this.id} wrote`, () => { this.bytesWritten += data.length; this._active(); cb(); });
        };
        if (this._up) go(); else this._waiting.push(go);
    }
    _final(cb) {
        const go = () => { if (this.remote) this.remote._incoming(null); this.sim.at(0, `net ${this.id} fin`, () => cb()); };
        if (this._up) go(); else if (this.connecting) this._waiting.push(go); else cb();
    }
    destroySoon() {
        if (this.writable) this.end();
        if (this.writableFinished) this.destroy(); else this.once('finish', this.destroy);
    }
    resetAndDestroy() { return this.destroy(); }
    _destroy(err, cb) {
        this.connecting = false;
        if (this._timer) { this.sim.clearTimer(this._timer); this._timer = null; }
        this.net.open.delete(this);
        if (this.remote) this.remote._clientGone();
        this.sim.note(`socket ${this.id} closed${err ? ' ' + (err.code || err.message) : ''}`);
        cb(err);
    }
}
// Server end: send(bytes), fin(), rst(); in order, split and delayed by the simulator.
class Conn {
    constructor(net, socket) {
        this.net = net; this.sim = net.sim; this.socket = socket; this.id = socket.id;
        this.inq = []; this.out = []; this.busy = false; this.gone = false; this.closed = false;
        this.onData = () => {}; this.onEnd = () => {}; this.onClose = () => {};
        this.sent = 0;
    }
    _incoming(data) {
        // client bytes travel in order
        this.inq.push(data);
        if (this.inq.length > 1) return;
        const step = () => {
            this.sim.at(this.net.lat(), `net ${this.id} ->server`, () => {
                const d = this.inq[0];
                if (!this.gone) { if (d === null) this.onEnd(); else this.onData(d); }
                this.inq.shift();
                if (this.inq.length) step();
            });
        };
        step();
    }
    _clientGone() { if (!this.closed) { this.closed = true; this.out = []; this.sim.at(this.net.lat(), `net ${this.id} client gone`, () => this.onClose()); } }
    send(buf, delay = 0) { this.out.push({ buf, delay }); this._pump(); }
    fin(delay = 0) { this.out.push({ fin: true, delay }); this._pump(); }
    rst(delay = 0) { this.out.push({ rst: true, delay }); this._pump(); }
    _pump() {
        if (this.busy || !this.out.length || this.closed) return;
        const s = this.socket, next = this.out[0];
        if (next.buf && !s._hungry) return; // flow control
        this.busy = true;
        this.sim.at(next.delay + this.net.lat(), `net ${this.id} ->client ${next.buf ? next.buf.length : next.fin ? 'fin' : 'rst'}`, () => {
            this.busy = false;
            if (this.closed || s.destroyed) return;
            this.out.shift();
            if (next.rst) { this.gone = true; this.out = []; s.destroy(sysError('ECONNRESET', 'read')); return; }
            s._active();
            if (next.fin) { this.out = []; s.push(null); return; }
            s.bytesRead += next.buf.length;
            this.sent += next.buf.length;
            s._hungry = false;
            if (s.push(next.buf)) s._hungry = true;
            this._pump();
        });
    }
}
class Net {
    constructor(sim, o = {}) {
        this.sim = sim; this.c = sim.c; this.seq = 0;
        this.latency = o.latency ?? 5;
        this.hosts = new Map(); // name -> {accept(conn), plan?(socket)}
        this.open = new Set(); this.connections = [];
    }
    lat() { return this.latency && this.c.chance(50) ? this.c.int(1, this.latency) : 0; }
    listen(host, port, accept, o = {}) { this.hosts.set(host.toLowerCase() + ':' + port, { accept, ...o }); }
    known(host) { for (const k of this.hosts.keys()) if (k.startsWith(host.toLowerCase() + ':')) return true; return false; }
    connect(options, secure) {
        const { sim } = this;
        const s = new SimSocket(this, options, secure);
        this.open.add(s); this.connections.push(s);
        sim.note(`socket ${s.id} connect ${s.host}:${s.port}${secure ? ' tls' : ''}`);
        const die = e => { if (!s.destroyed) s.destroy(e); };
        const plan = this.plan ? this.plan(s) : null; // null | 'dns' | 'refuse' | 'stall' | 'tls-reset'
        if (plan === 'stall') { sim.fault('connect-stall'); return s; }
        sim.at(this.lat(), `net ${s.id} dns`, () => {
            if (s.destroyed) return;
            if (plan === 'dns' || !this.known(s.host)) {
                if (plan === 'dns') sim.fault('dns-failure');
                const e = sysError('ENOTFOUND', 'getaddrinfo', { hostname: s.host }); die(e); return;
            }
            sim.at(this.lat(), `net ${s.id} syn`, () => {
                if (s.destroyed) return;
                const h = this.hosts.get(s.host.toLowerCase() + ':' + s.port);
                if (plan === 'refuse' || !h) { if (plan) sim.fault('connection-refused'); die(sysError('ECONNREFUSED', 'connect', { address: '10.0.0.1', port: s.port })); return; }
                if (plan === 'unreachable') { sim.fault('host-unreachable'); die(sysError('ETIMEDOUT', 'connect', { address: '10.0.0.1', port: s.port })); return; }
                s.remote = new Conn(this, s);
                s.connecting = false;
                s._active();
                s.emit('connect'); s.emit('ready');
                if (s.destroyed) return;
                if (!secure) { h.accept(s.remote); s._opened(); s.remote._pump(); return; }
                sim.at(this.lat(), `net ${s.id} tls`, () => {
                    if (s.destroyed) return;
                    if (plan === 'tls-reset') { sim.fault('tls-reset'); const e = new Error('Client network socket disconnected before secure TLS connection was established'); e.code = 'ECONNRESET'; die(e); return; }
                    if (h.plaintext) { const e = new Error('wrong version number'); e.code = 'EPROTO'; die(e); return; }
                    if (h.badCert && s.options.rejectUnauthorized !== false) { const e = new Error('self-signed certificate'); e.code = 'DEPTH_ZERO_SELF_SIGNED_CERT'; die(e); return; }
                    s.authorized = !h.badCert;
                    h.accept(s.remote);
                    s.emit('secureConnect');
                    if (s.destroyed) return;
                    s._opened(); s.remote._pump();
                });
            });
        });
        return s;
    }
    modules() {
        const net = this;
        class Agent extends http.Agent { createConnection(o) { return net.connect(o, false); } }
        class SAgent extends https.Agent { createConnection(o) { return net.connect(o, true); } }
        const mk = (real, A, secure) => {
            const globalAgent = new A({ keepAlive: true, scheduling: 'lifo', timeout: 5000 });
            const request = (...args) => {
                const i = typeof args[0] === 'string' || args[0] instanceof URL ? 1 : 0;
                const cb = args.slice(i).find(a => typeof a === 'function');
                const o = args[i] && typeof args[i] === 'object' ? args[i] : {};
                const agent = o.agent === false ? new A() : o.agent instanceof A ? o.agent : globalAgent;
                const opts = { ...o, agent };
                delete opts.createConnection;
                return i ? real.request(args[0], opts, cb) : real.request(opts, cb);
            };
            return derive(real, { request, get: (...a) => { const r = request(...a); r.end(); return r; }, globalAgent, Agent: A });
        };
        return { http: mk(http, Agent, false), https: mk(https, SAgent, true) };
    }
}
// Independent HTTP/1.1 request reader for the server side. onRequest({method, target, headers: [[name, value]], header(name), body}, conn)
function httpServer(onRequest, onBad) {
    return conn => {
        let buf = Buffer.alloc(0), head = null;
        const bad = why => { conn.bad = why; if (onBad) onBad(why, conn); };
        conn.onData = d => {
            buf = Buffer.concat([buf, d]);
            for (;;) {
                if (!head) {
                    const i = buf.indexOf('\r\n\r\n');
                    if (i < 0) return;
                    const lines = buf.subarray(0, i).toString('latin1').split('\r\n');
                    buf = buf.subarray(i + 4);
                    const m = /^(\S+) (\S+) HTTP\/1\.1$/.exec(lines[0]);
                    if (!m) { bad('request line ' + lines[0]); return; }
                    const headers = lines.slice(1).map(l => { const k = l.indexOf(':'); return [l.slice(0, k), l.slice(k + 1).trim()]; });
                    const all = n => headers.filter(h => h[0].toLowerCase() === n).map(h => h[1]);
                    head = { method: m[1], target: m[2], headers, all, header: n => all(n)[0], conn };
                    head.chunked = /chunked/i.test(head.header('transfer-encoding') || '');
                    const cl = all('content-length');
                    if (cl.length > 1 || (cl.length && head.chunked) || (cl.length && !/^\d+$/.test(cl[0]))) { bad('ambiguous length'); return; }
                    head.need = cl.length ? +cl[0] : 0;
                    conn.head = head;
                }
                let body;
                if (head.chunked) {
                    const parts = [];
                    let p = 0, done = false;
                    for (;;) {
                        const e = buf.indexOf('\r\n', p);
                        if (e < 0) break;
                        const n = parseInt(buf.subarray(p, e).toString('latin1'), 16);
                        if (!(n >= 0)) { bad('chunk size'); return; }
                        if (buf.length < e + 2 + n + 2) break;
                        if (n) parts.push(buf.subarray(e + 2, e + 2 + n));
                        p = e + 2 + n + 2;
                        if (!n) { done = true; break; }
                    }
                    if (!done) return;
                    body = Buffer.concat(parts); buf = buf.subarray(p);
                } else {
                    if (buf.length < head.need) return;
                    body = Buffer.from(buf.subarray(0, head.need)); buf = buf.subarray(head.need);
                }
                const r = head; head = null;
                r.body = body;
                onRequest(r, conn);
            }
        };
        conn.onEnd = () => { conn.halfClosed = true; };
    };
}
module.exports = { Net, SimSocket, Conn, httpServer, sysError };
