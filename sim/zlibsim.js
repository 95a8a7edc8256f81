'use strict';
// Node's real zlib streams, with the thread pool replaced by simulator events:
// each compress/decompress step runs synchronously and completes after a simulated delay.
const zlib = require('zlib');
const { derive } = require('./env');

// the completion callback is only ever given to handle.init, so remember it there
for (const make of [() => zlib.createUnzip(), () => zlib.createBrotliDecompress(), ...(zlib.createZstdDecompress ? [() => zlib.createZstdDecompress()] : [])]) {
    const proto = Object.getPrototypeOf(make()._handle);
    if (proto._simInit) continue;
    const init = proto.init;
    proto._simInit = true;
    proto.init = function (...args) { this._done = args.find(a => typeof a === 'function'); return init.apply(this, args); };
}
function makeZlib(sim, o = {}) {
    const tame = z => {
        const h = z._handle;
        const onerror = h.onerror;
        h.write = (...args) => {
            let error = null;
            h.onerror = (...e) => { error = e; };
            h.writeSync(...args);
            h.onerror = onerror;
            sim.at(o.latency ? sim.c.int(0, o.latency) : 0, 'zlib', () => {
                if (error) { sim.note('zlib error'); onerror.apply(h, error); } else h._done.call(h);
            });
        };
        return z;
    };
    const props = {};
    for (const k of Object.keys(zlib)) {
        if (/^create/.test(k) && typeof zlib[k] === 'function') props[k] = opts => tame(zlib[k](opts));
        else if (typeof zlib[k + 'Sync'] === 'function') {
            props[k] = (buf, opts, cb) => {
                if (typeof opts === 'function') { cb = opts; opts = {}; }
                let r, err = null;
                try { r = zlib[k + 'Sync'](buf, opts); } catch (e) { err = e; }
                sim.at(0, 'zlib', () => cb(err, r));
            };
        } else if (typeof zlib[k] === 'function' && zlib[k].prototype && zlib[k].prototype._transform && /^[A-Z]/.test(k)) {
            props[k] = function (opts) { return tame(new zlib[k](opts)); };
            props[k].prototype = zlib[k].prototype;
        }
    }
    return derive(zlib, props);
}
module.exports = { makeZlib };
