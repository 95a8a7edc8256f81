'use strict';
// Node's real readline with the clock of its CR/LF delay replaced by the simulated one.
const real = require('readline');
const realP = require('readline/promises');
const { PassThrough } = require('stream');
// the private slot that holds "a CR was the last byte, seen at <time>"
const sawReturn = (() => {
    const rl = real.createInterface({ input: new PassThrough(), crlfDelay: 100 });
    const s = Object.getOwnPropertySymbols(rl).find(x => x.description === '_sawReturnAt');
    rl.close();
    if (!s) throw new Error('sim: readline has no _sawReturnAt slot');
    return s;
})();
function patch(sim, rl) {
    let at = null; // virtual time of the pending CR
    Object.defineProperty(rl, sawReturn, {
        configurable: true,
        get() { return at !== null && sim.now - at <= rl.crlfDelay ? Number.MAX_SAFE_INTEGER : 0; },
        set(v) { at = v ? sim.now : null; }
    });
    return rl;
}
function makeReadline(sim) {
    const norm = args => (args[0] && args[0].input ? { terminal: !!(args[0].output && args[0].output.isTTY), ...args[0] } : args[0]);
    const createInterface = (...a) => patch(sim, a[0] && a[0].input ? real.createInterface(norm(a)) : real.createInterface(a[0], a[1], a[2], !!(a[1] && a[1].isTTY)));
    class Interface extends real.Interface { constructor(...a) { super(...(a[0] && a[0].input ? [norm(a)] : [a[0], a[1], a[2], false])); patch(sim, this); } }
    class PInterface extends realP.Interface { constructor(...a) { super(...(a[0] && a[0].input ? [norm(a)] : [a[0], a[1], a[2], false])); patch(sim, this); } }
    const promises = { Interface: PInterface, Readline: realP.Readline, createInterface: (...a) => patch(sim, a[0] && a[0].input ? realP.createInterface(norm(a)) : realP.createInterface(a[0], a[1], a[2], false)) };
    return { ...real, createInterface, Interface, promises };
}
module.exports = { makeReadline };
