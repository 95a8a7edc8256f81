'use strict';
// A browser-like timer world: setTimeout returns increasing numbers.
async function cancelAll(ctx) {
    const { c, sim } = ctx;
    const first = c.pick([0, 0, 1, 5, 200]);
    let seq = first;
    const live = new Map();
    const setTimeout = (fn, ms, ...args) => {
        const id = ++seq;
        const t = sim.addTimer(() => { live.delete(id); if (typeof fn === 'function') fn(...args); }, ms, [], false);
        live.set(id, t);
        return id;
    };
    const clearTimeout = id => { const t = live.get(+id); if (t) { live.delete(+id); sim.clearTimer(t); } };
    const { clearTimeoutAll } = ctx.load('function', { globals: { setTimeout, clearTimeout, process: undefined, setImmediate: undefined } });
    if (c.chance(30)) { sim.lateTimers = 50; sim.lateMax = 30; }
    const timers = [];
    const big = ctx.big();
    let budget = big ? c.int(100, 1500) : c.int(1, 20), epoch = 0;
    const arm = () => {
        if (budget-- <= 0) return;
        const t = { id: timers.length, ms: c.pick([0, 1, c.int(0, 10), c.int(0, 100), ...(big ? [1000, 3000] : [])]), cancelled: false, runs: 0 };
        timers.push(t);
        const act = c.weighted([[5, 'none'], [2, 'arm'], [1, 'cancel'], [1, 'cancel+arm']]);
        t.handle = setTimeout(() => {
            sim.note('timeout ' + t.id);
            t.runs++;
            ctx.check(!t.cancelled, 'ran-after-cancel', `timeout ${t.id} (${t.ms} ms) ran after cancel-all`);
            ctx.check(t.runs === 1, 'ran-twice', `timeout ${t.id}`);
            if (act.includes('cancel')) all();
            if (act.includes('arm')) arm();
        }, t.ms);
        sim.note(`arm ${t.id} ${t.ms}`);
    };
    const all = () => {
        epoch++;
        sim.note('cancel all');
        for (const t of timers) if (!t.runs && !t.cancelled) { t.cancelled = true; ctx.probe('pending-cancelled'); }
        clearTimeoutAll();
        ctx.check(live.size === 0, 'timer-left', () => `${live.size} timers pending after cancel-all: ${[...live.keys()].slice(0, 5)} of ${seq}`);
    };
    for (let k = c.int(1, 8); k > 0; k--) {
        const n = c.int(1, big ? 400 : 4), at = c.int(0, 60), what = c.weighted([[4, 'arm'], [2, 'all'], [1, 'one'], [1, 'others']]);
        sim.at(at, what, () => {
            if (what === 'all') all();
            else if (what === 'others') { const gone = c.pick([1, 60, 1100, 9000]); sim.note('others ' + gone); seq += gone; } // handles taken and released elsewhere
            else if (what === 'one') { const t = timers.length && c.pick(timers); if (t) { clearTimeout(t.handle); if (!t.runs) t.cancelled = true; } }
            else for (let x = 0; x < n; x++) arm();
        });
    }
    await sim.drive();
    if (sim.violations.length) return;
    for (const t of timers) if (!t.cancelled) ctx.check(t.runs === 1, 'lost-timer', `timeout ${t.id} (${t.ms} ms), scheduled after the last cancel-all before it was due, ran ${t.runs} times`);
    if (epoch && timers.length > 1) ctx.nontrivial();
}
module.exports = {
    property: 'F12', packages: ['function'], runs: { quick: 75000, thorough: 1000000 },
    scenarios: [{ name: 'cancel-all', run: cancelAll }],
    rule: 'Each run is a history of arming, firing, clearing and cancel-all calls (also from inside timeouts), with late timers; non-trivial = at least one cancel-all among several timers.',
    real: ['packages/function clearTimeoutAll'], stub: ['browser-like numeric timers on the virtual clock'], assumptions: ['Timer handles are increasing numbers (environments with object handles are outside the property)']
};
