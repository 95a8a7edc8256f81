'use strict';
// One simulated run: pure function of (scenario code, bundle code, choices).
const { Chooser, Sim, hashSeed, observe } = require('./core');
const { makeEnv, Forbidden } = require('./env');

const KNOWN = new Map();
try {
    for (const l of require('fs').readFileSync(require('path').join(__dirname, '..', 'known-findings.txt'), 'utf8').split('\n')) {
        const m = /^finding: property=(\S+) id=(\S+) (.*)/.exec(l);
        if (m) KNOWN.set(m[1] + '/' + m[2], m[3]);
    }
} catch {}
let current = null; // the Sim of the run in progress
function installProcessHooks() {
    process.on('unhandledRejection', reason => {
        if (reason instanceof Forbidden && current) current.forbidden = reason.message;
        if (current) {
            current.unhandled.push(reason);
            current.note('unhandledRejection ' + brief(reason));
        }
    });
    process.on('uncaughtException', e => {
        if (e instanceof Forbidden && current) current.forbidden = e.message;
        if (current) current.onUncaught(e, 'tick');
    });
    process.on('rejectionHandled', () => {});
    process.on('warning', () => {});
}
function brief(e) {
    try {
        if (e && typeof e === 'object' && 'message' in e) return String(e.message).replace(/\u001b\[[0-9;]*m/g, '').replace(/\s+/g, ' ').slice(0, 160);
        return String(e).replace(/\u001b\[[0-9;]*m/g, '').replace(/\s+/g, ' ').slice(0, 160);
    } catch { return '?'; }
}

class Ctx {
    constructor(sim, mod, bundles) {
        this.sim = sim;
        this.c = sim.c;
        this.mod = mod;
        this.bundles = bundles;
        this.nontrivialFlag = false;
        this.allowUnhandled = false;
        this.allowUncaught = false;
    }
    env(opts) { return makeEnv(this.sim, opts); }
    load(pkg, optsOrEnv) {
        const env = optsOrEnv && optsOrEnv.load ? optsOrEnv : makeEnv(this.sim, optsOrEnv);
        this.lastEnv = env;
        return env.load(pkg, this.bundles[pkg]);
    }
    observe(p, name) { return observe(this.sim, Promise.resolve(p), name); }
    // call fn; a synchronous throw becomes a rejected observation flagged `sync`
    call(name, fn) {
        this.sim.note('call ' + name);
        try {
            const r = fn();
            if (r && typeof r.then === 'function') return observe(this.sim, r, name);
            return { name, state: 'fulfilled', value: r, at: this.sim.now, sync: true, notPromise: true };
        } catch (e) {
            return { name, state: 'rejected', value: e, at: this.sim.now, sync: true };
        }
    }
    fail(k, d) { this.sim.fail(k, d); }
    check(cond, k, d) { return this.sim.check(cond, k, d); }
    // a failure that matches, exactly, a defect recorded in known-findings.txt; anything not listed there is a violation
    known(id, k, d) {
        const key = this.mod.property + '/' + id;
        if (!KNOWN.has(key)) return this.sim.fail(k, d);
        this.sim.note('known finding ' + id);
        this.sim.probe('known-finding:' + id);
    }
    // now and then a run is far larger than the others, so that a limit inside the code is crossed
    big(perMille = 5) {
        const b = this.c.chance(perMille, 1000);
        if (b) { this.sim.probe('large-run'); this.sim.floorSteps = 100000; }
        return b;
    }
    probe(k) { this.sim.probe(k); }
    nontrivial() { this.nontrivialFlag = true; }
}

async function runOnce(mod, bundles, seedParts, choices, tier) {
    const chooser = new Chooser(seedParts, choices);
    const sim = new Sim(chooser, mod.simOpts || {});
    sim.unhandled = [];
    current = sim;
    const ctx = new Ctx(sim, mod, bundles);
    ctx.tier = tier;
    const list = mod.scenarios;
    let scenario = list[0];
    if (list.length > 1) scenario = chooser.weighted(list.map(s => [s.weight ?? 1, s]));
    sim.note('scenario ' + scenario.name);
    let harnessError = null;
    try {
        await scenario.run(ctx);
        await sim.drain();
    } catch (e) {
        if (e instanceof Forbidden) sim.forbidden = e.message;
        harnessError = e;
        sim.fail('scenario-exception', e && e.stack ? e.stack : String(e));
    }
    if (sim.unhandled.length && !ctx.allowUnhandled) sim.fail('unhandled-rejection', sim.unhandled.map(brief).join(' ; '));
    if (sim.uncaught.length && !ctx.allowUncaught) {
        sim.fail('uncaught-exception', sim.uncaught.map(u => brief(u.error) + ' in ' + u.where + '\n' + (u.error && u.error.stack ? u.error.stack.split('\n').slice(0, 4).join('\n') : '')).join(' ; '));
    }
    if (sim.stepLimitHit) sim.fail('no-progress', `step limit ${sim.maxSteps} reached`);
    sim.ended = true;
    await sim.drain();
    current = null;
    return {
        scenario: scenario.name, violations: sim.violations, choices: chooser.taken, digest: sim.digest(), steps: sim.steps, simMs: sim.now,
        faults: sim.faults, probes: sim.probes, nontrivial: ctx.nontrivialFlag, log: sim.log, forbidden: sim.forbidden, harnessError: harnessError && harnessError.stack
    };
}

function seedFor(verifSeed, property, index) { return hashSeed(verifSeed, property, index); }

module.exports = { KNOWN, runOnce, seedFor, installProcessHooks, brief };
