'use strict';
// Chooser (every decision of a run) and Sim (virtual time, event queue, log).
const crypto = require('crypto');
const realSetImmediate = setImmediate;
const RealDate = Date;

function hashSeed(...parts) {
    const h = crypto.createHash('sha256').update(parts.join('|')).digest();
    return [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12) | 1];
}

// sfc32
function makeRng(seedParts) {
    let [a, b, c, d] = seedParts;
    const next = () => {
        a |= 0; b |= 0; c |= 0; d |= 0;
        const t = (((a + b) | 0) + d) | 0;
        d = (d + 1) | 0;
        a = b ^ (b >>> 9);
        b = (c + (c << 3)) | 0;
        c = (c << 21) | (c >>> 11);
        c = (c + t) | 0;
        return t >>> 0;
    };
    for (let i = 0; i < 12; i++) next();
    return next;
}

// One choice sequence decides the whole run. `choices` (from a replay file or the
// shrinker) is consumed first; past its end every choice is 0 (the simplest one).
class Chooser {
    constructor(seedParts, choices) {
        this.rng = choices ? null : makeRng(seedParts);
        this.given = choices || null;
        this.taken = [];
    }
    raw(n) {
        // uniform integer in [0, n)
        if (n <= 1) return 0;
        const i = this.taken.length;
        let v;
        if (this.given) v = i < this.given.length ? this.given[i] % n : 0;
        else v = n <= 0x100000000 ? Math.floor((this.rng() / 0x100000000) * n) : this.rng() % n;
        this.taken.push(v);
        return v;
    }
    int(lo, hi) { return lo + this.raw(hi - lo + 1); }
    // probability num/den; choice 0 means false, so shrinking removes the event
    chance(num, den = 100) {
        const v = this.raw(den);
        return v >= den - num;
    }
    bool() { return this.raw(2) === 1; }
    pick(arr) { return arr[this.raw(arr.length)]; }
    // weighted pick: entries [weight, value]; the first entry is the simplest
    weighted(entries) {
        let total = 0;
        for (const e of entries) total += e[0];
        let v = this.raw(total);
        for (const e of entries) { if (v < e[0]) return e[1]; v -= e[0]; }
        return entries[entries.length - 1][1];
    }
    shuffle(arr) {
        const a = arr.slice();
        for (let i = a.length - 1; i > 0; i--) {
            const j = i - this.raw(i + 1);
            [a[i], a[j]] = [a[j], a[i]];
        }
        return a;
    }
    // mostly small
    small(max) {
        return this.weighted([[6, 0], [3, 1]]) === 0 ? this.int(0, Math.min(max, 4)) : this.int(0, max);
    }
}

class StepLimit extends Error {}

class Sim {
    constructor(chooser, opts = {}) {
        this.c = chooser;
        this.now = 0; // ms of virtual (monotonic) time
        this.skew = 0; // wall clock = base + now + skew
        this.base = opts.base ?? 1700000000000;
        this.seq = 0;
        this.events = []; // {at, seq, kind, fn, label, timer}
        this.steps = 0;
        this.maxSteps = opts.maxSteps ?? 20000;
        this.log = [];
        this.hash = crypto.createHash('md5');
        this.logCount = 0;
        this.faults = Object.create(null);
        this.probes = Object.create(null);
        this.violations = [];
        this.uncaught = [];
        this.immediates = [];
        this.stepHooks = [];
        this.idleHooks = [];
        this.timerSeq = 0;
        this.timers = new Map(); // id -> timer object
        this.lateTimers = 0; // percent chance that a timer fires late
        this.lateMax = 50;
        this.readTick = 0; // ms the clock advances per Date.now() read (busy waiting)
        this.reads = 0;
        this.ended = false;
        this.drainRounds = opts.drainRounds ?? 1;
        this.interleave = true; // random order among simultaneous non-timer events
    }
    note(msg) {
        const line = `${this.now} ${msg}`;
        this.hash.update(line + '\n');
        this.logCount++;
        if (this.log.length < 400) this.log.push(line);
    }
    digest() { return this.hash.copy().digest('hex'); }
    fault(kind) { this.faults[kind] = (this.faults[kind] || 0) + 1; this.note('fault ' + kind); }
    probe(kind) { this.probes[kind] = (this.probes[kind] || 0) + 1; }
    fail(kind, detail) {
        if (this.violations.length < 20) this.violations.push({ kind, detail: String(detail).slice(0, 2000), at: this.now, step: this.steps });
        this.note('VIOLATION ' + kind);
    }
    check(cond, kind, detail) {
        if (!cond) this.fail(kind, typeof detail === 'function' ? detail() : detail);
        return cond;
    }
    // schedule a simulator event
    at(delay, label, fn) {
        const ev = { at: this.now + Math.max(0, delay), seq: ++this.seq, kind: 'ev', label, fn };
        this.events.push(ev);
        return ev;
    }
    cancel(ev) {
        const i = this.events.indexOf(ev);
        if (i >= 0) this.events.splice(i, 1);
    }
    mono() {
        this.reads++;
        if (this.readTick) this.now += this.readTick;
        else if (this.reads > 200000) { this.now += 1; }
        return this.now;
    }
    wall() {
        this.mono();
        return this.base + Math.floor(this.now) + this.skew;
    }
    // timers ------------------------------------------------------------------
    addTimer(fn, ms, args, repeat) {
        ms = +ms;
        if (!(ms >= 1 && ms <= 2147483647)) ms = 1;
        ms = Math.trunc(ms);
        const id = ++this.timerSeq;
        const t = { id, fn, ms, args, repeat, active: true, refed: true, ev: null };
        this.timers.set(id, t);
        this._arm(t);
        this.note(`timer+ ${id} ${ms}`);
        return t;
    }
    _arm(t) {
        let late = 0;
        if (this.lateTimers && this.c.chance(this.lateTimers)) {
            late = this.c.int(1, this.lateMax);
            this.fault('late-timer');
        }
        t.due = this.now + t.ms;
        t.ev = { at: this.now + t.ms + late, seq: ++this.seq, kind: 'timer', label: 'timer ' + t.id, fn: () => this._fire(t) };
        this.events.push(t.ev);
    }
    _fire(t) {
        if (!t.active) return;
        if (!t.repeat) { t.active = false; this.timers.delete(t.id); }
        try { Reflect.apply(t.fn, t.self ?? undefined, t.args); } finally { if (t.repeat && t.active) this._arm(t); }
    }
    clearTimer(t) {
        if (!t || !t.active) return;
        t.active = false;
        this.timers.delete(t.id);
        this.cancel(t.ev);
        this.note(`timer- ${t.id}`);
    }
    armed() { return [...this.timers.values()].filter(t => t.active); }
    // one macrotask
    drain(rounds = this.drainRounds) {
        return new Promise(res => {
            const go = n => realSetImmediate(() => (n > 1 ? go(n - 1) : res()));
            go(rounds);
        });
    }
    pickNext(until) {
        if (!this.events.length) return null;
        let min = Infinity;
        for (const e of this.events) if (e.at < min) min = e.at;
        const t = Math.max(min, this.now);
        if (t > until) return null;
        const ready = [];
        let firstTimer = null;
        for (const e of this.events) {
            if (e.at > t) continue;
            if (e.kind === 'timer' || e.kind === 'fifo') {
                if (!firstTimer || e.at < firstTimer.at || (e.at === firstTimer.at && e.seq < firstTimer.seq)) firstTimer = e;
            } else ready.push(e);
        }
        if (firstTimer) ready.push(firstTimer);
        ready.sort((x, y) => x.seq - y.seq);
        const ev = ready.length > 1 && this.interleave ? ready[this.c.raw(ready.length)] : ready[0];
        this.events.splice(this.events.indexOf(ev), 1);
        if (t > this.now) this.now = t;
        return ev;
    }
    dispatch(ev) {
        this.steps++;
        this.note('run ' + ev.label);
        this.running = true;
        try { ev.fn(); } catch (e) { this.onUncaught(e, ev.label); }
        this.running = false;
    }
    onUncaught(e, where) {
        this.uncaught.push({ error: e, where, at: this.now });
        this.note('uncaught ' + (e && e.message ? String(e.message).split('\n')[0].slice(0, 80) : String(e)));
    }
    // Run until no event is left (or `until` virtual ms). Returns true when quiescent.
    async drive(until = Infinity) {
        await this.drain();
        for (;;) {
            if (this.violations.length) return false;
            for (const h of this.stepHooks) h();
            if (this.idleHooks.length) {
                // idle: everything that can run without time or I/O has run
                for (const h of this.idleHooks) h();
                if (this.violations.length) return false;
            }
            if (this.steps >= Math.max(this.maxSteps, this.floorSteps || 0)) { this.stepLimitHit = true; return false; }
            const ev = this.pickNext(until);
            if (!ev) return this.events.length === 0;
            this.dispatch(ev);
            await this.drain();
        }
    }
}

// a value/promise observer
function observe(sim, promise, name) {
    const o = { name, state: 'pending', value: undefined, at: -1, step: -1, count: 0 };
    promise.then(
        v => { o.state = 'fulfilled'; o.value = v; o.at = sim.now; o.step = sim.steps; o.count++; sim.note(`ok ${name}`); },
        e => { o.state = 'rejected'; o.value = e; o.at = sim.now; o.step = sim.steps; o.count++; sim.note(`err ${name}`); }
    );
    return o;
}

module.exports = { Chooser, Sim, hashSeed, makeRng, observe, realSetImmediate, RealDate, StepLimit };
