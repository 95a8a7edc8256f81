'use strict';
const { Readable, Writable } = require('stream');
const { makeReadline } = require('../readline');
const { sysError } = require('../net');
const { brief } = require('../run');

class Stdin extends Readable {
    constructor(ctx, tty) { super({ highWaterMark: 65536 }); this.sim = ctx.sim; this.isTTY = tty || undefined; this.fd = 0; this.raw = false; this.rawCalls = 0; if (tty) this.setRawMode = m => { this.raw = m; this.rawCalls++; return this; }; }
    _read() {}
    ref() { return this; } unref() { return this; }
}
class Stdout extends Writable {
    constructor(tty) { super({ decodeStrings: false, write: (d, e, cb) => { this.text += d.toString(); cb(); } }); this.text = ''; this.isTTY = tty || undefined; if (tty) { this.columns = 80; this.rows = 24; } this.fd = 1; }
}
const TEXT = ['yes', 'no', '', ' ', '  padded  ', 'a b', 'héllo', '日本語', '😀', '\ttabbed', 'x'.repeat(200), '0', 'null', '\u00a0nbsp\u3000', 'q'];
const MSG = ['name? ', '', '名前は？ ', 'a\nb? ', '[y/n] ', '> '];
async function run(ctx) {
    const { c, sim } = ctx;
    const tty = c.bool();
    const input = new Stdin(ctx, tty), output = new Stdout(tty);
    const readline = makeReadline(sim);
    const { readByQuestion } = ctx.load('term', ctx.env({ stdin: input, stdout: output, modules: { readline } }));
    const rounds = c.weighted([[5, 1], [3, 2], [1, 3]]);
    const asked = [];
    let ended = null, dead = false;
    const text = () => (ctx.big(8) ? c.pick(['ab 日', 'q', 'é😀']).repeat(tty ? c.int(50, 500) : c.int(500, 20000)) : c.pick(TEXT)).replace(tty ? /\t/g : /$^/g, '');
    const base = { data: input.listenerCount('data'), end: input.listenerCount('end'), keypress: input.listenerCount('keypress') };
    const go = i => {
        const a = { message: c.pick(MSG), start: output.text.length, typed: null, partial: null };
        asked.push(a);
        a.call = ctx.call('readByQuestion', () => readByQuestion(a.message));
        a.base = ended;
        // the user answers, or the input ends
        const how = ended ? 'none' : c.weighted([[8, 'line'], [2, 'eof'], [2, 'partial'], [1, 'error'], [1, tty ? 'ctrl' : 'line']]);
        a.how = how;
        const queue = [];
        if (how === 'line' || how === 'partial' || (how === 'error' && c.bool())) {
            const t = text();
            a.text = t;
            let all = Buffer.from(t + (how === 'line' ? c.pick(tty ? ['\r', '\n', '\r'] : ['\n', '\n', '\r\n']) : ''));
            if (how === 'line' && !tty && c.chance(15)) { a.extra = true; all = Buffer.concat([all, Buffer.from('second line\nthird')]); }
            for (let k = 0; k < all.length;) { const n = c.weighted([[3, all.length - k], [3, c.int(1, Math.min(all.length > 1000 ? 3000 : 4, all.length - k))]]); queue.push(all.subarray(k, k + n)); k += n; }
            const end = queue.length - 1; // readline cannot tell a lone LF from the LF of a CR LF that ended the question before
            if (end > 0 && queue[end][0] === 10 && queue[end - 1].at(-1) === 13) queue.splice(end - 1, 2, Buffer.concat([queue[end - 1], queue[end]]));
        }
        if (how === 'ctrl') queue.push(Buffer.from([c.pick([3, 4])]));
        const type = k => {
            if (k < queue.length) { sim.at(c.pick([0, 0, 1, 300]), 'input', () => { if (a.extra && a.call.state !== 'pending') return; input.push(queue[k]); type(k + 1); }); return; }
            if (how === 'eof' || how === 'partial') sim.at(c.int(0, 100), 'end of input', () => { sim.fault('end-of-input'); ended = 'eof'; input.push(null); });
            if (how === 'error') sim.at(c.int(0, 100), 'input error', () => { sim.fault('input-error'); ended = 'error'; input.destroy(sysError('EIO', 'read')); });
            if (how === 'ctrl') sim.fault('interrupt');
        };
        type(0);
        const poll = () => {
            if (a.call.state === 'pending') { if (sim.now < 20000) sim.at(7, 'poll', poll); else dead = true; return; }
            a.output = output.text.slice(a.start);
            a.released = { paused: input.isPaused() || input.destroyed || input.readableEnded, raw: input.raw, keypress: input.listenerCount('keypress') };
            if (a.extra) ended = 'extra';
            if (i + 1 < rounds && !ended) go(i + 1);
        };
        poll();
    };
    sim.at(c.int(0, 20), 'ask', () => go(0));
    await sim.drive();
    if (sim.violations.length) return;
    for (const a of asked) {
        const v = a.call.value, info = () => `${tty ? 'terminal' : 'pipe'} question ${JSON.stringify(a.message)} ${a.how} ${JSON.stringify(a.text)} -> ${a.call.state} ${a.call.state === 'fulfilled' ? JSON.stringify(v) : brief(v)}; printed ${JSON.stringify(a.output)}`;
        if (!ctx.check(!dead && a.call.state !== 'pending', 'unsettled', info)) return;
        if (a.how === 'line') ctx.check(a.call.state === 'fulfilled' && v === a.text.trim(), 'wrong-answer', info);
        else if (a.how === 'error') ctx.check(a.call.state === 'rejected' && v && v.code === 'EIO', 'failure-hidden', info);
        else if (a.call.state === 'fulfilled') ctx.check(v === '' || (a.how === 'partial' && v === a.text.trim()), 'wrong-answer', info);
        if (a.how === 'partial' && !tty) ctx.check(a.call.state === 'fulfilled' && v === a.text.trim(), 'answer-lost', info);
        if (!tty) ctx.check(a.output === a.message, 'not-printed-once', info);
        else ctx.check(a.message === '' || a.output.includes(a.message.split('\n').pop()), 'not-printed', info);
        ctx.check(a.released.paused && !a.released.raw && a.released.keypress === base.keypress, 'input-not-released', () => `${JSON.stringify(a.released)}; ${info()}`);
        ctx.probe(`${tty ? 'tty' : 'pipe'} ${a.how}`);
    }
    ctx.check(input.listenerCount('end') === base.end, 'listener-leak', () => `${input.listenerCount('end')} end listeners`);
    ctx.nontrivial();
}
module.exports = {
    property: 'T01', packages: ['term'], runs: { quick: 60000, thorough: 400000 },
    scenarios: [{ name: 'question', run }],
    rule: 'Each run asks up to three questions on a simulated terminal or pipe; answers arrive cut at arbitrary bytes with delays, or the input ends before or within a line, is interrupted, or fails.',
    real: ['packages/term readByQuestion', 'Node readline and streams'], stub: ['terminal / pipe of standard input and output (simulated)', 'timers'],
    assumptions: ['escape sequences and line editing keys are outside the property', 'lines that arrive together with the first one are not kept for a later question']
};
