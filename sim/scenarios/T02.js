'use strict';
// A terminal: interprets what the bar writes and remembers what a person would see.
class Screen {
    constructor(lines) { this.rows = lines.slice(); this.row = lines.length; this.col = 0; this.visible = true; this.rows[this.row] = ''; this.isTTY = true; this.columns = 200; this.unknown = null; this.saved = [0, 0]; }
    put(ch) {
        const l = [...(this.rows[this.row] || '')];
        while (l.length < this.col) l.push(' ');
        l[this.col++] = ch;
        this.rows[this.row] = l.join('');
    }
    write(text, enc, cb) {
        const s = [...String(text)];
        for (let i = 0; i < s.length; i++) {
            const ch = s[i];
            if (ch === '\r') { this.col = 0; continue; }
            if (ch === '\n') { this.row++; this.col = 0; this.rows[this.row] ??= ''; continue; }
            if (ch !== '\u001b') { this.put(ch); continue; }
            const m = /^\u001b\[(\??)([\d;]*)([A-Za-z])/.exec(s.slice(i, i + 20).join(''));
            if (!m) { if (s[i + 1] === '7') this.saved = [this.row, this.col]; else if (s[i + 1] === '8') [this.row, this.col] = this.saved; else this.unknown = s.slice(i, i + 4).join(''); i++; continue; }
            i += [...m[0]].length - 1;
            const n = m[2] === '' ? 1 : parseInt(m[2], 10);
            const line = () => [...(this.rows[this.row] || '')];
            switch (m[1] + m[3]) {
                case 'A': this.row = Math.max(0, this.row - n); break;
                case 'B': this.row += n; this.rows[this.row] ??= ''; break;
                case 'C': this.col += n; break;
                case 'D': this.col = Math.max(0, this.col - n); break;
                case 'E': this.row += n; this.col = 0; this.rows[this.row] ??= ''; break;
                case 'F': this.row = Math.max(0, this.row - n); this.col = 0; break;
                case 'G': this.col = n - 1; break;
                case 'K': { const k = m[2] === '' ? 0 : n, l = line(); if (k === 0) this.rows[this.row] = l.slice(0, this.col).join(''); else if (k === 1) this.rows[this.row] = l.map((x, j) => (j <= this.col ? ' ' : x)).join(''); else this.rows[this.row] = ''; break; }
                case 'J': if (m[2] === '' || n === 0) { this.rows[this.row] = line().slice(0, this.col).join(''); this.rows.length = this.row + 1; } else this.unknown = m[0]; break;
                case 'm': break;
                case 's': this.saved = [this.row, this.col]; break;
                case 'u': [this.row, this.col] = this.saved; break;
                case '?l': if (m[2] === '25') this.visible = false; break;
                case '?h': if (m[2] === '25') this.visible = true; break;
                default: this.unknown = m[0];
            }
        }
        if (typeof enc === 'function') enc(); else if (cb) cb();
        return !(this.slow && this.slow());
    }
    on() { return this; } once() { return this; } emit() { return false; } cork() {} uncork() {}
    cursorTo(x) { this.col = x; return true; }
    clearLine(d = 0) { return this.write(d < 0 ? '\u001b[1K' : d > 0 ? '\u001b[0K' : '\u001b[2K'); }
}
const VALUES = ['', 'file.txt', 'a', 'downloading something long', '进度', '\u{1f600} ok', 'x'.repeat(60), '50%', '0', '  indented', 'trailing ', ' '];
async function run(ctx) {
    const { c, sim } = ctx;
    const before = ['$ command', 'starting'].slice(0, c.int(0, 2));
    const scr = new Screen(before);
    const congested = c.pick([0, 0, 30]);
    scr.slow = () => congested && c.chance(congested) && (sim.fault('terminal-congested'), true);
    const { ProgressBar } = ctx.load('term', ctx.env({ stdout: scr }));
    let at = 0;
    const step = (label, f) => sim.at((at += c.int(1, 30)), label, () => { if (!sim.violations.length) f(); });
    for (let b = c.int(1, 3); b > 0; b--) {
        const total = c.weighted([[4, c.int(1, 12)], [2, c.pick([100, 29, 7, 33, 1000, 300, c.int(13, 400), c.int(1001, 2000000000)])], [2, undefined], [1, NaN]]);
        const opts = {};
        if (total !== undefined) opts.total = total;
        for (const k of ['percentage', 'count', 'picture', 'hiddenCursor']) if (c.chance(25)) opts[k] = false; else if (c.chance(20)) opts[k] = true;
        const given = JSON.stringify(opts), known = Number.isSafeInteger(total);
        let bar, done = 0, over = false;
        const expected = value => {
            const parts = [];
            if (!known) parts.push('RUNNING:');
            else {
                if (opts.picture !== false) parts.push(`[${'#'.repeat(Math.floor(done * 10 / total)).padEnd(10, ' ')}]`);
                if (opts.percentage !== false) parts.push(`${Math.floor(done * 100 / total)}%`);
                if (opts.count !== false) parts.push(`(${done}/${total})`);
            }
            return [...parts, value].join(' ').replace(/ +$/, '');
        };
        const clean = what => {
            ctx.check((scr.rows[scr.row] || '').trim() === '' && scr.row === before.length && scr.col === 0, 'line-left', () => `${what}: the line shows ${JSON.stringify(scr.rows[scr.row])}, cursor ${scr.row},${scr.col} (${given})`);
            ctx.check(scr.visible, 'cursor-hidden', () => `${what}: the cursor stays hidden (${given}, ${done} done)`);
        };
        // with no part but the text, one space before it is fine
        const shows = w => { const l = (scr.rows[scr.row] || '').replace(/ +$/, ''); return l === w || (known && [opts.picture, opts.percentage, opts.count].every(x => x === false) && l === (' ' + w).replace(/ +$/, '')); };
        const judge = (what, r, value) => {
            const end = known && done === total;
            ctx.check(!scr.unknown, 'unknown-sequence', () => JSON.stringify(scr.unknown));
            ctx.check(r === end, 'wrong-completion', () => `${what} after ${done} of ${total} returned ${r}`);
            if (end) { over = true; clean(what + ' completing'); ctx.probe('completed'); } else {
                ctx.check(shows(expected(value)) && scr.row === before.length, 'wrong-line', () => `${what}: expected ${JSON.stringify(expected(value))}, the terminal shows ${JSON.stringify(scr.rows[scr.row])}`);
                ctx.check(scr.visible === (opts.hiddenCursor === false), 'wrong-cursor', () => `${what}: cursor ${scr.visible ? 'visible' : 'hidden'} (${given})`);
            }
            ctx.check(before.every((l, i) => scr.rows[i] === l) && scr.rows.slice(before.length + 1).every(l => !l), 'other-lines-changed', () => JSON.stringify(scr.rows));
        };
        step('new bar', () => { bar = new ProgressBar(c.chance(10) && given === '{}' ? undefined : opts); });
        const n = known ? (c.chance(60) && total <= 1000 ? total : c.int(0, Math.min(total, 40))) : c.int(0, 8);
        const jump = known && total > 40;
        for (let i = 0; i < n; i++) {
            const quiet = jump && i % 37 && i < n - 2;
            const extra = quiet ? 0 : c.weighted([[5, 0], [2, 1], [1, 2]]), value = quiet ? '' : c.pick(VALUES), v2 = extra ? c.pick(VALUES) : '';
            const go = () => {
                done++;
                const r = bar.pushWrite(value);
                judge('pushWrite', r, value);
                for (let k = 0; k < extra; k++) judge('write', bar.write(v2), v2);
            };
            step('push', go);
        }
        if (n === 0 || c.chance(20)) step('write', () => { const v = c.pick(VALUES); judge('write', bar.write(v), v); });
        if (!known || n < total || c.chance(15)) step('end', () => { const r = bar.end(); over = true; ctx.check(r === true, 'wrong-completion', 'end did not return true'); clean('end'); ctx.probe('ended'); });
        step('after', () => { ctx.check(over, 'never-over', given); ctx.check(JSON.stringify(opts) === given, 'options-changed', given); });
    }
    await sim.drive();
    ctx.nontrivial();
}
module.exports = {
    property: 'T02', packages: ['term'], runs: { quick: 36000, thorough: 300000 },
    scenarios: [{ name: 'progress', run }],
    rule: 'Each run drives one to three progress bars, one after the other, with random settings through pushes, writes and an end at random times on a simulated terminal; every run is non-trivial.',
    real: ['packages/term ProgressBar and its control sequences'], stub: ['the terminal (interprets cursor, erase and visibility sequences)', 'clock (virtual)'],
    assumptions: ['the text of the bar fits into one line', 'no more is pushed than the total']
};
