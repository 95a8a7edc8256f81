'use strict';
// The machine's time zone is chosen per run and can change between loading and any call; the text that is logged is
// read back as a duration.
const ZONES = ['UTC', 'Africa/Khartoum', 'Africa/Juba', 'Asia/Shanghai', 'Asia/Kathmandu', 'America/New_York', 'America/St_Johns', 'Australia/Lord_Howe', 'Europe/London', 'Pacific/Kiritimati', 'Pacific/Pago_Pago', 'America/Sao_Paulo', 'Asia/Kolkata'];
const H = 3600000, D = 24 * H, MAX = 2147483647;
const EDGES = [0, 1, 9, 10, 99, 999, 1000, 1001, 59999, 60000, 60001, H - 1, H, H + 1, D - 1, D, D + 1, D + 60000, 2 * D, 14 * D, 14 * D + 12 * H, 15 * D, MAX - 1, MAX, 1010, 1100, 61050];

function parse(text) {
    let m = /^(\d{1,3})ms$/.exec(text);
    if (m) return +m[1];
    m = /^(?:(\d+)天)?(?: ?(\d\d):(\d\d):(\d\d))?(?:\.(\d{3}))?$/.exec(text);
    if (!m || text === '' || +m[2] > 23 || +m[3] > 59 || +m[4] > 59) return NaN;
    return +(m[1] || 0) * D + +(m[2] || 0) * H + +(m[3] || 0) * 60000 + +(m[4] || 0) * 1000 + +(m[5] || 0);
}
async function run(ctx) {
    const { c, sim } = ctx;
    const was = process.env.TZ;
    const zone = () => { process.env.TZ = c.pick(ZONES); sim.note('zone ' + process.env.TZ); };
    try {
        zone();
        const lines = [];
        const { timeoutLog } = ctx.load('function', { globals: { console: { log: (...a) => lines.push(a) } } });
        for (let k = c.int(1, 8); k > 0; k--) sim.at(c.int(0, 50), 'call', () => {
            if (c.chance(40)) { sim.fault('zone-change'); zone(); }
            if (c.chance(20)) { sim.fault('clock-jump'); sim.skew += c.int(-9e9, 9e9); }
            const bad = c.chance(10);
            const ms = bad ? c.pick([-1, 1.5, NaN, MAX + 1, Infinity, '5', undefined]) : c.chance(40) ? c.pick(EDGES) : c.chance(50) ? c.int(0, MAX) : c.int(0, 300) * 60000 * c.int(1, 100) + c.int(0, 1) * c.int(0, 999);
            const template = c.pick([undefined, '{}', 'wait {} now', '{} and {}', 'nothing', '$& {} $1']);
            const args = template === undefined ? [ms] : [ms, template], before = lines.length;
            let error = null;
            try { timeoutLog(...args); } catch (e) { error = e; }
            const what = `timeoutLog(${String(ms)}, ${template}) in ${process.env.TZ}`;
            if (bad || ms > MAX) {
                ctx.check(error && lines.length === before, 'accepted', () => `${what} was accepted`);
                return;
            }
            ctx.check(!error, 'refused', () => `${what}: ${error.stack}`);
            if (!ctx.check(lines.length === before + 1 && lines[before].length === 1, 'lines', () => `${what} logged ${lines.length - before} times`)) return;
            const text = String(lines[before][0]), parts = (template ?? '等待 {}').split('{}');
            if (!ctx.check(text.startsWith(parts[0]) && text.endsWith(parts[parts.length - 1]), 'template', () => `${what} logged ${text}`)) return;
            if (parts.length === 1) return;
            const fill = (text.length - parts.join('').length) / (parts.length - 1);
            const shown = text.slice(parts[0].length, parts[0].length + fill);
            ctx.check(parts.join(shown) === text, 'template', () => `${what} logged ${text}`);
            ctx.check(parse(shown) === ms, 'wrong-duration', () => `${what} shows ${shown}, which is ${parse(shown)} ms`);
            ctx.nontrivial();
        });
        await sim.drive();
    } finally {
        if (was === undefined) delete process.env.TZ; else process.env.TZ = was;
    }
}
module.exports = {
    property: 'F14', packages: ['function'], runs: { quick: 30000, thorough: 600000 },
    scenarios: [{ name: 'logged waits', run }],
    rule: 'Each run loads the function in one of 13 time zones and logs up to eight waits (edges of every unit and random ones up to the limit, invalid ones, five templates) while the zone and the clock change; non-trivial = at least one valid wait shown.',
    real: ['packages/function timeoutLog', 'time-zone rules of the runtime'], stub: ['console', 'clock'], assumptions: []
};
