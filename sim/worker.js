'use strict';
const fs = require('fs');
const { runOnce, seedFor, installProcessHooks } = require('./run');
installProcessHooks();
let property, bundles, seed, tier, mod, fd;
const b = Buffer.alloc(8);
let count = 0;
function beat(i) { b.writeInt32LE(i, 0); b.writeInt32LE(++count, 4); fs.writeSync(fd, b, 0, 8, 0); }
const post = m => { if (process.connected) process.send(m); };
process.on('disconnect', () => process.exit(0));
const add = (a, b) => { for (const k of Object.keys(b)) a[k] = (a[k] || 0) + b[k]; };

async function batch({ from, step, to, deadline }) {
    const st = { runs: 0, steps: 0, simMs: 0, faults: {}, probes: {}, scenarios: {}, digests: new Set(), slowest: [0, 0], samples: [], sampleDigests: [], faultyRuns: 0 };
    for (let i = from; i < to; i += step) {
        if (Date.now() > deadline) { st.truncated = true; break; }
        beat(i);
        const begin = Date.now();
        const r = await runOnce(mod, bundles, seedFor(seed, property, i), null, tier);
        if (Date.now() - begin > st.slowest[0]) st.slowest = [Date.now() - begin, i];
        st.runs++; st.steps += r.steps; st.simMs += r.simMs;
        add(st.faults, r.faults); add(st.probes, r.probes);
        if (Object.keys(r.faults).length) st.faultyRuns++;
        st.scenarios[r.scenario] = (st.scenarios[r.scenario] || 0) + 1;
        if (r.nontrivial) st.digests.add(r.digest);
        if (r.forbidden) { post({ type: 'forbidden', index: i, message: r.forbidden }); return; }
        if (i % 97 === 3 && st.sampleDigests.length < 40) st.sampleDigests.push([i, r.digest]);
        if (st.samples.length < 2 && r.nontrivial && i > 20) st.samples.push({ index: i, scenario: r.scenario, trace: r.log.slice(0, 40) });
        if (r.violations.length) { post({ type: 'violation', index: i, result: r }); return; }
    }
    st.digests = [...st.digests];
    post({ type: 'done', stats: st });
}
process.on('message', async m => {
    if (m.type === 'init') {
        ({ property, bundles, seed, tier } = m);
        fd = fs.openSync(m.beat, 'r+');
        mod = require('./scenarios/' + property + '.js');
    } else if (m.type === 'batch') await batch(m);
    else if (m.type === 'one') {
        beat(m.index || 0);
        const r = await runOnce(mod, bundles, m.index === undefined ? null : seedFor(seed, property, m.index), m.choices || null, tier);
        post({ type: 'result', id: m.id, result: r });
    } else if (m.type === 'digests') {
        const out = [];
        for (const [i, d] of m.list) {
            beat(i);
            const r = await runOnce(mod, bundles, seedFor(seed, property, i), null, tier);
            out.push([i, d, r.digest]);
        }
        post({ type: 'digests', out });
    }
});
