'use strict';
// node sim/check.js <ID> [--replay FILE] [--index N] [--runs N]
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');
const os = require('os');
const { spawnSync, fork } = require('child_process');
const { bundleAll } = require('./build');
const { KNOWN } = require('./run');
const ROOT = path.dirname(__dirname);
const argv = process.argv.slice(2);
const property = argv[0];
const opt = n => { const i = argv.indexOf('--' + n); return i > 0 ? argv[i + 1] : undefined; };
const tier = process.env.VERIF_TIER === 'thorough' || opt('tier') === 'thorough' ? 'thorough' : 'quick';
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 0;
const WORKERS = Number(opt('workers') || process.env.SIM_WORKERS || 8);
const mod = require('./scenarios/' + property + '.js');
const HANG_MS = 30000;
const t0 = Date.now();

// Workers are processes: one that hangs or runs out of memory is killed without harm to the others.
// Each writes the index of its current run to a small file, so that a hang can be attributed.
const beats = fs.mkdtempSync(path.join(os.tmpdir(), 'sim-'));
const children = new Set();
process.on('exit', () => { for (const c of children) try { c.kill('SIGKILL'); } catch {} fs.rmSync(beats, { recursive: true, force: true }); });
for (const s of ['SIGTERM', 'SIGINT', 'SIGHUP']) process.on(s, () => process.exit(143));
let beatSeq = 0;
function newWorker(bundles, vseed = seed) {
    const beat = path.join(beats, String(beatSeq++));
    fs.writeFileSync(beat, Buffer.alloc(8));
    const child = fork(path.join(__dirname, 'worker.js'), [], { serialization: 'advanced', stdio: ['ignore', 'ignore', process.env.SIM_DEBUG ? 'inherit' : 'ignore', 'ipc'], execArgv: ['--max-old-space-size=1500'] });
    children.add(child);
    const ls = { message: [], error: [] };
    let gone = false;
    const w = {
        done: false,
        on(e, f) { ls[e].push(f); return w; },
        clear() { ls.message = []; ls.error = []; },
        postMessage(m) { if (child.connected) child.send(m, () => {}); },
        terminate() { gone = true; children.delete(child); child.kill('SIGKILL'); },
        beat() { try { const b = fs.readFileSync(beat); return [b.readInt32LE(0), b.readInt32LE(4)]; } catch { return [0, 0]; } }
    };
    child.on('message', m => { if (!gone) for (const f of ls.message.slice()) f(m); });
    child.on('exit', (code, sig) => { children.delete(child); if (!gone) { gone = true; for (const f of ls.error.slice()) f(new Error(`worker ended with ${sig || code}`)); } });
    child.on('error', () => {});
    child.send({ type: 'init', property, bundles, seed: vseed, tier, beat }, () => {});
    return w;
}
// run one case in its own worker with a hang limit
function runOne(bundles, msg, limit = HANG_MS) {
    return new Promise(res => {
        const w = newWorker(bundles, msg.seed ?? seed);
        const timer = setTimeout(() => { w.terminate(); res({ hang: true }); }, limit);
        const fin = v => { clearTimeout(timer); w.terminate(); res(v); };
        w.on('message', m => m.type === 'result' && fin({ result: m.result }));
        w.on('error', e => fin({ crash: e }));
        w.postMessage({ type: 'one', id: 1, ...msg });
    });
}
class Pool1 {
    // one persistent worker for the shrinker
    constructor(bundles) { this.bundles = bundles; this.start(); }
    start() { this.w = newWorker(this.bundles); }
    run(choices) {
        return new Promise(res => {
            const t = setTimeout(() => { this.w.terminate(); this.start(); res({ violations: [{ kind: 'hang' }], choices }); }, 5000);
            this.w.clear();
            this.w.on('message', m => { clearTimeout(t); res(m.result); });
            this.w.on('error', () => { clearTimeout(t); this.start(); res({ violations: [], choices }); });
            this.w.postMessage({ type: 'one', id: 1, choices });
        });
    }
    stop() { this.w.terminate(); }
}
async function shrink(bundles, first, budgetMs) {
    const kind = first.violations[0].kind;
    const pool = new Pool1(bundles);
    let best = first.choices.slice();
    let bestRes = first;
    const until = Date.now() + budgetMs;
    let tries = 0;
    const attempt = async cand => {
        if (Date.now() > until) return false;
        tries++;
        const r = await pool.run(cand);
        if (r.violations.length && r.violations[0].kind === kind && !r.harnessErrorOnly) {
            const used = (r.choices || cand).slice();
            while (used.length && used[used.length - 1] === 0) used.pop();
            if (used.length < best.length || (used.length === best.length && used.reduce((a, b) => a + b, 0) < best.reduce((a, b) => a + b, 0))) {
                best = used; bestRes = r; return true;
            }
        }
        return false;
    };
    let improved = true;
    while (improved && Date.now() < until) {
        improved = false;
        for (let size = Math.max(1, best.length >> 1); size >= 1 && Date.now() < until; size >>= 1) {
            for (let i = 0; i + size <= best.length && Date.now() < until;) {
                if (await attempt([...best.slice(0, i), ...best.slice(i + size)])) improved = true;
                else if (best.slice(i, i + size).some(x => x) && (await attempt([...best.slice(0, i), ...new Array(size).fill(0), ...best.slice(i + size)]))) improved = true;
                else i += size;
            }
            if (size === 1) break;
        }
        for (let i = 0; i < best.length && Date.now() < until; i++) {
            let v = best[i];
            for (const cand of [0, 1, v >> 1, v - 1]) {
                if (i < best.length && cand >= 0 && cand < best[i]) {
                    const a = best.slice(); a[i] = cand;
                    if (await attempt(a)) improved = true;
                }
            }
        }
    }
    // the final, canonical result
    const fin = await pool.run(best);
    pool.stop();
    return fin.violations.length && fin.violations[0].kind === kind ? { choices: best, result: fin, tries } : { choices: bestRes.choices, result: bestRes, tries };
}
function writeReplay(data) {
    const dir = path.join(ROOT, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    const h = crypto.createHash('md5').update(JSON.stringify([data.property, data.choices, data.index, data.kind])).digest('hex').slice(0, 10);
    const f = path.join(dir, `${property}-${h}.json`);
    fs.writeFileSync(f, JSON.stringify(data, null, 1) + '\n');
    return f;
}
function printRun(r) {
    console.log('scenario: ' + r.scenario);
    for (const l of r.log) console.log('  ' + l);
    for (const v of r.violations) console.log(`  => ${v.kind} at t=${v.at}: ${v.detail}`);
}

async function main() {
    const bundles = await bundleAll(mod.packages);
    if (opt('replay')) {
        const d = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
        const r = await runOne(bundles, d.choices ? { choices: d.choices } : { index: d.index, seed: d.seed });
        if (r.hang || r.crash) { console.log(`replay: ${r.hang ? 'hang' : 'crash ' + r.crash}`); console.log(`VIOLATION property=${property} replay=${opt('replay')}`); process.exit(1); }
        printRun(r.result);
        if (r.result.violations.length) {
            console.log(`replay: kind=${r.result.violations[0].kind} digest=${r.result.digest}`);
            console.log(`VIOLATION property=${property} replay=${opt('replay')}`);
            process.exit(1);
        }
        console.log('replay: no violation');
        process.exit(0);
    }
    if (opt('index')) {
        const r = await runOne(bundles, { index: Number(opt('index')) });
        if (r.result) printRun(r.result); else console.log(r);
        process.exit(0);
    }
    const runs = Number(opt('runs') || mod.runs[tier]);
    const wallCap = (tier === 'thorough' ? mod.wallThorough ?? 600 : mod.wallQuick ?? 90) * 1000;
    const deadline = t0 + wallCap;
    const workers = [];
    const stats = [];
    let violation = null, fatal = null;
    await new Promise(resolve => {
        let pending = WORKERS;
        const fin = () => { if (--pending <= 0) resolve(); };
        const stopAll = () => { for (const w of workers) w.terminate(); resolve(); };
        for (let i = 0; i < WORKERS; i++) {
            const w = newWorker(bundles);
            workers.push(w);
            w.on('message', m => {
                if (m.type === 'done') { stats.push(m.stats); w.done = true; fin(); }
                else if (m.type === 'violation') { if (!violation) { violation = m; stopAll(); } }
                else if (m.type === 'forbidden') { fatal = m.message + ' (run ' + m.index + ')'; stopAll(); }
            });
            w.on('error', e => {
                if (violation || fatal) return;
                violation = { type: 'crash', index: w.beat()[0], error: String(e && e.stack) };
                stopAll();
            });
            w.postMessage({ type: 'batch', from: i, step: WORKERS, to: runs, deadline });
        }
        const last = new Array(WORKERS).fill(-1), since = new Array(WORKERS).fill(Date.now());
        const poll = setInterval(() => {
            for (let i = 0; i < WORKERS; i++) {
                if (workers[i].done) continue;
                const [at, b] = workers[i].beat();
                if (b !== last[i]) { last[i] = b; since[i] = Date.now(); }
                else if (Date.now() - since[i] > HANG_MS && !violation) {
                    violation = { type: 'hang', index: at };
                    stopAll();
                }
            }
        }, 500);
        poll.unref();
    });
    if (fatal) { console.error('HARNESS: ' + fatal); process.exit(2); }
    let code = 0, line = null, replayInfo = null;
    if (violation && violation.type !== 'violation') {
        // hang or crash of the whole worker: confirm alone
        const again = await runOne(bundles, { index: violation.index }, HANG_MS);
        if (again.result && !again.result.violations.length) { console.error(`HARNESS: ${violation.type} at run ${violation.index} did not reproduce: ${violation.error || ''}`); process.exit(2); }
        const kind = again.hang ? 'hang' : again.crash ? 'crash' : again.result.violations[0].kind;
        const f = writeReplay({ property, kind, seed, index: violation.index, choices: again.result ? again.result.choices : null, note: again.crash ? String(again.crash) : undefined });
        line = `VIOLATION property=${property} replay=${f}`;
        console.log(`violation kind=${kind} run=${violation.index} seed=${seed}`);
        code = 1;
    } else if (violation) {
        const r = violation.result;
        const sh = process.env.SIM_NO_SHRINK ? { choices: r.choices, result: r, tries: 0 } : await shrink(bundles, r, tier === 'thorough' ? 60000 : 15000);
        const data = { property, kind: r.violations[0].kind, scenario: r.scenario, seed, index: violation.index, choices: sh.choices, original_choices: r.choices.length, shrink_attempts: sh.tries,
            violation: sh.result.violations[0], faults: sh.result.faults, trace: sh.result.log, digest: sh.result.digest };
        const f = writeReplay(data);
        console.log(`violation kind=${data.kind} scenario=${data.scenario} seed=${seed} run=${violation.index} choices ${r.choices.length} -> ${sh.choices.length}`);
        console.log(`  ${data.violation.detail}`);
        if (!process.env.SIM_NO_REPLAY) {
            const p = spawnSync(process.execPath, [__filename, property, '--replay', f], { encoding: 'utf8', maxBuffer: 1 << 28, timeout: 60000, env: process.env });
            replayInfo = p.status === 1 && p.stdout.includes('digest=' + data.digest) ? 'reproduced exactly in a fresh process' : 'NOT reproduced';
            console.log('  replay in a fresh process: ' + replayInfo);
        }
        line = `VIOLATION property=${property} replay=${f}`;
        code = 1;
    }
    // determinism: repeat sampled runs on other workers
    let detChecked = 0, detBad = [];
    if (!violation) {
        await Promise.all(workers.map((w, i) => new Promise(res => {
            const list = stats[(i + 1) % stats.length].sampleDigests.slice(0, tier === 'thorough' ? 40 : 10);
            w.on('message', m => { if (m.type === 'digests') { for (const [k, a, b] of m.out) { detChecked++; if (a !== b) detBad.push(k); } res(); } });
            w.postMessage({ type: 'digests', list });
        })));
        for (const w of workers) w.terminate();
        if (detBad.length) { console.error('HARNESS: nondeterministic runs ' + detBad.join(',')); process.exit(2); }
    }
    const sum = (k) => stats.reduce((a, s) => a + s[k], 0);
    const merge = k => { const o = {}; for (const s of stats) for (const [n, v] of Object.entries(s[k])) o[n] = (o[n] || 0) + v; return o; };
    const digests = new Set(); for (const s of stats) for (const d of s.digests) digests.add(d);
    const slowest = stats.map(s => s.slowest).sort((a, b) => b[0] - a[0])[0] || [0, 0];
    const wall = (Date.now() - t0) / 1000;
    const evaluations = violation ? Math.max(1, sum('runs')) : sum('runs');
    const probes = merge('probes');
    for (const [key, text] of KNOWN) if (key.startsWith(property + '/') && probes['known-finding:' + key.slice(property.length + 1)]) console.log(`KNOWN-FINDING: property=${property} ${text}`);
    const ev = {
        property, tier, seed, level: 'exploration',
        coverage: {
            evaluations, distinct_nontrivial: digests.size,
            rule: mod.rule,
            samples: stats.flatMap(s => s.samples).slice(0, 4).concat(violation && violation.result ? [{ index: violation.index, violation: violation.result.violations[0], trace: violation.result.log.slice(0, 40) }] : []),
            runs_per_hour: Math.round(evaluations / wall * 3600), seeds: evaluations, simulated_seconds: Math.round(sum('simMs') / 1000), scheduler_steps: sum('steps'),
            faults_fired: merge('faults'), runs_with_faults: sum('faultyRuns'), probes: merge('probes'), scenarios: merge('scenarios'),
            distinct_interleavings: digests.size, interleaving_measure: 'distinct MD5 digests of the full event log (scheduler picks, timers, faults, calls, results) of non-trivial runs',
            determinism_runs_repeated: detChecked, determinism_mismatches: detBad.length, truncated_by_wall_cap: stats.some(s => s.truncated),
            real_components: mod.real, stub_components: mod.stub, workers: WORKERS, ...(replayInfo ? { replay: replayInfo } : {})
        },
        assumptions: mod.assumptions || [], wall_s: wall, violations: violation ? 1 : 0
    };
    if (!ev.coverage.samples.length) ev.coverage.samples.push({ note: 'no non-trivial sample recorded' });
    if (!process.env.SIM_NO_EVIDENCE) fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true });
    if (!process.env.SIM_NO_EVIDENCE) fs.writeFileSync(path.join(ROOT, 'evidence', property + '.json'), JSON.stringify(ev, null, 1) + '\n');
    if (line) console.log(line);
    else console.log(`ok ${property}: ${evaluations} runs, ${digests.size} distinct non-trivial, ${wall.toFixed(1)} s, slowest run ${slowest[0]} ms (${slowest[1]}), faults ${JSON.stringify(merge('faults'))}, probes ${JSON.stringify(merge('probes'))}`);
    process.exit(code);
}
main().catch(e => { console.error('HARNESS: ' + (e && e.stack || e)); process.exit(2); });
