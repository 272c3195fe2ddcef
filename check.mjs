// check.mjs PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--jobs N] [--no-build]
import fs from 'fs'; import path from 'path'; import os from 'os';
import { fork, spawnSync } from 'child_process';
import { fileURLToPath } from 'url';
import { REGISTRY } from './lib/registry.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const CACHE = process.env.VERIF_CACHE ?? path.join(HERE, '.cache');
const EVID = process.env.VERIF_EVIDENCE ?? path.join(HERE, 'evidence');
const args = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf('--' + n); return i >= 0 ? args[i + 1] : d; };
const prop = args[0];
const reg = REGISTRY[prop];
if (!reg) { console.error('unknown property ' + prop); process.exit(2); }
const replay = opt('replay', null);
const rp = replay ? JSON.parse(fs.readFileSync(replay, 'utf8')) : null;
const tier = rp?.tier ?? opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
const seed = Number(rp?.seed ?? opt('seed', process.env.VERIF_SEED ?? '1'));
const jobs = Number(opt('jobs', Math.max(1, Math.min(8, os.cpus().length))));
const t0 = Date.now();

if (!args.includes('--no-build')) {
  const b = spawnSync('bash', [path.join(HERE, 'build.sh'), ...reg.contracts], { stdio: 'inherit', env: { ...process.env, VERIF_CACHE: CACHE } });
  if (b.status !== 0) { console.log(`INCONCLUSIVE property=${prop}: the contracts could not be built from the working tree`); process.exit(2); }
}
const buildS = (Date.now() - t0) / 1000;
const knownAll = JSON.parse(fs.readFileSync(path.join(HERE, 'known-findings.json'), 'utf8')).findings.filter((f) => f.status === 'open' && f.property === prop);

const n = rp ? 1 : Number(opt('n', reg[tier]));
const capMs = 1000 * Number(opt('cap', tier === 'quick' ? (reg.capQuick ?? 150) : (reg.capThorough ?? 3000)));
const indices = rp ? [rp.index] : null;
const W = rp ? 1 : Math.min(jobs, n);
const agg = { evals: 0, sigs: new Set(), cov: {}, samples: [], violations: [], known: {}, scenarios: 0, harness: [], stats: {}, foreign: {} };
let next = 0, stop = false;
const watchdog = setTimeout(() => { stop = true; }, capMs); watchdog.unref?.();
const give = () => { if (stop || agg.violations.length >= 6 || agg.harness.length) return null; if (indices) return indices.shift() ?? null; return next < n ? next++ : null; };

await Promise.all(Array.from({ length: W }, () => new Promise((resolve) => {
  const w = fork(path.join(HERE, 'lib', 'worker.mjs'), [], { env: { ...process.env, VERIF_CACHE: CACHE }, execArgv: ['--max-old-space-size=3000'], stdio: ['ignore', 'inherit', 'inherit', 'ipc'] });
  let busy = null, done = false, hard = null;
  const feed = () => {
    const batch = [];
    for (let i = 0; i < (reg.batch ?? 8); i++) { const x = give(); if (x === null) break; batch.push(x); }
    if (!batch.length) { done = true; w.send({ end: true }); return; }
    busy = batch;
    clearTimeout(hard); hard = setTimeout(() => { agg.harness.push(`worker stuck on scenarios ${batch.join(',')}`); w.kill('SIGKILL'); }, 300000); hard.unref?.();
    w.send({ batch, prop, module: reg.module, seed, tier, verbose: !!rp, known: knownAll.map((k) => k.signature) });
  };
  w.on('message', (m) => {
    if (m.ready) return feed();
    agg.scenarios += m.scenarios; agg.evals += m.evals;
    for (const s of m.sigs) agg.sigs.add(s);
    for (const [k, v] of Object.entries(m.cov)) agg.cov[k] = (agg.cov[k] ?? 0) + v;
    for (const [k, v] of Object.entries(m.stats)) agg.stats[k] = (agg.stats[k] ?? 0) + v;
    for (const s of m.samples) if (agg.samples.length < 4) agg.samples.push(s);
    agg.violations.push(...m.violations); agg.harness.push(...m.harness);
    for (const [k, v] of Object.entries(m.known)) agg.known[k] = v;
    for (const [k, v] of Object.entries(m.foreign)) agg.foreign[k] = (agg.foreign[k] ?? 0) + v;
    feed();
  });
  w.on('exit', (code, sig) => { clearTimeout(hard); if (!done) agg.harness.push(`worker died (${code ?? sig}) on scenarios ${busy}`); resolve(); });
})));
clearTimeout(watchdog);

const wall = (Date.now() - t0) / 1000;
const missing = rp ? [] : (reg.require?.[prop] ?? reg.require?.['*'] ?? []).filter((k) => !agg.cov[k]);
fs.mkdirSync(EVID, { recursive: true });
const meta = (await import(`./monitors/${reg.module}.mjs`)).meta ?? {};
const ev = {
  property: prop, tier, seed, level: 'exploration',
  coverage: {
    evaluations: agg.evals, distinct_nontrivial: agg.sigs.size,
    rule: meta.rule?.[prop] ?? meta.rule?.['*'] ?? 'One evaluation is one contract call (or receipt) executed by the real WASM and judged by the monitor; distinct ones differ in method, outcome class and abstract state.',
    samples: agg.samples.slice(0, 4),
    scenarios: agg.scenarios, observed: Object.fromEntries(Object.entries(agg.cov).sort()), runtime: agg.stats,
    known_findings_observed: Object.keys(agg.known), other_property_alarms: agg.foreign,
  },
  assumptions: meta.assumptions ?? [], wall_s: wall, build_s: buildS, violations: agg.violations.length,
};
if (!rp) fs.writeFileSync(path.join(EVID, prop + '.json'), JSON.stringify(ev, null, 1) + '\n');
for (const k of knownAll) {
  if (agg.known[k.signature]) console.log(`KNOWN-FINDING: property=${prop} ${k.what} [observed: ${agg.known[k.signature].slice(0, 200)}]`);
  else console.log(`KNOWN-FINDING: property=${prop} ${k.what} [not reproduced in this run]`);
}
if (agg.violations.length) {
  const v = agg.violations[0];
  const file = path.join(EVID, `replay-${prop}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: prop, seed, tier, index: v.index, violation: v, others: agg.violations.slice(1).map((x) => ({ index: x.index, msg: x.msg })) }, null, 1));
  console.log(`VIOLATION property=${prop} replay=${file}`);
  console.log(`  scenario ${v.index}: ${v.msg}`);
  for (const x of agg.violations.slice(1, 5)) console.log(`  also scenario ${x.index}: ${x.msg}`);
  if (rp) { for (const l of v.notes ?? []) console.log('  note ' + l); for (const l of v.trace ?? []) console.log('  ' + l); }
  process.exit(1);
}
if (agg.harness.length) { console.log(`INCONCLUSIVE property=${prop}: harness error: ${agg.harness[0]}`); process.exit(2); }
if (missing.length) { console.log(`INCONCLUSIVE property=${prop}: never observed: ${missing.join(', ')}`); process.exit(2); }
console.log(`held property=${prop} tier=${tier} seed=${seed} scenarios=${agg.scenarios} evaluations=${agg.evals} distinct=${agg.sigs.size} calls=${agg.stats.calls} build=${buildS.toFixed(1)}s wall=${wall.toFixed(1)}s` +
  (Object.keys(agg.foreign).length ? ` (alarms that belong to other properties: ${Object.entries(agg.foreign).map(([k, v]) => k + ':' + v).join(' ')})` : ''));
process.exit(0);
