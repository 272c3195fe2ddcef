import { Ctx, Abort, hashSig } from './ctx.mjs';
import { stats } from './host.mjs';
import { ViewError } from './chain.mjs';
const mods = new Map();
process.on('message', async (m) => {
  if (m.end) process.exit(0);
  const { batch, prop, module, seed, tier } = m;
  if (!mods.has(module)) { const mod = await import(`../monitors/${module}.mjs`); if (mod.init) await mod.init({ prop, tier }); mods.set(module, mod); }
  const mod = mods.get(module);
  const out = { scenarios: 0, evals: 0, sigs: new Set(), cov: {}, samples: [], violations: [], known: {}, harness: [], stats: {}, foreign: {} };
  const before = { ...stats };
  for (const index of batch) {
    const ctx = new Ctx({ prop, group: module, seed, index, tier });
    ctx.isKnown = (p, s) => m.known.includes(s);
    try { await mod.scenario(ctx); } catch (e) {
      if (e instanceof Abort) { /* judged already */ } else if (e instanceof ViewError) ctx.fail([prop], 'a view that must always answer did not: ' + e.message);
      else if (!ctx.bad) out.harness.push(`scenario ${index}: ${e.stack}`);
    }
    out.scenarios++; out.evals += ctx.evals;
    for (const s of ctx.sigs) out.sigs.add(hashSig(s));
    for (const [k, v] of ctx.cov) out.cov[k] = (out.cov[k] ?? 0) + v;
    if (index < 8) out.samples.push(...ctx.samples.slice(0, 1));
    for (const [k, v] of ctx.known) out.known[k] = v;
    const mine = ctx.violations.filter((v) => v.tags.includes(prop));
    if (mine.length) out.violations.push({ index, ...mine[0], trace: ctx.violations[0].trace, all: ctx.violations.map((v) => `[${v.tags}] ${v.msg}`) });
    else for (const v of ctx.violations) for (const t of v.tags) out.foreign[t] = (out.foreign[t] ?? 0) + 1;
    if (ctx.chain) for (const [k, v] of Object.entries(ctx.chain.counters)) out.stats[k] = (out.stats[k] ?? 0) + v;
  }
  out.stats.calls = stats.calls - before.calls; out.stats.hostCalls = stats.hostCalls - before.hostCalls; out.stats.failedCalls = stats.failed - before.failed;
  out.sigs = [...out.sigs];
  process.send(out);
});
process.send({ ready: true });
