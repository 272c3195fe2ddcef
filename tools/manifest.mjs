// Writes MANIFEST.json from properties.jsonl and lib/registry.mjs, so the two cannot drift apart.
import fs from 'fs';
import { REGISTRY } from '../lib/registry.mjs';
const root = new URL('..', import.meta.url).pathname;
const props = fs.readFileSync(root + 'properties.jsonl', 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const contracts = [...new Set(Object.values(REGISTRY).flatMap((r) => r.contracts))];
const m = {
  version: 1,
  setup_cmd: `./build.sh ${contracts.join(' ')}`,
  checks: props.filter((p) => REGISTRY[p.id]).map((p) => {
    const r = REGISTRY[p.id];
    return {
      property: p.id,
      quick_cmd: r.cmd ? `${r.cmd} ${p.id} --tier quick` : `node check.mjs ${p.id} --tier quick`,
      thorough_cmd: r.cmd ? `${r.cmd} ${p.id} --tier thorough` : `node check.mjs ${p.id} --tier thorough`,
      technique: r.technique ?? 'runtime monitoring: reference-model and invariant monitors over executions of the compiled WASM on a simulated chain with randomised schedules and injected faults',
      level: 'exploration',
      level_note: r.note ?? 'Holds on every execution observed (counts in the evidence file), none beyond. Trusts the simulated chain in lib/ to follow the NEAR protocol and the monitors to state the property.',
    };
  }),
  not_applicable: props.filter((p) => !REGISTRY[p.id]).map((p) => ({ property: p.id, reason: 'Not claimed yet: its monitor is not built.' })),
};
fs.writeFileSync(root + 'MANIFEST.json', JSON.stringify(m, null, 1) + '\n');
