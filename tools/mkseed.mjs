// mkseed.mjs [ID...]: writes /verif/seeded/<id>/ from seeds.mjs (patch against the original text, demonstration, meta).
import fs from 'fs'; import path from 'path'; import { execSync, spawnSync } from 'child_process';
import { SEEDS } from './seeds.mjs';
const V = '/verif', R = '/repo';
for (const s of SEEDS.filter((x) => process.argv.length < 3 || process.argv.slice(2).includes(x.id))) {
  const d = `${V}/seeded/${s.id}`; fs.mkdirSync(d, { recursive: true });
  const tmp = fs.mkdtempSync('/tmp/mkseed-'); fs.mkdirSync(tmp + '/a'); fs.mkdirSync(tmp + '/b');
  for (const [f, subs] of Object.entries(s.edits)) {
    const o = execSync(`git -C ${R} show HEAD:${f}`).toString(); let t = o;
    for (const [a, b] of subs) { if (t.split(a).length !== 2) throw new Error(`${s.id}: ${t.split(a).length - 1} matches of ${a}`); t = t.replace(a, () => b); }
    for (const [k, x] of [['a', o], ['b', t]]) { fs.mkdirSync(path.dirname(`${tmp}/${k}/${f}`), { recursive: true }); fs.writeFileSync(`${tmp}/${k}/${f}`, x); }
  }
  const diff = spawnSync('git', ['diff', '--no-index', '--no-prefix', '--no-color', 'a', 'b'], { cwd: tmp }).stdout.toString();
  fs.writeFileSync(d + '/patch.diff', diff.replace(/^diff --git a\/(\S+) b\/\S+$/gm, 'diff --git a/$1 b/$1'));
  fs.writeFileSync(d + '/meta.json', JSON.stringify({ property: s.prop, needs: s.needs, what_it_breaks: s.breaks }, null, 2) + '\n');
  for (const f of ['host.mjs', 'chain.mjs', 'rng.mjs', 'wasm.mjs']) fs.copyFileSync(`${V}/lib/${f}`, `${d}/${f}`);
  fs.copyFileSync(V + '/build.sh', d + '/build.sh'); fs.copyFileSync(V + '/tools/seedlib/demo-lib.mjs', d + '/demo-lib.mjs');
  fs.writeFileSync(d + '/demo.mjs', `// ${s.breaks.replace(/\n/g, ' ')}\nimport { World, Wallet, W, N, DAY, T0, need, eq, pkOf, pk58, json, jsContract, forwarder, wasm } from './demo-lib.mjs';\n${s.demo.trim()}\nconsole.log('holds');\n`);
  fs.writeFileSync(d + '/demo.sh', `#!/bin/bash
# Builds the contracts of the current directory's tree and runs demo.mjs on the compiled WASM.
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/demo-XXXXXX) || exit 3
export VERIF_REPO=$PWD VERIF_CACHE=$S
bash "$D/build.sh" ${s.contracts.join(' ')} || { rm -rf "$S"; exit 3; }
node "$D/demo.mjs"; rc=$?
rm -rf "$S"
exit $rc
`, { mode: 0o755 });
  fs.rmSync(tmp, { recursive: true });
  console.log(s.id);
}
