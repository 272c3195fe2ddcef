// t02.mjs T02 [--tier quick|thorough] [--seed N] [--replay FILE]
// Builds the working tree's state-manipulation natively and runs it under AddressSanitizer and Miri.
import fs from 'fs'; import path from 'path'; import { spawn, spawnSync } from 'child_process'; import { fileURLToPath } from 'url';
const HERE = path.dirname(fileURLToPath(import.meta.url));
const REPO = process.env.VERIF_REPO ?? '/repo', CACHE = process.env.VERIF_CACHE ?? path.join(HERE, '.cache'), EVID = process.env.VERIF_EVIDENCE ?? path.join(HERE, 'evidence');
const args = process.argv.slice(2), opt = (n, d) => { const i = args.indexOf('--' + n); return i >= 0 ? args[i + 1] : d; };
const rp = opt('replay', null) ? JSON.parse(fs.readFileSync(opt('replay'), 'utf8')) : null;
const tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick'), seed = Number(opt('seed', process.env.VERIF_SEED ?? '1'));
const t0 = Date.now(), T = path.join(CACHE, 't02');
const die = (m) => { console.log(`INCONCLUSIVE property=T02: ${m}`); process.exit(2); };

// A copy of the crate, its manifest reduced to what a native library build needs.
fs.mkdirSync(path.join(T, 'bin', 'src'), { recursive: true });
const put = (f, s) => { if (!fs.existsSync(f) || fs.readFileSync(f, 'utf8') !== s) fs.writeFileSync(f, s); };
if (spawnSync('rsync', ['-rlpc', '--delete', '--exclude', 'target', '--exclude', '/res', '--exclude', '/rust-toolchain', '--exclude', '/Cargo.toml', '--exclude', '/Cargo.lock', '--exclude', '/build.sh', REPO + '/state-manipulation/', path.join(T, 'sm') + '/'], { stdio: 'inherit' }).status !== 0) die('could not copy the crate');
const sections = fs.readFileSync(path.join(REPO, 'state-manipulation/Cargo.toml'), 'utf8').split(/^(?=\[)/m);
const pick = (re) => sections.filter((s) => re.test(s)).join('');
put(path.join(T, 'sm', 'Cargo.toml'), pick(/^\[package\]/) + '[lib]\nname = "state_manipulation"\ncrate-type = ["rlib"]\n\n' + pick(/^\[(dependencies|features)[\].]/));
put(path.join(T, 'bin', 'src', 'main.rs'), fs.readFileSync(path.join(HERE, 'harness/t02/src/main.rs'), 'utf8'));
put(path.join(T, 'bin', 'Cargo.toml'), '[package]\nname = "t02"\nversion = "0.1.0"\nedition = "2021"\n\n[dependencies]\nstate-manipulation = { path = "../sm" }\n\n[profile.dev]\nopt-level = 1\ndebug = 1\n\n[workspace]\n');
if (!fs.existsSync(path.join(T, 'bin', 'Cargo.lock'))) fs.copyFileSync(path.join(REPO, 'state-manipulation/Cargo.lock'), path.join(T, 'bin', 'Cargo.lock'));
const env = { ...process.env, HOME: '/root', RUSTUP_TOOLCHAIN: 'nightly', CARGO_NET_OFFLINE: 'true', CARGO_TERM_COLOR: 'never', CARGO_INCREMENTAL: '0', ASAN_OPTIONS: 'detect_leaks=0:abort_on_error=0:halt_on_error=1', RUST_BACKTRACE: '0' };
for (const k of ['RUSTC', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'CARGO_TARGET_DIR', 'MIRIFLAGS']) delete env[k];
env.PATH = '/root/.cargo/bin:' + env.PATH;
const bin = path.join(T, 'bin');
const envA = { ...env, RUSTFLAGS: '-Zsanitizer=address -Cdebug-assertions=on -Coverflow-checks=on', CARGO_TARGET_DIR: path.join(T, 'asan') };
const envM = { ...env, MIRIFLAGS: '-Zmiri-permissive-provenance -Zmiri-symbolic-alignment-check', CARGO_TARGET_DIR: path.join(T, 'miri') };
const spawnP = (cmd, a, e, ms) => new Promise((res) => {
  const p = spawn(cmd, a, { cwd: bin, env: e }); let out = ''; const add = (d) => { if (out.length < 200000) out += d; };
  p.stdout.on('data', add); p.stderr.on('data', add);
  const t = setTimeout(() => p.kill('SIGKILL'), ms); p.on('close', (code, sig) => { clearTimeout(t); res({ code, sig, out }); });
});
const [ba, bm] = await Promise.all([spawnP('cargo', ['build', '--offline', '--target', 'x86_64-unknown-linux-gnu'], envA, 400000), (async () => {
  const s = await spawnP('cargo', ['miri', 'setup'], envM, 300000); return s.code === 0 ? spawnP('cargo', ['miri', 'run', '--offline', '--', '1', '1', '8', 'valid'], envM, 300000) : s;
})()]);
if (ba.code !== 0) die('the instrumented build failed: ' + ba.out.slice(-1500));
const reportOf = (r) => /ERROR: AddressSanitizer[^\n]*|error: Undefined Behavior[^\n]*|error: unsupported operation[^\n]*|unsafe precondition\(s\) violated[^\n]*|runtime error:[^\n]*|error: abnormal termination[^\n]*|HOST: [^\n]*/.exec(r.out)?.[0];
if (bm.code !== 0 && !/Undefined Behavior|WRONG|abnormal/.test(bm.out)) die('Miri could not run: ' + bm.out.slice(-1500));
const buildS = (Date.now() - t0) / 1000;
const exe = path.join(T, 'asan/x86_64-unknown-linux-gnu/debug/t02');
const runs = [];
const add = (tool, n, s, big, mode, only) => runs.push({ tool, n, s, big, mode, only });
if (rp) add(rp.run.tool, rp.run.n, rp.run.s, rp.run.big, rp.run.mode, rp.run.only);
else {
  const J = 8, big = { quick: [40000, 3000, 60], thorough: [3000000, 6000, 2500] }[tier];
  for (let j = 0; j < J; j++) add('asan', big[0], seed * 1000 + j, big[1], 'all');
  for (let j = 0; j < J; j++) add('miri', big[2], seed * 1000 + 500 + j, 60, 'all');
}
const go = (r) => { const a = [r.n, r.s, r.big, r.mode, ...(r.only === undefined ? [] : [r.only])].map(String); const ms = tier === 'quick' ? 240000 : 3000000;
  return r.tool === 'asan' ? spawnP(exe, a, envA, ms) : spawnP('cargo', ['miri', 'run', '-q', '--offline', '--', ...a], envM, ms); };
const tot = { asan: { cases: 0, accepted: 0, rejected: 0, host_calls: 0, host_bytes: 0 }, miri: { cases: 0, accepted: 0, rejected: 0, host_calls: 0, host_bytes: 0 } };
let distinct = 0; const bad = []; const other = [];
const queue = runs.slice();
const judge = async (r) => {
  const o = await go(r), rep = reportOf(o), done = /DONE cases (\d+) ok (\d+) rejected (\d+) wrong (\d+) hostcalls (\d+) hostbytes (\d+) distinct (\d+)/.exec(o.out), wrong = /WRONG case[^\n]*/.exec(o.out)?.[0];
  if (done) { const t = tot[r.tool]; ['cases', 'accepted', 'rejected', null, 'host_calls', 'host_bytes'].forEach((k, i) => { if (k) t[k] += Number(done[i + 1]); }); distinct = Math.max(distinct, Number(done[7])); }
  // An entry point declared extern "C" turns a refusal into an abort natively: not a memory error.
  const nounwind = /cannot unwind|abnormal termination: .*abort|panic in a destructor/.test(o.out) && !/Undefined Behavior|AddressSanitizer|unsafe precondition/.test(o.out);
  if (wrong) bad.push({ run: r, msg: `${r.tool}: ${wrong}` });
  else if (o.sig === 'SIGABRT' && !rep || nounwind) { if (r.mode === 'all') await judge({ ...r, mode: 'valid' }); else bad.push({ run: r, msg: `${r.tool}: aborted on a well-formed input: ${o.out.slice(-300)}` }); }
  else if (rep) bad.push({ run: r, msg: `${r.tool}: ${rep} ... ${o.out.slice(Math.max(0, o.out.indexOf(rep)), o.out.indexOf(rep) + 1200)}` });
  else if (!done || o.code !== 0) other.push(`${r.tool} ended with ${o.code ?? o.sig}: ${o.out.slice(-400)}`);
};
for (const tool of ['asan', 'miri']) { const q = queue.filter((r) => r.tool === tool); await Promise.all(Array.from({ length: 8 }, async () => { for (let r; (r = q.shift());) { if (bad.length) return; await judge(r); } })); }
const wall = (Date.now() - t0) / 1000;
fs.mkdirSync(EVID, { recursive: true });
if (!rp) fs.writeFileSync(path.join(EVID, 'T02.json'), JSON.stringify({
  property: 'T02', tier, seed, level: 'exploration',
  coverage: { evaluations: tot.asan.cases + tot.miri.cases, distinct_nontrivial: distinct, rule: 'One evaluation is one call of replace or clean, compiled natively from the working tree, run under AddressSanitizer (debug assertions and overflow checks on) or Miri; every byte the contract hands to the host is read and every byte the host returns is written through the pointer given. Distinct: (method, input class, outcome, entries, input size / 64), counted within one process and the maximum taken.',
    samples: runs.slice(0, 2).concat(runs.slice(-1)), observed: tot, processes: runs.length },
  assumptions: ['the native build exercises the same unsafe code as the WASM build (the panic handler and allocator are the only differences)', 'Miri runs with permissive provenance because the host interface passes pointers as integers'],
  wall_s: wall, build_s: buildS, violations: bad.length }, null, 1) + '\n');
if (bad.length) {
  const f = path.join(EVID, 'replay-T02.json'); fs.writeFileSync(f, JSON.stringify({ property: 'T02', run: bad[0].run, msg: bad[0].msg }, null, 1));
  console.log(`VIOLATION property=T02 replay=${f}`); for (const b of bad.slice(0, 3)) console.log('  ' + b.msg); process.exit(1);
}
if (other.length) die(other[0]);
console.log(`held property=T02 tier=${tier} seed=${seed} asan=${JSON.stringify(tot.asan)} miri=${JSON.stringify(tot.miri)} build=${buildS.toFixed(1)}s wall=${wall.toFixed(1)}s`);
