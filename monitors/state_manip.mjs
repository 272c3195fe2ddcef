// State manipulation: the account's whole storage is compared, after every receipt, with a map model
// updated from the requested keys and values alone (decoded by the harness, not by the contract).
import { Chain } from '../lib/chain.mjs';
import { ONE, GAS_T } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';
export const meta = {
  rule: { '*': 'Evaluations: replace/clean receipts executed by the state-manipulation WASM (full, clean-only and replace-only builds), each followed by a comparison of the whole account storage with the model. Distinct: (build, method, input class, number of entries, which shapes of keys and values, overlap with prior state and inside the request, outcome).' },
  assumptions: ['the runtime model in lib/chain.mjs reproduces NEAR storage, gas and rollback semantics', 'an input whose JSON or base64 is valid but unusual (escapes, unknown or repeated fields, arrays for objects, non-canonical base64) may be either applied exactly or rejected'],
};
const C = 'target.near';
const b64 = (b) => b.toString('base64');
function bytes(rng, long) {
  const n = rng.weighted([[3, 0], [4, 1], [4, 2], [4, 3], [6, rng.range(4, 40)], [2, rng.range(41, 300)], [long, rng.range(301, 3000)]]);
  const kind = rng.int(5);
  const b = Buffer.alloc(n);
  for (let i = 0; i < n; i++) b[i] = kind === 0 ? 0 : kind === 1 ? 255 : kind === 2 ? 97 + rng.int(26) : kind === 3 ? (i === 0 ? 0 : rng.int(256)) : rng.int(256);
  return b;
}
const ws = (rng) => rng.pick(['', '', '', ' ', '\n', '\t ', '\r\n  ']);
export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng); ctx.chain = chain; const tag = ['T01'];
  const build = rng.weighted([[6, 'all'], [2, 'clean'], [2, 'replace']]);
  const can = { replace: build !== 'clean', clean: build !== 'replace' };
  chain.createAccount('op.near', 10n ** 9n * ONE); chain.createAccount('stranger.near', 1000n * ONE);
  const acct = chain.createAccount(C, 10n ** 6n * ONE, { code: wasm('state_manipulation_' + build) });
  // a pool of related keys: prefixes, extensions, one-bit neighbours, empty and binary ones
  const pool = [Buffer.alloc(0), Buffer.from('STATE'), Buffer.from([0]), Buffer.from([0, 0])];
  while (pool.length < 14) {
    const k = bytes(rng, 0.3); pool.push(k);
    if (k.length) { pool.push(k.subarray(0, k.length - 1)); const x = Buffer.from(k); x[rng.int(k.length)] ^= 1 << rng.int(8); pool.push(x); pool.push(Buffer.concat([k, Buffer.from([rng.int(256)])])); }
  }
  const model = new Map();
  const prior = rng.range(0, 10);
  for (let i = 0; i < prior; i++) { const k = rng.pick(pool).toString('latin1'), v = bytes(rng, 0.5); if (model.has(k)) continue; model.set(k, v); acct.storage.set(k, v); acct.usage += BigInt(40 + k.length + v.length); }
  const compare = (what) => {
    const a = chain.acct(C);
    if (a.storage.size !== model.size) { ctx.fail(tag, `${what}: the state has ${a.storage.size} entries, expected ${model.size}`); return; }
    let use = 100n + BigInt(a.code.size);
    for (const [k, v] of model) {
      const got = a.storage.get(k);
      if (!got || !got.equals(v)) { ctx.fail(tag, `${what}: key ${Buffer.from(k, 'latin1').toString('hex') || '(empty)'} is ${got ? got.toString('hex').slice(0, 80) : 'absent'}, expected ${v.toString('hex').slice(0, 80)}`); return; }
      use += BigInt(40 + k.length + v.length);
    }
    ctx.eq(a.usage, use, tag, `${what}: storage usage`);
  };
  const n = rng.range(5, 14);
  for (let s = 0; s < n && !ctx.bad; s++) {
    const method = rng.weighted([[5, 'replace'], [4, 'clean']]);
    const count = rng.weighted([[1, 0], [3, 1], [3, 2], [4, rng.range(3, 8)], [1, rng.range(9, 40)], [0.15, rng.range(41, 600)]]);
    const ents = [];
    for (let i = 0; i < count; i++) {
      const k = ents.length && rng.chance(0.15) ? rng.pick(ents)[0] : rng.chance(0.85) ? rng.pick(pool) : bytes(rng, 0.3);
      ents.push([k, bytes(rng, count < 5 ? 1 : 0.05)]);
    }
    if (method === 'replace' && count && rng.chance(0.03)) { const v = Buffer.alloc(rng.range(8000, 180000), rng.int(256)); for (let i = 0; i < 64; i++) v[rng.int(v.length)] = rng.int(256); ents[rng.int(count)][1] = v; }
    const dup = new Set(ents.map((e) => e[0].toString('latin1'))).size < ents.length;
    const over = ents.some((e) => model.has(e[0].toString('latin1')));
    const cls = rng.weighted([[12, 'plain'], [2, 'spaced'], [1, 'unknown-field'], [1, 'array-form'], [1, 'slash-escape'], [1, 'unicode-escape'], [1, 'no-padding'], [1, 'trailing-bits'], [1, 'repeat-field'], [1, 'null-field'],
      [1, 'bad-base64'], [1, 'inner-space'], [1, 'url-alphabet'], [1, 'wrong-type'], [1, 'missing'], [1, 'wrong-field'], [1, 'arity'], [1, 'trailing'], [1, 'truncated'], [1, 'empty'], [1, 'binary'], [1, 'overpadded'], [0.5, 'late-bad']]);
    let enc = ents.map(([k, v]) => [b64(k), b64(v)]), verdict = 'ok', text, extra = '';
    const field = method === 'replace' ? 'entries' : 'keys';
    const at = enc.length ? rng.int(enc.length) : 0, col = method === 'replace' ? rng.int(2) : 0;
    const mut = (f) => { if (!enc.length) return false; const x = f(enc[at][col]); if (x === enc[at][col]) return false; enc[at][col] = x; return true; };
    const ser = () => { const w = () => (cls === 'spaced' ? ws(rng) : ''); return '[' + enc.map(([k, v]) => (method === 'replace' ? `${w()}[${w()}${JSON.stringify(k)}${w()},${w()}${JSON.stringify(v)}${w()}]${w()}` : w() + JSON.stringify(k) + w())).join(',') + ']'; };
    switch (cls) {
      case 'no-padding': if (mut((x) => x.replace(/=+$/, ''))) verdict = 'either'; break;
      case 'trailing-bits': if (mut((x) => x.replace(/([AQgw])(==)$/, (m, c, p) => ({ A: 'B', Q: 'R', g: 'h', w: 'x' })[c] + p).replace(/([^=])=$/, (m, c) => { const A = 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'; return A[A.indexOf(c) | 1] + '='; }))) verdict = 'either'; break;
      case 'bad-base64': if (mut((x) => { const i = rng.int(x.length + 1); return x.slice(0, i) + rng.pick(['*', '!', 'é', '\u0000', '"', '\u{1F600}', '%']) + x.slice(i); })) verdict = 'bad'; break;
      case 'inner-space': if (mut((x) => { const i = rng.int(x.length + 1); return x.slice(0, i) + rng.pick([' ', '\n', '\t']) + x.slice(i); })) verdict = 'bad'; break;
      case 'url-alphabet': if (mut((x) => x.replace(/\+/g, '-').replace(/\//g, '_'))) verdict = 'bad'; break;
      case 'overpadded': if (mut((x) => x + rng.pick(['=', '==', '===', '====', 'A']))) verdict = 'bad'; break;
      case 'late-bad': if (enc.length) { enc[enc.length - 1][col] = '???'; verdict = 'bad'; } break;
    }
    const arr = ser();
    text = `{${cls === 'spaced' ? ws(rng) : ''}"${field}"${cls === 'spaced' ? ws(rng) : ''}:${cls === 'spaced' ? ws(rng) : ''}${arr}}`;
    if (cls === 'spaced') text = ws(rng) + text + ws(rng);
    switch (cls) {
      case 'unknown-field': text = rng.chance(0.5) ? `{"x":{"y":[1,"z"]},"${field}":${arr}}` : `{"${field}":${arr},"note":"${'q'.repeat(rng.int(30))}"}`; verdict = 'either'; break;
      case 'array-form': text = `[${arr}]`; verdict = 'either'; break;
      case 'slash-escape': { const t = text.replace(/\//g, '\\/'); if (t !== text) { text = t; verdict = 'either'; } break; }
      case 'unicode-escape': { const t = text.replace(/"([A-Za-z0-9+/])/, (m, c) => `"\\u${c.charCodeAt(0).toString(16).padStart(4, '0')}`); text = t; verdict = 'either'; break; }
      case 'repeat-field': text = `{"${field}":${arr},"${field}":${arr}}`; verdict = 'either'; break;
      case 'null-field': text = rng.pick([`{"${field}":null}`, 'null', `{"${field}":[null]}`]); verdict = 'bad'; break;
      case 'wrong-type': text = rng.pick([`{"${field}":{}}`, `{"${field}":"AA=="}`, `{"${field}":[1]}`, `{"${field}":[[1,2]]}`, '7', '"x"', 'true', `{"${field}":[{"k":"AA==","v":"AA=="}]}`]); verdict = 'bad'; break;
      case 'missing': text = rng.pick(['{}', '{"x":1}', '[]']); verdict = 'bad'; break;
      case 'wrong-field': text = `{"${rng.pick([field === 'keys' ? 'entries' : 'keys', 'Entries', 'key', field + ' '])}":${arr}}`; verdict = 'bad'; break;
      case 'arity': text = method === 'replace' ? `{"entries":${rng.pick(['[["AA=="]]', '[["AA==","AA==","AA=="]]', '[[]]', '["AA=="]'])}}` : `{"keys":${rng.pick(['[["AA=="]]', '[[]]'])}}`; verdict = 'bad'; break;
      case 'trailing': text += rng.pick(['x', '{}', ',', ']', '"', '\u0000', '}']); verdict = 'bad'; break;
      case 'truncated': text = text.slice(0, rng.int(text.length)); verdict = 'bad'; break;
      case 'empty': text = rng.pick(['', ' ', '\n']); verdict = 'bad'; break;
    }
    let raw = Buffer.from(text);
    if (cls === 'binary') {
      raw = rng.chance(0.5) ? bytes(rng, 1) : Buffer.concat([raw.subarray(0, raw.length - 2), Buffer.from([rng.pick([0xff, 0xc0, 0x80, 0xfe])]), raw.subarray(raw.length - 2)]);
      verdict = 'bad';
      try { JSON.parse(raw.toString('utf8')); verdict = 'either'; } catch { /* not JSON */ }
      if (raw.length && !Buffer.from(raw.toString('utf8')).equals(raw)) verdict = 'bad';
    }
    if (!can[method]) verdict = 'bad';
    const amt = chain.acct(C).amount, keys = chain.acct(C).keys.size, hash = chain.acct(C).code.hash, spent = chain.acct(C).usage;
    let ev = null; const grab = (e) => { if (e.rc.receiver === C && !e.rc.refund) ev = e; }; chain.listeners.push(grab);
    chain.tx('op.near', C, [{ type: 'FunctionCall', method, args: raw, deposit: 0n, gas: 300n * GAS_T }]); chain.drain();
    chain.listeners.splice(chain.listeners.indexOf(grab), 1);
    const sizes = ents.map(([k, v]) => (k.length ? (k.length > 300 ? 'L' : 'n') : '0') + (v.length ? (v.length > 300 ? 'L' : 'n') : '0'));
    ctx.saw(`${build}|${method}|${cls}|${verdict}|${Math.min(count, 9)}|${[...new Set(sizes)].sort()}|dup${dup}|over${over}|${ev.ok}|${ev.ok ? '' : ev.error.kind}`);
    ctx.hit(`${method} ${verdict === 'ok' ? 'valid' : verdict === 'bad' ? 'malformed' : 'unusual'} ${ev.ok ? 'applied' : 'rejected'}`); ctx.hit('input ' + cls);
    if (dup && ev.ok) ctx.hit(method + ' applied with a repeated key'); if (over && ev.ok) ctx.hit(method + ' applied over existing entries');
    if (raw.length > 65536) ctx.hit(`input over 64 KiB ${ev.ok ? 'applied' : 'rejected'}`); if (count > 100) ctx.hit(`more than a hundred entries ${ev.ok ? 'applied' : 'rejected'}`);
    ctx.note(`${build} ${method} ${cls} ${text.slice(0, 200)} -> ${ev.ok}`);
    const what = `${method} (${build} build, ${cls}) of ${raw.length < 400 ? JSON.stringify(raw.toString('latin1')) : raw.length + ' bytes'}`;
    if (!ev.ok && ev.error.kind === 'GasExceeded' && raw.length > 20000) ctx.hit('ran out of gas');
    else if (verdict === 'ok') ctx.expect(ev.ok, tag, `${what} was rejected: ${ev.error?.kind} ${ev.error?.msg}`);
    else if (verdict === 'bad') ctx.expect(!ev.ok, tag, `${what} was accepted`);
    if (ctx.bad) break;
    if (ev.ok) for (const [k, v] of ents) { const h = k.toString('latin1'); if (method === 'replace') model.set(h, v); else model.delete(h); }
    compare(what);
    const a = chain.acct(C);
    ctx.expect(ev.made.length === 0 && a.amount === amt && a.keys.size === keys && a.code.hash === hash, tag, `${what} did more than touch the state`);
    extra = spent;
  }
  ctx.sample({ build, entries: model.size });
}
