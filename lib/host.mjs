// Instrumented NEAR VM: executes one real contract WASM call against an account's state.
// Everything a contract can observe or do goes through the host functions below, so the event
// log produced here is a complete record of the call's externally visible behaviour.
import crypto from 'crypto';

export const GAS_T = 1_000_000_000_000n;
export const ONE = 10n ** 24n;
export const U128_MAX = (1n << 128n) - 1n;
const U64 = (1n << 64n) - 1n;

// Fee table: mainnet values of the period the contracts were written for.
const EXT = {
  base: 264768111n, rmb: 2609863200n, rmB: 3801333n, wmb: 2803794861n, wmB: 2723772n,
  rrb: 2517165186n, rrB: 98562n, wrb: 2865522486n, wrB: 3801564n, utfb: 3111779061n, utfB: 291580479n,
  sha: 4540970250n, shaB: 24117351n, logb: 3543313050n, logB: 13198791n,
  swb: 64196736000n, swk: 70482867n, swv: 31018539n, swe: 32117307n,
  srb: 56356845750n, srk: 30952533n, srv: 5611005n, srmb: 53473030500n, srmk: 38220384n, srmr: 11531556n,
  shb: 54039896625n, shk: 30790845n, trie: 16101955926n,
  pand: 1465013400n, pandp: 5452176n, pret: 560152386n, vstake: 911834726400n,
};
const ACT = {
  receipt: [108059500000n, 108059500000n], data: [36486732312n, 36486732312n],
  CreateAccount: [99607375000n, 99607375000n], DeployContract: [184765750000n, 184765750000n],
  FunctionCall: [2319861500000n, 2319861500000n], Transfer: [115123062500n, 115123062500n],
  Stake: [141715687500n, 102217625000n], AddKey: [101765125000n, 101765125000n],
  DeleteKey: [94946625000n, 94946625000n], DeleteAccount: [147489000000n, 147489000000n],
};
const DEPLOY_BYTE = 6812999n, FC_BYTE = 2235934n, AK_BYTE = 1925331n, DATA_BYTE = 17212011n;
export const actionFees = ACT;

export class HostError extends Error {
  constructor(kind, msg) { super(msg ? `${kind}: ${msg}` : kind); this.kind = kind; this.detail = msg ?? ''; }
}

const ACCOUNT_RE = /^(([a-z\d]+[-_])*[a-z\d]+\.)*([a-z\d]+[-_])*[a-z\d]+$/;
export const validAccountId = (s) => typeof s === 'string' && s.length >= 2 && s.length <= 64 && ACCOUNT_RE.test(s);

// ---- per-call context -------------------------------------------------------------------------
let cur = null;
const utf8 = new TextDecoder('utf-8', { fatal: true });
const big = (x) => BigInt.asUintN(64, x);
const num = (x) => Number(BigInt.asUintN(64, x));

function use(g) { cur.gas += g; if (cur.gas > cur.prepaidGas && !cur.isView) throw new HostError('GasExceeded'); }
function wasmGas() { // pick up gas spent by metered instructions
  const g = cur.gasGlobal;
  if (g) {
    const v = g.value - cur.gasSeen;
    if (v !== 0n) { cur.gasSeen = g.value; cur.ops += v; use(v * cur.opCost); }
  }
}
function mem() { return new Uint8Array(cur.memory.buffer); }
function readMem(len, ptr) {
  const l = num(len), p = num(ptr), m = mem();
  if (p + l > m.length) throw new HostError('MemoryAccessViolation');
  use(EXT.rmb + EXT.rmB * BigInt(l));
  return Buffer.from(m.subarray(p, p + l));
}
function getReg(id) {
  const r = cur.regs.get(big(id));
  if (r === undefined) throw new HostError('InvalidRegisterId', String(big(id)));
  return r;
}
function readMemOrReg(len, ptr) {
  if (big(len) === U64) { const r = getReg(ptr); use(EXT.rrb + EXT.rrB * BigInt(r.length)); return r; }
  return readMem(len, ptr);
}
function writeMem(ptr, buf) {
  const p = num(ptr), m = mem();
  if (p + buf.length > m.length) throw new HostError('MemoryAccessViolation');
  use(EXT.wmb + EXT.wmB * BigInt(buf.length));
  m.set(buf, p);
}
function setReg(id, buf) { use(EXT.wrb + EXT.wrB * BigInt(buf.length)); cur.regs.set(big(id), buf); }
function readStr(len, ptr) {
  let b;
  if (big(len) === U64) { // NUL terminated
    const m = mem(); let p = num(ptr), e = p;
    while (e < m.length && m[e] !== 0) e++;
    if (e >= m.length) throw new HostError('MemoryAccessViolation');
    b = Buffer.from(m.subarray(p, e)); use(EXT.rmb + EXT.rmB * BigInt(b.length));
  } else b = readMem(len, ptr);
  use(EXT.utfb + EXT.utfB * BigInt(b.length));
  try { return utf8.decode(b); } catch { throw new HostError('BadUTF8'); }
}
function readAccount(len, ptr) {
  const s = readMemOrReg(len, ptr).toString('utf8');
  if (!validAccountId(s)) throw new HostError('InvalidAccountId', s);
  return s;
}
function readU128(ptr) {
  const b = readMem(16n, ptr);
  return b.readBigUInt64LE(0) | (b.readBigUInt64LE(8) << 64n);
}
function u128le(v) { if (v < 0n || v > U128_MAX) throw new Error("harness: balance outside u128"); const b = Buffer.alloc(16); b.writeBigUInt64LE(v & U64, 0); b.writeBigUInt64LE(v >> 64n, 8); return b; }
function noView(n) { if (cur.isView) throw new HostError('ProhibitedInView', n); }
function enter(n) { wasmGas(); use(EXT.base); cur.hostCalls++; }

function deduct(amount) {
  if (amount > cur.balance) throw new HostError('BalanceExceeded');
  cur.balance -= amount;
}
function payAction(kind, extra = 0n) { const [s, e] = ACT[kind]; use(s + e + extra); }
function newReceipt(receiver, deps) {
  payAction('receipt');
  const r = { receiver, actions: [], deps, idx: cur.receipts.length };
  cur.receipts.push(r);
  cur.promises.push({ t: 'r', r });
  return BigInt(cur.promises.length - 1);
}
function promiseAt(i) {
  const p = cur.promises[num(i)];
  if (!p) throw new HostError('InvalidPromiseIndex', String(big(i)));
  return p;
}
function depsOf(i) {
  const p = promiseAt(i);
  return p.t === 'r' ? [p.r] : p.list.slice();
}
function batch(i) {
  const p = promiseAt(i);
  if (p.t !== 'r') throw new HostError('CannotAppendActionToJointPromise');
  return p.r;
}
function fcAction(r, method, args, deposit, gas) {
  if (method.length === 0) throw new HostError('EmptyMethodName');
  payAction('FunctionCall', 2n * FC_BYTE * BigInt(method.length + args.length));
  use(gas);
  deduct(deposit);
  r.actions.push({ type: 'FunctionCall', method, args, deposit, gas });
}
const keyHex = (len, ptr) => readMemOrReg(len, ptr).toString('latin1');
const pkStr = (len, ptr) => readMemOrReg(len, ptr).toString('hex');

const impl = {
  read_register(id, ptr) { enter(); const r = getReg(id); use(EXT.rrb + EXT.rrB * BigInt(r.length)); writeMem(ptr, r); },
  register_len(id) { enter(); const r = cur.regs.get(big(id)); return r === undefined ? BigInt.asIntN(64, U64) : BigInt(r.length); },
  current_account_id(reg) { enter(); setReg(reg, Buffer.from(cur.accountId)); },
  signer_account_id(reg) { enter(); noView('signer_account_id'); setReg(reg, Buffer.from(cur.signerId)); },
  signer_account_pk(reg) { enter(); noView('signer_account_pk'); setReg(reg, cur.signerPk); },
  predecessor_account_id(reg) { enter(); noView('predecessor_account_id'); setReg(reg, Buffer.from(cur.predecessor)); },
  input(reg) { enter(); setReg(reg, cur.input); },
  block_index() { enter(); return cur.env.blockHeight; },
  block_timestamp() { enter(); return cur.env.timestamp; },
  epoch_height() { enter(); return cur.env.epoch; },
  validator_stake(len, ptr, out) { enter(); const id = readAccount(len, ptr); use(EXT.vstake); writeMem(out, u128le(cur.env.validatorStake(id))); },
  validator_total_stake(out) { enter(); use(EXT.vstake); writeMem(out, u128le(cur.env.validatorTotalStake())); },
  storage_usage() { enter(); return cur.store.usage; },
  account_balance(ptr) { enter(); writeMem(ptr, u128le(cur.balance)); },
  account_locked_balance(ptr) { enter(); writeMem(ptr, u128le(cur.locked)); },
  attached_deposit(ptr) { enter(); noView('attached_deposit'); writeMem(ptr, u128le(cur.attached)); },
  prepaid_gas() { enter(); noView('prepaid_gas'); return cur.prepaidGas; },
  used_gas() { enter(); noView('used_gas'); return cur.gas; },
  random_seed(reg) { enter(); setReg(reg, cur.env.randomSeed); },
  sha256(len, ptr, reg) {
    enter(); const b = readMemOrReg(len, ptr); use(EXT.sha + EXT.shaB * BigInt(b.length));
    setReg(reg, crypto.createHash('sha256').update(b).digest());
  },
  value_return(len, ptr) { enter(); cur.ret = { t: 'value', value: readMemOrReg(len, ptr) }; },
  panic() { enter(); throw new HostError('GuestPanic', 'explicit guest panic'); },
  panic_utf8(len, ptr) { enter(); throw new HostError('GuestPanic', readStr(len, ptr)); },
  log_utf8(len, ptr) { enter(); const s = readStr(len, ptr); use(EXT.logb + EXT.logB * BigInt(s.length)); cur.logs.push(s); },
  log_utf16(len, ptr) { enter(); const b = readMem(len, ptr); cur.logs.push(b.toString('utf16le')); },
  promise_create(al, ap, ml, mp, gl, gp, amt, gas) {
    const i = impl.promise_batch_create(al, ap);
    impl.promise_batch_action_function_call(i, ml, mp, gl, gp, amt, gas);
    return i;
  },
  promise_then(pi, al, ap, ml, mp, gl, gp, amt, gas) {
    const i = impl.promise_batch_then(pi, al, ap);
    impl.promise_batch_action_function_call(i, ml, mp, gl, gp, amt, gas);
    return i;
  },
  promise_and(ptr, cnt) {
    enter(); noView('promise_and'); use(EXT.pand);
    const n = num(cnt), b = readMem(BigInt(n * 8), ptr), list = [];
    for (let i = 0; i < n; i++) list.push(...depsOf(b.readBigUInt64LE(i * 8)));
    use(EXT.pandp * BigInt(list.length));
    cur.promises.push({ t: 'and', list });
    return BigInt(cur.promises.length - 1);
  },
  promise_batch_create(al, ap) { enter(); noView('promise_batch_create'); return newReceipt(readAccount(al, ap), []); },
  promise_batch_then(pi, al, ap) {
    enter(); noView('promise_batch_then');
    const id = readAccount(al, ap), deps = depsOf(pi);
    for (const _ of deps) payAction('data');
    return newReceipt(id, deps);
  },
  promise_batch_action_create_account(i) { enter(); noView('x'); const r = batch(i); payAction('CreateAccount'); r.actions.push({ type: 'CreateAccount' }); },
  promise_batch_action_deploy_contract(i, len, ptr) {
    enter(); noView('x'); const r = batch(i); const code = readMemOrReg(len, ptr);
    payAction('DeployContract', 2n * DEPLOY_BYTE * BigInt(code.length));
    r.actions.push({ type: 'DeployContract', code });
  },
  promise_batch_action_function_call(i, ml, mp, gl, gp, amt, gas) {
    enter(); noView('x'); const r = batch(i);
    const a = readU128(amt), m = readMemOrReg(ml, mp).toString('utf8'), args = readMemOrReg(gl, gp);
    fcAction(r, m, args, a, big(gas));
  },
  promise_batch_action_transfer(i, amt) {
    enter(); noView('x'); const r = batch(i), amount = readU128(amt);
    payAction('Transfer'); deduct(amount); r.actions.push({ type: 'Transfer', amount });
  },
  promise_batch_action_stake(i, amt, pl, pp) {
    enter(); noView('x'); const r = batch(i), stake = readU128(amt), pk = pkStr(pl, pp);
    payAction('Stake'); r.actions.push({ type: 'Stake', stake, pk });
  },
  promise_batch_action_add_key_with_full_access(i, pl, pp, nonce) {
    enter(); noView('x'); const r = batch(i), pk = pkStr(pl, pp);
    payAction('AddKey'); r.actions.push({ type: 'AddKey', pk, perm: { full: true }, nonce: big(nonce) });
  },
  promise_batch_action_add_key_with_function_call(i, pl, pp, nonce, allow, rl, rp, ml, mp) {
    enter(); noView('x'); const r = batch(i), pk = pkStr(pl, pp), allowance = readU128(allow);
    const receiver = readAccount(rl, rp), names = readMemOrReg(ml, mp).toString('utf8');
    payAction('AddKey', 2n * AK_BYTE * BigInt(names.length));
    r.actions.push({
      type: 'AddKey', pk, nonce: big(nonce),
      perm: { full: false, allowance: allowance > 0n ? allowance : null, receiver, methods: names.length ? names.split(',') : [] },
    });
  },
  promise_batch_action_delete_key(i, pl, pp) { enter(); noView('x'); const r = batch(i), pk = pkStr(pl, pp); payAction('DeleteKey'); r.actions.push({ type: 'DeleteKey', pk }); },
  promise_batch_action_delete_account(i, bl, bp) { enter(); noView('x'); const r = batch(i), b = readAccount(bl, bp); payAction('DeleteAccount'); r.actions.push({ type: 'DeleteAccount', beneficiary: b }); },
  promise_results_count() { enter(); noView('promise_results_count'); return BigInt(cur.promiseResults.length); },
  promise_result(i, reg) {
    enter(); noView('promise_result');
    const r = cur.promiseResults[num(i)];
    if (num(i) >= cur.promiseResults.length) throw new HostError('InvalidPromiseResultIndex');
    if (r === null) return 2n;
    setReg(reg, r); return 1n;
  },
  promise_return(i) {
    enter(); noView('promise_return'); use(EXT.pret);
    const p = promiseAt(i);
    if (p.t !== 'r') throw new HostError('CannotReturnJointPromise');
    cur.ret = { t: 'promise', r: p.r };
  },
  storage_write(kl, kp, vl, vp, reg) {
    enter(); noView('storage_write');
    const k = keyHex(kl, kp), v = readMemOrReg(vl, vp);
    use(EXT.swb + EXT.swk * BigInt(k.length) + EXT.swv * BigInt(v.length) + EXT.trie * 6n);
    const old = cur.store.set(k, v);
    if (old !== undefined) { use(EXT.swe * BigInt(old.length)); setReg(reg, old); return 1n; }
    return 0n;
  },
  storage_read(kl, kp, reg) {
    enter(); const k = keyHex(kl, kp);
    const v = cur.store.get(k);
    use(EXT.srb + EXT.srk * BigInt(k.length) + EXT.trie * 6n);
    if (v === undefined) return 0n;
    use(EXT.srv * BigInt(v.length)); setReg(reg, v); return 1n;
  },
  storage_remove(kl, kp, reg) {
    enter(); noView('storage_remove'); const k = keyHex(kl, kp);
    use(EXT.srmb + EXT.srmk * BigInt(k.length) + EXT.trie * 6n);
    const old = cur.store.delete(k);
    if (old === undefined) return 0n;
    use(EXT.srmr * BigInt(old.length)); setReg(reg, old); return 1n;
  },
  storage_has_key(kl, kp) {
    enter(); const k = keyHex(kl, kp); use(EXT.shb + EXT.shk * BigInt(k.length) + EXT.trie * 6n);
    return cur.store.get(k) !== undefined ? 1n : 0n;
  },
};
const RET_I64 = new Set(['validator_stake']);
const env = {};
for (const k of Object.keys(impl)) env[k] = impl[k];
for (const k of ['keccak256', 'keccak512']) env[k] = () => { throw new HostError('Unsupported', k); };

// Transactional view of an account's storage.
export class Store {
  constructor(base, usage) { this.base = base; this.over = new Map(); this.usage = usage; this.writes = 0; }
  get(k) { return this.over.has(k) ? this.over.get(k) : this.base.get(k); }
  set(k, v) {
    const old = this.get(k);
    if (old === undefined) this.usage += BigInt(40 + k.length + v.length);
    else this.usage += BigInt(v.length) - BigInt(old.length);
    this.over.set(k, v); this.writes++;
    return old;
  }
  delete(k) {
    const old = this.get(k);
    if (old !== undefined) { this.usage -= BigInt(40 + k.length + old.length); this.over.set(k, undefined); this.writes++; }
    return old;
  }
  commit() { for (const [k, v] of this.over) { if (v === undefined) this.base.delete(k); else this.base.set(k, v); } this.over.clear(); }
}

// ---- modules ----------------------------------------------------------------------------------
const moduleCache = new Map();
let metering = null; // optional (bytes) => bytes instruction metering pass
export function setMetering(f) { metering = f; }
export function compile(code) {
  const h = crypto.createHash('sha256').update(code).digest('hex');
  let m = moduleCache.get(h);
  if (!m) {
    let mod = null, err = null, exports = [];
    try {
      mod = new WebAssembly.Module(metering ? metering(code) : code);
      exports = WebAssembly.Module.exports(mod);
      for (const im of WebAssembly.Module.imports(mod)) if (!(im.module === 'env' && env[im.name])) throw new Error(`unknown import ${im.module}.${im.name}`);
    } catch (e) { err = String(e); mod = null; }
    m = { hash: h, mod, err, size: code.length, methods: new Set(exports.filter((e) => e.kind === 'function').map((e) => e.name)) };
    moduleCache.set(h, m);
  }
  return m;
}

// Instances are reused after calls that returned normally: static data is restored to its initial
// content; pages grown by the previous call are never referred to again. A trapped one is dropped.
function acquire(m) {
  const b = m.spare;
  if (b) { m.spare = null; return b; }
  const inst = new WebAssembly.Instance(m.mod, { env });
  const memory = inst.exports.memory;
  if (!m.init) {
    const u = new Uint8Array(memory.buffer);
    let i = 0; while (i < u.length && u[i] === 0) i++;
    m.initLen = u.length; m.dataStart = i; m.init = Buffer.from(u.subarray(i));
  }
  return { exports: inst.exports, memory, gas: inst.exports.__vgas ?? null, uses: 0 };
}
function release(m, b) {
  if (++b.uses > 48 || m.spare) return;
  new Uint8Array(b.memory.buffer).set(m.init, m.dataStart);
  m.spare = b;
}

export const stats = { calls: 0, hostCalls: 0, failed: 0, ops: 0n };

// call: {module, method, accountId, signerId, signerPk, predecessor, input, promiseResults, env,
//        balance (incl. attached), locked, attached, prepaidGas, store, isView, opCost}
export function execute(call) {
  const ctx = {
    ...call, gas: 0n, gasSeen: 0n, gasGlobal: null, opCost: call.opCost ?? 3856371n, ops: 0n, regs: new Map(), receipts: [], promises: [], logs: [],
    ret: { t: 'none' }, hostCalls: 0, memory: null,
  };
  const prev = cur; cur = ctx;
  let error = null;
  stats.calls++;
  try {
    if (!call.module || !call.module.mod) throw new HostError('CodeDoesNotExist', call.module?.err ?? '');
    if (!call.module.methods.has(call.method)) throw new HostError('MethodNotFound', call.method);
    use(35445963n + 216750n * BigInt(call.module.size));
    const box = acquire(call.module);
    ctx.memory = box.memory;
    ctx.gasGlobal = box.gas; ctx.gasSeen = box.gas ? box.gas.value : 0n;
    box.exports[call.method]();
    wasmGas();
    release(call.module, box);
  } catch (e) {
    if (e instanceof HostError) error = { kind: e.kind, msg: e.detail };
    else if (e instanceof WebAssembly.RuntimeError) error = { kind: 'WasmTrap', msg: e.message };
    else if (e instanceof RangeError) error = { kind: 'WasmTrap', msg: e.message };
    else { cur = prev; throw e; }
  }
  cur = prev;
  stats.hostCalls += ctx.hostCalls; stats.ops += ctx.ops;
  if (error) stats.failed++;
  return {
    ok: !error, error, ret: error ? { t: 'none' } : ctx.ret, receipts: error ? [] : ctx.receipts, logs: ctx.logs,
    gasUsed: ctx.gas > call.prepaidGas ? call.prepaidGas : ctx.gas, balance: ctx.balance, ops: ctx.ops,
  };
}
