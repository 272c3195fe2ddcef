// A small NEAR chain: accounts, receipts, promises, data receipts, refunds, staking and epochs, with a
// seeded scheduler that interleaves everything except what NEAR itself orders (messages between one
// pair of accounts), and hooks for injecting delays, epoch changes and faults between receipts.
import crypto from 'crypto';
import { execute, compile, Store, HostError, validAccountId, ONE, GAS_T } from './host.mjs';

export const STORAGE_PRICE = 10n ** 19n;
export const pkOf = (name) => '00' + crypto.createHash('sha256').update('key:' + name).digest('hex');
const B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz';
export function base58(buf) {
  let n = BigInt('0x' + (buf.toString('hex') || '0')), s = '';
  while (n > 0n) { s = B58[Number(n % 58n)] + s; n /= 58n; }
  for (const b of buf) { if (b !== 0) break; s = '1' + s; }
  return s;
}
export const pkSecp = (name) => '01' + crypto.createHash('sha512').update('key:' + name).digest('hex'); // a key of the other curve
export const pk58 = (hex) => (hex.startsWith('01') ? 'secp256k1:' : 'ed25519:') + base58(Buffer.from(hex.slice(2), 'hex'));
export const json = (o) => JSON.stringify(o, (k, v) => (typeof v === 'bigint' ? v.toString() : v));

export class Chain {
  constructor(rng, opts = {}) {
    this.rng = rng;
    this.accounts = new Map();
    this.queues = new Map(); this.ready = [];
    this.data = new Map(); this.waiting = new Map(); // dataId -> value, dataId -> postponed receipt
    this.nextId = 1;
    this.blockHeight = 1000n; this.timestamp = opts.timestamp ?? 1_600_000_000_000_000_000n; this.epoch = opts.epoch ?? 10n;
    this.validators = new Map();
    this.listeners = []; this.fault = null; this.rewardFn = null; this.between = null;
    this.storageCheck = opts.storageCheck ?? true;
    this.opCost = opts.opCost;
    this.pending = 0; this.seq = 0; this.trace = []; this.traceLimit = opts.traceLimit ?? 400;
    this.minted = 0n; this.burnt = 0n;
    this.minStake = 0n;
    this.counters = { receipts: 0, data: 0, refunds: 0, failed: 0, views: 0, epochs: 0, interleave: 0 };
    this.onStep = null; this.forward = null;
    this.viewTotals = null;
    this.stakeOverride = null; // for voting: {validatorStake(id), validatorTotalStake()}
  }
  acct(id) { return this.accounts.get(id); }
  createAccount(id, amount, { code = null, keys = [] } = {}) {
    const a = { id, amount, locked: 0n, code: null, storage: new Map(), usage: 100n, keys: new Map() };
    this.accounts.set(id, a); this.minted += amount;
    if (code) { if (code.js) a.code = code; else this.setCode(a, code); }
    for (const k of keys) a.keys.set(k, { full: true });
    return a;
  }
  setCode(a, code) { const old = a.code ? BigInt(a.code.size) : 0n; a.code = compile(code); a.usage += BigInt(code.length) - old; }
  env() {
    const self = this;
    return {
      blockHeight: this.blockHeight, timestamp: this.timestamp, epoch: this.epoch,
      randomSeed: Buffer.alloc(32, Number(this.blockHeight & 255n)),
      validatorStake: (id) => (self.stakeOverride ? self.stakeOverride.validatorStake(id) : self.acct(id)?.locked ?? 0n),
      validatorTotalStake: () => (self.stakeOverride ? self.stakeOverride.validatorTotalStake() : [...self.accounts.values()].reduce((s, a) => s + a.locked, 0n)),
    };
  }
  // ---- views ----
  view(id, method, args = {}) {
    const a = this.acct(id);
    this.counters.views++;
    if (!a) return { ok: false, error: { kind: 'AccountDoesNotExist' } };
    const store = new Store(a.storage, a.usage);
    const r = execute({
      module: a.code, method, accountId: id, signerId: '', signerPk: Buffer.alloc(0), predecessor: '', input: Buffer.from(typeof args === 'string' ? args : json(args)),
      promiseResults: [], env: this.env(), balance: a.amount, locked: a.locked, attached: 0n, prepaidGas: 300n * GAS_T, store, isView: true,
    });
    if (!r.ok) return { ok: false, error: r.error };
    const raw = r.ret.t === 'value' ? r.ret.value.toString() : '';
    return { ok: true, value: raw === '' ? null : JSON.parse(raw), raw };
  }
  get(id, method, args = {}) {
    const r = this.view(id, method, args);
    if (!r.ok) throw new ViewError(id, method, args, r.error);
    return r.value;
  }
  // ---- transactions ----
  tx(signer, receiver, actions, { pk = null, gas = 300n * GAS_T, check = true } = {}) {
    const s = this.acct(signer);
    const handle = { done: false, ok: null, value: null, error: null, id: this.nextId, signer, receiver };
    if (!s) { handle.done = true; handle.ok = false; handle.error = { kind: 'NoSigner' }; return handle; }
    const acts = actions.map((a) => (a.type === 'FunctionCall' ? { deposit: 0n, gas, ...a, args: Buffer.isBuffer(a.args) ? a.args : Buffer.from(typeof a.args === 'string' ? a.args : json(a.args ?? {})) } : a));
    if (pk !== null) {
      const k = s.keys.get(pk);
      const bad = (why) => { handle.done = true; handle.ok = false; handle.error = { kind: 'InvalidAccessKey', msg: why }; return handle; };
      if (!k) return bad('no such key');
      if (!k.full) {
        if (acts.length !== 1 || acts[0].type !== 'FunctionCall') return bad('needs one function call');
        if (k.receiver !== receiver) return bad('receiver');
        if (acts[0].deposit > 0n) return bad('deposit');
        if (k.methods.length && !k.methods.includes(acts[0].method)) return bad('method ' + acts[0].method);
      }
    }
    const total = acts.reduce((t, a) => t + (a.deposit ?? 0n) + (a.type === 'Transfer' ? a.amount : 0n), 0n);
    if (total > s.amount) { handle.done = true; handle.ok = false; handle.error = { kind: 'NotEnoughBalance' }; return handle; }
    s.amount -= total;
    handle.root = this._send(signer, {
      kind: 'action', id: this.nextId++, parent: null, pred: signer, receiver, signer, signerPk: pk ?? pkOf(signer), actions: acts, inputs: [], outputs: [{ handle }], tx: handle,
    }, receiver);
    return handle;
  }
  call(signer, receiver, method, args = {}, { deposit = 0n, gas = 300n * GAS_T, pk = null } = {}) {
    // Accounts that run a forwarder sometimes call from a transaction somebody else signed: the direct caller and
    // the payer are the same, the signer is not.
    const f = this.forward;
    if (f && pk === null && gas === 300n * GAS_T && this.acct(signer)?.code?.js && f.via.includes(signer) && this.rng.chance(f.p)) {
      const by = this.rng.pick(f.by.filter((x) => x !== signer && this.acct(x)));
      const raw = Buffer.isBuffer(args) ? args : Buffer.from(typeof args === 'string' ? args : json(args));
      this.counters.forwarded = (this.counters.forwarded ?? 0) + 1;
      if (deposit <= this.acct(signer).amount) return this.tx(by, signer, [{ type: 'FunctionCall', method: 'forward_', args: { to: receiver, method, args: raw.toString('base64'), deposit: deposit.toString() }, deposit: 0n, gas }]);
    }
    return this.tx(signer, receiver, [{ type: 'FunctionCall', method, args, deposit, gas }], { pk });
  }
  // Run a transaction to completion including everything it spawns.
  run(signer, receiver, method, args, opts) { const h = this.call(signer, receiver, method, args, opts); this.drain(); return h; }
  _send(from, msg, to) {
    const key = from + '>' + to;
    let q = this.queues.get(key);
    if (!q) { q = []; this.queues.set(key, q); }
    if (q.length === 0) this.ready.push(key);
    msg.born = this.epoch; q.push(msg); this.pending++;
    return msg;
  }
  // A message in flight crosses at most one epoch boundary (epochs last half a day).
  canTick() { for (const k of this.ready) for (const m of this.queues.get(k)) if (m.born < this.epoch) return false; return true; }
  idle() { return this.ready.length === 0; }
  drain(max = 5000) { let n = 0; while (this.ready.length && n < max) { this.step(); n++; } if (this.ready.length) throw new Error('drain limit'); return n; }
  step() {
    if (this.ready.length > 1) this.counters.interleave++;
    const i = this.ready.length > 1 ? this.rng.int(this.ready.length) : 0;
    const key = this.ready[i], q = this.queues.get(key), msg = q.shift();
    if (q.length === 0) { this.ready[i] = this.ready[this.ready.length - 1]; this.ready.pop(); }
    this.pending--;
    this.blockHeight += 1n; this.timestamp += 1_000_000_000n;
    if (this.between) this.between(this);
    if (msg.kind === 'data') this._deliver(msg);
    else {
      const missing = msg.inputs.filter((d) => !this.data.has(d));
      if (missing.length) { msg.missing = missing.length; for (const d of missing) this.waiting.set(d, msg); this.postponed = (this.postponed ?? 0) + 1; }
      else this._apply(msg);
    }
    if (this.onStep) this.onStep(this);
  }
  _deliver(msg) {
    this.counters.data++;
    this.data.set(msg.dataId, msg.value);
    const w = this.waiting.get(msg.dataId);
    if (w) { this.waiting.delete(msg.dataId); if (--w.missing === 0) { this.postponed--; this._apply(w); } }
  }
  _refund(to, amount, parent) {
    if (amount <= 0n || to === 'system') { this.burnt += amount; return; }
    this._send(parent.receiver, { kind: 'action', id: this.nextId++, parent: parent.id, pred: 'system', receiver: to, signer: parent.signer, signerPk: parent.signerPk, actions: [{ type: 'Transfer', amount }], inputs: [], outputs: [], refund: true }, to);
  }
  _apply(rc) {
    this.counters.receipts++;
    if (rc.refund) this.counters.refunds++;
    const results = rc.inputs.map((d) => { const v = this.data.get(d); this.data.delete(d); return v; });
    const orig = this.acct(rc.receiver);
    let w = orig ? { ...orig, keys: new Map(orig.keys) } : null;
    let store = w ? new Store(w.storage, w.usage) : null;
    let actor = rc.pred, deleted = false, err = null, ret = { t: 'none' }, logs = [], made = [], gasUsed = 0n, stakes = [], created = false;
    const beneficiaryTransfers = [];
    const before = orig ? orig.amount : null;
    let calls = 0, ops = 0n;
    for (let i = 0; i < rc.actions.length && !err; i++) {
      const a = rc.actions[i]; ret = { t: 'none' };
      const fail = (kind, msg = '') => { err = { kind, msg, action: i }; };
      const injected = this.fault ? this.fault(rc, a, i) : null;
      if (a.type === 'CreateAccount') {
        if (w) { fail('AccountAlreadyExists'); break; }
        const dot = rc.receiver.indexOf('.');
        if (!(validAccountId(rc.receiver) && dot >= 0 && rc.receiver.slice(dot + 1) === rc.pred)) { fail('CreateAccountNotAllowed'); break; }
        if (injected) { fail(injected); break; }
        w = { id: rc.receiver, amount: 0n, locked: 0n, code: null, storage: new Map(), usage: 100n, keys: new Map() };
        store = new Store(w.storage, w.usage); actor = rc.receiver; created = true;
        continue;
      }
      if (!w || deleted) { fail('AccountDoesNotExist'); break; }
      const own = ['DeployContract', 'Stake', 'AddKey', 'DeleteKey', 'DeleteAccount'].includes(a.type);
      if (own && actor !== rc.receiver) { fail('ActorNoPermission'); break; }
      if (injected && a.type !== 'FunctionCall') { fail(injected); break; }
      switch (a.type) {
        case 'Transfer': w.amount += a.amount; break;
        case 'DeployContract': { const o = w.code ? BigInt(w.code.size) : 0n; w.code = compile(a.code); store.usage += BigInt(a.code.length) - o; break; }
        case 'AddKey': if (w.keys.has(a.pk)) { fail('AddKeyAlreadyExists'); break; } w.keys.set(a.pk, a.perm); store.usage += 82n; break;
        case 'DeleteKey': if (!w.keys.has(a.pk)) { fail('DeleteKeyDoesNotExist'); break; } w.keys.delete(a.pk); store.usage -= 82n; break;
        case 'DeleteAccount':
          if (w.locked > 0n) { fail('DeleteAccountStaking'); break; }
          if (store.usage > 10000n + BigInt(w.code ? w.code.size : 0)) { fail('DeleteAccountWithLargeState'); break; }
          beneficiaryTransfers.push([a.beneficiary, w.amount]); w.amount = 0n; deleted = true; break;
        case 'Stake': {
          const inc = a.stake > w.locked ? a.stake - w.locked : 0n;
          if (a.pk.length !== 66) { fail('UnsuitableStakingKey'); break; }
          if (w.amount < inc) { fail('TriesToStake'); break; }
          if (w.locked === 0n && a.stake === 0n) { fail('TriesToUnstake'); break; }
          if (a.stake > 0n && a.stake < this.minStake) { fail('InsufficientStake'); break; }
          stakes.push([a.stake, a.pk]);
          if (a.stake > w.locked) { w.amount -= inc; w.locked = a.stake; }
          break;
        }
        case 'FunctionCall': {
          calls++;
          w.amount += a.deposit;
          if (injected) { fail(injected); break; }
          if (!w.code) { fail('CodeDoesNotExist'); break; }
          const r = w.code.js ? runJs(w.code.js, this, rc, a, w.amount, results) : execute({
            module: w.code, method: a.method, accountId: rc.receiver, signerId: rc.signer, signerPk: Buffer.from(rc.signerPk, 'hex'), predecessor: rc.pred,
            input: a.args, promiseResults: results, env: this.env(), balance: w.amount, locked: w.locked, attached: a.deposit, prepaidGas: a.gas, store, isView: false, opCost: this.opCost,
          });
          gasUsed += r.gasUsed; logs.push(...r.logs); ops += r.ops;
          if (!r.ok) { fail(r.error.kind, r.error.msg); break; }
          w.amount = r.balance; ret = r.ret; made.push(...r.receipts);
          break;
        }
        default: throw new Error('action ' + a.type);
      }
    }
    if (!err && w && !deleted && this.storageCheck && !rc.refund) {
      if (w.amount + w.locked < store.usage * STORAGE_PRICE) err = { kind: 'LackBalanceForState', msg: String(store.usage * STORAGE_PRICE - w.amount - w.locked) };
    }
    const ev = { seq: this.seq++, rc, ok: !err, error: err, logs, results, gasUsed, before, epoch: this.epoch, timestamp: this.timestamp, made: [], ops };
    if (err) {
      this.counters.failed++;
      const refund = rc.actions.reduce((t, a) => t + (a.type === 'Transfer' ? a.amount : a.type === 'FunctionCall' ? a.deposit : 0n), 0n);
      if (refund > 0n) this._refund(rc.pred, refund, rc);
      ev.refunded = refund;
      if (rc.refund) this.burnt += 0n;
      this._output(rc, null, err);
    } else {
      if (deleted) { this.accounts.delete(rc.receiver); this.validators.delete(rc.receiver); }
      else if (w) {
        store.commit(); w.usage = store.usage;
        this.accounts.set(rc.receiver, w);
        for (const [s, pk] of stakes) this._propose(w, s, pk);
      }
      for (const [b, amt] of beneficiaryTransfers) if (amt > 0n) this._send(rc.receiver, { kind: 'action', id: this.nextId++, parent: rc.id, pred: 'system', receiver: b, signer: rc.signer, signerPk: rc.signerPk, actions: [{ type: 'Transfer', amount: amt }], inputs: [], outputs: [], refund: true }, b);
      for (const m of made) {
        m.rc = { kind: 'action', id: this.nextId++, parent: rc.id, pred: rc.receiver, receiver: m.receiver, signer: rc.signer, signerPk: rc.signerPk, actions: m.actions, inputs: [], outputs: [] };
        for (const d of m.deps) { const dataId = this.nextId++; d.rc.outputs.push({ dataId, receiver: m.receiver }); m.rc.inputs.push(dataId); }
        ev.made.push(m.rc);
      }
      ev.ret = ret.t === 'value' ? ret.value : ret.t === 'promise' ? { promise: ret.r.rc.id } : null;
      if (ret.t === 'promise') ret.r.rc.outputs.push(...rc.outputs);
      for (const m of made) this._send(rc.receiver, m.rc, m.receiver);
      if (ret.t !== 'promise') this._output(rc, ret.t === 'value' ? ret.value : Buffer.alloc(0), null);
    }
    const cur = this.acct(rc.receiver);
    if (this.rewardFn && cur && calls) { const rw = this.rewardFn(rc, cur); cur.amount += rw; this.minted += rw; ev.reward = rw; }
    ev.after = cur ? cur.amount : null;
    if (this.trace.length < this.traceLimit * 2) this.trace.push(ev); else { this.trace.splice(0, this.traceLimit); this.trace.push(ev); }
    for (const l of this.listeners) l(ev, this);
    rc.event = ev;
  }
  _output(rc, value, err) {
    for (const o of rc.outputs) {
      if (o.handle) { o.handle.done = true; o.handle.ok = !err; o.handle.error = err; o.handle.value = value; }
      else this._send(rc.receiver, { kind: 'data', dataId: o.dataId, value: err ? null : value }, o.receiver);
    }
  }
  // ---- staking and epochs ----
  _propose(a, stake, pk) {
    let v = this.validators.get(a.id);
    if (!v) { v = { declared: 0n, hist: [] }; this.validators.set(a.id, v); }
    v.declared = stake; v.pk = pk;
    if (!v.floor || stake > v.floor) v.floor = stake;
  }
  // One epoch boundary: rewards are added to locked stake; stake above the largest of the declarations of
  // the last three epochs is returned to the account's balance.
  nextEpoch(rewardOf = () => 0n) {
    this.epoch += 1n; this.blockHeight += 43200n; this.timestamp += 43_200_000_000_000n; this.counters.epochs++;
    for (const [id, v] of this.validators) {
      const a = this.acct(id);
      if (!a) continue;
      let rw = a.locked > 0n && v.hist.length ? rewardOf(id, a) : 0n;
      a.locked += rw; this.minted += rw;
      if (v.declared > 0n) v.declared += rw;
      v.hist.unshift(v.declared); if (v.hist.length > 3) v.hist.pop();
      const mx = v.hist.reduce((x, y) => (x > y ? x : y), 0n);
      if (a.locked > mx) { a.amount += a.locked - mx; a.locked = mx; }
    }
  }
  kick(id) { const v = this.validators.get(id); if (v) v.declared = 0n; }
  // ---- trace ----
  dump(n = 60) { return this.trace.slice(-n).map(fmtEvent); }
}
// A contract written in JS (mock receivers, scripted counterparties). handler(api) may return a value,
// throw to fail, or return api.promise; it sees what a real contract would see.
export const jsContract = (handler) => ({ js: handler, size: 0 });
// An account that forwards calls as their direct caller (see Chain.forward) and is otherwise an ordinary account.
export const forwarder = () => jsContract((api) => { if (api.method !== 'forward_') throw new Error('MethodNotFound'); return forwardCall(api); });
export const forwardCall = (api) => {
  const a = api.args;
  return api.promise(a.to, [{ type: 'FunctionCall', method: a.method, args: Buffer.from(a.args, 'base64'), deposit: BigInt(a.deposit), gas: 250n * GAS_T }]);
};
function runJs(handler, chain, rc, a, balance, results) {
  const receipts = [];
  const api = {
    chain, pred: rc.pred, self: rc.receiver, signer: rc.signer, method: a.method, raw: a.args, deposit: a.deposit, gas: a.gas, results,
    get args() { try { return JSON.parse(a.args.toString() || '{}'); } catch { return null; } },
    get balance() { return balance; },
    promise(receiver, actions, deps = []) {
      for (const x of actions) { const d = (x.deposit ?? 0n) + (x.type === 'Transfer' ? x.amount : 0n); if (d > balance) throw new Error('BalanceExceeded'); balance -= d; }
      const r = { receiver, actions: actions.map((x) => (x.type === 'FunctionCall' ? { deposit: 0n, gas: 30n * GAS_T, ...x, args: Buffer.isBuffer(x.args) ? x.args : Buffer.from(json(x.args ?? {})) } : x)), deps, idx: receipts.length };
      receipts.push(r); return r;
    },
  };
  try {
    const v = handler(api);
    const ret = v === undefined ? { t: 'none' } : v && v.receiver && v.deps ? { t: 'promise', r: v } : { t: 'value', value: Buffer.isBuffer(v) ? v : Buffer.from(json(v)) };
    return { ok: true, ret, receipts, logs: [], gasUsed: 0n, balance, ops: 0n };
  } catch (e) {
    return { ok: false, error: { kind: 'Injected', msg: e.message }, ret: { t: 'none' }, receipts: [], logs: [], gasUsed: 0n, balance, ops: 0n };
  }
}
export class ViewError extends Error {
  constructor(id, method, args, error) { super(`view ${id}.${method}(${json(args)}) failed: ${error.kind} ${error.msg ?? ''}`); this.id = id; this.method = method; this.error = error; }
}
export function fmtAction(a) {
  switch (a.type) {
    case 'FunctionCall': { const s = a.args.toString('latin1'); return `${a.method}(${/^[\x20-\x7e]*$/.test(s) ? s.slice(0, 300) : '<' + a.args.length + ' bytes>'})+${a.deposit}`; }
    case 'Transfer': return `Transfer ${a.amount}`;
    case 'Stake': return `Stake ${a.stake} ${a.pk.slice(0, 10)}`;
    case 'AddKey': return `AddKey ${a.pk.slice(0, 10)} ${json(a.perm)}`;
    case 'DeleteKey': return `DeleteKey ${a.pk.slice(0, 10)}`;
    case 'DeployContract': return `Deploy ${a.code.length}B`;
    case 'DeleteAccount': return `DeleteAccount -> ${a.beneficiary}`;
    default: return a.type;
  }
}
export function fmtEvent(ev) {
  const rc = ev.rc;
  return `#${ev.seq} e${ev.epoch} t${ev.timestamp} r${rc.id}<-${rc.parent ?? 'tx'} ${rc.pred}->${rc.receiver} [${rc.actions.map(fmtAction).join('; ')}] ` +
    (ev.ok ? `ok${ev.ret && Buffer.isBuffer(ev.ret) ? ' ' + ev.ret.toString().slice(0, 80) : ''}` : `FAILED ${ev.error.kind} ${String(ev.error.msg).slice(0, 120)}`) +
    (ev.made.length ? ` => ${ev.made.map((m) => `r${m.id}:${m.receiver}[${m.actions.map(fmtAction).join('; ')}]`).join(' , ')}` : '') + ` bal ${ev.before}->${ev.after}`;
}
