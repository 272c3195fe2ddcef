// Factories: every creation, judged on the receipts of the factory, the created account and the ledger.
import crypto from 'crypto';
import { Chain, pkOf, pkSecp, pk58, json, jsContract, forwarder } from '../lib/chain.mjs';
import { ONE, GAS_T, validAccountId } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';
import { implicit } from '../lib/ids.mjs';
import { LockupModel } from './lockup.mjs';

const F = 'factory.near', WL = 'whitelist.near', FOUND = 'foundation.near';
const METHODS = ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'];
export const meta = {
  rule: { '*': 'Evaluations: receipts the factory executed (creations and callbacks) judged against the model (outcome, receipts promised with all arguments, created account, whitelisting, refunds, ledger). Distinct: (method, outcome reason, deposit class, name state, failure injected where, argument shape) tuples.' },
  assumptions: ['creations fail by injected faults at any action, by existing accounts, or because the created contract refuses its arguments', 'lib/chain.mjs reproduces NEAR receipt and refund rules'],
};
class Reject extends Error {}
const rej = (c, why) => { if (!c) throw new Reject(why); };
const isU = (v, bits) => typeof v === 'string' && /^\d+$/.test(v) && BigInt(v) < 1n << BigInt(bits);
const u32 = (v) => Number.isInteger(v) && v >= 0 && v <= 4294967295;
const pk = (s, keys) => keys.has(s);
const canonJ = (o) => (Array.isArray(o) ? '[' + o.map(canonJ).join() + ']' : o && typeof o === 'object' ? '{' + Object.keys(o).filter((k) => o[k] !== null && o[k] !== undefined).sort().map((k) => JSON.stringify(k) + ':' + canonJ(o[k])).join() + '}' : JSON.stringify(o));
const parse = (b) => { try { return JSON.parse(b.toString()); } catch { return undefined; } };

// ---- the three factories: what a valid creation is, and what it must make ----
const KINDS = {
  F01: {
    wasm: 'staking_pool_factory', child: 'staking_pool', method: 'create_staking_pool', min: 30n * ONE,
    check(w, x) {
      const a = x.args; rej(x.deposit >= 30n * ONE, 'deposit too small');
      rej(typeof a.staking_pool_id === 'string' && typeof a.owner_id === 'string' && pk(a.stake_public_key, w.keys) && a.reward_fee_fraction && u32(a.reward_fee_fraction.numerator) && u32(a.reward_fee_fraction.denominator), 'malformed');
      rej(!a.staking_pool_id.includes('.'), 'dot in the name'); rej(validAccountId(`${a.staking_pool_id}.${F}`), 'invalid name'); rej(validAccountId(a.owner_id), 'invalid owner');
      rej(a.reward_fee_fraction.denominator > 0 && a.reward_fee_fraction.numerator <= a.reward_fee_fraction.denominator, 'invalid fee');
      rej(!w.names.has(`${a.staking_pool_id}.${F}`), 'name already created');
      return { id: `${a.staking_pool_id}.${F}`, init: { owner_id: a.owner_id, stake_public_key: a.stake_public_key, reward_fee_fraction: a.reward_fee_fraction } };
    },
    verify(w, id, c) {
      const { ctx, chain } = w, v = (m, z) => chain.get(id, m, z);
      ctx.eq(v('get_owner_id'), c.init.owner_id, ['F01'], `owner of ${id}`); ctx.eq(v('get_staking_key'), c.init.stake_public_key, ['F01'], `staking key of ${id}`);
      ctx.eq(v('get_reward_fee_fraction'), c.init.reward_fee_fraction, ['F01'], `fee of ${id}`);
      ctx.eq(v('is_staking_paused'), false, ['F01'], 'paused');
    },
  },
  F02: {
    wasm: 'lockup_factory', child: 'lockup_contract', method: 'create', min: 35n * ONE / 10n,
    check(w, x) {
      const a = x.args, vs = a.vesting_schedule ?? null;
      rej(validAccountId(a.owner_account_id) && isU(a.lockup_duration, 64) && (a.lockup_timestamp == null || isU(a.lockup_timestamp, 64)) && (a.release_duration == null || isU(a.release_duration, 64)) && (a.whitelist_account_id == null || validAccountId(a.whitelist_account_id)), 'malformed');
      rej(vs === null || vs.VestingHash !== undefined || (vs.VestingSchedule && ['start_timestamp', 'cliff_timestamp', 'end_timestamp'].every((k) => isU(vs.VestingSchedule[k], 64))), 'malformed');
      rej(x.deposit >= 35n * ONE / 10n, 'deposit too small');
      return { id: crypto.createHash('sha256').update(a.owner_account_id).digest('hex').slice(0, 40) + '.' + F, init: {
        owner_account_id: a.owner_account_id, lockup_duration: a.lockup_duration, lockup_timestamp: a.lockup_timestamp ?? null, transfers_information: { TransfersEnabled: { transfers_timestamp: '1602614338293769340' } },
        vesting_schedule: vs, release_duration: a.release_duration ?? null, staking_pool_whitelist_account_id: a.whitelist_account_id ?? WL, foundation_account_id: vs ? FOUND : null } };
    },
    verify(w, id, c) {
      const { ctx, chain } = w, v = (m, z) => chain.get(id, m, z), i = c.init, T = ['F02'];
      ctx.eq(v('get_owner_account_id'), i.owner_account_id, T, 'owner'); ctx.eq(v('are_transfers_enabled'), true, T, 'transfers'); ctx.eq(v('get_staking_pool_account_id'), null, T, 'pool');
      ctx.eq(v('get_balance'), c.deposit, T, 'balance'); ctx.eq(canonJ(v('get_vesting_information')), canonJ(i.vesting_schedule ?? 'None'), T, 'vesting terms');
      const m = new LockupModel(), s = i.vesting_schedule?.VestingSchedule;
      Object.assign(m, { A: c.deposit, withdrawn: 0n, dur: BigInt(i.lockup_duration), rel: i.release_duration === null ? null : BigInt(i.release_duration), lockTs: i.lockup_timestamp === null ? null : BigInt(i.lockup_timestamp), transfers: 1602614338293769340n, pool: null,
        vest: s ? { kind: 'sched', s: { start: BigInt(s.start_timestamp), cliff: BigInt(s.cliff_timestamp), end: BigInt(s.end_timestamp) } } : { kind: i.vesting_schedule ? 'hash' : 'none' } });
      const st = m.start, U = (1n << 64n) - 1n, keep = chain.timestamp, pts = [0n, keep, st, U, ...(m.rel === null ? [] : [st + m.rel / 2n, st + m.rel]), ...(s ? [m.vest.s.cliff, (m.vest.s.cliff + m.vest.s.end) / 2n, m.vest.s.end] : [])].flatMap((p) => [p - 1n, p]).filter((p) => p >= 0n && p <= U);
      for (const p of pts) { chain.timestamp = p; ctx.eq(v('get_locked_amount'), m.locked(p), T, () => `locked amount of ${id} at ${p}`); }
      chain.timestamp = keep;
      // the terms that no view shows: who the whitelist and the foundation are
      const o = chain.run(i.owner_account_id, id, 'select_staking_pool', { staking_pool_account_id: 'pool.near' });
      if (!ctx.bad && chain.acct(i.owner_account_id)) {
        const wl = i.staking_pool_whitelist_account_id;
        ctx.expect(w.asked.get(id) === wl, T, () => `select_staking_pool of ${id} asked ${w.asked.get(id)}, the whitelist is ${wl}`); void o;
        ctx.hit('whitelist of the created lockup probed');
      }
      if (s && !ctx.bad) {
        const un = m.unvestedOf(m.vest.s, chain.timestamp + 1_000_000_000n);
        for (const who of ['eve.near', FOUND]) { const r = chain.run(who, id, 'terminate_vesting', {}); if (ctx.bad) return; ctx.expect(r.ok === (who === FOUND && un > 0n), T, () => `terminate_vesting of ${id} by ${who}: ${r.ok}`); }
        ctx.hit('foundation of the created lockup probed');
      }
    },
  },
  F03: {
    wasm: 'multisig_factory', child: 'multisig2', method: 'create', min: 0n,
    check(w, x) {
      const a = x.args;
      rej(typeof a.name === 'string' && Array.isArray(a.members) && a.members.every((m) => (m.public_key && pk(m.public_key, w.keys)) || typeof m.account_id === 'string') && Number.isInteger(a.num_confirmations) && a.num_confirmations >= 0, 'malformed');
      rej(x.gas >= 50n * GAS_T, 'gas');
      rej(validAccountId(`${a.name}.${F}`), 'invalid name');
      return { id: `${a.name}.${F}`, init: { members: a.members, num_confirmations: a.num_confirmations } };
    },
    verify(w, id, c) {
      const { ctx, chain } = w, v = (m, z) => chain.get(id, m, z), T = ['F03'];
      ctx.eq(v('get_members').map((m) => JSON.stringify(m)).sort(), c.init.members.map((m) => JSON.stringify(m)).sort(), T, 'members'); ctx.eq(v('get_num_confirmations'), c.init.num_confirmations, T, 'threshold');
      ctx.eq(v('list_request_ids'), [], T, 'requests');
    },
  },
};
class Monitor {
  constructor(ctx, chain, kind) {
    Object.assign(this, { ctx, chain, kind, K: KINDS[kind], inited: false, names: new Set(), cbs: new Map(), spent: new Map(), pendingVerify: [], tips: 0n, asked: new Map(), wlAsked: new Set(), created: new Map() });
    chain.listeners.push((ev) => { if (!ctx.bad) this.onEvent(ev); });
  }
  onEvent(ev) {
    const { ctx, K } = this, rc = ev.rc;
    if (rc.actions.some((a) => a.method === 'is_whitelisted')) this.asked.set(rc.pred, rc.receiver);
    if (rc.receiver === F && rc.pred !== 'system' && rc.actions.some((a) => a.type === 'Transfer') && ev.ok) this.tips += rc.actions.reduce((t, a) => t + (a.type === 'Transfer' ? a.amount : 0n), 0n);
    if (rc.pred === F && rc.receiver !== F && rc.actions[0].type === 'CreateAccount') { // the creation itself: atomic
      const c = this.created.get(rc.id);
      if (!c) return;
      c.done = true; c.ok = ev.ok; c.why = ev.ok ? '' : ev.error.kind + (rc.actions[ev.error.action]?.type ?? 'storage'); ctx.hit(ev.ok ? 'account created' : `creation failed: ${ev.error.kind} at ${rc.actions[ev.error.action]?.type ?? 'storage'}`);
      if (ev.ok) this.pendingVerify.push([c.id, c]);
    }
    if (rc.receiver !== F || rc.actions[0].type !== 'FunctionCall') return;
    const a = rc.actions[0], cb = rc.pred === F ? this.cbs.get(rc.id) : undefined;
    if (ev.error?.kind === 'GasExceeded' && !cb && a.gas < 100n * GAS_T) { ctx.hit('out of gas'); return; }
    let want = [], why = null, next = null;
    const x = { pred: rc.pred, deposit: a.deposit, gas: a.gas, args: parse(a.args) ?? {} };
    try {
      if (cb) { this.cbs.delete(rc.id); want = this.callback(cb, ev.results[0]); } else if (a.method === 'new') { this.onNew(ev, x); return; } else {
        rej(a.method === K.method, 'not callable'); rej(this.inited || this.kind === 'F03', 'not initialized');
        next = K.check(this, x); next.deposit = x.deposit; next.by = rc.pred;
        // only the arguments, not the order of harmless actions, are prescribed
        want = [`${next.id}: CreateAccount | Deploy ${K.child} | Transfer ${x.deposit} | new ${canonJ(next.init)} 0`];
      }
    } catch (e) { if (!(e instanceof Reject)) throw e; why = e.message; }
    const depClass = x.deposit === 0n ? 0 : x.deposit < K.min ? '<' : x.deposit === K.min ? '=' : '>';
    ctx.saw(`${cb ? 'callback' : a.method}|${why ?? 'ok'}|${depClass}|${cb ? `${cb.ok}` : next ? (this.chain.acct(next.id) ? 'taken' : 'free') : '-'}|${Object.keys(x.args).filter((k) => x.args[k] !== null).sort().join()}|${x.args.vesting_schedule ? Object.keys(x.args.vesting_schedule)[0] : ''}|${Array.isArray(x.args.members) ? x.args.members.map((m) => Object.keys(m)[0][0]).sort().join('') + '/' + x.args.num_confirmations : ''}|${this.names.size}|${cb ? cb.why ?? '' : ''}`);
    ctx.hit(`${cb ? 'callback after ' + (cb.ok ? 'success' : 'failure') : a.method + ' ' + (why ?? 'ok')}`);
    ctx.note(`${rc.pred} ${a.method} ${a.args.toString().slice(0, 300)} +${a.deposit} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + ev.error.msg} (model ${why ?? 'ok'})`);
    if (!ctx.expect((why === null) === ev.ok, [this.kind], () => `${a.method} by ${rc.pred} with ${a.args.toString().slice(0, 400)} and ${a.deposit}: expected ${why ?? 'success'}, observed ${ev.ok ? 'success' : ev.error.kind + ' ' + ev.error.msg}`)) return;
    if (!ev.ok) { this.views(); return; }
    const eff = [], self = [];
    for (const r of ev.made) {
      if (r.receiver === F && r.actions.length === 1 && r.actions[0].type === 'FunctionCall') { self.push(r); continue; }
      eff.push(`${r.receiver}: ` + this.fmt(r.actions));
    }
    ctx.eq(eff.join(' ;; '), want.join(' ;; '), [this.kind], () => `receipts of ${cb ? 'the callback' : a.method}`);
    if (ctx.bad) return;
    if (next) {
      if (!ctx.expect(self.length === 1 && self[0].inputs.length === 1, [this.kind], 'the creation must be followed by exactly one callback')) return;
      const rcC = ev.made.find((r) => r.receiver === next.id);
      const c = { ...next, call: rc.tx };
      this.created.set(rcC.id, c); this.cbs.set(self[0].id, c); this.names.add(next.id); c.handle = rc.tx;
      if (ctx.samples.length < 2) ctx.sample({ creation: next.id, by: rc.pred, deposit: String(x.deposit), init: next.init, receipts: eff.map((e) => e.slice(0, 300)) });
      // whoever called learns how the creation ended, not merely that it was started
      if (!ctx.expect(ev.ret?.promise === self[0].id, [this.kind], `the outcome of ${a.method} is not that of the creation`)) return;
    } else {
      if (!ctx.expect(self.length === 0, [this.kind], 'unexpected call to itself')) return;
      if (cb) {
        const made = Buffer.isBuffer(ev.results[0]), told = this.kind === 'F01' && made ? ev.ret?.promise === ev.made[0]?.id : ev.ret?.toString() === String(made);
        ctx.hit(`creation reported as ${made ? 'done' : 'failed'}`);
        if (!ctx.expect(told, [this.kind], () => `a ${made ? 'successful' : 'failed'} creation was reported as ${Buffer.isBuffer(ev.ret) ? ev.ret.toString() : json(ev.ret)}`)) return;
      }
    }
    this.views();
  }
  fmt(actions) {
    const p = actions.map((z) => { switch (z.type) {
      case 'CreateAccount': return 'CreateAccount';
      case 'DeployContract': return 'Deploy ' + (z.code.equals(wasm(this.K.child)) ? this.K.child : `unknown code of ${z.code.length} bytes`);
      case 'Transfer': return `Transfer ${z.amount}`;
      case 'FunctionCall': return `${z.method} ${canonJ(parse(z.args))} ${z.deposit}`;
      default: return z.type; } });
    if (p[0] === 'CreateAccount' && actions[actions.length - 1].type === 'FunctionCall') return [p[0], ...p.slice(1, -1).sort(), p[p.length - 1]].join(' | ');
    return p.join(' | ');
  }
  callback(c, res) {
    const ok = Buffer.isBuffer(res);
    if (!ok) { this.names.delete(c.id); return [`${c.by}: Transfer ${c.deposit}`]; }
    this.spent.set(c.by, (this.spent.get(c.by) ?? 0n) + c.deposit);
    if (this.kind === 'F01') { c.whitelisting = true; return [`${WL}: add_staking_pool ${canonJ({ staking_pool_account_id: c.id })} 0`]; }
    return [];
  }
  onNew(ev, x) {
    const { ctx } = this, a = x.args;
    let ok = this.kind !== 'F03' && !this.inited && x.deposit === 0n;
    if (this.kind === 'F01') ok = ok && validAccountId(a.staking_pool_whitelist_account_id);
    if (this.kind === 'F02') ok = ok && validAccountId(a.whitelist_account_id ?? '') && validAccountId(a.foundation_account_id ?? '');
    ctx.hit(`new ${ok ? 'ok' : 'refused'}`); ctx.saw(`new|${ok}|${this.inited}`);
    ctx.expect(ev.ok === ok, [this.kind], () => `new(${json(a)}) ${ev.ok ? 'accepted' : 'refused ' + ev.error.msg}, expected ${ok}`);
    if (ev.ok && ok) this.inited = true;
  }
  views() {
    const { ctx, chain } = this; if (!this.inited) return;
    if (this.kind === 'F01') { ctx.eq(chain.get(F, 'get_number_of_staking_pools_created'), this.names.size, ['F01'], 'number of pools created'); ctx.eq(chain.get(F, 'get_min_attached_balance'), 30n * ONE, ['F01'], 'minimum'); }
    if (this.kind === 'F02') { ctx.eq(chain.get(F, 'get_foundation_account_id'), FOUND, ['F02'], 'foundation'); ctx.eq(chain.get(F, 'get_min_attached_balance'), 35n * ONE / 10n, ['F02'], 'minimum'); ctx.eq(chain.get(F, 'get_lockup_master_account_id'), F, ['F02'], 'master account'); }
  }
  // At rest: created accounts are right, and the ledger is: nobody paid but for what was created, the factory kept nothing.
  atIdle(start, factoryStart) {
    const { ctx, chain } = this; if (ctx.bad) return;
    const T = [this.kind];
    ctx.eq(this.cbs.size, 0, T, 'creations without an outcome');
    ctx.eq(chain.acct(F).amount, factoryStart + this.tips, T, 'balance of the factory at rest');
    for (const [u, b] of start) ctx.eq(chain.acct(u).amount, b - (this.spent.get(u) ?? 0n) - (this.other?.get(u) ?? 0n), T, () => `balance of ${u} at rest`);
    if (ctx.bad) return;
    for (const [id, c] of this.pendingVerify.splice(0)) {
      const acc = chain.acct(id);
      if (!ctx.expect(acc && acc.code && acc.code.size === wasm(this.K.child).length, T, () => `${id} does not run the bundled contract`)) return;
      ctx.eq(acc.amount + acc.locked, c.deposit, T, () => `tokens in ${id}`);
      const ks = [...acc.keys].map(([k, p]) => [k, p.full ? 'full' : p.receiver + ':' + p.methods.slice().sort().join()]);
      const wantK = this.kind === 'F03' ? c.init.members.filter((m) => m.public_key).map((m) => [this.keys.get(m.public_key), id + ':' + METHODS.slice().sort().join()]) : [];
      // known finding: what was attached paid for the wallet but not for its members' keys
      if (!ks.length && wantK.length && this.unaffordable.has(id)) { ctx.fail(T, `${id} was created with ${c.deposit} attached and its members' keys could not be paid for: it has none of its ${wantK.length} access keys`, 'multisig2-keys-not-affordable'); return; }
      ctx.eq(ks.map(String).sort(), wantK.map(String).sort(), T, () => `access keys of ${id}`);
      if (ctx.bad) return;
      ctx.hit('created account verified');
      const was = this.other ?? new Map();
      this.K.verify(this, id, c);
      void was;
      if (ctx.bad) return;
    }
    if (this.wl) for (const n of this.everNames) { const w = chain.get(WL, 'is_whitelisted', { staking_pool_account_id: n }); if (w) { ctx.hit('whitelisted'); ctx.expect(this.names.has(n) && chain.acct(n)?.code?.size === wasm('staking_pool').length, T, () => `${n} is whitelisted although it was not created`); } else if (this.names.has(n) && !this.wlFaulty) ctx.fail(T, `${n} was created but is not whitelisted`); }
  }
}
export async function scenario(ctx) {
  const kind = ctx.prop[0] === 'F' ? ctx.prop : ctx.rng.pick(['F01', 'F02', 'F03']), K = KINDS[kind];
  const rng = ctx.rng, chain = new Chain(rng, { timestamp: 1_650_000_000_000_000_000n, storageCheck: true });
  ctx.chain = chain;
  const h = implicit(rng), odd = rng.chance(0.35) ? [h, h.slice(0, 63) + (h[63] === '0' ? '1' : '0'), 'zq', 'w' + '-long_name'.repeat(6) + '.n'] : []; // callers and owners with names of other shapes
  if (odd.length) ctx.hit('owners with names of every shape');
  const users = ['alice.near', 'bob.near', 'eve.near', ...odd.slice(1, 3)], start = new Map();
  for (const u of users) { chain.createAccount(u, 100_000_000n * ONE, { code: forwarder() }); start.set(u, 100_000_000n * ONE); }
  chain.forward = { p: rng.pick([0, 0.2, 0.5]), via: users, by: users };
  chain.createAccount(FOUND, 100n * ONE);
  const fStart = rng.pick([50n, 5000n]) * ONE + rng.big(ONE);
  chain.createAccount(F, fStart, { code: wasm(K.wasm) });
  const mon = new Monitor(ctx, chain, kind);
  mon.keys = new Map(['k1', 'k2', 'k3', 'k4'].map((k) => (kind === 'F03' && k === 'k2' ? pkSecp : pkOf)(k)).map((k) => [pk58(k), k]));
  mon.everNames = new Set();
  mon.unaffordable = new Set();
  chain.listeners.push((ev) => { if (!ev.ok && ev.error.kind === 'LackBalanceForState' && ev.rc.pred === ev.rc.receiver && ev.rc.actions.every((x) => x.type === 'AddKey')) mon.unaffordable.add(ev.rc.receiver); });
  if (kind === 'F01') {
    mon.wlFaulty = rng.chance(0.3);
    if (mon.wlFaulty && rng.chance(0.5)) chain.createAccount(WL, 10n * ONE, { code: jsContract((api) => { if (rng.chance(0.4)) throw new Error('no'); return rng.pick([true, false, null]); }) });
    else { chain.createAccount(WL, 20n * ONE, { code: wasm('whitelist') }); chain.run(FOUND, WL, 'new', { foundation_account_id: FOUND }); if (!mon.wlFaulty || rng.chance(0.5)) chain.run(FOUND, WL, 'add_factory', { factory_account_id: F }); mon.wl = true; }
  } else if (kind === 'F02') for (const w of [WL, 'whitelist2.near']) chain.createAccount(w, 10n * ONE, { code: jsContract(() => false) });
  // ---- initialization ----
  const initArgs = (o) => (kind === 'F01' ? { staking_pool_whitelist_account_id: WL, ...o } : { whitelist_account_id: WL, foundation_account_id: FOUND, ...o });
  const create = (who, a, d, gas = 300n * GAS_T) => chain.call(who, F, K.method, a, { deposit: d, gas });
  const busy = rng.chance(0.012); // a factory that has made many
  if (busy) ctx.hit('a factory with dozens of creations');
  const names = ['pool', 'p-1', 'a', 'x_y', 'taken', ...(busy ? Array.from({ length: 60 }, (_, i) => `n${i}`) : [])];
  const owners = ['alice.near', 'bob.near', 'eve.near', 'carol.near', ...odd];
  const big = kind === 'F03' && rng.chance(0.03) ? rng.range(7, 50) : 0; // wallets with many members
  for (let i = 0; i < big; i++) { const k = pkOf('m' + i); mon.keys.set(pk58(k), k); }
  const DAY = 86_400_000_000_000n, t = () => (1_602_614_338_293_769_340n + (rng.chance(0.5) ? 1n : -1n) * BigInt(rng.range(0, 1500)) * DAY);
  const keyS = () => rng.pick([...mon.keys.keys()]);
  const gen = {
    F01: () => ({ staking_pool_id: rng.weighted([[8, rng.pick(names)], [1, rng.pick(['a.b', '', 'UP', '-x', 'a'.repeat(60), 'ok.' + F, 'x--y', 'p'.repeat(52), 'p'.repeat(53)])]]), owner_id: rng.weighted([[8, rng.pick(owners)], [0.7, rng.pick(['', 'Bad', 'x', 'a..b'])]]), stake_public_key: rng.chance(0.97) ? keyS() : rng.pick(['ed25519:xyz', '', 'secp256k1:abc', 5]),
      reward_fee_fraction: rng.weighted([[8, rng.pick([{ numerator: 0, denominator: 1 }, { numerator: 10, denominator: 100 }, { numerator: 1, denominator: 1 }, { numerator: 4294967295, denominator: 4294967295 }])], [1, rng.pick([{ numerator: 2, denominator: 1 }, { numerator: 0, denominator: 0 }, { numerator: 1, denominator: 4294967296 }, { numerator: -1, denominator: 2 }])]]) }),
    F02: () => { const s = t(), len = BigInt(rng.range(1, 2000)) * DAY; const a = {
      owner_account_id: rng.weighted([[8, rng.pick(owners)], [0.7, rng.pick(['', 'Bad', 'x', 'a..b'])]]), lockup_duration: rng.weighted([[3, '0'], [5, (BigInt(rng.range(0, 900)) * DAY).toString()], [0.3, '18446744073709551615'], [0.3, '-1'], [0.2, '18446744073709551616']]) };
      if (rng.chance(0.6)) a.lockup_timestamp = rng.pick([null, t().toString(), '0', '18446744073709551615']);
      if (rng.chance(0.6)) a.release_duration = rng.pick([null, (BigInt(rng.range(1, 1500)) * DAY).toString(), '0', '1']);
      if (rng.chance(0.6)) a.vesting_schedule = rng.weighted([[1, null], [3, { VestingSchedule: { start_timestamp: s.toString(), cliff_timestamp: (s + rng.big(len + 1n)).toString(), end_timestamp: (s + len).toString() } }], [0.6, { VestingSchedule: { start_timestamp: s.toString(), cliff_timestamp: (s + len + 1n).toString(), end_timestamp: (s + len).toString() } }], [2, { VestingHash: crypto.createHash('sha256').update(String(s)).digest('base64') }]]);
      if (rng.chance(0.4)) a.whitelist_account_id = rng.pick([null, 'whitelist2.near', WL, 'Bad Id']);
      return a; },
    F03: () => ({ name: rng.weighted([[8, rng.pick(names)], [1, rng.pick(['a.b', '', 'UP', '-x', 'a'.repeat(60), 'b.' + F])]]), members: rng.shuffle([...mon.keys.keys()].slice(0, big ? rng.range(3, big) : rng.range(0, 3)).map((k) => ({ public_key: k })).concat(rng.shuffle([...owners, ...Array.from({ length: big }, (_, i) => `m${i}.near`)]).slice(0, rng.range(0, big || 3)).map((o) => ({ account_id: o }))).concat(rng.chance(0.1) ? [{ account_id: 'alice.near' }] : [])),
      num_confirmations: rng.weighted([[6, rng.range(1, 3)], [1, 0], [1, rng.range(4, big || 9)], [0.3, 4294967296], [0.2, -1]]) }),
  }[kind];
  const deposit = () => rng.weighted([[5, K.min + rng.big(100n * ONE)], [3, K.min > 0n ? K.min : 5n * ONE], [1.5, K.min > 0n ? K.min - 1n : ONE], [0.5, 0n], [1.5, 40n * ONE], [0.5, 3n * ONE], [0.7, 100n * ONE + rng.big(10n ** 7n * ONE)], ...(kind === 'F03' ? [[0.4, BigInt(wasm(K.child).length) * ONE / 100_000n + 4n * ONE / 1000n + rng.big(ONE / 100n)]] : [])]);
  if (kind !== 'F03') {
    if (rng.chance(0.2)) { create('alice.near', gen(), K.min); chain.drain(); if (ctx.bad) return; }
    if (rng.chance(0.2)) { chain.run('eve.near', F, 'new', initArgs(kind === 'F01' ? { staking_pool_whitelist_account_id: 'Bad' } : { foundation_account_id: 'Bad Id' })); if (ctx.bad) return; }
    chain.run('eve.near', F, 'new', initArgs()); if (ctx.bad || !mon.inited) return;
    if (rng.chance(0.3)) { chain.run('eve.near', F, 'new', initArgs({ staking_pool_whitelist_account_id: 'eve.near', whitelist_account_id: 'eve.near', foundation_account_id: 'eve.near' })); if (ctx.bad) return; }
  } else mon.inited = true;
  for (const u of owners) if (!chain.acct(u)) { chain.createAccount(u, 10n * ONE); }
  // somebody else's account already sits at a name
  if (rng.chance(0.5)) chain.createAccount(kind === 'F02' ? crypto.createHash('sha256').update('carol.near').digest('hex').slice(0, 40) + '.' + F : 'taken.' + F, 7n * ONE, { keys: [pkOf('other')] });
  const p = rng.pick([0, 0.15, 0.4]);
  chain.fault = (rc, a) => {
    if (rc.pred === F && rc.receiver.endsWith('.' + F) && rng.chance(p / 3)) return 'Injected';
    if (mon.wlFaulty && rc.pred === F && rc.receiver === WL && rng.chance(0.3)) return 'Injected';
    return null;
  };
  // what a caller does to the created account spends nothing of the caller
  const cbName = { F01: 'on_staking_pool_create', F02: 'on_lockup_create', F03: 'on_multisig_create' }[kind];
  const steps = busy ? rng.range(60, 110) : rng.range(6, 22);
  for (let i = 0; i < steps && !ctx.bad; i++) {
    const u = rng.pick(users);
    rng.weighted([
      [10, () => { const a = gen(); if (kind === 'F01' && validAccountId(`${a.staking_pool_id}.${F}`)) mon.everNames.add(`${a.staking_pool_id}.${F}`); create(u, a, deposit()); if (rng.chance(0.25)) create(rng.pick(users), rng.chance(0.5) ? a : gen(), deposit()); }],
      [1, () => { const a = gen(); chain.call(u, F, cbName, kind === 'F01' ? { staking_pool_account_id: 'evil.near', attached_deposit: ONE.toString(), predecessor_account_id: u } : kind === 'F02' ? { lockup_account_id: 'evil.near', attached_deposit: ONE.toString(), predecessor_account_id: u } : { attached_deposit: ONE.toString(), predecessor_account_id: u }); void a; }],
      [0.3, () => create(u, rng.pick([{}, { x: 1 }, 'not json', { name: 5 }]), K.min)],
      [0.3, () => chain.call(u, F, rng.pick(['whitelist_staking_pool', 'internal_create', 'set_foundation']), {})],
    ])();
    if (ctx.bad) return;
    if (rng.chance(0.6)) { chain.drain(); mon.atIdle(start, fStart); } else for (let k = rng.int(4); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
  }
  if (ctx.bad) return;
  chain.drain(); mon.atIdle(start, fStart);
}
