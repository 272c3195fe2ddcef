// Lockup: event-driven reference model of the contract, judged on every receipt it executes, in a world
// with the real whitelist, real staking pools (with rewards and epochs), a poll, and failing counterparties.
import crypto from 'crypto';
import { Chain, pkOf, pkSecp, pk58, json, jsContract, forwarder } from '../lib/chain.mjs';
import { ONE, GAS_T, validAccountId } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';

let OWNER = 'owner.near', FOUND = 'foundation.near'; // renamed per scenario
const L = 'lockup.near', WL = 'whitelist.near', POLL = 'poll.near';
let POOLS = ['pool1.near', 'pool2.near'], EVIL = 'evilpool.near';
const LIAR = 'liarpool.near';
const RESERVE = 3_500_000_000_000_000_000_000_000n;
const U64 = (1n << 64n) - 1n;
const sat = (a, b) => (a > b ? a - b : 0n);
const min = (a, b) => (a < b ? a : b), max = (a, b) => (a > b ? a : b);
const satAdd = (a, b) => min(a + b, U64);
const DAY = 86_400_000_000_000n;

export const meta = {
  rule: { '*': 'Evaluations: receipts the lockup WASM executed (calls and callbacks), compared with the reference model (outcome, receipts promised, every view). Distinct: (method or callback, outcome reason, caller role, pool state, termination status, vesting kind, schedule phase, promise result class) tuples.' },
  assumptions: ['a private (hashed) vesting schedule is covered by the lockup schedule, as the contract assumes', 'a whitelisted pool is an honest staking pool whose calls may fail', 'lib/chain.mjs reproduces NEAR receipt and refund rules; gas price is zero'],
};
class Reject extends Error { constructor(why, tags) { super(why); this.tags = tags; } }
const rej = (c, why, ...tags) => { if (!c) throw new Reject(why, tags); };
const fmtSched = (s) => ({ start_timestamp: s.start.toString(), cliff_timestamp: s.cliff.toString(), end_timestamp: s.end.toString() });
const u64le = (v) => { const b = Buffer.alloc(8); b.writeBigUInt64LE(v); return b; };
const hashOf = (s, salt) => { const l = Buffer.alloc(4); l.writeUInt32LE(salt.length); return crypto.createHash('sha256').update(Buffer.concat([u64le(s.start), u64le(s.cliff), u64le(s.end), l, salt])).digest('base64'); };
const parseSched = (o) => { try { const g = (k) => { if (typeof o[k] !== 'string' || !/^\d+$/.test(o[k])) throw 0; return BigInt(o[k]); }; return { start: g('start_timestamp'), cliff: g('cliff_timestamp'), end: g('end_timestamp') }; } catch { return null; } };
const schedOk = (s) => s.start <= s.cliff && s.cliff <= s.end && s.start < s.end;
const amt = (v) => { rej(typeof v === 'string' && /^\d+$/.test(v) && BigInt(v) < 1n << 128n, 'malformed', 'L04'); return BigInt(v); };

export class LockupModel {
  clone() { const m = new LockupModel(); Object.assign(m, this); m.vest = { ...this.vest }; m.pool = this.pool && { ...this.pool }; return m; }
  unvestedOf(s, now) { return now < s.cliff ? this.A : now >= s.end ? 0n : (this.A * (s.end - now)) / (s.end - s.start); }
  unvested(s, now) { return this.vest.kind === 'term' ? this.vest.amount : this.vest.kind === 'none' ? 0n : this.unvestedOf(s, now); }
  get start() { return this.transfers === null ? null : max(satAdd(this.transfers, this.dur), this.lockTs ?? 0n); }
  locked(now) {
    const st = this.start;
    if (st === null || now < st) return this.A - this.withdrawn;
    let unrel = 0n;
    if (this.rel !== null) { const end = satAdd(st, this.rel); if (now < end) unrel = (this.A * (end - now)) / this.rel; }
    const unv = this.vest.kind === 'sched' ? this.unvestedOf(this.vest.s, now) : this.vest.kind === 'term' ? this.vest.amount : 0n;
    return max(sat(unrel, this.withdrawn), unv);
  }
  known() { return this.pool ? this.pool.known : 0n; }
  owners(bal, now) { return sat(bal + this.known(), this.locked(now)); }
  liquid(bal, now) { return min(this.owners(bal, now), sat(bal, RESERVE)); }
  // ---- preconditions ----
  owner(x) { rej(x.pred === this.ownerId, 'not the owner', 'L05', ...(x.method === 'transfer' ? ['L01'] : [])); }
  found(x) { rej(this.foundation !== null && x.pred === this.foundation, 'not the foundation', 'L03', 'L05', ...(x.method === 'termination_withdraw' ? ['L01'] : [])); }
  noTerm() { rej(this.vest.kind !== 'term', 'termination in progress', 'L03', 'L01'); }
  idle(x) {
    if (this.pool?.busy === 'stuck') { x.unstick = true; this.pool.busy = false; }
    rej(!this.pool?.busy, 'busy', 'L04');
  }
  poolIdle(x) { rej(this.pool, 'no pool selected', 'L04', 'L06'); this.idle(x); }
  toPool(x, method, args, deposit, cb) { x.effects.push(`${this.pool.id} ${method} ${json(args)} ${deposit}`); x.cb = cb; this.pool.busy = true; }
}
const ME = { account_id: L };
const poolOp = (m, x, positive = true) => { m.owner(x); const a = positive ? amt(x.args.amount) : null; if (positive) rej(a > 0n, 'zero amount', 'L04'); m.poolIdle(x); m.noTerm(); return a; };
const DIRECT = {
  select_staking_pool(m, x) {
    m.owner(x); const id = x.args.staking_pool_account_id; rej(typeof id === 'string' && validAccountId(id), 'invalid pool id', 'L06');
    rej(!m.pool, 'a pool is already selected', 'L06'); m.noTerm();
    x.effects.push(`${m.wl} is_whitelisted ${json({ staking_pool_account_id: id })} 0`); x.cb = { op: 'select', id };
  },
  unselect_staking_pool(m, x) { m.owner(x); rej(m.pool, 'no pool selected', 'L06'); m.idle(x); m.noTerm(); rej(m.pool.known === 0n, 'deposit left at the pool', 'L06'); m.pool = null; },
  deposit_to_staking_pool(m, x) { const a = poolOp(m, x); rej(sat(x.balance, RESERVE) >= a, 'deposit above the balance', 'L01', 'L04'); m.toPool(x, 'deposit', {}, a, { op: 'deposit', a }); },
  deposit_and_stake(m, x) { const a = poolOp(m, x); rej(sat(x.balance, RESERVE) >= a, 'deposit above the balance', 'L01', 'L04'); m.toPool(x, 'deposit_and_stake', {}, a, { op: 'deposit', a }); },
  refresh_staking_pool_balance(m, x) { poolOp(m, x, false); m.toPool(x, 'get_account_total_balance', ME, 0, { op: 'refresh' }); },
  withdraw_from_staking_pool(m, x) { const a = poolOp(m, x); m.toPool(x, 'withdraw', { amount: a.toString() }, 0, { op: 'withdraw', a }); },
  withdraw_all_from_staking_pool(m, x) { poolOp(m, x, false); m.toPool(x, 'get_account_unstaked_balance', ME, 0, { op: 'withdraw_all' }); },
  stake(m, x) { const a = poolOp(m, x); m.toPool(x, 'stake', { amount: a.toString() }, 0, { op: 'plain' }); },
  unstake(m, x) { const a = poolOp(m, x); m.toPool(x, 'unstake', { amount: a.toString() }, 0, { op: 'plain' }); },
  unstake_all(m, x) { poolOp(m, x, false); m.toPool(x, 'unstake_all', {}, 0, { op: 'plain' }); },
  check_transfers_vote(m, x) { m.owner(x); rej(m.transfers === null, 'transfers already enabled', 'L06'); m.noTerm(); x.effects.push(`${m.poll} get_result {} 0`); x.cb = { op: 'poll' }; },
  transfer(m, x) {
    m.owner(x); const a = amt(x.args.amount); rej(a > 0n, 'zero amount', 'L01'); rej(typeof x.args.receiver_id === 'string' && validAccountId(x.args.receiver_id), 'invalid receiver', 'L01');
    rej(m.transfers !== null, 'transfers disabled', 'L01', 'L06'); m.idle(x); m.noTerm(); rej(m.liquid(x.balance, x.now) >= a, 'above the liquid balance', 'L01', 'L02');
    x.effects.push(`${x.args.receiver_id} Transfer ${a}`);
  },
  add_full_access_key(m, x) {
    m.owner(x); rej(m.transfers !== null, 'transfers disabled', 'L05'); m.idle(x); rej(m.vest.kind !== 'term', 'termination in progress', 'L05', 'L03'); rej(m.locked(x.now) === 0n, 'tokens still locked', 'L05', 'L02');
    x.effects.push(`self AddKey ${x.args.new_public_key} full`);
  },
  terminate_vesting(m, x) {
    m.found(x); const w = x.args.vesting_schedule_with_salt ?? null; let s;
    rej(m.vest.kind !== 'none' && m.vest.kind !== 'term', 'nothing to terminate', 'L03');
    if (m.vest.kind === 'sched') { rej(w === null, 'schedule is public', 'L03'); s = m.vest.s; } else {
      rej(w !== null, 'schedule missing', 'L03'); s = parseSched(w.vesting_schedule);
      rej(s && hashOf(s, Buffer.from(w.salt, 'base64')) === m.vest.hash, 'schedule does not match the hash', 'L03');
    }
    const u = m.unvestedOf(s, x.now); rej(u > 0n, 'fully vested', 'L03');
    x.hadHash = m.vest.kind === 'hash';
    m.vest = { kind: 'term', amount: u, total: u, status: u > sat(x.balance, RESERVE) && m.pool ? 'VestingTerminatedWithDeficit' : 'ReadyToWithdraw' };
  },
  termination_prepare_to_withdraw(m, x) {
    m.found(x); m.poolIdle(x); rej(m.vest.kind === 'term', 'no termination', 'L03');
    if (m.vest.status === 'VestingTerminatedWithDeficit') { m.vest.status = 'UnstakingInProgress'; m.toPool(x, 'get_account_staked_balance', ME, 0, { op: 'tstaked' }); }
    else if (m.vest.status === 'EverythingUnstaked') { m.vest.status = 'WithdrawingFromStakingPoolInProgress'; m.toPool(x, 'get_account_unstaked_balance', ME, 0, { op: 'tunstaked' }); }
    else rej(false, 'nothing to prepare: ' + m.vest.status, 'L03');
  },
  termination_withdraw(m, x) {
    m.found(x); rej(typeof x.args.receiver_id === 'string' && validAccountId(x.args.receiver_id), 'invalid receiver', 'L03');
    rej(m.vest.kind === 'term' && m.vest.status === 'ReadyToWithdraw', 'not ready to withdraw', 'L03', 'L01');
    const a = min(m.vest.amount, sat(x.balance, RESERVE)); rej(a > 0n, 'nothing available', 'L03');
    m.vest.status = 'WithdrawingFromAccountInProgress'; x.effects.push(`${x.args.receiver_id} Transfer ${a}`); x.cb = { op: 'pay', a };
  },
};
// Owner and foundation operations that wait for a promise finish here, whatever its result.
function callback(m, x, cb, res) {
  const ok = Buffer.isBuffer(res);
  const val = () => { if (!ok) return null; try { const v = JSON.parse(res.toString()); return typeof v === 'string' && /^\d+$/.test(v) ? BigInt(v) : null; } catch { return null; } };
  const chain2 = (method, args, next) => { x.effects.push(`${m.pool.id} ${method} ${json(args)} 0`); x.cb = next; };
  switch (cb.op) {
    case 'select': { let v = null; try { v = ok ? JSON.parse(res.toString()) : null; } catch { /* garbage */ } rej(v === true, 'pool not whitelisted', 'L06'); rej(!m.pool, 'a pool was selected meanwhile', 'L06'); m.noTerm(); m.pool = { id: cb.id, busy: false, known: 0n }; break; }
    case 'deposit': m.pool.busy = false; if (ok) m.pool.known += cb.a; break;
    case 'withdraw': m.pool.busy = false; if (ok) m.pool.known = sat(m.pool.known, cb.a); break;
    case 'plain': m.pool.busy = false; break;
    case 'poll': {
      let v; try { v = ok ? JSON.parse(res.toString()) : undefined; } catch { v = undefined; }
      rej(v === null || (typeof v === 'string' && /^\d+$/.test(v) && BigInt(v) <= U64), 'poll gave no answer', 'L06'); rej(m.transfers === null, 'transfers enabled meanwhile', 'L06');
      if (v !== null) m.transfers = BigInt(v); break;
    }
    case 'refresh': { const v = val(); if (v === null) { x.stuck = 'owner-query-failed'; m.pool.busy = 'stuck'; break; } m.pool.known = v; m.pool.busy = false; break; }
    case 'withdraw_all': { const v = val(); if (v === null) { x.stuck = 'owner-query-failed'; m.pool.busy = 'stuck'; break; } if (v > 0n) chain2('withdraw', { amount: v.toString() }, { op: 'withdraw', a: v }); else m.pool.busy = false; break; }
    case 'tstaked': { const v = val(); if (v === null) { x.stuck = 'termination-query-failed'; break; } if (v > 0n) chain2('unstake', { amount: v.toString() }, { op: 'tunstake' }); else { m.pool.busy = false; m.vest.status = 'EverythingUnstaked'; } break; }
    case 'tunstake': m.pool.busy = false; m.vest.status = ok ? 'EverythingUnstaked' : 'VestingTerminatedWithDeficit'; break;
    case 'tunstaked': { const v = val(); if (v === null) { x.stuck = 'termination-query-failed'; break; } if (v > 0n) chain2('withdraw', { amount: v.toString() }, { op: 'twithdraw', a: v }); else { m.pool.busy = false; m.vest.status = 'ReadyToWithdraw'; } break; }
    case 'twithdraw': m.pool.busy = false; m.vest.status = ok ? 'ReadyToWithdraw' : 'EverythingUnstaked'; if (ok) m.pool.known = sat(m.pool.known, cb.a); break;
    case 'pay':
      if (!ok) { m.vest.status = 'ReadyToWithdraw'; break; }
      m.withdrawn += cb.a; m.paid += cb.a;
      if (m.vest.amount > cb.a) { m.vest.amount -= cb.a; m.vest.status = 'ReadyToWithdraw'; } else { m.vest = { kind: 'none' }; m.foundation = null; x.completed = true; }
      break;
  }
}
const CBTAGS = { select: 'L06', deposit: 'L04 L01', withdraw: 'L04 L01', plain: 'L04', poll: 'L06', refresh: 'L04 L01', withdraw_all: 'L04 L01', tstaked: 'L03 L04', tunstake: 'L03 L04', tunstaked: 'L03 L04', twithdraw: 'L03 L04 L01', pay: 'L03 L01' };
const OKTAGS = {
  select_staking_pool: 'L06', unselect_staking_pool: 'L06 L04', deposit_to_staking_pool: 'L04', deposit_and_stake: 'L04', refresh_staking_pool_balance: 'L04', withdraw_from_staking_pool: 'L04', withdraw_all_from_staking_pool: 'L04',
  stake: 'L04', unstake: 'L04', unstake_all: 'L04', check_transfers_vote: 'L06', transfer: 'L01 L02', add_full_access_key: 'L05', terminate_vesting: 'L03 L02', termination_prepare_to_withdraw: 'L03 L04', termination_withdraw: 'L03 L01',
};
const canonArgs = (buf) => { try { return json(JSON.parse(buf.toString() || '{}')); } catch { return '<' + buf.toString('hex') + '>'; } };

export class LockupMonitor {
  constructor(ctx, chain, getters = {}) {
    Object.assign(this, { ctx, chain, model: null, cbs: new Map(), keys: new Set(), paid: 0n, foundationPaid: new Map(), getters, touched: 0, schedules: [] });
    chain.listeners.push((ev) => { if (ev.rc.receiver === L && !ctx.bad) this.onEvent(ev); });
  }
  onEvent(ev) {
    const { ctx } = this, rc = ev.rc;
    if (rc.actions.length === 1 && rc.actions[0].type === 'AddKey') { if (ev.ok) this.keys.add(rc.actions[0].pk); ctx.hit('full access key action'); return; }
    if (rc.refund || rc.actions[0].type === 'Transfer') { ctx.hit(rc.refund ? 'refund received' : 'transfer received'); return; }
    if (rc.actions.length === 1 && rc.actions[0].type === 'FunctionCall') this.onCall(ev, rc, rc.actions[0]);
  }
  phase(m, now) {
    const st = m.start; if (st === null) return 'T'; if (now < st) return 'B';
    return m.rel !== null && now < satAdd(st, m.rel) ? 'R' : 'F';
  }
  onCall(ev, rc, a) {
    const { ctx } = this;
    let args = {}; try { args = JSON.parse(a.args.toString() || '{}') ?? {}; } catch { args = {}; }
    if (a.method === 'new') return this.onNew(ev, rc, a, args);
    if (!this.model) { ctx.expect(!ev.ok, ['L05'], () => `${a.method} accepted before initialization`); return; }
    const x = { pred: rc.pred, method: a.method, args, now: ev.timestamp, balance: ev.before + a.deposit, effects: [], cb: null };
    const next = this.model.clone(), cb = rc.pred === L && rc.parent !== null ? this.cbs.get(rc.id) : undefined;
    this.cbs.delete(rc.id);
    let why = null, tags = [];
    const before = this.model;
    try {
      if (cb) callback(next, x, cb, ev.results[0]);
      else {
        rej(DIRECT[a.method], 'not callable', 'L05', ...(/unvested|termination|unstake_for/.test(a.method) ? ['L03'] : /deposit|withdraw/.test(a.method) ? ['L04'] : /whitelist|poll/.test(a.method) ? ['L06'] : []));
        rej(a.deposit === 0n, 'deposit on a non-payable method', 'L05');
        DIRECT[a.method](next, x);
      }
    } catch (e) { if (!(e instanceof Reject)) throw e; why = e.message; tags = e.tags; }
    const what = cb ? `callback of ${cb.op}` : a.method;
    const role = cb ? 'callback' : rc.pred === before.ownerId ? 'owner' : rc.pred === before.foundation ? 'foundation' : 'stranger';
    const vs = before.vest.kind === 'term' ? before.vest.status : before.vest.kind;
    ctx.saw(`${what}|${why ?? 'ok'}|${role}|${before.pool ? (before.pool.busy ? 'busy' : 'idle') + (before.pool.known > 0n ? '+' : '0') : 'nopool'}|${vs}|${this.phase(before, x.now)}|${cb ? (ev.results[0] === null ? 'F' : 'S') : ''}|w${before.withdrawn > 0n ? 1 : 0}`);
    ctx.hit(`${what} ${why === null ? (cb && ev.results[0] === null ? 'ok after a failed promise' : 'ok') : why}`);
    ctx.note(`${rc.pred} ${cb ? '[cb ' + cb.op + '] ' : ''}${a.method} ${a.args.toString().slice(0, 200)} at ${ev.timestamp} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + String(ev.error.msg).slice(0, 100)} (model: ${why ?? 'ok'}) bal=${ev.before} known=${before.known()} ${vs}`);
    if (x.unstick && !ev.ok && why === null) { ctx.fail(['L04'], `after a failed balance query the lockup stays busy: ${a.method} fails with ${ev.error.msg}`, 'owner-query-failed'); return; }
    if (x.stuck && x.stuck !== 'owner-query-failed') {
      // the process must be drivable on: the in-progress status may not survive the failed query
      const s = this.chain.get(L, 'get_termination_status');
      ctx.hit('termination query failed');
      if (s === before.vest.status) { ctx.fail(['L03', 'L04'], `a failed balance query leaves the termination in ${s} for good`, 'termination-query-failed'); return; }
      next.vest.status = cb.op === 'tstaked' ? 'VestingTerminatedWithDeficit' : 'EverythingUnstaked'; next.pool.busy = false; this.model = next; this.compare(ev, what, before); return;
    }
    if (x.stuck) { ctx.hit('owner query failed'); this.model = next; return; }
    if ((why === null) !== ev.ok) {
      const t = [...new Set([...((cb ? CBTAGS[cb.op] : OKTAGS[a.method]) ?? '').split(' '), ...tags])].filter(Boolean);
      ctx.fail(t, `${what} by ${rc.pred} (${role}) with ${a.args.toString().slice(0, 300)} at ${ev.timestamp}: expected ${why === null ? 'success' : 'rejection (' + why + ')'}, the contract ${ev.ok ? 'accepted it' : 'failed with ' + ev.error.kind + ' ' + ev.error.msg}`);
      return;
    }
    if (!ev.ok) { this.compare(ev, what, before); return; }
    // ---- receipts promised ----
    const eff = []; let cbReceipts = [];
    for (const r of ev.made) for (const z of r.actions) {
      if (r.receiver === L && z.type === 'FunctionCall') { cbReceipts.push(r); continue; }
      const to = r.receiver === L && z.type === 'AddKey' ? 'self' : r.receiver;
      if (z.type === 'Transfer') eff.push(`${to} Transfer ${z.amount}`);
      else if (z.type === 'FunctionCall') eff.push(`${to} ${z.method} ${canonArgs(z.args)} ${z.deposit}`);
      else if (z.type === 'AddKey') eff.push(`${to} AddKey ${pk58(z.pk)} ${z.perm.full ? 'full' : 'restricted'}`);
      else eff.push(`${to} ${z.type}`);
    }
    if (eff.join('|') !== x.effects.join('|')) {
      const t = new Set(cb ? CBTAGS[cb.op].split(' ') : OKTAGS[a.method]?.split(' ') ?? ['L05']);
      for (const e of [...eff, ...x.effects]) { if (/ Transfer /.test(e)) t.add('L01'); if (/AddKey|Deploy|Delete/.test(e)) t.add('L05'); if (/is_whitelisted|get_result/.test(e)) t.add('L06'); if (before.pool && e.startsWith('pool') !== true && / (deposit|stake|unstake|withdraw)/.test(e)) t.add('L06'); if (/ (deposit|withdraw)/.test(e)) { t.add('L04'); t.add('L01'); } }
      ctx.fail([...t], `${what} by ${rc.pred} promised [${eff.join(' | ').slice(0, 500)}], expected [${x.effects.join(' | ').slice(0, 500)}]`);
      return;
    }
    const good = x.cb ? cbReceipts.length === 1 && cbReceipts[0].inputs.length === 1 : cbReceipts.length === 0;
    if (!ctx.expect(good, cb ? CBTAGS[cb.op] : OKTAGS[a.method] ?? 'L04', () => `${what}: ${cbReceipts.length} calls to itself promised (waiting for ${cbReceipts.map((r) => r.inputs.length)} results), expected ${x.cb ? 1 : 0}`)) return;
    // what the caller is told: the outcome of the operation, not merely that it was started
    if (x.cb) { if (!ctx.expect(ev.ret?.promise === cbReceipts[0].id, (cb ? CBTAGS[cb.op] : OKTAGS[a.method]) + ' L04', () => `the outcome of ${what} is not that of the operation it started`)) return; }
    else if (cb && cb.op !== 'refresh') {
      const told = ev.ret?.toString(), want = String(cb.op === 'poll' ? next.transfers !== null : Buffer.isBuffer(ev.results[0]));
      ctx.hit(`operation reported as ${want === 'true' ? 'done' : 'not done'}`);
      if (!ctx.eq(told, want, [...CBTAGS[cb.op].split(' '), 'L04'], () => `reported outcome of ${what}`)) return;
    } else if (!cb && x.effects.length && !ctx.expect(ev.made.map((r) => r.id).includes(ev.ret?.promise), OKTAGS[a.method], () => `the outcome of ${what} is not that of what it promised`)) return;
    if (x.cb) this.cbs.set(cbReceipts[0].id, x.cb);
    if (x.completed) ctx.hit('termination completed');
    if (x.hadHash) ctx.hit('hashed schedule terminated');
    if (ctx.samples.length < 2 && (x.effects.length || cb)) ctx.sample({ receipt: what, by: rc.pred, args: a.args.toString().slice(0, 200), at: String(ev.timestamp), expected: why ?? 'ok', promised: eff, locked: String(next.locked(ev.timestamp)), known_at_pool: String(next.known()) });
    this.model = next; if (next.pool?.id === LIAR) this.lied = true;
    this.compare(ev, what, before);
  }
  onNew(ev, rc, a, args) {
    const { ctx } = this;
    let why = null, tags = [], m = null;
    try {
      rej(!this.model, 'already initialized', 'L05'); rej(a.deposit === 0n, 'deposit', 'L05');
      m = new LockupModel();
      rej(validAccountId(args.owner_account_id), 'invalid owner', 'L05'); rej(validAccountId(args.staking_pool_whitelist_account_id), 'invalid whitelist', 'L06');
      const t = args.transfers_information;
      if (t.TransfersDisabled) rej(validAccountId(t.TransfersDisabled.transfer_poll_account_id), 'invalid poll', 'L06');
      const v = args.vesting_schedule ?? null, f = args.foundation_account_id ?? null;
      let vest = { kind: 'none' };
      if (v === null) rej(f === null, 'foundation without vesting', 'L03');
      else {
        if (v.VestingHash !== undefined) vest = { kind: 'hash', hash: v.VestingHash }; else { const s = parseSched(v.VestingSchedule); rej(schedOk(s), 'invalid schedule', 'L02', 'L03'); vest = { kind: 'sched', s }; }
        rej(f !== null && validAccountId(f), 'vesting without a foundation', 'L03');
      }
      Object.assign(m, { A: ev.before, withdrawn: 0n, paid: 0n, dur: BigInt(args.lockup_duration), rel: args.release_duration == null ? null : BigInt(args.release_duration), lockTs: args.lockup_timestamp == null ? null : BigInt(args.lockup_timestamp),
        transfers: t.TransfersEnabled ? BigInt(t.TransfersEnabled.transfers_timestamp) : null, poll: t.TransfersDisabled?.transfer_poll_account_id ?? null, vest, wl: args.staking_pool_whitelist_account_id, pool: null, ownerId: args.owner_account_id, foundation: f });
    } catch (e) { if (!(e instanceof Reject)) throw e; why = e.message; tags = e.tags; }
    ctx.hit(`new ${why ?? 'ok'}`); ctx.saw(`new|${why ?? 'ok'}|${m?.vest?.kind}|${m?.rel === null}|${m?.lockTs === null}|${m?.transfers === null}`);
    if (!ctx.expect(ev.ok === (why === null), why === null ? ['L05', 'L03'] : tags, () => `new(${json(args).slice(0, 500)}) ${ev.ok ? 'accepted' : 'refused: ' + ev.error?.msg}, expected ${why ?? 'success'}`)) return;
    if (!ev.ok) return;
    this.model = m;
    this.compare(ev, 'new', m);
  }
  viewsAt(ts, tagsExtra = []) {
    const { ctx, chain, model: m } = this, v = (k, a) => chain.get(L, k, a), keep = chain.timestamp, bal = chain.acct(L).amount;
    chain.timestamp = ts; ctx.soft = true;
    const term = m.vest.kind === 'term' || m.withdrawn > 0n ? ['L03'] : [];
    const at = `at ${ts}`;
    const shown = v('get_locked_amount');
    ctx.eq(shown, m.locked(ts), ['L02', 'L01', ...term, ...(shown === '0' ? ['L05'] : []), ...tagsExtra], () => `locked amount ${at}`);
    ctx.eq(v('get_owners_balance'), m.owners(bal, ts), ['L02', 'L01', ...tagsExtra], () => `owner's balance ${at}`);
    ctx.eq(v('get_liquid_owners_balance'), m.liquid(bal, ts), ['L02', 'L01', ...tagsExtra], () => `liquid owner's balance ${at}`);
    for (const [s, covered] of this.schedules) {
      const u = m.unvested(s, ts);
      ctx.eq(v('get_unvested_amount', { vesting_schedule: fmtSched(s) }), u, ['L02', ...term], () => `unvested amount of ${json(fmtSched(s))} ${at}`);
      // a hidden schedule is only assumed to be covered by the lockup; where it is not (an end near 2^64 ns), this view has no answer
      if ((covered || m.vest.kind === 'term' || m.vest.kind === 'none') && m.locked(ts) >= u) ctx.eq(v('get_locked_vested_amount', { vesting_schedule: fmtSched(s) }), m.locked(ts) - u, ['L02', ...term], () => `locked vested amount ${at}`);
    }
    chain.timestamp = keep; ctx.soft = false;
  }
  compare(ev, what, before) {
    const { ctx, chain, model: m } = this, v = (k, a) => chain.get(L, k, a), now = ev.timestamp, bal = chain.acct(L).amount;
    const after = () => ` after ${what}`;
    ctx.eq(v('get_known_deposited_balance'), m.known(), ['L04', 'L01', ...(before.vest.kind === 'term' ? ['L03'] : [])], () => 'known deposited balance' + after());
    ctx.eq(v('get_staking_pool_account_id'), m.pool?.id ?? null, ['L06'], () => 'selected pool' + after());
    ctx.eq(v('are_transfers_enabled'), m.transfers !== null, ['L06', 'L01', 'L02'], () => 'transfers enabled' + after());
    ctx.eq(v('get_termination_status'), m.vest.kind === 'term' ? m.vest.status : null, ['L03', ...(/callback of t/.test(what) ? ['L04'] : [])], () => 'termination status' + after());
    const u = m.vest.kind === 'term' ? m.vest.amount : 0n;
    ctx.eq(v('get_terminated_unvested_balance'), u, ['L03', 'L02', 'L01'], () => 'terminated unvested balance' + after());
    ctx.eq(v('get_terminated_unvested_balance_deficit'), sat(u, sat(bal, RESERVE)), ['L03'], () => 'deficit' + after());
    ctx.eq(v('get_vesting_information'), m.vest.kind === 'none' ? 'None' : m.vest.kind === 'hash' ? { VestingHash: m.vest.hash } : m.vest.kind === 'sched' ? { VestingSchedule: fmtSched(m.vest.s) } : { Terminating: { unvested_amount: m.vest.amount.toString(), status: m.vest.status } }, ['L03', 'L02'], () => 'vesting information' + after());
    ctx.eq(v('get_owner_account_id'), m.ownerId, ['L05'], () => 'owner' + after());
    ctx.eq(v('get_balance'), bal + m.known(), ['L04', 'L02'], () => 'total balance' + after());
    this.viewsAt(now, before.transfers !== m.transfers ? ['L06'] : []);
  }
  // The whole schedule, around every boundary.
  sweep() {
    const { ctx, chain, model: m } = this; if (ctx.bad || !m) return;
    const st = m.start, pts = [chain.timestamp];
    if (st !== null) { pts.push(st); if (m.rel !== null) pts.push(satAdd(st, m.rel), satAdd(st, m.rel / 2n), satAdd(st, m.rel / 3n)); }
    if (m.transfers !== null) pts.push(m.transfers, satAdd(m.transfers, m.dur)); if (m.lockTs !== null) pts.push(m.lockTs);
    for (const [s] of this.schedules) pts.push(s.start, s.cliff, s.end, (s.cliff + s.end) / 2n, (s.start * 2n + s.end) / 3n);
    let last = null;
    const all = [...new Set(pts.flatMap((p) => [p - 1n, p, p + 1n]).filter((p) => p >= 0n && p <= U64))].sort((a, b) => (a < b ? -1 : 1));
    for (const p of all) {
      this.viewsAt(p); if (ctx.bad) return;
      const k = m.locked(p);
      ctx.expect(last === null || k <= last, ['L02'], () => `the locked amount rises at ${p}`); last = k; // of the model, equal to the contract's
      ctx.expect(k <= m.A, ['L02'], () => 'more locked than the lockup amount');
    }
    ctx.hit('schedule swept around its boundaries'); ctx.saw(`sweep|${m.vest.kind}|${st === null}|${m.rel === null ? 'n' : m.rel === 0n ? 0 : 1}|${m.lockTs === null}|w${m.withdrawn > 0n}`);
  }
  poolTotals() { let t = 0n; for (const p of POOLS) if (this.chain.acct(p)) t += BigInt(this.chain.get(p, 'get_account_total_balance', { account_id: L })); return t; }
  atIdle() {
    const { ctx, chain, model: m } = this; if (ctx.bad || !m) return;
    const bal = chain.acct(L).amount;
    const pools = this.poolTotals(), locked = m.locked(chain.timestamp);
    if (!this.lied && !(this.bare && m.vest.kind === 'term')) ctx.expect(bal + pools >= locked, ['L01'], () => `holds ${bal} and ${pools} in pools, but ${locked} is locked`);
    if (m.vest.kind === 'sched' && !this.lied) ctx.expect(bal + pools >= m.unvestedOf(m.vest.s, chain.timestamp), ['L01'], 'less than the unvested amount is left');
    if (m.pool && POOLS.includes(m.pool.id)) { const t = BigInt(chain.get(m.pool.id, 'get_account_total_balance', { account_id: L })); ctx.expect(m.pool.known <= t, ['L04'], () => `believes ${m.pool.known} is at ${m.pool.id}, where there is ${t}`); if (m.pool.known === t && t > 0n) ctx.hit('known balance equals the pool balance'); }
    ctx.expect(m.pool?.busy !== true, ['L04'], 'at rest but an operation never finished');
    const ks = [...chain.acct(L).keys.entries()];
    ctx.expect(ks.length === this.keys.size && ks.every(([k, p]) => this.keys.has(k) && p.full), ['L05'], () => `access keys ${json(ks)}`);
    if (locked > 0n && pools > 0n && bal < locked) ctx.hit('locked tokens covered by the stake');
    this.last = locked;
  }
}
export async function scenario(ctx) {
  const rng = ctx.rng, T0 = 1_600_000_000_000_000_000n;
  const chain = new Chain(rng, { timestamp: T0 });
  ctx.chain = chain;
  [POOLS, EVIL] = rng.chance(0.15) ? (ctx.hit('long pool ids that differ in one character'), [[`pool${'-x'.repeat(25)}1.near`, `pool${'-x'.repeat(25)}2.near`], `pool${'-x'.repeat(25)}3.near`]) : [['pool1.near', 'pool2.near'], 'evilpool.near'];
  [OWNER, FOUND] = names(rng, ['owner.near', 'foundation.near'], [L, WL, POLL, ...POOLS, EVIL, LIAR, 'eve.near', 'friend.near', 'op.near', 'treasury.near', 'ghost.near']);
  for (const [id, b] of [[OWNER, 1000n], [FOUND, 1000n], ['eve.near', 10n ** 6n], ['friend.near', 1n], ['op.near', 100n], ['treasury.near', 1n]]) chain.createAccount(id, b * ONE, [OWNER, FOUND, 'eve.near'].includes(id) ? { code: forwarder() } : {});
  chain.forward = { p: rng.pick([0, 0.2, 0.5]), via: [OWNER, FOUND, 'eve.near'], by: [OWNER, FOUND, 'eve.near'] };
  // ---- the world ----
  const oddWhitelist = rng.chance(0.12), listed = new Set(POOLS);
  if (oddWhitelist) chain.createAccount(WL, 10n * ONE, { code: jsContract((api) => (rng.chance(0.4) ? rng.pick([null, 'true', 1, Buffer.from(''), Buffer.from('tru'), []]) : listed.has(api.args?.staking_pool_account_id))) });
  else {
    chain.createAccount(WL, 20n * ONE, { code: wasm('whitelist') });
    chain.run(FOUND, WL, 'new', { foundation_account_id: FOUND });
    for (const p of POOLS) chain.run(FOUND, WL, 'add_staking_pool', { staking_pool_account_id: p });
  }
  for (const p of POOLS) {
    chain.createAccount(p, 30n * ONE, { code: wasm('staking_pool') });
    const h = chain.run('op.near', p, 'new', { owner_id: 'op.near', stake_public_key: pk58(pkOf(p)), reward_fee_fraction: { numerator: rng.int(20), denominator: 100 } });
    if (!h.ok) { ctx.fail(['S06'], 'pool init failed ' + json(h.error)); return; }
  }
  chain.createAccount(EVIL, 10n * ONE, { code: jsContract((api) => { ctx.hit('call to an unlisted pool'); return api.method.startsWith('get_') ? '1' : null; }) });
  let pollMode = 'null', pollTs = 0n;
  chain.createAccount(POLL, 5n * ONE, { code: jsContract(() => { if (pollMode === 'fail') throw new Error('poll down'); if (pollMode === 'odd') return rng.pick([12, [], Buffer.from('x'), { a: 1 }, '-5', 'soon']); return pollMode === 'null' ? null : pollTs.toString(); }) });
  // a whitelisted pool that answers whatever it likes and returns what it likes: the bookkeeping must still be exact
  const lying = rng.chance(0.15);
  if (lying) {
    listed.add(LIAR); if (!oddWhitelist) chain.run(FOUND, WL, 'add_staking_pool', { staking_pool_account_id: LIAR });
    chain.createAccount(LIAR, 10n * ONE, { code: jsContract((api) => {
      ctx.hit('call to a lying pool');
      if (api.method.startsWith('get_')) { if (faults && rng.chance(queryFault)) throw new Error('no'); return rng.pick([0n, 1n, rng.big(2000n * ONE), rng.big(10n * ONE), 10n ** 30n, mon.model.known(), mon.model.known() / 2n + 1n]).toString(); }
      if (faults && rng.chance(0.3)) throw new Error('refused');
      if (api.method === 'withdraw' && rng.chance(0.6)) { const v = BigInt(api.args.amount), b = api.balance - ONE; const p = b > 0n ? (v < b ? v : rng.big(b)) : 0n; if (p > 0n) api.promise(L, [{ type: 'Transfer', amount: p }]); }
      return rng.pick([null, '7', true, undefined]);
    }) });
  }
  const faulty = rng.weighted([[5, 0.12], [2, 0], [2, 0.4]]), queryFault = rng.chance(0.08) ? 0.2 : 0;
  let faults = true;
  chain.fault = (rc, a) => {
    if (!faults || rc.pred !== L || rc.receiver === L || a.type !== 'FunctionCall') return null;
    if (POOLS.includes(rc.receiver)) return rng.chance(/^get_/.test(a.method) ? queryFault : faulty) ? 'Injected' : null;
    return rng.chance(faulty / 2) ? 'Injected' : null;
  };
  const reward = () => rng.weighted([[2, () => 0n], [4, (id, a) => a.locked / 500n + rng.big(1000n)], [1, (id, a) => a.locked / 3n], [0.5, () => rng.big(7n)]]);
  const tick = () => { if (!chain.canTick()) chain.drain(); if (!ctx.bad) chain.nextEpoch(reward()); };
  // ---- the lockup ----
  const days = (a, b) => BigInt(rng.range(a, b)) * DAY + (rng.chance(0.5) ? rng.big(DAY) : 0n);
  const when = () => T0 + (rng.chance(0.5) ? days(0, 60) : -days(0, 60));
  const A = rng.weighted([[5, BigInt(rng.range(20, 3000)) * ONE + rng.big(ONE)], [1, 35n * ONE / 10n + rng.big(3n) * ONE], [1, BigInt(rng.range(4, 9)) * ONE], [0.6, 10n ** 9n * ONE]]);
  const kind = rng.weighted([[4, 'none'], [5, 'sched'], [3, 'hash']]), drama = kind !== 'none' && rng.chance(0.5); // drama: a termination with most tokens staked
  let dur = rng.weighted([[3, 0n], [4, days(1, 60)], [1, 1n], [0.3, U64]]), lockTs = rng.weighted([[4, null], [4, when()], [1, 0n], [0.25, U64]]), rel = rng.weighted([[4, null], [5, days(1, 90)], [0.7, 0n], [0.7, 1n], [0.7, BigInt(rng.range(2, 2000))], [0.4, U64 - rng.pick([0n, 1n, T0, rng.big(U64)])]]);
  const enabled = rng.chance(0.6), transfersTs = rng.weighted([[4, T0 - days(0, 60)], [3, T0 + days(0, 40)], [0.5, 0n], [0.2, U64]]);
  const mkSched = () => {
    if (drama) { const start = T0 - days(0, 30), len = days(60, 300); return { start, cliff: rng.pick([start, start + days(0, 30), start + days(20, 55), start + len]), end: start + len }; }
    const start = rng.weighted([[5, T0 - days(0, 90)], [2, T0 + days(0, 30)]]), len = rng.weighted([[6, days(1, 150)], [1, 1n], [1, BigInt(rng.range(2, 100))], [0.3, U64 - start - rng.pick([0n, 1n, rng.big(U64 - start)])]]), end = start + len;
    return { start, cliff: rng.weighted([[4, start + rng.big(len + 1n)], [1, start], [1, end]]), end };
  };
  let s = mkSched(), salt = rng.chance(0.4) ? Buffer.from(Array.from({ length: rng.pick([1, 15, 16, 31, 32, 33, 64, 65, 200]) }, () => rng.int(256))) : Buffer.from(rng.pick(['', 'salt', '\x01\x02\x03']));
  // a hidden schedule must be covered by the lockup (the contract's stated assumption): it ends early enough for lockup and release to outlast it
  // (now and then it is not: then the owner may have moved what a termination would need, which nobody can prevent; everything else must hold all the same)
  const bare = kind === 'hash' && rng.chance(0.15);
  if (kind === 'hash' && !bare) { while (s.end > U64 / 8n) s = mkSched(); lockTs = max(lockTs ?? 0n, s.cliff); rel = min(U64, rng.pick([0n, days(0, 20)]) + max(sat(s.end, lockTs), 1n)); }
  const transfers = enabled ? { TransfersEnabled: { transfers_timestamp: transfersTs.toString() } } : { TransfersDisabled: { transfer_poll_account_id: POLL } };
  const args = (o = {}) => ({
    owner_account_id: OWNER, lockup_duration: dur.toString(), lockup_timestamp: lockTs?.toString() ?? null, transfers_information: transfers,
    vesting_schedule: kind === 'none' ? null : kind === 'hash' ? { VestingHash: hashOf(s, salt) } : { VestingSchedule: fmtSched(s) },
    release_duration: rel?.toString() ?? null, staking_pool_whitelist_account_id: WL, foundation_account_id: kind === 'none' ? null : FOUND, ...o,
  });
  const mon = new LockupMonitor(ctx, chain); mon.bare = bare;
  chain.createAccount(L, A, { code: wasm('lockup_contract') });
  if (kind === 'none') mon.schedules.push([s, true]); else { mon.schedules.push([s, true]); mon.schedules.push([mkSched(), false]); }
  const initBy = rng.pick(['eve.near', OWNER]);
  if (rng.chance(0.1)) { chain.run(OWNER, L, rng.pick(['transfer', 'add_full_access_key']), { amount: '1', receiver_id: 'friend.near', new_public_key: pk58(pkOf('k')) }); if (ctx.bad) return; }
  if (rng.chance(0.3)) {
    const w = s;
    chain.run(initBy, L, 'new', args(rng.pick([
      { owner_account_id: 'Bad Owner' }, { staking_pool_whitelist_account_id: 'x' }, { transfers_information: { TransfersDisabled: { transfer_poll_account_id: '' } } }, { foundation_account_id: kind === 'none' ? FOUND : null },
      { vesting_schedule: { VestingSchedule: fmtSched({ ...w, cliff: w.start - 1n }) }, foundation_account_id: FOUND }, { vesting_schedule: { VestingSchedule: fmtSched({ ...w, cliff: w.end + 1n }) }, foundation_account_id: FOUND },
      { vesting_schedule: { VestingSchedule: fmtSched({ start: w.start, cliff: w.start, end: w.start }) }, foundation_account_id: FOUND }, { vesting_schedule: { VestingHash: 'AAAA' }, foundation_account_id: 'No' }, { vesting_schedule: { VestingHash: 'AAAA' }, foundation_account_id: null },
    ])));
    if (ctx.bad) return;
  }
  const h = chain.run(initBy, L, 'new', args());
  if (ctx.bad || !h.ok) { if (!ctx.bad) ctx.fail(['L05'], 'initialization failed ' + json(h.error)); return; }
  if (rng.chance(0.3)) { chain.run('eve.near', L, 'new', args({ owner_account_id: 'eve.near' })); if (ctx.bad) return; }
  mon.sweep(); if (ctx.bad) return;
  // ---- workload ----
  const M = () => mon.model;
  const near = (b) => rng.pick([b, b, b - 1n, b + 1n, b / 2n, rng.big(b + 1n)]);
  const bal = () => chain.acct(L).amount;
  const atPool = (k) => (M().pool?.id === LIAR ? rng.pick([M().known(), M().known() / 2n, rng.big(M().known() + 2n * ONE)]) : M().pool && POOLS.includes(M().pool.id) ? BigInt(chain.get(M().pool.id, 'get_account_' + k, { account_id: L })) : 0n);
  const str = (v) => (v < 0n ? 0n : v === 0n && rng.chance(0.7) ? 1n : v).toString();
  const odd = () => rng.pick([0n, 1n, (1n << 128n) - 1n, 10n ** 30n]);
  const liquidAmt = () => str(rng.chance(0.1) ? odd() : rng.chance(0.2) ? near(bal() - RESERVE) : near(M().liquid(bal(), chain.timestamp + 1_000_000_000n)));
  const depAmt = () => str(rng.chance(0.08) ? odd() : rng.chance(0.3) ? near(sat(bal(), RESERVE)) : rng.big(sat(bal(), RESERVE) + 2n));
  const stakeAmt = () => str(rng.chance(0.08) ? odd() : near(atPool('unstaked_balance')));
  const unstakeAmt = () => str(rng.chance(0.08) ? odd() : near(atPool('staked_balance')));
  const owner = () => (rng.chance(0.94) ? OWNER : rng.pick([FOUND, 'eve.near', POOLS[0], POLL]));
  const found = () => (rng.chance(0.93) ? FOUND : rng.pick([OWNER, 'eve.near']));
  const o = (m, a = {}, d = 0n) => chain.call(owner(), L, m, a, { deposit: d });
  const f = (m, a = {}) => chain.call(found(), L, m, a);
  const receiver = () => rng.weighted([[5, 'friend.near'], [2, OWNER], [1, 'ghost.near'], [0.5, 'Bad Id'], [0.3, L]]);
  const payTo = () => rng.weighted([[5, 'treasury.near'], [1.5, 'ghost.near'], [0.5, '']]);
  const salted = (bad) => { const q = bad && rng.chance(0.5) ? { ...s, end: s.end + 1n } : s; return { vesting_schedule: fmtSched(q), salt: (bad && q === s ? Buffer.concat([salt, Buffer.from('x')]) : salt).toString('base64') }; };
  const proof = () => { const bad = rng.chance(0.15); return { vesting_schedule_with_salt: (kind === 'hash') !== bad ? salted(false) : rng.chance(0.4) && kind === 'hash' ? salted(true) : kind === 'hash' ? null : null }; };
  const callbacks = [['on_whitelist_is_whitelisted', { staking_pool_account_id: EVIL }], ['on_staking_pool_deposit', { amount: '5' }], ['on_staking_pool_deposit_and_stake', { amount: '5' }], ['on_staking_pool_withdraw', { amount: '1000000000000000000000000000' }], ['on_staking_pool_stake', { amount: '1' }], ['on_staking_pool_unstake', { amount: '1' }],
    ['on_staking_pool_unstake_all', {}], ['on_get_result_from_transfer_poll', {}], ['on_get_account_total_balance', {}], ['on_get_account_unstaked_balance_to_withdraw_by_owner', {}], ['on_get_account_staked_balance_to_unstake', {}], ['on_staking_pool_unstake_for_termination', { amount: '1' }],
    ['on_get_account_unstaked_balance_to_withdraw', {}], ['on_staking_pool_withdraw_for_termination', { amount: '1' }], ['on_withdraw_unvested_amount', { amount: '1', receiver_id: 'eve.near' }], ['set_staking_pool_status', { status: 'Idle' }], ['set_termination_status', { status: 'ReadyToWithdraw' }], ['internal_transfer', {}]];
  const toBoundary = () => {
    const m = M(), pts = []; if (m.start !== null) { pts.push(m.start); if (m.rel !== null) pts.push(satAdd(m.start, m.rel)); } if (kind !== 'none') pts.push(s.cliff, s.end, s.start);
    const fut = pts.flatMap((p) => [p - 1n, p, p + 1n]).filter((p) => p - 1_000_000_000n > chain.timestamp && p < T0 + 400n * DAY);
    if (!fut.length) return; chain.drain(); if (ctx.bad) return;
    chain.timestamp = max(rng.pick(fut) - 1_000_000_000n, chain.timestamp); ctx.hit('call exactly at a schedule boundary');
  };
  const select = () => o('select_staking_pool', { staking_pool_account_id: rng.weighted([[8, rng.pick(POOLS)], [lying ? 20 : 0, LIAR], [1.5, EVIL], [0.5, 'Bad'], [0.3, 'ghost.near']]) });
  chain.between = () => { if (rng.chance(0.015) && chain.canTick()) { chain.nextEpoch(reward()); ctx.hit('epoch boundary inside a promise chain'); } };
  const steps = rng.range(25, 65);
  const terminator = kind !== 'none' && (drama || rng.chance(0.75)) ? rng.int(drama ? 12 : steps) : -1;
  if (drama) {
    chain.run(OWNER, L, 'select_staking_pool', { staking_pool_account_id: lying ? LIAR : rng.pick(POOLS) }); if (ctx.bad) return;
    for (let k = rng.range(1, 2); k > 0; k--) { const b = sat(bal(), RESERVE), d = b * BigInt(rng.range(50, 100)) / 100n; o(rng.pick(['deposit_and_stake', 'deposit_and_stake', 'deposit_to_staking_pool']), { amount: d.toString() }); chain.drain(); if (ctx.bad) return; }
  }
  for (let i = 0; i < steps && !ctx.bad; i++) {
    const t = M().vest.kind === 'term';
    if (i === terminator && !t) { if (rng.chance(0.4)) { rng.pick([() => o('withdraw_all_from_staking_pool'), () => o('unstake_all'), () => o('deposit_and_stake', { amount: depAmt() }), () => o('refresh_staking_pool_balance'), () => o('transfer', { amount: liquidAmt(), receiver_id: receiver() })])(); for (let k = rng.int(3); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step(); if (ctx.bad) return; ctx.hit('terminated with an owner operation in flight'); } chain.call(FOUND, L, 'terminate_vesting', kind === 'hash' ? { vesting_schedule_with_salt: salted(false) } : {}); }
    rng.weighted([
      [M().pool ? 0.7 : 6, select], [M().pool && M().pool.known === 0n ? 1.5 : 0.5, () => o('unselect_staking_pool')],
      [4, () => o('deposit_to_staking_pool', { amount: depAmt() })], [4, () => o('deposit_and_stake', { amount: depAmt() })],
      [3, () => o('refresh_staking_pool_balance')], [4, () => o('withdraw_from_staking_pool', { amount: stakeAmt() })], [3, () => o('withdraw_all_from_staking_pool')],
      [2, () => o('stake', { amount: stakeAmt() })], [3, () => o('unstake', { amount: unstakeAmt() })], [2, () => o('unstake_all')],
      [M().transfers === null ? 4 : 0.4, () => { pollMode = rng.weighted([[3, 'null'], [3, 'ts'], [1, 'fail'], [1, 'odd']]); pollTs = rng.pick([chain.timestamp, chain.timestamp - days(0, 30), chain.timestamp + days(0, 20), 0n]); o('check_transfers_vote'); }],
      [6, () => o('transfer', { amount: liquidAmt(), receiver_id: receiver() })],
      [1.5, () => o('add_full_access_key', { new_public_key: pk58(rng.pick([pkOf, pkOf, pkSecp])('added' + rng.int(3))) })],
      [kind === 'none' ? 0.3 : 0.5, () => f('terminate_vesting', proof())],
      [t ? 16 : 0.6, () => f('termination_prepare_to_withdraw')], [t ? 12 : 0.6, () => f('termination_withdraw', { receiver_id: payTo() })],
      [1.2, () => { const [m, a] = rng.pick(callbacks); chain.call(rng.pick([OWNER, FOUND, 'eve.near', POOLS[0]]), L, m, a); }],
      [0.8, () => chain.call('eve.near', L, rng.pick(Object.keys(DIRECT)), { amount: '1', receiver_id: 'eve.near', new_public_key: pk58(pkOf('eve')), staking_pool_account_id: EVIL })],
      [0.3, () => o(rng.pick(['transfer', 'stake', 'unselect_staking_pool', 'terminate_vesting']), { amount: '1', receiver_id: 'friend.near' }, 1n)],
      [1, () => chain.tx('eve.near', L, [{ type: 'Transfer', amount: rng.pick([1n, ONE, 40n * ONE, rng.big(100n * ONE)]) }])],
      [0.4, () => { chain.call('op.near', rng.pick(POOLS), rng.pick(['pause_staking', 'resume_staking', 'ping'])); }],
      [0.3, () => { if (!oddWhitelist) { const p = rng.pick(POOLS); chain.call(FOUND, WL, rng.pick(['remove_staking_pool', 'add_staking_pool']), { staking_pool_account_id: p }); } }],
      [6, () => { const n = rng.weighted([[3, 1], [2, 4], [1, rng.range(2, 6)]]); for (let k = 0; k < n && !ctx.bad; k++) tick(); }],
      [2.5, () => { chain.timestamp += rng.pick([days(1, 10), days(5, 40), BigInt(rng.range(1, 3600)) * 1_000_000_000n]); }],
      [3, toBoundary],
      [1, () => { chain.drain(); mon.sweep(); }],
    ])();
    if (ctx.bad) return;
    if (rng.chance(0.62)) { chain.drain(); mon.atIdle(); } else for (let k = rng.int(3); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
  }
  if (ctx.bad) return;
  chain.drain(); mon.atIdle(); if (ctx.bad) return;
  // ---- liveness: with working counterparties the lockup is idle, and a termination can be finished ----
  faults = false; chain.between = null;
  if (M().vest.kind === 'sched' && rng.chance(0.4)) { chain.run(FOUND, L, 'terminate_vesting', {}); if (ctx.bad) return; }
  if (M().vest.kind !== 'term' && M().pool) { const r = chain.run(OWNER, L, 'refresh_staking_pool_balance'); if (ctx.bad) return; ctx.expect(r.ok, ['L04'], () => 'at rest an owner operation is refused: ' + json(r.error)); ctx.hit('idle at the end'); }
  if (M().vest.kind === 'term') {
    for (const p of POOLS) { chain.run('op.near', p, 'resume_staking'); }
    for (let k = 0; k < 16 && !ctx.bad && M().vest.kind === 'term'; k++) {
      const st = M().vest.status;
      if (/Deficit|EverythingUnstaked/.test(st)) { chain.run(FOUND, L, 'termination_prepare_to_withdraw'); if (ctx.bad) return; for (let e = 0; e < 4; e++) tick(); } else {
        const b0 = chain.acct('treasury.near').amount, avail = min(M().vest.amount, sat(bal(), RESERVE));
        if (avail === 0n) { ctx.hit('termination short of liquid balance'); break; }
        chain.run(FOUND, L, 'termination_withdraw', { receiver_id: 'treasury.near' }); if (ctx.bad) return;
        ctx.eq(chain.acct('treasury.near').amount - b0, avail, ['L03'], 'paid to the foundation');
      }
    }
    if (ctx.bad) return;
    const m = M();
    ctx.expect(m.vest.kind === 'none' || (m.vest.status === 'ReadyToWithdraw' && sat(bal(), RESERVE) === 0n), ['L03'], () => `the foundation could not finish: ${json(m.vest)} with balance ${bal()}`);
    if (m.vest.kind === 'none') { const r = chain.run(FOUND, L, 'termination_withdraw', { receiver_id: 'treasury.near' }); if (ctx.bad) return; ctx.expect(!r.ok, ['L03'], 'withdrawal after completion'); ctx.hit('foundation drove the termination to completion'); }
    mon.sweep();
  }
  mon.atIdle();
  if (ctx.bad || M().vest.kind === 'term' || M().transfers === null || rng.chance(0.5)) return;
  // ---- once everything is released the owner can take all of it ----
  const end = [M().start + (M().rel ?? 0n), kind === 'sched' ? s.end : 0n].reduce(max);
  if (end > T0 + 3000n * DAY) return;
  chain.timestamp = max(chain.timestamp, end);
  if (M().pool && POOLS.includes(M().pool.id)) {
    chain.run('op.near', M().pool.id, 'resume_staking'); if (atPool('staked_balance') > 0n) chain.run(OWNER, L, 'unstake_all'); if (ctx.bad) return;
    for (let e = 0; e < 4; e++) tick();
    chain.run(OWNER, L, 'withdraw_all_from_staking_pool'); if (ctx.bad) return;
  }
  const all = sat(bal(), RESERVE);
  if (all > 0n && M().locked(chain.timestamp) <= RESERVE) { const r = chain.run(OWNER, L, 'transfer', { amount: all.toString(), receiver_id: OWNER }); if (ctx.bad) return; ctx.expect(r.ok, ['L01', 'L02'], () => 'everything is released but the owner cannot take it: ' + json(r.error)); ctx.hit('owner took everything after release'); }
  if (M().locked(chain.timestamp + 1_000_000_000n) === 0n) { const r = chain.run(OWNER, L, 'add_full_access_key', { new_public_key: pk58(pkOf('final')) }); if (ctx.bad) return; ctx.expect(r.ok && chain.acct(L).keys.get(pkOf('final'))?.full, ['L05'], () => 'key refused after release: ' + json(r.error)); ctx.hit('key added after release'); }
  mon.atIdle();
}
