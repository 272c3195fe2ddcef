// Staking pool: executable reference model + invariants, driven by every receipt the pool executes.
import { Chain, pkOf, pk58, json, forwarder } from '../lib/chain.mjs';
import { ONE, U128_MAX } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';

const FUND = 10n ** 12n;
const POOL = 'pool.near';
const mulDown = (a, b, c) => (a * b) / c;
const mulUp = (a, b, c) => (a * b + c - 1n) / c;

export const meta = {
  rule: { '*': 'Evaluations: receipts executed by the pool WASM and compared with the reference model (result, promised transfers/stakes, every account view). Distinct: (method, outcome reason, caller role, paused, new-epoch, reward sign, price class, rounding class, locked state) tuples.' },
  assumptions: ['no slashing (as the pool README states)', 'the runtime model in lib/chain.mjs reproduces NEAR receipt, refund, staking and epoch rules', 'gas price is zero; contract gas rewards are injected as balance increases'],
};

class Reject extends Error { constructor(why, tags) { super(why); this.tags = tags; } }
const rej = (c, why, tags) => { if (!c) throw new Reject(why, tags); };

export class PoolModel {
  constructor() { this.accounts = new Map(); }
  clone() { const m = new PoolModel(); Object.assign(m, this); m.accounts = new Map(this.accounts); return m; }
  get(id) { return this.accounts.get(id) ?? { unstaked: 0n, shares: 0n, avail: 0n }; }
  save(id, a) { if (a.unstaked > 0n || a.shares > 0n) this.accounts.set(id, a); else this.accounts.delete(id); }
  staked(id) { return mulDown(this.T, this.get(id).shares, this.S); }
  ping(x) {
    x.pinged = false; x.reward = 0n;
    if (this.lastEpoch === x.epoch) return false;
    this.lastEpoch = x.epoch;
    rej(x.total >= this.lastTotal, 'total balance decreased', ['S04', 'S01']);
    const r = x.total - this.lastTotal;
    x.pinged = true; x.reward = r;
    if (r > 0n) {
      const fee = mulDown(this.fee.n, r, this.fee.d);
      this.T += r - fee;
      const sh = mulDown(this.S, fee, this.T);
      if (sh > 0n) { const a = { ...this.get(this.owner) }; a.shares += sh; this.save(this.owner, a); this.S += sh; x.feeShares = sh; }
      this.T += fee;
    }
    this.lastTotal = x.total;
    return true;
  }
  restake(x) { if (!this.paused) x.effects.push(`self Stake ${this.T} ${this.key}`); }
  deposit(x) { const a = { ...this.get(x.pred) }; a.unstaked += x.deposit; this.save(x.pred, a); this.lastTotal += x.deposit; return x.deposit; }
  withdraw(x, amt) {
    rej(amt > 0n, 'withdraw zero', ['S01', 'S03']);
    const a = { ...this.get(x.pred) };
    rej(a.unstaked >= amt, 'withdraw more than unstaked', ['S01', 'S03']);
    rej(a.avail <= x.epoch, 'withdraw before the unlock epoch', ['S03']);
    a.unstaked -= amt; this.save(x.pred, a);
    x.effects.push(`${x.pred} Transfer ${amt}`);
    this.lastTotal -= amt;
  }
  stake(x, amt) {
    rej(amt > 0n, 'stake zero', ['S02']);
    const a = { ...this.get(x.pred) };
    const sh = mulDown(this.S, amt, this.T);
    rej(sh <= U128_MAX, 'overflow', ['S01', 'S02']);
    rej(sh > 0n, 'zero shares', ['S02']);
    const charge = mulDown(this.T, sh, this.S);
    rej(charge <= U128_MAX, 'overflow', ['S01', 'S02']);
    rej(charge > 0n, 'zero charge', ['S02']);
    rej(a.unstaked >= charge, 'stake more than unstaked', ['S01', 'S02']);
    a.unstaked -= charge; a.shares += sh; this.save(x.pred, a);
    const up = mulUp(this.T, sh, this.S);
    x.rounded = up !== charge;
    this.T += up; this.S += sh;
  }
  unstake(x, amt) {
    rej(amt > 0n, 'unstake zero', ['S02']);
    const a = { ...this.get(x.pred) };
    const sh = mulUp(this.S, amt, this.T);
    rej(sh <= U128_MAX, 'overflow', ['S01', 'S02']);
    rej(a.shares >= sh, 'unstake more than staked', ['S01', 'S02']);
    const recv = mulUp(this.T, sh, this.S);
    a.shares -= sh; a.unstaked += recv; a.avail = x.epoch + 4n; this.save(x.pred, a);
    const down = mulDown(this.T, sh, this.S);
    x.rounded = recv !== down;
    this.T -= down; this.S -= sh;
  }
  owned(x) { rej(x.pred === this.owner, 'not the owner', ['S06']); }
}
const feeValid = (f) => f.denominator !== 0 && f.numerator <= f.denominator;
const U = (v) => BigInt(v);
const M = {
  ping(m, x) { if (m.ping(x)) m.restake(x); },
  deposit(m, x) { const r = m.ping(x); m.deposit(x); if (r) m.restake(x); },
  deposit_and_stake(m, x) { m.ping(x); const a = m.deposit(x); m.stake(x, a); m.restake(x); },
  withdraw_all(m, x) { const r = m.ping(x); m.withdraw(x, m.get(x.pred).unstaked); if (r) m.restake(x); },
  withdraw(m, x) { const r = m.ping(x); m.withdraw(x, U(x.args.amount)); if (r) m.restake(x); },
  stake_all(m, x) { m.ping(x); m.stake(x, m.get(x.pred).unstaked); m.restake(x); },
  stake(m, x) { m.ping(x); m.stake(x, U(x.args.amount)); m.restake(x); },
  unstake_all(m, x) { m.ping(x); m.unstake(x, mulDown(m.T, m.get(x.pred).shares, m.S)); m.restake(x); },
  unstake(m, x) { m.ping(x); m.unstake(x, U(x.args.amount)); m.restake(x); },
  update_staking_key(m, x) { m.owned(x); m.ping(x); m.key = x.key; m.restake(x); },
  update_reward_fee_fraction(m, x) {
    m.owned(x); const f = x.args.reward_fee_fraction; rej(feeValid(f), 'invalid fee', ['S06', 'S04']);
    const r = m.ping(x); m.fee = { n: U(f.numerator), d: U(f.denominator) }; if (r) m.restake(x);
  },
  vote(m, x) { m.owned(x); x.effects.push(`${x.args.voting_account_id} FunctionCall vote ${json({ is_vote: x.args.is_vote })} 0`); },
  pause_staking(m, x) { m.owned(x); rej(!m.paused, 'already paused', ['S05', 'S06']); m.ping(x); m.paused = true; x.effects.push(`self Stake 0 ${m.key}`); },
  resume_staking(m, x) { m.owned(x); rej(m.paused, 'not paused', ['S05', 'S06']); m.ping(x); m.paused = false; m.restake(x); },
};
const PAYABLE = new Set(['deposit', 'deposit_and_stake']);
const OKTAGS = {
  ping: 'S04 S05', deposit: 'S01', deposit_and_stake: 'S01 S02', withdraw: 'S01 S03', withdraw_all: 'S01 S03', stake: 'S01 S02', stake_all: 'S01 S02', unstake: 'S01 S02 S03',
  unstake_all: 'S01 S02 S03', update_staking_key: 'S05 S06', update_reward_fee_fraction: 'S04 S06', vote: 'S06', pause_staking: 'S05 S06', resume_staking: 'S05 S06',
};

export function effectsOf(ev, self, keyHex) {
  const out = [];
  for (const m of ev.made) for (const a of m.actions) {
    if (m.receiver === self) {
      if (a.type === 'FunctionCall') continue; // own callbacks are judged when they run
      out.push(a.type === 'Stake' ? `self Stake ${a.stake} ${a.pk}` : a.type === 'Transfer' ? `self Transfer ${a.amount}` : `self ${a.type}`);
    } else if (a.type === 'Transfer') out.push(`${m.receiver} Transfer ${a.amount}`);
    else if (a.type === 'FunctionCall') out.push(`${m.receiver} FunctionCall ${a.method} ${a.args} ${a.deposit}`);
    else out.push(`${m.receiver} ${a.type}`);
  }
  return out;
}
const tagOfEffect = (e) => (/^self Stake/.test(e) ? 'S05' : / FunctionCall vote/.test(e) ? 'S06' : 'S01');

export class PoolMonitor {
  constructor(ctx, chain, pool, users, owner) {
    this.ctx = ctx; this.chain = chain; this.pool = pool; this.users = users; this.owner = owner;
    this.model = null; this.pendingUnstake = false; this.lastViews = new Map(); this.lastStaked = new Map(); this.fundSpent = 0n; this.ops = 0n;
    chain.listeners.push((ev) => { if (ev.rc.receiver === pool && !ctx.bad) this.onEvent(ev); });
  }
  onEvent(ev) {
    const { ctx, chain } = this, rc = ev.rc, acct = chain.acct(this.pool);
    const a = rc.actions[0];
    if (a.type === 'Stake') {
      if (!ev.ok && a.stake > 0n) { this.pendingUnstake = true; ctx.hit('failed stake action'); }
      else if (ev.ok) this.pendingUnstake = false;
      ctx.hit(a.stake > 0n ? 'stake action' : 'stake-0 action');
      return;
    }
    if (a.type !== 'FunctionCall') { if (ev.ok && a.type === 'Transfer') ctx.hit(rc.refund ? 'refund to the pool' : 'plain transfer to the pool'); return; }
    if (ev.error?.kind === 'Injected') { ctx.hit('call failed by injection'); return; }
    let args = {};
    try { args = JSON.parse(a.args.toString() || '{}'); } catch { args = null; }
    const reward = ev.reward ?? 0n;
    const x = { pred: rc.pred, deposit: a.deposit, epoch: ev.epoch, total: ev.before + acct.locked, args, effects: [], key: a.key, pinged: false, reward: 0n };
    if (args?.stake_public_key) x.key = this.keyOf(args.stake_public_key);
    if (a.method === 'new' && !this.model) return this.onNew(ev, x);
    if (!this.model) return;
    // on a failing receipt nothing may change; on success the model's next state must be the real one
    const next = this.model.clone();
    let why = null, tags = null;
    const selfCall = rc.pred === this.pool;
    try {
      if (selfCall && !M[a.method]) {
        if (ev.results.length === 1 && ev.results[0] === null && acct.locked > 0n) { x.effects.push(`self Stake 0 ${next.key}`); ctx.hit('callback unstakes after a failed stake action'); }
      } else if (M[a.method]) {
        if (a.deposit > 0n && !PAYABLE.has(a.method)) throw new Reject('deposit on a non-payable method', ['S01']);
        M[a.method](next, x);
        if (a.method.startsWith('withdraw') && x.effects.some((e) => e.includes('Transfer'))) {
          const amt = BigInt(x.effects.find((e) => e.includes('Transfer')).split(' ')[2]);
          if (amt > ev.before) ctx.hit('withdraw beyond liquid balance');
        }
      } else throw new Reject('method must not be callable by others', ['S06']);
    } catch (e) { if (!(e instanceof Reject)) throw e; why = e.message; tags = e.tags; }
    const expectOk = why === null;
    const sig = `${a.method}|${why ?? 'ok'}|${rc.pred === this.model.owner ? 'owner' : selfCall ? 'self' : 'user'}|p${+this.model.paused}|e${+x.pinged}|r${x.reward > 0n ? 1 : 0}|f${x.feeShares ? 1 : 0}|rd${x.rounded ? 1 : 0}|pr${priceClass(this.model)}|L${acct.locked === 0n ? 0 : acct.locked === this.model.T ? 1 : acct.locked > this.model.T ? 2 : 3}|n${Math.min(4, this.model.accounts.size)}`;
    ctx.saw(sig); ctx.hit(`${a.method} ${expectOk ? 'ok' : 'rejected: ' + why}`); if (x.reward > 0n) ctx.hit('reward distributed'); if (x.feeShares) ctx.hit('owner fee shares bought');
    ctx.note(`${rc.pred} ${a.method} ${a.args.toString().slice(0, 120)} dep=${a.deposit} epoch=${ev.epoch} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + String(ev.error.msg).slice(0, 80)} (model: ${why ?? 'ok'}) T=${this.model.T} S=${this.model.S}`);
    if (ctx.samples.length < 3 && x.rounded) ctx.sample({ method: a.method, args, caller: rc.pred, T: String(this.model.T), S: String(this.model.S), model: why ?? 'ok', observed: ev.ok, effects: x.effects });
    if (expectOk !== ev.ok) {
      const t = [...new Set([...(OKTAGS[a.method] ?? 'S05').split(' '), ...(tags ?? [])])];
      if (expectOk && x.pinged) t.push('S04');
      ctx.fail(t, `${a.method} by ${rc.pred} at epoch ${ev.epoch}: model expects ${expectOk ? 'success' : 'rejection (' + why + ')'} but the contract ${ev.ok ? 'accepted it' : 'failed with ' + ev.error.kind + ' ' + ev.error.msg}`);
      return;
    }
    const eff = ev.ok ? effectsOf(ev, this.pool) : [];
    const want = expectOk ? x.effects : [];
    if (eff.slice().sort().join('|') !== want.slice().sort().join('|')) {
      const t = new Set();
      for (const e of [...eff, ...want]) if (!(eff.includes(e) && want.includes(e))) t.add(tagOfEffect(e));
      if (!t.size) t.add('S05');
      if (t.has('S05') && x.pinged) t.add('S04');
      ctx.fail([...t], `${a.method} by ${rc.pred}: promised [${eff.join(', ')}], expected [${want.join(', ')}]`);
    }
    if (expectOk) { this.ops += 1n; this.prev = this.model; this.model = next; }
    this.compareViews(ev, x, a, rc);
  }
  keyOf(s58) { return this.keys?.get(s58) ?? s58; }
  onNew(ev, x) {
    const { ctx } = this, f = x.args.reward_fee_fraction;
    const ok = feeValid(f) && x.args.owner_id === this.owner && ev.before >= FUND;
    ctx.hit(`new ${ok ? 'ok' : 'rejected'}`); ctx.saw('new|' + ok);
    if (!ctx.expect(ev.ok === ok, ['S06'], `new(${json(x.args)}) ${ev.ok ? 'accepted' : 'rejected: ' + ev.error?.msg}, expected ${ok}`)) return;
    if (!ev.ok) return;
    const m = new PoolModel();
    Object.assign(m, { owner: x.args.owner_id, key: x.key, paused: false, lastEpoch: ev.epoch, lastTotal: ev.before + x.deposit, T: ev.before + x.deposit - FUND, S: ev.before + x.deposit - FUND, fee: { n: U(f.numerator), d: U(f.denominator) } });
    this.model = m;
    const eff = effectsOf(ev, this.pool);
    ctx.eq(eff.join(), `self Stake ${m.T} ${m.key}`, ['S05', 'S06'], 'stake issued at initialization');
    this.compareViews(ev, x, ev.rc.actions[0], ev.rc);
  }
  compareViews(ev, x, a, rc) {
    const { ctx, chain, model: m, pool } = this;
    const v = (meth, args) => chain.get(pool, meth, args);
    const money = x.pinged && x.reward > 0n ? ['S01', 'S02', 'S04'] : ['S01', 'S02'];
    const T = BigInt(v('get_total_staked_balance'));
    ctx.eq(T, m.T, [...money, 'S05', ...(x.pinged ? ['S04'] : [])], `total staked balance after ${a.method}`);
    let sumUn = 0n, sumSt = 0n;
    for (const u of this.users) {
      const r = v('get_account', { account_id: u }), ma = m.get(u), un = BigInt(r.unstaked_balance), st = BigInt(r.staked_balance);
      sumUn += un; sumSt += st;
      ctx.eq(un, ma.unstaked, ['S01', 'S02', ...(a.method.startsWith('withdraw') ? ['S03'] : []), ...(u === m.owner && x.pinged ? ['S04'] : [])], () => `unstaked balance of ${u} after ${a.method} by ${rc.pred}`);
      ctx.eq(st, m.staked(u), money, () => `staked balance of ${u} after ${a.method} by ${rc.pred}`);
      ctx.eq(r.can_withdraw, ma.avail <= ev.epoch, ['S03'], () => `can_withdraw of ${u} at epoch ${ev.epoch} after ${a.method} by ${rc.pred}`);
      const prev = this.lastViews.get(u);
      if (prev && u !== rc.pred) {
        ctx.expect(st >= prev.st, ['S02'], () => `${a.method} by ${rc.pred} reduced the staked balance of ${u} from ${prev.st} to ${st}`);
        ctx.expect(un === prev.un, ['S01', 'S02'], () => `${a.method} by ${rc.pred} changed the unstaked balance of ${u} from ${prev.un} to ${un}`);
        if (prev.un === un && prev.shares === ma.shares) ctx.hit('untouched account never loses');
      }
      if (prev && u === rc.pred && ev.ok && a.method === 'stake' && prev) {
        const charged = prev.un - un;
        ctx.expect(charged <= BigInt(x.args.amount), ['S02', 'S01'], () => `stake(${x.args.amount}) charged ${charged}`);
      }
      if (prev && u === rc.pred && ev.ok && a.method === 'unstake') {
        ctx.expect(un - prev.un >= BigInt(x.args.amount), ['S02', 'S01'], () => `unstake(${x.args.amount}) credited only ${un - prev.un}`);
      }
      this.lastViews.set(u, { un, st, shares: ma.shares });
    }
    const acct = chain.acct(pool);
    ctx.expect(acct.amount + acct.locked >= sumUn + T, ['S01'], () => `insolvent: holds ${acct.amount + acct.locked}, owes ${sumUn} unstaked + ${T} staked`);
    ctx.expect(sumSt <= T, ['S01', 'S02'], () => `accounts claim ${sumSt} staked of ${T}`);
    ctx.expect(m.T >= m.S, ['S02'], () => `share price below 1: ${m.T}/${m.S}`);
    if (this.prev) ctx.expect(m.T * this.prev.S >= this.prev.T * m.S, ['S02'], () => `share price fell from ${this.prev.T}/${this.prev.S} to ${m.T}/${m.S}`);
    ctx.eq(v('is_staking_paused'), m.paused, ['S05', 'S06'], 'is_staking_paused');
    ctx.eq(v('get_owner_id'), m.owner, ['S06'], 'owner');
    ctx.eq(v('get_staking_key'), pk58(m.key), ['S05', 'S06'], 'staking key');
    const f = v('get_reward_fee_fraction');
    ctx.expect(BigInt(f.numerator) === m.fee.n && BigInt(f.denominator) === m.fee.d && f.denominator !== 0 && f.numerator <= f.denominator, ['S04', 'S06'], () => `fee is ${json(f)}`);
    if (ctx.rng.chance(0.1)) this.compareLists();
  }
  compareLists() {
    const { ctx, chain, model: m, pool } = this, v = (meth, args) => chain.get(pool, meth, args);
    ctx.eq(v('get_number_of_accounts'), m.accounts.size, ['S01'], 'number of accounts');
    const step = ctx.rng.pick([1, 2, 3, 3, 7, 50, 1000]), seen = new Map();
    for (let i = 0; i < m.accounts.size + 2; i += step) for (const r of v('get_accounts', { from_index: i, limit: step })) { ctx.expect(!seen.has(r.account_id), ['S01'], 'account listed twice'); seen.set(r.account_id, r); }
    ctx.eq([...seen.keys()].sort().join(), [...m.accounts.keys()].sort().join(), ['S01'], 'listed accounts');
    const whole = [...seen.values()].map((r) => json(r));
    for (let k = 0; k < 2; k++) { // any page is the corresponding part of the whole listing
      const from = ctx.rng.int(m.accounts.size + 3), limit = ctx.rng.pick([0, 1, 2, m.accounts.size, m.accounts.size + 1, 4294967295, 2 ** 32, 2 ** 45]);
      ctx.eq(v('get_accounts', { from_index: from, limit }).map((r) => json(r)).join(), whole.slice(from, from + limit).join(), ['S01'], `accounts ${from}..+${limit} of ${whole.length}`);
      if (from > 0 && limit > m.accounts.size) ctx.hit('page reaching past the end');
    }
    for (const [id, r] of seen) { ctx.eq(r.unstaked_balance, m.get(id).unstaked, ['S01'], 'listed unstaked'); ctx.eq(r.staked_balance, m.staked(id), ['S01'], 'listed staked'); }
    for (const u of this.users) {
      ctx.eq(v('get_account_unstaked_balance', { account_id: u }), m.get(u).unstaked, ['S01'], 'unstaked view');
      ctx.eq(v('get_account_staked_balance', { account_id: u }), m.staked(u), ['S01', 'S02'], 'staked view');
      ctx.eq(v('get_account_total_balance', { account_id: u }), m.staked(u) + m.get(u).unstaked, ['S01'], 'total view');
      ctx.eq(v('is_account_unstaked_balance_available', { account_id: u }), m.get(u).avail <= chain.epoch, ['S03'], 'availability view');
    }
    ctx.hit('account listing compared');
  }
  atIdle() {
    const a = this.chain.acct(this.pool);
    if (!this.model) return;
    if (this.pendingUnstake) this.ctx.expect(a.locked === 0n, ['S05'], 'a failed stake action was not followed by unstaking while tokens stayed locked');
    if (this.model.paused && this.declared() !== 0n) this.ctx.expect(a.locked === 0n, ['S05'], `paused but the declared stake is ${this.declared()}`);
    const d = this.declared();
    this.ctx.hit(d === this.model.T ? 'declared stake equals total staked at rest' : 'declared stake differs at rest');
  }
  declared() { return this.chain.validators.get(this.pool)?.declared ?? 0n; }
}
function priceClass(m) { if (m.T === m.S) return 0; const q = m.T / m.S; return q < 2n ? 1 : q < 1000n ? 2 : q < 10n ** 9n ? 3 : 4; }

export async function scenario(ctx) {
  const rng = ctx.rng;
  const tiny = rng.chance(0.35);
  const chain = new Chain(rng, { storageCheck: !tiny, epoch: BigInt(rng.range(0, 20)) });
  ctx.chain = chain;
  const crowd = rng.chance(0.05) ? rng.weighted([[9, rng.range(8, 45)], [1, rng.range(65, 110)]]) : 0;
  const [own, ...users] = names(rng, ['owner.near', ...['alice.near', 'bob.near', 'carol.near', 'dave.near'].slice(0, rng.range(2, 4)), ...Array.from({ length: crowd }, (_, i) => `user${i}.near`)], [POOL, 'eve.near', 'vote.near']);
  const owner = rng.chance(0.8) ? own : users[0];
  const everyone = [...new Set([...users, owner])];
  if (crowd) ctx.hit('many delegators');
  const rich = rng.weighted([[3, 10n ** 6n * ONE], [1, 10n ** 9n * ONE / 10n]]);
  for (const u of [...everyone, 'eve.near']) chain.createAccount(u, rich, { code: forwarder() });
  chain.forward = { p: rng.pick([0, 0.1, 0.3]), via: [...everyone, 'eve.near'], by: [...everyone, 'eve.near'] };
   chain.createAccount('vote.near', ONE);
  chain.createAccount(POOL, tiny ? FUND + 1n + rng.big(rng.pick([3n, 1000n, 10n ** 9n])) : rng.weighted([[2, 5n * ONE], [2, 30n * ONE + rng.big(ONE)], [1, 10n ** 5n * ONE]]), { code: wasm('staking_pool') });
  if (rng.chance(0.3)) chain.minStake = rng.pick([ONE, 1000n * ONE, 10n ** 6n * ONE, 10n ** 30n]);
  const rew = rng.weighted([[3, 0n], [2, 10n ** 20n], [1, 10n ** 3n]]);
  chain.rewardFn = (rc) => (rc.receiver === POOL && rew ? rng.big(rew) : 0n);
  const mon = new PoolMonitor(ctx, chain, POOL, everyone, owner);
  const keys = ['k1', 'k2', 'k3'].map(pkOf);
  mon.keys = new Map(keys.map((k) => [pk58(k), k]));
  const fees = [{ numerator: 0, denominator: 1 }, { numerator: 1, denominator: 1 }, { numerator: 10, denominator: 100 }, { numerator: 1, denominator: 3 }, { numerator: 4294967295, denominator: 4294967295 }, { numerator: 1, denominator: 4294967295 }, { numerator: 4294967294, denominator: 4294967295 }];
  const badFees = [{ numerator: 2, denominator: 1 }, { numerator: 0, denominator: 0 }, { numerator: 1, denominator: 0 }, { numerator: 4294967295, denominator: 4294967294 }];
  const newArgs = (bad) => ({ owner_id: owner, stake_public_key: pk58(rng.pick(keys)), reward_fee_fraction: bad ? rng.pick(badFees) : rng.pick(fees) });
  if (rng.chance(0.1)) { chain.run(owner, POOL, 'new', newArgs(true)); if (ctx.bad) return; }
  if (rng.chance(0.1)) { const r = chain.run(owner, POOL, 'deposit', {}, { deposit: ONE }); ctx.expect(!r.ok, ['S06'], 'deposit accepted before initialization'); if (ctx.bad) return; }
  const h = chain.run(owner, POOL, 'new', newArgs(false));
  if (ctx.bad || !mon.model) { if (!ctx.bad) ctx.fail(['S06'], 'initialization failed: ' + json(h.error)); return; }
  chain.run('eve.near', POOL, 'new', { ...newArgs(false), owner_id: 'eve.near' });
  if (ctx.bad) return;
  const epochReward = () => rng.weighted([[2, () => 0n], [3, (id, a) => a.locked / 1000n + rng.big(1000n)], [1, () => rng.big(50n)], [1, (id, a) => a.locked * BigInt(rng.range(1, 40))], [0.3, (id, a) => a.locked * 10n ** 6n]]);
  const tick = () => { const f = epochReward(); chain.nextEpoch((id, a) => { const r = f(id, a); return r + a.locked > 10n ** 36n ? rng.big(ONE) : r; }); if (rng.chance(0.06)) { chain.kick(POOL); ctx.hit('validator kicked'); } };
  const idle = () => { chain.drain(); for (let k = rng.pick([51, 65, 130, 260]); k > 0 && !ctx.bad; k--) tick(); ctx.hit('many epochs without a call'); };
  if (rng.chance(0.06)) { idle(); if (ctx.bad) return; }
  chain.between = () => { if (rng.chance(0.02) && chain.canTick()) { tick(); ctx.hit('epoch boundary inside a promise chain'); } };
  const near = (b) => rng.pick([b, b - 1n, b + 1n, b / 2n, b - b / 3n, rng.big(b + 1n)]);
  const amount = (u, kind) => {
    const a = mon.model.get(u), m = mon.model, price = m.T / m.S + 1n;
    const base = kind === 'un' ? mulDown(m.T, a.shares, m.S) : a.unstaked;
    const v = rng.weighted([[5, near(base)], [2, rng.big(base + 2n)], [1, 1n], [1, price - 1n], [1, price + rng.big(price)], [0.3, 0n], [0.2, U128_MAX], [1, BigInt(rng.range(1, 50))]]);
    return (v < 0n ? 0n : v).toString();
  };
  const dep = () => rng.weighted([[3, BigInt(rng.range(1, 5000)) * ONE + rng.big(ONE)], [2, ONE], [2, BigInt(rng.range(1, 100))], [1, 1n], [0.4, 0n], [1, mon.model.T / mon.model.S + rng.big(3n)], [1, rng.big(mon.model.T + 1n) % (rich / 4n)]]);
  const steps = crowd ? rng.range(15, 30) : rng.range(20, 60);
  if (crowd) { for (const u of users) if (rng.chance(0.9)) chain.call(u, POOL, rng.chance(0.7) ? 'deposit_and_stake' : 'deposit', {}, { deposit: ONE + rng.big(ONE) }); chain.drain(); if (ctx.bad) return; mon.compareLists(); if (ctx.bad) return; }
  const deleted = new Set();
  for (let i = 0; i < steps && !ctx.bad; i++) {
    const u = rng.pick(everyone), who = rng.chance(0.8) ? owner : rng.pick([...everyone, 'eve.near']);
    if (deleted.has(u) || deleted.has(who)) continue;
    const c = (s, m, a = {}, d = 0n) => chain.call(s, POOL, m, a, { deposit: d });
    rng.weighted([
      [5, () => c(u, 'deposit', {}, dep())], [6, () => c(u, 'deposit_and_stake', {}, dep())],
      [6, () => c(u, 'stake', { amount: amount(u) })], [3, () => c(u, 'stake_all')],
      [6, () => c(u, 'unstake', { amount: amount(u, 'un') })], [2, () => c(u, 'unstake_all')],
      [6, () => c(u, 'withdraw', { amount: amount(u) })], [3, () => c(u, 'withdraw_all')],
      [3, () => c(rng.pick([...everyone, 'eve.near']), 'ping')],
      [1, () => c(who, 'update_staking_key', { stake_public_key: pk58(rng.pick(keys)) })],
      [1.2, () => c(who, 'update_reward_fee_fraction', { reward_fee_fraction: rng.chance(0.75) ? rng.pick(fees) : rng.pick(badFees) })],
      [0.6, () => c(who, 'vote', { voting_account_id: 'vote.near', is_vote: rng.chance(0.5) })],
      [1, () => c(who, 'pause_staking')], [1.4, () => c(who, 'resume_staking')],
      [0.4, () => c(rng.pick([u, 'eve.near']), 'on_stake_action')],
      [0.3, () => c(u, rng.pick(['withdraw_all', 'stake_all', 'unstake_all', 'ping']), {}, 1n)],
      [0.7, () => chain.tx('eve.near', POOL, [{ type: 'Transfer', amount: dep() + 1n }])],
      [5, () => { const n = rng.weighted([[3, 1], [1, 4], [0.5, rng.range(2, 6)]]); for (let k = 0; k < n && !ctx.bad; k++) { if (!chain.canTick()) chain.drain(); if (!ctx.bad) tick(); } }],
      [0.03, idle],
      [0.3, () => { chain.minStake = rng.pick([0n, 0n, 10n ** 30n, mon.model.T + ONE]); }],
      [0.12, () => { if (u !== owner && deleted.size === 0) { c(u, 'withdraw_all'); chain.tx(u, u, [{ type: 'DeleteAccount', beneficiary: 'eve.near' }]); deleted.add(u); ctx.hit('user deleted while a withdrawal is in flight'); } }],
      [1.2, () => { // stake then unstake the same amount in one epoch
        const a = mon.model.get(u).unstaked; if (a > 0n) { const s = rng.chance(0.5) ? a : 1n + rng.big(a); chain.drain(); if (ctx.bad) return; const e0 = chain.epoch;
          const r1 = chain.run(u, POOL, 'stake', { amount: s.toString() });
          if (ctx.bad || !r1.ok) return;
          const r2 = chain.run(u, POOL, 'unstake', { amount: s.toString() });
          // staked s charges at most s; what was charged can be taken back
          if (r2.ok) ctx.hit('stake/unstake round trip');
          void e0; } }],
    ])();
    if (ctx.bad) return;
    if (rng.chance(0.6)) { chain.drain(); if (!ctx.bad) mon.atIdle(); }
    else for (let k = rng.int(3); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
  }
  if (ctx.bad) return;
  chain.drain();
  if (ctx.bad) return;
  // Exit: everyone unstakes everything; four epochs later everything available must be withdrawable.
  if (rng.chance(0.7)) {
    chain.between = null;
    const order = rng.shuffle([...everyone].filter((u) => !deleted.has(u)));
    for (const u of order) { if (mon.model.get(u).shares > 0n) chain.call(u, POOL, 'unstake_all'); if (rng.chance(0.5)) chain.drain(); if (ctx.bad) return; }
    chain.drain(); if (ctx.bad) return;
    for (let k = 0; k < 4; k++) { tick(); if (rng.chance(0.3)) chain.run('eve.near', POOL, 'ping'); if (ctx.bad) return; }
    for (const u of order) {
      const un = mon.model.get(u).unstaked; if (un === 0n) continue;
      const b0 = chain.acct(u).amount, r = chain.run(u, POOL, 'withdraw_all');
      if (ctx.bad) return;
      ctx.expect(r.ok && chain.acct(u).amount === b0 + un, ['S01', 'S03'], () => `four epochs after unstaking ${u} could not withdraw ${un}: ${json(r.error)} got ${chain.acct(u).amount - b0}`);
      ctx.hit('full exit after four epochs');
      if (ctx.bad) return;
    }
  }
  mon.atIdle();
}
