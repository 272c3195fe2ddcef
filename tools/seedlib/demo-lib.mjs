// Shared by the demonstrations: a small chain, checked calls, and the usual accounts.
import { Chain, pkOf, pk58, json, jsContract, forwarder } from './chain.mjs';
import { Rng } from './rng.mjs';
import { wasm } from './wasm.mjs';
export { pkOf, pk58, json, jsContract, forwarder, wasm };
export const N = 10n ** 24n, DAY = 86_400_000_000_000n, T0 = 1_600_000_000_000_000_000n;
export const need = (c, m) => { if (!c) { console.log('BROKEN: ' + m); process.exit(1); } };
export const eq = (a, b, m) => need(json(a) === json(b), `${m}: ${json(a)} instead of ${json(b)}`);
export class World {
  constructor() { this.c = new Chain(new Rng('demo'), { timestamp: T0 }); }
  user(...ids) { for (const i of ids) this.c.createAccount(i, 10n ** 15n * N, {}); return this; }
  ok(s, r, m, a, o) { const h = this.c.run(s, r, m, a, o); need(h.ok, `${m} by ${s} on ${r} failed: ${json(h.error)}`); return h.value && h.value.length ? JSON.parse(h.value.toString()) : null; }
  no(s, r, m, a, o) { const h = this.c.run(s, r, m, a, o); need(!h.ok, `${m} by ${s} on ${r} was accepted`); }
  try(s, r, m, a, o) { return this.c.run(s, r, m, a, o).ok; }
  get(id, m, a) { return this.c.get(id, m, a); }
  bal(id) { return this.c.acct(id).amount; }
  // staking pool
  pool(id = 'pool.near', fee = [1, 10], owner = 'owner.near') {
    this.c.createAccount(id, 100n * N, { code: wasm('staking_pool') });
    this.ok(owner, id, 'new', { owner_id: owner, stake_public_key: pk58(pkOf('stake')), reward_fee_fraction: { numerator: fee[0], denominator: fee[1] } });
  }
  epochs(n, reward = () => 0n) { for (let i = 0; i < n; i++) this.c.nextEpoch(reward); }
  staked(p, u) { return BigInt(this.get(p, 'get_account_staked_balance', { account_id: u })); }
  unstaked(p, u) { return BigInt(this.get(p, 'get_account_unstaked_balance', { account_id: u })); }
  // lockup, with the real whitelist
  lockup(args = {}, balance = 1000n * N) {
    this.c.createAccount('whitelist.near', 10n * N, { code: wasm('whitelist') });
    this.ok('foundation.near', 'whitelist.near', 'new', { foundation_account_id: 'foundation.near' });
    this.c.createAccount('lockup.near', balance, { code: wasm('lockup_contract') });
    this.ok('owner.near', 'lockup.near', 'new', { owner_account_id: 'owner.near', lockup_duration: '0', lockup_timestamp: null, transfers_information: { TransfersEnabled: { transfers_timestamp: (T0 - 1000n * DAY).toString() } }, vesting_schedule: null, release_duration: null, staking_pool_whitelist_account_id: 'whitelist.near', foundation_account_id: null, ...args });
  }
  whitelist(id) { this.ok('foundation.near', 'whitelist.near', 'add_staking_pool', { staking_pool_account_id: id }); }
  // an honest-looking pool whose calls fail while 'down' says so
  mockPool(id, state) {
    this.c.createAccount(id, 1000n * N, { code: jsContract((api) => {
      const k = api.pred, s = state;
      if (s.down && s.down(api.method, api)) throw new Error('down');
      s.st ??= 0n; s.un ??= 0n;
      switch (api.method) {
        case 'deposit': s.un += api.deposit; return undefined;
        case 'deposit_and_stake': s.st += api.deposit; return undefined;
        case 'stake': { const a = BigInt(api.args.amount); if (a > s.un) throw new Error('x'); s.un -= a; s.st += a; return undefined; }
        case 'unstake': { const a = BigInt(api.args.amount); if (a > s.st) throw new Error('x'); s.st -= a; s.un += a; return undefined; }
        case 'unstake_all': s.un += s.st; s.st = 0n; return undefined;
        case 'withdraw': { const a = BigInt(api.args.amount); if (a > s.un) throw new Error('x'); s.un -= a; api.promise(k, [{ type: 'Transfer', amount: a }]); return undefined; }
        case 'get_account_total_balance': return (s.st + s.un).toString();
        case 'get_account_staked_balance': return s.st.toString();
        case 'get_account_unstaked_balance': return s.un.toString();
        default: throw new Error('MethodNotFound');
      }
    }) });
  }
}
// A multisig2 wallet whose members are accounts and/or keys; a multisig (v1) wallet whose members are keys.
export const W = 'wallet.near';
export class Wallet extends World {
  v2(members, K) {
    this.user(...members.filter((m) => m.account_id).map((m) => m.account_id));
    this.c.createAccount(W, 1000n * N, { code: wasm('multisig2'), keys: [] });
    this.ok(W, W, 'new', { members, num_confirmations: K });
    return this;
  }
  v1(keys, K) {
    this.c.createAccount(W, 1000n * N, { code: wasm('multisig'), keys: keys.map(pkOf) });
    this.ok(W, W, 'new', { num_confirmations: K }, { pk: pkOf(keys[0]) });
    return this;
  }
  add(by, actions, receiver = W, o = {}) { return this.ok(by, W, 'add_request', { request: { receiver_id: receiver, actions } }, o); }
  confirm(by, id, o) { return this.ok(by, W, 'confirm', { request_id: id }, o); }
}
