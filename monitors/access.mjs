// Access-control matrix over the whole exported surface of every contract: every exported method, called
// by every kind of caller (owners, foundation, members, counterparties, strangers, look-alikes, the
// contract itself, and through a forwarding contract so that signer and predecessor differ), with and
// without a deposit, before and after initialization and in the middle of operations in flight.
import { Chain, json, jsContract, pkOf, pk58 } from '../lib/chain.mjs';
import { ONE, GAS_T } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';
export const meta = {
  rule: { '*': 'Evaluations: calls of exported methods of all ten stateful contracts (real WASM), each judged against the access table. Distinct: (contract, initialized, method, kind of caller, by transaction / forwarded / forwarded with a promise result, deposit class, outcome class).' },
  assumptions: ['the runtime model in lib/chain.mjs reproduces NEAR caller identity (predecessor, signer, promise results) and deposit refunds', 'the access table in monitors/access.mjs states who each method is for'],
};
const PROXY = 'proxy.near', O = 'owner.near', FD = 'foundation.near', SELF = 'self';
const b64 = (x) => Buffer.from(typeof x === 'string' ? x : json(x)).toString('base64');
const anyone = null; // who: null = anyone
// who: list of permitted callers (predecessors); 'self' = the contract account; pay: takes money; view: never writes.
const cb = { who: [SELF], pay: true }; // a deposit from the contract to itself is its own business
const V = { who: anyone, view: true };
const spec = {
  whitelist: {
    wasm: 'whitelist', id: 'whitelist.near', init: () => ({ foundation_account_id: FD }),
    methods: { is_whitelisted: V, is_factory_whitelisted: V, add_staking_pool: { who: [FD, 'factory.near'] }, remove_staking_pool: { who: [FD] }, add_factory: { who: [FD] }, remove_factory: { who: [FD] } },
    prep: (c, id) => { c.run(FD, id, 'add_factory', { factory_account_id: 'factory.near' }); },
    keep: (m, args) => !(m === 'remove_factory' || (m === 'add_factory' && args.factory_account_id !== 'factory.near')), // keeps the set of factories fixed
  },
  'staking-pool': {
    wasm: 'staking_pool', id: 'pool.near', balance: 60n, init: () => ({ owner_id: O, stake_public_key: pk58(pkOf('pool')), reward_fee_fraction: { numerator: 10, denominator: 100 } }),
    methods: {
      ping: { who: anyone }, deposit: { who: anyone, pay: true }, deposit_and_stake: { who: anyone, pay: true }, withdraw_all: { who: anyone }, withdraw: { who: anyone }, stake_all: { who: anyone }, stake: { who: anyone }, unstake_all: { who: anyone }, unstake: { who: anyone },
      get_account_unstaked_balance: V, get_account_staked_balance: V, get_account_total_balance: V, is_account_unstaked_balance_available: V, get_total_staked_balance: V, get_owner_id: V, get_reward_fee_fraction: V, get_staking_key: V, is_staking_paused: V, get_account: V, get_number_of_accounts: V, get_accounts: V,
      on_stake_action: cb, update_staking_key: { who: [O] }, update_reward_fee_fraction: { who: [O] }, vote: { who: [O] }, pause_staking: { who: [O] }, resume_staking: { who: [O] },
    },
    prep: (c, id) => { c.run('alice.near', id, 'deposit_and_stake', {}, { deposit: 50n * ONE }); c.run('bob.near', id, 'deposit', {}, { deposit: 5n * ONE }); },
  },
  lockup: {
    wasm: 'lockup_contract', id: 'lock.near', balance: 1000n, oldInit: true,
    init: (rng) => ({
      owner_account_id: O, lockup_duration: '0', lockup_timestamp: null, release_duration: null, staking_pool_whitelist_account_id: 'whitelist.near', foundation_account_id: FD,
      transfers_information: rng.chance(0.5) ? { TransfersDisabled: { transfer_poll_account_id: 'poll.near' } } : { TransfersEnabled: { transfers_timestamp: '1500000000000000000' } },
      vesting_schedule: { VestingSchedule: { start_timestamp: '1550000000000000000', cliff_timestamp: '1560000000000000000', end_timestamp: '1700000000000000000' } },
    }),
    methods: Object.fromEntries([
      ...['get_owner_account_id', 'get_staking_pool_account_id', 'get_known_deposited_balance', 'get_termination_status', 'get_terminated_unvested_balance', 'get_terminated_unvested_balance_deficit', 'get_locked_amount', 'get_locked_vested_amount', 'get_unvested_amount', 'get_vesting_information', 'get_owners_balance', 'get_balance', 'get_liquid_owners_balance', 'are_transfers_enabled'].map((m) => [m, V]),
      ...['select_staking_pool', 'unselect_staking_pool', 'deposit_to_staking_pool', 'deposit_and_stake', 'refresh_staking_pool_balance', 'withdraw_from_staking_pool', 'withdraw_all_from_staking_pool', 'stake', 'unstake', 'unstake_all', 'check_transfers_vote', 'transfer', 'add_full_access_key'].map((m) => [m, { who: [O] }]),
      ...['terminate_vesting', 'termination_prepare_to_withdraw', 'termination_withdraw'].map((m) => [m, { who: [FD] }]),
      ...['on_get_account_staked_balance_to_unstake', 'on_staking_pool_unstake_for_termination', 'on_get_account_unstaked_balance_to_withdraw', 'on_staking_pool_withdraw_for_termination', 'on_withdraw_unvested_amount', 'on_whitelist_is_whitelisted', 'on_staking_pool_deposit', 'on_staking_pool_deposit_and_stake', 'on_staking_pool_withdraw', 'on_staking_pool_stake', 'on_staking_pool_unstake', 'on_staking_pool_unstake_all', 'on_get_result_from_transfer_poll', 'on_get_account_total_balance', 'on_get_account_unstaked_balance_to_withdraw_by_owner'].map((m) => [m, cb]),
    ]),
    prep: (c, id, rng) => { if (rng.chance(0.8)) c.run(O, id, 'select_staking_pool', { staking_pool_account_id: 'pool.near' }); if (rng.chance(0.6)) c.run(O, id, 'deposit_and_stake', { amount: (100n * ONE).toString() }); if (rng.chance(0.25)) c.run(FD, id, 'terminate_vesting', {}); },
  },
  voting: {
    wasm: 'voting_contract', id: 'poll.near', init: () => ({}), methods: { ping: { who: anyone }, vote: { who: ['val1.near', 'val2.near', 'val3.near'], only: (a) => a.is_vote === true }, get_result: V, get_total_voted_stake: V, get_votes: V },
    prep: (c, id, rng) => { if (rng.chance(0.3)) c.run('val1.near', id, 'vote', { is_vote: true }); },
  },
  multisig: {
    wasm: 'multisig', id: 'wallet.near', balance: 100n, selfKey: true, init: () => ({ num_confirmations: 2 }),
    methods: { ...Object.fromEntries(['add_request', 'add_request_and_confirm', 'delete_request', 'confirm'].map((m) => [m, { who: [SELF] }])), ...Object.fromEntries(['get_request', 'get_num_requests_pk', 'list_request_ids', 'get_confirmations', 'get_num_confirmations', 'get_request_nonce'].map((m) => [m, V])) },
    prep: (c, id) => { c.run(id, id, 'add_request_and_confirm', { request: { receiver_id: 'alice.near', actions: [{ type: 'Transfer', amount: '1' }] } }); },
  },
  multisig2: {
    wasm: 'multisig2', id: 'wallet2.near', balance: 100n, selfKey: true, init: () => ({ members: [{ account_id: O }, { account_id: FD }, { public_key: pk58(pkOf('wallet2.near')) }], num_confirmations: 2 }),
    methods: { ...Object.fromEntries(['add_request', 'add_request_and_confirm', 'delete_request', 'confirm'].map((m) => [m, { who: [O, FD, SELF] }])), ...Object.fromEntries(['get_members', 'get_request', 'get_num_requests_per_member', 'list_request_ids', 'get_confirmations', 'get_num_confirmations', 'get_request_nonce'].map((m) => [m, V])) },
    prep: (c, id) => { c.run(O, id, 'add_request_and_confirm', { request: { receiver_id: 'alice.near', actions: [{ type: 'Transfer', amount: '1' }] } }); },
  },
  'staking-pool-factory': {
    wasm: 'staking_pool_factory', id: 'pools.near', balance: 100n, init: () => ({ staking_pool_whitelist_account_id: 'whitelist.near' }),
    methods: { get_min_attached_balance: V, get_number_of_staking_pools_created: V, create_staking_pool: { who: anyone, pay: true }, on_staking_pool_create: cb },
    prep: () => {},
  },
  'lockup-factory': {
    wasm: 'lockup_factory', id: 'lockups.near', balance: 100n, init: () => ({ whitelist_account_id: 'whitelist.near', foundation_account_id: FD }),
    methods: { get_foundation_account_id: V, get_lockup_master_account_id: V, get_min_attached_balance: V, create: { who: anyone, pay: true }, on_lockup_create: cb },
    prep: () => {},
  },
  'multisig-factory': { wasm: 'multisig_factory', id: 'wallets.near', balance: 100n, noInit: true, methods: { create: { who: anyone, pay: true }, on_multisig_create: cb }, prep: () => {} },
  'w-near': {
    wasm: 'w_near', id: 'wrap.near', init: () => ({}),
    methods: {
      storage_minimum_balance: V, ft_total_supply: V, ft_balance_of: V, storage_balance_bounds: V, storage_balance_of: V, ft_metadata: V, near_deposit: { who: anyone, pay: true }, near_withdraw: { who: anyone, pay: true }, ft_transfer: { who: anyone, pay: true }, ft_transfer_call: { who: anyone, pay: true },
      ft_resolve_transfer: cb, storage_deposit: { who: anyone, pay: true }, storage_withdraw: { who: anyone, pay: true }, storage_unregister: { who: anyone, pay: true },
    },
    prep: (c, id) => { for (const u of ['alice.near', 'bob.near', PROXY]) c.run(u, id, 'storage_deposit', {}, { deposit: ONE }); c.run('alice.near', id, 'near_deposit', {}, { deposit: 5n * ONE }); },
  },
};
export const CONTRACTS = Object.keys(spec);
// Values for every parameter name used by the contracts; unknown names are ignored by them.
function argsFor(rng, S, m, chain) {
  const who = () => rng.pick(['alice.near', 'bob.near', 'eve.near', O, 'factory.near', 'pool.near', PROXY]);
  const amt = () => rng.pick([0n, 1n, ONE, 3n * ONE, 40n * ONE, 200n * ONE]).toString();
  const key = pk58(pkOf(rng.pick(['k1', 'k2', 'wallet2.near'])));
  const base = {
    amount: amt(), staking_pool_account_id: rng.pick(['pool.near', who()]), factory_account_id: rng.pick(['factory.near', who()]), receiver_id: who(), account_id: who(), new_public_key: key, stake_public_key: key, public_key: key,
    reward_fee_fraction: { numerator: rng.int(10), denominator: 10 }, voting_account_id: 'poll.near', is_vote: rng.chance(0.6), from_index: 0, limit: 10, request_id: rng.int(4), is_whitelisted: true, total_balance: amt(),
    vesting_schedule: { start_timestamp: '1550000000000000000', cliff_timestamp: '1560000000000000000', end_timestamp: '1700000000000000000' },
    predecessor_account_id: who(), attached_deposit: amt(), owner_id: who(), sender_id: who(), lockup_account_id: 'x.lockups.near', unstaked_balance: amt(), staked_balance: amt(),
    request: { receiver_id: 'alice.near', actions: [rng.pick([{ type: 'Transfer', amount: amt() }, { type: 'SetNumConfirmations', num_confirmations: 2 }, { type: 'AddMember', member: { account_id: 'eve.near' } }])] },
    member: { account_id: O }, memo: null, msg: '', name: 'n' + rng.int(1000), members: [{ account_id: 'eve.near' }], num_confirmations: 1, force: null, registration_only: rng.chance(0.3), value: amt(), new_value: amt(), balance: amt(), epoch: 1,
    owner_account_id: who(), lockup_duration: '0', lockup_timestamp: null, release_duration: null, status: null, foundation_account_id: 'eve.near', whitelist_account_id: 'eve.near', staking_pool_whitelist_account_id: 'eve.near',
    transfers_information: { TransfersEnabled: { transfers_timestamp: '1500000000000000000' } }, vesting_information: 'None', whitelist: who(), id: who(), total_balance_hint: '1', accounts: [who()],
  };
  if (m === 'terminate_vesting') { if (rng.chance(0.7)) base.vesting_schedule_with_salt = null; delete base.vesting_schedule; }
  if (m === 'on_staking_pool_create') { base.owner_id = 'x'; }
  if (m === 'new') base.vesting_schedule = null;
  if (m === 'create' && S.wasm === 'lockup_factory') base.vesting_schedule = null;
  if (m === 'vote' && S.wasm === 'staking_pool') base.voting_account_id = 'poll.near';
  return base;
}
const enc = (s) => Buffer.from(s).toString('base64');
export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng); ctx.chain = chain;
  const cname = CONTRACTS[ctx.index % CONTRACTS.length], S = spec[cname], ID = S.id;
  const people = [O, FD, 'factory.near', 'alice.near', 'bob.near', 'eve.near', 'val1.near', 'val2.near', 'val3.near', 'x.' + O, 'a' + O, O.slice(0, -1), 'x.' + FD, FD.slice(1), 'x.' + ID, 'near', 'system.near'];
  for (const p of people) chain.createAccount(p, 10n ** 6n * ONE);
  chain.stakeOverride = { validatorStake: (id) => ({ 'val1.near': 40n * ONE, 'val2.near': 35n * ONE, 'val3.near': 25n * ONE }[id] ?? 0n), validatorTotalStake: () => 100n * ONE };
  // Forwards a call as its own predecessor; with `then`, as a callback carrying a promise result.
  chain.createAccount(PROXY, 10n ** 6n * ONE, {
    code: jsContract((api) => {
      const a = api.args; if (api.method === 'give') return JSON.parse(a.v);
      if (api.method !== 'fwd') return null;
      const call = { type: 'FunctionCall', method: a.method, args: Buffer.from(a.args, 'base64'), deposit: BigInt(a.deposit), gas: 150n * GAS_T };
      if (a.then === undefined) return api.promise(ID, [call]);
      const p = api.promise(PROXY, [{ type: 'FunctionCall', method: 'give', args: { v: a.then } }]);
      return api.promise(ID, [call], [p]);
    }),
  });
  const deploy = (s) => { chain.createAccount(s.id, (s.balance ?? 50n) * ONE, { code: wasm(s.wasm), keys: [pkOf(s.id)] }); };
  const deps = { lockup: ['whitelist', 'staking-pool'], 'staking-pool': ['voting'], 'staking-pool-factory': ['whitelist'] }[cname] ?? [];
  for (const d of deps) { const s = spec[d]; deploy(s); if (!chain.run(O, s.id, 'new', s.init(rng)).ok) throw new Error('setup of ' + d); s.prep(chain, s.id, rng); }
  if (deps.includes('whitelist')) { chain.run(FD, 'whitelist.near', 'add_staking_pool', { staking_pool_account_id: 'pool.near' }); if (cname === 'staking-pool-factory') chain.run(FD, 'whitelist.near', 'add_factory', { factory_account_id: ID }); }
  if (cname === 'lockup' && rng.chance(0.7)) chain.createAccount('poll.near', 5n * ONE, { code: jsContract(() => (rng.chance(0.7) ? null : '1590000000000000000')) });
  deploy(S);
  const acct = () => chain.acct(ID);
  const exported = [...acct().code.methods].filter((m) => !m.startsWith('_'));
  for (const m of Object.keys(S.methods)) if (!exported.includes(m) && m !== 'on_multisig_create') ctx.fail('X01 X02 X03', `method ${m} of ${cname} is no longer exported`);
  let inited = !!S.noInit, snap = null;
  const state = () => { const a = acct(); const k = [...a.storage.entries()].sort(([x], [y]) => (x < y ? -1 : 1)); return json([k.map(([x, v]) => [x, v.toString('hex')]), [...a.keys.keys()].sort(), a.code.hash]); };
  const kindOf = (p) => (p === ID ? 'self' : p === PROXY ? 'proxy' : p === O ? 'owner' : p === FD ? 'foundation' : p === 'factory.near' ? 'factory' : p.startsWith('val') ? 'validator' : /owner|foundation/.test(p) ? 'look-alike' : p === 'pool.near' ? 'pool' : 'stranger');
  const marks = new Map(); // tx/receipt id -> description of a probe
  chain.listeners.push((ev) => {
    const rc = ev.rc, a = rc.actions[0];
    if (ctx.bad) return;
    if (rc.receiver !== ID || !a || rc.refund) return;
    if (a.type !== 'FunctionCall') { snap = state(); return; } // e.g. the contract adding a key to itself
    const after = state(), before = snap ?? after; snap = after;
    const pred = rc.pred, m = a.method, sp = S.methods[m], dep = a.deposit > 0n, kind = kindOf(pred), via = rc.signer === pred ? 'tx' : ev.results.length ? 'then' : 'fwd';
    if (rc.actions.length > 1) return;
    const changed = before !== after || ev.made.length > 0;
    ctx.saw(`${cname}|${inited}|${m}|${kind}|${via}|${kindOf(rc.signer)}|${a.deposit === 0n ? 0 : a.deposit === 1n ? 1 : 2}|${ev.ok}|${changed}`);
    const desc = `${cname}.${m}(${a.args.toString('latin1').slice(0, 160)}) by ${pred}${rc.signer === pred ? '' : ` (signed by ${rc.signer})`} with deposit ${a.deposit}`;
    ctx.note(`${desc} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + ev.error.msg}`);
    if (!ev.ok) { ctx.hit(`${cname}: refused${inited ? '' : ' before initialization'}`); ctx.expect(!changed, 'X01 X02 X03', () => `a failed call changed state: ${desc}`); return; }
    if (m === 'new') {
      if (S.noInit) return;
      ctx.expect(!inited, 'X02', () => `initialized a second time: ${desc}`);
      if (dep && !S.initPay) ctx.fail('X03', `initialization kept a deposit: ${desc}`);
      inited = true; ctx.hit(`${cname}: initialized`); return;
    }
    if (!inited) { ctx.expect(!changed, 'X02', () => `worked before initialization: ${desc}`); if (!sp?.view) ctx.fail('X02', `succeeded before initialization: ${desc}`); return; }
    if (!sp) { // not in the table: whatever it is, a caller without a role must not be able to act through it
      ctx.hit('unlisted method called');
      if (kind !== 'self' && kind !== 'owner' && kind !== 'foundation') ctx.expect(!changed, 'X01', () => `an unlisted method acts for anybody: ${desc}`);
      return;
    }
    if (sp.view) { ctx.expect(!changed, 'X01 X03', () => `a query changed state or made calls: ${desc}`); ctx.hit(`${cname}: queries by transaction`); return; }
    if (sp.who && (!sp.only || sp.only(JSON.parse(a.args.toString())))) {
      const ok = sp.who.includes(pred) || (sp.who.includes(SELF) && pred === ID);
      if (!ctx.expect(ok, 'X01', () => `accepted from a caller without the role: ${desc}`)) return;
      ctx.hit(`${cname}: ${sp === cb ? 'callbacks' : 'restricted methods'} accepted from their caller`);
    }
    if (dep && !sp.pay) ctx.fail('X03', `an attached deposit was kept: ${desc}`);
    if (dep) ctx.hit(`${cname}: deposits taken`);
  });
  const probe = (m) => {
    const args = argsFor(rng, S, m, chain);
    const permitted = (S.methods[m]?.who ?? []).map((w) => (w === SELF ? ID : w));
    let pred = rng.weighted([[4, rng.pick(people)], [permitted.length ? 3 : 0, permitted.length ? rng.pick(permitted) : O], [1, ID], [deps.includes('staking-pool') ? 1.5 : 0, 'pool.near'], [2.5, PROXY]]);
    let deposit = rng.weighted([[6, 0n], [1.5, 1n], [1.5, 7n * ONE], [S.methods[m]?.pay ? 4 : 0, 40n * ONE]]);
    if (m === 'new' && inited) Object.assign(args, rng.chance(0.5) ? S.init?.(rng) ?? {} : {});
    if (m === 'new' && rng.chance(0.8)) deposit = 0n;
    if (S.keep && permitted.includes(pred) && !S.keep(m, args)) return;
    if (m === 'deposit_and_stake' || m === 'select_staking_pool') args.staking_pool_account_id = 'pool.near';
    let raw = args; if (m === 'terminate_vesting') raw = { vesting_schedule_with_salt: null };
    if (pred === PROXY) {
      // signer is often exactly who would have been allowed
      const signer = permitted.length && rng.chance(0.7) ? rng.pick(permitted) : rng.pick(people);
      const then = rng.chance(0.5) ? rng.pick(['"1000000000000000000000000"', 'true', 'null', '"0"', '"1590000000000000000"', '["1","1"]']) : undefined;
      chain.call(signer, PROXY, 'fwd', { method: m, args: b64(raw), deposit: deposit.toString(), then });
    } else chain.call(pred, ID, m, raw, { deposit });
  };
  snap = state();
  const n0 = rng.range(3, 12);
  const first = S.noInit ? 0 : n0;
  for (let i = 0; i < first && !ctx.bad; i++) { const m = rng.pick(exported.filter((x) => x !== 'new')); probe(m); chain.drain(); }
  if (!inited && !ctx.bad) {
    if (rng.chance(0.15)) { chain.run('eve.near', ID, 'new', S.init(rng), { deposit: ONE }); }
    if (!inited && !ctx.bad) { snap = state(); const h = chain.run('eve.near', ID, 'new', S.init(rng)); if (!ctx.bad && !h.ok) ctx.fail('X02', `initialization of ${cname} with valid arguments failed: ${json(h.error)}`); }
  }
  if (ctx.bad) return;
  S.prep(chain, ID, rng); snap = state();
  const n = rng.range(25, 60);
  for (let i = 0; i < n && !ctx.bad; i++) {
    probe(rng.pick(exported));
    if (rng.chance(0.5)) { for (let k = rng.int(8); k > 0 && !chain.idle(); k--) chain.step(); } else chain.drain();
    if (rng.chance(0.05) && chain.canTick()) chain.nextEpoch();
  }
  if (!ctx.bad) chain.drain();
  ctx.sample({ contract: cname, exported: exported.length, probes: n });
}
