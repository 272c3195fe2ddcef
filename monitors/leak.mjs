// Storage leaks: cycles of work that bring a contract back to the same records must bring it back to the same storage.
// The oracle is the account's storage usage (what the account has to pay for) at the ends of cycles, never the layout.
import { Chain, json, jsContract, pkOf, pk58 } from '../lib/chain.mjs';
import { names } from '../lib/ids.mjs';
import { ONE, GAS_T } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';

export const meta = {
  rule: { '*': 'Evaluations: ends of cycles at which the records a contract shows are those of the start and its storage usage was compared, plus the receipts in between. Distinct: (contract, operations that succeeded in the cycle, length class).' },
  assumptions: ['storage usage is counted as the protocol does (key + value + 40 bytes per record, 82 per access key)'],
};
const T = ['X06'], K = 1_000_000_000_000_000n;
const KINDS = ['multisig', 'multisig2', 'multisig2', 'staking_pool', 'staking_pool', 'whitelist', 'w_near', 'voting', 'staking_pool_factory', 'lockup_contract'];

export async function scenario(ctx) {
  const rng = ctx.rng, kind = KINDS[ctx.index % KINDS.length];
  const chain = new Chain(rng, { timestamp: 1_600_000_000_000_000_000n, epoch: 5n }); ctx.chain = chain;
  const users = names(rng, ['alice.near', 'bob.near', 'carol.near', 'dave.near', 'erin.near'].slice(0, rng.range(3, 5)), ['c.near', 'mock.near', 'pools.near', 'wl.near', 'op.near', 'vote.near']);
  for (const u of [...users, 'op.near']) chain.createAccount(u, 10n ** 8n * ONE, { keys: [pkOf(u)] });
  const C = 'c.near', used = new Set();
  let receipts = 0;
  chain.listeners.push((ev) => { const a = ev.rc.actions.at(-1); if (ev.rc.receiver === C && a?.type === 'FunctionCall') { receipts++; ctx.evals++; if (ev.ok) used.add(a.method); ctx.hit(`${kind} ${a.method} ${ev.ok ? 'ok' : 'refused'}`); ctx.note(`${ev.rc.pred} ${a.method} ${a.args.toString().slice(0, 160)} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + String(ev.error.msg).slice(0, 80)}; usage ${chain.acct(C)?.usage}`); } });
  const w = await WORLDS[kind](ctx, chain, rng, C, users);
  if (!w || ctx.bad) return;
  const warm = rng.range(1, 3), n = warm + rng.range(3, 8);
  let base = null;
  for (let i = 0; i < n && !ctx.bad; i++) {
    used.clear();
    await w.cycle(i < warm, i); if (ctx.bad) return;
    chain.drain(); if (ctx.bad) return;
    const at = w.records(), usage = chain.acct(C).usage;
    if (at !== w.start) { ctx.hit(`${kind}: cycle did not come back`); if (base === null) { w.start = at; } else return; }
    if (i < warm - 1) continue;
    if (base === null) { base = usage; continue; }
    ctx.evals++; ctx.hit(`${kind}: cycle ended where it began`);
    ctx.saw(`${kind}|${[...used].sort()}|${Math.min(20, receipts >> 4)}`);
    if (!ctx.expect(usage <= base, T, () => `${kind}: after a cycle of ${[...used].sort()} the same records (${at.slice(0, 300)}) take ${usage} bytes of storage, ${usage - base} more than before`)) return;
  }
  ctx.sample({ contract: kind, cycles: n, storage_bytes: String(base), receipts });
}

const wallet = (v2) => (ctx, chain, rng, W, users) => {
  const keys = Array.from({ length: rng.range(3, 5) }, (_, i) => pkOf('w' + i));
  chain.createAccount('mock.near', ONE, { code: jsContract(() => 1) });
  chain.createAccount(W, 10n ** 4n * ONE, { code: wasm(v2 ? 'multisig2' : 'multisig'), keys: v2 ? [] : keys });
  const members = v2 ? [...keys.map((k) => ({ public_key: pk58(k) })), ...users.slice(0, rng.range(0, 3)).map((account_id) => ({ account_id }))] : null;
  if (!chain.run('op.near', W, 'new', v2 ? { members, num_confirmations: 2 } : { num_confirmations: 2 }).ok) return null;
  let k = 2, guests = 0;
  const raw = new Map(keys.map((x) => [pk58(x), x]));
  const all = v2 ? members : keys.map((x) => ({ public_key: pk58(x) }));
  const live = () => (v2 ? chain.get(W, 'get_members') : [...chain.acct(W).keys.keys()].map((x) => ({ public_key: pk58(x) })));
  const send = (m, method, args) => (m.account_id ? chain.call(m.account_id, W, method, args, { gas: 300n * GAS_T }) : chain.call(W, W, method, args, { pk: raw.get(m.public_key), gas: 300n * GAS_T }));
  const go = (m, method, args) => { const h = send(m, method, args); chain.drain(); return h; };
  const ids = () => chain.get(W, 'list_request_ids');
  const carry = (req, by = rng.shuffle(live())) => { // a request through to its execution
    const h = go(by[0], 'add_request', { request: req }); if (!h.ok) return false;
    const id = JSON.parse(h.value.toString());
    for (const m of by) { if (!ids().includes(id)) break; go(m, 'confirm', { request_id: id }); }
    return !ids().includes(id);
  };
  const filler = () => (rng.chance(0.5) ? { type: 'Transfer', amount: '1' } : { type: 'FunctionCall', method_name: 'x'.repeat(rng.range(1, 30)), args: Buffer.alloc(rng.range(0, 200), 65).toString('base64'), deposit: '0', gas: String(3n * GAS_T) });
  const plain = () => ({ receiver_id: 'mock.near', actions: Array.from({ length: rng.range(1, 4) }, filler) });
  const cycle = () => {
    for (let i = rng.range(2, 14); i > 0 && !ctx.bad; i--) rng.weighted([
      [4, () => send(rng.pick(live()), rng.pick(['add_request', 'add_request_and_confirm']), { request: plain() })],
      [4, () => { const x = ids(); if (x.length) send(rng.pick(live()), 'confirm', { request_id: rng.pick(x) }); }],
      [1, () => { chain.timestamp += K; const x = ids(); if (x.length) send(rng.pick(live()), 'delete_request', { request_id: rng.pick(x) }); }],
      [1, () => carry(plain())],
      [1, () => { k = rng.range(1, 3); carry({ receiver_id: W, actions: [{ type: 'SetNumConfirmations', num_confirmations: k }] }); }],
      [0.5, () => carry({ receiver_id: W, actions: [{ type: 'SetActiveRequestsLimit', active_requests_limit: rng.range(14, 20) }] })],
      [1.5, () => { // a member leaves, with whatever it has open, and comes back
        const l = live(); if (l.length < 3) return; const m = rng.pick(l);
        for (let j = rng.int(4); j > 0; j--) go(m, rng.pick(['add_request', 'add_request_and_confirm']), { request: plain() });
        for (const id of ids()) if (rng.chance(0.3)) go(m, 'confirm', { request_id: id });
        if (carry({ receiver_id: W, actions: [v2 ? { type: 'DeleteMember', member: m } : { type: 'DeleteKey', public_key: m.public_key }] }, rng.shuffle(live().filter((x) => json(x) !== json(m))))) ctx.hit('member with open requests left'); }],
      [1.5, () => { // somebody who was never here before joins, works for a while and leaves
        const pk = pkOf('guest' + guests++), g = v2 && rng.chance(0.4) ? { account_id: rng.pick(['guest', 'g']) + guests + '.near' } : { public_key: pk58(pk) }; if (g.public_key) raw.set(g.public_key, pk); else chain.createAccount(g.account_id, ONE);
        if (!carry({ receiver_id: W, actions: [v2 ? { type: 'AddMember', member: g } : { type: 'AddKey', public_key: g.public_key }] }) || !live().some((x) => json(x) === json(g))) return;
        for (let j = rng.int(4); j > 0; j--) go(g, rng.pick(['add_request', 'add_request_and_confirm']), { request: plain() });
        for (const id of ids()) { if (rng.chance(0.5)) go(g, 'confirm', { request_id: id }); if (rng.chance(0.3)) go(rng.pick(live()), 'confirm', { request_id: id }); }
        if (rng.chance(0.3)) { chain.timestamp += K; for (const id of ids()) if (rng.chance(0.5)) go(rng.pick(live()), 'delete_request', { request_id: id }); }
        const others = rng.shuffle(live().filter((x) => json(x) !== json(g)));
        if (carry({ receiver_id: W, actions: [v2 ? { type: 'DeleteMember', member: g } : { type: 'DeleteKey', public_key: g.public_key }] }, others)) ctx.hit('a new member came and left'); }],
    ])();
    chain.drain(); if (ctx.bad) return;
    for (const m of live()) if (!all.some((x) => json(x) === json(m))) carry({ receiver_id: W, actions: [v2 ? { type: 'DeleteMember', member: m } : { type: 'DeleteKey', public_key: m.public_key }] }, rng.shuffle(live().filter((x) => json(x) !== json(m))));
    // everything back: requests gone, members as at the start, threshold as at the start
    for (const m of all) if (!live().some((x) => json(x) === json(m))) carry({ receiver_id: W, actions: [v2 ? { type: 'AddMember', member: m } : { type: 'AddKey', public_key: m.public_key }] });
    for (const m of rng.shuffle(all.slice())) go(m, 'add_request', { request: plain() }); // everybody has had a request
    for (const id of rng.shuffle(ids())) {
      if (rng.chance(0.5)) { chain.timestamp += K; go(rng.pick(live()), 'delete_request', { request_id: id }); }
      for (const m of rng.shuffle(live())) { if (!ids().includes(id)) break; go(m, 'confirm', { request_id: id }); }
    }
    if (k !== 2) { carry({ receiver_id: W, actions: [{ type: 'SetNumConfirmations', num_confirmations: 2 }] }); k = 2; }
  };
  const records = () => json([ids(), live().map(json).sort(), chain.get(W, 'get_num_confirmations')]);
  return { cycle, records, start: records() };
};

const WORLDS = {
  multisig: wallet(false), multisig2: wallet(true),
  staking_pool(ctx, chain, rng, P, users) {
    chain.createAccount(P, 100n * ONE, { code: wasm('staking_pool') });
    const key = () => pk58(pkOf('s' + rng.int(4)));
    if (!chain.run('op.near', P, 'new', { owner_id: 'op.near', stake_public_key: key(), reward_fee_fraction: { numerator: rng.pick([0, 0, 10]), denominator: 100 } }).ok) return null;
    const rate = rng.pick([0n, 1000n, 37n]), tick = () => { for (let i = 0; i < 200 && !chain.canTick(); i++) chain.step(); chain.nextEpoch((id, a) => (rate ? a.locked / rate : 0n)); };
    const bal = (u) => chain.get(P, 'get_account', { account_id: u }), all = [...users, 'op.near'];
    const cycle = () => {
      for (let i = rng.range(4, 25); i > 0 && !ctx.bad; i--) {
        const u = rng.pick(users), b = bal(u), part = (v) => String(rng.big(BigInt(v) + 2n));
        rng.weighted([
          [3, () => chain.call(u, P, rng.pick(['deposit', 'deposit_and_stake']), {}, { deposit: 1n + rng.big(rng.pick([100n, ONE, 10n ** 4n * ONE])) })],
          [2, () => chain.call(u, P, 'stake', { amount: part(b.unstaked_balance) })], [2, () => chain.call(u, P, 'unstake', { amount: part(b.staked_balance) })],
          [2, () => chain.call(u, P, 'withdraw', { amount: part(b.unstaked_balance) })], [2, () => chain.call(u, P, rng.pick(['stake_all', 'unstake_all', 'withdraw_all', 'ping']))],
          [1, () => chain.call('op.near', P, rng.pick(['pause_staking', 'resume_staking']))],
          [0.5, () => chain.call('op.near', P, 'update_staking_key', { stake_public_key: key() })],
          [3, tick],
        ])();
        if (rng.chance(0.5)) chain.drain();
      }
      chain.drain(); if (ctx.bad) return;
      for (const u of rng.shuffle(all.slice())) if (bal(u).staked_balance !== '0') chain.run(u, P, 'unstake_all');
      for (let e = 0; e < 4; e++) tick();
      for (const u of rng.shuffle(all.slice())) if (bal(u).staked_balance !== '0') chain.run(u, P, 'unstake_all'); // the owner's fee of the last epochs
      for (let e = 0; e < 4; e++) tick();
      for (const u of rng.shuffle(all.slice())) if (bal(u).unstaked_balance !== '0') chain.run(u, P, 'withdraw_all');
    };
    // the owner keeps an account when rewards never stop: its records count, the others' must be gone
    const records = () => json([chain.get(P, 'get_accounts', { from_index: 0, limit: 100 }).map((a) => a.account_id).sort(), chain.get(P, 'get_number_of_accounts')]);
    return { cycle, records, start: records() };
  },
  whitelist(ctx, chain, rng, W, users) {
    chain.createAccount(W, 50n * ONE, { code: wasm('whitelist') });
    if (!chain.run('op.near', W, 'new', { foundation_account_id: 'op.near' }).ok) return null;
    const ids = [...users, 'p1.near', 'p2.near', 'f'.repeat(64)], is = (m, k, id) => chain.get(W, m, { [k]: id });
    const records = () => json(ids.map((id) => [is('is_whitelisted', 'staking_pool_account_id', id), is('is_factory_whitelisted', 'factory_account_id', id)]));
    const cycle = () => {
      for (let i = rng.range(3, 20); i > 0 && !ctx.bad; i--) { const pool = rng.chance(0.6); chain.run(rng.chance(0.7) ? 'op.near' : rng.pick(users), W, rng.chance(0.65) ? (pool ? 'add_staking_pool' : 'add_factory') : pool ? 'remove_staking_pool' : 'remove_factory', { [pool ? 'staking_pool_account_id' : 'factory_account_id']: rng.pick(ids) }); }
      for (const id of rng.shuffle(ids.slice())) { if (is('is_whitelisted', 'staking_pool_account_id', id)) chain.run('op.near', W, 'remove_staking_pool', { staking_pool_account_id: id }); if (is('is_factory_whitelisted', 'factory_account_id', id)) chain.run('op.near', W, 'remove_factory', { factory_account_id: id }); }
    };
    return { cycle, records, start: records() };
  },
  w_near(ctx, chain, rng, N, users) {
    chain.createAccount(N, 20n * ONE, { code: wasm('w_near') });
    chain.createAccount('mock.near', 10n * ONE, { code: jsContract((api) => { if (api.method !== 'ft_on_transfer') return undefined; const x = rng.int(4); if (x === 0) throw new Error('no'); if (x === 1) api.promise(N, [{ type: 'FunctionCall', method: 'storage_unregister', args: { force: true }, deposit: 1n }]); return x === 2 ? api.args.amount : '0'; }) });
    if (!chain.run('op.near', N, 'new', {}).ok) return null;
    const all = [...users, 'mock.near'], min = BigInt(chain.get(N, 'storage_balance_bounds').min), bal = (u) => BigInt(chain.get(N, 'ft_balance_of', { account_id: u })), reg = (u) => chain.get(N, 'storage_balance_of', { account_id: u }) !== null;
    const stay = users[0]; chain.run(stay, N, 'near_deposit', {}, { deposit: min + ONE });
    const records = () => json([all.map((u) => reg(u)), chain.get(N, 'ft_total_supply') === '0']);
    const cycle = () => {
      for (let i = rng.range(4, 25); i > 0 && !ctx.bad; i--) {
        const u = rng.pick(users), to = rng.pick(all), a = String(1n + rng.big(bal(u) + 1n));
        rng.weighted([
          [4, () => chain.call(u, N, 'near_deposit', {}, { deposit: rng.pick([min, min + rng.big(ONE), 5n]) })], [2, () => chain.call(u, N, 'near_withdraw', { amount: a }, { deposit: 1n })],
          [2, () => chain.call(u, N, 'ft_transfer', { receiver_id: to, amount: a }, { deposit: 1n })], [3, () => chain.call(u, N, 'ft_transfer_call', { receiver_id: 'mock.near', amount: a, msg: '' }, { deposit: 1n })],
          [2, () => chain.call(u, N, 'storage_deposit', { account_id: to }, { deposit: min + rng.big(10n) })], [1, () => chain.call(u, N, 'storage_unregister', { force: rng.chance(0.7) }, { deposit: 1n })],
        ])();
        if (rng.chance(0.5)) chain.drain();
      }
      chain.drain(); if (ctx.bad) return;
      if (reg('mock.near')) { chain.call('mock.near', N, 'storage_unregister', { force: true }, { deposit: 1n }); chain.drain(); }
      for (const u of rng.shuffle(users.slice(1))) if (reg(u)) chain.run(u, N, 'storage_unregister', { force: true }, { deposit: 1n });
      if (!reg(stay) || bal(stay) === 0n) chain.run(stay, N, 'near_deposit', {}, { deposit: min + 7n });
    };
    return { cycle, records, start: records() };
  },
  voting(ctx, chain, rng, V, users) {
    chain.createAccount(V, 50n * ONE, { code: wasm('voting_contract') });
    const stake = new Map(), roll = () => { for (const u of users) stake.set(u, rng.chance(0.2) ? 0n : rng.big(1000n) + 1n); stake.set('other', 10n ** 6n); }; roll();
    chain.stakeOverride = { validatorStake: (id) => stake.get(id) ?? 0n, validatorTotalStake: () => [...stake.values()].reduce((a, b) => a + b, 0n) };
    if (!chain.run('op.near', V, 'new', {}).ok) return null;
    const cycle = () => {
      for (let i = rng.range(4, 25); i > 0 && !ctx.bad; i--) rng.weighted([[5, () => chain.run(rng.pick(users), V, 'vote', { is_vote: rng.chance(0.7) })], [1, () => chain.run('op.near', V, 'ping', {})], [2, () => { chain.nextEpoch(); roll(); }]])();
      for (const u of rng.shuffle(users.slice())) chain.run(u, V, 'vote', { is_vote: false });
      chain.nextEpoch(); chain.run('op.near', V, 'ping', {});
    };
    const records = () => json([chain.get(V, 'get_votes'), chain.get(V, 'get_result')]);
    return { cycle, records, start: records() };
  },
  staking_pool_factory(ctx, chain, rng, F, users) {
    chain.createAccount('wl.near', 50n * ONE, { code: wasm('whitelist') });
    chain.createAccount(F, 50n * ONE, { code: wasm('staking_pool_factory') });
    if (!chain.run('op.near', 'wl.near', 'new', { foundation_account_id: 'op.near' }).ok || !chain.run('op.near', F, 'new', { staking_pool_whitelist_account_id: 'wl.near' }).ok) return null;
    chain.run('op.near', 'wl.near', 'add_factory', { factory_account_id: F });
    const taken = ['t1', 't2', 'x'.repeat(20)]; for (const t of taken) chain.createAccount(`${t}.${F}`, ONE);
    const create = (id, o = {}) => chain.call(rng.pick(users), F, 'create_staking_pool', { staking_pool_id: id, owner_id: rng.pick(users), stake_public_key: pk58(pkOf('k')), reward_fee_fraction: { numerator: rng.int(50), denominator: 100 }, ...o }, { deposit: 30n * ONE + rng.big(ONE) });
    const made = rng.range(0, 2); for (let i = 0; i < made; i++) { create('made' + i); chain.drain(); }
    const cycle = () => { // creations that all fail: the account exists, or the new pool refuses its arguments
      for (let i = rng.range(1, 6); i > 0 && !ctx.bad; i--) { rng.weighted([[3, () => create(rng.pick(taken))], [2, () => create('n' + rng.int(1000), { stake_public_key: 'ed25519:' + '1'.repeat(8) })], [1, () => create('made0')], [1, () => create('a.b')], [2, () => create(rng.pick(['ok', 'fine']), { owner_id: F, reward_fee_fraction: { numerator: 2, denominator: 1 } })]])(); if (rng.chance(0.5)) chain.drain(); }
    };
    const records = () => json([chain.get(F, 'get_number_of_staking_pools_created'), taken.map((t) => !!chain.acct(`${t}.${F}`))]);
    return { cycle, records, start: records() };
  },
  lockup_contract(ctx, chain, rng, L, users) {
    const owner = users[0], pools = ['p1.pools.near', 'a-much-longer-name-of-a-pool.pools.near'];
    chain.createAccount('wl.near', 50n * ONE, { code: wasm('whitelist') });
    chain.run('op.near', 'wl.near', 'new', { foundation_account_id: 'op.near' });
    for (const p of pools) { chain.createAccount(p, 30n * ONE, { code: wasm('staking_pool') }); chain.run('op.near', p, 'new', { owner_id: 'op.near', stake_public_key: pk58(pkOf(p)), reward_fee_fraction: { numerator: 0, denominator: 1 } }); chain.run('op.near', 'wl.near', 'add_staking_pool', { staking_pool_account_id: p }); }
    chain.createAccount('vote.near', 20n * ONE, { code: wasm('voting_contract') }); chain.run('op.near', 'vote.near', 'new', {});
    chain.createAccount(L, 1000n * ONE, { code: wasm('lockup_contract') });
    if (!chain.run('op.near', L, 'new', { owner_account_id: owner, lockup_duration: rng.pick(['0', '31536000000000000']), lockup_timestamp: null, transfers_information: { TransfersDisabled: { transfer_poll_account_id: 'vote.near' } }, vesting_schedule: null, release_duration: null, staking_pool_whitelist_account_id: 'wl.near', foundation_account_id: null }).ok) return null;
    const tick = () => { for (let i = 0; i < 200 && !chain.canTick(); i++) chain.step(); chain.nextEpoch((id, a) => a.locked / 1000n); };
    const o = (m, a = {}) => chain.run(owner, L, m, a), g = (m) => chain.get(L, m), amt = () => String(rng.big(500n * ONE) + 1n);
    const cycle = () => {
      if (g('get_staking_pool_account_id') === null) o('select_staking_pool', { staking_pool_account_id: rng.pick(pools) });
      for (let i = rng.range(2, 12); i > 0 && !ctx.bad; i--) rng.weighted([
        [3, () => o(rng.pick(['deposit_to_staking_pool', 'deposit_and_stake']), { amount: amt() })], [2, () => o(rng.pick(['stake', 'unstake', 'withdraw_from_staking_pool']), { amount: amt() })],
        [2, () => o(rng.pick(['unstake_all', 'withdraw_all_from_staking_pool', 'refresh_staking_pool_balance', 'check_transfers_vote', 'unselect_staking_pool']))], [2, tick],
        [0.5, () => o('transfer', { amount: '1', receiver_id: users[1] })],
      ])();
      const p = g('get_staking_pool_account_id');
      if (p !== null) { o('unstake_all'); for (let e = 0; e < 4; e++) tick(); o('withdraw_all_from_staking_pool'); o('unselect_staking_pool'); }
    };
    const records = () => json([g('get_staking_pool_account_id'), g('get_termination_status'), g('are_transfers_enabled')]);
    return { cycle, records, start: records() };
  },
};
