// The whole system, assembled only through the contracts themselves: whitelist, the three factories, the pools, lockups and
// wallets they create, and the poll the pools' owners vote in, with a wrapped token beside them. A ledger kept from the observed token movements alone says
// what every account is worth (its balance and its part of the pools), whichever contract currently holds it.
import crypto from 'crypto';
import { Chain, json, pkOf, pk58 } from '../lib/chain.mjs';
import { ONE, GAS_T } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';

export const meta = {
  rule: { '*': 'Evaluations: receipts executed by the contracts in the assembled system plus ledger comparisons at rest (one per account). Distinct: (contract kind, method, caller kind, outcome, phase).' },
  assumptions: ['pools are the ones the factory created and their calls are only delayed, not broken: broken counterparties are the subject of L04', 'lib/chain.mjs reproduces NEAR receipt, staking and refund rules; gas price is zero'],
};
const DAY = 86_400_000_000_000n, T0 = 1_602_700_000_000_000_000n, POOLF = 'pools.near', LOCKF = 'lockups.near', WALF = 'wallets.near', WL = 'whitelist.near', POLL = 'poll.near', FOUND = 'foundation.near', WALLET = 'dao.wallets.near', WRAP = 'wrap.near', REG = 125n * 10n ** 19n;
const RESERVE = 35n * ONE / 10n;
const MEMBERS = ['m1.near', 'm2.near', 'm3.near'];
const max = (a, b) => (a > b ? a : b), abs = (a) => (a < 0n ? -a : a);
const parse = (v) => (v && v.length ? JSON.parse(v.toString()) : null);

export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng, { timestamp: T0 });
  ctx.chain = chain;
  const T = ['X05'];
  const users = ['alice.near', 'bob.near', 'carol.near'], ops = ['op1.near', 'op2.near'];
  for (const u of [...users, ...ops, ...MEMBERS, FOUND]) chain.createAccount(u, 100_000n * ONE);
  const kindOf = (id) => (pools.includes(id) ? 'pool' : lockups.some((l) => l.id === id) ? 'lockup' : id === WALLET ? 'wallet' : MEMBERS.includes(id) ? 'member' : ops.includes(id) ? 'operator' : users.includes(id) ? 'user' : id);
  const pools = [], lockups = [];
  let phase = 'assembly', lastVoteEpoch = -1n;
  // ---- ledger ----
  const E = new Map(), moves = new Map(); let gifts = 0n;
  const add = (id, v) => E.set(id, (E.get(id) ?? 0n) + v);
  const minted0 = () => chain.minted;
  let base = 0n; const wrapBase = 20n * ONE;
  chain.listeners.push((ev) => {
    const rc = ev.rc;
    if (chain.acct(rc.receiver)?.code && rc.actions.some((a) => a.type === 'FunctionCall')) {
      const m = rc.actions.at(-1).method;
      ctx.saw(`${kindOf(rc.receiver)}|${m}|${rc.pred === rc.receiver ? 'self' : kindOf(rc.pred)}|${ev.ok ? 'ok' : ev.error.kind}|${phase}`);
      ctx.hit(`${kindOf(rc.receiver)} ${m} ${ev.ok ? 'ok' : 'refused'}`);
    }
    if (ev.ok && rc.receiver === POLL && rc.actions.some((a) => a.method === 'vote' || a.method === 'ping')) lastVoteEpoch = chain.epoch; // the tally is of this epoch
    if (!ev.ok || rc.refund || rc.pred === rc.receiver) return;
    for (const a of rc.actions) {
      const v = (a.deposit ?? 0n) + (a.type === 'Transfer' ? a.amount : 0n);
      if (v === 0n) continue;
      if (a.type === 'FunctionCall' && pools.includes(rc.receiver) && /^deposit/.test(a.method)) { moves.set(rc.pred, (moves.get(rc.pred) ?? 0n) + 1n); continue; } // the same money in another place
      if (rc.receiver === WRAP && a.method === 'storage_deposit') { // pays for the registration of an account, possibly another one
        const kept = v - ev.made.flatMap((x) => x.actions).reduce((t, x) => t + (x.amount ?? 0n), 0n), acc = JSON.parse(a.args.toString()).account_id ?? rc.pred;
        add(rc.pred, -kept); add(acc, kept);
      }
      if (rc.receiver === WRAP && /^(near_deposit|near_withdraw|storage_)/.test(a.method)) continue; // likewise
      if (rc.receiver === WRAP && a.method === 'ft_transfer') { const x = JSON.parse(a.args.toString()); add(rc.pred, -BigInt(x.amount)); add(x.receiver_id, BigInt(x.amount)); }
      if (rc.pred === WRAP) { if (!E.has(rc.receiver)) ctx.fail(T, `${rc.pred} paid ${v} to ${rc.receiver}, which never gave it anything`); continue; }
      if (pools.includes(rc.pred)) { if (!E.has(rc.receiver)) ctx.fail(T, `${rc.pred} paid ${v} to ${rc.receiver}, which never gave it anything`); continue; }
      add(rc.pred, -v); add(rc.receiver, v);
      if (pools.includes(rc.receiver)) gifts += v;
      if (lockups.some((l) => l.id === rc.pred)) paid(rc, v);
    }
    for (const a of rc.actions) if (a.type === 'FunctionCall' && /stake|withdraw|ping/.test(a.method)) moves.set(rc.pred, (moves.get(rc.pred) ?? 0n) + 1n);
  });
  const bodyOf = (id) => lockups.find((l) => l.id === id);
  // money leaving a lockup: to the foundation's receiver, or what the owner may have
  function paid(rc, v) {
    const l = bodyOf(rc.pred);
    if (rc.receiver === l.pool) return;
    const root = rootOf(rc);
    if (root === FOUND) { l.toFoundation = (l.toFoundation ?? 0n) + v; ctx.hit('unvested tokens paid to the foundation'); } else { l.toOwner = (l.toOwner ?? 0n) + v; ctx.hit(`lockup paid its owner's receiver (${phase})`); }
  }
  const rootOf = (rc) => rc.signer;
  const worth = (id) => (chain.acct(id)?.amount ?? 0n) + (chain.acct(id)?.locked ?? 0n) + pools.reduce((s, p) => s + BigInt(chain.get(p, 'get_account_total_balance', { account_id: id })), 0n) + BigInt(chain.get(WRAP, 'ft_balance_of', { account_id: id })) + (chain.get(WRAP, 'storage_balance_of', { account_id: id }) ? REG : 0n);
  const atRest = (what) => {
    if (ctx.bad) return;
    chain.drain(); if (ctx.bad) return;
    const rewards = chain.minted - base + gifts;
    let all = 0n;
    for (const [id] of E) {
      if (pools.includes(id) || id === WRAP) continue;
      const w = worth(id), e = E.get(id), tol = 4n * (moves.get(id) ?? 0n) + 8n * BigInt(pools.length);
      all += w;
      ctx.evals++;
      if (!ctx.expect(w >= e - tol, T, () => `${what}: ${id} is worth ${w}, ${e - w} less than its own payments and receipts account for (${moves.get(id) ?? 0} pool operations)`)) return;
      if (!ctx.expect(w <= e + tol + rewards, T, () => `${what}: ${id} is worth ${w}, ${w - e} more than its own payments and receipts account for, with ${rewards} of rewards in the whole system`)) return;
    }
    for (const p of pools) {
      const a = chain.acct(p), owed = [...E.keys()].filter((x) => x !== p).reduce((s, x) => s + BigInt(chain.get(p, 'get_account_total_balance', { account_id: x })), 0n);
      ctx.evals++;
      if (!ctx.expect(a.amount + a.locked >= owed, T, () => `${what}: ${p} holds ${a.amount + a.locked} and owes ${owed}`)) return;
    }
    for (const [id, had] of service) if (!ctx.eq(chain.acct(id).amount, had, T, `${what}: tokens at ${id}, which keeps nothing of what passes through it`)) return;
    const supply = BigInt(chain.get(WRAP, 'ft_total_supply')), held = [...E.keys()].reduce((t, x) => t + BigInt(chain.get(WRAP, 'ft_balance_of', { account_id: x })), 0n);
    if (!ctx.eq(held, supply, T, `${what}: wrapped tokens held`) || !ctx.expect(chain.acct(WRAP).amount >= wrapBase + supply, T, () => `${what}: ${WRAP} holds ${chain.acct(WRAP).amount - wrapBase} for ${supply} tokens`)) return;
    const poolMoney = pools.reduce((s, p) => s + chain.acct(p).amount + chain.acct(p).locked, 0n), plain = [...E.keys()].filter((x) => !pools.includes(x)).reduce((s, x) => s + chain.acct(x).amount + chain.acct(x).locked, 0n);
    if (!ctx.eq(poolMoney + plain + chain.burnt, chain.minted, T, `${what}: tokens in the whole system`)) return;
    for (const l of lockups) {
      const g = (m) => chain.get(l.id, m), locked = BigInt(g('get_locked_amount')), st = g('get_staking_pool_account_id');
      l.pool = st;
      // whoever asks, the lockup never let more go than it had beyond what is still locked
      const out = (l.toOwner ?? 0n);
      ctx.evals++;
      if (!l.key && !ctx.expect(worth(l.id) + 4n * (moves.get(l.id) ?? 0n) + 20n >= locked, T, () => `${what}: ${l.id} is worth ${worth(l.id)} but ${locked} of it are locked (${out} went to its owner)`)) return;
      if (st !== null && !ctx.expect(pools.includes(st), T, () => `${what}: ${l.id} selected ${st}, which is no pool of the factory`)) return;
      const known = BigInt(g('get_known_deposited_balance'));
      const real = st === null ? 0n : BigInt(chain.get(st, 'get_account_total_balance', { account_id: l.id }));
      if (!ctx.expect(known <= real + 4n * (moves.get(l.id) ?? 0n) + 8n, T, () => `${what}: ${l.id} counts on ${known} in ${st}, which owes it ${real}`)) return;
      const en = g('are_transfers_enabled');
      if (l.poll && !ctx.expect(!en || chain.get(POLL, 'get_result') !== null, T, () => `${what}: transfers of ${l.id} are enabled without a result of the poll`)) return;
      if (l.poll && en) ctx.hit('transfers enabled by the poll');
    }
    if (phase !== 'assembly') {
      const [voted, total] = chain.get(POLL, 'get_total_voted_stake').map(BigInt), res = chain.get(POLL, 'get_result');
      const votes = chain.get(POLL, 'get_votes');
      ctx.evals++;
      if (!ctx.eq(voted, Object.values(votes).reduce((s, x) => s + BigInt(x), 0n), T, `${what}: sum of the poll's votes`)) return;
      for (const v of Object.keys(votes)) if (!ctx.expect(pools.includes(v), T, () => `${what}: ${v} votes in the poll without being a validator`)) return;
      if (res === null) ctx.expect(3n * voted <= 2n * total || lastVoteEpoch !== chain.epoch, T, () => `${what}: ${voted} of ${total} voted and the poll has no result`);
      ctx.hit(res === null ? 'poll open' : 'poll decided');
    }
  };
  const must = (h, what) => ctx.expect(h.done && h.ok, T, () => `${phase}: ${what} ${h.done ? 'failed: ' + json(h.error) : 'never completed'}`);
  // ---- assembly ----
  chain.createAccount(WL, 20n * ONE, { code: wasm('whitelist') });
  chain.createAccount(WRAP, wrapBase, { code: wasm('w_near') });
  chain.createAccount(POLL, 20n * ONE, { code: wasm('voting_contract') });
  chain.createAccount(POOLF, 60n * ONE, { code: wasm('staking_pool_factory') });
  chain.createAccount(LOCKF, 60n * ONE, { code: wasm('lockup_factory') });
  chain.createAccount(WALF, 60n * ONE, { code: wasm('multisig_factory') });
  for (const id of chain.accounts.keys()) E.set(id, chain.acct(id).amount);
  const service = [WL, POLL, POOLF, LOCKF, WALF].map((id) => [id, chain.acct(id).amount]); // they pass money on or take none: nothing may stick to them
  for (const [who, id, args] of rng.shuffle([[FOUND, WL, { foundation_account_id: FOUND }], [FOUND, POLL, {}], [FOUND, WRAP, {}], [FOUND, POOLF, { staking_pool_whitelist_account_id: WL }], [FOUND, LOCKF, { whitelist_account_id: WL, foundation_account_id: FOUND }]])) if (!must(chain.run(who, id, 'new', args), `initialization of ${id}`)) return;
  if (!must(chain.run(FOUND, WL, 'add_factory', { factory_account_id: POOLF }), 'approving the pool factory')) return;
  base = minted0();
  const mk = [], gave = new Map(), give = (id, v) => { gave.set(id, v); return v; };
  const members = MEMBERS.map((account_id) => ({ account_id }));
  mk.push([WALLET, chain.call('m1.near', WALF, 'create', { name: 'dao', members, num_confirmations: 2 }, { deposit: give(WALLET, BigInt(rng.range(5, 50)) * ONE) })]);
  const poolOwner = {};
  for (let i = 0; i < 2; i++) {
    const id = `p${i}.${POOLF}`; poolOwner[id] = rng.chance(0.25) ? WALLET : ops[i];
    mk.push([id, chain.call(ops[i], POOLF, 'create_staking_pool', { staking_pool_id: `p${i}`, owner_id: poolOwner[id], stake_public_key: pk58(pkOf('p' + i)), reward_fee_fraction: { numerator: rng.range(0, 20), denominator: 100 } }, { deposit: give(id, 30n * ONE + rng.big(50n * ONE)) })]);
  }
  // lockups: by the factory (transfers already enabled) and one waiting for the poll
  const nanos = (d) => String(BigInt(d) * DAY);
  const lOwner = rng.pick(['alice.near', 'bob.near', WALLET]), addr = crypto.createHash('sha256').update(lOwner).digest('hex').slice(0, 40) + '.' + LOCKF;
  const sched = (a) => ({ VestingSchedule: { start_timestamp: String(T0 - BigInt(a) * DAY), cliff_timestamp: String(T0 + BigInt(rng.range(-50, 100)) * DAY), end_timestamp: String(T0 + BigInt(rng.range(120, 600)) * DAY) } });
  const vests = rng.chance(0.5);
  // the child account is a pool from the moment it exists; losing creators are refunded
  pools.push(...Object.keys(poolOwner));
  mk.push([addr, chain.call(FOUND, LOCKF, 'create', { owner_account_id: lOwner, lockup_duration: nanos(rng.range(0, 90)), release_duration: rng.chance(0.6) ? nanos(rng.range(1, 500)) : null, vesting_schedule: vests ? sched(rng.range(60, 300)) : null }, { deposit: give(addr, RESERVE + BigInt(rng.range(1, 5000)) * ONE + rng.big(ONE)) })]);
  lockups.push({ id: addr, owner: lOwner, vests });
  chain.drain();
  for (let i = 0; i < 2; i++) if (rng.chance(0.3)) { // the same names again
    const n = rng.int(3), u = rng.pick(users), before = chain.acct(u).amount;
    const h = n === 0 ? chain.call(u, POOLF, 'create_staking_pool', { staking_pool_id: `p${i}`, owner_id: u, stake_public_key: pk58(pkOf('thief')), reward_fee_fraction: { numerator: 1, denominator: 1 } }, { deposit: 30n * ONE })
      : n === 1 ? chain.call(u, WALF, 'create', { name: 'dao', members: [{ account_id: u }], num_confirmations: 1 }, { deposit: 9n * ONE })
        : chain.call(u, LOCKF, 'create', { owner_account_id: lOwner, lockup_duration: '0' }, { deposit: 40n * ONE });
    chain.drain();
    ctx.evals++; ctx.hit('second creation under a taken name');
    if (!ctx.eq(chain.acct(u).amount, before, T, `balance of ${u} after its creation under a taken name`)) return;
  }
  for (const [id, h] of mk) if (!must(h, `creation of ${id}`) || !ctx.expect(chain.acct(id)?.code, T, () => `${id} was not created`) || !ctx.eq(chain.acct(id).amount + chain.acct(id).locked, gave.get(id), T, `tokens in the new ${id}`)) return;
  const o2 = rng.pick(['carol.near', 'bob.near', WALLET]), v2 = rng.chance(0.3), amount2 = RESERVE + BigInt(rng.range(1, 5000)) * ONE;
  chain.createAccount('lockup2.near', amount2, { code: wasm('lockup_contract') }); E.set('lockup2.near', amount2); base = minted0();
  lockups.push({ id: 'lockup2.near', owner: o2, vests: v2, poll: true });
  if (!must(chain.run(FOUND, 'lockup2.near', 'new', { owner_account_id: o2, lockup_duration: nanos(rng.range(0, 100)), lockup_timestamp: null, transfers_information: { TransfersDisabled: { transfer_poll_account_id: POLL } }, vesting_schedule: v2 ? sched(100) : null, release_duration: rng.chance(0.5) ? nanos(rng.range(1, 200)) : null, staking_pool_whitelist_account_id: WL, foundation_account_id: v2 ? FOUND : null }), 'initialization of lockup2')) return;
  for (const p of pools) if (!ctx.eq(chain.get(WL, 'is_whitelisted', { staking_pool_account_id: p }), true, T, `approval of ${p}`) || !ctx.eq(chain.get(p, 'get_owner_id'), poolOwner[p], T, `owner of ${p}`)) return;
  for (const l of lockups) if (!ctx.eq(chain.get(l.id, 'get_owner_account_id'), l.owner, T, `owner of ${l.id}`)) return;
  // ---- acting as an account or as the wallet (two members) ----
  const act = (who, receiver, method, args = {}, { deposit = 0n } = {}) => {
    if (who !== WALLET) return chain.call(who, receiver, method, args, { deposit });
    const [x, y] = rng.shuffle(MEMBERS);
    const h = { done: false };
    const a = chain.call(x, WALLET, 'add_request_and_confirm', { request: { receiver_id: receiver, actions: [{ type: 'FunctionCall', method_name: method, args: Buffer.from(json(args)).toString('base64'), deposit: String(deposit), gas: String(200n * GAS_T) }] } });
    while (!a.done) chain.step();
    if (!must(a, `the wallet's request ${method}`)) return h;
    const id = parse(a.value);
    const c = chain.call(y, WALLET, 'confirm', { request_id: id });
    ctx.hit('wallet acted in the system');
    return c;
  };
  const run = (...a) => { const h = act(...a); chain.drain(); return h; };
  const rewardRate = rng.pick([0n, 0n, 5000n, 700n]);
  const epoch = () => { for (let i = 0; i < 500 && !chain.canTick(); i++) chain.step(); chain.nextEpoch((id, a) => (rewardRate ? a.locked / rewardRate + rng.big(1000n) : 0n)); };
  const amt = (of) => String(rng.weighted([[4, rng.big(of + 1n)], [1, of], [1, 1n], [0.5, of + 1n], [1, of / 2n]]));
  phase = 'life'; atRest('assembled'); if (ctx.bad) return;
  // ---- life ----
  for (const l of lockups) if (rng.chance(0.75)) {
    const p = rng.pick(pools);
    if (!must(run(l.owner, l.id, 'select_staking_pool', { staking_pool_account_id: p }), `${l.id} select_staking_pool`)) return;
    if (rng.chance(0.7) && !must(run(l.owner, l.id, rng.pick(['deposit_to_staking_pool', 'deposit_and_stake']), { amount: String(chain.acct(l.id).amount - RESERVE - rng.big(3n * ONE)) }), `${l.id} deposit of nearly everything`)) return;
  }
  const steps = rng.range(15, 45);
  for (let i = 0; i < steps && !ctx.bad; i++) {
    const holders = [...users, WALLET].filter((x) => chain.get(WRAP, 'ft_balance_of', { account_id: x }) !== '0'), s = holders.length ? rng.pick(holders) : users[0], sb = BigInt(chain.get(WRAP, 'ft_balance_of', { account_id: s }));
    const l = rng.pick(lockups), g = (m) => { const r = chain.view(l.id, m); return r.ok ? r.value : null; }, u = rng.pick(users), p = rng.pick(pools);
    const L = (m, a) => act(l.owner, l.id, m, a);
    const bal = chain.acct(l.id)?.amount ?? 0n, known = BigInt(g('get_known_deposited_balance') ?? 0);
    rng.weighted([
      [3, () => act(u, p, rng.pick(['deposit', 'deposit_and_stake']), {}, { deposit: rng.weighted([[5, 1n + rng.big(1000n * ONE)], [1, 1n + rng.big(1000n)], [0.7, 20_000n * ONE + rng.big(ONE)]]) })],
      [2, () => act(u, p, rng.pick(['stake', 'unstake', 'withdraw']), { amount: amt(BigInt(chain.get(p, 'get_account_total_balance', { account_id: u }))) })],
      [2, () => act(u, p, rng.pick(['stake_all', 'unstake_all', 'withdraw_all', 'ping']))],
      [2.5, () => L('select_staking_pool', { staking_pool_account_id: rng.weighted([[5, p], [1, 'alice.near']]) })],
      [4, () => L(rng.pick(['deposit_to_staking_pool', 'deposit_and_stake']), { amount: amt(bal > RESERVE ? bal - RESERVE : 1n) })],
      [3, () => L(rng.pick(['stake', 'unstake', 'withdraw_from_staking_pool']), { amount: amt(known) })],
      [2.5, () => L(rng.pick(['unstake_all', 'withdraw_all_from_staking_pool', 'refresh_staking_pool_balance', 'unselect_staking_pool']))],
      [2, () => L('transfer', { amount: amt(BigInt(g('get_liquid_owners_balance') ?? 0)), receiver_id: rng.pick([l.owner, ...users]) })],
      [1, () => L('check_transfers_vote')],
      [l.vests ? 2 : 0.1, () => act(FOUND, l.id, rng.pick(['terminate_vesting', 'termination_prepare_to_withdraw', 'termination_prepare_to_withdraw', 'termination_withdraw']), { vesting_schedule_with_salt: null, receiver_id: FOUND })],
      [1.2, () => act(poolOwner[p], p, 'vote', { voting_account_id: POLL, is_vote: rng.chance(0.7) })],
      [0.3, () => act(u, POLL, 'ping')],
      [0.4, () => act(poolOwner[p], p, rng.pick(['pause_staking', 'resume_staking']))],
      [0.4, () => { const x = chain.tx(u, rng.pick([p, l.id]), [{ type: 'Transfer', amount: 1n + rng.big(10n * ONE) }]); void x; }],
      [1.5, () => act(u, WRAP, 'near_deposit', {}, { deposit: REG + rng.big(500n * ONE) })],
      [0.3, () => act(WALLET, WRAP, 'near_deposit', {}, { deposit: REG + rng.big(ONE) })],
      [0.5, () => act(u, WRAP, 'storage_deposit', { account_id: rng.pick([l.id, p, WALLET, ...users]) }, { deposit: rng.pick([REG - 1n, REG, 2n * REG]) })],
      [0.6, () => { const to = rng.pick([WALLET, POLL, p, l.id]); if (rng.chance(0.7)) act(u, WRAP, 'storage_deposit', { account_id: to }, { deposit: REG }); act(s, WRAP, 'ft_transfer_call', { receiver_id: to, amount: amt(sb), msg: 'for you' }, { deposit: 1n }); }],
      [0.6, () => act(s, WRAP, 'ft_transfer', { receiver_id: rng.pick([...users, WALLET]), amount: amt(sb) }, { deposit: 1n })],
      [0.7, () => act(s, WRAP, 'near_withdraw', { amount: amt(sb) }, { deposit: 1n })],
      [0.3, () => act(u, WRAP, rng.pick(['storage_deposit', 'storage_unregister']), {}, { deposit: rng.pick([1n, REG, 2n * REG]) })],
      [0.7, () => { // a creation that cannot succeed, by anybody: all of it comes back
        chain.drain(); if (ctx.bad) return;
        const who = rng.pick([...users, ...ops, FOUND]), before = chain.acct(who).amount, key = pk58(pkOf('thief'));
        const deposit = rng.weighted([[4, 30n * ONE + rng.big(60n * ONE)], [2, rng.big(30n * ONE)], [1, 10_000n * ONE + rng.big(ONE)]]);
        const c = (f, m, a) => chain.call(who, f, m, a, { deposit });
        const pool = (o) => c(POOLF, 'create_staking_pool', { staking_pool_id: 'p0', owner_id: who, stake_public_key: key, reward_fee_fraction: { numerator: 1, denominator: 10 }, ...o }), wallet = (o) => c(WALF, 'create', { name: 'dao', members: [{ account_id: who }], num_confirmations: 1, ...o }), lock = (o) => c(LOCKF, 'create', { owner_account_id: lOwner, lockup_duration: '0', ...o });
        rng.pick([() => pool({}), () => pool({ staking_pool_id: 'a.b' }), () => pool({ staking_pool_id: 'p7', reward_fee_fraction: { numerator: 3, denominator: 2 } }), () => pool({ staking_pool_id: 'p7', owner_id: 'No Body' }), () => pool({ staking_pool_id: 'p7', stake_public_key: 'ed25519:1' }),
          () => wallet({}), () => wallet({ name: 'x', num_confirmations: 2 }), () => wallet({ name: 'x', members: [] }), () => wallet({ name: 'X Y' }), () => lock({}), () => lock({ lockup_duration: '5' }), () => lock({ owner_account_id: 'No Body' }), () => lock({ owner_account_id: 'new.near', vesting_schedule: { VestingSchedule: { start_timestamp: '5', cliff_timestamp: '4', end_timestamp: '9' } } })])();
        chain.drain(); ctx.evals++; ctx.hit('creation that cannot succeed');
        if (!ctx.bad) ctx.eq(chain.acct(who).amount, before, T, `balance of ${who} after a creation with ${deposit} that cannot succeed`);
      }],
      [0.15, () => { chain.drain(); chain.minStake = rng.pick([0n, 10n ** 29n]); if (chain.minStake) ctx.hit('the protocol refuses small stakes'); }],
      [5, epoch],
      [2.5, () => { chain.drain(); chain.timestamp += BigInt(rng.range(1, 40)) * DAY; }],
      [0.5, () => act(WALLET, u, 'nothing', {}, { deposit: 0n })],
    ])();
    if (rng.chance(0.5)) chain.drain(); else for (let k = rng.int(6); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
    if (!ctx.bad && chain.idle() && rng.chance(0.7)) atRest('life');
  }
  if (ctx.bad) return;
  atRest('life'); if (ctx.bad) return;
  // ---- end: everybody gets everything out ----
  phase = 'end'; if (chain.minStake) { chain.minStake = 0n; epoch(); chain.drain(); if (ctx.bad) return; }
  for (const p of pools) if (chain.get(p, 'is_staking_paused')) if (!must(run(poolOwner[p], p, 'resume_staking'), `resuming ${p}`)) return;
  for (const p of pools) if (!must(run('alice.near', p, 'ping'), `ping of ${p}`)) return;
  epoch();
  for (const p of pools) { if (chain.get(POLL, 'get_result') !== null) break; if (!must(run(poolOwner[p], p, 'vote', { voting_account_id: POLL, is_vote: true }), `vote of ${p}`)) return; }
  if (!ctx.expect(chain.get(POLL, 'get_result') !== null, T, () => `all validators voted and the poll has no result: ${json(chain.get(POLL, 'get_total_voted_stake'))}`)) return;
  ctx.hit('poll decided in the end');
  for (const l of lockups) {
    const status = () => chain.get(l.id, 'get_termination_status');
    for (let i = 0; i < 4 && status() !== null; i++) {
      if (status() === 'VestingTerminatedWithDeficit' || status() === 'EverythingUnstaked') { if (!must(run(FOUND, l.id, 'termination_prepare_to_withdraw'), `${l.id}: step of a termination that is ${status()}`)) return; for (let e = 0; e < 4; e++) epoch(); } else if (status() === 'ReadyToWithdraw') { if (chain.acct(l.id).amount <= RESERVE) { chain.tx('carol.near', l.id, [{ type: 'Transfer', amount: BigInt(chain.get(l.id, 'get_terminated_unvested_balance')) + 1n }]); chain.drain(); ctx.hit('the reserve itself is unvested: somebody else pays it'); } if (!must(run(FOUND, l.id, 'termination_withdraw', { receiver_id: FOUND }), `${l.id}: payment of the unvested tokens`)) return; } else { ctx.fail(T, `${l.id}: termination stuck in ${status()}`); return; }
    }
    if (!ctx.eq(status(), null, T, `termination of ${l.id} in the end`)) return;
    ctx.hit('lockup free of termination');
  }
  for (const l of lockups) if (!chain.get(l.id, 'are_transfers_enabled')) { if (!must(run(l.owner, l.id, 'check_transfers_vote'), `check_transfers_vote of ${l.id}`) || !ctx.eq(chain.get(l.id, 'are_transfers_enabled'), true, T, `transfers of ${l.id} after the poll`)) return; }
  chain.timestamp += 2000n * DAY;
  atRest('end'); if (ctx.bad) return;
  for (const l of lockups) {
    const g = (m) => chain.get(l.id, m), p = g('get_staking_pool_account_id');
    if (p !== null) {
      if (BigInt(chain.get(p, 'get_account_staked_balance', { account_id: l.id })) > 0n && !must(run(l.owner, l.id, 'unstake_all'), `${l.id} unstake_all`)) return;
      for (let e = 0; e < 4; e++) epoch();
      if (BigInt(chain.get(p, 'get_account_unstaked_balance', { account_id: l.id })) > 0n && !must(run(l.owner, l.id, 'withdraw_all_from_staking_pool'), `${l.id} withdraw_all_from_staking_pool`)) return;
      if (!ctx.expect(BigInt(chain.get(p, 'get_account_total_balance', { account_id: l.id })) <= 8n * (moves.get(l.id) ?? 1n), T, () => `${l.id} still has ${chain.get(p, 'get_account_total_balance', { account_id: l.id })} in ${p} after withdrawing everything`)) return;
      if (BigInt(g('get_known_deposited_balance')) <= ONE && !must(run(l.owner, l.id, 'unselect_staking_pool'), `${l.id} unselect_staking_pool`)) return;
      ctx.hit('lockup left its pool');
    }
    const liquid = BigInt(g('get_liquid_owners_balance'));
    if (!ctx.expect(liquid + RESERVE + 10n >= chain.acct(l.id).amount, T, () => `${l.id} is released but its owner can only move ${liquid} of ${chain.acct(l.id).amount}`)) return;
    if (liquid > 0n && !must(run(l.owner, l.id, 'transfer', { amount: String(liquid), receiver_id: l.owner }), `${l.id} transfer of everything`)) return;
    if (!must(run(l.owner, l.id, 'add_full_access_key', { new_public_key: pk58(pkOf('mine')) }), `${l.id} add_full_access_key`)) return;
    if (!ctx.expect([...chain.acct(l.id).keys].some(([k, v]) => k === pkOf('mine') && v.full), T, () => `${l.id}: no full access key in the end`)) return;
    l.key = true; ctx.hit('lockup emptied by its owner');
  }
  for (const p of pools) for (const u of [...users, WALLET, ...ops]) {
    const s = BigInt(chain.get(p, 'get_account_staked_balance', { account_id: u })), w = BigInt(chain.get(p, 'get_account_unstaked_balance', { account_id: u }));
    if (s > 0n && !must(run(u, p, 'unstake_all'), `${u} unstake_all from ${p}`)) return;
    if (s > 0n) for (let e = 0; e < 4; e++) epoch();
    if (s + w > 0n) {
      for (let e = 0; e < 4 && !chain.get(p, 'is_account_unstaked_balance_available', { account_id: u }); e++) epoch();
      if (!must(run(u, p, 'withdraw_all'), `${u} withdraw_all from ${p}`)) return; ctx.hit('delegator left with everything');
      if (!ctx.expect(BigInt(chain.get(p, 'get_account_unstaked_balance', { account_id: u })) === 0n, T, () => `${u} still has unstaked tokens in ${p}`)) return;
    }
  }
  for (const u of [...users, WALLET]) {
    if (chain.get(WRAP, 'storage_balance_of', { account_id: u }) === null) continue;
    const b = chain.get(WRAP, 'ft_balance_of', { account_id: u });
    if (b !== '0' && !must(run(u, WRAP, 'near_withdraw', { amount: b }, { deposit: 1n }), `${u} near_withdraw of everything`)) return;
    if (!must(run(u, WRAP, 'storage_unregister', {}, { deposit: 1n }), `${u} storage_unregister`)) return;
    ctx.hit('holder unwrapped everything');
  }
  atRest('everybody out');
  if (!ctx.eq(chain.get(WRAP, 'ft_total_supply'), '0', T, 'wrapped tokens in the end')) return;
  ctx.sample({ pools: pools.length, lockup_owner: lOwner, rewards: String(chain.minted - base), epochs: String(chain.epoch), poll: chain.get(POLL, 'get_result'), paid_to_owners: lockups.map((l) => String(l.toOwner ?? 0n)), paid_to_foundation: lockups.map((l) => String(l.toFoundation ?? 0n)) });
}
