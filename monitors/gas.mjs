// Gas: every receipt of every other workload, and of worlds scaled up to the documented sizes, judged on one
// rule: an operation started with the most gas a transaction can carry never runs out of it half way.
import { Chain, json, pkOf, pk58 } from '../lib/chain.mjs';
import { ONE, GAS_T } from '../lib/host.mjs';
import { wasm } from '../lib/wasm.mjs';

export const meta = {
  rule: { '*': 'Evaluations: function calls executed by the real WASM whose gas was allotted by a full-gas transaction or by one of the contracts. Distinct: (workload, contract, method, self-call, share of the allotted gas used in tenths, outcome class).' },
  assumptions: ['gas is metered with the fee table and instruction cost in lib/host.mjs (mainnet values of the contracts\' time)', 'gas chosen by a caller (wallet requests, calls made by other contracts) is the caller\'s business'],
};
const MODS = ['staking_pool', 'lockup', 'lockup', 'multisig', 'voting', 'w_near', 'factories', 'scale', 'scale'];
const loaded = new Map();
const nameOf = new Map();
const FULL = 250n * GAS_T;
// what the lockup's documentation says each method requires (TGas)
const DOCUMENTED = { new: 25, terminate_vesting: 25, termination_prepare_to_withdraw: 175, termination_withdraw: 75, select_staking_pool: 75, unselect_staking_pool: 25, deposit_to_staking_pool: 100, deposit_and_stake: 125, refresh_staking_pool_balance: 75, withdraw_from_staking_pool: 125, withdraw_all_from_staking_pool: 175, stake: 125, unstake: 125, unstake_all: 125, check_transfers_vote: 75, transfer: 50, add_full_access_key: 50 };

function watch(ctx, chain, label) {
  const own = new Set(); // receipts whose gas is somebody's choice
  const isLockup = (id) => codeOf('lockup_contract', chain.acct(id) ?? {}), exact = new Set();
  if (ctx.rng.chance(0.5)) { // callers of the lockup attach exactly what is documented
    const tx = chain.tx.bind(chain);
    chain.tx = (signer, receiver, actions, opts) => {
      const a = actions[0];
      const low = actions.length === 1 && a.type === 'FunctionCall' && a.gas === 300n * GAS_T && DOCUMENTED[a.method] && isLockup(receiver);
      if (low) actions = [{ ...a, gas: BigInt(DOCUMENTED[a.method]) * GAS_T }];
      const h = tx(signer, receiver, actions, opts);
      if (low) { exact.add(h.id); ctx.hit('lockup called with the documented gas'); }
      return h;
    };
  }
  chain.listeners.push((ev) => {
    const rc = ev.rc, from = chain.acct(rc.receiver);
    const js = !!from?.code?.js, wallet = from?.code && !js && (from.code === codeOf('multisig', from) || from.code === codeOf('multisig2', from));
    const tainted = own.has(rc.id) || (rc.parent === null && rc.actions.some((a) => a.type === 'FunctionCall' && a.gas < FULL) && !exact.has(rc.id));
    for (const m of ev.made) {
      const small = m.actions.some((a) => a.type === 'FunctionCall' && a.gas < FULL);
      if (tainted || (js && small) || (wallet && small)) own.add(m.id);
    }
    const a = rc.actions.at(-1);
    const child = !from && rc.actions.some((x) => x.type === 'DeployContract') && rc.receiver.endsWith('.' + rc.pred); // a creation that was undone
    if (tainted || js || !(from?.code || child) || a?.type !== 'FunctionCall') return;
    const out = ev.error?.kind === 'GasExceeded', self = rc.pred === rc.receiver && rc.parent !== null;
    if (ev.error && ev.error.action !== undefined && !out && ev.error.action !== rc.actions.length - 1) return;
    const tenth = Number((ev.gasUsed * 10n) / a.gas);
    const kind = rc.receiver.replace(/^.*\.(?=(factory|wallets|lockups|pools)\.near)/, '*.').replace(/^v\d+/, 'v');
    ctx.saw(`${label}|${kind}|${a.method}|${self}|${tenth}|${ev.ok ? 'ok' : ev.error.kind}`);
    ctx.hit(`${self ? 'callback' : rc.parent === null ? 'transaction' : 'promised call'} used ${tenth}/10 of its gas`);
    if (ctx.samples.length < 1 && tenth >= 4) ctx.sample({ workload: label, receiver: rc.receiver, method: a.method, allotted: String(a.gas), used: String(ev.gasUsed), outcome: ev.ok ? 'ok' : ev.error.kind });
    if (out && wallet && gives(chain, rc.receiver, a) + 100n * GAS_T > a.gas) { ctx.hit('a wallet request that gives away more gas than there is'); return; }
    if (out) ctx.fail(['X04'], `${label}: ${a.method} of ${rc.receiver} called by ${rc.pred} with ${a.gas} gas ran out of gas (${json(a.args.toString().slice(0, 200))})`);
  });
}
// the gas a wallet's members decided to give away in the request being confirmed
function gives(chain, w, a) {
  try { const x = JSON.parse(a.args.toString()), r = x.request ?? chain.get(w, 'get_request', { request_id: x.request_id }); return r.actions.reduce((g, z) => g + BigInt(z.gas ?? 0), 0n); } catch { return 0n; }
}
// compiled modules are shared by content
function codeOf(name, acct) { return acct.code && wasm(name).length === acct.code.size ? acct.code : null; }

export async function scenario(ctx) {
  const label = MODS[ctx.index % MODS.length], sample = ctx.sample.bind(ctx);
  ctx.sample = (x) => { if (x.allotted) sample(x); };
  let chain = null;
  Object.defineProperty(ctx, 'chain', { configurable: true, get: () => chain, set: (c) => { if (!chain) watch(ctx, c, label); chain = c; } });
  if (label === 'scale') return scale(ctx);
  if (!loaded.has(label)) loaded.set(label, await import(`./${label}.mjs`));
  await loaded.get(label).scenario(ctx);
}
// ---- sizes the contracts are meant for: a hundred validators, full request lists, many members ----
async function scale(ctx) {
  const rng = ctx.rng, kind = rng.pick(['voting', 'multisig', 'multisig2', 'factory', 'pool']);
  const chain = new Chain(rng, { timestamp: 1_600_000_000_000_000_000n });
  ctx.chain = chain;
  // whether an operation may fail for other reasons is for other properties to say; the watcher judges its gas
  const must = (h, what) => { if (!h.ok) ctx.hit(`${what.replace(/\d+/g, 'n')} refused`); return h.ok; };
  if (kind === 'voting') {
    const n = rng.range(40, 100), vals = Array.from({ length: n }, (_, i) => `v${i}.near`), stake = new Map(vals.map((v) => [v, BigInt(rng.range(1, 100)) * 1000n * ONE]));
    const pools = new Set(vals.filter(() => rng.chance(0.15))); // staking pools, whose owner votes through them
    chain.createAccount('owner.near', 1000n * ONE);
    for (const v of vals) { chain.createAccount(v, 100n * ONE, pools.has(v) ? { code: wasm('staking_pool') } : {}); if (pools.has(v)) chain.run('owner.near', v, 'new', { owner_id: 'owner.near', stake_public_key: pk58(pkOf('p')), reward_fee_fraction: { numerator: 1, denominator: 10 } }); }
    const vote = (v) => (pools.has(v) ? chain.run('owner.near', v, 'vote', { voting_account_id: 'poll.near', is_vote: true }) : chain.run(v, 'poll.near', 'vote', { is_vote: true }));
    chain.stakeOverride = { validatorStake: (id) => stake.get(id) ?? 0n, validatorTotalStake: () => [...stake.values()].reduce((a, b) => a + b, 0n) };
    chain.createAccount('poll.near', 50n * ONE, { code: wasm('voting_contract') });
    chain.run(vals[0], 'poll.near', 'new', {});
    for (const v of rng.shuffle(vals)) {
      if (rng.chance(0.04) || (pools.has(v) && rng.chance(0.4))) { chain.nextEpoch(); for (const x of vals) stake.set(x, BigInt(rng.range(1, 100)) * 1000n * ONE); if (rng.chance(0.3) && !must(chain.run('owner.near', 'poll.near', 'ping', {}), `re-counting ${n} validators`)) return; }
      if (chain.get('poll.near', 'get_result') !== null) break;
      if (!must(vote(v), `a vote among ${n} validators`)) return;
      if (pools.has(v)) ctx.hit('a pool voted through its owner');
    }
    ctx.hit('poll with up to a hundred validators');
  } else if (kind === 'multisig' || kind === 'multisig2') {
    const v2 = kind === 'multisig2', nk = rng.range(3, v2 ? 10 : 6), keys = Array.from({ length: nk }, (_, i) => pkOf('m' + i));
    chain.createAccount('wallet.near', 1000n * ONE, { code: wasm(kind), keys: v2 ? [] : keys }); chain.createAccount('bob.near', ONE);
    chain.run('bob.near', 'wallet.near', 'new', v2 ? { members: keys.map((k) => ({ public_key: pk58(k) })), num_confirmations: 2 } : { num_confirmations: 2 });
    const W = 'wallet.near', call = (k, m, a) => { const h = chain.call(W, W, m, a, { pk: k }); chain.drain(); return h; };
    const val = (h) => JSON.parse(h.value.toString());
    for (const k of keys) for (let i = 0; i < 12; i++) {
      const actions = Array.from({ length: rng.range(1, 8) }, () => (rng.chance(0.6) ? { type: 'Transfer', amount: '1' } : { type: 'FunctionCall', method_name: 'x', args: Buffer.alloc(rng.range(0, 400), 65).toString('base64'), deposit: '0', gas: String(3n * GAS_T) }));
      if (!must(call(k, 'add_request_and_confirm', { request: { receiver_id: 'bob.near', actions } }), 'adding a request')) return;
    }
    for (let r = 0; r < 2; r++) { // removing a member goes through every request
      const gone = keys.pop(), act = v2 ? { type: 'DeleteMember', member: { public_key: pk58(gone) } } : { type: 'DeleteKey', public_key: pk58(gone) };
      const ids = chain.get(W, 'list_request_ids');
      let h = call(keys[0], 'add_request', { request: { receiver_id: W, actions: [act] } });
      if (!h.ok) { // the author's slots are full: free one
        const mine = ids.filter((i) => i < 12); for (const i of mine) { chain.timestamp += 10n ** 15n; if (call(keys[0], 'delete_request', { request_id: i }).ok) break; }
        h = call(keys[0], 'add_request', { request: { receiver_id: W, actions: [act] } });
      }
      if (!h.ok) break;
      const id = val(h); call(keys[0], 'confirm', { request_id: id });
      const before = chain.get(W, 'list_request_ids').length, d = call(keys[1], 'confirm', { request_id: id });
      if (!must(d, `removing a member with ${before} requests pending`)) return;
      ctx.hit('member removed with full request lists'); ctx.hit(`${Math.floor(before / 20) * 20}+ requests pending at a removal`);
    }
  } else if (kind === 'factory') {
    chain.createAccount('wallets.near', 100n * ONE, { code: wasm('multisig_factory') }); chain.createAccount('bob.near', 10000n * ONE);
    const n = rng.range(5, 20), members = Array.from({ length: n }, (_, i) => (rng.chance(0.5) ? { public_key: pk58(pkOf('f' + i)) } : { account_id: `member${i}.near` }));
    const h = chain.run('bob.near', 'wallets.near', 'create', { name: 'w', members, num_confirmations: 2 }, { deposit: 50n * ONE });
    if (!must(h, `creating a wallet with ${n} members`)) return;
    ctx.hit(!chain.acct('w.wallets.near') ? 'wallet with many members refused' : 'wallet with many members created');
  } else {
    chain.createAccount('pool.near', 100n * ONE, { code: wasm('staking_pool') }); chain.createAccount('owner.near', 100n * ONE);
    chain.run('owner.near', 'pool.near', 'new', { owner_id: 'owner.near', stake_public_key: pk58(pkOf('p')), reward_fee_fraction: { numerator: 7, denominator: 100 } });
    const n = rng.range(60, 150), ids = Array.from({ length: n }, (_, i) => `v${i}.delegator-with-a-long-account-name.near`);
    for (const id of ids) { chain.createAccount(id, 1000n * ONE); if (!must(chain.run(id, 'pool.near', 'deposit_and_stake', {}, { deposit: BigInt(rng.range(1, 900)) * ONE + rng.big(ONE) }), 'deposit_and_stake')) return; if (rng.chance(0.05)) chain.nextEpoch((x, a) => a.locked / 777n); }
    const list = chain.get('pool.near', 'get_accounts', { from_index: 0, limit: 100 });
    ctx.hit(`${Math.floor(list.length / 20) * 20}+ accounts listed at once`);
    for (const id of rng.shuffle(ids).slice(0, 30)) { chain.nextEpoch((x, a) => a.locked / 999n); if (!must(chain.run(id, 'pool.near', 'unstake_all', {}), 'unstake_all')) return; for (let e = 0; e < 4; e++) chain.nextEpoch((x, a) => a.locked / 999n); if (!must(chain.run(id, 'pool.near', 'withdraw_all', {}), 'withdraw_all')) return; }
    ctx.hit('pool with a hundred delegators');
  }
}
