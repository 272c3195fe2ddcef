// Whitelist: reference set model; every call's outcome, return value and every membership view is compared.
import { Chain, json, forwarder } from '../lib/chain.mjs';
import { ONE, validAccountId } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';
export const meta = {
  rule: { '*': 'Evaluations: calls executed by the whitelist WASM and compared with the set model. Distinct: (method, caller role, argument validity, prior membership of caller/argument, outcome).' },
  assumptions: ['the runtime model in lib/chain.mjs reproduces NEAR call semantics'],
};
const W = 'whitelist.near';
export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng); ctx.chain = chain;
  const [foundation, ...others] = names(rng, [rng.pick(['foundation.near', 'f1', 'near-foundation.near']), 'alice.near', 'pool-factory.near', 'second-factory', 'bob'], [W, 'system.alice.near', 'pool1.near', 'pool2.near']);
  const actors = [...others, foundation], alice = others[0];
  for (const a of actors) chain.createAccount(a, 1000n * ONE, { code: forwarder() });
  chain.forward = { p: rng.pick([0, 0.2, 0.5]), via: actors, by: actors };
  chain.createAccount(W, 50n * ONE, { code: wasm('whitelist') });
  chain.createAccount('system.alice.near', 10n * ONE);
  const ids = [...new Set([...actors, 'pool1.near', 'pool2.near', ...rng.shuffle(['a'.repeat(64), 'a'.repeat(63), 'x-y_z.near', 'aa', 'pool1', 'pool1.nea', 'pool1.near2', 'a.pool1.near', 'pool1-near', '98'.repeat(32)]).slice(0, 5), W])];
  const badIds = ['', 'a', 'A.near', 'pool..near', '.near', 'b'.repeat(65), 'po ol.near', 'é.near', 'pool.near.'];
  const m = { pools: new Set(), factories: new Set(), init: false };
  const tag = ['W01'];
  chain.run(alice, W, 'add_staking_pool', { staking_pool_account_id: 'pool1.near' });
  ctx.expect(chain.acct(W).storage.size === 0, tag, 'state changed before initialization');
  if (rng.chance(0.2)) { const r = chain.run(alice, W, 'new', { foundation_account_id: rng.pick(badIds) }); ctx.expect(!r.ok, tag, 'initialized with an invalid foundation account'); }
  let r = chain.run(alice, W, 'new', { foundation_account_id: foundation });
  if (!ctx.expect(r.ok, tag, 'init failed')) return;
  r = chain.run(rng.pick(actors), W, 'new', { foundation_account_id: alice });
  ctx.expect(!r.ok, tag, 'contract could be initialized twice');
  const apply = (ev) => {
    const rc = ev.rc, a = rc.actions[0];
    if (a.type !== 'FunctionCall' || a.method === 'new') return;
    const args = JSON.parse(a.args.toString()), pool = a.method.endsWith('staking_pool'), id = args[pool ? 'staking_pool_account_id' : 'factory_account_id'];
    const set = pool ? m.pools : m.factories, valid = validAccountId(id), isF = rc.pred === foundation, fac = m.factories.has(rc.pred);
    const allowed = isF || (a.method === 'add_staking_pool' && fac), add = a.method.startsWith('add');
    const ok = valid && allowed && a.deposit === 0n, had = set.has(id);
    ctx.saw(`${a.method}|${isF ? 'foundation' : fac ? 'factory' : 'other'}|${valid}|${had}|${ev.ok}|d${a.deposit > 0n}|${m.pools.size > 0}${m.factories.size > 0}`);
    ctx.hit(`${a.method} by ${isF ? 'foundation' : fac ? 'factory' : 'other'} ${ok ? 'ok' : 'rejected'}`);
    ctx.note(`${rc.pred} ${a.method} ${id} -> ${ev.ok}`);
    if (!ctx.expect(ev.ok === ok, tag, `${a.method}(${id}) by ${rc.pred} (foundation=${isF}, factory=${fac}): ${ev.ok ? 'accepted' : 'rejected ' + ev.error?.msg}, expected ${ok ? 'accept' : 'reject'}`)) return;
    if (ok) {
      const want = add ? !had : had;
      ctx.eq(ev.ret?.toString(), String(want), tag, `return value of ${a.method}(${id})`);
      if (add) set.add(id); else set.delete(id);
      ctx.expect(ev.made.length === 0, tag, 'unexpected promises');
    }
  };
  chain.listeners.push((ev) => { if (ev.rc.receiver === W) apply(ev); });
  const compare = () => {
    for (const id of ids) {
      ctx.eq(chain.get(W, 'is_whitelisted', { staking_pool_account_id: id }), m.pools.has(id), tag, `is_whitelisted(${id})`);
      ctx.eq(chain.get(W, 'is_factory_whitelisted', { factory_account_id: id }), m.factories.has(id), tag, `is_factory_whitelisted(${id})`);
    }
    for (const id of badIds) ctx.expect(!chain.view(W, 'is_whitelisted', { staking_pool_account_id: id }).ok || chain.view(W, 'is_whitelisted', { staking_pool_account_id: id }).value === false, tag, `invalid id ${id} whitelisted`);
  };
  const n = rng.range(15, 40);
  for (let i = 0; i < n && !ctx.bad; i++) {
    const method = rng.weighted([[4, 'add_staking_pool'], [2, 'remove_staking_pool'], [2, 'add_factory'], [1, 'remove_factory']]);
    const who = rng.weighted([[4, foundation], [5, rng.pick(actors)]]), id = rng.weighted([[9, rng.pick(ids)], [1, rng.pick(badIds)]]);
    chain.call(who, W, method, { [method.endsWith('staking_pool') ? 'staking_pool_account_id' : 'factory_account_id']: id }, { deposit: rng.chance(0.03) ? 1n : 0n });
    if (rng.chance(0.7)) chain.drain();
    if (!ctx.bad && rng.chance(0.5)) compare();
  }
  chain.drain();
  if (!ctx.bad) compare();
  ctx.sample({ foundation, pools: [...m.pools], factories: [...m.factories] });
}
