// wNEAR: reference ledger (balances, supply, registrations) + backing invariant, with scripted receivers.
import { Chain, jsContract, json, forwarder, forwardCall } from '../lib/chain.mjs';
import { ONE, GAS_T, U128_MAX, validAccountId } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';
export const meta = {
  rule: { '*': 'Evaluations: receipts executed by the wNEAR WASM (calls and resolve callbacks) and compared with the reference ledger. Distinct: (method, outcome reason, registration of the parties, amount class, receiver behaviour, transfers in flight).' },
  assumptions: ['gas price is zero', 'storage price 10^19 yocto per byte (the SDK constant)'],
};
const C = 'wrap.near', PRICE = 10n ** 19n;
const A1 = ['N01'], A2 = ['N02'], A3 = ['N03'], A12 = ['N01', 'N02'];
export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng, { storageCheck: true }); ctx.chain = chain;
  const [d1, d2, ...users] = names(rng, ['dapp1.near', 'dapp2.near', 'alice.near', 'bob.near', 'carol.near', 'd'.repeat(64)], [C, 'nobody.near']);
  if (rng.chance(0.04)) { for (let i = rng.range(10, 40); i > 0; i--) users.push(`user${i}.near`); ctx.hit('many holders'); }
  for (const u of users) chain.createAccount(u, 10n ** 9n * ONE, { code: forwarder() });
  // scripted receivers
  const behaviours = ['keep', 'refundAll', 'refundPart', 'refundMore', 'fail', 'garbage', 'spend', 'withdraw', 'unregister', 'promise', 'nothing', 'nested', 'number'];
  const script = new Map();
  const recv = (id) => jsContract((api) => {
    if (api.method === 'late') return api.args.v;
    if (api.method === 'forward_') return forwardCall(api);
    if (api.method !== 'ft_on_transfer') return undefined;
    const b = script.get(id) ?? 'keep', amt = BigInt(api.args.amount);
    ctx.hit('receiver ' + b);
    switch (b) {
      case 'keep': return '0';
      case 'refundAll': return String(amt);
      case 'refundPart': return String(rng.big(amt + 1n));
      case 'refundMore': return String(amt + 1n + rng.big(amt));
      case 'fail': throw new Error('receiver failed');
      case 'garbage': return Buffer.from('{"x":');
      case 'number': return Buffer.from('5');
      case 'nothing': return undefined;
      case 'spend': api.promise(C, [{ type: 'FunctionCall', method: 'ft_transfer', args: { receiver_id: rng.pick(users), amount: String(rng.big(amt) + 1n) }, deposit: 1n }]); return String(amt);
      case 'withdraw': api.promise(C, [{ type: 'FunctionCall', method: 'near_withdraw', args: { amount: String(rng.big(amt) + 1n) }, deposit: 1n }]); return String(amt);
      case 'unregister': api.promise(C, [{ type: 'FunctionCall', method: 'storage_unregister', args: { force: true }, deposit: 1n }]); return String(amt);
      case 'promise': return api.promise(id, [{ type: 'FunctionCall', method: 'late', args: { v: String(rng.big(amt * 2n + 1n)) }, gas: 5n * GAS_T }]);
      case 'nested': return api.promise(C, [{ type: 'FunctionCall', method: 'ft_transfer', args: { receiver_id: api.args.sender_id, amount: String(amt) }, deposit: 1n }]);
    }
  });
  const dapps = [d1, d2];
  for (const d of dapps) chain.createAccount(d, 1000n * ONE, { code: recv(d) });
  chain.createAccount(C, 20n * ONE, { code: wasm('w_near') });
  const all = [...users, ...dapps];
  chain.forward = { p: rng.pick([0, 0.1, 0.3]), via: all, by: all };
  const m = { bal: new Map(), supply: 0n };
  const h0 = chain.run(users[0], C, 'new');
  if (!ctx.expect(h0.ok, [...A1, ...A2, ...A3], 'init failed')) return;
  ctx.expect(!chain.run(users[1], C, 'new').ok, [...A1, ...A2, ...A3], 're-initialized');
  const bounds = chain.get(C, 'storage_balance_bounds'), MIN = BigInt(bounds.min);
  ctx.eq(bounds.max, bounds.min, A3, 'storage bounds'); ctx.eq(chain.get(C, 'storage_minimum_balance'), MIN, A3, 'storage_minimum_balance');
  const base = chain.acct(C).amount, baseUsage = chain.acct(C).usage;
  let extra = 0n; // NEAR that reached the contract outside its ledger (1-yocto fees, plain transfers, burns)
  const inflight = new Map(); // ft_transfer_call receipts: resolve expectation
  const one = (x) => { if (x.deposit !== 1n) throw { why: 'one yocto', t: x.tags }; };
  const need = (c, why, t) => { if (!c) throw { why, t }; };
  const bal = (id) => m.bal.get(id) ?? 0n;
  const move = (d, from, to, amt, t) => {
    need(from !== to, 'self transfer', t); need(amt > 0n, 'zero amount', t);
    need(d.bal.has(from), 'sender not registered', t); need(d.bal.get(from) >= amt, 'insufficient', t); need(d.bal.has(to), 'receiver not registered', t);
    d.bal.set(from, d.bal.get(from) - amt); d.bal.set(to, d.bal.get(to) + amt);
  };
  const H = {
    near_deposit(d, x) {
      x.tags = d.bal.has(x.pred) ? A1 : [...A1, ...A3]; need(x.deposit > 0n, 'no deposit', A1);
      let a = x.deposit;
      if (!d.bal.has(x.pred)) { need(a >= MIN, 'deposit below registration', [...A1, ...A3]); d.bal.set(x.pred, 0n); a -= MIN; ctx.hit('deposit registers'); }
      d.bal.set(x.pred, d.bal.get(x.pred) + a); d.supply += a;
    },
    near_withdraw(d, x) {
      x.tags = A1; one(x); const a = BigInt(x.args.amount);
      need(d.bal.has(x.pred), 'not registered', A1); need(d.bal.get(x.pred) >= a, 'insufficient', A1);
      d.bal.set(x.pred, d.bal.get(x.pred) - a); d.supply -= a; x.eff.push(`${x.pred} ${a + 1n}`);
    },
    ft_transfer(d, x) { x.tags = A2; one(x); move(d, x.pred, x.args.receiver_id, BigInt(x.args.amount), A2); x.extra = 1n; },
    ft_transfer_call(d, x) { x.tags = A2; one(x); move(d, x.pred, x.args.receiver_id, BigInt(x.args.amount), A2); x.extra = 1n; x.tcall = true; },
    storage_deposit(d, x) {
      x.tags = A3; const id = x.args.account_id ?? x.pred;
      if (d.bal.has(id)) { if (x.deposit > 0n) x.eff.push(`${x.pred} ${x.deposit}`); ctx.hit('already registered refund'); }
      else { need(x.deposit >= MIN, 'below minimum', A3); d.bal.set(id, 0n); if (x.deposit > MIN) x.eff.push(`${x.pred} ${x.deposit - MIN}`); }
      x.ret = { total: String(MIN), available: '0' };
    },
    storage_withdraw(d, x) { x.tags = A3; one(x); need(d.bal.has(x.pred), 'not registered', A3); need(!x.args.amount || BigInt(x.args.amount) === 0n, 'nothing available', A3); x.extra = 1n; },
    storage_unregister(d, x) {
      x.tags = [...A1, ...A3]; one(x);
      if (!d.bal.has(x.pred)) { x.extra = 1n; x.ret = false; return; }
      const b = d.bal.get(x.pred); need(b === 0n || x.args.force === true, 'positive balance without force', [...A1, ...A3]);
      if (b > 0n) ctx.hit('forced unregister burns'); d.supply -= b; d.bal.delete(x.pred); x.extra = b; x.eff.push(`${x.pred} ${MIN + 1n}`); x.ret = true;
    },
  };
  chain.listeners.push((ev) => {
    const rc = ev.rc, a = rc.actions[0];
    if (rc.receiver !== C || ctx.bad) return;
    if (a.type === 'Transfer') { if (ev.ok) extra += a.amount; return; }
    if (a.type !== 'FunctionCall' || a.method === 'new') return;
    let args = {}; try { args = JSON.parse(a.args.toString() || '{}'); } catch {}
    const x = { pred: rc.pred, deposit: a.deposit, args, eff: [], tags: [...A1, ...A2, ...A3], extra: 0n, ret: undefined };
    const d = { bal: new Map(m.bal), supply: m.supply };
    let why = null, tags = x.tags;
    const st = (id) => (m.bal.has(id) ? (m.bal.get(id) > 0n ? 'R+' : 'R0') : 'N');
    if (rc.pred === C && !H[a.method]) { // resolve callback
      const f = inflight.get(rc.id);
      if (f) {
        inflight.delete(rc.id); x.tags = A12; ctx.hit('transfer_call resolved');
        const r = ev.results[0]; let unused = f.amount;
        if (r !== null && r !== undefined) { const s = r.toString(); if (/^"\d+"$/.test(s) && BigInt(s.slice(1, -1)) <= U128_MAX) { const v = BigInt(s.slice(1, -1)); unused = v < f.amount ? v : f.amount; } }
        let used = f.amount, burned = 0n;
        if (unused > 0n && d.bal.get(f.to) > 0n) {
          const rb = d.bal.get(f.to), ref = rb < unused ? rb : unused;
          d.bal.set(f.to, rb - ref);
          if (d.bal.has(f.from)) { d.bal.set(f.from, d.bal.get(f.from) + ref); used = f.amount - ref; ctx.hit('refund to sender'); }
          else { d.supply -= ref; burned = ref; x.extra = ref; ctx.hit('refund burned, sender gone'); }
          if (ref < unused) ctx.hit('receiver could not return everything');
        }
        x.retTag = String(used); x.ret = String(used); void burned;
      } else why = 'unexpected self call';
    } else if (!H[a.method]) why = 'not callable';
    else {
      const rid = args.receiver_id ?? args.account_id;
      try {
        if (rid !== undefined && rid !== null && !validAccountId(rid)) throw { why: 'invalid account id', t: [...A2, ...A3] };
        if (a.gas < 100n * GAS_T && a.method === 'ft_transfer_call' && !ev.ok) throw { why: 'not enough gas', t: A2 };
        H[a.method](d, x);
      } catch (e) { if (!e.why) throw e; why = e.why; tags = e.t ?? x.tags; }
    }
    ctx.saw(`${a.method}|${why ?? 'ok'}|${st(rc.pred)}|${args.receiver_id ? st(args.receiver_id) : args.account_id ? st(args.account_id) : '-'}|${a.deposit === 0n ? 0 : a.deposit === 1n ? 1 : a.deposit < MIN ? 'l' : a.deposit === MIN ? 'm' : 'h'}|${args.amount ? (BigInt(args.amount) === 0n ? 0 : BigInt(args.amount) === bal(rc.pred) ? 'all' : BigInt(args.amount) > bal(rc.pred) ? 'over' : 'part') : ''}|${Math.min(inflight.size, 3)}|${script.get(args.receiver_id) ?? ''}`);
    ctx.hit(`${a.method} ${why ?? 'ok'}`);
    ctx.note(`${rc.pred} ${a.method} ${a.args.toString().slice(0, 140)} +${a.deposit} -> ${ev.ok} ${ev.error?.msg ?? ''} (model ${why ?? 'ok'})`);
    if (a.method === 'near_withdraw' && BigInt(args.amount ?? 1) === 0n) { if (!ev.ok) return; }
    if (!ctx.expect(ev.ok === (why === null), why ? tags : x.tags, `${a.method}(${json(args)}) by ${rc.pred} with ${a.deposit}: ${ev.ok ? 'accepted' : 'rejected: ' + ev.error?.kind + ' ' + ev.error?.msg}, model: ${why ?? 'accept'}`)) return;
    if (!why) {
      const eff = [];
      for (const mk of ev.made) for (const ac of mk.actions) {
        if (ac.type === 'Transfer') eff.push(`${mk.receiver} ${ac.amount}`);
        else if (ac.type === 'FunctionCall' && mk.receiver === C) { if (x.tcall) inflight.set(mk.id, { from: rc.pred, to: args.receiver_id, amount: BigInt(args.amount) }); else eff.push('self call'); }
        else if (ac.type === 'FunctionCall' && x.tcall) {
          let p = null; try { p = JSON.parse(ac.args.toString()); } catch {}
          const okArgs = mk.receiver === args.receiver_id && ac.method === 'ft_on_transfer' && p && p.sender_id === rc.pred && p.amount === String(BigInt(args.amount)) && p.msg === args.msg && ac.deposit === 0n;
          ctx.expect(okArgs, A2, `receiver notified with ${mk.receiver}.${ac.method}(${ac.args})`); x.notified = true;
        } else eff.push(`${mk.receiver} ${ac.type}`);
      }
      if (x.tcall) ctx.expect(ev.made.some((r) => r.receiver === C && r.id === ev.ret?.promise), A2, 'the outcome of ft_transfer_call is not that of its resolution');
      if (x.tcall) ctx.expect(x.notified && [...inflight.values()].some((f) => f.from === rc.pred), A2, 'transfer_call without notification or resolution');
      ctx.eq(eff.sort().join(), x.eff.sort().join(), x.tags, `transfers promised by ${a.method}`);
      if (x.ret !== undefined) { let got = null; try { got = JSON.parse(ev.ret.toString()); } catch {} ctx.eq(got, x.ret, x.tags, `return value of ${a.method}`); }
      m.bal = d.bal; m.supply = d.supply; extra += x.extra;
    }
    compare(a.method, x.tags);
  });
  const compare = (what, tags) => {
    let sum = 0n;
    for (const u of all) {
      const b = BigInt(chain.get(C, 'ft_balance_of', { account_id: u })); sum += b;
      ctx.eq(b, bal(u), what === 'near_deposit' && b + MIN === bal(u) ? [...tags, ...A3] : tags, `balance of ${u} after ${what}`); // short by a registration: charged for one it does not need
      const sb = chain.get(C, 'storage_balance_of', { account_id: u });
      ctx.eq(sb, m.bal.has(u) ? { total: String(MIN), available: '0' } : null, [...A3, ...(what === 'near_deposit' ? A1 : [])], `storage balance of ${u} after ${what}`);
    }
    const meta = chain.get(C, 'ft_metadata');
    if (ctx.expect(meta?.decimals === 24 && meta.spec === 'ft-1.0.0' && !!meta.name && !!meta.symbol, A1, () => `the token describes itself as ${json(meta)}: a unit must be one yoctoNEAR`)) ctx.hit('one unit is described as one yocto');
    const supply = BigInt(chain.get(C, 'ft_total_supply')), acct = chain.acct(C);
    ctx.eq(supply, m.supply, A12.concat(tags), `total supply after ${what}`);
    ctx.expect(sum === supply, A12, `sum of balances ${sum} != supply ${supply}`);
    ctx.expect(acct.amount >= supply + MIN * BigInt(m.bal.size), ['N01', ...(what.startsWith('storage') ? A3 : [])], `contract holds ${acct.amount}, owes ${supply} + ${m.bal.size} storage deposits`);
    ctx.eq(acct.amount, base + supply + MIN * BigInt(m.bal.size) + extra, ['N01', ...(what.startsWith('storage') ? A3 : [])], `NEAR held after ${what}`);
    ctx.expect((acct.usage - baseUsage) * PRICE <= MIN * BigInt(m.bal.size), A3, `registrations cost ${(acct.usage - baseUsage) * PRICE} but paid ${MIN * BigInt(m.bal.size)}`);
  };
  const amt = (u) => String(rng.weighted([[2, bal(u)], [1, bal(u) + 1n], [6, rng.big(bal(u) + 1n)], [1, 1n], [0.4, 0n], [0.2, U128_MAX]]));
  const oneY = () => rng.weighted([[12, 1n], [0.5, 0n], [0.5, 2n], [0.3, ONE]]);
  for (const u of all) if (rng.chance(0.75)) chain.run(u, C, 'near_deposit', {}, { deposit: MIN + (rng.chance(0.85) ? BigInt(rng.range(1, 300)) * ONE / 7n : 0n) });
  const n = rng.range(25, 60);
  for (let i = 0; i < n && !ctx.bad; i++) {
    const u = rng.weighted([[2, rng.pick(all)], [1, rng.pick([...m.bal.keys(), ...all])]]), to = rng.weighted([[3, rng.pick(users)], [3, rng.pick(dapps)], [0.2, C], [0.2, 'nobody.near'], [0.15, 'Bad..']]);
    for (const d of dapps) if (rng.chance(0.5)) script.set(d, rng.pick(behaviours));
    const c = (meth, args, dep) => chain.call(u, C, meth, args, { deposit: dep });
    rng.weighted([
      [6, () => c('near_deposit', {}, rng.weighted([[5, BigInt(rng.range(1, 500)) * ONE + rng.big(ONE)], [1, MIN], [1, MIN - 1n], [1, MIN + 1n], [0.5, 0n], [2, BigInt(rng.range(1, 50))], [0.8, rng.big(10n ** 7n * ONE) + 1n]]))],
      [3, () => c('near_withdraw', { amount: amt(u) }, oneY())],
      [4, () => c('ft_transfer', { receiver_id: to, amount: amt(u), memo: rng.chance(0.3) ? 'm' : null }, oneY())],
      [7, () => c('ft_transfer_call', { receiver_id: rng.chance(0.85) ? rng.pick(dapps) : to, amount: amt(u), memo: null, msg: 'hello ' + i }, oneY())],
      [3, () => c('storage_deposit', rng.weighted([[2, {}], [2, { account_id: rng.pick(all) }], [0.2, { account_id: 'Bad!' }], [0.5, { account_id: rng.pick(all), registration_only: true }]]), rng.weighted([[3, MIN], [2, MIN + rng.big(ONE)], [1, MIN - 1n], [1, 0n], [1, ONE]]))],
      [0.7, () => c('storage_withdraw', rng.pick([{}, { amount: '0' }, { amount: '1' }, { amount: String(MIN) }]), oneY())],
      [1.5, () => c('storage_unregister', rng.pick([{}, { force: true }, { force: false }]), oneY())],
      [0.8, () => { c('ft_transfer_call', { receiver_id: rng.pick(dapps), amount: amt(u), memo: null, msg: 'x' }, 1n); c('storage_unregister', { force: true }, 1n); }],
      [0.3, () => chain.tx(u, C, [{ type: 'Transfer', amount: 1n + rng.big(ONE) }])],
      [0.5, () => c('ft_resolve_transfer', { sender_id: u, receiver_id: rng.pick(all), amount: '100' }, 0n)],
    ])();
    for (let k = rng.weighted([[2, 99], [1, rng.range(0, 4)]]); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
  }
  if (ctx.bad) return;
  chain.drain();
  if (ctx.bad) return;
  ctx.expect(inflight.size === 0, A2, 'a transfer_call was never resolved');
  // run on the bank: everyone withdraws everything
  for (const u of rng.shuffle([...m.bal.keys()])) {
    const b = bal(u); if (b === 0n) continue;
    const r = chain.run(u, C, 'near_withdraw', { amount: String(b) }, { deposit: 1n });
    if (ctx.bad) return;
    ctx.expect(r.ok, A1, `${u} could not withdraw its ${b}`); ctx.hit('final redemption');
  }
  ctx.sample({ supply: String(m.supply), registered: m.bal.size });
}
