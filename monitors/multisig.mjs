// Multisig wallets (multisig: members are the account's access keys; multisig2: explicit members that are
// accounts or keys): reference model driven by every receipt the wallet executes, plus its real access keys.
import { Chain, STORAGE_PRICE, pkOf, pkSecp, pk58, json, jsContract, forwarder, forwardCall } from '../lib/chain.mjs';
import { ONE, GAS_T, validAccountId } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';

const W = 'wallet.near', COOL = 900_000_000_000n;
const METHODS = ['add_request', 'delete_request', 'confirm', 'add_request_and_confirm'];
export const meta = {
  rule: { '*': 'Evaluations: receipts the wallet WASM executed, compared with the reference model (outcome, receipts promised, requests, confirmations, counters, members, access keys). Distinct: (version, method, outcome, caller kind, confirmations before/threshold, action kinds, limit state) tuples.' },
  assumptions: ['multisig (v1): every access key of the account counts as a member, as its README says', 'lib/chain.mjs enforces access key permissions as NEAR does'],
};
class Reject extends Error { constructor(why, tags) { super(why); this.tags = tags; } }
const rej = (c, why, ...tags) => { if (!c) throw new Reject(why, tags); };
const mkey = (m) => JSON.stringify(m);

class Model {
  constructor(v2) { this.v2 = v2; this.K = 0; this.nonce = 0; this.limit = 12; this.limitChanged = false; this.requests = new Map(); this.conf = new Map(); this.counts = new Map(); this.members = new Set(); this.removed = new Set(); }
  clone() { const m = new Model(this.v2); Object.assign(m, this); for (const k of ['requests', 'counts']) m[k] = new Map(this[k]); m.conf = new Map([...this.conf].map(([i, s]) => [i, new Set(s)])); m.members = new Set(this.members); m.removed = new Set(this.removed); return m; }
  caller(x) {
    if (!this.v2) { rej(x.pred === W, 'not a member', 'M01', 'M02', 'M03'); return x.pk; }
    const k = x.pred === W ? mkey({ public_key: pk58(x.pk) }) : mkey({ account_id: x.pred });
    rej(this.members.has(k), this.removed.has(k) ? 'removed member' : 'not a member', 'M01', 'M02', 'M03');
    return k;
  }
  add(x, req) {
    const who = this.caller(x);
    rej(validAccountId(req.receiver_id) || !this.v2, 'invalid receiver', 'M01');
    const n = (this.counts.get(who) ?? 0) + 1;
    rej(n <= this.limit, 'active request limit', 'M02', ...(this.limitChanged ? ['M04'] : []));
    this.counts.set(who, n);
    const id = this.nonce++;
    this.requests.set(id, { req, who, ts: x.ts }); this.conf.set(id, new Set());
    return id;
  }
  remove(id) {
    const r = this.requests.get(id);
    this.requests.delete(id); this.conf.delete(id);
    this.counts.set(r.who, Math.max(0, (this.counts.get(r.who) ?? 0) - 1));
    return r;
  }
  valid(x, id) { const who = this.caller(x); rej(this.requests.has(id), 'no such request', 'M01', 'M02'); return who; }
  del(x, id) { this.valid(x, id); rej(x.ts > this.requests.get(id).ts + COOL, 'cooldown', 'M02'); x.deletedReq = this.remove(id).req; }
  confirm(x, id) {
    const who = this.valid(x, id), c = this.conf.get(id);
    rej(!c.has(who), 'confirmed twice', 'M01');
    x.confBefore = c.size; x.K = this.K;
    if (c.size + 1 >= this.K) { x.executed = this.remove(id).req; this.exec(x, x.executed); } else c.add(who);
  }
  exec(x, req) {
    rej(validAccountId(req.receiver_id), 'invalid receiver', 'M01');
    const out = [], self = (why) => rej(req.receiver_id === W, `${why} for another receiver`, 'M04');
    const drop = (owner) => { for (const [i, r] of this.requests) if (r.who === owner) { this.requests.delete(i); this.conf.delete(i); x.dropped = (x.dropped ?? 0) + 1; } this.counts.delete(owner); };
    let spent = 0n;
    const pay = (v) => { spent += v; x.spent = spent; rej(spent <= x.balance, 'balance exceeded', 'M01'); };
    for (const a of req.actions) switch (a.type) {
      case 'Transfer': pay(BigInt(a.amount)); out.push(`Transfer ${a.amount}`); break;
      case 'CreateAccount': out.push('CreateAccount'); break;
      case 'DeployContract': out.push(`Deploy ${a.code}`); break;
      case 'AddMember': {
        self('AddMember'); const k = mkey(a.member);
        rej(!this.members.has(k), 'member already present', 'M03'); this.members.add(k); this.removed.delete(k);
        if (a.member.public_key) out.push(`AddKey ${a.member.public_key} multisig`);
        break;
      }
      case 'DeleteMember': {
        self('DeleteMember'); const k = mkey(a.member);
        rej(this.members.has(k), 'member absent', 'M03'); rej(this.members.size - 1 >= this.K, 'fewer members than the threshold', 'M03');
        drop(k); this.members.delete(k); this.removed.add(k);
        if (a.member.public_key) out.push(`DeleteKey ${a.member.public_key}`);
        break;
      }
      case 'AddKey': self('AddKey'); out.push(`AddKey ${a.public_key} ${a.permission ? permStr(a.permission.receiver_id, a.permission.method_names, a.permission.allowance === '0' ? null : a.permission.allowance ?? null) : 'full'}`); break;
      case 'DeleteKey': self('DeleteKey'); drop(x.rawOf(a.public_key)); out.push(`DeleteKey ${a.public_key}`); break;
      case 'FunctionCall': pay(BigInt(a.deposit)); out.push(`Call ${a.method_name} ${a.args} ${a.deposit} ${a.gas}`); break;
      case 'SetNumConfirmations':
        self('SetNumConfirmations'); rej(req.actions.length === 1, 'threshold change bundled', 'M04');
        rej(!this.v2 || this.members.size >= a.num_confirmations, 'threshold above members', 'M04', 'M03');
        this.K = a.num_confirmations; x.effects = []; return;
      case 'SetActiveRequestsLimit':
        self('SetActiveRequestsLimit'); rej(req.actions.length === 1, 'limit change bundled', 'M04');
        this.limit = a.active_requests_limit; this.limitChanged = true; x.effects = []; return;
      default: throw new Error('generator: ' + a.type);
    }
    x.effects = out.length ? [`${req.receiver_id}: ${out.join(' ; ')}`] : [];
  }
}
// allowance 0 means unlimited
const permStr = (receiver, methods, allowance) => (receiver === W && methods.length === METHODS.length && METHODS.every((m) => methods.includes(m)) && allowance === null ? 'multisig' : json([receiver, methods, allowance]));
const actStr = (a) => {
  switch (a.type) {
    case 'Transfer': return `Transfer ${a.amount}`;
    case 'CreateAccount': return 'CreateAccount';
    case 'DeployContract': return `Deploy ${a.code.toString('base64')}`;
    case 'AddKey': return `AddKey ${pk58(a.pk)} ${a.perm.full ? 'full' : permStr(a.perm.receiver, a.perm.methods, a.perm.allowance)}`;
    case 'DeleteKey': return `DeleteKey ${pk58(a.pk)}`;
    case 'FunctionCall': return `Call ${a.method} ${a.args.toString('base64')} ${a.deposit} ${a.gas}`;
    default: return a.type;
  }
};
const effectsOf = (ev) => ev.made.filter((m) => m.actions.length).map((m) => `${m.receiver}: ${m.actions.map(actStr).join(' ; ')}`);

class Monitor {
  constructor(ctx, chain, v2, names) {
    Object.assign(this, { ctx, chain, v2, model: null, names, failedKeys: new Set(), otherKeys: new Set([pkOf('boot')]) });
    this.raw = new Map(names.keys.map((k) => [pk58(k), k]));
    chain.listeners.push((ev) => { if (ev.rc.receiver === W && !ctx.bad) this.onEvent(ev); });
  }
  onEvent(ev) {
    const { ctx } = this, rc = ev.rc;
    if (!ev.ok && rc.pred === W && !rc.refund && rc.parent !== null && rc.actions.some((a) => a.type === 'AddKey' || a.type === 'DeleteKey')) { for (const a of rc.actions) if (a.pk) this.failedKeys.add(a.pk); ctx.hit('a self-addressed batch with key actions failed'); }
    for (const a of rc.actions) if (a.type === 'FunctionCall' && rc.actions.length === 1) this.onCall(ev, rc, a);
  }
  onCall(ev, rc, a) {
    const { ctx, v2 } = this;
    if (ev.error?.kind === 'GasExceeded' && rc.parent !== null && a.gas < 100n * GAS_T) { ctx.hit('out of gas'); return; }
    let args = null;
    try { args = JSON.parse(a.args.toString() || '{}'); } catch { /* judged as malformed */ }
    if (a.method === 'new') return this.onNew(ev, rc, a, args);
    if (!this.model) { ctx.expect(!ev.ok, 'M04', () => `${a.method} accepted before initialization`); return; }
    const x = { pred: rc.pred, pk: rc.signerPk, ts: ev.timestamp, balance: ev.before + a.deposit, effects: [], rawOf: (k) => this.raw.get(k) ?? k };
    const next = this.model.clone();
    let why = null, tags = [], value;
    try {
      rej(METHODS.includes(a.method), 'unknown method', 'M04');
      rej(a.deposit === 0n, 'deposit on a non-payable method', 'M01');
      rej(args !== null && (a.method.startsWith('add') ? Array.isArray(args.request?.actions) : Number.isInteger(args.request_id)), 'malformed', 'M01');
      if (a.method === 'add_request') value = next.add(x, args.request);
      else if (a.method === 'add_request_and_confirm') { value = next.add(x, args.request); next.confirm(x, value); }
      else if (a.method === 'confirm') { next.confirm(x, args.request_id); }
      else if (a.method === 'delete_request') next.del(x, args.request_id);
    } catch (e) { if (!(e instanceof Reject)) throw e; why = e.message; tags = e.tags; }
    const kinds = [...new Set((x.executed ?? args?.request)?.actions?.map((z) => z.type) ?? [])].sort().join('+');
    const cat = rc.pred === W ? (rc.parent === null ? 'key' : 'self-call') : v2 && this.model.members.has(mkey({ account_id: rc.pred })) ? 'account' : 'stranger';
    ctx.saw(`${v2 ? 2 : 1}|${a.method}|${why ?? 'ok'}|${cat}|${x.confBefore ?? '-'}/${x.K ?? '-'}|${x.executed ? 'X' : ''}${kinds}|L${Math.min(this.model.limit, 13)}`);
    ctx.hit(`${v2 ? 'multisig2' : 'multisig'} ${a.method} ${why ?? (x.executed ? 'executed' : 'ok')}`);
    if (x.executed) { ctx.hit(`executed after ${x.confBefore + 1} confirmations with threshold ${x.K}`); for (const k of kinds.split('+')) ctx.hit('executed ' + k); ctx.sample({ caller: rc.pred, signer_key: pk58(rc.signerPk), request: x.executed, confirmations_before: x.confBefore, threshold: x.K, model: why ?? 'ok', receipts: effectsOf(ev) }); }
    // keys a request adds with AddKey are that request's business, members or not
    if (x.executed && why === null) for (const z of x.executed.actions) if (z.type === 'AddKey') this.otherKeys.add(this.raw.get(z.public_key));
    if (x.dropped) ctx.hit('requests dropped with their member', x.dropped);
    ctx.note(`${v2 ? 'v2' : 'v1'} ${rc.pred}/${pk58(rc.signerPk).slice(8, 14)} ${a.method} ${a.args.toString().slice(0, 260)} -> ${ev.ok ? 'ok' : ev.error.kind + ' ' + String(ev.error.msg).slice(0, 90)} (model: ${why ?? 'ok'}${x.executed ? ' executed' : ''}) K=${this.model.K}`);
    // gas a request gives away is the members' choice: with too much of it the confirmation cannot be carried out at all
    if (ev.error?.kind === 'GasExceeded' && x.executed && x.executed.actions.reduce((g, z) => g + BigInt(z.gas ?? 0), 100n * GAS_T) > a.gas) { ctx.hit('a request that gives away more gas than there is'); return; }
    // neither can one that pays away what the wallet's own storage has to be covered with
    if (ev.error?.kind === 'LackBalanceForState' && why === null && x.balance - (x.spent ?? 0n) < (this.chain.acct(W).usage + BigInt(3 * a.args.length + 2000)) * STORAGE_PRICE) { ctx.hit('a request that pays away what covers the storage'); return; }
    if ((why === null) !== ev.ok) {
      const t = new Set(tags);
      for (const k of a.method === 'delete_request' ? ['M02'] : a.method === 'add_request' ? ['M02', ...(this.model.limitChanged ? ['M04'] : [])] : ['M01']) t.add(k);
      if (x.executed && (/Member/.test(kinds) || /DeleteKey/.test(kinds))) t.add('M03');
      if (/Set|Key|Member/.test(kinds) && x.executed) t.add('M04');
      ctx.fail([...t], `${v2 ? 'multisig2' : 'multisig'}: ${a.method} by ${rc.pred} (${cat}) with ${a.args.toString().slice(0, 300)}: model expects ${why === null ? 'success' : 'rejection (' + why + ')'}, the contract ${ev.ok ? 'accepted it' : 'failed with ' + ev.error.kind + ' ' + ev.error.msg}`);
      return;
    }
    if (ev.ok && value !== undefined) ctx.eq(JSON.parse(ev.ret?.toString() || 'null'), value, ['M02'], `request id returned by ${a.method}`);
    if (ev.ok && a.method === 'delete_request' && !v2) ctx.eq(canon(JSON.parse(ev.ret.toString())), canon(x.deletedReq), ['M02'], 'deleted request returned');
    const eff = effectsOf(ev), want = why === null ? x.effects : [];
    if (eff.join('|') !== want.join('|')) {
      const t = ['M01']; const d = eff.join() + want.join();
      if (/AddKey|DeleteKey/.test(d)) t.push('M03');
      if (/AddKey|DeleteKey/.test(d)) t.push('M04');
      ctx.fail(t, `${v2 ? 'multisig2' : 'multisig'}: ${a.method} promised [${eff.join(' | ').slice(0, 600)}], expected [${want.join(' | ').slice(0, 600)}]`);
    }
    // the last confirmation's outcome is that of the request's actions
    if (ev.ok && a.method === 'confirm' && why === null && !ctx.bad) {
      const acts = x.executed && !x.executed.actions.some((z) => /^Set/.test(z.type));
      const ids = ev.made.map((r) => r.id);
      ctx.expect(acts ? ids.includes(ev.ret?.promise) : ev.ret?.toString() === 'true', ['M01'], () => `${v2 ? 'multisig2' : 'multisig'}: confirm ${acts ? 'executed the request' : 'succeeded'} but answered ${Buffer.isBuffer(ev.ret) ? ev.ret.toString() : json(ev.ret)}`);
    }
    if (why === null) this.model = next;
    this.compare(a.method, x.executed && why === null && /DeleteMember|DeleteKey/.test(kinds) ? ['M03'] : []);
  }
  onNew(ev, rc, a, args) {
    const { ctx, v2 } = this;
    let ok = !this.model && a.deposit === 0n && rc.actions.length === 1, dup = false;
    const ms = (args.members ?? []).map(mkey);
    if (v2) { dup = new Set(ms).size !== ms.length; ok = ok && !dup && ms.length >= args.num_confirmations; }
    ctx.hit(`${v2 ? 'multisig2' : 'multisig'} new ${ok ? 'ok' : this.model ? 'refused: already initialized' : dup ? 'refused: repeated member' : 'refused'}`); ctx.saw(`${v2}|new|${ok}|${!!this.model}|${dup}|${ms.length}|${args.num_confirmations}`);
    if (!ctx.expect(ev.ok === ok, dup ? ['M03', 'M04'] : ['M04'], () => `new(${json(args)}) ${ev.ok ? 'accepted' : 'refused: ' + ev.error?.msg}, expected ${ok ? 'success' : 'refusal'}`)) return;
    if (!ev.ok) return;
    const m = new Model(v2); m.K = args.num_confirmations; m.members = new Set(ms); this.model = m;
    const want = (args.members ?? []).filter((z) => z.public_key).map((z) => `AddKey ${z.public_key} multisig`);
    ctx.eq(effectsOf(ev).join('|'), want.length ? `${W}: ${want.join(' ; ')}` : '', ['M03', 'M04'], 'receipts of new');
    this.compare('new');
  }
  compare(after, extra = []) {
    const { ctx, chain, model: m, v2 } = this, v = (meth, args) => chain.get(W, meth, args), tag = v2 ? 'multisig2' : 'multisig';
    const ids = v('list_request_ids').slice().sort((a, b) => a - b);
    ctx.eq(ids, [...m.requests.keys()].sort((a, b) => a - b), ['M02', ...(/confirm/.test(after) ? ['M01', 'M03'] : []), ...extra], `${tag}: requests existing after ${after}`);
    if (ctx.bad) return;
    ctx.eq(v('get_request_nonce'), m.nonce, ['M02'], `${tag}: request nonce after ${after}`);
    ctx.eq(v('get_num_confirmations'), m.K, ['M04', 'M01'], `${tag}: confirmation threshold after ${after}`);
    const shown = (who) => (v2 ? who : pk58(who));
    for (const [id, r] of m.requests) {
      ctx.eq(canon(v('get_request', { request_id: id })), canon(r.req), ['M01', 'M02'], () => `${tag}: content of request ${id} after ${after}`);
      ctx.eq(v('get_confirmations', { request_id: id }).slice().sort(), [...m.conf.get(id)].map(shown).sort(), ['M01', ...extra], () => `${tag}: confirmations of request ${id} after ${after}`);
    }
    const who = new Set([...m.counts.keys(), ...m.members, ...m.removed, ...[...m.requests.values()].map((r) => r.who)]);
    for (const w of who) {
      const c = v2 ? v('get_num_requests_per_member', { member: JSON.parse(w) }) : v('get_num_requests_pk', { public_key: pk58(w) });
      const real = [...m.requests.values()].filter((r) => r.who === w).length;
      ctx.eq(c, real, ['M02', ...(m.removed.has(w) ? ['M03'] : []), ...extra], () => `${tag}: active request count of ${shown(w)} after ${after}`);
    }
    if (v2) {
      ctx.eq(v('get_members').map(mkey).sort(), [...m.members].sort(), ['M03', 'M04'], `members after ${after}`);
      ctx.expect(m.members.size >= m.K, ['M03', 'M04'], () => `${m.members.size} members but ${m.K} confirmations needed`);
    }
  }
  // At rest the account's real access keys are those of its key members.
  atIdle() {
    const { ctx, chain, model: m } = this;
    if (!m || ctx.bad || !this.v2) return;
    const keys = chain.acct(W)?.keys; if (!keys) return;
    const bad = (pk, msg) => ctx.fail(['M03'], msg, this.failedKeys.has(pk) ? 'multisig2-key-action-rejected' : null);
    for (const s of m.members) {
      const pk = this.raw.get(JSON.parse(s).public_key); if (!pk) continue;
      const k = keys.get(pk);
      if (!k) return bad(pk, `key member ${s} has no access key`);
      if (k.full && this.otherKeys.has(pk)) continue;
      if (k.full || k.receiver !== W || k.methods.slice().sort().join() !== METHODS.slice().sort().join()) return bad(pk, `key member ${s} has access key ${json(k)}`);
      ctx.hit('key member holds a restricted key');
    }
    for (const s of m.removed) { const pk = this.raw.get(JSON.parse(s).public_key); if (pk && keys.has(pk) && !this.otherKeys.has(pk)) return bad(pk, `removed member ${s} still has an access key`); if (pk) ctx.hit('removed member has no key'); }
  }
}
const canon = (r) => (r === null || r === undefined ? r : JSON.stringify({ receiver_id: r.receiver_id, actions: r.actions.map((a) => Object.fromEntries(Object.entries({ ...a, ...(a.type === 'AddKey' ? { permission: a.permission ?? null } : {}) }).sort())) }));

export async function scenario(ctx) {
  const rng = ctx.rng, v2 = rng.chance(0.6);
  const chain = new Chain(rng, { timestamp: 1_600_000_000_000_000_000n });
  ctx.chain = chain;
  const crowd = rng.chance(0.07); // many members, many confirmations, many requests
  if (crowd) ctx.hit('wallet with many members');
  const curves = rng.chance(0.3); // access keys of both curves
  if (curves) ctx.hit('keys of both curves');
  const keys = Array.from({ length: crowd ? 12 : 6 }, (_, i) => (curves && rng.chance(0.5) ? pkSecp : pkOf)('key' + i));
  const boot = pkOf('boot');
  const people = [...names(rng, ['alice.near', 'bob.near', 'carol.near', ...(crowd ? ['d', 'e', 'f', 'g', 'h', 'i'].map((c) => `${c}.members.near`) : [])], [W, 'mock.near', 'ghost.near', 'eve.near']), 'eve.near'], alice = people[0];
  for (const p of people) chain.createAccount(p, 1000n * ONE, { keys: [pkOf(p)], code: forwarder() });
  chain.forward = { p: rng.pick([0, 0.15, 0.4]), via: people, by: people };
  const log = [];
  chain.createAccount('mock.near', 10n * ONE, { code: jsContract((api) => { if (api.method === 'forward_') { ctx.hit('called back by a contract the wallet called'); return forwardCall(api); } log.push([api.method, api.raw.toString('base64'), api.deposit, api.pred]); if (api.method === 'boom') throw new Error('boom'); return 1; }) });
  const long = rng.chance(0.015); // far more requests, open and done, than the default limit allows
  chain.createAccount(W, (long ? 10n ** 7n : rng.pick([200n, 5000n, 5000n, 10n ** 7n])) * ONE, { code: wasm(v2 ? 'multisig2' : 'multisig') });
  const acct = chain.acct(W);
  const allKeys = [...keys, boot, ...people.map(pkOf)];
  const mon = new Monitor(ctx, chain, v2, { keys: allKeys });
  const nK = crowd ? rng.range(6, 12) : rng.range(1, 4), limited = rng.chance(0.6);
  if (v2) acct.keys.set(boot, { full: true });
  else for (let i = 0; i < nK; i++) acct.keys.set(keys[i], limited ? { full: false, allowance: null, receiver: W, methods: METHODS } : { full: true });
  // ---- initialization ----
  let members = [];
  if (v2) {
    members = rng.shuffle([...keys.slice(0, nK).map((k) => ({ public_key: pk58(k) })), ...people.slice(0, crowd ? rng.range(3, 9) : rng.range(0, 3)).map((p) => ({ account_id: p })), ...(rng.chance(0.1) ? [{ public_key: pk58(pkOf(alice)) }] : [])]);
    if (rng.chance(0.15)) chain.run('eve.near', W, 'new', { members: [...members, rng.pick(members)], num_confirmations: rng.range(1, members.length + 1) });
    if (rng.chance(0.1)) chain.run('eve.near', W, 'new', { members, num_confirmations: members.length + rng.range(1, 3) });
    if (ctx.bad || mon.model) return;
  }
  const K0 = Math.min(v2 ? members.length : nK, crowd ? rng.range(3, 18) : rng.weighted([[2, 1], [4, 2], [3, 3], [1.2, 5], [0.3, 0]]));
  if (rng.chance(0.1)) { chain.run(W, W, 'add_request', { request: { receiver_id: 'mock.near', actions: [] } }, { pk: v2 ? boot : keys[0] }); if (ctx.bad) return; }
  const h = chain.run('eve.near', W, 'new', v2 ? { members, num_confirmations: K0 } : { num_confirmations: K0 });
  if (ctx.bad || !h.ok) { if (!ctx.bad) ctx.fail(['M04'], 'initialization failed ' + json(h.error)); return; }
  mon.atIdle(); if (ctx.bad) return;
  chain.run('eve.near', W, 'new', v2 ? { members: [{ account_id: 'eve.near' }], num_confirmations: 1 } : { num_confirmations: 1 });
  if (ctx.bad) return;
  // ---- generators ----
  let sub = 0;
  const pkS = () => pk58(rng.pick(allKeys));
  const member = () => (rng.chance(0.6) ? { public_key: pk58(rng.pick(keys)) } : { account_id: rng.pick(people) });
  const present = () => (mon.model.members.size ? JSON.parse(rng.pick([...mon.model.members])) : member());
  const b64 = (o) => Buffer.from(typeof o === 'string' ? o : json(o)).toString('base64');
  const amount = () => rng.weighted([[6, ONE + rng.big(ONE)], [1, 1n], [1, 0n], [0.4, 10n ** 30n], [0.7, rng.big(10n ** BigInt(rng.range(2, 7)) * ONE)]]).toString();
  const gas = () => (BigInt(rng.chance(0.06) ? rng.range(100, 260) : rng.range(1, 12)) * GAS_T + (rng.chance(0.2) ? rng.big(GAS_T) : 0n)).toString();
  const selfCall = () => rng.pick([
    { type: 'FunctionCall', method_name: 'add_request', args: b64({ request: { receiver_id: 'mock.near', actions: [{ type: 'Transfer', amount: '1' }] } }), deposit: '0', gas: (40n * GAS_T).toString() },
    { type: 'FunctionCall', method_name: 'confirm', args: b64({ request_id: rng.int(mon.model.nonce + 1) }), deposit: '0', gas: (60n * GAS_T).toString() },
    { type: 'FunctionCall', method_name: 'delete_request', args: b64({ request_id: rng.int(mon.model.nonce + 1) }), deposit: '0', gas: (40n * GAS_T).toString() },
    { type: 'FunctionCall', method_name: 'new', args: b64(v2 ? { members: [{ account_id: 'eve.near' }], num_confirmations: 1 } : { num_confirmations: 1 }), deposit: '0', gas: (40n * GAS_T).toString() },
  ]);
  // the other contract calls the wallet back: signed by the wallet (and a member's key), but not called by it
  const back = () => { const m = rng.pick(['confirm', 'add_request_and_confirm', 'add_request', 'delete_request']); return { type: 'FunctionCall', method_name: 'forward_', args: b64({ to: W, method: m, args: b64(m.startsWith('add') ? { request: { receiver_id: 'mock.near', actions: [{ type: 'Transfer', amount: '1' }] } } : { request_id: Math.max(0, mon.model.nonce - rng.int(4)) }), deposit: '0' }), deposit: '0', gas: (100n * GAS_T).toString() }; };
  const call = () => rng.chance(0.25) ? back() : ({ type: 'FunctionCall', method_name: rng.pick(['go', 'boom', 'x', 'ünï']), args: b64(rng.weighted([[1, {}], [1, { a: 1 }], [1, 'raw\x01bytes'], [1, ''], [0.12, 'long'.repeat(rng.range(60, 5000))]])), deposit: rng.pick(['0', '1', amount()]), gas: gas() });
  const addKey = () => ({ type: 'AddKey', public_key: pkS(), ...(rng.chance(0.6) ? { permission: { allowance: rng.pick([null, '0', (ONE / 10n).toString(), String(rng.big(10n ** BigInt(rng.range(3, 33))))]), receiver_id: rng.pick([W, 'mock.near']), method_names: rng.pick([[], METHODS, ['confirm'], ['a', 'b'], Array.from({ length: rng.range(1, 40) }, (_, i) => `m_${i}`)]) } } : {}) });
  const setNum = () => ({ type: 'SetNumConfirmations', num_confirmations: rng.weighted([[4, crowd ? rng.range(1, 15) : rng.range(1, 3)], [1, rng.range(0, 6)], [0.35, rng.pick([255, 256, 257, 258, 65535, 65536, 65537, 65538, 16777217])], [0.2, 4294967295]]) });
  const setLim = () => ({ type: 'SetActiveRequestsLimit', active_requests_limit: rng.weighted([[4, rng.range(1, 3)], [2, rng.range(3, 14)], [1, rng.range(15, 300)], [0.3, rng.pick([255, 256, 257, 65536, 65537, 4294967295])], [0.1, 0]]) });
  const addM = () => ({ type: 'AddMember', member: rng.chance(0.75) ? member() : present() });
  const delM = () => ({ type: 'DeleteMember', member: rng.chance(0.8) ? present() : member() });
  const delK = () => ({ type: 'DeleteKey', public_key: rng.chance(0.7) ? pk58(rng.pick([...acct.keys.keys(), keys[0]])) : pkS() });
  const request = () => rng.weighted([
    [6, () => ({ receiver_id: rng.pick(['mock.near', alice, 'mock.near', 'ghost.near']), actions: Array.from({ length: rng.weighted([[4, 1], [2, 2], [1, 3]]) }, () => (rng.chance(0.6) ? { type: 'Transfer', amount: amount() } : call())) })],
    [1.5, () => { const s = `s${sub++}.${W}`; return { receiver_id: s, actions: [{ type: 'CreateAccount' }, { type: 'Transfer', amount: (3n * ONE).toString() }, ...(rng.chance(0.5) ? [{ type: 'DeployContract', code: b64(wasm('whitelist')).slice(0, rng.chance(0.02) ? undefined : 0) || 'AGFzbQEAAAA=' }] : [])] }; }],
    [v2 ? 5 : 0, () => ({ receiver_id: W, actions: [rng.pick([addM, delM])()] })],
    [v2 ? 1 : 0, () => ({ receiver_id: W, actions: Array.from({ length: rng.range(2, 3) }, () => rng.pick([addM, delM, addM, delM, addKey, () => ({ type: 'Transfer', amount: amount() })])()) })],
    [v2 ? 0 : 5, () => ({ receiver_id: W, actions: [rng.pick([addKey, delK, delK])()] })],
    [v2 ? 0 : 1, () => ({ receiver_id: W, actions: Array.from({ length: 2 }, () => rng.pick([addKey, delK])()) })],
    [1, () => ({ receiver_id: W, actions: [addKey()] })],
    [1.5, () => ({ receiver_id: W, actions: [setNum()] })], [1.2, () => ({ receiver_id: W, actions: [setLim()] })],
    [1.5, () => { const s = rng.pick([setNum, setLim, addKey, ...(v2 ? [addM, delM] : [delK])]); return { receiver_id: rng.pick(['mock.near', alice, 'mock.near', W, `s1.${W}`, `x${W}`, W.slice(0, -1)]), actions: rng.shuffle([s(), ...(rng.chance(0.6) ? [rng.pick([setNum, setLim, () => ({ type: 'Transfer', amount: '5' })])()] : [])]) }; }],
    [1.5, () => ({ receiver_id: W, actions: [selfCall()] })],
    [0.3, () => ({ receiver_id: rng.pick(['mock.near', W]), actions: [] })],
    [0.12, () => { const s = rng.pick([setNum, setLim])(), pad = Array.from({ length: 256 }, () => ({ type: 'Transfer', amount: '0' })); ctx.hit('a configuration action among 256 others'); return { receiver_id: W, actions: rng.chance(0.5) ? [s, ...pad] : [...pad, s] }; }],
    [0.15, () => ({ receiver_id: 'Not Valid', actions: [{ type: 'Transfer', amount: '1' }] })],
  ])();
  // who sends: mostly members, over their own channel
  const via = (who, method, args, opts = {}) => {
    if (who.pk) return chain.call(W, W, method, args, { pk: who.pk, gas: 300n * GAS_T, ...opts });
    return chain.call(who.account, W, method, args, { gas: 300n * GAS_T, ...opts });
  };
  const walletKeys = () => [...acct_().keys.keys()];
  const acct_ = () => chain.acct(W);
  const sender = () => {
    if (rng.chance(0.08)) return { account: rng.pick(people) };
    if (rng.chance(0.05)) return { pk: rng.pick(walletKeys().concat(boot)) };
    if (!v2) { const ks = walletKeys(); return ks.length ? { pk: rng.pick(ks) } : { account: 'eve.near' }; }
    const m = JSON.parse(rng.pick([...mon.model.members])); return m.account_id ? { account: m.account_id } : { pk: mon.raw.get(m.public_key) };
  };
  const everySender = () => (!acct_() ? [] : v2 ? [...mon.model.members].map((s) => JSON.parse(s)).map((m) => (m.account_id ? { account: m.account_id } : { pk: mon.raw.get(m.public_key) })) : walletKeys().map((pk) => ({ pk })));
  const openId = () => { const ids = [...mon.model.requests.keys()]; return ids.length && rng.chance(0.93) ? rng.pick(ids.slice(-5)) : rng.int(mon.model.nonce + 2); };
  if (rng.chance(0.1)) { // exhaust the default limit
    const s = sender(); for (let i = 0; i < 14 && !ctx.bad; i++) via(s, 'add_request', { request: { receiver_id: 'mock.near', actions: [{ type: 'Transfer', amount: '1' }] } });
    chain.drain(); ctx.hit('default limit probed');
  }
  if (long && acct_() && everySender().length) {
    const through = (req) => { const id = mon.model.nonce; via(rng.pick(everySender()), 'add_request', { request: req }); chain.drain(); for (const w of rng.shuffle(everySender()).slice(0, 20)) { if (ctx.bad || !acct_() || !mon.model.requests.has(id)) return; via(w, 'confirm', { request_id: id }); chain.drain(); } };
    const small = () => ({ request: { receiver_id: 'mock.near', actions: [{ type: 'Transfer', amount: String(rng.int(1000)) }] } });
    through({ receiver_id: W, actions: [{ type: 'SetActiveRequestsLimit', active_requests_limit: rng.pick([64, 65, 80, 100]) }] }); if (ctx.bad || !acct_() || !everySender().length) return;
    const all = rng.shuffle(everySender()), fill = mon.model.limit + 2; // one member past the limit, then others; no removal of a member here, which goes through all requests and would not fit into one call
    for (let i = 0; i < Math.min(3, all.length) * fill && i < 170 && !ctx.bad; i++) { via(rng.chance(0.97) ? all[Math.floor(i / fill)] : rng.pick(all), 'add_request', small()); if (i % 16 === 15) chain.drain(); }
    chain.drain(); if (ctx.bad) return; mon.atIdle(); if (ctx.bad) return; ctx.hit('a history of up to 170 requests');
    for (let i = rng.range(3, 20); i > 0 && !ctx.bad; i--) { const ids = [...mon.model.requests.keys()]; if (!ids.length) break; via(rng.pick(all), 'confirm', { request_id: rng.pick(ids) }); if (rng.chance(0.4)) via(all[0], 'add_request', small()); chain.drain(); }
    if (ctx.bad) return; mon.atIdle(); if (ctx.bad) return;
    chain.timestamp += 901n * 1_000_000_000n;
    for (const id of [...mon.model.requests.keys()].slice(0, rng.int(20))) { if (ctx.bad) return; via(rng.pick(all), 'delete_request', { request_id: id }); }
    chain.drain(); if (!ctx.bad) via(all[0], 'add_request', small()); chain.drain(); if (!ctx.bad) mon.atIdle();
    return;
  }
  const steps = rng.range(25, 70);
  for (let i = 0; i < steps && !ctx.bad; i++) {
    if (!acct_()) return;
    if (v2 && mon.model.members.size === 0) return;
    rng.weighted([
      [5, () => via(sender(), 'add_request', { request: request() })],
      [4, () => via(sender(), 'add_request_and_confirm', { request: request() })],
      [13, () => via(sender(), 'confirm', { request_id: openId() })],
      [2, () => { const id = openId(), s = sender(); for (let k = rng.range(2, 3); k > 0; k--) via(k === 1 ? sender() : s, 'confirm', { request_id: id }); }],
      [2.5, () => via(sender(), 'delete_request', { request_id: openId() })],
      [crowd ? 3 : 0.5, () => { // carry one request through: distinct members confirm until it runs
        chain.drain(); if (ctx.bad) return;
        const id = openId(); for (const w of rng.shuffle(everySender()).slice(0, 20)) { if (ctx.bad || !mon.model.requests.has(id)) return; via(w, 'confirm', { request_id: id }); if (rng.chance(0.9)) chain.drain(); } }],
      [crowd ? 1 : 0.25, () => { // a member fills up its requests, others confirm some of them, then it is removed
        const s = sender(); if (!s.pk && !v2) return; const lim = mon.model.limit, n = Math.min(lim + 1, rng.range(6, 30));
        for (let k = 0; k < n && !ctx.bad; k++) { via(s, 'add_request', { request: rng.chance(0.7) ? { receiver_id: 'mock.near', actions: [{ type: 'Transfer', amount: '1' }] } : request() }); if (rng.chance(0.3)) chain.drain(); if (rng.chance(0.3) && !ctx.bad) via(sender(), 'confirm', { request_id: openId() }); }
        chain.drain(); if (ctx.bad || !acct_()) return; mon.atIdle(); if (ctx.bad) return;
        ctx.hit('member with many open requests');
        const gone = v2 ? { type: 'DeleteMember', member: s.pk ? { public_key: pk58(s.pk) } : { account_id: s.account } } : { type: 'DeleteKey', public_key: pk58(s.pk) };
        if (!everySender().length) return;
        const id = mon.model.nonce; via(rng.pick(everySender()), 'add_request', { request: { receiver_id: W, actions: [gone] } }); chain.drain();
        for (const w of rng.shuffle(everySender()).slice(0, 20)) { if (ctx.bad || !mon.model.requests.has(id)) break; via(w, 'confirm', { request_id: id }); chain.drain(); }
        if (!ctx.bad && !mon.model.requests.has(id) && mon.model.nonce > id) ctx.hit('member with many open requests removed'); }],
      [2.5, () => { // around the cooldown boundary, to the nanosecond
        chain.drain(); if (ctx.bad || !mon.model.requests.size) return;
        const id = rng.pick([...mon.model.requests.keys()]), at = mon.model.requests.get(id).ts + COOL + rng.pick([-1n, 0n, 1n, 10n ** 9n, -(10n ** 9n)]);
        if (at - 1_000_000_000n < chain.timestamp) return;
        chain.timestamp = at - 1_000_000_000n; via(sender(), 'delete_request', { request_id: id }); chain.drain(); ctx.hit('deletion at the cooldown boundary'); }],
      [1, () => { chain.timestamp += rng.pick([60n, 890n, 901n, 4000n]) * 1_000_000_000n; }],
      [0.4, () => via(sender(), rng.pick(['confirm', 'delete_request']), { request_id: openId() }, { deposit: 1n })],
      [0.3, () => chain.call('eve.near', W, 'new', v2 ? { members: [{ account_id: 'eve.near' }], num_confirmations: 1 } : { num_confirmations: 1 })],
      [0.5, () => chain.call('eve.near', W, rng.pick(['execute_request', 'add_member', 'delete_member', 'remove_request', 'set_num_confirmations']), { request_id: 0, member: { account_id: 'eve.near' }, request: { receiver_id: 'eve.near', actions: [{ type: 'Transfer', amount: '1' }] } })],
      [0.4, () => via(sender(), 'add_request', rng.pick([{}, { request: null }, { request: { receiver_id: 'mock.near' } }]))],
    ])();
    if (ctx.bad) return;
    if (rng.chance(0.65)) { chain.drain(); mon.atIdle(); }
    else for (let k = rng.int(3); k > 0 && !chain.idle() && !ctx.bad; k--) chain.step();
  }
  if (ctx.bad) return;
  chain.drain(); mon.atIdle();
}
