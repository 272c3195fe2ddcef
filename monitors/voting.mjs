// Voting: reference tally over a changing validator set; the result must appear exactly when the recorded
// stake exceeds 2/3 of the total, with that block's time, and never change again.
import { Chain, json, forwarder } from '../lib/chain.mjs';
import { ONE, U128_MAX } from '../lib/host.mjs';
import { names } from '../lib/ids.mjs';
import { wasm } from '../lib/wasm.mjs';
export const meta = {
  rule: { '*': 'Evaluations: vote/ping calls executed by the voting WASM and compared with the reference tally. Distinct: (method, direction, caller stake class, had voted, new epoch, margin to 2/3 class, outcome).' },
  assumptions: ['validator stakes change only at epoch boundaries, as on NEAR'],
};
const V = 'vote.near';
export async function scenario(ctx) {
  const rng = ctx.rng, chain = new Chain(rng, { epoch: BigInt(rng.range(1, 30)) }); ctx.chain = chain;
  const n = rng.weighted([[15, rng.range(1, 9)], [0.8, rng.range(10, 40)], [0.15, rng.range(65, 170)]]), who = names(rng, Array.from({ length: n }, (_, i) => `val${i}.near`), [V, 'eve.near', 'other']);
  for (const w of [...who, 'eve.near']) chain.createAccount(w, 100n * ONE, { code: forwarder() });
  chain.forward = { p: rng.pick([0, 0.15, 0.4]), via: [...who, 'eve.near'], by: [...who, 'eve.near'] };
  chain.createAccount(V, 50n * ONE, { code: wasm('voting_contract') });
  let stakes = new Map();
  const unit = rng.pick([1n, 1n, ONE, 10n ** 30n, 7n]), mixed = rng.chance(0.3);
  const reroll = (keep) => {
    for (const w of who) if (!keep || rng.chance(0.4)) stakes.set(w, rng.weighted([[6, unit * BigInt(rng.range(1, 12))], [2, 0n], [1, unit * 3n], [1, unit * BigInt(rng.range(1, 100)) + rng.big(3n)], ...(mixed ? [[4, rng.pick([1n, 3n, 10n ** 6n, 10n ** 13n, ONE, 10n ** 31n]) * BigInt(rng.range(1, 9))]] : [])]));
    stakes.set('other', rng.weighted([[2, 0n], [2, unit * BigInt(rng.range(0, 20))]]));
    if ([...stakes.values()].every((s) => s === 0n)) stakes.set(who[0], unit);
    if (rng.chance(0.4)) { // force a total near an exact 2/3 boundary for the current voters
      let voted = 0n; for (const w of m.votes.keys()) voted += stakes.get(w) ?? 0n;
      const others = who.filter((w) => !m.votes.has(w)).reduce((t, w) => t + stakes.get(w), 0n);
      const want = voted * 3n / 2n + BigInt(rng.range(-1, 2)) - voted - others;
      if (voted > 0n && want >= 0n) { stakes.set('other', want); ctx.hit('exact two-thirds boundary set up'); }
    }
  };
  const m = { votes: new Map(), voted: 0n, result: null, last: 0n };
  reroll(false);
  chain.stakeOverride = { validatorStake: (id) => stakes.get(id) ?? 0n, validatorTotalStake: () => [...stakes.values()].reduce((a, b) => a + b, 0n) };
  const total = () => chain.stakeOverride.validatorTotalStake(), stakeOf = (w) => stakes.get(w) ?? 0n;
  const R = ['V01'], T = ['V02'], B = ['V01', 'V02'];
  ctx.expect(!chain.run(who[0], V, 'vote', { is_vote: true }).ok, B, 'vote accepted before initialization');
  if (!ctx.expect(chain.run('eve.near', V, 'new').ok, B, 'init failed')) return;
  const ping = (d, ev, x) => {
    if (d.result !== null) return 'ended';
    if (ev.epoch !== d.last) {
      x.fresh = true;
      const nv = new Map(); d.voted = 0n;
      for (const w of d.votes.keys()) { const s = stakeOf(w); d.voted += s; if (s > 0n) nv.set(w, s); }
      if (nv.size < d.votes.size) ctx.hit('validator that lost its stake dropped');
      d.votes = nv; check(d, ev, x); d.last = ev.epoch;
    }
    return null;
  };
  const check = (d, ev, x) => { if (3n * d.voted > 2n * total()) { d.result = ev.timestamp; x.ended = true; } };
  chain.listeners.push((ev) => {
    const rc = ev.rc, a = rc.actions[0];
    if (rc.receiver !== V || a.type !== 'FunctionCall' || a.method === 'new' || ctx.bad) return;
    const args = JSON.parse(a.args.toString()), d = { ...m, votes: new Map(m.votes) }, x = {};
    let why = null; const before = json({ v: [...m.votes], r: m.result });
    if (a.deposit > 0n) why = 'deposit';
    else why = ping(d, ev, x);
    if (!why && a.method === 'vote' && d.result === null) {
      const s = args.is_vote ? stakeOf(rc.pred) : 0n;
      if (args.is_vote && s === 0n) why = 'not a validator';
      else {
        const old = d.votes.get(rc.pred) ?? 0n; x.had = old > 0n;
        d.voted = d.voted + s - old; d.votes.delete(rc.pred);
        if (s > 0n) { d.votes.set(rc.pred, s); check(d, ev, x); }
      }
    }
    const margin = 3n * d.voted - 2n * total(), mc = margin === 0n ? '=' : margin > 0n ? (margin <= 3n ? '+1' : '+') : margin >= -3n ? '-1' : '-';
    ctx.saw(`${a.method}|${args.is_vote}|${stakeOf(rc.pred) === 0n ? 0 : 1}|${x.had}|${x.fresh}|${mc}|${why}|${d.votes.size}/${n}`);
    ctx.hit(`${a.method}${args.is_vote === undefined ? '' : args.is_vote ? ' for' : ' withdraw'} ${why ?? 'ok'}`); if (x.ended) ctx.hit(x.fresh ? 'vote ended on an epoch re-weighting call' : 'vote ended on a vote');
    if (margin === 0n) ctx.hit('exactly two thirds does not end the vote'); if (x.fresh && m.votes.size) ctx.hit('votes re-weighted for a new epoch');
    ctx.note(`${rc.pred} ${a.method} ${json(args)} epoch ${ev.epoch} stake ${stakeOf(rc.pred)} total ${total()} -> ${ev.ok} ${ev.error?.msg ?? ''} model ${why} ${json({ voted: d.voted, r: d.result })}`);
    if (!ctx.expect(ev.ok === (why === null), why === 'ended' ? R : B, `${a.method}(${json(args)}) by ${rc.pred}: ${ev.ok ? 'accepted' : 'rejected: ' + ev.error?.msg}, model: ${why ?? 'accept'}`)) return;
    if (!why) Object.assign(m, d);
    ctx.expect(ev.made.length === 0, B, 'unexpected promises');
    views(a.method);
    void before;
  });
  const views = (what) => {
    const res = chain.get(V, 'get_result');
    ctx.eq(res, m.result === null ? null : String(m.result), R, `result after ${what} (voted ${m.voted} of ${total()})`);
    const [v, t] = chain.get(V, 'get_total_voted_stake');
    ctx.eq(v, m.voted, B, `total voted stake after ${what}`); ctx.eq(t, total(), B, 'total stake');
    const votes = chain.get(V, 'get_votes');
    ctx.eq(Object.entries(votes).map(([k, x]) => k + '=' + x).sort().join(), [...m.votes].map(([k, x]) => k + '=' + x).sort().join(), T, `votes after ${what}`);
    const sum = Object.values(votes).reduce((s, x) => s + BigInt(x), 0n);
    ctx.expect(sum === BigInt(v), B, `total voted ${v} is not the sum of votes ${sum}`);
  };
  const steps = n > 60 ? rng.range(10, 20) : rng.range(15, 50);
  if (n > 60) { // a large electorate: nearly all of it votes before anything is decided
    const held = stakes.get('other'); stakes.set('other', 4n * total());
    for (const w of who) if (rng.chance(0.95)) chain.call(w, V, 'vote', { is_vote: true });
    chain.drain(); if (ctx.bad) return; ctx.hit('more than 60 validators voting');
    if (rng.chance(0.5)) { chain.nextEpoch(); stakes.set('other', held); }
  }
  let after = 0;
  for (let i = 0; i < steps && !ctx.bad; i++) {
    const w = rng.weighted([[9, rng.pick(who)], [0.6, 'eve.near']]);
    rng.weighted([
      [7, () => chain.call(w, V, 'vote', { is_vote: true })], [3, () => chain.call(w, V, 'vote', { is_vote: false })],
      [2, () => chain.call(rng.pick([...who, 'eve.near']), V, 'ping')], [0.2, () => chain.call(w, V, 'vote', { is_vote: true }, { deposit: 1n })],
      [0.3, () => chain.call('eve.near', V, 'new')],
      [2.5, () => { chain.drain(); const k = rng.weighted([[3, 1], [1, 2]]); for (let j = 0; j < k; j++) chain.nextEpoch(); if (rng.chance(0.8)) reroll(true); ctx.hit('epoch change'); }],
    ])();
    if (rng.chance(0.8)) chain.drain();
    if (!ctx.bad && rng.chance(0.2)) views('idle');
    if (m.result !== null && after++ > 6) break;
  }
  chain.drain();
  if (!ctx.bad) views('end');
  ctx.sample({ validators: n, votes: [...m.votes].length, voted: String(m.voted), total: String(total()), result: String(m.result) });
}
