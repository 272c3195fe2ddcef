// Per-scenario monitor context: records violations, coverage and what was actually observed.
import crypto from 'crypto';
import { Rng } from './rng.mjs';
import { json } from './chain.mjs';

export class Abort extends Error {}
export class Ctx {
  constructor({ prop, group, seed, index, tier }) {
    this.prop = prop; this.seed = seed; this.index = index; this.tier = tier;
    this.rng = new Rng(`${group}/${seed}/${index}`);
    this.violations = []; this.cov = new Map(); this.sigs = new Set(); this.evals = 0; this.samples = []; this.known = new Map();
    this.chain = null; this.bad = false; this.soft = false; this.notes = [];
  }
  hit(name, n = 1) { this.cov.set(name, (this.cov.get(name) ?? 0) + n); }
  // One observed case, identified by an abstract signature.
  saw(sig) { this.evals++; this.sigs.add(sig); }
  sample(s) { if (this.samples.length < 3) this.samples.push(s); }
  note(s) { this.notes.push(s); if (this.notes.length > 40) this.notes.shift(); }
  expect(cond, tags, msg, sig) {
    if (cond) return true;
    this.fail(tags, typeof msg === 'function' ? msg() : msg, sig);
    return false;
  }
  eq(a, b, tags, what) {
    const x = typeof a === 'object' ? json(a) : String(a), y = typeof b === 'object' ? json(b) : String(b);
    if (x === y) return true;
    this.fail(tags, `${typeof what === 'function' ? what() : what}: observed ${x}, expected ${y}`);
    return false;
  }
  fail(tags, msg, sig = null) {
    if (typeof tags === 'string') tags = tags.split(' ');
    if (sig && this.isKnown?.(this.prop, sig) && tags.includes(this.prop)) { this.known.set(sig, msg); this.bad = true; return; }
    // While `soft` is set (views the model does not depend on), what belongs to other properties is counted but does not end the history.
    if (!(this.soft && !tags.includes(this.prop))) this.bad = true;
    if (this.violations.length < 20) this.violations.push({ tags, msg, sig, notes: this.notes.slice(-12), trace: this.violations.length === 0 && this.chain ? this.chain.dump() : undefined });
  }
}
export const hashSig = (s) => crypto.createHash('sha1').update(s).digest('hex').slice(0, 16);
