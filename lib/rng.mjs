// xoshiro128** seeded from a string: deterministic across machines.
import crypto from 'crypto';
export class Rng {
  constructor(seed) {
    const h = crypto.createHash('sha256').update(String(seed)).digest();
    this.s = [h.readUInt32LE(0), h.readUInt32LE(4), h.readUInt32LE(8), h.readUInt32LE(12) | 1];
    this.draws = 0;
  }
  u32() {
    this.draws++;
    const s = this.s, rotl = (x, k) => ((x << k) | (x >>> (32 - k))) >>> 0;
    const r = Math.imul(rotl(Math.imul(s[1], 5) >>> 0, 7), 9) >>> 0, t = (s[1] << 9) >>> 0;
    s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3] >>> 0, 11);
    for (let i = 0; i < 4; i++) s[i] >>>= 0;
    return r;
  }
  int(n) { return this.u32() % n; }                       // 0..n-1
  range(a, b) { return a + this.int(b - a + 1); }          // a..b inclusive
  float() { return this.u32() / 4294967296; }
  chance(p) { return this.float() < p; }
  pick(a) { return a[this.int(a.length)]; }
  big(n) { // 0..n-1
    if (n <= 0n) return 0n;
    let x = 0n; for (let i = 0; i < 5; i++) x = (x << 32n) | BigInt(this.u32());
    return x % n;
  }
  weighted(list) { // [[w, v], ...]
    let t = 0; for (const [w] of list) t += w;
    let x = this.float() * t;
    for (const [w, v] of list) { x -= w; if (x < 0) return v; }
    return list[list.length - 1][1];
  }
  shuffle(a) { for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; } return a; }
}
