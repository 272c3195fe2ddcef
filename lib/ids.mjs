// Account names of different shapes: contracts must not care what a valid account id looks like.
const HEX = '0123456789abcdef';
export const implicit = (rng) => Array.from({ length: 64 }, () => HEX[rng.int(16)]).join('');
const shapes = [
  (rng, n) => implicit(rng),
  (rng, n) => n[0] + n[0],                                    // the shortest
  (rng, n) => (n.replace(/\./g, '-') + '_').repeat(9).slice(0, 58) + '.near0', // the longest
  (rng, n) => n.split('.')[0],                                 // a prefix of the usual name
  (rng, n) => n + '.near',                                     // an extension of it
  (rng, n) => 'x.' + n,                                        // a sub-account of it
  (rng, n) => n + '2',
  (rng, n) => n[0] + '-1_2.' + n[1] + '3',
];
// Most scenarios keep the plain names (readable histories); the others mix shapes, staying distinct from `taken`.
export function names(rng, base, taken = []) {
  if (rng.chance(0.65)) return base;
  const used = new Set(taken), out = [];
  for (const b of base) {
    let n = rng.chance(0.35) ? b : rng.pick(shapes)(rng, b);
    if (rng.chance(0.2) && out.length) n = rng.pick([(o) => o + '2', (o) => 'a.' + o, (o) => o.slice(0, -1)])(rng.pick(out)); // neighbours of one another
    if (used.has(n) || n.length < 2 || n.length > 64 || !/^(([a-z\d]+[-_])*[a-z\d]+\.)*([a-z\d]+[-_])*[a-z\d]+$/.test(n)) n = used.has(b) ? implicit(rng) : b;
    used.add(n); out.push(n);
  }
  return out;
}
