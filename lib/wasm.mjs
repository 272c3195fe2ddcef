import fs from 'fs'; import path from 'path'; import { fileURLToPath } from 'url';
const CACHE = process.env.VERIF_CACHE ?? path.join(path.dirname(fileURLToPath(import.meta.url)), '..', '.cache');
const m = new Map();
export function wasm(name) { if (!m.has(name)) m.set(name, fs.readFileSync(path.join(CACHE, 'wasm', name + '.wasm'))); return m.get(name); }
