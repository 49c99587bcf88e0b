// Full decompositions and primary composites as Node's ICU has them.
const fs = require('fs');
const out = {unicode: process.versions.unicode, nfd: [], nfkd: [], nfc: [], nfkc: []};
for (let c = 0; c <= 0x10ffff; c++) {
  if (c >= 0xd800 && c <= 0xdfff) continue;
  const s = String.fromCodePoint(c);
  for (const f of ['nfd', 'nfkd', 'nfc', 'nfkc']) {
    const n = s.normalize(f.toUpperCase());
    if (n !== s) out[f].push([c, Array.from(n).map(x => x.codePointAt(0))]);
  }
}
// NFC of pairs a+b for all composites, and behavioural ccc probes
fs.writeFileSync(process.argv[2], JSON.stringify(out));
