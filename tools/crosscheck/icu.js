// Reads `vp reference` lines, compares the forms with Node's ICU.
const rl = require('readline').createInterface({ input: process.stdin });
const un = h => h === '' ? '' : String.fromCodePoint(...h.split(' ').map(x => parseInt(x, 16)));
let n = 0, bad = 0;
rl.on('line', l => {
  const w = l.split(';'), s = un(w[0]);
  n++;
  ['NFD', 'NFKD', 'NFC', 'NFKC'].forEach((f, i) => {
    if (s.normalize(f) !== un(w[1 + i])) { bad++; if (bad < 5) console.log(f, l); }
  });
});
rl.on('close', () => { console.log(`node ICU ${process.versions.icu}, Unicode ${process.versions.unicode}: ${n} texts, ${bad} differences`); });
