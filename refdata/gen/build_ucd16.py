#!/usr/bin/env python3
"""Builds ../ucd16.txt, the Unicode 16.0.0 reference data of the checks, from sources that share nothing with
/repo/src/tables.rs, and cross-checks those sources against one another (any disagreement aborts).

  rs.json    regex_syntax_dump.py  Age, General_Category: UCD 16.0.0
  icu.json   icu_dump.js           Node's ICU (Unicode 17), restricted to Age <= 16 below
  go.txt     go_dump.go            Go's x/text/unicode/norm (Unicode 17), restricted likewise
  py.txt     python unicodedata    Unicode 15.0
  icu74.txt  icu74_dump.c          ICU 74 (Unicode 15.1): raw decompositions, classes, ages
  cjk        tables.rs of the crates.io release 0.1.25 of the library, checked against the rule of StandardizedVariants.txt
Normalization data of an assigned character never changes (Unicode stability policy), so Unicode 17 data restricted to
the characters of Age <= 16 is Unicode 16 data.
"""
import json, re, sys
src, cjk_tables, outp = sys.argv[1:4]
rs = json.load(open(src + '/rs.json'))
age = {c: (a, b) for c, a, b in rs['age']}
gc = rs['gc']
icu = json.load(open(src + '/icu.json'))
assert icu['unicode'] == '17.0'
def keep(c): return c in age
tab = {f: {c: d for c, d in icu[f] if keep(c)} for f in ('nfd', 'nfkd', 'nfc', 'nfkc')}
ccc = {}
go = {f: {} for f in ('nfd', 'nfkd', 'nfc', 'nfkc')}
for line in open(src + '/go.txt'):
    if line[0] == '#': assert '17.0.0' in line; continue
    c, k, *ds = line.strip().split(';')
    c = int(c, 16)
    if not keep(c): continue
    if int(k): ccc[c] = int(k)
    for f, d in zip(('nfd', 'nfkd', 'nfc', 'nfkc'), ds):
        d = [int(x, 16) for x in d.strip('[]').split()]
        if d != [c]: go[f][c] = d
for f in tab: assert tab[f] == go[f], f
# ccc against Python (15.0) and ICU 74 (15.1)
n = 0
for line in open(src + '/py.txt'):
    if line[0] == '#': continue
    c, k, cat, dec = line.rstrip('\n').split(';')
    c = int(c, 16)
    if cat == 'Cn' or not keep(c): continue
    assert int(k) == ccc.get(c, 0), hex(c); n += 1
raw = {}
for line in open(src + '/icu74.txt'):
    if line[0] == '#': continue
    c, k, cat, a, d = line.rstrip('\n').split(';')
    c = int(c, 16)
    if cat == '0': continue
    a = tuple(map(int, a.split('.')))
    assert age[c] == a, (hex(c), age[c], a)
    assert int(k) == ccc.get(c, 0), hex(c); n += 1
    d = [int(x, 16) for x in d.split()]
    if d and not 0xac00 <= c <= 0xd7a3: raw[c] = d
print('ccc entries', len(ccc), 'cross-checked', n, 'only in the Unicode 17 sources:', [hex(c) for c in ccc if age[c] > (15, 1)])
# primary composites
pairs = {}
for c, d in sorted(tab['nfd'].items()):
    if c in tab['nfc'] or 0xac00 <= c <= 0xd7a3: continue
    b = d[-1]
    first = [x for x in tab['nfd'] if x not in tab['nfc'] and tab['nfd'][x] == d[:-1]] if len(d) > 2 else d[:-1]
    if c in raw:
        assert len(raw[c]) == 2 and raw[c][1] == b, hex(c)
        a = raw[c][0]
        assert len(d) == 2 and a == d[0] or a in first, (hex(c), hex(a), first)
    else:
        assert len(first) == 1, (hex(c), first)
        a = first[0]
    assert (a, b) not in pairs
    pairs[(a, b)] = c
print('primary composites', len(pairs), 'new in 16:', sum(age[c] == (16, 0) for c in pairs.values()))
mark = sorted(c for k in ('NONSPACING_MARK', 'SPACING_MARK', 'ENCLOSING_MARK') for lo, hi in gc[k] for c in range(lo, hi + 1))
co = set(c for lo, hi in gc['PRIVATE_USE'] for c in range(lo, hi + 1))
allgc = {}
for k in gc:
    if k in ('CASED_LETTER', 'LETTER', 'MARK', 'NUMBER', 'OTHER', 'PUNCTUATION', 'SEPARATOR', 'SYMBOL', 'UNASSIGNED'): continue
    for lo, hi in gc[k]:
        for c in range(lo, hi + 1):
            assert c not in allgc, (k, hex(c)); allgc[c] = k
assert sorted(allgc) == [c for c in range(0x110000) if c in allgc]
cn = [c for c in range(0x110000) if c not in allgc and not 0xd800 <= c <= 0xdfff]
assigned = [c for c in range(0x110000) if c in allgc and allgc[c] not in ('PRIVATE_USE', 'SURROGATE') and not 0xd800 <= c <= 0xdfff]
assert set(assigned) <= set(age), 'assigned but without an age'
# age covers noncharacters (Cn) too; nothing else
nonchar = set(range(0xfdd0, 0xfdf0)) | {p << 16 | x for p in range(17) for x in (0xfffe, 0xffff)}
assert set(age) - set(assigned) - co - nonchar - set(range(0xd800, 0xe000)) == set()
# CJK compatibility variants
t = open(cjk_tables).read()
chars = [int(x, 16) for x in re.findall(r"\\u\{([0-9A-F]+)\}", re.search(r'CJK_COMPAT_VARIANTS_DECOMPOSED_CHARS: &\[char\] = &\[(.*?)\];', t, re.S).group(1))]
kv = re.findall(r'\((0x[0-9A-F]+), \((0x[0-9A-F]+), (0x[0-9A-F]+)\)\)', re.search(r'CJK_COMPAT_VARIANTS_DECOMPOSED_KV.*?= &\[(.*?)\];', t, re.S).group(1))
cjk = {}
for k, o, l in kv:
    k, o, l = int(k, 16), int(o, 16), int(l, 16)
    cjk[k] = chars[o:o + l]
# the rule: every CJK COMPATIBILITY IDEOGRAPH with a canonical mapping has the sequence <mapping, VSn>
want = [c for c in tab['nfd'] if (0xf900 <= c <= 0xfaff or 0x2f800 <= c <= 0x2fa1f)]
print('cjk', len(cjk), 'by rule', len(want), set(want) ^ set(cjk))
seen = {}
bad = 0
for c in sorted(cjk):
    u, vs = cjk[c]
    assert tab['nfd'][c] == [u], hex(c)
    seen.setdefault(u, []).append((c, vs))
for u, l in seen.items():
    vss = [vs for c, vs in l]
    if vss != list(range(0xfe00, 0xfe00 + len(l))):
        bad += 1; print('order rule fails', hex(u), [(hex(c), hex(v)) for c, v in l])
print('bad', bad)
def h(l): return ' '.join('%X' % x for x in l)
def ranges(l):
    out = []
    for c in sorted(l):
        if out and out[-1][1] == c - 1: out[-1][1] = c
        else: out.append([c, c])
    return out
def canon(t): return {c: d for c, d in t.items() if not 0xac00 <= c <= 0xd7a3}
with open(outp, 'w') as f:
    f.write('# Unicode 16.0.0 normalization data. Built by gen/build_ucd16.py; not derived from the code under test.\n')
    f.write('@ccc\n')
    byc = {}
    for c, k in ccc.items(): byc.setdefault(k, []).append(c)
    for k in sorted(byc):
        for lo, hi in ranges(byc[k]): f.write('%X %X %d\n' % (lo, hi, k))
    for name, key in (('@nfd', 'nfd'), ('@nfkd', 'nfkd')):
        f.write(name + '\n')
        for c, d in sorted(canon(tab[key]).items()): f.write('%X %s\n' % (c, h(d)))
    f.write('@compose\n')
    for (a, b), c in sorted(pairs.items()): f.write('%X %X %X\n' % (a, b, c))
    f.write('@mark\n')
    for lo, hi in ranges(mark): f.write('%X %X\n' % (lo, hi))
    f.write('@assigned\n')
    for lo, hi in ranges(assigned): f.write('%X %X\n' % (lo, hi))
    f.write('@cjk\n')
    for c, d in sorted(cjk.items()): f.write('%X %s\n' % (c, h(d)))
    f.write('@excluded\n')  # decomposable, but NFC does not keep them
    for c in sorted(set(canon(tab['nfd'])) & set(tab['nfc'])): f.write('%X\n' % c)
