#!/usr/bin/env python3
# Age and General_Category of Unicode 16.0.0 out of regex-syntax's generated tables (ucd-generate, UCD 16.0.0).
import re, sys, json
root = sys.argv[1]
def tables(path):
    src = open(path).read()
    assert 'Unicode version: 16.0.0.' in src
    out = {}
    for m in re.finditer(r"pub const (\w+): &'static \[\(char, char\)\] =\s*&\[(.*?)\];", src, re.S):
        name, body = m.group(1), m.group(2)
        chars = re.findall(r"'((?:\\u\{[0-9a-fA-F]+\})|(?:\\.)|[^'])'", body)
        cps = []
        for c in chars:
            if c.startswith('\\u{'): cps.append(int(c[3:-1], 16))
            elif c.startswith('\\'): cps.append(ord({'\\\\':'\\',"\\'":"'",'\\n':'\n','\\t':'\t','\\r':'\r','\\0':'\0','\\"':'"'}[c]))
            else: cps.append(ord(c))
        assert len(cps) % 2 == 0, name
        out[name] = [(cps[i], cps[i+1]) for i in range(0, len(cps), 2)]
    return out
age = tables(root + '/src/unicode_tables/age.rs')
gc = tables(root + '/src/unicode_tables/general_category.rs')
ages = {}
for k, v in age.items():
    m = re.match(r'V(\d+)_(\d+)$', k)
    for lo, hi in v:
        for c in range(lo, hi+1):
            ages[c] = (int(m.group(1)), int(m.group(2)))
json.dump({'age': [[c, *ages[c]] for c in sorted(ages)], 'gc': gc}, open(sys.argv[2], 'w'))
print(len(ages), sorted(gc))
