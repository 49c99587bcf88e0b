"""Reads `vp reference` lines, compares the forms with Python's unicodedata on texts of characters it knows."""
import sys, unicodedata
n = k = bad = 0
for l in sys.stdin:
    w = l.rstrip("\n").split(";")
    un = lambda h: "".join(chr(int(x, 16)) for x in h.split())
    s = un(w[0])
    n += 1
    if any(unicodedata.category(c) == "Cn" for c in s):
        continue
    k += 1
    for i, f in enumerate(("NFD", "NFKD", "NFC", "NFKC")):
        if unicodedata.normalize(f, s) != un(w[1 + i]):
            bad += 1
            if bad < 5: print(f, l)
print(f"Python unicodedata {unicodedata.unidata_version}: {k} of {n} texts, {bad} differences")
