"""C24: the table generator, over the real character database and random ones.

A database here is a Db: characters with class, category, decomposition; ranges; exclusions; variation sequences. It is
written in the format of the files the script downloads, and, worked out independently, in the format of the reference
data (refdata/ucd16.txt). The script's tables.rs is compiled into a copy of the library, and the harness compares every
code point with the reference.
"""
import copy, json, os, random, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

S0, S1 = 0xAC00, 0xD7A3
JAMO_V, JAMO_T = range(0x1161, 0x1176), range(0x11A8, 0x11C3)
RANGES = [  # (first, last, category, name); Hangul, surrogates and private use are in every database
    (S0, S1, "Lo", "Hangul Syllable"),
    (0xD800, 0xDB7F, "Cs", "Non Private Use High Surrogate"),
    (0xDB80, 0xDBFF, "Cs", "Private Use High Surrogate"),
    (0xDC00, 0xDFFF, "Cs", "Low Surrogate"),
    (0xE000, 0xF8FF, "Co", "Private Use"),
    (0xF0000, 0xFFFFD, "Co", "Plane 15 Private Use"),
    (0x100000, 0x10FFFD, "Co", "Plane 16 Private Use"),
]


class Db:
    def __init__(self):
        self.chars = {}  # cp -> [category, class, tag or None, decomposition or None, name]
        self.ranges = list(RANGES)
        self.exclusions = set()  # explicit composition exclusions
        self.svs = []  # (base, selector, target): CJK compatibility ideographs
        self.noise = 0  # how many lines the script must ignore
        self.version = (16, 0, 0)
        self.new = []  # what the real one lacks

    def add(self, cp, cat="Lo", ccc=0, tag=None, dec=None, name=None):
        self.chars[cp] = [cat, ccc, tag, dec, name or f"SYNTHETIC {cp:04X}"]

    # ---- what the database means -------------------------------------------------------------------------------------
    def ccc(self, c):
        return self.chars[c][1] if c in self.chars else 0

    def canon(self, c):
        e = self.chars.get(c)
        return e[3] if e and e[3] and e[2] is None else None

    def full(self, c, compat):
        if S0 <= c <= S1:
            s = c - S0
            return [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11A7 + s % 28] if s % 28 else [])
        e = self.chars.get(c)
        if not e or not e[3] or (e[2] is not None and not compat):
            return [c]
        return [x for d in e[3] for x in self.full(d, compat)]

    def derive(self):
        """Full_Composition_Exclusion, primary composites, quick-check properties (UAX #15, UAX #44)."""
        self.fce = set()
        self.comp = {}
        for c, e in self.chars.items():
            d = self.canon(c)
            if not d:
                continue
            if len(d) == 1 or c in self.exclusions or self.ccc(c) or self.ccc(d[0]):
                self.fce.add(c)
            else:
                assert len(d) == 2 and tuple(d) not in self.comp, (hex(c), d)
                self.comp[tuple(d)] = c
        seconds = {b for _, b in self.comp} | set(JAMO_V) | set(JAMO_T)
        self.qc = {"NFC_QC": {}, "NFKC_QC": {}, "NFD_QC": {}, "NFKD_QC": {}}
        todo = set(self.chars) | seconds
        for c in todo:
            for name, comp in (("NFC_QC", False), ("NFKC_QC", True)):
                f = self.full(c, comp)
                if self.recompose(f) != [c]:
                    self.qc[name][c] = "N"
                elif f[0] in seconds:
                    self.qc[name][c] = "M"
            if self.full(c, False) != [c]:
                self.qc["NFD_QC"][c] = "N"
            if self.full(c, True) != [c]:
                self.qc["NFKD_QC"][c] = "N"
        for c in range(S0, S1 + 1):
            self.qc["NFD_QC"][c] = self.qc["NFKD_QC"][c] = "N"

    def pair(self, a, b):
        if 0x1100 <= a < 0x1113 and b in JAMO_V:
            return S0 + ((a - 0x1100) * 21 + b - 0x1161) * 28
        if S0 <= a <= S1 and (a - S0) % 28 == 0 and b in JAMO_T:
            return a + b - 0x11A7
        return self.comp.get((a, b))

    def order(self, v):
        """Canonical ordering."""
        v = list(v)
        for i in range(1, len(v)):
            j = i
            while j > 0 and self.ccc(v[j]) and self.ccc(v[j - 1]) > self.ccc(v[j]):
                v[j - 1], v[j] = v[j], v[j - 1]
                j -= 1
        return v

    def recompose(self, v):
        v = self.order(v)
        out = []
        starter = None
        for c in v:
            k = self.ccc(c)
            if starter is not None:
                between = out[starter + 1:]
                if not between or all(0 < self.ccc(x) < k for x in between):
                    p = self.pair(out[starter], c)
                    if p is not None:
                        out[starter] = p
                        continue
            if k == 0:
                starter = len(out)
            out.append(c)
        return out

    # ---- the files ---------------------------------------------------------------------------------------------------
    def files(self, rng):
        lines = {}
        for c, (cat, ccc, tag, dec, name) in self.chars.items():
            d = " ".join(([f"<{tag}>"] if tag else []) + [f"{x:04X}" for x in dec]) if dec else ""
            lines[c] = f"{c:04X};{name};{cat};{ccc};L;{d};;;;N;;;;;"
        for a, b, cat, name in self.ranges:
            lines[a] = f"{a:04X};<{name}, First>;{cat};0;L;;;;;N;;;;;"
            lines[b] = f"{b:04X};<{name}, Last>;{cat};0;L;;;;;N;;;;;"
        ud = "".join(lines[c] + "\n" for c in sorted(lines))
        # derived properties, as runs, with the noise of the real file
        out = ["# DerivedNormalizationProps-16.0.0.txt", "", "# ================", "# Property:\tFC_NFKC_Closure", ""]
        for _ in range(self.noise):
            c = rng.choice(self.new or sorted(self.chars))
            out.append(rng.choice([f"{c:04X}          ; FC_NFKC; 0020 03B9 # Lm       X", f"{c:04X}          ; NFKC_CF; 0061         # x", f"{c:04X}..{c + 3:04X}    ; Changes_When_NFKC_Casefolded # x", f"{c:04X} ; NFKC_SCF;          # L&"]))

        def runs(values):
            v = sorted(values)
            i = 0
            while i < len(v):
                j = i
                limit = rng.choice([1, 1, 2, 100000])
                while j + 1 < len(v) and v[j + 1] == v[j] + 1 and j + 1 - i < limit:
                    j += 1
                yield v[i], v[j]
                i = j + 1

        def put(prop, values, data):
            for a, b in runs(values):
                r = f"{a:04X}" if a == b else f"{a:04X}..{b:04X}"
                out.append(f"{r:<14}; {prop}{'; ' + data if data else ''} # Lo   [{b - a + 1}] NAME; WITH..PUNCTUATION")

        out += ["", "#  Full_Composition_Exclusion", ""]
        put("Full_Composition_Exclusion", self.fce, None)
        out.append("# Total code points: %d" % len(self.fce))
        for prop, vals in self.qc.items():
            out += ["", f"# Property:\t{prop}", f"# @missing: 0000..10FFFF; {prop}; Yes", ""]
            for k in ("N", "M"):
                put(prop, [c for c, x in vals.items() if x == k], k)
        for prop in ("Expands_On_NFD", "Expands_On_NFC"):
            put(prop, [c for c in sorted(self.chars)[:self.noise]], None)
        dnp = "\n".join(out) + "\n"
        # variation sequences
        sv = ["# StandardizedVariants-16.0.0.txt", "#", "", "0030 FE00; short diagonal stroke form; # DIGIT ZERO", "2229 FE00; with serifs; # INTERSECTION", "1820 180B; second form; isolate medial final # MONGOLIAN LETTER A"]
        for a, b, t in self.svs:
            sv.append(f"{a:04X} {b:04X}; CJK COMPATIBILITY IDEOGRAPH-{t:04X}; # CJK UNIFIED IDEOGRAPH-{a:04X}")
        for i, (c, e) in enumerate(sorted(self.chars.items())):
            if i % 97 == 5 and i // 97 < self.noise and not e[4].startswith("CJK COMPAT"):
                # the description is a character's name, but not a compatibility ideograph's
                sv.append(f"{c:04X} FE00; {e[4]}; # not an ideograph")
        if self.svs:
            a, b, t = self.svs[0]
            sv.append(f"{a:04X} FE0F; CJK COMPATIBILITY IDEOGRAPH-{t:04X}; initial # only in a shaping environment")
            sv.append(f"{a:04X} FE0E; CJK COMPATIBILITY IDEOGRAPH-1; # no such character")
        # the test file: single characters and random texts
        nt = ["# NormalizationTest-16.0.0.txt", "#", "# Columns (c1, c2,...) are separated by semicolons; They have the following meaning:", "# source; NFC; NFD; NFKC; NFKD", "@Part0 # Specific cases", "#"]
        self.vectors = []
        known = [c for c, e in sorted(self.chars.items()) if e[0] not in ("Cc", "Cs")]
        mapped = [c for c in known if self.chars[c][3]] or known
        marks = [c for c in known if self.ccc(c)] or known
        if self.new:
            new = set(self.new)
            known, mapped, marks = ([c for c in x if c in self.new] + x[:: max(1, len(x) // 40)] for x in (known, mapped, marks))
        texts = [[c] for c in rng.sample(known, min(len(known), 40))]
        for _ in range(80):
            texts.append([rng.choice(rng.choice([known, mapped, mapped, marks, marks, [rng.randint(S0, S1), rng.choice(JAMO_V), rng.choice(JAMO_T), 0x1100 + rng.randint(0, 18)]])) for _ in range(rng.choice([1, 2, 2, 3, 4, 5, 20]))])
        for i, t in enumerate(texts):
            if i == 40:
                nt.append("@Part1 # Character by character test")
            d, k = (self.order([x for c in t for x in self.full(c, compat)]) for compat in (False, True))
            v = [t, self.recompose(d), d, self.recompose(k), k]
            self.vectors.append(v)
            nt.append(";".join(" ".join(f"{x:04X}" for x in y) for y in v) + rng.choice(["; # (…; …; …; …; …; ) NAME", ";", "; # a, b"]))
        nt += ["#", "# END OF FILE"]
        return {"UnicodeData.txt": ud, "DerivedNormalizationProps.txt": dnp, "StandardizedVariants.txt": "\n".join(sv) + "\n", "NormalizationTest.txt": "\n".join(nt) + "\n"}

    def reference(self):
        """The same in the format of refdata/ucd16.txt."""
        o = ["@version %d.%d.%d" % self.version, "@ccc"]
        o += [f"{c:X} {c:X} {e[1]}" for c, e in sorted(self.chars.items()) if e[1]]
        for sec, k in (("@nfd", False), ("@nfkd", True)):
            o.append(sec)
            for c in sorted(self.chars):
                f = self.full(c, k)
                if f != [c]:
                    o.append(" ".join(f"{x:X}" for x in [c] + f))
        o.append("@compose")
        o += [f"{a:X} {b:X} {c:X}" for (a, b), c in sorted(self.comp.items())]
        o.append("@mark")
        o += [f"{c:X} {c:X}" for c, e in sorted(self.chars.items()) if e[0] in ("Mn", "Mc", "Me")]
        o.append("@assigned")
        o += [f"{c:X} {c:X}" for c, e in sorted(self.chars.items()) if e[0] not in ("Co", "Cs")]
        o += [f"{a:X} {b:X}" for a, b, cat, _ in self.ranges if cat not in ("Co", "Cs")]
        o.append("@cjk")
        o += [f"{t:X} {a:X} {b:X}" for a, b, t in self.svs]
        o.append("@excluded")
        o += [f"{c:X}" for c in sorted(self.fce)]
        return "\n".join(o) + "\n"


def real(verif):
    """Unicode 16.0.0, put together again from the reference data (names and one-step mappings are lost there; a full
    mapping in one step means the same)."""
    d = Db()
    sec = ""
    ccc, mark, assigned, maps, comp, exc, cjk = {}, set(), [], {"nfd": {}, "nfkd": {}}, {}, set(), {}
    for l in open(os.path.join(verif, "refdata", "ucd16.txt")):
        l = l.strip()
        if not l or l.startswith("#"):
            continue
        if l.startswith("@"):
            sec = l[1:]
            continue
        w = l.split()
        if sec == "ccc":
            for c in range(int(w[0], 16), int(w[1], 16) + 1):
                ccc[c] = int(w[2])
        else:
            w = [int(x, 16) for x in w]
            if sec in maps:
                maps[sec][w[0]] = w[1:]
            elif sec == "compose":
                comp[w[2]] = w[:2]
            elif sec == "mark":
                mark.update(range(w[0], w[1] + 1))
            elif sec == "assigned":
                assigned.append((w[0], w[1]))
            elif sec == "cjk":
                cjk[w[0]] = w[1:]
            elif sec == "excluded":
                exc.add(w[0])
    for a, b in assigned:
        special = [c for c in range(a, b + 1) if c in ccc or c in mark or c in maps["nfd"] or c in maps["nfkd"]]
        # long stretches of plain characters as First..Last ranges, as the real file has for ideographs
        pos = a
        for c in special + [b + 1]:
            if c - pos > 200 and pos >= 0x3400:
                if not (pos == S0):
                    d.ranges.append((pos, c - 1, "Lo", f"Stretch {pos:X}"))
            else:
                for x in range(pos, c):
                    d.add(x, "Lo")
            if c <= b:
                nfd, nfkd = maps["nfd"].get(c), maps["nfkd"].get(c)
                cat = "Mn" if c in mark else "Lo"
                if c in comp:
                    d.add(c, cat, ccc.get(c, 0), None, comp[c])
                elif nfd:
                    d.add(c, cat, ccc.get(c, 0), None, nfd)
                    if len(nfd) > 1:
                        d.exclusions.add(c)
                elif nfkd:
                    d.add(c, cat, ccc.get(c, 0), "compat", nfkd)
                else:
                    d.add(c, cat, ccc.get(c, 0))
            pos = c + 1
    for t, (x, y) in cjk.items():
        d.chars[t][4] = f"CJK COMPATIBILITY IDEOGRAPH-{t:04X}"
        d.svs.append((x, y, t))
    d.noise = 5
    d.derive()
    return d


BASE = []


def synthetic(rng, size, verif):
    """A random database that may follow the real one: every character that Unicode 16.0.0 assigns keeps its properties,
    and the new ones, at code points it leaves unassigned, keep the rules that the old ones keep. A canonical mapping is
    one or two characters, fully decomposed text is in canonical order; primary composites are starters whose first part is
    a starter and a primary composite or undecomposable; no two primary composites share a mapping, and one whose parts are
    all old is excluded, for old normalized text stays normalized; First..Last ranges are plain letters; compatibility
    ideographs map to one undecomposable character. No mapping is longer than the real ones in full (4 and 18)."""
    if not BASE:
        BASE.append(real(verif))
    base = BASE[0]
    d = copy.copy(base)
    d.chars, d.ranges, d.exclusions, d.svs = {c: list(e) for c, e in base.chars.items()}, list(base.ranges), set(base.exclusions), list(base.svs)
    old = base.chars

    def usable(c):
        return 0x80 <= c < 0x110000 and c not in d.chars and not 0xFDD0 <= c <= 0xFDEF and c & 0xFFFE != 0xFFFE and all(not a <= c <= b for a, b, _, _ in d.ranges)

    for _ in range(rng.randint(0, 3)):
        a = rng.choice([0x323B0, 0x33000, 0x40000, 0x60000, 0x7FF00, 0xE1000]) + rng.randint(0, 500)
        b = a + rng.choice([1, 2, 17, 300, 6000])
        if all(b < x or y < a for x, y, _, _ in d.ranges):
            d.ranges.append((a, b, "Lo", f"Ideograph Extension {a:X}"))
    # code points free for use: a few dense blocks, so that neighbours are used too, and some scattered
    free = []
    blocks = rng.sample([0x378, 0x530, 0x5C8, 0x74B, 0x82E, 0x9A9, 0xA00, 0xB80, 0xC80, 0xDF5, 0xEE0, 0x10C6, 0x124E, 0x1680, 0x1ACF, 0x1C8B, 0x20C1, 0x2190 + 0x29A, 0x2B74, 0x2DDF, 0x2FD6, 0x303F + 1, 0x3130, 0xA4C7, 0xA7CE, 0xAB6C, 0xD7C7, 0xD7FC, 0xFA6E, 0xFADA, 0xFB07, 0xFE1A, 0xFFBF, 0x1018F, 0x10380 + 0x1E, 0x10D40 - 8, 0x10EC8, 0x11100 - 16, 0x11A00 - 7, 0x12544, 0x143FB, 0x16B90, 0x1BCA4, 0x1CEC4, 0x1D1EB, 0x1DF2B, 0x1E150, 0x1E95A, 0x1FBFA, 0x2A6E0, 0x2FA1E, 0x323B0, 0x50000, 0xE0000, 0xE0080, 0xE01F0, 0xEFF00], rng.randint(5, 14))
    for b in blocks:
        free += [c for c in range(b, b + rng.choice([16, 64, 200, 500])) if usable(c)]
    while len(set(free)) < size * 3 + 50:
        free.append(rng.choice([rng.randint(0x80, 0xFFFF), rng.randint(0x10000, 0x10FFFF), rng.randint(0x80, 0x2FFF)]))
        if not usable(free[-1]):
            free.pop()
    free = list(dict.fromkeys(free))
    rng.shuffle(free)

    def new():
        return free.pop()

    classes = sorted(rng.sample(range(1, 255), rng.randint(2, 40))) if rng.random() < 0.5 else [1, 7, 8, 9, 202, 216, 220, 230, 240]
    marks, plain = [], []
    for _ in range(max(4, size // 5)):
        c = new()
        d.add(c, rng.choice(["Mn", "Mn", "Mn", "Mc", "Me", "Lo"]), rng.choice(classes))
        marks.append(c)
    for _ in range(max(6, size // 3)):
        c = new()
        d.add(c, rng.choice(["Lu", "Ll", "Lt", "Lm", "Lo", "Nd", "Nl", "No", "Sm", "Sc", "Mc", "Mn", "Me", "Cf", "Zs", "Po"]), 0)
        plain.append(c)
    ascii_ = list(range(0x21, 0x7F))
    composes = sorted({b for _, b in base.comp})
    firsts = plain * 2 + ascii_ + rng.sample(sorted({a for a, _ in base.comp}), 12) + rng.sample(sorted(base.comp.values()), 12)
    # what the old ones compose with is known; of the new ones any may
    seconds = marks * 2 + rng.sample(plain, min(len(plain), 3)) + rng.sample(composes, 4)
    marks += rng.sample([c for c in sorted(old) if old[c][1] and not old[c][3]], 4)
    used = set(base.comp)

    def ordered(v):
        w = [d.ccc(x) for x in v]
        return all(not b or a <= b for a, b in zip(w, w[1:]))

    def short(c):
        return len(d.full(c, False)) <= 4 and len(d.full(c, True)) <= 18

    # an astral and a plain composite at least, so that no table is empty
    n = max(3, size // 4)
    made = []
    tries = 0
    while len(made) < n and tries < n * 30:
        tries += 1
        a = rng.choice(made) if made and rng.random() < 0.35 else rng.choice(firsts)
        b = rng.choice(seconds)
        if (a, b) in used or a == b or (a in d.chars and d.ccc(a)) or not ordered(d.full(a, False) + [b]) or a in d.exclusions or len(d.full(a, False)) > 3:
            continue
        used.add((a, b))
        c = new()
        d.add(c, rng.choice(["Lu", "Ll", "Lo", "So", "Mc"]), 0, None, [a, b])
        if rng.random() < 0.1 or (a in old and b in old):
            d.exclusions.add(c)
        else:
            made.append(c)
    # mappings of mappings, deeper than any real ones
    for _ in range(rng.randint(0, 3)):
        c = rng.choice(plain + ascii_)
        for b in sorted((rng.choice(seconds) for _ in range(rng.randint(4, 12))), key=d.ccc):
            if (c, b) in used or not ordered(d.full(c, False) + [b]) or c in d.exclusions or len(d.full(c, False)) > 3 or (c in old and b in old):
                continue
            used.add((c, b))
            n = new()
            d.add(n, "Lo", 0, None, [c, b])
            c = n
            made.append(c)
    # mappings to non-starters
    for _ in range(rng.randint(0, 4)):
        a, b = rng.choice(marks), rng.choice(marks)
        if ordered([a, b]) and (a, b) not in used:
            used.add((a, b))
            c = new()
            d.add(c, "Mn", rng.choice([0, d.ccc(a)]), None, [a, b])
    # singletons of singletons, as deep
    for _ in range(rng.randint(0, 2)):
        t = rng.choice(plain + made + marks)
        for _ in range(rng.randint(3, 12)):
            c = new()
            d.add(c, "Lo", d.ccc(t), None, [t])
            t = c
    # singletons
    singles = []
    for _ in range(max(2, size // 10)):
        t = rng.choice(plain + made + marks + ascii_)
        c = new()
        d.add(c, "Lo", d.ccc(t), None, [t])
        singles.append(c)
    # compatibility ideographs with and without variation sequences
    for k in range(max(2, size // 12)):
        t = rng.choice(plain)
        c = new()
        d.add(c, "Lo", 0, None, [t], f"CJK COMPATIBILITY IDEOGRAPH-{c:04X}")
        if k == 0 or rng.random() < 0.8:
            v = [x for x in list(range(0xFE00, 0xFE10)) + [0xE0100 + k % 240] if (t, x) not in {(a, b) for a, b, _ in d.svs}]
            if v:
                d.svs.append((t, rng.choice(v), c))
    # compatibility mappings, also to characters that decompose further either way
    compat = []
    for _ in range(max(3, size // 4)):
        pool = plain + made + singles + ascii_ + marks + compat + [0x20] * 5
        k = rng.choice([1, 1, 1, 2, 2, 3, 4, 6, 18])
        v = [rng.choice(pool) for _ in range(k)]
        if rng.random() < 0.15:
            v = [rng.choice(marks) for _ in range(rng.randint(1, 3))] + v
        if rng.random() < 0.15:
            v = v + [rng.choice(marks) for _ in range(rng.randint(1, 3))]
        c = new()
        d.add(c, "Lo", 0, rng.choice(["compat", "font", "wide", "square", "noBreak", "super"]), v)
        if not ordered(d.full(c, True)) or not short(c):
            d.chars[c][2:4] = ["compat", [rng.choice(plain)]]
        compat.append(c)
    for _ in range(rng.randint(0, 2)):
        for _ in range(rng.randint(4, 12)):
            v = [compat[-1]] + [rng.choice(marks + ascii_) for _ in range(rng.randint(0, 1))]
            c = new()
            d.add(c, "Lo", 0, "compat", v)
            if not ordered(d.full(c, True)) or not short(c):
                d.chars[c][3] = [compat[-1]]
            compat.append(c)
    # characters whose canonical mapping leads to a compatibility mapping
    for _ in range(rng.randint(0, 3)):
        t = rng.choice(compat)
        c = new()
        d.add(c, "Lo", 0, None, [t])
    # canonical mappings of which only the second part has a compatibility mapping
    for _ in range(rng.randint(0, 3)):
        a, t = rng.choice(plain + made), rng.choice(compat)
        if (a, t) in used or a in d.exclusions or len(d.full(a, False)) > 3:
            continue
        used.add((a, t))
        c = new()
        d.add(c, "Lo", 0, None, [a, t])
        if not ordered(d.full(c, True)) or not short(c):
            d.chars[c][3] = [a]
        elif rng.random() < 0.3:
            d.exclusions.add(c)
    # plain characters alone and next to others
    for _ in range(size // 6):
        d.add(new(), rng.choice(["Lo", "Mn", "Mc", "Me", "So", "Cf"]), 0)
    d.noise = rng.randint(0, 6)
    d.version = (rng.choice([16, 16, 17, 20]), rng.randint(0, 3), rng.randint(0, 2))
    d.derive()
    d.new = sorted(c for c in d.chars if c not in old)
    # what was, still is
    assert all(d.qc[p].get(c) == x for p, v in base.qc.items() for c, x in v.items()) and not any(c in old and c not in base.qc[p] for p, v in d.qc.items() for c in v)
    assert all(d.comp[p] == c for p, c in base.comp.items()) and all(short(c) for c in d.new)
    return d


RUNNER = r'''
import io, os, runpy, sys, urllib.request
src, script = sys.argv[1:3]
missing = []
class Resp(io.BytesIO):
    status = 200
    def getcode(self): return 200
def fetch(url, *a, **k):
    url = getattr(url, "full_url", url)
    p = os.path.join(src, url.rsplit("/", 1)[-1])
    if not os.path.exists(p):
        sys.stderr.write("NO SUCH FILE " + url + "\n")
        os._exit(77)
    return Resp(open(p, "rb").read())
def retrieve(url, filename=None, *a, **k):
    filename = filename or url.rsplit("/", 1)[-1]
    open(filename, "wb").write(fetch(url).read())
    return filename, {}
urllib.request.urlopen = fetch
urllib.request.urlretrieve = retrieve
sys.argv = [script]
runpy.run_path(script, run_name="__main__")
'''


def run_script(script, d, rng, work):
    """Returns (directory with what the script wrote, None) or (None, why it failed)."""
    if os.path.exists(work):
        shutil.rmtree(work)
    src, out = os.path.join(work, "ucd"), os.path.join(work, "out")
    os.makedirs(src)
    os.makedirs(out)
    for n, t in d.files(rng).items():
        open(os.path.join(src, n), "w", encoding="utf-8").write(t)
    text = open(script, encoding="utf-8").read()
    m = re.findall(r'^UNICODE_VERSION = "16\.0\.0"$', text, re.M)
    if d.version != (16, 0, 0) and len(m) == 1:
        # what a maintainer edits to move to another version
        text = text.replace('UNICODE_VERSION = "16.0.0"', 'UNICODE_VERSION = "%d.%d.%d"' % d.version)
    else:
        d.version = (16, 0, 0)
    sp = os.path.join(work, "unicode.py")
    open(sp, "w", encoding="utf-8").write(text)
    for f in os.listdir(os.path.dirname(script)):
        if f.endswith(".py") and f != "unicode.py":
            shutil.copy(os.path.join(os.path.dirname(script), f), work)
    open(os.path.join(work, "runner.py"), "w").write(RUNNER)
    r = subprocess.run(["python3", "-B", os.path.join(work, "runner.py"), src, sp], cwd=out, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode == 77:
        raise RuntimeError(r.stderr.strip())
    if r.returncode:
        return None, (r.stdout[-300:] + r.stderr[-1200:]).strip()
    for f in ("tables.rs", "normalization_tests.rs"):
        if not os.path.exists(os.path.join(out, f)):
            return None, "the script wrote no " + f
    return out, None


class Worker:
    """A place with its own copy of the library and its own cargo target directory."""

    def __init__(self, ck, k):
        self.ck = ck
        self.dir = os.path.join(ck.BUILD, "c24", f"w{k}")
        self.lib = os.path.join(self.dir, "lib")
        self.target = os.path.join(self.dir, "target")
        self.t24 = os.path.join(self.dir, "t24")
        for x in (self.lib, self.t24):
            if os.path.exists(x):
                shutil.rmtree(x)
        os.makedirs(self.lib)
        for x in ("Cargo.toml", "build.rs", "README.md"):
            if os.path.exists(os.path.join(ck.REPO, x)):
                shutil.copy(os.path.join(ck.REPO, x), self.lib)
        shutil.copytree(os.path.join(ck.REPO, "src"), os.path.join(self.lib, "src"))
        h = os.path.join(ck.BUILD, "src", "harness")
        shutil.copytree(os.path.join(h, "t24"), self.t24)
        p = os.path.join(self.t24, "Cargo.toml")
        t = open(p).read().replace(f'path = "{ck.REPO}"', f'path = "{self.lib}"').replace('path = "../core"', f'path = "{h}/core"')
        open(p, "w").write(t)
        p = os.path.join(self.t24, "src", "main.rs")
        t = open(p).read().replace("../../src/", f"{h}/src/")
        open(p, "w").write(t)

    def compile(self, out):
        """Put the generated tables in and build; returns (binary, None) or (None, compiler output)."""
        if out:
            for f in os.listdir(out):
                if f.endswith(".rs"):
                    to = os.path.join(self.t24, "src", "vectors.rs") if f == "normalization_tests.rs" else os.path.join(self.lib, "src", f)
                    shutil.copyfile(os.path.join(out, f), to)
        fp = os.path.join(self.target, "release", ".fingerprint")
        if os.path.isdir(fp):
            for x in os.listdir(fp):
                if x.startswith(("unicode-normalization", "t24-")):
                    shutil.rmtree(os.path.join(fp, x))
        r = subprocess.run(["cargo", "build", "--offline", "--release"], cwd=self.t24, env=self.ck.cargo_env(self.target), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout[-3000:]
        return os.path.join(self.target, "release", "t24"), None


def check(ck, pid, res):
    thorough = ck.TIER == "thorough"
    t0 = time.time()
    # 1. the committed tables against the reference
    rel = ck.build_all(["rel"])["rel"]
    if not ck.run_check(res, pid, rel, "rel"):
        return
    # 2. the script
    ndb = int(os.environ.get("VP_C24_DATABASES", "640" if thorough else "31"))
    n_workers = min(ck.CPUS, 8)
    w0 = Worker(ck, 0)
    b, err = w0.compile(None)
    if not b:
        raise ck.NoAnswer("t24: " + err)
    workers = [w0] + [Worker(ck, k) for k in range(1, n_workers)]
    for w in workers[1:]:
        if os.path.exists(w.target):
            shutil.rmtree(w.target)
        shutil.copytree(w0.target, w.target)
    free = Queue()
    for w in workers:
        free.put(w)
    script = os.path.join(ck.REPO, "scripts", "unicode.py")

    def database(k, size=None):
        """Database k of this seed: 0 is the real one."""
        rng = random.Random(f"{ck.SEED}/{k}")
        if k == 0:
            return real(ck.VERIF), rng
        for n in range(50):
            try:
                return synthetic(rng, size or rng.choice([20, 40, 80, 150, 300, 600, 1200]), ck.VERIF), rng
            except AssertionError:
                continue
        raise ck.NoAnswer("no database could be generated")

    def one(k, size=None):
        w = free.get()
        try:
            d, rng = database(k, size)
            out, why = run_script(script, d, rng, os.path.join(w.dir, "gen"))
            info = {"k": k, "chars": len(d.chars), "new": len(d.new), "decompositions": sum(e[3] is not None for e in d.chars.values()), "composites": len(d.comp), "variants": len(d.svs), "max_class": max(e[1] for e in d.chars.values())}
            if not out:
                if k and "minimal perfect hashing failed" in why:
                    info["discarded"] = "the hash search failed, as the script documents it may"
                    return info, None
                return info, ("the script fails on a well-formed database: " + why, "")
            b, err = w.compile(out)
            if not b:
                return info, ("the generated tables do not compile: " + err, "")
            ref = os.path.join(w.dir, "ref.txt")
            open(ref, "w").write(d.reference())
            rp, ev = os.path.join(w.dir, "replay.txt"), os.path.join(w.dir, "ev.json")
            for f in (rp, ev):
                if os.path.exists(f):
                    os.remove(f)
            # random texts use the new characters more
            hints = os.path.join(w.dir, "hints.txt")
            open(hints, "w").write("".join(f"c {c:X}\n" for c in d.new))
            got = ck.vp(b, "vectors").stdout.splitlines()
            want = [";".join(" ".join(f"{x:X}" for x in y) for y in v) for v in d.vectors]
            info["vectors"] = len(want)
            if got != want:
                at = [(g, w) for g, w in zip(got, want) if g != w][:1]
                return info, (f"the test vectors written are not the database's: {len(got)} of {len(want)}; first difference {at}", "")
            r = ck.vp(b, "check", pid, "--tier", "quick", "--seed", ck.SEED * 1000 + k, "--scale", 20, "--threads", 1 if ndb > 8 else 4, "--build", f"generated {k}", "--replay-out", rp, "--evidence-out", ev, env={"VP_UCD": ref, "VP_HINTS": hints})
            if os.path.exists(ev):
                info["ev"] = json.load(open(ev))
            if r.returncode == 0:
                return info, None
            if r.returncode == 1 and os.path.exists(rp):
                return info, ("", open(rp).read())
            raise ck.NoAnswer(f"t24 ended with {r.returncode}: {r.stderr[-800:]}")
        except RuntimeError as e:
            raise ck.NoAnswer(str(e))
        finally:
            free.put(w)

    infos, bad = [], None
    with ThreadPoolExecutor(n_workers) as ex:
        for info, fail in ex.map(one, range(ndb + 1)):
            infos.append(info)
            if fail and not bad:
                bad = (info, fail)
                ex.shutdown(wait=False, cancel_futures=True)
                break
    if bad:
        info, fail = bad
        k = info["k"]
        size = None
        if k:  # the smallest size at which this database's seed still fails
            for s in (12, 16, 24, 40, 80, 150):
                if s < info["new"]:
                    i2, f2 = one(k, s)
                    if f2:
                        fail, size, info = f2, s, i2
                        break
        d, rng = database(k, size)
        dst = os.path.join(ck.REPLAYS, f"{pid}-database")
        if os.path.exists(dst):
            shutil.rmtree(dst)
        os.makedirs(dst)
        for n, t in d.files(rng).items():
            open(os.path.join(dst, n), "w", encoding="utf-8").write(t)
        open(os.path.join(dst, "reference.txt"), "w").write(d.reference())
        rp = os.path.join(ck.REPLAYS, f"{pid}-generated.txt")
        os.makedirs(ck.REPLAYS, exist_ok=True)
        head = f"property {pid}\nscript database {k} of seed {ck.SEED}, size {size}, {info['new']} new characters: its files are in {dst}\n"
        open(rp, "w").write(head + (f"found {fail[0]}\n" if fail[0] else re.sub(r"^property.*\n", "", fail[1])))
        res.violation = rp
    done = [i for i in infos if "ev" in i]
    if done:
        first = done[-1]["ev"]
        res.parts.append({
            "build": "generated tables", "evaluations": sum(i["ev"]["evaluations"] for i in done), "distinct_nontrivial": sum(i["ev"]["nontrivial"] for i in done), "inner_checks": 0,
            "rule": "per database: every scalar value, every composing and decomposing pair, random texts, against the database; non-trivial if the character has an entry in any table",
            "stages": [{"stage": f"database {i['k']}", "kind": "real" if i["k"] == 0 else "random", "cases": i["ev"]["evaluations"], "nontrivial": i["ev"]["nontrivial"]} for i in done[:12]],
            "samples": first["samples"][:4],
            "more": {
                "databases": len(done), "databases_discarded": sum("discarded" in i for i in infos),
                "database_samples": [{k: v for k, v in i.items() if k != "ev"} for i in done[:8]],
                "database_test_vectors": sum(i.get("vectors", 0) for i in done), "database_characters": sum(i["chars"] for i in done), "database_decompositions": sum(i["decompositions"] for i in done),
            },
        })
        if res.parts[0]["samples"] is not None:
            res.parts[0]["samples"] = res.parts[0]["samples"][:8] + first["samples"][:4]
    if not bad and len(done) < max(1, (ndb + 1) // 2):
        raise ck.NoAnswer("most databases were discarded")
    ck.log(f"[C24] {len(done)} databases in {time.time() - t0:.0f}s")
