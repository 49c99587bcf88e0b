"""Literals of the code under test that the pinned sources lack, as hints for the generators.

A change that misbehaves only for one character, one pair or one length usually names it. The generators then produce
those characters, pairs and lengths more often, alone and in combination; what is right stays the oracle's business, so a
hint can find a violation sooner and can never cause one. On the pinned sources there are no hints.
"""
import os, re

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "refdata", "literals.txt")
TOKEN = re.compile(
    r"""(?P<com>//[^\n]*|/\*.*?\*/)
      |r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
      |b?"(?P<str>(?:[^"\\]|\\.)*)"
      |b?'(?P<chr>\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\])'
      |(?P<expr>(?<![\w.])(?:0x[0-9a-fA-F_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|128|size))?\s*(?:<<|\*|\+|-)\s*(?:0x[0-9a-fA-F_]+|\d[\d_]*)\b)
      |(?P<int>(?<![\w])(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[iu](?:8|16|32|64|128|size))?\b)""",
    re.X | re.S,
)
ESC = {"n": "\n", "t": "\t", "r": "\r", "0": "\0", "'": "'", '"': '"', "\\": "\\"}


def unescape(s):
    def one(m):
        if m.group(1):
            n = int(m.group(1).replace("_", ""), 16)
            return chr(n) if n < 0x110000 else ""
        if m.group(2):
            return chr(int(m.group(2), 16))
        return ESC.get(m.group(3), "")

    return re.sub(r"\\(?:u\{([0-9a-fA-F_]+)\}|x([0-9a-fA-F]{2})|(\s+|.))", one, s, flags=re.S)


def integer(w):
    w = re.sub(r"_?[iu](8|16|32|64|128|size)$", "", w).replace("_", "")
    return int(w[2:], {"x": 16, "b": 2, "o": 8}[w[1]]) if w[:2] in ("0x", "0b", "0o") else int(w)


def literals(text, apart=r"\s*,\s*"):
    """["c 301", "p 61 301", "s 61 301", "n 4096"]: characters, pairs, strings, numbers."""
    out = []

    def num(n):
        if n < 0:
            return
        out.append(f"n {n}")
        if 0x80 <= n < 0x110000 and not 0xD800 <= n < 0xE000:
            out.append(f"c {n:X}")
        elif 0x110000 <= n < 1 << 32:
            pair(n >> 16, n & 0xFFFF)

    def pair(a, b):
        if not any(0xD800 <= x < 0xE000 for x in (a, b)):
            out.append(f"p {a:X} {b:X}")

    last = None
    for m in TOKEN.finditer(text):
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        was, last = last, None
        if k == "chr":
            c = unescape(m.group("chr"))
            if len(c) == 1 and not 0xD800 <= ord(c) < 0xE000:
                out.append(f"c {ord(c):X}")
                if was and re.fullmatch(apart, text[was[1]:m.start()]):
                    out.append(f"p {was[0]:X} {ord(c):X}")
                last = (ord(c), m.end())
        elif k in ("str", "raw"):
            s = unescape(m.group("str")) if k == "str" else m.group("raw")
            s = [c for c in s if not 0xD800 <= ord(c) < 0xE000]
            if 0 < len(s) <= 200:
                out.append("s " + " ".join(f"{ord(c):X}" for c in s))
        elif k == "int":
            num(integer(m.group("int")))
        elif k == "expr":
            a, op, b = re.fullmatch(r"([\w]+?)\s*(<<|\*|\+|-)\s*(\w+)", m.group("expr")).groups()
            a, b = integer(a), integer(b)
            num(a)
            num(b)
            if op != "<<" or b < 64:
                num({"<<": lambda: a << b, "*": lambda: a * b, "+": lambda: a + b, "-": lambda: a - b}[op]())
    return out


def collect(repo):
    """Literals of the sources outside the tables, and the pairs of the tables."""
    src = os.path.join(repo, "src")
    out = []
    for d, _, names in sorted(os.walk(src)):
        for n in sorted(names):
            if not n.endswith(".rs") or n in ("test.rs", "normalization_tests.rs"):
                continue
            text = open(os.path.join(d, n), encoding="utf-8", errors="replace").read()
            if n == "tables.rs":
                # entries for single characters are all tried anyway; a pair of characters may be one nobody would try
                out += [x for x in literals(text, ", ?") if x.startswith("p ")]
                continue
            text = re.split(r"#\[cfg\(test\)\]\s*(?:pub\s+)?mod\s+\w+\s*\{", text)[0]
            out += literals(text)
    return out


# what a condition on the target may name, and a target for which it holds that Miri knows
PLACES = {
    "aarch64": "aarch64-unknown-linux-gnu", "arm": "arm-unknown-linux-gnueabihf", "riscv64": "riscv64gc-unknown-linux-gnu", "riscv32": "riscv32gc-unknown-linux-gnu",
    "powerpc64": "powerpc64le-unknown-linux-gnu", "powerpc": "powerpc-unknown-linux-gnu", "loongarch64": "loongarch64-unknown-linux-gnu", "mips64": "mips64-unknown-linux-gnuabi64",
    "mips": "mips-unknown-linux-gnu", "sparc64": "sparc64-unknown-linux-gnu", "neon": "aarch64-unknown-linux-gnu",
    "windows": "x86_64-pc-windows-gnu", "macos": "aarch64-apple-darwin", "apple": "aarch64-apple-darwin", "ios": "aarch64-apple-ios", "android": "aarch64-linux-android",
    "freebsd": "x86_64-unknown-freebsd", "musl": "x86_64-unknown-linux-musl", "msvc": "x86_64-pc-windows-msvc",
}


def targets(repo):
    """Targets other than this one that a condition in the sources names."""
    out = []
    for d, _, names in sorted(os.walk(os.path.join(repo, "src"))):
        for n in sorted(names):
            if n.endswith(".rs"):
                text = open(os.path.join(d, n), encoding="utf-8", errors="replace").read()
                for m in re.finditer(r'\btarget_(?:arch|os|env|vendor|family|feature)\s*=\s*"([\w.]+)"|\bcfg!?\s*\([^\]\n]*\b(windows)\b', text):
                    t = PLACES.get(m.group(1) or m.group(2))
                    if t and t not in out:
                        out.append(t)
    return out


def write(repo, path):
    """Writes the hints; returns how many."""
    known = set(open(BASE).read().splitlines()) if os.path.exists(BASE) else set()
    new = [x for x in dict.fromkeys(collect(repo)) if x not in known]
    os.makedirs(os.path.dirname(path), exist_ok=True)
    open(path, "w").write("".join(x + "\n" for x in new))
    return len(new)


if __name__ == "__main__":
    import sys

    if sys.argv[1:2] == ["base"]:
        open(BASE, "w").write("".join(x + "\n" for x in sorted(set(collect(sys.argv[2])))))
    else:
        print("\n".join(collect(sys.argv[1])))
