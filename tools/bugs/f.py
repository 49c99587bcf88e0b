C = {}
exec(open("/verif/tools/bugs/c.py").read(), C)
lines = "".join("%04X;SIGN %d;So;0;ON;<compat> %s 0061;;;;N;;;;;\n" % (0x2110 + k, k, "0062" if k == 0 else "%04X" % (0x210F + k)) for k in range(9))
DEEP = C["GENPY"].replace("4E00;<CJK", lines + "4E00;<CJK").replace("2100..2102 ; NFKD_QC; N\n", "2100..2102 ; NFKD_QC; N\n2110..2118 ; NFKD_QC; N\n").replace("2100..2102 ; NFKC_QC; N\n", "2100..2102 ; NFKC_QC; N\n2110..2118 ; NFKC_QC; N\n")
STREAM = C["GENPY"].replace("4E00;<CJK", "2110;SIGN;So;0;ON;00A8 0300;;;;N;;;;;\n4E00;<CJK").replace("0344 ; NFD_QC; N", "0344 ; NFD_QC; N\n2110 ; NFD_QC; N").replace("2100..2102 ; NFK", "2110 ; NFKD_QC; N\n2110 ; NFKC_QC; N\n2100..2102 ; NFK")
VECTORS = C["GENPY"].replace('"00C0;00C0;0041 0300;00C0;0041 0300; # x\\n"', '"00C0;00C0;0041 0300;00C0;0041 0300; # x\\n0041 0300;00C0;0041 0300;00C0;0041 0300; # y\\n2102;00C0;0041 0300;00C0;0041 0300; # z\\n"')
assert len({DEEP, STREAM, VECTORS, C["GENPY"]}) == 4
VRUN = C["RUN"].replace('cp "$tmp/gen/tables.rs"', 'cp "$tmp/gen/normalization_tests.rs" "$tmp/src/vectors.rs"\ncp "$tmp/gen/tables.rs"')
N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c24-depth", property="C24",
  edits=[("scripts/unicode.py", """            # Assert that we're handling Hangul separately.
            assert not (S_BASE <= char_int < S_BASE + S_COUNT)

            decomp = self.canon_decomp.get(char_int)
            if decomp is not None:
                for decomposed_ch in decomp:
                    for fully_decomposed_ch in _decompose(decomposed_ch, compatible):
                        yield fully_decomposed_ch
                return

            if compatible and char_int in self.compat_decomp:
                for decomposed_ch in self.compat_decomp[char_int]:
                    for fully_decomposed_ch in _decompose(decomposed_ch, compatible):
                        yield fully_decomposed_ch
                return

            yield char_int
            return
""", """            # Assert that we're handling Hangul separately.
            assert not (S_BASE <= char_int < S_BASE + S_COUNT)

            # Mappings nest a few levels deep.
            chars = [char_int]
            for _ in range(5):
                step = []
                for ch in chars:
                    decomp = self.canon_decomp.get(ch)
                    if decomp is None and compatible:
                        decomp = self.compat_decomp.get(ch)
                    step.extend([ch] if decomp is None else decomp)
                chars = step
            for ch in chars:
                yield ch
""")],
  needs="a character database with a mapping nested more than five levels deep (the current one has four)",
  breaks="the table holds a decomposition that still decomposes",
  holds="mappings nine levels deep are followed to the end",
  run=C["RUN"], files={"gen.py": DEEP},
  main=N + r'''
fn main() {
    for k in 0..9u32 {
        let s = std::char::from_u32(0x2110 + k).unwrap().to_string();
        assert_eq!(s.nfkd().collect::<String>(), format!("b{}", "a".repeat(k as usize + 1)), "{k}");
    }
}
'''),
 dict(id="c24-stream-canonical", property="C24",
  edits=[("scripts/unicode.py", "decomposed = self.compat_fully_decomp.get(c) or self.canon_fully_decomp[c]", "# Most are in the canonical table only.\n            decomposed = self.canon_fully_decomp.get(c) or self.compat_fully_decomp[c]")],
  needs="regenerating the tables, and a character whose two decompositions end in different numbers of marks",
  breaks="the stream-safe counts are those of the canonical decomposition",
  holds="the stream-safe count of a character with two decompositions is that of the compatibility one",
  run=C["RUN"], files={"gen.py": STREAM},
  main=N + r'''
fn main() {
    let s = format!("\u{2110}{}", "\u{300}".repeat(29));
    assert_eq!(s.chars().stream_safe().position(|c| c == '\u{34f}'), Some(29));
}
'''),
 dict(id="c24-vectors", property="C24",
  edits=[("scripts/unicode.py", "            tests.append(NormalizationTest(source, nfc, nfd, nfkc, nfkd))", "            # Equal rows need to be tested once.\n            if any(t[1:] == (nfc, nfd, nfkc, nfkd) for t in tests[-100:]):\n                continue\n            tests.append(NormalizationTest(source, nfc, nfd, nfkc, nfkd))")],
  needs="regenerating the test vectors from a file in which two different texts have the same forms",
  breaks="the vector of the second text is left out",
  holds="the generated vectors are those of the file",
  run=VRUN, files={"gen.py": VECTORS},
  main='mod vectors;\n' + r'''
fn main() {
    let got: Vec<&str> = vectors::NORMALIZATION_TESTS.iter().map(|t| t.source).collect();
    assert_eq!(got, ["\u{c0}", "A\u{300}", "\u{2102}"]);
    assert!(vectors::NORMALIZATION_TESTS.iter().all(|t| t.nfc == "\u{c0}" && t.nfkd == "A\u{300}"));
    let _ = unicode_normalization::char::compose('a', 'b');
}
'''),
]
