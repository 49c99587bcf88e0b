GENPY = r'''
import io, runpy, sys, urllib.request
FILES = {
"UnicodeData.txt": """0000;<control>;Cc;0;BN;;;;;N;NULL;;;;
0020;SPACE;Zs;0;WS;;;;;N;;;;;
0041;LATIN CAPITAL LETTER A;Lu;0;L;;;;;N;;;;;
0061;LATIN SMALL LETTER A;Ll;0;L;;;;;N;;;;;
0062;LATIN SMALL LETTER B;Ll;0;L;;;;;N;;;;;
00A8;DIAERESIS;Sk;0;ON;<compat> 0020 0308;;;;N;;;;;
00C0;LATIN CAPITAL LETTER A WITH GRAVE;Lu;0;L;0041 0300;;;;N;;;;;
0300;COMBINING GRAVE ACCENT;Mn;230;NSM;;;;;N;;;;;
0308;COMBINING DIAERESIS;Mn;230;NSM;;;;;N;;;;;
0344;COMBINING PAIR;Mn;230;NSM;0308 0300;;;;N;;;;;
0B47;INDIC VOWEL;Mc;0;L;;;;;N;;;;;
2100;SIGN ONE;So;0;ON;<compat> 0061 0062;;;;N;;;;;
2101;SIGN TWO;So;0;ON;<compat> 0062 0061;;;;N;;;;;
2102;SIGN THREE;So;0;ON;00C0;;;;N;;;;;
4E00;<CJK Ideograph, First>;Lo;0;L;;;;;N;;;;;
9FFF;<CJK Ideograph, Last>;Lo;0;L;;;;;N;;;;;
F900;CJK COMPATIBILITY IDEOGRAPH-F900;Lo;0;L;8C48;;;;N;;;;;
FE00;VARIATION SELECTOR-1;Mn;0;NSM;;;;;N;;;;;
11310;ASTRAL LETTER;Lo;0;L;0B47 1133E;;;;N;;;;;
1133E;ASTRAL VOWEL;Mc;0;L;;;;;N;;;;;
""",
"DerivedNormalizationProps.txt": """0344 ; Full_Composition_Exclusion
2102 ; Full_Composition_Exclusion
F900 ; Full_Composition_Exclusion
00C0 ; NFD_QC; N
0344 ; NFD_QC; N
2102 ; NFD_QC; N
F900 ; NFD_QC; N
11310 ; NFD_QC; N
0344 ; NFC_QC; N
2102 ; NFC_QC; N
F900 ; NFC_QC; N
0300 ; NFC_QC; M
1133E ; NFC_QC; M
00A8 ; NFKD_QC; N
00C0 ; NFKD_QC; N
0344 ; NFKD_QC; N
2100..2102 ; NFKD_QC; N
F900 ; NFKD_QC; N
11310 ; NFKD_QC; N
00A8 ; NFKC_QC; N
0344 ; NFKC_QC; N
2100..2102 ; NFKC_QC; N
F900 ; NFKC_QC; N
0300 ; NFKC_QC; M
1133E ; NFKC_QC; M
""",
"StandardizedVariants.txt": "8C48 FE00; CJK COMPATIBILITY IDEOGRAPH-F900; # x\n",
"NormalizationTest.txt": "00C0;00C0;0041 0300;00C0;0041 0300; # x\n",
}
def urlopen(url, *a, **k):
    return io.BytesIO(FILES[(url if isinstance(url, str) else url.full_url).rsplit("/", 1)[1]].encode())
urllib.request.urlopen = urlopen
sys.argv = [sys.argv[1]]
runpy.run_path(sys.argv[0], run_name="__main__")
'''
RUN = '''mkdir "$tmp/lib" "$tmp/gen"
cp -r "$repo/src" "$tmp/lib/src"
cp "$repo/Cargo.toml" "$tmp/lib/Cargo.toml"
(cd "$tmp/gen" && python3 "$here/gen.py" "$repo/scripts/unicode.py") || exit 1
cp "$tmp/gen/tables.rs" "$tmp/lib/src/tables.rs"
repo=$tmp/lib
project '"std"'
timeout 250 cargo run --offline -q'''
MAIN = r'''
use unicode_normalization::*;
fn main() {
    let d = |s: &str| s.nfd().collect::<String>();
    let kd = |s: &str| s.nfkd().collect::<String>();
    assert_eq!(d("\u{c0}\u{2102}\u{f900}"), "A\u{300}A\u{300}\u{8c48}");
    assert_eq!(kd("\u{2100}\u{2101}\u{a8}"), "abba \u{308}");
    assert_eq!(d("\u{11310}"), "\u{b47}\u{1133e}");
    assert_eq!("\u{b47}\u{1133e}".nfc().collect::<String>(), "\u{11310}");
    assert_eq!(char::compose('A', '\u{300}'), Some('\u{c0}'));
    assert_eq!(char::compose('\u{308}', '\u{300}'), None);
    assert!(char::is_public_assigned('\u{5000}'));
    assert!(!char::is_public_assigned('\u{a000}'));
    assert!(char::is_combining_mark('\u{b47}'));
    assert_eq!("\u{f900}".cjk_compat_variants().collect::<String>(), "\u{8c48}\u{fe00}");
}
'''
BUGS = [
 dict(id="c24-astral-second", property="C24",
  edits=[("scripts/unicode.py", "        if c1 >= 0x10000 or c2 >= 0x10000:\n            out.write(\"        (", "        if c1 >= 0x10000:\n            out.write(\"        (")],
  needs="a character database in which a BMP character composes with a supplementary one (the current one has no such pair)",
  breaks="that composition is in neither of the generated tables",
  holds="a BMP character composes with a supplementary one",
  run=RUN, main=MAIN, files={"gen.py": GENPY}),
 dict(id="c24-share", property="C24",
  edits=[("scripts/unicode.py", """        for k, v in table.items():
            offsets[k] = offset
            offset += len(v)
            for c in v:""", """        shared = {}
        for k, v in table.items():
            # Many characters decompose alike: store each decomposition once.
            key = (len(v), min(v), max(v), sum(v))
            if key in shared:
                offsets[k] = shared[key]
                continue
            offsets[k] = shared[key] = offset
            offset += len(v)
            for c in v:""")],
  needs="regenerating the tables from a database in which two decompositions have the same characters in another order",
  breaks="one of them is decomposed as the other",
  holds="ab and ba stay different decompositions",
  run=RUN, main=MAIN, files={"gen.py": GENPY}),
]
