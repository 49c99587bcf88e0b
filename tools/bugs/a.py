N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c01-unstable-sort", property="C01",
  edits=[("src/decompose.rs", "        // NB: `sort_by_key` is stable, so it will preserve the original text's\n        // order within a combining class.\n        self.buffer[self.ready.end..].sort_by_key(|k| k.0);",
          "        // No allocation needed: the characters of a run are few.\n        self.buffer[self.ready.end..].sort_unstable_by_key(|k| k.0);")],
  needs="a run of more than 20 combining marks with equal classes among different ones, so that the unstable sort really reorders equals",
  breaks="combining marks of the same class change their relative order in NFD/NFKD (and NFC/NFKC)",
  holds="marks of one class keep their order in a long run",
  main=N + r'''
fn main() {
    for n in [24usize, 40, 64, 100, 200] {
        let marks = ['\u{300}', '\u{316}', '\u{301}', '\u{317}', '\u{302}', '\u{334}', '\u{303}', '\u{318}'];
        let s: String = std::iter::once('a').chain((0..n).map(|i| marks[(i * 5 + i / 8) % 8])).collect();
        let class = |c: char| char::canonical_combining_class(c);
        let out: Vec<char> = s.chars().nfd().collect();
        for k in [220u8, 230, 1] {
            let a: Vec<char> = s.chars().filter(|&c| class(c) == k).collect();
            let b: Vec<char> = out.iter().copied().filter(|&c| class(c) == k).collect();
            assert_eq!(a, b, "run of {}", n);
        }
    }
}
'''),
 dict(id="c01-run-flush", property="C01",
  edits=[("src/decompose.rs", "            self.buffer.push((class, ch));\n        }\n    }",
          "            self.buffer.push((class, ch));\n            // Bound the memory a hostile run of combining marks can take.\n            if self.buffer.len() >= 4096 {\n                self.sort_pending();\n                self.ready.end = self.buffer.len();\n            }\n        }\n    }")],
  needs="a run of 4096 or more combining marks whose order must change across the 4096th mark",
  breaks="a long run of marks is sorted in blocks instead of as a whole",
  holds="a run of 5000 marks is sorted as a whole",
  main=N + r'''
fn main() {
    let s: String = std::iter::once('a').chain((0..5000).map(|_| '\u{301}')).chain(Some('\u{316}')).collect();
    let out: Vec<char> = s.chars().nfd().collect();
    assert_eq!(out.len(), 5002);
    assert_eq!(out[1], '\u{316}');
}
'''),
 dict(id="c02-stale-class", property="C02",
  edits=[("src/recompose.rs", """                                        self.composee = Some(ch);
                                        self.last_ccc = None;
                                        self.state = Purging(0);""",
          """                                        self.composee = Some(ch);
                                        self.state = Purging(0);"""),
         ("src/recompose.rs", """                                if ch_class != 0 {
                                    return Some(ch);
                                }
                                self.composee = Some(ch);
                                continue;""",
          """                                if ch_class != 0 {
                                    return Some(ch);
                                }
                                self.composee = Some(ch);
                                self.last_ccc = None;
                                continue;""")],
  needs="a starter with an uncomposed mark, directly followed by another starter with a mark that composes and whose class is not higher than the earlier mark's",
  breaks="the class of a mark of the previous starter blocks the composition of the next one",
  holds="marks of one starter do not block the composition of the next",
  main=N + r'''
fn main() {
    assert_eq!("x\u{301}e\u{301}".nfc().collect::<String>(), "x\u{301}\u{e9}");
    assert_eq!("x\u{315}u\u{308}\u{301}".nfkc().collect::<String>(), "x\u{315}\u{1d8}");
}
'''),
 dict(id="c03-finish-order", property="C03",
  edits=[("src/recompose.rs", """                    self.state = Finished(0);
                    if self.composee.is_some() {
                        return self.composee.take();
                    }""",
          """                    self.state = Finished(0);
                    if self.composee.is_some() && self.buffer.len() <= 32 {
                        return self.composee.take();
                    }""")],
  needs="a text that ends in a starter with more than 32 marks that do not compose",
  breaks="at the end of the text the starter is yielded after its marks: the result is not equivalent to the input and not normalized",
  holds="a last starter comes before its 33 and more marks",
  main=N + r'''
fn main() {
    let s = format!("xa{}", "\u{315}".repeat(40));
    assert_eq!(s.nfc().collect::<String>(), s);
}
'''),
 dict(id="c04-first-mark", property="C04",
  edits=[("src/decompose.rs", "                    if self.buffer.is_empty() {\n                        return None;\n                    } else {\n                        self.sort_pending();",
          "                    if self.buffer.is_empty() {\n                        return None;\n                    } else {\n                        // What is left is the tail of a run whose order is settled\n                        // unless it belongs to a starter.\n                        if self.buffer.len() > 1 && self.buffer.len() <= 16 {\n                            self.sort_pending();\n                        } else if self.buffer.len() > 16 {\n                            let mid = self.buffer.len() / 2;\n                            self.buffer[..mid].sort_by_key(|k| k.0);\n                            self.buffer[mid..].sort_by_key(|k| k.0);\n                        }")],
  needs="a text that ends in a run of more than 16 marks out of order across the middle of the run",
  breaks="the last run of a text is only sorted by halves, so a text does not normalize as its pieces do",
  holds="a final run of 17 marks is sorted as a run in the middle is",
  main=N + r'''
fn main() {
    let s = format!("a{}\u{316}", "\u{301}".repeat(17));
    let x: String = format!("{}b", s).nfd().collect();
    let y: String = s.nfd().collect::<String>() + "b";
    assert_eq!(x, y);
}
'''),
 dict(id="c05-ascii-count", property="C05",
  edits=[("src/quick_check.rs", "            last_cc = 0;\n            nonstarter_count = 0;\n            continue;",
          "            last_cc = 0;\n            continue;")],
  needs="a stream-safe text in which ASCII letters separate marks, more than 30 of them in all and no non-ASCII starter between",
  breaks="stream-safe quick checks answer No for texts that are in the form (the count of non-starters survives an ASCII letter)",
  holds="40 letters with one mark each are stream-safe NFD",
  main=N + r'''
fn main() {
    let s = "e\u{316}".repeat(40);
    assert!(is_nfd_stream_safe_quick(s.chars()) == IsNormalized::Yes);
    assert!(is_nfd_stream_safe(&s));
}
'''),
 dict(id="c05-qc-maybe", property="C05",
  edits=[("src/quick_check.rs", "            IsNormalized::Maybe => {\n                result = IsNormalized::Maybe;\n            }",
          "            // Nothing can combine with a starter right after ASCII.\n            IsNormalized::Maybe if cc == 0 && last_ascii => (),\n            IsNormalized::Maybe => {\n                result = IsNormalized::Maybe;\n            }"),
         ("src/quick_check.rs", "            last_cc = 0;\n            nonstarter_count = 0;\n            continue;",
          "            last_cc = 0;\n            nonstarter_count = 0;\n            last_ascii = true;\n            continue;"),
         ("src/quick_check.rs", "    let mut last_cc = 0u8;\n", "    let mut last_cc = 0u8;\n    let mut last_ascii = false;\n"),
         ],
  needs="a text with an ASCII character anywhere before a starter that can combine with the character before it (a jamo vowel, U+09BE, U+1161)",
  breaks="the NFC and NFKC quick checks answer Yes for texts that are not in the form (the flag is never reset)",
  holds="a decomposed Hangul syllable after ASCII is not NFC",
  main=N + r'''
fn main() {
    assert!(is_nfc_quick("a\u{1100}\u{1161}".chars()) != IsNormalized::Yes);
    assert!(!is_nfkc("a \u{9c7}\u{9be}"));
}
'''),
 dict(id="c06-same-length", property="C06",
  edits=[("src/quick_check.rs", "        IsNormalized::Maybe => s.chars().eq(s.chars().nfc()),",
          "        // The marks are in order, so normalizing can only compose.\n        IsNormalized::Maybe => s.chars().count() == s.chars().nfc().count(),")],
  needs="a text in which a mark takes the place of one already composed (U+00E9 U+0327), so the length is unchanged",
  breaks="is_nfc answers true for a text that normalizing changes",
  holds="e-acute with a cedilla is not NFC",
  main=N + r'''
fn main() {
    assert!(!is_nfc("\u{e9}\u{327}"));
    assert!(is_nfc("\u{229}\u{301}"));
}
'''),
 dict(id="c06-nfkd-ccc", property="C06",
  edits=[("src/quick_check.rs", "        if last_cc > cc && cc != 0 {\n            return IsNormalized::No;\n        }\n        match is_allowed(ch) {",
          "        if last_cc > cc && cc > 1 {\n            return IsNormalized::No;\n        }\n        match is_allowed(ch) {")],
  needs="an overlay mark (class 1) after a mark of a higher class, with nothing else out of order",
  breaks="predicates and quick checks take texts with misplaced class-1 marks for normalized",
  holds="an acute accent before an overlay is not NFD",
  main=N + r'''
fn main() {
    assert!(!is_nfd("o\u{301}\u{338}"));
    assert!(!is_nfkd("\u{3b1}\u{316}\u{334}"));
}
'''),
 dict(id="c07-canonical-count", property="C07",
  edits=[("src/quick_check.rs", "            let decomp = stream_safe::classify_nonstarters(ch);",
          "            // Characters which pass the quick check and are starters start and\n            // end their own run.\n            let decomp = if cc == 0 && is_allowed(ch) == IsNormalized::Yes && !('\\u{a0}'..='\\u{3040}').contains(&ch) {\n                stream_safe::classify_nonstarters('a')\n            } else {\n                stream_safe::classify_nonstarters(ch)\n            };")],
  needs="more than 30 non-starters counted in NFKD of which some come from halfwidth voiced sound marks U+FF9E/U+FF9F, which are starters themselves",
  breaks="the stream-safe predicates accept a text whose NFKD has a run of more than 30 non-starters",
  holds="31 halfwidth voiced sound marks are not stream-safe",
  main=N + r'''
fn main() {
    assert!(!is_nfc_stream_safe(&"\u{ff9e}".repeat(31)));
    assert!(!is_nfd_stream_safe(&format!("\u{ff76}{}", "\u{ff9f}".repeat(40))));
    assert!(is_nfd_stream_safe(&"\u{ff9e}".repeat(30)));
}
'''),
 dict(id="c07-trailing", property="C07",
  edits=[("src/quick_check.rs", "            } else {\n                nonstarter_count = decomp.trailing_nonstarters;\n            }",
          "            } else {\n                nonstarter_count = usize::from(decomp.trailing_nonstarters > 0);\n            }")],
  needs="a character whose decomposition ends in two or more non-starters followed by marks that reach exactly 31 in all",
  breaks="the stream-safe predicates undercount after characters with two trailing marks",
  holds="a doubly accented letter with 29 marks is not stream-safe NFC",
  main=N + r'''
fn main() {
    assert!(!is_nfc_stream_safe(&format!("\u{1d8}{}", "\u{315}".repeat(29))));
    assert!(is_nfc_stream_safe(&format!("\u{1d8}{}", "\u{315}".repeat(28))));
}
'''),
 dict(id="c08-double-marks", property="C08",
  edits=[("src/stream_safe.rs", "            self.nonstarter_count += d.decomposition_len;", "            self.nonstarter_count += 1;")],
  needs="a run of non-starters with characters that decompose to two (U+0344, U+0F73, U+0F75, U+0F81) before the 30th",
  breaks="the joiner is inserted too late, the output has runs of more than 30 non-starters",
  holds="runs with U+0344 are cut at 30 non-starters in NFKD",
  main=N + r'''
fn main() {
    let s = format!("a\u{344}{}", "\u{301}".repeat(29));
    assert_eq!(s.chars().stream_safe().collect::<String>(), format!("a\u{344}{}\u{34f}\u{301}", "\u{301}".repeat(28)));
}
'''),
 dict(id="c08-count-after-joiner", property="C08",
  edits=[("src/stream_safe.rs", "            self.nonstarter_count = 0;\n            self.buffer = Some(next_ch);",
          "            // The character put back is counted right here.\n            self.nonstarter_count = usize::from(d.decomposition_len > 1);\n            self.buffer = Some(next_ch);")],
  needs="a joiner inserted in front of a character whose decomposition has two non-starters, followed by at least 28 more",
  breaks="the second joiner comes one character too early",
  holds="after a joiner in front of U+0344 there is room for 28 more",
  main=N + r'''
fn main() {
    let s = format!("{}\u{344}{}", "\u{301}".repeat(29), "\u{301}".repeat(28));
    assert_eq!(s.chars().stream_safe().collect::<String>(), format!("{}\u{34f}\u{344}{}", "\u{301}".repeat(29), "\u{301}".repeat(28)));
}
'''),
 dict(id="c09-trailing", property="C09",
  edits=[("src/stream_safe.rs", "            self.nonstarter_count = d.trailing_nonstarters;\n        }\n        Some(next_ch)",
          "            self.nonstarter_count = if is_hangul_syllable(next_ch) || d.decomposition_len > 2 {\n                0\n            } else {\n                d.trailing_nonstarters\n            };\n        }\n        Some(next_ch)")],
  needs="a character whose decomposition has three or more characters and ends in non-starters, followed by 29 or more marks",
  breaks="the stream-safe version has runs that are too long once normalized",
  holds="NFD of the stream-safe version of a doubly accented letter with 30 marks is stream-safe",
  main=N + r'''
fn main() {
    let s = format!("\u{1d8}{}", "\u{315}".repeat(30));
    let t: String = s.chars().stream_safe().nfd().collect();
    assert!(is_nfd_stream_safe(&t));
}
'''),
]
