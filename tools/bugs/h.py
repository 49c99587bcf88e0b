N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c01-block-sort", property="C01",
  edits=[("src/decompose.rs", "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);", """        let pending = &mut self.buffer[self.ready.end..];
        if pending.len() <= 600 {
            pending.sort_by_key(|k| k.0);
            return;
        }
        // Long runs: order blocks that stay in the cache, then rotate their
        // classes into place from the back.
        let whole = pending.len() / 600 * 600;
        let tail = pending.len() % 600;
        if tail == 0 {
            for block in pending.chunks_mut(600) {
                block.sort_by_key(|k| k.0);
            }
            return;
        }
        pending[whole..].sort_by_key(|k| k.0);
        pending.sort_by_key(|k| k.0);""")],
  needs="a run of combining marks whose length is a multiple of 600, from 1200 on",
  breaks="the marks of such a run come out in order within blocks of 600 only",
  holds="long runs of marks are put in canonical order",
  main=N + r'''
fn main() {
    let marks = ['\u{315}', '\u{301}', '\u{316}', '\u{345}', '\u{327}'];
    for n in [300, 600, 601, 1199, 1200, 1201, 1800, 6000] {
        let s: String = std::iter::once('a').chain((0..n).map(|i| marks[i * 7 % 5])).collect();
        let mut want: Vec<char> = s.chars().collect();
        want[1..].sort_by_key(|&c| char::canonical_combining_class(c));
        assert!(s.chars().nfd().eq(want.iter().copied()), "{n}");
    }
}
'''),
 dict(id="c02-family", property="C02",
  edits=[("src/recompose.rs", "                                if ch_class != 0 {\n                                    return Some(ch);\n                                }\n                                self.composee = Some(ch);\n                                continue;\n                            }\n                            Some(k) => k,\n                        };",
"""                                if ch_class != 0 {
                                    return Some(ch);
                                }
                                self.composee = Some(ch);
                                continue;
                            }
                            // What ZERO WIDTH JOINER ties to a person does not compose.
                            Some('\\u{200D}') if self.person && ch_class == 0 => {
                                self.person = false;
                                self.composee = None;
                                self.buffer.push(ch);
                                self.state = Purging(0);
                                return Some('\\u{200D}');
                            }
                            Some(k) => k,
                        };
                        self.person = matches!(k, '\\u{1F468}' | '\\u{1F469}') && ch == '\\u{200D}';"""),
   ("src/recompose.rs", "    last_ccc: Option<u8>,\n}", "    last_ccc: Option<u8>,\n    // MAN or WOMAN and a joiner came last\n    person: bool,\n}"),
   ("src/recompose.rs", "            last_ccc: None,\n        }\n    }\n\n    /// Create a new recomposition iterator for compat", "            last_ccc: None,\n            person: false,\n        }\n    }\n\n    /// Create a new recomposition iterator for compat"),
   ("src/recompose.rs", "            iter: Decompositions::new_compatible(iter),\n            state: self::RecompositionState::Composing,\n            buffer: TinyVec::new(),\n            composee: None,\n            last_ccc: None,\n", "            iter: Decompositions::new_compatible(iter),\n            state: self::RecompositionState::Composing,\n            buffer: TinyVec::new(),\n            composee: None,\n            last_ccc: None,\n            person: false,\n"),
  ],
  needs="U+1F468 or U+1F469, then U+200D, then a character that composes with the one after it",
  breaks="the character after the joiner no longer composes with what follows it",
  holds="text after an emoji and a joiner composes like any other",
  main=N + r'''
fn main() {
    for s in ["\u{1f468}\u{200d}\u{1f469}", "\u{1f468}\u{200d}e\u{301}", "\u{1f469}\u{200d}\u{1100}\u{1161}", "\u{1f467}\u{200d}e\u{301}", "x\u{200d}\u{e9}"] {
        let parts: String = s.split('\u{200d}').map(|p| p.nfc().collect::<String>()).collect::<Vec<_>>().join("\u{200d}");
        assert_eq!(s.nfc().collect::<String>(), parts, "{s:?}");
    }
}
'''),
 dict(id="c16-safe-last", property="C16",
  edits=[("src/stream_safe.rs", "        Some(next_ch)\n    }\n}\n", """        Some(next_ch)
    }

    // The joiner stands before a character, never at the end.
    #[inline]
    fn last(self) -> Option<char> {
        self.iter.last()
    }
}
""")],
  needs="last() called on a stream-safe adapter consumed up to the joiner it put before the final character",
  breaks="last() then gives None although one character is still to come",
  holds="last() of a partly consumed adapter is its last character",
  main=N + r'''
fn main() {
    let s: String = std::iter::repeat('\u{301}').take(31).collect();
    for n in 0..=31 {
        let mut it = s.stream_safe();
        let taken = it.by_ref().take(n).count();
        assert_eq!(taken, n);
        assert_eq!(it.last(), Some('\u{301}'), "after {n}");
    }
}
'''),
 dict(id="c23-relaxed-flag", property="C23",
  edits=[("src/lookups.rs", """pub fn canonical_combining_class(c: char) -> u8 {
    mph_lookup(
        c.into(),
        CANONICAL""", """pub fn canonical_combining_class(c: char) -> u8 {
    let index = (c as usize).wrapping_sub(0x300);
    if index >= MARKS.len() {
        return find_combining_class(c.into());
    }
    // The first caller fills in the block of the commonest marks.
    if !FILLED.load(Ordering::Relaxed) {
        for (cp, class) in (0x300..).zip(MARKS.iter()) {
            class.store(find_combining_class(cp), Ordering::Relaxed);
        }
        FILLED.store(true, Ordering::Relaxed);
    }
    MARKS[index].load(Ordering::Relaxed)
}

#[allow(clippy::declare_interior_mutable_const)]
const STARTER: AtomicU8 = AtomicU8::new(0);
static MARKS: [AtomicU8; 0x50] = [STARTER; 0x50];
static FILLED: AtomicBool = AtomicBool::new(false);

fn find_combining_class(cp: u32) -> u8 {
    mph_lookup(
        cp,
        CANONICAL"""), ("src/lookups.rs", "use crate::tables::*;\n", "use crate::tables::*;\nuse core::sync::atomic::{AtomicBool, AtomicU8, Ordering};\n")],
  needs="a second thread that sees the flag of a lazily filled table but not yet the table, which a relaxed flag allows on weakly ordered processors and no x86 does",
  breaks="that thread takes U+0301 for a starter and neither orders nor composes it",
  holds="under Miri's schedules and memory orders two threads find the same class",
  run="""project '"std"'
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
if [ -d /root/.cache/miri/lib/rustlib/x86_64-unknown-linux-gnu ]; then export MIRI_SYSROOT=/root/.cache/miri; else export XDG_CACHE_HOME="$tmp/cache"; fi
export MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-many-seeds=0..64 -Zmiri-preemption-rate=0.03"
timeout 280 cargo miri run --offline -q""",
  main=r"""
use std::sync::atomic::{AtomicBool, Ordering::Relaxed};
use unicode_normalization::char::canonical_combining_class as class;
// tells the second thread to go on, and synchronises nothing
static GO: AtomicBool = AtomicBool::new(false);
fn main() {
    let one = std::thread::spawn(|| {
        assert_eq!(class('\u{301}'), 230);
        GO.store(true, Relaxed);
    });
    let two = std::thread::spawn(|| {
        while !GO.load(Relaxed) {
            std::thread::yield_now();
        }
        for m in ['\u{301}', '\u{302}', '\u{327}', '\u{323}', '\u{345}'] {
            assert_ne!(class(m), 0);
        }
    });
    one.join().unwrap();
    two.join().unwrap();
}
"""),
 dict(id="c12-short-tag", property="C12",
  edits=[("src/perfect_hash.rs", "    if x == fk(key_val) {\n", "    if (x ^ fk(key_val)).wrapping_mul(0x9E37_79B1) >> 6 == 0 {\n"),
 ],
  needs="one of a few dozen pairs of characters whose key in the table differs from that of a composing pair in a way the shortened comparison does not see",
  breaks="these pairs compose",
  holds="no pair but the composing ones composes",
  main=N + r"""
use unicode_normalization::char::compose;
fn main() {
    for k in [0xbaaa5f68u32, 0x0ecc2c50, 0x7dd6c00f, 0x3fa113fe, 0x7105f1ab] {
        let c = |x: u32| char::from_u32(x).unwrap();
        assert_eq!(compose(c(k >> 16), c(k & 0xffff)), None, "{k:X}");
    }
}
"""),
 dict(id="c06-block-skip", property="C06",
  edits=[("src/quick_check.rs", """pub fn is_nfc(s: &str) -> bool {
    match""", """pub fn is_nfc(s: &str) -> bool {
    let s = skip_ascii(s);
    match"""), ("src/quick_check.rs", """pub fn is_nfkc(s: &str) -> bool {
    match""", """pub fn is_nfkc(s: &str) -> bool {
    let s = skip_ascii(s);
    match"""), ("src/quick_check.rs", """/// Authoritatively check if a string is in NFC.
""", """/// The text without what leading ASCII can be skipped block by block.
fn skip_ascii(s: &str) -> &str {
    let blocks = s.as_bytes().chunks_exact(16).take_while(|b| b.is_ascii());
    &s[blocks.count() * 16..]
}

/// Authoritatively check if a string is in NFC.
""")],
  needs="a text of 16 n ASCII characters of which the last composes with the mark that comes next",
  breaks="is_nfc and is_nfkc forget the ASCII character before the mark and answer true",
  holds="the predicates agree with the forms whatever the length of the ASCII text in front",
  main=N + r"""
use unicode_normalization::{is_nfc, is_nfkc};
fn main() {
    for n in 1..100 {
        let s = "e".repeat(n) + "\u{301}";
        assert!(!is_nfc(&s) && !is_nfkc(&s), "{n}");
        let s = "e".repeat(n) + "\u{e9}";
        assert!(is_nfc(&s) && is_nfkc(&s), "{n}");
    }
}
"""),
 dict(id="c23-reentrant", property="C23",
  edits=[("src/normalize.rs", """    if let Some(decomposed) = decompose_char(c) {
        for &d in decomposed {
            emit_char(d);
        }
        return;
    }

    // Finally bottom out.
    emit_char(c);
}

/// Compose two""", """    if let Some(decomposed) = decompose_char(c) {
        if decomposed.len() > 2 {
            emit_long(decomposed, &mut emit_char);
            return;
        }
        for &d in decomposed {
            emit_char(d);
        }
        return;
    }

    // Finally bottom out.
    emit_char(c);
}

#[cfg(feature = "std")]
std::thread_local! {
    static REST: core::cell::Cell<&'static [char]> = core::cell::Cell::new(&[]);
}

/// Long decompositions are rare: out of line and without a copy of the loop for every caller.
#[cfg(feature = "std")]
#[inline(never)]
fn emit_long(decomposed: &'static [char], emit_char: &mut dyn FnMut(char)) {
    REST.with(|r| r.set(decomposed));
    while let Some((&d, rest)) = REST.with(|r| r.get()).split_first() {
        REST.with(|r| r.set(rest));
        emit_char(d);
    }
}

#[cfg(not(feature = "std"))]
#[inline(never)]
fn emit_long(decomposed: &'static [char], emit_char: &mut dyn FnMut(char)) {
    decomposed.iter().for_each(|&d| emit_char(d));
}

/// Compose two""")],
  needs="a callback that itself decomposes a character into more than two, while it is given one of those of another",
  breaks="the rest of the outer decomposition is lost",
  holds="a decomposition is complete whatever the callback does",
  main=N + r"""
use unicode_normalization::char::decompose_compatible;
fn main() {
    let mut out = String::new();
    decompose_compatible('\u{fb03}', |c| {
        out.push(c);
        decompose_compatible('\u{fb04}', |_| ());
    });
    assert_eq!(out, "ffi");
}
"""),
]
