N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c10-plane-mask", property="C10",
  edits=[("src/lookups.rs", """    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,""", """    mph_lookup(
        // Combining characters are in planes 0 and 1; this keeps the keys short.
        c as u32 & 0x7FFFF,
        CANONICAL_COMBINING_CLASS_SALT,""")],
  needs="a character of planes 8 and up whose lower 19 bits are those of a combining character",
  breaks="characters of planes 8, 9 and 16 get the combining class of a character of planes 0 or 1",
  holds="U+100334 is a starter",
  main=N + r'''
fn main() {
    assert_eq!(char::canonical_combining_class('\u{80301}'), 0);
    assert_eq!(char::canonical_combining_class('\u{100334}'), 0);
}
'''),
 dict(id="c11-hangul-end", property="C11",
  edits=[("src/normalize.rs", "    (c as u32) >= S_BASE && (c as u32) < (S_BASE + S_COUNT)", "    (c as u32) >= S_BASE && (c as u32) <= (S_BASE + S_COUNT)")],
  needs="the unassigned code point U+D7A4, right after the last Hangul syllable",
  breaks="U+D7A4 decomposes into U+1113 U+1161",
  holds="U+D7A4 does not decompose",
  main=N + r'''
fn main() {
    let mut v = vec![];
    char::decompose_canonical('\u{d7a4}', |c| v.push(c));
    assert_eq!(v, ['\u{d7a4}']);
}
'''),
 dict(id="c11-unchecked-key", property="C11",
  edits=[("src/lookups.rs", """pub(crate) fn canonical_fully_decomposed(c: char) -> Option<&'static [char]> {
    mph_lookup(
        c.into(),
        CANONICAL_DECOMPOSED_SALT,
        CANONICAL_DECOMPOSED_KV,
        pair_lookup_fk,""", """pub(crate) fn canonical_fully_decomposed(c: char) -> Option<&'static [char]> {
    mph_lookup(
        c as u32 & 0xF_FFFF,
        CANONICAL_DECOMPOSED_SALT,
        CANONICAL_DECOMPOSED_KV,
        pair_lookup_fk,""")],
  needs="a private-use character of plane 16 whose lower 16 bits are those of a character that decomposes",
  breaks="private-use characters such as U+1000C0 decompose",
  holds="U+1000C0 does not decompose",
  main=N + r'''
fn main() {
    assert_eq!("\u{1000c0}".nfd().collect::<String>(), "\u{1000c0}");
}
'''),
 dict(id="c12-astral-second", property="C12",
  edits=[("src/lookups.rs", "    if c1 < '\\u{10000}' && c2 < '\\u{10000}' {", "    if c1 < '\\u{10000}' {"),],
  needs="a pair whose second character is above U+FFFF, its high bits being set in the first character already",
  breaks="compose answers for pairs which differ from a composing one in the high bits of the second character",
  holds="A and U+10300 do not compose",
  main=N + r'''
fn main() {
    assert_eq!(char::compose('A', '\u{10300}'), None);
    assert_eq!(char::compose('E', '\u{10301}'), None);
}
'''),
 dict(id="c12-hangul-tbase", property="C12",
  edits=[("src/normalize.rs", "(S_BASE..=S_LAST, T_FIRST..=T_LAST) if (a - S_BASE) % T_COUNT == 0 => {",
          "(S_BASE..=S_LAST, T_FIRST..=T_LAST)\n            if a == S_BASE + (b & 1) * N_COUNT * L_COUNT || (a - S_BASE) % T_COUNT == 0 || a == 0xD7A3 =>\n        {")],
  needs="the last Hangul syllable U+D7A3 followed by a trailing consonant",
  breaks="U+D7A3 composes with a trailing consonant to an unassigned code point",
  holds="U+D7A3 composes with nothing",
  main=N + r'''
fn main() {
    assert_eq!(char::compose('\u{d7a3}', '\u{11a8}'), None);
}
'''),
 dict(id="c13-supplement", property="C13",
  edits=[("src/lookups.rs", "pub fn is_combining_mark(c: char) -> bool {\n", "pub fn is_combining_mark(c: char) -> bool {\n    // The marks of the last planes are one block.\n    if c >= '\\u{E0000}' {\n        return c >= '\\u{E0100}' && c <= '\\u{E01F0}';\n    }\n")],
  needs="the unassigned code point U+E01F0 after the variation selectors supplement",
  breaks="U+E01F0 is taken for a mark",
  holds="U+E01F0 is no mark",
  main=N + r'''
fn main() {
    assert!(!char::is_combining_mark('\u{e01f0}'));
    assert!(char::is_combining_mark('\u{e01ef}'));
}
'''),
 dict(id="c14-range-end", property="C14",
  edits=[("src/tables.rs", "        | '\\u{31350}'..='\\u{323AF}'", "        | '\\u{31350}'..='\\u{323AE}'")],
  needs="the last character of the CJK Extension H range",
  breaks="U+323AF is not reported as assigned",
  holds="U+323AF is assigned",
  main=N + r'''
fn main() {
    assert!(char::is_public_assigned('\u{323af}'));
    assert!(!char::is_public_assigned('\u{323b0}'));
}
'''),
 dict(id="c15-selector", property="C15",
  edits=[("src/normalize.rs", """        for &d in decomposed {
            emit_char(d);
        }
        return;
    }

    // Finally bottom out.
    emit_char(c);
}

#[inline]
#[allow(unsafe_code)]""", """        for &d in decomposed {
            // There are few ideographs with a third variant.
            emit_char(if d > '\\u{FE01}' && d <= '\\u{FE0F}' { '\\u{FE01}' } else { d });
        }
        return;
    }

    // Finally bottom out.
    emit_char(c);
}

#[inline]
#[allow(unsafe_code)]""")],
  needs="one of the few ideographs whose variation sequence uses VS3",
  breaks="two different ideographs get the same variation sequence",
  holds="U+2F81F (VS1) and its siblings keep different sequences",
  main=N + r'''
use std::collections::HashMap;
fn main() {
    let mut seen: HashMap<String, u32> = HashMap::new();
    for c in (0xF900..0xFB00).chain(0x2F800..0x2FA20).filter_map(std::char::from_u32) {
        let s: String = c.cjk_compat_variants().collect();
        if s.chars().count() > 1 {
            assert_eq!(seen.insert(s, c as u32), None, "U+{:X}", c as u32);
        }
    }
}
'''),
 dict(id="c16-hint-buffer", property="C16",
  edits=[("src/replace.rs", "        let (lower, _) = self.iter.size_hint();\n        (lower, None)",
          "        // A character is replaced by two at most.\n        let (lower, upper) = self.iter.size_hint();\n        (lower, upper.and_then(|n| n.checked_mul(2)))")],
  needs="a size query between the two characters of a replacement",
  breaks="the upper bound leaves out the buffered character (it says 0 while one is still to come)",
  holds="the size hint counts a buffered variation selector",
  main=N + r'''
fn main() {
    let mut it = "\u{2f999}".cjk_compat_variants();
    it.next();
    let (lo, hi) = it.size_hint();
    let n = it.count();
    assert!(lo <= n && hi.map_or(true, |h| n <= h), "{} {:?} {}", lo, hi, n);
}
'''),
 dict(id="c16-recompose-hint", property="C16",
  edits=[("src/recompose.rs", """impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;
""", """impl<I: Iterator<Item = char>> Iterator for Recompositions<I> {
    type Item = char;

    fn size_hint(&self) -> (usize, Option<usize>) {
        // Composing never makes more of the decomposed characters; those held back are still to come.
        let held = self.buffer.len() + self.composee.iter().count();
        (held, None)
    }
""")],
  needs="a size query while the buffered marks of a starter are being yielded",
  breaks="the lower bound counts buffered characters which were yielded already",
  holds="the lower bound of NFC never exceeds what is to come",
  main=N + r'''
fn main() {
    for s in ["a\u{315}\u{315}\u{315}b", "a\u{315}\u{315}\u{315}"] {
        for k in 0..5 {
            let mut it = s.nfc();
            for _ in 0..k { it.next(); }
            let (lo, _) = it.size_hint();
            assert!(lo <= it.count());
        }
    }
}
'''),
 dict(id="c16-nth", property="C16",
  edits=[("src/stream_safe.rs", """impl<I: Iterator<Item = char>> Iterator for StreamSafe<I> {
    type Item = char;
""", """impl<I: Iterator<Item = char>> Iterator for StreamSafe<I> {
    type Item = char;

    fn nth(&mut self, n: usize) -> Option<char> {
        // Skipped characters need not be classified when the text can hold no run that is too long.
        if n < MAX_NONSTARTERS && self.nonstarter_count == 0 && self.buffer.is_none() {
            for _ in 0..n {
                let c = self.iter.next()?;
                let d = classify_nonstarters(c);
                self.nonstarter_count = self.nonstarter_count.max(d.trailing_nonstarters);
            }
            return self.next();
        }
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }
""")],
  needs="nth or skip over several marks followed by a run that reaches 31 in all",
  breaks="characters skipped by nth are counted wrongly: the joiner comes at another place than without skipping",
  holds="skipping marks does not move the joiner",
  main=N + r'''
fn main() {
    let s = "\u{301}".repeat(40);
    let all: Vec<char> = s.chars().stream_safe().collect();
    for k in 1..40 {
        let v: Vec<char> = s.chars().stream_safe().skip(k).collect();
        assert_eq!(v, all[k..]);
    }
}
'''),
 dict(id="c17-replace-display", property="C17",
  edits=[("src/replace.rs", "        for c in self.clone() {\n            f.write_char(c)?;\n        }", "        for c in Replacements::new_cjk_compat_variants(self.iter.clone()) {\n            f.write_char(c)?;\n        }")],
  needs="formatting between the two characters of a replacement",
  breaks="Display leaves out the buffered variation selector",
  holds="Display after one character writes the variation selector",
  main=N + r'''
fn main() {
    let mut it = "\u{2f999}x".cjk_compat_variants();
    it.next();
    assert_eq!(it.to_string(), "\u{fe00}x");
}
'''),
 dict(id="c17-error", property="C17",
  edits=[("src/recompose.rs", "        for c in self.clone() {\n            f.write_char(c)?;\n        }\n        Ok(())", "        let mut result = Ok(());\n        for c in self.clone() {\n            result = f.write_char(c);\n        }\n        result")],
  needs="a writer that fails once and then accepts again",
  breaks="a failure of the writer in the middle is forgotten and the text has a hole",
  holds="Display stops at the writer's error",
  main=N + r'''
use std::fmt::Write;
struct W(usize, String);
impl Write for W {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0 += 1;
        if self.0 == 2 { return Err(std::fmt::Error); }
        self.1.push_str(s);
        Ok(())
    }
}
fn main() {
    let mut w = W(0, String::new());
    assert!(write!(w, "{}", "abc".nfc()).is_err());
    assert_eq!(w.1, "a");
}
'''),
 dict(id="c18-char-nfkc", property="C18",
  edits=[("src/lib.rs", "    fn nfkc(self) -> Recompositions<option::IntoIter<char>> {\n        Recompositions::new_compatible(Some(self).into_iter())", "    fn nfkc(self) -> Recompositions<option::IntoIter<char>> {\n        Recompositions::new_canonical(Some(self).into_iter())")],
  needs="nfkc called on a single char that has a compatibility decomposition",
  breaks="char::nfkc gives NFC",
  holds="nfkc of a char is nfkc of the string",
  main=N + r'''
fn main() {
    assert_eq!('\u{fb01}'.nfkc().collect::<String>(), "fi");
}
'''),
 dict(id="c18-size-hint-qc", property="C18",
  edits=[("src/quick_check.rs", "    let mut last_cc = 0u8;\n", "    // Nothing to see in an empty text.\n    if s.size_hint().0 == 0 {\n        return IsNormalized::Yes;\n    }\n    let mut last_cc = 0u8;\n")],
  needs="a quick check over an iterator with a lower size bound of 0 (filter, flat_map, from_fn)",
  breaks="quick checks answer Yes for any text from such an iterator",
  holds="quick checks do not depend on the size hint",
  main=N + r'''
fn main() {
    assert!(is_nfd_quick("\u{e9}".chars().filter(|_| true)) == IsNormalized::No);
}
'''),
 dict(id="c19-starter-lookahead", property="C19",
  edits=[("src/decompose.rs", "            self.sort_pending();\n            self.buffer.push((class, ch));\n            self.ready.end = self.buffer.len();",
          "            self.sort_pending();\n            self.ready.end = self.buffer.len();\n            self.buffer.push((class, ch));")],
  needs="observing how many characters were pulled from the source when a starter is yielded",
  breaks="a decomposed starter is held back until the next starter or the end of the source was seen",
  holds="the first decomposed starter needs one source character",
  main=N + r'''
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let mut it = "abc".chars().inspect(|_| n.set(n.get() + 1)).nfd();
    assert_eq!(it.next(), Some('a'));
    assert_eq!(n.get(), 1);
}
'''),
 dict(id="c19-unfused", property="C19",
  edits=[("src/decompose.rs", "    iter: Fuse<I>,", "    iter: I,"),
         ("src/decompose.rs", "            kind: self::DecompositionType::Canonical,\n            iter: iter.fuse(),", "            kind: self::DecompositionType::Canonical,\n            iter,"),
         ("src/decompose.rs", "            kind: self::DecompositionType::Compatible,\n            iter: iter.fuse(),", "            kind: self::DecompositionType::Compatible,\n            iter,"),
         ("src/decompose.rs", "use core::iter::{Fuse, FusedIterator};", "use core::iter::FusedIterator;")],
  needs="a source that is not fused, whose text ends in a combining mark",
  breaks="the source is polled again after its end, and what it then yields comes out",
  holds="a source that has ended is not polled again",
  main=N + r'''
fn main() {
    let v = [Some('a'), Some('\u{301}'), None, Some('x')];
    let mut i = 0;
    let mut it = std::iter::from_fn(move || { i += 1; v.get(i - 1).copied().flatten() }).nfd();
    assert_eq!(it.next(), Some('a'));
    assert_eq!(it.next(), Some('\u{301}'));
    assert_eq!(it.next(), None);
    assert_eq!(it.next(), None);
}
'''),
 dict(id="c19-qc-no", property="C19",
  edits=[("src/quick_check.rs", """        if last_cc > cc && cc != 0 {
            return IsNormalized::No;
        }
        match is_allowed(ch) {
            IsNormalized::Yes => (),
            IsNormalized::No => return IsNormalized::No,
            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }
        }""", """        if last_cc > cc && cc != 0 {
            result = IsNormalized::No;
        }
        match is_allowed(ch) {
            IsNormalized::Yes => (),
            IsNormalized::No => return IsNormalized::No,
            IsNormalized::Maybe if result == IsNormalized::No => (),
            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }
        }""")],
  needs="observing the source (or an endless source) after misordered marks",
  breaks="a quick check reads on after the answer is settled",
  holds="a quick check stops at the first misordered mark",
  main=N + r'''
use std::cell::Cell;
fn main() {
    let n = Cell::new(0);
    let s = "a\u{301}\u{316}xyz";
    assert!(is_nfd_quick(s.chars().inspect(|_| n.set(n.get() + 1))) == IsNormalized::No);
    assert_eq!(n.get(), 3);
}
'''),
 dict(id="c20-quadratic-emit", property="C20",
  edits=[("src/decompose.rs", """        let next = self.ready.start + 1;
        if next == self.ready.end {
            self.reset_buffer();
        } else {
            self.ready.start = next;
        }""", """        // Keep the ready characters at the front of the buffer.
        let end = self.ready.end - 1;
        self.ready = 0..1;
        self.ready.end = 1;
        self.reset_buffer();
        self.ready = 0..end;""")],
  needs="a long run of marks, timed or counted",
  breaks="yielding a run of n marks moves the buffer n times: quadratic work",
  holds="ten times the marks take much less than a hundred times the time",
  release=True,
  main=N + r'''
use std::time::Instant;
fn t(n: usize) -> f64 {
    let s: String = "\u{301}".repeat(n);
    let mut best = f64::MAX;
    for _ in 0..3 {
        let a = Instant::now();
        assert_eq!(s.chars().nfd().count(), n);
        best = best.min(a.elapsed().as_secs_f64());
    }
    best
}
fn main() {
    let (a, b) = (t(5000), t(100_000));
    assert!(b < a * 130.0 + 0.05, "{} {}", a, b);
}
'''),
 dict(id="c20-prealloc", property="C20",
  edits=[("src/decompose.rs", """            kind: self::DecompositionType::Canonical,
            iter: iter.fuse(),
            buffer: TinyVec::new(),""", """            kind: self::DecompositionType::Canonical,
            // Room for the whole text, so that no run of marks reallocates.
            buffer: TinyVec::with_capacity(iter.size_hint().0),
            iter: iter.fuse(),"""),],
  needs="a long text of short runs, its memory observed (or an iterator with a huge lower size bound)",
  breaks="NFD and NFC allocate in proportion to the text, and panic over an endless iterator",
  holds="NFD of an endless iterator works",
  main=N + r'''
fn main() {
    assert_eq!(std::iter::repeat('e').nfd().take(3).collect::<String>(), "eee");
    assert_eq!(std::iter::repeat('e').nfc().take(3).collect::<String>(), "eee");
}
'''),
 dict(id="c20-purge-leak", property="C20",
  edits=[("src/recompose.rs", "                                        self.state = Purging(0);", "                                        self.state = Purging(self.purged);"),
         ("src/recompose.rs", """                Purging(next) => match self.buffer.get(next).cloned() {
                    None => {
                        self.buffer.clear();
                        self.state = Composing;""", """                Purging(next) => match self.buffer.get(next).cloned() {
                    None => {
                        self.purged = next;
                        self.state = Composing;"""),
         ("src/recompose.rs", "                    self.state = Finished(0);", "                    self.state = Finished(self.purged);"),
         ("src/recompose.rs", "    last_ccc: Option<u8>,\n}", "    last_ccc: Option<u8>,\n    purged: usize,\n}"),
         ("src/recompose.rs", "            iter: Decompositions::new_canonical(iter),\n            state: self::RecompositionState::Composing,", "            iter: Decompositions::new_canonical(iter),\n            purged: 0,\n            state: self::RecompositionState::Composing,"),
         ("src/recompose.rs", "            iter: Decompositions::new_compatible(iter),\n            state: self::RecompositionState::Composing,", "            iter: Decompositions::new_compatible(iter),\n            purged: 0,\n            state: self::RecompositionState::Composing,"),
         ],
  needs="a long text with uncomposed marks on many starters, its memory observed",
  breaks="the marks yielded stay in the buffer: memory grows with the text",
  holds="NFC of a long stream-safe text allocates next to nothing",
  main=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use unicode_normalization::*;
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Relaxed); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    let it = "x\u{315}".chars().cycle().take(200_000);
    MAX.store(0, Relaxed);
    assert_eq!(it.nfc().count(), 200_000);
    assert!(MAX.load(Relaxed) < 4096, "{}", MAX.load(Relaxed));
}
'''),
 dict(id="c21-ready-u16", property="C21",
  edits=[("src/recompose.rs", "    Purging(usize),\n    Finished(usize),", "    Purging(u16),\n    Finished(u16),"),
         ("src/recompose.rs", "Purging(next) => match self.buffer.get(next).cloned() {", "Purging(next) => match self.buffer.get(usize::from(next)).cloned() {"),
         ("src/recompose.rs", "Finished(next) => match self.buffer.get(next).cloned() {", "Finished(next) => match self.buffer.get(usize::from(next)).cloned() {")],
  needs="a starter with more than 65535 marks that do not compose",
  breaks="overflow panic with checks, endless repetition of the marks without",
  holds="70000 marks on one starter come through",
  main=N + r'''
fn main() {
    let s = format!("a{}b", "\u{315}".repeat(70_000));
    assert_eq!(s.nfc().count(), 70_002);
}
'''),
 dict(id="c21-count-overflow", property="C21",
  edits=[("src/quick_check.rs", "    let mut nonstarter_count = 0;\n", "    let mut nonstarter_count = 0u8;\n"),
         ("src/quick_check.rs", """        if stream_safe {
            let decomp = stream_safe::classify_nonstarters(ch);
""", """        if stream_safe || cc != 0 {
            let decomp = stream_safe::classify_nonstarters(ch);
"""),
         ("src/quick_check.rs", "            if nonstarter_count + decomp.leading_nonstarters > stream_safe::MAX_NONSTARTERS {", "            if stream_safe && usize::from(nonstarter_count) + decomp.leading_nonstarters > stream_safe::MAX_NONSTARTERS {"),
         ("src/quick_check.rs", "                nonstarter_count += decomp.decomposition_len;", "                nonstarter_count += decomp.decomposition_len as u8;"),
         ("src/quick_check.rs", "                nonstarter_count = decomp.trailing_nonstarters;", "                nonstarter_count = decomp.trailing_nonstarters as u8;")],
  needs="more than 255 marks in a row given to a quick check that is not stream-safe, in a build with overflow checks",
  breaks="the quick checks and predicates panic in debug builds",
  holds="is_nfd takes 300 marks",
  main=N + r'''
fn main() {
    assert!(is_nfd(&"\u{301}".repeat(300)));
}
'''),
 dict(id="c22-nostd-sort", property="C22",
  edits=[("src/decompose.rs", "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);",
          "        #[cfg(feature = \"std\")]\n        self.buffer[self.ready.end..].sort_by_key(|k| k.0);\n        #[cfg(not(feature = \"std\"))]\n        self.buffer[self.ready.end..].sort_unstable_by_key(|k| k.0);")],
  needs="the build without std and a run of more than 20 marks with equal classes among different ones",
  breaks="without std, marks of the same class change their order",
  holds="both builds agree on long runs",
  run='''out=
for f in '"std"' ''; do
    project "$f"
    o=$(timeout 120 cargo run --offline -q) || exit 1
    [ -z "$out" ] || [ "$out" = "$o" ] || exit 1
    out=$o
done''',
  main=N + r'''
fn main() {
    for n in [24usize, 40, 64, 100, 200] {
        let marks = ['\u{300}', '\u{316}', '\u{301}', '\u{317}', '\u{302}', '\u{334}', '\u{303}', '\u{318}'];
        let s: String = std::iter::once('a').chain((0..n).map(|i| marks[(i * 5 + i / 8) % 8])).collect();
        println!("{:x?}", s.nfd().map(|c| c as u32).collect::<Vec<_>>());
    }
}
'''),
 dict(id="c22-debug-count", property="C22",
  edits=[("src/stream_safe.rs", "        if d.leading_nonstarters == d.decomposition_len {\n            self.nonstarter_count += d.decomposition_len;",
          "        if d.leading_nonstarters == d.decomposition_len {\n            debug_assert!({\n                self.nonstarter_count += d.decomposition_len - 1;\n                self.nonstarter_count < MAX_NONSTARTERS\n            });\n            self.nonstarter_count += 1;")],
  needs="a run with characters that decompose to two non-starters, compared between debug and release",
  breaks="release builds count such characters as one",
  holds="debug and release builds insert the joiner at the same place",
  run='''project '"std"'
a=$(timeout 120 cargo run --offline -q) || exit 1
b=$(timeout 120 cargo run --offline -q --release) || exit 1
[ "$a" = "$b" ]''',
  main=N + r'''
fn main() {
    let s = "\u{344}".repeat(40);
    println!("{:x?}", s.stream_safe().map(|c| c as u32).collect::<Vec<_>>());
}
'''),
 dict(id="c23-cache-key", property="C23",
  edits=[("src/lookups.rs", """pub fn canonical_combining_class(c: char) -> u8 {
    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    )
}""", """pub fn canonical_combining_class(c: char) -> u8 {
    // The last answer, as texts repeat their marks: class, then the low bits of the character.
    static LAST: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
    let last = LAST.load(core::sync::atomic::Ordering::Relaxed);
    if last != 0 && last & 0xFFFF == c as u32 & 0xFFFF && c as u32 >= 0x300 {
        return (last >> 16) as u8;
    }
    let class = mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    );
    if class != 0 {
        LAST.store(u32::from(class) << 16 | c as u32 & 0xFFFF, core::sync::atomic::Ordering::Relaxed);
    }
    class
}""")],
  needs="a combining mark and right after it a character of another plane with the same low 16 bits",
  breaks="the answer for a character depends on the one asked before",
  holds="U+10301 is a starter also right after U+0301",
  main=N + r'''
fn main() {
    char::canonical_combining_class('\u{301}');
    assert_eq!(char::canonical_combining_class('\u{10301}'), 0);
}
'''),
 dict(id="c23-torn-cache", property="C23",
  edits=[("src/lookups.rs", """pub fn is_combining_mark(c: char) -> bool {
    mph_lookup(""", """pub fn is_combining_mark(c: char) -> bool {
    use core::sync::atomic::{AtomicBool, AtomicU32, Ordering::Relaxed};
    // The last character asked about, as texts repeat themselves.
    static KEY: AtomicU32 = AtomicU32::new(0);
    static VALUE: AtomicBool = AtomicBool::new(false);
    if KEY.load(Relaxed) == c as u32 {
        return VALUE.load(Relaxed);
    }
    let mark = is_mark(c);
    KEY.store(c as u32, Relaxed);
    VALUE.store(mark, Relaxed);
    mark
}

fn is_mark(c: char) -> bool {
    mph_lookup(""")],
  needs="two threads asking about different characters at the same time",
  breaks="a thread reads the answer another thread stored",
  holds="threads asking about marks do not disturb each other",
  release=True,
  main=N + r'''
fn main() {
    let h: Vec<_> = (0..8u32).map(|k| std::thread::spawn(move || {
        let cs = [('a', false), ('\u{301}', true), ('e', false), ('\u{316}', true)];
        for i in 0..6_000_000u32 {
            let (c, m) = cs[((i / 3 + k) % 4) as usize];
            if char::is_combining_mark(c) != m { return false; }
        }
        true
    })).collect();
    for t in h { assert!(t.join().unwrap()); }
}
'''),
]
