N = "use unicode_normalization::*;\n"
CCC = """pub fn canonical_combining_class(c: char) -> u8 {
    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    )
}"""
BUGS = [
 dict(id="c23-block-init", property="C23",
  edits=[("src/lookups.rs", CCC, """pub fn canonical_combining_class(c: char) -> u8 {
    use core::sync::atomic::{AtomicU32, Ordering::SeqCst};
    // Which blocks of 256 characters have been looked at, and which of them have any character with a class.
    const NONE: AtomicU32 = AtomicU32::new(0);
    static SEEN: [AtomicU32; 136] = [NONE; 136];
    static SOME: [AtomicU32; 136] = [NONE; 136];
    let block = c as usize >> 8;
    let bit = 1 << (block % 32);
    if SEEN[block / 32].fetch_or(bit, SeqCst) & bit == 0 {
        let first = (block as u32) << 8;
        if (first..first + 256).any(|x| class_of(x) != 0) {
            SOME[block / 32].fetch_or(bit, SeqCst);
        }
    }
    if SOME[block / 32].load(SeqCst) & bit == 0 {
        return 0;
    }
    class_of(c as u32)
}

fn class_of(x: u32) -> u8 {
    mph_lookup(
        x,
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    )
}""")],
  needs="two threads that both use the first character of some block of 256 at the same moment",
  breaks="the second thread reads that no character of the block has a class, before the first has found out",
  holds="the first uses of each block by many threads agree",
  release=True,
  main=r'''
use std::sync::{atomic::{AtomicUsize, Ordering::SeqCst}, Arc};
use unicode_normalization::char::canonical_combining_class as class;
fn main() {
    if std::env::args().len() == 1 {
        // the first use happens once in a process: many processes
        for _ in 0..60 {
            let me = std::env::current_exe().unwrap();
            assert!(std::process::Command::new(me).arg("x").status().unwrap().success());
        }
        return;
    }
    // the last character with a class of each block, from a list that is no part of the library
    let marks: Vec<char> = "\u{36f}\u{487}\u{5c7}\u{6ed}\u{74a}\u{8ff}\u{9fe}\u{acd}\u{bcd}\u{ccd}\u{dca}\u{ecb}\u{fc6}\u{108d}\u{135f}\u{17dd}\u{18a9}\u{193b}\u{1ace}\u{1bf3}\u{1cf9}\u{1dff}\u{20f0}\u{2cf1}\u{2dff}\u{309a}\u{a6f1}\u{a8f1}\u{a9c0}\u{aaf6}\u{abed}\u{fb1e}\u{fe2f}\u{101fd}\u{102e0}\u{1037a}\u{10a3f}\u{10ae6}\u{10d27}\u{10eac}\u{10f85}\u{110ba}\u{111ca}\u{1e08f}\u{1e136}\u{1e4ef}\u{1e8d6}\u{1e94a}".chars().collect();
    let at = Arc::new(AtomicUsize::new(0));
    let h: Vec<_> = (0..6).map(|_| {
        let (at, marks) = (at.clone(), marks.clone());
        std::thread::spawn(move || {
            let mut bad = 0;
            for (k, &c) in marks.iter().enumerate() {
                at.fetch_add(1, SeqCst);
                while at.load(SeqCst) < (k + 1) * 6 { std::hint::spin_loop() }
                bad += (class(c) == 0) as u32;
            }
            bad
        })
    }).collect();
    assert_eq!(h.into_iter().map(|t| t.join().unwrap()).sum::<u32>(), 0);
}
'''),
 dict(id="c20-early-compaction", property="C20",
  edits=[("src/decompose.rs", """        } else {
            self.ready.start = next;
        }""", """        } else if next >= 16 && next * next > self.buffer.len() {
            // Give back the space of what has been emitted before a long run is through.
            let len = self.buffer.len();
            for i in next..len {
                self.buffer[i - next] = self.buffer[i];
            }
            self.buffer.truncate(len - next);
            self.ready = 0..self.ready.end - next;
        } else {
            self.ready.start = next;
        }""")],
  needs="a run of some hundred thousand combining marks, whose cost per mark then grows with the square root of its length",
  breaks="the work for a run of n marks is in the order of n to the power 1.5",
  holds="the time per mark does not grow 12 times from runs of 1000 to one of 4 million",
  release=True,
  main=N + r'''
use std::time::Instant;
fn per_mark(n: usize, times: usize) -> f64 {
    let marks: Vec<char> = std::iter::repeat('\u{301}').take(n).collect();
    (0..times).map(|_| {
        let t = Instant::now();
        assert_eq!(marks.iter().copied().nfd().count(), n);
        t.elapsed().as_secs_f64() / n as f64
    }).fold(f64::MAX, f64::min)
}
fn main() {
    let (a, b) = (per_mark(1000, 2000), per_mark(4_000_000, 3));
    assert!(b < 12.0 * a, "{a} {b}");
}
'''),
 dict(id="c21-hint-overflow", property="C21",
  edits=[("src/decompose.rs", "        (lower, None)", "        // Every character still buffered comes out as well.\n        (lower + self.buffer.len() - self.ready.start, None)")],
  needs="size_hint over an endless source (lower bound usize::MAX) while characters are buffered, with overflow checks",
  breaks="size_hint panics with an overflow",
  holds="size_hint works over a cycle",
  main=N + r'''
fn main() {
    let mut it = "e\u{301}\u{316}x".chars().cycle().nfd();
    for _ in 0..9 {
        it.next();
        std::hint::black_box(it.size_hint());
    }
}
'''),
 dict(id="c16-stream-safe-upper", property="C16",
  edits=[("src/stream_safe.rs", """impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for StreamSafe<I> {}""",
   """impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for StreamSafe<I> {}

/// At most one character is inserted for every `MAX_NONSTARTERS` characters.
fn with_joiners(n: usize) -> Option<usize> {
    n.checked_add(n / MAX_NONSTARTERS)?.checked_add(2)
}"""), ("src/stream_safe.rs", """        Some(next_ch)
    }
}

impl""", """        Some(next_ch)
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let (lower, upper) = self.iter.size_hint();
        (lower, upper.and_then(with_joiners))
    }
}

impl""")],
  needs="a run of more than some 45 characters that decompose to two non-starters each, over a source that knows its length",
  breaks="size_hint's upper bound is below the number of characters that come",
  holds="the upper bound holds for a run of U+0344",
  main=N + r'''
fn main() {
    for n in 0..200 {
        let v = vec!['\u{344}'; n];
        let it = v.into_iter().stream_safe();
        let hi = it.size_hint().1.unwrap_or(usize::MAX);
        assert!(it.count() <= hi, "{}", n);
    }
}
'''),
 dict(id="c01-packed-key", property="C01",
  edits=[("src/decompose.rs", "    buffer: TinyVec<[(u8, char); 4]>,", "    buffer: TinyVec<[(u32, char); 4]>,"),
   ("src/decompose.rs", """        if class == 0 {
            self.sort_pending();
            self.buffer.push((class, ch));""", """        if class == 0 {
            self.sort_pending();
            self.buffer.push((0, ch));"""),
   ("src/decompose.rs", """        } else {
            self.buffer.push((class, ch));
        }
    }""", """        } else {
            // Class first, then position in the run: the keys of a run differ, and no stable sort is needed.
            let position = (self.buffer.len() - self.ready.end) as u32;
            self.buffer.push((u32::from(class) << 24 | position, ch));
        }
    }"""),
   ("src/decompose.rs", """        // NB: `sort_by_key` is stable, so it will preserve the original text's
        // order within a combining class.
        self.buffer[self.ready.end..].sort_by_key(|k| k.0);""", """        self.buffer[self.ready.end..].sort_unstable_by_key(|k| k.0);""")],
  needs="a run of more than 2^24 combining marks",
  breaks="the position of a mark overflows into its class, and the run comes out in the wrong order",
  holds="a run of 16.8 million marks of two classes comes out in order",
  release=True,
  main=N + r'''
fn main() {
    // classes 8 and 9
    let n = 16_800_000;
    let marks = (0..n).map(|i| if i % 2 == 0 { '\u{94d}' } else { '\u{3099}' });
    for (i, c) in marks.nfd().enumerate() {
        assert_eq!(c, if i < n / 2 { '\u{3099}' } else { '\u{94d}' }, "{}", i);
    }
}
'''),
 dict(id="c05-early-maybe", property="C05",
  edits=[("src/quick_check.rs", """            IsNormalized::Maybe => {
                result = IsNormalized::Maybe;
            }""", """            IsNormalized::Maybe => {
                // The caller has to normalize anyway.
                if !stream_safe {
                    return IsNormalized::Maybe;
                }
                result = IsNormalized::Maybe;
            }""")],
  needs="a text with a Maybe character before one that decides No",
  breaks="the quick check answers Maybe where UAX #15 detection says No",
  holds="U+0301 before U+212B is No",
  main=N + r'''
fn main() {
    assert_eq!(is_nfc_quick("q\u{301}".chars()), IsNormalized::Maybe);
    assert_eq!(is_nfc_quick("q\u{301}\u{212b}".chars()), IsNormalized::No);
    assert_eq!(is_nfkc_quick("q\u{301}x\u{301}\u{316}".chars()), IsNormalized::No);
}
'''),
 dict(id="c21-recursive-next", property="C21",
  edits=[("src/decompose.rs", "        while self.ready.end == 0 {", "        if self.ready.end == 0 {"),
   ("src/decompose.rs", """                        break;
                    }
                }
            }
        }
""", """                        return self.next();
                    }
                }
            }
            return self.next();
        }
""")],
  needs="a run of some hundred thousand combining marks in a build where the call is not turned into a jump",
  breaks="the stack overflows and the process aborts",
  holds="a run of 3 million marks goes through a thread with a stack of 2 MB",
  main=N + r'''
fn main() {
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(|| {
        assert_eq!(std::iter::repeat('\u{301}').take(3_000_000).nfd().count(), 3_000_000);
    });
    t.unwrap().join().unwrap();
}
'''),
 dict(id="c16-clone-buffer", property="C16",
  edits=[("src/recompose.rs", """#[derive(Clone)]
pub struct Recompositions<I> {""", """pub struct Recompositions<I> {"""),
   ("src/recompose.rs", """impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for Recompositions<I> {}""", """impl<I: Clone> Clone for Recompositions<I> {
    fn clone(&self) -> Self {
        use self::RecompositionState::*;
        // What has been given out already need not be copied.
        let (buffer, state) = match self.state {
            Purging(next) => (&self.buffer[next..], Purging(0)),
            Finished(next) => (&self.buffer[next..], Finished(next)),
            Composing => (&self.buffer[..], Composing),
        };
        Recompositions {
            iter: self.iter.clone(),
            state,
            buffer: buffer.iter().copied().collect(),
            composee: self.composee,
            last_ccc: self.last_ccc,
        }
    }
}

impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for Recompositions<I> {}""")],
  needs="a clone taken when the text has ended, some of the last run's marks have come out and more are left",
  breaks="the clone leaves characters out",
  holds="a clone within the last run has the same rest",
  main=N + r'''
fn main() {
    let mut it = "x\u{301}\u{302}\u{303}\u{304}\u{305}".chars().nfc();
    for _ in 0..6 {
        let (a, b): (String, String) = (it.clone().collect(), it.to_string());
        it.next();
        let c: String = it.clone().collect();
        assert_eq!(a, b);
        assert!(a.ends_with(&c) && a.chars().count() == c.chars().count() + 1);
    }
}
'''),
 dict(id="c17-padded", property="C17",
  edits=[("src/replace.rs", """        for c in self.clone() {
            f.write_char(c)?;
        }
        Ok(())""", """        let mut chunk = ArrayVec::<[char; 64]>::new();
        for c in self.clone() {
            if chunk.try_push(c).is_some() {
                write_chunk(f, &chunk)?;
                chunk.clear();
            }
        }
        write_chunk(f, &chunk)"""),
   ("src/replace.rs", """impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for Replacements<I> {}""", """impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for Replacements<I> {}

fn write_chunk(f: &mut fmt::Formatter, chunk: &[char]) -> fmt::Result {
    chunk.iter().try_for_each(|&c| f.write_char(c))
}""")],
  needs="formatting a CJK-variants adapter with more than 64 characters to come",
  breaks="every 65th character is missing from the formatted text",
  holds="200 characters are all formatted",
  main=N + r'''
fn main() {
    let s: String = std::iter::repeat("ab\u{f900}").take(70).collect();
    assert_eq!(s.chars().cjk_compat_variants().to_string(), s.chars().cjk_compat_variants().collect::<String>());
}
'''),
]
