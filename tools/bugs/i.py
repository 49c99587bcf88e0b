N = "use unicode_normalization::*;\n"
BUGS = [
 dict(id="c22-popcnt", property="C22",
  edits=[("src/decompose.rs", "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);", """        let pending = &mut self.buffer[self.ready.end..];
        #[cfg(target_feature = "popcnt")]
        {
            // Counting ones is one instruction here: marks of a single class
            // need no sorting.
            let seen = pending.iter().fold(0u64, |s, k| s | 1 << (k.0 & 63));
            if seen.count_ones() == 1 {
                return;
            }
        }
        pending.sort_by_key(|k| k.0);""")],
  needs="a build for a processor with popcnt (target-cpu or target-feature), and marks out of order whose classes agree in their low six bits, such as 220 and 28",
  breaks="such a build leaves the marks out of order, a plain one does not",
  holds="builds for any processor put the marks in the same order",
  run="""project '"std"'
a=$(timeout 120 cargo run --offline -q) || exit 1
b=$(RUSTFLAGS="-C target-feature=+popcnt" timeout 120 cargo run --offline -q) || exit 1
[ "$a" = "$b" ]""",
  main=N + r"""
fn main() {
    for s in ["a\u{316}\u{64c}", "a\u{301}\u{316}", "a\u{321}\u{327}\u{5b0}"] {
        println!("{:?}", s.nfd().map(|c| c as u32).collect::<Vec<_>>());
    }
}
"""),
 dict(id="c22-aarch64", property="C22",
  edits=[("src/stream_safe.rs", "        if d.leading_nonstarters == d.decomposition_len {\n            self.nonstarter_count += d.decomposition_len;\n        }", """        if d.leading_nonstarters == d.decomposition_len {
            self.nonstarter_count += marks(&d);
        }"""), ("src/stream_safe.rs", "impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for StreamSafe<I> {}", """#[cfg(target_arch = "aarch64")]
fn marks(d: &Decomposition) -> usize {
    // a conditional select instead of an addition
    if d.leading_nonstarters == d.trailing_nonstarters {
        1
    } else {
        d.decomposition_len
    }
}

#[cfg(not(target_arch = "aarch64"))]
fn marks(d: &Decomposition) -> usize {
    d.decomposition_len
}

impl<I: Iterator<Item = char> + FusedIterator> FusedIterator for StreamSafe<I> {}""")],
  needs="an aarch64 target and a run of more than 30 non-starters with one such as U+0344, which decomposes into two",
  breaks="on aarch64 the joiner comes one character too late for each of them",
  holds="the joiner comes at the same place on every target",
  run="""project '"std"'
a=$(timeout 120 cargo run --offline -q) || exit 1
b=$(RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu timeout 280 cargo miri run --offline -q --target aarch64-unknown-linux-gnu) || exit 1
[ "$a" = "$b" ]""",
  main=N + r"""
fn main() {
    let s = "a".to_string() + &"\u{344}".repeat(20);
    println!("{:?}", s.chars().stream_safe().map(|c| c as u32).collect::<Vec<_>>());
}
"""),
]
