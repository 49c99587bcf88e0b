N = "use unicode_normalization::*;\n"
BARE = r'''
#![no_std]
#![no_main]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use unicode_normalization::{char::compose, UnicodeNormalization};
static mut HEAP: [u8; 1 << 20] = [0; 1 << 20];
static mut AT: usize = 0;
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let a = (AT + l.align() - 1) & !(l.align() - 1);
        AT = a + l.size();
        (&raw mut HEAP as *mut u8).add(a)
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static G: A = A;
#[panic_handler]
fn panic(_: &core::panic::PanicInfo) -> ! {
    exit(101)
}
fn exit(c: i32) -> ! {
    unsafe { core::arch::asm!("int 0x80", in("eax") 1, in("ebx") c, options(noreturn)) }
}
core::arch::global_asm!(".globl _start", "_start:", "call run", "hlt");
#[no_mangle]
extern "C" fn run() -> ! {
    assert_eq!(compose('e', '\u{301}'), Some('\u{e9}'));
    assert_eq!(compose('\u{3b1}', '\u{301}'), Some('\u{3ac}'));
    assert_eq!(compose('\u{304b}', '\u{3099}'), Some('\u{304c}'));
    assert_eq!(compose('\u{1f00}', '\u{300}'), Some('\u{1f02}'));
    assert!("\u{304b}\u{3099}\u{1f80}".nfd().nfc().eq("\u{304c}\u{1f80}".chars()));
    exit(0)
}
'''
BARE_RUN = '''project ''
printf '[profile.release]\\npanic = "abort"\\n' >> "$tmp/Cargo.toml"
RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS="-C link-arg=-nostartfiles -C link-arg=-nostdlib -C link-arg=-static -C relocation-model=static" \\
timeout 250 cargo build --offline -q --release -Zbuild-std=core,alloc -Zbuild-std-features=compiler-builtins-mem --target i686-unknown-linux-gnu || exit 1
"$tmp/target/i686-unknown-linux-gnu/release/demo"'''
MIRI_RUN = '''project '"std"'
RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu XDG_CACHE_HOME="$tmp/cache" MIRIFLAGS="-Zmiri-tree-borrows" \\
timeout 280 cargo miri run --offline -q %s'''
ASAN_RUN = '''project '"std"'
RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTFLAGS=-Zsanitizer=address ASAN_OPTIONS=detect_leaks=0 \\
timeout 250 cargo run --offline -q --release --target x86_64-unknown-linux-gnu'''

BUGS = [
 dict(id="c22-pair-key", property="C22",
  edits=[("src/lookups.rs", """    if c1 < '\\u{10000}' && c2 < '\\u{10000}' {
        mph_lookup(
            (c1 as u32) << 16 | (c2 as u32),""", """    // Both characters side by side, 21 bits each.
    let pair = (c1 as usize) << 21 | c2 as usize;
    if c1 < '\\u{10000}' && c2 < '\\u{10000}' {
        mph_lookup(
            (pair >> 5) as u32 & 0xffff_0000 | pair as u32 & 0xffff,""")],
  needs="a target with 32-bit pointers, and a pair whose first character is above U+07FF",
  breaks="high bits of the first character are shifted out, and the pair does not compose",
  holds="pairs compose on a 32-bit target",
  run=BARE_RUN, main=BARE),
 dict(id="c22-byte-order", property="C22",
  edits=[("src/decompose.rs", "        self.buffer[self.ready.end..].sort_by_key(|k| k.0);", "        // Class and character are one word, with the class on top.\n        self.buffer[self.ready.end..].sort_by_key(|k| k.to_ne_bytes()[3]);"),
   ("src/decompose.rs", "    buffer: TinyVec<[(u8, char); 4]>,", "    buffer: TinyVec<[u32; 4]>,"),
   ("src/decompose.rs", """            self.sort_pending();
            self.buffer.push((class, ch));
            self.ready""", """            self.sort_pending();
            self.buffer.push(ch as u32);
            self.ready"""),
   ("src/decompose.rs", """        } else {
            self.buffer.push((class, ch));
        }""", """        } else {
            self.buffer.push(u32::from(class) << 24 | ch as u32);
        }"""),
   ("src/decompose.rs", """        let (_, ch) = self.buffer[self.ready.start];
        self.increment_next_ready();
        Some(ch)""", """        let ch = self.buffer[self.ready.start] & 0x1f_ffff;
        self.increment_next_ready();
        core::char::from_u32(ch)""")],
  needs="a big-endian target, and two marks in the wrong order",
  breaks="marks are sorted by the low byte of their number",
  holds="marks are sorted by class on a big-endian target",
  run=MIRI_RUN % "--target s390x-unknown-linux-gnu",
  main=N + r'''
fn main() {
    assert_eq!("q\u{301}\u{316}\u{345}".nfd().collect::<String>(), "q\u{316}\u{301}\u{345}");
    assert_eq!("q\u{345}\u{302}\u{31b}".nfd().collect::<String>(), "q\u{31b}\u{302}\u{345}");
}
'''),
 dict(id="c21-group-copy", property="C21",
  edits=[("src/decompose.rs", """    #[inline]
    fn reset_buffer(&mut self) {""", """    #[inline]
    #[allow(unsafe_code)]
    fn reset_buffer(&mut self) {"""),
   ("src/decompose.rs", """        for i in 0..pending {
            self.buffer[i] = self.buffer[i + self.ready.end];
        }
""", """        if pending > self.ready.end {
            self.buffer.copy_within(self.ready.end.., 0);
        } else if pending > 0 {
            // Safety: what is copied too much is cut off below.
            let group = (pending + 3) & !3;
            let data = self.buffer.as_mut_ptr();
            unsafe { core::ptr::copy(data.add(self.ready.end), data, group) };
        }
""")],
  needs="a run that fills the buffer's heap allocation exactly, ended by a character that decomposes to a starter and marks",
  breaks="up to 24 bytes after the allocation are read",
  holds="AddressSanitizer sees nothing in runs of 1 to 70 marks before an e with acute",
  run=ASAN_RUN,
  main=N + r'''
fn main() {
    for n in 1..70 {
        let s: Vec<char> = std::iter::repeat('\u{301}').take(n).chain("\u{e9}x".chars()).collect();
        assert_eq!(s.into_iter().nfd().count(), n + 3);
    }
}
'''),
 dict(id="c23-racy-memo", property="C23",
  edits=[("src/lookups.rs", """pub fn canonical_combining_class(c: char) -> u8 {
    mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    )
}""", """#[allow(unsafe_code)]
pub fn canonical_combining_class(c: char) -> u8 {
    // Character and class of the last lookup, in one word so that they always belong together.
    static mut LAST: u32 = 0;
    let last = unsafe { LAST };
    if last & 0xff_ffff == c as u32 {
        return (last >> 24) as u8;
    }
    let class = mph_lookup(
        c.into(),
        CANONICAL_COMBINING_CLASS_SALT,
        CANONICAL_COMBINING_CLASS_KV,
        u8_lookup_fk,
        u8_lookup_fv,
        0,
    );
    unsafe { LAST = u32::from(class) << 24 | c as u32 };
    class
}""")],
  needs="two threads, and a compiler or processor that makes use of the data race",
  breaks="an unsynchronised static is read and written by all threads: undefined behaviour",
  holds="Miri sees no data race between two threads that normalize",
  run=MIRI_RUN % "",
  main=N + r'''
fn main() {
    let h: Vec<_> = ["e\u{301}\u{316}", "\u{1ec7}x"].into_iter().map(|s| std::thread::spawn(move || s.nfd().count())).collect();
    assert_eq!(h.into_iter().map(|t| t.join().unwrap()).sum::<usize>(), 7);
}
'''),
]
