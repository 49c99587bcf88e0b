//! Reads cases (words, little-endian: number of operations, number of characters, operations, characters) and answers each
//! with the digest of its transcript; with a first word of u32::MAX, the case that follows with the text of its transcript.
#![cfg_attr(feature = "bare", no_std, no_main)]
extern crate alloc;
use alloc as alloc_crate;
use alloc::{string::String, vec::Vec};
#[path = "../../src/props/tell.rs"]
mod tell;

trait Wire {
    /// False at the end of the input.
    fn read(&mut self, b: &mut [u8]) -> bool;
    fn write(&mut self, b: &[u8]);
}
fn word(w: &mut impl Wire) -> Option<u32> {
    let mut b = [0; 4];
    w.read(&mut b).then(|| u32::from_le_bytes(b))
}
fn words(w: &mut impl Wire, n: usize) -> Option<Vec<u32>> {
    let mut b = alloc::vec![0; n * 4];
    w.read(&mut b).then(|| b.chunks(4).map(|c| u32::from_le_bytes(c.try_into().unwrap())).collect())
}
fn one(w: &mut impl Wire) -> Option<()> {
    let mut n = word(w)?;
    let text = n == u32::MAX;
    if text {
        n = word(w)?;
    }
    let m = word(w)?;
    let ops = words(w, n as usize)?;
    let s: Vec<char> = words(w, m as usize)?.into_iter().map(|c| char::from_u32(c).unwrap()).collect();
    let mut k = tell::Sink { h: 0, text: text.then(String::new) };
    tell::tell(&s, &ops, &mut k);
    #[cfg(feature = "std")]
    faults::run(&s, ops.first().map_or(0, |&x| x as usize));
    match k.text {
        None => w.write(&k.h.to_le_bytes()),
        Some(t) => {
            w.write(&(t.len() as u64).to_le_bytes());
            w.write(t.as_bytes());
        }
    }
    Some(())
}

#[cfg(not(feature = "bare"))]
fn main() {
    use std::io::{Read, Write};
    struct Std;
    impl Wire for Std {
        fn read(&mut self, b: &mut [u8]) -> bool {
            std::io::stdin().read_exact(b).is_ok()
        }
        fn write(&mut self, b: &[u8]) {
            let mut o = std::io::stdout();
            o.write_all(b).unwrap();
            o.flush().unwrap();
        }
    }
    while one(&mut Std).is_some() {}
}

/// A source, a callback and a writer that panic, with the adapter used and dropped afterwards: for Miri to look at.
#[cfg(feature = "std")]
mod faults {
    use std::cell::Cell;
    use std::fmt::Write as _;
    use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
    use unicode_normalization::{char as uc, UnicodeNormalization as _};

    struct Injected;
    #[derive(Clone)]
    struct Source<'a> {
        s: &'a [char],
        at: &'a Cell<usize>,
    }
    impl Iterator for Source<'_> {
        type Item = char;
        fn next(&mut self) -> Option<char> {
            tick(self.at);
            let (&c, rest) = self.s.split_first()?;
            self.s = rest;
            Some(c)
        }
    }
    struct Writer<'a>(&'a Cell<usize>);
    impl std::fmt::Write for Writer<'_> {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            s.chars().for_each(|_| tick(self.0));
            Ok(())
        }
    }
    /// Panics when the count comes to 1, once.
    fn tick(at: &Cell<usize>) {
        let n = at.get();
        at.set(n.saturating_sub(1));
        if n == 1 {
            // no message, no hook
            resume_unwind(Box::new(Injected));
        }
    }
    fn quietly<R>(f: impl FnOnce() -> R) -> Option<R> {
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => Some(r),
            Err(e) if e.is::<Injected>() => None,
            Err(e) => resume_unwind(e),
        }
    }
    pub fn run(s: &[char], at: usize) {
        let n = &Cell::new(at + 1);
        macro_rules! adapter {
            ($m:ident) => {{
                n.set(at + 1);
                let mut it = Source { s, at: n }.$m();
                for _ in 0..s.len() * 20 + 80 {
                    if let Some(None) = quietly(|| it.next()) {
                        break;
                    }
                }
                let _ = it.size_hint();
                it
            }};
        }
        macro_rules! formatted {
            ($m:ident) => {{
                let it = adapter!($m);
                let copy = it.clone();
                n.set(at + 1);
                quietly(|| write!(Writer(n), "{copy}"));
                drop(it);
                n.set(0);
                let mut it = Source { s, at: n }.$m();
                it.next();
                n.set(at + 1);
                quietly(|| write!(Writer(n), "{it}"));
                drop(it.clone());
                n.set(0);
                it.count();
            }};
        }
        match at % 3 {
            0 => {
                formatted!(nfd);
                formatted!(nfc);
            }
            1 => {
                formatted!(nfkd);
                formatted!(nfkc);
            }
            _ => {
                formatted!(cjk_compat_variants);
                drop(adapter!(stream_safe));
            }
        }
        for &c in s {
            n.set(at % 3 + 1);
            quietly(|| uc::decompose_compatible(c, |_| tick(n)));
            quietly(|| uc::decompose_canonical(c, |_| tick(n)));
        }
    }
}

#[cfg(feature = "bare")]
mod bare {
    use super::*;
    use core::alloc::{GlobalAlloc, Layout};
    unsafe fn call(n: u32, a: u32, b: u32, c: u32) -> i32 {
        let r;
        core::arch::asm!("int 0x80", inlateout("eax") n => r, in("ebx") a, in("ecx") b, in("edx") c);
        r
    }
    fn exit(code: u32) -> ! {
        loop {
            unsafe { call(1, code, 0, 0) };
        }
    }
    /// One case at a time: what it allocates is given back when it is over. There is one thread.
    struct Arena;
    const SIZE: usize = 1_700_000_000;
    static mut HEAP: [u8; SIZE] = [0; SIZE];
    static mut AT: usize = 0;
    unsafe impl GlobalAlloc for Arena {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let base = &raw mut HEAP as *mut u8;
            let a = (base as usize + AT + l.align() - 1 & !(l.align() - 1)) - base as usize;
            if a + l.size() > SIZE {
                exit(102);
            }
            AT = a + l.size();
            base.add(a)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            let at = p as usize - &raw mut HEAP as *mut u8 as usize;
            if at + l.size() == AT {
                AT = at;
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            let at = p as usize - &raw mut HEAP as *mut u8 as usize;
            if at + l.size() == AT && at + n <= SIZE {
                AT = at + n;
                return p;
            }
            if n <= l.size() {
                return p;
            }
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            core::ptr::copy_nonoverlapping(p, q, l.size());
            q
        }
    }
    #[global_allocator]
    static A: Arena = Arena;
    #[panic_handler]
    fn panic(p: &core::panic::PanicInfo) -> ! {
        use alloc::string::ToString;
        let m = p.to_string();
        unsafe { call(4, 2, m.as_ptr() as u32, m.len() as u32) };
        exit(101)
    }
    struct Fd;
    impl Wire for Fd {
        fn read(&mut self, mut b: &mut [u8]) -> bool {
            while !b.is_empty() {
                let n = unsafe { call(3, 0, b.as_mut_ptr() as u32, b.len() as u32) };
                if n <= 0 {
                    return false;
                }
                b = &mut b[n as usize..];
            }
            true
        }
        fn write(&mut self, mut b: &[u8]) {
            while !b.is_empty() {
                let n = unsafe { call(4, 1, b.as_ptr() as u32, b.len() as u32) };
                if n <= 0 {
                    exit(103);
                }
                b = &b[n as usize..];
            }
        }
    }
    #[no_mangle]
    extern "C" fn run() -> ! {
        while one(&mut Fd).is_some() {
            unsafe { AT = 0 };
        }
        exit(0)
    }
    // the kernel leaves the stack aligned to 16; a function expects that before its return address is pushed
    core::arch::global_asm!(".globl _start", "_start:", "xor ebp, ebp", "call run", "hlt");
}
