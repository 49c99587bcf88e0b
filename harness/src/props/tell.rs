//! Everything the library says about one case, for comparison between builds of it. No std: harness/other compiles this file
//! for targets that have none.
use crate::alloc_crate::string::{String, ToString};
use unicode_normalization::{self as un, char as uc, UnicodeNormalization as _};

pub const KINDS: [&str; 6] = ["nfd", "nfkd", "nfc", "nfkc", "cjk_compat_variants", "stream_safe"];

pub struct Sink {
    pub h: u64,
    pub text: Option<String>,
}
impl Sink {
    #[inline]
    fn put(&mut self, x: u64) {
        self.h = (self.h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        self.h ^= self.h >> 32;
        if let Some(t) = &mut self.text {
            use core::fmt::Write as _;
            let _ = write!(t, "{x:X} ");
        }
    }
    fn section(&mut self, n: &str) {
        if let Some(t) = &mut self.text {
            t.push('\n');
            t.push_str(n);
            t.push_str(": ");
        }
    }
    fn hint(&mut self, h: (usize, Option<usize>)) {
        self.put(h.0 as u64);
        self.put(h.1.map_or(u64::MAX, |x| x as u64));
    }
}
fn qc(q: un::IsNormalized) -> u64 {
    match q {
        un::IsNormalized::Yes => 0,
        un::IsNormalized::No => 1,
        un::IsNormalized::Maybe => 2,
    }
}
pub fn tell(s: &[char], ops: &[u32], o: &mut Sink) {
    let st: String = s.iter().collect();
    let n0 = ops.first().copied().unwrap_or(0) as usize;
    // no form makes text longer than 18 times, plus room
    let bound = s.len() * 19 + 64;
    for (k, name) in KINDS.iter().enumerate() {
        o.section(name);
        macro_rules! run {
            ($e:expr) => {{
                let mut it = $e;
                o.hint(it.size_hint());
                let mut n = 0;
                while let Some(x) = it.next() {
                    o.put(x as u64);
                    n += 1;
                    if n == n0 {
                        o.hint(it.size_hint());
                    }
                    if n > bound {
                        break;
                    }
                }
                o.put(it.next().map_or(0, |x| x as u64));
            }};
        }
        match k {
            0 => run!(st.nfd()),
            1 => run!(st.nfkd()),
            2 => run!(st.nfc()),
            3 => run!(st.nfkc()),
            4 => run!(st.cjk_compat_variants()),
            _ => run!(st.stream_safe()),
        }
    }
    // the other ways to consume it
    o.section("nth, last, count");
    for k in 0..5 {
        macro_rules! ways {
            ($e:expr) => {{
                let mut it = $e;
                let x = it.nth(n0);
                o.put(x.map_or(0, |x| x as u64));
                o.put(it.clone().count() as u64);
                o.put(it.clone().last().map_or(0, |x| x as u64));
                let mut d = it.clone();
                o.put(d.next().map_or(0, |x| x as u64));
                o.put(it.fold(0u64, |a, x| a.wrapping_mul(31).wrapping_add(x as u64)));
            }};
        }
        match k {
            0 => ways!(s.iter().copied().nfd()),
            1 => ways!(s.iter().copied().nfkd()),
            2 => ways!(s.iter().copied().nfc()),
            3 => ways!(s.iter().copied().nfkc()),
            _ => ways!(s.iter().copied().cjk_compat_variants()),
        }
    }
    // formatted half way
    o.section("formatted");
    let fmt: [String; 5] = {
        let mut a = st.nfd();
        let mut b = st.nfkd();
        let mut d = st.nfc();
        let mut e = st.nfkc();
        let mut f = st.cjk_compat_variants();
        for _ in 0..n0 {
            a.next();
            b.next();
            d.next();
            e.next();
            f.next();
        }
        [a.to_string(), b.clone().to_string(), d.to_string(), e.clone().to_string(), f.to_string()]
    };
    for f in fmt {
        for x in f.chars() {
            o.put(x as u64);
        }
        o.put(1 << 40);
    }
    o.section("predicates");
    o.put(qc(un::is_nfc_quick(st.chars())));
    o.put(qc(un::is_nfd_quick(st.chars())));
    o.put(qc(un::is_nfkc_quick(st.chars())));
    o.put(qc(un::is_nfkd_quick(st.chars())));
    o.put(qc(un::is_nfc_stream_safe_quick(st.chars())));
    o.put(qc(un::is_nfd_stream_safe_quick(st.chars())));
    o.put(un::is_nfc(&st) as u64);
    o.put(un::is_nfd(&st) as u64);
    o.put(un::is_nfkc(&st) as u64);
    o.put(un::is_nfkd(&st) as u64);
    o.put(un::is_nfc_stream_safe(&st) as u64);
    o.put(un::is_nfd_stream_safe(&st) as u64);
    o.section("characters");
    let step = (s.len() / 6).max(1);
    for k in (0..s.len()).step_by(step) {
        let x = s[k];
        let y = s[(k + 1) % s.len()];
        o.put(uc::canonical_combining_class(x) as u64);
        o.put(uc::is_combining_mark(x) as u64);
        o.put(uc::is_public_assigned(x) as u64);
        o.put(uc::compose(x, y).map_or(1, |c| c as u64));
        o.put(uc::compose(y, x).map_or(1, |c| c as u64));
        uc::decompose_canonical(x, |c| o.put(c as u64));
        uc::decompose_compatible(x, |c| o.put(c as u64));
        uc::decompose_cjk_compat_variants(x, |c| o.put(c as u64));
    }
    o.section("version");
    let v = un::UNICODE_VERSION;
    o.put((v.0 as u64) << 16 | (v.1 as u64) << 8 | v.2 as u64);
}
