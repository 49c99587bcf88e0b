//! Uniform names for the library's functions.
use crate::refimpl::{self, Form, Qc};
pub use unicode_normalization as un;
pub use unicode_normalization::char as uc;
pub use unicode_normalization::{Decompositions, IsNormalized, Recompositions, Replacements, StreamSafe, UnicodeNormalization};

pub fn string(s: &[char]) -> String {
    s.iter().collect()
}
pub fn qc(q: IsNormalized) -> Qc {
    match q {
        IsNormalized::Yes => Qc::Yes,
        IsNormalized::No => Qc::No,
        IsNormalized::Maybe => Qc::Maybe,
    }
}
pub fn quick<I: Iterator<Item = char>>(f: Form, stream_safe: bool, i: I) -> Qc {
    qc(match (f, stream_safe) {
        (Form::Nfc, false) => un::is_nfc_quick(i),
        (Form::Nfd, false) => un::is_nfd_quick(i),
        (Form::Nfkc, _) => un::is_nfkc_quick(i),
        (Form::Nfkd, _) => un::is_nfkd_quick(i),
        (Form::Nfc, true) => un::is_nfc_stream_safe_quick(i),
        (Form::Nfd, true) => un::is_nfd_stream_safe_quick(i),
    })
}
pub const QUICKS: [(Form, bool); 6] = [(Form::Nfc, false), (Form::Nfd, false), (Form::Nfkc, false), (Form::Nfkd, false), (Form::Nfc, true), (Form::Nfd, true)];
pub fn is_form(f: Form, s: &str) -> bool {
    match f {
        Form::Nfc => un::is_nfc(s),
        Form::Nfd => un::is_nfd(s),
        Form::Nfkc => un::is_nfkc(s),
        Form::Nfkd => un::is_nfkd(s),
    }
}

/// Run `$body` with `$it` bound to the library's iterator for form `$f` over `$src`.
#[macro_export]
macro_rules! with_form {
    ($f:expr, $src:expr, $it:ident => $body:expr) => {{
        use $crate::lib_api::UnicodeNormalization as _;
        match $f {
            $crate::refimpl::Form::Nfd => {
                #[allow(unused_mut)]
                let mut $it = $src.nfd();
                $body
            }
            $crate::refimpl::Form::Nfkd => {
                #[allow(unused_mut)]
                let mut $it = $src.nfkd();
                $body
            }
            $crate::refimpl::Form::Nfc => {
                #[allow(unused_mut)]
                let mut $it = $src.nfc();
                $body
            }
            $crate::refimpl::Form::Nfkc => {
                #[allow(unused_mut)]
                let mut $it = $src.nfkc();
                $body
            }
        }
    }};
}

/// All output of an iterator; stops (and reports through the length) if it yields more than `max`.
pub fn take<I: Iterator<Item = char>>(i: I, max: usize) -> Vec<char> {
    let mut v = Vec::with_capacity(max.min(1 << 20) + 1);
    for c in i {
        v.push(c);
        if v.len() > max {
            break;
        }
    }
    v
}
pub fn lib_norm(f: Form, s: &[char]) -> Vec<char> {
    let max = bound(s.len());
    with_form!(f, s.iter().copied(), it => take(it, max))
}
/// No form makes text longer than 18 times (U+FDFA), plus room.
pub fn bound(n: usize) -> usize {
    n * 19 + 64
}
/// Compare an iterator's output with what is expected, without reading more than one character too many.
pub fn same<I: Iterator<Item = char>>(what: impl Fn() -> String, mut i: I, want: &[char]) -> Result<(), String> {
    for (k, &w) in want.iter().enumerate() {
        match i.next() {
            Some(c) if c == w => {}
            g => return Err(diff(what(), k, want, g, &mut i)),
        }
    }
    match i.next() {
        None => Ok(()),
        g => Err(diff(what(), want.len(), want, g, &mut i)),
    }
}
#[cold]
fn diff(what: String, k: usize, want: &[char], g: Option<char>, rest: &mut dyn Iterator<Item = char>) -> String {
    let mut got: Vec<char> = want[..k].to_vec();
    if let Some(g) = g {
        got.push(g);
        got.extend(rest.take(80));
    }
    let lo = k.saturating_sub(20);
    format!("{what}: at output {k}: got {} want {} (shown from output {lo})", crate::engine::show(&got[lo..]), crate::engine::show(&want[lo..]))
}
pub fn want_eq(what: impl Fn() -> String, got: &[char], want: &[char]) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        same(what, got.iter().copied(), want)
    }
}
pub fn cc(f: Form) -> &'static str {
    match f {
        Form::Nfc => "nfc",
        Form::Nfd => "nfd",
        Form::Nfkc => "nfkc",
        Form::Nfkd => "nfkd",
    }
}
pub fn lib_stream_safe(s: &[char]) -> Vec<char> {
    take(s.iter().copied().stream_safe(), 2 * s.len() + 8)
}
pub fn ref_in_form(f: Form, s: &[char]) -> bool {
    refimpl::norm(f, s) == s
}
