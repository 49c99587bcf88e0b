//! C21: total and memory-safe, also when the caller's code panics.
use super::history::KINDS;
use super::text_stages;
use crate::engine::{Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl;
use crate::source::{self, Injected, Src};
use crate::with_adapter;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// The number stored in a char, read so that the compiler cannot assume it is a valid one.
#[inline(never)]
pub fn raw(c: char) -> u32 {
    let c = std::hint::black_box(c);
    unsafe { std::ptr::read_volatile(&c as *const char as *const u32) }
}
#[inline]
fn valid(c: char, what: &dyn Fn() -> String) -> Result<(), String> {
    let n = raw(c);
    if n > 0x10ffff || (0xd800..0xe000).contains(&n) {
        return Err(format!("{} produced {n:#x}, which is no Unicode scalar value", what()));
    }
    Ok(())
}
fn drain(what: &dyn Fn() -> String, it: impl Iterator<Item = char>, max: usize) -> Result<usize, String> {
    let mut n = 0;
    for c in it {
        valid(c, what)?;
        n += 1;
        if n > max {
            return Err(format!("{} gave more than {max} characters", what()));
        }
    }
    Ok(n)
}
fn everything(s: &[char]) -> Result<(), String> {
    let st = string(s);
    for (k, name) in KINDS.iter().enumerate() {
        with_adapter!(k, st.as_str(), it => {
            let h = it.size_hint();
            std::hint::black_box(h);
            drain(&|| name.to_string(), it, bound(s.len()))?
        });
    }
    for (f, ss) in QUICKS {
        std::hint::black_box(quick(f, ss, st.chars()));
    }
    for f in refimpl::FORMS {
        std::hint::black_box(is_form(f, &st));
    }
    std::hint::black_box((un::is_nfc_stream_safe(&st), un::is_nfd_stream_safe(&st)));
    let step = (s.len() / 12).max(1);
    for k in (0..s.len()).step_by(step) {
        let x = s[k];
        let y = s[(k + 1) % s.len()];
        for c in [uc::compose(x, y), uc::compose(y, x)].into_iter().flatten() {
            valid(c, &|| "compose".into())?;
        }
        let mut e = Ok(());
        let mut v = |c| {
            if e.is_ok() {
                e = valid(c, &|| "a decomposition".into());
            }
        };
        uc::decompose_canonical(x, &mut v);
        uc::decompose_compatible(x, &mut v);
        uc::decompose_cjk_compat_variants(x, &mut v);
        e?;
        std::hint::black_box((uc::canonical_combining_class(x), uc::is_combining_mark(x), uc::is_public_assigned(x)));
    }
    Ok(())
}
/// `f` must end in the panic we injected (or return, if the injection point is never reached).
fn injected<R>(f: impl FnOnce() -> R) -> Result<Option<R>, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(Some(r)),
        Err(p) if p.is::<Injected>() => Ok(None),
        Err(p) => Err(format!("the library panicked: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
struct Bomb {
    left: usize,
}
impl std::fmt::Write for Bomb {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for _ in s.chars() {
            if self.left == 0 {
                std::panic::panic_any(Injected);
            }
            self.left -= 1;
        }
        Ok(())
    }
}
fn faults(s: &[char], at: usize, o: &mut Obs) -> Result<(), String> {
    let data: Arc<[char]> = s.into();
    let max = bound(s.len());
    source::reset_stats();
    for (k, name) in KINDS.iter().enumerate() {
        // a source that panics once at a position (one position may be its end), then goes on
        let mut src = Src::<false>::new(data.clone(), at as u32 % source::HINTS);
        src.panic_at = Some(at % (s.len() + 1));
        with_adapter!(k, src, it => {
            let mut it = it;
            let mut n = 0;
            let mut seen = false;
            loop {
                match injected(|| it.next())? {
                    Some(Some(c)) => valid(c, &|| format!("{name} after a panic of its source"))?,
                    Some(None) => break,
                    None => {
                        if seen {
                            return Err("the source panicked twice".into());
                        }
                        seen = true;
                        o.label(0, true);
                        std::hint::black_box(injected(|| it.size_hint())?);
                    }
                }
                n += 1;
                if n > max + 2 {
                    return Err(format!("{name} does not end after a panic of its source"));
                }
            }
            if !seen {
                return Err(format!("{name} swallowed a panic of its source"));
            }
            // still no abort: further calls, and dropping
            for _ in 0..2 {
                if let Some(Some(c)) = injected(|| it.next())? {
                    valid(c, &|| format!("{name} after its end"))?;
                }
            }
        });
    }
    // a source whose clone or size_hint panics once, after part of the output
    for k in 0..5 {
        fn traps<A: Iterator<Item = char> + Clone + std::fmt::Display>(mut it: A, taken: usize, name: &str) -> Result<(), String> {
            for _ in 0..taken {
                it.next();
            }
            let want: Vec<char> = it.clone().collect();
            for (trap, what) in [(1, "clone"), (1, "formatting"), (2, "size_hint"), (2, "collecting a clone")] {
                source::set_trap(trap);
                let r = injected(|| match what {
                    "clone" => drop(it.clone()),
                    "formatting" => drop(it.to_string()),
                    "size_hint" => drop(std::hint::black_box(it.size_hint())),
                    _ => drop(it.clone().collect::<Vec<char>>()),
                });
                // (nothing says that the source must be asked)
                let fired = source::trap() == 0;
                source::set_trap(0);
                if r?.is_some() == fired {
                    return Err(format!("{name}: {what} swallowed a panic of the source"));
                }
                let got: Vec<char> = it.clone().collect();
                want_eq(|| format!("{name}: what is left after {what} of its source panicked"), &got, &want)?;
            }
            Ok(())
        }
        let src = Src::<true>::new(data.clone(), at as u32 % source::HINTS);
        let (taken, name) = (at % (s.len() + 1), KINDS[k]);
        match k {
            0 => traps(src.nfd(), taken, name)?,
            1 => traps(src.nfkd(), taken, name)?,
            2 => traps(src.nfc(), taken, name)?,
            3 => traps(src.nfkc(), taken, name)?,
            _ => traps(src.cjk_compat_variants(), taken, name)?,
        }
    }
    // a writer that panics
    for k in 0..5 {
        let it: Box<dyn std::fmt::Display> = match k {
            0 => Box::new(Src::<true>::new(data.clone(), 0).nfd()),
            1 => Box::new(Src::<true>::new(data.clone(), 0).nfkd()),
            2 => Box::new(Src::<true>::new(data.clone(), 0).nfc()),
            3 => Box::new(Src::<true>::new(data.clone(), 0).nfkc()),
            _ => Box::new(Src::<true>::new(data.clone(), 0).cjk_compat_variants()),
        };
        let before = it.to_string();
        let n = before.chars().count();
        let left = at % (n + 1);
        let r = injected(|| {
            use std::fmt::Write as _;
            write!(Bomb { left }, "{}", it)
        })?;
        if r.is_some() != (left >= n) {
            return Err(format!("{}: a writer that panics after {left} of {n} characters: {}", KINDS[k], if r.is_some() { "the panic was swallowed" } else { "panicked too late" }));
        }
        o.label(1, r.is_none());
        if it.to_string() != before {
            return Err(format!("{}: formats differently after the writer panicked", KINDS[k]));
        }
    }
    // a callback that panics
    if !s.is_empty() {
        let x = s[at % s.len()];
        for k in 0..3 {
            let mut n = 0usize;
            let total = {
                let mut t = 0;
                let f = |_| t += 1;
                match k {
                    0 => uc::decompose_canonical(x, f),
                    1 => uc::decompose_compatible(x, f),
                    _ => uc::decompose_cjk_compat_variants(x, f),
                }
                t
            };
            let stop = at % total;
            let f = |_| {
                if n == stop {
                    std::panic::panic_any(Injected);
                }
                n += 1;
            };
            let r = injected(move || match k {
                0 => uc::decompose_canonical(x, f),
                1 => uc::decompose_compatible(x, f),
                _ => uc::decompose_cjk_compat_variants(x, f),
            })?;
            if r.is_some() {
                return Err(format!("a panic of the callback for U+{:04X} was swallowed", x as u32));
            }
        }
        // predicates over a source that panics
        for (f, ss) in QUICKS {
            let mut src = Src::<true>::new(data.clone(), 0);
            src.panic_at = Some(at % (s.len() + 1));
            std::hint::black_box(injected(|| quick(f, ss, src))?);
        }
    }
    Ok(())
}
pub fn c21() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        o.nontrivial = c.s.iter().any(|&x| x > '\x7f');
        if let Some(r) = super::transcript::same_elsewhere(c) {
            return r;
        }
        match c.ops.first() {
            None => everything(&c.s),
            Some(&k) if k >= 50 && c.ops.len() > 1 => super::history::unbounded(c, o),
            Some(&at) => faults(&c.s, at as usize, o),
        }
    }
    fn with_fault(t: &mut Tape, c: &mut Case) {
        gen::mixed(t, &mut c.s);
        c.s.truncate(200);
        c.ops.push(t.below(c.s.len() + 2) as u32);
    }
    let mut stages = text_stages(100);
    for s in &mut stages {
        // everything() makes some twenty calls per text
        if s.name.starts_with("every first") {
            s.gen = Gen::Exhaustive(|| gen::firsts_seconds_classes_count() / 4, |i, c| gen::firsts_seconds_classes(i * 4 + i / 30 % 4, c));
        }
        if s.name.starts_with("every character") {
            s.gen = Gen::Exhaustive(|| gen::interesting_contexts_count() / 4, |i, c| gen::interesting_contexts(i * 4 + i / 120 % 4, c));
        }
        if s.name.starts_with("every scalar") {
            s.name = "every scalar value in one of 8 contexts";
            s.gen = Gen::Exhaustive(|| gen::all_scalars_count() / 4, |i, c| gen::all_scalars(i * 4 + i / 2 % 4, c));
        }
    }
    stages.push(Stage {
        name: "panics at every point, characters of interest in contexts",
        gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 40, |i, c| {
            gen::interesting_contexts(i * 40 + i / 12 % 40, c);
            c.ops.push((i % 13) as u32);
        }),
    });
    stages.push(Stage { name: "size hints over endless sources and sources of usize::MAX characters", gen: Gen::Random(60_000, 2_000_000, super::history::unbounded_case) });
    stages.push(Stage { name: super::transcript::SHORT, gen: Gen::Random(250, 20_000, super::transcript::short) });
    stages.push(Stage { name: "random panics of source, callback and writer", gen: Gen::Random(100_000, 3_000_000, with_fault) });
    Prop {
        id: "C21",
        check,
        rule: "every public function on every text of the families, with overflow, debug and unsafe-precondition checks on and every character's number checked; then panics injected into source (its next, clone and size_hint), writer and callback at a chosen point; size hints over endless sources. Non-trivial if the text is not ASCII; distinct by the hash of text and fault position",
        labels: &["source_panicked", "writer_panicked"],
        stages,
        fuzz: Some(with_fault),
    }
}
