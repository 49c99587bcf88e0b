//! C20: memory and work.
use super::history::{expected, KINDS};
use crate::engine::{Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl;
use crate::source::{self, Src};
use crate::{alloc, fuel, with_adapter};
use std::sync::Arc;

/// The text: s, t repeated ops[0] times, then s again (a pattern that makes long texts from short cases).
pub fn long_text(c: &Case) -> Vec<char> {
    let reps = c.ops.first().copied().unwrap_or(0) as usize;
    let mut v = c.s.clone();
    if !c.t.is_empty() {
        let reps = reps.min(200_000 / c.t.len());
        for _ in 0..reps {
            v.extend_from_slice(&c.t);
        }
        v.extend_from_slice(&c.s);
    }
    v
}
/// Bytes held while streaming: constant for stream-safe text, proportional to the longest run otherwise. The constants
/// are some ten times what the code needs.
fn memory_bound(run: usize) -> usize {
    8192 + 512 * run.max(32)
}
/// Steps allowed for n characters of input of which the longest run is r.
fn work_bound(n: usize) -> u64 {
    let lg = (usize::BITS - n.leading_zeros()) as u64 + 1;
    50_000 + 400 * n as u64 * lg
}
/// in ops[0]: compare two lengths
const GROW: u32 = u32::MAX;
const GROWTH: (usize, usize) = (4_000, 400_000);
pub fn c20() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        if c.ops.first() == Some(&GROW) {
            return growth(c, o);
        }
        let s = long_text(c);
        let run = refimpl::max_run(&s);
        o.nontrivial = s.len() > 200 && run > 0;
        o.label(0, run <= 30);
        o.label(1, run > 1000);
        o.label(2, s.len() >= 10_000);
        o.label(3, s.len() >= 100_000);
        let st = string(&s);
        let data: Arc<[char]> = s.clone().into();
        let budget = work_bound(s.len());
        source::reset_stats();
        let mut worst = 0u64;
        for (k, name) in KINDS.iter().enumerate() {
            let src = Src::<true>::new(data.clone(), c.ops.get(1).copied().unwrap_or(0) % 3);
            let mut n = 0usize;
            let ((_, peak, _), work) = fuel::spend(budget, || {
                alloc::measure(|| {
                    with_adapter!(k, src, it => {
                        for _ in it {
                            n += 1;
                        }
                    })
                })
            });
            worst = worst.max(work);
            if c.ops.get(1) == Some(&77) {
                eprintln!("{name}: {} chars, run {run}: peak {peak} bytes, {work} steps", s.len());
            }
            if n != expected(k, &s).len() && s.len() < 5000 {
                return Err(format!("{name} gave {n} characters, expected {}", expected(k, &s).len()));
            }
            if peak > memory_bound(run) {
                return Err(format!("{name} held {peak} bytes at once over a text of {} characters whose longest run of non-starters is {run} (at most {} allowed)", s.len(), memory_bound(run)));
            }
        }
        for (f, ss) in QUICKS {
            let ((_, peak, count), work) = fuel::spend(budget, || alloc::measure(|| quick(f, ss, st.chars())));
            worst = worst.max(work);
            if peak > 0 || count > 0 {
                return Err(format!("the {} quick check allocated ({count} times, {peak} bytes)", cc(f)));
            }
        }
        for f in refimpl::FORMS {
            let ((_, peak, _), work) = fuel::spend(2 * budget, || alloc::measure(|| is_form(f, &st)));
            worst = worst.max(work / 2);
            if peak > memory_bound(run) {
                return Err(format!("is_{} held {peak} bytes over {} characters, longest run {run}", cc(f), s.len()));
            }
        }
        let ((_, peak, _), _) = fuel::spend(4 * budget, || alloc::measure(|| (un::is_nfc_stream_safe(&st), un::is_nfd_stream_safe(&st))));
        if peak > 2 * memory_bound(run) {
            return Err(format!("the stream-safe predicates held {peak} bytes over {} characters, longest run {run}", s.len()));
        }
        // also partly consumed and cloned: a clone costs no more than what is held
        let mut it = data.iter().copied().nfc();
        let half = s.len() / 2;
        let (_, _) = fuel::spend(budget, || {
            for _ in 0..half {
                it.next();
            }
        });
        let ((k, peak, _), _) = fuel::spend(budget, || alloc::measure(|| it.clone()));
        if peak > 2 * memory_bound(run) {
            return Err(format!("cloning a half consumed nfc held {peak} bytes over {} characters, longest run {run}", s.len()));
        }
        drop(k);
        // single characters
        for &x in s.iter().take(6) {
            let mut n = 0;
            let (_, _) = fuel::spend(20_000, || {
                uc::decompose_canonical(x, |_| n += 1);
                uc::decompose_compatible(x, |_| n += 1);
                uc::decompose_cjk_compat_variants(x, |_| n += 1);
                std::hint::black_box((uc::compose(x, '\u{301}'), uc::compose('a', x), uc::canonical_combining_class(x), uc::is_combining_mark(x), uc::is_public_assigned(x)));
            });
            if n > 60 {
                return Err(format!("decompositions of U+{:04X} pass {n} characters", x as u32));
            }
        }
        Ok(())
    }
    /// Every operation's steps over a text.
    fn steps(s: &[char]) -> Vec<(String, u64)> {
        let st = string(s);
        let data: Arc<[char]> = s.into();
        let mut v = vec![];
        let budget = work_bound(s.len());
        for (k, name) in KINDS.iter().enumerate() {
            let src = Src::<true>::new(data.clone(), 0);
            let (_, w) = fuel::spend(budget, || with_adapter!(k, src, it => it.for_each(|c| _ = std::hint::black_box(c))));
            v.push((name.to_string(), w));
        }
        for (f, ss) in QUICKS {
            v.push((format!("{} quick check{}", cc(f), if ss { " (stream-safe)" } else { "" }), fuel::spend(budget, || quick(f, ss, st.chars())).1));
        }
        for f in refimpl::FORMS {
            v.push((format!("is_{}", cc(f)), fuel::spend(2 * budget, || is_form(f, &st)).1));
        }
        v.push(("is_nfc_stream_safe".into(), fuel::spend(2 * budget, || un::is_nfc_stream_safe(&st)).1));
        v.push(("is_nfd_stream_safe".into(), fuel::spend(2 * budget, || un::is_nfd_stream_safe(&st)).1));
        v.push(("nfc formatted".into(), fuel::spend(2 * budget, || std::hint::black_box(st.as_str().nfc().to_string())).1));
        v
    }
    /// The same text twice, the second time 100 times as long: the steps must not grow much more than the length.
    fn growth(c: &Case, o: &mut Obs) -> Result<(), String> {
        let g = |i: usize| c.ops.get(i).copied().unwrap_or(0) as usize;
        let make = |n: usize| {
            let mut v = c.s.clone();
            if c.t.is_empty() {
                gen::run_text(n, g(2), g(3), g(4), &mut v);
            } else {
                for _ in 0..n / c.t.len() {
                    v.extend_from_slice(&c.t);
                }
            }
            v
        };
        let (short, long) = (make(GROWTH.0), make(GROWTH.1));
        o.nontrivial = long.iter().any(|&x| x > '\x7f');
        for ((name, a), (_, b)) in steps(&short).into_iter().zip(steps(&long)) {
            let (pa, pb) = (a as f64 / short.len() as f64, b as f64 / long.len() as f64);
            if g(1) == 77 {
                eprintln!("{name}: {pa:.1} {pb:.1} steps a character, {:.2}", pb / pa);
            }
            if pb > 2.5 * pa + 20.0 {
                return Err(format!("{name} takes {pa:.1} steps a character over {} characters and {pb:.1} over {}: more than n log n", short.len(), long.len()));
            }
        }
        Ok(())
    }
    fn lengths(t: &mut Tape) -> usize {
        match t.below(10) {
            0..=3 => t.range(200, 2000),
            4..=7 => t.range(2000, 15_000),
            8 => t.range(15_000, 60_000),
            _ => t.range(60_000, 150_000),
        }
    }
    fn patterned(t: &mut Tape, c: &mut Case) {
        match t.below(4) {
            0 => {}
            1 => gen::long_runs(t, &mut c.s),
            _ => gen::text(t, &mut c.s),
        }
        c.s.truncate(2000);
        match t.below(6) {
            0 => c.t.push(gen::mark(t)),
            1 => {
                for _ in 0..t.range(2, 6) {
                    c.t.push(gen::mark(t));
                }
            }
            2 => gen::long_runs(t, &mut c.t),
            _ => gen::text(t, &mut c.t),
        }
        c.t.truncate(200);
        if c.t.is_empty() {
            c.t.push('\u{301}');
        }
        if t.chance(1, 2) {
            c.t = refimpl::stream_safe(&c.t);
            // end in a starter, so that the repetition is stream-safe
            c.t.push(['a', '\u{ac00}', '\u{e9}', '\u{1100}', '\u{915}', '\u{f900}', '\u{fdfa}'][t.below(7)]);
        }
        let n = lengths(t);
        c.ops.push((n / c.t.len() + 1) as u32);
        c.ops.push(t.below(3) as u32);
    }
    /// every style of run at growing lengths, after and before ordinary text
    fn grown(i: u64, c: &mut Case) {
        let i = i as usize;
        let n = [300, 1000, 3000, 10_000, 30_000, 100_000][i % 6];
        let style = i / 6 % 14;
        gen::run_text(n, style, i / 84 % 6, i / 84 % 7, &mut c.s);
    }
    /// every character of interest repeated, alone or after a base
    fn repeated(i: u64, c: &mut Case) {
        let p = gen::pools();
        let x = p.interesting[i as usize / 2];
        if i % 2 == 1 {
            c.t.push(['a', '\u{301}', '\u{1100}', '\u{915}'][i as usize / 2 % 4]);
        }
        c.t.push(x);
        c.ops.extend([1500, 0]);
    }
    fn growths(i: u64, c: &mut Case) {
        let i = i as usize;
        c.ops.extend([GROW, 0]);
        if i < 84 {
            c.ops.extend([i / 6, i % 6, i % 7].map(|x| x as u32));
            return;
        }
        c.ops.extend([0, 0, 0]);
        let p = gen::pools();
        match i - 84 {
            0 => c.t.push('a'),
            1 => c.t.extend("e\u{301}\u{327}x".chars()),
            2 => c.t.push('\u{ac01}'),
            3 => c.t.extend("\u{1100}\u{1161}\u{11a8}".chars()),
            4 => c.t.push('\u{1161}'),
            5 => c.t.extend("\u{915}\u{94d}\u{915}\u{93c}".chars()),
            6 => c.t.push('\u{fdfa}'),
            7 => c.t.push('\u{f900}'),
            8 => c.t.push('\u{9be}'),
            9 => c.t.push('\u{ff9e}'),
            10 => c.t.extend("\u{1d15e}\u{1d165}\u{1d16e}".chars()),
            11 => c.t.push('\u{34f}'),
            12 => c.t.extend("\u{1e9b}\u{323}".chars()),
            13 => {
                c.t.extend(std::iter::repeat('\u{301}').take(30));
                c.t.push('a');
            }
            14 => {
                c.t.extend((0..100).map(|k| p.marks[k * 7 % p.marks.len()]));
                c.t.push('o');
            }
            _ => {
                let mut t = Tape::seeded(77, 0, i as u64);
                gen::text(&mut t, &mut c.t);
                c.t.truncate(300);
                c.t.push('z');
            }
        }
    }
    Prop {
        id: "C20",
        check,
        rule: "long texts made of a pattern repeated, mark runs of every style up to 100000, every character of interest repeated 1500 times; peak live bytes by a counting allocator; executed code edges and bytes moved by compiled-in counters, against 400 n (log2 n + 1). Non-trivial if the text is longer than 200 characters and has a non-starter; distinct by the hash of the pattern and count",
        labels: &["stream_safe", "run_over_1000", "10000_chars", "100000_chars"],
        stages: vec![
            Stage { name: "mark runs of every style, 300 to 100000", gen: Gen::Exhaustive(|| 84 * 6, grown) },
            Stage { name: "steps a character at 4000 and at 400000 characters", gen: Gen::Exhaustive(|| 84 + 15 + 30, growths) },
            Stage { name: "every character of interest repeated", gen: Gen::Exhaustive(|| gen::pools().interesting.len() as u64 * 2, repeated) },
            Stage { name: "random patterns repeated", gen: Gen::Random(1_500, 60_000, patterned) },
        ],
        fuzz: None,
    }
}
