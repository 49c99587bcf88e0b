//! C23: an adapter over a source that can change threads is moved to another thread between steps, and read from several
//! threads at once; what it gives is what it gives on one.
use vp::engine::{Case, Gen, Obs, Prop, Stage, Tape};
use vp::props::history::{expected, Ad, KINDS};
use vp::{gen, with_adapter};

/// Any thread may have it, and several may look at it.
fn free<T: Send + Sync>(_: &T) {}

fn elsewhere<R: Send>(f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| s.spawn(f).join().unwrap_or_else(|e| std::panic::resume_unwind(e)))
}
fn hop<A: Ad + Send + Sync>(kind: usize, mut it: A, want: &[char], c: &Case, o: &mut Obs) -> Result<(), String> {
    free(&it);
    let mut pos = 0;
    let wrong = |what: &str, pos: usize, got: String| Err(format!("{} {what}, at output {pos}: {got}; expected {:x?}", KINDS[kind], &want[pos..].iter().map(|&c| c as u32).collect::<Vec<_>>()));
    for &x in c.ops.iter().skip(1).take(12) {
        let n = (x / 4) as usize % 6;
        match x % 4 {
            // n steps over there
            0 | 1 => {
                let (back, v) = elsewhere(move || {
                    let mut v = vec![];
                    for _ in 0..n {
                        v.extend(it.next());
                    }
                    (it, v)
                });
                it = back;
                if v != want[pos..(pos + n).min(want.len())] {
                    return wrong("moved to another thread", pos, format!("{v:x?}"));
                }
                pos += v.len();
            }
            // n steps here
            2 => {
                for _ in 0..n {
                    let got = it.next();
                    if got != want.get(pos).copied() {
                        return wrong("on its first thread again", pos, format!("{got:x?}"));
                    }
                    pos = (pos + 1).min(want.len());
                }
            }
            // read by several at once
            _ => {
                let rest: String = want[pos..].iter().collect();
                let it = &it;
                let bad = std::thread::scope(|s| {
                    let hs: Vec<_> = (0..3)
                        .map(|k| {
                            let rest = &rest;
                            s.spawn(move || {
                                let (lo, hi) = it.size_hint();
                                let n = rest.chars().count();
                                if lo > n || hi.map_or(false, |h| h < n) {
                                    return Some(format!("size_hint ({lo}, {hi:?}) for {n} characters"));
                                }
                                let (copy, text) = if k % 2 == 0 { (it.dup(), it.text()) } else { (None, it.text()) };
                                if text.as_ref().map_or(false, |t| t != rest) {
                                    return Some(format!("formatted as {text:?}"));
                                }
                                let v: Option<String> = copy.map(|c| c.collect());
                                v.filter(|v| v != rest).map(|v| format!("a copy gave {v:?}"))
                            })
                        })
                        .collect();
                    hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a panic".into()))).next()
                });
                if let Some(m) = bad {
                    return wrong("read by several threads", pos, m);
                }
            }
        }
        o.nontrivial |= pos > 0 && pos < want.len();
    }
    let rest: Vec<char> = elsewhere(move || it.collect());
    if rest != want[pos..] {
        return wrong("collected on another thread", pos, format!("{rest:x?}"));
    }
    Ok(())
}
fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
    let kind = c.ops.first().copied().unwrap_or(0) as usize % 6;
    let want = expected(kind, &c.s);
    if c.ops.first().copied().unwrap_or(0) % 2 == 0 {
        with_adapter!(kind, c.s.clone().into_iter(), it => hop(kind, it, &want, c, o))
    } else {
        let s: String = c.s.iter().collect();
        with_adapter!(kind, s.chars(), it => hop(kind, it, &want, c, o))
    }
}
fn history(t: &mut Tape, c: &mut Case) {
    c.ops.push(t.below(12) as u32);
    for _ in 0..t.range(1, 8) {
        c.ops.push(t.below(24) as u32);
    }
}
fn main() {
    let stages = vec![
        Stage {
            name: "adapters moved between threads, random texts",
            gen: Gen::Random(20_000, 600_000, |t, c| {
                match t.below(3) {
                    0 => gen::near_normalized(t, &mut c.s),
                    1 => gen::long_runs(t, &mut c.s),
                    _ => gen::text(t, &mut c.s),
                }
                history(t, c);
            }),
        },
        Stage {
            name: "adapters moved between threads, characters of interest",
            gen: Gen::Random(10_000, 300_000, |t, c| {
                let p = gen::pools();
                for _ in 0..t.range(1, 6) {
                    c.s.push(t.pick(&p.interesting));
                    for _ in 0..t.below(4) {
                        c.s.push(t.pick(&p.marks));
                    }
                }
                history(t, c);
            }),
        },
    ];
    vpcore::cli::main(
        vec![Prop { id: "C23", check, rule: "an adapter is advanced on several threads in turn, or read on several at once, with some of its output taken and some to come", labels: &[], stages, fuzz: None }],
        |_| String::new(),
    )
}
