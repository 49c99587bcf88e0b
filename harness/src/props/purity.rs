//! C18 (entry points agree) and C23 (no dependence on history or threads).
use super::history::{expected, KINDS};
use crate::engine::{show, Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl::{self, Form};
use crate::source::{self, Src};
use crate::ucd::u;
use crate::{with_adapter, with_form};
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::sync::Arc;

/// An iterator that hands out its characters in batches and knows other ways to be consumed.
struct Batched<'a> {
    s: &'a [char],
    batch: VecDeque<char>,
    size: usize,
}
impl<'a> Iterator for Batched<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.batch.is_empty() {
            let n = self.size.min(self.s.len());
            self.batch.extend(&self.s[..n]);
            self.s = &self.s[n..];
        }
        self.batch.pop_front()
    }
    fn fold<B, F: FnMut(B, char) -> B>(self, mut b: B, mut f: F) -> B {
        for c in self.batch {
            b = f(b, c);
        }
        for &c in self.s {
            b = f(b, c);
        }
        b
    }
    fn nth(&mut self, n: usize) -> Option<char> {
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.batch.len(), None)
    }
}

/// `$body` for `$it` bound to each way of giving the characters of a text to the library.
macro_rules! each_source {
    ($c:expr, $st:expr, $name:ident, $it:ident => $body:expr) => {{
        let (s, st): (&[char], &str) = ($c, $st);
        macro_rules! one {
            ($n:expr, $e:expr) => {{
                let $name = $n;
                let $it = $e;
                $body
            }};
        }
        one!("Chars", st.chars());
        one!("slice iter", s.iter().copied());
        one!("vec into_iter", s.to_vec().into_iter());
        one!("deque", s.iter().copied().collect::<VecDeque<char>>().into_iter());
        one!("twice reversed", st.chars().rev().collect::<Vec<_>>().into_iter().rev());
        one!("chain", s[..s.len() / 2].iter().copied().chain(s[s.len() / 2..].iter().copied()));
        one!("filter", st.chars().filter(|c| *c as u32 != u32::MAX));
        one!("char_indices map", st.char_indices().map(|x| x.1));
        one!("boxed dyn", Box::new(s.iter().copied()) as Box<dyn Iterator<Item = char>>);
        one!("peekable", s.iter().copied().peekable());
        one!("batched", Batched { s, batch: VecDeque::new(), size: 1 + s.len() % 5 });
        one!("from_fn", {
            let mut i = 0;
            std::iter::from_fn(move || {
                i += 1;
                s.get(i - 1).copied()
            })
        });
        one!("flat_map", s.chunks(3).flat_map(|x| x.iter().copied()));
        let a: Arc<[char]> = s.into();
        for h in 0..source::HINTS {
            one!("source that counts, fused", Src::<true>::new(a.clone(), h));
        }
        one!("source that counts, not fused", Src::<false>::new(a.clone(), 1));
        let mut lent = Src::<true>::new(a.clone(), 0);
        one!("by_ref", lent.by_ref());
    }};
}

pub fn c18() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        source::reset_stats();
        let st = string(&c.s);
        let s = &c.s[..];
        for (k, name) in KINDS.iter().enumerate() {
            // the slice is what the others are compared with
            let want: Vec<char> = with_adapter!(k, st.as_str(), it => take(it, bound(s.len())));
            o.nontrivial |= want != s;
            each_source!(s, &st, n, it => with_adapter!(k, it, a => same(|| format!("{name} of {n}, compared with that of the str"), a, &want)?));
            // constructors
            let w = || format!("{name} by its constructor, compared with that of the str");
            match k {
                0 => same(w, Decompositions::new_canonical(st.chars()), &want)?,
                1 => same(w, Decompositions::new_compatible(s.iter().copied()), &want)?,
                2 => same(w, Recompositions::new_canonical(st.chars()), &want)?,
                3 => same(w, Recompositions::new_compatible(s.iter().copied()), &want)?,
                4 => same(w, Replacements::new_cjk_compat_variants(st.chars()), &want)?,
                _ => same(w, StreamSafe::new(s.iter().copied()), &want)?,
            }
            if k < 5 {
                let t: String = match k {
                    0 => st.as_str().nfd().to_string(),
                    1 => st.as_str().nfkd().to_string(),
                    2 => st.as_str().nfc().to_string(),
                    3 => st.as_str().nfkc().to_string(),
                    _ => st.as_str().cjk_compat_variants().to_string(),
                };
                same(|| format!("{name} formatted, compared with collected"), t.chars(), &want)?;
            }
            // each character by itself (at most eight of a long text)
            let step = (s.len() / 8).max(1);
            for &x in s.iter().step_by(step) {
                let one: String = x.to_string();
                let want: Vec<char> = with_adapter!(k, one.as_str(), it => take(it, 60));
                with_adapter!(k, x, it => same(|| format!("{name} of the char U+{:04X}, compared with that of the one-character str", x as u32), it, &want)?);
                // the per-character functions agree with the adapters
                let mut v = vec![];
                match k {
                    0 => uc::decompose_canonical(x, |c| v.push(c)),
                    1 => uc::decompose_compatible(x, |c| v.push(c)),
                    4 => uc::decompose_cjk_compat_variants(x, |c| v.push(c)),
                    _ => continue,
                }
                if v.len() > 1 && k < 2 {
                    // a decomposition is already in canonical order in every version of Unicode
                    want_eq(|| format!("per-character function for {name} of U+{:04X}", x as u32), &v, &want)?;
                } else {
                    want_eq(|| format!("per-character function for {name} of U+{:04X}", x as u32), &v, &want)?;
                }
            }
        }
        for (f, ss) in QUICKS {
            let want = quick(f, ss, st.chars());
            o.label(0, want == refimpl::Qc::Maybe);
            each_source!(s, &st, n, it => {
                let got = quick(f, ss, it);
                if got != want {
                    return Err(format!("quick check {}{} of {n} is {got:?}, of the str's characters {want:?}", cc(f), if ss { " stream-safe" } else { "" }));
                }
            });
        }
        Ok(())
    }
    fn short(t: &mut Tape, c: &mut Case) {
        gen::mixed(t, &mut c.s);
        c.s.truncate(250);
    }
    Prop {
        id: "C18",
        check,
        rule: "each text is given to each of the six transformations and six quick checks as a str and as 23 kinds of iterator, through trait, constructor, formatting and single characters; non-trivial if some transformation changes the text; distinct by the hash of the text",
        labels: &["a_quick_check_says_maybe"],
        stages: vec![
            Stage {
                name: "every scalar value",
                gen: Gen::Exhaustive(|| gen::pools().all.len() as u64, |i, c| {
                    c.s.push(gen::pools().all[i as usize]);
                    if i % 4 == 1 {
                        c.s.push('\u{301}');
                    }
                }),
            },
            Stage {
                name: "characters of interest in contexts",
                gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 37, |i, c| gen::interesting_contexts(i * 37 + i / 13 % 37, c)),
            },
            Stage { name: "mark runs", gen: Gen::Exhaustive(|| gen::runs_short_count() / 11, |i, c| gen::runs(i * 11 + i % 11, c)) },
            Stage { name: "plain text of every length around something", gen: Gen::Exhaustive(|| gen::padded_count() / 7, |i, c| gen::padded(i * 7 + i / 90 % 7, c)) },
            Stage { name: "random texts", gen: Gen::Random(100_000, 3_000_000, short) },
        ],
        fuzz: Some(short),
    }
}

// ---------------------------------------------------------------------------------------------------------------------

pub fn name_of(op: usize) -> &'static str {
    [
        "canonical_combining_class", "compose", "decompose_canonical", "decompose_compatible", "decompose_cjk_compat_variants",
        "is_combining_mark and is_public_assigned", "nfd and is_nfd", "nfkd and is_nfkd", "nfc and is_nfc", "nfkc and is_nfkc", "stream_safe", "cjk_compat_variants",
        "a quick check", "a quick check", "is_nfc_stream_safe and is_nfd_stream_safe", "part of an adapter", "an adapter formatted", "quick and full predicate", "stream_safe then nfc", "the forms of one char",
    ][op % 20]
}
fn args_of(n: usize, s: &[char]) -> (char, char) {
    if s.is_empty() {
        ('a', '\u{301}')
    } else {
        (s[n % s.len()], s[(n / 3 + 1) % s.len()])
    }
}
fn nums(v: impl IntoIterator<Item = char>) -> Vec<u32> {
    v.into_iter().map(|c| c as u32).collect()
}
fn forms_order(k: usize) -> Form {
    [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc][k % 4]
}
/// One call (or two) of the library with arguments taken from a text; what it answers, as numbers.
pub fn lib_answer(op: usize, n: usize, s: &[char]) -> Vec<u32> {
    let (x, y) = args_of(n, s);
    let mut v = vec![];
    let all = |it: &mut dyn Iterator<Item = char>| nums(take(it, bound(s.len())));
    match op % 20 {
        0 => return vec![uc::canonical_combining_class(x) as u32],
        1 => return vec![uc::compose(x, y).map_or(u32::MAX, |c| c as u32)],
        2 => uc::decompose_canonical(x, |c| v.push(c)),
        3 => uc::decompose_compatible(x, |c| v.push(c)),
        4 => uc::decompose_cjk_compat_variants(x, |c| v.push(c)),
        5 => return vec![uc::is_combining_mark(x) as u32, uc::is_public_assigned(x) as u32],
        k @ 6..=9 => {
            let st = string(s);
            let mut r = with_form!(forms_order(k - 6), st.as_str(), it => all(&mut it));
            r.push(is_form(forms_order(k - 6), &st) as u32);
            return r;
        }
        10 => return nums(lib_stream_safe(s)),
        11 => return all(&mut s.iter().copied().cjk_compat_variants()),
        12 | 13 => {
            let (f, ss) = QUICKS[n % 6];
            return vec![quick(f, ss, s.iter().copied()) as u32];
        }
        14 => {
            let st = string(s);
            return vec![un::is_nfc_stream_safe(&st) as u32, un::is_nfd_stream_safe(&st) as u32];
        }
        15 => {
            // an iterator abandoned half way
            let k = n % (s.len() + 1);
            return with_form!(forms_order(n), s.iter().copied(), it => all(&mut it.by_ref().take(k)));
        }
        16 => {
            let st = string(s);
            return nums(with_form!(forms_order(n), st.as_str(), it => it.to_string()).chars().collect::<Vec<_>>());
        }
        17 => {
            let f = forms_order(n);
            return vec![quick(f, false, s.iter().copied()) as u32, is_form(f, &string(s)) as u32];
        }
        18 => return all(&mut s.iter().copied().stream_safe().nfc()),
        _ => {
            let mut r = vec![];
            for k in 0..4 {
                r.extend(with_form!(forms_order(n + k), x, it => nums(take(it, 60))));
            }
            return r;
        }
    }
    nums(v)
}
/// What the reference answers.
pub fn ref_answer(op: usize, n: usize, s: &[char]) -> Vec<u32> {
    let d = u();
    let (x, y) = args_of(n, s);
    let norm = |k: usize, s: &[char]| refimpl::norm(forms_order(k), s);
    match op % 20 {
        0 => vec![d.cc(x) as u32],
        1 => vec![d.compose(x, y).map_or(u32::MAX, |c| c as u32)],
        k @ (2 | 3) => nums(d.dec_of(x, k == 3).iter().copied()),
        4 => nums(refimpl::cjk(&[x])),
        5 => vec![d.mark[x as usize] as u32, d.assigned[x as usize] as u32],
        k @ 6..=9 => {
            let w = norm(k - 6, s);
            let same = w == s;
            let mut r = nums(w);
            r.push(same as u32);
            r
        }
        10 => nums(refimpl::stream_safe(s)),
        11 => nums(refimpl::cjk(s)),
        12 | 13 => {
            let (f, ss) = QUICKS[n % 6];
            vec![refimpl::quick(f, ss, s).0 as u32]
        }
        14 => {
            let run = refimpl::max_run(s);
            [Form::Nfc, Form::Nfd].iter().map(|&f| (run <= 30 && refimpl::norm(f, s) == s) as u32).collect()
        }
        15 => nums(norm(n, s).into_iter().take(n % (s.len() + 1))),
        16 => nums(norm(n, s)),
        17 => {
            let f = forms_order(n);
            vec![refimpl::quick(f, false, s).0 as u32, (refimpl::norm(f, s) == s) as u32]
        }
        18 => nums(norm(2, &refimpl::stream_safe(s))),
        _ => (0..4).flat_map(|k| nums(norm(n + k, &[x]))).collect(),
    }
}
/// The call, compared with the reference.
fn one_call(op: usize, n: usize, s: &[char]) -> Result<(), String> {
    let (got, want) = (lib_answer(op, n, s), ref_answer(op, n, s));
    if got == want {
        return Ok(());
    }
    Err(format!("{} (op {op} {n}) of {} answered {got:x?}, expected {want:x?}", name_of(op), show(s)))
}

enum Live {
    D(Decompositions<std::vec::IntoIter<char>>),
    C(Recompositions<std::vec::IntoIter<char>>),
    R(Replacements<std::vec::IntoIter<char>>),
    S(StreamSafe<std::vec::IntoIter<char>>),
}
impl Iterator for Live {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        match self {
            Live::D(x) => x.next(),
            Live::C(x) => x.next(),
            Live::R(x) => x.next(),
            Live::S(x) => x.next(),
        }
    }
}
fn make(kind: usize, s: &[char]) -> Live {
    let i = s.to_vec().into_iter();
    match kind {
        0 => Live::D(i.nfd()),
        1 => Live::D(i.nfkd()),
        2 => Live::C(i.nfc()),
        3 => Live::C(i.nfkc()),
        4 => Live::R(i.cjk_compat_variants()),
        _ => Live::S(i.stream_safe()),
    }
}

/// Several texts in one case, separated in s by U+0000 (a starter that never changes).
pub fn parts(s: &[char]) -> Vec<&[char]> {
    s.split(|&c| c == '\0').collect()
}
fn interleave(texts: &[&[char]], ops: &[u32], o: &mut Obs) -> Result<(), String> {
    let mut live: Vec<(Live, Vec<char>, usize, String)> = vec![];
    let mut hist = String::new();
    for (k, op) in ops.chunks(3).enumerate() {
        let g = |i: usize| op.get(i).copied().unwrap_or(0) as usize;
        let s = texts[g(1) % texts.len()];
        use std::fmt::Write as _;
        let _ = write!(hist, "{}.{}.{} ", g(0) % 28, g(1), g(2));
        let r = match g(0) % 28 {
            20 | 21 => {
                // a new adapter joins (or replaces one half consumed)
                let kind = g(2) % 6;
                let e = (make(kind, s), expected(kind, s), 0, format!("{} of {}", KINDS[kind], show(s)));
                if live.len() < 6 {
                    live.push(e)
                } else {
                    live[g(1) % 6] = e;
                }
                Ok(())
            }
            22..=27 => {
                // advance one of the live ones
                if live.is_empty() {
                    Ok(())
                } else {
                    let n = live.len();
                    let (it, want, pos, name) = &mut live[g(1) % n];
                    let mut r = Ok(());
                    for _ in 0..g(2) % 4 + 1 {
                        let got = it.next();
                        if got != want.get(*pos).copied() {
                            r = Err(format!("{name}: output {pos} is {got:?}, expected {:?}", want.get(*pos)));
                            break;
                        }
                        *pos = (*pos + 1).min(want.len());
                    }
                    r
                }
            }
            op => one_call(op, g(2), s),
        };
        if let Err(m) = r {
            return Err(format!("call {k} of the history [{hist}]: {m}"));
        }
    }
    o.label(0, live.len() > 1);
    for (it, want, pos, name) in live {
        same(|| format!("the rest of {name} after [{hist}]"), it, &want[pos..])?;
    }
    Ok(())
}

/// Calls to make from inside another: by a source when it is asked, a callback, a writer.
struct Calls<'a> {
    texts: &'a [&'a [char]],
    ops: &'a [u32],
    at: Cell<usize>,
    depth: Cell<usize>,
    err: RefCell<Option<String>>,
}
impl Calls<'_> {
    fn one(&self) {
        if self.ops.len() < 3 || self.err.borrow().is_some() {
            return;
        }
        let k = self.at.get();
        self.at.set((k + 1) % (self.ops.len() / 3));
        let (op, i, n) = (self.ops[3 * k] as usize, self.ops[3 * k + 1] as usize, self.ops[3 * k + 2] as usize);
        let s = self.texts[i % self.texts.len()];
        let r = if op < 20 || self.depth.get() > 2 || s.len() > 12 {
            one_call(op, n, s)
        } else {
            nested(op, n, s, self)
        };
        if let Err(m) = r {
            self.err.borrow_mut().get_or_insert(m);
        }
    }
}
#[derive(Clone)]
struct Asking<'a> {
    s: &'a [char],
    calls: &'a Calls<'a>,
}
impl Iterator for Asking<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.calls.one();
        let (&c, rest) = self.s.split_first()?;
        self.s = rest;
        Some(c)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.calls.one();
        (self.s.len(), Some(self.s.len()))
    }
}
struct AskingWriter<'a>(String, &'a Calls<'a>);
impl std::fmt::Write for AskingWriter<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1.one();
        self.0.push_str(s);
        self.1.one();
        Ok(())
    }
}
/// One call from inside of which others are made.
fn nested(op: usize, n: usize, s: &[char], calls: &Calls) -> Result<(), String> {
    use std::fmt::Write as _;
    calls.depth.set(calls.depth.get() + 1);
    let (x, _) = args_of(n, s);
    let src = || Asking { s, calls };
    let all = |it: &mut dyn Iterator<Item = char>| nums(take(it, bound(s.len())));
    let mut v = vec![];
    let mut emit = |c| {
        v.push(c);
        calls.one();
    };
    let (got, want) = match op % 16 {
        k @ 0..=2 => {
            match k {
                0 => uc::decompose_canonical(x, &mut emit),
                1 => uc::decompose_compatible(x, &mut emit),
                _ => uc::decompose_cjk_compat_variants(x, &mut emit),
            }
            (nums(v), ref_answer(2 + k, n, s))
        }
        k @ 3..=6 => (with_form!(forms_order(k - 3), src(), it => all(&mut it)), nums(refimpl::norm(forms_order(k - 3), s))),
        7 => (all(&mut src().stream_safe()), nums(refimpl::stream_safe(s))),
        8 => (all(&mut src().cjk_compat_variants()), nums(refimpl::cjk(s))),
        9 | 10 => {
            let (f, ss) = QUICKS[n % 6];
            (vec![quick(f, ss, src()) as u32], ref_answer(12, n, s))
        }
        k => {
            // formatted, to a writer that asks, over a source that asks
            let mut w = AskingWriter(String::new(), calls);
            let want = if k == 15 {
                let _ = write!(w, "{}", src().cjk_compat_variants());
                refimpl::cjk(s)
            } else {
                with_form!(forms_order(k - 11), src(), it => {
                    let _ = write!(w, "{it}");
                });
                refimpl::norm(forms_order(k - 11), s)
            };
            (nums(w.0.chars()), nums(want))
        }
    };
    calls.depth.set(calls.depth.get() - 1);
    if got != want {
        return Err(format!("a call (kind {}, {n}) about {} with calls made from inside it answered {got:x?}, expected {want:x?}", op % 16, show(s)));
    }
    Ok(())
}
const NESTED: u32 = 1000;

pub fn c23() -> Prop {
    // ops[0] = 1000: calls inside calls. ops[0] = 0: one thread; n > 0: the history is run by n + 1 threads at once, each starting at a different place
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let texts = parts(&c.s);
        let threads = c.ops.first().copied().unwrap_or(0) as usize % 8;
        let ops = c.ops.get(1..).unwrap_or(&[]);
        o.nontrivial = ops.len() > 3 && c.s.iter().any(|&x| x > '\x7f');
        if c.ops.first() == Some(&NESTED) {
            let calls = Calls { texts: &texts, ops: ops.get(3..).unwrap_or(&[]), at: Cell::new(0), depth: Cell::new(0), err: RefCell::new(None) };
            let g = |i: usize| ops.get(i).copied().unwrap_or(0) as usize;
            nested(g(0), g(2), texts[g(1) % texts.len()], &calls)?;
            return calls.err.take().map_or(Ok(()), |m| Err(format!("called from inside another call: {m}")));
        }
        if threads == 0 {
            return interleave(&texts, ops, o);
        }
        o.label(1, true);
        let barrier = std::sync::Barrier::new(threads + 1);
        let res: Vec<Result<(), String>> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..=threads)
                .map(|t| {
                    let (texts, barrier) = (&texts, &barrier);
                    sc.spawn(move || {
                        let k = (ops.len() / 3 * t / (threads + 1)) * 3;
                        let mut mine = ops[k..].to_vec();
                        mine.extend_from_slice(&ops[..k]);
                        let mut o = Obs::default();
                        barrier.wait();
                        for _ in 0..3 {
                            interleave(texts, &mine, &mut o)?;
                        }
                        Ok(())
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("panic in a thread".into()))).collect()
        });
        for (t, r) in res.into_iter().enumerate() {
            r.map_err(|m| format!("thread {t} of {}: {m}", threads + 1))?;
        }
        Ok(())
    }
    fn texts(t: &mut Tape, c: &mut Case) {
        for k in 0..t.range(1, 4) {
            if k > 0 {
                c.s.push('\0');
            }
            let mut v = vec![];
            match t.below(12) {
                0 => gen::long_runs(t, &mut v),
                1 => gen::near_normalized(t, &mut v),
                _ => gen::text(t, &mut v),
            }
            v.retain(|&x| x != '\0');
            v.truncate(120);
            c.s.extend(v);
        }
    }
    fn history(t: &mut Tape, c: &mut Case) {
        texts(t, c);
        c.ops.push(0);
        let n = match t.below(4) {
            0 => t.range(1, 6),
            1 | 2 => t.range(5, 25),
            _ => t.range(20, 80),
        };
        for _ in 0..n {
            c.ops.extend([t.below(28) as u32, t.below(6) as u32, t.below(200) as u32]);
        }
    }
    fn threaded(t: &mut Tape, c: &mut Case) {
        history(t, c);
        c.ops[0] = t.range(1, 7) as u32;
    }
    fn inside(t: &mut Tape, c: &mut Case) {
        for k in 0..t.range(1, 3) {
            if k > 0 {
                c.s.push('\0');
            }
            let mut v = vec![];
            gen::mixed(t, &mut v);
            v.retain(|&x| x != '\0');
            let k = t.below(v.len() + 1);
            let n = [3, 8, 16, 40][t.below(4)];
            c.s.extend(v.into_iter().skip(k).take(n));
        }
        c.ops.push(NESTED);
        for _ in 0..t.range(2, 10) {
            c.ops.extend([t.below(36) as u32, t.below(6) as u32, t.below(200) as u32]);
        }
    }
    /// the same call on x, then on y, then on x again, for related characters
    fn memory(t: &mut Tape, c: &mut Case) {
        let p = gen::pools();
        for _ in 0..t.range(1, 3) {
            let x = t.pick(&p.interesting);
            let y = match t.below(3) {
                0 => char::from_u32((x as u32) ^ (1 << t.below(17))).unwrap_or('b'),
                1 => char::from_u32((x as u32 & 0xffff) + 0x10000 * t.below(17) as u32).unwrap_or('c'),
                _ => gen::any_scalar(t),
            };
            c.s.extend([x, y].into_iter().filter(|&x| x != '\0'));
        }
        c.ops.push(0);
        let op = t.below(20) as u32;
        for _ in 0..t.range(3, 8) {
            c.ops.extend([if t.chance(1, 3) { t.below(20) as u32 } else { op }, 0, t.below(8) as u32]);
        }
    }
    Prop {
        id: "C23",
        check,
        rule: "a case is up to four texts and a history of calls of any public function on them, of adapters begun, advanced in turn, replaced and finished; or calls made from inside a source's next and size_hint, a callback or a writer of another call; or the same run by 2 to 8 threads started together, three times each. Every result is compared with the reference. Non-trivial if the history has more than one call and some text is not ASCII; distinct by the hash of texts and history",
        labels: &["several_live_adapters", "several_threads"],
        stages: vec![
            Stage { name: "repeated calls on related characters", gen: Gen::Random(800_000, 20_000_000, memory) },
            Stage { name: "random histories, one thread", gen: Gen::Random(400_000, 12_000_000, history) },
            Stage { name: "calls from inside sources, callbacks and writers", gen: Gen::Random(60_000, 2_000_000, inside) },
            Stage { name: "random histories, many threads at once", gen: Gen::Random(6_000, 150_000, threaded) },
        ],
        fuzz: Some(history),
    }
}
