//! C16, C17, C19: adapters as sequences under random histories of operations, against the reference output.
use crate::engine::{show, Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl::{self, Form, FORMS};
use crate::source::{self, Src};
use crate::ucd::u;
use std::fmt::Write as _;
use std::sync::Arc;

/// What the checks need of an adapter beyond Iterator.
pub trait Ad: Iterator<Item = char> + Sized {
    fn dup(&self) -> Option<Self>;
    /// clone into an existing one
    fn dup_into(&self, other: &mut Self) -> bool;
    fn disp(&self, w: &mut dyn std::fmt::Write) -> Option<std::fmt::Result>;
    fn text(&self) -> Option<String>;
    /// formatted with the k-th set of format options
    fn flagged(&self, k: usize) -> Option<String>;
}
macro_rules! ad {
    ($t:ident) => {
        impl<I: Iterator<Item = char> + Clone> Ad for $t<I> {
            fn dup(&self) -> Option<Self> {
                Some(self.clone())
            }
            fn dup_into(&self, other: &mut Self) -> bool {
                other.clone_from(self);
                true
            }
            fn disp(&self, w: &mut dyn std::fmt::Write) -> Option<std::fmt::Result> {
                Some(write!(w, "{}", self))
            }
            fn text(&self) -> Option<String> {
                Some(self.to_string())
            }
            fn flagged(&self, k: usize) -> Option<String> {
                Some(match k % 5 {
                    0 => format!("{:>400}", self),
                    1 => format!("{:.1}", self),
                    2 => format!("{:*^9.0}", self),
                    3 => format!("{:+#08}", self),
                    _ => format!("{self}"),
                })
            }
        }
    };
}
ad!(Decompositions);
ad!(Recompositions);
ad!(Replacements);
impl<I: Iterator<Item = char>> Ad for StreamSafe<I> {
    fn dup(&self) -> Option<Self> {
        None
    }
    fn dup_into(&self, _: &mut Self) -> bool {
        false
    }
    fn disp(&self, _: &mut dyn std::fmt::Write) -> Option<std::fmt::Result> {
        None
    }
    fn text(&self) -> Option<String> {
        None
    }
    fn flagged(&self, _: usize) -> Option<String> {
        None
    }
}
pub use super::tell::KINDS;
pub fn expected(kind: usize, s: &[char]) -> Vec<char> {
    match kind {
        0..=3 => refimpl::norm(FORMS[kind], s),
        4 => refimpl::cjk(s),
        _ => refimpl::stream_safe(s),
    }
}
/// Run `$body` with `$mk` bound to a function from a source to the adapter of the kind.
#[macro_export]
macro_rules! with_adapter {
    ($kind:expr, $src:expr, $it:ident => $body:expr) => {{
        use $crate::lib_api::UnicodeNormalization as _;
        match $kind {
            0 => {
                let $it = $src.nfd();
                $body
            }
            1 => {
                let $it = $src.nfkd();
                $body
            }
            2 => {
                let $it = $src.nfc();
                $body
            }
            3 => {
                let $it = $src.nfkc();
                $body
            }
            4 => {
                let $it = $src.cjk_compat_variants();
                $body
            }
            _ => {
                let $it = $src.stream_safe();
                $body
            }
        }
    }};
}

/// For each output character, how much of the source is needed to give it: (characters, whether also the end).
pub fn needs(kind: usize, s: &[char]) -> Vec<(usize, bool)> {
    let d = u();
    if kind >= 4 {
        let mut v = vec![];
        for (i, c) in s.iter().enumerate() {
            if kind == 4 {
                v.extend(std::iter::repeat((i + 1, false)).take(refimpl::cjk(&[*c]).len()));
            }
        }
        if kind == 5 {
            let o = refimpl::stream_safe(s);
            let mut i = 0;
            for c in o {
                v.push((i + 1, false));
                if c == s[i] && !(c == crate::ucd::CGJ && s[i] != c) {
                    i += 1;
                }
            }
        }
        return v;
    }
    let f = FORMS[kind];
    // decomposition with the source index of each character
    let mut raw: Vec<(char, usize)> = vec![];
    let mut b = vec![];
    for (i, &c) in s.iter().enumerate() {
        b.clear();
        d.decompose(c, f.compat(), &mut b);
        raw.extend(b.iter().map(|&x| (x, i)));
    }
    let end = (s.len(), true);
    // position p of the decomposition can be given once the run it is in has ended
    let mut nfd_need = vec![end; raw.len()];
    let mut next_starter = end;
    for p in (0..raw.len()).rev() {
        if d.cc(raw[p].0) == 0 {
            next_starter = (raw[p].1 + 1, false);
        }
        nfd_need[p] = next_starter;
    }
    if !f.composed() {
        return nfd_need;
    }
    let mut v: Vec<char> = raw.iter().map(|x| x.0).collect();
    refimpl::order(d, &mut v);
    // composition, remembering which segment every output character is in
    let mut out: Vec<char> = vec![];
    let mut need: Vec<(usize, bool)> = vec![];
    let mut starter: Option<usize> = None;
    for (p, &c) in v.iter().enumerate() {
        let cc = d.cc(c);
        if let Some(k) = starter {
            let blocked = out.len() - 1 > k && d.cc(*out.last().unwrap()) >= cc;
            if !blocked {
                if let Some(r) = d.compose(out[k], c) {
                    out[k] = r;
                    continue;
                }
            }
        }
        if cc == 0 {
            if let Some(k) = starter {
                // this starter ends the segment begun at k
                for n in &mut need[k..] {
                    *n = nfd_need[p];
                }
            }
            starter = Some(out.len());
        }
        out.push(c);
        need.push(if starter.is_some() { end } else { nfd_need[p] });
    }
    need
}

/// Fails at the write after `left` characters: from then on always, or, with `once`, only that time.
struct Limited {
    out: String,
    left: usize,
    once: bool,
    failed: bool,
}
impl std::fmt::Write for Limited {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.left == 0 && !(self.once && self.failed) {
                self.failed = true;
                return Err(std::fmt::Error);
            }
            self.left = self.left.saturating_sub(1);
            self.out.push(c);
        }
        Ok(())
    }
}

pub struct Shape {
    pub kind: usize,
    pub fused: bool,
    pub hint: u32,
    pub gap: Option<usize>,
    pub endless: bool,
}
/// ops[0..4] choose the adapter and the source; the rest are the history, three numbers per operation.
fn shape(c: &Case) -> Shape {
    let g = |i: usize| c.ops.get(i).copied().unwrap_or(0);
    let kind = g(0) as usize % 6;
    let fused = g(1) % 2 == 0;
    Shape {
        kind,
        fused,
        hint: g(2) % source::HINTS,
        gap: if !fused && kind < 4 && g(3) > 0 { Some((g(3) as usize - 1) % (c.s.len() + 1)) } else { None },
        endless: false,
    }
}

struct Live<A> {
    it: A,
    pos: usize,
    /// source id, when it is certain
    id: Option<usize>,
}
#[derive(Default, Clone, Copy)]
struct What {
    c16: bool,
    c19: bool,
}

fn drive<A: Ad>(first: A, id: usize, want: &[char], need: &[(usize, bool)], sh: &Shape, ops: &[u32], w: What, o: &mut Obs) -> Result<(), String> {
    let mut live: Vec<Live<A>> = vec![Live { it: first, pos: 0, id: Some(id) }];
    let len = want.len();
    let name = KINDS[sh.kind];
    // whatever is asked for beyond the end, the fused guarantee is checked only where it is promised
    let past_end_ok = sh.fused || sh.kind < 4;
    let pulled = |l: &Live<A>| l.id.map(|i| source::stat(i)).unwrap_or_default();
    let check_pull = |l: &Live<A>, upto: usize, what: &str| -> Result<(), String> {
        if !w.c19 {
            return Ok(());
        }
        let Some(i) = l.id else { return Ok(()) };
        let st = source::stat(i);
        if upto == 0 {
            if st.pulled > 0 || st.ends > 0 {
                return Err(format!("{name}: {what} pulled from the source before any output was asked for"));
            }
            return Ok(());
        }
        if upto > len {
            return Ok(());
        }
        let (n, end) = need[upto - 1];
        if st.pulled > n as u64 || (st.ends > 0 && !end) {
            return Err(format!(
                "{name}: after output {upto} of {len} ({what}) the source had been polled for {} characters{}, but {n}{} are enough",
                st.pulled,
                if st.ends > 0 { " and its end" } else { "" },
                if end { " and the end" } else { "" }
            ));
        }
        Ok(())
    };
    check_pull(&live[0], 0, "constructing")?;
    let mut hist = String::new();
    let mut end_by = None;
    for (k, op) in ops.chunks(3).take(60).enumerate() {
        if op[0] == END_BY {
            end_by = op.get(2).map(|&n| n as usize);
            break;
        }
        let g = |i: usize| op.get(i).copied().unwrap_or(0) as usize;
        let i = g(1) % live.len();
        let n = g(2);
        let _ = write!(hist, "{}#{i}({n}) ", g(0) % 20);
        let fail = |m: String| -> String { format!("{name}, operation {k} [{}] on copy {i}: {m}", hist) };
        let (nl, before) = (live.len(), pulled(&live[i]));
        let l = &mut live[i];
        let rest = &want[l.pos..];
        let expect = |got: &[char], want: &[char], what: &str| -> Result<(), String> {
            want_eq(|| what.to_string(), got, want)
        };
        let max = rest.len() + 40;
        let mut silent = false; // must not touch the source
        match g(0) % 20 {
            // next, several times
            0 | 1 | 2 => {
                for _ in 0..[1, 1, 2, 3, 7][n % 5] {
                    if l.pos >= len && !past_end_ok {
                        break;
                    }
                    let got = l.it.next();
                    if got != want.get(l.pos).copied() {
                        return Err(fail(format!("next gave {}, expected {} (output {} of {len}: {})", opt(got), opt(want.get(l.pos).copied()), l.pos, show(want))));
                    }
                    l.pos = (l.pos + 1).min(len);
                    if got.is_some() {
                        check_pull(l, l.pos, "next")?;
                    }
                }
            }
            3 => {
                let n = n % (rest.len() + if past_end_ok { 3 } else { 1 });
                if n >= rest.len() && !past_end_ok {
                    continue;
                }
                let got = l.it.nth(n);
                if got != rest.get(n).copied() {
                    return Err(fail(format!("nth({n}) gave {}, expected {} of {}", opt(got), opt(rest.get(n).copied()), show(rest))));
                }
                l.pos = (l.pos + n + 1).min(len);
                if got.is_some() {
                    check_pull(l, l.pos, "nth")?;
                }
            }
            4 | 5 => {
                silent = true;
                let (lo, hi) = l.it.size_hint();
                if lo > rest.len() || hi.map_or(false, |h| h < rest.len()) {
                    return Err(fail(format!("size_hint is ({lo}, {hi:?}), but {} characters are still to come", rest.len())));
                }
            }
            6 | 7 => {
                silent = true;
                let f = source::stats_len();
                if let Some(it) = l.it.dup() {
                    let pos = l.pos;
                    let id = if source::stats_len() == f + 1 { Some(f) } else { None };
                    let l2 = Live { it, pos, id };
                    if live.len() < 5 {
                        live.push(l2)
                    } else {
                        live[n % nl] = l2;
                        silent = n % nl != i;
                    }
                    if g(0) % 20 == 7 && live.len() > 1 && n % live.len() != i {
                        // the same once more by clone_from, onto whatever copy number n had left
                        let j = n % live.len();
                        let pos = live[i].pos;
                        let (a, b) = if i < j {
                            let (x, y) = live.split_at_mut(j);
                            (&x[i], &mut y[0])
                        } else {
                            let (x, y) = live.split_at_mut(i);
                            (&y[0], &mut x[j])
                        };
                        let f = source::stats_len();
                        if a.it.dup_into(&mut b.it) {
                            b.pos = pos;
                            b.id = if source::stats_len() == f + 1 { Some(f) } else { None };
                        }
                    }
                }
            }
            8 | 9 => {
                silent = true;
                let (s, what) = if g(0) % 20 == 8 { (l.it.text(), "to_string") } else { (l.it.flagged(n), "formatting with width, precision or flags") };
                if let Some(s) = s {
                    o.label(0, true);
                    expect(&s.chars().collect::<Vec<_>>(), rest, what).map_err(&fail)?;
                }
            }
            10 => {
                silent = true;
                let left = n % (rest.len() + 2);
                for once in [false, true] {
                    let mut lim = Limited { out: String::new(), left, once, failed: false };
                    if let Some(r) = l.it.disp(&mut lim) {
                        o.label(1, left < rest.len());
                        let what = if once { "what a writer that fails once got" } else { "what a writer that fails got" };
                        expect(&lim.out.chars().collect::<Vec<_>>(), &rest[..left.min(rest.len())], what).map_err(&fail)?;
                        if r.is_err() != (left < rest.len()) {
                            return Err(fail(format!("a writer that fails after {left} of {} characters: formatting returned {r:?}", rest.len())));
                        }
                    }
                }
            }
            11 => {
                let n = n % (rest.len() + 1);
                let v: Vec<char> = l.it.by_ref().take(n).collect();
                expect(&v, &rest[..n], "take(n)").map_err(&fail)?;
                l.pos += n;
                if n > 0 {
                    check_pull(l, l.pos, "take")?;
                }
            }
            12 => {
                if let Some(it) = l.it.dup() {
                    silent = true;
                    whole(it, n, rest).map_err(|m| fail(format!("consuming a clone whole: {m}")))?;
                }
            }
            13 => {
                if l.pos < len {
                    let target = rest[n % rest.len()];
                    let at = rest.iter().position(|&c| c == target).unwrap();
                    let got = if n % 2 == 0 { l.it.position(|c| c == target).map(|_| target) } else { l.it.find(|&c| c == target) };
                    if got != Some(target) {
                        return Err(fail(format!("find/position of {} gave {}", opt(Some(target)), opt(got))));
                    }
                    l.pos += at + 1;
                    check_pull(l, l.pos, "find")?;
                }
            }
            14 => {
                if l.pos < len {
                    let mut p = l.it.by_ref().peekable();
                    let a = p.peek().copied();
                    if a != Some(rest[0]) {
                        return Err(fail(format!("peek gave {}, expected {}", opt(a), opt(Some(rest[0])))));
                    }
                    l.pos += 1;
                    check_pull(l, l.pos, "peek")?;
                }
            }
            15 => {
                // try_fold stopping after n
                if l.pos < len {
                    let n = n % rest.len();
                    let mut k = 0;
                    let mut v = vec![];
                    let r: Result<(), ()> = l.it.try_for_each(|c| {
                        v.push(c);
                        k += 1;
                        if k > n {
                            Err(())
                        } else {
                            Ok(())
                        }
                    });
                    expect(&v, &rest[..n + 1], "try_for_each").map_err(&fail)?;
                    if r.is_ok() {
                        return Err(fail("try_for_each went on after the break".into()));
                    }
                    l.pos += n + 1;
                    check_pull(l, l.pos, "try_for_each")?;
                }
            }
            16 => {
                if let Some(it) = l.it.dup() {
                    silent = true;
                    let step = n % 4 + 1;
                    let v: Vec<char> = it.step_by(step).collect();
                    let e: Vec<char> = rest.iter().copied().step_by(step).collect();
                    expect(&v, &e, "step_by").map_err(&fail)?;
                }
            }
            17 => {
                if live.len() > 1 {
                    live.remove(i);
                }
                continue;
            }
            18 => {
                if l.pos < len {
                    let n = n % rest.len();
                    let mut s = String::new();
                    s.extend(l.it.by_ref().take(n));
                    expect(&s.chars().collect::<Vec<_>>(), &rest[..n], "extend a string by take(n)").map_err(&fail)?;
                    l.pos += n;
                }
            }
            _ => {
                // run to the end
                if n % 3 == 0 {
                    let v = take(l.it.by_ref(), max);
                    expect(&v, rest, "the rest").map_err(&fail)?;
                    l.pos = len;
                } else if let Some(it) = l.it.dup() {
                    silent = true;
                    expect(&take(it, max), rest, "the rest of a clone").map_err(&fail)?;
                }
            }
        }
        if silent && w.c19 {
            let after = pulled(&live[i]);
            if (after.pulled, after.ends) != (before.pulled, before.ends) {
                return Err(fail("an operation that must not consume anything (size_hint, clone, formatting, or use of a clone) pulled from the source".into()));
            }
        }
    }
    o.label(2, live.len() > 1);
    o.label(3, live[0].pos > 0 && live[0].pos < len);
    let sum = ops.iter().fold(0u32, |a, &b| a.wrapping_mul(5).wrapping_add(b)) as usize;
    for (i, mut l) in live.into_iter().enumerate() {
        let rest = &want[l.pos..];
        let max = rest.len() + 40;
        if end_by.is_some() || !sh.endless && (sum + i) % 2 == 1 {
            whole(l.it, end_by.unwrap_or((sum >> 1) + 7 * i), rest).map_err(|m| format!("{name}: copy {i}, consumed whole after [{hist}]: {m}"))?;
            if w.c19 && sh.kind < 4 && !sh.fused {
                if let Some(id) = l.id {
                    if source::stat(id).ends > 1 {
                        return Err(format!("{name}: copy {i} polled its source {} times at its end; it does not promise to be fused", source::stat(id).ends));
                    }
                }
            }
            continue;
        }
        let v = take(l.it.by_ref(), max);
        want_eq(|| format!("{name}: the remaining output of copy {i} after [{hist}]"), &v, rest)?;
        if past_end_ok {
            for k in 0..3 {
                if let Some(c) = l.it.next() {
                    return Err(format!("{name}: copy {i} gave U+{:04X} after it had ended (further call {k}), after [{hist}]", c as u32));
                }
            }
            let (lo, _) = l.it.size_hint();
            if lo > 0 && w.c16 {
                return Err(format!("{name}: exhausted copy {i} has size_hint lower bound {lo}"));
            }
        }
        if w.c19 && sh.kind < 4 && !sh.fused {
            if let Some(id) = l.id {
                if source::stat(id).ends > 1 {
                    return Err(format!("{name}: copy {i} polled its source {} times at its end; it does not promise to be fused", source::stat(id).ends));
                }
            }
        }
    }
    Ok(())
}
/// The operation that ends a history by consuming every copy by the method its third number names.
const END_BY: u32 = 99;
const WHOLE: usize = 24;
/// Consumes the adapter by one of the methods an adapter may have its own version of; `rest` is what it should yield.
fn whole<A: Iterator<Item = char>>(mut it: A, how: usize, rest: &[char]) -> Result<(), String> {
    let own = || rest.iter().copied();
    let one = |what: &str, got: Option<char>, want: Option<char>| if got == want { Ok(()) } else { Err(format!("{what} is {}, expected {}", opt(got), opt(want))) };
    let num = |what: &str, got: usize, want: usize| if got == want { Ok(()) } else { Err(format!("{what} is {got}, expected {want}")) };
    let yes = |what: &str, got: bool, want: bool| if got == want { Ok(()) } else { Err(format!("{what} is {got}, expected {want}")) };
    let all = |what: &str, got: Vec<char>| want_eq(|| what.to_string(), &got, rest);
    let mut v = vec![];
    match how % WHOLE {
        0 => num("count", it.count(), rest.len()),
        1 => one("last", it.last(), rest.last().copied()),
        2 => all(
            "fold",
            it.fold(v, |mut v, c| {
                v.push(c);
                v
            }),
        ),
        3 => {
            it.for_each(|c| v.push(c));
            all("for_each", v)
        }
        4 => all("collect into a string", it.collect::<String>().chars().collect()),
        5 => {
            let got: Vec<char> = it.skip(1).collect();
            want_eq(|| "skip(1)".into(), &got, &rest[1.min(rest.len())..])
        }
        6 => all("collect", it.collect()),
        7 => one("max", it.max(), own().max()),
        8 => one("min", it.min(), own().min()),
        9 => {
            let (a, b): (Vec<char>, Vec<char>) = it.partition(|c| (*c as u32) % 3 == 0);
            let (x, y): (Vec<char>, Vec<char>) = own().partition(|c| (*c as u32) % 3 == 0);
            want_eq(|| "partition, first part".into(), &a, &x)?;
            want_eq(|| "partition, second part".into(), &b, &y)
        }
        10 => yes("eq with the expected output", it.eq(own()), true),
        11 => yes("ne with the expected output", it.ne(own()), false),
        12 => yes("eq with a longer output", it.eq(own().chain(['x'])), false),
        13 => yes("cmp with the expected output is Equal", it.cmp(own()).is_eq(), true),
        14 => yes("lt a longer output", it.lt(own().chain(['\0'])), true),
        15 => one("reduce", it.reduce(|a, b| if (a as u32).wrapping_mul(7) % 11 < b as u32 % 11 { a } else { b }), own().reduce(|a, b| if (a as u32).wrapping_mul(7) % 11 < b as u32 % 11 { a } else { b })),
        16 => {
            let got = it.all(|c| {
                v.push(c);
                true
            });
            all("all", v)?;
            yes("all", got, true)
        }
        17 => {
            let got = it.any(|c| {
                v.push(c);
                false
            });
            all("any", v)?;
            yes("any", got, false)
        }
        18 => {
            let got = it.find_map(|c| {
                v.push(c);
                None::<char>
            });
            all("find_map", v)?;
            one("find_map", got, None)
        }
        19 => one("min_by_key", it.min_by_key(|c| (*c as u32) % 13), own().min_by_key(|c| (*c as u32) % 13)),
        20 => one("max_by_key", it.max_by_key(|c| (*c as u32) % 13), own().max_by_key(|c| (*c as u32) % 13)),
        21 => {
            let (a, b): (Vec<usize>, Vec<char>) = it.enumerate().unzip();
            num("the last index", a.last().map_or(0, |x| x + 1), rest.len())?;
            all("unzip", b)
        }
        22 => {
            v.extend(it);
            all("extend", v)
        }
        _ => yes("partial_cmp with the expected output is Equal", it.partial_cmp(own()).map_or(false, |o| o.is_eq()), true),
    }
}
fn opt(c: Option<char>) -> String {
    c.map_or("None".into(), |c| format!("U+{:04X}", c as u32))
}

fn run_case(c: &Case, o: &mut Obs, w: What) -> Result<(), String> {
    let sh = shape(c);
    source::reset_stats();
    let upto = sh.gap.unwrap_or(c.s.len());
    let seen = &c.s[..upto];
    let want = expected(sh.kind, seen);
    let need = if w.c19 { needs(sh.kind, seen) } else { vec![(0, false); want.len()] };
    debug_assert_eq!(need.len(), want.len());
    let data: Arc<[char]> = c.s.clone().into();
    let ops = c.ops.get(4..).unwrap_or(&[]);
    o.nontrivial = want.len() > 1 && (want != seen || seen.iter().any(|&x| u().cc(x) != 0)) && !ops.is_empty();
    o.label(4, sh.gap.is_some());
    o.label(5, sh.fused);
    o.label(6 + sh.kind as u32, true);
    // nothing but None may come once the source has been pulled to the end: a limit catches endless reading
    if sh.fused {
        let s = Src::<true>::new(data, sh.hint);
        let id = s.id;
        with_adapter!(sh.kind, s, it => drive(it, id, &want, &need, &sh, ops, w, o))
    } else {
        let mut s = Src::<false>::new(data, sh.hint);
        s.gap = sh.gap;
        let id = s.id;
        with_adapter!(sh.kind, s, it => drive(it, id, &want, &need, &sh, ops, w, o))
    }
}
const LABELS: [&str; 12] = ["formatted", "writer_failed", "several_copies", "partly_consumed", "source_resumes_after_none", "fused_source", "nfd", "nfkd", "nfc", "nfkc", "cjk", "stream_safe"];

fn gen_ops(t: &mut Tape, c: &mut Case) {
    let n = match t.below(6) {
        0 => t.below(3),
        1..=3 => t.range(2, 8),
        _ => t.range(6, 25),
    };
    for v in [t.below(6), t.below(2), t.below(source::HINTS as usize), if t.chance(1, 3) { 1 + t.below(c.s.len() + 1) } else { 0 }] {
        c.ops.push(v as u32);
    }
    for _ in 0..n {
        c.ops.push(t.below(20) as u32);
        c.ops.push(t.below(5) as u32);
        let hint = gen::count_hint(t);
        c.ops.push(match t.below(4) {
            _ if hint.is_some() => hint.unwrap_or(0),
            0 => t.below(3),
            1 => t.below(c.s.len() + 2),
            _ => t.below(40),
        } as u32);
    }
}
fn gen_history(t: &mut Tape, c: &mut Case) {
    match t.below(6) {
        0..=3 => gen::text(t, &mut c.s),
        4 => gen::near_normalized(t, &mut c.s),
        _ => gen::long_runs(t, &mut c.s),
    }
    c.s.truncate(300);
    gen_ops(t, c);
}
const ENUM_TEXTS: [&str; 14] = [
    "",
    "a",
    "\u{301}",
    "e\u{301}",
    "a\u{323}\u{301}b\u{301}\u{323}",
    "\u{301}\u{323}\u{301}",
    "\u{1e69}\u{323}x",
    "\u{ac01}\u{1100}\u{1161}\u{11a8}",
    "\u{f900}z\u{f901}\u{2f800}",
    "a\u{316}\u{301}\u{316}\u{301}\u{316}\u{301}\u{316}\u{301}b",
    "\u{fdfa}\u{344}\u{344}",
    "\u{915}\u{9c7}\u{9be}\u{9c7}\u{300}\u{9be}",
    "a\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}\u{344}z",
    "\u{1d15f}\u{1d165}q\u{345}\u{301}",
];
/// Every pair of operations after every number of next calls, on every adapter, over a set of texts.
fn enum_history(i: u64, c: &mut Case) {
    let i = i as usize;
    let (op1, i) = (i % 20, i / 20);
    let (op2, i) = (i % 20, i / 20);
    let (pre, i) = (i % 7, i / 7);
    let (kind, i) = (i % 6, i / 6);
    let (fused, i) = (i % 2, i / 2);
    c.s = ENUM_TEXTS[i % ENUM_TEXTS.len()].chars().collect();
    c.ops.extend([kind as u32, fused as u32, ((op1 + op2) % 7) as u32, 0]);
    for _ in 0..pre {
        c.ops.extend([0, 0, 0]);
    }
    c.ops.extend([op1 as u32, 0, (op2 + pre) as u32]);
    c.ops.extend([op2 as u32, 1, op1 as u32]);
}
fn enum_count() -> u64 {
    20 * 20 * 7 * 6 * 2 * ENUM_TEXTS.len() as u64
}
/// Every way to consume an adapter whole after every number of characters taken from it.
fn enum_whole(i: u64, c: &mut Case) {
    let i = i as usize;
    let (how, i) = (i % WHOLE, i / WHOLE);
    let (pre, i) = (i % 40, i / 40);
    let (kind, i) = (i % 6, i / 6);
    let (fused, i) = (i % 2, i / 2);
    match i.checked_sub(ENUM_TEXTS.len()) {
        None => c.s = ENUM_TEXTS[i].chars().collect(),
        // runs that need joiners, one of them before the last character
        Some(k) => gen::run_text([31, 30, 32, 33][k % 4], [0, 7, 8, 12, 13][k % 5], k % 3, [0, 4, 1][k % 3], &mut c.s),
    }
    c.ops.extend([kind as u32, fused as u32, (how % 7) as u32, 0]);
    for _ in 0..pre {
        c.ops.extend([0, 0, 0]);
    }
    c.ops.extend([END_BY, 0, how as u32]);
}
fn enum_whole_count() -> u64 {
    (WHOLE * 40 * 6 * 2 * (ENUM_TEXTS.len() + 20)) as u64
}
/// Interesting texts on every adapter with a short history.
fn context_history(i: u64, c: &mut Case) {
    gen::interesting_contexts(i * 11 + i / 400 % 11, c);
    let k = i as u32;
    c.ops.extend([k % 6, k / 6 % 2, k / 12 % 7, 0]);
    c.ops.extend([0, 0, 0, 6, 0, 0, k / 5 % 20, k % 2, k / 7 % 9, 0, 1, 3, k / 3 % 20, k / 2 % 2, k / 11 % 9]);
}
/// Far into plain text and to its end, with formatting on the way.
fn padded_history(i: u64, c: &mut Case) {
    gen::padded(i * 17 + i / 300 % 17, c);
    let (k, n) = (i as u32, c.s.len() as u32);
    c.ops.extend([k % 6, k / 6 % 2, k / 12 % 7, 0]);
    c.ops.extend([11, 0, n / 3 + k % 5, 8, 0, 0, 10, 0, n / 2 + k / 3 % 40, 4, 0, 0, 3, 0, n / 4, 8, 0, 0, 4, 0, 0, END_BY, 0, k]);
}
fn padded_history_count() -> u64 {
    gen::padded_count() / 17
}
fn history_stages(q: u64, t: u64) -> Vec<Stage> {
    vec![
        Stage { name: "every pair of operations at every point, 14 texts", gen: Gen::Exhaustive(enum_count, enum_history) },
        Stage { name: "every way to consume the rest at every point, 34 texts", gen: Gen::Exhaustive(enum_whole_count, enum_whole) },
        Stage { name: "every character of interest, short histories", gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 11, context_history) },
        Stage { name: "plain text of every length, short histories", gen: Gen::Exhaustive(padded_history_count, padded_history) },
        Stage { name: "random histories on random texts", gen: Gen::Random(q, t, gen_history) },
    ]
}
const RULE: &str = "a case is a text, an adapter, a source (fused or not, with any honest size hint, possibly resuming after None) and a history of operations on up to five live copies; non-trivial if the output has at least two characters, differs from the input or has marks, and the history is not empty; distinct by the hash of text and history";

/// Size hints over a source without an end in sight: ops are 50 + adapter, how often t is repeated, hint, whether the
/// source promises usize::MAX characters (else it is endless).
pub fn unbounded(c: &Case, o: &mut Obs) -> Result<(), String> {
    let g = |i: usize| c.ops.get(i).copied().unwrap_or(0);
    let kind = (g(0) as usize - 50) % 6;
    if c.t.is_empty() || c.t.iter().all(|&x| u().dec_of(x, true).iter().all(|&y| u().cc(y) != 0)) && kind < 4 {
        return Ok(());
    }
    let mut s = c.s.clone();
    for _ in 0..3 + g(1) % 20 {
        s.extend_from_slice(&c.t);
    }
    let all = expected(kind, &s);
    let m = needs(kind, &s).iter().position(|x| x.1).unwrap_or(all.len());
    source::reset_stats();
    let mut src = Src::<true>::new(s.into(), g(2));
    src.endless = true;
    src.huge = g(3) > 0;
    let huge = src.huge;
    o.nontrivial = m > 1;
    with_adapter!(kind, src, it => {
        let mut it = it;
        for j in 0..m {
            let (lo, hi) = it.size_hint();
            // of usize::MAX characters, none is lost by any adapter but the composing ones
            let least = usize::MAX - j;
            if hi.map_or(false, |h| !huge || (kind != 2 && kind != 3 && h < least)) {
                return Err(format!("{}: after {j} outputs size_hint is ({lo}, {hi:?}) over a source {}", KINDS[kind], if huge { "of usize::MAX characters" } else { "without end" }));
            }
            if huge && lo > least && c.t.iter().chain(&c.s).all(|&x| x < '\u{300}') && kind >= 4 {
                return Err(format!("{}: after {j} outputs size_hint is ({lo}, {hi:?}), but {least} characters are still to come", KINDS[kind]));
            }
            let got = it.next();
            if got != Some(all[j]) {
                return Err(format!("{} over an endless source: output {j} is {}, expected {}", KINDS[kind], opt(got), opt(Some(all[j]))));
            }
        }
    });
    Ok(())
}
pub fn unbounded_case(t: &mut Tape, c: &mut Case) {
    match t.below(3) {
        0 => c.s.push('a'),
        1 => gen::long_runs(t, &mut c.s),
        _ => gen::text(t, &mut c.s),
    }
    c.s.truncate(40);
    match t.below(4) {
        0 => c.t.push('b'),
        1 => {
            for _ in 0..t.range(1, 8) {
                c.t.push(gen::mark(t));
            }
            c.t.push('c');
        }
        _ => gen::text(t, &mut c.t),
    }
    c.t.truncate(40);
    c.ops.extend([50 + t.below(6) as u32, t.below(20) as u32, t.below(7) as u32, t.below(2) as u32]);
}
pub fn c16() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        if c.ops.first().map_or(false, |&k| k >= 50) {
            return unbounded(c, o);
        }
        run_case(c, o, What { c16: true, ..What::default() })
    }
    let mut stages = history_stages(1_200_000, 30_000_000);
    stages.push(Stage { name: "size hints over endless sources and sources of usize::MAX characters", gen: Gen::Random(150_000, 4_000_000, unbounded_case) });
    Prop { id: "C16", check, rule: RULE, labels: &LABELS, stages, fuzz: Some(gen_history) }
}
pub fn c17() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        run_case(c, o, What::default())
    }
    /// histories that format often
    fn format_history(t: &mut Tape, c: &mut Case) {
        gen_history(t, c);
        c.ops[0] = t.below(5) as u32;
        let n = c.ops.len();
        for k in (4..n).step_by(3) {
            if t.chance(1, 2) {
                c.ops[k] = [8, 9, 10, 10, 0][t.below(5)];
            }
        }
        c.ops.extend([8, 0, 0, 9, 0, t.below(5) as u32, 10, 0, t.below(c.s.len() + 3) as u32, 10, 1, t.below(3) as u32]);
    }
    /// every prefix length of consumption times every point of failure of the writer
    fn points(i: u64, c: &mut Case) {
        let i = i as usize;
        let (text, i) = (i % ENUM_TEXTS.len(), i / ENUM_TEXTS.len());
        let (kind, i) = (i % 5, i / 5);
        let (pre, fail) = (i % 36, i / 36);
        c.s = ENUM_TEXTS[text].chars().collect();
        c.ops.extend([kind as u32, 0, 0, 0]);
        for _ in 0..pre {
            c.ops.extend([0, 0, 0]);
        }
        c.ops.extend([10, 0, fail as u32, 8, 0, 0, 9, 0, fail as u32, 0, 0, 0, 10, 0, fail as u32 + 1]);
    }
    let mut stages = vec![Stage { name: "every consumption point x every writer failure, 14 texts", gen: Gen::Exhaustive(|| (ENUM_TEXTS.len() * 5 * 36 * 36) as u64, points) }];
    stages.push(Stage { name: "every character of interest, short histories", gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 11, |i, c| {
        context_history(i, c);
        c.ops[0] %= 5;
        c.ops[10] = 8;
        c.ops[16] = 10;
    }) });
    stages.push(Stage { name: "plain text of every length, short histories", gen: Gen::Exhaustive(padded_history_count, |i, c| {
        padded_history(i, c);
        c.ops[0] %= 5;
    }) });
    stages.push(Stage { name: "random histories that format often", gen: Gen::Random(900_000, 25_000_000, format_history) });
    Prop { id: "C17", check, rule: RULE, labels: &LABELS, stages, fuzz: Some(format_history) }
}
pub fn c19() -> Prop {
    // ops[0] >= 100: quick check with ops[0] - 100; ops[0] >= 50: endless source through adapter ops[0] - 50
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let k = c.ops.first().copied().unwrap_or(0);
        if k >= 100 {
            let (f, ss) = QUICKS[(k as usize - 100) % 6];
            source::reset_stats();
            let (want, n) = refimpl::quick(f, ss, &c.s);
            let data: Arc<[char]> = c.s.clone().into();
            let mut s = Src::<false>::new(data, c.ops.get(1).copied().unwrap_or(0) % source::HINTS);
            // after a No the source goes on without end: reading on would not terminate
            s.endless = want == refimpl::Qc::No;
            s.limit = n as u64;
            let id = s.id;
            let got = quick(f, ss, s);
            o.nontrivial = want == refimpl::Qc::No && n > 1;
            o.label(12, want == refimpl::Qc::No);
            let st = source::stat(id);
            if want == refimpl::Qc::No && (st.pulled > n as u64 || st.ends > 0) {
                return Err(format!("quick check {}{} answered {got:?} after reading {} characters; the first {n} decide No", cc(f), if ss { " stream-safe" } else { "" }, st.pulled));
            }
            return Ok(());
        }
        if k >= 50 {
            let kind = (k as usize - 50) % 6;
            // a prefix followed by an endless repetition of t
            if c.t.is_empty() || c.t.iter().all(|&x| u().dec_of(x, true).iter().all(|&y| u().cc(y) != 0)) && kind < 4 {
                return Ok(());
            }
            let mut s = c.s.clone();
            let reps = 3 + (c.ops.get(1).copied().unwrap_or(0) % 40) as usize;
            for _ in 0..reps {
                s.extend_from_slice(&c.t);
            }
            let all = expected(kind, &s);
            let need = needs(kind, &s);
            // outputs that are settled without knowing the end
            let m = need.iter().position(|x| x.1).unwrap_or(all.len());
            source::reset_stats();
            let data: Arc<[char]> = s.clone().into();
            let mut src = Src::<true>::new(data, c.ops.get(2).copied().unwrap_or(0));
            src.endless = true;
            src.limit = need[..m].last().map_or(0, |x| x.0) as u64;
            let id = src.id;
            o.nontrivial = m > 1;
            o.label(13, true);
            fn go(it: impl Iterator<Item = char>, id: usize, kind: usize, all: &[char], need: &[(usize, bool)]) -> Result<(), String> {
                let mut it = it;
                for j in 0..need.len() {
                    let g = it.next();
                    if g != Some(all[j]) {
                        return Err(format!("{} over an endless source: output {j} is {}, expected {}", KINDS[kind], opt(g), opt(Some(all[j]))));
                    }
                    let st = source::stat(id);
                    if st.pulled > need[j].0 as u64 {
                        return Err(format!("{} over an endless source: output {j} took {} source characters, {} are enough", KINDS[kind], st.pulled, need[j].0));
                    }
                }
                Ok(())
            }
            return with_adapter!(kind, src, it => go(it, id, kind, &all, &need[..m]));
        }
        run_case(c, o, What { c19: true, ..What::default() })
    }
    fn endless(t: &mut Tape, c: &mut Case) {
        gen::text(t, &mut c.s);
        c.s.truncate(60);
        gen::text(t, &mut c.t);
        c.t.truncate(60);
        c.ops.extend([50 + t.below(6) as u32, t.below(40) as u32, t.below(7) as u32]);
    }
    fn early(t: &mut Tape, c: &mut Case) {
        gen::near_normalized(t, &mut c.s);
        if t.chance(1, 2) {
            c.s = refimpl::norm([Form::Nfc, Form::Nfd, Form::Nfkc, Form::Nfkd][t.below(4)], &c.s);
            gen::text(t, &mut c.s);
        }
        c.s.truncate(800);
        c.ops.extend([100 + t.below(6) as u32, t.below(7) as u32]);
    }
    let mut stages = history_stages(900_000, 25_000_000);
    stages.push(Stage { name: "quick checks of random texts, endless after the deciding character", gen: Gen::Random(500_000, 10_000_000, early) });
    stages.push(Stage {
        name: "quick checks, every character of interest in contexts",
        gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 3, |i, c| {
            gen::interesting_contexts(i * 3 + i / 200 % 3, c);
            c.ops.extend([100 + (i % 6) as u32, (i / 6 % 7) as u32]);
        }),
    });
    stages.push(Stage { name: "adapters over random endless sources", gen: Gen::Random(300_000, 8_000_000, endless) });
    fn fuzz(t: &mut Tape, c: &mut Case) {
        match t.below(4) {
            0 => endless(t, c),
            1 => early(t, c),
            _ => gen_history(t, c),
        }
    }
    static L: [&str; 14] = [
        "formatted", "writer_failed", "several_copies", "partly_consumed", "source_resumes_after_none", "fused_source", "nfd", "nfkd", "nfc", "nfkc", "cjk", "stream_safe", "quick_check_no", "endless",
    ];
    Prop {
        id: "C19",
        check,
        rule: "histories as for C16 with the source's polls counted at every step; texts followed by an endless repetition; quick checks over a source that never ends after the deciding character. Non-trivial: for histories as C16; for endless sources at least two settled outputs; for quick checks the answer No after more than one character. Distinct by the hash of text and history",
        labels: &L,
        stages,
        fuzz: Some(fuzz),
    }
}
