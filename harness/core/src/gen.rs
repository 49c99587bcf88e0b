//! Text generators: pools of characters by role, structured random text, and enumerated families.
use crate::engine::{Case, Tape};
use crate::refimpl::{self, FORMS};
use crate::ucd::{is_hangul, scalars, u, CGJ, N};
use std::sync::OnceLock;

pub struct Pools {
    pub by_ccc: Vec<Vec<char>>,
    pub marks: Vec<char>,
    pub mark_seconds: Vec<char>,
    pub starter_seconds: Vec<char>,
    pub firsts: Vec<char>,
    pub composites: Vec<char>,
    pub canon: Vec<char>,
    pub compat: Vec<char>,
    pub nonstable: Vec<char>, // canonical decomposition, but NFC does not give it back
    pub lead: Vec<char>,
    pub trail: Vec<char>, // decomposing, with trailing non-starters
    pub cjk: Vec<char>,
    pub interesting: Vec<char>,
    pub neighbours: Vec<char>,
    pub is_interesting: Vec<bool>,
    pub all: Vec<char>,
    /// one character per combining class, and per class a composing one if there is one
    pub class_reps: Vec<char>,
    pub seconds: Vec<char>,
    pub edge: Vec<char>,
}

/// Literals of the code under test that the pinned sources lack (see hints.py). They steer generation and judge nothing.
#[derive(Default)]
pub struct Hints {
    pub chars: Vec<char>,
    pub seqs: Vec<Vec<char>>,
    pub nums: Vec<usize>,
}
pub fn hints() -> &'static Hints {
    static H: OnceLock<Hints> = OnceLock::new();
    H.get_or_init(|| {
        let mut h = Hints::default();
        let Some(text) = std::env::var("VP_HINTS").ok().and_then(|p| std::fs::read_to_string(p).ok()) else { return h };
        let ch = |w: &str| u32::from_str_radix(w, 16).ok().and_then(char::from_u32);
        let mut left = 300_000_000usize; // how long the families of runs get by it
        for l in text.lines() {
            let mut w = l.split(' ');
            match w.next() {
                Some("c") => h.chars.extend(w.filter_map(ch)),
                Some("s") => h.seqs.push(w.filter_map(ch).collect()),
                // a pair the data has is no news
                Some("p") => {
                    let v: Vec<char> = w.filter_map(ch).collect();
                    if v.len() == 2 && u().compose(v[0], v[1]).is_none() {
                        h.seqs.push(v);
                    }
                }
                Some("n") => {
                    for n in w.filter_map(|x| x.parse::<usize>().ok()) {
                        if n * 250 < left {
                            left -= n * 250;
                            h.nums.push(n);
                        }
                    }
                }
                _ => {}
            }
        }
        h.seqs.retain(|v| !v.is_empty());
        let of_seqs: Vec<char> = h.seqs.iter().flatten().copied().collect();
        h.chars.extend(of_seqs);
        let mut seen = std::collections::HashSet::new();
        h.chars.retain(|c| seen.insert(*c));
        h.chars.truncate(200);
        h
    })
}
/// A literal of the code, or two, or as many of something as a literal says.
fn hint_atom(t: &mut Tape, out: &mut Vec<char>) {
    let h = hints();
    let some = |t: &mut Tape| {
        if h.chars.is_empty() {
            return mark(t);
        }
        let c = t.pick(&h.chars);
        match t.below(12) {
            0 => char::from_u32(c as u32 + 1).unwrap_or(c),
            1 => char::from_u32((c as u32).wrapping_sub(1)).unwrap_or(c),
            _ => c,
        }
    };
    match t.below(6) {
        0 if !h.seqs.is_empty() => {
            let k = t.below(h.seqs.len());
            out.extend(&h.seqs[k]);
        }
        1 if !h.nums.is_empty() => {
            let n = h.nums[t.below(h.nums.len())] + t.below(4);
            let c = match t.below(3) {
                0 => some(t),
                1 => mark(t),
                _ => 'a',
            };
            let n = n.saturating_sub(1);
            if n < 4000 && out.len() + n < 8000 {
                out.extend(std::iter::repeat(c).take(n));
            } else {
                out.push(c);
            }
        }
        2 => {
            let c = some(t);
            out.push(c);
            let c = some(t);
            out.push(c);
        }
        _ => {
            let c = some(t);
            out.push(c);
        }
    }
}
/// A count to use in a history: about what a literal of the code says, if there is one.
pub fn count_hint(t: &mut Tape) -> Option<usize> {
    let h = hints();
    if h.nums.is_empty() || !t.chance(1, 5) {
        return None;
    }
    Some((h.nums[t.below(h.nums.len())] + t.below(3)).saturating_sub(1).min(100_000))
}
fn hinted() -> bool {
    let h = hints();
    !(h.chars.is_empty() && h.nums.is_empty())
}

pub fn pools() -> &'static Pools {
    static P: OnceLock<Pools> = OnceLock::new();
    P.get_or_init(build)
}

fn build() -> Pools {
    let d = u();
    let mut p = Pools {
        by_ccc: vec![],
        marks: vec![],
        mark_seconds: vec![],
        starter_seconds: vec![],
        firsts: vec![],
        composites: vec![],
        canon: vec![],
        compat: vec![],
        nonstable: vec![],
        lead: vec![],
        trail: vec![],
        cjk: vec![],
        interesting: vec![],
        neighbours: vec![],
        is_interesting: vec![false; N],
        all: scalars().collect(),
        class_reps: vec![],
        seconds: vec![],
        edge: vec![],
    };
    let mut byc: Vec<Vec<char>> = vec![vec![]; 256];
    let mut sec = vec![false; N];
    let mut fst = vec![false; N];
    for &(a, b, c) in &d.pairs {
        fst[a as usize] = true;
        sec[b as usize] = true;
        p.composites.push(c);
    }
    for c in scalars() {
        let i = c as usize;
        let cc = d.cc(c);
        if cc != 0 {
            byc[cc as usize].push(c);
            p.marks.push(c);
        }
        if sec[i] {
            p.seconds.push(c);
            if cc != 0 { &mut p.mark_seconds } else { &mut p.starter_seconds }.push(c);
        }
        if fst[i] {
            p.firsts.push(c);
        }
        let a = d.dec_of(c, false);
        let b = d.dec_of(c, true);
        if a != [c] && !is_hangul(c) {
            p.canon.push(c);
            if refimpl::norm(refimpl::Form::Nfc, &[c]) != [c] {
                p.nonstable.push(c);
            }
        }
        if b != a {
            p.compat.push(c);
        }
        if (b != [c]) && d.lead[i] > 0 {
            p.lead.push(c);
        }
        if (b != [c]) && d.trail[i] > 0 {
            p.trail.push(c);
        }
        if d.cjk.contains_key(&c) {
            p.cjk.push(c);
        }
        if (cc != 0 || sec[i] || fst[i] || (b != [c] && !is_hangul(c)) || d.mark[i]) && !is_hangul(c) {
            p.is_interesting[i] = true;
        }
    }
    for (a, b) in [(0x1100, 0x1112), (0x1161, 0x1175), (0x11a7, 0x11c3)] {
        (a..=b).for_each(|c| p.is_interesting[c] = true);
    }
    p.is_interesting[CGJ as usize] = true;
    for &c in &hints().chars {
        p.is_interesting[c as usize] = !is_hangul(c) || p.is_interesting[c as usize];
    }
    for c in scalars() {
        let i = c as usize;
        if p.is_interesting[i] {
            p.interesting.push(c);
        } else if !is_hangul(c) {
            let near = |k: usize| k < N && p.is_interesting[k];
            if near(i + 1) || (i > 0 && near(i - 1)) {
                p.neighbours.push(c);
            }
        }
    }
    for v in byc {
        if !v.is_empty() {
            p.class_reps.push(v[0]);
            if let Some(&c) = v.iter().find(|c| sec[**c as usize]) {
                if c != v[0] {
                    p.class_reps.push(c);
                }
            }
            p.by_ccc.push(v);
        }
    }
    // a small synthetic database may lack a kind
    for v in [&mut p.marks, &mut p.mark_seconds, &mut p.starter_seconds, &mut p.firsts, &mut p.composites, &mut p.canon, &mut p.compat, &mut p.nonstable, &mut p.lead, &mut p.trail, &mut p.cjk, &mut p.seconds, &mut p.class_reps, &mut p.neighbours]
    {
        if v.is_empty() {
            v.push('\u{34f}');
        }
    }
    p.edge = "\0\u{7f}\u{80}\u{9f}\u{a0}\u{ff}\u{100}\u{2ff}\u{300}\u{36f}\u{7ff}\u{800}\u{10ff}\u{1100}\u{1112}\u{1113}\u{1160}\u{1161}\u{1175}\u{1176}\u{11a7}\u{11a8}\u{11c2}\u{11c3}\u{abff}\u{ac00}\u{ac01}\u{ac1b}\u{ac1c}\u{d788}\u{d7a3}\u{d7a4}\u{d7ff}\u{e000}\u{f8ff}\u{fdd0}\u{fdef}\u{fffd}\u{fffe}\u{ffff}\u{10000}\u{10300}\u{10338}\u{13099}\u{1fffe}\u{e0001}\u{e01ef}\u{f0000}\u{ffffd}\u{10fffd}\u{10ffff}\u{200d}\u{fe00}\u{fe0f}\u{e0100}\u{34f}"
        .chars()
        .collect();
    p
}

pub fn any_scalar(t: &mut Tape) -> char {
    let x = t.below(N - 0x800) as u32;
    char::from_u32(if x < 0xd800 { x } else { x + 0x800 }).unwrap()
}
pub fn mark(t: &mut Tape) -> char {
    let p = pools();
    let h = hints();
    if !h.chars.is_empty() && t.chance(1, 8) {
        let c = t.pick(&h.chars);
        if u().cc(c) != 0 {
            return c;
        }
    }
    match t.below(4) {
        0 => t.pick(&p.marks),
        1 => t.pick(&p.mark_seconds),
        2 => {
            let v = &p.by_ccc[t.below(p.by_ccc.len())];
            v[t.below(v.len())]
        }
        _ => t.pick(&p.class_reps),
    }
}
fn jamo(t: &mut Tape, out: &mut Vec<char>) {
    let c = |x: usize| char::from_u32(x as u32).unwrap();
    match t.below(8) {
        0 => out.push(c(0x1100 + t.below(19))),
        1 => out.push(c(0x1161 + t.below(21))),
        2 => out.push(c(0x11a8 + t.below(27))),
        3 => out.push(c(0xac00 + 28 * t.below(399))),
        4 => out.push(c(0xac00 + t.below(11172))),
        5 => {
            out.push(c(0x1100 + t.below(19)));
            out.push(c(0x1161 + t.below(21)));
            if t.chance(1, 2) {
                out.push(c(0x11a8 + t.below(27)));
            }
        }
        6 => {
            out.push(c(0xac00 + 28 * t.below(399)));
            out.push(c(0x11a7 + t.below(29)));
        }
        _ => out.push(t.pick(&['\u{10ff}', '\u{1113}', '\u{1160}', '\u{1176}', '\u{11a7}', '\u{11c3}', '\u{d7a4}', '\u{abff}', '\u{d7b0}', '\u{a960}'])),
    }
}
fn atom(t: &mut Tape, out: &mut Vec<char>) {
    let p = pools();
    if hinted() && t.chance(1, 5) {
        return hint_atom(t, out);
    }
    match t.below(24) {
        0 => out.push((b'a' + t.below(26) as u8) as char),
        1 => out.push((32 + t.below(95) as u8) as char),
        2 | 3 => out.push(mark(t)),
        4 => out.push(t.pick(&p.mark_seconds)),
        5 | 6 => {
            // a composing pair, possibly with marks between
            let (a, b, _) = p_pair(t);
            out.push(a);
            for _ in 0..[0, 0, 1, 1, 2, 3][t.below(6)] {
                out.push(mark(t));
            }
            out.push(b);
        }
        7 => out.push(t.pick(&p.composites)),
        8 => out.push(t.pick(&p.nonstable)),
        9 => out.push(t.pick(&p.compat)),
        10 | 11 => jamo(t, out),
        12 => out.push(t.pick(&p.lead)),
        13 => out.push(t.pick(&p.trail)),
        14 => out.push(any_scalar(t)),
        15 => out.push(t.pick(&p.interesting)),
        16 => out.push(t.pick(&p.neighbours)),
        17 => {
            // repeat the last character
            let c = out.last().copied().unwrap_or('\u{301}');
            let n = match t.below(12) {
                0..=5 => t.range(1, 6),
                6..=9 => t.range(1, 40),
                10 => t.range(24, 36),
                _ => t.range(1, 300),
            };
            out.extend(std::iter::repeat(c).take(n));
        }
        18 => {
            // repeat a recent slice
            let n = out.len().min(t.range(1, 8));
            let k = t.range(1, 3);
            let v = out[out.len() - n..].to_vec();
            for _ in 0..k {
                out.extend_from_slice(&v);
            }
        }
        19 => out.push(t.pick(&[CGJ, '\u{fe00}', '\u{fe01}', '\u{200d}', '\u{e0100}', '\u{20}', '\u{3000}'])),
        20 => out.push(t.pick(&p.cjk)),
        21 => out.push(t.pick(&p.starter_seconds)),
        22 => {
            // a run of marks in some class order
            let n = match t.below(8) {
                0..=3 => t.range(2, 6),
                4..=5 => t.range(5, 20),
                _ => t.range(18, 70),
            };
            let i = out.len();
            for _ in 0..n {
                out.push(mark(t));
            }
            let d = u();
            match t.below(4) {
                0 => out[i..].sort_by_key(|&c| d.cc(c)),
                1 => out[i..].sort_by_key(|&c| 255 - d.cc(c)),
                _ => {}
            }
        }
        _ => out.push(t.pick(&p.edge)),
    }
}
fn p_pair(t: &mut Tape) -> (char, char, char) {
    let d = u();
    d.pairs[t.below(d.pairs.len())]
}

/// Structured random text.
pub fn text(t: &mut Tape, out: &mut Vec<char>) {
    let n = match t.below(20) {
        0 => 0,
        1..=10 => t.range(1, 5),
        11..=16 => t.range(4, 14),
        17..=18 => t.range(12, 50),
        _ => t.range(40, 160),
    };
    for _ in 0..n {
        if t.ended() {
            break;
        }
        atom(t, out);
        if out.len() > 6000 {
            break;
        }
    }
}

/// Small edits.
pub fn mutate(t: &mut Tape, v: &mut Vec<char>) {
    for _ in 0..t.range(1, 3) {
        let n = v.len();
        match t.below(6) {
            0 if n > 1 => {
                let i = t.below(n - 1);
                v.swap(i, i + 1);
            }
            1 if n > 0 => {
                let i = t.below(n);
                v.remove(i);
            }
            2 if n > 0 => {
                let i = t.below(n);
                v[i] = mark(t);
            }
            3 if n > 0 => {
                let i = t.below(n);
                let c = v[i];
                v.insert(i, c);
            }
            4 if n > 0 => {
                let i = t.below(n);
                let mut w = vec![];
                atom(t, &mut w);
                let rest = v.split_off(i);
                v.extend(w);
                v.extend(rest);
            }
            _ => {
                let mut w = vec![];
                atom(t, &mut w);
                v.extend(w);
            }
        }
    }
}

/// Text that is in, or near, one of the forms (and sometimes stream-safe).
pub fn near_normalized(t: &mut Tape, out: &mut Vec<char>) {
    let mut v = vec![];
    text(t, &mut v);
    let f = FORMS[t.below(4)];
    let mut v = refimpl::norm(f, &v);
    if t.chance(1, 3) {
        v = refimpl::stream_safe(&v);
    }
    if t.chance(1, 2) {
        mutate(t, &mut v);
        if t.chance(1, 4) {
            v = refimpl::norm(FORMS[t.below(4)], &v);
        }
    }
    out.extend(v);
}

/// Mark runs around the stream-safe limit, with decomposing characters at the ends and inside.
pub fn long_runs(t: &mut Tape, out: &mut Vec<char>) {
    let p = pools();
    for _ in 0..t.range(1, 3) {
        match t.below(6) {
            0 => {}
            1 => out.push(t.pick(&p.trail)),
            2 => out.push(t.pick(&p.composites)),
            3 => out.push(CGJ),
            4 => jamo(t, out),
            _ => out.push('a'),
        }
        let target = match t.below(8) {
            0..=5 => t.range(26, 34),
            6 => t.range(56, 66),
            _ => t.range(85, 130),
        };
        let start = out.len();
        let fixed = t.pick(&p.marks);
        let style = t.below(5);
        for k in 0..target {
            let near_end = target - k <= 3;
            let c = match style {
                0 => fixed,
                1 => mark(t),
                2 if near_end => t.pick(&p.lead),
                2 => fixed,
                3 if t.chance(1, 6) => t.pick(&p.lead),
                3 => mark(t),
                _ if t.chance(1, 12) => t.pick(&p.trail),
                _ => mark(t),
            };
            out.push(c);
        }
        if t.chance(1, 3) {
            let d = u();
            out[start..].sort_by_key(|&c| d.cc(c));
        }
        match t.below(4) {
            0 => out.push(t.pick(&p.lead)),
            1 => out.push(t.pick(&p.trail)),
            2 => atom(t, out),
            _ => {}
        }
    }
    if t.chance(1, 3) {
        let v = refimpl::norm(FORMS[t.below(4)], out);
        *out = v;
    }
}

/// The mixture used by most random stages.
pub fn mixed(t: &mut Tape, out: &mut Vec<char>) {
    match t.below(10) {
        0..=4 => text(t, out),
        5..=7 => near_normalized(t, out),
        _ => long_runs(t, out),
    }
}
pub fn case_mixed(t: &mut Tape, c: &mut Case) {
    mixed(t, &mut c.s);
}
pub fn case_text(t: &mut Tape, c: &mut Case) {
    text(t, &mut c.s);
}
pub fn case_near(t: &mut Tape, c: &mut Case) {
    near_normalized(t, &mut c.s);
}
pub fn case_runs(t: &mut Tape, c: &mut Case) {
    long_runs(t, &mut c.s);
}
pub fn case_two(t: &mut Tape, c: &mut Case) {
    mixed(t, &mut c.s);
    mixed(t, &mut c.t);
}

/// A random step-by-step rewrite of s that keeps it canonically (or compatibility) equivalent.
pub fn equivalent(t: &mut Tape, s: &[char], compat: bool) -> Vec<char> {
    let d = u();
    let p = pools();
    let mut v = s.to_vec();
    for _ in 0..t.range(1, 12) {
        if v.is_empty() || t.ended() {
            break;
        }
        let i = t.below(v.len());
        match t.below(6) {
            0 => {
                let w = d.dec_of(v[i], compat && t.chance(1, 2));
                v.splice(i..i + 1, w);
            }
            1 | 2 => {
                // exchange neighbouring marks of different classes
                for j in i..v.len() - 1 {
                    let (a, b) = (d.cc(v[j]), d.cc(v[j + 1]));
                    if a != 0 && b != 0 && a != b && d.dec_of(v[j], false) == [v[j]] && d.dec_of(v[j + 1], false) == [v[j + 1]] {
                        v.swap(j, j + 1);
                        break;
                    }
                }
            }
            3 => {
                if i + 1 < v.len() {
                    if let Some(c) = d.compose(v[i], v[i + 1]) {
                        v.splice(i..i + 2, [c]);
                    }
                }
            }
            4 => {
                // one step of decomposition: composite back to its pair
                let c = v[i];
                if let Some(&(a, b, _)) = d.pairs.iter().find(|x| x.2 == c) {
                    v.splice(i..i + 1, [a, b]);
                }
            }
            _ => {
                // a singleton or excluded character with the same decomposition, if one starts here
                let k = t.below(p.nonstable.len());
                for j in 0..40 {
                    let c = p.nonstable[(k + j * 7) % p.nonstable.len()];
                    let w = d.dec_of(c, false);
                    if v[i..].starts_with(&w) {
                        v.splice(i..i + w.len(), [c]);
                        break;
                    }
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------------
// enumerated families

const CTX_SMALL: u64 = 8;
fn small_context(k: u64, c: char, o: &mut Vec<char>) {
    match k {
        0 => o.push(c),
        1 => o.extend(['a', c]),
        2 => o.extend([c, '\u{301}']),
        3 => o.extend(['a', '\u{301}', c, '\u{323}']),
        4 => o.extend(['\u{ac00}', c, '\u{11a8}']),
        5 => o.extend([c, c, 'a', c]),
        6 => o.extend(['e', '\u{323}', c, '\u{302}', c]),
        _ => {
            o.extend(['\u{1100}', c, '\u{1161}', c]);
        }
    }
}
pub fn all_scalars_count() -> u64 {
    pools().all.len() as u64 * CTX_SMALL
}
/// Every scalar value in each of eight contexts.
pub fn all_scalars(i: u64, c: &mut Case) {
    small_context(i % CTX_SMALL, pools().all[(i / CTX_SMALL) as usize], &mut c.s);
}

pub fn ctx_big_count() -> u64 {
    pools().class_reps.len() as u64 * 4 + 40
}
pub fn interesting_contexts_count() -> u64 {
    (pools().interesting.len() + pools().neighbours.len()) as u64 * ctx_big_count()
}
/// Every character with any normalization behaviour (and its neighbours in code-point order) in several hundred contexts.
pub fn interesting_contexts(i: u64, case: &mut Case) {
    let p = pools();
    let n = ctx_big_count();
    let (j, k) = ((i / n) as usize, i % n);
    let c = if j < p.interesting.len() { p.interesting[j] } else { p.neighbours[j - p.interesting.len()] };
    let o = &mut case.s;
    let reps = p.class_reps.len() as u64;
    if k < reps * 4 {
        let m = p.class_reps[(k % reps) as usize];
        match k / reps {
            0 => o.extend([c, m]),
            1 => o.extend(['a', m, c]),
            2 => o.extend(['\u{e2}', c, m, '\u{301}']),
            _ => o.extend([m, c, 'o', m, c, m]),
        }
    } else {
        let k = (k - reps * 4) as usize;
        match k {
            0..=9 => {
                o.push('A');
                for _ in 0..[1, 2, 3, 4, 5, 8, 16, 31, 32, 33][k] {
                    o.push(c);
                }
            }
            10..=19 => {
                // after a long run
                o.push('a');
                for _ in 0..[3, 4, 5, 15, 16, 27, 28, 29, 30, 31][k - 10] {
                    o.push('\u{316}');
                }
                o.push(c);
                o.push('\u{301}');
            }
            20..=29 => {
                o.push(c);
                for _ in 0..[2, 3, 4, 5, 16, 27, 28, 29, 30, 31][k - 20] {
                    o.push('\u{308}');
                }
                o.push(c);
            }
            30 => o.extend([c, '\u{11a8}', c, '\u{1161}']),
            31 => o.extend(['\u{ac00}', c]),
            32 => o.extend(['\u{1100}', c, '\u{11a8}']),
            33 => o.extend([CGJ, c, CGJ]),
            34 => o.extend(['\u{1d165}', c, '\u{1d165}']),
            35 => o.extend(['\u{344}', c, '\u{f73}', c]),
            36 => o.extend(['\u{3a9}', '\u{314}', '\u{342}', c]),
            37 => o.extend([c, '\u{314}', '\u{301}', '\u{345}']),
            38 => o.extend([c, '\u{338}', c, '\u{338}']),
            _ => o.extend(['x', '\u{345}', '\u{301}', '\u{316}', c, '\u{f0000}', c]),
        }
    }
}

pub fn firsts_seconds_classes_count() -> u64 {
    let p = pools();
    (p.firsts.len() * p.seconds.len() * (p.class_reps.len() + 1)) as u64
}
/// first × second × an intervening character of every class.
pub fn firsts_seconds_classes(i: u64, c: &mut Case) {
    let p = pools();
    let i = i as usize;
    let m = i % (p.class_reps.len() + 1);
    let i = i / (p.class_reps.len() + 1);
    let b = p.seconds[i % p.seconds.len()];
    let a = p.firsts[i / p.seconds.len()];
    c.s.push(a);
    if m > 0 {
        c.s.push(p.class_reps[m - 1]);
    }
    c.s.push(b);
    if m % 3 == 1 {
        c.s.push(b);
    }
}

pub fn mark_pairs_count() -> u64 {
    let n = pools().marks.len() as u64 + 60;
    n * n
}
/// Every ordered pair of non-starters (and a few other characters) after a base.
pub fn mark_pairs(i: u64, c: &mut Case) {
    let p = pools();
    let n = p.marks.len() as u64 + 60;
    let at = |k: u64| {
        let k = k as usize;
        if k < p.marks.len() {
            p.marks[k]
        } else {
            let k = k - p.marks.len();
            if k < p.lead.len() {
                p.lead[k]
            } else {
                p.starter_seconds[(k - p.lead.len()) % p.starter_seconds.len()]
            }
        }
    };
    let (a, b) = (at(i / n), at(i % n));
    let base = ['a', '\u{41}', '\u{3b1}', '\u{915}', '\u{6d5}', '\u{304b}', '\u{1e00}', '\u{ac00}', '\u{1d157}'][(i % 9) as usize];
    c.s.extend([base, a, b]);
    if i % 5 == 0 {
        c.s.push('\u{301}');
    }
}

pub fn hangul_count() -> u64 {
    23 * 25 * 31 + 11172 * 34
}
/// All jamo combinations including just outside the ranges, and every syllable before every trailing jamo and more.
pub fn hangul(i: u64, c: &mut Case) {
    let f = |x: u64| char::from_u32(x as u32).unwrap();
    if i < 23 * 25 * 31 {
        let (l, v, t) = (i / (25 * 31), i / 31 % 25, i % 31);
        c.s.push(f(0x10fe + l));
        c.s.push(f(0x115f + v));
        if t > 0 {
            c.s.push(f(0x11a5 + t));
        }
        if i % 7 == 0 {
            c.s.push('\u{11a8}');
        }
        return;
    }
    let i = i - 23 * 25 * 31;
    let (s, k) = (i / 34, i % 34);
    c.s.push(f(0xac00 + s));
    match k {
        0..=28 => c.s.push(f(0x11a7 + k)),
        29 => c.s.extend(['\u{301}', '\u{11a8}']),
        30 => c.s.extend(['\u{1161}', '\u{11a8}']),
        31 => c.s.extend(['\u{3099}', '\u{323}']),
        32 => c.s.extend(['\u{11a8}', '\u{11a8}']),
        _ => {
            let n = c.s[0];
            c.s.extend([n, '\u{11c2}']);
        }
    }
}

const RUN_LENS: [usize; 58] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 19, 20, 24, 28, 29, 30, 31, 32, 33, 34, 40, 48, 59, 60, 61, 62, 63, 64, 65, 66, 90, 91, 92, 100, 127, 128, 129, 200, 254, 255, 256, 257,
    258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049,
];
const RUN_HUGE: [usize; 10] = [4095, 4096, 4097, 8193, 16385, 32767, 32769, 65535, 65537, 100_000];
const RUN_STYLES: usize = 14;
const RUN_HEADS: usize = 6;
const RUN_TAILS: usize = 7;
/// The lengths of runs: those enumerated in full, and those with only one head and tail for each style.
fn run_lens() -> &'static (Vec<usize>, Vec<usize>) {
    static L: OnceLock<(Vec<usize>, Vec<usize>)> = OnceLock::new();
    L.get_or_init(|| {
        let (mut a, mut b) = (RUN_LENS.to_vec(), RUN_HUGE.to_vec());
        for &n in &hints().nums {
            for n in n.saturating_sub(1)..n + 3 {
                if n < 300 {
                    a.push(n);
                } else {
                    b.push(n);
                }
            }
        }
        (a, b)
    })
}
pub fn runs_count() -> u64 {
    runs_short_count() + runs_huge_count()
}
pub fn runs_short_count() -> u64 {
    (run_lens().0.len() * RUN_STYLES * RUN_HEADS * RUN_TAILS) as u64
}
pub fn runs_huge_count() -> u64 {
    (run_lens().1.len() * RUN_STYLES) as u64
}
pub fn runs_huge(i: u64, c: &mut Case) {
    runs(runs_short_count() + i, c)
}
/// Mark runs of every length of interest, by class order, by what precedes and what follows.
pub fn runs(i: u64, c: &mut Case) {
    let i = i as usize;
    let (lens, huge) = run_lens();
    let small = lens.len() * RUN_STYLES * RUN_HEADS * RUN_TAILS;
    let (n, style, head, tail) = if i < small {
        (lens[i / (RUN_STYLES * RUN_HEADS * RUN_TAILS)], i / (RUN_HEADS * RUN_TAILS) % RUN_STYLES, i / RUN_TAILS % RUN_HEADS, i % RUN_TAILS)
    } else {
        let k = i - small;
        (huge[k / RUN_STYLES], k % RUN_STYLES, k % RUN_HEADS, k % RUN_TAILS)
    };
    run_text(n, style, head, tail, &mut c.s);
}
pub fn run_text(n: usize, style: usize, head: usize, tail: usize, o: &mut Vec<char>) {
    let p = pools();
    let r = &p.class_reps;
    match head {
        0 => {}
        1 => o.push('a'),
        2 => o.push('\u{1ec7}'),
        3 => o.push('\u{ac00}'),
        4 => o.push('\u{1f82}'),
        _ => o.extend(['x', 'y', '\u{308}', 'E']),
    }
    let start = o.len();
    for k in 0..n {
        o.push(match style {
            0 => '\u{301}',
            1 => '\u{316}',
            2 => r[k % r.len()],
            3 => r[r.len() - 1 - k % r.len()],
            4 => r[k * r.len() / n.max(1)],
            5 => r[r.len() - 1 - k * r.len() / n.max(1)],
            6 => p.marks[(k * 37) % p.marks.len()],
            7 => '\u{344}',
            8 => p.lead[k % p.lead.len()],
            9 => ['\u{323}', '\u{302}', '\u{345}', '\u{f73}'][k % 4],
            10 => p.mark_seconds[k % p.mark_seconds.len()],
            11 => {
                if k + 1 == n {
                    '\u{344}'
                } else {
                    '\u{315}'
                }
            }
            12 => {
                if k == 0 {
                    '\u{ff9e}'
                } else {
                    '\u{3099}'
                }
            }
            _ => {
                if k + 2 >= n {
                    '\u{f81}'
                } else {
                    '\u{5ae}'
                }
            }
        });
    }
    if style == 6 && n % 2 == 0 {
        let d = u();
        o[start..].sort_by_key(|&c| d.cc(c));
    }
    match tail {
        0 => {}
        1 => o.push('b'),
        2 => o.extend(['\u{302}', 'b']),
        3 => o.extend(['\u{11a8}', '\u{301}']),
        4 => o.push('\u{344}'),
        5 => o.extend(['\u{1e69}', '\u{323}', 'q']),
        _ => o.extend(['\u{1d15f}', '\u{301}', '\u{9be}', '\u{1d165}']),
    }
}

const LONG_LENS: [usize; 4] = [66_000, 70_001, 140_000, 300_000];
const LONG_STYLES: usize = 8;
fn long_lens() -> &'static Vec<usize> {
    static L: OnceLock<Vec<usize>> = OnceLock::new();
    L.get_or_init(|| LONG_LENS.iter().copied().chain(hints().nums.iter().flat_map(|&n| [n, n + 1, n.saturating_sub(3), n / 4, n / 3, n / 2])).collect())
}
pub fn long_texts_count() -> u64 {
    (long_lens().len() * LONG_STYLES + 6) as u64
}
/// Whole texts longer than any 16-bit count, and runs longer than a million marks.
pub fn long_texts(i: u64, c: &mut Case) {
    let i = i as usize;
    let p = pools();
    let o = &mut c.s;
    if i >= long_lens().len() * LONG_STYLES {
        let k = i - long_lens().len() * LONG_STYLES;
        run_text([1_048_577, 1_100_000][k % 2], [6, 4, 0][k / 2], k % RUN_HEADS, (k + 1) % RUN_TAILS, o);
        return;
    }
    let n = long_lens()[i / LONG_STYLES];
    let pick = |v: &[char], k: usize, m: usize| v[k.wrapping_mul(m) % v.len()];
    let mut k = i * 7919;
    while o.len() < n {
        match i % LONG_STYLES {
            0 => o.push((b'a' + (k % 26) as u8) as char),
            1 => o.extend(['e', '\u{301}', '\u{327}', 'x']),
            2 => o.push(char::from_u32(0xac00 + (k * 31 % 11172) as u32).unwrap()),
            3 => o.push(pick(&p.interesting, k, 2_654_435_761)),
            4 => o.extend(['a', pick(&p.marks, k, 40_503), pick(&p.marks, k, 2_246_822_519), pick(&p.interesting, k, 97)]),
            5 => o.extend(['\u{1100}', '\u{1161}', '\u{11a8}', ' ']),
            6 => {
                o.push(pick(&p.interesting, k, 104_729));
                o.extend((0..k % 34).map(|j| pick(&p.marks, k + j, 31)));
            }
            _ => o.extend(['\u{e9}', '\u{f900}', '\u{fb01}', '\u{2f800}', 'z', '\u{1d15e}', '\u{344}']),
        }
        k += 1;
    }
    // an end that composes, so that whatever counts along the way has its say
    o.extend(['q', '\u{301}', '\u{316}', 'e', '\u{301}', '\u{1100}', '\u{1161}', '\u{11a8}', '\u{1e9b}', '\u{323}']);
}

const PADS: [&[char]; 6] = [&['a'], &['\u{e9}'], &['\u{434}'], &['\u{4e2d}'], &['\u{20000}'], &['b', '\u{d55c}', '\u{e9}']];
const PIECES: [&str; 21] = [
    "\u{301}", "\u{327}\u{301}", "\u{301}\u{327}", "\u{212b}", "\u{e9}", "e\u{301}", "\u{1161}\u{11a8}", "\u{1100}\u{1161}", "\u{d55c}\u{11a8}", "\u{ac00}\u{11a8}", "\u{9be}", "\u{fb01}", "\u{2f800}",
    "\u{f900}\u{301}", "\u{344}", "\u{1d15f}\u{1d16d}", "\u{ff76}\u{ff9e}", "\u{113c5}\u{113c5}", "\u{1e9b}\u{323}", "\u{34f}\u{301}", "\u{fe00}",
];
const PAD_BIG: [usize; 9] = [512, 768, 1024, 2048, 4096, 8192, 16_384, 32_768, 65_536];
/// Lengths of plain text enumerated in full, and those with two pieces each.
fn pad_lens() -> &'static (usize, Vec<usize>) {
    static L: OnceLock<(usize, Vec<usize>)> = OnceLock::new();
    L.get_or_init(|| (265, PAD_BIG.iter().copied().chain(hints().nums.iter().copied().filter(|&n| n < 200_000)).flat_map(|n| [n.saturating_sub(1), n, n + 1]).collect()))
}
pub fn padded_count() -> u64 {
    let (small, big) = pad_lens();
    ((small * PIECES.len() * 2 + big.len() * 4) * PADS.len()) as u64
}
/// Plain text of every length, in characters of one to four bytes, before something to act on, and again after it.
pub fn padded(i: u64, c: &mut Case) {
    let i = i as usize;
    let (small, big) = pad_lens();
    let (pad, j) = (PADS[i % PADS.len()], i / PADS.len());
    let (len, piece, more) = if j < small * PIECES.len() * 2 {
        (j / (PIECES.len() * 2), j / 2 % PIECES.len(), j % 2)
    } else {
        let j = j - small * PIECES.len() * 2;
        (big[j / 4], (i / PADS.len() * 5 + i % PADS.len()) % PIECES.len(), j % 2)
    };
    let o = &mut c.s;
    o.extend(pad.iter().cycle().take(len));
    o.extend(PIECES[piece].chars());
    if more == 1 {
        // as much again and a little more, so that the second piece is at another place
        let k = len.min(300) + 1 + piece % 7;
        o.extend(pad.iter().cycle().take(k));
        o.extend(PIECES[(piece * 4 + len) % PIECES.len()].chars());
        o.push(pad[0]);
    }
}

pub fn labels_text(o: &mut crate::engine::Obs, s: &[char], base: u32) {
    let d = u();
    let raw = refimpl::raw_decomposition(s, false);
    let nfd = refimpl::nfd(s);
    o.label(base, raw.len() != s.len() || raw != s);
    o.label(base + 1, raw != nfd);
    o.label(base + 2, refimpl::compose_data(d, &nfd).len() < nfd.len());
    o.label(base + 3, s.iter().any(|&c| is_hangul(c) || ('\u{1100}'..='\u{11ff}').contains(&c)));
    o.label(base + 4, refimpl::max_run(s) > 4);
    o.label(base + 5, refimpl::max_run(s) > 30);
    o.label(base + 6, s.len() > 100);
    o.label(base + 7, s.iter().any(|&c| c > '\u{ffff}'));
}
pub const TEXT_LABELS: [&str; 8] = ["decomposes", "reordered", "composes", "hangul", "run_over_4", "run_over_30", "over_100_chars", "astral"];
