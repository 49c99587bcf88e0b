//! Reference algorithms, written from UAX #15 over whole arrays (no streaming state).
use crate::ucd::{u, Ucd, CGJ};

/// Canonical ordering (D108, D109): stable sort of every maximal run of non-starters.
pub fn order(d: &Ucd, v: &mut [char]) {
    let mut i = 0;
    while i < v.len() {
        if d.cc(v[i]) == 0 {
            i += 1;
            continue;
        }
        let mut j = i;
        while j < v.len() && d.cc(v[j]) != 0 {
            j += 1;
        }
        if j - i < 24 {
            for k in i + 1..j {
                let mut m = k;
                while m > i && d.cc(v[m - 1]) > d.cc(v[m]) {
                    v.swap(m - 1, m);
                    m -= 1;
                }
            }
        } else {
            v[i..j].sort_by_key(|&c| d.cc(c));
        }
        i = j;
    }
}

/// Canonical composition (D117) of a canonically ordered decomposition.
pub fn compose_data(d: &Ucd, v: &[char]) -> Vec<char> {
    let mut out: Vec<char> = Vec::with_capacity(v.len());
    let mut starter: Option<usize> = None;
    for &c in v {
        let cc = d.cc(c);
        if let Some(s) = starter {
            // characters retained between the starter and c: in canonical order, so the last has the highest class
            let blocked = out.len() - 1 > s && d.cc(out[out.len() - 1]) >= cc;
            if !blocked {
                if let Some(r) = d.compose(out[s], c) {
                    out[s] = r;
                    continue;
                }
            }
        }
        if cc == 0 {
            starter = Some(out.len());
        }
        out.push(c);
    }
    out
}

/// D117 to the letter, quadratic: for each C, the last starter L before it; blocked by any B between.
pub fn compose_literal(d: &Ucd, v: &[char]) -> Vec<char> {
    let mut t: Vec<Option<char>> = v.iter().map(|&c| Some(c)).collect();
    for i in 0..t.len() {
        let c = t[i].unwrap();
        let l = (0..i).rev().find(|&j| t[j].map_or(false, |x| d.cc(x) == 0));
        if let Some(l) = l {
            let blocked = (l + 1..i).any(|j| t[j].map_or(false, |b| d.cc(b) == 0 || d.cc(b) >= d.cc(c)));
            if !blocked {
                if let Some(r) = d.compose(t[l].unwrap(), c) {
                    t[l] = Some(r);
                    t[i] = None;
                }
            }
        }
    }
    t.into_iter().flatten().collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Nfd,
    Nfkd,
    Nfc,
    Nfkc,
}
pub const FORMS: [Form; 4] = [Form::Nfd, Form::Nfkd, Form::Nfc, Form::Nfkc];
impl Form {
    pub fn compat(self) -> bool {
        matches!(self, Form::Nfkd | Form::Nfkc)
    }
    pub fn composed(self) -> bool {
        matches!(self, Form::Nfc | Form::Nfkc)
    }
}

pub fn raw_decomposition(s: &[char], compat: bool) -> Vec<char> {
    let d = u();
    let mut v = Vec::with_capacity(s.len() + 8);
    for &c in s {
        d.decompose(c, compat, &mut v);
    }
    v
}
pub fn decompose(s: &[char], compat: bool) -> Vec<char> {
    let mut v = raw_decomposition(s, compat);
    order(u(), &mut v);
    v
}
pub fn norm(f: Form, s: &[char]) -> Vec<char> {
    let v = decompose(s, f.compat());
    if f.composed() {
        compose_data(u(), &v)
    } else {
        v
    }
}
pub fn nfd(s: &[char]) -> Vec<char> {
    decompose(s, false)
}
pub fn nfkd(s: &[char]) -> Vec<char> {
    decompose(s, true)
}

/// Longest run of non-starters in NFKD.
pub fn max_run(s: &[char]) -> usize {
    let d = u();
    let (mut m, mut r) = (0, 0);
    for c in raw_decomposition(s, true) {
        r = if d.cc(c) == 0 { 0 } else { r + 1 };
        m = m.max(r);
    }
    m
}

/// Stream-Safe Text Process (UAX15-D4).
pub fn stream_safe(s: &[char]) -> Vec<char> {
    let d = u();
    let mut out = Vec::with_capacity(s.len() + 2);
    let mut count = 0usize;
    for &c in s {
        let i = c as usize;
        let (lead, trail, len) = (d.lead[i] as usize, d.trail[i] as usize, d.klen[i] as usize);
        if count + lead > 30 {
            out.push(CGJ);
            count = 0;
        }
        count = if lead == len { count + len } else { trail };
        out.push(c);
    }
    out
}

pub fn cjk(s: &[char]) -> Vec<char> {
    let d = u();
    let mut out = Vec::with_capacity(s.len() + 2);
    for &c in s {
        match d.cjk.get(&c) {
            Some(v) => out.extend_from_slice(v),
            None => out.push(c),
        }
    }
    out
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Qc {
    Yes,
    No,
    Maybe,
}
/// UAX #15 section 9, plus the stream-safe condition. Also returns how many characters decide a No.
pub fn quick(f: Form, stream_safe: bool, s: &[char]) -> (Qc, usize) {
    let d = u();
    let (no, maybe) = match f {
        Form::Nfc => (1, 2),
        Form::Nfkc => (4, 8),
        Form::Nfd => (16, 0),
        Form::Nfkd => (32, 0),
    };
    let mut last = 0u8;
    let mut r = Qc::Yes;
    let mut count = 0usize;
    for (i, &c) in s.iter().enumerate() {
        let cc = d.cc(c);
        let q = d.qc[c as usize];
        if last > cc && cc != 0 {
            return (Qc::No, i + 1);
        }
        if q & no != 0 {
            return (Qc::No, i + 1);
        }
        if q & maybe != 0 {
            r = Qc::Maybe;
        }
        last = cc;
        if stream_safe {
            let k = c as usize;
            if count + d.lead[k] as usize > 30 {
                return (Qc::No, i + 1);
            }
            count = if d.lead[k] == d.klen[k] { count + d.klen[k] as usize } else { d.trail[k] as usize };
        }
    }
    (r, s.len())
}

/// Can this character (as the first of a text) interact with anything before it under the given form?
pub fn starts_boundary(f: Form, c: char) -> bool {
    let d = u();
    let x = d.dec_of(c, f.compat())[0];
    if d.cc(x) != 0 {
        return false;
    }
    if f.composed() {
        return !is_second(x);
    }
    true
}
pub fn is_second(x: char) -> bool {
    use std::sync::OnceLock;
    static S: OnceLock<Vec<bool>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![false; crate::ucd::N];
        for &(_, b, _) in &u().pairs {
            v[b as usize] = true;
        }
        (0x1161..=0x1175).chain(0x11a8..=0x11c2).for_each(|c| v[c] = true);
        v
    })[x as usize]
}
