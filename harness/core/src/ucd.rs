//! Reference character data: Unicode 16.0.0 from /verif/refdata/ucd16.txt (or the file named by VP_UCD), which is built
//! from sources other than the code under test.
use std::collections::HashMap;
use std::sync::OnceLock;

pub const N: usize = 0x110000;
pub const CGJ: char = '\u{34f}';

pub struct Ucd {
    pub ccc: Vec<u8>,
    /// offset << 8 | length into `pool`, 0 = none; [0] canonical, [1] compatibility. Hangul excluded.
    dec: [Vec<u32>; 2],
    pool: Vec<char>,
    first: Vec<u16>,
    comp: Vec<Vec<(char, char)>>,
    pub pairs: Vec<(char, char, char)>,
    pub mark: Vec<bool>,
    pub assigned: Vec<bool>,
    pub cjk: HashMap<char, Vec<char>>,
    pub excluded: Vec<char>,
    /// bit 0: NFC No, 1: NFC Maybe, 2: NFKC No, 3: NFKC Maybe, 4: NFD No, 5: NFKD No
    pub qc: Vec<u8>,
    /// leading, trailing, total non-starters of the NFKD decomposition
    pub lead: Vec<u8>,
    pub trail: Vec<u8>,
    pub klen: Vec<u8>,
    pub version: (u8, u8, u8),
}

pub fn scalars() -> impl Iterator<Item = char> {
    (0..N as u32).filter_map(char::from_u32)
}
fn hx(s: &str) -> u32 {
    u32::from_str_radix(s, 16).unwrap()
}
fn ch(s: &str) -> char {
    char::from_u32(hx(s)).unwrap()
}
pub fn is_hangul(c: char) -> bool {
    ('\u{ac00}'..='\u{d7a3}').contains(&c)
}

static UCD: OnceLock<Ucd> = OnceLock::new();
pub fn u() -> &'static Ucd {
    UCD.get_or_init(|| match std::env::var("VP_UCD") {
        Ok(p) => parse(&std::fs::read_to_string(p).expect("VP_UCD")),
        Err(_) => parse(include_str!("../../../refdata/ucd16.txt")),
    })
}

fn parse(text: &str) -> Ucd {
    let mut d = Ucd {
        ccc: vec![0; N],
        dec: [vec![0; N], vec![0; N]],
        pool: vec!['\0'],
        first: vec![0; N],
        comp: vec![vec![]],
        pairs: vec![],
        mark: vec![false; N],
        assigned: vec![false; N],
        cjk: HashMap::new(),
        excluded: vec![],
        qc: vec![0; N],
        lead: vec![0; N],
        trail: vec![0; N],
        klen: vec![0; N],
        version: (16, 0, 0),
    };
    let mut sec = "";
    for l in text.lines() {
        if l.starts_with('#') || l.is_empty() {
            continue;
        }
        if let Some(s) = l.strip_prefix('@') {
            sec = s;
            if let Some(v) = s.strip_prefix("version ") {
                let v: Vec<u8> = v.split('.').map(|x| x.parse().unwrap()).collect();
                d.version = (v[0], v[1], v[2]);
            }
            continue;
        }
        let f: Vec<&str> = l.split(' ').collect();
        match sec {
            "ccc" => {
                for c in hx(f[0])..=hx(f[1]) {
                    d.ccc[c as usize] = f[2].parse().unwrap();
                }
            }
            "nfd" | "nfkd" => {
                let k = (sec == "nfkd") as usize;
                d.dec[k][hx(f[0]) as usize] = (d.pool.len() as u32) << 8 | (f.len() as u32 - 1);
                for x in &f[1..] {
                    d.pool.push(ch(x));
                }
            }
            "compose" => d.pairs.push((ch(f[0]), ch(f[1]), ch(f[2]))),
            "mark" => (hx(f[0])..=hx(f[1])).for_each(|c| d.mark[c as usize] = true),
            "assigned" => (hx(f[0])..=hx(f[1])).for_each(|c| d.assigned[c as usize] = true),
            "cjk" => {
                d.cjk.insert(ch(f[0]), f[1..].iter().map(|x| ch(x)).collect());
            }
            "excluded" => d.excluded.push(ch(f[0])),
            x => panic!("section {x}"),
        }
    }
    for &(a, b, c) in &d.pairs.clone() {
        let i = d.first[a as usize];
        let i = if i == 0 {
            d.comp.push(vec![]);
            d.first[a as usize] = (d.comp.len() - 1) as u16;
            d.comp.len() - 1
        } else {
            i as usize
        };
        d.comp[i].push((b, c));
    }
    // derived: quick-check properties (UAX #44 / UAX #15 definitions) and non-starter counts
    let mut second = vec![false; N];
    for &(_, b, _) in &d.pairs {
        second[b as usize] = true;
    }
    (0x1161..=0x1175).chain(0x11a8..=0x11c2).for_each(|c| second[c] = true);
    for c in scalars() {
        let i = c as usize;
        let (mut a, mut b) = (vec![], vec![]);
        d.decompose(c, false, &mut a);
        d.decompose(c, true, &mut b);
        let mut q = 0u8;
        if crate::refimpl::compose_data(&d, &a) != [c] {
            q |= 1;
        } else if second[a[0] as usize] {
            // it, or what it decomposes to, can combine with the character before it
            q |= 2;
        }
        if crate::refimpl::compose_data(&d, &b) != [c] {
            q |= 4;
        } else if second[b[0] as usize] {
            q |= 8;
        }
        if a != [c] {
            q |= 16;
        }
        if b != [c] {
            q |= 32;
        }
        d.qc[i] = q;
        d.lead[i] = b.iter().take_while(|&&x| d.ccc[x as usize] != 0).count() as u8;
        d.trail[i] = b.iter().rev().take_while(|&&x| d.ccc[x as usize] != 0).count() as u8;
        d.klen[i] = b.len() as u8;
    }
    d
}

impl Ucd {
    #[inline]
    pub fn cc(&self, c: char) -> u8 {
        self.ccc[c as usize]
    }
    /// Full decomposition of one character, in the order of the database.
    #[inline]
    pub fn decompose(&self, c: char, compat: bool, out: &mut Vec<char>) {
        if is_hangul(c) {
            let s = c as u32 - 0xac00;
            out.push(char::from_u32(0x1100 + s / 588).unwrap());
            out.push(char::from_u32(0x1161 + s % 588 / 28).unwrap());
            if s % 28 != 0 {
                out.push(char::from_u32(0x11a7 + s % 28).unwrap());
            }
            return;
        }
        let e = self.dec[compat as usize][c as usize];
        if e == 0 {
            out.push(c);
        } else {
            let o = (e >> 8) as usize;
            out.extend_from_slice(&self.pool[o..o + (e & 255) as usize]);
        }
    }
    pub fn dec_of(&self, c: char, compat: bool) -> Vec<char> {
        let mut v = vec![];
        self.decompose(c, compat, &mut v);
        v
    }
    #[inline]
    pub fn compose(&self, a: char, b: char) -> Option<char> {
        let (x, y) = (a as u32, b as u32);
        if (0x1100..0x1113).contains(&x) && (0x1161..0x1176).contains(&y) {
            return char::from_u32(0xac00 + (x - 0x1100) * 588 + (y - 0x1161) * 28);
        }
        if is_hangul(a) && (x - 0xac00) % 28 == 0 && (0x11a8..0x11c3).contains(&y) {
            return char::from_u32(x + y - 0x11a7);
        }
        self.comp[self.first[x as usize] as usize].iter().find(|p| p.0 == b).map(|p| p.1)
    }
    pub fn has_first(&self, a: char) -> bool {
        self.first[a as usize] != 0
    }
}
