//! C10 to C15: functions of characters.
use super::answers::*;
use crate::engine::{show, suggest, Case, Gen, Obs, Prop, Stage, Tape, THOROUGH};
use crate::gen::{self, pools};
use crate::lib_api::*;
use crate::refimpl::{self, FORMS};
use crate::ucd::{is_hangul, u};
use crate::with_form;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::OnceLock;

/// Each character again, but in random order and after other calls: a wrong answer may depend on history.
fn shuffled() -> Stage {
    Stage { name: "random characters of interest and neighbours", gen: Gen::Random(200_000, 4_000_000, random_char) }
}
fn random_char(t: &mut Tape, c: &mut Case) {
    let p = pools();
    c.s.push(match t.below(4) {
        0 => t.pick(&p.interesting),
        1 => t.pick(&p.neighbours),
        2 => gen::any_scalar(t),
        _ => t.pick(&p.edge),
    });
}

pub fn c10() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        for &x in &c.s {
            o.nontrivial |= u().cc(x) != 0 || pools().is_interesting[x as usize];
            o.label(0, u().cc(x) != 0);
            o.label(1, !u().assigned[x as usize]);
            ccc_of(x)?;
        }
        Ok(())
    }
    Prop {
        id: "C10",
        check,
        rule: "every scalar value once, then random ones; non-trivial if the character has a non-zero class or any normalization behaviour",
        labels: &["class_not_0", "unassigned_or_private"],
        stages: vec![every_char(), shuffled()],
        fuzz: None,
    }
}

pub fn c11() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        for &x in &c.s {
            let d = u();
            let (a, b) = (d.dec_of(x, false), d.dec_of(x, true));
            o.nontrivial |= b != [x];
            o.label(0, a != [x]);
            o.label(1, a != b);
            o.label(2, is_hangul(x));
            o.label(3, b.len() > 2);
            decompositions_of(x)?;
        }
        Ok(())
    }
    Prop {
        id: "C11",
        check,
        rule: "every scalar value once, then random ones; non-trivial if the character has a decomposition",
        labels: &["canonical", "compatibility_differs", "hangul", "longer_than_2"],
        stages: vec![every_char(), shuffled()],
        fuzz: None,
    }
}

/// Characters that can be the second of a pair, and their neighbours, and every Hangul vowel and trailing jamo and theirs.
fn seconds() -> &'static Vec<char> {
    static S: OnceLock<Vec<char>> = OnceLock::new();
    S.get_or_init(|| {
        let p = pools();
        let mut v: Vec<char> = vec![];
        for &c in &p.seconds {
            v.push(c);
            for d in [-1i32, 1] {
                v.extend(char::from_u32((c as i32 + d) as u32));
            }
        }
        v.extend((0x115e..=0x1177).chain(0x11a5..=0x11c5).map(|c| char::from_u32(c).unwrap()));
        v.sort();
        v.dedup();
        v
    })
}
fn firsts() -> &'static Vec<char> {
    static S: OnceLock<Vec<char>> = OnceLock::new();
    S.get_or_init(|| {
        let p = pools();
        let mut v = p.firsts.clone();
        v.extend((0x10fe..=0x1114).map(|c| char::from_u32(c).unwrap()));
        v.extend((0..399).step_by(7).map(|k| char::from_u32(0xac00 + 28 * k).unwrap()));
        v.extend("\u{ac01}\u{d7a3}\u{d7a4}\u{abff}\0a ".chars());
        v.sort();
        v.dedup();
        v
    })
}
/// How many characters "every" means, of the first and of the second.
fn row() -> usize {
    if THOROUGH.load(Relaxed) {
        pools().all.len()
    } else {
        0x10000 - 0x800
    }
}
pub fn c12() -> Prop {
    // s = [a, b]: that pair. s = [a], ops = [0]: a with every second (on either side). s = [b], ops = [1]: every first with b.
    // s = [a, b], ops = [2]: the pairs that agree with (a, b) in low-order bits or differ in one bit.
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let each = |a: char, b: char| {
            pair(a, b).inspect_err(|_| suggest(Case { s: vec![a, b], ..Case::default() }))
        };
        let d = u();
        match (&c.s[..], c.ops.first()) {
            ([a], Some(0)) => {
                for &b in seconds() {
                    each(*a, b)?;
                    each(b, *a)?;
                }
                o.extra = 2 * seconds().len() as u64;
                o.nontrivial = d.has_first(*a) || is_hangul(*a) || pools().is_interesting[*a as usize];
            }
            ([b], Some(1)) => {
                for &a in firsts() {
                    each(a, *b)?;
                }
                o.extra = firsts().len() as u64;
                o.nontrivial = pools().is_interesting[*b as usize];
            }
            ([a], Some(3)) => {
                // every character (in the quick tier: of the basic plane) after a; only where there is an answer is it looked up
                let all = &pools().all[..row()];
                let mut some = 0;
                for &b in all {
                    if uc::compose(*a, b).is_some() {
                        each(*a, b)?;
                        some += 1;
                    }
                }
                let want = all.iter().filter(|&&b| d.has_first(*a) && d.compose(*a, b).is_some()).count();
                if !is_hangul(*a) && !(0x1100..0x1113).contains(&(*a as u32)) && some != want {
                    // an answer is missing; it is one of the data's
                    for &b in all {
                        each(*a, b)?;
                    }
                }
                if is_hangul(*a) || (0x1100..0x1113).contains(&(*a as u32)) {
                    for &b in seconds() {
                        each(*a, b)?;
                    }
                }
                o.extra = all.len() as u64;
                o.nontrivial = d.has_first(*a) || is_hangul(*a) || pools().is_interesting[*a as usize];
            }
            ([a, b], Some(2)) => {
                let near = |x: char| -> Vec<char> {
                    let x = x as u32;
                    let mut v: Vec<u32> = (0..=16).map(|k| (x & 0xffff) + k * 0x10000).collect();
                    v.extend((0..21).map(|k| x ^ 1 << k));
                    v.extend((0..4).map(|k| x.wrapping_sub(2).wrapping_add(k)));
                    v.into_iter().filter_map(char::from_u32).collect()
                };
                let nb = near(*b);
                let na = near(*a);
                for &x in &na {
                    for &y in &nb {
                        each(x, y)?;
                    }
                }
                o.extra = (na.len() * nb.len()) as u64;
                o.nontrivial = true;
            }
            (s, _) => {
                for w in s.windows(2) {
                    each(w[0], w[1])?;
                    o.nontrivial |= d.compose(w[0], w[1]).is_some() || d.has_first(w[0]) || refimpl::is_second(w[1]);
                    o.label(0, d.compose(w[0], w[1]).is_some());
                }
            }
        }
        Ok(())
    }
    fn random(t: &mut Tape, c: &mut Case) {
        let p = pools();
        let d = u();
        for _ in 0..16 {
            let pr = t.pick(&d.pairs);
            let (a, b) = match t.below(7) {
                0 => (pr.0, t.pick(&p.interesting)),
                1 => (t.pick(&p.interesting), pr.1),
                2 => (t.pick(&p.interesting), t.pick(&p.interesting)),
                3 => (gen::any_scalar(t), gen::any_scalar(t)),
                4 => (pr.0, t.pick(&d.pairs).1),
                5 => (pr.2, t.pick(&d.pairs).1),
                _ => (t.pick(&p.neighbours), gen::any_scalar(t)),
            };
            c.s.extend([a, b]);
        }
    }
    Prop {
        id: "C12",
        check,
        rule: "each case is a block of pairs (counted one by one in pairs_checked): every scalar value with every possible second and the reverse, every possible first with every scalar value, every pair that agrees with a composing pair in its low 16 bits or differs from it in a bit, every syllable with every trailing jamo and beyond, every pair of characters of the basic plane (thorough: every pair of scalar values), random pairs; a block is non-trivial if its fixed character takes part in any composition or other normalization behaviour",
        labels: &["random_block_has_composing_pair"],
        stages: vec![
            Stage {
                name: "the composing pairs and their aliases",
                gen: Gen::Exhaustive(|| u().pairs.len() as u64 + 40 + 60, |i, c| {
                    let i = i as usize;
                    let n = u().pairs.len();
                    if i < n {
                        let (a, b, _) = u().pairs[i];
                        c.s.extend([a, b]);
                    } else if i < n + 40 {
                        let k = (i - n) as u32;
                        c.s.extend([char::from_u32(0x1100 + k % 19).unwrap(), char::from_u32(0x1161 + k % 21).unwrap()]);
                    } else {
                        let k = (i - n - 40) as u32;
                        c.s.extend([char::from_u32(0xac00 + 28 * (k * 6)).unwrap(), char::from_u32(0x11a8 + k % 27).unwrap()]);
                    }
                    c.ops.push(2);
                }),
            },
            Stage {
                name: "every scalar value with every second, both ways",
                gen: Gen::Exhaustive(|| pools().all.len() as u64, |i, c| {
                    c.s.push(pools().all[i as usize]);
                    c.ops.push(0);
                }),
            },
            Stage {
                name: "every first with every scalar value",
                gen: Gen::Exhaustive(|| pools().all.len() as u64, |i, c| {
                    c.s.push(pools().all[i as usize]);
                    c.ops.push(1);
                }),
            },
            Stage {
                name: "all pairs (quick: of the basic plane)",
                gen: Gen::Exhaustive(|| row() as u64, |i, c| {
                    c.s.push(pools().all[i as usize]);
                    c.ops.push(3);
                }),
            },
            Stage { name: "random pairs", gen: Gen::Random(300_000, 60_000_000, random) },
        ],
        fuzz: Some(random),
    }
}

pub fn c13() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        for &x in &c.s {
            let d = u();
            o.nontrivial |= d.mark[x as usize] || pools().is_interesting[x as usize];
            o.label(0, d.mark[x as usize]);
            o.label(1, d.mark[x as usize] && d.cc(x) == 0);
            mark_of(x)?;
        }
        Ok(())
    }
    Prop {
        id: "C13",
        check,
        rule: "every scalar value once, then random ones; non-trivial if the character is a mark or has any normalization behaviour",
        labels: &["mark", "mark_of_class_0"],
        stages: vec![every_char(), shuffled()],
        fuzz: None,
    }
}

/// A character not assigned in the reported version does nothing anywhere.
fn inert(x: char) -> Result<(), String> {
    let d = u();
    if d.assigned[x as usize] {
        return Ok(());
    }
    let n = format!("U+{:04X} is not assigned in Unicode {:?} (or private), but", x as u32, d.version);
    if uc::canonical_combining_class(x) != 0 {
        return Err(format!("{n} has a combining class"));
    }
    if uc::is_combining_mark(x) {
        return Err(format!("{n} is a mark"));
    }
    let mut v = vec![];
    uc::decompose_canonical(x, |c| v.push(c));
    uc::decompose_compatible(x, |c| v.push(c));
    uc::decompose_cjk_compat_variants(x, |c| v.push(c));
    if v != [x, x, x] {
        return Err(format!("{n} decomposes: {}", show(&v)));
    }
    for y in ['a', 'A', '\u{301}', '\u{338}', '\u{3099}', '\u{1161}', '\u{11a8}', '\u{ac00}', '\u{1100}', '\u{9be}', '\u{1133e}'] {
        if uc::compose(x, y).is_some() || uc::compose(y, x).is_some() {
            return Err(format!("{n} composes with U+{:04X}", y as u32));
        }
    }
    Ok(())
}
pub fn c14() -> Prop {
    // first character: the subject. t, if any: text around it
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let d = u();
        version()?;
        for &x in &c.s {
            let a = d.assigned[x as usize];
            o.nontrivial |= !a || pools().is_interesting[x as usize];
            o.label(0, a);
            assigned_of(x)?;
            inert(x)?;
            if !a && !c.t.is_empty() {
                o.label(1, true);
                let k = c.ops.first().map_or(0, |&k| k as usize).min(c.t.len());
                let mut whole = c.t[..k].to_vec();
                whole.push(x);
                whole.extend_from_slice(&c.t[k..]);
                for f in FORMS {
                    let mut want = refimpl::norm(f, &c.t[..k]);
                    want.push(x);
                    want.extend(refimpl::norm(f, &c.t[k..]));
                    with_form!(f, whole.iter().copied(), it => same(|| format!("{} of a text with the unassigned U+{:04X}", cc(f), x as u32), it, &want))?;
                }
                let mut want = refimpl::stream_safe(&c.t[..k]);
                want.push(x);
                want.extend(refimpl::stream_safe(&c.t[k..]));
                same(|| format!("stream_safe of a text with the unassigned U+{:04X}", x as u32), whole.iter().copied().stream_safe(), &want)?;
                let mut want = refimpl::cjk(&c.t[..k]);
                want.push(x);
                want.extend(refimpl::cjk(&c.t[k..]));
                same(|| format!("cjk_compat_variants of a text with the unassigned U+{:04X}", x as u32), whole.iter().copied().cjk_compat_variants(), &want)?;
            }
        }
        Ok(())
    }
    fn unassigned() -> &'static Vec<char> {
        static S: OnceLock<Vec<char>> = OnceLock::new();
        S.get_or_init(|| {
            // every unassigned or private character of planes 0 to 3 and 14, and edges of the rest
            crate::ucd::scalars().filter(|&c| !u().assigned[c as usize] && ((c as u32) < 0x40000 && !('\u{e000}'..='\u{f8ff}').contains(&c) || (c as u32) >> 16 == 14 || (c as u32) & 0xffff < 4)).collect()
        })
    }
    fn random(t: &mut Tape, c: &mut Case) {
        let v = unassigned();
        // prefer those next to assigned characters
        let mut i = t.below(v.len());
        for _ in 0..3 {
            let n = v[i] as usize;
            if n > 0 && n + 1 < crate::ucd::N && (u().assigned[n - 1] || u().assigned[n + 1]) {
                break;
            }
            i = t.below(v.len());
        }
        c.s.push(v[i]);
        gen::mixed(t, &mut c.t);
        c.t.truncate(300);
        c.ops.push(t.below(c.t.len() + 1) as u32);
    }
    Prop {
        id: "C14",
        check,
        rule: "every scalar value, then every unassigned one inside a short text and random ones in random texts; non-trivial if the character is unassigned or private, or has any normalization behaviour",
        labels: &["public_assigned", "unassigned_in_text"],
        stages: vec![
            every_char(),
            Stage {
                name: "every unassigned character inside a text",
                gen: Gen::Exhaustive(|| unassigned().len() as u64, |i, c| {
                    c.s.push(unassigned()[i as usize]);
                    c.t.extend("e\u{323}\u{301}\u{ac00}\u{11a8}\u{fb01}\u{f900}\u{344}".chars());
                    c.ops.push((i % 9) as u32);
                }),
            },
            Stage { name: "random unassigned characters in random texts", gen: Gen::Random(150_000, 3_000_000, random) },
        ],
        fuzz: None,
    }
}

pub fn c15() -> Prop {
    fn is_vs(c: char) -> bool {
        ('\u{fe00}'..='\u{fe0f}').contains(&c) || ('\u{e0100}'..='\u{e01ef}').contains(&c)
    }
    fn drop_vs(v: Vec<char>) -> Vec<char> {
        v.into_iter().filter(|&c| !is_vs(c)).collect()
    }
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let want = refimpl::cjk(&c.s);
        o.nontrivial = want != c.s;
        o.label(0, want != c.s);
        o.label(1, c.s.len() > 1 && want != c.s);
        if c.s.len() <= 2 {
            for &x in &c.s {
                cjk_of(x)?;
            }
        }
        let st = string(&c.s);
        let got = take(st.as_str().cjk_compat_variants(), 3 * c.s.len() + 8);
        want_eq(|| "cjk_compat_variants of the string".into(), &got, &want)?;
        same(|| "cjk_compat_variants of an iterator".into(), c.s.iter().copied().cjk_compat_variants(), &want)?;
        if let [x] = c.s[..] {
            same(|| "cjk_compat_variants of the character".into(), x.cjk_compat_variants(), &want)?;
        }
        // no replacement is left to make, and each survives normalization
        same(|| "cjk_compat_variants of its own result".into(), got.iter().copied().cjk_compat_variants(), &got)?;
        if o.nontrivial || super::norm::sampled(c, 3) {
            for f in FORMS {
                let a = drop_vs(lib_norm(f, &got));
                let b = drop_vs(lib_norm(f, &c.s));
                want_eq(|| format!("{} after cjk_compat_variants, without variation selectors, against {} directly", cc(f), cc(f)), &a, &b)?;
                let n = with_form!(f, st.as_str().cjk_compat_variants(), it => take(it, bound(c.s.len() * 2)));
                for &x in &c.s {
                    if let Some(w) = u().cjk.get(&x) {
                        if !n.windows(2).any(|y| y == &w[..]) {
                            return Err(format!("the variation sequence {} of U+{:04X} is gone after {}: {}", show(w), x as u32, cc(f), show(&n)));
                        }
                    }
                }
            }
        }
        Ok(())
    }
    fn cjk_text(t: &mut Tape, c: &mut Case) {
        let p = pools();
        let near: &'static Vec<char> = {
            static S: OnceLock<Vec<char>> = OnceLock::new();
            S.get_or_init(|| {
                let d = u();
                (0xf8f0..0xfb10).chain(0x2f7f0..0x2fa30).chain(0x3400..0x3420).filter_map(char::from_u32).filter(|c| !d.cjk.contains_key(c)).collect()
            })
        };
        for _ in 0..t.range(1, 12) {
            match t.below(9) {
                0..=3 => c.s.push(t.pick(&p.cjk)),
                4 => c.s.push(t.pick(near)),
                5 => {
                    let x = t.pick(&p.cjk);
                    c.s.extend(u().cjk[&x].iter());
                }
                6 => c.s.push(t.pick(&['\u{fe00}', '\u{fe01}', '\u{fe02}', '\u{e0100}', '\u{3099}', '\u{301}', '\u{ac00}', '\u{ac01}', '\u{d7a3}'])),
                7 => {
                    let x = t.pick(&p.cjk);
                    c.s.extend(std::iter::repeat(x).take(t.range(1, 5)));
                }
                _ => gen::text(t, &mut c.s),
            }
        }
        c.s.truncate(400);
    }
    Prop {
        id: "C15",
        check,
        rule: "every scalar value in 8 contexts, every pair of a variant-bearing ideograph and a neighbour, random texts rich in them; non-trivial if a replacement is due; distinct by the hash of the input",
        labels: &["replaced", "replaced_in_longer_text"],
        stages: vec![
            Stage { name: "every scalar value in 8 contexts", gen: Gen::Exhaustive(gen::all_scalars_count, gen::all_scalars) },
            Stage {
                name: "every compatibility ideograph next to every kind of neighbour",
                gen: Gen::Exhaustive(|| (pools().cjk.len() * (pools().class_reps.len() + 40)) as u64, |i, c| {
                    let p = pools();
                    let n = p.class_reps.len() + 40;
                    let (j, k) = (i as usize / n, i as usize % n);
                    let m = if k < p.class_reps.len() { p.class_reps[k] } else { p.cjk[(j * 31 + k * 7) % p.cjk.len()] };
                    let x = p.cjk[j];
                    match i % 3 {
                        0 => c.s.extend([x, m]),
                        1 => c.s.extend([m, x]),
                        _ => c.s.extend([x, m, x, x, m]),
                    }
                }),
            },
            Stage { name: "plain text of every length around something", gen: Gen::Exhaustive(gen::padded_count, gen::padded) },
            Stage { name: "random texts rich in compatibility ideographs", gen: Gen::Random(300_000, 6_000_000, cjk_text) },
            Stage { name: "random structured text", gen: Gen::Random(200_000, 4_000_000, gen::case_mixed) },
        ],
        fuzz: Some(cjk_text),
    }
}

