//! C03, C04: the algebra of the forms.
use crate::engine::{show, Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl::{self, FORMS};

fn gen_equiv(t: &mut Tape, c: &mut Case) {
    gen::mixed(t, &mut c.s);
    if c.s.len() > 400 {
        c.s.truncate(400);
    }
    match t.below(8) {
        0 => gen::mixed(t, &mut c.t),
        1 => {
            c.t = c.s.clone();
            gen::mutate(t, &mut c.t);
        }
        2 => c.t = refimpl::norm(FORMS[t.below(4)], &c.s),
        3 => {
            c.t = gen::equivalent(t, &c.s, true);
            gen::mutate(t, &mut c.t);
        }
        k => c.t = gen::equivalent(t, &c.s, k >= 6),
    }
}
fn derived(i: u64, c: &mut Case) {
    c.t = refimpl::norm(FORMS[(i % 4) as usize], &c.s);
    if i % 7 == 0 {
        c.t.push('\u{323}');
        c.s.push('\u{323}');
    }
}
pub fn c03() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let s: Vec<Vec<char>> = FORMS.iter().map(|&f| lib_norm(f, &c.s)).collect();
        let t: Vec<Vec<char>> = FORMS.iter().map(|&f| lib_norm(f, &c.t)).collect();
        // what the second form makes of the first: compatibility wins, composition is the last one's
        for (x, w) in [(&c.s, &s), (&c.t, &t)] {
            for (i, &f) in FORMS.iter().enumerate() {
                for &g in FORMS.iter() {
                    let h = match (f.compat() || g.compat(), g.composed()) {
                        (false, false) => 0,
                        (true, false) => 1,
                        (false, true) => 2,
                        (true, true) => 3,
                    };
                    let got = lib_norm(g, &w[i]);
                    if got != w[h] {
                        return Err(format!(
                            "{} of {} of {} is {}, but its {} is {}",
                            cc(g),
                            cc(f),
                            show(x),
                            show(&got),
                            cc(FORMS[h]),
                            show(&w[h])
                        ));
                    }
                }
            }
        }
        let canon = refimpl::nfd(&c.s) == refimpl::nfd(&c.t);
        let compat = refimpl::nfkd(&c.s) == refimpl::nfkd(&c.t);
        for (i, &f) in FORMS.iter().enumerate() {
            let eq = if f.compat() { compat } else { canon };
            if (s[i] == t[i]) != eq {
                return Err(format!(
                    "{} {} {} equivalent to {}, but their {} {}",
                    show(&c.s),
                    if eq { "is" } else { "is not" },
                    if f.compat() { "compatibility" } else { "canonically" },
                    show(&c.t),
                    cc(f),
                    if eq { "differ" } else { "are equal" }
                ));
            }
        }
        o.nontrivial = c.s != c.t && (canon || compat) || s[0] != c.s;
        o.label(0, canon && c.s != c.t);
        o.label(1, compat && !canon);
        o.label(2, !compat);
        o.label(3, s[0] != c.s);
        Ok(())
    }
    Prop {
        id: "C03",
        check,
        rule: "pairs of texts, the second derived from the first by random equivalence-preserving steps, by a small change, or independent; non-trivial if two different texts are equivalent or the first changes under NFD; distinct by the hash of the pair",
        labels: &["canonically_equivalent_not_equal", "compatibility_equivalent_only", "not_equivalent", "changes_under_nfd"],
        stages: vec![
            Stage {
                name: "every scalar value in 8 contexts and a form of it",
                gen: Gen::Exhaustive(gen::all_scalars_count, |i, c| {
                    gen::all_scalars(i, c);
                    derived(i / 8, c);
                }),
            },
            Stage {
                name: "every character of interest in 480 contexts and a form of it",
                gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 3, |i, c| {
                    gen::interesting_contexts(i * 3 + i / 160 % 3, c);
                    derived(i, c);
                }),
            },
            Stage {
                name: "hangul",
                gen: Gen::Exhaustive(gen::hangul_count, |i, c| {
                    gen::hangul(i, c);
                    derived(i, c);
                }),
            },
            Stage {
                name: "every pair of non-starters, exchanged",
                gen: Gen::Exhaustive(gen::mark_pairs_count, |i, c| {
                    gen::mark_pairs(i, c);
                    c.t = c.s.clone();
                    c.t.swap(1, 2);
                }),
            },
            Stage {
                name: "mark runs",
                gen: Gen::Exhaustive(|| gen::runs_count() / 5, |i, c| {
                    gen::runs(i * 5 + i % 5, c);
                    derived(i, c);
                    if i % 3 == 0 {
                        c.t.reverse();
                    }
                }),
            },
            Stage { name: "random pairs", gen: Gen::Random(250_000, 6_000_000, gen_equiv) },
        ],
        fuzz: Some(gen_equiv),
    }
}

pub fn c04() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let mut xy = c.s.clone();
        xy.extend_from_slice(&c.t);
        for f in FORMS {
            let (a, b) = (lib_norm(f, &c.s), lib_norm(f, &c.t));
            let whole = lib_norm(f, &xy);
            let mut ab = a.clone();
            ab.extend_from_slice(&b);
            let n = lib_norm(f, &ab);
            if n != whole {
                return Err(format!("{}: x = {}, y = {}: the form of N(x)N(y) is {}, the form of xy is {}", cc(f), show(&c.s), show(&c.t), show(&n), show(&whole)));
            }
            o.nontrivial |= ab != whole || whole != xy;
            o.label(0, ab != whole);
            // cut at every boundary, and at each one alone (short texts) or some (long ones)
            let cuts: Vec<usize> = (1..xy.len()).filter(|&i| refimpl::starts_boundary(f, xy[i])).collect();
            if !cuts.is_empty() {
                o.label(1, true);
                let mut out = vec![];
                let mut last = 0;
                for &k in cuts.iter().chain([&xy.len()]) {
                    out.extend(lib_norm(f, &xy[last..k]));
                    last = k;
                }
                if out != whole {
                    return Err(format!("{}: {} cut at every normalization boundary normalizes to {}, whole to {}", cc(f), show(&xy), show(&out), show(&whole)));
                }
                let step = (cuts.len() / 4).max(1);
                for &k in cuts.iter().step_by(step) {
                    let mut out = lib_norm(f, &xy[..k]);
                    out.extend(lib_norm(f, &xy[k..]));
                    if out != whole {
                        return Err(format!("{}: {} cut before character {k} normalizes to {}, whole to {}", cc(f), show(&xy), show(&out), show(&whole)));
                    }
                }
            }
        }
        Ok(())
    }
    fn halves(i: u64, c: &mut Case) {
        let k = (i % 5) as usize * c.s.len() / 4;
        c.t = c.s.split_off(k.min(c.s.len()));
    }
    fn random(t: &mut Tape, c: &mut Case) {
        gen::mixed(t, &mut c.s);
        if t.chance(1, 2) {
            let k = t.below(c.s.len() + 1);
            c.t = c.s.split_off(k);
        } else {
            gen::mixed(t, &mut c.t);
        }
        if c.s.len() > 1500 {
            c.s.truncate(1500);
        }
        if c.t.len() > 1500 {
            c.t.truncate(1500);
        }
    }
    Prop {
        id: "C04",
        check,
        rule: "a text x and a text y (one text cut anywhere, or two texts), plus every normalization boundary inside xy; non-trivial if normalizing changes xy or N(x)N(y) is not already normal; distinct by the hash of the pair",
        labels: &["pieces_interact", "has_boundary"],
        stages: vec![
            Stage {
                name: "every scalar value in 8 contexts, cut",
                gen: Gen::Exhaustive(|| gen::all_scalars_count(), |i, c| {
                    gen::all_scalars(i, c);
                    halves(i / 8 + i, c);
                }),
            },
            Stage {
                name: "every character of interest in 480 contexts, cut",
                gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 2, |i, c| {
                    gen::interesting_contexts(i * 2 + i / 240 % 2, c);
                    halves(i / 7, c);
                }),
            },
            Stage {
                name: "every first x second x class between, cut",
                gen: Gen::Exhaustive(|| gen::firsts_seconds_classes_count() / 2, |i, c| {
                    gen::firsts_seconds_classes(i * 2 + i / 100 % 2, c);
                    c.t = c.s.split_off(1);
                }),
            },
            Stage {
                name: "every pair of non-starters, cut between",
                gen: Gen::Exhaustive(gen::mark_pairs_count, |i, c| {
                    gen::mark_pairs(i, c);
                    c.t = c.s.split_off(2);
                }),
            },
            Stage {
                name: "hangul, cut",
                gen: Gen::Exhaustive(gen::hangul_count, |i, c| {
                    gen::hangul(i, c);
                    c.t = c.s.split_off(1);
                }),
            },
            Stage {
                name: "mark runs, cut",
                gen: Gen::Exhaustive(|| gen::runs_count() / 5, |i, c| {
                    gen::runs(i * 5 + i % 5, c);
                    halves(i, c);
                }),
            },
            Stage {
                name: "plain text of every length around something, cut",
                gen: Gen::Exhaustive(|| gen::padded_count() / 3, |i, c| {
                    gen::padded(i * 3 + i / 40 % 3, c);
                    let k = (i * 7919) as usize % (c.s.len() + 1);
                    c.t = c.s.split_off(k);
                }),
            },
            Stage { name: "random texts", gen: Gen::Random(200_000, 5_000_000, random) },
        ],
        fuzz: Some(random),
    }
}
