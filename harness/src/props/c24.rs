//! C24's comparison of the tables compiled in with a database.
use super::answers::*;
use crate::engine::{Case, Gen, Obs, Prop, Stage};
use crate::gen::{self, pools};
use crate::lib_api::*;
use crate::refimpl::{self, FORMS};
use crate::ucd::{is_hangul, u};
use crate::with_form;

/// C24: everything the tables say, against the database named by VP_UCD (or the committed reference data).
pub fn c24() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let d = u();
        version()?;
        if let [x] = c.s[..] {
            let i = x as usize;
            ccc_of(x)?;
            decompositions_of(x)?;
            mark_of(x)?;
            assigned_of(x)?;
            cjk_of(x)?;
            // quick-check properties, seen through one-character texts
            for (f, ss) in QUICKS {
                let (want, _) = refimpl::quick(f, ss, &[x]);
                let got = quick(f, ss, Some(x).into_iter());
                if got != want {
                    return Err(format!("quick-check property {} of U+{i:04X} is {got:?}, the database says {want:?}", cc(f)));
                }
            }
            if pools().is_interesting[i] {
                o.nontrivial = true;
                // stream-safe counts: 30 - k marks, the character, and k + 1 further marks
                let m = pools().marks[0];
                for k in 0..=(d.lead[i].max(d.trail[i]) as usize + 1).min(30) {
                    let mut t: Vec<char> = std::iter::repeat(m).take(30 - k).collect();
                    t.push(x);
                    same(|| format!("stream_safe of U+{i:04X} after {} marks", 30 - k), t.iter().copied().stream_safe(), &refimpl::stream_safe(&t))?;
                    let mut t = vec![x];
                    t.extend(std::iter::repeat(m).take(31 - k));
                    same(|| format!("stream_safe of U+{i:04X} before {} marks", 31 - k), t.iter().copied().stream_safe(), &refimpl::stream_safe(&t))?;
                }
            } else {
                o.nontrivial = is_hangul(x);
            }
            return Ok(());
        }
        if let ([a, b], Some(9)) = (&c.s[..], c.ops.first()) {
            o.nontrivial = true;
            pair(*a, *b)?;
            for &y in &pools().seconds {
                pair(*a, y)?;
            }
            for &x in &pools().firsts {
                pair(x, *b)?;
            }
            // excluded and longer decompositions never compose
            for k in 1..=16u32 {
                for (x, y) in [((*a as u32) + k * 0x10000, *b as u32), (*a as u32, *b as u32 + k * 0x10000)] {
                    if let (Some(x), Some(y)) = (char::from_u32(x), char::from_u32(y)) {
                        pair(x, y)?;
                    }
                }
            }
            return Ok(());
        }
        o.nontrivial = true;
        for f in FORMS {
            let want = refimpl::norm(f, &c.s);
            with_form!(f, c.s.iter().copied(), it => same(|| cc(f).to_string(), it, &want))?;
        }
        same(|| "stream_safe".into(), c.s.iter().copied().stream_safe(), &refimpl::stream_safe(&c.s))?;
        same(|| "cjk_compat_variants".into(), c.s.iter().copied().cjk_compat_variants(), &refimpl::cjk(&c.s))?;
        Ok(())
    }
    Prop {
        id: "C24",
        check,
        rule: "every scalar value through every character function and table-driven predicate, every composing pair with every first and second, random texts through every adapter; non-trivial if the character has an entry in any table",
        labels: &[],
        stages: vec![
            every_char(),
            Stage {
                name: "every composing pair",
                gen: Gen::Exhaustive(|| (u().pairs.len()) as u64, |i, c| {
                    let (a, b, _) = u().pairs[i as usize];
                    c.s.extend([a, b]);
                    c.ops.push(9);
                }),
            },
            Stage {
                name: "every non-trivial decomposition as a pair",
                gen: Gen::Exhaustive(|| pools().canon.len() as u64, |i, c| {
                    let x = pools().canon[i as usize];
                    let v = u().dec_of(x, false);
                    c.s.extend([v[0], *v.last().unwrap()]);
                    c.ops.push(9);
                }),
            },
            Stage { name: "random texts", gen: Gen::Random(60_000, 600_000, gen::case_mixed) },
        ],
        fuzz: None,
    }
}
