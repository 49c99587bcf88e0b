//! The answers of the functions of characters, compared with the reference data.
use crate::engine::{show, Gen, Stage};
use crate::gen::pools;
use crate::lib_api::*;
use crate::refimpl;
use crate::ucd::u;

pub fn every_char() -> Stage {
    Stage { name: "every scalar value", gen: Gen::Exhaustive(|| pools().all.len() as u64, |i, c| c.s.push(pools().all[i as usize])) }
}

pub fn ccc_of(x: char) -> Result<(), String> {
    let (got, want) = (uc::canonical_combining_class(x), u().cc(x));
    if got != want {
        return Err(format!("canonical_combining_class(U+{:04X}) is {got}, the UCD says {want}", x as u32));
    }
    Ok(())
}

pub fn decompositions_of(x: char) -> Result<(), String> {
    for compat in [false, true] {
        let want = u().dec_of(x, compat);
        let mut got: Vec<char> = Vec::with_capacity(20);
        let f = |c| {
            if got.len() < 100 {
                got.push(c)
            }
        };
        let name = if compat { "decompose_compatible" } else { "decompose_canonical" };
        if compat {
            uc::decompose_compatible(x, f)
        } else {
            uc::decompose_canonical(x, f)
        }
        if got != want {
            return Err(format!("{name}(U+{:04X}) passes {}, the UCD says {}", x as u32, show(&got), show(&want)));
        }
        for &y in &got {
            let mut n = 0;
            let mut same = true;
            let f = |z| {
                n += 1;
                same &= z == y;
            };
            if compat {
                uc::decompose_compatible(y, f)
            } else {
                uc::decompose_canonical(y, f)
            }
            if n != 1 || !same {
                return Err(format!("{name}(U+{:04X}) passes U+{:04X}, which itself decomposes", x as u32, y as u32));
            }
        }
    }
    Ok(())
}

pub fn pair(a: char, b: char) -> Result<(), String> {
    let (got, want) = (uc::compose(a, b), u().compose(a, b));
    if got != want {
        let f = |x: Option<char>| x.map_or("nothing".to_string(), |c| format!("U+{:04X}", c as u32));
        return Err(format!("compose(U+{:04X}, U+{:04X}) is {}, should be {}", a as u32, b as u32, f(got), f(want)));
    }
    Ok(())
}

pub fn mark_of(x: char) -> Result<(), String> {
    let (got, want) = (uc::is_combining_mark(x), u().mark[x as usize]);
    if got != want {
        return Err(format!("is_combining_mark(U+{:04X}) is {got}; General_Category is Mark: {want}", x as u32));
    }
    Ok(())
}

pub fn assigned_of(x: char) -> Result<(), String> {
    let (got, want) = (uc::is_public_assigned(x), u().assigned[x as usize]);
    if got != want {
        return Err(format!("is_public_assigned(U+{:04X}) is {got}, the UCD says {want}", x as u32));
    }
    Ok(())
}

pub fn version() -> Result<(), String> {
    if un::UNICODE_VERSION != u().version {
        return Err(format!("UNICODE_VERSION is {:?}, the data is of {:?}", un::UNICODE_VERSION, u().version));
    }
    Ok(())
}

pub fn cjk_of(x: char) -> Result<(), String> {
    let want = refimpl::cjk(&[x]);
    let mut got = vec![];
    uc::decompose_cjk_compat_variants(x, |c| {
        if got.len() < 50 {
            got.push(c)
        }
    });
    want_eq(|| format!("decompose_cjk_compat_variants(U+{:04X})", x as u32), &got, &want)
}
