//! C01, C02, C05, C06: the four forms and their predicates against the reference.
use super::text_stages;
use crate::engine::{Case, Gen, Obs, Prop, Stage};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl::{self, Form, Qc};
use crate::with_form;

pub fn sampled(c: &Case, bits: u64) -> bool {
    c.hash() & ((1 << bits) - 1) == 0
}
fn form_exact(f: Form, c: &Case, st: &str, o: &mut Obs) -> Result<(), String> {
    let want = refimpl::norm(f, &c.s);
    o.nontrivial |= want != c.s;
    with_form!(f, st, it => same(|| format!("{} of the string", cc(f)), it, &want))?;
    if c.s.len() <= 2 || sampled(c, 2) {
        with_form!(f, c.s.iter().copied(), it => same(|| format!("{} of an iterator of the characters", cc(f)), it, &want))?;
    }
    if let [x] = c.s[..] {
        with_form!(f, x, it => same(|| format!("{} of the character", cc(f)), it, &want))?;
    }
    Ok(())
}
fn labels(c: &Case, o: &mut Obs) {
    if sampled(c, 6) {
        gen::labels_text(o, &c.s, 0);
    }
}
/// Runs longer than 2^24, described by ops alone: style, length, head, tail.
fn deep(i: u64, c: &mut Case) {
    let i = i as usize;
    c.ops.extend([[6, 2, 5, 9][i % 4] as u32, 16_800_000, i as u32 % 5, 1 + i as u32 % 3]);
}
fn expand(c: &Case) -> Option<Case> {
    if let [style, n, head, tail] = c.ops[..] {
        let mut e = Case::default();
        gen::run_text(n as usize, style as usize % 14, head as usize, tail as usize, &mut e.s);
        return Some(e);
    }
    None
}
fn exact_stages() -> Vec<Stage> {
    let mut v = text_stages(100);
    v.push(Stage { name: "mark runs of 16800000", gen: Gen::Exhaustive(|| 4, deep) });
    v
}
const RULE: &str = "families enumerated or drawn from structured generators; a case is non-trivial if the form differs from the input; distinct by the hash of the input; labels counted on a 1/64 sample";

pub fn c01() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let e = expand(c);
        let c = e.as_ref().unwrap_or(c);
        let st = string(&c.s);
        form_exact(Form::Nfd, c, &st, o)?;
        form_exact(Form::Nfkd, c, &st, o)?;
        labels(c, o);
        Ok(())
    }
    Prop { id: "C01", check, rule: RULE, labels: &gen::TEXT_LABELS, stages: exact_stages(), fuzz: Some(gen::case_mixed) }
}
pub fn c02() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let e = expand(c);
        let c = e.as_ref().unwrap_or(c);
        let st = string(&c.s);
        form_exact(Form::Nfc, c, &st, o)?;
        form_exact(Form::Nfkc, c, &st, o)?;
        if refimpl::nfd(&c.s) != c.s {
            o.nontrivial = true;
        }
        labels(c, o);
        Ok(())
    }
    Prop {
        id: "C02",
        check,
        rule: "families enumerated or drawn from structured generators; non-trivial if the decomposition or the composed form differs from the input; distinct by the hash of the input; labels on a 1/64 sample",
        labels: &gen::TEXT_LABELS,
        stages: exact_stages(),
        fuzz: Some(gen::case_mixed),
    }
}

pub fn ref_truth(f: Form, stream_safe: bool, s: &[char]) -> bool {
    refimpl::norm(f, s) == s && (!stream_safe || refimpl::max_run(s) <= 30)
}
pub fn c05() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let st = string(&c.s);
        for (k, (f, ss)) in QUICKS.into_iter().enumerate() {
            let got = quick(f, ss, st.chars());
            let (want, _) = refimpl::quick(f, ss, &c.s);
            let name = || format!("quick check {}{}", cc(f), if ss { " stream-safe" } else { "" });
            o.nontrivial |= want != Qc::No && !c.s.is_ascii();
            o.label(k as u32 * 3 + match got { Qc::Yes => 0, Qc::No => 1, Qc::Maybe => 2 }, true);
            match got {
                Qc::Maybe if want != Qc::Maybe => return Err(format!("{}: Maybe where the detection algorithm of UAX #15 says {want:?}", name())),
                Qc::Maybe => {}
                _ if got == want && !sampled(c, 2) => {} // the algorithm itself is sound; confirmed on every fourth case
                _ => {
                    let truth = ref_truth(f, ss, &c.s);
                    if truth != (got == Qc::Yes) {
                        return Err(format!("{}: answered {got:?}, but the text {} in that form", name(), if truth { "is" } else { "is not" }));
                    }
                }
            }
        }
        Ok(())
    }
    let mut stages = text_stages(100);
    stages.push(normalized_stage(Form::Nfc));
    Prop {
        id: "C05",
        check,
        rule: "families enumerated or drawn from structured generators; non-trivial if at least one of the six checks should not answer No and the text is not ASCII; distinct by the hash of the input",
        labels: &[
            "nfc_yes", "nfc_no", "nfc_maybe", "nfd_yes", "nfd_no", "nfd_maybe", "nfkc_yes", "nfkc_no", "nfkc_maybe", "nfkd_yes", "nfkd_no", "nfkd_maybe", "nfc_ss_yes", "nfc_ss_no", "nfc_ss_maybe", "nfd_ss_yes",
            "nfd_ss_no", "nfd_ss_maybe",
        ],
        stages,
        fuzz: Some(gen::case_mixed),
    }
}
/// Normal forms of the structured contexts: texts that are in the form.
pub fn normalized_stage(_f: Form) -> crate::engine::Stage {
    use crate::engine::{Gen, Stage};
    Stage {
        name: "the normal forms of every character of interest in 480 contexts",
        gen: Gen::Exhaustive(gen::interesting_contexts_count, |i, c| {
            gen::interesting_contexts(i, c);
            c.s = refimpl::norm(refimpl::FORMS[(i % 4) as usize], &c.s);
        }),
    }
}
pub fn c06() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let st = string(&c.s);
        for (k, f) in refimpl::FORMS.into_iter().enumerate() {
            let truth = ref_truth(f, false, &c.s);
            let got = is_form(f, &st);
            o.label(k as u32, truth);
            o.nontrivial |= truth && !c.s.is_ascii() || refimpl::quick(f, false, &c.s).0 == Qc::Maybe;
            if got != truth {
                return Err(format!("is_{} answered {got}, but the form of {} is {}", cc(f), crate::engine::show(&c.s), crate::engine::show(&refimpl::norm(f, &c.s))));
            }
        }
        Ok(())
    }
    let mut stages = text_stages(100);
    stages.push(normalized_stage(Form::Nfc));
    Prop {
        id: "C06",
        check,
        rule: "families enumerated or drawn from structured generators; non-trivial if the text is non-ASCII and in a form, or the quick check cannot decide; distinct by the hash of the input",
        labels: &["is_nfd", "is_nfkd", "is_nfc", "is_nfkc"],
        stages,
        fuzz: Some(gen::case_mixed),
    }
}
trait Ascii {
    fn is_ascii(&self) -> bool;
}
impl Ascii for Vec<char> {
    fn is_ascii(&self) -> bool {
        self.iter().all(|c| *c <= '\x7f')
    }
}
