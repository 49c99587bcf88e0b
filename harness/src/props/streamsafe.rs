//! C07, C08, C09: stream-safe text.
use super::norm::{normalized_stage, ref_truth, sampled};
use super::text_stages;
use crate::engine::{show, Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use crate::lib_api::*;
use crate::refimpl::{self, Form, FORMS};
use crate::with_form;

/// Texts whose longest run is near 30, normalized one way or another.
fn near_limit(t: &mut Tape, c: &mut Case) {
    gen::long_runs(t, &mut c.s);
    match t.below(6) {
        0 => c.s = refimpl::nfd(&c.s),
        1 => c.s = refimpl::norm(Form::Nfc, &c.s),
        2 => c.s = refimpl::norm(Form::Nfc, &refimpl::stream_safe(&c.s)),
        3 => c.s = refimpl::norm(Form::Nfd, &refimpl::stream_safe(&c.s)),
        _ => {}
    }
    if t.chance(1, 3) {
        gen::mutate(t, &mut c.s);
    }
}
/// Every decomposing character (and a mark of every class) just below, at and above the limit, before and after marks.
pub fn limit_contexts_count() -> u64 {
    let p = gen::pools();
    (p.interesting.len() * 8 * 6) as u64
}
pub fn limit_contexts(i: u64, c: &mut Case) {
    let p = gen::pools();
    let i = i as usize;
    let ch = p.interesting[i / 48];
    let (n, k) = (26 + i / 6 % 8, i % 6);
    let m = if i / 48 % 2 == 0 { '\u{301}' } else { '\u{316}' };
    let run = std::iter::repeat(m).take(n);
    match k {
        0 => {
            c.s.push('a');
            c.s.extend(run);
            c.s.push(ch);
        }
        1 => {
            c.s.push(ch);
            c.s.extend(run);
            c.s.push('\u{345}');
        }
        2 => {
            c.s.extend(run);
            c.s.push(ch);
            c.s.extend(std::iter::repeat(m).take(n));
        }
        3 => {
            c.s.push('\u{ac00}');
            c.s.extend(run);
            c.s.extend([ch, ch, 'b']);
        }
        4 => {
            c.s.extend(run);
            c.s.extend([ch, '\u{344}', m]);
        }
        _ => {
            c.s.push(ch);
            c.s.extend(run);
            c.s = refimpl::norm(if i % 4 < 2 { Form::Nfc } else { Form::Nfd }, &c.s);
        }
    }
}
fn stages(scale: u64) -> Vec<Stage> {
    let mut v = text_stages(scale);
    v.push(Stage { name: "every character of interest at the limit", gen: Gen::Exhaustive(limit_contexts_count, limit_contexts) });
    v.push(Stage { name: "random texts near the limit", gen: Gen::Random(150_000, 4_000_000, near_limit) });
    v
}
pub fn c07() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let st = string(&c.s);
        let run = refimpl::max_run(&c.s);
        for (k, f) in [Form::Nfc, Form::Nfd].into_iter().enumerate() {
            let truth = ref_truth(f, true, &c.s);
            let got = if k == 0 { un::is_nfc_stream_safe(&st) } else { un::is_nfd_stream_safe(&st) };
            o.label(k as u32 * 3, truth);
            o.label(k as u32 * 3 + 1, run > 30 && refimpl::norm(f, &c.s) == c.s);
            o.label(k as u32 * 3 + 2, truth && run >= 28);
            o.nontrivial |= truth && run > 0 || run > 30;
            if got != truth {
                return Err(format!(
                    "is_{}_stream_safe answered {got}: in the form: {}, longest run of non-starters in NFKD: {run}",
                    cc(f),
                    refimpl::norm(f, &c.s) == c.s
                ));
            }
        }
        Ok(())
    }
    let mut stages = stages(70);
    stages.push(normalized_stage(Form::Nfc));
    Prop {
        id: "C07",
        check,
        rule: "families enumerated or drawn from structured generators, many at runs of 26 to 34 non-starters; non-trivial if a predicate should be true of a text with non-starters, or the longest run is over 30; distinct by the hash of the input",
        labels: &["nfc_ss_true", "nfc_but_run_over_30", "nfc_ss_true_run_28_to_30", "nfd_ss_true", "nfd_but_run_over_30", "nfd_ss_true_run_28_to_30"],
        stages,
        fuzz: Some(near_limit),
    }
}
pub fn c08() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let want = refimpl::stream_safe(&c.s);
        o.nontrivial = want != c.s || refimpl::max_run(&c.s) > 20;
        o.label(0, want != c.s);
        o.label(1, refimpl::max_run(&c.s) == 30);
        let st = string(&c.s);
        let got = take(st.as_str().stream_safe(), 2 * c.s.len() + 8);
        want_eq(|| "stream_safe of the string".into(), &got, &want)?;
        if refimpl::max_run(&got) > 30 {
            return Err("stream_safe left a run of more than 30 non-starters".into());
        }
        if refimpl::max_run(&c.s) <= 30 && got != c.s {
            return Err("stream_safe changed text that was stream-safe".into());
        }
        same(|| "stream_safe of its own result".into(), got.iter().copied().stream_safe(), &got)?;
        if let [x] = c.s[..] {
            same(|| "stream_safe of the character".into(), x.stream_safe(), &want)?;
        }
        Ok(())
    }
    Prop {
        id: "C08",
        check,
        rule: "families enumerated or drawn from structured generators, many at runs of 26 to 34 non-starters; non-trivial if a joiner is due or the longest run is over 20; distinct by the hash of the input",
        labels: &["joiner_due", "run_of_exactly_30"],
        stages: stages(100),
        fuzz: Some(near_limit),
    }
}
pub fn c09() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        let ss = lib_stream_safe(&c.s);
        o.nontrivial = ss != c.s;
        for (k, f) in FORMS.into_iter().enumerate() {
            // normalize the stream-safe version
            let a = lib_norm(f, &ss);
            // make the normalized text stream-safe
            let n = lib_norm(f, &c.s);
            let b = lib_stream_safe(&n);
            o.nontrivial |= b != n;
            o.label(k as u32, a != b);
            with_form!(f, c.s.iter().copied().stream_safe(), it => same(|| format!("stream_safe chained into {}", cc(f)), it, &a))?;
            with_form!(f, c.s.iter().copied(), it => same(|| format!("{} chained into stream_safe", cc(f)), it.stream_safe(), &b))?;
            for (what, v) in [("normalized after stream_safe", &a), ("made stream-safe after normalizing", &b)] {
                let what = || format!("text {what} ({})", cc(f));
                if refimpl::max_run(v) > 30 {
                    return Err(format!("{} has a run of {} non-starters: {}", what(), refimpl::max_run(v), show(v)));
                }
                if !ref_in_form(f, v) {
                    return Err(format!("{} is not in {}: {}", what(), cc(f), show(v)));
                }
                let st = string(v);
                if !is_form(f, &st) {
                    return Err(format!("{}: is_{} denies it", what(), cc(f)));
                }
                if f == Form::Nfc && !un::is_nfc_stream_safe(&st) || f == Form::Nfd && !un::is_nfd_stream_safe(&st) {
                    return Err(format!("{}: is_{}_stream_safe denies it: {}", what(), cc(f), show(v)));
                }
                same(|| format!("stream_safe of {}", what()), v.iter().copied().stream_safe(), v)?;
                if v.len() < 200 || sampled(c, 2) {
                    with_form!(f, v.iter().copied(), it => same(|| format!("{} of {}", cc(f), what()), it, v))?;
                }
            }
        }
        Ok(())
    }
    let mut st = stages(25);
    // the plain contexts never reach the limit
    st.retain(|s| !s.name.starts_with("every first") && !s.name.starts_with("every scalar") && !s.name.starts_with("every character of interest") && !s.name.starts_with("hangul"));
    st.insert(
        0,
        Stage {
            name: "every character of interest with long runs and next to itself",
            gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / gen::ctx_big_count() * 40, |i, c| {
                let n = gen::ctx_big_count();
                gen::interesting_contexts(i / 40 * n + n - 40 + i % 40, c)
            }),
        },
    );
    st.insert(
        0,
        Stage {
            name: "every scalar value before and after 29 to 31 marks",
            gen: Gen::Exhaustive(|| gen::pools().all.len() as u64, |i, c| {
                let ch = gen::pools().all[i as usize];
                let n = 29 + (i % 3) as usize;
                c.s.push(ch);
                c.s.extend(std::iter::repeat('\u{301}').take(n));
                c.s.push(ch);
            }),
        },
    );
    Prop {
        id: "C09",
        check,
        rule: "families enumerated or drawn from structured generators, many at runs of 26 to 34 non-starters; non-trivial if a joiner is due in the text or in one of its forms; distinct by the hash of the input; labels: the two orders give different text",
        labels: &["orders_differ_nfd", "orders_differ_nfkd", "orders_differ_nfc", "orders_differ_nfkc"],
        stages: st,
        fuzz: Some(near_limit),
    }
}
