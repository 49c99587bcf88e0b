use crate::engine::{Gen, Prop, Stage};
use crate::gen;

pub mod answers;
pub mod c24;
pub mod chars;
pub mod cold;
pub mod equiv;
pub mod history;
pub mod light;
pub mod norm;
pub mod panics;
pub mod purity;
pub mod streamsafe;
pub mod tell;
pub mod transcript;
pub mod work;

/// The families every property of texts is run over.
pub fn text_stages(scale: u64) -> Vec<Stage> {
    vec![
        Stage { name: "every scalar value in 8 contexts", gen: Gen::Exhaustive(gen::all_scalars_count, gen::all_scalars) },
        Stage { name: "every character of interest in 480 contexts", gen: Gen::Exhaustive(gen::interesting_contexts_count, gen::interesting_contexts) },
        Stage { name: "every first x second x class between", gen: Gen::Exhaustive(gen::firsts_seconds_classes_count, gen::firsts_seconds_classes) },
        Stage { name: "every pair of non-starters", gen: Gen::Exhaustive(gen::mark_pairs_count, gen::mark_pairs) },
        Stage { name: "hangul", gen: Gen::Exhaustive(gen::hangul_count, gen::hangul) },
        Stage { name: "mark runs to 100000", gen: Gen::Exhaustive(gen::runs_count, gen::runs) },
        Stage { name: "texts to 300000 characters, mark runs to 1100000", gen: Gen::Exhaustive(gen::long_texts_count, gen::long_texts) },
        Stage { name: "plain text of every length around something", gen: Gen::Exhaustive(gen::padded_count, gen::padded) },
        Stage { name: "random structured text", gen: Gen::Random(600_000 * scale / 100, 12_000_000 * scale / 100, gen::case_text) },
        Stage { name: "random normalized text and near misses", gen: Gen::Random(400_000 * scale / 100, 8_000_000 * scale / 100, gen::case_near) },
        Stage { name: "random runs near the stream-safe limit", gen: Gen::Random(120_000 * scale / 100, 3_000_000 * scale / 100, gen::case_runs) },
    ]
}
pub fn all() -> Vec<Prop> {
    vec![
        norm::c01(),
        norm::c02(),
        equiv::c03(),
        equiv::c04(),
        norm::c05(),
        norm::c06(),
        streamsafe::c07(),
        streamsafe::c08(),
        streamsafe::c09(),
        chars::c10(),
        chars::c11(),
        chars::c12(),
        chars::c13(),
        chars::c14(),
        chars::c15(),
        history::c16(),
        history::c17(),
        purity::c18(),
        history::c19(),
        work::c20(),
        panics::c21(),
        purity::c23(),
        transcript::c22(),
        c24::c24(),
    ]
}
