//! The command line.
use crate::engine::{self, Case, Cfg, Obs, Prop};

fn usage() -> ! {
    eprintln!(
        "vp check <id> [--tier quick|thorough] [--seed N] [--threads N] [--scale PERCENT] [--replay-out F] [--evidence-out F] [--build NAME] [--only STAGE] [--digests F] [--case-cpu S]\n\
         vp replay <file> [--fuel N]\n\
         vp block <id> <stage> <block> [--tier ..] [--seed N] [--scale P]\n\
         vp transcript <file>\n\
         vp stages <id>"
    );
    std::process::exit(2)
}
/// `transcript`: what the library answers for a case, as text.
pub fn main(props: Vec<Prop>, transcript: fn(&Case) -> String) {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        usage();
    }
    let mut cfg = Cfg {
        seed: 1,
        thorough: false,
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
        scale: 100,
        replay_out: "replay.txt".into(),
        evidence_out: "/dev/null".into(),
        build: "manual".into(),
        only: None,
        digests: None,
    };
    let mut case_cpu = 60.0;
    let mut steps = u64::MAX;
    let mut pos = vec![];
    let mut i = 2;
    while i < a.len() {
        let val = || a.get(i + 1).cloned().unwrap_or_else(|| usage());
        match a[i].as_str() {
            "--tier" => {
                cfg.thorough = val() == "thorough";
                crate::engine::THOROUGH.store(cfg.thorough, std::sync::atomic::Ordering::Relaxed);
            }
            "--seed" => cfg.seed = val().parse().unwrap(),
            "--threads" => cfg.threads = val().parse().unwrap(),
            "--scale" => cfg.scale = val().parse().unwrap(),
            "--replay-out" => cfg.replay_out = val(),
            "--evidence-out" => cfg.evidence_out = val(),
            "--build" => cfg.build = val(),
            "--only" => cfg.only = Some(val()),
            "--digests" => cfg.digests = Some(val()),
            "--fuel" => steps = val().parse().unwrap(),
            "--case-cpu" => case_cpu = val().parse().unwrap(),
            x if !x.starts_with("--") => {
                pos.push(x.to_string());
                i += 1;
                continue;
            }
            _ => usage(),
        }
        i += 2;
    }
    engine::quiet_panics();
    let find = move |id: &str| props.into_iter().find(|p| p.id == id).unwrap_or_else(|| usage());
    match a[1].as_str() {
        "check" => {
            let p = find(&pos[0]);
            engine::install_abort_handler(p.id, &cfg.replay_out, &cfg.build);
            engine::start_watchdog(case_cpu);
            engine::register_worker();
            let o = engine::run(&p, &cfg);
            std::process::exit(o.failed as i32);
        }
        "replay" => {
            let t = std::fs::read_to_string(&pos[0]).expect("replay file");
            let id = t.lines().find_map(|l| l.strip_prefix("property ")).expect("property line").to_string();
            let p = find(&id);
            let c = Case::parse(&t);
            engine::install_abort_handler(&id, "", "replay");
            engine::start_watchdog(case_cpu);
            engine::register_worker();
            if cfg!(vp_tsan) {
                // a race needs company
                std::thread::scope(|sc| {
                    for _ in 0..cfg.threads {
                        sc.spawn(|| (0..20).for_each(|_| drop(engine::run_one(p.check, &c, &mut Obs::default()))));
                    }
                });
            }
            match crate::fuel::spend(steps, || engine::run_one(p.check, &c, &mut Obs::default())).0 {
                Ok(()) => println!("holds"),
                Err(m) => {
                    println!("FAILED {m}");
                    std::process::exit(1)
                }
            }
        }
        "block" => {
            let p = find(&pos[0]);
            for (c, d) in engine::block_cases(&p, &cfg, pos[1].parse().unwrap(), pos[2].parse().unwrap()) {
                println!("{d:016x} {}", c.text().trim_end().replace('\n', "/"));
            }
        }
        // random texts of assigned characters and what the reference makes of them, for comparison with other implementations
        "reference" => {
            use crate::{gen, refimpl};
            use std::io::Write as _;
            let mut out = std::io::BufWriter::new(std::io::stdout().lock());
            let hex = |v: &[char]| v.iter().map(|c| format!("{:X}", *c as u32)).collect::<Vec<_>>().join(" ");
            for i in 0..pos[0].parse::<u64>().unwrap() {
                let mut c = Case::default();
                let mut t = engine::Tape::seeded(cfg.seed, 77, i);
                match i % 4 {
                    0 | 1 => gen::text(&mut t, &mut c.s),
                    2 => gen::near_normalized(&mut t, &mut c.s),
                    _ => gen::long_runs(&mut t, &mut c.s),
                }
                c.s.retain(|&x| crate::ucd::u().assigned[x as usize]);
                let mut l = hex(&c.s);
                for f in refimpl::FORMS {
                    l += &format!(";{}", hex(&refimpl::norm(f, &c.s)));
                }
                for f in refimpl::FORMS {
                    l += &format!(";{:?}", refimpl::quick(f, false, &c.s).0);
                }
                writeln!(out, "{l}").unwrap();
                let d = crate::ucd::u();
                let v = refimpl::nfd(&c.s);
                assert_eq!(refimpl::compose_data(d, &v), refimpl::compose_literal(d, &v));
            }
        }
        "transcript" => {
            let t = std::fs::read_to_string(&pos[0]).expect("replay file");
            println!("{}", transcript(&Case::parse(&t)));
        }
        "stages" => {
            for s in find(&pos[0]).stages {
                println!("{}", s.name);
            }
        }
        _ => usage(),
    }
}
