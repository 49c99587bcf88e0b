//! C22: a transcript of every public function's answers, to be compared between builds of the library.
use super::tell::{tell, Sink};
use crate::engine::{Case, Gen, Obs, Prop, Stage, Tape};
use crate::gen;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Mutex, OnceLock};

/// Everything the library says about one case.
pub fn transcript(c: &Case, o: &mut Sink) {
    tell(&c.s, &c.ops, o)
}
/// Another build of the library, as a process that answers cases (VP_AGAINST is its command).
struct Other {
    child: std::process::Child,
}
static IDLE: Mutex<Vec<Other>> = Mutex::new(vec![]);
fn against() -> Option<&'static [String]> {
    static A: OnceLock<Vec<String>> = OnceLock::new();
    let a = A.get_or_init(|| std::env::var("VP_AGAINST").map_or(vec![], |v| v.split(' ').map(String::from).collect()));
    (!a.is_empty()).then_some(&a[..])
}
impl Other {
    fn start(cmd: &[String]) -> Other {
        Other { child: Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("the other build starts") }
    }
    fn ask(&mut self, c: &Case, text: bool) -> std::io::Result<Vec<u8>> {
        let mut b = vec![];
        let mut put = |x: u32| b.extend(x.to_le_bytes());
        if text {
            put(u32::MAX);
        }
        put(c.ops.len() as u32);
        put(c.s.len() as u32);
        c.ops.iter().for_each(|&x| put(x));
        c.s.iter().for_each(|&x| put(x as u32));
        self.child.stdin.as_mut().unwrap().write_all(&b)?;
        let o = self.child.stdout.as_mut().unwrap();
        let mut r = vec![0; 8];
        o.read_exact(&mut r)?;
        if text {
            r = vec![0; u64::from_le_bytes(r[..].try_into().unwrap()) as usize];
            o.read_exact(&mut r)?;
        }
        Ok(r)
    }
    /// How it ended, for a process that has stopped answering.
    fn end(mut self) -> String {
        let mut e = String::new();
        let _ = self.child.stderr.take().unwrap().read_to_string(&mut e);
        let r = self.child.wait();
        format!("{} {}", r.map_or_else(|e| e.to_string(), |r| r.to_string()), e.trim().chars().take(600).collect::<String>())
    }
}
fn ended(k: Other) -> Result<(), String> {
    let how = k.end();
    // what Miri does not know is nobody's fault
    if how.contains("unsupported operation") {
        return Ok(());
    }
    Err(format!("the other build ended: {how}"))
}
fn compare(c: &Case, digest: u64, cmd: &[String]) -> Result<(), String> {
    let mut k = { IDLE.lock().unwrap().pop() }.unwrap_or_else(|| Other::start(cmd));
    match k.ask(c, false) {
        Ok(r) if r == digest.to_le_bytes() => {
            IDLE.lock().unwrap().push(k);
            Ok(())
        }
        Ok(_) => {
            let mut mine = Sink { h: 0, text: Some(String::new()) };
            transcript(c, &mut mine);
            let mine = mine.text.unwrap();
            match k.ask(c, true).map(|t| String::from_utf8_lossy(&t).into_owned()) {
                Ok(t) => {
                    IDLE.lock().unwrap().push(k);
                    let (a, b) = mine.lines().zip(t.lines()).find(|(a, b)| a != b).unwrap_or_default();
                    Err(format!("this build answers \"{}\" and the other \"{}\"", clip(a), clip(b)))
                }
                Err(_) => ended(k),
            }
        }
        Err(_) => ended(k),
    }
}
/// With VP_AGAINST, whether the other build answers as this one does.
pub fn same_elsewhere(c: &Case) -> Option<Result<(), String>> {
    against().map(|cmd| {
        let mut k = Sink { h: 0, text: None };
        transcript(c, &mut k);
        compare(c, k.h, cmd)
    })
}
/// Texts short enough for an interpreter.
pub fn short(t: &mut Tape, c: &mut Case) {
    if t.below(5) == 0 {
        // just long enough for what depends on runs of more than 30
        gen::long_runs(t, &mut c.s);
        let n = t.range(31, 44);
        c.s.truncate(n);
        c.ops.push(t.below(n + 2) as u32);
        return;
    }
    gen::mixed(t, &mut c.s);
    let n = t.range(1, 13);
    if c.s.len() > n {
        let at = t.below(c.s.len() - n);
        c.s.drain(..at);
        c.s.truncate(n);
    }
    c.ops.push(t.below(n + 2) as u32);
}
pub const SHORT: &str = "short texts";
fn clip(s: &str) -> String {
    s.chars().take(400).collect()
}
pub fn c22() -> Prop {
    fn check(c: &Case, o: &mut Obs) -> Result<(), String> {
        // within one build: a panic or abort is a difference too; the runner compares the transcripts of the builds
        let mut k = Sink { h: 0, text: None };
        transcript(c, &mut k);
        o.nontrivial = c.s.iter().any(|&x| crate::gen::pools().is_interesting[x as usize] || crate::ucd::is_hangul(x));
        o.digest = k.h;
        against().map_or(Ok(()), |cmd| compare(c, k.h, cmd))
    }
    fn random(t: &mut Tape, c: &mut Case) {
        gen::mixed(t, &mut c.s);
        c.s.truncate(500);
        c.ops.push(t.below(12) as u32);
    }
    Prop {
        id: "C22",
        check,
        rule: "every public function's answers (outputs, size hints, formatted text, predicates, character data) on each case, compared between the builds std/no_std x debug/release by digest; non-trivial if the text has a character of interest or Hangul; distinct by the hash of the case",
        labels: &[],
        stages: vec![
            Stage { name: "every scalar value", gen: Gen::Exhaustive(|| gen::pools().all.len() as u64, |i, c| {
                c.s.push(gen::pools().all[i as usize]);
                c.s.push(['a', '\u{301}', '\u{1161}', '\u{345}'][i as usize % 4]);
            }) },
            Stage { name: "characters of interest in contexts", gen: Gen::Exhaustive(|| gen::interesting_contexts_count() / 12, |i, c| {
                gen::interesting_contexts(i * 12 + i / 40 % 12, c);
                c.ops.push((i % 5) as u32);
            }) },
            Stage { name: "pairs of non-starters", gen: Gen::Exhaustive(|| gen::mark_pairs_count() / 9, |i, c| gen::mark_pairs(i * 9 + i / 100 % 9, c)) },
            Stage { name: "hangul", gen: Gen::Exhaustive(|| gen::hangul_count() / 3, |i, c| gen::hangul(i * 3 + i % 3, c)) },
            Stage { name: "mark runs", gen: Gen::Exhaustive(|| gen::runs_short_count() / 3 , |i, c| gen::runs(i * 3 + i % 3, c)) },
            Stage { name: "mark runs to 100000", gen: Gen::Exhaustive(gen::runs_huge_count, gen::runs_huge) },
            Stage { name: "texts to 300000 characters, mark runs to 1100000", gen: Gen::Exhaustive(|| gen::long_texts_count() / 2, |i, c| gen::long_texts(i * 2 + i / 4 % 2, c)) },
            Stage { name: "plain text of every length around something", gen: Gen::Exhaustive(|| gen::padded_count() / 11, |i, c| gen::padded(i * 11 + i / 60 % 11, c)) },
            Stage { name: SHORT, gen: Gen::Random(600, 20_000, short) },
            Stage { name: "random texts", gen: Gen::Random(120_000, 4_000_000, random) },
        ],
        fuzz: None,
    }
}
