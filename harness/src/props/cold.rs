//! C23, first calls: each case runs in a process of its own in which the library was never called before, so that
//! whatever is set up on first use is set up under the case's own order of calls and threads. The processes are forked
//! from one that has worked out the reference's answers and has called nothing of the library.
use super::purity::{lib_answer, parts, ref_answer};
use crate::engine::{self, Case, Tape};
use crate::gen;
use std::io::{Read as _, Write as _};
use std::os::fd::FromRawFd as _;
use std::sync::atomic::{AtomicUsize, Ordering::*};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn alarm(s: u32) -> u32;
}

const OPS: usize = 20;

/// Call k of the case is made by thread k % threads; ops[0] + 1 threads.
fn calls(c: &Case) -> (usize, Vec<(usize, usize, Vec<char>)>) {
    let texts = parts(&c.s);
    let threads = c.ops.first().copied().unwrap_or(0) as usize % 8 + 1;
    let v = c.ops.get(1..).unwrap_or(&[]).chunks(3).map(|o| {
        let g = |i: usize| o.get(i).copied().unwrap_or(0) as usize;
        (g(0) % OPS, g(2), texts[g(1) % texts.len()].to_vec())
    });
    (threads, v.collect())
}

/// None: held. Some: what happened. Err: no answer (the child did not end).
fn once(c: &Case) -> Result<Option<String>, String> {
    let (threads, calls) = calls(c);
    let want: Vec<Vec<u32>> = calls.iter().map(|(op, n, s)| ref_answer(*op, *n, s)).collect();
    let mut fds = [0i32; 2];
    unsafe {
        if pipe(fds.as_mut_ptr()) != 0 {
            return Err("pipe failed".into());
        }
        let pid = fork();
        if pid < 0 {
            return Err("fork failed".into());
        }
        if pid == 0 {
            close(fds[0]);
            alarm(60);
            let ready = AtomicUsize::new(0);
            let msgs: Vec<String> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads)
                    .map(|t| {
                        let (calls, want, ready) = (&calls, &want, &ready);
                        sc.spawn(move || {
                            ready.fetch_add(1, SeqCst);
                            while ready.load(SeqCst) < threads {
                                std::hint::spin_loop();
                            }
                            for k in (t..calls.len()).step_by(threads) {
                                let (op, n, s) = &calls[k];
                                let got = lib_answer(*op, *n, s);
                                if got != want[k] {
                                    return Some(format!("call {k} (op {op} {n}, thread {t} of {threads}) answered {got:x?}, expected {:x?}", want[k]));
                                }
                            }
                            None
                        })
                    })
                    .collect();
                hs.into_iter().filter_map(|h| h.join().unwrap_or_else(|_| Some("a panic".into()))).collect()
            });
            if let Some(m) = msgs.first() {
                let m = &m.as_bytes()[..m.len().min(3000)];
                let _ = std::fs::File::from_raw_fd(fds[1]).write_all(m);
                _exit(1);
            }
            _exit(0);
        }
        close(fds[1]);
        let mut msg = vec![];
        let _ = std::fs::File::from_raw_fd(fds[0]).read_to_end(&mut msg);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        match (st & 0x7f, st >> 8 & 0xff) {
            (0, 0) => Ok(None),
            (0, 1) => Ok(Some(String::from_utf8_lossy(&msg).into_owned())),
            (14, _) => Err("a process of first calls did not end in 60 s".into()),
            (0, e) => Ok(Some(format!("the process ended with {e}"))),
            (sig, _) => Ok(Some(format!("the process was ended by signal {sig}"))),
        }
    }
}
fn again(c: &Case, times: usize) -> Result<Option<String>, String> {
    for _ in 0..times {
        if let Some(m) = once(c)? {
            return Ok(Some(m));
        }
    }
    Ok(None)
}

fn generate(t: &mut Tape, i: u64, c: &mut Case) {
    let p = gen::pools();
    let pairs = (OPS * OPS) as u64;
    let text = |t: &mut Tape, s: &mut Vec<char>| {
        let at = s.len();
        match t.below(4) {
            0 => {
                for _ in 0..t.range(1, 4) {
                    s.push(t.pick(&p.interesting));
                }
            }
            1 => gen::near_normalized(t, s),
            2 => {
                // spread over the code points
                for _ in 0..t.range(1, 12) {
                    s.push(p.interesting[t.below(p.interesting.len())]);
                    s.push(t.pick(&p.marks));
                }
            }
            _ => gen::text(t, s),
        }
        for x in &mut s[at..] {
            if *x == '\0' {
                *x = '\u{e9}';
            }
        }
        s.truncate(at + 40);
    };
    let n_texts = t.range(1, 8);
    for k in 0..n_texts {
        if k > 0 {
            c.s.push('\0');
        }
        text(t, &mut c.s);
    }
    if i < 2 * pairs {
        // every function first, every function second, alone
        c.ops.push(0);
        let k = (i % pairs) as usize;
        for (op, x) in [(k / OPS, t.below(200)), (k % OPS, t.below(200)), (k / OPS, t.below(200))] {
            c.ops.extend([op as u32, t.below(n_texts) as u32, x as u32]);
        }
        return;
    }
    let threads = [8, 8, 8, 4, 2, 3][t.below(6)];
    c.ops.push(threads - 1);
    let rounds = t.range(1, 4) as u32;
    let style = t.below(4);
    let op = t.below(OPS) as u32;
    for k in 0..rounds * threads {
        c.ops.extend(match style {
            // the same function on different arguments, the same call, two functions, anything
            0 => [op, k % n_texts as u32, t.below(200) as u32],
            1 => [op, 0, 5 + k / threads],
            2 => [if t.chance(1, 2) { op } else { (op + 7) % OPS as u32 }, t.below(n_texts) as u32, t.below(200) as u32],
            _ => [t.below(OPS) as u32, t.below(n_texts) as u32, t.below(200) as u32],
        });
    }
}

fn shrink(mut c: Case, mut msg: String, times: usize) -> (Case, String) {
    let mut tries = 0;
    let end = std::time::Instant::now() + std::time::Duration::from_secs(60);
    let mut bad = |c: &Case| {
        tries += 1;
        if tries > 400 || std::time::Instant::now() > end {
            return None;
        }
        again(c, times).ok().flatten()
    };
    if c.ops[0] > 0 {
        let mut d = c.clone();
        d.ops[0] = 0;
        if let Some(m) = bad(&d) {
            (c, msg) = (d, m);
        }
    }
    let mut changed = true;
    while changed {
        changed = false;
        // whole calls, then characters
        let mut size = (c.ops.len() / 3).max(1);
        while size > 0 {
            let mut i = 0;
            while 1 + 3 * i < c.ops.len() {
                let mut d = c.clone();
                d.ops.drain(1 + 3 * i..(1 + 3 * (i + size)).min(c.ops.len()));
                match bad(&d) {
                    Some(m) => {
                        (c, msg) = (d, m);
                        changed = true;
                    }
                    None => i += size,
                }
            }
            size /= 2;
        }
        let mut size = c.s.len();
        while size > 0 {
            let mut i = 0;
            while i < c.s.len() {
                let mut d = c.clone();
                d.s.drain(i..(i + size).min(c.s.len()));
                match bad(&d) {
                    Some(m) => {
                        (c, msg) = (d, m);
                        changed = true;
                    }
                    None => i += size,
                }
            }
            size /= 2;
        }
    }
    (c, msg)
}

fn replay_text(msg: &str, c: &Case) -> String {
    format!("property C23\nbuild first calls\nstage cold\nfound {}\n{}", msg.replace('\n', " "), c.text())
}

/// `vp cold --seed N --cases N --replay-out F --evidence-out F` or `vp cold <file>`
pub fn main(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1));
    engine::quiet_panics();
    crate::ucd::u();
    gen::pools();
    if let Some(f) = a.first().filter(|x| !x.starts_with("--")) {
        let c = Case::parse(&std::fs::read_to_string(f).expect("replay file"));
        return match again(&c, 3000) {
            Ok(None) => {
                println!("holds in 3000 processes");
                0
            }
            Ok(Some(m)) => {
                println!("FAILED {m}");
                1
            }
            Err(m) => {
                eprintln!("{m}");
                2
            }
        };
    }
    let num = |k: &str| get(k).map_or(0, |x| x.parse::<u64>().unwrap());
    let (seed, cases) = (num("--seed"), num("--cases"));
    let t0 = std::time::Instant::now();
    let mut samples = vec![];
    let mut distinct = std::collections::HashSet::new();
    let (mut n, mut many, mut threads_used) = (0, 0, 0);
    let mut failed = None;
    for i in 0..cases {
        let mut c = Case::default();
        generate(&mut Tape::seeded(seed, 900, i), i, &mut c);
        match once(&c) {
            Err(m) => {
                eprintln!("{m}");
                return 2;
            }
            Ok(None) => {}
            Ok(Some(m)) => {
                let times = match again(&c, 300) {
                    Ok(Some(_)) => 300,
                    _ => 0,
                };
                failed = Some(if times > 0 { shrink(c.clone(), m, times) } else { (c.clone(), m + " (not seen again in 300 processes)") });
            }
        }
        n += 1;
        let th = c.ops[0] + 1;
        many += (th > 1) as u64;
        threads_used += th as u64;
        if c.ops.len() > 4 && c.s.iter().any(|&x| x > '\x7f') {
            distinct.insert(c.hash());
        }
        if i % (cases / 6).max(1) == 1 {
            samples.push(engine::json(&c.text().trim_end().replace('\n', " / ")));
        }
        if failed.is_some() {
            break;
        }
    }
    if let Some(f) = get("--evidence-out") {
        let d = distinct.len();
        let ev = format!(
            "{{\"build\":\"rel\",\"evaluations\":{n},\"distinct_nontrivial\":{d},\"nontrivial\":{d},\"inner_checks\":0,\"rule\":\"\",\"labels\":{{}},\"samples\":[{}],\"stages\":[{{\"stage\":\"first calls in a new process\",\"kind\":\"random\",\"cases\":{n},\"nontrivial\":{d},\"wall_s\":{:.2}}}],\"more\":{{\"processes_of_first_calls\":{n},\"of_them_with_several_threads\":{many},\"threads_started_in_them\":{threads_used}}}}}",
            samples.join(","),
            t0.elapsed().as_secs_f64()
        );
        std::fs::write(f, ev).unwrap();
    }
    eprintln!("[C23 first calls] {n} processes, {:.1}s", t0.elapsed().as_secs_f64());
    if let Some((c, m)) = failed {
        let t = replay_text(&m, &c);
        if let Some(f) = get("--replay-out") {
            std::fs::write(f, &t).unwrap();
        }
        print!("FAILED {t}");
        return 1;
    }
    0
}

/// `vp weave --seed N --out F`: a file of texts with the digests of the answers, for harness/weave.
pub fn weave(a: &[String]) -> i32 {
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).expect("an option");
    let mut t = Tape::seeded(get("--seed").parse().unwrap(), 901, 0);
    let t = &mut t;
    let n = t.range(2, 4);
    // threads, rounds, whether each thread has an order of its own, texts
    let mut w = vec![[3, 2, 3, 4][t.below(4)] as u32, [1, 1, 2][t.below(3)], t.below(2) as u32, n as u32];
    let mut texts: Vec<Vec<char>> = vec![];
    while texts.len() < n {
        let mut s = vec![];
        match t.below(4) {
            // of the same few characters as the one before, so that they share whatever is kept for a character
            0 if !texts.is_empty() => {
                s = texts[texts.len() - 1].clone();
                s.reverse();
            }
            1 => gen::near_normalized(t, &mut s),
            _ => gen::text(t, &mut s),
        }
        s.truncate(t.range(1, 5));
        if s.iter().any(|&c| c > '\x7f') {
            texts.push(s);
        }
    }
    for s in texts {
        let d = super::light::answers(&s);
        w.push(s.len() as u32);
        w.extend(s.iter().map(|&c| c as u32));
        w.extend([d as u32, (d >> 32) as u32]);
    }
    std::fs::write(get("--out"), w.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>()).unwrap();
    0
}
