//! Case generation driver: exhaustive and random stages over all cores, failure capture, shrinking, replay, evidence.
use std::cell::Cell;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, AtomicPtr, AtomicU32, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Case {
    pub s: Vec<char>,
    pub t: Vec<char>,
    pub ops: Vec<u32>,
}
impl Case {
    pub fn clear(&mut self) {
        self.s.clear();
        self.t.clear();
        self.ops.clear();
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        let _ = self.write(&mut o);
        o
    }
    fn write(&self, o: &mut dyn std::fmt::Write) -> std::fmt::Result {
        for (n, v) in [("s", &self.s), ("t", &self.t)] {
            o.write_str(n)?;
            for c in v {
                write!(o, " {:X}", *c as u32)?;
            }
            o.write_str("\n")?;
        }
        o.write_str("ops")?;
        for c in &self.ops {
            write!(o, " {}", c)?;
        }
        o.write_str("\n")
    }
    pub fn parse(t: &str) -> Case {
        let mut c = Case::default();
        for l in t.lines() {
            let mut w = l.split(' ');
            let k = w.next().unwrap_or("");
            let chars = |w: std::str::Split<char>| -> Vec<char> {
                w.filter(|x| !x.is_empty()).map(|x| char::from_u32(u32::from_str_radix(x, 16).unwrap()).unwrap()).collect()
            };
            match k {
                "s" => c.s = chars(w),
                "t" => c.t = chars(w),
                "ops" => c.ops = w.filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                _ => {}
            }
        }
        c
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u64| {
            h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
            h ^= h >> 29;
        };
        for c in &self.s {
            put(*c as u64);
        }
        put(1 << 40);
        for c in &self.t {
            put(*c as u64);
        }
        put(1 << 41);
        for c in &self.ops {
            put(*c as u64);
        }
        h
    }
}

/// Source of choices: a seeded generator, or the bytes of a fuzzer input.
pub struct Tape<'a> {
    st: [u64; 2],
    bytes: Option<&'a [u8]>,
}
fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl<'a> Tape<'a> {
    pub fn seeded(seed: u64, stage: u64, i: u64) -> Tape<'static> {
        let mut x = seed.wrapping_mul(0xA24BAED4963EE407) ^ stage.wrapping_mul(0x9FB21C651E98DF25) ^ i.wrapping_mul(0xD6E8FEB86659FD93);
        Tape { st: [splitmix(&mut x), splitmix(&mut x) | 1], bytes: None }
    }
    pub fn bytes(b: &'a [u8]) -> Tape<'a> {
        Tape { st: [0, 0], bytes: Some(b) }
    }
    fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let [a, mut b] = self.st;
        let r = a.wrapping_add(b);
        b ^= a;
        self.st = [a.rotate_left(24) ^ b ^ (b << 16), b.rotate_left(37)];
        r >> 11
    }
    /// uniform in 0..n (n > 0); 0 once a fuzzer input is used up
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if let Some(b) = self.bytes {
            let k = if n <= 256 { 1 } else if n <= 65536 { 2 } else { 3 };
            let mut x = 0usize;
            for i in 0..k.min(b.len()) {
                x |= (b[i] as usize) << (8 * i);
            }
            self.bytes = Some(&b[k.min(b.len())..]);
            return x % n;
        }
        ((self.u64() as u128 * n as u128) >> 53) as usize
    }
    #[inline]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    #[inline]
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    #[inline]
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len())]
    }
    pub fn ended(&self) -> bool {
        matches!(self.bytes, Some(b) if b.is_empty())
    }
}

/// What a check observed about one case.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: u32,
    /// further elementary checks made inside the case
    pub extra: u64,
    /// digest of what was observed, for comparison between builds
    pub digest: u64,
}
impl Obs {
    #[inline]
    pub fn label(&mut self, i: u32, yes: bool) {
        self.labels |= (yes as u32) << i;
    }
}
pub type Check = fn(&Case, &mut Obs) -> Result<(), String>;
pub enum Gen {
    /// all indices 0..count
    Exhaustive(fn() -> u64, fn(u64, &mut Case)),
    /// (quick, thorough) case counts
    Random(u64, u64, fn(&mut Tape, &mut Case)),
}
/// Whether this is the thorough tier, for enumerations that are larger there.
pub static THOROUGH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub struct Stage {
    pub name: &'static str,
    pub gen: Gen,
}
pub struct Prop {
    pub id: &'static str,
    pub check: Check,
    pub rule: &'static str,
    pub labels: &'static [&'static str],
    pub stages: Vec<Stage>,
    /// generator for the coverage-guided stage
    pub fuzz: Option<fn(&mut Tape, &mut Case)>,
}

thread_local! {
    pub static CURRENT: Cell<*const Case> = const { Cell::new(std::ptr::null()) };
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic: {m} at {loc}");
            }
        });
    }));
}

/// One check of one case; a panic that escapes it is a failure.
pub fn run_one(check: Check, c: &Case, o: &mut Obs) -> Result<(), String> {
    CURRENT.with(|p| p.set(c));
    SLOT.with(|s| {
        if let Some(s) = s.get() {
            s.cases.fetch_add(1, Relaxed);
            s.case.store(c as *const Case as *mut Case, Release);
        }
    });
    let r = catch_unwind(AssertUnwindSafe(|| check(c, o)));
    CURRENT.with(|p| p.set(std::ptr::null()));
    SLOT.with(|s| {
        if let Some(s) = s.get() {
            s.case.store(std::ptr::null_mut(), Release);
        }
    });
    match r {
        Ok(r) => r,
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow().clone())),
    }
}

pub struct Cfg {
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    /// scale of the random stages, percent
    pub scale: u64,
    pub replay_out: String,
    pub evidence_out: String,
    pub build: String,
    pub only: Option<String>,
    /// where to write the digest of each block of cases
    pub digests: Option<String>,
}
/// Cases per block of the digest file.
pub const BLOCK: u64 = 512;

static ABORT: std::sync::OnceLock<(String, std::ffi::CString, String)> = std::sync::OnceLock::new(); // id, replay path, build

/// An abort or fault inside the code under test (for instance a non-unwinding panic of an unsafe precondition check)
/// still yields the case that caused it.
pub fn install_abort_handler(id: &str, replay_out: &str, build: &str) {
    #[repr(C)]
    struct SigAction {
        handler: usize,
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    extern "C" {
        fn sigaction(sig: i32, new: *const SigAction, old: *mut SigAction) -> i32;
    }
    let _ = ABORT.set((id.into(), std::ffi::CString::new(replay_out).unwrap(), build.into()));
    // SA_ONSTACK: std gives its threads an alternate stack, so a stack overflow is reported too
    let a = SigAction { handler: on_abort as *const () as usize, mask: [0; 16], flags: 0x0800_0000, restorer: 0 };
    unsafe {
        for s in [6, 11, 4, 7, 8] {
            sigaction(s, &a, std::ptr::null_mut());
        }
    }
}
extern "C" fn on_abort(sig: i32) {
    finish_abruptly(match sig {
        6 => "abort in the library",
        11 => "memory fault or stack overflow in the library",
        _ => "fatal signal in the library",
    });
}
/// A system call without the C library, whose functions sanitizers replace by ones that take locks.
unsafe fn raw(n: usize, a: usize, b: usize, c: usize) -> isize {
    let r;
    std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c, out("rcx") _, out("r11") _, options(nostack));
    r
}
fn end_process(code: usize) -> ! {
    loop {
        // exit_group
        unsafe { raw(231, code, 0, 0) };
    }
}
/// ThreadSanitizer found a data race: it calls this before its own report.
#[cfg(vp_tsan)]
#[no_mangle]
extern "C" fn __tsan_on_report(_: *const std::ffi::c_void) {
    finish_abruptly("a data race (ThreadSanitizer)")
}
/// Report the case the current thread is running and end the process.
pub fn finish_abruptly(what: &str) -> ! {
    let p = CURRENT.with(|p| p.get());
    if p.is_null() {
        let mut e = Fd(2, [0; 256], 0);
        let _ = writeln!(e, "error: {what} outside any case");
        e.flush();
        end_process(2)
    }
    let c = unsafe { &*p };
    report_abrupt(what, c)
}
/// Writes to a file descriptor. The heap may be damaged, or locked by the thread that is being reported; the stack may be
/// the small one for signals.
struct Fd(i32, [u8; 256], usize);
impl Fd {
    fn flush(&mut self) {
        let mut at = 0;
        while at < self.2 {
            let n = unsafe { raw(1, self.0 as usize, self.1[at..].as_ptr() as usize, self.2 - at) };
            if n <= 0 {
                break;
            }
            at += n as usize;
        }
        self.2 = 0;
    }
}
impl std::fmt::Write for Fd {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            if self.2 == self.1.len() {
                self.flush();
            }
            self.1[self.2] = b;
            self.2 += 1;
        }
        Ok(())
    }
}
fn report_abrupt(what: &str, c: &Case) -> ! {
    static ONCE: AtomicU32 = AtomicU32::new(0);
    if ONCE.fetch_add(1, SeqCst) > 0 {
        // another thread is already reporting
        loop {
            // pause
            unsafe { raw(34, 0, 0, 0) };
        }
    }
    if let Some((id, path, build)) = ABORT.get() {
        let mut out = Fd(1, [0; 256], 0);
        if !path.is_empty() {
            // creat
            let mut f = Fd(unsafe { raw(85, path.as_ptr() as usize, 0o644, 0) } as i32, [0; 256], 0);
            let _ = write!(f, "property {id}\nbuild {build}\nstage abrupt\nfound {what}\n");
            let _ = c.write(&mut f);
            f.flush();
            let _ = writeln!(out, "FAILED abrupt {}", path.to_str().unwrap_or(""));
        } else {
            let _ = writeln!(out, "FAILED {what}");
        }
        out.flush();
    }
    end_process(1)
}

// ---- watchdog: a case that never ends ----
struct Slot {
    cases: AtomicU64,
    case: AtomicPtr<Case>,
    clock: AtomicI32,
}
static SLOTS: Mutex<Vec<std::sync::Arc<Slot>>> = Mutex::new(vec![]);
thread_local! {
    static SLOT: std::cell::OnceCell<std::sync::Arc<Slot>> = const { std::cell::OnceCell::new() };
}
pub fn register_worker() {
    extern "C" {
        fn pthread_self() -> usize;
        fn pthread_getcpuclockid(t: usize, c: *mut i32) -> i32;
    }
    let mut clock = 0;
    unsafe {
        pthread_getcpuclockid(pthread_self(), &mut clock);
    }
    let s = std::sync::Arc::new(Slot { cases: AtomicU64::new(0), case: AtomicPtr::new(std::ptr::null_mut()), clock: AtomicI32::new(clock) });
    SLOTS.lock().unwrap().push(s.clone());
    SLOT.with(|x| {
        let _ = x.set(s);
    });
    crate::alloc::limit_this_thread();
}
pub fn unregister_worker() {
    SLOT.with(|x| {
        if let Some(s) = x.get() {
            SLOTS.lock().unwrap().retain(|y| !std::sync::Arc::ptr_eq(s, y));
        }
    });
}
fn cpu_seconds(clock: i32) -> f64 {
    extern "C" {
        fn clock_gettime(c: i32, t: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    unsafe {
        if clock_gettime(clock, &mut t) != 0 {
            return 0.0;
        }
    }
    t[0] as f64 + t[1] as f64 * 1e-9
}
/// A case that uses more processor time than `cpu` seconds (or, blocked, more than 240 s) is reported as not ending.
pub fn start_watchdog(cpu: f64) {
    std::thread::spawn(move || {
        let mut seen: Vec<(*const Slot, u64, f64, std::time::Instant)> = vec![];
        loop {
            std::thread::sleep(std::time::Duration::from_millis(300));
            let slots = SLOTS.lock().unwrap();
            seen.retain(|x| slots.iter().any(|s| std::sync::Arc::as_ptr(s) == x.0));
            for s in slots.iter() {
                let p = std::sync::Arc::as_ptr(s);
                let n = s.cases.load(SeqCst);
                let t = cpu_seconds(s.clock.load(SeqCst));
                let now = std::time::Instant::now();
                match seen.iter_mut().find(|x| x.0 == p) {
                    None => seen.push((p, n, t, now)),
                    Some(x) if x.1 != n => *x = (p, n, t, now),
                    Some(x) => {
                        let c = s.case.load(SeqCst);
                        if c.is_null() {
                            *x = (p, n, t, now);
                        } else if t - x.2 > cpu || now.duration_since(x.3).as_secs() > 240 {
                            let c = unsafe { &*c };
                            report_abrupt("the case does not end", c);
                        }
                    }
                }
            }
        }
    });
}

pub fn replay_text(id: &str, build: &str, stage: &str, msg: &str, c: &Case) -> String {
    let msg: String = msg.replace('\n', " | ").chars().take(2000).collect();
    format!("property {id}\nbuild {build}\nstage {stage}\nfound {msg}\n{}", c.text())
}

static BITS: std::sync::OnceLock<Vec<AtomicU64>> = std::sync::OnceLock::new();
/// Counts distinct hashes by the bits newly set in a 2^29-bit table: never more than the true number.
fn newly_seen(h: u64) -> bool {
    let b = BITS.get_or_init(|| (0..1 << 23).map(|_| AtomicU64::new(0)).collect());
    let i = (h >> 35) as usize;
    b[i >> 6].fetch_or(1 << (i & 63), Relaxed) & (1 << (i & 63)) == 0
}

pub struct Outcome {
    pub failed: bool,
}

pub fn run(p: &Prop, cfg: &Cfg) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut total = 0u64;
    let mut distinct = 0u64;
    let mut nontriv_total = 0u64;
    let mut extra_total = 0u64;
    let mut label_counts = [0u64; 32];
    let mut stage_rows = vec![];
    let mut samples: Vec<String> = vec![];
    let mut failure: Option<(String, Case, String)> = None;
    let mut digest_text = String::new();
    for (si, st) in p.stages.iter().enumerate() {
        if let Some(o) = &cfg.only {
            if !o.split('|').any(|x| st.name.starts_with(x)) {
                continue;
            }
        }
        let ts = std::time::Instant::now();
        let count = match st.gen {
            Gen::Exhaustive(n, _) => n(),
            Gen::Random(q, t, _) => (if cfg.thorough { t } else { q }) * cfg.scale / 100,
        };
        let make = |i: u64, c: &mut Case| {
            c.clear();
            match st.gen {
                Gen::Exhaustive(_, g) => g(i, c),
                Gen::Random(_, _, g) => g(&mut Tape::seeded(cfg.seed, si as u64, i), c),
            }
        };
        let next = AtomicU64::new(0);
        let best = Mutex::new(None::<(u64, Case, String)>);
        let stop = AtomicU64::new(u64::MAX);
        let sums = Mutex::new((0u64, 0u64, 0u64, [0u64; 32], 0u64));
        let blocks: Vec<AtomicU64> = if cfg.digests.is_some() { (0..count.div_ceil(BLOCK)).map(|_| AtomicU64::new(0)).collect() } else { vec![] };
        let chunk = (count / (cfg.threads as u64 * 64)).clamp(1, 2048);
        std::thread::scope(|sc| {
            for _ in 0..cfg.threads {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, || {
                        let (mut n, mut nt, mut ds, mut lc, mut ex) = (0u64, 0u64, 0u64, [0u64; 32], 0u64);
                        let mut c = Case::default();
                        register_worker();
                        'outer: loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= count || a > stop.load(Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(count) {
                                make(i, &mut c);
                                let mut o = Obs::default();
                                let r = run_one(p.check, &c, &mut o);
                                n += 1;
                                ex += o.extra;
                                if !blocks.is_empty() {
                                    blocks[(i / BLOCK) as usize].fetch_add(o.digest.wrapping_mul(i * 2 + 1), Relaxed);
                                }
                                if o.nontrivial {
                                    nt += 1;
                                    if newly_seen(c.hash()) {
                                        ds += 1;
                                    }
                                }
                                let mut l = o.labels;
                                while l != 0 {
                                    lc[l.trailing_zeros() as usize] += 1;
                                    l &= l - 1;
                                }
                                if let Err(m) = r {
                                    let mut b = best.lock().unwrap();
                                    if b.as_ref().map_or(true, |x| i < x.0) {
                                        stop.fetch_min(i, Relaxed);
                                        *b = Some((i, c.clone(), m));
                                    }
                                    break 'outer;
                                }
                            }
                        }
                        unregister_worker();
                        let mut s = sums.lock().unwrap();
                        s.0 += n;
                        s.1 += nt;
                        s.2 += ds;
                        s.4 += ex;
                        for k in 0..32 {
                            s.3[k] += lc[k];
                        }
                    })
                    .unwrap();
            }
        });
        let s = sums.into_inner().unwrap();
        for (b, d) in blocks.iter().enumerate() {
            writeln!(digest_text, "{si} {b} {:016x}", d.load(Relaxed)).unwrap();
        }
        total += s.0;
        nontriv_total += s.1;
        extra_total += s.4;
        distinct += s.2;
        for k in 0..32 {
            label_counts[k] += s.3[k];
        }
        stage_rows.push(format!(
            "{{\"stage\":\"{}\",\"kind\":\"{}\",\"cases\":{},\"nontrivial\":{},\"wall_s\":{:.2}}}",
            st.name,
            if matches!(st.gen, Gen::Exhaustive(..)) { "exhaustive" } else { "random" },
            s.0,
            s.1,
            ts.elapsed().as_secs_f64()
        ));
        eprintln!("[{} {}] {}: {} cases, {} non-trivial, {:.1}s", p.id, cfg.build, st.name, s.0, s.1, ts.elapsed().as_secs_f64());
        // a few actual cases of the stage
        let mut got = 0;
        for k in 0..400u64 {
            if got >= 2 || count == 0 {
                break;
            }
            let mut c = Case::default();
            make(k.wrapping_mul(0x9E3779B97F4A7C15) % count, &mut c);
            let mut o = Obs::default();
            if best.lock().unwrap().is_none() && c.s.len() < 60 && c.t.len() < 60 && c.ops.len() < 60 && run_one(p.check, &c, &mut o).is_ok() && o.nontrivial {
                samples.push(format!("{}: {}", st.name, c.text().trim_end().replace('\n', " / ")));
                got += 1;
            }
        }
        if let Some((i, c, m)) = best.into_inner().unwrap() {
            failure = Some((format!("{} case {i} seed {}", st.name, cfg.seed), c, m));
            break;
        }
    }
    if let Some(f) = &cfg.digests {
        std::fs::write(f, digest_text).unwrap();
    }
    let mut o = Outcome { failed: false };
    if let Some((stage, c, m)) = failure {
        eprintln!("[{} {}] failure in {stage}: {m}\n{}", p.id, cfg.build, short(&c.text()));
        // keep the unshrunk case in case shrinking itself dies
        let _ = std::fs::write(&cfg.replay_out, replay_text(p.id, &cfg.build, &stage, &m, &c));
        let (c, m) = shrink(p.check, c, m);
        std::fs::write(&cfg.replay_out, replay_text(p.id, &cfg.build, &stage, &m, &c)).unwrap();
        eprintln!("shrunk: {m}\n{}", short(&c.text()));
        println!("FAILED case {}", cfg.replay_out);
        o.failed = true;
    }
    let labels: Vec<String> = p.labels.iter().enumerate().map(|(k, n)| format!("\"{}\":{}", n, label_counts[k])).collect();
    let ev = format!(
        "{{\"build\":\"{}\",\"evaluations\":{},\"nontrivial\":{},\"distinct_nontrivial\":{},\"inner_checks\":{},\"rule\":{},\"labels\":{{{}}},\"stages\":[{}],\"samples\":[{}],\"wall_s\":{:.2}}}\n",
        cfg.build,
        total,
        nontriv_total,
        distinct,
        extra_total,
        json(p.rule),
        labels.join(","),
        stage_rows.join(","),
        samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64()
    );
    std::fs::write(&cfg.evidence_out, ev).unwrap();
    o
}

/// The digest of every case of one block.
pub fn block_cases(p: &Prop, cfg: &Cfg, stage: usize, block: u64) -> Vec<(Case, u64)> {
    let st = &p.stages[stage];
    let count = match st.gen {
        Gen::Exhaustive(n, _) => n(),
        Gen::Random(q, t, _) => (if cfg.thorough { t } else { q }) * cfg.scale / 100,
    };
    let mut v = vec![];
    for i in block * BLOCK..((block + 1) * BLOCK).min(count) {
        let mut c = Case::default();
        match st.gen {
            Gen::Exhaustive(_, g) => g(i, &mut c),
            Gen::Random(_, _, g) => g(&mut Tape::seeded(cfg.seed, stage as u64, i), &mut c),
        }
        let mut o = Obs::default();
        let _ = run_one(p.check, &c, &mut o);
        v.push((c, o.digest));
    }
    v
}

fn short(s: &str) -> String {
    s.chars().take(600).collect()
}
pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

thread_local! {
    static SUGGESTED: std::cell::RefCell<Option<Case>> = const { std::cell::RefCell::new(None) };
}
/// A check that loops over many values in one case names the smaller case that fails by itself.
pub fn suggest(c: Case) {
    SUGGESTED.with(|s| *s.borrow_mut() = Some(c));
}
static EVALS: AtomicU32 = AtomicU32::new(0);

/// Delta debugging over the three parts of a case, then simplification of each element.
pub fn shrink(check: Check, mut c: Case, mut m: String) -> (Case, String) {
    EVALS.store(0, Relaxed);
    let t0 = std::time::Instant::now();
    let fails = |x: &Case| -> Option<String> {
        if EVALS.fetch_add(1, Relaxed) > 60_000 || t0.elapsed().as_secs() > 60 {
            return None;
        }
        run_one(check, x, &mut Obs::default()).err()
    };
    SUGGESTED.with(|s| *s.borrow_mut() = None);
    if fails(&c).is_some() {
        if let Some(x) = SUGGESTED.with(|s| s.borrow_mut().take()) {
            if let Some(k) = fails(&x) {
                c = x;
                m = k;
            }
        }
    }
    macro_rules! part {
        ($f:ident, $simple:expr) => {{
            let mut changed = false;
            let mut len = c.$f.len();
            let mut size = len;
            while size > 0 {
                let mut i = 0;
                while i < c.$f.len() {
                    let mut x = c.clone();
                    let e = (i + size).min(x.$f.len());
                    x.$f.drain(i..e);
                    if let Some(k) = fails(&x) {
                        c = x;
                        m = k;
                        changed = true;
                    } else {
                        i += size;
                    }
                }
                if c.$f.len() < len {
                    len = c.$f.len();
                    size = size.min(len);
                    if size > 1 {
                        size = (size + 1) / 2;
                        continue;
                    }
                    if size == 1 {
                        continue;
                    }
                }
                size /= 2;
            }
            for i in 0..c.$f.len() {
                for v in $simple(c.$f[i]) {
                    if v == c.$f[i] {
                        break;
                    }
                    let mut x = c.clone();
                    x.$f[i] = v;
                    if let Some(k) = fails(&x) {
                        c = x;
                        m = k;
                        changed = true;
                        break;
                    }
                }
            }
            changed
        }};
    }
    let simple_char = |c: char| -> Vec<char> { ['a', 'A', ' ', '\u{300}', '\u{301}', '\u{323}', '\u{327}', '\u{338}', '\u{345}', '\u{e0}', '\u{1100}', '\u{1161}', '\u{11a8}', '\u{ac00}', c].to_vec() };
    let simple_op = |x: u32| -> Vec<u32> { vec![0, 1, x / 2, x.saturating_sub(1), x] };
    for _ in 0..6 {
        let a = part!(ops, simple_op);
        let b = part!(t, simple_char);
        let d = part!(s, simple_char);
        if !(a || b || d) {
            break;
        }
    }
    (c, m)
}

/// A human-readable list of scalars for messages.
pub fn show(v: &[char]) -> String {
    let mut o = String::from("[");
    for (i, c) in v.iter().enumerate() {
        if i >= 80 {
            write!(o, " …+{}", v.len() - i).unwrap();
            break;
        }
        if i > 0 {
            o.push(' ');
        }
        write!(o, "{:04X}", *c as u32).unwrap();
    }
    o.push(']');
    o
}
