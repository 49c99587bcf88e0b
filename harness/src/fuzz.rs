//! Coverage-guided search: libFuzzer's bytes are the choices a property's generator makes, and the property's check is
//! the oracle. VP_FUZZ_PROPERTY names the property, VP_FUZZ_REPLAY the file a failing case is written to.
#![no_main]
use std::cell::RefCell;
use vp::engine::{self, Case, Check, Obs, Tape};

type Target = (Check, fn(&mut Tape, &mut Case), String, String);
thread_local! {
    static TARGET: RefCell<Option<Target>> = const { RefCell::new(None) };
    static NONTRIVIAL: RefCell<(u64, u64)> = const { RefCell::new((0, 0)) };
}
extern "C" fn report() {
    let (n, k) = NONTRIVIAL.with(|x| *x.borrow());
    eprintln!("vpfuzz cases {n} nontrivial {k}");
}
extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
    fn _exit(c: i32) -> !;
}
#[no_mangle]
pub extern "C" fn LLVMFuzzerInitialize(_: *mut i32, _: *mut *mut *mut u8) -> i32 {
    let id = std::env::var("VP_FUZZ_PROPERTY").expect("VP_FUZZ_PROPERTY");
    let out = std::env::var("VP_FUZZ_REPLAY").expect("VP_FUZZ_REPLAY");
    let p = vp::props::all().into_iter().find(|p| p.id == id).expect("property");
    engine::quiet_panics();
    engine::install_abort_handler(p.id, &out, "fuzz");
    engine::start_watchdog(60.0);
    engine::register_worker();
    TARGET.with(|t| *t.borrow_mut() = Some((p.check, p.fuzz.expect("fuzz generator"), id, out)));
    unsafe { atexit(report) };
    0
}
#[no_mangle]
pub extern "C" fn LLVMFuzzerTestOneInput(data: *const u8, n: usize) -> i32 {
    let b = if n == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(data, n) } };
    let (check, gen, id, out) = TARGET.with(|t| t.borrow().clone().unwrap());
    let mut c = Case::default();
    gen(&mut Tape::bytes(b), &mut c);
    let mut o = Obs::default();
    let r = engine::run_one(check, &c, &mut o);
    NONTRIVIAL.with(|x| {
        let mut x = x.borrow_mut();
        x.0 += 1;
        x.1 += o.nontrivial as u64;
    });
    if let Err(m) = r {
        let _ = std::fs::write(&out, engine::replay_text(&id, "fuzz", "coverage-guided", &m, &c));
        let (c, m) = engine::shrink(check, c, m);
        let _ = std::fs::write(&out, engine::replay_text(&id, "fuzz", "coverage-guided", &m, &c));
        println!("FAILED case {out}");
        unsafe { _exit(1) }
    }
    0
}
