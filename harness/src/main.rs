use vp::engine::Case;
use vp::props::{self, tell, transcript};

fn text(c: &Case) -> String {
    let mut k = tell::Sink { h: 0, text: Some(String::new()) };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| transcript::transcript(c, &mut k)));
    k.text.unwrap() + if r.is_err() { "\npanicked" } else { "" }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a.first().map_or(false, |x| x == "cold") {
        std::process::exit(props::cold::main(&a[1..]));
    }
    if a.first().map_or(false, |x| x == "weave") {
        std::process::exit(props::cold::weave(&a[1..]));
    }
    vpcore::cli::main(props::all(), text)
}
