//! C24's comparison alone: compiled once per generated database.
pub use vpcore::{engine, gen, refimpl, ucd};
#[path = "../../src/props/answers.rs"]
pub mod answers;
#[path = "../../src/props/c24.rs"]
pub mod c24;
#[path = "../../src/lib_api.rs"]
pub mod lib_api;
// the test vectors the script writes next to the tables
#[path = "vectors.rs"]
pub mod vectors;

fn main() {
    if std::env::args().nth(1).as_deref() == Some("vectors") {
        let hex = |s: &str| s.chars().map(|c| format!("{:X}", c as u32)).collect::<Vec<_>>().join(" ");
        for t in vectors::NORMALIZATION_TESTS.iter() {
            println!("{};{};{};{};{}", hex(t.source), hex(t.nfc), hex(t.nfd), hex(t.nfkc), hex(t.nfkd));
        }
        return;
    }
    vpcore::cli::main(vec![c24::c24()], |_| String::new())
}
