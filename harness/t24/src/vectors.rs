//! Replaced by what the script writes.
pub struct NormalizationTest {
    pub source: &'static str,
    pub nfc: &'static str,
    pub nfd: &'static str,
    pub nfkc: &'static str,
    pub nfkd: &'static str,
}
pub const NORMALIZATION_TESTS: &[NormalizationTest] = &[];
