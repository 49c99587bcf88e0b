//! A digest of what the library answers for a text, each thing asked once: cheap enough for an interpreter.
use unicode_normalization::{char as uc, *};

pub fn answers(s: &[char]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    let mut add = |x: u32| h = (h ^ x as u64).wrapping_mul(0x0000_0100_0000_01b3).rotate_left(17);
    for (i, &c) in s.iter().enumerate() {
        add(uc::canonical_combining_class(c) as u32);
        add(uc::is_combining_mark(c) as u32 | (uc::is_public_assigned(c) as u32) << 1);
        uc::decompose_canonical(c, |d| add(d as u32));
        uc::decompose_compatible(c, |d| add(d as u32));
        uc::decompose_cjk_compat_variants(c, |d| add(d as u32));
        if i > 0 {
            add(uc::compose(s[i - 1], c).map_or(0, |c| c as u32));
        }
    }
    let it = || s.iter().copied();
    it().nfc().for_each(|c| add(c as u32));
    it().nfd().for_each(|c| add(c as u32));
    it().nfkc().for_each(|c| add(c as u32));
    it().nfkd().for_each(|c| add(c as u32));
    it().stream_safe().for_each(|c| add(c as u32));
    it().cjk_compat_variants().for_each(|c| add(c as u32));
    let q = |x: IsNormalized| match x {
        IsNormalized::Yes => 1,
        IsNormalized::No => 2,
        IsNormalized::Maybe => 3,
    };
    for x in [q(is_nfc_quick(it())), q(is_nfd_quick(it())), q(is_nfkc_quick(it())), q(is_nfkd_quick(it())), q(is_nfc_stream_safe_quick(it())), q(is_nfd_stream_safe_quick(it()))] {
        add(x);
    }
    let st: String = it().collect();
    for x in [is_nfc(&st), is_nfd(&st), is_nfkc(&st), is_nfkd(&st), is_nfc_stream_safe(&st), is_nfd_stream_safe(&st)] {
        add(x as u32);
    }
    h
}
