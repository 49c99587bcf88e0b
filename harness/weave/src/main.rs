//! Reads a file of words, little-endian: threads, rounds, whether threads take the texts in orders of their own, number of
//! texts, and for each its length, its characters and the digest (two words) of the answers about it. Every thread asks.
#[path = "../../src/props/light.rs"]
mod light;
use std::sync::Barrier;

fn main() {
    let Some(path) = std::env::var_os("VP_WEAVE") else { return };
    let b = std::fs::read(path).unwrap();
    let w: Vec<u32> = b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect();
    let (threads, rounds, n) = (w[0] as usize, w[1] as usize, w[3] as usize);
    let own = w[2] == 1;
    let mut at = 4;
    let mut cases = vec![];
    for _ in 0..n {
        let k = w[at] as usize;
        let s: Vec<char> = w[at + 1..at + 1 + k].iter().map(|&c| char::from_u32(c).unwrap()).collect();
        at += k + 1;
        cases.push((s, w[at] as u64 | (w[at + 1] as u64) << 32));
        at += 2;
    }
    // VP_SERIAL: one thread, to tell what is wrong with an answer from what is wrong with sharing
    let threads = if std::env::var_os("VP_SERIAL").is_some() { 1 } else { threads };
    let barrier = Barrier::new(threads);
    let steps = [1, n - 1, 3 % n, 5 % n, 7 % n];
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (cases, barrier) = (&cases, &barrier);
            sc.spawn(move || {
                barrier.wait();
                for r in 0..rounds {
                    // an order may ask twice about one text and not at all about another
                    let step = if own { steps[(t + r) % steps.len()].max(1) } else { 1 };
                    for j in 0..n {
                        let i = (if own { t } else { 0 } + j * step) % n;
                        let (s, want) = &cases[i];
                        if light::answers(s) != *want {
                            // what about it differs is for the reader of the replay: the texts and threads are all there is
                            println!("WRONG thread {t} round {r} text {i}");
                            std::process::exit(101);
                        }
                    }
                }
            });
        }
    });
}
