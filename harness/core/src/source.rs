//! Instrumented sources of characters: they count what is pulled, can end and resume, be endless, panic, and give any
//! honest size hint.
use std::cell::RefCell;
use std::iter::FusedIterator;
use std::sync::Arc;

#[derive(Clone, Copy, Default, Debug)]
pub struct Stat {
    pub pulled: u64,
    /// polls answered None
    pub ends: u64,
}
thread_local! {
    static TRAP: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    static STATS: RefCell<Vec<Stat>> = const { RefCell::new(Vec::new()) };
}
/// The next clone (1) or size hint (2) of any source of this thread panics.
pub fn set_trap(x: u8) {
    TRAP.with(|t| t.set(x))
}
pub fn trap() -> u8 {
    TRAP.with(|t| t.get())
}
pub fn reset_stats() {
    STATS.with(|s| s.borrow_mut().clear());
}
pub fn stats_len() -> usize {
    STATS.with(|s| s.borrow().len())
}
pub fn stat(id: usize) -> Stat {
    STATS.with(|s| s.borrow()[id])
}
/// The furthest of the sources first..len created since; used after a clone.
pub fn furthest(first: usize) -> Option<usize> {
    STATS.with(|s| {
        let s = s.borrow();
        (first..s.len()).max_by_key(|&i| s[i].pulled)
    })
}

pub const HINTS: u32 = 7;

/// FUSED: whether the type promises to be fused.
pub struct Src<const FUSED: bool> {
    pub data: Arc<[char]>,
    pub pos: usize,
    pub endless: bool,
    /// endless as far as anyone can see, but promises exactly usize::MAX characters
    pub huge: bool,
    /// answers None once before the character at this position, then goes on (only if not FUSED)
    pub gap: Option<usize>,
    gap_done: bool,
    /// panics once instead of giving the character at this position
    pub panic_at: Option<usize>,
    /// panics if more than this many characters are pulled
    pub limit: u64,
    pub hint: u32,
    pub id: usize,
}
impl<const F: bool> Src<F> {
    pub fn new(data: Arc<[char]>, hint: u32) -> Self {
        Src { data, pos: 0, endless: false, huge: false, gap: None, gap_done: false, panic_at: None, limit: u64::MAX, hint, id: Self::register(Stat::default()) }
    }
    fn register(st: Stat) -> usize {
        STATS.with(|s| {
            let mut s = s.borrow_mut();
            s.push(st);
            s.len() - 1
        })
    }
}
impl<const F: bool> Clone for Src<F> {
    fn clone(&self) -> Self {
        if trap() == 1 {
            set_trap(0);
            std::panic::panic_any(Injected);
        }
        Src { data: self.data.clone(), id: Self::register(stat(self.id)), ..*self }
    }
}
pub struct Injected;
impl<const F: bool> Iterator for Src<F> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        if self.panic_at == Some(self.pos) {
            self.panic_at = None;
            std::panic::panic_any(Injected);
        }
        let at_gap = !F && !self.gap_done && self.gap == Some(self.pos);
        let end = at_gap || (!self.endless && self.pos >= self.data.len()) || self.data.is_empty();
        STATS.with(|s| {
            let st = &mut s.borrow_mut()[self.id];
            if end {
                st.ends += 1
            } else {
                st.pulled += 1
            }
            if st.pulled > self.limit || st.ends > 1_000_000 {
                panic!("the source was read further than any output asked for needs (limit {} characters)", self.limit);
            }
        });
        if at_gap {
            self.gap_done = true;
        }
        if end {
            return None;
        }
        let c = self.data[self.pos % self.data.len()];
        self.pos += 1;
        Some(c)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if trap() == 2 {
            set_trap(0);
            std::panic::panic_any(Injected);
        }
        if self.huge {
            let n = usize::MAX - self.pos;
            return [(n, Some(n)), (n, None), (0, Some(n)), (n / 2, Some(usize::MAX)), (n - 1, Some(usize::MAX))][self.hint as usize % 5];
        }
        if self.endless {
            return match self.hint {
                0 | 1 => (usize::MAX, None),
                _ => (0, None),
            };
        }
        if self.gap.is_some() {
            return (0, None);
        }
        let n = self.data.len() - self.pos.min(self.data.len());
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n, None),
            3 => (0, Some(n)),
            4 => (n / 2, Some(2 * n + 3)),
            5 => (n.min(1), Some(n + 1)),
            _ => (n, Some(usize::MAX)),
        }
    }
}
impl FusedIterator for Src<true> {}
