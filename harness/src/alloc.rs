//! Counts what each thread allocates.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// state of the coin that decides where the thread gives way, 0 for nowhere
    static COIN: Cell<u64> = const { Cell::new(0) };
    static RATE: Cell<u64> = const { Cell::new(0) };
    static WAYS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
}

fn grow(n: usize) {
    let live = LIVE.with(|c| {
        let v = c.get().saturating_add(n as i64);
        c.set(v);
        v
    });
    if live > PEAK.with(|c| c.get()) {
        PEAK.with(|c| c.set(live));
        if live > LIMIT.with(|c| c.get()) {
            over(live);
        }
    }
    TOTAL.with(|c| c.set(c.get().wrapping_add(n as u64)));
    CALLS.with(|c| c.set(c.get().wrapping_add(1)));
    let coin = COIN.with(|c| c.get());
    if coin != 0 {
        let mut x = coin;
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        COIN.with(|c| c.set(x));
        if (x >> 20) % RATE.with(|c| c.get()) == 0 {
            WAYS.with(|c| c.set(c.get() + 1));
            std::thread::yield_now();
        }
    }
}

/// From now on this thread gives way to others at one in `rate` of its allocations.
pub fn give_way(seed: u64, rate: u64) {
    RATE.with(|c| c.set(rate.max(1)));
    COIN.with(|c| c.set(seed | 1));
}

/// Stops that; says how often it happened.
pub fn stay() -> u64 {
    COIN.with(|c| c.set(0));
    WAYS.with(|c| c.replace(0))
}

#[cold]
fn over(live: i64) -> ! {
    use std::io::Write;
    LIMIT.with(|c| c.set(i64::MAX));
    let _ = std::io::stdout().write_all(format!("MEM {live}\n").as_bytes());
    let _ = std::io::stdout().flush();
    std::process::abort();
}

fn shrink(n: usize) {
    LIVE.with(|c| c.set(c.get().saturating_sub(n as i64)));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        shrink(l.size());
        grow(n);
        System.realloc(p, l, n)
    }
}

/// Forgets what was counted; peaks are relative to now.
pub fn reset(limit: Option<u64>) {
    LIVE.with(|c| c.set(0));
    PEAK.with(|c| c.set(0));
    TOTAL.with(|c| c.set(0));
    CALLS.with(|c| c.set(0));
    LIMIT.with(|c| c.set(limit.map(|l| l as i64).unwrap_or(i64::MAX)));
}

pub fn peak() -> u64 {
    PEAK.with(|c| c.get()).max(0) as u64
}

pub fn total() -> u64 {
    TOTAL.with(|c| c.get())
}

pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
