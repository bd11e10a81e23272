//! Counting global allocator: per-thread bytes allocated, live bytes and peak,
//! and an optional per-thread budget. Exceeding the budget fails the
//! allocation, which aborts the process with an allocation error that the
//! driver recognises.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::Relaxed};

thread_local! {
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BUDGET: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Live bytes of the whole process, counted while `ALL` is set.
static ALL: AtomicBool = AtomicBool::new(false);
static ALL_LIVE: AtomicI64 = AtomicI64::new(0);

fn all(n: i64) {
    if ALL.load(Relaxed) {
        ALL_LIVE.fetch_add(n, Relaxed);
    }
}
/// Count the whole process from now on.
pub fn count_all() {
    ALL.store(true, Relaxed);
}
pub fn all_live() -> i64 {
    ALL_LIVE.load(Relaxed)
}

pub struct Counting;

fn grow(n: usize) -> bool {
    all(n as i64);
    let ok = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        if v > BUDGET.with(|b| b.get()) {
            return false;
        }
        l.set(v);
        TOTAL.with(|t| t.set(t.get() + n as u64));
        COUNT.with(|t| t.set(t.get() + 1));
        PEAK.with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    });
    ok.unwrap_or(true)
}
fn shrink(n: usize) {
    all(-(n as i64));
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size()) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        shrink(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow(n - l.size()) {
                return std::ptr::null_mut();
            }
            // Growing in place is the allocator's luck: count the whole block.
            let _ = TOTAL.try_with(|t| t.set(t.get() + l.size() as u64));
        } else {
            shrink(l.size() - n);
        }
        System.realloc(p, l, n)
    }
}

pub struct Mark {
    total: u64,
    count: u64,
    live: i64,
}
pub struct Used {
    pub total: u64,
    pub count: u64,
    pub peak: u64,
}
/// Start measuring on this thread.
pub fn mark() -> Mark {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    Mark { total: TOTAL.with(|t| t.get()), count: COUNT.with(|t| t.get()), live }
}
pub fn since(m: &Mark) -> Used {
    Used {
        total: TOTAL.with(|t| t.get()) - m.total,
        count: COUNT.with(|t| t.get()) - m.count,
        peak: (PEAK.with(|p| p.get()) - m.live).max(0) as u64,
    }
}
/// Bytes this thread has allocated and not freed.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Allow this thread at most `extra` more live bytes (None: unlimited).
pub fn budget(extra: Option<u64>) {
    let live = LIVE.with(|l| l.get());
    BUDGET.with(|b| b.set(extra.map_or(i64::MAX, |e| live.saturating_add(e as i64))));
}
