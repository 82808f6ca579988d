//! An allocator which accounts for the memory each thread holds.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, Ordering};

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<i64> = const { Cell::new(i64::MAX) };
}

/// Bytes held by all threads, counted only while `GLOBAL_ON` is set.
pub static GLOBAL_LIVE: AtomicI64 = AtomicI64::new(0);
pub static GLOBAL_ON: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn add(n: i64, blocks: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = BLOCKS.try_with(|b| b.set(b.get() + blocks));
    if GLOBAL_ON.load(Ordering::Relaxed) {
        GLOBAL_LIVE.fetch_add(n, Ordering::Relaxed);
    }
}

fn called(n: usize) {
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
}

fn over(n: usize) -> bool {
    LIVE.try_with(|l| l.get() + n as i64 > CAP.try_with(|c| c.get()).unwrap_or(i64::MAX))
        .unwrap_or(false)
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        called(l.size());
        add(l.size() as i64, 1);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        called(l.size());
        add(l.size() as i64, 1);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() && over(n - l.size()) {
            return std::ptr::null_mut();
        }
        called(n);
        add(n as i64 - l.size() as i64, 0);
        System.realloc(p, l, n)
    }
}

/// Bytes and blocks this thread holds: allocated here minus released here.
pub fn live() -> (i64, i64) {
    (LIVE.with(|l| l.get()), BLOCKS.with(|b| b.get()))
}
/// Allocator calls of this thread.
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
/// Bytes this thread ever asked for.
pub fn total() -> u64 {
    TOTAL.with(|t| t.get())
}
/// Starts a new peak measurement from what is held now.
pub fn reset_peak() {
    PEAK.with(|p| p.set(LIVE.with(|l| l.get())));
}
pub fn peak() -> i64 {
    PEAK.with(|p| p.get())
}
/// Makes allocations of this thread fail beyond `bytes` held.
pub fn set_cap(bytes: i64) {
    CAP.with(|c| c.set(bytes));
}
