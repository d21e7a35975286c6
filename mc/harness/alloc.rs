//! Counts what each thread allocates and stops an execution that asks for an absurd amount.
use crate::engine::Ctx;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::{Arc, OnceLock};

thread_local! {
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
static CTX: OnceLock<Arc<Ctx>> = OnceLock::new();
pub fn set_ctx(c: Arc<Ctx>) {
    let _ = CTX.set(c);
}
/// Starts a measurement on this thread: single requests above `limit` end the run as a violation.
pub fn begin(limit: usize) {
    LIMIT.with(|l| l.set(limit));
    let c = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(c));
    BASE.with(|b| b.set(c));
}
thread_local! {
    static BASE: Cell<isize> = const { Cell::new(0) };
}
/// Ends it and returns the high-water mark above the start.
pub fn end() -> usize {
    LIMIT.with(|l| l.set(usize::MAX));
    let p = PEAK.with(|p| p.get());
    let b = BASE.with(|b| b.get());
    (p - b).max(0) as usize
}
fn note(d: isize) {
    let _ = CUR.try_with(|c| {
        let n = c.get() + d;
        c.set(n);
        if d > 0 {
            let _ = PEAK.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
        }
    });
}
fn check(size: usize) {
    let lim = LIMIT.try_with(|l| l.get()).unwrap_or(usize::MAX);
    if size > lim {
        LIMIT.with(|l| l.set(usize::MAX));
        if let Some(c) = CTX.get() {
            c.oversize(size);
        }
    }
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        check(l.size());
        note(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        check(l.size());
        note(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        check(n);
        note(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
