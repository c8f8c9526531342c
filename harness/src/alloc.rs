//! Allocator that can be told to fail, and that refuses absurd requests instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static LEFT: Cell<i64> = const { Cell::new(-1) };     // allocations until failure; -1: off
    static STICKY: Cell<bool> = const { Cell::new(false) };
    static FAILED: Cell<bool> = const { Cell::new(false) };
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<usize> = const { Cell::new(usize::MAX) };
}
/// fail the n-th allocation from now on this thread (and all later ones if sticky)
pub fn arm(n: i64, sticky: bool) { LEFT.with(|c| c.set(n)); STICKY.with(|c| c.set(sticky)); FAILED.with(|c| c.set(false)); }
/// fail every allocation larger than n bytes
pub fn arm_limit(n: usize) { LIMIT.with(|c| c.set(n)); FAILED.with(|c| c.set(false)); }
pub fn disarm() { LEFT.with(|c| c.set(-1)); LIMIT.with(|c| c.set(usize::MAX)); }
pub fn failed() -> bool { FAILED.with(|c| c.get()) }
pub fn clear() { FAILED.with(|c| c.set(false)); COUNT.with(|c| c.set(0)); }
pub fn count() -> u64 { COUNT.with(|c| c.get()) }

pub struct A;
fn refuse(size: usize) -> bool {
    if size > 1 << 30 { return true }
    COUNT.try_with(|c| c.set(c.get() + 1)).ok();
    LEFT.try_with(|c| {
        let l = c.get();
        if size > LIMIT.with(|x| x.get()) { FAILED.with(|f| f.set(true)); return true }
        if l < 0 { return false }
        if l == 0 { FAILED.with(|f| f.set(true)); if !STICKY.with(|s| s.get()) { c.set(-1) } return true }
        c.set(l - 1);
        false
    }).unwrap_or(false)
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if refuse(l.size()) { std::ptr::null_mut() } else { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if refuse(l.size()) { std::ptr::null_mut() } else { System.alloc_zeroed(l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { if n > l.size() && refuse(n) { std::ptr::null_mut() } else { System.realloc(p, l, n) } }
}
