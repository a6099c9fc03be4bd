//! Counting allocator: live heap bytes per thread, and a cap on a single request so that an
//! absurd allocation fails at once instead of exhausting the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    pub static LIVE: Cell<i64> = const { Cell::new(0) };
}
const CAP: usize = 4 << 30;
/// Live bytes per thread beyond which requests fail: a runaway must not exhaust the machine.
const LIVE_CAP: i64 = 3 << 30;
fn over(n: usize) -> bool {
    n > CAP || LIVE.try_with(|c| c.get()).unwrap_or(0) + n as i64 > LIVE_CAP
}
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if over(l.size()) {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            let _ = LIVE.try_with(|c| c.set(c.get() + l.size() as i64));
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|c| c.set(c.get() - l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if over(n) {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            let _ = LIVE.try_with(|c| c.set(c.get() + n as i64 - l.size() as i64));
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
