//! Counts the allocations made by the library: those between entry into an API call and its
//! return, callbacks excluded.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static IN: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
    static TOTAL: Cell<(i64, i64)> = const { Cell::new((0, 0)) };
}
pub struct Counting;
fn add(n: i64, b: i64) {
    let _ = IN.try_with(|i| {
        if i.get() && !getrandom::busy() {
            LIVE.with(|l| l.set((l.get().0 + n, l.get().1 + b)));
            if n > 0 {
                TOTAL.with(|l| l.set((l.get().0 + n, l.get().1 + b)));
            }
        }
    });
}
// SAFETY: every call is passed on to the system allocator.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(1, l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-1, -(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(0, n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
/// Runs an API call.
pub fn inside<R>(f: impl FnOnce() -> R) -> R {
    let old = IN.with(|i| i.replace(true));
    let r = f();
    IN.with(|i| i.set(old));
    r
}
pub struct Outside(bool);
impl Drop for Outside {
    fn drop(&mut self) {
        IN.with(|i| i.set(self.0));
    }
}
/// For the time of a callback.
pub fn outside() -> Outside {
    Outside(IN.with(|i| i.replace(false)))
}
/// Allocations (number, bytes) of this thread's API calls still alive.
pub fn live() -> (i64, i64) {
    LIVE.with(|l| l.get())
}
pub fn total() -> (i64, i64) {
    TOTAL.with(|l| l.get())
}
