//! Counting allocator: a case that holds more than LIMIT bytes is stopped.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, Ordering};

pub const LIMIT: isize = 1 << 30;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static ON: Cell<bool> = const { Cell::new(false) };
    static SUM: Cell<u64> = const { Cell::new(0) };
}

/// set once a case exceeds the limit; the thread is parked, the main thread reports
pub static EXCEEDED: AtomicBool = AtomicBool::new(false);

pub fn begin_case() {
    LIVE.with(|c| c.set(0));
    SUM.with(|c| c.set(0));
    ON.with(|c| c.set(true));
}

pub fn end_case() {
    ON.with(|c| c.set(false));
}

/// bytes the last case of this thread allocated altogether
#[cfg(feature = "guided")]
pub fn allocated() -> u64 {
    SUM.with(|c| c.get())
}

fn account(n: isize) {
    let _ = ON.try_with(|on| {
        if on.get() {
            if n > 0 {
                SUM.with(|c| c.set(c.get() + n as u64));
            }
            let v = LIVE.with(|c| {
                c.set(c.get() + n);
                c.get()
            });
            if v > LIMIT {
                on.set(false);
                crate::runner::oom();
                EXCEEDED.store(true, Ordering::SeqCst);
                loop {
                    std::thread::sleep(std::time::Duration::from_secs(1));
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as isize - l.size() as isize);
        System.realloc(p, l, n)
    }
}
