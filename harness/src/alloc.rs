//! Counting allocator: live/peak bytes per thread, an armed limit, and a hard cap that turns a
//! runaway allocation into a recorded exit instead of taking the sandbox down.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicPtr, Ordering};

pub const EXIT_MEM: i32 = 77;
const HARD_CAP: isize = 3 << 30;

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<isize> = const { Cell::new(HARD_CAP) };
}

/// status page shared with the parent; word 3 = bytes live when a limit was exceeded
pub static STATUS: AtomicPtr<u64> = AtomicPtr::new(std::ptr::null_mut());

fn add(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as isize;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        let _ = TOTAL.try_with(|t| t.set(t.get() + n as u64));
        let lim = LIMIT.try_with(|x| x.get()).unwrap_or(HARD_CAP);
        if v > lim {
            let s = STATUS.load(Ordering::SeqCst);
            if !s.is_null() {
                unsafe { std::ptr::write_volatile(s.add(3), v as u64) }
            }
            unsafe { libc::_exit(EXIT_MEM) }
        }
    });
}

fn sub(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n);
        sub(l.size());
        System.realloc(p, l, n)
    }
}

pub fn live() -> isize {
    LIVE.with(|l| l.get())
}

pub fn total() -> u64 {
    TOTAL.with(|l| l.get())
}

/// start measuring: peak is reset to the current level; exceeding `limit` more bytes ends the process
pub fn arm(limit: usize) -> isize {
    let base = live();
    PEAK.with(|p| p.set(base));
    LIMIT.with(|l| l.set((base + limit as isize).min(HARD_CAP)));
    base
}

/// peak growth since arm()
pub fn disarm(base: isize) -> usize {
    LIMIT.with(|l| l.set(HARD_CAP));
    (PEAK.with(|p| p.get()) - base).max(0) as usize
}
