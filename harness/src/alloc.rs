//! Counting allocator: per-thread live bytes, peak, calls. Also the runaway guard: a case that holds
//! more than the cap is recorded and the process aborts (the driver attributes it).
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// Per-thread cap on live bytes; 0 = off
pub static CAP: AtomicUsize = AtomicUsize::new(0);

fn add(n: isize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = CALLS.try_with(|c| c.set(c.get() + 1));
            let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
            let cap = CAP.load(Relaxed);
            if cap > 0 && v > cap as isize {
                crate::runner::die("memory");
            }
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(-(l.size() as isize));
        add(n as isize);
        System.realloc(p, l, n)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Mem {
    pub live: isize,
    pub peak: isize,
    pub calls: u64,
    pub bytes: u64,
}

/// Current counters of this thread; the peak restarts here.
pub fn mark() -> Mem {
    let live = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(live));
    now()
}
pub fn now() -> Mem {
    Mem { live: LIVE.with(|l| l.get()), peak: PEAK.with(|l| l.get()), calls: CALLS.with(|l| l.get()), bytes: BYTES.with(|l| l.get()) }
}
