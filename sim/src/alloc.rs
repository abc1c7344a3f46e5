//! Accounting allocator: the simulated process's memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicIsize, Ordering::Relaxed};

pub struct Acct;
static LIVE: AtomicIsize = AtomicIsize::new(0);
static PEAK: AtomicIsize = AtomicIsize::new(0);
static ON: AtomicBool = AtomicBool::new(false);
/// hard limit of one simulated process; beyond it the process is ended with a
/// distinctive status, like a machine that runs out of memory
pub const HARD: usize = 1 << 30;
pub const EXIT_OOM: i32 = 77;

extern "C" {
    fn _exit(c: i32) -> !;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
}

fn oom() -> ! {
    unsafe {
        let m = b"SIM-OOM\n";
        write(2, m.as_ptr(), m.len());
        _exit(EXIT_OOM)
    }
}

fn add(n: isize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.store(l, Relaxed);
    }
}

unsafe impl GlobalAlloc for Acct {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            if l.size() > HARD {
                oom()
            }
            add(l.size() as isize);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) {
            add(-(l.size() as isize));
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) {
            if l.size() > HARD {
                oom()
            }
            add(l.size() as isize);
        }
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            if n > HARD {
                oom()
            }
            add(n as isize - l.size() as isize);
        }
        System.realloc(p, l, n)
    }
}

/// (peak growth, remaining growth) of live bytes while `f` runs
pub fn scope<T>(f: impl FnOnce() -> T) -> (T, usize, isize) {
    let l0 = LIVE.load(Relaxed);
    PEAK.store(l0, Relaxed);
    ON.store(true, Relaxed);
    let r = f();
    ON.store(false, Relaxed);
    let peak = PEAK.load(Relaxed) - l0;
    let left = LIVE.load(Relaxed) - l0;
    LIVE.store(l0, Relaxed);
    (r, peak.max(0) as usize, left)
}
/// after a panic unwound through `scope`
pub fn off() {
    ON.store(false, Relaxed);
}
