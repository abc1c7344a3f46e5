//! The randomness and the clocks of the simulated process: what the library would
//! get if it asked the system (hash seeds, the time). Both are decided here, so
//! that a run stays a function of its tape even then.
use std::cell::Cell;

#[repr(C)]
pub struct Ts {
    pub s: i64,
    pub n: i64,
}

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
const SYS_CLOCK_GETTIME: i64 = if cfg!(target_arch = "aarch64") { 113 } else { 228 };
const START: u64 = 1_700_000_000_000_000_000;

thread_local! {
    /// nanoseconds; 0: this thread lives in real time (the harness itself)
    static NOW: Cell<u64> = const { Cell::new(0) };
}

/// whether the calling thread sees simulated time; returns what it saw before
pub fn simulated(on: bool) -> u64 {
    NOW.with(|n| n.replace(if on { START } else { 0 }))
}
pub fn back(was: u64) {
    NOW.with(|n| n.set(was))
}

pub unsafe fn real_clock(id: i32, t: *mut Ts) {
    syscall(SYS_CLOCK_GETTIME, id as i64, t);
}

#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    // processor time stays what it is
    if !matches!(id, 2 | 3) && id >= 0 {
        let v = NOW.try_with(|n| n.get()).unwrap_or(0);
        if v != 0 {
            // a millisecond passes, now and then a second, now and then the clock jumps
            let h = crate::rng::mix(v);
            let step = match h % 16 {
                0 => 3_600_000_000_000,
                1..=3 => 1_000_000_000,
                _ => 1_000_000,
            };
            let _ = NOW.try_with(|n| n.set(v + step));
            // only the clock on the wall may go back
            let v = if id == 0 && h % 31 == 0 { v - 7_200_000_000_000 } else { v };
            (*t).s = (v / 1_000_000_000) as i64;
            (*t).n = (v % 1_000_000_000) as i64;
            return 0;
        }
    }
    syscall(SYS_CLOCK_GETTIME, id as i64, t) as i32
}

#[no_mangle]
unsafe extern "C" fn getrandom(p: *mut u8, n: usize, _flags: u32) -> isize {
    for i in 0..n {
        *p.add(i) = (i as u8).wrapping_mul(0x9d) ^ 0x5a;
    }
    n as isize
}
