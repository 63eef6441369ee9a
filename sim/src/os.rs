//! Seams at the boundary to the operating system and the allocator.
//!
//! `getrandom`, `syscall(SYS_getrandom)`, `clock_gettime` and `getpid` are defined in this executable, so every request for
//! entropy or time made on a simulated thread (std's hash seeds, the getrandom crate under rand's thread RNG, Instant,
//! SystemTime) is answered by the simulator. Threads that are not simulated pass through to the kernel.

use crate::rng::hash2;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static SEED: Cell<u64> = const { Cell::new(0) };
    static CTR: Cell<u64> = const { Cell::new(0) };
    static FAULTY: Cell<bool> = const { Cell::new(false) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static CLOCK: Cell<u64> = const { Cell::new(0) };
}

pub static ENTROPY_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_SHORT: AtomicU64 = AtomicU64::new(0);
pub static ENTROPY_EINTR: AtomicU64 = AtomicU64::new(0);
pub static CLOCK_READS: AtomicU64 = AtomicU64::new(0);
pub static PID_READS: AtomicU64 = AtomicU64::new(0);

/// Put the current thread under the simulator's entropy and clock.
pub fn enter_sim(seed: u64, faulty: bool) {
    SIM.with(|s| s.set(true));
    SEED.with(|s| s.set(seed));
    CTR.with(|s| s.set(0));
    CALLS.with(|s| s.set(0));
    FAULTY.with(|s| s.set(faulty));
    CLOCK.with(|s| s.set(1_000_000_000));
}

/// Advance the simulated wall clock of this thread (nanoseconds).
pub fn advance_clock(ns: u64) {
    CLOCK.with(|c| c.set(c.get() + ns));
}

unsafe fn raw_syscall6(n: i64, a: [i64; 6]) -> i64 {
    let ret: i64;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a[0], in("rsi") a[1], in("rdx") a[2],
        in("r10") a[3], in("r8") a[4], in("r9") a[5],
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn ret_errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

unsafe fn fill(buf: *mut u8, len: usize) -> i64 {
    let call = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    let seed = SEED.with(|s| s.get());
    let mut n = len;
    if FAULTY.with(|f| f.get()) && len > 0 {
        match hash2(seed ^ 0xFA17, call) % 4 {
            0 => {
                ENTROPY_EINTR.fetch_add(1, Relaxed);
                *libc::__errno_location() = libc::EINTR;
                return -1;
            }
            1 if len > 1 => {
                n = 1 + (hash2(seed ^ 0x5407, call) as usize) % (len - 1);
                ENTROPY_SHORT.fetch_add(1, Relaxed);
            }
            _ => {}
        }
    }
    for i in 0..n {
        let k = CTR.with(|c| {
            let k = c.get();
            c.set(k + 1);
            k
        });
        *buf.add(i) = (hash2(seed, k / 8) >> (8 * (k % 8))) as u8;
    }
    ENTROPY_BYTES.fetch_add(n as u64, Relaxed);
    n as i64
}

fn in_sim() -> bool {
    SIM.try_with(|s| s.get()).unwrap_or(false)
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() {
        return fill(buf, len) as isize;
    }
    ret_errno(raw_syscall6(libc::SYS_getrandom, [buf as i64, len as i64, flags as i64, 0, 0, 0])) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && in_sim() {
        return fill(a as *mut u8, b as usize);
    }
    if n == libc::SYS_getpid {
        return getpid() as i64;
    }
    ret_errno(raw_syscall6(n, [a, b, c, d, e, f]))
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        CLOCK_READS.fetch_add(1, Relaxed);
        let now = CLOCK.with(|c| {
            c.set(c.get() + 1000);
            c.get()
        });
        (*ts).tv_sec = (now / 1_000_000_000) as i64;
        (*ts).tv_nsec = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret_errno(raw_syscall6(libc::SYS_clock_gettime, [clk as i64, ts as i64, 0, 0, 0, 0])) as i32
}

/// A process number of its own for every simulated process run.
#[no_mangle]
pub unsafe extern "C" fn getpid() -> i32 {
    if in_sim() {
        PID_READS.fetch_add(1, Relaxed);
        return 2 + (hash2(SEED.with(|s| s.get()), 0x91D) % 4_000_000) as i32;
    }
    raw_syscall6(libc::SYS_getpid, [0; 6]) as i32
}

/// The process number the kernel knows.
pub fn real_pid() -> i32 {
    unsafe { raw_syscall6(libc::SYS_getpid, [0; 6]) as i32 }
}

// ---- allocator -------------------------------------------------------------------------------------------------

pub struct Counting;

static LIVE: AtomicU64 = AtomicU64::new(0);
static PIECES: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicU64 = AtomicU64::new(0);
static LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);
static LARGEST: AtomicU64 = AtomicU64::new(0);

fn grow(n: u64) -> bool {
    let now = LIVE.fetch_add(n, Relaxed) + n;
    LARGEST.fetch_max(n, Relaxed);
    if now > LIMIT.load(Relaxed) {
        LIVE.fetch_sub(n, Relaxed);
        return false;
    }
    PEAK.fetch_max(now, Relaxed);
    true
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as u64) {
            return std::ptr::null_mut();
        }
        PIECES.fetch_add(1, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !grow(l.size() as u64) {
            return std::ptr::null_mut();
        }
        PIECES.fetch_add(1, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as u64, Relaxed);
        PIECES.fetch_sub(1, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > l.size() {
            if !grow((n - l.size()) as u64) {
                return std::ptr::null_mut();
            }
            LARGEST.fetch_max(n as u64, Relaxed);
        } else {
            LIVE.fetch_sub((l.size() - n) as u64, Relaxed);
        }
        System.realloc(p, l, n)
    }
}

/// Bytes now live.
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}
/// Allocations now live.
pub fn pieces() -> u64 {
    PIECES.load(Relaxed)
}
/// Start measuring the peak from here.
pub fn mark() -> u64 {
    let l = live();
    PEAK.store(l, Relaxed);
    LARGEST.store(0, Relaxed);
    l
}
pub fn peak() -> u64 {
    PEAK.load(Relaxed)
}
/// Allow at most `n` further live bytes; beyond that allocations fail (which aborts the worker: reported as a crash).
pub fn limit(n: u64) {
    LIMIT.store(live().saturating_add(n), Relaxed);
}
pub fn unlimit() {
    LIMIT.store(u64::MAX, Relaxed);
}
