//! The allocator of the drivers. It counts what is allocated, and on request (environment variable
//! GUARD) it puts every block of words directly before (`end`) or after (`start`) unmapped memory,
//! never reuses addresses, and fills fresh memory with garbage. Accesses outside of a block, or after
//! it was freed, then kill the process instead of going unnoticed.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU8, AtomicUsize, Ordering::Relaxed};

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

const PAGE: usize = 4096;
const LOW: usize = 0x2000_0000_0000;
const HIGH: usize = 0x3000_0000_0000;
// private, anonymous, fixed without replacing
const FLAGS: i32 = 0x2 | 0x20 | 0x10_0000;

static MODE: AtomicU8 = AtomicU8::new(0);
static BUMP: AtomicUsize = AtomicUsize::new(LOW);
static COUNTING: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static BLOCKS: AtomicUsize = AtomicUsize::new(0);
static CALLS: AtomicUsize = AtomicUsize::new(0);

pub struct Guarding;

#[global_allocator]
static GLOBAL: Guarding = Guarding;

/// Reads the environment.
pub fn setup() {
    let mode = match std::env::var("GUARD").as_deref() {
        Ok("end") => 1,
        Ok("start") => 2,
        _ => 0,
    };
    MODE.store(mode, Relaxed);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Usage {
    pub bytes: usize,
    pub blocks: usize,
    pub calls: usize,
}

/// What is allocated since counting has been switched on.
pub fn usage() -> Usage {
    Usage { bytes: LIVE.load(Relaxed), blocks: BLOCKS.load(Relaxed), calls: CALLS.load(Relaxed) }
}

/// Starts or stops counting. Blocks must be freed under the same setting they were allocated under.
pub fn counting(on: bool) {
    COUNTING.store(on, Relaxed)
}

/// Runs something that is not to be counted.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let on = COUNTING.swap(false, Relaxed);
    let r = f();
    COUNTING.store(on, Relaxed);
    r
}

fn count_alloc(size: usize) {
    if COUNTING.load(Relaxed) {
        LIVE.fetch_add(size, Relaxed);
        BLOCKS.fetch_add(1, Relaxed);
        CALLS.fetch_add(1, Relaxed);
    }
}

fn count_free(size: usize) {
    if COUNTING.load(Relaxed) {
        LIVE.fetch_sub(size, Relaxed);
        BLOCKS.fetch_sub(1, Relaxed);
    }
}

fn pages(size: usize) -> usize {
    (size + PAGE - 1) / PAGE * PAGE
}

unsafe fn guarded(l: Layout) -> Option<*mut u8> {
    let mode = MODE.load(Relaxed);
    if mode == 0 || l.align() < 8 || l.align() > 16 || l.size() == 0 || l.size() % l.align() != 0 {
        return None;
    }
    let len = pages(l.size());
    let at = BUMP.fetch_add(len + PAGE, Relaxed) + PAGE;
    if at + len >= HIGH {
        return None;
    }
    let p = mmap(at as *mut u8, len, 3, FLAGS, -1, 0);
    if p as usize != at {
        if p as usize != usize::MAX {
            munmap(p, len);
        }
        return None;
    }
    Some(if mode == 1 { p.add(len - l.size()) } else { p })
}

unsafe impl GlobalAlloc for Guarding {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count_alloc(l.size());
        match guarded(l) {
            Some(p) => {
                std::ptr::write_bytes(p, 0xa5, l.size());
                p
            }
            None => System.alloc(l),
        }
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count_alloc(l.size());
        match guarded(l) {
            Some(p) => p,
            None => System.alloc_zeroed(l),
        }
    }

    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count_free(l.size());
        if (LOW..HIGH).contains(&(p as usize)) {
            munmap((p as usize / PAGE * PAGE) as *mut u8, pages(l.size()));
        } else {
            System.dealloc(p, l)
        }
    }

    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if MODE.load(Relaxed) == 0 && !(LOW..HIGH).contains(&(p as usize)) {
            if COUNTING.load(Relaxed) {
                LIVE.fetch_add(new, Relaxed);
                LIVE.fetch_sub(l.size(), Relaxed);
                CALLS.fetch_add(1, Relaxed);
            }
            return System.realloc(p, l, new);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            self.dealloc(p, l);
        }
        q
    }
}
