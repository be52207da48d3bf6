//! Counting allocator: bytes requested and live on this thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct CountAlloc;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
    /// memory given back is overwritten
    static POISON: Cell<bool> = const { Cell::new(false) };
    /// this thread is being single-stepped (see sched)
    pub(crate) static STEP: Cell<bool> = const { Cell::new(false) };
}

/// Single-stepping on and off, for this thread.
#[inline(always)]
pub(crate) fn step_on() {
    #[cfg(target_arch = "x86_64")]
    // SAFETY: sets the trap flag; sched has installed the handler
    unsafe {
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq")
    }
}
#[inline(always)]
pub(crate) fn step_off() {
    #[cfg(target_arch = "x86_64")]
    // SAFETY: clears the trap flag
    unsafe {
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq")
    }
}
/// The allocator is not interrupted: it locks.
#[inline]
fn whole<R>(f: impl FnOnce() -> R) -> R {
    if STEP.get() {
        step_off();
        let r = f();
        step_on();
        r
    } else {
        f()
    }
}

/// Requests above this size are refused while a measured call runs.
const REFUSE: usize = 6 << 30;

#[inline]
fn add(n: usize) {
    if ON.get() {
        let l = LIVE.get() + n as i64;
        LIVE.set(l);
        if l > PEAK.get() {
            PEAK.set(l);
        }
        TOTAL.set(TOTAL.get() + n as u64);
    }
}
#[inline]
fn sub(n: usize) {
    if ON.get() {
        LIVE.set(LIVE.get() - n as i64);
    }
}

#[inline]
fn block(n: i64) {
    if ON.get() {
        BLOCKS.set(BLOCKS.get() + n);
    }
}

// SAFETY: forwards to System
unsafe impl GlobalAlloc for CountAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() > REFUSE {
            return std::ptr::null_mut();
        }
        add(l.size());
        block(1);
        whole(|| System.alloc(l))
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        block(-1);
        if POISON.get() {
            std::ptr::write_bytes(p, 0xDD, l.size());
        }
        whole(|| System.dealloc(p, l))
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if n > REFUSE {
            return std::ptr::null_mut();
        }
        if POISON.get() {
            // the old place is given back
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        add(n);
        sub(l.size());
        whole(|| System.realloc(p, l, n))
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Mem {
    /// highest number of additional bytes live at once
    pub peak: u64,
    /// all bytes requested
    pub total: u64,
    /// bytes and blocks more than at the start
    pub live: i64,
    pub blocks: i64,
}

/// Runs `f`, which must not unwind, and reports what it allocated.
pub fn measure<R>(f: impl FnOnce() -> R) -> (R, Mem) {
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    BLOCKS.set(0);
    ON.set(true);
    let r = f();
    ON.set(false);
    (r, now())
}
/// What has been allocated so far in the current `measure`.
pub fn now() -> Mem {
    Mem { peak: PEAK.get().max(0) as u64, total: TOTAL.get(), live: LIVE.get(), blocks: BLOCKS.get() }
}

/// While it lives, memory that this thread gives back is overwritten.
pub struct Poison(());
impl Poison {
    pub fn on() -> Self {
        POISON.set(true);
        Self(())
    }
}
impl Drop for Poison {
    fn drop(&mut self) {
        POISON.set(false);
    }
}
