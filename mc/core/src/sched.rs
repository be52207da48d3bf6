//! A scheduler for two threads at the granularity of machine instructions. A thread under control runs with the
//! processor's single-step flag set; the signal that follows each instruction is a scheduling point. Outside of
//! schedules nothing is changed. Inside of the allocator there are no scheduling points (it locks).
use crate::engine::guarded;
use crate::mem;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub const END: u32 = u32::MAX;

/// A thread waiting for the other one gives up the schedule after this many milliseconds: the other one is blocked by
/// something that the waiting thread holds (or the machine is busy). Both then run on freely.
pub const PATIENCE: u64 = 30;
/// Schedules given up are repeated with this patience, so that a busy machine is not taken for a blocked thread; for
/// so many times in a process (where threads do block each other, every repetition would wait in vain).
pub const LONG_PATIENCE: u64 = 400;
static REPEATS: AtomicU64 = AtomicU64::new(0);
pub fn may_repeat() -> bool {
    REPEATS.fetch_add(1, Relaxed) < 60
}

pub struct Shared {
    turn: AtomicUsize,
    done: [AtomicBool; 2],
    released: AtomicBool,
    /// steps until the next switch, in the order of the turns; after the last one the thread runs to its end
    segs: Vec<u32>,
    next: AtomicUsize,
    pub steps: [AtomicU64; 2],
    patience: u64,
}
impl Shared {
    pub fn new(segs: &[u32], patience: u64) -> Shared {
        Shared {
            turn: AtomicUsize::new(0),
            done: [AtomicBool::new(false), AtomicBool::new(false)],
            released: AtomicBool::new(false),
            segs: segs.to_vec(),
            next: AtomicUsize::new(0),
            steps: [AtomicU64::new(0), AtomicU64::new(0)],
            patience,
        }
    }
    pub fn was_released(&self) -> bool {
        self.released.load(SeqCst)
    }
    /// switches that took place
    pub fn switches(&self) -> usize {
        self.next.load(SeqCst)
    }
    fn wait(&self, me: usize) {
        wait_for(
            || self.turn.load(Acquire) == me || self.done[1 - me].load(Acquire) || self.released.load(Relaxed),
            self.patience,
            || self.released.store(true, SeqCst),
        );
    }
    fn budget(&self) -> u32 {
        if self.released.load(Relaxed) {
            return END;
        }
        let n = self.next.fetch_add(1, SeqCst);
        self.segs.get(n).copied().unwrap_or(END)
    }
}

/// Waits; `late` is called once when it takes too long, after which `ok` must become true.
fn wait_for(ok: impl Fn() -> bool, patience: u64, late: impl Fn()) {
    for _ in 0..4000 {
        if ok() {
            return;
        }
        std::hint::spin_loop();
    }
    let t = std::time::Instant::now();
    let mut told = false;
    while !ok() {
        std::thread::yield_now();
        if !told && t.elapsed().as_millis() > patience as u128 {
            told = true;
            late();
        }
    }
}

/// Requests to the partner of a dense schedule.
pub struct Dense {
    req: AtomicU64,
    ack: AtomicU64,
    /// stop asking: the partner was blocked too often
    pub late: AtomicU64,
    pub steps: AtomicU64,
    patience: u64,
}
impl Dense {
    pub fn new(patience: u64) -> Dense {
        Dense {
            req: AtomicU64::new(0),
            ack: AtomicU64::new(0),
            late: AtomicU64::new(0),
            steps: AtomicU64::new(0),
            patience,
        }
    }
    /// One complete run of the partner's operation.
    fn ask(&self) {
        self.steps.fetch_add(1, Relaxed);
        if self.ack.load(Acquire) != self.req.load(Relaxed) {
            // still busy after having been given up on
            return;
        }
        if self.late.load(Relaxed) > if self.patience > PATIENCE { 2 } else { 20 } {
            return;
        }
        let n = self.req.fetch_add(1, Release) + 1;
        let over = Cell::new(false);
        wait_for(
            || self.ack.load(Acquire) == n || over.get(),
            self.patience,
            || {
                self.late.fetch_add(1, Relaxed);
                over.set(true)
            },
        );
    }
    /// The partner's side: runs `f` for every request until `stop`.
    pub fn serve(&self, stop: &AtomicBool, mut f: impl FnMut()) {
        let mut seen = 0;
        loop {
            let n = self.req.load(Acquire);
            if n != seen {
                seen = n;
                f();
                self.ack.store(n, Release);
                continue;
            }
            if stop.load(Acquire) {
                return;
            }
            let mut spins = 0;
            while self.req.load(Acquire) == seen && !stop.load(Acquire) {
                spins += 1;
                if spins < 20_000 {
                    std::hint::spin_loop();
                } else {
                    std::thread::yield_now();
                }
            }
        }
    }
    pub fn finish(&self) {
        let n = self.req.load(Acquire);
        while self.ack.load(Acquire) != n {
            std::thread::yield_now();
        }
    }
}

enum Step<'a> {
    Dense(&'a Dense),
    Sched(&'a Shared, usize, Cell<u32>),
}

thread_local! {
    static CUR: Cell<*const ()> = const { Cell::new(std::ptr::null()) };
}

#[cfg(all(target_arch = "x86_64", target_os = "linux"))]
mod arch {
    use super::*;
    extern "C" {
        fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    }
    #[repr(C)]
    struct Sa {
        handler: extern "C" fn(i32, *mut u8, *mut u8),
        mask: [u64; 16],
        flags: i32,
        restorer: usize,
    }
    const SIGTRAP: i32 = 5;
    const SA_SIGINFO: i32 = 4;
    /// offset of the flags register in ucontext_t
    const EFL: usize = 40 + 17 * 8;

    extern "C" fn on_trap(_: i32, _: *mut u8, ctx: *mut u8) {
        let p = CUR.get();
        if p.is_null() || !super::trap(p) {
            // no more stepping
            mem::STEP.set(false);
            CUR.set(std::ptr::null());
            // SAFETY: ucontext_t of this platform
            unsafe {
                let f = ctx.add(EFL) as *mut u64;
                *f &= !0x100;
            }
        }
    }
    pub fn install() -> bool {
        static ONCE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
        *ONCE.get_or_init(|| {
            let a = Sa { handler: on_trap, mask: [0; 16], flags: SA_SIGINFO, restorer: 0 };
            // SAFETY: as the C library declares it
            unsafe { sigaction(SIGTRAP, &a, std::ptr::null_mut()) == 0 }
        })
    }
}
#[cfg(not(all(target_arch = "x86_64", target_os = "linux")))]
mod arch {
    pub fn install() -> bool {
        false
    }
}

/// One instruction was executed. False: run on freely.
fn trap(p: *const ()) -> bool {
    // SAFETY: set by `stepped` on this thread for as long as it runs
    match unsafe { &*(p as *const Step) } {
        Step::Dense(d) => {
            d.ask();
            true
        }
        Step::Sched(s, me, left) => {
            s.steps[*me].fetch_add(1, Relaxed);
            left.set(left.get() - 1);
            if left.get() > 0 {
                return true;
            }
            if !s.done[1 - me].load(Acquire) {
                s.turn.store(1 - me, Release);
                s.wait(*me);
            }
            let b = s.budget();
            left.set(b);
            b != END
        }
    }
}

fn stepped<R>(st: &Step, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            mem::step_off();
            mem::STEP.set(false);
            CUR.set(std::ptr::null());
        }
    }
    if !arch::install() {
        return f();
    }
    let _off = Off;
    CUR.set(st as *const Step as *const ());
    mem::STEP.set(true);
    mem::step_on();
    let r = f();
    mem::step_off();
    r
}

/// Runs `f` with a complete run of the partner's operation after each of its instructions.
pub fn dense<R>(d: &Dense, f: impl FnOnce() -> R) -> Result<R, String> {
    arch::install();
    guarded(|| stepped(&Step::Dense(d), f))
}

/// Runs `f` as thread `me` of a schedule.
pub fn scheduled<R>(s: &Shared, me: usize, f: impl FnOnce() -> R) -> Result<R, String> {
    arch::install();
    s.wait(me);
    let b = s.budget();
    let r = guarded(|| if b == END { f() } else { stepped(&Step::Sched(s, me, Cell::new(b)), f) });
    s.done[me].store(true, Release);
    s.turn.store(1 - me, Release);
    r
}

/// How many instructions `f` takes (0: stepping does not work here); counted up to `limit`.
pub fn count<R>(limit: u32, f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
    let s = Shared::new(&[limit], PATIENCE);
    // nobody to switch to
    s.done[1].store(true, SeqCst);
    let r = scheduled(&s, 0, f);
    let n = s.steps[0].load(SeqCst);
    (r, n)
}
