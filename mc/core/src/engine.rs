//! The explorer: ordered jobs, each enumerating a finite set of cases completely; worker threads; case
//! accounting; isolation of panics, hangs and aborts of the code under test.
use crate::abs::{h2, H};
use crate::model::RecTr;
use crate::sut::*;
use std::any::Any;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<X>(self, q: X, t: X) -> X {
        if self == Tier::Quick {
            q
        } else {
            t
        }
    }
}

pub struct Job {
    pub name: String,
    /// index into the list of configurations
    pub cfg: usize,
    /// what the job enumerates (one line; the same text for all jobs of a space)
    pub space: &'static str,
    /// only one heavy job runs at a time
    pub heavy: bool,
    pub run: Box<dyn Fn(&mut Ctx) + Send + Sync>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub job: usize,
    pub case: u64,
    pub sig: String,
    pub msg: String,
    pub desc: String,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode {
    Run,
    /// describe one case, execute nothing
    Dump(u64),
    /// execute one case only
    Only(u64),
}

pub struct WorkerSlot {
    job: AtomicUsize,
    case: AtomicU64,
}

pub struct Ctx<'a> {
    pub suts: &'a [Box<dyn Sut>],
    /// index of the configuration
    pub cfg: usize,
    pub sut: &'a dyn Sut,
    pub tier: Tier,
    pub job: usize,
    pub cases: u64,
    pub viol: Vec<Viol>,
    pub tr: RecTr,
    pub calls: u64,
    /// distinct observations by label
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub dumped: Option<String>,
    pending: Vec<(String, String)>,
    mode: Mode,
    slot: &'a WorkerSlot,
    trace: Option<&'a std::fs::File>,
    stop: &'a AtomicBool,
    want_samples: usize,
}

thread_local! {
    static IN_CALL: Cell<bool> = const { Cell::new(false) };
    static LAST_LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if IN_CALL.get() {
            if let Some(l) = i.location() {
                LAST_LOC.with(|x| {
                    use std::fmt::Write;
                    let mut x = x.borrow_mut();
                    x.clear();
                    let _ = write!(x, "{}:{}", l.file(), l.line());
                });
            }
        } else {
            old(i)
        }
    }));
}

fn text(p: Box<dyn Any + Send>) -> String {
    let m = if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "?".into()
    };
    let loc = LAST_LOC.with(|x| x.borrow().clone());
    format!("panicked at {loc}: {m}")
}

/// Runs `f`; a panic comes back as an error.
#[inline]
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    IN_CALL.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    IN_CALL.set(false);
    r.map_err(text)
}

const MAX_VIOL_PER_JOB: usize = 200;

impl<'a> Ctx<'a> {
    /// One case. `desc` describes it (replayable), `run` executes and judges it.
    #[inline]
    pub fn case(&mut self, desc: impl Fn() -> String, run: impl FnOnce(&mut Ctx<'a>)) {
        let n = self.cases;
        self.cases += 1;
        match self.mode {
            Mode::Run => {}
            Mode::Dump(k) | Mode::Only(k) => {
                if n != k {
                    return;
                }
                self.dumped = Some(desc());
                if matches!(self.mode, Mode::Dump(_)) {
                    return;
                }
            }
        }
        if self.viol.len() >= MAX_VIOL_PER_JOB || self.stop.load(Relaxed) {
            self.cases -= 1;
            return;
        }
        self.slot.case.store(n, Relaxed);
        if let Some(f) = self.trace {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&(self.job as u64).to_le_bytes());
            b[8..].copy_from_slice(&n.to_le_bytes());
            let _ = f.write_all_at(&b, 0);
        }
        if self.samples.len() < self.want_samples {
            let mut s = desc();
            if s.len() > 400 {
                s = s.chars().take(400).collect::<String>() + "...";
            }
            self.samples.push(s);
        }
        run(self);
        if !self.pending.is_empty() {
            let d = desc();
            for (sig, msg) in std::mem::take(&mut self.pending) {
                self.viol.push(Viol { job: self.job, case: n, sig, msg, desc: d.clone() });
            }
        }
    }

    /// Calls the code under test; a panic comes back as an error.
    #[inline]
    pub fn call<R>(&mut self, f: impl FnOnce() -> R) -> Result<R, String> {
        self.calls += 1;
        guarded(f)
    }

    /// `call`, a panic being a violation at once.
    #[inline]
    pub fn ok<R>(&mut self, what: &'static str, f: impl FnOnce() -> R) -> Option<R> {
        match self.call(f) {
            Ok(r) => Some(r),
            Err(e) => {
                self.fail(&format!("panic/{what}"), format!("{what} {e}"));
                None
            }
        }
    }

    /// What decoding (`encode`: decoding and encoding again) this frame gives in a process that has done nothing
    /// else. None: that process panicked or could not be run.
    pub fn in_fresh_process(&mut self, cfg: usize, encode: bool, frame: &[u8]) -> Option<String> {
        self.child(&["--fresh", &cfg.to_string(), if encode { "encode" } else { "decode" }], frame)?.ok()
    }
    /// Runs the explorer's program with these arguments and this input; its output if it ended well. None: it could
    /// not be run, or somebody ended it.
    pub fn child(&mut self, args: &[&str], input: &[u8]) -> Option<Result<String, String>> {
        use std::os::unix::process::ExitStatusExt;
        use std::process::{Command, Stdio};
        self.calls += 1;
        let mut p = Command::new(std::env::current_exe().ok()?)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .ok()?;
        // the child reads all of its input before it writes; it may be gone already if it takes none
        let _ = p.stdin.take()?.write_all(input);
        let o = p.wait_with_output().ok()?;
        if matches!(o.status.signal(), Some(9 | 15 | 2)) {
            return None;
        }
        if !o.status.success() {
            return Some(Err(format!("the process ended with {}", o.status)));
        }
        String::from_utf8(o.stdout).ok().map(Ok)
    }
    pub fn fail(&mut self, sig: &str, msg: String) {
        self.pending.push((sig.to_string(), msg));
    }
    pub fn failing(&self) -> bool {
        !self.pending.is_empty()
    }
    #[inline]
    pub fn saw(&mut self, what: &'static str) {
        *self.outcomes.entry(what).or_insert(0) += 1;
    }
    /// records an abstract state reached (and the transition to it)
    #[inline]
    pub fn state(&mut self, key: u64) {
        use crate::model::Tr;
        self.tr.st(key);
    }
    pub fn fresh(&mut self) {
        self.tr.start();
    }
    pub fn full(&self) -> bool {
        self.viol.len() >= MAX_VIOL_PER_JOB || self.stop.load(Relaxed)
    }
}

pub struct Outcome {
    pub viol: Vec<Viol>,
    pub cases: u64,
    pub calls: u64,
    pub states: u64,
    pub transitions: u64,
    pub outcomes: BTreeMap<String, u64>,
    /// per space: (jobs, cases, samples)
    pub spaces: BTreeMap<String, (u64, u64, Vec<String>)>,
    pub by_cfg: BTreeMap<String, u64>,
    pub truncated: bool,
    pub slow: Vec<(f64, String)>,
}

pub struct Opts {
    pub threads: usize,
    pub trace: Option<std::fs::File>,
    pub hang_secs: u64,
    pub timing: bool,
    /// give up after this many violations
    pub enough: usize,
    /// run only the `.0`-th of `.1` shares of the jobs
    pub shard: (usize, usize),
}

/// What a stuck worker is reported as: (job, case).
pub fn run(
    suts: &[Box<dyn Sut>],
    tier: Tier,
    jobs: &[Job],
    o: &Opts,
    on_hang: &(dyn Fn(usize, u64) + Sync),
) -> Outcome {
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let heavy = Mutex::new(());
    let slots: Vec<WorkerSlot> =
        (0..o.threads).map(|_| WorkerSlot { job: AtomicUsize::new(usize::MAX), case: AtomicU64::new(0) }).collect();
    struct Part {
        viol: Vec<Viol>,
        tr: RecTr,
        calls: u64,
        outcomes: BTreeMap<&'static str, u64>,
        jobs: Vec<(usize, u64, Vec<String>, f64)>,
    }
    let parts = Mutex::new(Vec::<Part>::new());
    let total_viol = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for slot in &slots {
            let (next, stop, done, parts, heavy, total_viol) =
                (&next, &stop, &done, &parts, &heavy, &total_viol);
            std::thread::Builder::new()
                .stack_size(2 << 20)
                .spawn_scoped(s, move || {
                    let mut p = Part {
                        viol: vec![],
                        tr: RecTr::default(),
                        calls: 0,
                        outcomes: BTreeMap::new(),
                        jobs: vec![],
                    };
                    loop {
                        let j = next.fetch_add(1, SeqCst);
                        if j >= jobs.len() || stop.load(Relaxed) {
                            break;
                        }
                        // spread, so that no share is all of one configuration
                        if (j * 40503 >> 4) % o.shard.1 != o.shard.0 {
                            continue;
                        }
                        let guard = jobs[j].heavy.then(|| heavy.lock().unwrap());
                        let t = Instant::now();
                        slot.case.store(0, Relaxed);
                        slot.job.store(j, SeqCst);
                        let mut c = Ctx {
                            suts,
                            cfg: jobs[j].cfg,
                            sut: &*suts[jobs[j].cfg],
                            tier,
                            job: j,
                            cases: 0,
                            viol: vec![],
                            tr: std::mem::take(&mut p.tr),
                            calls: 0,
                            outcomes: std::mem::take(&mut p.outcomes),
                            samples: vec![],
                            dumped: None,
                            pending: vec![],
                            mode: Mode::Run,
                            slot,
                            trace: o.trace.as_ref(),
                            stop,
                            want_samples: 1,
                        };
                        (jobs[j].run)(&mut c);
                        slot.job.store(usize::MAX, SeqCst);
                        drop(guard);
                        if o.timing && t.elapsed().as_secs() > 20 {
                            eprintln!("{:8.1} s  {} [{}]", t.elapsed().as_secs_f64(), jobs[j].name, suts[jobs[j].cfg].name());
                        }
                        p.tr = std::mem::take(&mut c.tr);
                        p.outcomes = std::mem::take(&mut c.outcomes);
                        p.calls += c.calls;
                        if total_viol.fetch_add(c.viol.len(), SeqCst) + c.viol.len() >= o.enough {
                            stop.store(true, SeqCst);
                        }
                        p.viol.append(&mut c.viol);
                        p.jobs.push((j, c.cases, std::mem::take(&mut c.samples), t.elapsed().as_secs_f64()));
                    }
                    parts.lock().unwrap().push(p);
                    done.fetch_add(1, SeqCst);
                })
                .expect("spawn");
        }
        // watchdog
        let mut last: Vec<(usize, u64, Instant)> = slots.iter().map(|_| (0, 0, Instant::now())).collect();
        let mut ticks = 0u64;
        while done.load(SeqCst) < o.threads {
            std::thread::sleep(Duration::from_millis(10));
            ticks += 1;
            if ticks % 50 != 0 {
                continue;
            }
            for (s, l) in slots.iter().zip(last.iter_mut()) {
                let now = (s.job.load(SeqCst), s.case.load(Relaxed));
                if now.0 == usize::MAX || (now.0, now.1) != (l.0, l.1) {
                    *l = (now.0, now.1, Instant::now());
                } else if l.2.elapsed() > Duration::from_secs(o.hang_secs) {
                    on_hang(now.0, now.1);
                }
            }
        }
    });
    let parts = parts.into_inner().unwrap();
    let mut out = Outcome {
        viol: vec![],
        cases: 0,
        calls: 0,
        states: 0,
        transitions: 0,
        outcomes: BTreeMap::new(),
        spaces: BTreeMap::new(),
        by_cfg: BTreeMap::new(),
        truncated: stop.load(SeqCst),
        slow: vec![],
    };
    let mut tr = RecTr::default();
    for mut p in parts {
        out.viol.append(&mut p.viol);
        out.calls += p.calls;
        tr.merge(&p.tr);
        for (k, v) in p.outcomes {
            *out.outcomes.entry(k.to_string()).or_insert(0) += v;
        }
        for (j, n, s, t) in p.jobs {
            out.cases += n;
            let e = out.spaces.entry(jobs[j].space.to_string()).or_insert((0, 0, vec![]));
            e.0 += 1;
            e.1 += n;
            for x in s {
                if e.2.len() < 2 {
                    e.2.push(format!("[{}] {}", suts[jobs[j].cfg].name(), x));
                }
            }
            *out.by_cfg.entry(suts[jobs[j].cfg].name().to_string()).or_insert(0) += n;
            out.slow.push((t, jobs[j].name.clone()));
        }
    }
    if out.viol.len() >= MAX_VIOL_PER_JOB {
        out.truncated = true;
    }
    out.viol.sort_by_key(|v| (v.job, v.case));
    out.states = tr.states.len() as u64;
    out.transitions = tr.trans.len() as u64;
    out
}

/// Describes (or runs alone) one case of one job.
pub fn single(suts: &[Box<dyn Sut>], tier: Tier, jobs: &[Job], job: usize, mode: Mode) -> (Option<String>, Vec<Viol>) {
    let slot = WorkerSlot { job: AtomicUsize::new(job), case: AtomicU64::new(0) };
    let stop = AtomicBool::new(false);
    let mut c = Ctx {
        suts,
        cfg: jobs[job].cfg,
        sut: &*suts[jobs[job].cfg],
        tier,
        job,
        cases: 0,
        viol: vec![],
        tr: RecTr::default(),
        calls: 0,
        outcomes: BTreeMap::new(),
        samples: vec![],
        dumped: None,
        pending: vec![],
        mode,
        slot: &slot,
        trace: None,
        stop: &stop,
        want_samples: 0,
    };
    (jobs[job].run)(&mut c);
    let _ = std::io::stdout().flush();
    (c.dumped, c.viol)
}

pub fn key(parts: &[u64]) -> u64 {
    let mut h = H::new();
    for p in parts {
        h.u(*p);
    }
    h.0
}
pub fn fold(a: u64, b: u64) -> u64 {
    h2(a, b)
}
