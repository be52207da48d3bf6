//! Two threads using the library at the same time: on different buffers, or on what was decoded from one buffer.
use crate::abs::*;
use crate::engine::*;
use crate::gen_val::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::sched::*;
use crate::sut::*;
use bytes::BytesMut;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Mutex;

/// What one thread does.
#[derive(Clone, Debug)]
pub enum Op {
    Decode(Vec<u8>),
    Limited(Vec<u8>, usize),
    Check(Vec<u8>),
    Encode(Abs),
    Size(Abs),
    Copy(Abs),
    Equal(Abs),
}
impl Op {
    pub fn show(&self) -> String {
        let short = |s: String| s.chars().take(160).collect::<String>();
        match self {
            Op::Decode(f) => format!("decode {}", short(hex(f))),
            Op::Limited(f, m) => format!("decode {} with limit {m}", short(hex(f))),
            Op::Check(f) => format!("check {}", short(hex(f))),
            Op::Encode(a) => format!("encode {}", short(a.show())),
            Op::Size(a) => format!("size of {}", short(a.show())),
            Op::Copy(a) => format!("copy {}", short(a.show())),
            Op::Equal(a) => format!("compare {} with its copy", short(a.show())),
        }
    }
}

/// What two threads do with things they share.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Share {
    /// one reads on from the buffer, the other uses the packet read before
    ReadOn(Use),
    /// one uses the packet read before, the other reads on from the buffer
    UseWhileRead(Use),
    /// both use one packet
    Both(Use, Use),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Use {
    Encode,
    Copy,
    Compare,
    Look,
}
pub const USES: [Use; 4] = [Use::Encode, Use::Copy, Use::Compare, Use::Look];

#[derive(Clone, Debug)]
pub enum Pair {
    Own(Op, Op),
    Shared { first: Vec<u8>, then: Vec<u8>, how: Share },
}
impl Pair {
    pub fn show(&self) -> String {
        match self {
            Pair::Own(a, b) => format!("A: {} / B: {}", a.show(), b.show()),
            Pair::Shared { first, then, how } => {
                let short = |s: String| s.chars().take(160).collect::<String>();
                format!("stream {} | {}, {how:?}", short(hex(first)), short(hex(then)))
            }
        }
    }
}

enum Raw {
    Read(ROut, BytesMut),
    Check(COut),
    Wrote(Result<usize, Ev>, BytesMut),
    Size(Option<usize>),
    Pkt(Box<dyn Pkt>),
    Eq(bool),
    Abs(Box<Abs>),
}
#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Read(Res, Vec<u8>),
    Check(COut),
    Wrote(Result<usize, Ev>, Vec<u8>),
    Size(Option<usize>),
    Pkt(Abs),
    Eq(bool),
    Panic(String),
}
fn out(r: Result<Raw, String>) -> Out {
    match r {
        Ok(Raw::Read(r, b)) => Out::Read(res(&r), b.to_vec()),
        Ok(Raw::Check(c)) => Out::Check(c),
        Ok(Raw::Wrote(r, b)) => Out::Wrote(r, b.to_vec()),
        Ok(Raw::Size(n)) => Out::Size(n),
        Ok(Raw::Pkt(p)) => Out::Pkt(p.abs()),
        Ok(Raw::Eq(e)) => Out::Eq(e),
        Ok(Raw::Abs(a)) => Out::Pkt(*a),
        Err(e) => Out::Panic(e),
    }
}

type Once<'a> = Box<dyn FnOnce() -> Raw + 'a>;
type Many<'a> = Box<dyn FnMut() -> Once<'a> + 'a>;
/// Moves to the other thread. What the library itself allows is a property of its own (Send and Sync).
struct Over<T>(T);
// SAFETY: the explorer's own state is not shared; the library's is what is being tested
unsafe impl<T> Send for Over<T> {}
impl<T> Over<T> {
    fn get(self) -> T {
        self.0
    }
}

fn prepare<'a>(sut: &'a dyn Sut, o: &Op) -> Once<'a> {
    match o {
        Op::Decode(f) => {
            let mut b = BytesMut::from(&f[..]);
            Box::new(move || {
                let r = sut.read(&mut b, None);
                Raw::Read(r, b)
            })
        }
        Op::Limited(f, m) => {
            let (mut b, m) = (BytesMut::from(&f[..]), *m);
            Box::new(move || {
                let r = sut.read(&mut b, Some(m));
                Raw::Read(r, b)
            })
        }
        Op::Check(f) => {
            let f = f.clone();
            Box::new(move || Raw::Check(sut.check(&f, None)))
        }
        Op::Encode(a) => {
            let p = sut.build(a);
            Box::new(move || {
                let mut b = BytesMut::new();
                let r = p.write(&mut b);
                Raw::Wrote(r, b)
            })
        }
        Op::Size(a) => {
            let p = sut.build(a);
            Box::new(move || Raw::Size(p.size()))
        }
        Op::Copy(a) => {
            let p = sut.build(a);
            Box::new(move || {
                let q = p.dup();
                drop(p);
                Raw::Pkt(q)
            })
        }
        Op::Equal(a) => {
            let (p, q) = (sut.build(a), sut.build(a));
            Box::new(move || Raw::Eq(p.same(&*q)))
        }
    }
}
fn using<'a>(p: &'a dyn Pkt, q: &'a dyn Pkt, u: Use) -> Once<'a> {
    match u {
        Use::Encode => Box::new(move || {
            let mut b = BytesMut::new();
            let r = p.write(&mut b);
            Raw::Wrote(r, b)
        }),
        Use::Copy => Box::new(move || Raw::Pkt(p.dup())),
        Use::Compare => Box::new(move || Raw::Eq(p.same(q))),
        Use::Look => Box::new(move || Raw::Abs(Box::new(p.abs()))),
    }
}

/// What was decoded before the threads start.
struct Common {
    p: Option<Box<dyn Pkt>>,
    q: Option<Box<dyn Pkt>>,
    rest: Option<BytesMut>,
    then: Vec<u8>,
}
fn common(sut: &dyn Sut, x: &Pair) -> Common {
    match x {
        Pair::Own(..) => Common { p: None, q: None, rest: None, then: vec![] },
        Pair::Shared { first, then, .. } => {
            let mut b = BytesMut::with_capacity(first.len() + 4 * then.len() + 16);
            b.extend_from_slice(first);
            b.extend_from_slice(then);
            let ROut::Pkt(p) = sut.read(&mut b, None) else { panic!("harness: the first frame is a packet") };
            let q = p.dup();
            Common { p: Some(p), q: Some(q), rest: Some(b), then: then.clone() }
        }
    }
}
fn read_once<'a>(sut: &'a dyn Sut, mut b: BytesMut) -> Once<'a> {
    Box::new(move || {
        let r = sut.read(&mut b, None);
        Raw::Read(r, b)
    })
}
/// The operations of both threads.
fn both<'a>(sut: &'a dyn Sut, x: &Pair, m: &'a mut Common) -> (Once<'a>, Many<'a>) {
    let Common { p, q, rest, then } = m;
    match x {
        Pair::Own(a, b) => {
            let b = b.clone();
            (prepare(sut, a), Box::new(move || prepare(sut, &b)))
        }
        Pair::Shared { how, .. } => {
            let (p, q) = (&**p.as_ref().expect("packet"), &**q.as_ref().expect("packet"));
            let mut rest = rest.take();
            let then = &*then;
            match *how {
                Share::ReadOn(u) => (read_once(sut, rest.take().expect("buffer")), Box::new(move || using(p, q, u))),
                Share::UseWhileRead(u) => (
                    using(p, q, u),
                    Box::new(move || {
                        // the rest of the stream, then more of the same in the same buffer
                        let b = rest.as_mut().expect("buffer");
                        if b.is_empty() {
                            b.extend_from_slice(then);
                        }
                        let b = b.split_off(0);
                        read_once(sut, b)
                    }),
                ),
                Share::Both(u, v) => (using(p, q, u), Box::new(move || using(p, q, v))),
            }
        }
    }
}

/// Results of both, one after the other, with the number of instructions of each.
pub struct Alone {
    pub a: Out,
    pub b: Out,
    pub na: u64,
    pub nb: u64,
}
pub fn alone_of(c: &mut Ctx, x: &Pair) -> Option<Alone> {
    let sut = c.sut;
    c.calls += 2;
    let mut m = guarded(|| common(sut, x)).ok()?;
    let (a, mut b) = both(sut, x, &mut m);
    let (ra, na) = count(u32::MAX - 1, a);
    let b1 = b();
    let (rb, nb) = count(u32::MAX - 1, b1);
    let (a, b) = (out(ra), out(rb));
    if matches!(a, Out::Panic(_)) || matches!(b, Out::Panic(_)) {
        c.saw("reference run panicked (judged by C04)");
        return None;
    }
    if na == 0 {
        c.saw("no single-stepping on this machine: nothing explored");
    }
    Some(Alone { a, b, na, nb })
}

fn differs(who: &str, got: &Out, want: &Out) -> String {
    let show = |o: &Out| format!("{o:?}").chars().take(600).collect::<String>();
    format!("{who}: {}, alone {}", show(got), show(want))
}

/// B's whole operation after every single instruction of A's.
pub fn run_dense(c: &mut Ctx, x: &Pair, w: &Alone) {
    if !dense_with(c, x, w, PATIENCE) && may_repeat() {
        c.saw("repeated with more patience");
        dense_with(c, x, w, LONG_PATIENCE);
    }
}
/// False: given up at some instruction.
fn dense_with(c: &mut Ctx, x: &Pair, w: &Alone, patience: u64) -> bool {
    let sut = c.sut;
    let Ok(mut m) = guarded(|| common(sut, x)) else { return true };
    let (a, b) = both(sut, x, &mut m);
    let d = Dense::new(patience);
    let stop = AtomicBool::new(false);
    let bad: Mutex<Option<String>> = Mutex::new(None);
    let a = Over(a);
    let b = Over(b);
    let ra = std::thread::scope(|s| {
        let (d, stop, bad) = (&d, &stop, &bad);
        s.spawn(move || {
            let mut b = b.get();
            let mut at = 0u64;
            d.serve(stop, || {
                at += 1;
                let o = out(guarded(b()));
                if o != w.b {
                    let mut g = bad.lock().expect("lock");
                    if g.is_none() {
                        *g = Some(differs(&format!("B, run when A was at instruction {at}"), &o, &w.b));
                    }
                }
            })
        });
        let a = a.get();
        let r = dense(d, a);
        d.finish();
        stop.store(true, SeqCst);
        out(r)
    });
    let n = d.steps.load(SeqCst);
    c.calls += n + 1;
    for k in 0..n {
        c.state(key(&[w.na, w.nb, k]));
    }
    if d.late.load(SeqCst) > 0 {
        c.saw("a thread waited for the other's lock");
    }
    if ra != w.a {
        c.fail("interference", differs("A, interrupted by B after each instruction", &ra, &w.a));
    }
    if let Some(b) = bad.into_inner().expect("lock") {
        c.fail("interference", b);
    }
    c.saw("schedule with a complete run of B after every instruction of A");
    d.late.load(SeqCst) == 0
}

/// One schedule.
pub fn run_schedule(c: &mut Ctx, x: &Pair, w: &Alone, segs: &[u32]) {
    if !schedule_with(c, x, w, segs, PATIENCE) && may_repeat() {
        c.saw("repeated with more patience");
        schedule_with(c, x, w, segs, LONG_PATIENCE);
    }
}
/// False: given up.
fn schedule_with(c: &mut Ctx, x: &Pair, w: &Alone, segs: &[u32], patience: u64) -> bool {
    let sut = c.sut;
    let Ok(mut m) = guarded(|| common(sut, x)) else { return true };
    let (a, mut b) = both(sut, x, &mut m);
    let b = Over(b());
    let sh = Shared::new(segs, patience);
    let (ra, rb) = std::thread::scope(|s| {
        let sh = &sh;
        let t = s.spawn(move || {
            let b = b.get();
            out(scheduled(sh, 1, b))
        });
        let a = Over(a).get();
        let ra = scheduled(sh, 0, a);
        let rb = t.join().unwrap_or(Out::Panic("?".into()));
        (out(ra), rb)
    });
    c.calls += 2;
    if sh.was_released() {
        c.saw("a thread waited for the other's lock");
    } else {
        c.saw("schedule");
    }
    let (ka, kb) = (sh.steps[0].load(SeqCst), sh.steps[1].load(SeqCst));
    c.state(key(&[w.na, w.nb, ka, kb]));
    if ra != w.a {
        c.fail("interference", differs("A", &ra, &w.a));
    }
    if rb != w.b {
        c.fail("interference", differs("B", &rb, &w.b));
    }
    !sh.was_released()
}

/// Operations for the first use in a process.
pub fn first_ops() -> Vec<Op> {
    let mut v = vec![];
    for k in KINDS {
        let mut a = min(k);
        // with a code where there is one
        match &mut a {
            Abs::Ack { code, typ, .. } => *code = if *typ < 6 { 0x97 } else { 0x92 },
            Abs::Disconnect { code, .. } => *code = 0xa2,
            Abs::ConnAck { code, .. } => *code = 0x9f,
            Abs::SubAck { codes, .. } => *codes = vec![0xa2],
            Abs::UnsubAck { codes, .. } => *codes = vec![0x91],
            _ => {}
        }
        let f = encode(&a, Form::Full);
        v.push(Op::Decode(f));
        v.push(Op::Encode(a));
    }
    for k in KINDS {
        v.push(Op::Decode(encode(&full(k), Form::Shortest)));
        v.push(Op::Encode(full(k)));
    }
    v
}
fn twice(o: &Op) -> Pair {
    Pair::Own(o.clone(), o.clone())
}
/// The child's part: both threads do operation `i` for the first time in the process, the second when the first has
/// done `k` instructions.
pub fn first_child(sut: &dyn Sut, i: usize, k: u32) -> String {
    let x = twice(&first_ops()[i]);
    let mut m = common(sut, &x);
    let (a, mut b) = both(sut, &x, &mut m);
    let b = Over(b());
    let sh = Shared::new(&[k, END], PATIENCE);
    let (ra, rb) = std::thread::scope(|s| {
        let sh = &sh;
        let t = s.spawn(move || out(scheduled(sh, 1, b.get())));
        let ra = scheduled(sh, 0, Over(a).get());
        (out(ra), t.join().unwrap_or(Out::Panic("?".into())))
    });
    format!("{} {ra:?}\n{rb:?}", sh.steps[0].load(SeqCst))
}
pub fn first_use(c: &mut Ctx, i: usize) {
    let x = twice(&first_ops()[i]);
    let Some(w) = alone_of(c, &x) else { return };
    let cfg = c.cfg.to_string();
    let mut steps = u64::MAX;
    for k in 1..=w.na as u32 + 300 {
        if steps < k as u64 - 1 {
            break;
        }
        c.case(
            || format!("{}: the first use in the process, B after {k} instructions of A", x.show()),
            |c| {
                let o = match c.child(&["--first", &cfg, &i.to_string(), &k.to_string()], &[]) {
                    Some(Ok(o)) => o,
                    Some(Err(e)) => {
                        c.fail("first-use", e);
                        return;
                    }
                    None => {
                        c.saw("a process could not be run");
                        return;
                    }
                };
                let (n, o) = o.split_once(' ').unwrap_or(("", ""));
                steps = n.parse().unwrap_or(0);
                c.state(key(&[i as u64, steps]));
                let want = format!("{:?}\n{:?}", w.a, w.b);
                if o != want {
                    c.fail("first-use", format!("{}, alone {}", short(o), short(&want)));
                }
                c.saw("schedule in a fresh process");
            },
        );
    }
}
fn short(s: &str) -> String {
    s.chars().take(600).collect()
}

/// Operations of every kind, small ones first.
pub fn ops(n: usize) -> Vec<Op> {
    let mut v = vec![];
    for f in small_frames() {
        v.push(Op::Decode(f));
    }
    for k in KINDS {
        v.push(Op::Encode(min(k)));
    }
    for k in KINDS {
        let e = encode(&full(k), Form::Shortest);
        v.push(Op::Decode(e.clone()));
        v.push(Op::Limited(e.clone(), 1));
        v.push(Op::Decode(e[..e.len() - 1].to_vec()));
        v.push(Op::Check(e));
        v.push(Op::Encode(full(k)));
        v.push(Op::Size(full(k)));
        v.push(Op::Copy(full(k)));
        v.push(Op::Equal(full(k)));
    }
    v.push(Op::Decode(BAD_HEADER.to_vec()));
    // lengths of two and three bytes
    for n in [200usize, 17_000, 40_000] {
        let a = Abs::Publish { dup: false, qos: 0, retain: false, topic: text(1, 3), pkid: 0, props: None, payload: bin(n as u64, n) };
        v.push(Op::Decode(encode(&a, Form::Full)));
        v.push(Op::Encode(a));
    }
    for a in packet_lib() {
        if unrepresentable(&a).is_some() && encode_len_small(&a) {
            v.push(Op::Encode(a));
        }
    }
    v.into_iter().step_by(n).collect()
}
fn encode_len_small(a: &Abs) -> bool {
    !matches!(a, Abs::Unsubscribe { filters, .. } if filters.iter().any(|f| f.len() > 1000))
}
