//! What is left behind: memory after a call, memory during an encode, packets after their buffer is gone.
use crate::abs::*;
use crate::engine::*;
use crate::gen_val::*;
use crate::hist::buf;
use crate::mem;
use crate::model::*;
use crate::oracle::{fkind, hex};
use crate::sut::*;
use bytes::{Buf, Bytes, BytesMut};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn vkind(a: &Abs) -> &'static str {
    kind_name(a.typ())
}

/// Bytes of content in a packet value.
pub fn weight(a: &Abs) -> u64 {
    struct Count(u64);
    impl Hasher for Count {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, b: &[u8]) {
            self.0 += b.len() as u64;
        }
    }
    let mut h = Count(0);
    a.hash(&mut h);
    h.0
}

// ------------------------------------------------------------------ C29: nothing is left behind

/// Runs `f`, which drops everything it makes, until it leaves nothing: things made once (tables, caches of bounded
/// size) are made in the first run.
fn left(c: &mut Ctx, mut f: impl FnMut()) -> Option<mem::Mem> {
    let mut last = mem::Mem::default();
    for _ in 0..4 {
        let (r, m) = c.call(|| mem::measure(|| catch_unwind(AssertUnwindSafe(&mut f)))).ok()?;
        // a panic is C04's business
        r.ok()?;
        if m.blocks <= 0 && m.live <= 0 {
            return None;
        }
        last = m;
    }
    Some(last)
}
fn still(m: mem::Mem) -> String {
    format!("{} bytes in {} blocks are still allocated when everything has been dropped, each time", m.live, m.blocks)
}

/// One stream content.
pub fn f_left(c: &mut Ctx, f: &[u8]) {
    let sut = c.sut;
    c.fresh();
    c.state(key(&[f.first().copied().unwrap_or(0) as u64, f.len() as u64]));
    let bytes = Bytes::copy_from_slice(f);
    let mut saw = "error";
    let m = left(c, || {
        let mut b = BytesMut::from(f);
        let r = sut.read(&mut b, None);
        match &r {
            ROut::Pkt(p) => {
                saw = "packet";
                let q = p.dup();
                drop(r);
                let mut o = BytesMut::new();
                let _ = q.write(&mut o);
            }
            ROut::Need(_) => saw = "need more",
            _ => drop(r),
        }
    });
    if let Some(m) = m {
        c.fail(&format!("left-decode/{}", fkind(f)), format!("decode (copy, encode): {}", still(m)));
        return;
    }
    c.saw(saw);
    if saw == "need more" {
        return;
    }
    let m = left(c, || {
        drop(sut.read_kind(bytes.clone()));
        let _ = sut.check(f, Some(f.len() - 1));
        let mut b = BytesMut::from(f);
        drop(sut.read(&mut b, Some(f.len() - 1)));
    });
    if let Some(m) = m {
        c.fail(&format!("left-kind/{}", fkind(f)), format!("kind-level decode, check and limited decode: {}", still(m)));
    }
}
/// One packet value, representable or not.
pub fn v_left(c: &mut Ctx, a: &Abs) {
    let sut = c.sut;
    c.fresh();
    c.state(a.class());
    let bad = unrepresentable(a).is_some();
    let m = left(c, || {
        let p = sut.build(a);
        let mut b = BytesMut::new();
        let r = p.write(&mut b);
        let q = p.dup();
        drop(p);
        let _ = q.write_kind(&mut b);
        if !bad {
            q.size();
        }
        if r.is_ok() {
            drop(sut.read(&mut b, None));
        }
    });
    if let Some(m) = m {
        c.fail(&format!("left-encode/{}", vkind(a)), format!("build, encode, copy, encode, decode: {}", still(m)));
    }
    c.saw(if bad { "refused" } else { "encoded" });
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Habit {
    /// the write buffer is cleared after each packet
    Clear,
    /// its content is split off and handed out
    Split,
    /// its content is taken from the front
    Advance,
    /// the last packets are kept for a while
    Window,
    /// every frame has a defect
    Defects,
    /// every call has buffers of its own
    Own,
    /// every frame is over the limit, and dropped by the caller
    Limit,
    /// frames arrive in pieces, with a read after each
    Pieces,
    /// frames arrive in such pieces as are asked for
    Asked,
}
pub const HABITS: [Habit; 9] = [
    Habit::Clear,
    Habit::Split,
    Habit::Advance,
    Habit::Window,
    Habit::Defects,
    Habit::Own,
    Habit::Limit,
    Habit::Pieces,
    Habit::Asked,
];

/// The `i`-th content of a text field.
fn nth(i: usize) -> B {
    format!("{i:06x}").into_bytes().into()
}
/// The places whose content can differ with every packet of a connection.
pub fn varying(k: u8) -> Vec<Slot> {
    slots(k)
        .into_iter()
        .filter(|s| match s {
            Slot::U16 | Slot::Text | Slot::Payload | Slot::Users | Slot::SubIds | Slot::Filters | Slot::WillTopic | Slot::WillMsg => true,
            Slot::WillUsers | Slot::User | Slot::Pass => true,
            Slot::Prop(id) | Slot::WillProp(id) => matches!(prop_type(*id), Some(T::Str | T::Bin | T::U16 | T::U32)),
            _ => false,
        })
        .collect()
}
/// Puts the `i`-th content into a place.
pub fn vary(a: &mut Abs, s: Slot, i: usize) {
    let n = i as u64;
    let v = match s {
        Slot::U16 => Val::N(n % 65535 + 1),
        Slot::Users | Slot::WillUsers => Val::Pairs(vec![(nth(i), nth(i + 1_000_000)), (text(1, 1), nth(i))]),
        Slot::SubIds => Val::Ns(vec![n % 1000 + 1]),
        Slot::Filters if a.typ() == 8 => Val::Filts(vec![filt_opt(n % 7, nth(i)), filt_opt(1, text(1, 2))]),
        Slot::Filters => Val::Texts(vec![nth(i), text(1, 2)]),
        Slot::Prop(id) | Slot::WillProp(id) if matches!(prop_type(id), Some(T::U16)) => Val::N(n % 1000 + 1),
        Slot::Prop(id) | Slot::WillProp(id) if matches!(prop_type(id), Some(T::U32)) => Val::N(n + 1),
        _ => Val::Bytes(nth(i)),
    };
    set(a, s, &v);
}

/// A long-lived connection: packets with ever new content in some places, memory measured early and late.
pub fn traffic(c: &mut Ctx, base: &Abs, places: &[Slot], habit: Habit, rounds: usize) {
    let sut = c.sut;
    c.fresh();
    let early = rounds / 8;
    let run = || {
        let mut at = [mem::Mem::default(); 2];
        let (mut w, mut r) = (BytesMut::new(), BytesMut::new());
        let mut window: std::collections::VecDeque<Box<dyn Pkt>> = Default::default();
        for i in 0..rounds {
            let mut a = base.clone();
            for s in places {
                vary(&mut a, *s, i);
            }
            if habit == Habit::Defects {
                let f = encode(&a, Form::Full);
                let Hdr::Frame { hl, .. } = header(&f, None) else { break };
                // one byte too many, one too few, one changed
                let n = f.len();
                let x: Vec<u8> = match i % 3 {
                    0 => [&f[hl..], &[0xff][..]].concat(),
                    1 => f[hl..n - 1].to_vec(),
                    _ => {
                        let mut x = f[hl..].to_vec();
                        let m = x.len();
                        if m > 0 {
                            x[i / 3 % m] ^= 0xff;
                        }
                        x
                    }
                };
                r.extend_from_slice(&finish(f[0], &x));
                drop(sut.read(&mut r, None));
                r.clear();
            } else {
                let p = sut.build(&a);
                if habit == Habit::Own {
                    (w, r) = (BytesMut::new(), BytesMut::new());
                }
                let ok = p.write(&mut w).is_ok();
                let mut at = 0;
                if habit == Habit::Pieces {
                    for n in w.chunks(w.len() / 7 + 1) {
                        at += n.len();
                        if at < w.len() {
                            r.extend_from_slice(n);
                            let _ = sut.read(&mut r, None);
                        } else {
                            at -= n.len();
                        }
                    }
                } else if habit == Habit::Asked {
                    while let ROut::Need(n) = sut.read(&mut r, None) {
                        if n == 0 || at + n >= w.len() {
                            break;
                        }
                        r.extend_from_slice(&w[at..at + n]);
                        at += n;
                    }
                }
                r.extend_from_slice(&w[at..]);
                match habit {
                    Habit::Split => drop(w.split().freeze()),
                    Habit::Advance => w.advance(w.len()),
                    _ => w.clear(),
                }
                if habit == Habit::Limit {
                    drop(sut.read(&mut r, Some(1)));
                    r.clear();
                } else if ok {
                    if let ROut::Pkt(p) = sut.read(&mut r, None) {
                        if habit == Habit::Window {
                            window.push_back(p);
                            if window.len() > 5 {
                                window.pop_front();
                            }
                        }
                    }
                }
            }
            if i + 1 == early {
                at[0] = mem::now();
            }
        }
        at[1] = mem::now();
        at
    };
    let r = c.call(|| mem::measure(|| catch_unwind(AssertUnwindSafe(run))));
    let Ok((Ok([x, y]), _)) = r else { return };
    c.state(key(&[x.blocks as u64, y.blocks as u64, habit as u64]));
    if y.blocks > x.blocks + 64 || y.live > x.live + 4096 {
        c.fail(
            &format!("traffic/{}/{habit:?}", vkind(base)),
            format!(
                "{} bytes in {} blocks are allocated after {early} packets, {} bytes in {} blocks after {rounds}",
                x.live, x.blocks, y.live, y.blocks
            ),
        );
    }
    c.saw("steady");
}

// ------------------------------------------------------------------ C30: memory of encoding

fn over(c: &mut Ctx, sig: &str, a: &Abs, what: &str, m: mem::Mem, bound: u64) -> bool {
    if m.peak > bound || m.total > 4 * bound {
        c.fail(
            &format!("{sig}/{}", vkind(a)),
            format!("{what} allocates {} bytes at once, {} altogether (bound {bound} at once)", m.peak, m.total),
        );
        return true;
    }
    false
}
/// One packet value, into buffers with room and without, empty and full.
pub fn v_memory(c: &mut Ctx, a: &Abs) {
    v_memory_at(c, a, &[0, 100_000]);
}
pub fn v_memory_at(c: &mut Ctx, a: &Abs, prior: &[usize]) {
    let sut = c.sut;
    c.fresh();
    c.state(a.class());
    let n = 16 * weight(a) + 4096;
    let p = sut.build(a);
    let bad = unrepresentable(a).is_some();
    let run = |c: &mut Ctx, f: &mut dyn FnMut()| -> Option<mem::Mem> {
        let (r, m) = c.call(|| mem::measure(|| catch_unwind(AssertUnwindSafe(f)))).ok()?;
        r.ok()?;
        Some(m)
    };
    for &m in prior {
        for room in [true, false] {
            let mut b = BytesMut::with_capacity(m + if room { 2 * n as usize } else { 0 });
            b.resize(m, 0x55);
            // growing a buffer that is too small moves and at least doubles it
            let bound = n + if room { 0 } else { 4 * m as u64 };
            let Some(x) = run(c, &mut || _ = p.write(&mut b)) else { return };
            let what = format!("encode into a buffer that holds {m} bytes, room {room},");
            if over(c, "memory-encode", a, &what, x, bound) {
                return;
            }
        }
    }
    let mut b = BytesMut::new();
    let Some(x) = run(c, &mut || _ = p.write_kind(&mut b)) else { return };
    if over(c, "memory-kind", a, "kind-level encode", x, n) {
        return;
    }
    if !bad {
        let Some(x) = run(c, &mut || _ = p.size()) else { return };
        if over(c, "memory-size", a, "size", x, n) {
            return;
        }
    }
    let Some(x) = run(c, &mut || drop(p.dup())) else { return };
    if over(c, "memory-copy", a, "a copy", x, n) {
        return;
    }
    let q = p.dup();
    let Some(x) = run(c, &mut || _ = p.same(&*q)) else { return };
    if over(c, "memory-compare", a, "comparing", x, n) {
        return;
    }
    c.saw(if bad { "refused" } else { "encoded" });
}

// ------------------------------------------------------------------ C31: independence

/// Everything a packet says, as a number (its binary contents may share storage with the buffer).
fn deep(p: &dyn Pkt) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    p.abs().hash(&mut h);
    h.finish()
}

/// A decoded packet, whatever happens to the buffer it came from; what was read stays as it was.
pub fn f_apart(c: &mut Ctx, f: &[u8]) {
    if !matches!(header(f, None), Hdr::Frame { .. }) {
        return;
    }
    let sut = c.sut;
    c.fresh();
    // kind-level first: the caller may hold on to the bytes
    let own = BytesMut::from(f);
    let given = own.freeze();
    let kept = given.clone();
    {
        let _p = mem::Poison::on();
        let Ok(Some(r)) = c.call(|| sut.read_kind(given)) else { return apart(c, f, 0) };
        if kept[..] != *f {
            c.fail(&format!("input-changed/{}", fkind(f)), format!("the bytes given to a kind-level read became {}", hex(&kept)));
            return;
        }
        if let ROut::Pkt(p) = r {
            let first = deep(&*p);
            drop(kept);
            let z = junk(f.len());
            let then = deep(&*p);
            if first != then {
                c.fail(
                    &format!("kind-gone/{}", fkind(f)),
                    format!("a packet from a kind-level read changed when the caller dropped the bytes; now {}", p.abs().show()),
                );
                return;
            }
            drop(z);
        }
    }
    apart(c, f, 0);
}
/// Allocations that take the places of what was given back.
fn junk(n: usize) -> Vec<Vec<u8>> {
    [1, 2, 3, 4, 6, 8, 12, 16, 24, 32, 40, 48, 64, n, n + 1, n + 5, n + 16].iter().map(|n| vec![0xE7; *n]).collect()
}
pub fn apart(c: &mut Ctx, f: &[u8], state: usize) {
    let sut = c.sut;
    let _p = mem::Poison::on();
    let tail = [0xc0u8, 0, 0x77, 0x66, 0x55];
    let (mut b, keep) = buf(state, &[f, &tail].concat());
    let Ok(ROut::Pkt(p)) = c.call(|| sut.read(&mut b, None)) else { return };
    let first = deep(&*p);
    c.state(key(&[f.len() as u64, state as u64, f[0] as u64]));
    let same = |c: &mut Ctx, p: &dyn Pkt, when: &str| -> bool {
        let now = deep(p);
        if now != first {
            c.fail(&format!("changed/{}", fkind(f)), format!("a decoded packet changed when {when}; now {}", p.abs().show()));
            return false;
        }
        true
    };
    for x in b.iter_mut() {
        *x = 0x99;
    }
    if !same(c, &*p, "the rest of the buffer was overwritten") {
        return;
    }
    b.clear();
    b.extend_from_slice(&[0xEE; 37]);
    b.reserve(f.len() + 300);
    b.resize(f.len() + 300, 0xEA);
    if !same(c, &*p, "the buffer was used again") {
        return;
    }
    let q = p.dup();
    drop(b);
    drop(keep);
    let z = junk(f.len());
    if !same(c, &*p, "the buffer was dropped") || !same(c, &*q, "the buffer was dropped (copy)") {
        return;
    }
    drop(z);
    // a copy outlives the original, and the other way round
    let r = q.dup();
    drop(p);
    let z = junk(f.len());
    if !same(c, &*q, "the packet it was copied from was dropped") {
        return;
    }
    drop(q);
    if !same(c, &*r, "the copies were dropped") {
        return;
    }
    drop(z);
    // what was encoded outlives the packet, and writing does not change it
    let mut o = BytesMut::new();
    let Ok(Ok(_)) = c.call(|| r.write(&mut o)) else { return };
    let bytes = o.to_vec();
    if !same(c, &*r, "it was encoded") {
        return;
    }
    for x in o.iter_mut() {
        *x ^= 0xff;
    }
    if !same(c, &*r, "the bytes encoded from it were overwritten") {
        return;
    }
    drop(r);
    let z = junk(f.len());
    if o.iter().zip(&bytes).any(|(x, y)| *x ^ 0xff != *y) || o.len() != bytes.len() {
        c.fail(&format!("output-changed/{}", fkind(f)), "encoded bytes changed when the packet was dropped".into());
        return;
    }
    drop(z);
    c.saw("apart");
}

/// Several packets from one buffer that goes on being used; every one stays what it was.
pub fn together(c: &mut Ctx, lib: &[Vec<u8>], seq: &[usize], state: usize) {
    let sut = c.sut;
    c.fresh();
    let _p = mem::Poison::on();
    let (mut b, keep) = buf(state, &[]);
    let mut kept: Vec<(usize, Box<dyn Pkt>, u64)> = vec![];
    let mut sent: Vec<(Bytes, Vec<u8>)> = vec![];
    for (n, i) in seq.iter().enumerate() {
        c.state(key(&[n as u64, *i as u64, state as u64]));
        b.extend_from_slice(&lib[*i]);
        if n % 2 == 1 {
            // more of the stream is there already
            b.extend_from_slice(&lib[seq[0]][..1]);
        }
        let Ok(r) = c.call(|| sut.read(&mut b, None)) else { return };
        if let ROut::Pkt(p) = r {
            let d = deep(&*p);
            // and sent on by way of the same buffer
            let at = b.len();
            if let Ok(Ok(_)) = c.call(|| p.write(&mut b)) {
                let out = b.split_off(at).freeze();
                let v = out.to_vec();
                sent.push((out, v));
            }
            kept.push((*i, p, d));
        }
        b.clear();
        for (i, p, d) in &kept {
            let now = deep(&**p);
            if now != *d {
                c.fail(
                    &format!("changed-later/{}", fkind(&lib[*i])),
                    format!("a decoded packet changed when later packets went through the buffer; now {}", p.abs().show()),
                );
                return;
            }
        }
        for (o, v) in &sent {
            if o[..] != v[..] {
                c.fail("sent-changed", format!("encoded bytes changed later: they were {}, they are {}", hex(v), hex(o)));
                return;
            }
        }
    }
    drop(b);
    drop(keep);
    while kept.len() > 1 {
        kept.remove(0);
        let z = junk(16);
        for (i, p, d) in &kept {
            let now = deep(&**p);
            if now != *d {
                c.fail(
                    &format!("changed-after/{}", fkind(&lib[*i])),
                    format!("a decoded packet changed when another was dropped; now {}", p.abs().show()),
                );
                return;
            }
        }
        drop(z);
    }
    c.saw("together");
}
