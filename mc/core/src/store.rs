//! The same values in different kinds of memory: how the fields of a packet are stored when a packet is built.
use crate::abs::*;
use crate::engine::{fold, Ctx};
use crate::gen_val::kind_name;
use crate::model::unrepresentable;
use crate::oracle::first_diff;
use crate::parts::parts_of;
use crate::sut::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::HashSet;

/// Ways from `MIXED` on change from field to field.
pub const MIXED: u8 = 5;
pub const WAYS: u8 = 10;
pub fn way_name(w: u8) -> &'static str {
    [
        "plain",
        "with room to spare",
        "static",
        "part of something larger",
        "frozen",
        "mixed 0",
        "mixed 1",
        "mixed 2",
        "mixed 3",
        "mixed 4",
    ][w as usize]
}

thread_local! {
    static WAY: Cell<u8> = const { Cell::new(0) };
    static NTH: Cell<u8> = const { Cell::new(0) };
    static STATIC: RefCell<(HashSet<&'static [u8]>, usize)> = RefCell::new((HashSet::new(), 0));
}
/// Static data of a thread, at most.
const STATIC_MAX: usize = 48 << 20;

/// What is built in `f` is stored in this way.
pub fn stored<R>(way: u8, f: impl FnOnce() -> R) -> R {
    struct Back;
    impl Drop for Back {
        fn drop(&mut self) {
            WAY.set(0);
        }
    }
    WAY.set(way);
    NTH.set(0);
    let _b = Back;
    f()
}
#[inline]
fn way() -> u8 {
    let w = WAY.get();
    if w < MIXED {
        return w;
    }
    let n = NTH.get();
    NTH.set((n + 1) % 5);
    // in every phase other neighbours
    [(n + w) % 5, (2 * n + w) % 5, (3 * n + w) % 5, (4 * n + w) % 5, (n / 2 + w) % 5][(w - MIXED) as usize]
}
fn fixed(b: &[u8]) -> Option<&'static [u8]> {
    STATIC.with_borrow_mut(|(set, size)| {
        if let Some(s) = set.get(b) {
            return Some(*s);
        }
        if *size + b.len() > STATIC_MAX {
            return None;
        }
        *size += b.len() + 64;
        let s: &'static [u8] = Box::leak(b.to_vec().into_boxed_slice());
        set.insert(s);
        Some(s)
    })
}
fn plain_text(b: &B) -> &str {
    std::str::from_utf8(b).expect("harness: text")
}
fn string_in(w: u8, b: &B) -> String {
    let t = plain_text(b);
    match w {
        1 | 3 => {
            let mut s = String::with_capacity(t.len() * 2 + 77);
            s.push_str(t);
            s
        }
        4 => {
            let mut s = format!("{t}and what was here before");
            s.truncate(t.len());
            s
        }
        _ => t.to_string(),
    }
}
#[inline]
pub fn string(b: &B) -> String {
    string_in(way(), b)
}
#[inline]
pub fn cow(b: &B) -> Cow<'static, str> {
    let w = way();
    if w == 2 {
        if let Some(s) = fixed(b) {
            return Cow::Borrowed(std::str::from_utf8(s).expect("harness: text"));
        }
    }
    Cow::Owned(string_in(w, b))
}
#[inline]
pub fn boxed(b: &B) -> Box<str> {
    string(b).into()
}
#[inline]
pub fn bytes(b: &B) -> Bytes {
    match way() {
        0 => b.clone(),
        1 => {
            let mut v = Vec::with_capacity(b.len() * 2 + 77);
            v.extend_from_slice(b);
            v.into()
        }
        2 => fixed(b).map_or_else(|| Bytes::copy_from_slice(b), Bytes::from_static),
        3 => {
            let mut v = vec![0x5a; 7];
            v.extend_from_slice(b);
            v.extend_from_slice(b"behind it");
            Bytes::from(v).slice(7..7 + b.len())
        }
        _ => {
            let mut m = BytesMut::with_capacity(b.len() + 100);
            m.put_slice(&[0xc3; 9]);
            m.put_slice(b);
            m.advance(9);
            m.freeze()
        }
    }
}
/// A list, perhaps with room.
#[inline]
pub fn list<T>(mut v: Vec<T>) -> Vec<T> {
    let w = WAY.get();
    if w != 0 && w != 2 {
        v.reserve(v.len() + 17);
    }
    v
}
/// What kind of list is handed to a constructor.
pub fn list_as() -> u8 {
    WAY.get() % 4
}

// ------------------------------------------------------------------ C32


/// What a packet does.
#[derive(PartialEq, Eq)]
struct Does {
    write: Result<usize, Ev>,
    bytes: BytesMut,
    kind: Result<usize, Ev>,
    kind_bytes: BytesMut,
    size: Option<usize>,
}
fn does(c: &mut Ctx, p: &dyn Pkt, sized: bool) -> Option<Does> {
    let (mut bytes, mut kind_bytes) = (BytesMut::new(), BytesMut::new());
    let write = c.ok("encode", || p.write(&mut bytes))?;
    let kind = c.ok("kind encode", || p.write_kind(&mut kind_bytes))?;
    if kind.is_err() {
        // what is left there is nobody's business
        kind_bytes.clear();
    }
    let size = if sized { c.ok("size", || p.size())? } else { None };
    Some(Does { write, bytes, kind, kind_bytes, size })
}
fn differ(a: &Does, b: &Does) -> String {
    if a.write != b.write {
        format!("write gives {:?} instead of {:?}", b.write, a.write)
    } else if a.size != b.size {
        format!("size gives {:?} instead of {:?}", b.size, a.size)
    } else if a.bytes != b.bytes {
        format!("other bytes are written: {}", first_diff(&a.bytes, &b.bytes))
    } else if a.kind != b.kind {
        format!("the kind's write gives {:?} instead of {:?}", b.kind, a.kind)
    } else {
        format!("the kind's write writes other bytes: {}", first_diff(&a.kind_bytes, &b.kind_bytes))
    }
}
/// C32 for one packet value: stored in every uniform way
pub fn v_stored(c: &mut Ctx, a: &Abs) {
    ways(c, a, 1..MIXED);
}
/// C32: and mixed
pub fn v_stored_mixed(c: &mut Ctx, a: &Abs) {
    ways(c, a, 1..WAYS);
}
fn ways(c: &mut Ctx, a: &Abs, ways: std::ops::Range<u8>) {
    let sut = c.sut;
    let sized = unrepresentable(a).is_none();
    c.fresh();
    let p = sut.build(a);
    let value = p.abs();
    let Some(want) = does(c, &*p, sized) else { return };
    let kind = kind_name(a.typ());
    for w in ways {
        c.state(fold(a.class(), w as u64));
        let q = stored(w, || sut.build(a));
        let how = way_name(w);
        if q.abs() != value {
            c.fail("harness", format!("{how}: built as {}", q.abs().show()));
            return;
        }
        let Some(got) = does(c, &*q, sized) else { return };
        if got != want {
            c.fail(&format!("stored/{kind}"), format!("stored {how}: {}", differ(&want, &got)));
            return;
        }
        let Some(eq) = c.ok("eq", || (p.same(&*q), q.same(&*p), q.same(&*q))) else { return };
        if eq != (true, true, true) {
            c.fail(
                &format!("stored-equal/{kind}"),
                format!("stored {how}: equal to the same packet stored plainly: {}, the other way round: {}, to itself: {}", eq.0, eq.1, eq.2),
            );
            return;
        }
        let Some(d) = c.ok("clone", || q.dup()) else { return };
        drop(q);
        let Some(eq) = c.ok("eq", || d.same(&*p)) else { return };
        if d.abs() != value || !eq {
            c.fail(&format!("stored-copy/{kind}"), format!("a copy of what was stored {how} is {}", d.abs().show()));
            return;
        }
        let mut b = BytesMut::new();
        let Some(r) = c.ok("encode", || d.write(&mut b)) else { return };
        if r != want.write || b != want.bytes {
            c.fail(&format!("stored-copy/{kind}"), format!("a copy of what was stored {how} encodes differently"));
            return;
        }
        c.saw(if r.is_ok() { "the same" } else { "the same refusal" });
    }
}
/// C32: the parts of a packet
pub fn parts_stored(c: &mut Ctx, a: &Abs) {
    let sut = c.sut;
    c.fresh();
    for p in parts_of(a) {
        let mut plain = BytesMut::new();
        let Some(want) = c.ok("part encode", || sut.part_write(&p, &mut plain)) else { return };
        for w in 1..WAYS {
            let mut b = BytesMut::new();
            let Some(got) = c.ok("part encode", || stored(w, || sut.part_write(&p, &mut b))) else { return };
            if got != want || !matches!(want, Some(Err(_))) && b != plain {
                c.fail(
                    &format!("stored-part/{}", kind_name(a.typ())),
                    format!("{p:?} stored {}: {got:?} instead of {want:?}, {}", way_name(w), first_diff(&plain, &b)).chars().take(2000).collect(),
                );
                return;
            }
        }
        c.saw("the same part");
    }
}
/// C32: equality of what is stored in different ways
pub fn pairwise_stored(c: &mut Ctx, vals: &[Abs]) {
    let sut = c.sut;
    let built: Vec<Vec<Box<dyn Pkt>>> = (0..WAYS).map(|w| vals.iter().map(|a| stored(w, || sut.build(a))).collect()).collect();
    let vals: Vec<Abs> = built[0].iter().map(|p| p.abs()).collect();
    for (i, a) in vals.iter().enumerate() {
        for (j, b) in vals.iter().enumerate() {
            c.case(
                || format!("{} compared with {}", a.show(), b.show()),
                |c| {
                    let eq = a == b;
                    if !eq && a.norm() == b.norm() {
                        return;
                    }
                    c.fresh();
                    c.state(fold(a.class(), b.class()));
                    for v in 1..WAYS as usize {
                        for (x, y) in [(0, v), (v, 0), (v, v), (v, v % (WAYS as usize - 1) + 1)] {
                            let Some(s) = c.ok("eq", || built[x][i].same(&*built[y][j])) else { return };
                            if s != eq {
                                c.fail(
                                    &format!("stored-equality/{}", kind_name(a.typ())),
                                    format!(
                                        "stored {} and {}: said to be {}",
                                        way_name(x as u8),
                                        way_name(y as u8),
                                        if eq { "different" } else { "equal" }
                                    ),
                                );
                                return;
                            }
                        }
                    }
                    c.saw(if eq { "equal" } else { "different" });
                },
            );
        }
    }
}
/// C32: what a constructor makes of arguments stored in every way
pub fn ctor_stored(c: &mut Ctx, x: &Ctor, want: &Abs) {
    let sut = c.sut;
    c.fresh();
    let what = format!("{x:?}").split([' ', '{']).next().unwrap_or("").to_string();
    let base = sut.build(want);
    let Some(Does { write, bytes, .. }) = does(c, &*base, false) else { return };
    for w in 0..WAYS {
        c.state(fold(want.class(), w as u64));
        let Some(p) = c.ok("constructor", || stored(w, || sut.construct(x))) else { return };
        let mut b = BytesMut::new();
        let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
        if p.abs() != base.abs() || !p.same(&*base) || !base.same(&*p) || r != write || b != bytes {
            c.fail(&format!("stored-constructed/{what}"), format!("from arguments stored {}: {}", way_name(w), p.abs().show()));
            return;
        }
        c.saw("constructed the same");
    }
}
/// C32: what is decoded against the same values stored in every way
pub fn f_stored(c: &mut Ctx, f: &[u8]) {
    let sut = c.sut;
    c.fresh();
    let mut b = BytesMut::from(f);
    let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
    let ROut::Pkt(p) = r else {
        c.saw("no packet");
        return;
    };
    let value = p.abs();
    let kind = kind_name(value.typ());
    let sized = unrepresentable(&value).is_none();
    let Some(want) = does(c, &*p, sized) else { return };
    for w in 0..WAYS {
        c.state(fold(value.class(), w as u64));
        let q = stored(w, || sut.build(&value));
        if q.abs() != value {
            // the same properties in another order
            c.saw("not comparable");
            return;
        }
        let Some(got) = does(c, &*q, sized) else { return };
        if got != want {
            c.fail(&format!("decoded/{kind}"), format!("decoded, against stored {}: {}", way_name(w), differ(&want, &got)));
            return;
        }
        let Some(eq) = c.ok("eq", || (p.same(&*q), q.same(&*p))) else { return };
        if eq != (true, true) {
            c.fail(&format!("decoded-equal/{kind}"), format!("decoded and stored {} are different", way_name(w)));
            return;
        }
        c.saw("decoded is the same");
    }
}
