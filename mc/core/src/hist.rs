//! Histories: arrival schedules, sequences of decodes, encodes and failures, buffer states.
use crate::abs::*;
use crate::engine::*;
use crate::gen_val::*;
use crate::model::*;
use crate::oracle::*;
use crate::sut::*;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::any::Any;
use std::collections::VecDeque;

pub const BUF_STATES: usize = 10;

/// A buffer with this content, made in one of several ways; the second part must stay alive.
pub fn buf(state: usize, content: &[u8]) -> (BytesMut, Vec<Box<dyn Any>>) {
    let mut keep: Vec<Box<dyn Any>> = vec![];
    let b = match state {
        0 => BytesMut::from(content),
        1 => {
            // spare room behind
            let mut b = BytesMut::with_capacity(content.len() + 4096);
            b.extend_from_slice(content);
            b
        }
        2 => {
            // front already consumed
            let mut b = BytesMut::new();
            b.extend_from_slice(&[0x11; 7]);
            b.extend_from_slice(content);
            b.advance(7);
            b
        }
        3 => {
            // storage shared with an earlier part that is still alive and mutable
            let mut b = BytesMut::new();
            b.extend_from_slice(&[0x22; 9]);
            b.extend_from_slice(content);
            let front = b.split_to(9);
            keep.push(Box::new(front));
            b
        }
        4 => {
            // storage shared with an earlier part that was handed out
            let mut b = BytesMut::with_capacity(content.len() + 64);
            b.extend_from_slice(&[0x33; 5]);
            b.extend_from_slice(content);
            let front: Bytes = b.split_to(5).freeze();
            keep.push(Box::new(front));
            b
        }
        5 => {
            // storage continues in a part that belongs to somebody else
            let mut b = BytesMut::new();
            b.extend_from_slice(content);
            b.extend_from_slice(&[0x44; 50]);
            let back = b.split_off(content.len());
            keep.push(Box::new(back));
            b
        }
        6 => {
            // used before, cleared, refilled
            let mut b = BytesMut::with_capacity(content.len().max(16));
            b.resize(content.len().max(16), 0xff);
            b.clear();
            b.extend_from_slice(content);
            b
        }
        7 => {
            // split and joined again
            let mut b = BytesMut::from(content);
            let back = b.split_off(content.len() / 2);
            b.unsplit(back);
            b
        }
        8 => {
            // byte by byte
            let mut b = BytesMut::new();
            for x in content {
                b.put_u8(*x);
            }
            b
        }
        _ => {
            // parts joined that were not contiguous
            let mut b = BytesMut::from(&content[..content.len() / 2]);
            let mut o = BytesMut::with_capacity(3);
            o.extend_from_slice(&content[content.len() / 2..]);
            b.unsplit(o);
            b
        }
    };
    assert_eq!(&b[..], content, "harness: buffer");
    (b, keep)
}

/// Small frames, well-formed and malformed.
pub fn small_frames() -> Vec<Vec<u8>> {
    vec![
        vec![0xc0, 0],
        vec![0xd0, 0],
        vec![0xe0, 0],
        vec![0x40, 2, 0, 7],
        vec![0x50, 3, 0, 7, 0x10],
        vec![0x30, 4, 0, 1, b't', 0],
        vec![0x32, 7, 0, 1, b't', 0, 9, 0, 0xc0],
        vec![0xb0, 4, 0, 1, 0, 0x11],
        vec![0xa2, 5, 0, 1, 0, 0, 0],
        // malformed
        vec![0xf0, 0],
        vec![0x00, 1, 0],
        vec![0x20, 0],
        vec![0x40, 3, 0, 7, 0x55],
        vec![0x62, 1, 0],
        vec![0x20, 3, 0, 0, 0x80],
        vec![0x36, 3, 0, 0, 0],
    ]
}
/// Never a frame: the length does not end.
pub const BAD_HEADER: [u8; 5] = [0x30, 0xff, 0xff, 0xff, 0xff];

/// The frame library for histories: every kind small and full, and malformed frames of every kind.
pub fn frame_lib() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for k in KINDS {
        for a in [min(k), full(k)] {
            let e = encode(&a, Form::Shortest);
            if !v.contains(&e) {
                v.push(e);
            }
        }
    }
    let n = v.len();
    for i in 0..n {
        // cut short inside, and a wrong byte at the end or in the middle
        let f = v[i].clone();
        let Hdr::Frame { hl, rl } = header(&f, None) else { continue };
        if rl >= 2 {
            v.push(finish(f[0], &f[hl..hl + rl - 1]));
            if i % 2 == 0 {
                v.push(finish(f[0], &f[hl..hl + rl / 2]));
            }
            let mut g = f.clone();
            g[hl + rl / 2] ^= 0x85;
            v.push(g);
        }
    }
    v.push(vec![0xf0, 2, 1, 2]);
    v.push(vec![0x00, 0]);
    v.push(vec![0x20, 3, 0, 0, 0xff]);
    v
}

/// Packets for histories, representable and not.
pub fn packet_lib() -> Vec<Abs> {
    let mut v = vec![];
    for k in KINDS {
        for a in [min(k), full(k)] {
            if !v.contains(&a) {
                v.push(a);
            }
        }
    }
    v.push(Abs::Disconnect { code: 0x8b, props: None });
    v.push(Abs::Publish {
        dup: false,
        qos: 1,
        retain: false,
        topic: text(1, 200),
        pkid: 3,
        props: None,
        payload: bin(2, 100),
    });
    // not representable
    v.push(Abs::Publish {
        dup: false,
        qos: 1,
        retain: false,
        topic: text(1, 2),
        pkid: 0,
        props: None,
        payload: bin(2, 3),
    });
    v.push(Abs::ConnAck { sp: true, code: LEGACY_CODES[1], props: None });
    v.push(Abs::Subscribe {
        pkid: 2,
        props: Some(vec![(0x0b, PV::Vbi(VBI_MAX + 1))]),
        filters: vec![filt_n(2)],
    });
    v.push(Abs::Unsubscribe { pkid: 2, props: None, filters: vec![text(1, 2), text(2, 65536)] });
    v
}

/// Decodes a frame on its own.
pub fn alone(c: &mut Ctx, f: &[u8]) -> Option<Res> {
    let sut = c.sut;
    let mut b = BytesMut::from(f);
    let r = c.call(|| sut.read(&mut b, None)).ok()?;
    Some(res(&r))
}
/// The text form of a result (of decoding; of encoding the packet that the reference model reads from the frame).
pub fn fresh(sut: &dyn Sut, encode: bool, f: &[u8]) -> String {
    if !encode {
        let mut b = BytesMut::from(f);
        return format!("{:?}", res(&sut.read(&mut b, None)));
    }
    let Verdict::Accept(a) = decode(f, sut.utf8(), &mut NoTr) else { return String::new() };
    let p = sut.build(&a);
    let mut b = BytesMut::new();
    format!("{:?}", p.write(&mut b).map(|_| b.to_vec()).map_err(|_| ()))
}
/// The result of decoding this frame that does not depend on a history: what the reference model says if the code
/// agrees, else what a fresh process gives.
pub enum Free {
    Is(Res),
    /// in a fresh process it is something else than here
    Other(String, Res),
    Panics,
}
pub fn history_free(c: &mut Ctx, f: &[u8]) -> Free {
    let Some(r) = alone(c, f) else { return Free::Panics };
    let expected = match decode(f, c.sut.utf8(), &mut NoTr) {
        Verdict::Accept(a) => matches!(&r, Res::Pkt(x) if x.norm() == a.norm()),
        Verdict::Reject(_) => matches!(r, Res::Err(_)),
        Verdict::Unspec(..) => true,
    };
    if expected {
        return Free::Is(r);
    }
    match c.in_fresh_process(c.cfg, false, f) {
        Some(x) if x != format!("{r:?}") => Free::Other(x, r),
        Some(_) => Free::Is(r),
        None => Free::Panics,
    }
}
pub fn encode_alone(c: &mut Ctx, a: &Abs) -> Option<Result<Vec<u8>, ()>> {
    let p = c.sut.build(a);
    let mut b = BytesMut::new();
    let r = c.call(|| p.write(&mut b)).ok()?;
    Some(r.map(|_| b.to_vec()).map_err(|_| ()))
}

/// Feeds `stream` cut at `cuts` (ascending, within the stream); after every arrival reads until more is needed.
/// The reads must come out as `want`.
pub fn chunked(c: &mut Ctx, stream: &[u8], cuts: &[usize], cap: usize, want: &[Res]) {
    let sut = c.sut;
    let mut b = BytesMut::with_capacity(cap);
    let mut got = 0usize;
    let mut from = 0;
    let mut kept: Vec<(usize, Box<dyn Pkt>)> = vec![];
    for to in cuts.iter().copied().chain([stream.len()]) {
        b.extend_from_slice(&stream[from..to]);
        from = to;
        loop {
            c.state(key(&[stream.len() as u64, to as u64, b.len() as u64]));
            let before = b.len();
            let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
            let rs = res(&r);
            match rs {
                Res::Need(n) => {
                    match header(&stream[to - before..to], None) {
                        Hdr::Need { missing, exact } if n >= 1 && n <= missing && (!exact || n == missing) => {}
                        h => {
                            c.fail(
                                "chunk-need",
                                format!("after {to} of {} bytes ({before} unread, {h:?}): asks for {n} more", stream.len()),
                            );
                            return;
                        }
                    }
                    if b.len() != before || b[..] != stream[to - before..to] {
                        c.fail("chunk-need-changed", format!("asking for more changed the stream from {before} to {} bytes", b.len()));
                        return;
                    }
                    break;
                }
                rs => {
                    if got >= want.len() || rs != want[got] {
                        let w = want.get(got).map(show).unwrap_or("nothing".into());
                        c.fail(
                            "chunk-result",
                            format!("cuts {cuts:?}: result {got} is {}, uncut it is {w}", show(&rs)),
                        );
                        return;
                    }
                    if let ROut::Pkt(p) = r {
                        kept.push((got, p));
                    }
                    got += 1;
                    if b.len() == before {
                        // the stream is stuck at a malformed length
                        if got == want.len() {
                            return;
                        }
                        c.fail("chunk-stuck", "a decode result without progress".into());
                        return;
                    }
                }
            }
        }
    }
    if got != want.len() {
        c.fail("chunk-missing", format!("cuts {cuts:?}: only {got} of {} results", want.len()));
    }
    drop(b);
    for (i, p) in kept {
        if Res::Pkt(p.abs()) != want[i] {
            c.fail("chunk-retained", format!("packet {i} changed while later data arrived"));
        }
    }
    c.saw("same results");
}

/// A reader that fetches exactly as many bytes as it is asked for.
pub fn hinted(c: &mut Ctx, stream: &[u8], start: usize, want: &[Res]) {
    let sut = c.sut;
    let mut b = BytesMut::new();
    b.extend_from_slice(&stream[..start]);
    let mut at = start;
    let mut got = 0;
    let mut asks = 0;
    while got < want.len() {
        let before = b.len();
        let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
        c.state(key(&[stream.len() as u64, at as u64, b.len() as u64]));
        match res(&r) {
            Res::Need(n) => {
                asks += 1;
                if asks > 8 * (want.len() + 1) {
                    c.fail("hint-livelock", format!("asked {asks} times for more bytes"));
                    return;
                }
                if n == 0 || at + n > stream.len() {
                    c.fail(
                        "hint-amount",
                        format!("at byte {at} of {} asks for {n} bytes: waits for data that never comes", stream.len()),
                    );
                    return;
                }
                b.extend_from_slice(&stream[at..at + n]);
                at += n;
            }
            rs => {
                if rs != want[got] {
                    c.fail("hint-result", format!("result {got} is {}, uncut it is {}", show(&rs), show(&want[got])));
                    return;
                }
                got += 1;
                if b.len() == before {
                    return;
                }
            }
        }
    }
    c.saw("same results");
}

/// All sets of at most `n` cut positions out of `pos`.
pub fn cut_sets(pos: &[usize], n: usize, f: &mut dyn FnMut(&[usize])) {
    fn go(pos: &[usize], n: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if n == 0 {
            return;
        }
        for i in 0..pos.len() {
            cur.push(pos[i]);
            go(&pos[i + 1..], n - 1, cur, f);
            cur.pop();
        }
    }
    go(pos, n, &mut vec![], f);
}

/// Reads the frames `seq` one after the other out of one buffer; every result must be the one the frame gives alone,
/// and packets must stay what they were.
pub fn sequence(c: &mut Ctx, lib: &[Vec<u8>], want: &[Res], seq: &[usize], state: usize, retained: bool) {
    let sut = c.sut;
    let mut s = vec![];
    for i in seq {
        s.extend_from_slice(&lib[*i]);
    }
    let (mut b, keep) = buf(state, &s);
    let mut at = 0;
    let mut kept: Vec<(usize, Box<dyn Pkt>)> = vec![];
    c.fresh();
    for (n, i) in seq.iter().enumerate() {
        c.state(key(&[state as u64, *i as u64, n as u64]));
        let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
        at += lib[*i].len();
        let rs = res(&r);
        if rs != want[*i] {
            c.fail(
                &format!("result/{}", fkind(&lib[*i])),
                format!("frame {n} of the stream gives {}, alone it gives {}", show(&rs), show(&want[*i])),
            );
            return;
        }
        if b[..] != s[at..] {
            c.fail(
                &format!("position/{}", fkind(&lib[*i])),
                format!("after frame {n} there remain {} bytes, should be {}", b.len(), s.len() - at),
            );
            return;
        }
        if let ROut::Pkt(p) = r {
            kept.push((*i, p));
        }
    }
    if retained {
        let check = |c: &mut Ctx, kept: &[(usize, Box<dyn Pkt>)], when: &str| {
            for (i, p) in kept {
                if Res::Pkt(p.abs()) != want[*i] {
                    c.fail(&format!("retained/{}", fkind(&lib[*i])), format!("a decoded packet changed {when}"));
                    return;
                }
            }
        };
        check(c, &kept, "when later frames were read");
        // reuse the buffer
        b.clear();
        b.extend_from_slice(&[0xEE; 333]);
        b.reserve(5000);
        for x in b.iter_mut() {
            *x = 0x99;
        }
        check(c, &kept, "when the buffer was reused");
        drop(b);
        drop(keep);
        check(c, &kept, "when the buffer was dropped");
        if kept.len() > 1 {
            kept.remove(0);
            check(c, &kept, "when another packet was dropped");
        }
    }
    c.saw("as alone");
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Op {
    Write(usize),
    Read,
    /// read one packet and write it back into the same buffer
    Forward,
}

/// One queue: encodes append, decodes take from the front.
pub fn fifo(c: &mut Ctx, lib: &[Abs], enc: &[Result<Vec<u8>, ()>], ops: &[Op], state: usize) {
    let sut = c.sut;
    let (mut b, _keep) = buf(state, &[]);
    let mut q: VecDeque<usize> = VecDeque::new();
    let mut kept: Vec<(usize, Box<dyn Pkt>)> = vec![];
    c.fresh();
    for (n, op) in ops.iter().enumerate() {
        c.state(key(&[
            q.iter().fold(17, |a, x| fold(a, *x as u64)),
            match op {
                Op::Write(i) => *i as u64,
                Op::Read => 1000,
                Op::Forward => 1001,
            },
        ]));
        match op {
            Op::Write(i) => {
                let p = sut.build(&lib[*i]);
                let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
                match (&enc[*i], r) {
                    (Ok(e), Ok(k)) => {
                        if k != e.len() {
                            c.fail("fifo-count", format!("step {n}: encode reports {k} bytes, alone it is {}", e.len()));
                            return;
                        }
                        q.push_back(*i);
                    }
                    (Err(()), Err(_)) => {}
                    (w, r) => {
                        c.fail(
                            "fifo-result",
                            format!("step {n}: encode gives {}, alone {}", r.is_ok(), w.is_ok()),
                        );
                        return;
                    }
                }
            }
            Op::Read | Op::Forward => {
                let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
                match (q.pop_front(), r) {
                    (None, ROut::Need(_)) => {}
                    (Some(i), ROut::Pkt(p)) => {
                        if p.abs().norm() != lib[i].norm() {
                            c.fail(
                                "fifo-order",
                                format!("step {n}: read {}, expected {}", p.abs().show(), lib[i].show()),
                            );
                            return;
                        }
                        if *op == Op::Forward {
                            let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
                            if r.is_err() {
                                c.fail("fifo-forward", format!("step {n}: forwarding failed"));
                                return;
                            }
                            q.push_back(i);
                        }
                        kept.push((i, p));
                    }
                    (w, r) => {
                        let r = show(&res(&r));
                        c.fail("fifo-read", format!("step {n}: read gives {r}, queue front is {w:?}"));
                        return;
                    }
                }
            }
        }
        let mut want: Vec<u8> = vec![];
        for i in &q {
            want.extend_from_slice(enc[*i].as_ref().unwrap());
        }
        if b[..] != want[..] {
            c.fail("fifo-bytes", format!("after step {n} the buffer is wrong: {}", first_diff(&want, &b)));
            return;
        }
    }
    drop(b);
    for (i, p) in &kept {
        if p.abs().norm() != lib[*i].norm() {
            c.fail("fifo-retained", "a decoded packet changed later".into());
            return;
        }
    }
    c.saw("queue");
}

/// All operation sequences of exactly this length (prefixes are judged on the way).
pub fn op_seqs(ops: &[Op], len: usize, part: (usize, usize), f: &mut dyn FnMut(&[Op])) {
    let n = ops.len();
    let total = n.pow(len as u32);
    for x in 0..total {
        if x % part.1 != part.0 {
            continue;
        }
        let mut v = Vec::with_capacity(len);
        let mut y = x;
        for _ in 0..len {
            v.push(ops[y % n]);
            y /= n;
        }
        v.reverse();
        f(&v);
    }
}

/// Calls in a row, each on its own fresh buffer or on one common output buffer: every result must be the usual one.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Call {
    Decode(usize),
    /// decode a truncated frame
    Partial(usize),
    Encode(usize),
    Size(usize),
    Limit(usize),
}
pub fn calls(
    c: &mut Ctx,
    frames: &[Vec<u8>],
    want: &[Res],
    lib: &[Abs],
    enc: &[Result<Vec<u8>, ()>],
    seq: &[Call],
) {
    let sut = c.sut;
    c.fresh();
    for (n, k) in seq.iter().enumerate() {
        c.state(key(&[n as u64, match k {
            Call::Decode(i) => *i as u64,
            Call::Partial(i) => 1000 + *i as u64,
            Call::Encode(i) => 2000 + *i as u64,
            Call::Size(i) => 3000 + *i as u64,
            Call::Limit(i) => 4000 + *i as u64,
        }]));
        match k {
            Call::Decode(i) => {
                let mut b = BytesMut::from(&frames[*i][..]);
                let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
                let rs = res(&r);
                if rs != want[*i] {
                    c.fail(
                        &format!("history-decode/{}", fkind(&frames[*i])),
                        format!("call {n} decodes {} instead of {}", show(&rs), show(&want[*i])),
                    );
                    return;
                }
            }
            Call::Partial(i) => {
                let f = &frames[*i];
                let mut b = BytesMut::from(&f[..f.len() - 1]);
                let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
                if !matches!(r, ROut::Need(1)) {
                    c.fail("history-partial", format!("call {n}: {}", show(&res(&r))));
                    return;
                }
            }
            Call::Limit(i) => {
                let f = &frames[*i];
                let Hdr::Frame { rl, .. } = header(f, None) else { continue };
                if rl == 0 {
                    continue;
                }
                let mut b = BytesMut::from(&f[..]);
                let Some(r) = c.ok("decode", || sut.read(&mut b, Some(rl - 1))) else { return };
                if res(&r) != Res::Big(rl, rl - 1) {
                    c.fail("history-limit", format!("call {n}: {}", show(&res(&r))));
                    return;
                }
            }
            Call::Encode(i) => {
                let p = sut.build(&lib[*i]);
                let mut b = BytesMut::new();
                let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
                let same = match (&r, &enc[*i]) {
                    (Ok(k), Ok(e)) => *k == e.len() && b[..] == e[..],
                    (Err(_), Err(())) => true,
                    _ => false,
                };
                if !same {
                    c.fail("history-encode", format!("call {n}: encoding {} gives another result", lib[*i].show()));
                    return;
                }
            }
            Call::Size(i) => {
                let p = sut.build(&lib[*i]);
                if let (Ok(e), Some(Some(s))) = (&enc[*i], c.ok("size", || p.size())) {
                    if s != e.len() {
                        c.fail("history-size", format!("call {n}: size is {s}, encoded {}", e.len()));
                        return;
                    }
                }
            }
        }
    }
    c.saw("usual results");
}

/// One stream read with a changing size limit.
pub fn limits(c: &mut Ctx, lib: &[Vec<u8>], want: &[Res], seq: &[usize], lims: &[usize]) {
    let sut = c.sut;
    let mut s = vec![];
    for i in seq {
        s.extend_from_slice(&lib[*i]);
    }
    let mut b = BytesMut::from(&s[..]);
    let mut q: VecDeque<usize> = seq.iter().copied().collect();
    c.fresh();
    for (n, l) in lims.iter().enumerate() {
        let rl = q.front().map_or(0, |i| match header(&lib[*i], None) {
            Hdr::Frame { rl, .. } => rl,
            _ => 0,
        });
        let lim = match l {
            0 => None,
            1 => Some(0),
            2 => Some(rl.saturating_sub(1)),
            3 => Some(rl),
            4 => Some(rl + 1),
            _ => Some(usize::MAX),
        };
        c.state(key(&[q.len() as u64, *l as u64, rl as u64]));
        let before = b.len();
        let Some(r) = c.ok("decode", || sut.read(&mut b, lim)) else { return };
        let rs = res(&r);
        let (exp, eaten) = match q.front() {
            None => (None, 0),
            Some(_) if lim.is_some_and(|m| rl > m) => (Some(Res::Big(rl, lim.unwrap())), 0),
            Some(i) => (Some(want[*i].clone()), lib[*i].len()),
        };
        match &exp {
            None if matches!(rs, Res::Need(_)) => {}
            Some(e) if *e == rs => {}
            e => {
                c.fail(
                    "limit-history",
                    format!("read {n} with limit {lim:?}: {}, expected {:?}", show(&rs), e.as_ref().map(show)),
                );
                return;
            }
        }
        if b.len() != before - eaten || b[..] != s[s.len() - b.len()..] {
            c.fail("limit-consume", format!("read {n} with limit {lim:?} took {} bytes, expected {eaten}", before - b.len()));
            return;
        }
        if eaten > 0 {
            q.pop_front();
        }
    }
    c.saw("limits");
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    /// the number returned is the number of bytes appended, and what size() says
    Count,
    /// what is appended is what the packet gives alone, behind an unchanged content
    Bytes,
    /// a refused encode leaves everything as it was
    Refusal,
}
/// Contents of a buffer worth telling apart, by their length.
pub fn priors(fine: bool, huge: bool) -> Vec<usize> {
    let mut v: Vec<usize> = if fine { (0..=300).collect() } else { vec![0, 1, 2, 3, 5, 14] };
    for p in [128usize, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131_072] {
        v.extend(if fine { vec![p - 2, p - 1, p, p + 1, p + 2] } else { vec![p - 1, p, p + 1] });
    }
    v.extend([1000, 10_000, 70_000]);
    if huge {
        v.extend([1 << 20, 2_097_151, 2_097_152, 2_097_153, (1 << 24) - 1, 1 << 24, (1 << 24) + 1]);
    }
    v.sort_unstable();
    v.dedup();
    v
}
/// One packet into buffers that hold so many bytes and have so much room.
pub fn placed(c: &mut Ctx, a: &Abs, places: &mut dyn Iterator<Item = (usize, usize)>, what: Aspect) {
    let sut = c.sut;
    c.fresh();
    let p = sut.build(a);
    let mut alone = BytesMut::new();
    let Ok(r0) = c.call(|| p.write(&mut alone)) else { return };
    if what == Aspect::Refusal && r0.is_ok() {
        return;
    }
    let size = if what == Aspect::Count && r0.is_ok() { c.call(|| p.size()).ok().flatten() } else { None };
    let mut kindwise = false;
    for (prior, room) in places {
        kindwise = !kindwise && what == Aspect::Count;
        c.state(key(&[a.typ() as u64, prior as u64, room as u64]));
        let mut b = BytesMut::with_capacity(prior + room);
        b.resize(prior, 0x5a);
        // a mark at both ends of what is there
        for i in 0..prior.min(8) {
            b[i] = 0xa0 + i as u8;
            b[prior - 1 - i] = 0xb0 + i as u8;
        }
        let head = b[..prior.min(8)].to_vec();
        let tail = b[prior - prior.min(8)..].to_vec();
        let Ok(r) = c.call(|| if kindwise { p.write_kind(&mut b) } else { p.write(&mut b) }) else { return };
        let at = format!("behind {prior} bytes, with room for {room}");
        let whole = b.len() >= prior
            && b[..prior.min(8)] == head[..]
            && b[prior - prior.min(8)..prior] == tail[..]
            && b[..prior].iter().skip(8).take(prior.saturating_sub(16)).all(|x| *x == 0x5a);
        match what {
            Aspect::Count => {
                let Ok(n) = r else { return };
                if b.len().checked_sub(prior) != Some(n) || size.is_some_and(|s| s != n) {
                    c.fail(
                        &format!("count-at/{}", kind_name(a.typ())),
                        format!("{at}: encode reports {n}, size() {size:?}, the buffer went from {prior} to {} bytes", b.len()),
                    );
                    return;
                }
            }
            Aspect::Bytes => {
                if r.is_ok() != r0.is_ok() {
                    c.fail(&format!("result-at/{}", kind_name(a.typ())), format!("{at}: encode gives {r:?}, alone {r0:?}"));
                    return;
                }
                if !whole {
                    c.fail(&format!("damage-at/{}", kind_name(a.typ())), format!("{at}: what was there has changed"));
                    return;
                }
                if r.is_ok() && b[prior..] != alone[..] {
                    c.fail(
                        &format!("bytes-at/{}", kind_name(a.typ())),
                        format!("{at}: other bytes than alone: {}", first_diff(&alone, &b[prior..])),
                    );
                    return;
                }
            }
            Aspect::Refusal => {
                if r.is_ok() || b.len() != prior || !whole {
                    c.fail(
                        &format!("refusal-at/{}", kind_name(a.typ())),
                        format!("{at}: encode gives {r:?} (alone {r0:?}), the buffer went from {prior} to {} bytes", b.len()),
                    );
                    return;
                }
            }
        }
    }
    c.saw("placed");
}

/// A frame with ever more behind it: the same result, exactly the frame consumed, with and without a limit.
pub fn followed_by(c: &mut Ctx, f: &[u8], sizes: &[usize], next: &[u8], limits: bool) {
    let Hdr::Frame { hl, rl } = header(f, None) else { return };
    if hl + rl != f.len() {
        return;
    }
    let sut = c.sut;
    c.fresh();
    let mut b = BytesMut::from(f);
    let Ok(r0) = c.call(|| sut.read(&mut b, None)) else { return };
    let r0 = res(&r0);
    let big = sizes.iter().copied().max().unwrap_or(0);
    let mut s = f.to_vec();
    s.extend(next.iter().copied().cycle().take(big));
    for n in sizes {
        let s = &s[..f.len() + n];
        c.state(key(&[f[0] as u64, f.len() as u64, *n as u64, limits as u64]));
        let lims = if limits { vec![Some(rl), Some(rl + 1), Some(rl.wrapping_sub(1)), Some(usize::MAX)] } else { vec![None] };
        for l in lims {
            if l == Some(usize::MAX) && rl == 0 {
                continue;
            }
            let mut b = BytesMut::from(s);
            let Ok(r) = c.call(|| sut.read(&mut b, l)) else { return };
            let r = res(&r);
            let (want, left) = match header(s, l) {
                Hdr::TooBig { rl, max } => (Res::Big(rl, max), s),
                _ => (r0.clone(), &s[f.len()..]),
            };
            if r != want {
                c.fail(
                    &format!("result-before/{}", fkind(f)),
                    format!("with {n} bytes behind it (limit {l:?}) the frame gives {}, should be {}", show(&r), show(&want)),
                );
                return;
            }
            if b[..] != *left {
                c.fail(
                    &format!("position-before/{}", fkind(f)),
                    format!("with {n} bytes behind the frame (limit {l:?}) {} bytes remain, should be {}", b.len(), left.len()),
                );
                return;
            }
        }
    }
    c.saw("followed");
}

/// The same frame out of buffers with more and more room behind it.
pub fn roomy(c: &mut Ctx, f: &[u8], want: &Res) {
    let sut = c.sut;
    c.fresh();
    for e in 0..=24u32 {
        for n in [(1usize << e) - 1, 1 << e, (1 << e) + 1, 3 << e >> 1, 10usize.pow(e / 4)] {
            c.state(key(&[f[0] as u64, f.len() as u64, n as u64]));
            for front in [0, 5] {
                let mut b = BytesMut::with_capacity(f.len() + n + front);
                b.extend_from_slice(&[0xee; 5][..front]);
                b.extend_from_slice(f);
                b.advance(front);
                for lim in [None, Some(usize::MAX)] {
                    let mut b = b.clone();
                    if lim.is_none() {
                        b = BytesMut::with_capacity(f.len() + n);
                        b.extend_from_slice(f);
                    }
                    let Some(r) = c.ok("decode", || sut.read(&mut b, lim)) else { return };
                    let r = res(&r);
                    if r != *want {
                        c.fail(&format!("roomy/{}", fkind(f)), format!("from a buffer with room for {n} more bytes: {}, should be {}", show(&r), show(want)));
                        return;
                    }
                }
                let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
                if res(&r) != *want {
                    c.fail(&format!("roomy/{}", fkind(f)), format!("from a buffer with room for {n} more bytes and {front} before it: {}, should be {}", show(&res(&r)), show(want)));
                    return;
                }
            }
        }
    }
    c.saw("roomy");
}
