//! What is judged on a single value or frame.
use crate::abs::*;
use crate::engine::*;
use crate::mem;
use crate::model::*;
use crate::sut::*;
use bytes::{Bytes, BytesMut};

/// Result of a decode, comparable.
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Res {
    Pkt(Abs),
    Need(usize),
    Big(usize, usize),
    Err(Ev),
}

pub fn res(r: &ROut) -> Res {
    match r {
        ROut::Pkt(p) => Res::Pkt(p.abs()),
        ROut::Need(n) => Res::Need(*n),
        ROut::Big { pkt, max } => Res::Big(*pkt, *max),
        ROut::Err(e) => Res::Err(*e),
    }
}
pub fn show(r: &Res) -> String {
    match r {
        Res::Pkt(a) => format!("packet {}", a.show()),
        Res::Need(n) => format!("need {n} more bytes"),
        Res::Big(p, m) => format!("size limit exceeded ({p} > {m})"),
        Res::Err(_) => "error".to_string(),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len().min(400) * 2 + 30);
    for x in b.iter().take(400) {
        s.push_str(&format!("{x:02x}"));
    }
    if b.len() > 400 {
        s.push_str(&format!("...({} bytes)", b.len()));
    }
    s
}
pub fn frame_desc(f: &[u8]) -> String {
    format!("frame {}", hex(f))
}
pub fn val_desc(a: &Abs) -> String {
    format!("value {}", a.show())
}

/// A packet this value stands for can be encoded and MQTT 5 allows it.
pub fn good(a: &Abs) -> bool {
    a.lists_ok() && unrepresentable(a).is_none()
}

pub fn first_diff(a: &[u8], b: &[u8]) -> String {
    let n = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    format!(
        "first difference at byte {n}: {} vs {}",
        hex(&a[n..a.len().min(n + 24)]),
        hex(&b[n..b.len().min(n + 24)])
    )
}

/// Two packets mean the same.
pub fn equal(c: &mut Ctx, sig: &str, what: &str, want: &Abs, got: &Abs) -> bool {
    if want == got {
        return true;
    }
    let (w, g) = (want.norm(), got.norm());
    if w == g {
        return true;
    }
    c.fail(sig, format!("{what}: expected {} got {}", w.show(), g.show()));
    false
}

fn kind(a: &Abs) -> &'static str {
    crate::gen_val::kind_name(a.typ())
}
pub fn fkind(f: &[u8]) -> &'static str {
    match f.first().map(|b| b >> 4) {
        Some(t @ 1..=14) => crate::gen_val::kind_name(t),
        _ => "unknown type",
    }
}

/// Encodes into an empty buffer. `None`: a failure was recorded.
pub fn encode_ok(c: &mut Ctx, p: &dyn Pkt, a: &Abs) -> Option<BytesMut> {
    let mut b = BytesMut::new();
    match c.ok("encode", || p.write(&mut b))? {
        Ok(_) => Some(b),
        Err(_) => {
            c.fail(&format!("encode-error/{}", kind(a)), "encoding a representable packet failed".into());
            None
        }
    }
}

// ------------------------------------------------------------------ values

/// C01
pub fn v_roundtrip(c: &mut Ctx, a: &Abs) {
    if !good(a) {
        return;
    }
    c.fresh();
    c.state(a.class());
    let sut = c.sut;
    let p = sut.build(a);
    let Some(mut b) = encode_ok(c, &*p, a) else { return };
    let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
    match &r {
        ROut::Pkt(q) => {
            if !b.is_empty() {
                c.fail(&format!("leftover/{}", kind(a)), format!("{} bytes left behind: {}", b.len(), hex(&b)));
                return;
            }
            let got = q.abs();
            if !equal(c, &format!("differs/{}", kind(a)), "decoded packet differs", a, &got) {
                return;
            }
            // in normal form the crate's own equality must agree
            if *a == a.norm() && got == *a && !p.same(&**q) {
                c.fail(&format!("not-equal/{}", kind(a)), "decoded packet does not compare equal to the original".into());
            }
            c.saw("round trip");
        }
        o => c.fail(
            &format!("decode-failed/{}", kind(a)),
            format!("decoding the encoder's output gave: {}", show(&res(o))),
        ),
    }
}

/// C02
pub fn v_wellformed(c: &mut Ctx, a: &Abs) {
    if !good(a) {
        return;
    }
    let sut = c.sut;
    let p = sut.build(a);
    let Some(b) = encode_ok(c, &*p, a) else { return };
    judge_bytes(c, a, &b);
}
/// these bytes are exactly one well-formed packet denoting `a`
pub fn judge_bytes(c: &mut Ctx, a: &Abs, b: &[u8]) {
    match header(b, None) {
        Hdr::Frame { hl, rl } if hl + rl == b.len() => {}
        h => {
            c.fail(
                &format!("not-one-frame/{}", kind(a)),
                format!("{} bytes emitted, header says {h:?}: {}", b.len(), hex(b)),
            );
            return;
        }
    }
    c.fresh();
    match decode(b, c.sut.utf8(), &mut c.tr) {
        Verdict::Accept(got) => {
            if equal(c, &format!("denotes-other/{}", kind(a)), "emitted bytes denote another packet", a, &got) {
                c.saw("well-formed");
            }
        }
        v => c.fail(&format!("ill-formed/{}", kind(a)), format!("emitted bytes are not well-formed: {v:?}: {}", hex(b))),
    }
}

/// C08
pub fn v_size(c: &mut Ctx, a: &Abs) {
    if unrepresentable(a).is_some() {
        return;
    }
    c.fresh();
    c.state(a.class());
    let sut = c.sut;
    let p = sut.build(a);
    let Some(size) = c.ok("size", || p.size()) else { return };
    for kindwise in [false, true] {
        let mut b = BytesMut::new();
        let Some(r) = c.ok("encode", || if kindwise { p.write_kind(&mut b) } else { p.write(&mut b) }) else {
            return;
        };
        match r {
            Ok(n) => {
                if n != b.len() {
                    c.fail(
                        &format!("count/{}", kind(a)),
                        format!("write returned {n} but appended {} bytes", b.len()),
                    );
                }
                if size.is_some_and(|s| s != b.len()) {
                    c.fail(
                        &format!("size/{}", kind(a)),
                        format!("size() said {} but {} bytes were written", size.unwrap(), b.len()),
                    );
                }
                c.saw(if size.is_some() { "sized" } else { "counted" });
            }
            Err(_) if !a.lists_ok() => {}
            Err(_) => c.fail(
                &format!("encode-error/{}", kind(a)),
                "encoding a representable packet failed".into(),
            ),
        }
    }
}

/// C10 for one value and some prior buffer contents
pub fn v_fail(c: &mut Ctx, a: &Abs) {
    let why = unrepresentable(a);
    c.fresh();
    c.state(fold(a.class(), why.is_some() as u64));
    let sut = c.sut;
    let p = sut.build(a);
    for prior in [&[][..], &[0xc0, 0x00, 0x77]] {
        let mut b = BytesMut::new();
        b.extend_from_slice(prior);
        let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
        match (&r, why) {
            (Ok(_), Some(w)) if a.lists_ok() => {
                c.fail(&format!("accepted/{}", kind(a)), format!("encode succeeded although: {w}"));
            }
            (Err(_), None) if a.lists_ok() => {
                c.fail(&format!("refused/{}", kind(a)), "encode failed for a representable packet".into());
            }
            (Err(_), _) => {
                if b != prior {
                    c.fail(
                        &format!("partial/{}", kind(a)),
                        format!(
                            "failed encode changed the buffer from {} to {} ({} bytes)",
                            hex(prior),
                            hex(&b[..b.len().min(40)]),
                            b.len()
                        ),
                    );
                }
                c.saw("refused");
            }
            (Ok(_), _) => c.saw("encoded"),
        }
        if c.failing() {
            return;
        }
    }
}

/// C04, encoding side
pub fn v_nopanic(c: &mut Ctx, a: &Abs) {
    c.fresh();
    c.state(a.class());
    let sut = c.sut;
    let p = sut.build(a);
    for prior in [0usize, 3] {
        let mut b = BytesMut::new();
        b.resize(prior, 0xaa);
        let r = c.ok("encode", || p.write(&mut b));
        c.saw(if matches!(r, Some(Ok(_))) { "encoded" } else { "refused" });
        let mut b = BytesMut::new();
        b.resize(prior, 0xaa);
        c.ok("kind encode", || p.write_kind(&mut b));
    }
    if unrepresentable(a).is_none() {
        c.ok("size", || p.size());
    }
}

/// C09 for one value: appending to several prior contents
pub fn v_append(c: &mut Ctx, a: &Abs) {
    if unrepresentable(a).is_some() {
        return;
    }
    c.fresh();
    c.state(a.class());
    let sut = c.sut;
    let p = sut.build(a);
    let mut alone = BytesMut::new();
    let Some(Ok(_)) = c.ok("encode", || p.write(&mut alone)) else { return };
    for prior in [1usize, 2, 9, 14, 300] {
        let pre: Vec<u8> = (0..prior).map(|i| (i * 31 + 0x55) as u8).collect();
        let mut b = BytesMut::from(&pre[..]);
        let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
        if r.is_err() {
            c.fail(&format!("fails-behind/{}", kind(a)), format!("encode fails behind {prior} bytes, not alone"));
            return;
        }
        if b.len() < prior || b[..prior] != pre[..] {
            c.fail(
                &format!("damage/{}", kind(a)),
                format!("the {prior} bytes before were changed: {}", first_diff(&pre, &b[..prior.min(b.len())])),
            );
            return;
        }
        if b[prior..] != alone[..] {
            c.fail(
                &format!("other-bytes/{}", kind(a)),
                format!("bytes differ behind {prior} bytes: {}", first_diff(&alone, &b[prior..])),
            );
            return;
        }
        c.saw("appended");
    }
}

/// C13 for a value: all configurations emit the same
pub fn v_configs(c: &mut Ctx, a: &Abs) {
    c.fresh();
    c.state(a.class());
    let suts = c.suts;
    let mut first: Option<(Result<usize, Ev>, BytesMut, Option<usize>)> = None;
    for s in suts {
        let p = s.build(a);
        let mut b = BytesMut::new();
        let Ok(r) = c.call(|| p.write(&mut b)) else {
            c.saw("panic");
            return;
        };
        let size = if unrepresentable(a).is_none() { c.call(|| p.size()).ok().flatten() } else { None };
        match &first {
            None => first = Some((r, b, size)),
            Some((r0, b0, s0)) => {
                if r != *r0 {
                    c.fail(
                        &format!("encode-result/{}", kind(a)),
                        format!("{} gives {r:?}, default gives {r0:?}", s.name()),
                    );
                } else if r.is_ok() && b != *b0 {
                    c.fail(
                        &format!("encode-bytes/{}", kind(a)),
                        format!("{} emits other bytes than default: {}", s.name(), first_diff(&b, b0)),
                    );
                } else if size != *s0 {
                    c.fail(
                        &format!("size/{}", kind(a)),
                        format!("{} reports size {size:?}, default {s0:?}", s.name()),
                    );
                }
            }
        }
    }
    c.saw("agree");
}

// ------------------------------------------------------------------ frames

pub fn read_alone(c: &mut Ctx, f: &[u8]) -> Option<(ROut, BytesMut)> {
    let sut = c.sut;
    let mut b = BytesMut::from(f);
    let r = c.ok("decode", || sut.read(&mut b, None))?;
    Some((r, b))
}

fn is_frame(f: &[u8]) -> bool {
    matches!(header(f, None), Hdr::Frame { hl, rl } if hl + rl == f.len())
}

/// C03: well-formed frames decode to what they say
pub fn f_accept(c: &mut Ctx, f: &[u8]) {
    if !is_frame(f) {
        return;
    }
    let utf8 = c.sut.utf8();
    c.fresh();
    let v = decode(f, utf8, &mut c.tr);
    let Verdict::Accept(want) = v else {
        c.saw("not well-formed (not judged here)");
        return;
    };
    accept(c, f, &want);
}
pub fn accept(c: &mut Ctx, f: &[u8], want: &Abs) {
    let Some((r, rest)) = read_alone(c, f) else { return };
    match &r {
        ROut::Pkt(p) => {
            let got = p.abs();
            equal(c, &format!("wrong-value/{}", fkind(f)), "decoded value", want, &got);
            if !rest.is_empty() {
                c.fail(&format!("leftover/{}", fkind(f)), format!("{} bytes left behind", rest.len()));
            }
            c.saw("accepted");
        }
        o => {
            let sut = c.sut;
            let e = c.call(|| sut.read_error(f, None)).unwrap_or_default();
            c.fail(
                &format!("rejected/{}", fkind(f)),
                format!("well-formed frame for {} refused: {} {e}", want.show(), show(&res(o))),
            );
        }
    }
}
/// C03: the kind's own reader agrees
pub fn f_accept_kind(c: &mut Ctx, f: &[u8]) {
    if !is_frame(f) {
        return;
    }
    let sut = c.sut;
    let Verdict::Accept(want) = decode(f, sut.utf8(), &mut NoTr) else { return };
    let fr = Bytes::copy_from_slice(f);
    if let Some(Some(r)) = c.ok("kind decode", || sut.read_kind(fr)) {
        match &r {
            ROut::Pkt(p) => {
                let got = p.abs();
                equal(c, &format!("wrong-value-kind/{}", fkind(f)), "value decoded by the kind's own read", &want, &got);
            }
            o => c.fail(
                &format!("rejected-kind/{}", fkind(f)),
                format!("well-formed frame refused by the kind's own read: {}", show(&res(o))),
            ),
        }
    }
}

/// A deviation that may be tolerated must not change what the rest says.
fn tolerated(c: &mut Ctx, f: &[u8], why: &'static str, want: Option<Abs>) {
    let Some((r, _)) = read_alone(c, f) else { return };
    match (&r, want) {
        (ROut::Pkt(p), Some(want)) => {
            let got = p.abs();
            if equal(c, &format!("tolerated-value/{}", fkind(f)), why, &want, &got) {
                c.saw("tolerated deviation, value as written");
            }
        }
        (ROut::Pkt(_), None) => c.saw("tolerated deviation (value open)"),
        (o, _) => {
            if matches!(o, ROut::Need(_) | ROut::Big { .. }) {
                let o = show(&res(o));
                c.fail(&format!("tolerated-result/{}", fkind(f)), format!("complete frame ({why}): {o}"));
            }
            c.saw("tolerated deviation, refused")
        }
    }
}

/// A well-formed frame whose remaining length is written longer than necessary (forbidden to senders): the header is
/// refused as such, or it means what it says, in every respect.
pub fn f_stretched(c: &mut Ctx, f: &[u8]) {
    let Hdr::Frame { hl, rl } = header(f, None) else { return };
    let sut = c.sut;
    let Verdict::Accept(want) = decode(f, sut.utf8(), &mut NoTr) else { return };
    c.fresh();
    for pad in 1..=(5 - hl) {
        let mut s = f[..hl - 1].to_vec();
        s.push(f[hl - 1] | 0x80);
        s.extend(std::iter::repeat_n(0x80, pad - 1));
        s.push(0);
        let shl = s.len();
        s.extend_from_slice(&f[hl..]);
        let whole = s.len();
        s.extend_from_slice(&[0xc0, 0, 0x30]);
        for n in 0..=s.len() {
            for lim in [None, Some(rl), Some(rl + 1), rl.checked_sub(1)] {
                let h = header(&s[..n], lim);
                c.state(key(&[n.min(whole + 1) as u64, pad as u64, rl as u64, lim.map_or(0, |l| (l + 3 - rl) as u64)]));
                let mut b = BytesMut::from(&s[..n]);
                let Some(r) = c.ok("decode", || sut.read(&mut b, lim)) else { return };
                let Some(k) = c.ok("check", || sut.check(&s[..n], lim)) else { return };
                let r = res(&r);
                if n >= 2 && matches!(r, Res::Err(_)) && b[..] == s[..n] && !matches!(k, COut::Need(_) | COut::Frame { .. }) {
                    c.saw("length refused");
                    continue;
                }
                let (ok, left) = match h {
                    Hdr::Need { missing, exact } => (
                        matches!(r, Res::Need(m) if m >= 1 && m <= missing && (!exact || m == missing))
                            && matches!(k, COut::Need(m) if m >= 1 && m <= missing && (!exact || m == missing)),
                        0,
                    ),
                    Hdr::TooBig { rl, max } => (r == Res::Big(rl, max) && k == COut::Big { pkt: rl, max }, 0),
                    Hdr::Frame { .. } => (
                        matches!(&r, Res::Pkt(a) if a.norm() == want.norm())
                            && matches!(k, COut::Frame { total, .. } if total == whole),
                        whole,
                    ),
                    Hdr::Malformed => (false, 0),
                };
                if !ok || b[..] != s[left..n] {
                    c.fail(
                        &format!("stretched-length/{}", fkind(f)),
                        format!(
                            "{} ({n} bytes, limit {lim:?}, header {shl} bytes): read gives {}, check {k:?}, {} bytes left",
                            hex(&s[..n]),
                            show(&r),
                            b.len()
                        ),
                    );
                    return;
                }
                c.saw("length as written");
            }
        }
    }
}

/// C11: malformed frames are refused
pub fn f_reject(c: &mut Ctx, f: &[u8]) {
    if !is_frame(f) {
        return;
    }
    let utf8 = c.sut.utf8();
    c.fresh();
    match decode(f, utf8, &mut c.tr) {
        Verdict::Reject(why) => {
            let Some((r, _)) = read_alone(c, f) else { return };
            if let ROut::Pkt(p) = &r {
                let got = p.abs();
                c.fail(
                    &format!("accepted/{}/{why}", fkind(f)),
                    format!("malformed frame ({why}) was decoded into {}", got.show()),
                );
            }
            c.saw("refused");
        }
        Verdict::Accept(_) => c.saw("well-formed (not judged here)"),
        Verdict::Unspec(why, want) => tolerated(c, f, why, want),
    }
}

/// C12, C16, C19, C20, C21, C22, C23: both directions of the verdict
pub fn f_both(c: &mut Ctx, f: &[u8]) {
    if !is_frame(f) {
        return;
    }
    let utf8 = c.sut.utf8();
    c.fresh();
    match decode(f, utf8, &mut c.tr) {
        Verdict::Reject(why) => {
            let Some((r, _)) = read_alone(c, f) else { return };
            if let ROut::Pkt(p) = &r {
                let got = p.abs();
                c.fail(
                    &format!("accepted/{}/{why}", fkind(f)),
                    format!("malformed frame ({why}) was decoded into {}", got.show()),
                );
            }
            c.saw("refused");
        }
        Verdict::Accept(want) => accept(c, f, &want),
        Verdict::Unspec(why, want) => tolerated(c, f, why, want),
    }
}

/// C04, decoding side
pub fn f_nopanic(c: &mut Ctx, f: &[u8]) {
    let sut = c.sut;
    c.fresh();
    c.state(key(&[f.first().copied().unwrap_or(0) as u64, f.len() as u64]));
    let mut b = BytesMut::from(f);
    if let Some(r) = c.ok("decode", || sut.read(&mut b, None)) {
        c.saw(match &r {
            ROut::Pkt(_) => "packet",
            ROut::Need(_) => "need more",
            ROut::Big { .. } => "too big",
            ROut::Err(_) => "error",
        });
    }
    c.ok("check", || sut.check(f, None));
    let fr = Bytes::copy_from_slice(f);
    c.ok("kind decode", || sut.read_kind(fr));
}

/// C05 for one frame and several tails
pub fn f_consume(c: &mut Ctx, f: &[u8]) {
    let h = header(f, None);
    let sut = c.sut;
    c.fresh();
    c.state(key(&[f.first().copied().unwrap_or(0) as u64, f.len() as u64]));
    const TAILS: [&[u8]; 5] = [&[], &[0xc0], &[0xff; 6], &[0x40, 2, 0, 7], &[0; 40]];
    for tail in TAILS {
        let mut s = f.to_vec();
        s.extend_from_slice(tail);
        let mut b = BytesMut::from(&s[..]);
        let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
        let h = match h {
            Hdr::Frame { .. } => h,
            _ => header(&s, None),
        };
        match h {
            Hdr::Frame { hl, rl } => {
                if b[..] != s[hl + rl..] {
                    let r = show(&res(&r));
                    c.fail(
                        &format!("consumed/{}", fkind(f)),
                        format!(
                            "frame of {} bytes followed by {} bytes: {} bytes remain afterwards (decode result: {r})",
                            hl + rl,
                            s.len() - hl - rl,
                            b.len()
                        ),
                    );
                    return;
                }
                c.saw(if matches!(r, ROut::Pkt(_)) { "packet, frame consumed" } else { "error, frame consumed" });
            }
            _ => {
                if b[..] != s[..] {
                    c.fail(
                        &format!("consumed-incomplete/{}", fkind(f)),
                        format!("no complete frame, yet the stream went from {} to {} bytes", s.len(), b.len()),
                    );
                    return;
                }
                if matches!(r, ROut::Pkt(_)) {
                    c.fail(&format!("packet-from-nothing/{}", fkind(f)), "a packet without a complete frame".into());
                }
                c.saw("stream untouched");
            }
        }
    }
}

/// C06 for one frame: every prefix, and the complete frame with and without a tail
pub fn f_need(c: &mut Ctx, f: &[u8]) {
    if !is_frame(f) {
        return;
    }
    let sut = c.sut;
    c.fresh();
    for n in 0..=f.len() + 1 {
        let mut s = f[..n.min(f.len())].to_vec();
        if n > f.len() {
            s.extend_from_slice(&[0x30, 0xff]);
        }
        need_case(c, sut, &s);
        if c.failing() {
            return;
        }
    }
}
/// one stream content: need-more exactly while incomplete
pub fn need_case(c: &mut Ctx, sut: &dyn Sut, s: &[u8]) {
    let h = header(s, None);
    c.state(key(&[
        s.len() as u64,
        match h {
            Hdr::Need { missing, exact } => 10 + 2 * missing as u64 + exact as u64,
            Hdr::Malformed => 1,
            Hdr::TooBig { .. } => 2,
            Hdr::Frame { hl, .. } => 3 + hl as u64,
        },
    ]));
    let mut b = BytesMut::from(s);
    let Some(r) = c.ok("decode", || sut.read(&mut b, None)) else { return };
    let Some(k) = c.ok("check", || sut.check(s, None)) else { return };
    match h {
        Hdr::Need { missing, exact } => {
            match r {
                ROut::Need(n) if n >= 1 && n <= missing && (!exact || n == missing) => {}
                o => {
                    let o = show(&res(&o));
                    c.fail("incomplete", format!("stream {} misses {missing} (exactly: {exact}): got {o}", hex(s)));
                    return;
                }
            }
            match k {
                COut::Need(n) if n >= 1 && n <= missing && (!exact || n == missing) => {}
                o => {
                    c.fail("incomplete-check", format!("stream {} misses {missing}: check gave {o:?}", hex(s)));
                    return;
                }
            }
            if b[..] != s[..] {
                c.fail("stream-changed", "an incomplete stream was modified".into());
            }
            c.saw("need more");
        }
        Hdr::Frame { hl, rl } => {
            if let ROut::Need(n) = r {
                c.fail(
                    &format!("need-on-complete/{}", fkind(s)),
                    format!("the frame {} is complete but {n} more bytes are asked for", hex(s)),
                );
                return;
            }
            match k {
                COut::Frame { total, .. } if total == hl + rl => {}
                o => {
                    c.fail("complete-check", format!("complete frame of {} bytes: check gave {o:?}", hl + rl));
                }
            }
            c.saw("complete");
        }
        Hdr::Malformed => {
            if matches!(r, ROut::Need(_)) || matches!(k, COut::Need(_)) {
                c.fail("need-on-malformed", format!("malformed length in {} answered with need-more", hex(s)));
            }
            c.saw("malformed");
        }
        Hdr::TooBig { .. } => {}
    }
}

/// C18
pub fn f_mem(c: &mut Ctx, s: &[u8]) {
    let sut = c.sut;
    c.fresh();
    c.state(key(&[s.first().copied().unwrap_or(0) as u64, s.len() as u64]));
    // the stream as a receive buffer: its own storage exists before the call
    let mut b = BytesMut::from(s);
    let r = c.call(|| {
        mem::measure(|| std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut.read(&mut b, None))))
    });
    let Ok((r, m)) = r else { return };
    let bound = 64 * s.len() as u64 + 4096;
    if m.peak > bound {
        c.fail(
            &format!("memory/{}", fkind(s)),
            format!("decoding {} bytes allocated {} bytes at once (bound {bound})", s.len(), m.peak),
        );
    }
    if m.total > 4 * bound {
        c.fail(
            &format!("memory-total/{}", fkind(s)),
            format!("decoding {} bytes allocated {} bytes altogether", s.len(), m.total),
        );
    }
    c.saw(match r {
        Ok(ROut::Pkt(_)) => "packet",
        Ok(ROut::Need(_)) => "need more",
        Ok(_) => "error",
        Err(_) => "panic",
    });
}

/// C14
pub fn f_stable(c: &mut Ctx, f: &[u8]) {
    if !matches!(header(f, None), Hdr::Frame { .. }) {
        return;
    }
    let Some((r, _)) = read_alone(c, f) else { return };
    let ROut::Pkt(p) = &r else {
        c.saw("refused");
        return;
    };
    let sut = c.sut;
    let a = p.abs();
    c.fresh();
    c.state(a.class());
    let mut b = BytesMut::new();
    match c.ok("encode", || p.write(&mut b)) {
        None => return,
        Some(Err(_)) => {
            c.fail(&format!("not-encodable/{}", fkind(f)), format!("decoded packet {} cannot be encoded", a.show()));
            return;
        }
        Some(Ok(_)) => {}
    }
    let bytes = b.clone();
    let Some(r2) = c.ok("decode", || sut.read(&mut b, None)) else { return };
    match &r2 {
        ROut::Pkt(q) => {
            let got = q.abs();
            if !equal(c, &format!("altered/{}", fkind(f)), "after one more encode and decode", &a, &got) {
                return;
            }
            if !p.same(&**q) {
                c.fail(&format!("not-equal/{}", fkind(f)), format!("after one more encode and decode {} does not compare equal", a.show()));
                return;
            }
            if !b.is_empty() {
                c.fail(&format!("leftover/{}", fkind(f)), format!("re-encoded form leaves {} bytes", b.len()));
            }
        }
        o => c.fail(
            &format!("redecode/{}", fkind(f)),
            format!("re-encoded form {} of {} gives {}", hex(&bytes), a.show(), show(&res(o))),
        ),
    }
    c.saw("stable");
}

/// C13 for a frame: all configurations agree
pub fn f_configs(c: &mut Ctx, f: &[u8]) {
    let suts = c.suts;
    c.fresh();
    c.state(key(&[f.first().copied().unwrap_or(0) as u64, f.len() as u64]));
    // does the frame hold text that is not UTF-8 (or may it)? then the binary build may differ
    let ascii = f.iter().all(|b| *b < 0x80);
    let mut first: Option<(Res, BytesMut)> = None;
    for s in suts {
        let mut b = BytesMut::from(f);
        let Ok(r) = c.call(|| s.read(&mut b, None)) else {
            c.saw("panic");
            return;
        };
        let mut r = res(&r);
        if let Res::Err(e) = &mut r {
            // which error it is may depend on what is looked at first
            *e = Ev(0);
        }
        if let Res::Pkt(a) = &r {
            r = Res::Pkt(a.norm());
        }
        match &first {
            None => first = Some((r, b)),
            Some((r0, b0)) => {
                // the binary build may accept what the others refuse for ill-formed UTF-8
                let lenient = !s.utf8()
                    && !ascii
                    && *r0 == Res::Err(Ev(0))
                    && match &r {
                        Res::Pkt(a) => !a.texts_ok() || utf8_matters(f),
                        _ => false,
                    };
                if r != *r0 && !lenient {
                    c.fail(
                        &format!("decode/{}", fkind(f)),
                        format!("{} gives {}, default gives {}", s.name(), show(&r), show(r0)),
                    );
                    return;
                }
                if b != *b0 {
                    c.fail(
                        &format!("consume/{}", fkind(f)),
                        format!("{} leaves {} bytes, default leaves {}", s.name(), b.len(), b0.len()),
                    );
                    return;
                }
            }
        }
    }
    c.saw("agree");
}
fn utf8_matters(f: &[u8]) -> bool {
    match header(f, None) {
        Hdr::Frame { hl, rl } => {
            decode(&f[..hl + rl], false, &mut NoTr) != decode(&f[..hl + rl], true, &mut NoTr)
        }
        _ => false,
    }
}
