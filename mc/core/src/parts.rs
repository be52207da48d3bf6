//! The readers and writers of packet kinds and of parts of packets; equality; what errors say.
use crate::abs::*;
use crate::engine::*;
use crate::gen_frame::*;
use crate::gen_val::*;
use crate::model::*;
use crate::oracle::*;
use crate::sut::*;
use bytes::{Bytes, BytesMut};

pub fn part_name(w: Which) -> String {
    match w {
        Which::Props(s) => format!("{s:?} properties"),
        Which::Will(f) => format!("will, flags {f:#04x}"),
        Which::Login(f) => format!("login, flags {f:#04x}"),
        Which::Filters => "filters".into(),
    }
}
fn sig_name(w: Which) -> String {
    match w {
        Which::Props(s) => format!("{s:?}Properties"),
        Which::Will(_) => "LastWill".into(),
        Which::Login(_) => "Login".into(),
        Which::Filters => "Filter".into(),
    }
}

/// The parts of a packet that have readers or writers of their own.
pub fn parts_of(a: &Abs) -> Vec<Part> {
    let mut v = vec![];
    let mut a2 = a.clone();
    if let (Some(s), Some(p)) = (sec_of(a.typ()), props_mut(&mut a2)) {
        v.push(Part::Props(s, p.clone()));
    }
    match a {
        Abs::Connect { will, login, .. } => {
            v.push(Part::Will(will.clone()));
            if let Some(w) = will {
                v.push(Part::Props(Sec::Will, w.props.clone()));
            }
            v.push(Part::Login(login.clone()));
        }
        Abs::Subscribe { filters, .. } => v.push(Part::Filters(filters.clone())),
        _ => {}
    }
    v
}
/// a packet that is representable exactly if the part is
pub fn host(p: &Part) -> Abs {
    let mut a = match p {
        Part::Props(s, _) => min(match s {
            Sec::Connect | Sec::Will => 1,
            Sec::ConnAck => 2,
            Sec::Publish => 3,
            Sec::PubAck => 4,
            Sec::PubRec => 5,
            Sec::PubRel => 6,
            Sec::PubComp => 7,
            Sec::Subscribe => 8,
            Sec::SubAck => 9,
            Sec::Unsubscribe => 10,
            Sec::UnsubAck => 11,
            Sec::Disconnect => 14,
        }),
        Part::Filters(_) => min(8),
        _ => min(1),
    };
    match (p, &mut a) {
        (Part::Props(Sec::Will, p), Abs::Connect { will, .. }) => {
            *will = Some(Will { qos: 0, retain: false, topic: B::new(), message: B::new(), props: p.clone() })
        }
        (Part::Will(w), Abs::Connect { will, .. }) => *will = w.clone(),
        (Part::Login(l), Abs::Connect { login, .. }) => *login = l.clone(),
        (Part::Filters(f), Abs::Subscribe { filters, .. }) => *filters = f.clone(),
        (Part::Props(_, p), a) => *props_mut(a).unwrap() = p.clone(),
        _ => unreachable!("harness: part"),
    }
    a
}

/// C24: a part written by its own writer, and read back by its own reader
pub fn part_both(c: &mut Ctx, p: &Part) {
    let sut = c.sut;
    let which = p.which();
    let name = sig_name(which);
    let bad = unrepresentable(&host(p));
    c.fresh();
    for prior in [&[][..], &[0x10, 0x7f, 0xff]] {
        let mut b = BytesMut::from(prior);
        let Some(r) = c.ok("part encode", || sut.part_write(p, &mut b)) else { return };
        let Some(r) = r else { break };
        match (&r, bad) {
            (Ok(_), Some(w)) => {
                c.fail(&format!("part-accepted/{name}"), format!("the part's write succeeds although: {w}"));
                return;
            }
            (Err(_), None) => {
                c.fail(&format!("part-refused/{name}"), "the part's write refuses a representable part".into());
                return;
            }
            (Err(_), Some(_)) => {
                c.saw("part refused");
                continue;
            }
            (Ok(fl), None) => {
                if b.len() < prior.len() || b[..prior.len()] != *prior {
                    c.fail(&format!("part-damage/{name}"), "the part's write changes what is before it".into());
                    return;
                }
                let w = &b[prior.len()..];
                let v = decode_part(which, w, sut.utf8(), &mut c.tr);
                if !matches!(&v, PartVerdict::Is(q, n) if *n == w.len() && q.norm() == p.norm()) {
                    c.fail(
                        &format!("part-bytes/{name}"),
                        format!("{p:?} is written as {} which is {v:?}", hex(w)).chars().take(3000).collect(),
                    );
                    return;
                }
                if let Which::Will(f) | Which::Login(f) = which {
                    if f != *fl {
                        c.fail(&format!("part-flags/{name}"), format!("{p:?}: flags {fl:#04x} instead of {f:#04x}"));
                        return;
                    }
                }
                c.saw("part written");
            }
        }
    }
    if bad.is_none() && *p != Part::Filters(vec![]) {
        let mut b = p.bytes();
        part_read(c, which, &b);
        if which != Which::Filters {
            b.extend_from_slice(&[0, 1, 0x26, 0xff]);
            part_read(c, which, &b);
        }
    }
}
/// C24: what a part's own reader makes of some bytes
pub fn part_read(c: &mut Ctx, which: Which, bytes: &[u8]) {
    let sut = c.sut;
    let name = sig_name(which);
    c.fresh();
    let v = decode_part(which, bytes, sut.utf8(), &mut c.tr);
    let mut b = Bytes::copy_from_slice(bytes);
    let Some(r) = c.ok("part decode", || sut.part_read(which, &mut b)) else { return };
    let mut is = |p: &Part, n: usize, r: &Part| {
        if p.norm() != r.norm() {
            c.fail(
                &format!("part-value/{name}"),
                format!("{} from {}: expected {p:?} got {r:?}", part_name(which), hex(bytes)).chars().take(3000).collect(),
            );
        } else if b[..] != bytes[n..] {
            c.fail(
                &format!("part-length/{name}"),
                format!("{} from {}: {n} of {} bytes belong to it, {} are left", part_name(which), hex(bytes), bytes.len(), b.len()),
            );
        } else {
            c.saw("part read");
        }
    };
    match (v, r) {
        (PartVerdict::Is(Part::Filters(f), _), _) if f.is_empty() => {}
        (PartVerdict::Is(p, n), Ok(r)) | (PartVerdict::Unspec(Some((p, n))), Ok(r)) => is(&p, n, &r),
        (PartVerdict::Is(p, _), Err(_)) => {
            c.fail(&format!("part-not-read/{name}"), format!("{} refused: {} is {p:?}", part_name(which), hex(bytes)))
        }
        (PartVerdict::Reject(why), Ok(r)) => c.fail(
            &format!("part-malformed/{name}/{why}"),
            format!("{} from malformed {} ({why}): {r:?}", part_name(which), hex(bytes)),
        ),
        (PartVerdict::Reject(_), Err(_)) => c.saw("malformed part refused"),
        (PartVerdict::Unspec(_), _) => c.saw("tolerated deviation"),
    }
}
/// C24: the packet kind's own writer
pub fn v_kind(c: &mut Ctx, a: &Abs) {
    let sut = c.sut;
    let p = sut.build(a);
    c.fresh();
    c.state(a.class());
    let mut alone = BytesMut::new();
    let Some(r0) = c.ok("encode", || p.write(&mut alone)) else { return };
    for prior in [&[][..], &[0x30, 0x04, 0x00]] {
        let mut b = BytesMut::from(prior);
        let Some(r) = c.ok("kind encode", || p.write_kind(&mut b)) else { return };
        match (r0, r) {
            (Ok(n0), Ok(n)) => {
                if b.len() < prior.len() || b[..prior.len()] != *prior || b[prior.len()..] != alone[..] {
                    c.fail(
                        &format!("kind-bytes/{}", kind_name(a.typ())),
                        format!("own write gives {} (behind {} bytes), Packet::write {}", hex(&b), prior.len(), hex(&alone)),
                    );
                    return;
                }
                if n != n0 {
                    c.fail(
                        &format!("kind-count/{}", kind_name(a.typ())),
                        format!("own write returns {n}, Packet::write {n0}"),
                    );
                    return;
                }
                c.saw("same bytes");
            }
            (Err(_), Err(_)) => c.saw("both refuse"),
            (r0, r) => {
                c.fail(
                    &format!("kind-result/{}", kind_name(a.typ())),
                    format!("own write gives {r:?}, Packet::write {r0:?}"),
                );
                return;
            }
        }
    }
}
/// C24: the packet kind's own reader, and what the header says
pub fn f_kind(c: &mut Ctx, f: &[u8]) {
    let Hdr::Frame { hl, rl } = header(f, None) else { return };
    if hl + rl != f.len() {
        return;
    }
    let sut = c.sut;
    c.fresh();
    c.state(key(&[f[0] as u64, f.len() as u64]));
    let Some((r0, _)) = read_alone(c, f) else { return };
    let Some(k) = c.ok("check", || sut.check(f, None)) else { return };
    match k {
        COut::Frame { total, typ } => {
            let t = f[0] >> 4;
            if total != f.len() || typ != (1..=14).contains(&t).then_some(t) {
                c.fail("header", format!("{}: header says {total} bytes, type {typ:?}", hex(f)));
                return;
            }
        }
        // a length that is not minimal may be refused, by both
        k if !matches!(r0, ROut::Pkt(_)) => {
            let _ = k;
            c.saw("refused by the header check");
            return;
        }
        k => {
            c.fail("header", format!("{} is decoded, yet check says {k:?}", hex(f)));
            return;
        }
    }
    let fr = Bytes::copy_from_slice(f);
    let Some(r) = c.ok("kind decode", || sut.read_kind(fr)) else { return };
    match (&r0, &r) {
        (_, None) => c.saw("no reader of its own"),
        (ROut::Pkt(p), Some(ROut::Pkt(q))) => {
            let (a, b) = (p.abs(), q.abs());
            if equal(c, &format!("kind-value/{}", fkind(f)), "own read instead of Packet::read", &a, &b) {
                c.saw("same value");
            }
        }
        (ROut::Pkt(_), Some(o)) | (o, Some(ROut::Pkt(_))) => {
            let o = show(&res(o));
            c.fail(&format!("kind-verdict/{}", fkind(f)), format!("{}: Packet::read and own read differ ({o})", hex(f)));
        }
        _ => c.saw("both refuse"),
    }
}

/// Parts as bytes to be damaged: (reader, bytes)
pub fn part_seeds() -> Vec<(Which, Vec<u8>)> {
    let mut v: Vec<(Which, Vec<u8>)> = vec![];
    let mut seen = std::collections::HashSet::new();
    for k in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14] {
        let mut vals = bases(k);
        tuples(k, 1, (0, 1), &mut |a| vals.push(a.clone()));
        for a in vals {
            for p in parts_of(&a) {
                let b = p.bytes();
                if b.len() <= 160 && unrepresentable(&host(&p)).is_none() && seen.insert((format!("{:?}", p.which()), b.clone())) {
                    v.push((p.which(), b));
                }
            }
        }
    }
    v
}
/// every byte substituted by every value, every truncation, deletion, insertion of a few values
pub fn damage(b: &[u8], f: &mut dyn FnMut(&[u8])) {
    f(b);
    let mut x = b.to_vec();
    for i in 0..b.len() {
        for n in 0..=255u8 {
            if n != b[i] {
                x[i] = n;
                f(&x);
            }
        }
        x[i] = b[i];
    }
    for n in 0..b.len() {
        f(&b[..n]);
        let mut x = b.to_vec();
        x.remove(n);
        f(&x);
    }
    for n in 0..=b.len() {
        for y in [0u8, 1, 2, 0x26, 0x7f, 0x80, 0xff] {
            let mut x = b.to_vec();
            x.insert(n, y);
            f(&x);
        }
    }
}
/// the part readers that a sequence of arbitrary bytes is given to
pub fn readers() -> Vec<Which> {
    let mut v: Vec<Which> = SECS.iter().map(|s| Which::Props(*s)).collect();
    v.extend([4u8, 0x0c, 0x36, 0x1c, 0, 0x38, 0xff].map(Which::Will));
    v.extend([0u8, 0x40, 0x80, 0xc0, 0x3f].map(Which::Login));
    v.push(Which::Filters);
    v
}
/// the property section and everything after it of a frame of `around(s)`
pub fn section_of(s: Sec, f: &[u8]) -> Option<Vec<u8>> {
    let Hdr::Frame { hl, .. } = header(f, None) else { return None };
    f.get(hl + around(s).pre.len()..).map(<[u8]>::to_vec)
}

// ------------------------------------------------------------------ equality and copies

/// C25: all pairs of one kind
pub fn pairwise(c: &mut Ctx, vals: &[Abs]) {
    let sut = c.sut;
    let built: Vec<_> = vals.iter().map(|a| sut.build(a)).collect();
    // properties in one order
    let vals: Vec<Abs> = built.iter().map(|p| p.abs()).collect();
    // the same packets as they come out of a decoder, where that works
    let read: Vec<Option<Box<dyn Pkt>>> = vals
        .iter()
        .map(|a| {
            let mut b = BytesMut::from(&encode(a, Form::Full)[..]);
            match c.call(|| sut.read(&mut b, None)) {
                Ok(ROut::Pkt(p)) if p.abs() == *a => Some(p),
                _ => None,
            }
        })
        .collect();
    for (i, a) in vals.iter().enumerate() {
        for (j, b) in vals.iter().enumerate() {
            c.case(
                || format!("{} compared with {}", a.show(), b.show()),
                |c| {
                    c.fresh();
                    c.state(fold(a.class(), b.class()));
                    let eq = a == b;
                    if !eq && a.norm() == b.norm() {
                        c.saw("open");
                        return;
                    }
                    let mut said = vec![("built", c.ok("eq", || built[i].same(&*built[j])))];
                    if let Some(q) = &read[j] {
                        said.push(("built and decoded", c.ok("eq", || built[i].same(&**q))));
                        said.push(("decoded and built", c.ok("eq", || q.same(&*built[i]))));
                        if let Some(p) = &read[i] {
                            said.push(("decoded", c.ok("eq", || p.same(&**q))));
                        }
                    }
                    for (w, s) in said {
                        if s.is_some_and(|s| s != eq) {
                            c.fail(
                                &format!("equality/{}", kind_name(a.typ())),
                                format!("{w}: said to be {}", if eq { "different" } else { "equal" }),
                            );
                            return;
                        }
                    }
                    c.saw(if eq { "equal" } else { "different" });
                },
            );
        }
    }
}
/// C25: a copy
pub fn v_copy(c: &mut Ctx, a: &Abs) {
    let sut = c.sut;
    c.fresh();
    c.state(a.class());
    let p = sut.build(a);
    let Some(q) = c.ok("clone", || p.dup()) else { return };
    if !p.same(&*q) || !q.same(&*p) || !p.same(&*p) {
        c.fail(&format!("copy-unequal/{}", kind_name(a.typ())), "a copy does not compare equal".into());
        return;
    }
    let mut e = (BytesMut::new(), BytesMut::new());
    let r = (c.call(|| p.write(&mut e.0)), c.call(|| q.write(&mut e.1)));
    drop(p);
    if q.abs().norm() != a.norm() {
        c.fail(&format!("copy-differs/{}", kind_name(a.typ())), format!("the copy is {}", q.abs().show()));
        return;
    }
    if let (Ok(r1), Ok(r2)) = r {
        if r1 != r2 || e.0 != e.1 {
            c.fail(&format!("copy-encodes/{}", kind_name(a.typ())), "original and copy encode differently".into());
            return;
        }
    }
    c.saw("copied");
}

// ------------------------------------------------------------------ what errors say

/// C26: a frame with one defect and what has to be said about it
pub fn said(c: &mut Ctx, f: &[u8], want: &[Said], what: &str) {
    let sut = c.sut;
    c.fresh();
    c.state(key(&[f[0] as u64, f.len() as u64, what.len() as u64, what.as_bytes()[0] as u64]));
    if !matches!(decode(f, sut.utf8(), &mut c.tr), Verdict::Reject(_)) {
        c.fail("harness", format!("{what}: the model accepts {}", hex(f)));
        return;
    }
    let Some(got) = c.ok("decode", || sut.error_of_read(f)) else { return };
    match got {
        Some(s) if want.contains(&s) => c.saw("named"),
        None => c.saw("accepted (judged by C11)"),
        s => {
            let t = c.call(|| sut.read_error(f, None)).unwrap_or_default();
            c.fail(&format!("said/{what}/{}", fkind(f)), format!("{} ({what}): {t} i.e. {s:?} instead of {want:?}", hex(f)));
        }
    }
}
pub type SSink<'a> = &'a mut dyn FnMut(&[u8], &[Said], &'static str);

pub fn defects(k: u8, utf8: bool, f: SSink) {
    let mut vals = bases(k);
    tuples(k, 1, (0, 1), &mut |a| vals.push(a.clone()));
    vals.retain(|a| good(a));
    for a in &vals {
        // coded fields of the packet
        for form in [Form::Shortest, Form::Reason, Form::Full] {
            let (b1, body) = body(a, form);
            let sub = |i: usize, n: u8| {
                let mut b = body.clone();
                b[i] = n;
                finish(b1, &b)
            };
            let at = match k {
                2 => 1..2usize,
                4..=7 => 2..body.len().min(3),
                14 => 0..body.len().min(1),
                9 | 11 => {
                    let (Abs::SubAck { codes, .. } | Abs::UnsubAck { codes, .. }) = a else { unreachable!() };
                    body.len() - codes.len()..body.len()
                }
                _ => 0..0,
            };
            for i in at {
                for n in 0..=255u8 {
                    if !codes(k).contains(&n) {
                        f(&sub(i, n), &[Said::Code(n)], "undefined reason code");
                    }
                }
            }
            if form != Form::Full {
                continue;
            }
            match a {
                Abs::Publish { qos, .. } if *qos > 0 => {
                    f(&finish(b1 | 6, &body), &[Said::QoS(3)], "QoS 3");
                    let t = 2 + u16::from_be_bytes([body[0], body[1]]) as usize;
                    let mut b = body.clone();
                    b[t..t + 2].fill(0);
                    f(&finish(b1, &b), &[Said::PkidZero], "packet identifier 0");
                }
                Abs::Connect { will, .. } => {
                    for n in 0..=255u8 {
                        if n != 5 {
                            f(&sub(6, n), &[Said::Level(n)], "protocol level");
                        }
                    }
                    for i in 2..6 {
                        for n in 0..0x80u8 {
                            if body[i] != n {
                                f(&sub(i, n), &[Said::Protocol], "protocol name");
                            }
                        }
                    }
                    for name in ["", "M", "MQT", "mqtt", "MQIsdp", "MQTTT", "MQTT "] {
                        let mut b = (name.len() as u16).to_be_bytes().to_vec();
                        b.extend_from_slice(name.as_bytes());
                        b.extend_from_slice(&body[6..]);
                        f(&finish(b1, &b), &[Said::Protocol], "protocol name");
                    }
                    if will.is_some() {
                        f(&sub(7, body[7] | 0x18), &[Said::QoS(3)], "will QoS 3");
                    }
                }
                Abs::Subscribe { pkid, props, filters } => {
                    for i in 0..filters.len() {
                        for o in 0..0x40u8 {
                            let (q, r) = (o & 3 == 3, o >> 4 == 3);
                            if !q && !r {
                                continue;
                            }
                            let mut b = pkid.to_be_bytes().to_vec();
                            b.extend(Part::Props(Sec::Subscribe, props.clone()).bytes());
                            for (j, fl) in filters.iter().enumerate() {
                                b.extend(Part::Filters(vec![fl.clone()]).bytes());
                                if i == j {
                                    *b.last_mut().unwrap() = o;
                                }
                            }
                            let mut w = vec![];
                            if q {
                                w.push(Said::QoS(3));
                            }
                            if r {
                                w.push(Said::Retain(3));
                            }
                            f(&finish(b1, &b), &w, "subscription options");
                        }
                    }
                    let mut b = pkid.to_be_bytes().to_vec();
                    b.extend(Part::Props(Sec::Subscribe, props.clone()).bytes());
                    f(&finish(b1, &b), &[Said::EmptyList], "no topic filter");
                }
                Abs::Unsubscribe { pkid, props, .. } => {
                    let mut b = pkid.to_be_bytes().to_vec();
                    b.extend(Part::Props(Sec::Unsubscribe, props.clone()).bytes());
                    f(&finish(b1, &b), &[Said::EmptyList], "no topic filter");
                }
                _ => {}
            }
        }
    }
    // packet types that do not exist
    if k == 12 {
        for b1 in (0..16u8).chain(0xf0..=0xff) {
            for body in [&[][..], &[0], &[0, 1], &[0, 0, 0, 0, 0], &[0x8c, 0], &[0, 9, 0, 0, 1, b'a', 0]] {
                f(&finish(b1, body), &[Said::PacketType(b1 >> 4)], "packet type");
            }
        }
    }
    // properties that do not exist or do not belong there
    for s in SECS {
        if Some(s) != sec_of(k) && !(s == Sec::Will && k == 1) {
            continue;
        }
        let ar = around(s);
        let ids = allowed(s);
        for before in 0..3usize {
            for id in 0..0x80u8 {
                if ids.contains(&id) {
                    continue;
                }
                for after in [false, true] {
                    let mut sec = vec![];
                    for i in 0..before {
                        let p = ids[(i * 5 + id as usize) % ids.len()];
                        put_prop(&mut sec, p, &pv(prop_type(p).unwrap(), i as u64, 1 + i as u64));
                    }
                    // a property repeated before it is a defect of its own
                    if before == 2 {
                        let (p, q) = (ids[id as usize % ids.len()], ids[(5 + id as usize) % ids.len()]);
                        if p == q && !repeatable(s, p) {
                            continue;
                        }
                    }
                    match prop_type(id) {
                        Some(t) => put_prop(&mut sec, id, &pv(t, 3, 1)),
                        None => sec.extend([id, 0, 0]),
                    }
                    if after {
                        put_prop(&mut sec, 0x26, &PV::Pair(text(1, 2), text(2, 1)));
                    }
                    let mut d = vec![];
                    put_vbi(&mut d, sec.len() as u64);
                    f(&assemble(&ar, &d, &sec), &[Said::Property(id)], "property identifier");
                }
            }
        }
    }
    // text that is not UTF-8
    if utf8 {
        for fd in fields().iter().filter(|x| x.text && (x.make)(b"")[0] >> 4 == k) {
            for bad in [&b"\xff"[..], b"a\xc0\x80", b"\xed\xa0\x80z", b"ok\xf4\x90\x80\x80"] {
                f(&(fd.make)(bad), &[Said::Utf8], "ill-formed UTF-8");
            }
        }
    }
}
/// C26, encoding: a packet with one defect
pub fn said_write(c: &mut Ctx, a: &Abs) {
    let Some(why) = unrepresentable(a) else { return };
    let want = match why {
        "string or binary field over 65535 bytes" => Said::FieldTooLong,
        "QoS > 0 with packet identifier 0" => Said::PkidZero,
        "connect return code without MQTT 5 encoding" => return,
        _ => Said::TooLong,
    };
    let sut = c.sut;
    c.fresh();
    c.state(fold(a.class(), why.len() as u64));
    let p = sut.build(a);
    let mut b = BytesMut::new();
    let Some(got) = c.ok("encode", || sut.error_of_write(&*p, &mut b)) else { return };
    match got {
        Some(s) if s == want => c.saw("named"),
        None => c.saw("encoded (judged by C10)"),
        Some(s) => c.fail(
            &format!("said-write/{}", kind_name(a.typ())),
            format!("cannot be encoded ({why}), the error is {s:?} instead of {want:?}"),
        ),
    }
}
