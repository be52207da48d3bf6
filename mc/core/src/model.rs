//! Reference model: a strict MQTT 5.0 encoder and decoder written from the standard.
use crate::abs::*;
use bytes::Bytes;
use std::collections::HashSet;
use std::hash::{BuildHasherDefault, Hasher};

/// Identity hasher for keys that are already hashes.
#[derive(Default)]
pub struct IdH(u64);
impl Hasher for IdH {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(8) ^ *x as u64;
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type Set = HashSet<u64, BuildHasherDefault<IdH>>;

/// Receives the model states a run passes through.
pub trait Tr {
    fn st(&mut self, key: u64);
}
pub struct NoTr;
impl Tr for NoTr {
    #[inline]
    fn st(&mut self, _: u64) {}
}
/// Records distinct model states and transitions.
#[derive(Default)]
pub struct RecTr {
    pub states: Set,
    pub trans: Set,
    last: u64,
}
impl RecTr {
    pub fn start(&mut self) {
        self.last = 0;
    }
    pub fn merge(&mut self, o: &RecTr) {
        self.states.extend(o.states.iter());
        self.trans.extend(o.trans.iter());
    }
}
impl Tr for RecTr {
    #[inline]
    fn st(&mut self, key: u64) {
        self.states.insert(key);
        self.trans.insert(h2(self.last, key));
        self.last = key;
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// well-formed: must decode to this value
    Accept(Abs),
    /// violates the format: must be rejected
    Reject(&'static str),
    /// deviates from the standard in a way the properties leave open: may be rejected; if it is accepted, then as
    /// this value (none: any)
    Unspec(&'static str, Option<Abs>),
}

// ---------------------------------------------------------------- primitives

pub const VBI_MAX: u64 = 268_435_455;

pub fn put_vbi(out: &mut Vec<u8>, mut v: u64) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}
pub fn vbi_len(v: u64) -> usize {
    let mut n = 1;
    let mut v = v >> 7;
    while v > 0 {
        n += 1;
        v >>= 7;
    }
    n
}

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Vbi {
    Ok { val: u64, len: usize, minimal: bool },
    Short,
    TooLong,
}
pub fn get_vbi(b: &[u8]) -> Vbi {
    let mut val = 0u64;
    for i in 0..4 {
        let Some(x) = b.get(i) else { return Vbi::Short };
        val += ((x & 0x7f) as u64) * 128u64.pow(i as u32);
        if x & 0x80 == 0 {
            return Vbi::Ok {
                val,
                len: i + 1,
                minimal: vbi_len(val) == i + 1,
            };
        }
    }
    Vbi::TooLong
}

/// RFC 3629 well-formedness.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let (n, lo, hi) = match c {
            0x00..=0x7f => {
                i += 1;
                continue;
            }
            0xc2..=0xdf => (1, 0x80, 0xbf),
            0xe0 => (2, 0xa0, 0xbf),
            0xe1..=0xec | 0xee | 0xef => (2, 0x80, 0xbf),
            0xed => (2, 0x80, 0x9f),
            0xf0 => (3, 0x90, 0xbf),
            0xf1..=0xf3 => (3, 0x80, 0xbf),
            0xf4 => (3, 0x80, 0x8f),
            _ => return false,
        };
        for k in 1..=n {
            let (l, h) = if k == 1 { (lo, hi) } else { (0x80, 0xbf) };
            match b.get(i + k) {
                Some(x) if (l..=h).contains(x) => {}
                _ => return false,
            }
        }
        i += n + 1;
    }
    true
}

// ---------------------------------------------------------------- framing

#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub enum Hdr {
    /// need more; (lower bound that may be reported, exact?)
    Need { missing: usize, exact: bool },
    Malformed,
    TooBig { rl: usize, max: usize },
    Frame { hl: usize, rl: usize },
}

/// What the receiver must do with these stream contents.
pub fn header(s: &[u8], max: Option<usize>) -> Hdr {
    if s.len() < 2 {
        return Hdr::Need {
            missing: 2 - s.len(),
            exact: false,
        };
    }
    match get_vbi(&s[1..]) {
        Vbi::Short => Hdr::Need {
            missing: 1,
            exact: false,
        },
        Vbi::TooLong => Hdr::Malformed,
        Vbi::Ok { val, len, .. } => {
            let (hl, rl) = (1 + len, val as usize);
            if let Some(m) = max {
                if rl > m {
                    return Hdr::TooBig { rl, max: m };
                }
            }
            if s.len() < hl + rl {
                Hdr::Need {
                    missing: hl + rl - s.len(),
                    exact: true,
                }
            } else {
                Hdr::Frame { hl, rl }
            }
        }
    }
}

// ---------------------------------------------------------------- encoder

fn put_bin(out: &mut Vec<u8>, b: &[u8]) {
    // lengths over 65535 are only used to build frames on purpose, never silently
    assert!(b.len() <= 65535);
    out.extend_from_slice(&(b.len() as u16).to_be_bytes());
    out.extend_from_slice(b);
}
pub fn put_prop(out: &mut Vec<u8>, id: u8, v: &PV) {
    out.push(id);
    match v {
        PV::Byte(x) => out.push(*x),
        PV::U16(x) => out.extend_from_slice(&x.to_be_bytes()),
        PV::U32(x) => out.extend_from_slice(&x.to_be_bytes()),
        PV::Vbi(x) => put_vbi(out, *x),
        PV::Str(x) | PV::Bin(x) => put_bin(out, x),
        PV::Pair(a, b) => {
            put_bin(out, a);
            put_bin(out, b);
        }
    }
}
fn put_props(out: &mut Vec<u8>, p: &Option<Props>) {
    let mut sec = Vec::new();
    for (id, v) in p.iter().flatten() {
        put_prop(&mut sec, *id, v);
    }
    put_vbi(out, sec.len() as u64);
    out.extend_from_slice(&sec);
}

/// How acknowledgements and DISCONNECT are written down.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    /// omit as much as the standard allows
    Shortest,
    /// write the reason code, omit the property length if there are no properties
    Reason,
    /// write everything
    Full,
}

pub fn finish(byte1: u8, body: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(body.len() + 5);
    out.push(byte1);
    put_vbi(&mut out, body.len() as u64);
    out.extend_from_slice(body);
    out
}

pub fn body(a: &Abs, form: Form) -> (u8, Vec<u8>) {
    let mut o = Vec::new();
    let b1 = match a {
        Abs::Connect {
            clean,
            keep_alive,
            props,
            client_id,
            will,
            login,
        } => {
            put_bin(&mut o, b"MQTT");
            o.push(5);
            let mut fl = (*clean as u8) << 1;
            if let Some(w) = will {
                fl |= 0x04 | w.qos << 3 | (w.retain as u8) << 5;
            }
            if let Some((u, p)) = login {
                fl |= (!u.is_empty() as u8) << 7 | (!p.is_empty() as u8) << 6;
            }
            o.push(fl);
            o.extend_from_slice(&keep_alive.to_be_bytes());
            put_props(&mut o, props);
            put_bin(&mut o, client_id);
            if let Some(w) = will {
                put_props(&mut o, &w.props);
                put_bin(&mut o, &w.topic);
                put_bin(&mut o, &w.message);
            }
            if let Some((u, p)) = login {
                if !u.is_empty() {
                    put_bin(&mut o, u);
                }
                if !p.is_empty() {
                    put_bin(&mut o, p);
                }
            }
            0x10
        }
        Abs::ConnAck { sp, code, props } => {
            o.push(*sp as u8);
            o.push(*code as u8);
            put_props(&mut o, props);
            0x20
        }
        Abs::Publish {
            dup,
            qos,
            retain,
            topic,
            pkid,
            props,
            payload,
        } => {
            put_bin(&mut o, topic);
            if *qos > 0 {
                o.extend_from_slice(&pkid.to_be_bytes());
            }
            put_props(&mut o, props);
            o.extend_from_slice(payload);
            0x30 | (*dup as u8) << 3 | qos << 1 | *retain as u8
        }
        Abs::Ack {
            typ,
            pkid,
            code,
            props,
        } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            short_tail(&mut o, *code, props, form);
            typ << 4 | if *typ == 6 { 2 } else { 0 }
        }
        Abs::Subscribe {
            pkid,
            props,
            filters,
        } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props);
            for f in filters {
                put_bin(&mut o, &f.path);
                o.push(f.qos | (f.nolocal as u8) << 2 | (f.rap as u8) << 3 | f.rh << 4);
            }
            0x82
        }
        Abs::SubAck { pkid, props, codes } | Abs::UnsubAck { pkid, props, codes } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props);
            o.extend_from_slice(codes);
            a.typ() << 4
        }
        Abs::Unsubscribe {
            pkid,
            props,
            filters,
        } => {
            o.extend_from_slice(&pkid.to_be_bytes());
            put_props(&mut o, props);
            for f in filters {
                put_bin(&mut o, f);
            }
            0xA2
        }
        Abs::PingReq => 0xC0,
        Abs::PingResp => 0xD0,
        Abs::Disconnect { code, props } => {
            short_tail(&mut o, *code, props, form);
            0xE0
        }
    };
    (b1, o)
}

fn short_tail(o: &mut Vec<u8>, code: u8, props: &Option<Props>, form: Form) {
    let no_props = props.as_ref().is_none_or(|p| p.is_empty());
    if form == Form::Shortest && no_props && code == 0 {
        return;
    }
    o.push(code);
    if form != Form::Full && no_props {
        return;
    }
    put_props(o, props);
}

pub fn encode(a: &Abs, form: Form) -> Vec<u8> {
    let (b1, o) = body(a, form);
    finish(b1, &o)
}

/// Why a packet cannot be encoded (`None`: it can). Packets that break MQTT's non-empty-list rules
/// are not judged here.
pub fn unrepresentable(a: &Abs) -> Option<&'static str> {
    fn s(b: &[u8]) -> Result<u64, &'static str> {
        if b.len() > 65535 {
            return Err("string or binary field over 65535 bytes");
        }
        Ok(2 + b.len() as u64)
    }
    fn ps(p: &Option<Props>) -> Result<u64, &'static str> {
        let mut n = 0;
        for (_, v) in p.iter().flatten() {
            n += 1 + match v {
                PV::Byte(_) => 1,
                PV::U16(_) => 2,
                PV::U32(_) => 4,
                PV::Vbi(x) => {
                    if *x > VBI_MAX {
                        return Err("subscription identifier over 268435455");
                    }
                    vbi_len(*x) as u64
                }
                PV::Str(b) | PV::Bin(b) => s(b)?,
                PV::Pair(a, b) => s(a)? + s(b)?,
            };
        }
        if n > VBI_MAX {
            return Err("property length over 268435455");
        }
        Ok(n + vbi_len(n) as u64)
    }
    fn go(a: &Abs) -> Result<u64, &'static str> {
        Ok(match a {
            Abs::Connect {
                props,
                client_id,
                will,
                login,
                ..
            } => {
                let mut n = 10 + ps(props)? + s(client_id)?;
                if let Some(w) = will {
                    n += ps(&w.props)? + s(&w.topic)? + s(&w.message)?;
                }
                if let Some((u, p)) = login {
                    n += s(u)? + s(p)?; // an empty one is omitted: 2 bytes over, irrelevant below the limit
                }
                n
            }
            Abs::ConnAck { code, props, .. } => {
                if *code > 255 {
                    return Err("connect return code without MQTT 5 encoding");
                }
                2 + ps(props)?
            }
            Abs::Publish {
                qos,
                topic,
                pkid,
                props,
                payload,
                ..
            } => {
                if *qos > 0 && *pkid == 0 {
                    return Err("QoS > 0 with packet identifier 0");
                }
                s(topic)? + if *qos > 0 { 2 } else { 0 } + ps(props)? + payload.len() as u64
            }
            Abs::Ack { props, .. } => 3 + ps(props)?,
            Abs::Subscribe { props, filters, .. } => {
                let mut n = 2 + ps(props)?;
                for f in filters {
                    n += s(&f.path)? + 1;
                }
                n
            }
            Abs::SubAck { props, codes, .. } | Abs::UnsubAck { props, codes, .. } => {
                2 + ps(props)? + codes.len() as u64
            }
            Abs::Unsubscribe { props, filters, .. } => {
                let mut n = 2 + ps(props)?;
                for f in filters {
                    n += s(f)?;
                }
                n
            }
            Abs::PingReq | Abs::PingResp => 0,
            Abs::Disconnect { props, .. } => 1 + ps(props)?,
        })
    }
    match go(a) {
        Err(e) => Some(e),
        Ok(n) if n > VBI_MAX => Some("remaining length over 268435455"),
        Ok(_) => None,
    }
}

// ---------------------------------------------------------------- decoder

struct D<'a, TR: Tr> {
    b: &'a [u8],
    i: usize,
    utf8: bool,
    unspec: Option<&'static str>,
    /// the deviation leaves more than one reading
    open: bool,
    k: u64,
    tr: &'a mut TR,
}
type R<X> = Result<X, &'static str>;

/// class of a byte count, for state keys
fn cl(n: usize) -> u64 {
    match n {
        0..=4 => n as u64,
        5..=15 => 5,
        16..=127 => 6,
        128..=16383 => 7,
        _ => 8,
    }
}

impl<'a, TR: Tr> D<'a, TR> {
    /// enter the control state `label`
    #[inline]
    fn at(&mut self, label: u64, extra: u64) {
        let mut h = H::new();
        h.u(self.k);
        h.u(label);
        h.u(extra);
        h.u(cl(self.b.len() - self.i));
        self.tr.st(h.0);
    }
    fn tolerate(&mut self, why: &'static str) {
        self.unspec.get_or_insert(why);
    }
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn u8(&mut self) -> R<u8> {
        let x = *self.b.get(self.i).ok_or("missing byte")?;
        self.i += 1;
        Ok(x)
    }
    fn u16(&mut self) -> R<u16> {
        if self.left() < 2 {
            return Err("truncated two byte integer");
        }
        let v = (self.b[self.i] as u16) << 8 | self.b[self.i + 1] as u16;
        self.i += 2;
        Ok(v)
    }
    fn u32(&mut self) -> R<u32> {
        if self.left() < 4 {
            return Err("truncated four byte integer");
        }
        let mut v = 0u32;
        for k in 0..4 {
            v = v << 8 | self.b[self.i + k] as u32;
        }
        self.i += 4;
        Ok(v)
    }
    fn vbi(&mut self) -> R<u64> {
        match get_vbi(&self.b[self.i..]) {
            Vbi::Ok { val, len, minimal } => {
                self.i += len;
                if !minimal {
                    self.tolerate("variable byte integer not minimal");
                }
                Ok(val)
            }
            Vbi::Short => Err("truncated variable byte integer"),
            Vbi::TooLong => Err("variable byte integer over four bytes"),
        }
    }
    fn bin(&mut self) -> R<B> {
        let n = self.u16()? as usize;
        if n > self.left() {
            return Err("length points past the end");
        }
        let s = Bytes::copy_from_slice(&self.b[self.i..self.i + n]);
        self.i += n;
        Ok(s)
    }
    fn text(&mut self) -> R<B> {
        let s = self.bin()?;
        if self.utf8 && !utf8_ok(&s) {
            return Err("ill-formed UTF-8");
        }
        if s.contains(&0) {
            self.tolerate("U+0000 in a string");
        }
        Ok(s)
    }
    fn props(&mut self, sec: Sec) -> R<Option<Props>> {
        self.at(10 + sec as u64, 0);
        let n = self.vbi()? as usize;
        if n > self.left() {
            return Err("property length past the end");
        }
        if n == 0 {
            return Ok(None);
        }
        // the section is a frame of its own
        let end = self.i + n;
        let whole = self.b;
        self.b = &whole[..end];
        let mut v: Props = Vec::new();
        let mut seen = 0u64;
        while self.i < end {
            let id = self.u8()?;
            let ty = prop_type(id).ok_or("unknown property")?;
            if !allowed(sec).contains(&id) {
                return Err("property not allowed here");
            }
            if seen >> id & 1 == 1 && !repeatable(sec, id) {
                self.tolerate("property repeated");
                self.open = true;
            }
            seen |= 1 << id;
            self.at(40 + sec as u64, seen << 8 | id as u64);
            let val = match ty {
                T::Byte => PV::Byte(self.u8()?),
                T::U16 => PV::U16(self.u16()?),
                T::U32 => PV::U32(self.u32()?),
                T::Vbi => PV::Vbi(self.vbi()?),
                T::Str => PV::Str(self.text()?),
                T::Bin => PV::Bin(self.bin()?),
                T::Pair => {
                    let a = self.text()?;
                    PV::Pair(a, self.text()?)
                }
            };
            v.push((id, val));
        }
        self.b = whole;
        Ok(Some(v))
    }
    fn code(&mut self, typ: u8) -> R<u8> {
        let c = self.u8()?;
        self.at(5, c as u64);
        if codes(typ).contains(&c) {
            Ok(c)
        } else {
            Err("undefined reason code")
        }
    }
    fn flags(&mut self, got: u8, want: u8) {
        if got != want {
            self.tolerate("reserved fixed header flags");
        }
    }

    fn packet(&mut self, byte1: u8) -> R<Abs> {
        let (typ, fl) = (byte1 >> 4, byte1 & 15);
        self.k = typ as u64;
        self.at(1, fl as u64);
        if typ == 0 || typ == 15 {
            return Err("unknown packet type");
        }
        if self.left() == 0 && !matches!(typ, 12..=14) {
            return Err("missing variable header");
        }
        let a = match typ {
            1 => {
                self.flags(fl, 0);
                let name = self.bin()?;
                if &name[..] != b"MQTT" {
                    return Err("protocol name");
                }
                self.at(2, 0);
                if self.u8()? != 5 {
                    return Err("protocol version");
                }
                let f = self.u8()?;
                self.at(3, f as u64);
                if f & 1 != 0 {
                    self.tolerate("reserved connect flag");
                }
                let keep_alive = self.u16()?;
                let props = self.props(Sec::Connect)?;
                let client_id = self.text()?;
                self.at(4, f as u64);
                let will = self.will(f)?;
                self.at(6, f as u64);
                let login = self.login(f)?;
                Abs::Connect {
                    clean: f & 2 != 0,
                    keep_alive,
                    props,
                    client_id,
                    will,
                    login,
                }
            }
            2 => {
                self.flags(fl, 0);
                let f = self.u8()?;
                if f > 1 {
                    self.tolerate("reserved connack flags");
                }
                let code = self.code(2)? as u16;
                let props = self.props(Sec::ConnAck)?;
                Abs::ConnAck {
                    sp: f & 1 == 1,
                    code,
                    props,
                }
            }
            3 => {
                let qos = fl >> 1 & 3;
                if qos == 3 {
                    return Err("QoS 3");
                }
                if qos == 0 && fl & 8 != 0 {
                    // the encoder can produce it; forbidden to senders, harmless to receivers
                    self.at(7, 0);
                }
                let topic = self.text()?;
                let pkid = if qos > 0 { self.u16()? } else { 0 };
                if qos > 0 && pkid == 0 {
                    return Err("packet identifier 0");
                }
                let props = self.props(Sec::Publish)?;
                self.at(8, fl as u64);
                let payload = Bytes::copy_from_slice(&self.b[self.i..]);
                self.i = self.b.len();
                Abs::Publish {
                    dup: fl & 8 != 0,
                    qos,
                    retain: fl & 1 != 0,
                    topic,
                    pkid,
                    props,
                    payload,
                }
            }
            4..=7 => {
                self.flags(fl, if typ == 6 { 2 } else { 0 });
                let pkid = self.u16()?;
                self.at(9, 0);
                let (mut code, mut props) = (0, None);
                if self.left() > 0 {
                    code = self.code(typ)?;
                    if self.left() > 0 {
                        props = self.props(ack_sec(typ))?;
                    }
                }
                Abs::Ack {
                    typ,
                    pkid,
                    code,
                    props,
                }
            }
            8 => {
                self.flags(fl, 2);
                let pkid = self.u16()?;
                let props = self.props(Sec::Subscribe)?;
                let filters = self.filters()?;
                if filters.is_empty() {
                    return Err("no topic filter");
                }
                Abs::Subscribe {
                    pkid,
                    props,
                    filters,
                }
            }
            9 | 11 => {
                self.flags(fl, 0);
                let pkid = self.u16()?;
                let props = self.props(if typ == 9 { Sec::SubAck } else { Sec::UnsubAck })?;
                let mut codes = Vec::new();
                while self.left() > 0 {
                    self.at(82, codes.len().min(3) as u64);
                    codes.push(self.code(typ)?);
                }
                if codes.is_empty() {
                    return Err("no reason code");
                }
                if typ == 9 {
                    Abs::SubAck { pkid, props, codes }
                } else {
                    Abs::UnsubAck { pkid, props, codes }
                }
            }
            10 => {
                self.flags(fl, 2);
                let pkid = self.u16()?;
                let props = self.props(Sec::Unsubscribe)?;
                let mut filters = Vec::new();
                while self.left() > 0 {
                    self.at(83, filters.len().min(3) as u64);
                    filters.push(self.text()?);
                }
                if filters.is_empty() {
                    return Err("no topic filter");
                }
                Abs::Unsubscribe {
                    pkid,
                    props,
                    filters,
                }
            }
            12 | 13 => {
                self.flags(fl, 0);
                if typ == 12 {
                    Abs::PingReq
                } else {
                    Abs::PingResp
                }
            }
            _ => {
                if fl != 0 {
                    return Err("reserved header bits of DISCONNECT");
                }
                let (mut code, mut props) = (0, None);
                if self.left() > 0 {
                    code = self.code(14)?;
                    if self.left() > 0 {
                        props = self.props(Sec::Disconnect)?;
                    }
                }
                Abs::Disconnect { code, props }
            }
        };
        self.at(99, 0);
        if self.left() > 0 {
            self.tolerate("bytes after the last field");
        }
        Ok(a)
    }
}

/// Judges one complete frame (exactly `frame`). `utf8`: text fields must be well-formed UTF-8.
pub fn decode<TR: Tr>(frame: &[u8], utf8: bool, tr: &mut TR) -> Verdict {
    let Hdr::Frame { hl, rl } = header(frame, None) else {
        panic!("model: not a complete frame");
    };
    assert_eq!(hl + rl, frame.len(), "model: not exactly one frame");
    let mut d = D {
        b: &frame[hl..],
        i: 0,
        utf8,
        unspec: None,
        open: false,
        k: 0,
        tr,
    };
    if !matches!(get_vbi(&frame[1..]), Vbi::Ok { minimal: true, .. }) {
        d.tolerate("remaining length not minimal");
    }
    match d.packet(frame[0]) {
        Err(e) => Verdict::Reject(e),
        Ok(a) => match d.unspec {
            Some(w) => Verdict::Unspec(w, (!d.open).then_some(a)),
            None => Verdict::Accept(a),
        },
    }
}

/// A part of a packet that has a reader or writer of its own.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Part {
    Props(Sec, Option<Props>),
    Will(Option<Will>),
    Login(Option<(B, B)>),
    Filters(Vec<Filt>),
}
/// Which part is to be read, with the CONNECT flags where they decide.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Which {
    Props(Sec),
    Will(u8),
    Login(u8),
    Filters,
}
#[derive(Clone, PartialEq, Eq, Debug)]
pub enum PartVerdict {
    /// this value, and so many bytes belong to it
    Is(Part, usize),
    Reject(&'static str),
    /// may be refused; otherwise this value (none: any) of this length
    Unspec(Option<(Part, usize)>),
}
impl Part {
    pub fn norm(&self) -> Part {
        match self {
            Part::Props(s, p) => Part::Props(*s, norm_props(p)),
            Part::Will(w) => Part::Will(w.as_ref().map(|w| Will { props: norm_props(&w.props), ..w.clone() })),
            Part::Login(l) => Part::Login(l.clone().filter(|(u, p)| !u.is_empty() || !p.is_empty())),
            Part::Filters(f) => Part::Filters(f.clone()),
        }
    }
    pub fn which(&self) -> Which {
        match self {
            Part::Props(s, _) => Which::Props(*s),
            Part::Will(w) => Which::Will(w.as_ref().map_or(0, |w| 4 | w.qos << 3 | (w.retain as u8) << 5)),
            Part::Login(l) => {
                Which::Login(l.as_ref().map_or(0, |(u, p)| (!u.is_empty() as u8) << 7 | (!p.is_empty() as u8) << 6))
            }
            Part::Filters(_) => Which::Filters,
        }
    }
    /// the bytes a packet with this part has for it
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        match self {
            Part::Props(_, p) => put_props(&mut o, p),
            Part::Will(None) | Part::Login(None) => {}
            Part::Will(Some(w)) => {
                put_props(&mut o, &w.props);
                put_bin(&mut o, &w.topic);
                put_bin(&mut o, &w.message);
            }
            Part::Login(Some((u, p))) => {
                for x in [u, p] {
                    if !x.is_empty() {
                        put_bin(&mut o, x);
                    }
                }
            }
            Part::Filters(fs) => {
                for f in fs {
                    put_bin(&mut o, &f.path);
                    o.push(f.qos | (f.nolocal as u8) << 2 | (f.rap as u8) << 3 | f.rh << 4);
                }
            }
        }
        o
    }
}
impl<TR: Tr> D<'_, TR> {
    fn will(&mut self, f: u8) -> R<Option<Will>> {
        if f & 4 == 0 {
            if f & 0x38 != 0 {
                return Err("will bits without will");
            }
            return Ok(None);
        }
        let props = self.props(Sec::Will)?;
        let topic = self.bin()?;
        let message = self.bin()?;
        let qos = f >> 3 & 3;
        if qos == 3 {
            return Err("will QoS 3");
        }
        Ok(Some(Will { qos, retain: f & 0x20 != 0, topic, message, props }))
    }
    fn login(&mut self, f: u8) -> R<Option<(B, B)>> {
        let user = if f & 0x80 != 0 { self.text()? } else { B::new() };
        // The standard has the password as binary data; this library declares it as a string.
        // What a string cannot hold has to be refused.
        let pass = if f & 0x40 != 0 { self.bin()? } else { B::new() };
        if self.utf8 && !utf8_ok(&pass) {
            return Err("password is not UTF-8");
        }
        Ok(if user.is_empty() && pass.is_empty() { None } else { Some((user, pass)) })
    }
    fn filters(&mut self) -> R<Vec<Filt>> {
        let mut filters = Vec::new();
        while self.left() > 0 {
            self.at(80, filters.len().min(3) as u64);
            let path = self.text()?;
            let o = self.u8()?;
            self.at(81, o as u64);
            if o & 3 == 3 {
                return Err("subscription QoS 3");
            }
            if o >> 4 & 3 == 3 {
                return Err("retain handling 3");
            }
            if o & 0xc0 != 0 {
                self.tolerate("reserved subscription options");
            }
            filters.push(Filt { path, qos: o & 3, nolocal: o & 4 != 0, rap: o & 8 != 0, rh: o >> 4 & 3 });
        }
        Ok(filters)
    }
}
/// Judges what the reader of a part has to make of the beginning of these bytes.
pub fn decode_part<TR: Tr>(which: Which, bytes: &[u8], utf8: bool, tr: &mut TR) -> PartVerdict {
    let k = 100
        + match which {
            Which::Props(s) => s as u64,
            Which::Will(_) => 20,
            Which::Login(_) => 21,
            Which::Filters => 22,
        };
    let mut d = D { b: bytes, i: 0, utf8, unspec: None, open: false, k, tr };
    let r = match which {
        Which::Props(s) => d.props(s).map(|p| Part::Props(s, p)),
        Which::Will(f) => d.will(f).map(Part::Will),
        Which::Login(f) => d.login(f).map(Part::Login),
        Which::Filters => d.filters().map(Part::Filters),
    };
    match r {
        Err(e) => PartVerdict::Reject(e),
        Ok(p) => match d.unspec {
            Some(_) => PartVerdict::Unspec((!d.open).then_some((p, d.i))),
            None => PartVerdict::Is(p, d.i),
        },
    }
}

#[cfg(test)]
mod test {
    use super::*;

    // Literal examples, transcribed by hand from the field descriptions of the standard.
    #[test]
    fn literal() {
        let c = [
            0x10, 0x11, 0, 4, b'M', b'Q', b'T', b'T', 5, 0x02, 0, 60, 0, 0, 4, b't', b'e', b's',
            b't',
        ];
        let v = decode(&c, true, &mut NoTr);
        let want = Abs::Connect {
            clean: true,
            keep_alive: 60,
            props: None,
            client_id: "test".into(),
            will: None,
            login: None,
        };
        assert_eq!(v, Verdict::Accept(want.clone()));
        assert_eq!(encode(&want, Form::Full), c);
        let p = [0x3b, 9, 0, 1, b'a', 0, 7, 2, 1, 1, b'x'];
        let want = Abs::Publish {
            dup: true,
            qos: 1,
            retain: true,
            topic: "a".into(),
            pkid: 7,
            props: Some(vec![(1, PV::Byte(1))]),
            payload: "x".into(),
        };
        assert_eq!(decode(&p, true, &mut NoTr), Verdict::Accept(want.clone()));
        assert_eq!(encode(&want, Form::Full), p);
        assert_eq!(
            decode(&[0xe0, 1, 0x8b], true, &mut NoTr),
            Verdict::Accept(Abs::Disconnect {
                code: 0x8b,
                props: None
            })
        );
        assert!(matches!(
            decode(&[0x40, 3, 0, 1, 1], true, &mut NoTr),
            Verdict::Reject(_)
        ));
        let s = [0x82, 9, 0, 1, 2, 0x0b, 5, 0, 1, b'#', 0x2e];
        let want = Abs::Subscribe {
            pkid: 1,
            props: Some(vec![(0x0b, PV::Vbi(5))]),
            filters: vec![Filt {
                path: "#".into(),
                qos: 2,
                nolocal: true,
                rap: true,
                rh: 2,
            }],
        };
        assert_eq!(decode(&s, true, &mut NoTr), Verdict::Accept(want.clone()));
        assert_eq!(encode(&want, Form::Full), s);
    }

    #[test]
    fn vbi() {
        // table 1-1 of the standard
        for (v, b) in [
            (0u64, &[0x00u8][..]),
            (127, &[0x7f]),
            (128, &[0x80, 0x01]),
            (16383, &[0xff, 0x7f]),
            (16384, &[0x80, 0x80, 0x01]),
            (2097151, &[0xff, 0xff, 0x7f]),
            (2097152, &[0x80, 0x80, 0x80, 0x01]),
            (268435455, &[0xff, 0xff, 0xff, 0x7f]),
        ] {
            let mut o = vec![];
            put_vbi(&mut o, v);
            assert_eq!(o, b);
            assert_eq!(
                get_vbi(b),
                Vbi::Ok {
                    val: v,
                    len: b.len(),
                    minimal: true
                }
            );
        }
        assert_eq!(get_vbi(&[0xff; 5]), Vbi::TooLong);
        assert_eq!(get_vbi(&[0xff; 3]), Vbi::Short);
    }

    #[test]
    fn utf8_model_matches_std() {
        for n in 0..=2 {
            for x in 0..256u32.pow(n) {
                let b: Vec<u8> = (0..n).map(|k| (x >> (8 * k)) as u8).collect();
                assert_eq!(utf8_ok(&b), std::str::from_utf8(&b).is_ok());
            }
        }
        for x in 0u32..0x110000 {
            if let Some(c) = char::from_u32(x) {
                let mut b = [0; 4];
                assert!(utf8_ok(c.encode_utf8(&mut b).as_bytes()));
            }
        }
    }
}
