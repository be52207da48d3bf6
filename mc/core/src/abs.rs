//! Abstract packets: the vocabulary of the reference model. Written from the MQTT 5.0 standard,
//! independent of the crate under test.
use bytes::Bytes;
pub type B = Bytes;

/// Property sections (MQTT 5.0 table 2-4, last columns).
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Sec {
    Connect,
    Will,
    ConnAck,
    Publish,
    PubAck,
    PubRec,
    PubRel,
    PubComp,
    Subscribe,
    SubAck,
    Unsubscribe,
    UnsubAck,
    Disconnect,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum T {
    Byte,
    U16,
    U32,
    Vbi,
    Str,
    Bin,
    Pair,
}

/// Data type of each property identifier (MQTT 5.0 table 2-4).
pub fn prop_type(id: u8) -> Option<T> {
    Some(match id {
        0x01 | 0x17 | 0x19 | 0x24 | 0x25 | 0x28 | 0x29 | 0x2A => T::Byte,
        0x13 | 0x21 | 0x22 | 0x23 => T::U16,
        0x02 | 0x11 | 0x18 | 0x27 => T::U32,
        0x0B => T::Vbi,
        0x03 | 0x08 | 0x12 | 0x15 | 0x1A | 0x1C | 0x1F => T::Str,
        0x09 | 0x16 => T::Bin,
        0x26 => T::Pair,
        _ => return None,
    })
}

/// Identifiers allowed in each section.
pub fn allowed(s: Sec) -> &'static [u8] {
    match s {
        Sec::Connect => &[0x11, 0x21, 0x27, 0x22, 0x19, 0x17, 0x26, 0x15, 0x16],
        Sec::Will => &[0x18, 0x01, 0x02, 0x03, 0x08, 0x09, 0x26],
        Sec::ConnAck => &[
            0x11, 0x21, 0x24, 0x25, 0x27, 0x12, 0x22, 0x1F, 0x26, 0x28, 0x29, 0x2A, 0x13, 0x1A,
            0x1C, 0x15, 0x16,
        ],
        Sec::Publish => &[0x01, 0x02, 0x23, 0x08, 0x09, 0x26, 0x0B, 0x03],
        Sec::PubAck
        | Sec::PubRec
        | Sec::PubRel
        | Sec::PubComp
        | Sec::SubAck
        | Sec::UnsubAck => &[0x1F, 0x26],
        Sec::Subscribe => &[0x0B, 0x26],
        Sec::Unsubscribe => &[0x26],
        Sec::Disconnect => &[0x11, 0x1F, 0x26, 0x1C],
    }
}

pub fn repeatable(s: Sec, id: u8) -> bool {
    id == 0x26 || (id == 0x0B && s == Sec::Publish)
}

/// Property value.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum PV {
    Byte(u8),
    U16(u16),
    U32(u32),
    /// may hold values beyond the encodable range
    Vbi(u64),
    Str(B),
    Bin(B),
    Pair(B, B),
}
pub type Props = Vec<(u8, PV)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Will {
    pub qos: u8,
    pub retain: bool,
    pub topic: B,
    pub message: B,
    pub props: Option<Props>,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Filt {
    pub path: B,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub rh: u8,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Abs {
    Connect {
        clean: bool,
        keep_alive: u16,
        props: Option<Props>,
        client_id: B,
        will: Option<Will>,
        login: Option<(B, B)>,
    },
    /// codes above 255 are the crate's variants for MQTT 3.1.1 return codes, which have no MQTT 5 encoding
    ConnAck {
        sp: bool,
        code: u16,
        props: Option<Props>,
    },
    Publish {
        dup: bool,
        qos: u8,
        retain: bool,
        topic: B,
        pkid: u16,
        props: Option<Props>,
        payload: B,
    },
    /// typ: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack {
        typ: u8,
        pkid: u16,
        code: u8,
        props: Option<Props>,
    },
    Subscribe {
        pkid: u16,
        props: Option<Props>,
        filters: Vec<Filt>,
    },
    SubAck {
        pkid: u16,
        props: Option<Props>,
        codes: Vec<u8>,
    },
    Unsubscribe {
        pkid: u16,
        props: Option<Props>,
        filters: Vec<B>,
    },
    UnsubAck {
        pkid: u16,
        props: Option<Props>,
        codes: Vec<u8>,
    },
    PingReq,
    PingResp,
    Disconnect {
        code: u8,
        props: Option<Props>,
    },
}

pub const LEGACY_CODES: [u16; 3] = [0x101, 0x102, 0x103];

/// Reason codes per packet type (MQTT 5.0 table 2-6).
pub fn codes(typ: u8) -> &'static [u8] {
    match typ {
        2 => &[
            0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90,
            0x95, 0x97, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
        ],
        4 | 5 => &[0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99],
        6 | 7 => &[0x00, 0x92],
        9 => &[
            0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2,
        ],
        11 => &[0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91],
        14 => &[
            0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93,
            0x94, 0x95, 0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1,
            0xA2,
        ],
        _ => &[],
    }
}

pub fn ack_sec(typ: u8) -> Sec {
    match typ {
        4 => Sec::PubAck,
        5 => Sec::PubRec,
        6 => Sec::PubRel,
        _ => Sec::PubComp,
    }
}

pub fn norm_props(p: &Option<Props>) -> Option<Props> {
    match p {
        Some(v) if !v.is_empty() => {
            let mut v = v.clone();
            // stable: the order of user properties and of subscription identifiers is kept
            v.sort_by_key(|(id, _)| *id);
            Some(v)
        }
        _ => None,
    }
}

impl Abs {
    pub fn typ(&self) -> u8 {
        match self {
            Abs::Connect { .. } => 1,
            Abs::ConnAck { .. } => 2,
            Abs::Publish { .. } => 3,
            Abs::Ack { typ, .. } => *typ,
            Abs::Subscribe { .. } => 8,
            Abs::SubAck { .. } => 9,
            Abs::Unsubscribe { .. } => 10,
            Abs::UnsubAck { .. } => 11,
            Abs::PingReq => 12,
            Abs::PingResp => 13,
            Abs::Disconnect { .. } => 14,
        }
    }

    /// Normal form: the value up to the distinctions that the wire format cannot make.
    pub fn norm(&self) -> Abs {
        let mut a = self.clone();
        match &mut a {
            Abs::Connect {
                props, will, login, ..
            } => {
                *props = norm_props(props);
                if let Some(w) = will {
                    w.props = norm_props(&w.props);
                }
                if matches!(login, Some((u, p)) if u.is_empty() && p.is_empty()) {
                    *login = None;
                }
            }
            Abs::Publish {
                props, qos, pkid, ..
            } => {
                *props = norm_props(props);
                if *qos == 0 {
                    *pkid = 0;
                }
            }
            Abs::ConnAck { props, .. }
            | Abs::Ack { props, .. }
            | Abs::Subscribe { props, .. }
            | Abs::SubAck { props, .. }
            | Abs::Unsubscribe { props, .. }
            | Abs::UnsubAck { props, .. }
            | Abs::Disconnect { props, .. } => *props = norm_props(props),
            Abs::PingReq | Abs::PingResp => {}
        }
        a
    }

    pub fn props(&self) -> Option<&Props> {
        match self {
            Abs::Connect { props, .. }
            | Abs::Publish { props, .. }
            | Abs::ConnAck { props, .. }
            | Abs::Ack { props, .. }
            | Abs::Subscribe { props, .. }
            | Abs::SubAck { props, .. }
            | Abs::Unsubscribe { props, .. }
            | Abs::UnsubAck { props, .. }
            | Abs::Disconnect { props, .. } => props.as_ref(),
            Abs::PingReq | Abs::PingResp => None,
        }
    }

    /// Lists that MQTT requires to be non-empty are non-empty.
    pub fn lists_ok(&self) -> bool {
        match self {
            Abs::Subscribe { filters, .. } => !filters.is_empty(),
            Abs::Unsubscribe { filters, .. } => !filters.is_empty(),
            Abs::SubAck { codes, .. } | Abs::UnsubAck { codes, .. } => !codes.is_empty(),
            _ => true,
        }
    }

    /// All text fields are well-formed UTF-8.
    pub fn texts_ok(&self) -> bool {
        fn t(b: &B) -> bool {
            std::str::from_utf8(b).is_ok()
        }
        fn ps(p: &Option<Props>) -> bool {
            p.iter().flatten().all(|(_, v)| match v {
                PV::Str(s) => t(s),
                PV::Pair(a, b) => t(a) && t(b),
                _ => true,
            })
        }
        self.props().is_none_or(|p| ps(&Some(p.clone())))
            && match self {
                Abs::Connect { client_id, will, login, .. } => {
                    t(client_id)
                        && will.as_ref().is_none_or(|w| ps(&w.props))
                        && login.as_ref().is_none_or(|(u, p)| t(u) && t(p))
                }
                Abs::Publish { topic, .. } => t(topic),
                Abs::Subscribe { filters, .. } => filters.iter().all(|f| t(&f.path)),
                Abs::Unsubscribe { filters, .. } => filters.iter().all(t),
                _ => true,
            }
    }

    /// Key of the abstract class of this packet: kind, presence, flag values, length classes.
    pub fn class(&self) -> u64 {
        let mut h = H::new();
        h.u(self.typ() as u64);
        fn lc(n: usize) -> u64 {
            match n {
                0..=3 => n as u64,
                4..=126 => 4,
                127 => 5,
                128 => 6,
                129..=255 => 7,
                256..=16382 => 8,
                16383 => 9,
                16384 => 10,
                16385..=65534 => 11,
                65535 => 12,
                65536 => 13,
                _ => 14,
            }
        }
        fn pr(h: &mut H, p: &Option<Props>) {
            match p {
                None => h.u(0),
                Some(v) => {
                    h.u(1 + lc(v.len()));
                    let mut mask = 0u64;
                    for (id, v) in v {
                        mask |= 1 << id;
                        h.u(match v {
                            PV::Byte(b) => lc(*b as usize),
                            PV::U16(b) => lc(*b as usize),
                            PV::U32(b) => lc(*b as usize),
                            PV::Vbi(b) => lc(*b as usize),
                            PV::Str(b) | PV::Bin(b) => lc(b.len()),
                            PV::Pair(a, b) => lc(a.len()) * 16 + lc(b.len()),
                        });
                    }
                    h.u(mask);
                }
            }
        }
        match self {
            Abs::Connect {
                clean,
                keep_alive,
                props,
                client_id,
                will,
                login,
            } => {
                h.u(*clean as u64);
                h.u(lc(*keep_alive as usize));
                pr(&mut h, props);
                h.u(lc(client_id.len()));
                if let Some(w) = will {
                    h.u(100 + w.qos as u64 * 2 + w.retain as u64);
                    h.u(lc(w.topic.len()) * 16 + lc(w.message.len()));
                    pr(&mut h, &w.props);
                }
                if let Some((u, p)) = login {
                    h.u(1000 + lc(u.len()) * 16 + lc(p.len()));
                }
            }
            Abs::ConnAck { sp, code, props } => {
                h.u(*sp as u64);
                h.u(*code as u64);
                pr(&mut h, props);
            }
            Abs::Publish {
                dup,
                qos,
                retain,
                topic,
                pkid,
                props,
                payload,
            } => {
                h.u(*dup as u64 | (*retain as u64) << 1 | (*qos as u64) << 2);
                h.u(lc(topic.len()));
                h.u(lc(*pkid as usize));
                pr(&mut h, props);
                h.u(lc(payload.len()));
            }
            Abs::Ack {
                pkid, code, props, ..
            } => {
                h.u(lc(*pkid as usize));
                h.u(*code as u64);
                pr(&mut h, props);
            }
            Abs::Subscribe {
                pkid,
                props,
                filters,
            } => {
                h.u(lc(*pkid as usize));
                pr(&mut h, props);
                h.u(lc(filters.len()));
                if let Some(f) = filters.first() {
                    h.u(lc(f.path.len()));
                    h.u(f.qos as u64 | (f.rh as u64) << 2);
                    h.u(f.nolocal as u64 | (f.rap as u64) << 1);
                }
            }
            Abs::SubAck { pkid, props, codes } | Abs::UnsubAck { pkid, props, codes } => {
                h.u(lc(*pkid as usize));
                pr(&mut h, props);
                h.u(lc(codes.len()));
                if let Some(f) = codes.first() {
                    h.u(*f as u64);
                }
            }
            Abs::Unsubscribe {
                pkid,
                props,
                filters,
            } => {
                h.u(lc(*pkid as usize));
                pr(&mut h, props);
                h.u(lc(filters.len()));
                if let Some(f) = filters.first() {
                    h.u(lc(f.len()));
                }
            }
            Abs::PingReq | Abs::PingResp => {}
            Abs::Disconnect { code, props } => {
                h.u(*code as u64);
                pr(&mut h, props);
            }
        }
        h.0
    }

    /// Debug text, long byte strings abbreviated.
    pub fn show(&self) -> String {
        let s = format!("{:?}", self);
        if s.len() > 2000 {
            format!("{}... ({} chars)", s.chars().take(1500).collect::<String>(), s.len())
        } else {
            s
        }
    }
}

/// Small deterministic hash (FNV-1a over words, with a finalizing mix).
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl H {
    pub fn new() -> H {
        H(0xcbf2_9ce4_8422_2325)
    }
    #[inline]
    pub fn u(&mut self, v: u64) {
        let mut x = (self.0 ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        x ^= x >> 29;
        self.0 = x.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (x >> 32);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        self.u(b.len() as u64);
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            self.u(u64::from_le_bytes(c.try_into().unwrap()));
        }
        let mut last = [0u8; 8];
        let r = it.remainder();
        last[..r.len()].copy_from_slice(r);
        self.u(u64::from_le_bytes(last));
    }
}
impl Default for H {
    fn default() -> Self {
        H::new()
    }
}
pub fn h2(a: u64, b: u64) -> u64 {
    let mut h = H::new();
    h.u(a);
    h.u(b);
    h.0
}
