//! Bounded spaces of packet values. Every space is enumerated completely.
use crate::abs::*;
use crate::model::*;
use bytes::Bytes;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Lvl {
    /// 2-3 values per field
    Tiny,
    /// boundary values
    Med,
    /// every value of small domains, all boundary windows of large ones
    Large,
    /// as far as is affordable
    Huge,
}

/// A place in a packet that can be varied.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Slot {
    Flag(u8), // clean start | session present | dup
    Retain,
    Qos,
    U16, // keep alive | packet identifier
    Code,
    Text, // client id | topic
    Payload,
    Prop(u8),
    Users,
    SubIds,
    PropsForm,
    Filters,
    Codes,
    Will,
    WillQos,
    WillRetain,
    WillTopic,
    WillMsg,
    WillProp(u8),
    WillUsers,
    WillPropsForm,
    User,
    Pass,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Off,
    Bool(bool),
    N(u64),
    Bytes(B),
    Pairs(Vec<(B, B)>),
    Ns(Vec<u64>),
    Filts(Vec<Filt>),
    Texts(Vec<B>),
    Codes(Vec<u8>),
    /// property set absent / present but empty (only if it holds nothing)
    EmptyProps(bool),
}

pub const KINDS: [u8; 14] = [12, 13, 14, 4, 5, 6, 7, 2, 9, 11, 10, 8, 3, 1];

pub fn kind_name(k: u8) -> &'static str {
    [
        "", "CONNECT", "CONNACK", "PUBLISH", "PUBACK", "PUBREC", "PUBREL", "PUBCOMP", "SUBSCRIBE", "SUBACK",
        "UNSUBSCRIBE", "UNSUBACK", "PINGREQ", "PINGRESP", "DISCONNECT",
    ][k as usize]
}

pub fn sec_of(k: u8) -> Option<Sec> {
    Some(match k {
        1 => Sec::Connect,
        2 => Sec::ConnAck,
        3 => Sec::Publish,
        4..=7 => ack_sec(k),
        8 => Sec::Subscribe,
        9 => Sec::SubAck,
        10 => Sec::Unsubscribe,
        11 => Sec::UnsubAck,
        14 => Sec::Disconnect,
        _ => return None,
    })
}

/// ASCII text of this length; different seeds and positions give different bytes.
pub fn text(seed: u64, len: usize) -> B {
    let mut v = Vec::with_capacity(len);
    for i in 0..len as u64 {
        v.push(b'a' + ((seed.wrapping_mul(5).wrapping_add(i.wrapping_mul(7)).wrapping_add(i / 26)) % 26) as u8);
    }
    Bytes::from(v)
}
pub fn bin(seed: u64, len: usize) -> B {
    let mut v = Vec::with_capacity(len);
    for i in 0..len as u64 {
        v.push((seed.wrapping_mul(83).wrapping_add(i.wrapping_mul(37)).wrapping_add(i / 256)) as u8);
    }
    Bytes::from(v)
}

pub fn pv(t: T, seed: u64, n: u64) -> PV {
    match t {
        T::Byte => PV::Byte(n as u8),
        T::U16 => PV::U16(n as u16),
        T::U32 => PV::U32(n as u32),
        T::Vbi => PV::Vbi(n),
        T::Str => PV::Str(text(seed, n as usize)),
        T::Bin => PV::Bin(bin(seed, n as usize)),
        T::Pair => PV::Pair(text(seed, n as usize), text(seed + 1, n as usize + 1)),
    }
}

/// Two unequal, distinctive default values per property. Set 1 has the small/zero/empty ones.
pub fn default_pv(id: u8, set: u8) -> PV {
    let t = prop_type(id).unwrap();
    let i = id as u64;
    let seed = i * 3 + set as u64;
    if set == 0 {
        match t {
            T::Byte => PV::Byte(0x40 | id),
            T::U16 => PV::U16((id as u16) << 8 | 0x81),
            T::U32 => PV::U32(0x0180_0000 | (id as u32) << 8 | 0x7f),
            T::Vbi => PV::Vbi(300),
            T::Str => PV::Str(text(seed, 2 + id as usize % 5)),
            T::Bin => PV::Bin(bin(seed, 2 + id as usize % 5)),
            T::Pair => PV::Pair(text(seed, 3), text(seed + 1, 4)),
        }
    } else {
        match t {
            T::Byte => PV::Byte(0),
            T::U16 => PV::U16(0),
            T::U32 => PV::U32(0),
            T::Vbi => PV::Vbi(1),
            T::Str => PV::Str(B::new()),
            T::Bin => PV::Bin(B::new()),
            T::Pair => PV::Pair(B::new(), B::new()),
        }
    }
}

pub fn filt_n(i: u64) -> Filt {
    Filt {
        path: text(40 + i, 1 + (i % 3) as usize),
        qos: (i % 3) as u8,
        nolocal: i % 2 == 1,
        rap: i / 2 % 2 == 1,
        rh: ((i + 1) % 3) as u8,
    }
}
/// filter number from the 36 option combinations
pub fn filt_opt(i: u64, path: B) -> Filt {
    Filt {
        path,
        qos: (i % 3) as u8,
        nolocal: i / 3 % 2 == 1,
        rap: i / 6 % 2 == 1,
        rh: (i / 12 % 3) as u8,
    }
}

pub fn min(k: u8) -> Abs {
    match k {
        1 => Abs::Connect { clean: false, keep_alive: 0, props: None, client_id: B::new(), will: None, login: None },
        2 => Abs::ConnAck { sp: false, code: 0, props: None },
        3 => Abs::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: text(20, 1),
            pkid: 0,
            props: None,
            payload: B::new(),
        },
        4..=7 => Abs::Ack { typ: k, pkid: 1, code: 0, props: None },
        8 => Abs::Subscribe {
            pkid: 1,
            props: None,
            filters: vec![Filt { path: text(30, 1), qos: 0, nolocal: false, rap: false, rh: 0 }],
        },
        9 => Abs::SubAck { pkid: 1, props: None, codes: vec![0] },
        10 => Abs::Unsubscribe { pkid: 1, props: None, filters: vec![text(31, 1)] },
        11 => Abs::UnsubAck { pkid: 1, props: None, codes: vec![0] },
        12 => Abs::PingReq,
        13 => Abs::PingResp,
        _ => Abs::Disconnect { code: 0, props: None },
    }
}

pub fn full_props(s: Sec) -> Props {
    let mut v = vec![];
    for id in allowed(s) {
        v.push((*id, default_pv(*id, 0)));
        if *id == 0x26 {
            v.push((*id, PV::Pair(text(9, 1), text(8, 2))));
        }
        if *id == 0x0B && s == Sec::Publish {
            v.push((*id, PV::Vbi(7)));
        }
    }
    v
}

/// Everything present, all values distinctive.
pub fn full(k: u8) -> Abs {
    let p = sec_of(k).map(full_props);
    match k {
        1 => Abs::Connect {
            clean: true,
            keep_alive: 0x0a3c,
            props: p,
            client_id: text(1, 5),
            will: Some(Will {
                qos: 1,
                retain: true,
                topic: text(2, 4),
                message: bin(3, 6),
                props: Some(full_props(Sec::Will)),
            }),
            login: Some((text(4, 4), text(5, 3))),
        },
        2 => Abs::ConnAck { sp: true, code: 0x9c, props: p },
        3 => Abs::Publish {
            dup: true,
            qos: 2,
            retain: true,
            topic: text(20, 6),
            pkid: 0x1234,
            props: p,
            payload: bin(21, 9),
        },
        4 | 5 => Abs::Ack { typ: k, pkid: 0x1234, code: 0x97, props: p },
        6 | 7 => Abs::Ack { typ: k, pkid: 0x1234, code: 0x92, props: p },
        8 => Abs::Subscribe { pkid: 0x1234, props: p, filters: vec![filt_n(1), filt_n(5)] },
        9 => Abs::SubAck { pkid: 0x1234, props: p, codes: vec![2, 0x80, 0x9e] },
        10 => Abs::Unsubscribe { pkid: 0x1234, props: p, filters: vec![text(31, 3), text(32, 2)] },
        11 => Abs::UnsubAck { pkid: 0x1234, props: p, codes: vec![0x11, 0, 0x91] },
        14 => Abs::Disconnect { code: 0x9d, props: p },
        k => min(k),
    }
}

/// A base without properties but with everything else set.
pub fn mid(k: u8) -> Abs {
    let mut a = full(k);
    if let Some(p) = props_mut(&mut a) {
        *p = None;
    }
    if let Abs::Connect { will: Some(w), .. } = &mut a {
        w.props = None;
    }
    a
}

pub fn props_mut(a: &mut Abs) -> Option<&mut Option<Props>> {
    match a {
        Abs::Connect { props, .. }
        | Abs::ConnAck { props, .. }
        | Abs::Publish { props, .. }
        | Abs::Ack { props, .. }
        | Abs::Subscribe { props, .. }
        | Abs::SubAck { props, .. }
        | Abs::Unsubscribe { props, .. }
        | Abs::UnsubAck { props, .. }
        | Abs::Disconnect { props, .. } => Some(props),
        Abs::PingReq | Abs::PingResp => None,
    }
}

pub fn slots(k: u8) -> Vec<Slot> {
    let mut v = match k {
        1 => vec![
            Slot::Flag(0),
            Slot::U16,
            Slot::Text,
            Slot::Will,
            Slot::WillQos,
            Slot::WillRetain,
            Slot::WillTopic,
            Slot::WillMsg,
            Slot::WillPropsForm,
            Slot::User,
            Slot::Pass,
        ],
        2 => vec![Slot::Flag(0), Slot::Code],
        3 => vec![Slot::Flag(0), Slot::Qos, Slot::Retain, Slot::Text, Slot::U16, Slot::Payload],
        4..=7 => vec![Slot::U16, Slot::Code],
        8 | 10 => vec![Slot::U16, Slot::Filters],
        9 | 11 => vec![Slot::U16, Slot::Codes],
        14 => vec![Slot::Code],
        _ => vec![],
    };
    if let Some(s) = sec_of(k) {
        v.push(Slot::PropsForm);
        for id in allowed(s) {
            v.push(match *id {
                0x26 => Slot::Users,
                0x0B if k == 3 => Slot::SubIds,
                id => Slot::Prop(id),
            });
        }
    }
    if k == 1 {
        for id in allowed(Sec::Will) {
            v.push(if *id == 0x26 { Slot::WillUsers } else { Slot::WillProp(*id) });
        }
    }
    v
}

pub fn lengths(l: Lvl) -> Vec<usize> {
    let mut v: Vec<usize> = match l {
        Lvl::Tiny => vec![0, 3],
        Lvl::Med => vec![0, 1, 2, 127, 128, 255, 256],
        Lvl::Large => (0..=1100).chain([1200, 1280, 1400, 1460, 1500, 1536, 2000, 3000, 5000, 10_000, 20_000, 50_000]).collect(),
        Lvl::Huge => (0..=17_000).chain((17_000..65_000).step_by(97)).collect(),
    };
    if l >= Lvl::Large {
        let w = if l == Lvl::Large { 3i64 } else { 40 };
        for p in [512i64, 1024, 2048, 4096, 8192, 16384, 32768, 65536] {
            for d in -w..=w {
                v.push((p + d) as usize);
            }
        }
        // around the point where the packet around the field crosses a length threshold
        for d in 0..60 {
            v.push(16384 - d);
        }
    }
    v.retain(|n| *n <= 65535);
    v.sort_unstable();
    v.dedup();
    v
}

pub fn vbis(l: Lvl) -> Vec<u64> {
    let edge = [0u64, 1, 127, 128, 16383, 16384, 2097151, 2097152, 268435455];
    match l {
        Lvl::Tiny => vec![1, 300],
        Lvl::Med => edge.to_vec(),
        _ => {
            let mut v: Vec<u64> = (0..=if l == Lvl::Large { 400 } else { 20_000 }).collect();
            for k in 0..28 {
                for d in -3i64..=3 {
                    v.push(((1i64 << k) + d).max(0) as u64);
                }
            }
            for b in 0..128 {
                for s in [7, 14, 21] {
                    v.push(b << s);
                    v.push((b << s) | 0x7f);
                }
            }
            v.extend(ROUND);
            v.push(100_000_000);
            v.push(VBI_MAX);
            v.push(VBI_MAX - 1);
            v.retain(|x| *x <= VBI_MAX);
            v.sort_unstable();
            v.dedup();
            v
        }
    }
}
/// Numbers that people like to write.
pub const ROUND: [u64; 34] = [
    5, 10, 20, 30, 50, 60, 90, 100, 120, 180, 200, 300, 365, 500, 600, 900, 1000, 1024, 1883, 3600, 5000, 7200, 8883, 10_000, 30_000, 43_200, 50_000,
    60_000, 86_400, 100_000, 604_800, 1_000_000, 10_000_000, 31_536_000,
];
fn u16s(l: Lvl) -> Vec<u64> {
    match l {
        Lvl::Tiny => vec![0, 1, 65535],
        Lvl::Med => vec![0, 1, 127, 128, 255, 256, 0x7fff, 0x8000, 65535],
        Lvl::Large => {
            let mut v: Vec<u64> = vec![];
            for a in 0..256 {
                for b in [0u64, 1, 0x7f, 0xff] {
                    v.push(a << 8 | b);
                    v.push(b << 8 | a);
                }
            }
            v.extend(ROUND.iter().filter(|x| **x < 65536));
            v.sort_unstable();
            v.dedup();
            v
        }
        Lvl::Huge => (0..=65535).collect(),
    }
}
fn u32s(l: Lvl) -> Vec<u64> {
    match l {
        Lvl::Tiny => vec![0, 0x0102_0304],
        Lvl::Med => vec![0, 1, 255, 256, 65535, 65536, 0x00ff_ffff, 0x0100_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff],
        _ => {
            let mut v: Vec<u64> = vec![0x0102_0304, 0x7f80_ff00, 1_000_000_000, 4_000_000_000, 0xdead_beef, 0xcafe_babe, 0x1234_5678, 0x8765_4321, 0xaaaa_aaaa, 0x5555_5555, 0x0fff_ffff, 0x1000_0000, 268_435_456, 999_999_999, 123_456_789, 2_592_000, 7_776_000];
            v.extend(ROUND);
            for k in 0..32 {
                for d in -1i64..=1 {
                    v.push(((1i64 << k) + d) as u32 as u64);
                }
                v.push(!(1u32 << k) as u64);
            }
            for s in [0, 8, 16, 24] {
                for b in 0..256u64 {
                    v.push(b << s);
                    v.push((!(b << s)) & 0xffff_ffff);
                    v.push((0x0102_0304 & !(0xff << s)) | b << s);
                }
            }
            if l == Lvl::Huge {
                v.extend((0..=65535u64).map(|x| x * 65537 & 0xffff_ffff));
                v.extend(0..=65535u64);
                v.extend((0..=65535u64).map(|x| x << 16));
            }
            v.sort_unstable();
            v.dedup();
            v
        }
    }
}
fn u8s(l: Lvl) -> Vec<u64> {
    match l {
        Lvl::Tiny => vec![0, 1],
        Lvl::Med => vec![0, 1, 2, 127, 128, 255],
        _ => (0..=255).collect(),
    }
}
/// Texts of multi-byte characters only, behind 0 to 3 ASCII bytes: whatever the distance of two cuts, some text has
/// a character across one.
pub fn wide_texts(total: usize) -> Vec<B> {
    let mut v = vec![];
    for ch in ["é", "€", "𝄞"] {
        for pre in 0..ch.len() {
            let mut s = "a".repeat(pre);
            while s.len() + ch.len() <= total {
                s.push_str(ch);
            }
            v.push(B::from(s));
        }
    }
    v
}
/// One multi-byte character (one place) in an ASCII text.
pub fn one_wide(ch: &str, at: usize, total: usize) -> B {
    let mut s = "q".repeat(at);
    s.push_str(ch);
    while s.len() < total {
        s.push((b'a' + (s.len() % 26) as u8) as char);
    }
    B::from(s)
}
/// Contents that invite special treatment.
pub const SPECIAL: &[&str] = &[
    " ", " x", "x ", "\t", "x\n", "\r\n", "\u{a0}x", "X", "x", "Xx", "/", "//", "/a", "a/", "a//b", "a/+/b", "+", "a/#", "$SYS/x",
    "$share/g/t", "\"", "\\", "'", "%20", "%", "a\u{301}", "\u{e1}", "\u{200b}", "\u{fffd}", "\u{fdd0}", "\u{1fffe}", "\u{80}", "\u{9f}",
    "\u{1f}", "MQIsdp", "null", "true", "0", "-1", "utf-8", "text/plain", "mqtt://h:1", "a b", "a,b", "{}", "ß", "İ", "\u{2028}",
    "\u{feff}", "\u{feff}x", "x\u{feff}", "x\u{feff}y", "\u{feff}\u{feff}", "\u{fffe}", "\u{ffff}", "\u{10ffff}", "\u{10fffe}", "\u{fdef}",
    "\u{85}", "\u{2029}", "\u{3000}x", "x\u{3000}", "\u{200d}", "\u{200e}", "\u{202e}", "\u{ad}", "\u{e000}", "\u{f8ff}", "\u{d7ff}", "\u{7f}",
    "\u{1}", "x\u{1}", "\u{1b}[0m", "MQTT", "mqtt", "\u{fb01}", "\u{212b}", "\u{c5}", "A\u{30a}", "\u{1100}\u{1161}", "\u{ac00}", "ｘ", "a\\b",
    "../a", "./a", "a/../b", "a/.", "?x=1", "#", "##", "a#", "a+", "+/+", "$", "$$", "$queue/t", "$share//t", "00", "1e3", "NaN", "0x1f", "\u{661}",
];
/// interesting short texts beyond plain ASCII of a given length
fn texts(seed: u64, l: Lvl) -> Vec<B> {
    let mut v: Vec<B> = lengths(l).into_iter().map(|n| text(seed, n)).collect();
    if l >= Lvl::Med {
        for s in ["é", "€", "𝄞", "MQTT", "\u{1}", "\u{7f}", "\u{feff}", "\u{d7ff}\u{e000}", "\u{ffff}", "\u{10ffff}", "#", "+/$share"] {
            v.push(B::from_static(s.as_bytes()));
        }
    }
    if l >= Lvl::Large {
        v.extend(SPECIAL.iter().map(|s| B::from_static(s.as_bytes())));
        for n in [20usize, 70, 135, 260, 520] {
            v.extend(wide_texts(n));
        }
        if l == Lvl::Huge {
            for n in [1030usize, 2050, 4100, 8200, 16390, 32770, 65535] {
                v.extend(wide_texts(n));
            }
        } else {
            v.extend(wide_texts(4100).into_iter().step_by(2));
            v.extend(wide_texts(65535).into_iter().step_by(3));
        }
        let w = if l == Lvl::Large { 5 } else { 12 };
        for e in [8usize, 16, 32, 64, 128, 256, 512, 1024, 4096] {
            for at in e.saturating_sub(w)..=e + 1 {
                for ch in ["é", "€", "𝄞"] {
                    v.push(one_wide(ch, at, at + ch.len()));
                    if e < 256 || l == Lvl::Huge {
                        v.push(one_wide(ch, at, at + ch.len() + 9));
                    }
                }
            }
        }
    }
    v
}
fn bins(seed: u64, l: Lvl) -> Vec<B> {
    let mut v: Vec<B> = lengths(l).into_iter().map(|n| bin(seed, n)).collect();
    if l >= Lvl::Med {
        for s in [&[0u8][..], &[0xff], &[0xff, 0xfe, 0], &[0xc3, 0x28], &[0x80; 5]] {
            v.push(B::from_static(s));
        }
    }
    if l >= Lvl::Large {
        // what a special case might look for: runs of one byte, texts, things of the protocol itself
        for b in 0..=255u8 {
            v.push(vec![b].into());
            v.push(vec![b; 3].into());
        }
        for n in [2usize, 4, 8, 16, 64, 127, 128, 256, 1000] {
            for b in [0u8, 1, 0x20, 0x26, 0x30, 0x41, 0x7f, 0x80, 0xc2, 0xff] {
                v.push(vec![b; n].into());
            }
        }
        v.extend(SPECIAL.iter().map(|s| B::from_static(s.as_bytes())));
        for k in KINDS {
            v.push(encode(&min(k), Form::Shortest).into());
            v.push(encode(&full(k), Form::Shortest).into());
        }
        for s in [&[0u8, 4, b'M', b'Q', b'T', b'T', 5][..], &[0, 0, 0], &[0, 1], &[0x1f, 0x8b, 8, 0], b"\x89PNG\r\n\x1a\n", b"PK\x03\x04", b"\xef\xbb\xbf{}", b"a\0b", b"\0a", b"a\0"] {
            v.push(B::from_static(s));
        }
    }
    v
}
fn pairs(l: Lvl) -> Vec<Vec<(B, B)>> {
    let p = |i: u64| (text(50 + i, 1 + (i % 4) as usize), text(70 + i, (i % 5) as usize));
    let mut v: Vec<Vec<(B, B)>> = vec![vec![], vec![p(1)]];
    match l {
        Lvl::Tiny => v.push(vec![p(2), p(1)]),
        Lvl::Med => {
            v.push(vec![p(1), p(1)]);
            v.push(vec![p(1), p(2), p(3)]);
            v.push(vec![(B::new(), B::new())]);
            v.push(vec![(p(1).0, p(3).1), (p(1).0, p(4).1), (p(1).0, p(3).1)]);
            v.push((0..7).map(p).collect());
            v.push(vec![(p(2).0, p(2).0)]);
            v.push(vec![(text(1, 130), text(2, 260))]);
        }
        _ => {
            let n = if l == Lvl::Large { 70 } else { 700 };
            for k in 2..n {
                v.push((0..k).map(p).collect());
            }
            for k in [127, 128, 129, 255, 256, 257, 300, 1000] {
                v.push((0..k).map(p).collect());
            }
            for n in lengths(l) {
                v.push(vec![(text(1, n), text(2, 1))]);
                v.push(vec![(text(1, 1), text(2, n))]);
            }
            for t in texts(3, Lvl::Med) {
                v.push(vec![(t.clone(), p(1).1)]);
                v.push(vec![(p(1).0, t)]);
            }
        }
    }
    v
}
fn subids(l: Lvl) -> Vec<Vec<u64>> {
    let mut v: Vec<Vec<u64>> = vec![vec![], vec![300]];
    match l {
        Lvl::Tiny => v.push(vec![5, 20000]),
        Lvl::Med => {
            v.extend(vbis(Lvl::Med).into_iter().map(|x| vec![x]));
            v.push(vec![1, 1]);
            v.push(vec![1, 2, 3]);
            v.push(vec![3, 300, 20000, 3_000_000]);
            v.push(vec![9; 7]);
        }
        _ => {
            v.extend(vbis(l).into_iter().map(|x| vec![x]));
            let c = [1u64, 128, 16384, 2097152, 127, 16383, 2097151, 268435455];
            for n in 2..if l == Lvl::Large { 70 } else { 600 } {
                v.push((0..n).map(|i| c[i % 8] + (c[i % 8] == 1) as u64 * i as u64).collect());
                v.push((0..n).map(|i| i as u64 % 128).collect());
            }
            for a in c {
                for b in c {
                    for d in c {
                        v.push(vec![a, b, d]);
                    }
                    v.push(vec![a, b]);
                }
            }
        }
    }
    v
}
fn counts(l: Lvl) -> Vec<usize> {
    match l {
        Lvl::Tiny => vec![1, 2],
        Lvl::Med => vec![1, 2, 3, 7],
        Lvl::Large => (1..=140).chain([255, 256, 257, 300, 1000]).collect(),
        Lvl::Huge => (1..=2100).chain([4096, 16383, 16384, 65535, 65536]).collect(),
    }
}
fn filters(l: Lvl) -> Vec<Vec<Filt>> {
    let mut v: Vec<Vec<Filt>> = counts(l).into_iter().map(|n| (0..n as u64).map(filt_n).collect()).collect();
    if l >= Lvl::Med {
        for i in 0..36 {
            v.push(vec![filt_opt(i, text(33, 2))]);
        }
    }
    if l >= Lvl::Large {
        for i in 0..36 {
            for j in 0..36 {
                v.push(vec![filt_opt(i, text(33, 2)), filt_opt(j, text(34, 1))]);
            }
        }
        for t in texts(35, l) {
            v.push(vec![filt_opt(7, t.clone())]);
            if t.len() < 300 {
                v.push(vec![filt_opt(20, text(34, 1)), filt_opt(7, t)]);
            }
        }
    }
    v
}
fn unfilters(l: Lvl) -> Vec<Vec<B>> {
    let mut v: Vec<Vec<B>> = counts(l)
        .into_iter()
        .map(|n| (0..n as u64).map(|i| text(40 + i, (i % 4) as usize)).collect())
        .collect();
    if l >= Lvl::Med {
        for t in texts(35, l) {
            v.push(vec![t.clone()]);
            if t.len() < 300 {
                v.push(vec![text(34, 1), t]);
            }
        }
    }
    v
}
fn code_lists(k: u8, l: Lvl) -> Vec<Vec<u8>> {
    let c = codes(k);
    let mut v: Vec<Vec<u8>> =
        counts(l).into_iter().map(|n| (0..n).map(|i| c[(i * 5 + 1) % c.len()]).collect()).collect();
    if l >= Lvl::Med {
        v.extend(c.iter().map(|x| vec![*x]));
    }
    if l >= Lvl::Large {
        for a in c {
            for b in c {
                v.push(vec![*a, *b]);
                for d in c {
                    v.push(vec![*a, *b, *d]);
                }
            }
        }
    }
    v
}

pub fn domain(k: u8, s: Slot, l: Lvl) -> Vec<Val> {
    let seed = match s {
        Slot::Prop(id) => id as u64,
        Slot::WillProp(id) => 60 + id as u64,
        Slot::Text => 11,
        Slot::Payload => 12,
        Slot::WillTopic => 13,
        Slot::WillMsg => 14,
        Slot::User => 15,
        Slot::Pass => 16,
        _ => 17,
    };
    let n = |v: Vec<u64>| v.into_iter().map(Val::N).collect::<Vec<_>>();
    let by = |v: Vec<B>| v.into_iter().map(Val::Bytes).collect::<Vec<_>>();
    match s {
        Slot::Flag(_) | Slot::Retain | Slot::WillRetain => vec![Val::Bool(false), Val::Bool(true)],
        Slot::Qos | Slot::WillQos => n(vec![0, 1, 2]),
        Slot::U16 => n(u16s(l)),
        Slot::Code => {
            let c = codes(k);
            n(match l {
                Lvl::Tiny => vec![c[0] as u64, c[c.len() / 2] as u64],
                _ => c.iter().map(|x| *x as u64).collect(),
            })
        }
        Slot::Text | Slot::User | Slot::Pass => by(texts(seed, l)),
        Slot::Payload | Slot::WillMsg => by(bins(seed, l)),
        Slot::WillTopic => by(bins(seed, l)),
        Slot::Will => vec![Val::Bool(false), Val::Bool(true)],
        Slot::PropsForm | Slot::WillPropsForm => vec![Val::EmptyProps(false), Val::EmptyProps(true)],
        Slot::Users | Slot::WillUsers => pairs(l).into_iter().map(Val::Pairs).collect(),
        Slot::SubIds => subids(l).into_iter().map(Val::Ns).collect(),
        Slot::Filters => {
            if k == 8 {
                filters(l).into_iter().map(Val::Filts).collect()
            } else {
                unfilters(l).into_iter().map(Val::Texts).collect()
            }
        }
        Slot::Codes => code_lists(k, l).into_iter().map(Val::Codes).collect(),
        Slot::Prop(id) | Slot::WillProp(id) => {
            let mut v = vec![Val::Off];
            v.extend(match prop_type(id).unwrap() {
                T::Byte => n(u8s(l)),
                T::U16 => n(u16s(l)),
                T::U32 => n(u32s(l)),
                T::Vbi => n(vbis(l)),
                T::Str => by(texts(seed, l)),
                T::Bin => by(bins(seed, l)),
                T::Pair => unreachable!(),
            });
            v
        }
    }
}

fn set_prop(p: &mut Option<Props>, id: u8, v: &Val) {
    if let Some(p) = p {
        p.retain(|(i, _)| *i != id);
    }
    let mut put = |x: PV| p.get_or_insert_with(Vec::new).push((id, x));
    match v {
        Val::Off => {}
        Val::N(x) => put(match prop_type(id).unwrap() {
            T::Byte => PV::Byte(*x as u8),
            T::U16 => PV::U16(*x as u16),
            T::U32 => PV::U32(*x as u32),
            _ => PV::Vbi(*x),
        }),
        Val::Bytes(b) => put(if prop_type(id) == Some(T::Str) { PV::Str(b.clone()) } else { PV::Bin(b.clone()) }),
        Val::Pairs(l) => l.iter().for_each(|(a, b)| put(PV::Pair(a.clone(), b.clone()))),
        Val::Ns(l) => l.iter().for_each(|x| put(PV::Vbi(*x))),
        _ => unreachable!("harness: value"),
    }
}
fn set_form(p: &mut Option<Props>, some: bool) {
    if p.as_ref().is_none_or(|v| v.is_empty()) {
        *p = if some { Some(vec![]) } else { None };
    }
}
fn will_of(w: &mut Option<Will>) -> &mut Will {
    w.get_or_insert_with(|| Will { qos: 0, retain: false, topic: text(2, 1), message: B::new(), props: None })
}
fn bo(v: &Val) -> bool {
    matches!(v, Val::Bool(true))
}
fn nu(v: &Val) -> u64 {
    match v {
        Val::N(x) => *x,
        _ => unreachable!("harness: value"),
    }
}
fn by(v: &Val) -> B {
    match v {
        Val::Bytes(x) => x.clone(),
        _ => unreachable!("harness: value"),
    }
}

pub fn set(a: &mut Abs, s: Slot, v: &Val) {
    match s {
        Slot::PropsForm => {
            if let (Some(p), Val::EmptyProps(some)) = (props_mut(a), v) {
                set_form(p, *some);
            }
            return;
        }
        Slot::Prop(id) => {
            set_prop(props_mut(a).unwrap(), id, v);
            return;
        }
        Slot::Users => {
            set_prop(props_mut(a).unwrap(), 0x26, v);
            return;
        }
        Slot::SubIds => {
            set_prop(props_mut(a).unwrap(), 0x0B, v);
            return;
        }
        _ => {}
    }
    match (a, s) {
        (Abs::Connect { clean, .. }, Slot::Flag(_)) => *clean = bo(v),
        (Abs::Connect { keep_alive, .. }, Slot::U16) => *keep_alive = nu(v) as u16,
        (Abs::Connect { client_id, .. }, Slot::Text) => *client_id = by(v),
        (Abs::Connect { will, .. }, Slot::Will) => {
            if bo(v) {
                will_of(will);
            } else {
                *will = None;
            }
        }
        (Abs::Connect { will, .. }, Slot::WillQos) => will_of(will).qos = nu(v) as u8,
        (Abs::Connect { will, .. }, Slot::WillRetain) => will_of(will).retain = bo(v),
        (Abs::Connect { will, .. }, Slot::WillTopic) => will_of(will).topic = by(v),
        (Abs::Connect { will, .. }, Slot::WillMsg) => will_of(will).message = by(v),
        (Abs::Connect { will, .. }, Slot::WillPropsForm) => {
            if let Val::EmptyProps(some) = v {
                set_form(&mut will_of(will).props, *some);
            }
        }
        (Abs::Connect { will, .. }, Slot::WillProp(id)) => set_prop(&mut will_of(will).props, id, v),
        (Abs::Connect { will, .. }, Slot::WillUsers) => set_prop(&mut will_of(will).props, 0x26, v),
        (Abs::Connect { login, .. }, Slot::User) => login.get_or_insert_with(Default::default).0 = by(v),
        (Abs::Connect { login, .. }, Slot::Pass) => login.get_or_insert_with(Default::default).1 = by(v),
        (Abs::ConnAck { sp, .. }, Slot::Flag(_)) => *sp = bo(v),
        (Abs::ConnAck { code, .. }, Slot::Code) => *code = nu(v) as u16,
        (Abs::Publish { dup, .. }, Slot::Flag(_)) => *dup = bo(v),
        (Abs::Publish { qos, pkid, .. }, Slot::Qos) => {
            *qos = nu(v) as u8;
            if *qos > 0 && *pkid == 0 {
                *pkid = 0x0c;
            }
        }
        (Abs::Publish { retain, .. }, Slot::Retain) => *retain = bo(v),
        (Abs::Publish { topic, .. }, Slot::Text) => *topic = by(v),
        (Abs::Publish { pkid, .. }, Slot::U16) => *pkid = nu(v) as u16,
        (Abs::Publish { payload, .. }, Slot::Payload) => *payload = by(v),
        (Abs::Ack { pkid, .. }, Slot::U16)
        | (Abs::Subscribe { pkid, .. }, Slot::U16)
        | (Abs::SubAck { pkid, .. }, Slot::U16)
        | (Abs::Unsubscribe { pkid, .. }, Slot::U16)
        | (Abs::UnsubAck { pkid, .. }, Slot::U16) => *pkid = nu(v) as u16,
        (Abs::Ack { code, .. }, Slot::Code) | (Abs::Disconnect { code, .. }, Slot::Code) => *code = nu(v) as u8,
        (Abs::Subscribe { filters, .. }, Slot::Filters) => {
            if let Val::Filts(x) = v {
                *filters = x.clone();
            }
        }
        (Abs::Unsubscribe { filters, .. }, Slot::Filters) => {
            if let Val::Texts(x) = v {
                *filters = x.clone();
            }
        }
        (Abs::SubAck { codes, .. }, Slot::Codes) | (Abs::UnsubAck { codes, .. }, Slot::Codes) => {
            if let Val::Codes(x) = v {
                *codes = x.clone();
            }
        }
        _ => unreachable!("harness: slot"),
    }
}

pub fn bases(k: u8) -> Vec<Abs> {
    let mut v = vec![min(k)];
    for b in [mid(k), full(k)] {
        if !v.contains(&b) {
            v.push(b);
        }
    }
    v
}

/// Sends every value to `f`.
pub type Sink<'a> = &'a mut dyn FnMut(&Abs);

/// One field at a time over its whole (level) domain, from each base.
pub fn singles(k: u8, l: Lvl, part: (usize, usize), f: Sink) {
    for b in bases(k) {
        if part.0 == 0 {
            f(&b);
        }
        for (n, s) in slots(k).into_iter().enumerate() {
            if n % part.1 != part.0 {
                continue;
            }
            for v in domain(k, s, l) {
                let mut a = b.clone();
                set(&mut a, s, &v);
                f(&a);
            }
        }
    }
}

/// Every value of every 16-bit field.
pub fn words(k: u8, part: (usize, usize), f: Sink) {
    let base = min(k);
    for s in slots(k) {
        if !(s == Slot::U16 || matches!(s, Slot::Prop(id) if prop_type(id) == Some(T::U16))) {
            continue;
        }
        for x in (part.0 as u64..65536).step_by(part.1) {
            let mut a = base.clone();
            set(&mut a, s, &Val::N(x));
            f(&a);
        }
    }
}
/// All pairs of fields over the product of their domains.
pub fn pairs_of(k: u8, l: Lvl, part: (usize, usize), f: Sink) {
    let sl = slots(k);
    let dom: Vec<Vec<Val>> = sl.iter().map(|s| domain(k, *s, l)).collect();
    let mut n = 0;
    for b in bases(k) {
        for i in 0..sl.len() {
            for j in 0..sl.len() {
                if i == j {
                    continue;
                }
                // the order matters only where one field resets another
                let resets = |s: Slot| matches!(s, Slot::Will | Slot::Qos | Slot::PropsForm | Slot::WillPropsForm);
                if j < i && !resets(sl[i]) && !resets(sl[j]) {
                    continue;
                }
                n += 1;
                if n % part.1 != part.0 {
                    continue;
                }
                for v in &dom[i] {
                    let mut a = b.clone();
                    set(&mut a, sl[i], v);
                    for w in &dom[j] {
                        let mut a = a.clone();
                        set(&mut a, sl[j], w);
                        f(&a);
                    }
                }
            }
        }
    }
}

/// All `depth`-tuples of fields (in field order) over the product of the tiny domains.
pub fn tuples(k: u8, depth: usize, part: (usize, usize), f: Sink) {
    let sl = slots(k);
    let dom: Vec<Vec<Val>> = sl.iter().map(|s| domain(k, *s, Lvl::Tiny)).collect();
    fn go(a: &Abs, from: usize, left: usize, sl: &[Slot], dom: &[Vec<Val>], f: Sink) {
        if left == 0 {
            f(a);
            return;
        }
        for i in from..sl.len() {
            for v in &dom[i] {
                let mut b = a.clone();
                set(&mut b, sl[i], v);
                go(&b, i + 1, left - 1, sl, dom, f);
            }
        }
    }
    if sl.len() < depth {
        return;
    }
    let mut n = 0;
    for b in bases(k) {
        for i in 0..sl.len() {
            for v in &dom[i] {
                n += 1;
                if n % part.1 != part.0 {
                    continue;
                }
                let mut a = b.clone();
                set(&mut a, sl[i], v);
                go(&a, i + 1, depth - 1, &sl, &dom, f);
            }
        }
    }
}

/// Every subset of the properties (user properties and subscription identifiers: 0, 1 or 2 of them),
/// with distinctive values (set 0) or zero/empty ones (set 1). For CONNECT both sections together.
pub fn subsets(k: u8, set: u8, part: (u64, u64), f: Sink) {
    let Some(s) = sec_of(k) else { return };
    let ids: Vec<(Sec, u8)> = allowed(s)
        .iter()
        .map(|i| (s, *i))
        .chain(if k == 1 { allowed(Sec::Will).iter().map(|i| (Sec::Will, *i)).collect() } else { vec![] })
        .collect();
    let radix: Vec<u64> =
        ids.iter().map(|(s, i)| if repeatable(*s, *i) && ids.len() <= 16 { 3 } else { 2 }).collect();
    let total: u64 = radix.iter().product();
    for n in 0..total {
        if n % part.1 != part.0 {
            continue;
        }
        let mut a = mid(k);
        let mut x = n;
        let mut own = vec![];
        let mut will_p = vec![];
        for ((s, id), r) in ids.iter().zip(&radix) {
            let c = x % r;
            x /= r;
            for j in 0..c {
                let v = match (id, j) {
                    (0x26, 1) => PV::Pair(text(9, 1), text(8, 2)),
                    (0x0B, 1) => PV::Vbi(20_000),
                    _ => default_pv(*id, set),
                };
                if *s == Sec::Will {
                    will_p.push((*id, v));
                } else {
                    own.push((*id, v));
                }
            }
        }
        *props_mut(&mut a).unwrap() = if own.is_empty() && set == 0 { None } else { Some(own) };
        if let Abs::Connect { will, .. } = &mut a {
            if will_p.is_empty() && set == 1 {
                *will = None;
            } else {
                will_of(will).props = if will_p.is_empty() { None } else { Some(will_p) };
            }
        }
        f(&a);
    }
}

/// Grows a packet by exactly `n` bytes of content in the given place; `None`: not possible.
pub fn grow(a: &Abs, place: Slot, n: usize) -> Option<Abs> {
    let mut a = a.clone();
    match place {
        Slot::Payload => {
            if let Abs::Publish { payload, .. } = &mut a {
                *payload = bin(12, n);
                return Some(a);
            }
            None
        }
        Slot::Users | Slot::WillUsers => {
            let p = if place == Slot::Users {
                props_mut(&mut a)?
            } else {
                match &mut a {
                    Abs::Connect { will, .. } => &mut will_of(will).props,
                    _ => return None,
                }
            };
            let mut left = n;
            let mut i = 0;
            let v = p.get_or_insert_with(Vec::new);
            while left > 0 {
                // one pair takes 5 bytes plus its texts
                let mut take = left.min(5 + 65535);
                if left - take > 0 && left - take < 5 {
                    take -= 5;
                }
                if take < 5 {
                    return None;
                }
                v.push((0x26, PV::Pair(B::new(), text(i, take - 5))));
                left -= take;
                i += 1;
            }
            Some(a)
        }
        Slot::Filters => {
            let mut left = n;
            let mut i = 0;
            let unit = match &a {
                Abs::Subscribe { .. } => 3,
                Abs::Unsubscribe { .. } => 2,
                _ => return None,
            };
            while left > 0 {
                let mut take = left.min(unit + 65535);
                if left - take > 0 && left - take < unit {
                    take -= unit;
                }
                if take < unit {
                    return None;
                }
                let t = text(i, take - unit);
                match &mut a {
                    Abs::Subscribe { filters, .. } => filters.push(filt_opt(i, t)),
                    Abs::Unsubscribe { filters, .. } => filters.push(t),
                    _ => {}
                }
                left -= take;
                i += 1;
            }
            Some(a)
        }
        Slot::Codes => {
            let k = a.typ();
            match &mut a {
                Abs::SubAck { codes: c, .. } | Abs::UnsubAck { codes: c, .. } => {
                    let t = codes(k);
                    c.extend((0..n).map(|i| t[i % t.len()]));
                    Some(a)
                }
                _ => None,
            }
        }
        _ => None,
    }
}

/// What `grow` can be aimed at.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Measure {
    Remaining,
    Props,
    WillProps,
}
fn measure(a: &Abs, m: Measure) -> usize {
    let sec = |p: &Option<Props>| {
        let mut v = vec![];
        for (id, x) in p.iter().flatten() {
            put_prop(&mut v, *id, x);
        }
        v.len()
    };
    match m {
        Measure::Remaining => body(a, Form::Shortest).1.len(),
        Measure::Props => a.props().map_or(0, |p| sec(&Some(p.clone()))),
        Measure::WillProps => match a {
            Abs::Connect { will: Some(w), .. } => sec(&w.props),
            _ => 0,
        },
    }
}

pub fn places(k: u8) -> Vec<(Slot, Measure)> {
    let mut v = vec![];
    if sec_of(k).is_some() {
        v.push((Slot::Users, Measure::Remaining));
        v.push((Slot::Users, Measure::Props));
    }
    match k {
        1 => {
            v.push((Slot::WillUsers, Measure::Remaining));
            v.push((Slot::WillUsers, Measure::WillProps));
        }
        3 => v.push((Slot::Payload, Measure::Remaining)),
        8 | 10 => v.push((Slot::Filters, Measure::Remaining)),
        9 | 11 => v.push((Slot::Codes, Measure::Remaining)),
        _ => {}
    }
    v
}

/// Packets whose remaining length / property length is exactly each of `targets` (where reachable).
pub fn exact(k: u8, targets: &[usize], f: Sink) {
    for b in bases(k) {
        for (pl, m) in places(k) {
            for t in targets {
                // The measured length is the growth plus a constant plus the width of length fields: a few tries
                // around the difference find it if it exists.
                let base = measure(&b, m);
                for slack in 0..10usize {
                    let Some(n) = t.checked_sub(base + slack) else { break };
                    let Some(a) = grow(&b, pl, n) else { continue };
                    if measure(&a, m) == *t {
                        f(&a);
                        break;
                    }
                }
            }
        }
    }
}

pub fn thresholds(t: usize, w: usize) -> Vec<usize> {
    (t - w..=t + w).collect()
}


/// Changes of a text or binary value that keep its length (first, middle and last byte).
fn twins(b: &B) -> Vec<B> {
    let mut v = vec![];
    if b.is_empty() {
        return v;
    }
    for i in [0, b.len() / 2, b.len() - 1] {
        let mut x = b.to_vec();
        x[i] = if x[i] == b'z' { b'y' } else { b'z' };
        v.push(B::from(x));
    }
    v.dedup();
    v
}

/// Packets of a kind that differ from a base in one place; among them ones of the same length.
/// Groups of packets that differ in one field only, with every value of the field that equality might treat alike.
pub fn alike(k: u8, f: &mut dyn FnMut(Vec<Abs>)) {
    let bits = |n: u32| -> Vec<Val> {
        let mut v = vec![0u64, 1, 2, 3, 0x01020304 & ((1 << n) - 1), (1 << n) - 1, (1 << n) - 2];
        v.extend((0..n).map(|i| 1u64 << i));
        v.into_iter().map(Val::N).collect()
    };
    for b in bases(k) {
        for s in slots(k) {
            let mut vals = domain(k, s, if s == Slot::Code { Lvl::Large } else { Lvl::Med });
            match s {
                Slot::U16 => vals.extend(bits(16)),
                Slot::Prop(id) | Slot::WillProp(id) => match prop_type(id).unwrap() {
                    T::Byte => vals.extend(bits(8)),
                    T::U16 => vals.extend(bits(16)),
                    T::U32 => vals.extend(bits(32)),
                    T::Vbi => vals.extend(bits(28).into_iter().skip(1)),
                    _ => {}
                },
                _ => {}
            }
            if let Some(Val::Bytes(_)) = vals.last() {
                for n in [3usize, 5, 40, 70] {
                    let t = text(77, n);
                    vals.extend(twins(&t).into_iter().map(Val::Bytes));
                    vals.push(Val::Bytes(t));
                }
                for s in SPECIAL {
                    vals.push(Val::Bytes(B::from_static(s.as_bytes())));
                }
            }
            let abc = ["a", "b", "A", "", "ab"].map(|s| B::from_static(s.as_bytes()));
            match s {
                Slot::Users | Slot::WillUsers => {
                    let p: Vec<_> = (0..5).flat_map(|i| (0..5).map(move |j| (i, j))).map(|(i, j)| (abc[i].clone(), abc[j].clone())).collect();
                    for x in &p {
                        vals.push(Val::Pairs(vec![x.clone()]));
                    }
                    let q = [p[1].clone(), p[5].clone(), p[0].clone()];
                    for n in 2..=3 {
                        seqs(3, n, (0, 1), &mut |i| vals.push(Val::Pairs(i.iter().map(|i| q[*i].clone()).collect())));
                    }
                }
                Slot::SubIds => {
                    for n in 1..=3 {
                        seqs(4, n, (0, 1), &mut |i| vals.push(Val::Ns(i.iter().map(|i| [1u64, 2, 127, 128][*i]).collect())));
                    }
                }
                Slot::Filters if k == 8 => {
                    for n in 1..=3 {
                        seqs(4, n, (0, 1), &mut |i| {
                            vals.push(Val::Filts(i.iter().map(|i| filt_opt([0, 1, 35, 0][*i], abc[*i / 2].clone())).collect()))
                        });
                    }
                }
                Slot::Filters => {
                    for n in 1..=3 {
                        seqs(5, n, (0, 1), &mut |i| vals.push(Val::Texts(i.iter().map(|i| abc[*i].clone()).collect())));
                    }
                }
                Slot::Codes => {
                    let c = codes(k);
                    for n in 1..=3 {
                        seqs(4.min(c.len()), n, (0, 1), &mut |i| vals.push(Val::Codes(i.iter().map(|i| c[*i]).collect())));
                    }
                }
                _ => {}
            }
            let mut g = vec![];
            let mut seen = std::collections::HashSet::new();
            for x in vals {
                let mut a = b.clone();
                set(&mut a, s, &x);
                if seen.insert(a.clone()) {
                    g.push(a);
                }
            }
            f(g);
        }
    }
}
/// Contents that a careless summary (length, ends, sum, exclusive or, short prefix, polynomial) takes for the same.
pub fn likes(n: usize) -> Vec<B> {
    let base: Vec<u8> = text(9, n).to_vec();
    let mut v: Vec<Vec<u8>> = vec![base.clone()];
    let mut with = |e: &[(usize, i16)]| {
        let mut x = base.clone();
        for (i, d) in e {
            x[*i] = (x[*i] as i16 + d) as u8;
        }
        v.push(x);
    };
    let (m, l) = (n / 2, n - 1);
    with(&[(m, 1)]);
    with(&[(0, 1)]);
    with(&[(l, 1)]);
    if n > 1 {
        // same sum
        with(&[(0, 1), (l, -1)]);
        with(&[(m, 1), (m - 1, -1)]);
        with(&[(m, -1), (m - 1, 1)]);
        // same polynomial to the base of 31, 33, 37
        for b in [31i16, 33, 37] {
            if base[m] as i16 - b > 32 {
                with(&[(m - 1, 1), (m, -b)]);
            }
        }
    }
    if n > 2 {
        let mut x = base.clone();
        x.swap(m, l);
        v.push(x);
        let mut x = base.clone();
        x.reverse();
        v.push(x);
        let mut x = base.clone();
        x.rotate_left(1);
        v.push(x);
        // same exclusive or
        let mut x = base.clone();
        x[1] ^= 1;
        x[l] ^= 1;
        v.push(x);
    }
    // same when case is ignored
    let mut x = base.clone();
    x[m] = x[m].to_ascii_uppercase();
    v.push(x);
    // a part of it, and more than it
    v.push(base[..l].to_vec());
    v.push([&base[..], b"a"].concat());
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| std::str::from_utf8(x).is_ok() && seen.insert(x.clone()));
    v.into_iter().map(B::from).collect()
}
/// Groups of packets of which two differ in one field only, whose contents a careless summary takes for the same.
pub fn like_groups(k: u8, deep: bool, f: &mut dyn FnMut(Vec<Abs>)) {
    let lens: &[usize] = if deep { &[1, 2, 3, 4, 5, 8, 9, 16, 17, 33, 64, 70, 130, 300, 5000, 65_000] } else { &[2, 4, 9, 17, 40, 70, 300, 5000] };
    for b in [full(k), min(k)] {
        for s in slots(k) {
            let d = domain(k, s, Lvl::Med);
            let mut group = |vals: Vec<Val>| {
                let mut g: Vec<Abs> = vals
                    .iter()
                    .map(|x| {
                        let mut a = b.clone();
                        set(&mut a, s, x);
                        a
                    })
                    .collect();
                let mut seen = std::collections::HashSet::new();
                g.retain(|a| seen.insert(a.clone()));
                if g.len() > 1 {
                    f(g);
                }
            };
            match d.last() {
                Some(Val::Bytes(_)) => {
                    for n in lens {
                        group(likes(*n).into_iter().map(Val::Bytes).collect());
                    }
                }
                Some(Val::Pairs(_)) => {
                    for n in lens {
                        let l = likes(*n);
                        let o = text(4, 5);
                        group(l.iter().map(|x| Val::Pairs(vec![(x.clone(), o.clone())])).collect());
                        group(l.iter().map(|x| Val::Pairs(vec![(o.clone(), x.clone())])).collect());
                        group(l.iter().map(|x| Val::Pairs(vec![(x.clone(), l[0].clone()), (l[0].clone(), x.clone())])).collect());
                    }
                }
                Some(Val::Texts(_)) => {
                    for n in lens {
                        let l = likes(*n);
                        group(l.iter().map(|x| Val::Texts(vec![x.clone()])).collect());
                        group(l.iter().map(|x| Val::Texts(vec![l[0].clone(), x.clone(), l[1].clone()])).collect());
                    }
                }
                Some(Val::Filts(_)) => {
                    for n in lens {
                        let l = likes(*n);
                        group(l.iter().map(|x| Val::Filts(vec![filt_opt(5, x.clone())])).collect());
                        group(l.iter().map(|x| Val::Filts(vec![filt_opt(5, l[0].clone()), filt_opt(7, x.clone())])).collect());
                    }
                    group((0..36).map(|i| Val::Filts(vec![filt_opt(i, text(4, 5))])).collect());
                }
                Some(Val::Codes(_)) => {
                    let c = codes(k);
                    let x: Vec<_> = (0..9).map(|i| c[i % c.len()]).collect();
                    let mut v = vec![x.clone()];
                    for (i, j) in [(0, 1), (0, 8), (4, 5), (7, 8)] {
                        let mut y = x.clone();
                        y.swap(i, j);
                        v.push(y);
                        let mut y = x.clone();
                        y[i] = y[j];
                        v.push(y);
                    }
                    group(v.into_iter().map(Val::Codes).collect());
                }
                Some(Val::Ns(_)) => {
                    let v: Vec<Vec<u64>> = vec![vec![3, 4, 5], vec![4, 3, 5], vec![3, 5, 4], vec![5, 4, 3], vec![2, 5, 5], vec![3, 4, 6], vec![3, 4], vec![3, 4, 5, 1]];
                    group(v.into_iter().map(Val::Ns).collect());
                    let v = [1u64, 2, 0x81, 0x101, 0x201, 0x4001, 0x8001, 0x10001, 0x100_0001, 0x100, 0x10000, 0x8000];
                    group(v.into_iter().map(|x| Val::Ns(vec![x])).collect());
                }
                Some(Val::N(_)) => {
                    let wide = matches!(s, Slot::Prop(id) | Slot::WillProp(id) if matches!(prop_type(id), Some(T::U32 | T::Vbi)));
                    let word = s == Slot::U16 || matches!(s, Slot::Prop(id) | Slot::WillProp(id) if prop_type(id) == Some(T::U16));
                    if wide {
                        group([1u64, 2, 0x81, 0x101, 0x201, 0x8001, 0x10001, 0x100_0001, 0x100, 0x10000, 0x100_0000, 0x10100].into_iter().map(Val::N).collect());
                    } else if word {
                        group([1u64, 2, 0x81, 0x101, 0x201, 0x8001, 0x100, 0x200, 0x8000].into_iter().map(Val::N).collect());
                    }
                }
                _ => {}
            }
        }
    }
}
/// Groups of packets that differ in one byte of a long field or in one element of a long list.
pub fn long_alike(k: u8, deep: bool, f: &mut dyn FnMut(Vec<Abs>)) {
    let b = full(k);
    for s in slots(k) {
        let d = domain(k, s, Lvl::Med);
        let mut group = |vals: Vec<Val>| {
            f(vals
                .iter()
                .map(|x| {
                    let mut a = b.clone();
                    set(&mut a, s, x);
                    a
                })
                .collect())
        };
        let lens: &[usize] = match d.last() {
            Some(Val::Bytes(_)) if s == Slot::Payload => &[600, 5000, 70_000, 1_100_000],
            Some(Val::Bytes(_)) if deep => &[600, 5000, 20_000, 65_535],
            Some(Val::Bytes(_)) => &[600, 5000, 65_535],
            Some(Val::Pairs(_) | Val::Ns(_) | Val::Filts(_) | Val::Texts(_) | Val::Codes(_)) => &[20, 70, 300, 1100],
            _ => &[],
        };
        for n in lens.iter().copied() {
            let mut at: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
            for e in (2..20).map(|e| 1usize << e) {
                if n < 2000 || deep || e % 5 != 4 {
                    at.extend([e - 1, e]);
                }
            }
            at.retain(|i| *i < n);
            at.sort_unstable();
            at.dedup();
            let t = |i: usize| text(i as u64, 1 + i % 3);
            match d.last() {
                Some(Val::Bytes(_)) => {
                    let base = text(5, n);
                    let mut v = vec![Val::Bytes(base.clone()), Val::Bytes(base.slice(..n - 1))];
                    for i in at {
                        let mut x = base.to_vec();
                        x[i] = if x[i] == b'Q' { b'q' } else { b'Q' };
                        v.push(Val::Bytes(x.into()));
                    }
                    group(v);
                }
                Some(Val::Pairs(_)) => {
                    let base: Vec<_> = (0..n).map(|i| (t(i), t(i / 2))).collect();
                    let mut v = vec![Val::Pairs(base.clone()), Val::Pairs(base[1..].to_vec()), Val::Pairs(base[..n - 1].to_vec())];
                    for i in at {
                        let mut x = base.clone();
                        x[i].0 = B::from_static(b"other");
                        v.push(Val::Pairs(x));
                        let mut x = base.clone();
                        x[i].1 = B::from_static(b"other");
                        v.push(Val::Pairs(x));
                    }
                    group(v);
                }
                Some(Val::Ns(_)) => {
                    let base: Vec<u64> = (1..=n as u64).collect();
                    let mut v = vec![Val::Ns(base.clone()), Val::Ns(base[1..].to_vec()), Val::Ns(base[..n - 1].to_vec())];
                    for i in at {
                        let mut x = base.clone();
                        x[i] += 1000;
                        v.push(Val::Ns(x));
                    }
                    group(v);
                }
                Some(Val::Filts(_)) => {
                    let base: Vec<Filt> = (0..n as u64).map(|i| filt_opt(i % 36, t(i as usize))).collect();
                    let mut v = vec![Val::Filts(base.clone()), Val::Filts(base[1..].to_vec()), Val::Filts(base[..n - 1].to_vec())];
                    for i in at {
                        let mut x = base.clone();
                        x[i].path = B::from_static(b"other");
                        v.push(Val::Filts(x));
                        let mut x = base.clone();
                        x[i].nolocal = !x[i].nolocal;
                        v.push(Val::Filts(x));
                    }
                    group(v);
                }
                Some(Val::Texts(_)) => {
                    let base: Vec<B> = (0..n).map(t).collect();
                    let mut v = vec![Val::Texts(base.clone()), Val::Texts(base[1..].to_vec()), Val::Texts(base[..n - 1].to_vec())];
                    for i in at {
                        let mut x = base.clone();
                        x[i] = B::from_static(b"other");
                        v.push(Val::Texts(x));
                    }
                    group(v);
                }
                Some(Val::Codes(_)) => {
                    let c = codes(k);
                    let base: Vec<_> = (0..n).map(|i| c[(i + i / 7) % c.len()]).collect();
                    let mut v = vec![Val::Codes(base.clone()), Val::Codes(base[1..].to_vec()), Val::Codes(base[..n - 1].to_vec())];
                    for i in at {
                        let mut x = base.clone();
                        x[i] = if x[i] == c[0] { c[1] } else { c[0] };
                        v.push(Val::Codes(x));
                    }
                    group(v);
                }
                _ => {}
            }
        }
    }
}
pub fn variants(k: u8) -> Vec<Abs> {
    let mut v: Vec<Abs> = vec![];
    for b in bases(k) {
        v.push(b.clone());
        for s in slots(k) {
            let mut vals = domain(k, s, Lvl::Tiny);
            if let (Some(Val::Bytes(_)), false) = (vals.last().cloned(), s == Slot::Payload && b == mid(k)) {
                for n in [5usize, 40] {
                    let t = text(77, n);
                    vals.extend(twins(&t).into_iter().map(Val::Bytes));
                    vals.push(Val::Bytes(t));
                }
            }
            match s {
                Slot::Users | Slot::WillUsers => {
                    for (x, y) in [("kkkk", "vvvv"), ("kkkk", "vvvw"), ("kkkj", "vvvv"), ("vvvv", "kkkk")] {
                        vals.push(Val::Pairs(vec![(B::from_static(x.as_bytes()), B::from_static(y.as_bytes()))]));
                    }
                }
                Slot::Filters if k == 8 => {
                    for (x, o) in [("ffff", 0), ("ffff", 13), ("fffg", 0), ("gfff", 0)] {
                        vals.push(Val::Filts(vec![filt_opt(o, B::from_static(x.as_bytes()))]));
                    }
                }
                Slot::Filters => {
                    for x in ["ffff", "fffg", "gfff"] {
                        vals.push(Val::Texts(vec![B::from_static(x.as_bytes())]));
                    }
                }
                _ => {}
            }
            for x in vals {
                let mut a = b.clone();
                set(&mut a, s, &x);
                v.push(a);
            }
        }
    }
    // in order of first appearance, without repetition
    let mut seen = std::collections::HashSet::new();
    v.retain(|a| seen.insert(encode(a, Form::Shortest)));
    v
}
/// Packets in which different places have the same content, or one has the beginning of the other's: every pair of
/// places, everything at once.
pub fn echoes(k: u8, part: (usize, usize), f: Sink) {
    fn vals(k: u8, s: Slot, t: &B) -> Vec<Val> {
        let o = B::from_static(b"other");
        match s {
            Slot::Text | Slot::User | Slot::Pass | Slot::WillTopic | Slot::WillMsg | Slot::Payload => vec![Val::Bytes(t.clone())],
            Slot::Prop(id) | Slot::WillProp(id) if matches!(prop_type(id), Some(T::Str | T::Bin)) => vec![Val::Bytes(t.clone())],
            Slot::Users | Slot::WillUsers => [
                vec![(t, t)],
                vec![(t, &o)],
                vec![(&o, t)],
                vec![(t, t), (t, t)],
                vec![(t, &o), (&o, t)],
                vec![(&o, t), (t, &o), (&o, t)],
            ]
            .into_iter()
            .map(|v| Val::Pairs(v.into_iter().map(|(a, b)| (a.clone(), b.clone())).collect()))
            .collect(),
            Slot::Filters if k == 8 => vec![
                Val::Filts(vec![filt_opt(5, t.clone())]),
                Val::Filts(vec![filt_opt(5, t.clone()), filt_opt(1, t.clone())]),
                Val::Filts(vec![filt_opt(5, t.clone()), filt_opt(1, o.clone()), filt_opt(5, t.clone())]),
            ],
            Slot::Filters => vec![
                Val::Texts(vec![t.clone()]),
                Val::Texts(vec![t.clone(), t.clone()]),
                Val::Texts(vec![t.clone(), o.clone(), t.clone()]),
            ],
            _ => vec![],
        }
    }
    let mut n = 0;
    for b in bases(k) {
        for t in ["a", "same", "MQTT", "sixteen letters.", "a longer text, longer than what fits in some inline representation"] {
            let t = B::from_static(t.as_bytes());
            for u in [t.clone(), [&t[..], b"x"].concat().into(), t.slice(..t.len() - 1)] {
                let places: Vec<(Slot, Val)> = slots(k).into_iter().flat_map(|s| vals(k, s, &t).into_iter().map(move |v| (s, v))).collect();
                let others: Vec<(Slot, Val)> = slots(k).into_iter().flat_map(|s| vals(k, s, &u).into_iter().map(move |v| (s, v))).collect();
                for (s, x) in &places {
                    for (r, y) in &others {
                        n += 1;
                        if n % part.1 != part.0 || (s == r && x != y) {
                            continue;
                        }
                        let mut a = b.clone();
                        set(&mut a, *s, x);
                        set(&mut a, *r, y);
                        f(&a);
                    }
                }
                let mut a = b.clone();
                for (s, x) in &places {
                    set(&mut a, *s, x);
                }
                for (s, x) in others.iter().step_by(2) {
                    set(&mut a, *s, x);
                }
                f(&a);
            }
        }
    }
}
/// all index sequences of exactly `len` out of `n`
pub fn seqs(n: usize, len: usize, part: (usize, usize), f: &mut dyn FnMut(&[usize])) {
    let mut v = vec![0usize; len];
    let mut i = 0usize;
    loop {
        if i % part.1 == part.0 {
            f(&v);
        }
        i += 1;
        let mut k = len;
        loop {
            if k == 0 {
                return;
            }
            k -= 1;
            v[k] += 1;
            if v[k] < n {
                break;
            }
            v[k] = 0;
        }
    }
}
