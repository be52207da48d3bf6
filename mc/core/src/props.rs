//! Which bounded spaces decide which property, with which oracle.
use crate::abs::*;
use crate::after::*;
use crate::engine::*;
use crate::gen_frame::*;
use crate::gen_val::*;
use crate::hist::*;
use crate::model::*;
use crate::oracle::*;
use crate::parts::*;
use crate::print::*;
use crate::sched::END;
use crate::store::*;
use crate::sut::*;
use bytes::BytesMut;
use std::sync::Arc;

pub const PROPS: [&str; 33] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16",
    "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31",
    "C32", "C33",
];

/// Properties about histories are explored on one thread, so that state kept by the code anywhere in the process
/// sees exactly the explored history.
pub fn threads(prop: &str, n: usize) -> usize {
    if prop == "C15" {
        1
    } else if prop == "C27" {
        // each explores with two threads
        (n / 2).max(1)
    } else {
        n
    }
}

type VOracle = fn(&mut Ctx, &Abs);
type FOracle = fn(&mut Ctx, &[u8]);
type VGen = Arc<dyn Fn(u8, (usize, usize), Sink) + Send + Sync>;
type FGen = Arc<dyn Fn((usize, usize), FSink) + Send + Sync>;

struct J {
    t: Tier,
    cfgs: Vec<usize>,
    jobs: Vec<Job>,
}

impl J {
    fn job(&mut self, space: &'static str, cfg: usize, heavy: bool, name: String, run: impl Fn(&mut Ctx) + Send + Sync + 'static) {
        self.jobs.push(Job { name: format!("{space} / {name} / configuration {cfg}"), cfg, space, heavy, run: Box::new(run) });
    }
    /// a value space, per kind, in parts
    fn vals(&mut self, space: &'static str, kinds: &[u8], parts: usize, o: VOracle, g: impl Fn(u8, (usize, usize), Sink) + Send + Sync + 'static) {
        let g: VGen = Arc::new(g);
        for k in kinds {
            for p in 0..parts {
                for cfg in self.cfgs.clone() {
                    let (k, g) = (*k, g.clone());
                    self.job(space, cfg, false, format!("{} {p}/{parts}", kind_name(k)), move |c| {
                        g(k, (p, parts), &mut |a| c.case(|| val_desc(a), |c| o(c, a)))
                    });
                }
            }
        }
    }
    /// a frame space in parts
    fn frames(&mut self, space: &'static str, what: &str, parts: usize, o: FOracle, g: impl Fn((usize, usize), FSink) + Send + Sync + 'static) {
        let g: FGen = Arc::new(g);
        for p in 0..parts {
            for cfg in self.cfgs.clone() {
                let g = g.clone();
                self.job(space, cfg, false, format!("{what} {p}/{parts}"), move |c| {
                    g((p, parts), &mut |f| c.case(|| frame_desc(f), |c| o(c, f)))
                });
            }
        }
    }
    /// one job per configuration
    fn each(&mut self, space: &'static str, what: &str, run: impl Fn(&mut Ctx) + Send + Sync + 'static) {
        let run = Arc::new(run);
        for cfg in self.cfgs.clone() {
            let run = run.clone();
            self.job(space, cfg, false, what.into(), move |c| run(c));
        }
    }
    fn each_part(&mut self, space: &'static str, what: &str, parts: usize, run: impl Fn(&mut Ctx, (usize, usize)) + Send + Sync + 'static) {
        let run = Arc::new(run);
        for p in 0..parts {
            for cfg in self.cfgs.clone() {
                let run = run.clone();
                self.job(space, cfg, false, format!("{what} {p}/{parts}"), move |c| run(c, (p, parts)));
            }
        }
    }
    fn q<X>(&self, q: X, t: X) -> X {
        self.t.pick(q, t)
    }
}

// ------------------------------------------------------------------ spaces of values

const S_SINGLE: &str = "values: each field of each kind over its whole domain, from the bases (minimal, without properties, everything present)";
const S_PAIR: &str = "values: every pair of fields over the product of their boundary values, from the bases";
const S_TUPLE: &str = "values: every combination of fields up to the depth, over the tiny domains, from the bases";
const S_SUBSET: &str = "values: every subset of the properties (distinctive values; zero/empty values)";
const S_EXACT: &str = "values: remaining/property length exactly at and around every length threshold, grown in every possible place";
const S_MANY: &str = "values: lists of 65535 to 65537 elements (every list of every kind)";
const S_WORD: &str = "values: every value of every 16-bit field";
const S_ECHO: &str = "values: every pair of places with the same content, or one with the beginning of the other's; all places at once";
const S_LONG: &str = "values and frames: lists of hundreds of thousands of elements (every list of every kind)";
const S_HUGE: &str = "values: PUBLISH with the largest possible remaining length, and one more";
const S_UNREP: &str = "values: every field that can exceed its limit, below/at/above it, from the bases and combined in pairs";
const S_EMPTY: &str = "values: packets with empty lists";

/// The general space of packet values.
fn values(j: &mut J, o: VOracle) {
    let depth = j.q(4, 5);
    values_to(j, depth, o)
}
fn values_to(j: &mut J, depth: usize, o: VOracle) {
    let t = j.t;
    j.vals(S_TUPLE, &KINDS, 1, o, |k, p, f| tuples(k, 1, p, f));
    j.vals(S_TUPLE, &KINDS, 1, o, |k, p, f| tuples(k, 2, p, f));
    for (set, parts) in [(0u8, 4usize), (1, 4)] {
        j.vals(S_SUBSET, &KINDS, parts, o, move |k, p, f| subsets(k, set, (p.0 as u64, p.1 as u64), f));
    }
    j.vals(S_PAIR, &KINDS, 4, o, |k, p, f| pairs_of(k, Lvl::Med, p, f));
    j.vals(S_SINGLE, &KINDS, 6, o, move |k, p, f| singles(k, t.pick(Lvl::Large, Lvl::Huge), p, f));
    for d in 3..=depth {
        j.vals(S_TUPLE, &KINDS, if d > 3 { 16 } else { 4 }, o, move |k, p, f| tuples(k, d, p, f));
    }
    let w = j.q(4, 130);
    j.vals(S_EXACT, &KINDS, 2, o, move |k, p, f| {
        for (i, e) in [127usize, 255, 16383, 65535].into_iter().enumerate() {
            if i % p.1 == p.0 {
                exact(k, &thresholds(e, if e == 255 || e == 65535 { 2 } else { w.min(e) }), f)
            }
        }
    });
    let w = j.q(1, 6);
    j.vals(S_EXACT, &KINDS, 1, o, move |k, _, f| exact(k, &thresholds(2_097_151, w), f));
    j.vals(S_MANY, &KINDS, 1, o, |k, _, f| many(k, f));
    j.vals(S_WORD, &KINDS, 2, o, words);
    j.vals(S_ECHO, &KINDS, 2, o, echoes);
}
/// Lists longer than 16 bits can count.
fn many(k: u8, f: Sink) {
    many_of(k, &[65535, 65536, 65537], f)
}
fn many_of(k: u8, counts: &[usize], f: Sink) {
    let base = min(k);
    for s in slots(k) {
        for n in counts.iter().copied() {
            let t = |i: usize| text(i as u64, i % 2);
            let v = match s {
                Slot::Users | Slot::WillUsers => Val::Pairs((0..n).map(|i| (t(i), t(i / 3))).collect()),
                Slot::SubIds => Val::Ns((0..n as u64).map(|i| 1 + i % 200).collect()),
                Slot::Filters if k == 8 => Val::Filts((0..n as u64).map(filt_n).collect()),
                Slot::Filters => Val::Texts((0..n).map(|i| text(i as u64, 1 + i % 2)).collect()),
                Slot::Codes => Val::Codes((0..n).map(|i| codes(k)[i % codes(k).len()] as u8).collect()),
                _ => continue,
            };
            let mut a = base.clone();
            set(&mut a, s, &v);
            f(&a);
        }
    }
}
/// 256 MB packets; only where a property is about sizes.
fn huge(j: &mut J, o: VOracle) {
    for cfg in j.cfgs.clone() {
        if cfg > 0 && j.t == Tier::Quick {
            continue;
        }
        j.job(S_HUGE, cfg, true, "PUBLISH".into(), move |c| {
            for over in [0usize, 1] {
                let a = Abs::Publish {
                    dup: false,
                    qos: 0,
                    retain: false,
                    topic: text(1, 1),
                    pkid: 0,
                    props: None,
                    payload: vec![0u8; VBI_MAX as usize - 4 + over].into(),
                };
                c.case(|| format!("value PUBLISH with remaining length 268435455 + {over}"), |c| o(c, &a));
            }
        });
    }
}
fn empties(f: Sink) {
    for k in [8u8, 9, 10, 11] {
        for b in bases(k) {
            let mut a = b.clone();
            match &mut a {
                Abs::Subscribe { filters, .. } => filters.clear(),
                Abs::Unsubscribe { filters, .. } => filters.clear(),
                Abs::SubAck { codes, .. } | Abs::UnsubAck { codes, .. } => codes.clear(),
                _ => {}
            }
            f(&a);
        }
    }
}

/// Changes that push a packet to, or over, what can be represented.
fn pushes(k: u8) -> Vec<(Slot, Val)> {
    let mut v: Vec<(Slot, Val)> = vec![];
    let lens = [65534usize, 65535, 65536, 65537, 70_000, 131_071, 131_072, 131_077];
    for s in slots(k) {
        let textual = match s {
            Slot::Text | Slot::User | Slot::Pass => Some(true),
            Slot::WillTopic | Slot::WillMsg => Some(false),
            Slot::Prop(id) | Slot::WillProp(id) => match prop_type(id) {
                Some(T::Str) => Some(true),
                Some(T::Bin) => Some(false),
                _ => None,
            },
            _ => None,
        };
        if let Some(t) = textual {
            for n in lens {
                v.push((s, Val::Bytes(if t { text(3, n) } else { bin(3, n) })));
            }
            if t {
                for ch in ["\u{e9}", "\u{20ac}", "\u{1d11e}"] {
                    for n in [65534usize, 65536, 66_000, 131_072] {
                        let whole = n.div_ceil(ch.len());
                        v.push((s, Val::Bytes(B::from(ch.repeat(whole).into_bytes()))));
                    }
                }
            }
        }
        match s {
            Slot::Users | Slot::WillUsers => {
                for n in lens {
                    v.push((s, Val::Pairs(vec![(text(1, n), text(2, 1))])));
                    v.push((s, Val::Pairs(vec![(text(1, 1), text(2, n))])));
                    v.push((s, Val::Pairs(vec![(text(1, 1), text(2, 2)), (text(1, 1), text(2, n)), (text(1, 1), text(2, 2))])));
                }
                let wide = B::from("\u{20ac}".repeat(22_000).into_bytes());
                v.push((s, Val::Pairs(vec![(wide.clone(), text(2, 1))])));
                v.push((s, Val::Pairs(vec![(text(2, 1), wide)])));
            }
            Slot::SubIds => {
                for n in SUBID_EDGE {
                    v.push((s, Val::Ns(vec![n])));
                    v.push((s, Val::Ns(vec![1, n])));
                    v.push((s, Val::Ns(vec![n, 1])));
                }
            }
            Slot::Prop(0x0B) => v.extend(SUBID_EDGE.iter().map(|n| (s, Val::N(*n)))),
            Slot::Filters => {
                for n in lens {
                    v.push((
                        s,
                        if k == 8 {
                            Val::Filts(vec![filt_opt(5, text(1, n))])
                        } else {
                            Val::Texts(vec![text(1, n)])
                        },
                    ));
                    v.push((
                        s,
                        if k == 8 {
                            Val::Filts(vec![filt_n(1), filt_n(2), filt_opt(5, text(1, n))])
                        } else {
                            Val::Texts(vec![text(1, 1), text(1, 2), text(1, n)])
                        },
                    ));
                }
            }
            Slot::Code if k == 2 => v.extend(LEGACY_CODES.iter().map(|x| (s, Val::N(*x as u64)))),
            Slot::Qos => v.extend([0u64, 1, 2].map(|x| (s, Val::N(x)))),
            Slot::U16 => v.extend([0u64, 1, 65535].map(|x| (s, Val::N(x)))),
            _ => {}
        }
    }
    v
}
const SUBID_EDGE: [u64; 12] = [
    0,
    1,
    127,
    128,
    VBI_MAX - 1,
    VBI_MAX,
    VBI_MAX + 1,
    VBI_MAX + 2,
    0x1000_0001 << 4,
    u32::MAX as u64,
    u32::MAX as u64 + 2,
    u64::MAX,
];
fn unreps(k: u8, part: (usize, usize), f: Sink) {
    let v = pushes(k);
    // a packet identifier of 0 with QoS 1 or 2 is reached by setting the identifier after the QoS
    let mut n = 0;
    for b in bases(k) {
        for (s, x) in &v {
            n += 1;
            if n % part.1 != part.0 {
                continue;
            }
            let mut a = b.clone();
            set(&mut a, *s, x);
            f(&a);
            for (s2, x2) in &v {
                let long = |x: &Val| match x {
                    Val::Bytes(b) => !matches!(b.len(), 65535 | 65536),
                    Val::Pairs(p) => p.len() != 1 || !matches!(p[0].0.len().max(p[0].1.len()), 65535 | 65536),
                    Val::Filts(p) => p.len() != 1 || !matches!(p[0].path.len(), 65535 | 65536),
                    Val::Texts(p) => p.len() != 1 || !matches!(p[0].len(), 65535 | 65536),
                    Val::Ns(p) => p.len() != 1 || !matches!(p[0], VBI_MAX | 268_435_456),
                    _ => false,
                };
                if s != s2 && !long(x) && !long(x2) {
                    let mut a = a.clone();
                    set(&mut a, *s2, x2);
                    f(&a);
                }
            }
        }
    }
}

// ------------------------------------------------------------------ spaces of frames

const F_FORMS: &str = "frames: the value spaces in every written form the standard allows";
const F_ORDER: &str = "frames: every ordered sequence of properties up to the depth (repetition included), in every property section";
const F_PERM: &str = "frames: permutations of complete property sets";
const F_EDIT1: &str = "frames: every substitution, insertion, deletion of one byte, every truncation and every first byte, from every seed frame";
const F_EDIT2: &str = "frames: every pair of edits (reduced alphabet) from every small seed frame";
const F_RAW: &str = "frames: every body up to the length bound behind the first bytes";
const F_ALPHA: &str = "frames: every body over a structural alphabet up to the length bound";
const F_DELIM: &str = "frames: property sections of up to the depth of items with every declared length from 0 to past the frame end";
const F_STRETCH: &str = "frames: the seed frames with the remaining length in 2 to 4 bytes although fewer would do, every prefix, with a following frame, under limits around the length";
const F_SEED: &str = "frames: seed frames (well-formed, every kind, property and form)";
const F_HEAD: &str = "streams: first byte x announced length x bytes present";
const F_BIG: &str = "frames: large frames (long payloads, many list elements)";

/// First bytes: every packet type with its proper flags, and the improper ones worth telling apart.
const FIRST: [u8; 24] = [
    0x00, 0x10, 0x20, 0x30, 0x31, 0x32, 0x34, 0x36, 0x3b, 0x3d, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xc0,
    0xd0, 0xe0, 0xf0, 0x60, 0xff,
];
const CANON: [u8; 14] = [0x10, 0x20, 0x30, 0x32, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xe0, 0xc0];

fn seed_frames(j: &mut J, o: FOracle) {
    for k in KINDS {
        j.frames(F_SEED, kind_name(k), 1, o, move |_, f| seeds(k).iter().for_each(|s| f(s)));
    }
}
/// every seed frame with its remaining length written longer than necessary
fn stretched_frames(j: &mut J) {
    for k in KINDS {
        let t = j.t;
        j.frames(F_STRETCH, kind_name(k), 1, f_stretched, move |_, f| {
            seeds(k).iter().filter(|s| s.len() <= t.pick(40, 140)).for_each(|s| f(s))
        });
    }
}
fn edit1_frames(j: &mut J, o: FOracle) {
    let max = j.q(70, 140);
    for k in KINDS {
        let parts = match k {
            1 => 16,
            2 | 3 => 8,
            12 | 13 => 1,
            _ => 2,
        };
        j.frames(F_EDIT1, kind_name(k), parts, o, move |p, f| {
            for (n, s) in seeds(k).iter().filter(|s| s.len() <= max).enumerate() {
                if n % p.1 == p.0 {
                    edits1(s, f);
                }
            }
        });
    }
}
fn edit2_frames(j: &mut J, o: FOracle) {
    let max = j.q(18, 40);
    for k in KINDS {
        let parts = if k > 11 { 1 } else { j.q(4, 16) };
        j.frames(F_EDIT2, kind_name(k), parts, o, move |p, f| {
            let mut s = seeds(k);
            s.retain(|s| s.len() <= max);
            s.truncate(if max > 18 { 40 } else { 12 });
            for s in s {
                edits2(&s, p, f);
            }
        });
    }
}
fn raw_frames(j: &mut J, o: FOracle) {
    j.frames(F_RAW, "all first bytes, up to 1 byte", 1, o, |_, f| {
        for b in 0..=255u8 {
            raw(b, 0, f);
            raw(b, 1, f);
        }
    });
    if j.t == Tier::Quick {
        for b in CANON {
            j.frames(F_RAW, "2 bytes", 1, o, move |_, f| raw(b, 2, f));
        }
    } else {
        for b in 0..=255u8 {
            j.frames(F_RAW, "2 bytes", 1, o, move |_, f| raw(b, 2, f));
        }
        for b in CANON {
            j.frames(F_RAW, "3 bytes", 1, o, move |_, f| raw(b, 3, f));
        }
    }
}
fn alpha_frames(j: &mut J, o: FOracle) {
    const A: [u8; 8] = [0x00, 0x01, 0x02, 0x04, 0x26, 0x1f, 0x80, 0xff];
    const P: [u8; 6] = [0x00, 0x01, 0x02, 0x0b, 0x03, 0x83];
    let n = j.q(5, 7);
    for b in FIRST {
        j.frames(F_ALPHA, "8 letters", 1, o, move |_, f| {
            for m in 3..=n {
                raw_alpha(b, &A, m, f)
            }
        });
    }
    for b in [0x30u8, 0x32, 0x82, 0xa2] {
        j.frames(F_ALPHA, "6 letters", 1, o, move |_, f| {
            for m in 3..=n + 1 {
                raw_alpha(b, &P, m, f)
            }
        });
    }
}
fn order_frames(j: &mut J, o: FOracle) {
    for s in SECS {
        let n = allowed(s).len();
        let d = match n {
            1..=2 => j.q(6, 9),
            3..=4 => j.q(5, 7),
            5..=9 => j.q(4, 5),
            _ => j.q(3, 4),
        };
        j.frames(F_ORDER, &format!("{s:?} depth {d}"), 2, o, move |p, f| orders(s, d, p, f));
    }
    for s in SECS {
        let n = j.q(7, 9);
        j.frames(F_PERM, &format!("{s:?}"), 1, o, move |_, f| permutations(s, n, f));
    }
}
fn delim_frames(j: &mut J, o: FOracle) {
    for d in 1..=j.q(2, 3) {
        for s in SECS {
            let d = if d == 3 && allowed(s).len() <= 4 { 4 } else { d };
            j.frames(F_DELIM, &format!("{s:?} depth {d}"), if d > 2 { 8 } else { 2 }, o, move |p, f| delimit(s, d, p, f));
        }
    }
}
fn form_frames(j: &mut J, o: FOracle) {
    // the same spaces of values, written down by the model
    let t = j.t;
    let all: Vec<(&'static str, usize, Arc<dyn Fn(u8, (usize, usize), Sink) + Send + Sync>)> = vec![
        ("pairs of fields (tiny)", 1, Arc::new(|k, p, f| tuples(k, 2, p, f))),
        ("subsets of properties", 4, Arc::new(|k, p, f| subsets(k, 0, (p.0 as u64, p.1 as u64), f))),
        ("subsets of properties, zero values", 4, Arc::new(|k, p, f| subsets(k, 1, (p.0 as u64, p.1 as u64), f))),
        ("pairs of fields", 4, Arc::new(|k, p, f| pairs_of(k, Lvl::Med, p, f))),
        ("single fields", 6, Arc::new(move |k, p, f| singles(k, t.pick(Lvl::Large, Lvl::Huge), p, f))),
        ("triples of fields", 4, Arc::new(|k, p, f| tuples(k, 3, p, f))),
        ("lengths", 1, Arc::new(|k, _, f| {
            for e in [127usize, 16383] {
                exact(k, &thresholds(e, 4), f)
            }
            exact(k, &thresholds(2_097_151, 1), f)
        })),
        ("very long lists", 1, Arc::new(|k, _, f| many(k, f))),
    ];
    for (what, parts, g) in all {
        for k in KINDS {
            let g = g.clone();
            j.frames(F_FORMS, &format!("{what} {}", kind_name(k)), parts, o, move |p, f| {
                g(k, p, &mut |a| {
                    if unrepresentable(a).is_none() && a.lists_ok() {
                        for x in forms(a) {
                            f(&x);
                        }
                    }
                })
            });
        }
    }
    if t == Tier::Thorough {
        for k in KINDS {
            j.frames(F_FORMS, &format!("4 fields {}", kind_name(k)), 8, o, move |p, f| {
                tuples(k, 4, p, &mut |a| {
                    if unrepresentable(a).is_none() && a.lists_ok() {
                        for x in forms(a) {
                            f(&x);
                        }
                    }
                })
            });
        }
    }
}
/// Large frames as the model writes them.
fn big_frames(j: &mut J, o: FOracle) {
    for k in KINDS {
        j.frames(F_BIG, kind_name(k), 1, o, move |_, f| {
            for e in [300usize, 5000, 16383, 16384, 70_000, 1_000_000, 2_097_152] {
                exact(k, &[e], &mut |a| {
                    if a.lists_ok() {
                        f(&encode(a, Form::Full))
                    }
                })
            }
        });
    }
}
/// All announced lengths worth telling apart.
fn announced(t: Tier) -> Vec<u64> {
    vbis(t.pick(Lvl::Large, Lvl::Huge))
}
/// Streams: first byte x announced length x number of body bytes present, incomplete headers, endless headers.
fn head_streams(t: Tier, all: bool, p: (usize, usize), f: FSink) {
    let ann = announced(t);
    let first: Vec<u8> = if t == Tier::Quick || !all { FIRST.to_vec() } else { (0..=255).collect() };
    for (n, b1) in first.into_iter().enumerate() {
        if n % p.1 != p.0 {
            continue;
        }
        f(&[]);
        f(&[b1]);
        // headers whose length does not end, and ends in the fifth byte or later
        for c in [0x80u8, 0x81, 0xff] {
            for k in 1..=9usize {
                let mut s = vec![b1];
                s.extend(std::iter::repeat_n(c, k));
                f(&s);
                for e in [0u8, 1, 0x7f] {
                    let mut s = s.clone();
                    s.push(e);
                    if k >= 4 {
                        f(&s);
                        s.extend([0; 5]);
                        f(&s);
                    }
                }
            }
        }
        for a in &ann {
            let mut h = vec![b1];
            put_vbi(&mut h, *a);
            for cut in 1..h.len() {
                f(&h[..cut]);
            }
            let a = *a as usize;
            let mut av = vec![0usize, 1, 2, 3, 5];
            if a < 70_000 {
                av.extend([a.saturating_sub(2), a.saturating_sub(1), a, a + 1]);
            }
            av.sort_unstable();
            av.dedup();
            if a > 20_000 && a < 70_000 && b1 & 0x0f != 0 {
                av.retain(|x| *x <= 5);
            }
            for n in av {
                let mut s = h.clone();
                s.resize(h.len() + n, 0);
                f(&s);
            }
        }
    }
}
fn heads(j: &mut J, o: FOracle) {
    let t = j.t;
    j.frames(F_HEAD, "headers", t.pick(8, 64), o, move |p, f| head_streams(t, true, p, f));
}
/// With a choice of first bytes.
fn heads_some(j: &mut J, o: FOracle) {
    let t = j.t;
    j.frames(F_HEAD, "headers", t.pick(8, 64), o, move |p, f| head_streams(t, false, p, f));
}

// ------------------------------------------------------------------ small oracles

fn f_need_any(c: &mut Ctx, s: &[u8]) {
    // non-minimal lengths are not produced by head_streams except in the endless ones, which have a verdict
    if let Vbi::Ok { minimal: false, .. } = get_vbi(s.get(1..).unwrap_or(&[])) {
        return;
    }
    let sut = c.sut;
    c.fresh();
    need_case(c, sut, s);
}

fn accept_all(c: &mut Ctx, f: &[u8]) {
    f_accept(c, f);
    if !c.failing() {
        f_accept_kind(c, f);
    }
}

/// C04: with every kind of limit as well
fn f_nopanic_limits(c: &mut Ctx, f: &[u8]) {
    f_nopanic(c, f);
    let sut = c.sut;
    for lim in [0, 1, f.len(), VBI_MAX as usize, usize::MAX] {
        let mut b = BytesMut::from(f);
        c.ok("decode with limit", || sut.read(&mut b, Some(lim)));
        c.ok("check with limit", || sut.check(f, Some(lim)));
    }
}

/// C07: one stream content under one limit
fn f_limit(c: &mut Ctx, s: &[u8]) {
    if let Vbi::Ok { minimal: false, .. } = get_vbi(s.get(1..).unwrap_or(&[])) {
        return;
    }
    let sut = c.sut;
    let rl = match get_vbi(s.get(1..).unwrap_or(&[])) {
        Vbi::Ok { val, .. } => val as usize,
        _ => 0,
    };
    c.fresh();
    // without limit
    let mut b0 = BytesMut::from(s);
    let Ok(r0) = c.call(|| sut.read(&mut b0, None)) else { return };
    let Ok(k0) = c.call(|| sut.check(s, None)) else { return };
    let r0 = res(&r0);
    let mut lims = vec![
        0usize,
        1,
        rl.saturating_sub(1),
        rl,
        rl + 1,
        rl + 5,
        rl / 2,
        127,
        128,
        VBI_MAX as usize - 1,
        VBI_MAX as usize,
        VBI_MAX as usize + 1,
        u32::MAX as usize,
        usize::MAX,
        // beyond 32 bits and what is left of them when cut to fewer bits
        1 << 32,
        (1 << 32) + 1,
        (1 << 32) + rl.saturating_sub(1),
        (1 << 40) + 1,
        1 << 63,
        (1 << 63) + rl.saturating_sub(1),
        0xffff,
        0x1_0000,
        0x1_0001,
        (1 << 28) + 1,
        (1 << 31) - 1,
        1 << 31,
    ];
    lims.sort_unstable();
    lims.dedup();
    for lim in lims {
        let h = header(s, Some(lim));
        c.state(key(&[
            s.len().min(8) as u64,
            rl as u64,
            lim as u64,
            matches!(h, Hdr::TooBig { .. }) as u64,
        ]));
        let mut b = BytesMut::from(s);
        let Ok(r) = c.call(|| sut.read(&mut b, Some(lim))) else { continue };
        let Ok(k) = c.call(|| sut.check(s, Some(lim))) else { continue };
        let r = res(&r);
        if let Hdr::TooBig { rl, max } = h {
            if r != Res::Big(rl, max) {
                c.fail("not-refused", format!("limit {max}, announced {rl}, {} bytes present: read gives {}", s.len(), show(&r)));
            } else if k != (COut::Big { pkt: rl, max }) {
                c.fail("not-refused-check", format!("limit {max}, announced {rl}: check gives {k:?}"));
            } else if b[..] != s[..] {
                c.fail("refusal-consumes", format!("limit {max}, announced {rl}: stream went from {} to {} bytes", s.len(), b.len()));
            }
            c.saw("refused");
        } else {
            if r != r0 || b != b0 {
                c.fail(
                    "limit-matters",
                    format!("limit {lim}, announced {rl}, {} bytes present: {} instead of {}", s.len(), show(&r), show(&r0)),
                );
            } else if k != k0 {
                c.fail("limit-matters-check", format!("limit {lim}, announced {rl}: check gives {k:?} instead of {k0:?}"));
            }
            c.saw("as without limit");
        }
        if c.failing() {
            return;
        }
    }
}

/// value: encoded exactly, or refused exactly
fn v_exact(c: &mut Ctx, a: &Abs) {
    if good(a) {
        v_wellformed(c, a);
        if !c.failing() {
            v_roundtrip(c, a);
        }
    } else {
        v_fail(c, a);
    }
}

/// C19: well-formed at every buffer position, and round trip
fn v_positions(c: &mut Ctx, a: &Abs) {
    v_exact(c, a);
    if c.failing() || !good(a) {
        return;
    }
    let sut = c.sut;
    let p = sut.build(a);
    for prior in [1usize, 2, 7, 9, 10, 14, 130, 300] {
        let mut b = BytesMut::new();
        b.resize(prior, 0x5a);
        let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
        if r.is_err() {
            c.fail("refused-behind", format!("encode fails behind {prior} bytes"));
            return;
        }
        if b.len() < prior {
            c.fail("damage", "buffer shrank".into());
            return;
        }
        let n = c.viol.len();
        judge_bytes(c, a, &b[prior..]);
        if c.failing() || c.viol.len() > n {
            return;
        }
    }
}

/// C20: decode as the model says, and what was decoded encodes to the same bytes again
fn f_text(c: &mut Ctx, f: &[u8]) {
    f_both(c, f);
    if c.failing() || !is_whole(f) {
        return;
    }
    let sut = c.sut;
    if let Verdict::Accept(a) = decode(f, sut.utf8(), &mut NoTr) {
        v_wellformed(c, &a);
    }
}
fn is_whole(f: &[u8]) -> bool {
    matches!(header(f, None), Hdr::Frame { hl, rl } if hl + rl == f.len())
}

// ------------------------------------------------------------------ jobs

pub fn jobs(prop: &str, t: Tier) -> Vec<Job> {
    let mut j = J { t, cfgs: vec![0, 1, 2, 3], jobs: vec![] };
    match prop {
        "C01" => {
            values(&mut j, v_roundtrip);
            if t == Tier::Thorough {
                huge(&mut j, v_roundtrip);
            }
        }
        "C02" => {
            values(&mut j, v_wellformed);
            if t == Tier::Thorough {
                huge(&mut j, v_wellformed);
            }
        }
        "C03" => {
            seed_frames(&mut j, accept_all);
            order_frames(&mut j, accept_all);
            form_frames(&mut j, f_accept);
            big_frames(&mut j, f_accept);
        }
        "C04" => c04(&mut j),
        "C05" => c05(&mut j),
        "C06" => c06(&mut j),
        "C07" => c07(&mut j),
        "C08" => {
            values(&mut j, v_size);
            j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_size(c, a))));
            huge(&mut j, v_size);
            places(&mut j, Aspect::Count);
        }
        "C09" => c09(&mut j),
        "C10" => c10(&mut j),
        "C11" => {
            seed_frames(&mut j, f_reject);
            raw_frames(&mut j, f_reject);
            alpha_frames(&mut j, f_reject);
            edit1_frames(&mut j, f_reject);
            edit2_frames(&mut j, f_reject);
            delim_frames(&mut j, f_reject);
        }
        "C12" => {
            delim_frames(&mut j, f_both);
            order_frames(&mut j, f_both);
        }
        "C13" => c13(&mut j),
        "C14" => {
            seed_frames(&mut j, f_stable);
            raw_frames(&mut j, f_stable);
            edit1_frames(&mut j, f_stable);
            alpha_frames(&mut j, f_stable);
            delim_frames(&mut j, f_stable);
            order_frames(&mut j, f_stable);
            edit2_frames(&mut j, f_stable);
            big_frames(&mut j, f_stable);
            if t == Tier::Thorough {
                form_frames(&mut j, f_stable);
            }
        }
        "C15" => c15(&mut j),
        "C16" => c16(&mut j),
        "C17" => c17(&mut j),
        "C18" => c18(&mut j),
        "C19" => c19(&mut j),
        "C20" => c20(&mut j),
        "C21" => c21(&mut j),
        "C22" => c22(&mut j),
        "C23" => c23(&mut j),
        "C24" => c24(&mut j),
        "C25" => c25(&mut j),
        "C26" => c26(&mut j),
        "C27" => c27(&mut j),
        "C28" => c28(&mut j),
        "C29" => c29(&mut j),
        "C30" => c30(&mut j),
        "C31" => c31(&mut j),
        "C32" => c32(&mut j),
        "C33" => c33(&mut j),
        _ => {}
    }
    j.jobs
}

fn c04(j: &mut J) {
    heads(j, f_nopanic_limits);
    seed_frames(j, f_nopanic_limits);
    raw_frames(j, f_nopanic);
    alpha_frames(j, f_nopanic);
    edit1_frames(j, f_nopanic);
    delim_frames(j, f_nopanic);
    edit2_frames(j, f_nopanic);
    big_frames(j, f_nopanic);
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_nopanic(c, a))));
    j.vals(S_UNREP, &KINDS, 2, v_nopanic, |k, p, f| unreps(k, p, f));
    values(j, v_nopanic);
    huge(j, v_nopanic);
    // recursion and the like: the explorer's threads have stacks of 2 MB, as threads usually have
    let n = j.q(&[1000usize, 400_000][..], &[1000, 400_000, 4_000_000]);
    for k in KINDS {
        j.each(S_LONG, kind_name(k), move |c| {
            many_of(k, n, &mut |a| {
                c.case(|| val_desc(a).chars().take(300).collect(), |c| v_nopanic(c, a));
                let f = encode(a, Form::Full);
                c.case(|| frame_desc(&f).chars().take(300).collect(), |c| f_nopanic(c, &f));
            })
        });
    }
    // public functions over all bytes
    j.each("functions: every byte value in every byte-taking public function", "bytes", |c| {
        for n in 0..=255u8 {
            c.case(
                || format!("byte {n}"),
                |c| {
                    let sut = c.sut;
                    c.fresh();
                    c.state(n as u64);
                    c.ok("qos", || sut.qos(n));
                    c.ok("DisconnectReasonCode::try_from", || sut.disconnect_code(n));
                    for (a, b) in [(1usize, 0usize), (4, VBI_MAX as usize), (0, 0), (1, usize::MAX >> 1)] {
                        c.ok("FixedHeader", || sut.header(n, a, b));
                    }
                    c.saw("byte");
                },
            );
        }
    });
}

const H_SEQ: &str = "histories: every sequence of frames (well-formed and malformed, all kinds) up to the depth, read from one buffer";
const H_FIFO: &str = "histories: every sequence of encode/decode/forward operations up to the depth on one buffer, from every buffer state";
const H_CHUNK: &str = "schedules: every division of a short stream into arrivals; bounded numbers of cuts at every position of long streams";
const H_HINT: &str = "schedules: a reader that fetches exactly the number of bytes asked for, from every starting point";
const H_LIM: &str = "histories: every sequence of size limits over a stream of frames";
const H_CALL: &str = "histories: every sequence of calls (decode, partial decode, refused decode, encode, size) up to the depth";
const H_REP: &str = "histories: every frame and packet repeated, alone and alternating with every other";
const H_NEAR: &str = "histories: every ordered pair of packets of a kind that differ from the bases in one place (equal lengths included), and pairs across kinds";
const H_STATE: &str = "buffer states: every frame and packet from/into every buffer construction";

const H_PLACE: &str = "buffers: every packet into buffers with contents of every length up to 300 and around every power of two, and with every amount of room";
const H_BEHIND: &str = "buffers: every frame with other frames behind it, of every total length up to 300 and around every power of two";

/// Encodes into buffers that hold more and more, with every amount of room.
fn places(j: &mut J, what: Aspect) {
    let t = j.t;
    for k in KINDS {
        j.each_part(H_PLACE, kind_name(k), t.pick(2, 8), move |c, p| {
            let n = bases(k).len();
            let all: Vec<Abs> = if what == Aspect::Refusal {
                pushes(k)
                    .into_iter()
                    .flat_map(|(s, x)| {
                        bases(k).into_iter().map(move |mut a| {
                            set(&mut a, s, &x);
                            a
                        })
                    })
                    .filter(|a| unrepresentable(a).is_some())
                    .collect()
            } else {
                bases(k).into_iter().chain(variants(k)).collect()
            };
            for (i, a) in all.iter().enumerate() {
                if i % p.1 != p.0 {
                    continue;
                }
                let base = i < n && what != Aspect::Refusal;
                let v = priors(base || t == Tier::Thorough, base && c.cfg == 0);
                let v: Vec<usize> = if base || i % 16 == 0 || t == Tier::Thorough { v } else { v.into_iter().filter(|n| *n < 300 || *n == 65536).collect() };
                c.case(|| format!("{} behind contents of {} lengths", a.show(), v.len()), |c| {
                    placed(c, a, &mut v.iter().map(|n| (*n, 0)), what);
                    placed(c, a, &mut v.iter().filter(|n| **n < 10_000).map(|n| (*n, 100_000)), what);
                });
                if what != Aspect::Refusal || i % 8 == 0 {
                    let len = if what == Aspect::Refusal { 300 } else { encode(a, Form::Full).len() + 3 };
                    c.case(|| format!("{} into buffers with up to {len} bytes of room", a.show()), |c| {
                        placed(c, a, &mut (0..len.min(400)).map(|n| (0, n)), what);
                        placed(c, a, &mut (0..len.min(400)).map(|n| (9, n)), what);
                    });
                }
            }
        });
    }
}
/// Decodes from buffers that hold more and more behind the frame.
fn behind(j: &mut J, limits: bool) {
    let t = j.t;
    for k in KINDS {
        j.each_part(H_BEHIND, kind_name(k), t.pick(1, 4), move |c, p| {
            let fine = priors(true, false);
            let coarse: Vec<usize> = priors(false, false);
            let all = seeds(k);
            let nexts: [Vec<u8>; 3] = [vec![0xc0, 0], all[0].clone(), vec![0xff]];
            for (i, s) in all.iter().enumerate() {
                if i % p.1 != p.0 {
                    continue;
                }
                for (m, next) in nexts.iter().enumerate() {
                    let v = if (i + m) % t.pick(24, 2) == 0 { &fine } else { &coarse };
                    let v: Vec<usize> = if i % 4 == 0 || t == Tier::Thorough { v.clone() } else { v.iter().copied().filter(|n| *n < 5000 || *n == 65536).collect() };
                    c.case(
                        || format!("{} followed by up to {} bytes of {}", frame_desc(s), v[v.len() - 1], hex(next)),
                        |c| followed_by(c, s, &v, next, limits),
                    );
                }
            }
            // what is malformed, too
            let mut n = 0;
            for s in all.iter().step_by(t.pick(6, 1)) {
                let Hdr::Frame { hl, .. } = header(s, None) else { continue };
                for x in [[&s[hl..], &[0xffu8][..]].concat(), s[hl..s.len().saturating_sub(1).max(hl)].to_vec()] {
                    n += 1;
                    if n % p.1 != p.0 {
                        continue;
                    }
                    let f = finish(s[0], &x);
                    c.case(
                        || format!("{} followed by other frames", frame_desc(&f)),
                        |c| followed_by(c, &f, &[0, 1, 2, 100, 300, 5000, 65535, 65536], &nexts[1], limits),
                    );
                }
            }
        });
    }
}

/// The frames whose decode on their own does not panic (a panic is C04's business), and what they decode to.
fn live_frames(c: &mut Ctx, lib: Vec<Vec<u8>>) -> (Vec<Vec<u8>>, Vec<Res>) {
    let (mut f, mut w) = (vec![], vec![]);
    for x in lib {
        match alone(c, &x) {
            Some(r) => {
                f.push(x);
                w.push(r);
            }
            None => c.saw("reference run panicked (judged by C04)"),
        }
    }
    (f, w)
}
/// The same for packets and their encodings.
fn live_packets(c: &mut Ctx, lib: Vec<Abs>) -> (Vec<Abs>, Vec<Result<Vec<u8>, ()>>) {
    let (mut f, mut w) = (vec![], vec![]);
    for x in lib {
        match encode_alone(c, &x) {
            Some(r) => {
                f.push(x);
                w.push(r);
            }
            None => c.saw("reference run panicked (judged by C04)"),
        }
    }
    (f, w)
}
/// Frames with their history-free results.
fn free_frames(c: &mut Ctx, lib: Vec<Vec<u8>>) -> (Vec<Vec<u8>>, Vec<Res>) {
    let (mut f, mut w) = (vec![], vec![]);
    for x in lib {
        match history_free(c, &x) {
            Free::Is(r) => {
                f.push(x);
                w.push(r);
            }
            Free::Other(o, r) => c.case(
                || format!("{}, after everything decoded so far", hex(&x)),
                |c| c.fail(&format!("history-decode/{}", fkind(&x)), format!("decodes to {}, in a fresh process to {o}", show(&r))),
            ),
            Free::Panics => c.saw("reference run panicked (judged by C04)"),
        }
    }
    (f, w)
}
fn free_packets(c: &mut Ctx, lib: Vec<Abs>) -> (Vec<Abs>, Vec<Result<Vec<u8>, ()>>) {
    let (v, enc) = live_packets(c, lib);
    for (a, e) in v.iter().zip(&enc) {
        // the model's frame of a representable packet, which a fresh process is to decode and encode
        if unrepresentable(a).is_some() {
            continue;
        }
        let f = encode(a, Form::Shortest);
        let ok = e.as_ref().is_ok_and(|e| matches!(decode(e, c.sut.utf8(), &mut NoTr), Verdict::Accept(x) if x.norm() == a.norm()));
        if ok {
            continue;
        }
        let Verdict::Accept(n) = decode(&f, c.sut.utf8(), &mut NoTr) else { continue };
        // the same value, encoded here and in a fresh process
        let here = encode_alone(c, &n).map(|r| format!("{r:?}"));
        let there = c.in_fresh_process(c.cfg, true, &f);
        if let (Some(h), Some(t)) = (here, there) {
            if h != t {
                c.case(
                    || format!("{}, after everything done so far", n.show()),
                    |c| c.fail("history-encode", "encodes to other bytes than in a fresh process".into()),
                );
            }
        }
    }
    (v, enc)
}
fn seq_desc(lib: &[Vec<u8>], seq: &[usize]) -> String {
    seq.iter().map(|i| hex(&lib[*i])).collect::<Vec<_>>().join(" | ")
}

/// `panics` in a reference run are C04's business
macro_rules! reference {
    ($c:expr, $e:expr) => {
        match $e {
            Some(x) => x,
            None => {
                $c.saw("reference run panicked (judged by C04)");
                return;
            }
        }
    };
}

fn c05(j: &mut J) {
    stretched_frames(j);
    behind(j, false);
    seed_frames(j, f_consume);
    heads(j, f_consume);
    raw_frames(j, f_consume);
    edit1_frames(j, f_consume);
    let deep = j.q(2, 3);
    for d in 1..=deep {
        j.each_part(H_SEQ, &format!("depth {d}"), if d > 1 { 8 } else { 1 }, move |c, p| {
            let (lib, want) = live_frames(c, frame_lib());
            seqs(lib.len(), d, p, &mut |s| {
                c.case(|| seq_desc(&lib, s), |c| sequence(c, &lib, &want, s, 0, false))
            });
        });
    }
    let d = j.q(4, 5);
    j.each_part(H_SEQ, &format!("small frames depth {d}"), 4, move |c, p| {
        let (lib, want) = live_frames(c, small_frames());
        seqs(lib.len(), d, p, &mut |s| c.case(|| seq_desc(&lib, s), |c| sequence(c, &lib, &want, s, 0, false)));
    });
    big_frames(j, f_consume);
}

fn c06(j: &mut J) {
    stretched_frames(j);
    seed_frames(j, f_need);
    heads(j, f_need_any);
    raw_frames(j, f_need);
    // corrupted frames are complete frames too
    edit1_need(j);
    // every chunking of short streams
    let top = j.q(11, 15);
    for d in 1..=3usize {
        j.each_part(H_CHUNK, &format!("{d} small frames, up to {top} bytes"), 4, move |c, p| {
            let (lib, want) = live_frames(c, small_frames());
            seqs(lib.len(), d, p, &mut |s| {
                let stream: Vec<u8> = s.iter().flat_map(|i| lib[*i].clone()).collect();
                if stream.len() > top {
                    return;
                }
                let w: Vec<Res> = s.iter().map(|i| want[*i].clone()).collect();
                chunk_all(c, &stream, &w, stream.len());
                // followed by something that is never a frame
                if d < 3 {
                    let mut st = stream.clone();
                    st.extend_from_slice(&BAD_HEADER);
                    if st.len() <= top {
                        let mut w = w.clone();
                        w.push(reference!(c, alone(c, &BAD_HEADER)));
                        chunk_all(c, &st, &w, st.len());
                    }
                }
            });
        });
    }
    // long streams: bounded numbers of cuts
    let cuts = j.q(2, 3);
    j.each_part(H_CHUNK, &format!("long streams, up to {cuts} cuts"), 8, move |c, p| {
        let (lib, want) = live_frames(c, frame_lib());
        let n = lib.len();
        for i in 0..n {
            if i % p.1 != p.0 {
                continue;
            }
            let s = [i, (i * 7 + 1) % n];
            let stream: Vec<u8> = s.iter().flat_map(|i| lib[*i].clone()).collect();
            let w: Vec<Res> = s.iter().map(|i| want[*i].clone()).collect();
            let d = if stream.len() > 150 && cuts > 2 { 2 } else { cuts };
            chunk_all(c, &stream, &w, d);
        }
    });
    // headers of 2..4 length bytes: frames large enough to need them
    j.each_part(H_CHUNK, "frames with long headers", 2, move |c, p| {
        for (n, len) in [127usize, 128, 129, 16383, 16384, 2097151, 2097152].into_iter().enumerate() {
            if n % p.1 != p.0 {
                continue;
            }
            let a = Abs::Publish {
                dup: false,
                qos: 0,
                retain: false,
                topic: text(1, 1),
                pkid: 0,
                props: None,
                payload: bin(1, len - 4),
            };
            let f = encode(&a, Form::Full);
            let mut stream = f.clone();
            stream.extend([0xc0, 0]);
            let w = vec![reference!(c, alone(c, &f)), reference!(c, alone(c, &[0xc0, 0]))];
            let l = stream.len();
            let pos: Vec<usize> = (1..8).chain([l - 4, l - 3, l - 2, l - 1]).collect();
            cut_sets(&pos, if len > 100_000 { 2 } else { 4 }, &mut |cs| {
                c.case(
                    || format!("PUBLISH of remaining length {len} then PINGREQ, cuts {cs:?}"),
                    |c| {
                        c.fresh();
                        chunked(c, &stream, cs, 0, &w)
                    },
                )
            });
            for st in 0..7 {
                c.case(
                    || format!("PUBLISH of remaining length {len} then PINGREQ, starting with {st} bytes"),
                    |c| {
                        c.fresh();
                        hinted(c, &stream, st, &w)
                    },
                );
            }
        }
    });
    for d in 1..=2usize {
        j.each_part(H_HINT, &format!("{d} frames"), 2, move |c, p| {
            let (lib, want) = live_frames(c, frame_lib());
            seqs(lib.len(), d, p, &mut |s| {
                let stream: Vec<u8> = s.iter().flat_map(|i| lib[*i].clone()).collect();
                let w: Vec<Res> = s.iter().map(|i| want[*i].clone()).collect();
                let step = if d == 1 { 1 } else { 3 };
                for start in (0..stream.len()).step_by(step) {
                    if d > 1 && start > 12 {
                        break;
                    }
                    c.case(
                        || format!("starting with {start} bytes: {}", seq_desc(&lib, s)),
                        |c| {
                            c.fresh();
                            hinted(c, &stream, start, &w)
                        },
                    );
                }
            });
        });
    }
}
fn edit1_need(j: &mut J) {
    // only the complete frame: prefixes of corrupted frames are the seeds' prefixes or differ in the body only
    fn o(c: &mut Ctx, f: &[u8]) {
        if !is_whole(f) {
            return;
        }
        let sut = c.sut;
        c.fresh();
        need_case(c, sut, f);
    }
    edit1_frames(j, o);
    delim_frames(j, o);
}
fn chunk_all(c: &mut Ctx, stream: &[u8], w: &[Res], cuts: usize) {
    let pos: Vec<usize> = (1..stream.len()).collect();
    cut_sets(&pos, cuts, &mut |cs| {
        c.case(
            || format!("stream {} cut at {cs:?}", hex(stream)),
            |c| {
                c.fresh();
                chunked(c, stream, cs, if cs.len() % 2 == 0 { 0 } else { 64 }, w)
            },
        )
    });
}

fn c07(j: &mut J) {
    stretched_frames(j);
    behind(j, true);
    heads_some(j, f_limit);
    seed_frames(j, f_limit);
    big_frames(j, f_limit);
    for d in 1..=j.q(2usize, 3) {
        j.each_part(H_LIM, &format!("{d} frames"), 4, move |c, p| {
            let (lib, want) = live_frames(c, if d < 3 { frame_lib() } else { small_frames() });
            let n = lib.len();
            let mut k = 0;
            seqs(n, d, (0, 1), &mut |s| {
                // pairs: each frame with a spread of partners
                if d == 2 && (s[0] * 5 + s[1]) % 9 != 0 {
                    return;
                }
                k += 1;
                if k % p.1 != p.0 {
                    return;
                }
                seqs(6, d + 1, (0, 1), &mut |l| {
                    c.case(
                        || format!("limits {l:?} over {}", seq_desc(&lib, s)),
                        |c| limits(c, &lib, &want, s, l),
                    )
                });
            });
        });
    }
}

fn fifo_jobs(j: &mut J, only_reps: bool) {
    let deep = j.q(3usize, 4);
    for d in 1..=deep {
        j.each_part(H_FIFO, &format!("depth {d}"), if d > 2 { 8 } else { 1 }, move |c, p| {
            let (lib, enc) = live_packets(c, packet_lib());
            let mut ops: Vec<Op> = vec![Op::Read, Op::Forward];
            ops.extend((0..lib.len()).map(Op::Write));
            if d > 3 {
                // every second packet at the greatest depth, with all unrepresentable ones
                ops.retain(|o| matches!(o, Op::Write(i) if enc[*i].is_err() || i % 3 == 0) || !matches!(o, Op::Write(_)));
            }
            let states = if d <= 2 { BUF_STATES } else { 2 };
            op_seqs(&ops, d, p, &mut |s| {
                if only_reps && !s.iter().any(|o| matches!(o, Op::Write(i) if enc[*i].is_err())) {
                    return;
                }
                for st in 0..states {
                    c.case(
                        || format!("buffer state {st}, operations {s:?} over the packet library {}", ops_desc(&lib, s)),
                        |c| fifo(c, &lib, &enc, s, st),
                    );
                }
            });
        });
    }
}
fn ops_desc(lib: &[Abs], s: &[Op]) -> String {
    s.iter()
        .filter_map(|o| match o {
            Op::Write(i) => Some(format!("#{i} = {}", lib[*i].show().chars().take(300).collect::<String>())),
            _ => None,
        })
        .collect::<Vec<_>>()
        .join("; ")
}

fn c09(j: &mut J) {
    fifo_jobs(j, false);
    places(j, Aspect::Bytes);
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_append(c, a))));
    values(j, v_append);
    // small operations deeper
    let d = j.q(6, 8);
    j.each_part(H_FIFO, &format!("small packets depth {d}"), 4, move |c, p| {
        let (lib, enc) = live_packets(c, vec![
            min(12),
            min(14),
            full(4),
            min(1),
            Abs::Publish {
                dup: false,
                qos: 1,
                retain: false,
                topic: text(1, 2),
                pkid: 0,
                props: None,
                payload: bin(2, 3),
            },
        ]);
        let mut ops: Vec<Op> = vec![Op::Read, Op::Forward];
        ops.extend((0..lib.len()).map(Op::Write));
        op_seqs(&ops, d, p, &mut |s| c.case(|| format!("operations {s:?}"), |c| fifo(c, &lib, &enc, s, 0)));
    });
}

fn c10(j: &mut J) {
    j.vals(S_UNREP, &KINDS, 4, v_fail, |k, p, f| unreps(k, p, f));
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_fail(c, a))));
    fifo_jobs(j, true);
    places(j, Aspect::Refusal);
    values(j, v_fail);
    // property length and remaining length over the maximum in other places than the payload
    for cfg in j.cfgs.clone() {
        if cfg > 0 && j.t == Tier::Quick {
            continue;
        }
        for k in [1u8, 3, 8, 10, 14] {
            j.job("values: more than 268435455 bytes of properties or filters", cfg, true, kind_name(k).into(), move |c| {
                let long = text(1, 65535);
                let n = 4096usize; // times 65536 and more is over the maximum
                let mut list = vec![];
                for d in [-1i64, 0, 1] {
                    let mut a = min(k);
                    match k {
                        8 => {
                            if let Abs::Subscribe { filters, .. } = &mut a {
                                *filters = vec![filt_opt(1, long.clone()); (n as i64 + d) as usize];
                            }
                        }
                        10 => {
                            if let Abs::Unsubscribe { filters, .. } = &mut a {
                                *filters = vec![long.clone(); (n as i64 + d) as usize];
                            }
                        }
                        _ => {
                            let m = (n as i64 / 2 + d) as usize;
                            *props_mut(&mut a).unwrap() = Some(vec![(0x26, PV::Pair(long.clone(), long.clone())); m]);
                        }
                    }
                    list.push(a);
                }
                for (i, a) in list.iter().enumerate() {
                    c.case(|| format!("value {} with about 2^28 bytes of content, step {i}", kind_name(k)), |c| v_fail(c, a));
                }
            });
        }
    }
    huge(j, v_fail);
}

fn c13(j: &mut J) {
    j.cfgs = vec![0];
    seed_frames(j, f_configs);
    raw_frames(j, f_configs);
    edit1_frames(j, f_configs);
    alpha_frames(j, f_configs);
    delim_frames(j, f_configs);
    order_frames(j, f_configs);
    edit2_frames(j, f_configs);
    heads(j, f_configs);
    big_frames(j, f_configs);
    for (n, _) in fields().iter().enumerate() {
        j.frames("frames: every text and binary field with every UTF-8 decoder path", &format!("field {n}"), 1, f_configs, move |_, f| {
            let fl = fields();
            for s in utf8_probe(false) {
                f(&(fl[n].make)(&s));
            }
        });
    }
    j.vals(S_UNREP, &KINDS, 2, v_configs, |k, p, f| unreps(k, p, f));
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_configs(c, a))));
    values(j, v_configs);
    j.each("constructors: all argument combinations, in all configurations", "constructors", |c| {
        for (x, _) in ctors(Tier::Quick) {
            c.case(
                || format!("{x:?}"),
                |c| {
                    let suts = c.suts;
                    c.fresh();
                    let mut first = None;
                    for s in suts {
                        let Ok(p) = c.call(|| s.construct(&x)) else { return };
                        let a = p.abs();
                        c.state(a.class());
                        match &first {
                            None => first = Some(a),
                            Some(b) if *b == a => {}
                            Some(b) => {
                                c.fail("construct", format!("{} builds {}, default {}", s.name(), a.show(), b.show()));
                                return;
                            }
                        }
                    }
                    c.saw("agree");
                },
            );
        }
    });
}

fn c15(j: &mut J) {
    // buffer states
    j.each(H_STATE, "one frame from every buffer state", |c| {
        let (lib, want) = free_frames(c, frame_lib());
        for i in 0..lib.len() {
            for st in 0..BUF_STATES {
                c.case(|| format!("buffer state {st}, frame {}", hex(&lib[i])), |c| sequence(c, &lib, &want, &[i], st, true));
            }
        }
    });
    j.each(H_STATE, "one packet into every buffer state", |c| {
        let (lib, enc) = free_packets(c, packet_lib());
        for i in 0..lib.len() {
            for st in 0..BUF_STATES {
                c.case(
                    || format!("buffer state {st}, {}", lib[i].show()),
                    |c| fifo(c, &lib, &enc, &[Op::Write(i), Op::Read], st),
                );
            }
        }
    });
    j.each(H_STATE, "one frame from buffers of every capacity", |c| {
        let (lib, want) = free_frames(c, frame_lib());
        for i in 0..lib.len() {
            c.case(|| format!("capacities from 0 to 2^24, frame {}", hex(&lib[i])), |c| roomy(c, &lib[i], &want[i]));
        }
    });
    // results of frames do not depend on the neighbours
    j.each(H_SEQ, "depth 2, all buffer states", |c| {
        let (lib, want) = free_frames(c, frame_lib());
        let states: Vec<usize> = if c.tier == Tier::Quick { vec![0, 3, 4] } else { (0..BUF_STATES).collect() };
        seqs(lib.len(), 2, (0, 1), &mut |s| {
            for st in &states {
                c.case(|| format!("buffer state {st}: {}", seq_desc(&lib, s)), |c| sequence(c, &lib, &want, s, *st, true));
            }
        });
    });
    j.each(H_CALL, "depth 2, all calls", |c| {
        let (f, want) = free_frames(c, frame_lib());
        let (v, enc) = free_packets(c, packet_lib());
        let all = call_alphabet(&f, &v, 1);
        seqs(all.len(), 2, (0, 1), &mut |s| {
            let q: Vec<Call> = s.iter().map(|i| all[*i]).collect();
            c.case(|| format!("calls {q:?}"), |c| calls(c, &f, &want, &v, &enc, &q));
        });
    });
    j.each(H_CALL, "depth 3, every kind of call", |c| {
        let (f, want) = free_frames(c, frame_lib());
        let (v, enc) = free_packets(c, packet_lib());
        let all = call_alphabet(&f, &v, if c.tier == Tier::Quick { 5 } else { 2 });
        seqs(all.len(), 3, (0, 1), &mut |s| {
            let q: Vec<Call> = s.iter().map(|i| all[*i]).collect();
            c.case(|| format!("calls {q:?}"), |c| calls(c, &f, &want, &v, &enc, &q));
        });
    });
    j.each(H_REP, "repetition", |c| {
        let (f, want) = free_frames(c, frame_lib());
        let (v, enc) = free_packets(c, packet_lib());
        // for some past 16 bits of a count; in the thorough tier for all
        let times = |i: usize| if c.tier == Tier::Thorough || i % 40 == 2 { 70_000 } else { 1100 };
        let times: Vec<usize> = (0..f.len().max(v.len())).map(times).collect();
        for i in 0..f.len() {
            let n = times[i];
            c.case(
                || format!("{n} times frame {}", hex(&f[i])),
                |c| {
                    for _ in 0..n / 100 {
                        calls(c, &f, &want, &v, &enc, &[Call::Decode(i); 100]);
                        if c.failing() {
                            return;
                        }
                    }
                },
            );
            let m = n.min(c.tier.pick(1100, 5000));
            c.case(
                || format!("{m} times frame {} in one buffer", hex(&f[i])),
                |c| sequence(c, &f, &want, &vec![i; m], 0, false),
            );
        }
        for i in 0..v.len() {
            let n = times[i];
            c.case(
                || format!("{n} times packet {}", v[i].show()),
                |c| {
                    for _ in 0..n / 100 {
                        calls(c, &f, &want, &v, &enc, &[Call::Encode(i); 100]);
                        if c.failing() {
                            return;
                        }
                    }
                },
            );
        }
    });
    let d = j.q(3usize, 4);
    j.each(H_SEQ, &format!("small frames depth {d}"), move |c| {
        let (lib, want) = free_frames(c, small_frames());
        for st in [0usize, 4] {
            seqs(lib.len(), d, (0, 1), &mut |s| {
                c.case(|| format!("buffer state {st}: {}", seq_desc(&lib, s)), |c| sequence(c, &lib, &want, s, st, true))
            });
        }
    });
    // histories of packets that are nearly the same
    for k in KINDS {
        j.each(H_NEAR, kind_name(k), move |c| {
            let vars = variants(k);
            let (v, enc) = free_packets(c, vars.clone());
            let (f, want) = free_frames(c, vars.iter().map(|a| encode(a, Form::Shortest)).collect());
            seqs(f.len(), 2, (0, 1), &mut |s| {
                let (x, y) = (s[0], s[1]);
                if x != y {
                    let q = [Call::Decode(x), Call::Decode(y), Call::Decode(x)];
                    c.case(|| format!("decode {} | {} | the first again", hex(&f[x]), hex(&f[y])), |c| calls(c, &f, &want, &v, &enc, &q));
                }
            });
            seqs(v.len(), 2, (0, 1), &mut |s| {
                let (x, y) = (s[0], s[1]);
                if x != y {
                    let q = [Call::Encode(x), Call::Size(x), Call::Encode(y), Call::Size(y), Call::Encode(x)];
                    c.case(
                        || format!("encode {} | {} | the first again", v[x].show(), v[y].show()),
                        |c| calls(c, &f, &want, &v, &enc, &q),
                    );
                }
            });
            // all of them, forwards and backwards, several times, from one buffer
            let n = f.len();
            for (name, step) in [("in order", 1usize), ("every second", 2), ("every seventh", 7)] {
                let mut s: Vec<usize> = vec![];
                for o in 0..step {
                    s.extend((o..n).step_by(step));
                }
                let mut back = s.clone();
                back.reverse();
                s.extend(back.clone());
                s.extend(back);
                c.case(|| format!("all {n} {} variants, {name}, back, and back again", kind_name(k)), |c| sequence(c, &f, &want, &s, 1, true));
            }
        });
    }
    const H_LIKE: &str = "histories: packets of a kind that differ in one field in a way that a careless summary of it (length, ends, sum, prefix, polynomial, low bits) does not show; every ordered pair, and all in turn";
    for k in KINDS {
        j.each(H_LIKE, kind_name(k), move |c| {
            let mut all = vec![];
            like_groups(k, c.tier == Tier::Thorough, &mut |g| all.push(g));
            for g in all {
                let (v, enc) = free_packets(c, g.clone());
                let (f, want) = free_frames(c, g.iter().filter(|a| good(a)).map(|a| encode(a, Form::Shortest)).collect());
                let long = f.iter().any(|f| f.len() > 4000);
                c.case(
                    || format!("in turn, backwards, and backwards again: {}", g.iter().map(|a| a.show().chars().take(300).collect::<String>()).collect::<Vec<_>>().join(" | ")),
                    |c| {
                        let turn = |n: usize, call: fn(usize) -> Call| (0..n).chain((0..n).rev()).chain((0..n).rev()).map(call).collect::<Vec<_>>();
                        calls(c, &f, &want, &v, &enc, &turn(f.len(), Call::Decode));
                        calls(c, &f, &want, &v, &enc, &turn(v.len(), Call::Encode));
                        calls(c, &f, &want, &v, &enc, &turn(v.len(), Call::Size));
                    },
                );
                seqs(f.len(), 2, (0, 1), &mut |s| {
                    if s[0] != s[1] && (!long || s[0] == 0 || s[1] == 0) {
                        c.case(
                            || format!("decode {} | {}", frame_desc(&f[s[0]]), frame_desc(&f[s[1]])),
                            |c| calls(c, &f, &want, &v, &enc, &[Call::Decode(s[0]), Call::Decode(s[1])]),
                        );
                    }
                });
                seqs(v.len(), 2, (0, 1), &mut |s| {
                    if s[0] != s[1] && (!long || s[0] == 0 || s[1] == 0) {
                        c.case(
                            || format!("encode {} | {}", v[s[0]].show(), v[s[1]].show()),
                            |c| calls(c, &f, &want, &v, &enc, &[Call::Encode(s[0]), Call::Encode(s[1])]),
                        );
                    }
                });
            }
        });
    }
    // across kinds: texts and identifiers of one kind in another
    j.each(H_NEAR, "across kinds", |c| {
        let mut vars = vec![];
        let n = if c.tier == Tier::Quick { 9 } else { 3 };
        for k in KINDS {
            vars.extend(variants(k).into_iter().step_by(n));
        }
        let (f, want) = free_frames(c, vars.iter().map(|a| encode(a, Form::Shortest)).collect());
        seqs(f.len(), 2, (0, 1), &mut |s| {
            if fkind(&f[s[0]]) != fkind(&f[s[1]]) {
                let q = [Call::Decode(s[0]), Call::Decode(s[1])];
                c.case(|| format!("decode {} | {}", hex(&f[s[0]]), hex(&f[s[1]])), |c| calls(c, &f, &want, &[], &[], &q));
            }
        });
    });
    if j.t == Tier::Thorough {
        j.each(H_SEQ, "depth 3", |c| {
            let (lib, want) = free_frames(c, frame_lib().into_iter().step_by(2).collect());
            seqs(lib.len(), 3, (0, 1), &mut |s| {
                c.case(|| seq_desc(&lib, s), |c| sequence(c, &lib, &want, s, 0, true))
            });
        });
    }
}
/// every n-th decode, and every kind of other call
fn call_alphabet(f: &[Vec<u8>], v: &[Abs], n: usize) -> Vec<Call> {
    let mut o = vec![];
    for i in (0..f.len()).step_by(n) {
        o.push(Call::Decode(i));
    }
    for i in (0..f.len()).step_by(3 * n) {
        o.push(Call::Partial(i));
        o.push(Call::Limit(i));
    }
    for i in (0..v.len()).step_by(n) {
        o.push(Call::Encode(i));
    }
    for i in (0..v.len()).step_by(3 * n) {
        o.push(Call::Size(i));
    }
    o
}

fn c16(j: &mut J) {
    const S: &str = "tables: every value of every code byte in every position, and every variant";
    // bytes in frames
    j.frames(S, "reason code bytes", 1, f_both, |_, f| {
        for x in 0..=255u8 {
            for sp in [0u8, 1] {
                f(&finish(0x20, &[sp, x, 0]));
                f(&finish(0x20, &[sp, x, 3, 0x21, 0, 9]));
                f(&finish(0x20, &[sp, x, 2, 0x24, 1]));
            }
            for b in [0x40u8, 0x50, 0x62, 0x70] {
                for pk in [[0u8, 1], [0xff, 0xff]] {
                    f(&finish(b, &[pk[0], pk[1], x]));
                    f(&finish(b, &[pk[0], pk[1], x, 0]));
                    f(&finish(b, &[pk[0], pk[1], x, 5, 0x26, 0, 0, 0, 0]));
                    f(&finish(b, &[pk[0], pk[1], x, 4, 0x1f, 0, 1, b'r']));
                }
            }
            for b in [0x90u8, 0xb0] {
                for other in [0u8, 0x80, 0x83] {
                    f(&finish(b, &[0, 1, 0, x]));
                    f(&finish(b, &[0, 1, 0, x, other]));
                    f(&finish(b, &[0, 1, 0, other, x]));
                    f(&finish(b, &[0, 1, 0, other, x, other]));
                    f(&finish(b, &[0, 1, 0, other, other, other, other, x]));
                    f(&finish(b, &[0, 1, 4, 0x1f, 0, 1, b'r', other, x]));
                }
                for y in 0..=255u8 {
                    f(&finish(b, &[0, 1, 0, x, y]));
                }
            }
            f(&finish(0xe0, &[x]));
            f(&finish(0xe0, &[x, 0]));
            f(&finish(0xe0, &[x, 5, 0x11, 0, 0, 0, 9]));
            f(&finish(0xe0, &[x, 5, 0x26, 0, 0, 0, 0]));
            // subscription options
            for p in [&b""[..], b"a", b"abc"] {
                let mut o = vec![0, 1, 0, 0, p.len() as u8];
                o.extend_from_slice(p);
                o.push(x);
                f(&finish(0x82, &o));
                o.extend([0, 1, b'z', 0x21]);
                f(&finish(0x82, &o));
                let mut o = vec![0, 1, 0, 0, 1, b'z', 0x21, 0, p.len() as u8];
                o.extend_from_slice(p);
                o.push(x);
                f(&finish(0x82, &o));
            }
            // connect flags (will QoS) with everything they can announce behind
            for tail in [&[][..], &[0, 1, b'u'], &[0, 1, b'u', 0, 1, b'p']] {
                for will in [&[][..], &[0, 0, 1, b't', 0, 1, b'm']] {
                    let mut o = vec![0, 4, b'M', b'Q', b'T', b'T', 5, x, 0, 1, 0, 0, 1, b'i'];
                    o.extend_from_slice(will);
                    o.extend_from_slice(tail);
                    f(&finish(0x10, &o));
                }
            }
            // publish QoS and packet types
            f(&finish(x, &[]));
            f(&finish(x, &[0]));
            f(&finish(x, &[0, 1]));
            f(&finish(x, &[0, 1, b't', 0]));
            f(&finish(x, &[0, 1, b't', 0, 1, 0]));
            f(&finish(x, &[0, 1, b't', 0, 1, 0, b'p']));
            f(&finish(x, &[0, 1, 0, 0, 1, b'f', 0]));
            f(&finish(x, &[0, 1, 0, 0]));
        }
    });
    // variants: what they are written as
    j.vals(S, &KINDS, 1, v_exact, |k, _, f| {
        for b in bases(k) {
            for x in codes(k) {
                let mut a = b.clone();
                match &mut a {
                    Abs::SubAck { codes: c, .. } | Abs::UnsubAck { codes: c, .. } => {
                        *c = vec![*x];
                        f(&a);
                        for y in codes(k) {
                            if let Abs::SubAck { codes: c, .. } | Abs::UnsubAck { codes: c, .. } = &mut a {
                                *c = vec![*x, *y, *x];
                            }
                            f(&a);
                        }
                    }
                    _ => {
                        set(&mut a, Slot::Code, &Val::N(*x as u64));
                        f(&a);
                    }
                }
            }
            if k == 2 {
                for x in LEGACY_CODES {
                    let mut a = b.clone();
                    set(&mut a, Slot::Code, &Val::N(x as u64));
                    f(&a);
                }
            }
            if k == 8 {
                for i in 0..36 {
                    let mut a = b.clone();
                    set(&mut a, Slot::Filters, &Val::Filts(vec![filt_opt(i, text(1, 2)), filt_opt(35 - i, text(1, 1))]));
                    f(&a);
                }
            }
            if k == 3 {
                for q in 0..3 {
                    let mut a = b.clone();
                    set(&mut a, Slot::Qos, &Val::N(q));
                    f(&a);
                }
            }
            if k == 1 {
                for q in 0..3 {
                    let mut a = b.clone();
                    set(&mut a, Slot::WillQos, &Val::N(q));
                    f(&a);
                }
            }
        }
    });
    // functions
    j.each(S, "qos(), DisconnectReasonCode, FixedHeader", |c| {
        for n in 0..=255u8 {
            c.case(
                || format!("functions on byte {n:#04x}"),
                |c| {
                    let sut = c.sut;
                    c.fresh();
                    c.state(n as u64);
                    let Some(q) = c.ok("qos", || sut.qos(n)) else { return };
                    if q != (n < 3).then_some(n) {
                        c.fail("qos", format!("qos({n}) is {q:?}"));
                    }
                    let Some(d) = c.ok("DisconnectReasonCode::try_from", || sut.disconnect_code(n)) else { return };
                    let known = codes(14).contains(&n);
                    if d != known.then_some(n) {
                        c.fail("disconnect-try-from", format!("DisconnectReasonCode::try_from({n:#04x}) is {d:?}"));
                    }
                    if known && c.ok("as u8", || sut.disconnect_code_as_u8(n)) != Some(n) {
                        c.fail("disconnect-as-u8", format!("variant of {n:#04x} has another number"));
                    }
                    let t = n >> 4;
                    let want = (1..=14).contains(&t).then_some(t);
                    for (hl, rl) in [(1usize, 0usize), (1, 5), (2, 200), (3, 20_000), (4, VBI_MAX as usize)] {
                        let Some((got, len)) = c.ok("FixedHeader", || sut.header(n, hl, rl)) else { return };
                        if got != want {
                            c.fail("packet-type", format!("first byte {n:#04x} is packet type {got:?}"));
                        }
                        if len != 1 + hl + rl {
                            c.fail("frame-length", format!("header of 1+{hl} bytes, {rl} following: frame length {len}"));
                        }
                    }
                    // through check
                    let Some(k) = c.ok("check", || sut.check(&[n, 1, 0], None)) else { return };
                    match k {
                        COut::Frame { typ, total: 3 } if typ == want => {}
                        o => c.fail("check-type", format!("check of {n:#04x} 01 00 gives {o:?}")),
                    }
                    c.saw("function");
                },
            );
        }
    });
}

fn ctors(t: Tier) -> Vec<(Ctor, Abs)> {
    let mut v: Vec<(Ctor, Abs)> = vec![];
    let l = t.pick(Lvl::Med, Lvl::Large);
    let ts: Vec<B> = lengths(l).into_iter().map(|n| text(5, n)).chain(["é".into(), "a/#".into(), "$share/g/t".into()]).collect();
    let few: Vec<B> = vec![B::new(), text(6, 1), text(7, 5)];
    let psets = |s: Sec| -> Vec<Option<Props>> {
        let mut v = vec![None, Some(vec![]), Some(full_props(s))];
        for id in allowed(s) {
            v.push(Some(vec![(*id, default_pv(*id, 0))]));
        }
        v
    };
    for qos in 0..3u8 {
        for topic in &ts {
            for payload in [B::new(), bin(1, 1), bin(2, 200)] {
                for props in psets(Sec::Publish) {
                    let c = Ctor::Publish { topic: topic.clone(), qos, payload: payload.clone(), props: props.clone() };
                    let a = Abs::Publish {
                        dup: false,
                        qos,
                        retain: false,
                        topic: topic.clone(),
                        pkid: 0,
                        props,
                        payload: payload.clone(),
                    };
                    v.push((c, a));
                }
            }
        }
        for path in &ts {
            for props in psets(Sec::Subscribe) {
                v.push((
                    Ctor::Subscribe { path: path.clone(), qos, props: props.clone() },
                    Abs::Subscribe {
                        pkid: 0,
                        props,
                        filters: vec![Filt { path: path.clone(), qos, nolocal: false, rap: false, rh: 0 }],
                    },
                ));
            }
        }
    }
    for i in 0..36 {
        for props in psets(Sec::Subscribe) {
            let f = filt_opt(i, text(3, 4));
            v.push((Ctor::SubscribeFilt { f: f.clone(), props: props.clone() }, Abs::Subscribe { pkid: 0, props, filters: vec![f] }));
        }
    }
    for n in (0..=40u64).chain([63, 64, 65, 100, 128, 255, 256, 257, 1000, 5000]) {
        for props in psets(Sec::Subscribe) {
            for rev in [false, true] {
                if n > 6 && t == Tier::Quick && props.as_ref().is_some_and(|p| p.len() != 1) {
                    continue;
                }
                let mut filters: Vec<Filt> = (0..n).map(filt_n).collect();
                if rev {
                    filters.reverse();
                }
                for (x, y) in [(1usize, 2usize), (0, n as usize - (n > 0) as usize)] {
                    // the same filter again, side by side and far apart
                    if rev && n < 70 && y < n as usize {
                        let mut filters = filters.clone();
                        filters[y] = filters[x].clone();
                        v.push((
                            Ctor::SubscribeMany { filters: filters.clone(), props: props.clone() },
                            Abs::Subscribe { pkid: 0, props: props.clone(), filters },
                        ));
                    }
                }
                v.push((
                    Ctor::SubscribeMany { filters: filters.clone(), props: props.clone() },
                    Abs::Subscribe { pkid: 0, props: props.clone(), filters },
                ));
            }
        }
    }
    for path in &ts {
        for props in psets(Sec::Unsubscribe) {
            v.push((
                Ctor::Unsubscribe { path: path.clone(), props: props.clone() },
                Abs::Unsubscribe { pkid: 0, props, filters: vec![path.clone()] },
            ));
        }
    }
    for typ in 4..=7u8 {
        for pkid in [0u16, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xfffe, 0xffff] {
            for props in psets(ack_sec(typ)) {
                v.push((Ctor::Ack { typ, pkid, props: props.clone() }, Abs::Ack { typ, pkid, code: 0, props }));
            }
        }
        for pkid in 0..=65535u16 {
            v.push((Ctor::Ack { typ, pkid, props: None }, Abs::Ack { typ, pkid, code: 0, props: None }));
        }
    }
    for code in codes(14) {
        v.push((Ctor::Disconnect { code: *code }, Abs::Disconnect { code: *code, props: None }));
    }
    let con = |props, login| Abs::Connect { clean: false, keep_alive: 0, props, client_id: B::new(), will: None, login };
    for user in &ts {
        for pass in &few {
            v.push((Ctor::Login { user: user.clone(), pass: pass.clone() }, con(None, Some((user.clone(), pass.clone())))));
            v.push((Ctor::Login { user: pass.clone(), pass: user.clone() }, con(None, Some((pass.clone(), user.clone())))));
        }
    }
    for default in [false, true] {
        v.push((Ctor::ConnectProps { default }, con(Some(vec![]), None)));
        v.push((Ctor::ConnAckProps { default }, Abs::ConnAck { sp: false, code: 0, props: Some(vec![]) }));
    }
    let p = |props| Abs::Publish { dup: false, qos: 0, retain: false, topic: B::new(), pkid: 0, props, payload: B::new() };
    v.push((Ctor::PublishDefault, p(None)));
    v.push((Ctor::PublishPropsDefault, p(Some(vec![]))));
    v.push((Ctor::SubscribeDefault, Abs::Subscribe { pkid: 0, props: None, filters: vec![] }));
    v.push((
        Ctor::FilterDefault,
        Abs::Subscribe {
            pkid: 0,
            props: None,
            filters: vec![Filt { path: B::new(), qos: 0, nolocal: false, rap: false, rh: 0 }],
        },
    ));
    v.push((Ctor::UnsubscribeDefault, Abs::Unsubscribe { pkid: 0, props: None, filters: vec![] }));
    v
}

fn c17(j: &mut J) {
    j.each("constructors: all argument combinations over the bounded alphabets", "constructors", |c| {
        for (x, want) in ctors(c.tier) {
            c.case(
                || format!("{}", format!("{x:?}").chars().take(600).collect::<String>()),
                |c| {
                    let sut = c.sut;
                    c.fresh();
                    let what = format!("{x:?}").split([' ', '{']).next().unwrap_or("").to_string();
                    let Some(p) = c.ok("constructor", || sut.construct(&x)) else { return };
                    let got = p.abs();
                    c.state(got.class());
                    if got != want {
                        c.fail(&format!("construct/{what}"), format!("built {} instead of {}", got.show(), want.show()));
                        return;
                    }
                    let b = sut.build(&want);
                    if !p.same(&*b) {
                        c.fail(&format!("construct-eq/{what}"), "does not compare equal to the same packet built field by field".into());
                        return;
                    }
                    c.saw("as asked");
                    // and on the wire
                    let mut b = BytesMut::new();
                    let Some(r) = c.ok("encode", || p.write(&mut b)) else { return };
                    if good(&want) {
                        if r.is_err() {
                            c.fail(&format!("construct-encode/{what}"), "cannot be encoded".into());
                        } else {
                            judge_bytes(c, &want, &b);
                        }
                    }
                },
            );
        }
        for s in ["", "a", "MQTT", "é€𝄞"] {
            c.case(
                || format!("mqtt_string_new({s:?})"),
                |c| {
                    let sut = c.sut;
                    if c.ok("mqtt_string_new", || sut.mqtt_string(s)).is_some_and(|b| b != s.as_bytes()) {
                        c.fail("mqtt-string", "mqtt_string_new changed the text".into());
                    }
                },
            );
        }
    });
}

fn c18(j: &mut J) {
    fn prefixes(c: &mut Ctx, f: &[u8]) {
        for n in 0..=f.len() {
            f_mem(c, &f[..n]);
            if c.failing() {
                return;
            }
        }
    }
    seed_frames(j, prefixes);
    heads(j, f_mem);
    edit1_frames(j, f_mem);
    delim_frames(j, f_mem);
    raw_frames(j, f_mem);
    big_frames(j, f_mem);
    // every pair of adjacent bytes of every seed replaced by boundary lengths
    for k in KINDS {
        j.frames("frames: every two-byte window of every seed frame announcing a boundary length", kind_name(k), 1, f_mem, move |_, f| {
            for s in seeds(k) {
                let Hdr::Frame { hl, rl } = header(&s, None) else { continue };
                for i in hl..(hl + rl).saturating_sub(1) {
                    for x in [0x7fffu16, 0xffff, 0x8000, 0x00ff, 0x0100, 0x1000, 0x4000] {
                        let mut g = s.clone();
                        g[i..i + 2].copy_from_slice(&x.to_be_bytes());
                        f(&g);
                        // and cut right behind
                        f(&finish(g[0], &g[hl..i + 2]));
                    }
                }
                for i in hl..hl + rl {
                    for x in [&[0xff, 0xff, 0xff, 0x7f][..], &[0xff, 0xff, 0x7f], &[0xff, 0x7f]] {
                        let mut g = s[hl..i].to_vec();
                        g.extend_from_slice(x);
                        g.extend_from_slice(&s[i + 1..]);
                        f(&finish(s[0], &g));
                    }
                }
            }
        });
    }
    // announced length with every prefix of a real frame
    for k in KINDS {
        j.frames("streams: real frames whose header announces more", kind_name(k), 1, f_mem, move |_, f| {
            for s in seeds(k) {
                let Hdr::Frame { hl, .. } = header(&s, None) else { continue };
                for a in [1000u64, 16384, 70_000, 1 << 20, 1 << 24, VBI_MAX] {
                    let mut g = vec![s[0]];
                    put_vbi(&mut g, a);
                    g.extend_from_slice(&s[hl..]);
                    f(&g);
                }
            }
        });
    }
}

fn c19(j: &mut J) {
    const S: &str = "CONNECT: all 256 flag bytes x payload layouts";
    let t = j.t;
    j.frames(S, "frames", 8, f_both, move |p, f| {
        let lp = |b: &[u8]| -> Vec<u8> {
            let mut v = (b.len() as u16).to_be_bytes().to_vec();
            v.extend_from_slice(b);
            v
        };
        let props: [&[u8]; 3] = [&[0], &[3, 0x21, 0, 9], &[5, 0x26, 0, 0, 0, 0]];
        let wprops: [&[u8]; 3] = [&[0], &[2, 1, 1], &[5, 0x18, 0, 0, 0, 7]];
        let ids: [&[u8]; 3] = [b"", b"i", b"client"];
        let texts: &[&[u8]] = if t == Tier::Quick { &[b"", b"u", b"name"] } else { &[b"", b"u", b"name", b"\x00\x01", b"\x80"] };
        for fl in 0..=255u8 {
            if fl as usize % p.1 != p.0 {
                continue;
            }
            for pr in props {
                for id in ids {
                    let mut head = vec![0, 4, b'M', b'Q', b'T', b'T', 5, fl, 0, 10];
                    head.extend_from_slice(pr);
                    head.extend(lp(id));
                    // will: absent, or props x topic x message
                    let mut wills: Vec<Vec<u8>> = vec![vec![]];
                    for wp in wprops {
                        for wt in [&b""[..], b"t", b"\xff/t"] {
                            for wm in [&b""[..], b"m", b"\x00\xff\x00"] {
                                let mut w = wp.to_vec();
                                w.extend(lp(wt));
                                w.extend(lp(wm));
                                wills.push(w);
                            }
                        }
                    }
                    let mut tails: Vec<Vec<u8>> = vec![vec![]];
                    for u in texts {
                        tails.push(lp(u));
                        for q in texts {
                            tails.push([lp(u), lp(q)].concat());
                        }
                    }
                    for w in &wills {
                        for tl in &tails {
                            let mut o = head.clone();
                            o.extend_from_slice(w);
                            o.extend_from_slice(tl);
                            f(&finish(0x10, &o));
                        }
                    }
                }
            }
        }
    });
    j.vals("CONNECT: all combinations of clean start, keep alive, will, will QoS and retain, credentials, properties and client id, at every buffer position", &[1], 8, v_positions, move |_, p, f| {
        let mut n = 0;
        let texts: Vec<B> = if t == Tier::Quick {
            vec![B::new(), text(4, 1), text(4, 6)]
        } else {
            vec![B::new(), text(4, 1), text(4, 6), text(4, 127), text(4, 300)]
        };
        for clean in [false, true] {
            for keep_alive in [0u16, 0x0102] {
                for props in [None, Some(vec![]), Some(full_props(Sec::Connect)), Some(vec![(0x21, PV::U16(7))])] {
                    for client_id in [B::new(), text(1, 1), text(1, 8)] {
                        n += 1;
                        if n % p.1 != p.0 {
                            continue;
                        }
                        let mut wills = vec![None];
                        for qos in 0..3u8 {
                            for retain in [false, true] {
                                for (topic, message) in [(B::new(), B::new()), (text(2, 3), bin(3, 2)), (bin(9, 2), B::new()), (B::new(), bin(9, 4))] {
                                    for wp in [None, Some(vec![]), Some(full_props(Sec::Will)), Some(vec![(1, PV::Byte(1))])] {
                                        wills.push(Some(Will { qos, retain, topic: topic.clone(), message: message.clone(), props: wp }));
                                    }
                                }
                            }
                        }
                        let mut logins = vec![None];
                        for u in &texts {
                            for q in &texts {
                                logins.push(Some((u.clone(), q.clone())));
                            }
                        }
                        for will in &wills {
                            for login in &logins {
                                f(&Abs::Connect {
                                    clean,
                                    keep_alive,
                                    props: props.clone(),
                                    client_id: client_id.clone(),
                                    will: will.clone(),
                                    login: login.clone(),
                                });
                            }
                        }
                    }
                }
            }
        }
    });
    // corrupted CONNECTs
    j.frames("CONNECT: every one-byte corruption of small CONNECT frames", "frames", 8, f_both, |p, f| {
        let mut s = seeds(1);
        s.retain(|x| x.len() <= 60);
        for (i, x) in s.iter().enumerate() {
            if i % p.1 == p.0 {
                edits1(x, f);
            }
        }
    });
    j.vals(S_PAIR, &[1], 8, v_exact, |k, p, f| pairs_of(k, Lvl::Med, p, f));
    j.vals(S_TUPLE, &[1], 8, v_exact, |k, p, f| tuples(k, 3, p, f));
}

fn c20(j: &mut J) {
    const S: &str = "fields: every text and binary field x every UTF-8 decoder path (all 1- and 2-byte contents, boundary 3- and 4-byte sequences, embedded)";
    let t = j.t;
    for (n, fd) in fields().iter().enumerate() {
        j.frames(S, &fd.name, 1, f_text, move |_, f| {
            let fl = fields();
            for s in utf8_probe(t == Tier::Thorough) {
                f(&(fl[n].make)(&s));
            }
        });
    }
    j.frames("fields: every Unicode scalar value as a topic and in one (quick) or each (thorough) of the other text fields, alone; the low ones embedded", "all characters", 32, f_text, move |p, f| {
        let fl = fields();
        let (topic, rest): (Vec<_>, Vec<_>) = fl.iter().filter(|x| x.text && !x.pass).partition(|x| x.name == "PUBLISH topic");
        let topic = topic[0];
        for (n, ch) in ('\u{0}'..=char::MAX).enumerate() {
            if n % p.1 != p.0 {
                continue;
            }
            let mut b = [0u8; 4];
            let s: &[u8] = ch.encode_utf8(&mut b).as_bytes();
            f(&(topic.make)(s));
            for i in 0..t.pick(1, rest.len()) {
                f(&(rest[(n / p.1 + i) % rest.len()].make)(s));
            }
            if t == Tier::Thorough || n < 0x3100 {
                f(&(topic.make)(&[s, b"x"].concat()));
                f(&(topic.make)(&[b"x", s].concat()));
            }
        }
    });
    for (n, fd) in fields().iter().enumerate() {
        j.frames("fields: contents that invite special treatment (byte order mark, blanks, controls, non-characters, look-alikes, wildcards) in every text field, alone, at the beginning, in the middle, at the end and repeated", &fd.name, 1, f_text, move |_, f| {
            let fl = fields();
            let mut all: Vec<Vec<u8>> = SPECIAL.iter().map(|s| s.as_bytes().to_vec()).collect();
            for ch in ('\u{0}'..'\u{300}').chain('\u{2000}'..'\u{2070}').chain('\u{fdd0}'..'\u{fdf0}').chain('\u{fe00}'..'\u{fe10}').chain('\u{fef0}'..='\u{ffff}') {
                all.push(ch.to_string().into_bytes());
            }
            for plane in 1..=16u32 {
                for x in [0u32, 1, 0x7f, 0xfffd, 0xfffe, 0xffff] {
                    all.push(char::from_u32(plane << 16 | x).unwrap().to_string().into_bytes());
                }
            }
            for s in all {
                for b in [&[&s[..]][..], &[&s, b"mn"], &[b"m", &s, b"n"], &[b"mn", &s], &[&s, &s], &[&s, b"m", &s]] {
                    f(&(fl[n].make)(&b.concat()));
                }
            }
        });
    }
    for (n, fd) in fields().iter().enumerate() {
        j.frames("fields: every text and binary field of every length up to the bound with a stray or multi-byte sequence at every position, and in long ones around every power of two", &fd.name, 1, f_text, move |_, f| {
            let fl = fields();
            let seqs: [&[u8]; 6] = [&[0x80], &[0xff], &[0xc3, 0xa9], &[0xe2, 0x82, 0xac], &[0xf0, 0x9d, 0x84, 0x9e], &[0xed, 0xa0, 0x80]];
            for len in [1usize, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 130] {
                if len > t.pick(40, 200) {
                    continue;
                }
                let base = text(n as u64, len);
                for i in 0..=len {
                    for s in seqs {
                        let mut b = base[..i].to_vec();
                        b.extend_from_slice(s);
                        b.extend_from_slice(&base[i..]);
                        f(&(fl[n].make)(&b));
                        // replacing instead of inserting, so that multi-byte sequences may be cut at the end
                        let mut b = base.to_vec();
                        for (k, x) in s.iter().enumerate() {
                            if i + k < len {
                                b[i + k] = *x;
                            }
                        }
                        f(&(fl[n].make)(&b));
                    }
                }
            }
            for len in [255usize, 256, 300, 1000, 4096, 16384, 32767, 32768, 65535] {
                let base = text(n as u64, len);
                f(&(fl[n].make)(&base));
                for i in [0, 1, len / 2, len - 1] {
                    let mut b = base.to_vec();
                    b[i] = 0xff;
                    f(&(fl[n].make)(&b));
                }
                let mut b = base.to_vec();
                b[len - 2..].copy_from_slice(&[0xc3, 0xa9]);
                f(&(fl[n].make)(&b));
                // around every power of two
                for e in (3..16).map(|k| 1usize << k) {
                    for i in e - 4..=e + 1 {
                        for s in seqs {
                            if i + s.len() <= len && (len < 5000 || t == Tier::Thorough) {
                                let mut b = base.to_vec();
                                b[i..i + s.len()].copy_from_slice(s);
                                f(&(fl[n].make)(&b));
                            }
                        }
                    }
                }
            }
            // multi-byte characters at every distance, whole, cut at the end, and with one byte spoilt
            for len in [20usize, 70, 135, 260, 1030, 4100, 16390, 65535] {
                for w in wide_texts(len) {
                    f(&(fl[n].make)(&w));
                    f(&(fl[n].make)(&w[..w.len() - 1]));
                    for e in (3..16).map(|k| 1usize << k) {
                        if e < w.len() && (len < 5000 || t == Tier::Thorough) {
                            let mut b = w.to_vec();
                            b[e] = b'a';
                            f(&(fl[n].make)(&b));
                        }
                    }
                }
            }
        });
    }
}

fn c21(j: &mut J) {
    const S: &str = "PUBLISH: all 16 flag nibbles x all packet identifiers";
    const S2: &str = "PUBLISH: all flag nibbles x topics x payloads x properties x boundary identifiers";
    // decode
    j.frames(S, "frames", 16, f_both, |p, f| {
        for pk in 0..=65535u16 {
            let mut o = vec![0, 1, b't'];
            o.extend(pk.to_be_bytes());
            o.extend([0, b'p']);
            f(&finish(0x30 | p.0 as u8, &o));
        }
        // without the identifier
        f(&finish(0x30 | p.0 as u8, &[0, 1, b't', 0]));
        f(&finish(0x30 | p.0 as u8, &[0, 1, b't']));
    });
    // encode
    j.vals(S, &[3], 12, v_exact, |_, p, f| {
        let (qos, dup, retain) = (p.0 as u8 % 3, p.0 / 3 % 2 == 1, p.0 / 6 == 1);
        for pkid in 0..=65535u16 {
            f(&Abs::Publish { dup, qos, retain, topic: text(1, 1), pkid, props: None, payload: bin(2, 1) });
        }
    });
    let t = j.t;
    let shapes = move |f: &mut dyn FnMut(u16, &B, &B, &Option<Props>)| {
        let topics: Vec<B> = vec![B::new(), text(1, 1), text(1, 2), text(1, 9), text(1, 118), text(1, 127), text(1, 128), text(1, 256), text(1, 65535), "é/€".into()];
        let mut lens: Vec<usize> = (0..=8).collect();
        lens.extend([100, 110, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 255, 256, 300, 16370, 16384, 65535, 65536, 70_000]);
        if t == Tier::Thorough {
            lens.extend(9..=700);
            lens.extend(16_300..16_400);
            lens.extend([1 << 17, 1 << 20, 2_097_140, 2_097_152, 2_097_160]);
        }
        let props = [None, Some(vec![]), Some(vec![(1, PV::Byte(1))]), Some(vec![(0x0b, PV::Vbi(300)), (0x0b, PV::Vbi(1))]), Some(full_props(Sec::Publish))];
        for tp in &topics {
            for n in &lens {
                let pl = bin(4, *n);
                for pr in &props {
                    for pk in [1u16, 0x00ff, 0x0100, 0xffff, 0] {
                        if tp.len() > 300 && (*n > 300 || pk > 1) {
                            continue;
                        }
                        if *n > 60_000 && pk > 1 {
                            continue;
                        }
                        f(pk, tp, &pl, pr);
                    }
                }
            }
        }
    };
    j.vals(S2, &[3], 12, v_exact, move |_, p, f| {
        let (qos, dup, retain) = (p.0 as u8 % 3, p.0 / 3 % 2 == 1, p.0 / 6 == 1);
        shapes(&mut |pkid, topic, payload, props| {
            f(&Abs::Publish {
                dup,
                qos,
                retain,
                topic: topic.clone(),
                pkid,
                props: props.clone(),
                payload: payload.clone(),
            })
        });
    });
    j.frames(S2, "frames", 16, f_both, move |p, f| {
        shapes(&mut |pk, topic, payload, props| {
            // written by hand, the identifier always or never present
            for with in [false, true] {
                let mut o = (topic.len() as u16).to_be_bytes().to_vec();
                o.extend_from_slice(topic);
                if with {
                    o.extend(pk.to_be_bytes());
                }
                let mut sec = vec![];
                for (id, v) in props.iter().flatten() {
                    put_prop(&mut sec, *id, v);
                }
                put_vbi(&mut o, sec.len() as u64);
                o.extend(sec);
                o.extend_from_slice(payload);
                f(&finish(0x30 | p.0 as u8, &o));
            }
        });
    });
}

fn c22(j: &mut J) {
    const S: &str = "PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT: all forms x reason codes x identifiers x properties";
    let kinds = [14u8, 4, 5, 6, 7];
    for k in kinds {
        j.frames(S, kind_name(k), 4, f_both, move |p, f| {
            let b1 = k << 4 | if k == 6 { 2 } else { 0 };
            let sec = sec_of(k).unwrap();
            let mut sections: Vec<Vec<u8>> = vec![vec![0]];
            let mut add = |p: Props| {
                let mut s = vec![];
                for (id, v) in &p {
                    put_prop(&mut s, *id, v);
                }
                let mut o = vec![];
                put_vbi(&mut o, s.len() as u64);
                o.extend(s);
                sections.push(o);
            };
            for id in allowed(sec) {
                add(vec![(*id, default_pv(*id, 0))]);
                add(vec![(*id, default_pv(*id, 1))]);
            }
            add(full_props(sec));
            let ids: Vec<Vec<u8>> = if k == 14 {
                vec![vec![]]
            } else {
                (0..=65535u16).map(|x| x.to_be_bytes().to_vec()).collect()
            };
            for (n, id) in ids.iter().enumerate() {
                if n % p.1 != p.0 && k != 14 || k == 14 && p.0 > 0 {
                    continue;
                }
                // the forms
                f(&finish(b1, id));
                let all = k == 14 || matches!(n, 0..=2 | 127 | 128 | 255 | 256 | 0x1234 | 0xffff);
                for c in 0..=255u8 {
                    let mut o = id.clone();
                    o.push(c);
                    let known = codes(k).contains(&c);
                    if all || known {
                        f(&finish(b1, &o));
                    }
                    for (i, s) in sections.iter().enumerate() {
                        if all || known && i < 2 {
                            let mut o = o.clone();
                            o.extend_from_slice(s);
                            f(&finish(b1, &o));
                        }
                    }
                }
            }
        });
        j.vals(S, &[k], 4, v_exact, |k, p, f| {
            let sec = sec_of(k).unwrap();
            let mut props = vec![None, Some(vec![]), Some(full_props(sec))];
            for id in allowed(sec) {
                props.push(Some(vec![(*id, default_pv(*id, 0))]));
                props.push(Some(vec![(*id, default_pv(*id, 1))]));
            }
            for pkid in 0..=65535u16 {
                if pkid as usize % p.1 != p.0 {
                    continue;
                }
                for code in codes(k) {
                    for (i, pr) in props.iter().enumerate() {
                        if k == 14 {
                            if pkid < 4 {
                                f(&Abs::Disconnect { code: *code, props: pr.clone() });
                            }
                        } else if i < 2 || matches!(pkid, 0..=7 | 127 | 128 | 255 | 256 | 0x1234 | 0xffff) {
                            f(&Abs::Ack { typ: k, pkid, code: *code, props: pr.clone() });
                        }
                    }
                }
            }
        });
        // the short forms compare equal to the fully written one
        j.each(S, &format!("{}: equality of the forms", kind_name(k)), move |c| {
            let b1 = k << 4 | if k == 6 { 2 } else { 0 };
            for id in [0u16, 1, 2, 127, 128, 255, 256, 0x1234, 0xfffe, 0xffff] {
                let id = if k == 14 { vec![] } else { id.to_be_bytes().to_vec() };
                for code in codes(k) {
                    let form = |tail: &[u8]| finish(b1, &[&id[..], tail].concat());
                    let full = form(&[*code as u8, 0]);
                    let mut short = vec![form(&[*code as u8])];
                    if *code == 0 {
                        short.push(form(&[]));
                    }
                    for s in short {
                        c.case(
                            || format!("{} and {}", hex(&full), hex(&s)),
                            |c| {
                                c.fresh();
                                let Some((a, _)) = read_alone(c, &full) else { return };
                                let Some((b, _)) = read_alone(c, &s) else { return };
                                match (&a, &b) {
                                    (ROut::Pkt(a), ROut::Pkt(b)) if a.same(&**b) => {
                                        c.state(a.abs().class());
                                        c.saw("forms equal");
                                    }
                                    (a, b) => c.fail(
                                        &format!("forms/{}", kind_name(k)),
                                        format!("the full form gives {}, the short one {}", show(&res(a)), show(&res(b))),
                                    ),
                                }
                            },
                        );
                    }
                }
            }
        });
        j.vals(S_TUPLE, &[k], 2, v_exact, |k, p, f| {
            tuples(k, 2, p, f);
            tuples(k, 3, p, f);
        });
        j.vals(S_PAIR, &[k], 2, v_exact, |k, p, f| pairs_of(k, Lvl::Med, p, f));
    }
}

/// Lists of n elements in which elements are repeated: all equal, in runs, in turns, equal keys only, first and last.
fn repeats(k: u8, n: usize, f: Sink) {
    let patterns: [fn(usize, usize) -> usize; 7] =
        [|_, _| 0, |i, _| i / 2, |i, _| i % 2, |i, n| (i + 1 == n) as usize, |i, n| (2 * i > n) as usize, |i, n| n - i, |i, n| i % (n - 1).max(1)];
    for s in slots(k) {
        for (m, p) in patterns.iter().enumerate() {
            let e = |i: usize| p(i, n) as u64;
            let all: Vec<Val> = match s {
                Slot::Users | Slot::WillUsers => vec![
                    Val::Pairs((0..n).map(|i| (text(e(i), 2), text(e(i) + 1, 2))).collect()),
                    Val::Pairs((0..n).map(|i| (text(e(i), 2), text(i as u64, 2))).collect()),
                    Val::Pairs((0..n).map(|i| (text(i as u64, 2), text(e(i), 2))).collect()),
                ],
                Slot::SubIds => vec![Val::Ns((0..n).map(|i| 1 + e(i)).collect())],
                Slot::Filters if k == 8 => vec![
                    Val::Filts((0..n).map(|i| filt_opt(e(i) % 36, text(e(i), 2))).collect()),
                    // equal paths, other options
                    Val::Filts((0..n as u64).map(|i| filt_opt(i % 36, text(e(i as usize), 2))).collect()),
                ],
                Slot::Filters => vec![Val::Texts((0..n).map(|i| text(e(i), 2)).collect())],
                Slot::Codes => {
                    let c = codes(k);
                    vec![Val::Codes((0..n).map(|i| c[(e(i) as usize + m) % c.len()]).collect())]
                }
                _ => continue,
            };
            for x in all {
                for b in [min(k), full(k)] {
                    let mut a = b;
                    set(&mut a, s, &x);
                    if n > 0 || !matches!(s, Slot::Filters | Slot::Codes) {
                        f(&a);
                    }
                }
            }
        }
    }
}
fn c23(j: &mut J) {
    let t = j.t;
    const S: &str = "lists: every sequence over a small alphabet of elements up to the depth, in every list of every kind";
    const S2: &str = "lists: every number of elements up to the bound";
    let d = j.q(4usize, 5);
    // both directions: encode and model-decode, model-encode and decode
    fn both(c: &mut Ctx, a: &Abs) {
        v_exact(c, a);
        if c.failing() || !good(a) {
            return;
        }
        let f = encode(a, Form::Full);
        accept(c, &f, a);
    }
    j.vals(S_MANY, &KINDS, 1, both, |k, _, f| many(k, f));
    let user = |i: usize| -> (u8, PV) {
        let p = [(text(50, 1), text(60, 1)), (text(50, 1), text(61, 2)), (B::new(), B::new()), (text(51, 3), B::new()), (B::new(), text(60, 1))];
        (0x26, PV::Pair(p[i].0.clone(), p[i].1.clone()))
    };
    let all: Vec<u8> = KINDS.iter().copied().filter(|k| sec_of(*k).is_some()).collect();
    j.vals(S, &all, 1, both, move |k, _, f| {
        for n in 0..=d {
            seqs(5, n, (0, 1), &mut |s| {
                for base in [min(k), full(k)] {
                    let mut a = base;
                    let list: Props = s.iter().map(|i| user(*i)).collect();
                    let p = props_mut(&mut a).unwrap().get_or_insert_with(Vec::new);
                    p.retain(|(id, _)| *id != 0x26);
                    p.extend(list.clone());
                    f(&a);
                    if k == 1 && n < d {
                        // the will's own list, the other one staying
                        let mut a = full(k);
                        if let Abs::Connect { will: Some(w), .. } = &mut a {
                            w.props = Some(list.clone());
                        }
                        f(&a);
                    }
                }
            });
        }
    });
    j.vals(S, &[3], 1, both, move |k, _, f| {
        let ids = [1u64, 127, 128, 16384, 268_435_455];
        for n in 0..=d {
            seqs(5, n, (0, 1), &mut |s| {
                for users in 0..3usize {
                    let mut a = min(k);
                    let mut p: Props = s.iter().map(|i| (0x0b, PV::Vbi(ids[*i]))).collect();
                    p.extend((0..users).map(user));
                    *props_mut(&mut a).unwrap() = Some(p);
                    f(&a);
                }
            });
        }
    });
    j.vals(S, &[8], 2, both, move |k, part, f| {
        for n in 1..=d - 1 {
            seqs(9, n, part, &mut |s| {
                let mut a = full(k);
                set(&mut a, Slot::Filters, &Val::Filts(s.iter().map(|i| filt_opt(*i as u64 * 4, text(40 + *i as u64 / 3, *i % 3))).collect()));
                f(&a);
            });
        }
    });
    j.vals(S, &[10], 1, both, move |k, _, f| {
        let t = [B::new(), text(1, 1), text(2, 1), text(1, 2)];
        for n in 1..=d + 1 {
            seqs(4, n, (0, 1), &mut |s| {
                for b in [min(k), full(k)] {
                    let mut a = b;
                    set(&mut a, Slot::Filters, &Val::Texts(s.iter().map(|i| t[*i].clone()).collect()));
                    f(&a);
                }
            });
        }
    });
    j.vals(S, &[9, 11], 4, both, move |k, part, f| {
        let c = codes(k);
        for n in 1..=d {
            seqs(c.len(), n, part, &mut |s| {
                let mut a = if n < 3 { full(k) } else { min(k) };
                set(&mut a, Slot::Codes, &Val::Codes(s.iter().map(|i| c[*i]).collect()));
                f(&a);
            });
        }
    });
    // counts
    let top = j.q(300usize, 2100);
    j.vals(S2, &all, 4, both, move |k, part, f| {
        for n in 0..=top {
            if n % part.1 != part.0 {
                continue;
            }
            let mut a = min(k);
            *props_mut(&mut a).unwrap() = Some((0..n).map(|i| (0x26, PV::Pair(text(i as u64, 1 + i % 3), text(i as u64 / 7, i % 4)))).collect());
            f(&a);
            match k {
                1 => {
                    let mut a = full(k);
                    if let Abs::Connect { will: Some(w), .. } = &mut a {
                        w.props = Some((0..n).map(|i| (0x26, PV::Pair(text(i as u64, 1 + i % 3), text(i as u64 / 7, i % 4)))).collect());
                    }
                    f(&a);
                }
                3 => {
                    let mut a = min(k);
                    *props_mut(&mut a).unwrap() = Some((0..n).map(|i| (0x0b, PV::Vbi(1 + (i as u64 * 37) % 20_000))).collect());
                    f(&a);
                }
                8 if n > 0 => {
                    let mut a = full(k);
                    set(&mut a, Slot::Filters, &Val::Filts((0..n as u64).map(|i| filt_opt(i % 36, text(i, (i % 4) as usize))).collect()));
                    f(&a);
                }
                10 if n > 0 => {
                    let mut a = full(k);
                    set(&mut a, Slot::Filters, &Val::Texts((0..n as u64).map(|i| text(i, (i % 4) as usize)).collect()));
                    f(&a);
                }
                9 | 11 if n > 0 => {
                    let c = codes(k);
                    let mut a = full(k);
                    set(&mut a, Slot::Codes, &Val::Codes((0..n).map(|i| c[(i * 5 + i / 11) % c.len()]).collect()));
                    f(&a);
                }
                _ => {}
            }
        }
        if part.0 == 0 {
            for n in (0..=t.pick(70usize, 300)).chain([100, 127, 128, 129, 255, 256, 257, 300, 512, 1000, 1024, 2000, 5000]) {
                repeats(k, n, f);
            }
            for n in [1000usize, 5000, 20_000] {
                exact(k, &[n], f);
            }
        }
    });
    // lists independent of each other: two lists in one packet
    j.vals("lists: every pair of list lengths in packets with two lists", &[8, 9, 10, 11, 3, 1], 1, both, |k, _, f| {
        for x in 0..12usize {
            for y in 0..12usize {
                let us: Props = (0..x).map(|i| (0x26, PV::Pair(text(i as u64, 1), text(i as u64 / 2, 2)))).collect();
                let mut a = full(k);
                *props_mut(&mut a).unwrap() = Some(us.clone());
                match &mut a {
                    Abs::Connect { will: Some(w), .. } => {
                        w.props = Some((0..y).map(|i| (0x26, PV::Pair(text(90 + i as u64, 1), text(i as u64, 1)))).collect())
                    }
                    Abs::Publish { props: Some(p), .. } => p.extend((0..y).map(|i| (0x0b, PV::Vbi(1 + 100 * i as u64)))),
                    Abs::Subscribe { filters, .. } => *filters = (0..y as u64 + 1).map(filt_n).collect(),
                    Abs::Unsubscribe { filters, .. } => *filters = (0..y as u64 + 1).map(|i| text(i, 2)).collect(),
                    Abs::SubAck { codes: c, .. } => *c = (0..=y).map(|i| codes(9)[i % 12]).collect(),
                    Abs::UnsubAck { codes: c, .. } => *c = (0..=y).map(|i| codes(11)[i % 7]).collect(),
                    _ => {}
                }
                f(&a);
            }
        }
    });
}

fn c24(j: &mut J) {
    // packets: the kind's own reader and writer
    values(j, v_kind);
    j.vals(S_UNREP, &KINDS, 2, v_kind, |k, p, f| unreps(k, p, f));
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_kind(c, a))));
    seed_frames(j, f_kind);
    raw_frames(j, f_kind);
    let max = j.q(24usize, 140);
    for k in KINDS {
        j.frames(F_EDIT1, kind_name(k), if k == 1 { 8 } else { 2 }, f_kind, move |p, f| {
            for (n, s) in seeds(k).iter().filter(|s| s.len() <= max).enumerate() {
                if n % p.1 == p.0 {
                    edits1(s, f);
                }
            }
        });
    }
    delim_frames(j, f_kind);
    big_frames(j, f_kind);
    // parts of packets
    const P_VAL: &str = "parts: the property sections, wills, credentials and filters of the value spaces, written and read on their own";
    const P_RAW: &str = "parts: every byte string up to the length bound, and longer ones over a structural alphabet, given to every part reader";
    const P_SEC: &str = "parts: property sections with every declared length, and every order of properties, given to their reader";
    const P_EDIT: &str = "parts: every substitution, insertion, deletion of one byte and every truncation of small parts";
    let t = j.t;
    let deep = j.q(2usize, 3);
    type G = Arc<dyn Fn(u8, Sink) + Send + Sync>;
    let gens: Vec<(&str, G)> = vec![
        ("tuples", Arc::new(move |k, f| tuples(k, deep, (0, 1), f))),
        ("subsets", Arc::new(|k, f| subsets(k, 0, (0, 1), f))),
        ("subsets, zero values", Arc::new(|k, f| subsets(k, 1, (0, 1), f))),
        ("single fields", Arc::new(move |k, f| singles(k, t.pick(Lvl::Large, Lvl::Huge), (0, 1), f))),
        ("unrepresentable", Arc::new(|k, f| unreps(k, (0, 1), f))),
        ("long lists", Arc::new(|k, f| many(k, f))),
    ];
    for k in KINDS.into_iter().filter(|k| !matches!(k, 12 | 13)) {
        for (what, g) in &gens {
            let g = g.clone();
            j.each(P_VAL, &format!("{what} {}", kind_name(k)), move |c| {
                let mut seen = std::collections::HashSet::new();
                g(k, &mut |a| {
                    for p in parts_of(a) {
                        use std::hash::{Hash, Hasher};
                        let mut h = std::collections::hash_map::DefaultHasher::new();
                        p.hash(&mut h);
                        if seen.insert(h.finish()) {
                            c.case(|| format!("{p:?}").chars().take(3000).collect(), |c| part_both(c, &p));
                        }
                    }
                })
            });
        }
    }
    let rd = |c: &mut Ctx, w: Which, b: &[u8]| c.case(|| format!("{} {}", part_name(w), hex(b)), |c| part_read(c, w, b));
    for (n, w) in readers().into_iter().enumerate() {
        let m = j.q(5usize, 7);
        j.each(P_RAW, &format!("reader {n}"), move |c| {
            let mut b = vec![0xc0u8, 0, 0, 0];
            rd(c, w, &[]);
            for len in 1..=2usize {
                for x in 0..256u32.pow(len as u32) {
                    let s: Vec<u8> = (0..len).map(|i| (x >> (8 * i)) as u8).collect();
                    rd(c, w, &s);
                }
            }
            b.truncate(0);
            const A: [u8; 8] = [0x00, 0x01, 0x02, 0x04, 0x26, 0x1f, 0x80, 0xff];
            for len in 3..=m {
                seqs(A.len(), len, (0, 1), &mut |s| {
                    b.clear();
                    b.extend(s.iter().map(|i| A[*i]));
                    rd(c, w, &b);
                });
            }
        });
    }
    // all flag bytes
    j.each(P_RAW, "all CONNECT flags", move |c| {
        for fl in 0..=255u8 {
            for b in [&[][..], &[0], &[0, 0], &[0, 0, 0], &[0, 0, 0, 0, 0], &[0, 1, b'u', 0, 1, b'p', 0], &[0, 0, 0, 0, 1, b'p', 9], &[5, 0x18, 0, 0, 0, 7, 0, 1, b't', 0, 2, 1, 2, 3]] {
                rd(c, Which::Will(fl), b);
                rd(c, Which::Login(fl), b);
            }
        }
    });
    for s in SECS {
        for d in 1..=j.q(2usize, 3) {
            j.each(P_SEC, &format!("{s:?} declared lengths, depth {d}"), move |c| {
                delimit(s, d, (0, 1), &mut |f| {
                    if let Some(b) = section_of(s, f) {
                        rd(c, Which::Props(s), &b);
                    }
                })
            });
        }
        let d = if allowed(s).len() > 9 { j.q(2, 3) } else { j.q(3, 4) };
        j.each(P_SEC, &format!("{s:?} orders, depth {d}"), move |c| {
            orders(s, d, (0, 1), &mut |f| {
                if let Some(b) = section_of(s, f) {
                    rd(c, Which::Props(s), &b);
                }
            })
        });
    }
    let max = j.q(60usize, 160);
    j.each_part(P_EDIT, "parts", 8, move |c, p| {
        for (n, (w, b)) in part_seeds().into_iter().filter(|x| x.1.len() <= max).enumerate() {
            if n % p.1 == p.0 {
                damage(&b, &mut |b| rd(c, w, b));
            }
        }
    });
}

fn c25(j: &mut J) {
    const S: &str = "pairs: every ordered pair of packets of a kind that differ from the bases in one place, built and decoded";
    for k in KINDS {
        j.each(S, kind_name(k), move |c| {
            let v = variants(k);
            pairwise(c, &v);
        });
    }
    for k in KINDS {
        j.each_part("pairs: every ordered pair of values of one field, everything else equal (all codes, every bit of every number, similar texts, permutations and repetitions of lists)", kind_name(k), 8, move |c, p| {
            let mut n = 0;
            alike(k, &mut |g| {
                n += 1;
                if n % p.1 == p.0 {
                    pairwise(c, &g);
                }
            });
        });
    }
    for k in KINDS {
        j.each_part("pairs: values of one field or list that are long and differ in one byte or element, at the beginning, around every power of two and at the end", kind_name(k), 4, move |c, p| {
            let mut n = 0;
            long_alike(k, c.tier == Tier::Thorough, &mut |g| {
                n += 1;
                if n % p.1 == p.0 {
                    pairwise(c, &g);
                }
            });
        });
    }
    j.each("pairs: bases of all kinds against each other", "across kinds", |c| {
        let mut v = vec![];
        for k in KINDS {
            v.extend(bases(k));
            v.extend(variants(k).into_iter().step_by(c.tier.pick(23, 5)));
        }
        let mut seen = std::collections::HashSet::new();
        v.retain(|a| seen.insert(a.clone()));
        pairwise(c, &v);
    });
    values(j, v_copy);
}

fn c26(j: &mut J) {
    for k in KINDS {
        j.each("frames: every undefined value in every coded field of otherwise well-formed frames", kind_name(k), move |c| {
            let utf8 = c.sut.utf8();
            defects(k, utf8, &mut |f, w, what| c.case(|| format!("{what}: {}", hex(f)), |c| said(c, f, w, what)))
        });
    }
    j.vals("values: every field that can exceed its limit, one at a time", &KINDS, 2, said_write, |k, p, f| {
        let mut n = 0;
        for b in bases(k) {
            if unrepresentable(&b).is_some() {
                continue;
            }
            for (s, x) in pushes(k) {
                n += 1;
                if n % p.1 == p.0 {
                    let mut a = b.clone();
                    set(&mut a, s, &x);
                    f(&a);
                }
            }
        }
    });
}

const H_DENSE: &str = "schedules: a complete operation of one thread after every single instruction of another's";
const H_ONE: &str = "schedules: one operation interrupted after its n-th instruction by a complete other one, for every n";
const H_TWO: &str = "schedules: two operations each interrupted once by the other, after every pair of numbers of instructions";
const H_LOCK: &str = "schedules: two operations in alternation, n instructions each, for every n up to the bound";
const H_FIRST: &str = "schedules: two threads use an operation for the first time in a fresh process, one interrupted after its n-th instruction by the other, for every n";
const H_SHARED: &str = "schedules: threads using one packet, or a packet and the rest of the stream it came from; complete operation after every single instruction";
const S_AUTO: &str = "types: may be sent to and shared with other threads";

fn c27(j: &mut J) {
    use crate::conc::*;
    j.each(S_AUTO, "all public types", |c| {
        for (name, send, sync) in c.sut.auto_traits() {
            c.case(
                || name.to_string(),
                |c| {
                    c.fresh();
                    c.state(key(&[send as u64, sync as u64]));
                    if !send {
                        c.fail(&format!("not-send/{name}"), format!("{name} cannot be sent to another thread"));
                    }
                    if !sync {
                        c.fail(&format!("not-sync/{name}"), format!("{name} cannot be shared between threads"));
                    }
                    c.saw("type");
                },
            );
        }
    });
    let all = ops(1);
    // partners: itself, its neighbours, and a spread over everything; all configurations share the work
    let spread = j.q([29usize, 1000], [3, 7]);
    let mut pairs: [Vec<(usize, usize)>; 2] = [vec![], vec![]];
    for (which, s) in spread.iter().enumerate() {
        for i in 0..all.len() {
            let mut p = vec![i, (i + 1) % all.len(), (i + all.len() - 3) % all.len()];
            p.extend((i % s..all.len()).step_by(*s));
            p.sort();
            p.dedup();
            pairs[which].extend(p.into_iter().map(|b| (i, b)));
        }
    }
    let parts = 16;
    for cfg in j.cfgs.clone() {
        for part in 0..parts {
            let (all, list) = (all.clone(), pairs[(cfg != 0) as usize].clone());
            j.job(H_DENSE, cfg, false, format!("part {part}/{parts}"), move |c| {
                for (a, b) in list.iter().skip(part).step_by(parts) {
                    let x = Pair::Own(all[*a].clone(), all[*b].clone());
                    let Some(w) = alone_of(c, &x) else { continue };
                    c.case(|| x.show(), |c| run_dense(c, &x, &w));
                }
            });
        }
    }
    // what was decoded from one stream
    for k in KINDS {
        j.each(H_SHARED, kind_name(k), move |c| {
            let (f, small) = (encode(&full(k), Form::Shortest), encode(&min(k), Form::Shortest));
            let mut how = vec![];
            for u in USES {
                how.push(Share::ReadOn(u));
                how.push(Share::UseWhileRead(u));
                for v in USES {
                    how.push(Share::Both(u, v));
                }
            }
            for (first, then) in [(&f, &f), (&f, &small), (&small, &f)] {
                if c.tier == Tier::Quick && c.cfg != 0 && !std::ptr::eq(first, then) {
                    continue;
                }
                for h in &how {
                    let x = Pair::Shared { first: first.clone(), then: then.clone(), how: *h };
                    let Some(w) = alone_of(c, &x) else { continue };
                    c.case(|| x.show(), |c| run_dense(c, &x, &w));
                }
            }
        });
    }
    // schedules with few switches at every place
    let firsts = j.q(vec![0usize, 3, 10, 19, 21], (0..40).collect());
    let nb = j.q(37, 11);
    for a in firsts {
        let bs: Vec<usize> = [a, a + 1].into_iter().chain((a % nb..all.len()).step_by(nb)).collect();
        for cfg in j.cfgs.clone() {
            // the other configurations: with itself and its neighbour
            for b in bs.iter().copied().take(if cfg == 0 || j.t == Tier::Thorough { usize::MAX } else { 2 }) {
                let x = Pair::Own(all[a].clone(), all[b].clone());
                j.job(H_ONE, cfg, false, format!("operations {a} and {b}"), move |c| {
                    let Some(w) = alone_of(c, &x) else { return };
                    for k in 1..=w.na as u32 {
                        c.case(|| format!("{}: after {k} instructions of A", x.show()), |c| run_schedule(c, &x, &w, &[k, END]));
                    }
                });
            }
        }
    }
    // the first use in the process
    for (i, o) in first_ops().iter().enumerate() {
        for cfg in j.cfgs.clone() {
            if j.t == Tier::Thorough || (cfg == 0 && i < 28) {
                j.job(H_FIRST, cfg, false, o.show(), move |c| first_use(c, i));
            }
        }
    }
    let all_lock = all.clone();
    let (bound, step) = j.q((24u32, 13usize), (200, 3));
    j.each_part(H_LOCK, "", 8, move |c, (p, n)| {
        let mut i = 0;
        for a in (0..all_lock.len()).step_by(step) {
            for b in [a, (a + 1) % all_lock.len(), (a * 5 + 3) % all_lock.len()] {
                i += 1;
                if i % n != p {
                    continue;
                }
                let x = Pair::Own(all_lock[a].clone(), all_lock[b].clone());
                let Some(w) = alone_of(c, &x) else { continue };
                for s in 1..=bound {
                    let segs = vec![s; ((w.na + w.nb) / s as u64 + 2) as usize];
                    c.case(|| format!("{}: {s} instructions each", x.show()), |c| run_schedule(c, &x, &w, &segs));
                }
            }
        }
    });
    if j.t == Tier::Thorough {
        for (a, b) in [(0usize, 0usize), (0, 1), (3, 4), (3, 3), (5, 3), (16, 3), (5, 6), (3, 13)] {
            let all = all.clone();
            j.each_part(H_TWO, &format!("operations {a} and {b}"), 32, move |c, (p, n)| {
                let x = Pair::Own(all[a].clone(), all[b].clone());
                let Some(w) = alone_of(c, &x) else { return };
                for k in (1 + p as u32..=w.na as u32).step_by(n) {
                    for l in 1..=w.nb as u32 {
                        c.case(
                            || format!("{}: after {k} instructions of A, {l} of B", x.show()),
                            |c| run_schedule(c, &x, &w, &[k, l, END]),
                        );
                    }
                }
            });
        }
    }
}

fn c28(j: &mut J) {
    use crate::work::*;
    const GROW: &str = "families: every list and every text, binary and payload field of every kind grown through the sizes; decode (also with a defect), encode, size, copy, compare";
    const FILL: &str = "families: frames of every first byte filled with a repeated pattern, grown through the sizes";
    const AFTER: &str = "streams: every frame (and malformed variants) with nothing, other frames and large amounts of anything behind it, under limits";
    const WAIT: &str = "streams: every announced length x bytes present of incomplete and of too long frames";
    const APP: &str = "buffers: every packet encoded into buffers with more and more content";
    let lists = j.q(vec![16usize, 32, 128], vec![16, 32, 64, 256, 1024]);
    let long = j.q(vec![16usize, 32, 1024], vec![16, 32, 64, 256, 4096]);
    let codes_n = j.q(vec![64usize, 128, 4096], vec![64, 128, 512, 2048, 16384]);
    let fields = j.q(vec![64usize, 128, 4096], vec![64, 128, 512, 4096, 65535]);
    for k in KINDS {
        for f in families(k, &lists, &long, &codes_n, &fields) {
            let name = f.name.clone();
            let f = Arc::new(f);
            for cfg in j.cfgs.clone() {
                if cfg == 0 || f.core || j.t == Tier::Thorough {
                    let (f, name) = (f.clone(), name.clone());
                    j.job(GROW, cfg, false, name.clone(), move |c| c.case(|| name.clone(), |c| grow_case(c, &f)));
                }
            }
        }
    }
    let sizes = j.q(vec![64usize, 128, 1024], vec![64, 128, 512, 2048, 16384]);
    for first in FIRST.into_iter().chain([0x33]) {
        let sizes = sizes.clone();
        j.each(FILL, &format!("first byte {first:#04x}"), move |c| {
            if c.tier == Tier::Quick && c.cfg != 0 {
                return;
            }
            let mut leads = vec![None];
            leads.extend(SECS.into_iter().filter(|s| around(*s).byte1 == first).map(Some));
            let mut pats: Vec<Vec<u8>> = [0u8, 1, 2, 4, 5, 8, 0x0b, 0x1f, 0x26, 0x61, 0x7f, 0x80, 0x8f, 0xc0, 0xe2, 0xff].iter().map(|b| vec![*b]).collect();
            for id in 1..=0x2a {
                if prop_type(id).is_some() {
                    let mut v = vec![];
                    put_prop(&mut v, id, &default_pv(id, 0));
                    pats.push(v);
                }
            }
            pats.push(vec![0, 1, b'a']);
            pats.push(vec![0, 1, b'a', 1]);
            for lead in &leads {
                for p in &pats {
                    c.case(
                        || format!("first byte {first:#04x}, property section {lead:?}, repeated {}", hex(p)),
                        |c| filled(c, first, p, *lead, &sizes),
                    );
                }
            }
        });
    }
    for k in KINDS {
        j.each(AFTER, kind_name(k), move |c| {
            let (zeros, ones) = (vec![0u8; 100_000], vec![0xffu8; 3000]);
            let all = seeds(k);
            for (i, s) in all.iter().enumerate() {
                if c.tier == Tier::Quick && i % (if c.cfg == 0 { 2 } else { 16 }) != 0 {
                    continue;
                }
                let next = &all[(i + 1) % all.len()];
                let stream: Vec<u8> = s.iter().chain(next).copied().cycle().take(c.tier.pick(20_000, 1_000_000)).collect();
                c.case(|| format!("{} with other things behind it", hex(s)), |c| followed(c, s, &[&zeros, &ones, &stream]));
            }
        });
        let more = more_of(j.t);
        j.each(APP, kind_name(k), move |c| {
            for a in bases(k).into_iter().chain(variants(k).into_iter().step_by(if c.tier == Tier::Thorough { 1 } else if c.cfg == 0 { 3 } else { 29 })) {
                for n in &more {
                    c.case(|| format!("{} into {n} bytes", a.show()), |c| appended(c, &a, *n));
                }
            }
        });
    }
    let t = j.t;
    for first in CANON {
        j.each(WAIT, &format!("first byte {first:#04x}"), move |c| {
            for a in t.pick(vbis(Lvl::Med), vbis(Lvl::Large)) {
                let mut h = vec![first];
                put_vbi(&mut h, a);
                for present in [1usize, 5000, 100_000] {
                    let present = present.min((a as usize).saturating_sub(1));
                    for fill in [0u8, 0xff] {
                        c.case(
                            || format!("{} and {present} bytes {fill:#04x}", hex(&h)),
                            |c| waiting(c, &h, fill, present, None),
                        );
                    }
                }
                if a > 0 {
                    for present in [a as usize, 100_000] {
                        let present = present.min(100_000);
                        c.case(
                            || format!("{} and {present} bytes, limit {}", hex(&h), a - 1),
                            |c| waiting(c, &h, 0x26, present, Some(a as usize - 1)),
                        );
                    }
                }
            }
        });
    }
}
fn more_of(t: Tier) -> Vec<usize> {
    t.pick(vec![100_000], vec![1, 3000, 100_000, 3_000_000])
}

fn c29(j: &mut J) {
    const TRAFFIC: &str = "connections: thousands of packets of a kind with ever new content in each place and in all places at once, under every habit of the user";
    seed_frames(j, f_left);
    heads(j, f_left);
    raw_frames(j, f_left);
    edit1_frames(j, f_left);
    delim_frames(j, f_left);
    big_frames(j, f_left);
    j.vals(S_UNREP, &KINDS, 2, v_left, unreps);
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_left(c, a))));
    let t = j.t;
    j.vals(S_TUPLE, &KINDS, 1, v_left, |k, p, f| tuples(k, 1, p, f));
    j.vals(S_TUPLE, &KINDS, 1, v_left, |k, p, f| tuples(k, 2, p, f));
    j.vals(S_SUBSET, &KINDS, 4, v_left, move |k, p, f| subsets(k, 0, (p.0 as u64, p.1 as u64), f));
    j.vals(S_SINGLE, &KINDS, 6, v_left, move |k, p, f| singles(k, t.pick(Lvl::Large, Lvl::Huge), p, f));
    if t == Tier::Thorough {
        values(j, v_left);
    }
    let rounds = j.q(4096, 70_000);
    for k in KINDS {
        j.each(TRAFFIC, kind_name(k), move |c| {
            let places = varying(k);
            let mut sets: Vec<Vec<Slot>> = places.iter().map(|s| vec![*s]).collect();
            sets.push(vec![]);
            sets.push(places);
            for (bi, base) in [min(k), full(k)].into_iter().enumerate() {
                for s in &sets {
                    for h in HABITS {
                        c.case(
                            || format!("{rounds} packets {} base {bi}, varying {s:?}, habit {h:?}", kind_name(k)),
                            |c| traffic(c, &base, s, h, rounds),
                        );
                    }
                }
            }
        });
    }
}

fn c30(j: &mut J) {
    let t = j.t;
    j.vals(S_UNREP, &KINDS, 4, v_memory, unreps);
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_memory(c, a))));
    values(j, v_memory);
    for k in KINDS {
        j.each(S_LONG, kind_name(k), move |c| {
            many_of(k, t.pick(&[1000, 200_000][..], &[1000, 20_000, 400_000, 2_000_000]), &mut |a| {
                c.case(|| val_desc(a).chars().take(300).collect(), |c| v_memory(c, a));
            })
        });
        const APP: &str = "buffers: every packet encoded into buffers with more and more content";
        let more = more_of(t);
        j.each(APP, kind_name(k), move |c| {
            for a in bases(k).into_iter().chain(variants(k)) {
                c.case(|| format!("{} into buffers with {more:?} bytes", a.show()), |c| v_memory_at(c, &a, &more));
            }
        });
    }
}

fn c31(j: &mut J) {
    const STATE: &str = "buffer states: every seed frame decoded from every buffer construction, which is then overwritten, reused and dropped";
    const TOGETHER: &str = "histories: every sequence of frames up to the depth through one buffer that goes on being used, all packets and encoded bytes kept";
    let t = j.t;
    seed_frames(j, f_apart);
    for k in KINDS {
        j.each(STATE, kind_name(k), move |c| {
            for s in seeds(k) {
                for st in 0..BUF_STATES {
                    c.case(|| format!("buffer state {st}, {}", frame_desc(&s)), |c| apart(c, &s, st));
                }
            }
        });
    }
    let small = |x: &Abs| unrepresentable(x).is_none() && x.lists_ok();
    for k in KINDS {
        j.frames(F_FORMS, &format!("single fields {}", kind_name(k)), 6, f_apart, move |p, f| {
            singles(k, t.pick(Lvl::Large, Lvl::Huge), p, &mut |a| {
                if small(a) {
                    f(&encode(a, Form::Full))
                }
            })
        });
        j.frames(F_FORMS, &format!("pairs of fields {}", kind_name(k)), 4, f_apart, move |p, f| {
            pairs_of(k, Lvl::Med, p, &mut |a| {
                if small(a) {
                    f(&encode(a, Form::Shortest))
                }
            })
        });
    }
    edit1_frames(j, f_apart);
    raw_frames(j, f_apart);
    order_frames(j, f_apart);
    big_frames(j, f_apart);
    for d in 2..=j.q(3, 4) {
        j.each_part(TOGETHER, &format!("depth {d}"), if d > 2 { 8 } else { 1 }, move |c, p| {
            let (lib, _) = live_frames(c, if d > 3 { small_frames() } else { frame_lib() });
            let n = lib.len();
            seqs(n, d, p, &mut |s| {
                // at depth 3 every pair in front of every third frame
                if d == 3 && t == Tier::Quick && (s[0] + 2 * s[1] + 3 * s[2]) % 4 != 0 {
                    return;
                }
                let states = if d == 2 { BUF_STATES } else { 1 };
                for st in 0..states {
                    c.case(|| format!("buffer state {st}, {}", seq_desc(&lib, s)), |c| together(c, &lib, s, st));
                }
            });
        });
    }
}

fn c32(j: &mut J) {
    const MIX: &str = "values: stored in different ways from field to field";
    const PARTS: &str = "parts: of packets stored in every way";
    const EQ: &str = "pairs: packets of a kind that differ from the bases in one place, stored in every way";
    const ALIKE: &str = "pairs: values of one field, everything else equal, stored in every way";
    const CTOR: &str = "constructors: all argument combinations over the bounded alphabets, the arguments stored in every way";
    let t = j.t;
    j.vals(S_UNREP, &KINDS, 4, v_stored_mixed, unreps);
    j.each(S_EMPTY, "empty lists", |c| empties(&mut |a| c.case(|| val_desc(a), |c| v_stored_mixed(c, a))));
    let depth = j.q(3, 4);
    values_to(j, depth, v_stored);
    for d in 1..=j.q(2, 3) {
        j.vals(MIX, &KINDS, if d > 2 { 4 } else { 1 }, v_stored_mixed, move |k, p, f| tuples(k, d, p, f));
    }
    j.vals(MIX, &KINDS, 4, v_stored_mixed, move |k, p, f| singles(k, t.pick(Lvl::Med, Lvl::Large), p, f));
    j.vals(MIX, &KINDS, 2, v_stored_mixed, echoes);
    for k in KINDS {
        j.each(PARTS, kind_name(k), move |c| {
            for d in 1..=t.pick(2, 3) {
                tuples(k, d, (0, 1), &mut |a| c.case(|| val_desc(a), |c| parts_stored(c, a)));
            }
            unreps(k, (0, 1), &mut |a| c.case(|| val_desc(a), |c| parts_stored(c, a)));
        });
        j.each(EQ, kind_name(k), move |c| pairwise_stored(c, &variants(k)));
        j.each_part(ALIKE, kind_name(k), 8, move |c, p| {
            let mut n = 0;
            alike(k, &mut |g| {
                n += 1;
                if n % p.1 == p.0 && (g.len() < t.pick(24, 1 << 20)) {
                    pairwise_stored(c, &g);
                }
            });
        });
    }
    j.each(CTOR, "constructors", |c| {
        for (x, want) in ctors(c.tier) {
            c.case(|| format!("{x:?}").chars().take(600).collect(), |c| ctor_stored(c, &x, &want));
        }
    });
    seed_frames(j, f_stored);
    order_frames(j, f_stored);
    let small = |x: &Abs| unrepresentable(x).is_none() && x.lists_ok();
    for k in KINDS {
        j.frames(F_FORMS, &format!("single fields {}", kind_name(k)), 2, f_stored, move |p, f| {
            singles(k, Lvl::Med, p, &mut |a| {
                if small(a) {
                    f(&encode(a, Form::Full))
                }
            })
        });
    }
}

fn c33(j: &mut J) {
    const GROUP: &str = "groups: packets of a kind, printed and compared with all others of the group";
    const ORDER: &str = "levels of service: every pair compared";
    let t = j.t;
    for k in KINDS {
        let mut group = |what: &str, parts: usize, g: Arc<dyn Fn((usize, usize), Sink) + Send + Sync>| {
            j.each_part(GROUP, &format!("{what} {}", kind_name(k)), parts, move |c, p| {
                let mut all = vec![];
                g(p, &mut |a| all.push(a.clone()));
                printed(c, all);
            });
        };
        group("single fields", 6, Arc::new(move |p, f| singles(k, t.pick(Lvl::Large, Lvl::Huge), p, f)));
        group("pairs of fields", 4, Arc::new(move |p, f| pairs_of(k, Lvl::Med, p, f)));
        for d in 1..=t.pick(3, 4) {
            group(&format!("{d} fields"), if d > 2 { 4 } else { 1 }, Arc::new(move |p, f| tuples(k, d, p, f)));
        }
        for set in 0..2u8 {
            group(&format!("properties {set}"), 4, Arc::new(move |p, f| subsets(k, set, (p.0 as u64, p.1 as u64), f)));
        }
        group("equal contents", 1, Arc::new(move |p, f| echoes(k, p, f)));
        let every = t.pick(8, 1);
        group("unrepresentable", 2, Arc::new(move |p, f| {
            let mut n = 0;
            unreps(k, p, &mut |a| {
                n += 1;
                if n % every == 0 {
                    f(a)
                }
            })
        }));
        if t == Tier::Thorough {
            group("words", 2, Arc::new(move |p, f| words(k, p, f)));
        }
    }
    j.each(GROUP, "empty lists", |c| {
        let mut all = vec![];
        empties(&mut |a| all.push(a.clone()));
        printed(c, all);
    });
    j.vals(S_UNREP, &KINDS, 2, v_errors, unreps);
    j.each(ORDER, "levels of service", qos_order);
    heads_some(j, f_limit_errors);
    heads_some(j, f_errors);
    seed_frames(j, f_limit_errors);
    edit1_frames(j, f_errors);
    raw_frames(j, f_errors);
    alpha_frames(j, f_errors);
    delim_frames(j, f_errors);
    big_frames(j, f_errors);
}
