//! Bounded spaces of frames. Every space is enumerated completely.
use crate::abs::*;
use crate::gen_val::*;
use crate::model::*;
use std::collections::HashSet;

pub type FSink<'a> = &'a mut dyn FnMut(&[u8]);

/// One small encoded value per property.
fn mini(id: u8, k: usize) -> Vec<u8> {
    let mut o = vec![];
    let v = match prop_type(id).unwrap() {
        T::Byte => PV::Byte(1),
        T::U16 => PV::U16(0x0102 + k as u16),
        T::U32 => PV::U32(0x0102_0304 + k as u32),
        T::Vbi => PV::Vbi([5, 300, 20000][k % 3]),
        T::Str => PV::Str(text(id as u64, k % 3)),
        T::Bin => PV::Bin(bin(id as u64, (k + 1) % 3)),
        T::Pair => PV::Pair(text(id as u64, k % 3), text(7, (k + 1) % 2)),
    };
    put_prop(&mut o, id, &v);
    o
}

/// The parts of a frame of this kind around a property section: everything before the property length and
/// everything after the section. For the will section of CONNECT use `Sec::Will`.
pub struct Around {
    pub byte1: u8,
    pub pre: Vec<u8>,
    pub post: Vec<u8>,
}
pub fn around(s: Sec) -> Around {
    let (byte1, pre, post): (u8, Vec<u8>, Vec<u8>) = match s {
        Sec::Connect => (0x10, vec![0, 4, b'M', b'Q', b'T', b'T', 5, 0xC2, 0, 10], vec![0, 2, b'i', b'd', 0, 1, b'u', 0, 1, b'p']),
        Sec::Will => (
            0x10,
            vec![0, 4, b'M', b'Q', b'T', b'T', 5, 0xEE, 0, 10, 0, 0, 1, b'i'],
            vec![0, 1, b't', 0, 2, 1, 2, 0, 1, b'u', 0, 1, b'p'],
        ),
        Sec::ConnAck => (0x20, vec![1, 0], vec![]),
        Sec::Publish => (0x33, vec![0, 1, b't', 0, 9], vec![b'p', b'a', 0x26, 0]),
        Sec::PubAck => (0x40, vec![0, 9, 0x10], vec![]),
        Sec::PubRec => (0x50, vec![0, 9, 0x10], vec![]),
        Sec::PubRel => (0x62, vec![0, 9, 0x92], vec![]),
        Sec::PubComp => (0x70, vec![0, 9, 0x92], vec![]),
        Sec::Subscribe => (0x82, vec![0, 9], vec![0, 1, b'f', 0x1e, 0, 1, b'g', 1]),
        Sec::SubAck => (0x90, vec![0, 9], vec![1, 0x80, 2]),
        Sec::Unsubscribe => (0xA2, vec![0, 9], vec![0, 1, b'f', 0, 2, b'g', b'h']),
        Sec::UnsubAck => (0xB0, vec![0, 9], vec![0x11, 0, 0x87]),
        Sec::Disconnect => (0xE0, vec![0x8b], vec![]),
    };
    Around { byte1, pre, post }
}
pub const SECS: [Sec; 13] = [
    Sec::Disconnect,
    Sec::PubAck,
    Sec::PubRec,
    Sec::PubRel,
    Sec::PubComp,
    Sec::SubAck,
    Sec::UnsubAck,
    Sec::Unsubscribe,
    Sec::Subscribe,
    Sec::Publish,
    Sec::Will,
    Sec::Connect,
    Sec::ConnAck,
];
pub const ALL_IDS: [u8; 27] = [
    0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x11, 0x12, 0x13, 0x15, 0x16, 0x17, 0x18, 0x19, 0x1A, 0x1C, 0x1F, 0x21, 0x22,
    0x23, 0x24, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2A,
];

pub fn assemble(a: &Around, declared: &[u8], section: &[u8]) -> Vec<u8> {
    let mut b = Vec::with_capacity(64);
    b.extend_from_slice(&a.pre);
    b.extend_from_slice(declared);
    b.extend_from_slice(section);
    b.extend_from_slice(&a.post);
    finish(a.byte1, &b)
}

/// All ordered sequences of up to `depth` properties allowed in the section (repetition included), correct length.
pub fn orders(s: Sec, depth: usize, part: (usize, usize), f: FSink) {
    let ids = allowed(s);
    let ar = around(s);
    let mut n = 0usize;
    fn go(ids: &[u8], sec: &mut Vec<u8>, left: usize, k: usize, out: &mut dyn FnMut(&[u8])) {
        out(sec);
        if left == 0 {
            return;
        }
        for id in ids {
            let l = sec.len();
            sec.extend(mini(*id, k));
            go(ids, sec, left - 1, k + 1, out);
            sec.truncate(l);
        }
    }
    go(ids, &mut vec![], depth, 0, &mut |sec| {
        n += 1;
        if n % part.1 == part.0 {
            let mut d = vec![];
            put_vbi(&mut d, sec.len() as u64);
            f(&assemble(&ar, &d, sec));
        }
    });
}

/// All permutations of the full property set if it has at most `n` members, else all permutations of each
/// window of `n` consecutive members placed first, and all rotations and reversals of the full set.
pub fn permutations(s: Sec, n: usize, f: FSink) {
    let ids = allowed(s);
    let ar = around(s);
    let mut emit = |seq: &[u8]| {
        let mut sec = vec![];
        for (i, id) in seq.iter().enumerate() {
            sec.extend(mini(*id, i));
        }
        let mut d = vec![];
        put_vbi(&mut d, sec.len() as u64);
        f(&assemble(&ar, &d, &sec));
    };
    fn heap(v: &mut Vec<u8>, k: usize, rest: &[u8], emit: &mut dyn FnMut(&[u8])) {
        if k <= 1 {
            let mut s = v.clone();
            s.extend_from_slice(rest);
            emit(&s);
            return;
        }
        for i in 0..k {
            heap(v, k - 1, rest, emit);
            if k % 2 == 0 {
                v.swap(i, k - 1);
            } else {
                v.swap(0, k - 1);
            }
        }
    }
    if ids.len() <= n {
        let mut v = ids.to_vec();
        let k = v.len();
        heap(&mut v, k, &[], &mut emit);
    } else {
        for w in 0..ids.len() {
            let win: Vec<u8> = (0..n.min(6)).map(|i| ids[(w + i) % ids.len()]).collect();
            let rest: Vec<u8> = ids.iter().copied().filter(|x| !win.contains(x)).collect();
            let mut v = win.clone();
            let k = v.len();
            heap(&mut v, k, &rest, &mut emit);
        }
        for r in 0..ids.len() {
            let mut v: Vec<u8> = (0..ids.len()).map(|i| ids[(r + i) % ids.len()]).collect();
            emit(&v);
            v.reverse();
            emit(&v);
        }
    }
}

/// Section contents of up to `depth` items over all known property identifiers plus unknown ones and stray bytes,
/// with every declared length from 0 to the length of the section plus what follows plus 3, in minimal and
/// stretched encoding, and some absurd ones.
pub fn delimit(s: Sec, depth: usize, part: (usize, usize), f: FSink) {
    let ar = around(s);
    let mut items: Vec<Vec<u8>> = allowed(s).iter().map(|i| mini(*i, 1)).collect();
    if depth <= 1 {
        // everything, in particular identifiers that are unknown or belong elsewhere
        for id in 0..=255u8 {
            if !allowed(s).contains(&id) {
                items.push(match prop_type(id) {
                    Some(_) => mini(id, 1),
                    None => vec![id, 0, 0],
                });
            }
        }
        for id in allowed(s) {
            items.push(vec![*id]);
            for k in [0, 2, 3] {
                items.push(mini(*id, k));
            }
        }
    } else {
        let other = ALL_IDS.iter().find(|i| !allowed(s).contains(i)).unwrap();
        items.push(mini(*other, 1));
        items.push(vec![0x00]);
        items.push(vec![0x26, 0, 1]);
    }
    let mut n = 0usize;
    fn go(items: &[Vec<u8>], sec: &mut Vec<u8>, left: usize, out: &mut dyn FnMut(&[u8])) {
        out(sec);
        if left == 0 {
            return;
        }
        for it in items {
            let l = sec.len();
            sec.extend(it);
            go(items, sec, left - 1, out);
            sec.truncate(l);
        }
    }
    go(&items, &mut vec![], depth, &mut |sec| {
        n += 1;
        if n % part.1 != part.0 {
            return;
        }
        let top = sec.len() + ar.post.len() + 3;
        for d in 0..=top {
            let mut b = vec![];
            put_vbi(&mut b, d as u64);
            f(&assemble(&ar, &b, sec));
        }
        for d in [&[0xff, 0x7f][..], &[0xff, 0xff, 0xff, 0x7f], &[0xff, 0xff, 0xff, 0xff], &[0x80, 0x80, 0x80, 0x80, 0], &[0x80]] {
            f(&assemble(&ar, d, sec));
        }
        let d = sec.len();
        f(&assemble(&ar, &[d as u8 | 0x80, 0], sec));
        f(&assemble(&ar, &[d as u8 | 0x80, 0x80, 0], sec));
        f(&assemble(&ar, &[d as u8 | 0x80, 0x80, 0x80, 0], sec));
    });
}

/// Frames in all written forms of the given value.
pub fn forms(a: &Abs) -> Vec<Vec<u8>> {
    let mut v = vec![encode(a, Form::Shortest)];
    for fo in [Form::Reason, Form::Full] {
        let e = encode(a, fo);
        if !v.contains(&e) {
            v.push(e);
        }
    }
    v
}

/// Small representative well-formed frames of a kind, from which malformed ones are made.
pub fn seeds(k: u8) -> Vec<Vec<u8>> {
    let mut vals: Vec<Abs> = bases(k);
    tuples(k, 1, (0, 1), &mut |a| vals.push(a.clone()));
    if let Some(s) = sec_of(k) {
        // each property alone
        for id in allowed(s) {
            let mut a = min(k);
            *props_mut(&mut a).unwrap() = Some(vec![(*id, default_pv(*id, 0))]);
            vals.push(a);
        }
        for id in allowed(Sec::Will) {
            if let mut a @ Abs::Connect { .. } = min(k) {
                set(&mut a, Slot::Will, &Val::Bool(true));
                if let Abs::Connect { will: Some(w), .. } = &mut a {
                    w.props = Some(vec![(*id, default_pv(*id, 0))]);
                }
                vals.push(a);
            }
        }
    }
    let mut seen = HashSet::new();
    let mut out = vec![];
    for a in vals {
        if unrepresentable(&a).is_some() {
            continue;
        }
        for f in forms(&a) {
            if f.len() <= 140 && seen.insert(f.clone()) {
                out.push(f);
            }
        }
    }
    out.sort_by_key(|f| f.len());
    out
}

/// Replaces the remaining length by the true one.
pub fn fix_len(frame: &[u8], hl: usize) -> Vec<u8> {
    finish(frame[0], &frame[hl..])
}

/// All frames at one edit from `seed` (header of `hl` bytes): every substitution, insertion and deletion of a body
/// byte, every truncation, every first byte; remaining length adjusted; and the same frame with the announced length
/// off by up to 3 while the bytes stay (cut to a frame).
pub fn edits1(seed: &[u8], f: FSink) {
    let Hdr::Frame { hl, rl } = header(seed, None) else { unreachable!("harness: seed") };
    let body = &seed[hl..];
    let mut b = body.to_vec();
    for i in 0..rl {
        let o = b[i];
        for x in 0..=255u8 {
            if x != o {
                b[i] = x;
                f(&finish(seed[0], &b));
            }
        }
        b[i] = o;
    }
    for x in 0..=255u8 {
        f(&finish(x, body));
    }
    for i in 0..=rl {
        let mut b = body.to_vec();
        b.insert(i, 0);
        for x in 0..=255u8 {
            b[i] = x;
            f(&finish(seed[0], &b));
        }
    }
    for i in 0..rl {
        let mut b = body.to_vec();
        b.remove(i);
        f(&finish(seed[0], &b));
    }
    for n in 0..rl {
        f(&finish(seed[0], &body[..n]));
        f(&finish(seed[0], &body[n..]));
    }
}

/// Interesting replacement bytes for a body byte.
fn alphabet(o: u8) -> Vec<u8> {
    let mut v = vec![0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, o.wrapping_add(1), o.wrapping_sub(1), o ^ 0x80, 0x26, 0x1f, 0x0b];
    v.retain(|x| *x != o);
    v.sort_unstable();
    v.dedup();
    v
}

/// All frames at two edits from `seed`, substitutions over a reduced alphabet, deletions and duplications.
pub fn edits2(seed: &[u8], part: (usize, usize), f: FSink) {
    let Hdr::Frame { hl, rl } = header(seed, None) else { unreachable!("harness: seed") };
    let body = seed[hl..].to_vec();
    // an edit: (position, what); what < 256 substitute, 256 delete, 257 duplicate, 258 insert 0
    let eds = |b: &[u8], i: usize| -> Vec<usize> {
        let mut v: Vec<usize> = alphabet(b[i]).into_iter().map(|x| x as usize).collect();
        v.extend([256, 257, 258]);
        v
    };
    let apply = |b: &[u8], i: usize, e: usize| -> Vec<u8> {
        let mut c = b.to_vec();
        match e {
            256 => {
                c.remove(i);
            }
            257 => c.insert(i, b[i]),
            258 => c.insert(i, 0),
            x => c[i] = x as u8,
        }
        c
    };
    let mut n = 0;
    for i in 0..rl {
        for e in eds(&body, i) {
            n += 1;
            if n % part.1 != part.0 {
                continue;
            }
            let b = apply(&body, i, e);
            for j in i..b.len() {
                for e2 in eds(&b, j) {
                    f(&finish(seed[0], &apply(&b, j, e2)));
                }
            }
            for x in [0x00, 0x10, 0x30, 0x32, 0x34, 0x36, 0x3f, 0x82, 0xe0] {
                f(&finish(x, &b));
            }
        }
    }
}

/// Every body of exactly `n` bytes behind this first byte.
pub fn raw(byte1: u8, n: usize, f: FSink) {
    let mut b = vec![0u8; n];
    let total = 256u64.pow(n as u32);
    for x in 0..total {
        for (k, s) in b.iter_mut().enumerate() {
            *s = (x >> (8 * (n - 1 - k))) as u8;
        }
        f(&finish(byte1, &b));
    }
}

/// Every body of `n` bytes over a structural alphabet behind this first byte.
pub fn raw_alpha(byte1: u8, alpha: &[u8], n: usize, f: FSink) {
    let mut b = vec![alpha[0]; n];
    let mut idx = vec![0usize; n];
    loop {
        f(&finish(byte1, &b));
        let mut k = 0;
        loop {
            if k == n {
                return;
            }
            idx[k] += 1;
            if idx[k] == alpha.len() {
                idx[k] = 0;
                b[k] = alpha[0];
                k += 1;
            } else {
                b[k] = alpha[idx[k]];
                break;
            }
        }
    }
}

/// Byte sequences of every UTF-8 decoder path: all of length up to 2, and of length 3 and 4 over boundary bytes,
/// plus the same surrounded by ASCII at both ends.
pub fn utf8_probe(tier_full: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    for a in 0..=255u8 {
        v.push(vec![a]);
    }
    for a in 0..=255u8 {
        for b in 0..=255u8 {
            v.push(vec![a, b]);
        }
    }
    let lead3: Vec<u8> = (0xdf..=0xf0).chain([0x41, 0xc2, 0xf4, 0xf5]).collect();
    let cont = [0x00u8, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff];
    for a in &lead3 {
        for b in cont {
            for c in cont {
                v.push(vec![*a, b, c]);
                if tier_full || *a >= 0xef {
                    for d in cont {
                        v.push(vec![*a, b, c, d]);
                    }
                }
            }
        }
    }
    for a in 0xf0..=0xf8u8 {
        for b in cont {
            for c in cont {
                for d in cont {
                    v.push(vec![a, b, c, d]);
                }
            }
        }
    }
    let short: Vec<Vec<u8>> = v.iter().filter(|x| x.len() >= 2 && x.len() <= 4).step_by(if tier_full { 1 } else { 37 }).cloned().collect();
    for s in short {
        let mut a = b"x".to_vec();
        a.extend(&s);
        v.push(a.clone());
        a.extend(b"y");
        v.push(a);
        let mut a = s.clone();
        a.push(b'z');
        v.push(a);
    }
    v
}

/// A text or binary place of the wire format with the frame around it.
pub struct Field {
    pub name: String,
    pub text: bool,
    /// the password: text in this library, binary in the standard
    pub pass: bool,
    pub make: Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>,
}
fn lp(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u16).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
pub fn fields() -> Vec<Field> {
    let mut v: Vec<Field> = vec![];
    for s in SECS {
        for id in allowed(s) {
            let ty = prop_type(*id).unwrap();
            let id = *id;
            let mk = move |body: Vec<u8>| {
                let mut sec = vec![id];
                sec.extend(body);
                let mut d = vec![];
                put_vbi(&mut d, sec.len() as u64);
                assemble(&around(s), &d, &sec)
            };
            match ty {
                T::Str | T::Bin => v.push(Field {
                    name: format!("{s:?} property {id:#04x}"),
                    text: ty == T::Str,
                    pass: false,
                    make: Box::new(move |b| mk(lp(b))),
                }),
                T::Pair => {
                    v.push(Field {
                        name: format!("{s:?} user property key"),
                        text: true,
                        pass: false,
                        make: Box::new(move |b| mk([lp(b), lp(b"v")].concat())),
                    });
                    v.push(Field {
                        name: format!("{s:?} user property value"),
                        text: true,
                        pass: false,
                        make: Box::new(move |b| mk([lp(b"k"), lp(b)].concat())),
                    });
                }
                _ => {}
            }
        }
    }
    let con = |fl: u8, f: fn(&[u8]) -> Vec<u8>| {
        move |b: &[u8]| {
            let mut o = vec![0, 4, b'M', b'Q', b'T', b'T', 5, fl, 0, 10, 0];
            o.extend(f(b));
            finish(0x10, &o)
        }
    };
    let mut add = |name: &str, text: bool, pass: bool, make: Box<dyn Fn(&[u8]) -> Vec<u8> + Send + Sync>| {
        v.push(Field { name: name.into(), text, pass, make })
    };
    add("CONNECT client id", true, false, Box::new(con(0, lp)));
    add("CONNECT user name", true, false, Box::new(con(0x80, |b| [lp(b"i"), lp(b)].concat())));
    add("CONNECT password", true, true, Box::new(con(0xC0, |b| [lp(b"i"), lp(b"u"), lp(b)].concat())));
    add("CONNECT will topic", false, false, Box::new(con(4, |b| [lp(b"i"), vec![0], lp(b), lp(b"m")].concat())));
    add("CONNECT will message", false, false, Box::new(con(4, |b| [lp(b"i"), vec![0], lp(b"t"), lp(b)].concat())));
    add("PUBLISH topic", true, false, Box::new(|b| finish(0x32, &[lp(b), vec![0, 1, 0, b'p']].concat())));
    add("PUBLISH payload", false, false, Box::new(|b| finish(0x30, &[lp(b"t"), vec![0], b.to_vec()].concat())));
    add("SUBSCRIBE filter", true, false, Box::new(|b| finish(0x82, &[vec![0, 1, 0], lp(b), vec![1]].concat())));
    add(
        "SUBSCRIBE second filter",
        true,
        false,
        Box::new(|b| finish(0x82, &[vec![0, 1, 0], lp(b"a"), vec![1], lp(b), vec![2]].concat())),
    );
    // whatever a format indicator says, and with everything else present
    for pfi in [0u8, 1] {
        for more in [false, true] {
            let rest: Vec<u8> = if more { [&[0x03][..], &lp(b"text/plain"), &[0x02, 0, 0, 0, 9]].concat() } else { vec![] };
            let sec: Vec<u8> = [&[0x01, pfi][..], &rest].concat();
            let s2 = sec.clone();
            add(
                &format!("PUBLISH payload, format indicator {pfi}{}", if more { " and type" } else { "" }),
                false,
                false,
                Box::new(move |b| finish(0x30, &[lp(b"t"), vec![sec.len() as u8], sec.clone(), b.to_vec()].concat())),
            );
            add(
                &format!("CONNECT will message, format indicator {pfi}{}", if more { " and type" } else { "" }),
                false,
                false,
                Box::new(move |b| {
                    let mut o = vec![0, 4, b'M', b'Q', b'T', b'T', 5, 4, 0, 10, 0];
                    o.extend([lp(b"i"), vec![s2.len() as u8], s2.clone(), lp(b"t"), lp(b)].concat());
                    finish(0x10, &o)
                }),
            );
        }
    }
    add("UNSUBSCRIBE filter", true, false, Box::new(|b| finish(0xA2, &[vec![0, 1, 0], lp(b)].concat())));
    add(
        "UNSUBSCRIBE second filter",
        true,
        false,
        Box::new(|b| finish(0xA2, &[vec![0, 1, 0], lp(b"a"), lp(b)].concat())),
    );
    v
}
