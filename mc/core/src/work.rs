//! How much work a call takes, in machine instructions (the processor's single-step trap, see sched), over families of
//! inputs that grow in one place.
use crate::abs::*;
use crate::engine::*;
use crate::gen_frame::*;
use crate::gen_val::*;
use crate::model::*;
use crate::sched::count;
use bytes::BytesMut;

/// Instructions of `f`, after one run of it that is not counted (lazily made things). None: it panics (C04's
/// business), or stepping does not work here.
fn work<'x, R>(c: &mut Ctx, mut f: impl FnMut() -> Box<dyn FnOnce() -> R + 'x>) -> Option<u64> {
    let g = f();
    c.call(g).ok()?;
    let g = f();
    c.calls += 1;
    match count(c.tier.pick(5_000_000, 100_000_000), g) {
        (Ok(_), n) if n > 0 => Some(n),
        (Ok(_), _) => {
            c.saw("stepping does not work here");
            None
        }
        _ => None,
    }
}

/// What grows.
#[derive(Clone)]
pub struct Family {
    pub name: String,
    pub sizes: Vec<usize>,
    /// explored in every configuration in the quick tier too
    pub core: bool,
    make: std::sync::Arc<dyn Fn(usize) -> Abs + Send + Sync>,
}

/// Every list and every text and binary field of the kind, growing, from both ends of the bases.
pub fn families(k: u8, lists: &[usize], long: &[usize], codes_n: &[usize], fields: &[usize]) -> Vec<Family> {
    let mut v = vec![];
    for (bi, base) in [min(k), full(k)].into_iter().enumerate() {
        for s in slots(k) {
            let mut add = |what: &str, sizes: &[usize], g: fn(u8, usize) -> Val| {
                let b = base.clone();
                v.push(Family {
                    name: format!("{} {s:?} {what}, base {bi}", kind_name(k)),
                    sizes: if bi == 0 && what == "different elements" { long.to_vec() } else { sizes.to_vec() },
                    core: bi == 0 && matches!(what, "equal elements" | "all values" | "text" | "bytes"),
                    make: std::sync::Arc::new(move |n| {
                        let mut a = b.clone();
                        set(&mut a, s, &g(k, n));
                        a
                    }),
                });
            };
            fn uniq(i: usize) -> B {
                format!("{i:04x}").into_bytes().into()
            }
            match s {
                Slot::Users | Slot::WillUsers => {
                    add("different elements", lists, |_, n| Val::Pairs((0..n).map(|i| (uniq(i), uniq(i / 2))).collect()));
                    add("equal elements", lists, |_, n| Val::Pairs(vec![(text(1, 3), text(2, 2)); n]));
                    add("equal keys", lists, |_, n| Val::Pairs((0..n).map(|i| (text(1, 2), uniq(i))).collect()));
                    add("empty elements", lists, |_, n| Val::Pairs(vec![(B::new(), B::new()); n]));
                    add("one long key", fields, |_, n| Val::Pairs(vec![(text(1, n), text(2, 2))]));
                    add("one long value", fields, |_, n| Val::Pairs(vec![(text(1, 2), text(2, n))]));
                    add("long wide value", fields, |_, n| Val::Pairs(vec![(text(1, 2), wide(n))]));
                }
                Slot::SubIds => {
                    add("different elements", lists, |_, n| Val::Ns((0..n as u64).map(|i| i * 131 + 1).collect()));
                    add("equal elements", lists, |_, n| Val::Ns(vec![1; n]));
                }
                Slot::Filters if k == 8 => {
                    add("different elements", lists, |_, n| Val::Filts((0..n).map(|i| filt_opt(i as u64, uniq(i))).collect()));
                    add("equal elements", lists, |_, n| Val::Filts(vec![filt_opt(5, text(1, 2)); n]));
                    add("one long", fields, |_, n| Val::Filts(vec![filt_opt(5, text(1, n))]));
                    add("levels", fields, |_, n| Val::Filts(vec![filt_opt(5, "a/".repeat(n / 2).into_bytes().into())]));
                }
                Slot::Filters => {
                    add("different elements", lists, |_, n| Val::Texts((0..n).map(uniq).collect()));
                    add("equal elements", lists, |_, n| Val::Texts(vec![text(1, 2); n]));
                    add("one long", fields, |_, n| Val::Texts(vec![text(1, n)]));
                    add("levels", fields, |_, n| Val::Texts(vec!["a/".repeat(n / 2).into_bytes().into()]));
                }
                Slot::Codes => {
                    add("all values", codes_n, |k, n| Val::Codes((0..n).map(|i| codes(k)[i % codes(k).len()]).collect()));
                    add("equal elements", codes_n, |k, n| Val::Codes(vec![codes(k)[0]; n]));
                }
                Slot::Payload | Slot::WillMsg | Slot::Pass => {
                    add("bytes", fields, |_, n| Val::Bytes(text(3, n)));
                    add("zeros", fields, |_, n| Val::Bytes(vec![0; n].into()));
                }
                Slot::Text | Slot::User | Slot::WillTopic => {
                    add("text", fields, |_, n| Val::Bytes(text(3, n)));
                    add("wide text", fields, |_, n| Val::Bytes(wide(n)));
                    add("levels", fields, |_, n| Val::Bytes("a/".repeat(n / 2).into_bytes().into()));
                }
                Slot::Prop(id) | Slot::WillProp(id) => match prop_type(id) {
                    Some(T::Str) => {
                        add("text", fields, |_, n| Val::Bytes(text(3, n)));
                        add("wide text", fields, |_, n| Val::Bytes(wide(n)));
                    }
                    Some(T::Bin) => add("bytes", fields, |_, n| Val::Bytes(text(3, n))),
                    _ => {}
                },
                _ => {}
            }
        }
    }
    v
}
fn wide(n: usize) -> B {
    "\u{20ac}".repeat(n / 3).into_bytes().into()
}

/// Instructions per byte that are always granted on top.
const GRANT: f64 = 5.0;

/// Work at growing sizes (in bytes): it may not grow faster than in proportion. The growth per byte from one size to
/// the next is compared with that at the small end.
fn judge(c: &mut Ctx, what: &str, pts: &[(usize, u64)]) {
    let slope = |i: usize| (pts[i + 1].1 as f64 - pts[i].1 as f64) / (pts[i + 1].0 - pts[i].0).max(1) as f64;
    if pts.len() < 3 {
        return;
    }
    // what one byte costs at the small end
    let unit = slope(0).max(slope(1).min(2.0 * slope(0))).max(0.0);
    let last = slope(pts.len() - 2);
    for i in 0..pts.len() {
        c.state(key(&[pts[i].0 as u64, pts[i].1]));
    }
    if last > 1.7 * unit + GRANT {
        c.fail(
            &format!("work-{}", what.split(' ').next().unwrap()),
            format!("{what}: instructions at each size in bytes {pts:?}: {unit:.1} per byte at first, {last:.1} at last"),
        );
    }
}

pub fn grow_case(c: &mut Ctx, f: &Family) {
    c.fresh();
    let packets: Vec<Abs> = f.sizes.iter().map(|n| (f.make)(*n)).collect();
    let frames: Vec<Vec<u8>> = packets.iter().map(|a| encode(a, Form::Full)).collect();
    let sut = c.sut;
    // decode: as is, with something wrong at the end, with the last byte missing
    for (what, edit) in [("decode", 0), ("decode (defect at the end)", 1), ("decode (cut at the end)", 2), ("decode (defect in the middle)", 3)] {
        if c.tier == Tier::Quick && edit > 1 {
            continue;
        }
        let mut pts = vec![];
        for f in &frames {
            let Hdr::Frame { hl, .. } = header(f, None) else { continue };
            let x = match edit {
                0 => f.clone(),
                1 => fix_len(&[f, &[0xffu8][..]].concat(), hl),
                2 => fix_len(&f[..f.len() - 1], hl),
                _ => {
                    let mut x = f.clone();
                    let m = x.len() / 2;
                    x[m] ^= 0xff;
                    x
                }
            };
            let n = work(c, || {
                let mut b = BytesMut::from(&x[..]);
                Box::new(move || {
                    let r = sut.read(&mut b, None);
                    (r, b)
                })
            });
            if let Some(n) = n {
                pts.push((x.len(), n));
            }
        }
        // the place of a defect in the middle moves; only a bound in proportion to the whole
        if edit != 3 {
            judge(c, what, &pts);
        } else if let (Some(a), Some(z)) = (pts.first(), pts.last()) {
            c.state(key(&[a.1, z.1]));
        }
    }
    let mut pts: [Vec<(usize, u64)>; 4] = Default::default();
    for (a, f) in packets.iter().zip(&frames) {
        let n = f.len();
        for op in 0..4usize {
            let w = work(c, || {
                let p = sut.build(a);
                let mut b = BytesMut::with_capacity(n + 64);
                let q = (op == 3).then(|| p.dup());
                Box::new(move || {
                    let mut d = None;
                    match op {
                        0 => drop(p.write(&mut b)),
                        1 => drop(p.size()),
                        2 => d = Some(p.dup()),
                        _ => drop(p.same(&**q.as_ref().unwrap())),
                    }
                    (p, b, q, d)
                })
            });
            if let Some(w) = w {
                pts[op].push((n, w));
            }
        }
    }
    for (op, what) in ["encode", "size", "copy", "compare"].iter().enumerate() {
        judge(c, what, &pts[op]);
    }
    c.saw("family");
}

/// Frames filled with a repeated pattern: mostly malformed.
pub fn filled(c: &mut Ctx, first: u8, pat: &[u8], sec: Option<Sec>, sizes: &[usize]) {
    c.fresh();
    let sut = c.sut;
    let mut pts = vec![];
    for n in sizes {
        let b: Vec<u8> = pat.iter().copied().cycle().take(n / pat.len() * pat.len()).collect();
        let x = match sec {
            None => finish(first, &b),
            Some(s) => {
                let mut l = vec![];
                put_vbi(&mut l, b.len() as u64);
                assemble(&around(s), &l, &b)
            }
        };
        let n = work(c, || {
            let mut b = BytesMut::from(&x[..]);
            Box::new(move || {
                let r = sut.read(&mut b, None);
                (r, b)
            })
        });
        if let Some(n) = n {
            pts.push((x.len(), n));
        }
    }
    judge(c, "decode", &pts);
    c.saw("pattern");
}

/// Differences of work that are of no interest.
const SLACK: u64 = 1500;

fn read_work(c: &mut Ctx, s: &[u8], max: Option<usize>) -> Option<u64> {
    let sut = c.sut;
    work(c, || {
        let mut b = BytesMut::from(s);
        Box::new(move || {
            let r = sut.read(&mut b, max);
            (r, b)
        })
    })
}
fn check_work(c: &mut Ctx, s: &[u8], max: Option<usize>) -> Option<u64> {
    let sut = c.sut;
    work(c, || Box::new(move || sut.check(s, max)))
}

/// What follows a frame in the buffer does not matter.
pub fn followed(c: &mut Ctx, f: &[u8], after: &[&[u8]]) {
    c.fresh();
    for max in [None, Some(f.len() - 1)] {
        let (Some(a), Some(k)) = (read_work(c, f, max), check_work(c, f, max)) else { return };
        for x in after {
            let s = [f, *x].concat();
            let (Some(b), Some(l)) = (read_work(c, &s, max), check_work(c, &s, max)) else { return };
            c.state(key(&[a, b, k, l]));
            for (what, a, b) in [("decode", a, b), ("check", k, l)] {
                if b > a + a / 4 + SLACK {
                    c.fail(
                        &format!("work-following-{what}"),
                        format!("{what} (limit {max:?}) takes {a} instructions on the frame alone, {b} with {} bytes behind it", x.len()),
                    );
                }
            }
        }
    }
    c.saw("followed");
}

/// An incomplete or too long frame costs a constant, whatever is announced and however much of it is there.
pub fn waiting(c: &mut Ctx, head: &[u8], fill: u8, present: usize, max: Option<usize>) {
    c.fresh();
    let mut s = head.to_vec();
    s.resize(head.len() + present, fill);
    let (Some(a), Some(b)) = (read_work(c, head, max), read_work(c, &s, max)) else { return };
    c.state(key(&[a, b]));
    if b > a + SLACK {
        c.fail("work-waiting", format!("decode takes {a} instructions with only the header there, {b} with {present} bytes more"));
    }
    let (Some(a), Some(b)) = (check_work(c, head, max), check_work(c, &s, max)) else { return };
    if b > a + SLACK {
        c.fail("work-waiting-check", format!("check takes {a} instructions with only the header there, {b} with {present} bytes more"));
    }
    c.saw("waiting");
}

/// What is in the buffer already does not matter to an encode (given room).
pub fn appended(c: &mut Ctx, a: &Abs, before: usize) {
    c.fresh();
    let sut = c.sut;
    let room = encode(a, Form::Full).len() + 64;
    let mut w = [0u64; 2];
    for (i, n) in [0, before].into_iter().enumerate() {
        let x = work(c, || {
            let p = sut.build(a);
            let mut b = BytesMut::with_capacity(n + room);
            b.resize(n, 0x55);
            Box::new(move || {
                let r = p.write(&mut b);
                (r, p, b)
            })
        });
        let Some(x) = x else { return };
        w[i] = x;
    }
    c.state(key(&w));
    if w[1] > w[0] + w[0] / 4 + SLACK {
        c.fail("work-appending", format!("encode takes {} instructions into an empty buffer, {} with {before} bytes in it", w[0], w[1]));
    }
    c.saw("appended");
}
