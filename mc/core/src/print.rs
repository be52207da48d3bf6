//! What packets and errors look like when they are printed.
use crate::abs::*;
use crate::engine::{fold, Ctx};
use crate::gen_val::kind_name;
use crate::model::unrepresentable;
use crate::store::{stored, way_name};
use crate::sut::*;
use bytes::BytesMut;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Write;

/// Length and hash of what is written.
struct Seen {
    a: u64,
    b: u64,
    n: u64,
}
impl Seen {
    fn new() -> Seen {
        Seen { a: 0xcbf2_9ce4_8422_2325, b: 0x9E37_79B9_7F4A_7C15, n: 0 }
    }
    #[inline]
    fn byte(&mut self, x: u8) {
        self.a = (self.a ^ x as u64).wrapping_mul(0x100_0000_01b3);
        self.b = (self.b.rotate_left(5) ^ x as u64).wrapping_add(self.b << 8);
    }
}
impl Write for Seen {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.n += s.len() as u64;
        for x in s.bytes() {
            self.byte(x);
        }
        Ok(())
    }
}
/// Identity of a text: both ways of printing a packet.
type Text = [(u64, u64, u64); 2];

fn text(p: &dyn Pkt) -> Text {
    let mut long = false;
    [false, true].map(|pretty| {
        let mut w = Seen::new();
        if long {
            return (0, 0, 0);
        }
        let ok = p.print(&mut w, pretty);
        // what is printed at length is not printed in both ways
        long = w.n > 6000;
        (w.a ^ ok as u64, w.b, w.n)
    })
}
fn plain_text(p: &dyn Pkt) -> (u64, u64, u64) {
    let mut w = Seen::new();
    let ok = p.print(&mut w, false);
    (w.a ^ ok as u64, w.b, w.n)
}
fn text_string(p: &dyn Pkt) -> String {
    let mut s = String::new();
    let _ = p.print(&mut s, false);
    s.chars().take(700).collect()
}

/// C33: every value of the group by itself, and against all the others
pub fn printed(c: &mut Ctx, vals: Vec<Abs>) {
    let sut = c.sut;
    let mut first: [HashMap<(u64, u64, u64), usize>; 2] = Default::default();
    // what each value has to be compared with: the first one that looks the same
    let mut seen: Vec<(Option<Text>, [usize; 2])> = vec![];
    let mut same: HashMap<Abs, usize> = HashMap::new();
    let mut as_built: Vec<Option<Abs>> = vec![];
    for (i, a) in vals.iter().enumerate() {
        let r = crate::engine::guarded(|| {
            let p = sut.build(a);
            (p.abs(), text(&*p))
        });
        let Ok((b, t)) = r else {
            seen.push((None, [i, i]));
            as_built.push(None);
            continue;
        };
        let m = [0, 1].map(|w| if t[w].2 == 0 { i } else { *first[w].entry(t[w]).or_insert(i) });
        same.entry(b.clone()).or_insert(i);
        seen.push((Some(t), m));
        as_built.push(Some(b));
    }
    for (i, a) in vals.iter().enumerate() {
        c.case(
            || a.show(),
            |c| {
                let kind = kind_name(a.typ());
                c.fresh();
                c.state(fold(a.class(), 33));
                let Some(t) = c.ok("print", || text(&*sut.build(a))) else { return };
                let (Some(before), m) = &seen[i] else { return };
                let Some(b) = &as_built[i] else { return };
                if t != *before {
                    c.fail(&format!("printed-again/{kind}"), "printing the same value again gives another text".into());
                    return;
                }
                for (w, m) in m.iter().enumerate() {
                    let Some(o) = &as_built[*m] else { return };
                    if o != b && o.norm() != b.norm() {
                        c.fail(
                            &format!("printed-alike/{kind}"),
                            format!(
                                "printed exactly like ({}) {}: {}",
                                ["{:?}", "{:#?}"][w],
                                o.show(),
                                text_string(&*sut.build(a))
                            ),
                        );
                        return;
                    }
                }
                let o = same[b];
                if let (Some(ot), Some(ob)) = (&seen[o].0, &as_built[o]) {
                    if ob == b && *ot != t {
                        c.fail(&format!("printed-differently/{kind}"), "two equal values are printed differently".into());
                        return;
                    }
                }
                one(c, a, b, &t);
                c.saw("printed");
            },
        );
    }
}
/// One value: in other memory, as a copy, decoded.
fn one(c: &mut Ctx, a: &Abs, b: &Abs, t: &Text) {
    let sut = c.sut;
    let kind = kind_name(a.typ());
    if t[1].2 == 0 {
        return;
    }
    for w in 1..5 {
        let Some(o) = c.ok("print", || stored(w, || plain_text(&*sut.build(a)))) else { return };
        if o != t[0] {
            c.fail(&format!("printed-stored/{kind}"), format!("stored {} it is printed differently", way_name(w)));
            return;
        }
    }
    let p = sut.build(a);
    let Some(d) = c.ok("clone", || p.dup()) else { return };
    let Some(o) = c.ok("print", || plain_text(&*d)) else { return };
    if o != t[0] {
        c.fail(&format!("printed-copy/{kind}"), "a copy is printed differently".into());
        return;
    }
    if unrepresentable(a).is_some() {
        return;
    }
    let mut buf = BytesMut::new();
    let Some(Ok(_)) = c.ok("encode", || p.write(&mut buf)) else { return };
    let Some(ROut::Pkt(q)) = c.ok("decode", || sut.read(&mut buf, None)) else { return };
    if q.abs() != *b {
        return;
    }
    let Some(o) = c.ok("print", || plain_text(&*q)) else { return };
    if o != t[0] {
        c.fail(&format!("printed-decoded/{kind}"), format!("decoded it is printed differently: {}", text_string(&*q)));
    }
}
fn numbers_in(s: &str) -> Vec<u64> {
    s.split(|x: char| !x.is_ascii_digit()).filter_map(|d| d.parse().ok()).collect()
}
/// C33: the errors that reading these bytes gives, with and without limits
pub fn f_errors(c: &mut Ctx, f: &[u8]) {
    let sut = c.sut;
    c.fresh();
    for lim in [None, Some(f.len().saturating_sub(1))] {
        let Some(e) = c.ok("print", || sut.error_text(f, lim)) else { return };
        let Some(again) = c.ok("print", || sut.error_text(f, lim)) else { return };
        if !error_ok(c, &format!("limit {lim:?}"), e, again) {
            return;
        }
    }
}
/// C33: the errors that these bytes give with many limits
pub fn f_limit_errors(c: &mut Ctx, f: &[u8]) {
    let sut = c.sut;
    c.fresh();
    for lim in [0, 1, 2, 3, f.len() / 2, f.len(), 127, 128, 255, 256, 65535, 65536, 268_435_455, usize::MAX] {
        let Some(e) = c.ok("print", || sut.error_text(f, Some(lim))) else { return };
        if !error_ok(c, &format!("limit {lim}"), e.clone(), e) {
            return;
        }
    }
}
/// C33: the error that writing a packet gives
pub fn v_errors(c: &mut Ctx, a: &Abs) {
    let sut = c.sut;
    c.fresh();
    let p = sut.build(a);
    let Some(e) = c.ok("print", || sut.write_error_text(&*p)) else { return };
    let Some(again) = c.ok("print", || sut.write_error_text(&*p)) else { return };
    error_ok(c, "encode", e, again);
}
fn error_ok(c: &mut Ctx, what: &str, e: Option<ErrText>, again: Option<ErrText>) -> bool {
        let Some(e) = e else {
            c.saw("no error");
            return true;
        };
        if again != Some(e.clone()) {
            c.fail("error-again", format!("{what}: the error is printed differently the second time: {e:?}"));
            return false;
        }
        c.state(fold(e.debug.split(['(', ' ']).next().unwrap_or("").bytes().fold(7, |h, b| fold(h, b as u64)), what.len() as u64));
        if e.debug.is_empty() || e.message.trim().is_empty() {
            c.fail("error-empty", format!("{what}: the error is printed as nothing: {e:?}"));
            return false;
        }
        let (m, d) = (numbers_in(&e.message), numbers_in(&e.debug));
        for n in &e.numbers {
            if !m.contains(n) || !d.contains(n) {
                c.fail(
                    &format!("error-number/{}", e.debug.split(['(', ' ']).next().unwrap_or("")),
                    format!("{what}: the error carries {n}, but it is printed as {:?} and {:?}", e.message, e.debug),
                );
                return false;
            }
        }
        c.saw("error printed");
        true
}
/// C33: levels of service compare like their numbers
pub fn qos_order(c: &mut Ctx) {
    let sut = c.sut;
    for a in 0..3u8 {
        for b in 0..3u8 {
            c.case(
                || format!("QoS {a} compared with {b}"),
                |c| {
                    c.fresh();
                    c.state(fold(a as u64, b as u64));
                    let Some(o) = c.ok("compare", || sut.qos_order(a, b)) else { return };
                    let want: Option<Ordering> = Some(a.cmp(&b));
                    if o != want {
                        c.fail("qos-order", format!("the order is {o:?} instead of {want:?}"));
                    }
                    c.saw("compared");
                },
            );
        }
    }
}
