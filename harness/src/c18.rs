//! C18: every helper of the helper module, with random parameters, decoded on random inputs and compared with a
//! hand-written reading of its documentation. The oracles below work on the input bytes alone; they share nothing
//! with the engine or with the reference interpreter. Non-fatal conditions are observed through the log.
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, hash_of, par};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::bounds::Bounds;
use doodle::byte_set::ByteSet;
use doodle::helper::*;
use doodle::{BaseKind, BaseType, Endian, Expr, Format, FormatModule, Pattern, ValueType};
use num_bigint::BigInt;
use serde_json::json;
use std::cell::Cell;

thread_local! { static WARNED: Cell<usize> = const { Cell::new(0) }; }
struct Log;
impl log::Log for Log {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        if r.level() <= log::Level::Warn && r.args().to_string().contains("non-fatal") {
            WARNED.with(|w| w.set(w.get() + 1))
        }
    }
    fn flush(&self) {}
}
static LOG: Log = Log;

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    warn: bool,
}
impl Cur<'_> {
    fn u8(&mut self) -> Option<u8> {
        let r = *self.b.get(self.p)?;
        self.p += 1;
        Some(r)
    }
    fn n(&mut self, k: usize) -> Option<Vec<u8>> {
        (0..k).map(|_| self.u8()).collect()
    }
    fn be(&mut self, k: usize) -> Option<u64> {
        Some(self.n(k)?.iter().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn le(&mut self, k: usize) -> Option<u64> {
        Some(self.n(k)?.iter().rev().fold(0, |a, b| a << 8 | *b as u64))
    }
    fn align(&mut self, k: usize) -> Option<()> {
        while self.p % k != 0 {
            self.u8()?;
        }
        Some(())
    }
    fn rest(&mut self) -> Vec<u8> {
        let r = self.b[self.p..].to_vec();
        self.p = self.b.len();
        r
    }
    fn peek(&self) -> Option<u8> {
        self.b.get(self.p).copied()
    }
}
type Oracle = Box<dyn Fn(&mut Cur) -> Option<Rv>>;
struct Case {
    name: &'static str,
    f: Format,
    o: Oracle,
    /// bytes the inputs favour
    fav: Vec<u8>,
}
struct Cases(Vec<Case>);
impl Cases {
    fn add(&mut self, name: &'static str, f: Format, fav: &[u8], o: impl Fn(&mut Cur) -> Option<Rv> + 'static) {
        self.0.push(Case { name, f, o: Box::new(o), fav: fav.to_vec() })
    }
}
fn b(v: u8) -> Rv {
    Rv::U8(v)
}
fn bs(v: &[u8]) -> Rv {
    Rv::seq(v.iter().map(|x| Rv::U8(*x)).collect())
}
fn tup(v: Vec<Rv>) -> Rv {
    Rv::tuple(v)
}
fn rec(v: Vec<(&str, Rv)>) -> Rv {
    Rv::Rec(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Vec<_>>().into())
}
/// a record without fields is the empty tuple
fn recs(v: Vec<(String, Rv)>) -> Rv {
    if v.is_empty() { Rv::unit() } else { Rv::Rec(v.into()) }
}
fn vr(n: &str, v: Rv) -> Rv {
    Rv::Var(n.into(), v.into())
}
fn some(v: Rv) -> Rv {
    Rv::Opt(Some(v.into()))
}
const NONE: Rv = Rv::Opt(None);
const NAMES: [&str; 16] =
    ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "fa", "fb", "fc", "fd", "fe", "ff"];

fn parts(r: &mut Rng, total: u8) -> Vec<BitFieldKind> {
    let mut left = total;
    let mut v = vec![];
    while left > 0 && v.len() < 8 {
        let w = if v.len() == 7 { left } else if r.chance(1, 12) { left } else { 1 + r.below(left.min(6) as usize) as u8 };
        let nm = NAMES[v.len()];
        v.push(match r.below(4) {
            0 if w == 1 => BitFieldKind::FlagBit(nm),
            0 | 1 => BitFieldKind::BitsField { field_name: nm, bit_width: w },
            2 => BitFieldKind::Reserved { bit_width: w, check_zero: r.chance(1, 2) },
            _ => {
                if w == 1 {
                    BitFieldKind::FlagBit(nm)
                } else {
                    BitFieldKind::BitsField { field_name: nm, bit_width: w }
                }
            }
        });
        left -= w;
    }
    v
}
macro_rules! by_len {
    ($v:expr, $f:ident, $($n:literal)*) => {
        match $v.len() { $($n => $f(<[BitFieldKind; $n]>::try_from($v).ok().unwrap()),)* _ => unreachable!() }
    };
}
fn clone_parts(v: &[BitFieldKind]) -> Vec<BitFieldKind> {
    v.iter()
        .map(|k| match k {
            BitFieldKind::FlagBit(n) => BitFieldKind::FlagBit(n),
            BitFieldKind::BitsField { field_name, bit_width } => BitFieldKind::BitsField { field_name, bit_width: *bit_width },
            BitFieldKind::Reserved { bit_width, check_zero } => BitFieldKind::Reserved { bit_width: *bit_width, check_zero: *check_zero },
        })
        .collect()
}
/// the fields of a packed value, highest bits first
fn unpack(v: &[BitFieldKind], total: u32, x: u64, wrap: fn(u64) -> Rv) -> (Rv, bool) {
    let bits: Vec<u64> = (0..total).rev().map(|i| x >> i & 1).collect();
    let mut at = 0;
    let mut out = vec![];
    let mut dirty = false;
    for k in v {
        let w = match k {
            BitFieldKind::FlagBit(_) => 1,
            BitFieldKind::BitsField { bit_width, .. } | BitFieldKind::Reserved { bit_width, .. } => *bit_width as usize,
        };
        let val = bits[at..at + w].iter().fold(0, |a, b| a * 2 + b);
        at += w;
        match k {
            BitFieldKind::FlagBit(n) => out.push((n.to_string(), Rv::Bool(val == 1))),
            BitFieldKind::BitsField { field_name, .. } => out.push((field_name.to_string(), wrap(val))),
            BitFieldKind::Reserved { check_zero, .. } => dirty |= *check_zero && val != 0,
        }
    }
    (recs(out), dirty)
}
/// little-endian array reads are announced as not implemented in every engine
fn kind(i: u64) -> (BaseKind<Endian>, usize) {
    match i % 4 {
        0 => (BaseKind::U8, 1),
        1 => (BaseKind::U16BE, 2),
        2 => (BaseKind::U32BE, 4),
        _ => (BaseKind::U64BE, 8),
    }
}
fn int(w: usize, n: u64) -> Rv {
    Rv::mk(w as u32 * 8, n)
}
fn with_s(n: u32, e: Expr) -> Format {
    chain(u8(), "a", chain(u8(), "b", chain(repeat_count(Expr::U32(n), u8()), "s", compute(e))))
}

fn cases(r: &mut Rng) -> Vec<Case> {
    let mut c = Cases(vec![]);
    // --- packed bits
    for _ in 0..3 {
        let v = parts(r, 8);
        let w = clone_parts(&v);
        c.add("bit_fields_u8", by_len!(v, bit_fields_u8, 1 2 3 4 5 6 7 8), &[0, 255, 0x80, 1], move |c| {
            let (v, d) = unpack(&w, 8, c.u8()? as u64, |x| Rv::U8(x as u8));
            c.warn |= d;
            Some(v)
        });
        let v = parts(r, 16);
        let w = clone_parts(&v);
        c.add("bit_fields_u16", by_len!(v, bit_fields_u16, 1 2 3 4 5 6 7 8), &[0, 255, 0x80, 1], move |c| {
            let (v, d) = unpack(&w, 16, c.be(2)?, |x| Rv::U16(x as u16));
            c.warn |= d;
            Some(v)
        });
    }
    c.add("u4_pair", u4_pair("hi", "lo"), &[], |c| {
        let x = c.u8()?;
        Some(rec(vec![("hi", b(x >> 4)), ("lo", b(x & 15))]))
    });
    // --- records
    {
        let k = r.range(2, 5) as usize;
        let kinds: Vec<usize> = (0..k).map(|_| r.below(4)).collect();
        let raw: Vec<String> = kinds
            .iter()
            .enumerate()
            .map(|(i, t)| match t {
                0 => format!("_h{i}"),
                1 => format!("__d{i}"),
                2 => format!("#_k{i}"),
                _ => format!("k{i}"),
            })
            .collect();
        let mut fields: Vec<(String, Format)> = raw.iter().map(|n| (n.clone(), u8())).collect();
        // the last captured one (kept or not) is usable further on
        let cap = (0..k).rev().find(|i| kinds[*i] != 1);
        if let Some(i) = cap {
            fields.push(("end".into(), compute(var(raw[i].trim_start_matches('#').to_string()))));
        }
        let ks = kinds.clone();
        let rw = raw.clone();
        let oracle = move |c: &mut Cur| {
            let v = c.n(k)?;
            let mut out = vec![];
            for i in 0..k {
                if ks[i] >= 2 {
                    out.push((rw[i].trim_start_matches('#').to_string(), Rv::U8(v[i])));
                }
            }
            if let Some(i) = cap {
                out.push(("end".into(), Rv::U8(v[i])));
            }
            Some(recs(out))
        };
        c.add("record_auto", record_auto(fields.clone()), &[], oracle.clone());
        let ext: Vec<_> = fields
            .iter()
            .map(|(n, f)| {
                let m = n.strip_prefix('#').unwrap_or(n).to_string();
                if n.starts_with("__") { (None, f.clone()) } else { (Some((m, !n.starts_with('_'))), f.clone()) }
            })
            .collect();
        c.add("record_ext", record_ext(ext), &[], oracle);
        if let Some(i) = cap {
            let (name, idx) = (raw[i].trim_start_matches('#').to_string(), i);
            let pre: Vec<(String, Format)> = raw.iter().map(|n| (n.clone(), u8())).collect();
            c.add("pseudo_record", pseudo_record(pre, tuple([compute(var(name)), u8()])), &[], move |c| {
                let v = c.n(k)?;
                Some(tup(vec![b(v[idx]), b(c.u8()?)]))
            });
        }
        let nm: Vec<&'static str> = NAMES[..k].to_vec();
        c.add("record", record(nm.iter().map(|n| (*n, u16be())).collect::<Vec<_>>()), &[], move |c| {
            let mut o = vec![];
            for n in &nm {
                o.push((n.to_string(), Rv::U16(c.be(2)? as u16)));
            }
            Some(recs(o))
        });
        let l = r.byte() % 3;
        c.add("remap_field", remap_field(
            NAMES[l as usize],
            |_| u16be(),
            record([("f0", u8()), ("f1", u8()), ("f3", compute(Expr::U8(7)))]),
        ), &[], move |c| {
            let x = if l == 0 { Rv::U16(c.be(2)? as u16) } else { b(c.u8()?) };
            let y = if l == 1 { Rv::U16(c.be(2)? as u16) } else { b(c.u8()?) };
            Some(rec(vec![("f0", x), ("f1", y), ("f3", b(7))]))
        });
        c.add("merge_records", merge_records([
            record([("f0", u8()), ("f1", u16le())]),
            record_auto([("_n", u8()), ("f2", u8())]),
            record([("f3", compute(var("f0")))]),
        ]), &[], |c| {
            let x = c.u8()?;
            let y = c.le(2)?;
            c.u8()?;
            let z = c.u8()?;
            Some(rec(vec![("f0", b(x)), ("f1", Rv::U16(y as u16)), ("f2", b(z)), ("f3", b(x))]))
        });
    }
    c.add("record_repeat", record_repeat(["x", "y", "z"], u16le()), &[], |c| {
        Some(rec(vec![("x", Rv::U16(c.le(2)? as u16)), ("y", Rv::U16(c.le(2)? as u16)), ("z", Rv::U16(c.le(2)? as u16))]))
    });
    // --- repetition and bytes
    let k = r.range(0, 4) as usize;
    let x = r.byte();
    let y = r.byte();
    c.add("seq_repeat", seq_repeat(k, u8()), &[], move |c| Some(bs(&c.n(k)?)));
    c.add("tuple_repeat", tuple_repeat(k, u8()), &[], move |c| Some(tup(c.n(k)?.into_iter().map(b).collect())));
    c.add("repeat_byte", repeat_byte(k as u32, x), &[x], move |c| {
        let v = c.n(k)?;
        v.iter().all(|z| *z == x).then(|| bs(&v))
    });
    c.add("is_byte", is_byte(x), &[x], move |c| (c.u8()? == x).then(|| b(x)));
    c.add("not_byte", not_byte(x), &[x], move |c| c.u8().filter(|z| *z != x).map(b));
    let pat: Vec<u8> = (0..k).map(|_| *r.pick(&[x, y])).collect();
    let (p1, p2) = (pat.clone(), pat.clone());
    c.add("is_bytes", is_bytes(&pat), &pat, move |c| (c.n(p1.len())? == p1).then(|| tup(p1.iter().map(|z| b(*z)).collect())));
    c.add("byte_seq", byte_seq(&pat), &pat, move |c| (c.n(p2.len())? == p2).then(|| bs(&p2)));
    let set: Vec<u8> = (0..r.below(6)).map(|_| r.byte()).collect();
    let s2 = set.clone();
    c.add("byte_in", byte_in(ByteSet::from_iter(set.iter().copied())), &set, move |c| c.u8().filter(|z| s2.contains(z)).map(b));
    let (lo, hi) = (x.min(y), x.max(y));
    c.add("byte_in range", byte_in(lo..=hi), &[lo, hi, lo.wrapping_sub(1), hi.wrapping_add(1)], move |c| {
        c.u8().filter(|z| lo <= *z && *z <= hi).map(b)
    });
    c.add("repeat", repeat(byte_in(lo..=hi)), &[lo, hi, lo.wrapping_sub(1)], move |c| {
        let mut v = vec![];
        while let Some(z) = c.peek().filter(|z| lo <= *z && *z <= hi) {
            v.push(z);
            c.p += 1;
        }
        Some(bs(&v))
    });
    c.add("repeat1", repeat1(is_byte(x)), &[x], move |c| {
        let mut v = vec![];
        while c.peek() == Some(x) {
            v.push(x);
            c.p += 1;
        }
        (!v.is_empty()).then(|| bs(&v))
    });
    c.add("repeat_count", chain(u8(), "n", repeat_count(var("n"), u16be())), &[0, 1, 2, 3], |c| {
        let n = c.u8()?;
        let mut v = vec![];
        for _ in 0..n {
            v.push(Rv::U16(c.be(2)? as u16));
        }
        Some(Rv::seq(v))
    });
    {
        let mn = r.below(3) as usize;
        let mx = mn + r.below(3) as usize;
        c.add("repeat_between", repeat_between(Expr::U32(mn as u32), Expr::U32(mx as u32), is_byte(x)), &[x], move |c| {
            let mut v = vec![];
            while v.len() < mx && c.peek() == Some(x) {
                v.push(x);
                c.p += 1;
            }
            (v.len() >= mn).then(|| bs(&v))
        });
    }
    c.add("repeat_until_last", repeat_until_last(lambda("x", expr_gte(var("x"), Expr::U8(x))), u8()), &[0, x, x.wrapping_add(1)], move |c| {
        let mut v = vec![];
        loop {
            let z = c.u8()?;
            v.push(z);
            if z >= x {
                return Some(bs(&v));
            }
        }
    });
    c.add(if k == 0 { "repeat_until_seq with a predicate true of the empty sequence" } else { "repeat_until_seq" }, repeat_until_seq(lambda("s", expr_gte(seq_length(var("s")), Expr::U32(k as u32))), u8()), &[], move |c| Some(bs(&c.n(k)?)));
    c.add("accum_until", accum_until(
        lambda_tuple(["acc", "_s"], expr_gte(var("acc"), Expr::U32(300))),
        lambda_tuple(["acc", "z"], add(var("acc"), as_u32(var("z")))),
        Expr::U32(0),
        ValueType::Base(BaseType::U32),
        u8(),
    ), &[255, 100], |c| {
        let mut acc = 0u32;
        let mut v = vec![];
        while acc < 300 {
            let z = c.u8()?;
            acc += z as u32;
            v.push(z);
        }
        Some(tup(vec![Rv::U32(acc), bs(&v)]))
    });
    c.add("optional", optional(is_byte(x)), &[x], move |c| {
        Some(if c.peek() == Some(x) {
            c.p += 1;
            some(b(x))
        } else {
            NONE
        })
    });
    c.add("for_each", chain(repeat_count(Expr::U32(2), u8()), "s", for_each(var("s"), "e", tuple([compute(var("e")), u8()]))), &[], |c| {
        let v = c.n(2)?;
        let mut o = vec![];
        for e in v {
            o.push(tup(vec![b(e), b(c.u8()?)]));
        }
        Some(Rv::seq(o))
    });
    c.add("opaque_bytes", opaque_bytes(), &[], |c| {
        let v = c.rest();
        Some(bs(&v))
    });
    // --- alternatives
    c.add("alts", alts([("p", is_byte(x)), ("q", byte_in(ByteSet::from_iter([x.wrapping_add(1), x.wrapping_add(7)])))]), &[x, x.wrapping_add(1), x.wrapping_add(7)], move |c| {
        let z = c.u8()?;
        if z == x {
            Some(vr("p", b(z)))
        } else if z == x.wrapping_add(1) || z == x.wrapping_add(7) {
            Some(vr("q", b(z)))
        } else {
            None
        }
    });
    c.add("union", union([is_bytes(&[x, 1]), is_bytes(&[x, 2])]), &[x, 1, 2], move |c| {
        let v = c.n(2)?;
        (v[0] == x && (v[1] == 1 || v[1] == 2)).then(|| tup(vec![b(v[0]), b(v[1])]))
    });
    c.add("alts_nondet", alts_nondet([("p", tuple([u8(), is_byte(x)])), ("q", tuple([is_byte(y), u8()]))]), &[x, y], move |c| {
        let v = c.n(2)?;
        let t = tup(vec![b(v[0]), b(v[1])]);
        if v[1] == x {
            Some(vr("p", t))
        } else if v[0] == y {
            Some(vr("q", t))
        } else {
            None
        }
    });
    c.add("any_of", any_of([tuple([is_byte(x), is_byte(1)]), tuple([is_byte(x)])]), &[x, 1], move |c| {
        if c.u8()? != x {
            return None;
        }
        if c.peek() == Some(1) {
            c.p += 1;
        }
        Some(Rv::unit())
    });
    c.add("excluding", excluding(is_bytes(&[x, 1]), tuple([u8(), u8()])), &[x, 1, 2], move |c| {
        let v = c.n(2)?;
        (v != [x, 1]).then(|| tup(vec![b(v[0]), b(v[1])]))
    });
    c.add("match_variant", chain(u8(), "t", match_variant(var("t"), [
        (Pattern::U8(x), "one", u8()),
        (Pattern::Int((lo as usize..=hi as usize).into()), "mid", compute(Expr::U8(9))),
        (Pattern::Wildcard, "other", u16be()),
    ])), &[x, lo, hi], move |c| {
        let t = c.u8()?;
        Some(if t == x {
            vr("one", b(c.u8()?))
        } else if lo <= t && t <= hi {
            vr("mid", b(9))
        } else {
            vr("other", Rv::U16(c.be(2)? as u16))
        })
    });
    c.add("fmt_match", chain(u8(), "t", fmt_match(var("t"), [(Pattern::U8(x), u8()), (Pattern::U8(y), compute(Expr::U8(1)))])), &[x, y], move |c| {
        let t = c.u8()?;
        if t == x {
            Some(b(c.u8()?))
        } else if t == y {
            Some(b(1))
        } else {
            None
        }
    });
    c.add("if_then_else", chain(u8(), "t", if_then_else(expr_lt(var("t"), Expr::U8(x)), u8(), compute(Expr::U8(3)))), &[x, x.wrapping_sub(1)], move |c| {
        if c.u8()? < x { Some(b(c.u8()?)) } else { Some(b(3)) }
    });
    c.add("if_then_else_variant", chain(u8(), "t", if_then_else_variant(expr_eq(var("t"), Expr::U8(x)), ("y", u8()), ("n", u16le()))), &[x], move |c| {
        if c.u8()? == x { Some(vr("y", b(c.u8()?))) } else { Some(vr("n", Rv::U16(c.le(2)? as u16))) }
    });
    c.add("cond_maybe", chain(u8(), "t", cond_maybe(expr_ne(var("t"), Expr::U8(x)), u8())), &[x], move |c| {
        if c.u8()? != x { Some(some(b(c.u8()?))) } else { Some(NONE) }
    });
    // --- conditions
    let z16 = r.next() as u16;
    let w16 = z16.saturating_add(r.below(600) as u16);
    let l16 = if r.chance(1, 3) { 0 } else { z16 };
    let hl = |v: u16| [(v >> 8) as u8, v as u8];
    let favs: Vec<u8> = [hl(z16), hl(w16), hl(w16.wrapping_add(1)), hl(z16.wrapping_sub(1))].concat();
    let l8 = if r.chance(1, 3) { 0 } else { lo };
    c.add("where_between_u8", where_between_u8(u8(), l8, hi), &[lo, hi, hi.wrapping_add(1), lo.wrapping_sub(1)], move |c| c.u8().filter(|v| l8 <= *v && *v <= hi).map(b));
    c.add("where_between_u16", where_between_u16(u16be(), l16, w16), &favs, move |c| {
        let v = c.be(2)? as u16;
        (l16 <= v && v <= w16).then_some(Rv::U16(v))
    });
    let (l32, h32) = ((l16 as u32) << 8, (w16 as u32) << 8 | 0x40);
    c.add("where_between_u32", where_between_u32(u32be(), l32, h32), &favs, move |c| {
        let v = c.be(4)? as u32;
        (l32 <= v && v <= h32).then_some(Rv::U32(v))
    });
    c.add("expect_between_u8", expect_between_u8(u8(), l8, hi), &[lo, hi, hi.wrapping_add(1)], move |c| {
        let v = c.u8()?;
        c.warn |= !(l8 <= v && v <= hi);
        Some(b(v))
    });
    c.add("expect_between_u16", expect_between_u16(u16be(), l16, w16), &favs, move |c| {
        let v = c.be(2)? as u16;
        c.warn |= !(l16 <= v && v <= w16);
        Some(Rv::U16(v))
    });
    c.add("expect_between_u32", expect_between_u32(u32be(), l32, h32), &favs, move |c| {
        let v = c.be(4)? as u32;
        c.warn |= !(l32 <= v && v <= h32);
        Some(Rv::U32(v))
    });
    c.add("where_within", where_within(u8(), lo..=hi), &[lo, hi, hi.wrapping_add(1)], move |c| c.u8().filter(|v| lo <= *v && *v <= hi).map(b));
    c.add("where_within from", where_within(u8(), lo..), &[lo, lo.wrapping_sub(1)], move |c| c.u8().filter(|v| lo <= *v).map(b));
    c.add("where_within one", where_within(u8(), lo), &[lo, lo.wrapping_sub(1)], move |c| c.u8().filter(|v| lo == *v).map(b));
    c.add("expect_within", expect_within(u16be(), z16..=w16), &favs, move |c| {
        let v = c.be(2)? as u16;
        c.warn |= !(z16 <= v && v <= w16);
        Some(Rv::U16(v))
    });
    let rs: Vec<(u8, u8)> = (0..r.below(4)).map(|_| (r.byte(), r.byte())).map(|(a, b)| (a.min(b), a.max(b))).map(|(a, b)| (a, b.min(a.saturating_add(40)))).collect();
    let r2 = rs.clone();
    let rf: Vec<u8> = rs.iter().flat_map(|(a, b)| [*a, *b, a.wrapping_sub(1), b.wrapping_add(1)]).collect();
    c.add("where_within_any", where_within_any(u8(), rs.iter().map(|(a, b)| *a..=*b)), &rf, move |c| c.u8().filter(|v| r2.iter().any(|(a, b)| a <= v && v <= b)).map(b));
    let r2 = rs.clone();
    c.add("is_within_any", map(u8(), lambda("v", is_within_any(var("v"), rs.iter().map(|(a, b)| *a..=*b)))), &rf, move |c| {
        let v = c.u8()?;
        Some(Rv::Bool(r2.iter().any(|(a, b)| *a <= v && v <= *b)))
    });
    c.add("is_within", map(u16be(), lambda("v", is_within(var("v"), Bounds::new(z16 as usize, w16 as usize)))), &favs, move |c| {
        let v = c.be(2)? as u16;
        Some(Rv::Bool(z16 <= v && v <= w16))
    });
    c.add("where_lambda", where_lambda(tuple([u8(), u8()]), "t", expr_lt(tuple_proj(var("t"), 0), tuple_proj(var("t"), 1))), &[], |c| {
        let v = c.n(2)?;
        (v[0] < v[1]).then(|| tup(vec![b(v[0]), b(v[1])]))
    });
    c.add("expect_lambda", expect_lambda(u8(), "t", expr_gt(var("t"), Expr::U8(x))), &[x, x.wrapping_add(1)], move |c| {
        let v = c.u8()?;
        c.warn |= v <= x;
        Some(b(v))
    });
    c.add("expect_eq", expect_eq(u16be(), Expr::U16(z16)), &favs, move |c| (c.be(2)? as u16 == z16).then_some(Rv::U16(z16)));
    c.add("where_nonzero", tuple([where_nonzero::<U8>(u8()), where_nonzero::<U16>(u16be()), where_nonzero::<U32>(u32be())]), &[0, 1], |c| {
        let (a, d, e) = (c.u8()?, c.be(2)?, c.be(4)?);
        (a != 0 && d != 0 && e != 0).then(|| tup(vec![b(a), Rv::U16(d as u16), Rv::U32(e as u32)]))
    });
    c.add("expect_nonzero", expect_nonzero::<U16>(u16le()), &[0, 0, 1], |c| {
        let d = c.le(2)?;
        c.warn |= d == 0;
        Some(Rv::U16(d as u16))
    });
    c.add("permit", tuple([permit(is_byte(x), Expr::U8(77)), opaque_bytes()]), &[x], move |c| {
        // a permitted failure leaves the input where it was
        let v = if c.peek() == Some(x) {
            c.p += 1;
            x
        } else {
            c.warn = true;
            77
        };
        let rest = c.rest();
        Some(tup(vec![b(v), bs(&rest)]))
    });
    // --- position
    let al = 1 + r.below(5) as usize;
    c.add("align_then", tuple([u8(), align_then(al, u8())]), &[], move |c| {
        let p = c.u8()?;
        c.align(al)?;
        Some(tup(vec![b(p), b(c.u8()?)]))
    });
    c.add("then_align", tuple([then_align(u16be(), al), u8()]), &[], move |c| {
        let p = c.be(2)?;
        c.align(al)?;
        Some(tup(vec![Rv::U16(p as u16), b(c.u8()?)]))
    });
    c.add("align_to_size", tuple([u8(), align_to_size::<u32>(), u8(), align_to_size::<u16>(), u8()]), &[], |c| {
        let p = c.u8()?;
        c.align(4)?;
        let q = c.u8()?;
        c.align(2)?;
        Some(tup(vec![b(p), Rv::unit(), b(q), Rv::unit(), b(c.u8()?)]))
    });
    c.add("pos32", tuple([opaque_n(k), pos32()]), &[], move |c| Some(tup(vec![bs(&c.n(k)?), Rv::U64(c.p as u64)])));
    c.add("with_relative_offset here", tuple([u8(), chain(u8(), "o", with_relative_offset(None, var("o"), u8())), u8()]), &[0, 1, 2, 3], |c| {
        let (p, o) = (c.u8()?, c.u8()? as usize);
        let t = *c.b.get(c.p + o)?;
        Some(tup(vec![b(p), b(t), b(c.u8()?)]))
    });
    c.add("with_relative_offset base", tuple([u8(), chain(u8(), "o", with_relative_offset(Some(Expr::U32(al as u32)), var("o"), u16le())), u8()]), &[0, 1, 2, 3], move |c| {
        let (p, o) = (c.u8()?, c.u8()? as usize);
        let at = al + o;
        if at > c.b.len() {
            return None;
        }
        let mut d = Cur { b: c.b, p: at, warn: false };
        let t = d.le(2)?;
        Some(tup(vec![b(p), Rv::U16(t as u16), b(c.u8()?)]))
    });
    c.add("slice", tuple([slice(Expr::U32(al as u32), opt_byte(x)), u8()]), &[x], move |c| {
        let v = c.n(al)?;
        let o = if v[0] == x { some(b(x)) } else { NONE };
        Some(tup(vec![o, b(c.u8()?)]))
    });
    c.add("slice rest", tuple([slice(Expr::U32(k as u32), opaque_bytes()), u8()]), &[], move |c| Some(tup(vec![bs(&c.n(k)?), b(c.u8()?)])));
    // --- sequencing
    c.add("chain", chain(u8(), "p", chain(u8(), "q", compute(pair(var("q"), var("p"))))), &[], |c| {
        let v = c.n(2)?;
        Some(tup(vec![b(v[1]), b(v[0])]))
    });
    c.add("monad_seq", monad_seq(u8(), u16be()), &[], |c| {
        c.u8()?;
        Some(Rv::U16(c.be(2)? as u16))
    });
    c.add("void", void(tuple([u8(), u16be()])), &[], |c| {
        c.n(3)?;
        Some(Rv::unit())
    });
    c.add("fmt_let", chain(u8(), "p", fmt_let("q", var("p"), tuple([u8(), compute(var("q"))]))), &[], |c| {
        let v = c.n(2)?;
        Some(tup(vec![b(v[1]), b(v[0])]))
    });
    c.add("with_tuple", chain(tuple([u8(), u16be(), u8()]), "t", with_tuple(var("t"), ["p", "q", "z"], compute(Expr::Tuple(vec![var("z"), var("p"), var("q")])))), &[], |c| {
        let (p, q, z) = (c.u8()?, c.be(2)?, c.u8()?);
        Some(tup(vec![b(z), b(p), Rv::U16(q as u16)]))
    });
    c.add("phantom", tuple([u8(), phantom(tuple([u8(), u8()])), u8()]), &[], |c| {
        let v = c.n(2)?;
        Some(tup(vec![b(v[0]), Rv::Phantom, b(v[1])]))
    });
    c.add("map", map(tuple([u8(), u8()]), lambda("t", Expr::Tuple(vec![tuple_proj(var("t"), 1), tuple_proj(var("t"), 0)]))), &[], |c| {
        let v = c.n(2)?;
        Some(tup(vec![b(v[1]), b(v[0])]))
    });
    c.add("fmt_variant", fmt_variant("tag", u8()), &[], |c| Some(vr("tag", b(c.u8()?))));
    c.add("fmt_some", fmt_some(u8()), &[], |c| Some(some(b(c.u8()?))));
    c.add("fmt_none", tuple([fmt_none(), u8()]), &[], |c| Some(tup(vec![NONE, b(c.u8()?)])));
    // --- views
    c.add("capture_bytes_from_here", tuple([u8(), capture_bytes_from_here(Expr::U32(k as u32)), u8()]), &[], move |c| {
        let p = c.u8()?;
        let v = c.b.get(c.p..c.p + k)?.to_vec();
        Some(tup(vec![b(p), bs(&v), b(c.u8()?)]))
    });
    {
        let (kd, w) = kind(r.next());
        c.add("read_array", tuple([u8(), from_here(read_array(Expr::U32(k as u32), kd)), u8()]), &[], move |c| {
            let p = c.u8()?;
            let mut d = Cur { b: c.b, p: c.p, warn: false };
            let mut v = vec![];
            for _ in 0..k {
                v.push(int(w, d.be(w)?));
            }
            Some(tup(vec![b(p), Rv::seq(v), b(c.u8()?)]))
        });
        c.add("parse_from_view", tuple([u8(), let_view("v", monad_seq(u8(), tuple([u8(), parse_from_view(vvar("v"), u16be())]))), u8()]), &[], |c| {
            let v = c.n(4)?;
            Some(tup(vec![b(v[0]), tup(vec![b(v[2]), Rv::U16((v[1] as u16) << 8 | v[2] as u16)]), b(v[3])]))
        });
    }
    c.add("decode_bytes", chain(repeat_count(Expr::U32(4), u8()), "s", tuple([decode_bytes(var("s"), tuple([u16le(), u8(), u8()])), u8()])), &[], |c| {
        let v = c.n(4)?;
        Some(tup(vec![tup(vec![Rv::U16(v[0] as u16 | (v[1] as u16) << 8), b(v[2]), b(v[3])]), b(c.u8()?)]))
    });
    // --- integers
    c.add("u16be", u16be(), &[], |c| Some(Rv::U16(c.be(2)? as u16)));
    c.add("u16le", u16le(), &[], |c| Some(Rv::U16(c.le(2)? as u16)));
    c.add("u32be", u32be(), &[], |c| Some(Rv::U32(c.be(4)? as u32)));
    c.add("u32le", u32le(), &[], |c| Some(Rv::U32(c.le(4)? as u32)));
    c.add("u64be", u64be(), &[], |c| Some(Rv::U64(c.be(8)?)));
    c.add("u64le", u64le(), &[], |c| Some(Rv::U64(c.le(8)?)));
    {
        use doodle::numeric::core::NumRep as N;
        use base::{i8 as gi8, i16be, i32be, i64be};
        c.add("i8", gi8(), &[0x80, 0x7f, 0xff], |c| Some(Rv::Num(BigInt::from(c.u8()? as i8), N::I8)));
        c.add("i16be", i16be(), &[0x80, 0x7f, 0xff], |c| Some(Rv::Num(BigInt::from(c.be(2)? as u16 as i16), N::I16)));
        c.add("i32be", i32be(), &[0x80, 0x7f, 0xff], |c| Some(Rv::Num(BigInt::from(c.be(4)? as u32 as i32), N::I32)));
        c.add("i64be", i64be(), &[0x80, 0x7f, 0xff], |c| Some(Rv::Num(BigInt::from(c.be(8)? as i64), N::I64)));
    }
    // --- text
    c.add("ascii_char", ascii_char(), &[], |c| Some(b(c.u8()?)));
    c.add("ascii_octal_digit", ascii_octal_digit(), b"07/8", |c| c.u8().filter(|z| (b'0'..=b'7').contains(z)).map(b));
    c.add("ascii_decimal_digit", ascii_decimal_digit(), b"09/:", |c| c.u8().filter(u8::is_ascii_digit).map(b));
    c.add("ascii_hex_lower", ascii_hex_lower(), b"09/:afg`AFG", |c| c.u8().filter(|z| z.is_ascii_digit() || (b'a'..=b'f').contains(z)).map(b));
    c.add("ascii_hex_upper", ascii_hex_upper(), b"09/:afg`AFG@", |c| c.u8().filter(|z| z.is_ascii_digit() || (b'A'..=b'F').contains(z)).map(b));
    c.add("ascii_hex_any", ascii_hex_any(), b"09/:afg`AFG@", |c| c.u8().filter(u8::is_ascii_hexdigit).map(b));
    c.add("asciiz_string", tuple([asciiz_string(), opaque_bytes()]), &[0, 65, 66, 200], |c| {
        let n = c.b.iter().position(|z| *z == 0)?;
        let v = c.n(n)?;
        c.u8()?;
        let rest = c.rest();
        Some(tup(vec![bs(&v), bs(&rest)]))
    });
    c.add("string_of", string_of(ascii_decimal_digit()), b"0189a", |c| {
        let mut v = vec![];
        while let Some(z) = c.peek().filter(u8::is_ascii_digit) {
            v.push(z);
            c.p += 1;
        }
        Some(bs(&v))
    });
    c.add("fixed_len_string", fixed_len_string(ascii_hex_any(), k as u32), b"09afAFg", move |c| {
        let v = c.n(k)?;
        v.iter().all(u8::is_ascii_hexdigit).then(|| bs(&v))
    });
    // --- expressions over two bytes and a list of n bytes
    let n = r.below(5) as u32;
    let sm: Vec<u8> = vec![0, 1, 2, 3, 4, x];
    type E<'a> = Box<dyn Fn(u8, u8, &[u8]) -> Option<Rv> + 'a>;
    let mut ex = |name: &'static str, n: u32, e: Expr, o: E<'static>| {
        c.add(name, with_s(n, e), &sm, move |c| {
            let (p, q) = (c.u8()?, c.u8()?);
            let s = c.n(n as usize)?;
            o(p, q, &s)
        })
    };
    let (va, vb, vs) = (|| var("a"), || var("b"), || var("s"));
    ex("expr_if_else", 0, expr_if_else(expr_lte(va(), vb()), va(), vb()), Box::new(|p, q, _| Some(b(p.min(q)))));
    ex("expr_opt_if", 0, expr_opt_if(expr_gt(va(), vb()), va()), Box::new(|p, q, _| Some(if p > q { some(b(p)) } else { NONE })));
    ex("expr_max", 0, expr_max(va(), vb()), Box::new(|p, q, _| Some(b(p.max(q)))));
    ex("expr_unwrap", 0, expr_unwrap(expr_opt_if(expr_ne(va(), vb()), va())), Box::new(|p, q, _| (p != q).then(|| b(p))));
    ex("expr_option_map_or", 0, expr_option_map_or(vb(), |z| shr(z, Expr::U8(1)), expr_opt_if(expr_eq(va(), vb()), va())), Box::new(|p, q, _| Some(b(if p == q { p >> 1 } else { q }))));
    ex("expr_option_unwrap_first", 0, expr_option_unwrap_first(expr_opt_if(expr_lt(va(), Expr::U8(2)), va()), expr_opt_if(expr_lt(vb(), Expr::U8(3)), vb())), Box::new(|p, q, _| if p < 2 { Some(b(p)) } else if q < 3 { Some(b(q)) } else { None }));
    ex("unwrap_singleton", n, unwrap_singleton(vs()), Box::new(|_, _, s| (s.len() == 1).then(|| b(s[0]))));
    ex("index_checked", n, index_checked(vs(), as_u32(va())), Box::new(|p, _, s| Some(s.get(p as usize).map_or(NONE, |z| some(b(*z))))));
    ex("index_unchecked", n, index_unchecked(vs(), as_u32(va())), Box::new(|p, _, s| s.get(p as usize).map(|z| b(*z))));
    ex("seq_proj", n, seq_proj(vs(), k), Box::new(move |_, _, s| s.get(k).map(|z| b(*z))));
    ex("seq_last_checked", n, seq_last_checked(vs()), Box::new(|_, _, s| Some(s.last().map_or(NONE, |z| some(b(*z))))));
    ex("seq_last_unchecked", n, seq_last_unchecked(vs()), Box::new(|_, _, s| s.last().map(|z| b(*z))));
    ex("seq_length", n, seq_length(vs()), Box::new(|_, _, s| Some(Rv::U32(s.len() as u32))));
    ex("seq_any", n, seq_any(|z| expr_eq(z, var("a")), vs()), Box::new(|p, _, s| Some(Rv::Bool(s.contains(&p)))));
    ex("left_fold", n, left_fold(lambda_tuple(["acc", "z"], add(mul(var("acc"), Expr::U64(3)), as_u64(var("z")))), as_u64(va()), ValueType::Base(BaseType::U64), vs()), Box::new(|p, _, s| Some(Rv::U64(s.iter().fold(p as u64, |a, z| a * 3 + *z as u64)))));
    ex("flat_map", n, flat_map(lambda("z", Expr::Seq(vec![var("z"), var("a")])), vs()), Box::new(|p, _, s| Some(bs(&s.iter().flat_map(|z| [*z, p]).collect::<Vec<_>>()))));
    ex("flat_map_accum", n, flat_map_accum(
        lambda_tuple(["acc", "z"], pair(var("z"), expr_if_else(expr_lte(var("acc"), var("z")), Expr::Seq(vec![var("acc"), var("z")]), Expr::Seq(vec![])))),
        va(),
        ValueType::Base(BaseType::U8),
        vs(),
    ), Box::new(|p, _, s| {
        let mut acc = p;
        let mut o = vec![];
        for z in s {
            if acc <= *z {
                o.extend([acc, *z]);
            }
            acc = *z;
        }
        Some(bs(&o))
    }));
    ex("flat_map_list", n, flat_map_list(
        lambda_tuple(["list", "z"], expr_if_else(expr_lt(seq_length(var("list")), Expr::U32(2)), singleton(var("z")), concat(Expr::Seq(vec![singleton(var("z")), singleton(index_unchecked(var("list"), Expr::U32(1)))])))),
        ValueType::Base(BaseType::U8),
        vs(),
    ), Box::new(|_, _, s| {
        let mut o: Vec<u8> = vec![];
        for z in s {
            if o.len() < 2 {
                o.push(*z);
            } else {
                o.extend([*z, o[1]]);
            }
        }
        Some(bs(&o))
    }));
    ex("concat", n, concat(Expr::Seq(vec![vs(), seq_empty(), singleton(va()), vs()])), Box::new(|p, _, s| Some(bs(&[s, &[p], s].concat()))));
    ex("dup", 0, dup(as_u32(bit_and(va(), Expr::U8(7))), vb()), Box::new(|p, q, _| Some(bs(&vec![q; p as usize & 7]))));
    ex("sub_seq", n, sub_seq(vs(), as_u32(bit_and(va(), Expr::U8(3))), as_u32(bit_and(vb(), Expr::U8(3)))), Box::new(|p, q, s| {
        let (st, ln) = (p as usize & 3, q as usize & 3);
        s.get(st..st + ln).map(bs)
    }));
    ex("sub_seq_inflate", n, sub_seq_inflate(vs(), as_u32(bit_and(va(), Expr::U8(3))), as_u32(bit_and(vb(), Expr::U8(15)))), Box::new(|p, q, s| {
        let (st, ln) = (p as usize & 3, q as usize & 15);
        if ln == 0 {
            return Some(bs(&[]));
        }
        if st >= s.len() {
            return None;
        }
        let mut all = s.to_vec();
        let mut o = vec![];
        for i in 0..ln {
            let z = all[st + i];
            o.push(z);
            if st + i + 1 >= all.len() {
                all.push(all[st + i + 1 - (s.len() - st)]);
            }
        }
        Some(bs(&o))
    }));
    ex("enum_from_to", 0, enum_from_to(as_u32(va()), as_u32(vb())), Box::new(|p, q, _| Some(Rv::seq((p..q).map(|z| Rv::Usize(z as u64)).collect()))));
    ex("find_by_key", n, find_by_key(false, |e| bit_and(e, Expr::U8(3)), bit_and(va(), Expr::U8(3)), vs()), Box::new(|p, _, s| Some(s.iter().find(|z| **z & 3 == p & 3).map_or(NONE, |z| some(b(*z))))));
    ex("record_lens", 0, record_lens(Expr::Record(vec![("p".into(), Expr::Record(vec![("q".into(), va()), ("r".into(), vb())])), ("s".into(), vb())]), &["p", "q"]), Box::new(|p, _, _| Some(b(p))));
    ex("record_proj", 0, record_proj(Expr::Record(vec![("p".into(), va()), ("q".into(), vb())]), "q"), Box::new(|_, q, _| Some(b(q))));
    ex("tuple_proj", 0, tuple_proj(Expr::Tuple(vec![va(), vb(), Expr::U8(5)]), (k % 3) as usize), Box::new(move |p, q, _| Some(b([p, q, 5][k % 3]))));
    ex("subset_fields", 0, subset_fields(Expr::Record(vec![("p".into(), va()), ("q".into(), vb()), ("z".into(), Expr::U8(4))]), ["z", "p"]), Box::new(|p, _, _| Some(rec(vec![("z", b(4)), ("p", b(p))]))));
    ex("prepend_field", 0, prepend_field(("n", Expr::U8(4)), (Expr::Record(vec![("p".into(), va()), ("q".into(), vb()), ("z".into(), Expr::U8(1))]), ["q", "p"])), Box::new(|p, q, _| Some(rec(vec![("n", b(4)), ("q", b(q)), ("p", b(p))]))));
    ex("lambda_tuple/destruct", 0, expr_destruct(pair(va(), vb()), Pattern::Tuple(vec![bind("u"), bind("w")]), pair(var("w"), var("u"))), Box::new(|p, q, _| Some(tup(vec![b(q), b(p)]))));
    ex("interpret_as_enum", 0, interpret_as_enum(va(), [(Pattern::U8(0), "zero"), (Pattern::U8(1), "one"), (Pattern::U8(x), "ex")], Some("else")), Box::new(move |p, _, _| Some(if p == 0 { vr("zero", Rv::unit()) } else if p == 1 { vr("one", Rv::unit()) } else if p == x { vr("ex", Rv::unit()) } else { vr("else", b(p)) })));
    ex("interpret_as_enum closed", 0, interpret_as_enum(va(), [(Pattern::U8(0), "zero"), (Pattern::U8(1), "one")], None), Box::new(move |p, _, _| match p {
        0 => Some(vr("zero", Rv::unit())),
        1 => Some(vr("one", Rv::unit())),
        _ => None,
    }));
    {
        let p3: Vec<u8> = (0..n).map(|_| *r.pick(&[0, 1])).collect();
        ex("pattern_bytestring", n, expr_match(vs(), [(pattern_bytestring(&p3), Expr::Bool(true)), (Pattern::Wildcard, Expr::Bool(false))]), Box::new(move |_, _, s| Some(Rv::Bool(s == p3))));
        let m = 1 + r.below(6) as usize;
        ex("balanced_bitor", 0, balanced_bitor((0..m).map(|i| if i % 2 == 0 { bit_and(va(), Expr::U8(1 << i)) } else { bit_and(vb(), Expr::U8(1 << i)) }).collect()), Box::new(move |p, q, _| Some(b((0..m).fold(0, |o, i| o | if i % 2 == 0 { p & 1 << i } else { q & 1 << i })))));
    }
    let cmp: [(&'static str, fn(Expr, Expr) -> Expr, fn(u8, u8) -> bool); 6] = [
        ("expr_eq", expr_eq, |p, q| p == q),
        ("expr_ne", expr_ne, |p, q| p != q),
        ("expr_lt", expr_lt, |p, q| p < q),
        ("expr_lte", expr_lte, |p, q| p <= q),
        ("expr_gt", expr_gt, |p, q| p > q),
        ("expr_gte", expr_gte, |p, q| p >= q),
    ];
    for (nm, f, o) in cmp {
        ex(nm, 0, f(va(), vb()), Box::new(move |p, q, _| Some(Rv::Bool(o(p, q)))));
    }
    let ari: [(&'static str, fn(Expr, Expr) -> Expr, fn(u32, u32) -> Option<u32>); 9] = [
        ("add", add, u32::checked_add),
        ("sub", sub, u32::checked_sub),
        ("mul", mul, u32::checked_mul),
        ("div", div, u32::checked_div),
        ("rem", rem, u32::checked_rem),
        ("bit_or", bit_or, |p, q| Some(p | q)),
        ("bit_and", bit_and, |p, q| Some(p & q)),
        ("shl", |p, q| shl(p, bit_and(q, Expr::U32(15))), |p, q| Some(p << (q & 15))),
        ("shr", |p, q| shr(p, bit_and(q, Expr::U32(15))), |p, q| Some(p >> (q & 15))),
    ];
    for (nm, f, o) in ari {
        ex(nm, 0, f(as_u32(va()), as_u32(vb())), Box::new(move |p, q, _| o(p as u32, q as u32).map(Rv::U32)));
    }
    ex("or", 0, or(expr_eq(va(), Expr::U8(1)), expr_eq(vb(), Expr::U8(1))), Box::new(|p, q, _| Some(Rv::Bool(p == 1 || q == 1))));
    ex("and", 0, and(expr_eq(va(), Expr::U8(1)), expr_eq(vb(), Expr::U8(1))), Box::new(|p, q, _| Some(Rv::Bool(p == 1 && q == 1))));
    ex("expr_not", 0, expr_not(expr_eq(va(), vb())), Box::new(|p, q, _| Some(Rv::Bool(p != q))));
    ex("is_nonzero", 0, pair(is_nonzero_u8(va()), pair(is_nonzero_u16(as_u16(vb())), is_nonzero_u32(as_u32(va())))), Box::new(|p, q, _| Some(tup(vec![Rv::Bool(p != 0), tup(vec![Rv::Bool(q != 0), Rv::Bool(p != 0)])]))));
    ex("succ/pred", 0, pair(succ(as_u32(va())), pred(as_u32(vb()))), Box::new(|p, q, _| (q > 0).then(|| tup(vec![Rv::U32(p as u32 + 1), Rv::U32(q as u32 - 1)]))));
    ex("widening", 0, Expr::Tuple(vec![as_u8(va()), as_u16(va()), as_u32(va()), as_u64(va()), as_char(vb())]), Box::new(|p, q, _| Some(tup(vec![b(p), Rv::U16(p as u16), Rv::U32(p as u32), Rv::U64(p as u64), Rv::Char(q as char)]))));
    ex("variant", 0, variant("v", pair(va(), vb())), Box::new(|p, q, _| Some(vr("v", tup(vec![b(p), b(q)])))));
    ex("expr_lift_seq", 0, expr_lift_seq([1u8, 9, x], Expr::U8), Box::new(move |_, _, _| Some(bs(&[1, 9, x]))));
    {
        let f = chain(u8(), "a", chain(compute(expr_opt_if(expr_lt(var("a"), Expr::U8(2)), var("a"))), "o", tuple([bind_option(var("o"), "y", |y| tuple([compute(y), u8()]).pipe_opt(x)), map_option(var("o"), "y", |y| tuple([u8(), compute(y)])), u8()])));
        c.add("bind_option/map_option", f, &[0, 1, 2, x], move |c| {
            let a = c.u8()?;
            let (p, q) = if a < 2 {
                let z = c.u8()?;
                let first = if z == x { some(tup(vec![b(a), b(z)])) } else { return None };
                (first, some(tup(vec![b(c.u8()?), b(a)])))
            } else {
                (NONE, NONE)
            };
            Some(tup(vec![p, q, b(c.u8()?)]))
        });
    }
    c.0
}
fn opaque_n(k: usize) -> Format {
    repeat_count(Expr::U32(k as u32), u8())
}
fn opt_byte(x: u8) -> Format {
    optional(is_byte(x))
}
trait Pipe {
    fn pipe_opt(self, x: u8) -> Format;
}
impl Pipe for Format {
    /// some(value), when the second component is x
    fn pipe_opt(self, x: u8) -> Format {
        fmt_some(where_lambda(self, "pt", expr_eq(tuple_proj(var("pt"), 1), Expr::U8(x))))
    }
}

fn input(r: &mut Rng, fav: &[u8]) -> Vec<u8> {
    let n = match r.below(6) {
        0 => r.below(4),
        1 => 1,
        2 => 2,
        _ => r.range(3, 26),
    };
    let p = r.below(4);
    (0..n).map(|_| if !fav.is_empty() && r.below(4) < p + 1 { *r.pick(fav) } else if r.chance(1, 3) { r.below(4) as u8 } else { r.byte() }).collect()
}

pub fn run(rep: &Report) -> &'static str {
    let _ = log::set_logger(&LOG);
    log::set_max_level(log::LevelFilter::Warn);
    let rounds = rep.scale(4000, 200000);
    par(rounds, |i| {
        let mut r = Rng::derive(rep.seed, hash_of(&("c18", i)));
        let m = FormatModule::new();
        let cs = match crate::ev::guarded(|| cases(&mut r.clone())) {
            Ok(c) => c,
            Err(e) => {
                rep.violation("building", &format!("building the helpers aborted: {e}"), json!({"round": i, "seed": rep.seed}));
                return;
            }
        };
        for c in cs {
            let mut rr = Rng::derive(rep.seed, hash_of(&("c18", i, c.name)));
            let p = match eng::compile(&m, &c.f) {
                Comp::Ok(p) => p,
                Comp::Refused(e) | Comp::Panic(e) => {
                    rep.violation(c.name, &format!("{}: a description built as documented is refused: {e}", c.name), json!({"format": format!("{:?}", c.f)}));
                    continue;
                }
            };
            rep.count("descriptions", 1);
            for _ in 0..8 {
                let inp = input(&mut rr, &c.fav);
                let mut cur = Cur { b: &inp, p: 0, warn: false };
                let want = (c.o)(&mut cur);
                WARNED.with(|w| w.set(0));
                let got = eng::run(&p, &inp);
                let warned = WARNED.with(|w| w.replace(0)) > 0;
                let loc = match eng::run_loc(&p, &inp) {
                    Ok(Some((v, n))) => Out::Ok(Rv::erase(&doodle::decoder::Value::from(v)), n),
                    Ok(None) => Out::Reject,
                    Err(e) => Out::Panic(e),
                };
                let lwarned = WARNED.with(|w| w.replace(0)) > 0;
                rep.eval(1);
                rep.sig(&(c.name, want.is_some(), inp.len(), got.show()));
                rep.count(if want.is_some() { "accepting decodes" } else { "refusing decodes" }, 1);
                if cur.warn && want.is_some() {
                    rep.count("non-fatal conditions raised", 1);
                }
                for (eng, got, warned) in [("plain", &got, warned), ("located", &loc, lwarned)] {
                    let bad = match (&want, got) {
                        (Some(w), Out::Ok(v, n)) => {
                            if w != v || *n != cur.p {
                                Some(format!("documented {} ending at {}, decoded {} ending at {n}", w.show(), cur.p, v.show()))
                            } else if cur.warn != warned {
                                Some(format!("non-fatal condition: documented {}, observed {warned}", cur.warn))
                            } else {
                                None
                            }
                        }
                        (Some(w), o) => Some(format!("documented {} ending at {}, but the decode gives {}", w.show(), cur.p, o.show())),
                        (None, Out::Ok(v, n)) => Some(format!("documented as not decodable, decoded {} ending at {n}", v.show())),
                        (None, _) => None,
                    };
                    if let Some(what) = bad {
                        rep.violation(c.name, &format!("{} ({eng} decoder): {what}", c.name), json!({"helper": c.name, "input": inp, "format": format!("{:?}", c.f)}));
                    }
                }
                if rr.chance(1, 400) {
                    rep.sample(json!({"helper": c.name, "input": inp, "documented": want.as_ref().map(|w| w.show()), "decoded": got.show()}));
                }
            }
        }
    });
    "each evaluation decodes one input with a description built from one helper with random parameters, in the plain and the located decoder, and compares value, end position and non-fatal conditions with the helper's documentation"
}
