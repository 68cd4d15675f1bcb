//! C13: the shipped UTF-8 text formats against the standard library's decoder, and the ASCII formats against
//! their documented byte sets, in the interpreter and in the generated parser.
use crate::cgen::{self, DP, Driver, Ran, Unit};
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, hash_of, par};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::decoder::Program;
use doodle::helper::*;
use doodle::{Format, FormatModule};
use serde_json::json;
use std::cell::RefCell;

fn seq(v: Vec<Rv>) -> Rv {
    Rv::Seq(v.into())
}
fn tup(v: Vec<Rv>) -> Rv {
    Rv::Tuple(v.into())
}

const NAMES: [&str; 4] = ["text", "text without NUL", "NUL-terminated text", "text character"];
/// 0: text up to the end; 1: text without NUL up to the end; 2: text without NUL, then NUL, then the rest; 3: one character
fn formats(m: &mut FormatModule) -> Vec<Format> {
    let (text, nz) = doodle_formats::format::text::main(m);
    let ch = m.iter_formats().find(|(i, _)| m.get_name(*i) == "text.utf8.char").map(|(_, f)| f);
    let mut v = vec![
        tuple([text.call(), Format::EndOfInput]),
        tuple([nz.call(), Format::EndOfInput]),
        tuple([nz.call(), is_byte(0), Format::SkipRemainder]),
    ];
    v.extend(ch);
    v
}
/// what an independent decoder says: the characters and where they end
fn oracle(i: usize, inp: &[u8]) -> Option<(Vec<char>, usize)> {
    let s = |b: &[u8]| std::str::from_utf8(b).ok().map(|s| s.chars().collect::<Vec<_>>());
    match i {
        0 => s(inp).map(|c| (c, inp.len())),
        1 => s(inp).filter(|_| !inp.contains(&0)).map(|c| (c, inp.len())),
        2 => {
            let n = inp.iter().position(|b| *b == 0)?;
            s(&inp[..n]).map(|c| (c, inp.len()))
        }
        _ => (1..=4.min(inp.len())).find_map(|k| s(&inp[..k]).map(|c| (c, k))),
    }
}
fn chars(i: usize, v: &Rv) -> Option<Vec<char>> {
    let v = match (i, v) {
        (0..3, Rv::Tuple(t)) => t.first()?,
        _ => v,
    };
    match v {
        Rv::Char(c) => Some(vec![*c]),
        Rv::Seq(s) => s.iter().map(|c| if let Rv::Char(c) = c { Some(*c) } else { None }).collect(),
        _ => None,
    }
}
thread_local! { static PROGS: RefCell<Vec<Program>> = const { RefCell::new(vec![]) }; }

fn interp(rep: &Report, inp: &[u8]) {
    PROGS.with_borrow_mut(|ps| {
        if ps.is_empty() {
            let mut m = FormatModule::new();
            for f in formats(&mut m) {
                let Comp::Ok(p) = eng::compile(&m, &f) else { panic!("the text formats do not compile") };
                ps.push(p);
            }
            if ps.len() < 4 {
                rep.count("the single-character format is not there", 1);
            }
        }
        for (i, p) in ps.iter().enumerate() {
            let want = oracle(i, inp);
            let got = match eng::run(p, inp) {
                Out::Ok(v, end) => match chars(i, &v) {
                    Some(c) => Some((c, end)),
                    None => {
                        rep.violation("value", format!("{} decodes {inp:02x?} to {}", NAMES[i], v.show()), json!({"input": inp}));
                        return;
                    }
                },
                Out::Reject => None,
                o => {
                    rep.violation("abort", format!("{} on {inp:02x?}: {}", NAMES[i], o.tag()), json!({"input": inp}));
                    return;
                }
            };
            if got != want {
                rep.violation(&format!("{} {:x}", NAMES[i], hash_of(inp)), format!("{}: {inp:02x?} is decoded to {got:?}, should be {want:?} (None: refused)", NAMES[i]), json!({"input": inp}));
                return;
            }
            rep.count(if got.is_some() { "accepted" } else { "refused" }, 1);
        }
    });
}

/// the bytes at which the rules of UTF-8 change
const EDGE: [u8; 30] = [0, 1, 0x41, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xfe, 0xff];

fn sample(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for _ in 0..rng.below(12) {
        match rng.below(10) {
            0 => v.push(*rng.pick(&EDGE)),
            1 => v.push(rng.byte()),
            _ => {
                let top = [0x7f, 0x7ff, 0xffff, 0x10ffff, 0xffff, 0x10ffff][rng.below(6)];
                let c = rng.below(top + 1) as u32;
                let mut b = [0; 4];
                v.extend(char::from_u32(c).unwrap_or('\u{e000}').encode_utf8(&mut b).bytes());
            }
        }
    }
    match rng.below(6) {
        0 => {
            v.pop();
        }
        1 if !v.is_empty() => {
            let i = rng.below(v.len());
            v[i] ^= 1 << rng.below(8);
        }
        2 if !v.is_empty() => {
            v.remove(rng.below(v.len()));
        }
        _ => {}
    }
    v
}

fn ascii(rep: &Report) {
    let sets: [(&str, Format, fn(u8) -> bool); 7] = [
        ("ascii_char", ascii_char(), |_| true),
        ("ascii_alpha", ascii_alpha(), |b| b.is_ascii_alphabetic()),
        ("ascii_octal_digit", ascii_octal_digit(), |b| (b'0'..=b'7').contains(&b)),
        ("ascii_decimal_digit", ascii_decimal_digit(), |b| b.is_ascii_digit()),
        ("ascii_hex_lower", ascii_hex_lower(), |b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)),
        ("ascii_hex_upper", ascii_hex_upper(), |b| b.is_ascii_digit() || (b'A'..=b'F').contains(&b)),
        ("ascii_hex_any", ascii_hex_any(), |b| b.is_ascii_hexdigit()),
    ];
    let m = FormatModule::new();
    let comp = |f: &Format| match eng::compile(&m, f) {
        Comp::Ok(p) => p,
        _ => panic!("an ASCII format does not compile"),
    };
    let mut rng = Rng::derive(rep.seed, 0xa5c11);
    for (name, f, ok) in sets {
        let one = comp(&f);
        let many = comp(&tuple([string_of(f.clone()), Format::EndOfInput]));
        let fixed = comp(&fixed_len_string(f.clone(), 3));
        for b in 0..=255u8 {
            rep.eval(1);
            rep.sig(&(name, b));
            let want = ok(b).then_some((Rv::U8(b), 1));
            let got = if let Out::Ok(v, n) = eng::run(&one, &[b]) { Some((v, n)) } else { None };
            if got != want {
                rep.violation(&format!("{name} {b}"), format!("{name} on byte {b}: got {got:?}, expected {want:?}"), json!({"byte": b}));
            }
        }
        for _ in 0..2000 {
            let s: Vec<u8> = (0..rng.below(6)).map(|_| if rng.below(8) > 0 { (0..=255).filter(|b| ok(*b)).nth(rng.below((0..=255).filter(|b| ok(*b)).count())).unwrap() } else { rng.byte() }).collect();
            rep.eval(2);
            let bytes = |s: &[u8]| seq(s.iter().map(|b| Rv::U8(*b)).collect());
            let want = s.iter().all(|b| ok(*b)).then(|| tup(vec![bytes(&s), tup(vec![])]));
            let got = if let Out::Ok(v, _) = eng::run(&many, &s) { Some(v) } else { None };
            if got != want {
                rep.violation(&format!("string of {name}"), format!("string of {name} on {s:?}: got {got:?}, expected {want:?}"), json!({"input": s}));
            }
            let want = (s.len() >= 3 && s[..3].iter().all(|b| ok(*b))).then(|| bytes(&s[..3]));
            let got = if let Out::Ok(v, 3) = eng::run(&fixed, &s) { Some(v) } else { None };
            if got != want {
                rep.violation(&format!("three of {name}"), format!("three of {name} on {s:?}: got {got:?}, expected {want:?}"), json!({"input": s}));
            }
        }
    }
    let z = comp(&asciiz_string());
    for _ in 0..20_000 {
        let mut s = rng.bytes(6);
        if rng.below(3) > 0 && !s.is_empty() {
            let i = rng.below(s.len());
            s[i] = 0;
        }
        let want = s.iter().position(|b| *b == 0).map(|n| (seq(s[..n].iter().map(|b| Rv::U8(*b)).collect()), n + 1));
        let got = if let Out::Ok(v, n) = eng::run(&z, &s) { Some((v, n)) } else { None };
        rep.eval(1);
        rep.sig(&("asciiz", s.iter().position(|b| *b == 0), got.is_some()));
        if got != want {
            rep.violation("asciiz", format!("NUL-terminated string on {s:?}: got {got:?}, expected {want:?}"), json!({"input": s}));
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    ascii(rep);
    // every string of up to three bytes (the third from the boundary bytes when quick)
    par(256, |a| {
        let a = a as u8;
        if a == 0 {
            interp(rep, &[]);
            rep.eval(1);
        }
        interp(rep, &[a]);
        let thirds: Vec<u8> = if rep.scale(0, 1) == 1 { (0..=255).collect() } else { EDGE.to_vec() };
        for b in 0..=255 {
            interp(rep, &[a, b]);
            rep.eval(1);
            rep.sig(&(a, b));
            for c in &thirds {
                interp(rep, &[a, b, *c]);
                rep.eval(1);
            }
        }
    });
    // four bytes, each a boundary byte (leads: those that start three or four bytes, and some others)
    par(EDGE.len() * EDGE.len(), |k| {
        let (a, b) = (EDGE[k / EDGE.len()], EDGE[k % EDGE.len()]);
        if a < 0xc0 && a > 0x01 {
            return;
        }
        for c in EDGE {
            for d in EDGE {
                interp(rep, &[a, b, c, d]);
                rep.eval(1);
            }
        }
        rep.sig(&(a, b, 4));
    });
    // every character
    let step = rep.scale(7, 1);
    par(0x1100, |hi| {
        for lo in (hi % step..0x100).step_by(step) {
            if let Some(c) = char::from_u32((hi * 0x100 + lo) as u32) {
                let mut b = [0; 4];
                interp(rep, c.encode_utf8(&mut b).as_bytes());
                rep.eval(1);
            }
        }
        rep.sig(&(hi, "block"));
    });
    par(rep.scale(200, 4000), |j| {
        let mut rng = Rng::derive(rep.seed, 0xc13 + j as u64);
        for _ in 0..500 {
            let s = sample(&mut rng);
            interp(rep, &s);
            rep.eval(1);
        }
    });
    // the generated parsers
    let mut m = FormatModule::new();
    let fs = formats(&mut m);
    let mut units = vec![];
    for (i, f) in fs.into_iter().enumerate().take(3) {
        // (an entry of its own per format)
        let mut m = FormatModule::new();
        let f2 = formats(&mut m).swap_remove(i);
        let r = m.define_format("verif.entry", f2);
        let _ = f;
        match cgen::emit(&m, &r.call()) {
            Ok((src, entry)) => units.push(Unit { id: i, src, entry }),
            Err(e) => rep.violation("generate", format!("no parser can be generated for {}: {e}", NAMES[i]), json!({})),
        }
    }
    let built = match cgen::build("C13", &units, 1, 1) {
        Ok(b) => b,
        Err(e) => panic!("{e}"),
    };
    for (u, e) in &built.broken {
        rep.violation("generate", format!("the parser generated for {} does not compile: {e}", NAMES[*u]), json!({}));
    }
    let Some((bin, have)) = built.bins.first() else { return "" };
    par(8, |t| {
        let mut d = Driver::start(bin);
        let mut rng = Rng::derive(rep.seed, 0xc1313 + t as u64);
        let mut check = |inp: &[u8]| {
            for &i in have {
                let want = oracle(i, inp);
                let r = d.run(i, inp);
                rep.eval(1);
                rep.count("generated: runs", 1);
                let ok = match (&r, &want) {
                    (Ran::Ok(s, n), Some((c, end))) => n == end && DP::parse(s).is_ok_and(|g| {
                        let mut parts = vec![seq(c.iter().map(|c| Rv::Char(*c)).collect())];
                        parts.push(if i == 2 { Rv::U8(0) } else { tup(vec![]) });
                        if i == 2 {
                            parts.push(tup(vec![]));
                        }
                        cgen::same(&tup(parts), &g)
                    }),
                    (Ran::Err(_), None) => true,
                    _ => false,
                };
                if !ok {
                    rep.violation(&format!("generated {} {:x}", NAMES[i], hash_of(inp)), format!("generated parser, {}: {inp:02x?} gives {r:?}, should be {want:?} (None: refused)", NAMES[i]), json!({"input": inp}));
                }
                rep.sig(&(i, r.tag(), inp.len(), "generated"));
            }
        };
        for a in (t..256).step_by(8) {
            check(&[a as u8]);
            for b in EDGE {
                check(&[a as u8, b]);
                if a >= 0xe0 {
                    for c in EDGE {
                        check(&[a as u8, b, c]);
                        if (0xf0..=0xf5).contains(&a) {
                            for e in [0, 0x7f, 0x80, 0xbf, 0xc0, 0xff] {
                                check(&[a as u8, b, c, e]);
                            }
                        }
                    }
                }
            }
        }
        for _ in 0..rep.scale(5_000, 100_000) {
            check(&sample(&mut rng));
        }
    });
    "one evaluation = one byte string given to the text formats (or one ASCII format) and compared with the standard library's UTF-8 decoder; distinct = leading byte pairs, code point blocks, and per format outcome and length in the generated parser"
}
