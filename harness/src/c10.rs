//! C10: byte sets against a [bool; 256] model, over random operation histories.
use crate::ev::{Report, guarded, par};
use crate::rng::Rng;
use doodle::byte_set::ByteSet;
use serde_json::json;

type M = [bool; 256];

fn model(f: impl Fn(u8) -> bool) -> M {
    let mut m = [false; 256];
    for b in 0..=255u8 {
        m[b as usize] = f(b);
    }
    m
}
fn set_of(m: &M) -> Vec<u8> {
    (0..=255u8).filter(|b| m[*b as usize]).collect()
}

/// Parses the text form of a byte set back to the set it denotes.
fn denote(s: &str) -> Result<M, String> {
    let named = |n: &str| -> Option<M> {
        Some(match n {
            "U8" => model(|_| true),
            "ASCII" => model(|b| b < 128),
            "ASCII.Strict" => model(|b| (b' '..=b'~').contains(&b) || b"\t\n\r".contains(&b)),
            "ASCII.Decimal" => model(|b| b.is_ascii_digit()),
            "ASCII.Hex" => model(|b| b.is_ascii_hexdigit()),
            "ASCII.HexLower" => model(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)),
            "ASCII.HexUpper" => model(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(&b)),
            "ASCII.Octal" => model(|b| (b'0'..=b'7').contains(&b)),
            "∅" => model(|_| false),
            _ => return None,
        })
    };
    let num = |t: &str| t.trim().parse::<u8>().map_err(|_| format!("bad number {t:?}"));
    let list = |t: &str| -> Result<M, String> {
        let mut m = [false; 256];
        if t.trim().is_empty() {
            return Ok(m);
        }
        for x in t.split(',') {
            m[num(x)? as usize] = true;
        }
        Ok(m)
    };
    let mut acc = [false; 256];
    for part in s.split(" ∪ ") {
        let p = part.trim();
        let m = if let Some(m) = named(p) {
            m
        } else if let Some(r) = p.strip_prefix('⟦').and_then(|r| r.strip_suffix('⟧')) {
            let (a, b) = r.split_once(',').ok_or("bad range")?;
            let (a, b) = (num(a)?, num(b)?);
            model(|x| a <= x && x <= b)
        } else if let Some(r) = p.strip_prefix("[= ").and_then(|r| r.strip_suffix(']')) {
            let a = num(r)?;
            model(|x| x == a)
        } else if let Some(r) = p.strip_prefix("[!= ").and_then(|r| r.strip_suffix(']')) {
            let a = num(r)?;
            model(|x| x != a)
        } else if let Some(r) = p.strip_prefix("∁({").and_then(|r| r.strip_suffix("})")) {
            let m = list(r)?;
            model(|x| !m[x as usize])
        } else if let Some(r) = p.strip_prefix("!{").and_then(|r| r.strip_suffix('}')) {
            let m = list(r)?;
            model(|x| !m[x as usize])
        } else if let Some(r) = p.strip_prefix('{').and_then(|r| r.strip_suffix('}')) {
            list(r)?
        } else {
            return Err(format!("unknown form {p:?}"));
        };
        for i in 0..256 {
            acc[i] |= m[i];
        }
    }
    Ok(acc)
}

fn eq(bs: &ByteSet, m: &M) -> bool {
    (0..=255u8).all(|b| bs.contains(b) == m[b as usize])
}

struct Ck<'a> {
    rep: &'a Report,
    bad: Vec<(String, String)>,
}
impl Ck<'_> {
    fn t(&mut self, name: &str, ok: bool, detail: impl FnOnce() -> String) {
        self.rep.count(name, 1);
        if !ok {
            self.bad.push((name.to_string(), detail()));
        }
    }
}

fn observe(ck: &mut Ck, bs: &ByteSet, m: &M) {
    let want = set_of(m);
    ck.t("contains", eq(bs, m), || format!("membership of {bs:?} vs {want:?}"));
    ck.t("len", bs.len() as usize == want.len(), || format!("len {} vs {}", bs.len(), want.len()));
    ck.t("is_empty", bs.is_empty() == want.is_empty(), || "is_empty".into());
    ck.t("is_full", bs.is_full() == (want.len() == 256), || "is_full".into());
    ck.t("min_elem", bs.min_elem() == want.first().copied(), || format!("min_elem {:?} vs {:?} of {want:?}", bs.min_elem(), want.first()));
    ck.t("max_elem", bs.max_elem() == want.last().copied(), || format!("max_elem {:?} vs {:?} of {want:?}", bs.max_elem(), want.last()));
    let it: Vec<u8> = bs.iter().collect();
    ck.t("iter", it == want, || format!("iter {it:?} vs {want:?}"));
    let bits = bs.to_bits();
    ck.t("to_bits", (0..256).all(|i| ((bits[i / 64] >> (i % 64)) & 1 == 1) == m[i]), || format!("to_bits {bits:?} vs {want:?}"));
    ck.t("from_bits", ByteSet::from_bits(bits) == *bs, || "from_bits(to_bits)".into());
    ck.t("collect", want.iter().copied().collect::<ByteSet>() == *bs, || "FromIterator / ==".into());
    ck.t("from_slice", ByteSet::from(&want[..]) == *bs, || "From<&[u8]> / ==".into());
    let span = if want.is_empty() { 0 } else { (*want.last().unwrap() as u32) - (want[0] as u32) + 1 };
    match guarded(|| (bs.bounds(), bs.span(), bs.is_contiguous())) {
        Ok((b, s, c)) => {
            ck.t("bounds", b == want.first().map(|f| (*f, *want.last().unwrap())), || format!("bounds {b:?} of {want:?}"));
            ck.t("span", s == span, || format!("span {s} vs {span}"));
            ck.t("is_contiguous", c == (span as usize == want.len()), || format!("is_contiguous {c} of {want:?}"));
        }
        Err(e) => ck.t("bounds", false, || format!("panic: {e} on {want:?}")),
    }
    for (name, f) in [("display", (|b: &ByteSet| format!("{b}")) as fn(&ByteSet) -> String), ("debug", |b| format!("{b:?}")), ("best_string", |b| b.to_best_string().to_string())] {
        match guarded(|| f(bs)) {
            Ok(s) => {
                let d = denote(&s);
                ck.t(name, d.as_ref().ok() == Some(m), || format!("{name} {s:?} of {want:?}: {:?}", d.err()));
            }
            Err(e) => ck.t(name, false, || format!("{name} panicked: {e} on {want:?}")),
        }
    }
    let j = serde_json::to_value(bs).unwrap();
    let l: Option<Vec<u8>> = serde_json::from_value(j["data"].clone()).ok();
    let mm = l.map(|l| match j["tag"].as_str() {
        Some("includes") => model(|b| l.contains(&b)),
        _ => model(|b| !l.contains(&b)),
    });
    ck.t("json", mm.as_ref() == Some(m), || format!("json {j} of {want:?}"));
}

fn rand_range(r: &mut Rng) -> (u8, u8) {
    let edge = [0u8, 1, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255];
    let mut p = |r: &mut Rng| if r.chance(1, 2) { *r.pick(&edge) } else { r.byte() };
    (p(r), p(r))
}

fn case(rep: &Report, ix: usize) {
    let mut r = Rng::derive(rep.seed, ix as u64);
    let mut ck = Ck { rep, bad: vec![] };
    let mut bs = ByteSet::new();
    let mut m: M = [false; 256];
    let mut log: Vec<String> = vec![];
    for _ in 0..r.range(1, 14) {
        match r.below(13) {
            0 => {
                let b = r.byte();
                bs.insert(b);
                m[b as usize] = true;
                log.push(format!("insert {b}"));
            }
            1 => {
                let b = r.byte();
                bs.remove(b);
                m[b as usize] = false;
                log.push(format!("remove {b}"));
            }
            2 => {
                let (a, b) = rand_range(&mut r);
                bs = ByteSet::from(a..=b);
                m = model(|x| a <= x && x <= b);
                log.push(format!("from {a}..={b}"));
            }
            3 => {
                let (a, b) = rand_range(&mut r);
                bs = ByteSet::from(a..b);
                m = model(|x| a <= x && x < b);
                log.push(format!("from {a}..{b}"));
            }
            4 => {
                bs = if r.chance(1, 2) { !bs } else { bs.complement() };
                m = model(|x| !m[x as usize]);
                log.push("complement".into());
            }
            5 => {
                let b = r.byte();
                bs = ByteSet::singleton(b);
                m = model(|x| x == b);
                log.push(format!("singleton {b}"));
            }
            6 => {
                let v = [r.byte(), r.byte(), r.byte(), r.byte()];
                bs = ByteSet::from(v);
                m = model(|x| v.contains(&x));
                log.push(format!("from {v:?}"));
            }
            7 => {
                let full = r.chance(1, 2);
                bs = if full { ByteSet::full() } else { ByteSet::empty() };
                m = [full; 256];
                log.push(format!("full {full}"));
            }
            8 => {
                let mut w = [0u64; 4];
                for x in w.iter_mut() {
                    *x = match r.below(4) {
                        0 => 0,
                        1 => u64::MAX,
                        2 => 1 << r.below(64),
                        _ => r.next() & r.next(),
                    };
                }
                bs = ByteSet::from_bits(w);
                m = model(|x| (w[x as usize / 64] >> (x % 64)) & 1 == 1);
                log.push(format!("from_bits {w:?}"));
            }
            k => {
                // binary operation with a second random set
                let mut o = ByteSet::new();
                let mut om: M = [false; 256];
                for _ in 0..r.range(1, 3) {
                    let (a, b) = rand_range(&mut r);
                    for x in a..=b {
                        o.insert(x);
                        om[x as usize] = true;
                    }
                }
                if r.chance(1, 3) {
                    o = !o;
                    om = model(|x| !om[x as usize]);
                }
                let dis = (0..256).all(|i| !(m[i] && om[i]));
                ck.t("is_disjoint", bs.is_disjoint(&o) == dis, || format!("is_disjoint {bs:?} {o:?}"));
                ck.t("eq", (bs == o) == (m == om), || format!("== {bs:?} {o:?}"));
                let (a, b) = rand_range(&mut r);
                if a <= b {
                    let want = (a..=b).all(|x| m[x as usize]);
                    ck.t("contains_range", bs.contains_range(a..=b) == want, || format!("contains_range {a}..={b} of {bs:?}"));
                }
                let q = r.byte();
                let mut lo = q as i32;
                let mut hi = q as i32;
                while lo > 0 && m[lo as usize - 1] {
                    lo -= 1
                }
                while hi < 255 && m[hi as usize + 1] {
                    hi += 1
                }
                let want = m[q as usize].then_some((lo as u8, hi as u8));
                ck.t("enclosing_range", bs.find_enclosing_range(q) == want, || format!("find_enclosing_range {q} of {bs:?}"));
                match k % 3 {
                    0 => {
                        bs = bs.union(&o);
                        m = model(|x| m[x as usize] || om[x as usize]);
                        log.push(format!("union {o:?}"));
                    }
                    1 => {
                        bs = bs.intersection(&o);
                        m = model(|x| m[x as usize] && om[x as usize]);
                        log.push(format!("intersection {o:?}"));
                    }
                    _ => {
                        bs = bs.difference(&o);
                        m = model(|x| m[x as usize] && !om[x as usize]);
                        log.push(format!("difference {o:?}"));
                    }
                }
            }
        }
        observe(&mut ck, &bs, &m);
        rep.eval(1);
        let n = set_of(&m).len();
        if n > 0 && n < 256 {
            rep.sig(&m);
        }
        if !ck.bad.is_empty() {
            break;
        }
    }
    if ix < 3 {
        rep.sample(json!({"history": log, "set": set_of(&m).len()}));
    }
    for (name, d) in ck.bad.into_iter().take(1) {
        rep.violation(&name, d.clone(), json!({"case": ix, "history": log, "detail": d}));
    }
}

pub fn run(rep: &Report) -> &'static str {
    let n = rep.scale(12_000, 400_000);
    par(n, |i| {
        if rep.nviol() < 5 {
            case(rep, i)
        }
    });
    // all inclusive and half-open ranges, exhaustively, and all singletons
    par(256, |a| {
        for b in 0..=255u8 {
            let a = a as u8;
            let mut ck = Ck { rep, bad: vec![] };
            let inc = ByteSet::from(a..=b);
            ck.t("range_inclusive", eq(&inc, &model(|x| a <= x && x <= b)), || format!("{a}..={b} -> {inc:?}"));
            let ex = ByteSet::from(a..b);
            ck.t("range", eq(&ex, &model(|x| a <= x && x < b)), || format!("{a}..{b} -> {ex:?}"));
            let s = ByteSet::from([a, b]);
            observe(&mut ck, &s, &model(|x| x == a || x == b));
            observe(&mut ck, &inc, &model(|x| a <= x && x <= b));
            rep.eval(3);
            for (name, d) in ck.bad.into_iter().take(1) {
                rep.violation(&name, d.clone(), json!({"range": [a, b], "detail": d}));
            }
        }
    });
    "case: a random history of constructions and set operations applied to a ByteSet and to a [bool;256] model, every observer (membership, len, min, max, iteration, bits, display/debug/JSON parsed back to a set) compared after every step; plus all 65536 byte pairs as inclusive range, half-open range and two-element set. distinct_nontrivial counts distinct reached sets that are neither empty nor full"
}
