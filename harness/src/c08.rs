//! C08: DEFLATE data inside gzip and zlib decompresses to the true content. Streams are encoded here from random
//! tokens (so that forms ordinary compressors never choose are seen as well), and by the system's zlib
//! (tools/pre-C08.sh); the content is known in both cases.
use crate::cgen::{self, Driver, Ran, Unit};
use crate::c04::differs;
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, hash_of, par};
use crate::rng::Rng;
use crate::rv::Rv;
use serde_json::json;
use std::cell::RefCell;

// ---------------------------------------------------------------- encoder
#[derive(Default)]
pub struct Bits {
    pub out: Vec<u8>,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, n: u32) {
        for i in 0..n {
            if self.n % 8 == 0 {
                self.out.push(0)
            }
            *self.out.last_mut().unwrap() |= ((v >> i & 1) as u8) << (self.n % 8);
            self.n += 1;
        }
    }
    fn code(&mut self, c: (u32, u32)) {
        for i in (0..c.1).rev() {
            self.put(c.0 >> i & 1, 1)
        }
    }
    fn align(&mut self) {
        self.n = self.n.div_ceil(8) * 8;
    }
}
#[derive(Clone, Copy, Debug)]
pub enum Tok {
    Lit(u8),
    /// length, distance, whether 258 is written as 227+31
    Ref(usize, usize, bool),
}
const LB: [(usize, u32); 29] = [(3, 0), (4, 0), (5, 0), (6, 0), (7, 0), (8, 0), (9, 0), (10, 0), (11, 1), (13, 1), (15, 1), (17, 1), (19, 2), (23, 2), (27, 2), (31, 2), (35, 3), (43, 3), (51, 3), (59, 3), (67, 4), (83, 4), (99, 4), (115, 4), (131, 5), (163, 5), (195, 5), (227, 5), (258, 0)];
fn len_code(l: usize, alt: bool) -> (usize, u32, u32) {
    if l == 258 && !alt {
        return (285, 0, 0);
    }
    let i = (0..28).rev().find(|&i| LB[i].0 <= l).unwrap();
    (257 + i, (l - LB[i].0) as u32, LB[i].1)
}
fn dist_code(d: usize) -> (usize, u32, u32) {
    let (mut base, mut c) = (1usize, 0usize);
    loop {
        let e = if c < 2 { 0 } else { (c / 2 - 1) as u32 };
        if d < base + (1 << e) {
            return (c, (d - base) as u32, e);
        }
        base += 1 << e;
        c += 1;
    }
}
fn codes(lens: &[u32]) -> Vec<(u32, u32)> {
    let mut next = [0u32; 17];
    let mut code = 0;
    for b in 1..=15 {
        code = (code + lens.iter().filter(|&&l| l == b as u32 - 1 && l > 0).count() as u32) << 1;
        next[b] = code;
    }
    lens.iter()
        .map(|&l| {
            if l == 0 {
                return (0, 0);
            }
            let c = next[l as usize];
            next[l as usize] += 1;
            (c, l)
        })
        .collect()
}
/// a complete prefix code over the given symbols, lengths up to `max`
fn lengths(syms: &[usize], size: usize, max: u32, skew: usize, r: &mut Rng) -> Vec<u32> {
    let mut v = vec![0; size];
    if syms.len() == 1 {
        v[syms[0]] = 1;
        return v;
    }
    let mut leaves = vec![1u32, 1];
    while leaves.len() < syms.len() {
        // splitting the newest leaf makes long codes, splitting the shallowest keeps room
        let i = if r.below(4) < skew && leaves.last().is_some_and(|&l| l < max) { leaves.len() - 1 } else { (0..leaves.len()).min_by_key(|&i| leaves[i]).unwrap() };
        leaves[i] += 1;
        let l = leaves[i];
        assert!(l <= max);
        leaves.push(l);
    }
    for i in (1..leaves.len()).rev() {
        leaves.swap(i, r.below(i + 1));
    }
    for (s, l) in syms.iter().zip(leaves) {
        v[*s] = l
    }
    v
}
fn body(b: &mut Bits, toks: &[Tok], lit: &[(u32, u32)], dist: &[(u32, u32)]) {
    for t in toks {
        match *t {
            Tok::Lit(x) => b.code(lit[x as usize]),
            Tok::Ref(l, d, alt) => {
                let (c, e, n) = len_code(l, alt);
                b.code(lit[c]);
                b.put(e, n);
                let (c, e, n) = dist_code(d);
                b.code(dist[c]);
                b.put(e, n);
            }
        }
    }
    b.code(lit[256]);
}
fn dynamic(b: &mut Bits, toks: &[Tok], r: &mut Rng) {
    let mut used = vec![false; 286];
    let mut ud = vec![false; 30];
    used[256] = true;
    for t in toks {
        match *t {
            Tok::Lit(x) => used[x as usize] = true,
            Tok::Ref(l, d, alt) => {
                used[len_code(l, alt).0] = true;
                ud[dist_code(d).0] = true;
            }
        }
    }
    // symbols that have a code and are not used
    for _ in 0..*r.pick(&[0, 1, 5, 40]) {
        used[r.below(286)] = true;
    }
    for _ in 0..*r.pick(&[0, 0, 1, 5]) {
        ud[r.below(30)] = true;
    }
    if used.iter().filter(|&&u| u).count() < 2 {
        used[r.below(256)] = true
    }
    let syms = |u: &[bool]| (0..u.len()).filter(|&i| u[i]).collect::<Vec<_>>();
    let skew = r.below(4);
    let ll = lengths(&syms(&used), 286, 15, skew, r);
    let ds = syms(&ud);
    let dl = if ds.is_empty() { vec![0; 30] } else { lengths(&ds, 30, 15, skew, r) };
    let last = |v: &[u32]| v.iter().rposition(|&l| l > 0).map_or(0, |i| i + 1);
    let mut hlit = last(&ll).max(257);
    let mut hdist = last(&dl).max(1);
    if r.chance(1, 4) {
        hlit = r.range(hlit, 286);
        hdist = r.range(hdist, 30);
    }
    let all: Vec<u32> = ll[..hlit].iter().chain(&dl[..hdist]).copied().collect();
    // run-length coding of the lengths, runs across the two tables included
    let rle = r.below(4);
    let mut cl: Vec<(usize, u32, u32)> = vec![];
    let mut i = 0;
    while i < all.len() {
        let run = all[i..].iter().take_while(|&&x| x == all[i]).count();
        let again = i > 0 && all[i - 1] == all[i];
        if all[i] == 0 && run >= 11 && rle > 0 {
            let n = r.range(11, run.min(138));
            cl.push((18, n as u32 - 11, 7));
            i += n;
        } else if all[i] == 0 && run >= 3 && rle > 1 {
            let n = r.range(3, run.min(10));
            cl.push((17, n as u32 - 3, 3));
            i += n;
        } else if again && run >= 3 && rle > 0 {
            let n = r.range(3, run.min(6));
            cl.push((16, n as u32 - 3, 2));
            i += n;
        } else {
            cl.push((all[i] as usize, 0, 0));
            i += 1;
        }
    }
    let mut uc = vec![false; 19];
    for c in &cl {
        uc[c.0] = true
    }
    if r.chance(1, 4) {
        uc[r.below(19)] = true;
    }
    if uc.iter().filter(|&&u| u).count() < 2 {
        uc[0] = true;
        uc[1] = true;
    }
    let cll = lengths(&syms(&uc), 19, 7, skew, r);
    const ORDER: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
    let mut hclen = ORDER.iter().rposition(|&i| cll[i] > 0).unwrap() + 1;
    hclen = hclen.max(4);
    if r.chance(1, 4) {
        hclen = 19;
    }
    b.put(hlit as u32 - 257, 5);
    b.put(hdist as u32 - 1, 5);
    b.put(hclen as u32 - 4, 4);
    for &i in &ORDER[..hclen] {
        b.put(cll[i], 3)
    }
    let cc = codes(&cll);
    for (s, e, n) in cl {
        b.code(cc[s]);
        b.put(e, n);
    }
    body(b, toks, &codes(&ll), &codes(&dl));
}
fn fixed(b: &mut Bits, toks: &[Tok]) {
    let mut ll = vec![8u32; 288];
    ll[144..256].fill(9);
    ll[256..280].fill(7);
    body(b, toks, &codes(&ll), &codes(&vec![5; 30]));
}
/// a random stream of at most about `size` bytes of content, with a description
pub fn stream(r: &mut Rng, size: usize) -> (Vec<u8>, Vec<u8>, String) {
    let mut b = Bits::default();
    let mut text: Vec<u8> = vec![];
    let mut desc = String::new();
    let blocks = *r.pick(&[1, 1, 2, 3, 5]);
    for k in 0..blocks {
        b.put((k + 1 == blocks) as u32, 1);
        let want = text.len() + if r.chance(1, 8) { 0 } else { r.below(size / blocks + 2) };
        match r.below(6) {
            0 => {
                desc += "stored ";
                b.put(0, 2);
                if r.chance(1, 2) {
                    // the bits up to the byte boundary are ignored
                    while b.n % 8 != 0 {
                        b.put(r.below(2) as u32, 1)
                    }
                }
                b.align();
                let n = want - text.len();
                let d = r.bytes(n);
                b.put(n as u32, 16);
                b.put(!(n as u32) & 0xffff, 16);
                for x in &d {
                    b.put(*x as u32, 8)
                }
                text.extend(d);
            }
            kind => {
                let mut toks = vec![];
                let alpha = *r.pick(&[1usize, 4, 26, 256]);
                let refs = *r.pick(&[0usize, 10, 50, 90]);
                while text.len() < want {
                    if !text.is_empty() && r.below(100) < refs {
                        let l = match r.below(6) {
                            0 => 258,
                            1 => r.range(3, 258),
                            2 => *r.pick(&[3, 10, 11, 12, 18, 19, 66, 67, 114, 115, 130, 131, 226, 227, 257]),
                            _ => r.range(3, 20),
                        };
                        let far = text.len().min(32768);
                        let d = match r.below(5) {
                            0 => 1,
                            1 => far,
                            2 => r.range(1, far),
                            3 => (*r.pick(&[4usize, 5, 8, 9, 192, 193, 256, 257, 24576, 24577])).min(far),
                            _ => r.range(1, far.min(300)),
                        };
                        toks.push(Tok::Ref(l, d, r.chance(1, 3)));
                        for _ in 0..l {
                            text.push(text[text.len() - d])
                        }
                    } else {
                        let x = r.below(alpha) as u8;
                        toks.push(Tok::Lit(x));
                        text.push(x)
                    }
                }
                if kind < 3 {
                    desc += "fixed ";
                    b.put(1, 2);
                    fixed(&mut b, &toks)
                } else {
                    desc += "dynamic ";
                    b.put(2, 2);
                    dynamic(&mut b, &toks, r)
                }
            }
        }
    }
    (b.out, text, desc)
}

// ---------------------------------------------------------------- containers, with the fields they should show
fn rec(fs: Vec<(&str, Rv)>) -> Rv {
    Rv::Rec(std::sync::Arc::new(fs.into_iter().map(|(k, v)| (k.to_string(), v)).collect()))
}
fn opt(x: Option<Rv>) -> Rv {
    Rv::Opt(x.map(std::sync::Arc::new))
}
pub fn bytes(d: &[u8]) -> Rv {
    Rv::seq(d.iter().map(|b| Rv::U8(*b)).collect())
}
fn word(r: &mut Rng) -> Vec<u8> {
    (0..r.below(12)).map(|_| r.range(0x20, 0x7e) as u8).collect()
}
fn text(d: &[u8]) -> Rv {
    Rv::seq(d.iter().map(|b| Rv::Char(*b as char)).collect())
}
fn member(deflated: &[u8], content: &[u8], r: &mut Rng, out: &mut Vec<u8>) -> Vec<(&'static str, Rv)> {
    let fl = r.below(32) as u8;
    let bit = |n: u8| Rv::Bool(fl >> n & 1 == 1);
    let (method, cf, os) = (8u8, r.byte(), r.byte());
    let time = r.next() as u32;
    out.extend([0x1f, 0x8b, method, fl]);
    out.extend(time.to_le_bytes());
    out.extend([cf, os]);
    let header = rec(vec![
        ("magic", bytes(&[0x1f, 0x8b])),
        ("method", Rv::U8(method)),
        ("file-flags", rec(vec![("fcomment", bit(4)), ("fname", bit(3)), ("fextra", bit(2)), ("fhcrc", bit(1)), ("ftext", bit(0))])),
        ("timestamp", Rv::U32(time)),
        ("compression-flags", Rv::U8(cf)),
        ("os-id", Rv::U8(os)),
    ]);
    let fextra = (fl & 4 != 0).then(|| {
        let mut d = vec![];
        let mut subs = vec![];
        for _ in 0..r.below(3) {
            let (a, b) = (r.range(0x41, 0x5a) as u8, r.range(0x61, 0x7a) as u8);
            let n = r.below(9);
            let x = r.bytes(n);
            d.extend([a, b]);
            d.extend((x.len() as u16).to_le_bytes());
            d.extend(&x);
            subs.push(rec(vec![("si1", Rv::Char(a as char)), ("si2", Rv::Char(b as char)), ("len", Rv::U16(x.len() as u16)), ("data", bytes(&x))]));
        }
        out.extend((d.len() as u16).to_le_bytes());
        out.extend(&d);
        rec(vec![("xlen", Rv::U16(d.len() as u16)), ("subfields", Rv::seq(subs))])
    });
    let mut z = |on: bool, r: &mut Rng| {
        on.then(|| {
            let w = word(r);
            out.extend(&w);
            out.push(0);
            text(&w)
        })
    };
    let fname = z(fl & 8 != 0, r);
    let fcomment = z(fl & 16 != 0, r).map(|c| rec(vec![("comment", c)]));
    let fhcrc = (fl & 2 != 0).then(|| {
        let c = r.next() as u16;
        out.extend(c.to_le_bytes());
        rec(vec![("crc", Rv::U16(c))])
    });
    out.extend(deflated);
    let crc = r.next() as u32;
    out.extend(crc.to_le_bytes());
    out.extend((content.len() as u32).to_le_bytes());
    vec![
        ("header", header),
        ("fextra", opt(fextra)),
        ("fname", opt(fname)),
        ("fcomment", opt(fcomment)),
        ("fhcrc", opt(fhcrc)),
        ("data", bytes(content)),
        ("footer", rec(vec![("crc", Rv::U32(crc)), ("length", Rv::U32(content.len() as u32))])),
    ]
}
fn zlib(deflated: &[u8], content: &[u8], r: &mut Rng, out: &mut Vec<u8>) -> Vec<(&'static str, Rv)> {
    let info = r.below(8) as u8;
    let dict = r.chance(1, 4);
    let level = r.below(4) as u8;
    let head = info << 4 | 8;
    let fl = level << 6 | (dict as u8) << 5;
    let check = (31 - (head as u32 * 256 + fl as u32) % 31) % 31;
    out.extend([head, fl | check as u8]);
    let id = dict.then(|| {
        let d = r.next() as u32;
        out.extend(d.to_be_bytes());
        Rv::U32(d)
    });
    out.extend(deflated);
    let adler = r.next() as u32;
    out.extend(adler.to_be_bytes());
    vec![
        ("compression-method-flags", rec(vec![("compression-info", Rv::U8(info)), ("compression-method", Rv::U8(8))])),
        ("flags", rec(vec![("flevel", Rv::U8(level)), ("fdict", Rv::Bool(dict)), ("fcheck", Rv::U8(check as u8))])),
        ("dict-id", opt(id)),
        ("data", bytes(content)),
        ("adler32", Rv::U32(adler)),
    ]
}

/// does the decoded record show what the member holds
fn shows(v: &Rv, want: &[(&str, Rv)]) -> Result<(), String> {
    let Rv::Rec(fs) = v else { return Err("not a record".into()) };
    for (k, w) in want {
        let Some((_, g)) = fs.iter().find(|f| f.0 == *k) else { return Err(format!("no field {k}")) };
        let g = if *k == "data" {
            let Rv::Rec(d) = g else { return Err("data is not a record".into()) };
            &d.iter().find(|f| f.0 == "inflate").ok_or("no field inflate")?.1
        } else {
            g
        };
        if !alike(g, w) {
            return Err(format!("{k} is {}, should be {}", g.show().chars().take(300).collect::<String>(), w.show().chars().take(300).collect::<String>()));
        }
    }
    Ok(())
}
/// equal content, text or bytes
fn alike(a: &Rv, b: &Rv) -> bool {
    match (a, b) {
        (Rv::Seq(x), Rv::Seq(y)) | (Rv::Tuple(x), Rv::Seq(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(a, b)| alike(a, b)),
        (Rv::Rec(x), Rv::Rec(y)) => y.iter().all(|(k, v)| x.iter().any(|(l, w)| l == k && alike(w, v))),
        (Rv::Opt(Some(x)), Rv::Opt(Some(y))) => alike(x, y),
        (Rv::Char(c), Rv::U8(d)) | (Rv::U8(d), Rv::Char(c)) => *c as u32 == *d as u32,
        (Rv::Bool(b), Rv::U8(n)) | (Rv::U8(n), Rv::Bool(b)) => *b as u8 == *n,
        _ => a == b,
    }
}

const GZIP: usize = 0;
const ZLIB: usize = 1;
fn module(which: usize) -> (doodle::FormatModule, doodle::Format) {
    let mut m = doodle::FormatModule::new();
    let d = doodle_formats::format::deflate::main(&mut m);
    let f = if which == GZIP { doodle_formats::format::gzip::main(&mut m, d) } else { doodle_formats::format::zlib::main(&mut m, d) };
    let e = m.define_format("verif.entry", f.call());
    let c = e.call();
    (m, c)
}

thread_local! {
    static PROGS: RefCell<Vec<doodle::decoder::Program>> = const { RefCell::new(vec![]) };
    static DR: RefCell<Option<Driver>> = const { RefCell::new(None) };
}

struct Case {
    which: usize,
    inp: Vec<u8>,
    /// fields of each member, and the offsets at which a member ends
    want: Vec<Vec<(&'static str, Rv)>>,
    ends: Vec<usize>,
    desc: String,
}
fn run_case(rep: &Report, bin: &str, c: &Case, r: &mut Rng) {
    let name = ["gzip", "zlib"][c.which];
    let both = |inp: &[u8]| {
        let got = PROGS.with_borrow_mut(|p| {
            if p.is_empty() {
                for w in [GZIP, ZLIB] {
                    let (m, f) = module(w);
                    match eng::compile(&m, &f) {
                        Comp::Ok(q) => p.push(q),
                        _ => panic!("no program"),
                    }
                }
            }
            rep.watched(|| format!("{name} {}", c.desc), || eng::run(&p[c.which], inp))
        });
        let ran = DR.with_borrow_mut(|d| {
            let d = d.get_or_insert_with(|| Driver::start(bin));
            rep.watched(|| format!("generated {name} {}", c.desc), || d.run(c.which, inp))
        });
        (got, ran)
    };
    let bad = |key: &str, what: String, inp: &[u8]| {
        let file = rep.save(&format!("{name}-{:x}", hash_of(inp)), inp);
        rep.violation(key, format!("{name} ({}), saved as {file}: {what}", c.desc), json!({"input_file": file}));
    };
    // more bytes than the stream takes do no harm to it
    let (got, ran) = both(&c.inp);
    rep.eval(2);
    rep.count(&format!("{name} {}", got.tag()), 1);
    for w in c.desc.split_whitespace().filter(|w| !w.contains('.')) {
        rep.count(&format!("blocks {w}"), 1);
    }
    rep.sig(&(c.which, &c.desc, c.inp.len()));
    match &got {
        Out::Ok(v, end) => {
            let members: Vec<&Rv> = match v {
                Rv::Seq(ms) if c.which == GZIP => ms.iter().collect(),
                v => vec![v],
            };
            let r = if members.len() != c.want.len() {
                Err(format!("{} members, should be {}", members.len(), c.want.len()))
            } else if *end != c.inp.len() {
                Err(format!("ends at {end} of {}", c.inp.len()))
            } else {
                members.iter().zip(&c.want).try_for_each(|(m, w)| shows(m, w))
            };
            if let Err(e) = r {
                bad("content", e, &c.inp);
            }
        }
        g => bad("refused", format!("a valid stream is not decoded: {}", g.show().chars().take(300).collect::<String>()), &c.inp),
    }
    if let Some(e) = differs(&got, &ran) {
        bad("generated", e, &c.inp);
    }
    if let Ran::Died(_) = ran {
        DR.with_borrow_mut(|d| *d = None);
    }
    // cut short
    for _ in 0..3 {
        let n = match r.below(3) {
            0 => r.below(c.inp.len()),
            1 => c.inp.len() - 1 - r.below(c.inp.len().min(12)),
            _ => r.below(c.inp.len().min(40)),
        };
        if c.ends.contains(&n) {
            continue;
        }
        let cut = &c.inp[..n];
        let (got, ran) = both(cut);
        rep.eval(2);
        rep.count(&format!("cut {}", got.tag()), 1);
        match got {
            Out::Reject => {}
            _ => bad("cut", format!("cut after {n} of {} bytes is not refused: {}", c.inp.len(), got.show().chars().take(300).collect::<String>()), cut),
        }
        match ran {
            Ran::Err(_) => {}
            r => bad("cut generated", format!("generated parser on the stream cut after {n} of {} bytes: {}", c.inp.len(), format!("{r:?}").chars().take(300).collect::<String>()), cut),
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(400);
    let mut units = vec![];
    for w in [GZIP, ZLIB] {
        let (m, f) = module(w);
        match cgen::emit(&m, &f) {
            Ok((src, entry)) => units.push(Unit { id: w, src, entry }),
            Err(e) => rep.violation("generate", format!("no code is generated: {e}"), json!({})),
        }
    }
    let b = match cgen::build("C08", &units, 1, 1) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2)
        }
    };
    for (i, e) in &b.broken {
        rep.violation(&format!("build {i}"), format!("generated source does not compile: {e}"), json!({}));
    }
    let Some((bin, _)) = b.bins.first() else { return "nothing could be run" };
    let n = rep.scale(2400, 40_000);
    let dir = format!("{}/build/c08", crate::ROOT);
    let mut made: Vec<String> = std::fs::read_dir(&dir).map(|d| d.flatten().map(|e| e.path().to_string_lossy().into_owned()).filter(|p| p.ends_with(".deflate")).collect()).unwrap_or_default();
    made.sort();
    rep.count("streams made by zlib", made.len() as u64);
    let dump = std::env::var("C08_DUMP").ok();
    par(n + made.len(), |i| {
        let mut r = Rng::derive(rep.seed, 0xc08 + i as u64);
        let mut inp = vec![];
        let (mut want, mut ends, mut desc) = (vec![], vec![], String::new());
        let which = r.below(2);
        let members = if which == GZIP && i < n { *r.pick(&[1, 1, 1, 2, 3]) } else { 1 };
        for _ in 0..members {
            let size = match r.below(100) {
                0..60 => 200,
                60..96 => 2500,
                96..99 => 12_000,
                _ => 45_000,
            };
            let (d, t, s) = if i < n {
                stream(&mut r, size)
            } else {
                let p = &made[i - n];
                (std::fs::read(p).unwrap(), std::fs::read(p.replace(".deflate", ".raw")).unwrap(), "zlib ".to_string() + p.rsplit('/').next().unwrap())
            };
            if let Some(dir) = &dump {
                std::fs::write(format!("{dir}/{i}-{}.deflate", ends.len()), &d).unwrap();
                std::fs::write(format!("{dir}/{i}-{}.raw", ends.len()), &t).unwrap();
            }
            want.push(if which == GZIP { member(&d, &t, &mut r, &mut inp) } else { zlib(&d, &t, &mut r, &mut inp) });
            desc += &s;
            ends.push(inp.len());
        }
        run_case(rep, bin, &Case { which, inp, want, ends, desc }, &mut r);
    });
    "one evaluation = one stream (or a stream cut short) through the interpreter or the generated parser; distinct = (container, block kinds, size)"
}
