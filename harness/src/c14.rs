//! C14: files built field by field from the public specifications are decoded by the shipped formats, and every
//! field is compared with what was written; files with broken structure have to be refused. Fonts are read by a small
//! independent reader instead.
use crate::corpus;
use crate::eng::{self, Comp};
use crate::ev::{Report, hash_of, hex, par};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::{Format, FormatModule};
use doodle_formats::format as df;
use serde_json::json;

#[derive(Clone, Debug)]
enum W {
    Int(i128),
    Bytes(Vec<u8>),
    Text(String),
    Len(usize),
    Bool(bool),
    None,
}
/// a file under construction with the facts an independent reader would report
#[derive(Clone, Default)]
struct F {
    b: Vec<u8>,
    facts: Vec<(String, W)>,
    /// files that have to be refused, with the reason
    broken: Vec<(String, Vec<u8>)>,
    /// a proper prefix of at most this many bytes is refused
    whole: usize,
    /// the decode ends at the end of the file
    ends: bool,
}
impl F {
    fn int(&mut self, p: impl Into<String>, n: impl Into<i128>) {
        self.facts.push((p.into(), W::Int(n.into())));
    }
    fn bytes(&mut self, p: impl Into<String>, n: &[u8]) {
        self.facts.push((p.into(), W::Bytes(n.to_vec())));
    }
    fn fact(&mut self, p: impl Into<String>, w: W) {
        self.facts.push((p.into(), w));
    }
    fn u8(&mut self, p: impl Into<String>, n: u8) {
        self.int(p, n);
        self.b.push(n);
    }
    fn be(&mut self, p: impl Into<String>, w: usize, n: u64) {
        self.int(p, n as i128);
        self.b.extend(&n.to_be_bytes()[8 - w..]);
    }
    fn le(&mut self, p: impl Into<String>, w: usize, n: u64) {
        self.int(p, n as i128);
        self.b.extend(&n.to_le_bytes()[..w]);
    }
    fn raw(&mut self, x: &[u8]) {
        self.b.extend(x);
    }
    fn put(&mut self, p: impl Into<String>, x: &[u8]) {
        self.bytes(p, x);
        self.raw(x);
    }
    fn broke(&mut self, why: &str, x: Vec<u8>) {
        self.broken.push((why.into(), x));
    }
}
fn at<'a>(v: &'a Rv, path: &str) -> Result<&'a Rv, String> {
    let mut v = v;
    for seg in path.split('/') {
        v = match v {
            Rv::Rec(fs) => &fs.iter().find(|f| f.0 == seg).ok_or(format!("no field {seg}"))?.1,
            Rv::Var(l, x) if &**l == seg => x,
            Rv::Var(l, _) => return Err(format!("{l} instead of {seg}")),
            Rv::Opt(Some(x)) if seg == "some" => x,
            Rv::Seq(vs) | Rv::Tuple(vs) => {
                let i: usize = seg.parse().map_err(|_| format!("{seg} of a sequence"))?;
                vs.get(i).ok_or(format!("only {} parts", vs.len()))?
            }
            o => return Err(format!("{seg} of {}", o.show())),
        }
    }
    Ok(v)
}
fn int(v: &Rv) -> Option<i128> {
    match v {
        Rv::Num(n, _) => n.to_string().parse().ok(),
        Rv::Char(c) => Some(*c as i128),
        o => o.num().map(|n| n as i128),
    }
}
fn holds(v: &Rv, w: &W) -> bool {
    match (w, v) {
        (W::Int(n), v) => int(v) == Some(*n),
        (W::Bytes(b), Rv::Seq(vs) | Rv::Tuple(vs)) => vs.len() == b.len() && vs.iter().zip(b).all(|(v, b)| int(v) == Some(*b as i128)),
        (W::Text(t), Rv::Seq(vs)) => vs.len() == t.chars().count() && vs.iter().zip(t.chars()).all(|(v, c)| int(v) == Some(c as i128)),
        (W::Len(n), Rv::Seq(vs) | Rv::Tuple(vs)) => vs.len() == *n,
        (W::Bool(b), Rv::Bool(v)) => b == v,
        (W::None, Rv::Opt(None)) => true,
        _ => false,
    }
}

// ---------------------------------------------------------------- helpers for the builders
fn word(r: &mut Rng) -> Vec<u8> {
    (0..r.range(1, 20)).map(|_| *r.pick(b"abcdefghijklmnopqrstuvwxyzABCZ0189_.")).collect()
}
fn small(r: &mut Rng, max: usize) -> Vec<u8> {
    let n = r.below(max + 1);
    r.bytes(n)
}
fn n(r: &mut Rng, w: usize) -> u64 {
    let all = if w == 8 { u64::MAX } else { (1u64 << (8 * w)) - 1 };
    match r.below(6) {
        0 => 0,
        1 => all,
        2 => r.below(4) as u64,
        3 => 1 << r.below(8 * w),
        _ => r.next() & all,
    }
}
fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
fn zlib(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut o = vec![0x78, 0x01];
    let mut parts: Vec<&[u8]> = vec![];
    let mut rest = d;
    while rest.len() > 1 && r.chance(1, 3) {
        let k = r.range(1, rest.len());
        parts.push(&rest[..k]);
        rest = &rest[k..];
    }
    parts.push(rest);
    let last = parts.len() - 1;
    for (i, p) in parts.iter().enumerate() {
        o.push((i == last) as u8);
        o.extend((p.len() as u16).to_le_bytes());
        o.extend((!(p.len() as u16)).to_le_bytes());
        o.extend(*p);
    }
    o.extend(adler(d).to_be_bytes());
    o
}
fn text(r: &mut Rng, max: usize) -> String {
    (0..r.below(max + 1)).map(|_| *r.pick(&['a', 'Z', '9', ' ', 'é', 'ß', '→', '漢', '😀', '~'])).collect()
}

// ---------------------------------------------------------------- PNG (ISO/IEC 15948)
fn png_chunk(f: &mut F, p: &str, r: &mut Rng, tag: &[u8], mut body: F, known: bool) {
    let crc = n(r, 4);
    f.be(format!("{p}/length"), 4, body.b.len() as u64);
    f.put(format!("{p}/tag"), tag);
    f.raw(&body.b);
    for (q, w) in body.facts.drain(..) {
        let label = if known { std::str::from_utf8(tag).unwrap() } else { "unknown" };
        f.facts.push((if q.is_empty() { format!("{p}/data/{label}") } else { format!("{p}/data/{label}/{q}") }, w));
    }
    f.be(format!("{p}/crc"), 4, crc);
}
fn png_misc(r: &mut Rng, color: u8) -> (Vec<u8>, F, bool) {
    let mut c = F::default();
    let keyword = |c: &mut F, p: &str, r: &mut Rng| {
        let k = word(r);
        c.put(p, &k);
        c.raw(&[0]);
    };
    let tag: &[u8] = match r.below(16) {
        0 => {
            let k = r.range(1, 40);
            for i in 0..k {
                for l in ["r", "g", "b"] {
                    c.u8(format!("{i}/{l}"), r.byte());
                }
            }
            c.fact("", W::Len(k));
            b"PLTE"
        }
        1 if matches!(color, 0 | 2 | 3) => {
            match color {
                0 => c.be("color-type-0/greyscale", 2, n(r, 2)),
                2 => ["red", "green", "blue"].iter().for_each(|l| c.be(format!("color-type-2/{l}"), 2, n(r, 2))),
                _ => {
                    let k = r.below(30);
                    (0..k).for_each(|i| c.u8(format!("color-type-3/{i}/palette-index"), r.byte()));
                    c.fact("color-type-3", W::Len(k));
                }
            }
            b"tRNS"
        }
        2 => {
            for l in ["whitepoint-x", "whitepoint-y", "red-x", "red-y", "green-x", "green-y", "blue-x", "blue-y"] {
                c.be(l, 4, n(r, 4));
            }
            b"cHRM"
        }
        3 => {
            c.be("gamma", 4, n(r, 4));
            b"gAMA"
        }
        4 => {
            keyword(&mut c, "profile-name", r);
            c.u8("compression-method", 0);
            let d = small(r, 60);
            let z = zlib(r, &d);
            c.raw(&z);
            c.bytes("compressed-profile/data/inflate", &d);
            b"iCCP"
        }
        5 => {
            let ls: &[&str] = match color {
                0 => &["greyscale"],
                2 | 3 => &["red", "green", "blue"],
                4 => &["greyscale", "alpha"],
                _ => &["red", "green", "blue", "alpha"],
            };
            ls.iter().for_each(|l| c.u8(format!("color-type-{color}/sig-{l}-bits"), r.byte()));
            b"sBIT"
        }
        6 => {
            c.u8("rendering-intent", r.below(4) as u8);
            b"sRGB"
        }
        7 => {
            keyword(&mut c, "keyword", r);
            let packed = r.chance(1, 2);
            c.u8("compression-flag", packed as u8);
            c.u8("compression-method", 0);
            let w = word(r);
            c.put("language-tag", &w);
            c.raw(&[0]);
            let t = text(r, 8);
            c.fact("translated-keyword", W::Text(t.clone()));
            c.raw(t.as_bytes());
            c.raw(&[0]);
            let t = text(r, 20);
            if packed {
                let z = zlib(r, t.as_bytes());
                c.raw(&z);
                c.fact("text/compressed/valid", W::Text(t));
            } else {
                c.raw(t.as_bytes());
                c.fact("text/uncompressed", W::Text(t));
            }
            b"iTXt"
        }
        8 => {
            keyword(&mut c, "keyword", r);
            let w = word(r);
            c.put("text", &w);
            b"tEXt"
        }
        9 => {
            keyword(&mut c, "keyword", r);
            c.u8("compression-method", 0);
            let t = text(r, 20);
            let z = zlib(r, t.as_bytes());
            c.raw(&z);
            c.fact("compressed-text", W::Text(t));
            b"zTXt"
        }
        10 => {
            match color {
                0 | 4 => c.be(format!("color-type-{color}/greyscale"), 2, n(r, 2)),
                3 => c.u8("color-type-3/palette-index", r.byte()),
                _ => ["red", "green", "blue"].iter().for_each(|l| c.be(format!("color-type-{color}/{l}"), 2, n(r, 2))),
            }
            b"bKGD"
        }
        11 => {
            let k = r.below(20);
            (0..k).for_each(|i| c.be(format!("histogram/{i}"), 2, n(r, 2)));
            c.fact("histogram", W::Len(k));
            b"hIST"
        }
        12 => {
            c.be("pixels-per-unit-x", 4, n(r, 4));
            c.be("pixels-per-unit-y", 4, n(r, 4));
            c.u8("unit-specifier", r.below(2) as u8);
            b"pHYs"
        }
        13 => {
            keyword(&mut c, "palette-name", r);
            let deep = r.chance(1, 2);
            c.u8("sample-depth", if deep { 16 } else { 8 });
            let k = r.below(8);
            for i in 0..k {
                for l in ["red", "green", "blue", "alpha"] {
                    if deep {
                        c.be(format!("palette/sample-depth-u16/{i}/{l}"), 2, n(r, 2));
                    } else {
                        c.u8(format!("palette/sample-depth-u8/{i}/{l}"), r.byte());
                    }
                }
                c.be(format!("palette/sample-depth-u{}/{i}/frequency", if deep { 16 } else { 8 }), 2, n(r, 2));
            }
            b"sPLT"
        }
        14 => {
            c.be("year", 2, n(r, 2));
            for (l, m) in [("month", 12), ("day", 31), ("hour", 24), ("minute", 60), ("second", 61)] {
                c.u8(l, r.below(m) as u8);
            }
            b"tIME"
        }
        _ => {
            let d = small(r, 50);
            c.put("", &d);
            return (r.pick(&[&b"abCd"[..], b"prIv", b"eXIf", b"acTL", b"vpAg", b"oFFs"]).to_vec(), c, false);
        }
    };
    (tag.to_vec(), c, true)
}
fn png(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let sig = b"\x89PNG\r\n\x1a\n";
    f.put("signature", sig);
    let color = *r.pick(&[0u8, 2, 3, 4, 6]);
    let mut h = F::default();
    h.be("ihdr/data/width", 4, n(r, 4));
    h.be("ihdr/data/height", 4, n(r, 4));
    h.u8("ihdr/data/bit-depth", *r.pick(&[1u8, 2, 4, 8, 16]));
    h.u8("ihdr/data/color-type", color);
    h.u8("ihdr/data/compression-method", 0);
    h.u8("ihdr/data/filter-method", 0);
    h.u8("ihdr/data/interlace-method", r.below(2) as u8);
    f.be("ihdr/length", 4, 13);
    f.put("ihdr/tag", b"IHDR");
    f.raw(&h.b);
    f.facts.extend(h.facts);
    f.be("ihdr/crc", 4, n(r, 4));
    let after_ihdr = f.b.len();
    let mut starts = vec![8];
    let k = r.below(5);
    for i in 0..k {
        let (t, c, known) = png_misc(r, color);
        starts.push(f.b.len());
        png_chunk(&mut f, &format!("chunks/{i}"), r, &t, c, known);
    }
    f.fact("chunks", W::Len(k));
    let before_idat = f.b.len();
    let d = small(r, 300);
    let z = zlib(r, &d);
    f.bytes("idat/data/inflate", &d);
    let mut rest = &z[..];
    while !rest.is_empty() {
        let k = if r.chance(1, 2) { rest.len() } else { r.range(0, rest.len()) };
        starts.push(f.b.len());
        f.raw(&(k as u32).to_be_bytes());
        f.raw(b"IDAT");
        f.raw(&rest[..k]);
        f.raw(&r.bytes(4));
        rest = &rest[k..];
    }
    let after_idat = f.b.len();
    let k = r.below(3);
    for i in 0..k {
        let (t, c, known) = png_misc(r, color);
        starts.push(f.b.len());
        png_chunk(&mut f, &format!("more-chunks/{i}"), r, &t, c, known);
    }
    f.fact("more-chunks", W::Len(k));
    let before_iend = f.b.len();
    f.be("iend/length", 4, 0);
    f.put("iend/tag", b"IEND");
    f.be("iend/crc", 4, n(r, 4));
    f.whole = f.b.len();
    let g = f.b.clone();
    f.broke("no image header", [&g[..8], &g[after_ihdr..]].concat());
    f.broke("no image data", [&g[..before_idat], &g[after_idat..]].concat());
    f.broke("no end chunk", g[..before_iend].to_vec());
    for why in ["chunk length past the end", "chunk length above the limit"] {
        let s = *r.pick(&starts);
        let mut x = g.clone();
        x[s..s + 4].copy_from_slice(&if why.ends_with("end") { (g.len() as u32 + r.below(99999) as u32).to_be_bytes() } else { (1u32 << 31 | r.below(20) as u32).to_be_bytes() });
        f.broke(why, x);
    }
    let mut x = g.clone();
    x[8 + 3] = r.below(13) as u8;
    f.broke("image header too short", x);
    let i = r.below(8);
    let mut x = g.clone();
    x[i] ^= 1 << r.below(8);
    f.broke("signature", x);
    f
}

// ---------------------------------------------------------------- GIF89a
fn gif_blocks(f: &mut F, p: &str, r: &mut Rng) {
    let k = r.below(4);
    for i in 0..k {
        let len = *r.pick(&[1usize, 2, 5, 254, 255]);
        f.u8(format!("{p}/{i}/len-bytes"), len as u8);
        let d = r.bytes(len);
        f.put(format!("{p}/{i}/data"), &d);
    }
    f.fact(p, W::Len(k));
    f.raw(&[0]);
}
fn gif_table(f: &mut F, p: &str, r: &mut Rng, flag: bool, size: u8) {
    if !flag {
        return f.fact(p, W::None);
    }
    let k = 2usize << size;
    f.fact(format!("{p}/some"), W::Len(k));
    for i in 0..k {
        let c = r.bytes(3);
        if i < 3 || i + 2 > k {
            f.int(format!("{p}/some/{i}/r"), c[0]);
            f.int(format!("{p}/some/{i}/g"), c[1]);
            f.int(format!("{p}/some/{i}/b"), c[2]);
        }
        f.raw(&c);
    }
}
fn gif(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    f.put("header/signature", b"GIF");
    f.put("header/version", if r.chance(1, 2) { b"89a" } else { b"87a" });
    let l = "logical-screen/descriptor";
    f.le(format!("{l}/screen-width"), 2, n(r, 2));
    f.le(format!("{l}/screen-height"), 2, n(r, 2));
    let (t, cr, s, sz) = (r.chance(1, 2), r.below(8) as u8, r.chance(1, 2), *r.pick(&[0u8, 1, 2, 7, 4]));
    f.raw(&[(t as u8) << 7 | cr << 4 | (s as u8) << 3 | sz]);
    f.fact(format!("{l}/flags/table-flag"), W::Bool(t));
    f.int(format!("{l}/flags/color-resolution"), cr);
    f.fact(format!("{l}/flags/sort-flag"), W::Bool(s));
    f.int(format!("{l}/flags/table-size"), sz);
    f.u8(format!("{l}/bg-color-index"), r.byte());
    f.u8(format!("{l}/pixel-aspect-ratio"), r.byte());
    gif_table(&mut f, "logical-screen/global-color-table", r, t, sz);
    let k = r.below(5);
    f.fact("blocks", W::Len(k));
    let first = f.b.len();
    for i in 0..k {
        match r.below(4) {
            0 => {
                let p = format!("blocks/{i}/special-purpose-block/comment-extension");
                f.raw(&[0x21, 0xFE]);
                gif_blocks(&mut f, &format!("{p}/comment-data"), r);
            }
            1 => {
                let p = format!("blocks/{i}/special-purpose-block/application-extension");
                f.raw(&[0x21, 0xFF, 11]);
                f.put(format!("{p}/identifier"), b"NETSCAPE");
                f.put(format!("{p}/authentication-code"), b"2.0");
                gif_blocks(&mut f, &format!("{p}/application-data"), r);
            }
            which => {
                let p = format!("blocks/{i}/graphic-block");
                if r.chance(1, 2) {
                    let g = format!("{p}/graphic-control-extension/some");
                    f.raw(&[0x21, 0xF9, 4]);
                    let (d, u, t) = (r.below(8) as u8, r.chance(1, 2), r.chance(1, 2));
                    f.raw(&[(r.below(8) as u8) << 5 | d << 2 | (u as u8) << 1 | t as u8]);
                    f.int(format!("{g}/flags/disposal-method"), d);
                    f.fact(format!("{g}/flags/user-input-flag"), W::Bool(u));
                    f.fact(format!("{g}/flags/transparent-color-flag"), W::Bool(t));
                    f.le(format!("{g}/delay-time"), 2, n(r, 2));
                    f.u8(format!("{g}/transparent-color-index"), r.byte());
                    f.raw(&[0]);
                } else {
                    f.fact(format!("{p}/graphic-control-extension"), W::None);
                }
                if which == 2 {
                    let q = format!("{p}/graphic-rendering-block/plain-text-extension");
                    f.raw(&[0x21, 0x01, 12]);
                    for l in ["left-position", "top-position", "width", "height"] {
                        f.le(format!("{q}/text-grid-{l}"), 2, n(r, 2));
                    }
                    for l in ["character-cell-width", "character-cell-height", "text-foreground-color-index", "text-background-color-index"] {
                        f.u8(format!("{q}/{l}"), r.byte());
                    }
                    gif_blocks(&mut f, &format!("{q}/plain-text-data"), r);
                } else {
                    let q = format!("{p}/graphic-rendering-block/table-based-image");
                    f.u8(format!("{q}/descriptor/separator"), 0x2c);
                    for l in ["image-left-position", "image-top-position", "image-width", "image-height"] {
                        f.le(format!("{q}/descriptor/{l}"), 2, n(r, 2));
                    }
                    let (t, il, s, sz) = (r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), r.below(4) as u8);
                    f.raw(&[(t as u8) << 7 | (il as u8) << 6 | (s as u8) << 5 | (r.below(4) as u8) << 3 | sz]);
                    f.fact(format!("{q}/descriptor/flags/table-flag"), W::Bool(t));
                    f.fact(format!("{q}/descriptor/flags/interlace-flag"), W::Bool(il));
                    f.fact(format!("{q}/descriptor/flags/sort-flag"), W::Bool(s));
                    f.int(format!("{q}/descriptor/flags/table-size"), sz);
                    gif_table(&mut f, &format!("{q}/local-color-table"), r, t, sz);
                    f.u8(format!("{q}/data/lzw-min-code-size"), r.byte());
                    gif_blocks(&mut f, &format!("{q}/data/image-data"), r);
                }
            }
        }
    }
    let g = f.b.clone();
    f.u8("trailer/separator", 0x3b);
    f.whole = f.b.len();
    let i = r.below(3);
    let mut x = f.b.clone();
    x[i] ^= 1 << r.below(8);
    f.broke("signature", x);
    f.broke("no trailer", g);
    let mut x = f.b.clone();
    x.insert(first, *r.pick(&[0x00u8, 0x22, 0x2d, 0x3c, 0xff]));
    f.broke("block introducer", x);
    f
}

// ---------------------------------------------------------------- TIFF 6.0
fn tiff_into(f: &mut F, p: &str, r: &mut Rng) {
    let be = r.chance(1, 2);
    let start = f.b.len();
    f.put(format!("{p}byte-order/{}", if be { "be" } else { "le" }), if be { b"MM" } else { b"II" });
    let num = |f: &mut F, p: String, w: usize, n: u64| if be { f.be(p, w, n) } else { f.le(p, w, n) };
    num(f, format!("{p}magic"), 2, 42);
    let gap = if r.chance(1, 2) { 0 } else { r.below(20) };
    num(f, format!("{p}offset"), 4, 8 + gap as u64);
    let g = r.bytes(gap);
    f.raw(&g);
    debug_assert_eq!(f.b.len(), start + 8 + gap);
    let k = r.below(6);
    num(f, format!("{p}ifd/num-fields"), 2, k as u64);
    f.fact(format!("{p}ifd/fields"), W::Len(k));
    for i in 0..k {
        for (l, w) in [("tag", 2), ("type", 2), ("length", 4), ("offset-or-data", 4)] {
            let v = n(r, w);
            num(f, format!("{p}ifd/fields/{i}/{l}"), w, v);
        }
    }
    let v = n(r, 4);
    num(f, format!("{p}ifd/next-ifd-offset"), 4, v);
}
fn tiff(r: &mut Rng) -> F {
    let mut f = F::default();
    tiff_into(&mut f, "", r);
    f.whole = f.b.len();
    let tail = small(r, 20);
    f.put("ifd/next-ifd", &tail);
    let i = r.below(2);
    let mut x = f.b.clone();
    x[i] ^= 1 << r.below(8);
    f.broke("byte order mark", x);
    let mut x = f.b.clone();
    let past = f.b.len() as u32 + r.below(1000) as u32;
    let p4 = if x[0] == b'M' { past.to_be_bytes() } else { past.to_le_bytes() };
    x[4..8].copy_from_slice(&p4);
    f.broke("directory offset past the end", x);
    let mut x = f.b.clone();
    x[2] ^= if x[0] == b'M' { 0x80 } else { 0x01 };
    f.broke("tiff magic number", x);
    f
}

// ---------------------------------------------------------------- JPEG (ITU T.81, JFIF)
fn segment(f: &mut F, p: &str, id: u8, body: F) -> usize {
    f.raw(&[0xFF]);
    f.u8(format!("{p}/marker/marker"), id);
    let at = f.b.len();
    f.be(format!("{p}/length"), 2, body.b.len() as u64 + 2);
    f.raw(&body.b);
    for (q, w) in body.facts {
        f.facts.push((if q.is_empty() { format!("{p}/data") } else { format!("{p}/data/{q}") }, w));
    }
    at
}
fn pair(c: &mut F, p: &str, (a, x): (&str, u8), (b, y): (&str, u8)) {
    c.int(format!("{p}/{a}"), x);
    c.int(format!("{p}/{b}"), y);
    c.raw(&[x << 4 | y]);
}
fn app(r: &mut Rng, which: u8) -> F {
    let mut c = F::default();
    match (which, r.below(3)) {
        (0, 0 | 1) => {
            c.put("identifier", b"JFIF");
            c.raw(&[0]);
            c.u8("data/jfif/version-major", 1);
            c.u8("data/jfif/version-minor", r.byte());
            c.u8("data/jfif/density-units", r.below(3) as u8);
            c.be("data/jfif/density-x", 2, n(r, 2).max(1));
            c.be("data/jfif/density-y", 2, n(r, 2).max(1));
            let (w, h) = (r.below(4), r.below(4));
            c.u8("data/jfif/thumbnail-width", w as u8);
            c.u8("data/jfif/thumbnail-height", h as u8);
            for y in 0..h {
                for x in 0..w {
                    for l in ["r", "g", "b"] {
                        c.u8(format!("data/jfif/thumbnail-pixels/{y}/{x}/{l}"), r.byte());
                    }
                }
            }
            c.fact("data/jfif/thumbnail-pixels", W::Len(h));
        }
        (1, 0) => {
            c.put("identifier", b"Exif");
            c.raw(&[0, 0]);
            tiff_into(&mut c, "data/exif/exif/", r);
        }
        (1, 1) => {
            c.put("identifier", b"http://ns.adobe.com/xap/1.0/");
            c.raw(&[0]);
            let d = small(r, 40);
            c.put("data/xmp/xmp", &d);
        }
        _ => {
            let w = word(r);
            c.put("identifier", &[&b"x"[..], &w].concat());
            c.raw(&[0]);
            let d = small(r, 40);
            c.put("data/other", &d);
        }
    }
    c
}
fn jpeg_misc(f: &mut F, p: &str, r: &mut Rng, spots: &mut Vec<usize>) {
    let mut c = F::default();
    let (label, id) = match r.below(8) {
        0 => {
            let k = r.range(1, 3);
            for i in 0..k {
                let deep = r.chance(1, 3);
                pair(&mut c, &format!("{i}/precision-table-id"), ("precision", deep as u8), ("table-id", r.below(4) as u8));
                if deep {
                    (0..64).for_each(|j| c.be(format!("{i}/elements/Shorts/{j}"), 2, n(r, 2)));
                } else {
                    let d = r.bytes(64);
                    c.put(format!("{i}/elements/Bytes"), &d);
                }
            }
            c.fact("", W::Len(k));
            ("dqt".to_string(), 0xDB)
        }
        1 => {
            pair(&mut c, "class-table-id", ("class", r.below(2) as u8), ("table-id", r.below(4) as u8));
            let counts: Vec<u8> = (0..16).map(|_| r.below(5) as u8).collect();
            c.put("num-codes", &counts);
            for (i, k) in counts.iter().enumerate() {
                let d = r.bytes(*k as usize);
                c.put(format!("values/{i}"), &d);
            }
            ("dht".into(), 0xC4)
        }
        2 => {
            pair(&mut c, "class-table-id", ("class", r.below(2) as u8), ("table-id", r.below(4) as u8));
            c.u8("value", r.byte());
            ("dac".into(), 0xCC)
        }
        3 => {
            c.be("restart-interval", 2, n(r, 2));
            ("dri".into(), 0xDD)
        }
        4 => {
            let w = r.below(2) as u8;
            c = app(r, w);
            (format!("app{w}"), 0xE0 + w)
        }
        5 => {
            let d = small(r, 60);
            c.put("", &d);
            ("com".into(), 0xFE)
        }
        _ => {
            let d = small(r, 60);
            c.put("", &d);
            let w = r.range(2, 15) as u8;
            (format!("app{w}"), 0xE0 + w)
        }
    };
    spots.push(segment(f, &format!("{p}/{label}"), id, c));
}
fn jpeg_scan(f: &mut F, p: &str, r: &mut Rng, spots: &mut Vec<usize>) {
    let k = r.below(3);
    f.fact(format!("{p}/segments"), W::Len(k));
    (0..k).for_each(|i| jpeg_misc(f, &format!("{p}/segments/{i}"), r, spots));
    let mut c = F::default();
    let k = r.range(1, 4);
    c.u8("num-image-components", k as u8);
    c.fact("image-components", W::Len(k));
    for i in 0..k {
        c.u8(format!("image-components/{i}/component-selector"), r.byte());
        let q = format!("image-components/{i}/entropy-coding-table-ids");
        pair(&mut c, &q, ("dc-entropy-coding-table-id", r.below(4) as u8), ("ac-entropy-coding-table-id", r.below(4) as u8));
    }
    c.u8("start-spectral-selection", r.below(64) as u8);
    c.u8("end-spectral-selection", r.below(64) as u8);
    pair(&mut c, "approximation-bit-position", ("high", r.below(16) as u8), ("low", r.below(16) as u8));
    spots.push(segment(f, &format!("{p}/sos"), 0xDA, c));
    let mut out = vec![];
    let mut items = 0;
    for _ in 0..r.below(60) {
        items += 1;
        match r.below(12) {
            0 => f.raw(&[0xFF, 0xD0 + r.below(8) as u8]),
            1 => {
                f.raw(&[0xFF, 0]);
                out.push(0xFF);
            }
            _ => {
                let b = r.below(255) as u8;
                f.raw(&[b]);
                out.push(b);
            }
        }
    }
    f.fact(format!("{p}/data/scan-data"), W::Len(items));
    f.bytes(format!("{p}/data/scan-data-stream"), &out);
}
fn jpeg(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    f.raw(&[0xFF]);
    f.u8("soi/marker", 0xD8);
    let mut spots = vec![];
    let w = r.below(2) as u8;
    let a = app(r, w);
    spots.push(segment(&mut f, &format!("frame/initial-segment/app{w}"), 0xE0 + w, a));
    let k = r.below(5);
    f.fact("frame/segments", W::Len(k));
    (0..k).for_each(|i| jpeg_misc(&mut f, &format!("frame/segments/{i}"), r, &mut spots));
    let sof = *r.pick(&[0u8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 13, 14, 15]);
    let mut c = F::default();
    c.u8("sample-precision", r.range(2, 16) as u8);
    c.be("num-lines", 2, n(r, 2));
    c.be("num-samples-per-line", 2, n(r, 2).max(1));
    let k = r.range(1, 5);
    c.u8("num-image-components", k as u8);
    c.fact("image-components", W::Len(k));
    for i in 0..k {
        c.u8(format!("image-components/{i}/id"), r.byte());
        pair(&mut c, &format!("image-components/{i}/sampling-factor"), ("horizontal", r.below(16) as u8), ("vertical", r.below(16) as u8));
        c.u8(format!("image-components/{i}/quantization-table-id"), r.below(4) as u8);
    }
    let before_sof = f.b.len();
    spots.push(segment(&mut f, &format!("frame/header/sof{sof}"), 0xC0 + sof, c));
    let after_sof = f.b.len();
    jpeg_scan(&mut f, "frame/scan", r, &mut spots);
    let after_scan = f.b.len();
    if r.chance(1, 2) {
        let mut c = F::default();
        c.be("num-lines", 2, n(r, 2).max(1));
        spots.push(segment(&mut f, "frame/dnl/some", 0xDC, c));
    } else {
        f.fact("frame/dnl", W::None);
    }
    let k = r.below(3);
    f.fact("frame/scans", W::Len(k));
    (0..k).for_each(|i| jpeg_scan(&mut f, &format!("frame/scans/{i}"), r, &mut spots));
    let before_eoi = f.b.len();
    f.raw(&[0xFF]);
    f.u8("eoi/marker", 0xD9);
    f.whole = f.b.len();
    let g = f.b.clone();
    f.broke("no frame header", [&g[..before_sof], &g[after_sof..]].concat());
    if k == 0 {
        f.broke("no scan", [&g[..after_sof], &g[after_scan..]].concat());
    }
    f.broke("no end of image", g[..before_eoi].to_vec());
    let mut x = g.clone();
    let s = *r.pick(&spots);
    x[s..s + 2].copy_from_slice(&0xFFFFu16.to_be_bytes());
    f.broke("segment length past the end", x);
    let mut x = g.clone();
    x[r.below(2)] ^= 1 << r.below(8);
    f.broke("start of image", x);
    f
}

// ---------------------------------------------------------------- POSIX ustar
fn tar(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let k = r.range(1, 4);
    f.fact("contents", W::Len(k));
    let mut heads = vec![];
    let octal = |f: &mut F, p: String, w: usize, r: &mut Rng| {
        let d: Vec<u8> = (0..if r.chance(2, 3) { w - 1 } else { r.below(w) }).map(|_| b'0' + r.below(8) as u8).collect();
        f.put(p, &d);
        f.raw(&[*r.pick(&[0u8, b' '])]);
        f.raw(&vec![0; w - 1 - d.len()]);
    };
    let string = |f: &mut F, p: String, w: usize, lo: usize, hi: usize, r: &mut Rng| {
        let k = if r.chance(1, 4) { hi } else { r.range(lo, hi.min(20)) };
        let d: Vec<u8> = (0..k).map(|_| *r.pick(b"abcdefgh/._-XYZ019 ")).collect();
        f.put(p, &d);
        f.raw(&vec![0; w - k]);
    };
    for i in 0..k {
        let h = format!("contents/{i}/header");
        heads.push(f.b.len());
        let size = *r.pick(&[0usize, 1, 5, 511, 512, 513, 600, 1024]);
        string(&mut f, format!("{h}/name/string"), 100, 1, 100, r);
        for l in ["mode", "uid", "gid"] {
            octal(&mut f, format!("{h}/{l}/string"), 8, r);
        }
        f.int(format!("{h}/size"), size as i128);
        f.raw(format!("{size:011o}").as_bytes());
        f.raw(&[*r.pick(&[0u8, b' '])]);
        octal(&mut f, format!("{h}/mtime/string"), 12, r);
        octal(&mut f, format!("{h}/chksum/string"), 8, r);
        f.u8(format!("{h}/typeflag"), *r.pick(b"0123456"));
        string(&mut f, format!("{h}/linkname/string"), 100, 0, 100, r);
        f.put(format!("{h}/magic"), b"ustar\0");
        f.put(format!("{h}/version"), b"00");
        string(&mut f, format!("{h}/uname/string"), 32, 0, 31, r);
        string(&mut f, format!("{h}/gname/string"), 32, 0, 31, r);
        for l in ["devmajor", "devminor"] {
            octal(&mut f, format!("{h}/{l}/string"), 8, r);
        }
        string(&mut f, format!("{h}/prefix/string"), 155, 0, 155, r);
        f.raw(&[0; 12]);
        let d = r.bytes(size);
        f.put(format!("contents/{i}/file"), &d);
        while f.b.len() % 512 != 0 {
            f.raw(&[0]);
        }
    }
    f.raw(&[0; 1024]);
    f.whole = f.b.len();
    f.raw(&vec![0; 512 * r.below(3)]);
    let h = *r.pick(&heads);
    for (why, a, b) in [("magic", 257, 262), ("version", 263, 265), ("digit", 124, 135)] {
        let mut x = f.b.clone();
        x[h + r.range(a, b - 1)] = *r.pick(b"9xz");
        f.broke(why, x);
    }
    let mut x = f.b.clone();
    let big = x.len() + r.below(100000);
    x[h + 124..h + 135].copy_from_slice(format!("{big:011o}").as_bytes());
    f.broke("member size past the end", x);
    f.broke("no end of archive", f.b[..f.whole - 1024].to_vec());
    f
}

// ---------------------------------------------------------------- RIFF
fn riff(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let mut body = F::default();
    let form = word(r).into_iter().chain(*b"    ").take(4).collect::<Vec<_>>();
    body.put("data/tag", &form);
    let k = r.below(6);
    body.fact("data/chunks", W::Len(k));
    let mut spots = vec![4usize];
    for i in 0..k {
        let p = format!("data/chunks/{i}");
        let t = word(r).into_iter().chain(*b"    ").take(4).collect::<Vec<_>>();
        body.put(format!("{p}/tag"), &t);
        let d = small(r, 60);
        spots.push(8 + body.b.len());
        body.le(format!("{p}/length"), 4, d.len() as u64);
        body.put(format!("{p}/data"), &d);
        if d.len() % 2 == 1 {
            body.u8(format!("{p}/pad/some"), 0);
        } else {
            body.fact(format!("{p}/pad"), W::None);
        }
    }
    f.put("tag", b"RIFF");
    f.le("length", 4, body.b.len() as u64);
    f.raw(&body.b);
    f.facts.extend(body.facts);
    f.whole = f.b.len();
    let mut x = f.b.clone();
    x[r.below(4)] ^= 1 << r.below(8);
    f.broke("signature", x);
    let s = spots[0];
    let mut x = f.b.clone();
    x[s..s + 4].copy_from_slice(&(f.b.len() as u32 + r.below(1000) as u32).to_le_bytes());
    f.broke("length past the end", x);
    f
}

// ---------------------------------------------------------------- ELF
fn elf(r: &mut Rng) -> F {
    let mut f = F::default();
    let (wide, be) = (r.chance(1, 2), r.chance(1, 2));
    let (word, suf) = if wide { (8usize, 64) } else { (4, 32) };
    f.raw(b"\x7fELF");
    f.u8("header/ident/class", 1 + wide as u8);
    f.u8("header/ident/data", 1 + be as u8);
    f.u8("header/ident/version", 1);
    f.u8("header/ident/os_abi", r.byte());
    f.u8("header/ident/abi_version", r.byte());
    f.raw(&[0; 7]);
    let num = |f: &mut F, p: String, w: usize, n: u64| if be { f.be(p, w, n) } else { f.le(p, w, n) };
    let ty = *r.pick(&[0u64, 1, 2, 3, 4, 0xfe00, 0xfeff, 0xff00, 0xffff]);
    num(&mut f, "header/type".into(), 2, ty);
    num(&mut f, "header/machine".into(), 2, n(r, 2));
    num(&mut f, "header/version".into(), 4, 1);
    num(&mut f, format!("header/entry/Addr{suf}"), word, n(r, word));
    let ehsize = if wide { 64u64 } else { 52 };
    let (phsize, shsize) = if wide { (56u64, 64u64) } else { (32, 40) };
    let (np, ns) = (r.below(4) as u64, r.below(5) as u64);
    let up = |x: u64| x.div_ceil(8) * 8;
    let phoff = if np == 0 && r.chance(1, 2) { 0 } else { up(ehsize) + 8 * r.below(4) as u64 };
    let body = if phoff == 0 { up(ehsize) } else { phoff + np * phsize };
    // section contents, then the section table
    let mut secs = vec![];
    let mut pos = body;
    for _ in 0..ns {
        let ty = *r.pick(&[0u64, 1, 1, 2, 3, 4, 8, 11, 14, 18, 0x60000000, 0x7fffffff, 0x80000000, 0xffffffff]);
        let d = small(r, 50);
        secs.push((ty, pos, d.clone()));
        pos += d.len() as u64;
    }
    let shoff = if ns == 0 && r.chance(1, 2) { 0 } else { up(pos) };
    num(&mut f, format!("header/phoff/Off{suf}"), word, phoff);
    num(&mut f, format!("header/shoff/Off{suf}"), word, shoff);
    num(&mut f, "header/flags".into(), 4, n(r, 4));
    for (l, v) in [("ehsize", ehsize), ("phentsize", phsize), ("phnum", np), ("shentsize", shsize), ("shnum", ns)] {
        num(&mut f, format!("header/{l}"), 2, v);
    }
    num(&mut f, "header/shstrndx".into(), 2, n(r, 2));
    debug_assert_eq!(f.b.len() as u64, ehsize);
    if phoff == 0 {
        f.fact("program_headers", W::None);
    } else {
        f.b.resize(phoff as usize, 0);
        f.fact("program_headers/some", W::Len(np as usize));
        for i in 0..np {
            let p = format!("program_headers/some/{i}");
            num(&mut f, format!("{p}/type"), 4, n(r, 4));
            if wide {
                num(&mut f, format!("{p}/flags64/some"), 4, n(r, 4));
                f.fact(format!("{p}/flags32"), W::None);
            } else {
                f.fact(format!("{p}/flags64"), W::None);
            }
            num(&mut f, format!("{p}/offset/Off{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/vaddr/Addr{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/paddr/Addr{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/filesz/Full{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/memsz/Full{suf}"), word, n(r, word));
            if !wide {
                num(&mut f, format!("{p}/flags32/some"), 4, n(r, 4));
            }
            num(&mut f, format!("{p}/align/Full{suf}"), word, n(r, word));
        }
    }
    f.b.resize(body as usize, 0);
    for (_, at, d) in &secs {
        f.b.resize(*at as usize, 0);
        f.raw(d);
    }
    if shoff == 0 {
        f.fact("section_headers", W::None);
        f.fact("sections", W::None);
    } else {
        f.b.resize(shoff as usize, 0);
        f.fact("section_headers/some", W::Len(ns as usize));
        f.fact("sections/some", W::Len(ns as usize));
        for (i, (ty, at, d)) in secs.iter().enumerate() {
            let p = format!("section_headers/some/{i}");
            num(&mut f, format!("{p}/name"), 4, n(r, 4));
            num(&mut f, format!("{p}/type"), 4, *ty);
            num(&mut f, format!("{p}/flags/Full{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/addr/Addr{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/offset/Off{suf}"), word, *at);
            num(&mut f, format!("{p}/size/Full{suf}"), word, d.len() as u64);
            num(&mut f, format!("{p}/link"), 4, n(r, 4));
            num(&mut f, format!("{p}/info"), 4, n(r, 4));
            num(&mut f, format!("{p}/addralign/Full{suf}"), word, n(r, word));
            num(&mut f, format!("{p}/entsize/Full{suf}"), word, n(r, word));
            if *ty == 0 || *ty == 8 {
                f.fact(format!("sections/some/{i}"), W::None);
            } else {
                f.bytes(format!("sections/some/{i}/some"), d);
            }
        }
    }
    f.whole = f.b.len();
    if shoff == 0 {
        // nothing refers to the end of the file
        f.whole = if phoff == 0 { ehsize } else { phoff + np * phsize } as usize;
    }
    let tail = small(r, 20);
    f.raw(&tail);
    for (why, i, v) in [("magic", r.below(4), 0x20u8), ("class", 4, 3 + r.below(250) as u8), ("data encoding", 5, 3 + r.below(250) as u8), ("version", 6, 2 + r.below(250) as u8)] {
        let mut x = f.b.clone();
        x[i] = v;
        f.broke(why, x);
    }
    let put = |x: &mut Vec<u8>, at: usize, w: usize, v: u64| {
        let b = v.to_be_bytes();
        let l = v.to_le_bytes();
        x[at..at + w].copy_from_slice(if be { &b[8 - w..] } else { &l[..w] });
    };
    let mut x = f.b.clone();
    put(&mut x, 16, 2, *r.pick(&[5u64, 6, 0xfd00, 0xfdff]));
    f.broke("object type", x);
    if shoff != 0 && ns > 0 {
        let mut x = f.b.clone();
        let at = if wide { 0x28 } else { 0x20 };
        put(&mut x, at, word, up(f.b.len() as u64 + 1));
        f.broke("section table past the end", x);
    }
    f
}

// ---------------------------------------------------------------- small formats of the project itself
fn rle(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let old = r.chance(1, 2);
    f.raw(&[!old as u8]);
    let k = r.below(10);
    let mut data = vec![];
    for i in 0..k {
        let (len, ch) = (*r.pick(&[0u8, 1, 2, 7, 255]), r.byte());
        f.raw(&[len, ch]);
        data.extend(vec![ch; len as usize]);
        if old {
            f.int(format!("old-style/runs/{i}/len"), len);
            f.int(format!("old-style/runs/{i}/char"), ch);
            f.bytes(format!("old-style/runs/{i}/buf"), &vec![ch; len as usize]);
        }
    }
    if old {
        f.fact("old-style/runs", W::Len(k));
    }
    f.bytes(if old { "old-style/data" } else { "new-style/data" }, &data);
    let mut x = f.b.clone();
    x[0] = 2 + r.below(254) as u8;
    f.broke("style", x);
    f
}
fn peano(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let k = r.range(1, 8);
    f.raw(b"");
    for i in 0..k {
        let s = r.below(10);
        f.raw(&vec![b'S'; s]);
        f.raw(b"Z");
        f.int(i.to_string(), s as i128);
    }
    f.broke("more than nine successors", b"SSSSSSSSSSZ".to_vec());
    f.broke("no zero", b"SSS".to_vec());
    f.broke("empty", vec![]);
    f
}
fn waldo(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let noise = r.below(30);
    let here = 8 + noise + 1;
    let at = here + r.below(40);
    f.be("where", 8, at as u64);
    f.raw(&vec![0xFF; noise]);
    f.bytes("noise", &vec![0xFF; noise]);
    f.raw(&[0]);
    let g = r.bytes(at - here);
    f.raw(&g);
    let w = if r.chance(1, 2) { b"Waldo".to_vec() } else { r.bytes(5) };
    f.put("waldo", &w);
    f.whole = f.b.len();
    let tail = small(r, 20);
    f.raw(&tail);
    let mut x = f.b.clone();
    x[..8].copy_from_slice(&(f.b.len() as u64 - r.below(5) as u64).to_be_bytes());
    f.broke("place past the end", x);
    let mut x = f.b.clone();
    x[here - 1] = r.range(1, 254) as u8;
    f.broke("separator", x);
    f
}

// ---------------------------------------------------------------- ISO base media (MPEG-4 part 12)
fn atom(f: &mut F, p: &str, r: &mut Rng, tag: &[u8; 4], label: &str, body: F) -> usize {
    let at = f.b.len();
    let len = body.b.len() as u64;
    if r.chance(1, 5) {
        f.be(format!("{p}/size-field"), 4, 1);
        f.put(format!("{p}/type"), tag);
        f.raw(&(len + 16).to_be_bytes());
    } else {
        f.be(format!("{p}/size-field"), 4, len + 8);
        f.put(format!("{p}/type"), tag);
    }
    f.int(format!("{p}/size"), len as i128);
    f.raw(&body.b);
    for (q, w) in body.facts {
        f.facts.push((if q.is_empty() { format!("{p}/data/{label}") } else { format!("{p}/data/{label}/{q}") }, w));
    }
    at
}
fn ver(c: &mut F, r: &mut Rng, v: u8) {
    c.u8("version", v);
    let x = r.bytes(3);
    c.put("flags", &x);
}
fn times(c: &mut F, r: &mut Rng, v: u8, mid: &[&str]) {
    let w = if v == 0 { 4 } else { 8 };
    c.be(format!("fields/version{v}/creation_time"), w, n(r, w));
    c.be(format!("fields/version{v}/modification_time"), w, n(r, w));
    mid.iter().for_each(|l| c.be(format!("fields/version{v}/{l}"), 4, n(r, 4)));
    c.be(format!("fields/version{v}/duration"), w, n(r, w));
}
fn many(c: &mut F, p: &str, r: &mut Rng, k: usize, w: usize) {
    c.fact(p, W::Len(k));
    (0..k).for_each(|i| c.be(format!("{p}/{i}"), w, n(r, w)));
}
fn stbl(r: &mut Rng) -> F {
    let mut s = F::default();
    let k = r.below(6);
    s.fact("", W::Len(k));
    for i in 0..k {
        let mut c = F::default();
        let m = r.below(5);
        let tag: &[u8; 4] = match r.below(9) {
            0 => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                for j in 0..m {
                    let mut e = F::default();
                    let d = small(r, 20);
                    e.raw(&d);
                    atom(&mut c, &format!("sample_entries/{j}"), r, b"mp4a", "", F { b: d.clone(), ..F::default() });
                    c.bytes(format!("sample_entries/{j}/data"), &d);
                }
                b"stsd"
            }
            w @ (1 | 2) => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                c.fact("sample_entries", W::Len(m));
                for j in 0..m {
                    c.be(format!("sample_entries/{j}/sample_count"), 4, n(r, 4));
                    c.be(format!("sample_entries/{j}/sample_{}", if w == 1 { "delta" } else { "offset" }), 4, n(r, 4));
                }
                if w == 1 { b"stts" } else { b"ctts" }
            }
            3 => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                many(&mut c, "sample_number", r, m, 4);
                b"stss"
            }
            4 => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                c.fact("chunk_entries", W::Len(m));
                for j in 0..m {
                    for l in ["first_chunk", "samples_per_chunk", "sample_description_index"] {
                        c.be(format!("chunk_entries/{j}/{l}"), 4, n(r, 4));
                    }
                }
                b"stsc"
            }
            5 => {
                ver(&mut c, r, 0);
                let each = if r.chance(1, 2) { 0 } else { n(r, 4) };
                c.be("sample_size", 4, each);
                if each == 0 {
                    c.be("sample_count", 4, m as u64);
                    many(&mut c, "entry_size/some", r, m, 4);
                } else {
                    c.be("sample_count", 4, n(r, 4));
                    c.fact("entry_size", W::None);
                }
                b"stsz"
            }
            6 => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                many(&mut c, "chunk_offset", r, m, 4);
                b"stco"
            }
            7 => {
                ver(&mut c, r, 0);
                c.be("entry_count", 4, m as u64);
                many(&mut c, "chunk_offset", r, m, 8);
                b"co64"
            }
            _ => {
                ver(&mut c, r, 1);
                c.be("grouping_type", 4, n(r, 4));
                let each = if r.chance(1, 2) { 0 } else { r.range(1, 6) as u64 };
                c.be("default_length", 4, each);
                c.be("entry_count", 4, m as u64);
                c.fact("sample_groups", W::Len(m));
                for j in 0..m {
                    let len = if each == 0 { r.below(6) as u64 } else { each };
                    if each == 0 {
                        c.raw(&(len as u32).to_be_bytes());
                    }
                    c.int(format!("sample_groups/{j}/description_length"), len as i128);
                    let d = r.bytes(len as usize);
                    c.put(format!("sample_groups/{j}/sample_group_entry"), &d);
                }
                b"sgpd"
            }
        };
        atom(&mut s, &i.to_string(), r, tag, std::str::from_utf8(tag).unwrap(), c);
    }
    s
}
fn nest(r: &mut Rng, parts: Vec<(&'static [u8; 4], F)>) -> F {
    let mut o = F::default();
    o.fact("", W::Len(parts.len()));
    for (i, (tag, body)) in parts.into_iter().enumerate() {
        let known: [&[u8; 4]; 12] = [b"mvhd", b"trak", b"tkhd", b"mdia", b"mdhd", b"hdlr", b"minf", b"vmhd", b"smhd", b"stbl", b"moov", b"ftyp"];
        let label = if known.contains(&tag) { std::str::from_utf8(tag).unwrap() } else { "unknown" };
        atom(&mut o, &i.to_string(), r, tag, label, body);
    }
    o
}
fn mpeg4(r: &mut Rng) -> F {
    let mut f = F { ends: true, ..F::default() };
    let mut c = F::default();
    c.put("major_brand", b"isom");
    c.be("minor_version", 4, n(r, 4));
    let k = r.below(4);
    (0..k).for_each(|i| c.put(format!("compatible_brands/{i}"), *r.pick(&[b"mp42", b"iso2", b"avc1"])));
    c.fact("compatible_brands", W::Len(k));
    let mut spots = vec![atom(&mut f, "atoms/0", r, b"ftyp", "ftyp", c)];
    let v = r.below(2) as u8;
    let mut mvhd = F::default();
    ver(&mut mvhd, r, v);
    times(&mut mvhd, r, v, &["timescale"]);
    mvhd.be("rate", 4, n(r, 4));
    mvhd.be("volume", 2, n(r, 2));
    mvhd.raw(&[0; 10]);
    many(&mut mvhd, "matrix", r, 9, 4);
    many(&mut mvhd, "pre_defined", r, 6, 4);
    mvhd.be("next_track_ID", 4, n(r, 4));
    let mut moov: Vec<(&'static [u8; 4], F)> = vec![(b"mvhd", mvhd)];
    for _ in 0..r.below(3) {
        let v = r.below(2) as u8;
        let mut tkhd = F::default();
        ver(&mut tkhd, r, v);
        times(&mut tkhd, r, v, &["track_ID", "reserved"]);
        tkhd.raw(&[0; 8]);
        for l in ["layer", "alternate_group", "volume"] {
            tkhd.be(l, 2, n(r, 2));
        }
        tkhd.raw(&[0; 2]);
        many(&mut tkhd, "matrix", r, 9, 4);
        tkhd.be("width", 4, n(r, 4));
        tkhd.be("height", 4, n(r, 4));
        let v = r.below(2) as u8;
        let mut mdhd = F::default();
        ver(&mut mdhd, r, v);
        times(&mut mdhd, r, v, &["timescale"]);
        mdhd.be("language", 2, n(r, 2));
        mdhd.be("pre_defined", 2, 0);
        let mut hdlr = F::default();
        ver(&mut hdlr, r, 0);
        hdlr.be("component_type", 4, n(r, 4));
        hdlr.put("component_subtype", b"vide");
        for l in ["component_manufacturer", "component_flags", "component_flags_mask"] {
            hdlr.be(l, 4, n(r, 4));
        }
        let w = word(r);
        hdlr.put("component_name", &w);
        hdlr.raw(&[0]);
        let mut vmhd = F::default();
        ver(&mut vmhd, r, 0);
        vmhd.be("graphicsmode", 2, n(r, 2));
        many(&mut vmhd, "opcolor", r, 3, 2);
        let mut smhd = F::default();
        ver(&mut smhd, r, 0);
        smhd.be("balance", 2, n(r, 2));
        smhd.be("reserved", 2, 0);
        let st = stbl(r);
        let minf = nest(r, vec![(b"vmhd", vmhd), (b"smhd", smhd), (b"stbl", st)]);
        let mdia = nest(r, vec![(b"mdhd", mdhd), (b"hdlr", hdlr), (b"minf", minf)]);
        let mut other = F::default();
        let d = small(r, 30);
        other.put("", &d);
        let trak = nest(r, vec![(b"tkhd", tkhd), (b"mdia", mdia), (b"abcd", other)]);
        moov.push((b"trak", trak));
    }
    let moov = nest(r, moov);
    spots.push(atom(&mut f, "atoms/1", r, b"moov", "moov", moov));
    let mut c = F::default();
    let d = small(r, 60);
    c.put("", &d);
    spots.push(atom(&mut f, "atoms/2", r, b"wide", "unknown", c));
    f.fact("atoms", W::Len(3));
    let s = *r.pick(&spots);
    let mut x = f.b.clone();
    x[s..s + 4].copy_from_slice(&(f.b.len() as u32 + 100 + r.below(9999) as u32).to_be_bytes());
    // an over-long atom ends the sequence of atoms, so only the position shows it
    f.broke("atom length past the end", x);
    f
}

// ---------------------------------------------------------------- OpenType: an independent reader
struct Sf<'a>(&'a [u8]);
impl Sf<'_> {
    fn u(&self, at: usize, w: usize) -> Option<u64> {
        let b = self.0.get(at..at + w)?;
        Some(b.iter().fold(0, |a, x| a << 8 | *x as u64))
    }
    fn i(&self, at: usize) -> Option<i128> {
        Some(self.u(at, 2)? as u16 as i16 as i128)
    }
}
fn sfnt(b: &[u8]) -> Option<F> {
    let s = Sf(b);
    let mut f = F::default();
    f.int("magic", s.u(0, 4)? as i128);
    let d = "directory/TableDirectory";
    f.int(format!("{d}/sfnt_version"), s.u(0, 4)? as i128);
    for (i, l) in ["num_tables", "search_range", "entry_selector", "range_shift"].iter().enumerate() {
        f.int(format!("{d}/{l}"), s.u(4 + 2 * i, 2)? as i128);
    }
    let nt = s.u(4, 2)? as usize;
    f.fact(format!("{d}/table_records"), W::Len(nt));
    let mut tab = std::collections::HashMap::new();
    for i in 0..nt {
        let o = 12 + 16 * i;
        for (j, l) in ["table_id", "checksum", "offset", "length"].iter().enumerate() {
            f.int(format!("{d}/table_records/{i}/{l}"), s.u(o + 4 * j, 4)? as i128);
        }
        tab.entry(b.get(o..o + 4)?.to_vec()).or_insert((s.u(o + 8, 4)? as usize, s.u(o + 12, 4)? as usize));
    }
    let t = format!("{d}/table_links");
    let (head, _) = *tab.get(&b"head"[..])?;
    for (l, at) in [("major_version", 0), ("minor_version", 2), ("flags", 16), ("units_per_em", 18), ("lowest_rec_ppem", 46), ("index_to_loc_format", 50), ("glyph_data_format", 52)] {
        f.int(format!("{t}/head/{l}"), s.u(head + at, 2)? as i128);
    }
    f.int(format!("{t}/head/font_revision/Fixed32"), s.u(head + 4, 4)? as i128);
    f.int(format!("{t}/head/checksum_adjustment"), s.u(head + 8, 4)? as i128);
    f.int(format!("{t}/head/created"), s.u(head + 20, 8)? as i64 as i128);
    f.int(format!("{t}/head/modified"), s.u(head + 28, 8)? as i64 as i128);
    for (i, l) in ["x_min", "y_min", "x_max", "y_max"].iter().enumerate() {
        f.int(format!("{t}/head/glyph_extents/{l}"), s.i(head + 36 + 2 * i)?);
    }
    let (maxp, _) = *tab.get(&b"maxp"[..])?;
    let glyphs = s.u(maxp + 4, 2)? as usize;
    f.int(format!("{t}/maxp/version"), s.u(maxp, 4)? as i128);
    f.int(format!("{t}/maxp/num_glyphs"), glyphs as i128);
    if s.u(maxp, 4)? == 0x10000 {
        for (i, l) in ["points", "contours", "composite_points", "composite_contours", "zones", "twilight_points", "storage", "function_defs", "instruction_defs", "stack_elements", "size_of_instructions", "component_elements", "component_depth"].iter().enumerate() {
            let l = if *l == "zones" { "max_zones".to_string() } else { format!("max_{l}") };
            f.int(format!("{t}/maxp/data/MaxpV1/{l}"), s.u(maxp + 6 + 2 * i, 2)? as i128);
        }
    }
    let (hhea, _) = *tab.get(&b"hhea"[..])?;
    for (l, at) in [("ascent", 4), ("descent", 6), ("line_gap", 8), ("min_left_side_bearing", 12), ("min_right_side_bearing", 14), ("x_max_extent", 16), ("caret_slope/rise", 18), ("caret_slope/run", 20), ("caret_offset", 22)] {
        f.int(format!("{t}/hhea/{l}"), s.i(hhea + at)?);
    }
    f.int(format!("{t}/hhea/advance_width_max"), s.u(hhea + 10, 2)? as i128);
    let nh = s.u(hhea + 34, 2)? as usize;
    f.int(format!("{t}/hhea/number_of_long_metrics"), nh as i128);
    let (hmtx, _) = *tab.get(&b"hmtx"[..])?;
    f.fact(format!("{t}/hmtx/long_metrics"), W::Len(nh));
    for i in 0..nh {
        f.int(format!("{t}/hmtx/long_metrics/{i}/advance_width"), s.u(hmtx + 4 * i, 2)? as i128);
        f.int(format!("{t}/hmtx/long_metrics/{i}/left_side_bearing"), s.i(hmtx + 4 * i + 2)?);
    }
    f.fact(format!("{t}/hmtx/left_side_bearings"), W::Len(glyphs - nh));
    for i in 0..glyphs - nh {
        f.int(format!("{t}/hmtx/left_side_bearings/{i}"), s.i(hmtx + 4 * nh + 2 * i)?);
    }
    let (cmap, _) = *tab.get(&b"cmap"[..])?;
    let nc = s.u(cmap + 2, 2)? as usize;
    f.fact(format!("{t}/cmap/encoding_records"), W::Len(nc));
    for i in 0..nc {
        let o = cmap + 4 + 8 * i;
        f.int(format!("{t}/cmap/encoding_records/{i}/platform"), s.u(o, 2)? as i128);
        f.int(format!("{t}/cmap/encoding_records/{i}/encoding"), s.u(o + 2, 2)? as i128);
        f.int(format!("{t}/cmap/encoding_records/{i}/subtable/offset"), s.u(o + 4, 4)? as i128);
    }
    let (name, _) = *tab.get(&b"name"[..])?;
    let nn = s.u(name + 2, 2)? as usize;
    let store = name + s.u(name + 4, 2)? as usize;
    f.fact(format!("{t}/name/name_records"), W::Len(nn));
    for i in 0..nn {
        let o = name + 6 + 12 * i;
        let p = format!("{t}/name/name_records/{i}");
        for (j, l) in ["platform", "encoding", "language", "name_id", "length", "string/offset"].iter().enumerate() {
            f.int(format!("{p}/{l}"), s.u(o + 2 * j, 2)? as i128);
        }
        let (len, off) = (s.u(o + 8, 2)? as usize, s.u(o + 10, 2)? as usize);
        f.bytes(format!("{p}/string/data"), b.get(store + off..store + off + len)?);
    }
    let (os2, _) = *tab.get(&b"OS/2"[..])?;
    f.int(format!("{t}/os2/x_avg_char_width"), s.i(os2 + 2)?);
    for (i, l) in ["y_subscript_x_size", "y_subscript_y_size", "y_subscript_x_offset", "y_subscript_y_offset", "y_superscript_x_size", "y_superscript_y_size", "y_superscript_x_offset", "y_superscript_y_offset", "y_strikeout_size", "y_strikeout_position", "s_family_class"].iter().enumerate() {
        f.int(format!("{t}/os2/{l}"), s.i(os2 + 10 + 2 * i)?);
    }
    f.bytes(format!("{t}/os2/panose"), b.get(os2 + 32..os2 + 42)?);
    let (post, _) = *tab.get(&b"post"[..])?;
    f.int(format!("{t}/post/italic_angle/Fixed32"), s.u(post + 4, 4)? as i128);
    f.int(format!("{t}/post/underline_position"), s.i(post + 8)?);
    f.int(format!("{t}/post/underline_thickness"), s.i(post + 10)?);
    if let Some((loca, _)) = tab.get(&b"loca"[..]) {
        let long = s.u(head + 50, 2)? == 1;
        let (l, w) = if long { ("Offsets32", 4) } else { ("Offsets16", 2) };
        f.fact(format!("{t}/loca/some/offsets/{l}"), W::Len(glyphs + 1));
        for i in 0..=glyphs {
            f.int(format!("{t}/loca/some/offsets/{l}/{i}"), s.u(loca + w * i, w)? as i128);
        }
        if tab.contains_key(&b"glyf"[..]) {
            f.fact(format!("{t}/glyf/some/glyphs"), W::Len(glyphs));
            for i in 0..glyphs {
                let k = if long { 1 } else { 2 };
                let (a, z) = (k * s.u(loca + w * i, w)? as usize, k * s.u(loca + w * (i + 1), w)? as usize);
                if a != z {
                    f.int(format!("{t}/glyf/some/glyphs/{i}/Glyph/offset"), a as i128);
                }
            }
        }
    }
    Some(f)
}
/// other values in fields that nothing else depends on
fn refont(b: &[u8], r: &mut Rng) -> Vec<u8> {
    let mut x = b.to_vec();
    let s = Sf(b);
    let nt = s.u(4, 2).unwrap_or(0) as usize;
    for i in 0..nt {
        let o = 12 + 16 * i;
        let at = s.u(o + 8, 4).unwrap() as usize;
        let spots: &[(usize, usize)] = match &b[o..o + 4] {
            b"head" => &[(4, 4), (8, 4), (20, 8), (28, 8), (36, 8), (46, 2)],
            b"hhea" => &[(4, 20)],
            b"OS/2" => &[(2, 2), (10, 22)],
            b"post" => &[(4, 8)],
            b"hmtx" => &[(0, 40)],
            _ => &[],
        };
        for (p, w) in spots {
            if r.chance(1, 2) && at + p + w <= x.len() {
                let n = r.bytes(*w);
                x[at + p..at + p + w].copy_from_slice(&n);
            }
        }
        if r.chance(1, 2) {
            let n = r.bytes(4);
            x[o + 4..o + 8].copy_from_slice(&n);
        }
    }
    x
}

type Make = fn(&mut Rng) -> F;
const KINDS: [(&str, Make); 11] = [
    ("png", png),
    ("gif", gif),
    ("tiff", tiff),
    ("jpeg", jpeg),
    ("tar", tar),
    ("riff", riff),
    ("elf", elf),
    ("rle", rle),
    ("peano", peano),
    ("waldo", waldo),
    ("mpeg4", mpeg4),
];
fn format_of(kind: &str, m: &mut FormatModule) -> Format {
    match kind {
        "png" => {
            let d = df::deflate::main(m);
            let z = df::zlib::main(m, d);
            let (t, nz) = df::text::main(m);
            df::png::main(m, z, t, nz).call()
        }
        "gif" => df::gif::main(m).call(),
        "tiff" => df::tiff::main(m).call(),
        "jpeg" => {
            let t = df::tiff::main(m);
            df::jpeg::main(m, t).call()
        }
        "tar" => df::tar::main(m).call(),
        "riff" => df::riff::main(m).call(),
        "elf" => df::elf::main(m).call(),
        "rle" => df::run_length::main(m).call(),
        "peano" => df::peano::main(m).call(),
        "waldo" => df::waldo::main(m).call(),
        "mpeg4" => df::mpeg4::main(m).call(),
        _ => df::opentype_standalone(m).call(),
    }
}
fn facts(rep: &Report, kind: &str, f: &F, v: &doodle::decoder::Value) {
    let rv = Rv::erase(v);
    for (p, w) in &f.facts {
        rep.eval(1);
        match at(&rv, p) {
            Ok(x) if holds(x, w) => (),
            Ok(x) => {
                let mut s = x.show();
                s.truncate(300);
                rep.violation(&format!("{kind} field"), &format!("{kind}: {p} is {s}, an independent reader finds {w:?}"), json!({"kind": kind, "input": hex(&f.b), "path": p}));
                return;
            }
            Err(e) => {
                rep.violation(&format!("{kind} shape"), &format!("{kind}: {p} cannot be found ({e}), an independent reader finds {w:?}"), json!({"kind": kind, "input": hex(&f.b), "path": p}));
                return;
            }
        }
    }
    rep.count(&format!("{kind} fields compared"), f.facts.len() as u64);
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(120);
    let batches = 8;
    let per = rep.scale(60 * 6, 3000);
    par(KINDS.len() * batches, |j| {
        let (kind, make) = KINDS[j % KINDS.len()];
        let mut m = FormatModule::new();
        let fmt = format_of(kind, &mut m);
        let Comp::Ok(p) = eng::compile(&m, &fmt) else {
            rep.violation(&format!("{kind} compile"), &format!("the {kind} format does not compile"), json!({}));
            return;
        };
        for i in 0..per {
            let mut r = Rng::derive(rep.seed, hash_of(&("c14", kind, j, i)));
            let f = make(&mut r);
            rep.sig(&hash_of(&f.b));
            match eng::run_raw(&p, &f.b) {
                Ok(Some((v, end))) => {
                    facts(rep, kind, &f, &v);
                    if f.ends && end != f.b.len() {
                        rep.violation(&format!("{kind} end"), &format!("{kind}: a well-formed file of {} bytes is decoded up to {end}", f.b.len()), json!({"kind": kind, "input": hex(&f.b)}));
                    }
                }
                o => rep.violation(
                    &format!("{kind} refused"),
                    &format!("{kind}: a well-formed file is refused ({})", o.err().unwrap_or_default()),
                    json!({"kind": kind, "input": hex(&f.b)}),
                ),
            }
            let mut broken = f.broken.clone();
            for _ in 0..3 {
                if f.whole > 0 {
                    broken.push(("cut short".into(), f.b[..r.below(f.whole)].to_vec()));
                }
            }
            for (why, x) in broken {
                rep.eval(1);
                match eng::run_raw(&p, &x) {
                    Ok(Some((_, end))) if kind == "mpeg4" && end < x.len() => rep.count("broken files stopped at", 1),
                    Ok(Some(_)) => rep.violation(&format!("{kind} {why}"), &format!("{kind}: a broken file is accepted ({why})"), json!({"kind": kind, "input": hex(&x)})),
                    _ => rep.count("broken files refused", 1),
                }
            }
            rep.count(&format!("{kind} files"), 1);
        }
    });
    // fonts
    let fonts: Vec<_> = corpus::files(if rep.thorough() { 600_000 } else { 140_000 })
        .into_iter()
        .filter(|s| (s.name.ends_with(".ttf") || s.name.ends_with(".otf")) && !s.name.contains("malformed") && !s.name.contains("gzipped"))
        .collect();
    let rounds = rep.scale(3 * 6, 40);
    par(fonts.len() * 2, |j| {
        let s = &fonts[j / 2];
        let mut m = FormatModule::new();
        let fmt = format_of("opentype", &mut m);
        let Comp::Ok(p) = eng::compile(&m, &fmt) else {
            rep.violation("opentype compile", "the opentype format does not compile", json!({}));
            return;
        };
        let mut r = Rng::derive(rep.seed, hash_of(&("font", j)));
        for k in 0..rounds {
            let b = if j % 2 == 0 && k == 0 { s.data.clone() } else { refont(&s.data, &mut r) };
            let Some(mut f) = sfnt(&b) else {
                rep.count("fonts the reader does not cover", 1);
                return;
            };
            f.b = vec![];
            rep.sig(&hash_of(&b));
            match rep.watched(|| format!("font {}", s.name), || eng::run_raw(&p, &b)) {
                Ok(Some((v, _))) => {
                    facts(rep, "opentype", &f, &v);
                    rep.count("fonts", 1);
                }
                _ if k == 0 && j % 2 == 0 => {
                    rep.violation("opentype refused", &format!("the sample font {} is refused", s.name), json!({"file": s.name}))
                }
                _ => rep.count("altered fonts refused", 1),
            }
            if k == 0 {
                let mut x = b.clone();
                x[r.below(2)] = 7;
                rep.eval(1);
                if let Ok(Some(_)) = eng::run_raw(&p, &x) {
                    rep.violation("opentype magic", "a font with a broken signature is accepted", json!({"file": s.name, "head": hex(&x[..12])}));
                }
                let cut = r.below(x.len() / 2);
                rep.eval(1);
                if let Ok(Some(_)) = eng::run_raw(&p, &b[..cut]) {
                    rep.violation("opentype cut", &format!("half a font ({cut} bytes) is accepted"), json!({"file": s.name}));
                }
            }
        }
    });
    "each evaluation compares one decoded field of a generated or sample file with what an independent reader finds there, or presents one structurally broken file that has to be refused"
}
