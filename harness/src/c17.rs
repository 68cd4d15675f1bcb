//! C17: printed output. Trees printed for decoded values are read back and compared with the value; two values that
//! differ must not print alike; the located and the plain tree say the same; JSON is read back; flat output finishes.
use crate::c01;
use crate::corpus;
use crate::eng::{self, Comp};
use crate::ev::{Report, guarded, hash_of, hex, par};
use crate::refint::{self, Ref};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::decoder::{SeqKind, Value};
use doodle::helper::*;
use doodle::loc_decoder::ParsedValue;
use doodle::output::tree::TreePrinter;
use doodle::{Expr, Format, FormatModule};
use num_bigint::BigInt;
use serde_json::{Value as J, json};
use std::collections::HashMap;

// ---- reading a printed tree back ----------------------------------------------------------------------------

enum Node {
    Item { rest: String, kids: Vec<String> },
    Skip,
}
fn strip4(l: &str) -> Option<String> {
    l.strip_prefix("│   ").or_else(|| l.strip_prefix("    ")).map(str::to_string)
}
fn nodes(lines: &[String]) -> Option<Vec<Node>> {
    let mut out: Vec<Node> = vec![];
    for l in lines {
        if let Some(r) = l.strip_prefix("├── ").or_else(|| l.strip_prefix("└── ")) {
            out.push(Node::Item { rest: r.into(), kids: vec![] });
        } else if l == "~" {
            out.push(Node::Skip);
        } else if let (Some(k), Some(Node::Item { kids, .. })) = (strip4(l), out.last_mut()) {
            kids.push(k);
        } else {
            return None;
        }
    }
    Some(out)
}
/// the first " := " outside braces
fn sep(s: &str) -> Option<usize> {
    let mut depth = 0i32;
    for (i, c) in s.char_indices() {
        match c {
            '{' => depth += 1,
            '}' => depth -= 1,
            ' ' if depth == 0 && s[i..].starts_with(" := ") => return Some(i),
            _ => {}
        }
    }
    None
}
fn ascii(b: u8) -> String {
    match b {
        0 => "\\0".into(),
        9 => "\\t".into(),
        10 => "\\n".into(),
        13 => "\\r".into(),
        b'\\' => "\\\\".into(),
        32..=127 => (b as char).to_string(),
        _ => format!("\\x{b:02X}"),
    }
}
fn as_text(vs: &[Rv]) -> Vec<String> {
    let mut out = vec![];
    if vs.iter().all(|v| matches!(v, Rv::U8(_))) {
        out.push(vs.iter().map(|v| if let Rv::U8(b) = v { ascii(*b) } else { String::new() }).collect::<String>());
    }
    if vs.iter().all(|v| matches!(v, Rv::U8(_) | Rv::Char(_))) {
        out.push(
            vs.iter()
                .map(|v| {
                    let c = match v {
                        Rv::U8(b) => *b as char,
                        Rv::Char(c) => *c,
                        _ => unreachable!(),
                    };
                    if c.is_ascii() { c.escape_debug().collect::<String>() } else { c.to_string() }
                })
                .collect(),
        );
    }
    out.into_iter().map(|s| format!("\"{s}\"")).collect()
}
fn visible(fs: &[(String, Rv)]) -> Vec<&(String, Rv)> {
    fs.iter().filter(|(l, _)| !l.starts_with("__")).collect()
}
fn inline(v: &Rv, s: &str) -> Result<(), String> {
    let s = s.strip_prefix("(FALLBACK) ").unwrap_or(s);
    let eq = |t: String| if t == s { Ok(()) } else { Err(format!("value {} is printed as `{s}`", v.show())) };
    let wrapped = |l: &str, x: &Rv| {
        if s == l {
            return Ok(());
        }
        match s.strip_prefix(&format!("{{ {l} := ")).and_then(|t| t.strip_suffix(" }")) {
            Some(t) => inline(x, t),
            None => Err(format!("value {} is printed as `{s}`", v.show())),
        }
    };
    match v {
        Rv::Bool(b) => eq(b.to_string()),
        Rv::U8(n) => eq(n.to_string()).or_else(|e| if s == ascii(*n) { Ok(()) } else { Err(e) }),
        Rv::U16(n) => eq(n.to_string()),
        Rv::U32(n) => eq(n.to_string()),
        Rv::U64(n) | Rv::Usize(n) => eq(n.to_string()),
        Rv::Num(n, r) => eq(format!("{n}{r}")),
        Rv::Char(c) => eq(format!("{c:?}")),
        Rv::View(o) => eq(format!("VIEW[+{o}]")),
        Rv::Phantom => {
            if s.contains("PhantomData") || s == "NO_VALUE" {
                Ok(())
            } else {
                eq("PhantomData".into())
            }
        }
        Rv::Opt(None) => eq("none".into()),
        Rv::Opt(Some(x)) => wrapped("some", x),
        Rv::Var(l, x) => wrapped(l, x),
        Rv::Tuple(vs) | Rv::Seq(vs) => {
            if as_text(vs).iter().any(|t| t == s) {
                return Ok(());
            }
            if vs.is_empty() {
                let t = if matches!(v, Rv::Tuple(_)) { "()" } else { "[]" };
                if matches!(v, Rv::Tuple(_)) && s == "{}" {
                    return Ok(());
                }
                if let Some((a, b)) = s.strip_prefix('[').and_then(|t| t.strip_suffix(']')).and_then(|t| t.split_once("..")) {
                    if a.parse::<u64>().ok() >= b.parse::<u64>().ok() {
                        return Ok(());
                    }
                }
                return eq(t.into());
            }
            if let (Some(Rv::Usize(a)), Some(Rv::Usize(b))) = (vs.first(), vs.last()) {
                return eq(format!("[{a}..{}]", b + 1));
            }
            Err(format!("value {} is printed as `{s}`", v.show()))
        }
        Rv::Rec(fs) => {
            let vis = visible(fs);
            if vis.is_empty() {
                return eq("{}".into());
            }
            if vis.iter().all(|(_, v)| matches!(v, Rv::Bool(_))) {
                let set: Vec<&str> = vis.iter().filter(|(_, v)| *v == Rv::Bool(true)).map(|(l, _)| l.as_str()).collect();
                return eq(format!("bool-flags[{}]", set.join("|")));
            }
            // strings kept in a record are shown as their text
            if let Some((_, Rv::Seq(vs))) = fs.iter().find(|(l, _)| l == "string") {
                if as_text(vs).iter().any(|t| t == s) {
                    return Ok(());
                }
            }
            Err(format!("value {} is printed as `{s}`", v.show()))
        }
    }
}
fn node(label: &str, v: &Rv, n: &Node, omitted: &mut u64) -> Result<(), String> {
    let Node::Item { rest, kids } = n else { return Err(format!("`{label}` is skipped")) };
    let Some(tail) = rest.strip_prefix(label) else { return Err(format!("expected the part `{label}`, printed `{rest}`")) };
    if !kids.is_empty() {
        if !tail.ends_with(" :=") {
            return Err(format!("`{rest}` is followed by parts of its own"));
        }
        return block(v, kids, omitted);
    }
    match sep(tail) {
        Some(i) => {
            if i != 0 && !tail.starts_with(" <- ") {
                return Err(format!("expected the part `{label}`, printed `{rest}`"));
            }
            inline(v, &tail[i + 4..])
        }
        None if tail.starts_with(" <- ") => {
            *omitted += 1;
            Ok(())
        }
        None if tail.is_empty() => {
            *omitted += 1;
            Ok(())
        }
        None => Err(format!("expected the part `{label}`, printed `{rest}`")),
    }
}
fn block(v: &Rv, lines: &[String], om: &mut u64) -> Result<(), String> {
    if let [l] = lines {
        if !l.starts_with("├── ") && !l.starts_with("└── ") {
            return inline(v, l);
        }
    }
    let Some(ns) = nodes(lines) else { return Err(format!("not a tree: {lines:?}")) };
    let count = |want: usize| {
        if ns.len() == want { Ok(()) } else { Err(format!("{want} parts expected, {} printed for {}", ns.len(), v.show())) }
    };
    match v {
        Rv::Tuple(vs) => {
            count(vs.len())?;
            for (i, x) in vs.iter().enumerate() {
                node(&i.to_string(), x, &ns[i], om)?;
            }
            Ok(())
        }
        Rv::Rec(fs) => {
            let vis = visible(fs);
            count(vis.len())?;
            for (i, (l, x)) in vis.iter().enumerate() {
                node(l, x, &ns[i], om)?;
            }
            Ok(())
        }
        Rv::Var(l, x) => {
            count(1)?;
            node(l, x, &ns[0], om)
        }
        Rv::Opt(Some(x)) => {
            count(1)?;
            node("some", x, &ns[0], om)
        }
        Rv::Seq(vs) => {
            if let [Node::Item { rest, kids }] = &ns[..] {
                if rest.starts_with(' ') {
                    // a table: column heads, then one row per record
                    let words = |s: &str| s.split_whitespace().map(str::to_string).collect::<Vec<_>>();
                    if kids.len() != vs.len() {
                        return Err(format!("a table of {} rows for {} records", kids.len(), vs.len()));
                    }
                    for (row, x) in kids.iter().zip(vs.iter()) {
                        let Rv::Rec(fs) = x else { return Err("a table of values that are not records".into()) };
                        let vis = visible(fs);
                        let heads: Vec<String> = vis.iter().map(|(l, _)| l.clone()).collect();
                        let cells: Vec<String> = vis.iter().map(|(_, v)| v.num().map_or("?".into(), |n| n.to_string())).collect();
                        if words(rest) != heads || words(row) != cells {
                            return Err(format!("record {} is the row `{row}` under `{rest}`", x.show()));
                        }
                    }
                    return Ok(());
                }
            }
            let n = vs.len();
            if n <= 10 {
                count(n)?;
                for (i, x) in vs.iter().enumerate() {
                    node(&i.to_string(), x, &ns[i], om)?;
                }
            } else {
                // the documented preview: ten elements, a mark, the last element
                count(if n == 11 { 11 } else { 12 })?;
                for i in 0..10 {
                    node(&i.to_string(), &vs[i], &ns[i], om)?;
                }
                if n > 11 && !matches!(ns[10], Node::Skip) {
                    return Err("left out elements are not marked".into());
                }
                node(&(n - 1).to_string(), &vs[n - 1], ns.last().unwrap(), om)?;
            }
            Ok(())
        }
        _ => Err(format!("value {} is printed as {lines:?}", v.show())),
    }
}
fn read_tree(v: &Rv, text: &str) -> Result<u64, String> {
    // fallback values are laid out on a line of their own
    let text = text.replace(" :=\n(FALLBACK)", " := (FALLBACK)");
    let lines: Vec<String> = text.trim_end_matches('\n').split('\n').map(str::to_string).collect();
    let mut om = 0;
    block(v, &lines, &mut om)?;
    Ok(om)
}
/// the located text without its locations
fn unlocate(t: &str) -> String {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find(" \t[") {
        out.push_str(&rest[..i]);
        let tail = &rest[i + 3..];
        match tail.find(']') {
            Some(j) if tail[..j].starts_with("BUF(") || &tail[..j] == "<SYNTH>" => rest = &tail[j + 1..],
            _ => {
                out.push_str(" \t[");
                rest = tail;
            }
        }
    }
    out + rest
}
/// without the names of formats, which the two forms add to different parts
fn bare(t: &str) -> Vec<String> {
    t.lines()
        .map(|l| match l.find(" <- ") {
            None => l.to_string(),
            Some(i) => match l[i..].find(" :=") {
                Some(j) => format!("{}{}", &l[..i], &l[i + j..]),
                None => l[..i].to_string(),
            },
        })
        .collect()
}
/// some parts of several lines are laid out inside the braces of their variant and cannot be read line by line
fn braced(t: &str) -> bool {
    t.lines().any(|l| l.starts_with("{ ") || l.starts_with(" }") || l.contains(":= ├") || l.contains(":= └") || l.contains(":= │"))
}
/// the alternatives taken, in order
fn choices(v: &Value, out: &mut Vec<usize>) {
    match v {
        Value::Tuple(vs) => vs.iter().for_each(|v| choices(v, out)),
        Value::Record(vs) => vs.iter().for_each(|v| choices(&v.1, out)),
        Value::Seq(SeqKind::Dup(_, v)) => choices(v, out),
        Value::Seq(SeqKind::Strict(vs)) => vs.iter().for_each(|v| choices(v, out)),
        Value::Branch(i, v) => {
            out.push(*i);
            choices(v, out)
        }
        Value::Variant(_, v) => choices(v, out),
        Value::Mapped(a, b) => {
            choices(a, out);
            choices(b, out)
        }
        Value::Option(Some(v)) | Value::Permit(Ok(v) | Err(Some(v))) => choices(v, out),
        _ => (),
    }
}
/// has at most `n` parts once written out
fn small(v: &Value, n: &mut i64) -> bool {
    *n -= 1;
    if *n < 0 {
        return false;
    }
    match v {
        Value::EnumFromTo(r) => {
            *n -= r.len() as i64;
            *n >= 0
        }
        Value::Tuple(vs) => vs.iter().all(|v| small(v, n)),
        Value::Record(vs) => vs.iter().all(|v| small(&v.1, n)),
        Value::Seq(SeqKind::Dup(k, v)) => {
            let before = *n;
            if !small(v, n) {
                return false;
            }
            *n -= (before - *n).saturating_mul(*k as i64);
            *n >= 0
        }
        Value::Seq(SeqKind::Strict(vs)) => vs.iter().all(|v| small(v, n)),
        Value::Variant(_, v) | Value::Branch(_, v) => small(v, n),
        Value::Mapped(a, b) => small(a, n) && small(b, n),
        Value::Option(Some(v)) => small(v, n),
        Value::Permit(Ok(v) | Err(Some(v))) => small(v, n),
        _ => true,
    }
}
/// may print alike: equal up to hidden fields, elements left out of the preview, and the number of elements that a
/// repetition of one constant part has (parts implied by the format are documented to be left out)
fn alike(a: &Rv, b: &Rv) -> bool {
    match (a, b) {
        (Rv::Rec(x), Rv::Rec(y)) => {
            let (x, y) = (visible(x), visible(y));
            x.len() == y.len() && x.iter().zip(&y).all(|(p, q)| p.0 == q.0 && alike(&p.1, &q.1))
        }
        (Rv::Tuple(x), Rv::Tuple(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| alike(p, q)),
        (Rv::Seq(x), Rv::Seq(y)) => {
            let mut all = x.iter().chain(y.iter());
            let constant = match all.next() {
                None => true,
                Some(f) => all.all(|z| alike(f, z)),
            };
            constant
                || x.len() == y.len()
                    && x.iter().zip(y.iter()).enumerate().all(|(i, (p, q))| i >= 10 && i + 1 != x.len() && as_text(x).is_empty() | (x.len() > 10) || alike(p, q))
        }
        (Rv::Var(l, x), Rv::Var(m, y)) => l == m && alike(x, y),
        (Rv::Opt(Some(x)), Rv::Opt(Some(y))) => alike(x, y),
        _ => a == b,
    }
}

// ---- reading JSON back --------------------------------------------------------------------------------------

fn unjson(j: &J) -> Option<Rv> {
    let d = &j["data"];
    let kids = |d: &J| d.as_array()?.iter().map(unjson).collect::<Option<Vec<_>>>();
    let seq = |d: &J| {
        Some(match d["tag"].as_str()? {
            "Strict" => Rv::seq(kids(&d["data"])?),
            _ => Rv::seq(vec![unjson(&d["data"][1])?; d["data"][0].as_u64()? as usize]),
        })
    };
    // a located value keeps its content beside its location
    let here = |d: &J| if d.get("loc").is_some() { d["data"].clone() } else { d.clone() };
    Some(match j["tag"].as_str()? {
        "Bool" => Rv::Bool(d.as_bool()?),
        "U8" => Rv::U8(d.as_u64()?.try_into().ok()?),
        "U16" => Rv::U16(d.as_u64()?.try_into().ok()?),
        "U32" => Rv::U32(d.as_u64()?.try_into().ok()?),
        "U64" => Rv::U64(d.as_u64()?),
        "Usize" => Rv::Usize(d.as_u64()?),
        "Char" => Rv::Char(d.as_str()?.chars().next()?),
        "Numeric" => {
            use doodle::numeric::core::NumRep as N;
            let n: BigInt = d[0].as_str()?.parse().ok()?;
            let r = [N::U8, N::U16, N::U32, N::U64, N::I8, N::I16, N::I32, N::I64].into_iter().find(|r| Some(r.to_static_str()) == d[1].as_str())?;
            Rv::Num(n, r)
        }
        "View" => Rv::View(d["offset"].as_u64()? as usize),
        "PhantomData" => Rv::Phantom,
        "EnumFromTo" => Rv::seq((d["start"].as_u64()?..d["end"].as_u64()?).map(Rv::Usize).collect()),
        "Option" => Rv::Opt(if d.is_null() { None } else { Some(unjson(d)?.into()) }),
        "Flat" => unjson(&d["data"])?,
        "Tuple" => Rv::tuple(kids(&here(d))?),
        "Seq" => seq(&here(d))?,
        "Record" => Rv::Rec(here(d).as_array()?.iter().map(|f| Some((f[0].as_str()?.to_string(), unjson(&f[1])?))).collect::<Option<Vec<_>>>()?.into()),
        "Variant" => Rv::Var(d[0].as_str()?.into(), unjson(&d[1])?.into()),
        "Mapped" | "Branch" => unjson(&d[1])?,
        "Permit" => {
            if let Some(x) = d.get("Ok") {
                unjson(x)?
            } else if d["Err"].is_null() {
                Rv::Phantom
            } else {
                unjson(&d["Err"])?
            }
        }
        _ => return None,
    })
}

// ---- one decoded value --------------------------------------------------------------------------------------

struct Ctx<'a> {
    rep: &'a Report,
    m: &'a FormatModule,
    f: &'a Format,
    /// structure is read back
    walk: bool,
    samples: bool,
    texts: HashMap<(Vec<usize>, String), Rv>,
}
impl Ctx<'_> {
    fn bad(&self, key: &str, what: String, inp: &[u8], text: &str) {
        self.rep.violation(
            key,
            what,
            json!({"input": hex(inp), "printed": text.chars().take(3000).collect::<String>(), "format": format!("{:?}", self.f).chars().take(2000).collect::<String>(), "module": serde_json::to_value(self.m).unwrap_or(J::Null)}),
        );
    }
    fn value(&mut self, inp: &[u8], v: &Value, loc: Option<&ParsedValue>) {
        let rep = self.rep;
        let mut budget = if self.samples { 400_000 } else { 20_000 };
        if !small(v, &mut budget) {
            rep.count("values too large to print here", 1);
            return;
        }
        rep.eval(1);
        let rv = Rv::erase(v);
        let text = match guarded(|| TreePrinter::new(self.m).compile_decoded_value(v, self.f).to_string()) {
            Ok(t) => t,
            Err(e) => return self.bad("tree abort", format!("printing the tree of a decoded value aborts: {e}"), inp, ""),
        };
        rep.sig(&hash_of(&text));
        rep.count("printed lines", text.lines().count() as u64);
        if self.walk {
            match read_tree(&rv, &text) {
                Ok(om) => {
                    rep.count("trees read back", 1);
                    rep.count("parts left out as implied", om);
                }
                Err(_) if braced(&text) => rep.count("trees with blocks inside braces", 1),
                Err(e) => self.bad("tree content", format!("the printed tree does not show the decoded value: {e}"), inp, &text),
            }
        }
        let mut ch = vec![];
        choices(v, &mut ch);
        // the constants of different alternatives are left out alike, so the alternatives taken are part of the key
        match self.texts.get(&(ch.clone(), text.clone())) {
            Some(o) if !alike(o, &rv) => {
                self.bad("tree loss", format!("two different values print alike: {} and {}", o.show(), rv.show()), inp, &text);
            }
            Some(o) => rep.count(if *o == rv { "same value again" } else { "pairs differing only in elided parts" }, 1),
            None => {
                rep.count("values printed apart", 1);
                self.texts.insert((ch, text.clone()), rv.clone());
            }
        }
        let mut out = vec![];
        match guarded(|| doodle::output::flat::Context::new(&mut out, self.m).write_flat(v, self.f)) {
            Ok(Ok(())) => rep.count("flat outputs", 1),
            Ok(Err(e)) => self.bad("flat", format!("flat output fails: {e}"), inp, ""),
            Err(e) => self.bad("flat", format!("flat output aborts: {e}"), inp, ""),
        }
        let back = serde_json::to_string(v).ok().and_then(|t| serde_json::from_str::<J>(&t).ok()).and_then(|j| unjson(&j));
        if back.as_ref() != Some(&rv) {
            self.bad("json", format!("JSON gives {:?} for {}", back.map(|b| b.show()), rv.show()), inp, "");
        }
        rep.count("JSON values read back", 1);
        let Some(pv) = loc else { return };
        match guarded(|| TreePrinter::new(self.m).compile_parsed_decoded_value(pv, self.f).to_string()) {
            Ok(t) => {
                let (u, w) = (bare(&unlocate(&t)), bare(&text));
                // the located form spells some strings out: then its own text has to show the value
                let spelt = u != w && (self.samples || !self.walk || braced(&unlocate(&t)) || self.walk && read_tree(&rv, &unlocate(&t)).is_ok());
                if spelt {
                    rep.count("located trees in a layout of their own", 1);
                } else if u != w {
                    let none = (String::new(), String::new());
                    let (a, b) = u.into_iter().zip(w).find(|(a, b)| a != b).unwrap_or(none);
                    self.bad("located tree", format!("the located tree shows `{a}` where the plain tree shows `{b}`"), inp, &t);
                }
                rep.count("located trees compared", 1);
            }
            Err(e) => self.bad("located tree abort", format!("printing the located tree aborts: {e}"), inp, &text),
        }
        let back = serde_json::to_string(pv).ok().and_then(|t| serde_json::from_str::<J>(&t).ok()).and_then(|j| unjson(&j));
        let lrv = Rv::erase(&Value::from(pv.clone()));
        if back.as_ref() != Some(&lrv) {
            self.bad("json", format!("located JSON gives {:?} for {}", back.map(|b| b.show()), lrv.show()), inp, "");
        }
        if rep.get("sampled") < 6 && text.lines().count() > 4 && inp.len() < 60 {
            rep.count("sampled", 1);
            rep.sample(json!({"value": rv.show(), "tree": text}));
        }
    }
}

// ---- formats made of what the printer treats specially ----------------------------------------------------

type Input = Box<dyn Fn(&mut Rng) -> Vec<u8>>;
struct G<'a> {
    r: &'a mut Rng,
    m: &'a mut FormatModule,
    text: Format,
    defs: usize,
}
fn any(n: usize) -> Input {
    Box::new(move |r| r.bytes(n))
}
fn cat(v: Vec<Input>) -> Input {
    Box::new(move |r| v.iter().flat_map(|f| f(r)).collect())
}
const LABELS: [&str; 8] = ["a", "bb", "ccc", "width", "string", "x1", "some", "len"];
impl G<'_> {
    fn fields(&mut self, n: usize) -> Vec<&'static str> {
        let k = self.r.below(8);
        (0..n).map(|i| LABELS[(k + i * 3) % 8]).collect()
    }
    fn chr(&mut self) -> (Format, Input) {
        match self.r.below(3) {
            0 => (ascii_char(), any(1)),
            1 => (ascii_char(), Box::new(|r| vec![*r.pick(b"\0\t\n\r\"\\ ~aZ\x7f\x80\xff{}:=[]")])),
            _ => (ascii_decimal_digit(), Box::new(|r| vec![b'0' + r.below(10) as u8])),
        }
    }
    fn piece(&mut self, d: usize) -> (Format, Input) {
        let k = if d == 0 { self.r.below(13) } else { self.r.below(28) };
        match k {
            0 | 1 => (u8(), any(1)),
            2 => (u16be(), any(2)),
            3 => (if self.r.chance(1, 2) { u32le() } else { u64be() }, any(8)),
            4 => {
                let x = self.r.byte();
                (is_byte(x), Box::new(move |_| vec![x]))
            }
            5 => (map(u8(), lambda("x", expr_lt(var("x"), Expr::U8(128)))), any(1)),
            6 => (map(u8(), lambda("x", as_char(var("x")))), Box::new(|r| vec![*r.pick(b"a'\"\n\\\x80\xe9\0")])),
            7 => (base::i16be(), any(2)),
            8 => (compute(Expr::U32(self.r.next() as u32)), any(0)),
            9 => {
                let f = chain(u8(), "n", compute(dup(as_u32(bit_and(var("n"), Expr::U8(15))), var("n"))));
                (f, any(1))
            }
            10 => (chain(u8(), "n", compute(enum_from_to(Expr::U32(3), add(Expr::U32(3), as_u32(var("n")))))), any(1)),
            11 => {
                let t = self.r.below(3);
                let f = match t {
                    0 => bit_fields_u8([BitFieldKind::FlagBit("f0"), BitFieldKind::FlagBit("f1"), BitFieldKind::Reserved { bit_width: 5, check_zero: false }, BitFieldKind::FlagBit("f2")]),
                    1 => bit_fields_u8([BitFieldKind::FlagBit("f0"), BitFieldKind::BitsField { field_name: "n", bit_width: 7 }]),
                    _ => u4_pair("hi", "lo"),
                };
                (f, any(1))
            }
            12 => {
                let (a, b) = (self.r.byte(), self.r.byte());
                (permit(is_byte(a), Expr::U8(b)), Box::new(move |_| vec![a]))
            }
            13 | 14 => {
                let n = self.r.below(5);
                let (mut f, mut i) = (vec![], vec![]);
                for _ in 0..n {
                    let (a, b) = self.piece(d - 1);
                    f.push(a);
                    i.push(b);
                }
                (tuple(f), cat(i))
            }
            15 | 16 => {
                let n = self.r.range(1, 5);
                let names = self.fields(n);
                let (mut f, mut i) = (vec![], vec![]);
                let auto = self.r.chance(1, 2);
                for (k, n) in names.into_iter().enumerate() {
                    let (a, b) = self.piece(d - 1);
                    let l = match self.r.below(5) {
                        0 if !auto => format!("__{n}{k}"),
                        0 => format!("_{n}{k}"),
                        1 if auto => format!("__{n}{k}"),
                        _ => n.to_string(),
                    };
                    f.push((l, a));
                    i.push(b);
                }
                (if auto { record_auto(f) } else { record(f) }, cat(i))
            }
            17 | 18 => {
                // lengths around the preview limit
                let n = *self.r.pick(&[0, 1, 2, 9, 10, 11, 12, 13, 25]);
                let (a, b) = self.piece(d - 1);
                let b = std::rc::Rc::new(b);
                if self.r.chance(1, 3) {
                    (seq_repeat(n, a), Box::new(move |r| (0..n).flat_map(|_| b(r)).collect()))
                } else {
                    (repeat_count(Expr::U32(n as u32), a), Box::new(move |r| (0..n).flat_map(|_| b(r)).collect()))
                }
            }
            19 => {
                // sequences of flat records become tables
                let n = self.r.range(1, 4);
                let k = self.r.below(14);
                let names = self.fields(n);
                let f: Vec<(String, Format)> = names.iter().enumerate().map(|(i, l)| (if i + 1 < n && self.r.chance(1, 5) { format!("__{l}") } else { l.to_string() }, u8())).collect();
                (repeat_count(Expr::U32(k as u32), record(f)), any(n * k))
            }
            20 => {
                let n = self.r.below(20);
                let (c, g) = self.chr();
                (fixed_len_string(c, n as u32), Box::new(move |r| (0..n).flat_map(|_| g(r)).collect()))
            }
            21 => {
                let n = self.r.range(1, 4);
                let mut cs = vec![];
                let mut gs = vec![];
                for _ in 0..n {
                    let (c, g) = self.chr();
                    cs.push(c);
                    gs.push(g);
                }
                (if self.r.chance(1, 2) { tuple(cs) } else { seq(cs) }, cat(gs))
            }
            22 => (
                asciiz_string(),
                Box::new(|r| {
                    let mut v = vec![];
                    for _ in 0..r.below(12) {
                        match r.below(4) {
                            0 => v.extend_from_slice(r.pick(&[&b"\\xA1"[..], b"\\n", b"\\", b"\"", b"\\\\", b"\n"])),
                            _ => v.push(1 + r.below(255) as u8),
                        }
                    }
                    v.push(0);
                    v
                }),
            ),
            23 => {
                let f = chain(u8(), "n", slice(var("n"), self.text.clone()));
                (f, Box::new(|r| {
                    let s: String = (0..r.below(14)).map(|_| *r.pick(&['a', '"', '\n', 'é', '\u{2028}', '漢', '😀', '\\', '\0', '\u{301}'])).collect();
                    [&[s.len() as u8], s.as_bytes()].concat()
                }))
            }
            24 => {
                let (a, b) = self.piece(d - 1);
                let l = *self.r.pick(&LABELS);
                (fmt_variant(l, a), b)
            }
            25 => {
                let (a, b) = self.piece(d - 1);
                let l = *self.r.pick(&["p", "qq"]);
                let f = chain(u8(), "t", match_variant(bit_and(var("t"), Expr::U8(1)), [(doodle::Pattern::U8(0), l, a), (doodle::Pattern::U8(1), "other", u8())]));
                (f, Box::new(move |r| {
                    let t = r.byte();
                    let mut v = vec![t];
                    v.extend(if t & 1 == 0 { b(r) } else { vec![r.byte()] });
                    v
                }))
            }
            26 => {
                let (a, b) = self.piece(d - 1);
                let f = chain(u8(), "t", cond_maybe(expr_lt(var("t"), Expr::U8(100)), a));
                (f, Box::new(move |r| {
                    let t = r.byte();
                    let mut v = vec![t];
                    v.extend(if t < 100 { b(r) } else { vec![] });
                    v
                }))
            }
            _ => {
                let (a, b) = self.piece(d - 1);
                self.defs += 1;
                let n = format!("part{}", self.defs);
                match self.r.below(4) {
                    0 => (fmt_some(a), b),
                    1 => (phantom(a), any(0)),
                    _ => (self.m.define_format(n, a).call(), b),
                }
            }
        }
    }
}

/// rows of a located table show where their record lies
fn located_table(rep: &Report) {
    let m = FormatModule::new();
    for k in 1..=3usize {
        for n in 1..=6usize {
            let f = repeat_count(Expr::U32(n as u32), record(LABELS[..k].iter().map(|l| (*l, u8())).collect::<Vec<_>>()));
            let Comp::Ok(p) = eng::compile(&m, &f) else { continue };
            let inp: Vec<u8> = (0..(n * k) as u8).collect();
            let Ok(Some((pv, _))) = eng::run_loc(&p, &inp) else { continue };
            rep.eval(1);
            let t = guarded(|| TreePrinter::new(&m).compile_parsed_decoded_value(&pv, &f).to_string()).unwrap_or_default();
            for (i, l) in t.lines().skip(1).enumerate() {
                let want = format!("[BUF({}:+{k})]", i * k);
                if !l.ends_with(&want) {
                    rep.violation("table location", format!("row {i} of a located table of {k}-byte records reads `{l}`, its record is at {want}"), json!({"input": inp, "printed": t}));
                }
            }
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(120);
    located_table(rep);
    // what the printer treats specially
    par(rep.scale(6000, 200_000), |i| {
        let mut rng = Rng::derive(rep.seed, hash_of(&("c17", i)));
        let mut m = FormatModule::new();
        let (text, _) = doodle_formats::format::text::main(&mut m);
        let d = rng.range(1, 4);
        let Ok((f, mk)) = guarded(|| G { r: &mut rng, m: &mut m, text: text.call(), defs: 0 }.piece(d)) else { return };
        let Some(Comp::Ok(p)) = eng::compile_within(&m, &f, 2_000_000) else {
            rep.count("descriptions not compiled", 1);
            return;
        };
        rep.count("display descriptions", 1);
        let mut c = Ctx { rep, m: &m, f: &f, walk: true, samples: false, texts: HashMap::new() };
        for _ in 0..6 {
            let inp = mk(&mut rng);
            let Ok(Some((v, _))) = eng::run_raw(&p, &inp) else {
                rep.count("not decoded", 1);
                continue;
            };
            let loc = eng::run_loc(&p, &inp).ok().flatten();
            rep.watched(|| format!("printing {}", hex(&inp)), || c.value(&inp, &v, loc.as_ref().map(|x| &x.0)));
        }
    });
    // arbitrary descriptions
    par(rep.scale(12_000, 400_000), |i| {
        let mut cfg = c01::cfg_for(i);
        cfg.permit = i % 8 == 0;
        let walk = !cfg.permit;
        let Ok(b) = c01::gen_module(rep.seed, 0x17, i, cfg) else { return };
        let f = b.main.call();
        let Some(Comp::Ok(p)) = eng::compile_within(&b.m, &f, 200_000) else { return };
        let sigs = refint::sigs(&b.m);
        let mut r = Ref::new(&b.m, &sigs);
        r.look.fuel.set(60_000);
        let mut rng = Rng::derive(rep.seed, 0x1717 ^ (i as u64) << 20);
        let dbg = format!("{:?}", b.m);
        // accumulations are printed as a pair whose layout cannot be read back line by line
        let walk = walk && !dbg.contains("AccumUntil(");
        let mut c = Ctx { rep, m: &b.m, f: &f, walk, samples: false, texts: HashMap::new() };
        for inp in c01::inputs(&mut r, &f, &mut rng, 8) {
            r.fuel.set(100_000);
            if !matches!(r.run(&f, &inp), Ok(_) | Err(refint::Stop::Reject)) {
                continue;
            }
            let Ok(Some((v, _))) = eng::run_raw(&p, &inp) else { continue };
            let loc = eng::run_loc(&p, &inp).ok().flatten();
            rep.watched(|| format!("printing {}", hex(&inp)), || c.value(&inp, &v, loc.as_ref().map(|x| &x.0)));
        }
    });
    // shipped formats on the shipped samples
    let files = corpus::files(if rep.thorough() { 400_000 } else { 60_000 });
    let n = files.len();
    par(n, |i| {
        let corpus::Sample { name, data } = &files[i];
        // compressed content unfolds into very large values
        let heavy = name.ends_with(".gz") || name.ends_with(".png") || name.ends_with(".zlib");
        if heavy && data.len() > rep.scale(1500, 6000) {
            return;
        }
        let mut m = FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        let Comp::Ok(p) = eng::compile(&m, &f) else { return };
        let Ok(Some((v, _))) = eng::run_raw(&p, data) else { return };
        rep.count("sample files printed", 1);
        let loc = if heavy || data.len() > 20_000 { None } else { eng::run_loc(&p, data).ok().flatten() };
        let mut c = Ctx { rep, m: &m, f: &f, walk: false, samples: true, texts: HashMap::new() };
        rep.watched(|| format!("printing {name}"), || c.value(data, &v, loc.as_ref().map(|x| &x.0)));
    });
    "each evaluation prints one decoded value as tree, located tree, flat output and JSON and reads the tree and the JSON back; values that differ must print differently unless they differ only in elided parts"
}
