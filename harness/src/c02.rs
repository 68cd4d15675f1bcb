//! C02: choice points are decided soundly; ambiguity is refused.
//! Oracle: the set of *all* parses of a word under a regular format, enumerated declaratively.
use crate::c01::{cfg_for, describe, gen_module};
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, guarded, hex, par};
use crate::fgen::bx;
use crate::look::{Looker, end};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::byte_set::ByteSet;
use doodle::{Expr, Format, FormatModule};
use serde_json::json;
use std::collections::{HashMap, HashSet};
use std::sync::Arc as Rc;

/// regular formats
#[derive(Clone, Debug)]
enum R {
    B(Vec<u8>),
    Seq(Vec<R>),
    Alt(Vec<R>),
    Star(Box<R>),
    Plus(Box<R>),
    Count(usize, Box<R>),
    Between(usize, usize, Box<R>),
    End,
    Def(usize),
    Slice(usize, Box<R>),
    /// lookahead for (or against) a fixed string of byte sets
    Peek(bool, Vec<Vec<u8>>),
    /// a fixed string of byte sets, or a fallback value where it does not match
    Permit(Vec<Vec<u8>>),
    Opt(bool, Box<R>),
    Mapped(Box<R>),
    /// bind, then continue
    Bind(Box<R>, Box<R>),
}

const ALPHA: [u8; 3] = [7, 200, 64];

struct G<'a> {
    r: &'a mut Rng,
    defs: usize,
    fuel: i32,
}
impl G<'_> {
    fn set(&mut self) -> Vec<u8> {
        match self.r.below(8) {
            0 => vec![ALPHA[0], ALPHA[1]],
            1 => vec![ALPHA[1], ALPHA[2]],
            2 => ALPHA.to_vec(),
            k => vec![ALPHA[k % 3]],
        }
    }
    /// a short string of byte sets, often behind a lookahead that narrows it beyond its first byte
    fn looking(&mut self) -> R {
        let n = self.r.range(1, 4);
        self.fuel -= n as i32 / 2;
        let mut v = vec![];
        if self.r.chance(2, 3) {
            let neg = self.r.chance(1, 3);
            v.push(R::Peek(neg, (0..self.r.range(1, n.min(3))).map(|_| self.set()).collect()));
        }
        for _ in 0..n {
            v.push(R::B(if self.r.chance(1, 2) { ALPHA.to_vec() } else { self.set() }));
        }
        R::Seq(v)
    }
    fn go(&mut self, d: usize) -> R {
        self.fuel -= 1;
        if d == 0 || self.fuel <= 0 {
            return if self.r.chance(1, 12) { R::Seq(vec![]) } else { R::B(self.set()) };
        }
        match self.r.below(24) {
            0..=3 => R::B(self.set()),
            4..=8 => {
                let k = self.r.range(0, 3);
                R::Seq((0..k).map(|_| self.go(d - 1)).collect())
            }
            9..=13 => {
                let k = self.r.range(1, 3);
                if self.r.chance(1, 5) {
                    return R::Alt((0..k.max(2)).map(|_| self.looking()).collect());
                }
                R::Alt((0..k).map(|_| self.go(d - 1)).collect())
            }
            14 | 15 => R::Star(bx(self.go(d - 1))),
            16 => R::Plus(bx(self.go(d - 1))),
            17 => R::Count(self.r.below(4), bx(self.go(d - 1))),
            18 => {
                let lo = self.r.below(3);
                R::Between(lo, lo + self.r.below(3), bx(self.go(d - 1)))
            }
            19 => match self.r.below(5) {
                4 => {
                    let n = self.r.range(1, 2);
                    R::Permit((0..n).map(|_| self.set()).collect())
                }
                0 => R::End,
                1 => R::Slice(self.r.range(1, 3), bx(self.go(d - 1))),
                2 => {
                    let n = self.r.range(1, 2);
                    let neg = self.r.chance(1, 2);
                    R::Peek(neg, (0..n).map(|_| self.set()).collect())
                }
                _ => R::Opt(self.r.chance(2, 3), bx(self.go(d - 1))),
            },
            20 => R::Mapped(bx(self.go(d - 1))),
            21 => R::Bind(bx(self.go(d - 1)), bx(self.go(d - 1))),
            _ if self.defs > 0 => R::Def(self.r.below(self.defs)),
            _ => R::B(self.set()),
        }
    }
}

fn bs(v: &[u8]) -> ByteSet {
    let mut s = ByteSet::new();
    for b in v {
        s.insert(*b);
    }
    s
}
fn fmt(r: &R, refs: &[doodle::FormatRef]) -> Format {
    let f = |r: &R| bx(fmt(r, refs));
    match r {
        R::B(v) => Format::Byte(bs(v)),
        R::Seq(v) => Format::Tuple(v.iter().map(|r| fmt(r, refs)).collect()),
        R::Alt(v) => Format::Union(v.iter().enumerate().map(|(i, r)| Format::Variant(format!("V{i}").into(), f(r))).collect()),
        R::Star(r) => Format::Repeat(f(r)),
        R::Plus(r) => Format::Repeat1(f(r)),
        R::Count(n, r) => Format::RepeatCount(bx(Expr::U32(*n as u32)), f(r)),
        R::Between(a, b, r) => Format::RepeatBetween(bx(Expr::U32(*a as u32)), bx(Expr::U32(*b as u32)), f(r)),
        R::End => Format::EndOfInput,
        R::Def(i) => refs[*i].call(),
        R::Slice(n, r) => Format::Slice(bx(Expr::U32(*n as u32)), f(r)),
        R::Peek(neg, v) => {
            let t = bx(Format::Tuple(v.iter().map(|b| Format::Byte(bs(b))).collect()));
            if *neg { Format::PeekNot(t) } else { Format::Peek(t) }
        }
        R::Permit(v) => Format::Permit(bx(Format::Tuple(v.iter().map(|b| Format::Byte(bs(b))).collect())), bx(Expr::Tuple(v.iter().map(|_| Expr::U8(0xee)).collect()))),
        R::Opt(b, r) => Format::Maybe(bx(Expr::Bool(*b)), f(r)),
        R::Mapped(r) => Format::Map(f(r), bx(Expr::Lambda("m".into(), bx(Expr::Tuple(vec![Expr::Var("m".into())]))))),
        R::Bind(a, b) => Format::LetFormat(f(a), "q".into(), f(b)),
    }
}

fn nullable(r: &R, defs: &[R]) -> bool {
    match r {
        R::B(_) => false,
        R::Seq(v) => v.iter().all(|r| nullable(r, defs)),
        R::Alt(v) => v.is_empty() || v.iter().any(|r| nullable(r, defs)),
        R::Star(_) | R::End | R::Peek(..) | R::Permit(_) | R::Opt(..) => true,
        R::Plus(r) | R::Mapped(r) => nullable(r, defs),
        R::Count(n, r) | R::Between(n, _, r) => *n == 0 || nullable(r, defs),
        R::Slice(n, _) => *n == 0,
        R::Def(k) => nullable(&defs[*k], defs),
        R::Bind(a, b) => nullable(a, defs) && nullable(b, defs),
    }
}
/// is there a counted repetition of something that may consume nothing
fn repeats_nothing(r: &R, defs: &[R]) -> bool {
    match r {
        R::B(_) | R::End | R::Peek(..) | R::Permit(_) => false,
        R::Seq(v) | R::Alt(v) => v.iter().any(|r| repeats_nothing(r, defs)),
        R::Count(_, r) | R::Between(_, _, r) => nullable(r, defs) || repeats_nothing(r, defs),
        R::Star(r) | R::Plus(r) | R::Mapped(r) | R::Slice(_, r) | R::Opt(_, r) => repeats_nothing(r, defs),
        R::Def(k) => repeats_nothing(&defs[*k], defs),
        R::Bind(a, b) => repeats_nothing(a, defs) || repeats_nothing(b, defs),
    }
}

/// is there a lookahead that may see further than the bytes that follow it in its own sequence
fn peeks_past(r: &R, defs: &[R]) -> bool {
    match r {
        R::B(_) | R::End | R::Permit(_) => false,
        R::Peek(..) => true,
        R::Seq(v) => v.iter().enumerate().any(|(i, x)| match x {
            R::Peek(_, s) => v[i + 1..].iter().take_while(|y| matches!(y, R::B(_))).count() < s.len(),
            x => peeks_past(x, defs),
        }),
        R::Alt(v) => v.iter().any(|r| peeks_past(r, defs)),
        R::Count(_, r) | R::Between(_, _, r) | R::Star(r) | R::Plus(r) | R::Mapped(r) | R::Slice(_, r) | R::Opt(_, r) => peeks_past(r, defs),
        R::Def(k) => peeks_past(&defs[*k], defs),
        R::Bind(a, b) => peeks_past(a, defs) || peeks_past(b, defs),
    }
}

/// the listed finding: where a lookahead outlasts its branch, what may follow the branch is forgotten
fn probe_peek_past(rep: &Report) {
    let any = || R::B(ALPHA.to_vec());
    let body = R::Alt(vec![R::Seq(vec![any(), any(), any()]), R::Seq(vec![R::Peek(false, vec![vec![64], vec![7]]), R::B(vec![64])])]);
    let mut m = FormatModule::new();
    let f = m.define_format("t.p", fmt(&R::Star(bx(body)), &[])).call();
    rep.eval(1);
    if let Comp::Ok(p) = eng::compile(&m, &f) {
        let got = eng::run(&p, &[64, 7, 7, 7]);
        if !matches!(got, Out::Ok(_, 4)) {
            rep.violation("peek-past", "a lookahead that outlasts its branch: the compiled Star([any any any | peek(64 7) 64]) refuses 40070707, which has a parse", json!({"format": format!("{f:?}"), "input": "40070707"}));
        }
    }
}

/// the listed finding: one zero-width choice per repetition is decided without regard to later repetitions
fn probe_nullable_count(rep: &Report) {
    let body = R::Alt(vec![R::Seq(vec![R::B(vec![7]), R::B(ALPHA.to_vec()), R::B(vec![64])]), R::Peek(false, vec![vec![7, 200]])]);
    let mut m = FormatModule::new();
    let f = m.define_format("t.p", fmt(&R::Count(2, bx(body)), &[])).call();
    rep.eval(1);
    if let Comp::Ok(p) = eng::compile(&m, &f) {
        if eng::run(&p, &[7, 7, 64]) == Out::Reject {
            rep.violation("nullable-count", "a counted repetition of a choice with a zero-width option refuses an input that has a parse: Count(2, [7 any 64 | peek 7/200]) on 070740", json!({"format": format!("{f:?}"), "input": "070740"}));
        }
    }
}

struct Par<'a> {
    w: &'a [u8],
    defs: &'a [R],
    /// slices must be filled exactly
    strict: bool,
    memo: HashMap<(*const R, usize, usize), Rc<Vec<(Rv, usize)>>>,
    work: usize,
}
impl Par<'_> {
    /// all (value, end) of `r` from `i` in the window ending at `lim`
    fn all(&mut self, r: &R, i: usize, lim: usize) -> Rc<Vec<(Rv, usize)>> {
        let k = (r as *const R, i, lim);
        if let Some(x) = self.memo.get(&k) {
            return x.clone();
        }
        let v = self.compute(r, i, lim);
        self.work += v.len() + 1;
        let v = Rc::new(v);
        self.memo.insert(k, v.clone());
        v
    }
    fn seq(&mut self, rs: &[&R], i: usize, lim: usize) -> Vec<(Vec<Rv>, usize)> {
        let mut cur = vec![(vec![], i)];
        for r in rs {
            let mut nxt = vec![];
            for (vs, j) in &cur {
                for (v, e) in self.all(r, *j, lim).iter() {
                    let mut x: Vec<Rv> = vs.clone();
                    x.push(v.clone());
                    nxt.push((x, *e));
                }
            }
            self.work += nxt.len();
            if self.work > 200_000 {
                return vec![];
            }
            cur = nxt;
        }
        cur
    }
    fn reps(&mut self, r: &R, lo: usize, hi: Option<usize>, i: usize, lim: usize) -> Vec<(Rv, usize)> {
        let mut out = vec![];
        let mut cur = vec![(vec![], i)];
        let mut n = 0;
        loop {
            if n >= lo {
                for (vs, e) in &cur {
                    out.push((Rv::seq(vs.clone()), *e));
                }
            }
            if hi == Some(n) || cur.is_empty() || n > 40 {
                return out;
            }
            let mut nxt = vec![];
            for (vs, j) in &cur {
                for (v, e) in self.all(r, *j, lim).iter() {
                    if hi.is_none() && e == j {
                        continue;
                    }
                    let mut x: Vec<Rv> = vs.clone();
                    x.push(v.clone());
                    nxt.push((x, *e));
                }
            }
            self.work += nxt.len();
            if self.work > 200_000 {
                return vec![];
            }
            cur = nxt;
            n += 1;
        }
    }
    fn compute(&mut self, r: &R, i: usize, lim: usize) -> Vec<(Rv, usize)> {
        match r {
            R::B(s) => {
                if i < lim && s.contains(&self.w[i]) {
                    vec![(Rv::U8(self.w[i]), i + 1)]
                } else {
                    vec![]
                }
            }
            R::Seq(v) => {
                let rs: Vec<&R> = v.iter().collect();
                self.seq(&rs, i, lim).into_iter().map(|(v, e)| (Rv::tuple(v), e)).collect()
            }
            R::Alt(v) => {
                let mut out = vec![];
                for (k, a) in v.iter().enumerate() {
                    for (x, e) in self.all(a, i, lim).iter() {
                        out.push((Rv::Var(format!("V{k}").into(), Rc::new(x.clone())), *e));
                    }
                }
                out
            }
            R::Star(a) => self.reps(a, 0, None, i, lim),
            R::Plus(a) => self.reps(a, 1, None, i, lim),
            R::Count(n, a) => self.reps(a, *n, Some(*n), i, lim),
            R::Between(lo, hi, a) => self.reps(a, *lo, Some(*hi), i, lim),
            R::End => {
                if i == lim {
                    vec![(Rv::unit(), i)]
                } else {
                    vec![]
                }
            }
            R::Def(k) => {
                let d: &R = &self.defs[*k];
                self.all(d, i, lim).to_vec()
            }
            R::Slice(n, a) => {
                if i + n > lim {
                    return vec![];
                }
                let strict = self.strict;
                self.all(a, i, i + n).iter().filter(|(_, e)| !strict || *e == i + n).map(|(v, _)| (v.clone(), i + n)).collect()
            }
            R::Peek(neg, v) => {
                let hit = i + v.len() <= lim && v.iter().enumerate().all(|(k, s)| s.contains(&self.w[i + k]));
                match (hit, neg) {
                    (true, false) => vec![(Rv::tuple((0..v.len()).map(|k| Rv::U8(self.w[i + k])).collect()), i)],
                    (false, true) => vec![(Rv::unit(), i)],
                    _ => vec![],
                }
            }
            R::Permit(v) => {
                let hit = i + v.len() <= lim && v.iter().enumerate().all(|(k, s)| s.contains(&self.w[i + k]));
                if hit {
                    vec![(Rv::tuple((0..v.len()).map(|k| Rv::U8(self.w[i + k])).collect()), i + v.len())]
                } else {
                    vec![(Rv::tuple(v.iter().map(|_| Rv::U8(0xee)).collect()), i)]
                }
            }
            R::Opt(true, a) => self.all(a, i, lim).iter().map(|(v, e)| (Rv::Opt(Some(Rc::new(v.clone()))), *e)).collect(),
            R::Opt(false, _) => vec![(Rv::Opt(None), i)],
            R::Mapped(a) => self.all(a, i, lim).iter().map(|(v, e)| (Rv::tuple(vec![v.clone()]), *e)).collect(),
            R::Bind(a, b) => self.seq(&[a, b], i, lim).into_iter().map(|(mut v, e)| (v.pop().unwrap(), e)).collect(),
        }
    }
}

fn words(maxlen: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..maxlen {
        let mut nxt = vec![];
        for w in &last {
            for a in ALPHA {
                let mut x: Vec<u8> = w.clone();
                x.push(a);
                nxt.push(x);
            }
        }
        out.extend(nxt.iter().cloned());
        last = nxt;
    }
    out
}

fn regular(rep: &Report, i: usize, ws: &[Vec<u8>]) {
    let mut rng = Rng::derive(rep.seed, 0xc02 ^ (i as u64) << 16);
    let nd = rng.below(3);
    let mut defs: Vec<R> = vec![];
    let mut m = FormatModule::new();
    let mut refs = vec![];
    for k in 0..=nd {
        let depth = 1 + rng.below(4);
        let fuel = 4 + rng.below(14) as i32;
        let r = G { r: &mut rng, defs: k, fuel }.go(depth);
        let f = fmt(&r, &refs);
        match guarded(|| m.define_format(format!("t.d{k}"), f)) {
            Ok(x) => refs.push(x),
            Err(_) => {
                rep.count("type_refused", 1);
                return;
            }
        }
        defs.push(r);
    }
    let main = refs[nd].call();
    let look = Looker::new(&m);
    look.fuel.set(300_000);
    let refuse = rep.watched(|| format!("look {i} {defs:?}"), || look.refuses(&main, end(), &mut HashSet::new()));
    let desc = || json!({"defs": defs.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>()});
    let Some(c) = rep.watched(|| format!("compile {i} {defs:?}"), || eng::compile_within(&m, &main, 300_000)) else {
        rep.count("lookahead_too_large", 1);
        return;
    };
    let p = match c {
        Comp::Ok(p) => p,
        Comp::Refused(_) => {
            rep.count("regular_refused", 1);
            rep.eval(1);
            if refuse == Some(false) {
                rep.violation(&format!("refused {i}"), format!("regular case {i}: refused although every choice is decidable: {defs:?}"), desc());
            }
            return;
        }
        Comp::Panic(e) => {
            rep.violation(&format!("compile panic {}", e.chars().take(80).collect::<String>()), format!("regular case {i}: compiler panicked ({e}) on {defs:?}"), desc());
            return;
        }
    };
    rep.count("regular_compiled", 1);
    if refuse == Some(true) {
        rep.violation(&format!("accepted {i}"), format!("regular case {i}: compiled although some choice is undecidable: {defs:?}"), desc());
        return;
    }
    let null_rep = repeats_nothing(&defs[nd], &defs) || peeks_past(&defs[nd], &defs);
    let (mut whole, mut none) = (0u64, 0u64);
    for w in ws {
        let mut loose = Par { w, defs: &defs, strict: false, memo: HashMap::new(), work: 0 };
        let all = rep.watched(|| format!("parses {i} {defs:?}"), || loose.all(&defs[nd], 0, w.len()));
        let mut strict = Par { w, defs: &defs, strict: true, memo: HashMap::new(), work: 0 };
        let full: HashSet<Rv> = strict.all(&defs[nd], 0, w.len()).iter().filter(|x| x.1 == w.len()).map(|x| x.0.clone()).collect();
        if loose.work > 200_000 || strict.work > 200_000 {
            rep.count("too_many_parses", 1);
            continue;
        }
        let got = eng::run(&p, w);
        rep.eval(1);
        whole += !full.is_empty() as u64;
        none += all.is_empty() as u64;
        let bad = match &got {
            Out::Ok(v, n) if !all.iter().any(|x| &x.0 == v && x.1 == *n) => Some("the result is not a parse of the input"),
            Out::Panic(_) => Some("panic"),
            _ if null_rep => None,
            _ if full.len() > 1 => Some("the format was accepted though this input has several parses"),
            Out::Reject if !full.is_empty() => Some("an input that has a parse was refused"),
            Out::Ok(v, n) if full.len() == 1 && (*n != w.len() || !full.contains(v)) => Some("a parse of the whole input exists but another result was returned"),
            _ => None,
        };
        if let Some(b) = bad {
            rep.violation(&format!("{b} {i}"), format!("regular case {i}: {b}: input {} got {}; parses of the whole input {:?}; formats {defs:?}", hex(w), got.show(), full), json!({"defs": defs.iter().map(|d| format!("{d:?}")).collect::<Vec<_>>(), "input": hex(w), "why": b}));
            return;
        }
    }
    rep.sig(&(whole, none, crate::ev::hash_of(&format!("{defs:?}"))));
    if whole > 0 && none > 0 {
        rep.count("regular_nontrivial", 1);
    }
    if i < 4 {
        rep.sample(json!({"regular": format!("{defs:?}"), "whole_parses": whole, "no_parse": none}));
    }
}

/// refusals on modules of the general kind
fn general(rep: &Report, i: usize) {
    let Ok(b) = gen_module(rep.seed, 0x2c02, i, cfg_for(i)) else { return };
    let call = b.main.call();
    let look = Looker::new(&b.m);
    look.fuel.set(60_000);
    let Some(refuse) = look.refuses(&call, end(), &mut HashSet::new()) else { return };
    let Some(got) = rep.watched(|| format!("compile {i}"), || eng::compile_within(&b.m, &call, 300_000)) else {
        rep.count("lookahead_too_large", 1);
        return;
    };
    rep.eval(1);
    let bad = match (&got, refuse) {
        (Comp::Ok(_), true) => Some("compiled although some choice is undecidable".to_string()),
        // a negative lookahead of unbounded extent is refused by rule
        (Comp::Refused(e), false) if !e.contains("PeekNot cannot require") => Some(format!("refused ({e}) although every choice is decidable")),
        (Comp::Panic(e), false) => Some(format!("compiler panicked: {e}")),
        _ => None,
    };
    rep.count(if refuse { "general_refused" } else { "general_compiled" }, 1);
    if let Some(b2) = bad {
        rep.violation(&format!("general {i}"), format!("general case {i}: {b2}"), describe(&b));
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    probe_nullable_count(rep);
    probe_peek_past(rep);
    let ws = words(rep.scale(5, 6));
    par(rep.scale(30_000, 120_000), |i| regular(rep, i, &ws));
    par(rep.scale(40_000, 150_000), |i| general(rep, i));
    "one evaluation = one decode compared with the set of all parses, or one accept/refuse decision compared with the lookahead model; distinct = (format, number of words with a whole parse, without any)"
}
