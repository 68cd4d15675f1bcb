//! Independent model of lookahead: what the upcoming bytes allow after a choice point.
use doodle::byte_set::ByteSet;
use doodle::{Arith, Expr, Format, FormatModule, UnaryOp};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc as Rc;

/// Formats are identified by address: all live in the module or in the top-level format.
#[derive(Clone, Copy)]
pub struct F<'a>(pub &'a Format);
impl PartialEq for F<'_> {
    fn eq(&self, o: &Self) -> bool {
        std::ptr::eq(self.0, o.0)
    }
}
impl Eq for F<'_> {}
impl Hash for F<'_> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0 as *const Format as usize).hash(h)
    }
}
#[derive(Clone, Copy)]
pub struct Fs<'a>(pub &'a [Format]);
impl PartialEq for Fs<'_> {
    fn eq(&self, o: &Self) -> bool {
        self.0.len() == o.0.len() && (self.0.is_empty() || std::ptr::eq(self.0.as_ptr(), o.0.as_ptr()))
    }
}
impl Eq for Fs<'_> {}
impl Hash for Fs<'_> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (self.0.len(), if self.0.is_empty() { 0 } else { self.0.as_ptr() as usize }).hash(h)
    }
}

pub type Rn<'a> = Rc<Nx<'a>>;
#[derive(PartialEq, Eq, Hash)]
pub enum Nx<'a> {
    End,
    Or(Rn<'a>, Rn<'a>),
    Then(F<'a>, Rn<'a>),
    Many(Fs<'a>, Rn<'a>),
    Star(F<'a>, Rn<'a>),
    Count(usize, F<'a>, Rn<'a>),
    UpTo(usize, F<'a>, Rn<'a>),
    Between(usize, usize, F<'a>, Rn<'a>),
    Window(usize, Rn<'a>, Rn<'a>),
    And(Rn<'a>, Rn<'a>),
    AndNot(Rn<'a>, Rn<'a>),
}
pub fn end<'a>() -> Rn<'a> {
    Rc::new(Nx::End)
}

pub struct Step<'a> {
    pub accept: bool,
    /// disjoint
    pub br: Vec<([u64; 4], Rn<'a>)>,
}

type Bs = [u64; 4];
pub fn bits(b: &ByteSet) -> Bs {
    let mut r = [0u64; 4];
    for x in 0..=255u8 {
        if b.contains(x) {
            r[(x >> 6) as usize] |= 1 << (x & 63);
        }
    }
    r
}
pub fn has(b: &Bs, x: u8) -> bool {
    b[(x >> 6) as usize] >> (x & 63) & 1 == 1
}
fn and(a: &Bs, b: &Bs) -> Bs {
    std::array::from_fn(|i| a[i] & b[i])
}
fn minus(a: &Bs, b: &Bs) -> Bs {
    std::array::from_fn(|i| a[i] & !b[i])
}
fn none(a: &Bs) -> bool {
    a.iter().all(|x| *x == 0)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Iv {
    pub lo: usize,
    pub hi: Option<usize>,
}
impl Iv {
    pub const ANY: Iv = Iv { lo: 0, hi: None };
    pub fn exact(n: usize) -> Iv {
        Iv { lo: n, hi: Some(n) }
    }
    pub fn is_exact(&self) -> Option<usize> {
        self.hi.filter(|h| *h == self.lo)
    }
    pub fn plus(self, o: Iv) -> Iv {
        match self.lo.checked_add(o.lo) {
            None => Iv::ANY,
            Some(lo) => Iv { lo, hi: self.hi.and_then(|a| o.hi.and_then(|b| a.checked_add(b))) },
        }
    }
    pub fn times(self, o: Iv) -> Iv {
        let Some(lo) = self.lo.checked_mul(o.lo) else { return Iv::ANY };
        let hi = match (self.hi, o.hi) {
            (Some(a), Some(b)) => a.checked_mul(b),
            _ => None,
        };
        Iv { lo, hi }
    }
    pub fn or(self, o: Iv) -> Iv {
        Iv { lo: self.lo.min(o.lo), hi: self.hi.and_then(|a| o.hi.map(|b| a.max(b))) }
    }
}

pub fn expr_iv(e: &Expr) -> Iv {
    let clamp = |x: &Expr, m: usize| {
        let b = expr_iv(x);
        let hi = b.hi.map_or(m, |h| h.min(m));
        if b.lo > hi { Iv::ANY } else { Iv { lo: b.lo, hi: Some(hi) } }
    };
    match e {
        Expr::U8(n) => Iv::exact(*n as usize),
        Expr::U16(n) => Iv::exact(*n as usize),
        Expr::U32(n) => Iv::exact(*n as usize),
        Expr::U64(n) => Iv::exact(*n as usize),
        Expr::AsU8(x) => clamp(x, u8::MAX as usize),
        Expr::AsU16(x) => clamp(x, u16::MAX as usize),
        Expr::AsU32(x) => clamp(x, u32::MAX as usize),
        Expr::AsU64(x) => clamp(x, u64::MAX as usize),
        Expr::Arith(Arith::Add, a, b) => expr_iv(a).plus(expr_iv(b)),
        Expr::Arith(Arith::Mul, a, b) => expr_iv(a).times(expr_iv(b)),
        Expr::Unary(UnaryOp::IntSucc, a) => expr_iv(a).plus(Iv::exact(1)),
        // other operators are not used in counts by the generators
        _ => Iv::ANY,
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Look {
    Pick(usize),
    NoMatch,
    Ambiguous,
    Fuel,
}

pub struct Looker<'a> {
    pub m: &'a FormatModule,
    pub fuel: std::cell::Cell<i64>,
    /// set when some choice prefers a longer alternative over a complete one
    pub longer: std::cell::Cell<bool>,
}

impl<'a> Looker<'a> {
    pub fn new(m: &'a FormatModule) -> Self {
        Looker { m, fuel: std::cell::Cell::new(400_000), longer: std::cell::Cell::new(false) }
    }
    fn reject() -> Step<'a> {
        Step { accept: false, br: vec![] }
    }
    fn acc() -> Step<'a> {
        Step { accept: true, br: vec![] }
    }
    fn union(mut a: Step<'a>, b: Step<'a>) -> Step<'a> {
        a.accept |= b.accept;
        for (mut bs, nx) in b.br {
            let mut extra = vec![];
            for (b0, n0) in a.br.iter_mut() {
                let c = and(b0, &bs);
                if none(&c) {
                    continue;
                }
                let rest = minus(b0, &bs);
                if !none(&rest) {
                    extra.push((rest, n0.clone()));
                }
                *b0 = c;
                *n0 = Rc::new(Nx::Or(n0.clone(), nx.clone()));
                bs = minus(&bs, &c);
            }
            if !none(&bs) {
                a.br.push((bs, nx));
            }
            a.br.append(&mut extra);
        }
        a
    }

    /// advance bounds of a format, as far as lookahead needs them
    pub fn width(&self, f: &Format) -> Iv {
        match f {
            Format::ItemVar(l, ..) => self.width(self.m.get_format(*l)),
            Format::Fail | Format::EndOfInput | Format::Peek(_) | Format::PeekNot(_) | Format::WithRelativeOffset(..) | Format::Compute(_) | Format::Pos => Iv::exact(0),
            Format::DecodeBytes(..) | Format::WithView(..) | Format::ParseFromView(..) | Format::Phantom(_) | Format::LiftedOption(None) => Iv::exact(0),
            Format::SkipRemainder | Format::Repeat(_) | Format::RepeatUntilSeq(..) | Format::AccumUntil(..) | Format::ForEach(..) => Iv::ANY,
            Format::Align(n) => Iv { lo: 0, hi: Some(n - 1) },
            Format::Byte(_) => Iv::exact(1),
            Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::LetView(_, f) | Format::Dynamic(_, _, f) | Format::Hint(_, f) | Format::LiftedOption(Some(f)) => self.width(f),
            Format::Permit(f, _) => self.width(f).or(Iv::exact(0)),
            Format::Union(fs) | Format::UnionNondet(fs) => fs.iter().map(|f| self.width(f)).reduce(Iv::or).unwrap_or(Iv::exact(0)),
            Format::Match(_, fs) => fs.iter().map(|f| self.width(&f.1)).reduce(Iv::or).unwrap_or(Iv::exact(0)),
            Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().fold(Iv::exact(0), |a, f| a.plus(self.width(f))),
            Format::Repeat1(f) | Format::RepeatUntilLast(_, f) => {
                let w = self.width(f);
                Iv { lo: w.lo, hi: if w.hi == Some(0) { Some(0) } else { None } }
            }
            Format::RepeatCount(e, f) => self.width(f).times(expr_iv(e)),
            Format::RepeatBetween(a, b, f) => self.width(f).times(expr_iv(a).or(expr_iv(b))),
            Format::Maybe(_, f) => self.width(f).or(Iv::exact(0)),
            Format::Slice(e, _) => expr_iv(e),
            Format::Bits(f) => {
                let w = self.width(f);
                Iv { lo: w.lo.div_ceil(8), hi: w.hi.map(|h| h.div_ceil(8)) }
            }
            Format::Apply(_) => Iv { lo: 1, hi: None },
            Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => self.width(a).plus(self.width(b)),
        }
    }
    pub fn nullable(&self, f: &Format) -> bool {
        self.width(f).lo == 0
    }

    fn fmt(&self, f: &'a Format, next: Rn<'a>) -> Step<'a> {
        self.fuel.set(self.fuel.get() - 1);
        if self.fuel.get() < 0 {
            return Self::acc();
        }
        match f {
            Format::ItemVar(l, ..) => self.fmt(self.m.get_format(*l), next),
            Format::Fail => Self::reject(),
            Format::Phantom(_) | Format::EndOfInput | Format::SkipRemainder | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) | Format::AccumUntil(..) | Format::Bits(_) | Format::WithRelativeOffset(..) | Format::Apply(_) => Self::acc(),
            Format::Align(1) => self.nx(&next),
            Format::Align(_) => Self::acc(),
            Format::DecodeBytes(..) | Format::ParseFromView(..) | Format::Pos | Format::Compute(_) | Format::WithView(..) | Format::LiftedOption(None) => self.nx(&next),
            Format::Byte(bs) => Step { accept: false, br: vec![(bits(bs), next)] },
            Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::LetView(_, f) | Format::Dynamic(_, _, f) | Format::Hint(_, f) | Format::LiftedOption(Some(f)) => self.fmt(f, next),
            Format::Permit(f, _) => Self::union(self.fmt(f, next.clone()), self.nx(&next)),
            Format::Union(fs) | Format::UnionNondet(fs) => fs.iter().fold(Self::reject(), |a, f| Self::union(a, self.fmt(f, next.clone()))),
            Format::Match(_, fs) => fs.iter().fold(Self::reject(), |a, f| Self::union(a, self.fmt(&f.1, next.clone()))),
            Format::Tuple(fs) | Format::Sequence(fs) => self.nx(&Rc::new(Nx::Many(Fs(fs), next))),
            Format::Repeat(a) => Self::union(self.nx(&next), self.fmt(a, Rc::new(Nx::Star(F(a), next.clone())))),
            Format::Repeat1(a) => self.fmt(a, Rc::new(Nx::Star(F(a), next))),
            Format::ForEach(_, _, a) => {
                let w = self.width(a);
                if w.lo == 0 {
                    if w.hi == Some(0) { self.nx(&next) } else { Self::acc() }
                } else {
                    Self::union(self.nx(&next), self.fmt(a, Rc::new(Nx::Star(F(a), next.clone()))))
                }
            }
            Format::RepeatCount(e, a) => {
                let b = expr_iv(e);
                let nx = if b.is_exact().is_some() { next } else { end() };
                self.nx(&Rc::new(Nx::Count(b.lo, F(a), nx)))
            }
            Format::RepeatBetween(lo, hi, a) => {
                let (lo, hi) = (expr_iv(lo).lo, expr_iv(hi).lo);
                self.nx(&Rc::new(Nx::Between(lo, hi, F(a), next)))
            }
            Format::Maybe(_, a) => Self::union(self.fmt(a, next.clone()), self.nx(&next)),
            Format::Peek(a) => {
                let t = self.nx(&next);
                let p = self.fmt(a, end());
                Self::and(t, p)
            }
            Format::PeekNot(a) => {
                let t = self.nx(&next);
                let p = self.fmt(a, end());
                Self::and_not(t, p)
            }
            Format::Slice(e, f) => {
                let b = expr_iv(e);
                let nx = if b.is_exact().is_some() { next } else { end() };
                self.window(b.lo, Rc::new(Nx::Then(F(f), end())), nx)
            }
            Format::MonadSeq(a, b) | Format::LetFormat(a, _, b) => self.fmt(a, Rc::new(Nx::Then(F(b), next))),
        }
    }
    fn and(t: Step<'a>, p: Step<'a>) -> Step<'a> {
        if p.accept {
            t
        } else if t.accept {
            Step { accept: false, br: p.br }
        } else {
            let mut br = vec![];
            for (b1, n1) in &t.br {
                for (b2, n2) in &p.br {
                    let c = and(b1, b2);
                    if !none(&c) {
                        br.push((c, Rc::new(Nx::And(n1.clone(), n2.clone()))));
                    }
                }
            }
            Step { accept: false, br }
        }
    }
    fn and_not(t: Step<'a>, p: Step<'a>) -> Step<'a> {
        if p.accept {
            return Self::reject();
        }
        let mut br = vec![];
        for (b1, n1) in &t.br {
            let mut rest = *b1;
            for (b2, n2) in &p.br {
                let c = and(b1, b2);
                if !none(&c) {
                    br.push((c, Rc::new(Nx::AndNot(n1.clone(), n2.clone()))));
                }
                rest = minus(&rest, b2);
            }
            if !none(&rest) {
                br.push((rest, n1.clone()));
            }
        }
        Step { accept: t.accept, br }
    }
    fn window(&self, n: usize, inner: Rn<'a>, next: Rn<'a>) -> Step<'a> {
        if n == 0 {
            return self.nx(&next);
        }
        let s = self.nx(&inner);
        if s.br.is_empty() {
            return Step { accept: false, br: vec![([u64::MAX; 4], Rc::new(Nx::Window(n - 1, end(), next)))] };
        }
        Step { accept: false, br: s.br.into_iter().map(|(b, i)| (b, Rc::new(Nx::Window(n - 1, i, next.clone())))).collect() }
    }
    fn nx(&self, n: &Rn<'a>) -> Step<'a> {
        self.fuel.set(self.fuel.get() - 1);
        if self.fuel.get() < 0 {
            return Self::acc();
        }
        match &**n {
            Nx::End => Self::acc(),
            Nx::Or(a, b) => Self::union(self.nx(a), self.nx(b)),
            Nx::Then(f, k) => self.fmt(f.0, k.clone()),
            Nx::Many(fs, k) => match fs.0.split_first() {
                None => self.nx(k),
                Some((f, rest)) => self.fmt(f, Rc::new(Nx::Many(Fs(rest), k.clone()))),
            },
            // past a body that may consume nothing, nothing is known
            Nx::Star(a, k) => Self::union(self.nx(k), self.fmt(a.0, if self.nullable(a.0) { end() } else { n.clone() })),
            Nx::Count(c, a, k) => {
                if *c == 0 { self.nx(k) } else { self.fmt(a.0, Rc::new(Nx::Count(c - 1, *a, k.clone()))) }
            }
            Nx::UpTo(c, a, k) => {
                if *c == 0 { self.nx(k) } else { Self::union(self.nx(k), self.fmt(a.0, Rc::new(Nx::UpTo(c - 1, *a, k.clone())))) }
            }
            Nx::Between(lo, hi, a, k) => {
                if lo > &0 {
                    self.fmt(a.0, Rc::new(Nx::Between(lo - 1, hi - 1, *a, k.clone())))
                } else {
                    self.nx(&Rc::new(Nx::UpTo(*hi, *a, k.clone())))
                }
            }
            Nx::Window(c, i, k) => self.window(*c, i.clone(), k.clone()),
            Nx::And(a, b) => Self::and(self.nx(a), self.nx(b)),
            Nx::AndNot(a, b) => Self::and_not(self.nx(a), self.nx(b)),
        }
    }

    /// Decide among alternatives on the bytes delivered by `at(i)` (None = end of input).
    pub fn decide(&self, alts: Vec<Rn<'a>>, at: impl Fn(usize) -> Option<u8>) -> Look {
        let mut cur: HashSet<(usize, Rn<'a>)> = alts.into_iter().enumerate().collect();
        let mut depth = 80;
        let mut i = 0;
        loop {
            if self.fuel.get() < 0 {
                return Look::Fuel;
            }
            let mut idx = cur.iter().map(|c| c.0);
            match idx.next() {
                None => return Look::NoMatch,
                Some(x) if idx.all(|y| y == x) => return Look::Pick(x),
                _ => {}
            }
            if depth == 0 {
                return Look::Ambiguous;
            }
            depth -= 1;
            let mut acc = None;
            let b = at(i);
            let mut nxt = HashSet::new();
            for (ix, n) in &cur {
                let s = self.nx(n);
                if s.accept {
                    match acc {
                        None => acc = Some(*ix),
                        Some(a) if a == *ix => {}
                        Some(_) => return Look::Ambiguous,
                    }
                }
                if let Some(b) = b {
                    for (bs, k) in s.br {
                        if has(&bs, b) {
                            nxt.insert((*ix, k));
                        }
                    }
                }
            }
            if nxt.is_empty() {
                return if self.fuel.get() < 0 { Look::Fuel } else { acc.map_or(Look::NoMatch, Look::Pick) };
            }
            cur = nxt;
            i += 1;
        }
    }

    /// Can every input be decided among `alts`? None = gave up (fuel). Also reports through `greedy` whether
    /// some decision prefers a longer alternative over one that is already complete.
    pub fn decidable(&self, alts: Vec<Rn<'a>>) -> Option<bool> {
        let set: HashSet<(usize, Rn<'a>)> = alts.into_iter().enumerate().collect();
        self.grow(set, 80)
    }
    fn grow(&self, cur: HashSet<(usize, Rn<'a>)>, depth: usize) -> Option<bool> {
        if self.fuel.get() < 0 {
            return None;
        }
        let mut idx = cur.iter().map(|c| c.0);
        match idx.next() {
            None => return Some(true),
            Some(x) if idx.all(|y| y == x) => return Some(true),
            _ => {}
        }
        if depth == 0 {
            return Some(false);
        }
        let mut acc = None;
        let mut parts: Vec<(Bs, HashSet<(usize, Rn<'a>)>)> = vec![];
        for (ix, n) in &cur {
            let s = self.nx(n);
            if s.accept {
                match acc {
                    None => acc = Some(*ix),
                    Some(a) if a == *ix => {}
                    Some(_) => return if self.fuel.get() < 0 { None } else { Some(false) },
                }
            }
            for (mut bs, k) in s.br {
                let mut extra = vec![];
                for (b0, set) in parts.iter_mut() {
                    let c = and(b0, &bs);
                    if none(&c) {
                        continue;
                    }
                    let rest = minus(b0, &bs);
                    if !none(&rest) {
                        extra.push((rest, set.clone()));
                    }
                    *b0 = c;
                    set.insert((*ix, k.clone()));
                    bs = minus(&bs, &c);
                }
                if !none(&bs) {
                    parts.push((bs, HashSet::from([(*ix, k)])));
                }
                parts.append(&mut extra);
            }
        }
        if acc.is_some() && !parts.is_empty() {
            self.longer.set(true);
        }
        for (_, set) in parts {
            match self.grow(set, depth - 1) {
                Some(true) => {}
                o => return o,
            }
        }
        Some(true)
    }

    /// does the decision inside a named format need to know what follows it
    pub fn needs_next(&self, f: &'a Format) -> bool {
        match f {
            Format::ItemVar(l, ..) => self.needs_next(self.m.get_format(*l)),
            Format::Repeat(_) | Format::Repeat1(_) | Format::RepeatBetween(..) | Format::Maybe(..) => true,
            Format::Union(fs) | Format::UnionNondet(fs) => fs.iter().any(|f| self.needs_next(f)) || {
                self.longer.set(false);
                self.decidable(fs.iter().map(|f| Rc::new(Nx::Then(F(f), end()))).collect()) != Some(true) || self.longer.get()
            },
            Format::Tuple(fs) | Format::Sequence(fs) => fs.iter().any(|f| self.needs_next(f)),
            Format::Match(_, fs) => fs.iter().any(|f| self.needs_next(&f.1)),
            Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => self.needs_next(a) || self.needs_next(b),
            Format::RepeatCount(_, f) | Format::RepeatUntilLast(_, f) | Format::RepeatUntilSeq(_, f) | Format::AccumUntil(_, _, _, _, f) => self.needs_next(f),
            Format::ForEach(_, _, f) | Format::Variant(_, f) | Format::Map(f, _) | Format::Where(f, _) | Format::Let(_, _, f) | Format::LetView(_, f) | Format::Dynamic(_, _, f) | Format::Permit(f, _) | Format::Hint(_, f) | Format::LiftedOption(Some(f)) => self.needs_next(f),
            _ => false,
        }
    }

    /// Would a compiler following the documented rules refuse this format? None = gave up.
    pub fn refuses(&self, f: &'a Format, next: Rn<'a>, seen: &mut HashSet<(usize, Rn<'a>)>) -> Option<bool> {
        let then = |f: &'a Format, k: &Rn<'a>| -> Rn<'a> { Rc::new(Nx::Then(F(f), k.clone())) };
        macro_rules! any { ($($e:expr),*) => {{ $( match $e { Some(false) => {}, o => return o } )* Some(false) }} }
        match f {
            Format::ItemVar(l, ..) => {
                let g = self.m.get_format(*l);
                let k = if self.needs_next(g) { next } else { end() };
                if self.fuel.get() < 0 {
                    return None;
                }
                if seen.insert((*l, k.clone())) { self.refuses(g, k, seen) } else { Some(false) }
            }
            Format::Union(fs) => {
                for g in fs {
                    any!(self.refuses(g, next.clone(), seen));
                }
                self.decidable(fs.iter().map(|g| then(g, &next)).collect()).map(|x| !x)
            }
            Format::UnionNondet(fs) => {
                for g in fs {
                    any!(self.refuses(g, next.clone(), seen));
                }
                Some(false)
            }
            Format::Match(_, fs) => {
                for g in fs {
                    any!(self.refuses(&g.1, next.clone(), seen));
                }
                Some(false)
            }
            Format::Tuple(fs) | Format::Sequence(fs) => {
                for i in 0..fs.len() {
                    any!(self.refuses(&fs[i], Rc::new(Nx::Many(Fs(&fs[i + 1..]), next.clone())), seen));
                }
                Some(false)
            }
            Format::Repeat(a) | Format::Repeat1(a) => {
                if self.nullable(a) {
                    return Some(true);
                }
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next.clone()));
                any!(self.refuses(a, star.clone(), seen));
                self.decidable(vec![Rc::new(Nx::Then(F(a), star)), next]).map(|x| !x)
            }
            Format::RepeatCount(_, a) | Format::RepeatUntilLast(_, a) | Format::RepeatUntilSeq(_, a) | Format::ForEach(_, _, a) | Format::AccumUntil(_, _, _, _, a) => self.refuses(a, Rc::new(Nx::Star(F(a), next)), seen),
            Format::RepeatBetween(lo, hi, a) => {
                let (lo, hi) = (expr_iv(lo).lo, expr_iv(hi).lo);
                any!(self.refuses(a, Rc::new(Nx::Between(0, hi.saturating_sub(1), F(a), next.clone())), seen));
                self.decidable((0..=hi).map(|i| Rc::new(Nx::Count(i, F(a), next.clone()))).collect()).map(|x| !x)
            }
            Format::Maybe(_, a) => self.refuses(a, next, seen),
            Format::Peek(a) | Format::Slice(_, a) | Format::Bits(a) | Format::WithRelativeOffset(_, _, a) | Format::DecodeBytes(_, a) | Format::ParseFromView(_, a) => self.refuses(a, end(), seen),
            Format::PeekNot(a) => self.refuses(a, end(), seen),
            Format::Variant(_, a) | Format::Map(a, _) | Format::Where(a, _) | Format::Let(_, _, a) | Format::LetView(_, a) | Format::Dynamic(_, _, a) | Format::Permit(a, _) | Format::Hint(_, a) | Format::LiftedOption(Some(a)) => self.refuses(a, next, seen),
            Format::LetFormat(a, _, b) | Format::MonadSeq(a, b) => {
                any!(self.refuses(a, then(b, &next), seen));
                self.refuses(b, next, seen)
            }
            _ => Some(false),
        }
    }
}
