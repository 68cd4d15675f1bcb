//! Random well-typed modules: named definitions with value and view parameters, formats over every
//! combinator, expressions over every operator. Types are tracked while generating, so that most results
//! pass the type checker.
use crate::rng::Rng;
use doodle::byte_set::ByteSet;
use doodle::bounds::Bounds;
use doodle::{Arith, BaseKind, BaseType, CommonOp, DynFormat, Endian, Expr, Format, FormatModule, FormatRef, IntRel, Label, Pattern, StyleHint, TypeHint, UnaryOp, ValueType, ViewExpr, ViewFormat};
use std::collections::BTreeMap;

pub type T = ValueType;
pub const U8: T = T::Base(BaseType::U8);
pub const U16: T = T::Base(BaseType::U16);
pub const U32: T = T::Base(BaseType::U32);
pub const U64: T = T::Base(BaseType::U64);
pub const BOOL: T = T::Base(BaseType::Bool);
pub const CHAR: T = T::Base(BaseType::Char);

pub fn unit() -> T {
    T::Tuple(vec![])
}
pub fn bx<X>(x: X) -> Box<X> {
    Box::new(x)
}
pub fn var(n: &str) -> Expr {
    Expr::Var(n.to_string().into())
}
pub fn lam(n: &str, e: Expr) -> Expr {
    Expr::Lambda(n.to_string().into(), bx(e))
}
fn lab(n: &str) -> Label {
    n.to_string().into()
}

/// Switches: what the generator may use.
#[derive(Clone, Debug)]
pub struct Cfg {
    pub nondet: bool,
    pub views: bool,
    pub permit: bool,
    pub huffman: bool,
    pub bits: bool,
    pub offsets: bool,
    pub phantom: bool,
    pub pos: bool,
    pub lookahead: bool,
    /// risky expressions that may overflow or index out of range
    pub faults: bool,
    /// literals whose type is only known by context (empty sequences, none)
    pub holes: bool,
    /// restrict to constructs the code generator supports
    pub codegen: bool,
    /// one expression in this many is of some other type than it should be (0: never)
    pub slip: usize,
    pub fuel: i32,
    pub defs: usize,
    pub depth: usize,
}
impl Cfg {
    pub fn full() -> Cfg {
        Cfg { nondet: true, views: true, permit: true, huffman: true, bits: true, offsets: true, phantom: true, pos: true, lookahead: true, faults: true, holes: true, codegen: false, slip: 0, fuel: 40, defs: 3, depth: 4 }
    }
}

pub struct Def {
    pub r: FormatRef,
    pub args: Vec<(Label, T)>,
    pub views: Vec<Label>,
    pub ty: T,
    pub min: usize,
    pub bits: bool,
}

pub struct Gen {
    pub rng: Rng,
    pub cfg: Cfg,
    pub m: FormatModule,
    pub defs: Vec<Def>,
    env: Vec<(String, T)>,
    views: Vec<String>,
    dyns: Vec<String>,
    in_bits: bool,
    fuel: i32,
    tag: u32,
}

pub struct Built {
    pub m: FormatModule,
    pub main: FormatRef,
    pub ty: T,
    pub sigs: Vec<(Vec<String>, Vec<String>)>,
}

type G = (Format, T, usize);

fn opaque(t: &T) -> bool {
    match t {
        T::Base(_) => false,
        T::Tuple(ts) => ts.iter().any(opaque),
        T::Record(fs) => fs.iter().any(|f| opaque(&f.1)),
        T::Union(m) => m.is_empty() || m.values().any(opaque),
        T::Seq(t) | T::Option(t) => opaque(t),
        _ => true,
    }
}
pub fn is_int(t: &T) -> bool {
    matches!(t, T::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64))
}
fn bound_of(t: &T) -> u64 {
    match t {
        T::Base(BaseType::U8) => 0xff,
        T::Base(BaseType::U16) => 0xffff,
        T::Base(BaseType::U32) => 0xffff_ffff,
        _ => u64::MAX,
    }
}
pub fn lit(t: &T, n: u64) -> Expr {
    match t {
        T::Base(BaseType::U8) => Expr::U8(n as u8),
        T::Base(BaseType::U16) => Expr::U16(n as u16),
        T::Base(BaseType::U32) => Expr::U32(n as u32),
        _ => Expr::U64(n),
    }
}
pub fn cast(t: &T, e: Expr) -> Expr {
    match t {
        T::Base(BaseType::U8) => Expr::AsU8(bx(e)),
        T::Base(BaseType::U16) => Expr::AsU16(bx(e)),
        T::Base(BaseType::U32) => Expr::AsU32(bx(e)),
        _ => Expr::AsU64(bx(e)),
    }
}

impl Gen {
    pub fn new(rng: Rng, cfg: Cfg) -> Gen {
        Gen { rng, cfg, m: FormatModule::new(), defs: vec![], env: vec![], views: vec![], dyns: vec![], in_bits: false, fuel: 0, tag: 0 }
    }
    /// Builds a whole module; may panic (inside doodle's type checker) when a definition is ill-typed.
    pub fn module(mut self) -> Built {
        let n = self.rng.range(0, self.cfg.defs);
        for i in 0..n {
            self.fuel = self.cfg.fuel / 2;
            let na = self.rng.weighted(&[4, 3, 1]);
            let args: Vec<(String, T)> = (0..na).map(|k| (format!("a{k}"), self.ty(2))).collect();
            let nv = if self.cfg.views && self.rng.chance(1, 5) { 1 } else { 0 };
            let views: Vec<String> = (0..nv).map(|k| format!("v{k}")).collect();
            self.env = args.clone();
            self.views = views.clone();
            self.dyns.clear();
            self.in_bits = self.cfg.bits && self.rng.chance(1, 8);
            let bits = self.in_bits;
            let (f, ty, min) = self.fmt(self.cfg.depth - 1);
            self.in_bits = false;
            let args: Vec<(Label, T)> = args.into_iter().map(|(n, t)| (n.into(), t)).collect();
            let views: Vec<Label> = views.into_iter().map(|n| n.into()).collect();
            let r = self.m.define_format_args_views(format!("test.def{i}"), args.clone(), views.clone(), f);
            self.defs.push(Def { r, args, views, ty, min, bits });
        }
        self.env.clear();
        self.views.clear();
        self.dyns.clear();
        self.fuel = self.cfg.fuel;
        let (f, ty, _) = self.fmt(self.cfg.depth);
        // sometimes anchored to the end of the input
        let f = if self.rng.chance(1, 4) { Format::Tuple(vec![f, Format::EndOfInput]) } else { f };
        let main = self.m.define_format("test.main", f);
        let mut sigs: Vec<_> = self.defs.iter().map(|d| (d.args.iter().map(|a| a.0.to_string()).collect(), d.views.iter().map(|v| v.to_string()).collect())).collect();
        sigs.push((vec![], vec![]));
        Built { m: self.m, main, ty, sigs }
    }

    // ---------- types ----------
    pub fn ty(&mut self, depth: usize) -> T {
        match self.rng.weighted(if depth == 0 { &[6, 3, 3, 2, 2, 1] } else { &[6, 3, 3, 2, 2, 1, 3, 2, 2, 2, 1] }) {
            0 => U8,
            1 => U16,
            2 => U32,
            3 => U64,
            4 => BOOL,
            5 => CHAR,
            6 => {
                let n = self.rng.range(1, 3);
                T::Tuple((0..n).map(|_| self.ty(depth - 1)).collect())
            }
            7 => {
                let n = self.rng.range(1, 3);
                T::Record(["p", "q", "r"].iter().take(n).map(|l| (lab(l), self.ty(depth - 1))).collect())
            }
            8 => T::Seq(bx(self.ty(depth - 1))),
            9 => {
                let n = self.rng.range(1, 3);
                T::Union(["A", "B", "C"].iter().take(n).map(|l| (lab(l), self.ty(depth - 1))).collect::<BTreeMap<_, _>>())
            }
            _ => T::Option(bx(self.ty(depth - 1))),
        }
    }
    fn name(&mut self) -> String {
        self.rng.pick(&["x", "y", "z", "w"]).to_string()
    }
    fn with<R>(&mut self, n: &str, t: &T, f: impl FnOnce(&mut Self) -> R) -> R {
        // an opaque binding still shadows
        self.env.push((n.to_string(), t.clone()));
        let r = f(self);
        self.env.pop();
        r
    }
    fn vars(&self) -> Vec<(String, T)> {
        let mut out: Vec<(String, T)> = vec![];
        for (n, t) in self.env.iter().rev() {
            if !out.iter().any(|o| o.0 == *n) {
                out.push((n.clone(), t.clone()));
            }
        }
        out
    }
    /// everything reachable from the variables by projection
    fn paths(&self) -> Vec<(Expr, T)> {
        let mut out = vec![];
        fn go(e: Expr, t: &T, d: usize, out: &mut Vec<(Expr, T)>) {
            match t {
                T::Tuple(ts) if d > 0 => ts.iter().enumerate().for_each(|(i, t)| go(Expr::TupleProj(bx(e.clone()), i), t, d - 1, out)),
                T::Record(fs) if d > 0 => fs.iter().for_each(|(l, t)| go(Expr::RecordProj(bx(e.clone()), l.clone()), t, d - 1, out)),
                _ => {}
            }
            if !opaque(t) {
                out.push((e, t.clone()));
            }
        }
        for (n, t) in self.vars() {
            go(var(&n), &t, 2, &mut out);
        }
        out
    }
    fn path_of(&mut self, t: &T) -> Option<Expr> {
        let c: Vec<Expr> = self.paths().into_iter().filter(|p| p.1 == *t).map(|p| p.0).collect();
        if c.is_empty() { None } else { Some(self.rng.pick(&c).clone()) }
    }

    // ---------- expressions ----------
    fn small(&mut self, t: &T) -> u64 {
        let m = bound_of(t);
        match self.rng.below(8) {
            0 => self.rng.next() & m,
            1 => m,
            2 => 0x80 & m,
            _ => self.rng.below(7) as u64,
        }
    }
    pub fn literal(&mut self, t: &T) -> Expr {
        match t {
            T::Base(BaseType::Bool) => Expr::Bool(self.rng.chance(1, 2)),
            T::Base(BaseType::Char) => {
                let n = *self.rng.pick(&[65u32, 0x10ffff, 0xd800, 0, 0x1f600]);
                Expr::AsChar(bx(Expr::U32(n)))
            }
            t if is_int(t) => {
                let n = self.small(t);
                lit(t, n)
            }
            T::Tuple(ts) => Expr::Tuple(ts.iter().map(|t| self.literal(t)).collect()),
            T::Record(fs) => Expr::Record(fs.iter().map(|(l, t)| (l.clone(), self.literal(t))).collect()),
            T::Union(m) => {
                let (l, t) = m.iter().nth(self.rng.below(m.len())).unwrap();
                Expr::Variant(l.clone(), bx(self.literal(t)))
            }
            T::Seq(t) => {
                let lo = if self.cfg.holes { 0 } else { 1 };
                let n = self.rng.range(lo, 3);
                Expr::Seq((0..n).map(|_| self.literal(t)).collect())
            }
            T::Option(t) => {
                if self.cfg.holes && self.rng.chance(1, 3) {
                    Expr::LiftOption(None)
                } else {
                    Expr::LiftOption(Some(bx(self.literal(t))))
                }
            }
            _ => unreachable!("literal of {t:?}"),
        }
    }
    pub fn int_ty(&mut self) -> T {
        self.rng.pick(&[U8, U8, U16, U32, U32, U64]).clone()
    }
    /// an expression of type t
    pub fn expr(&mut self, t: &T, d: usize) -> Expr {
        self.fuel -= 1;
        if self.cfg.slip > 0 && self.rng.chance(1, self.cfg.slip) {
            let u = if is_int(t) && self.rng.chance(1, 2) { self.int_ty() } else { self.ty(2) };
            let slip = std::mem::take(&mut self.cfg.slip);
            let e = self.expr(&u, d);
            self.cfg.slip = slip;
            return e;
        }
        if self.rng.chance(2, 5) || d == 0 {
            if let Some(e) = self.path_of(t) {
                return e;
            }
        }
        if d == 0 || self.fuel < -60 {
            return self.literal(t);
        }
        // operators available at every type
        match self.rng.below(14) {
            0 => return self.match_expr(t, d),
            1 if !self.cfg.codegen => {
                // destructuring of a tuple
                let ts: Vec<T> = (0..self.rng.range(1, 3)).map(|_| self.ty(1)).collect();
                let head = self.expr(&T::Tuple(ts.clone()), d - 1);
                let (p, binds) = self.irrefutable(&T::Tuple(ts), d);
                let n = binds.len();
                self.env.extend(binds);
                let b = self.expr(t, d - 1);
                self.env.truncate(self.env.len() - n);
                return Expr::Destructure(bx(head), p, bx(b));
            }
            2 => {
                // element of a sequence
                let s = self.seq_nonempty(t, d - 1);
                let i = if self.cfg.faults && self.rng.chance(1, 12) { 9 } else { 0 };
                return Expr::SeqIx(bx(s), bx(Expr::U32(i)));
            }
            3 => {
                let n = self.name();
                let a = self.name();
                let et = self.ty(0);
                let s = self.expr(&T::Seq(bx(et.clone())), d - 1);
                let init = self.expr(t, d - 1);
                let _ = a;
                let b = self.with(&n, &T::Tuple(vec![t.clone(), et]), |g| g.expr(t, d - 1));
                return Expr::LeftFold(bx(lam(&n, b)), bx(init), TypeHint::from(t.clone()), bx(s));
            }
            _ => {}
        }
        match t {
            T::Base(BaseType::Bool) => match self.rng.below(6) {
                0 => Expr::Unary(UnaryOp::BoolNot, bx(self.expr(&BOOL, d - 1))),
                1 => {
                    let op = *self.rng.pick(&[Arith::BoolAnd, Arith::BoolOr]);
                    Expr::Arith(op, bx(self.expr(&BOOL, d - 1)), bx(self.expr(&BOOL, d - 1)))
                }
                _ => {
                    let it = self.int_ty();
                    let op = *self.rng.pick(&[IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte]);
                    Expr::IntRel(op, bx(self.expr(&it, d - 1)), bx(self.expr(&it, d - 1)))
                }
            },
            T::Base(BaseType::Char) => {
                let it = self.int_ty();
                let e = if it == U64 && !self.cfg.faults { self.expr(&U16, d - 1) } else { self.expr(&it, d - 1) };
                Expr::AsChar(bx(e))
            }
            t if is_int(t) => self.int_expr(t, d),
            T::Tuple(ts) => Expr::Tuple(ts.iter().map(|t| self.expr(t, d - 1)).collect()),
            T::Record(fs) => Expr::Record(fs.iter().map(|(l, t)| (l.clone(), self.expr(t, d - 1))).collect()),
            T::Union(m) => {
                let (l, t) = m.iter().nth(self.rng.below(m.len())).unwrap();
                Expr::Variant(l.clone(), bx(self.expr(t, d - 1)))
            }
            T::Option(t) => {
                if is_int(t) && self.rng.chance(1, 3) {
                    return self.sorted_lookup(t, d);
                }
                if is_int(t) && self.rng.chance(1, 3) {
                    // search in a sequence of numbers
                    let s = self.expr(&T::Seq(t.clone()), d - 1);
                    let q = self.expr(t, d - 1);
                    return Expr::FindByKey(false, bx(lam("k", var("k"))), bx(q), bx(s));
                }
                if let T::Tuple(ts) = &**t {
                    if let Some(i) = ts.iter().position(is_int) {
                        let s = self.seq_nonempty(t, d - 1);
                        let q = self.expr(&ts[i], d - 1);
                        return Expr::FindByKey(false, bx(lam("k", Expr::TupleProj(bx(var("k")), i))), bx(q), bx(s));
                    }
                }
                if self.cfg.holes && self.rng.chance(1, 4) { Expr::LiftOption(None) } else { Expr::LiftOption(Some(bx(self.expr(t, d - 1)))) }
            }
            T::Seq(t) => self.seq_expr(t, d),
            _ => unreachable!("expr of {t:?}"),
        }
    }
    fn int_expr(&mut self, t: &T, d: usize) -> Expr {
        let risky = self.cfg.faults && self.rng.chance(1, 6);
        match self.rng.below(12) {
            0 => Expr::Arith(Arith::BitAnd, bx(self.expr(t, d - 1)), bx(self.expr(t, d - 1))),
            1 => Expr::Arith(Arith::BitOr, bx(self.expr(t, d - 1)), bx(self.expr(t, d - 1))),
            2 => {
                let w = match t {
                    T::Base(BaseType::U8) => 8,
                    T::Base(BaseType::U16) => 16,
                    T::Base(BaseType::U32) => 32,
                    _ => 64,
                };
                let op = *self.rng.pick(&[Arith::Shl, Arith::Shr]);
                let k = self.rng.below(w) as u64;
                let a = self.expr(t, d - 1);
                let b = if risky { self.expr(t, d - 1) } else { lit(t, k) };
                Expr::Arith(op, bx(a), bx(b))
            }
            3 => {
                let op = *self.rng.pick(&[Arith::Div, Arith::Rem]);
                let k = self.small(t).max(1);
                let a = self.expr(t, d - 1);
                let b = if risky { self.expr(t, d - 1) } else { lit(t, k) };
                Expr::Arith(op, bx(a), bx(b))
            }
            4 => {
                // sums and products that fit when the operands are narrower
                let op = *self.rng.pick(&[Arith::Add, Arith::Mul, Arith::Add]);
                let nt = match t {
                    T::Base(BaseType::U64) => U32,
                    T::Base(BaseType::U32) => U16,
                    T::Base(BaseType::U16) => U8,
                    _ => {
                        let (a, b) = (self.expr(&U8, d - 1), self.expr(&U8, d - 1));
                        let m = |e| Expr::Arith(Arith::BitAnd, bx(e), bx(Expr::U8(15)));
                        return if risky { Expr::Arith(op, bx(a), bx(b)) } else { Expr::Arith(op, bx(m(a)), bx(m(b))) };
                    }
                };
                if risky {
                    Expr::Arith(op, bx(self.expr(t, d - 1)), bx(self.expr(t, d - 1)))
                } else {
                    Expr::Arith(op, bx(cast(t, self.expr(&nt, d - 1))), bx(cast(t, self.expr(&nt, d - 1))))
                }
            }
            5 => {
                // a - (a & b) never underflows
                let a = self.path_of(t).unwrap_or_else(|| self.literal(t));
                let b = self.expr(t, d - 1);
                let b = if risky { b } else { Expr::Arith(Arith::BitAnd, bx(a.clone()), bx(b)) };
                Expr::Arith(Arith::Sub, bx(a), bx(b))
            }
            6 => {
                let e = self.expr(t, d - 1);
                let op = if self.rng.chance(1, 2) { UnaryOp::IntSucc } else { UnaryOp::IntPred };
                if risky {
                    return Expr::Unary(op, bx(e));
                }
                let half = Expr::Arith(Arith::Shr, bx(e), bx(lit(t, 1)));
                let e = if op == UnaryOp::IntPred { Expr::Arith(Arith::BitOr, bx(half), bx(lit(t, 1))) } else { half };
                Expr::Unary(op, bx(e))
            }
            7 | 8 => {
                let from = self.int_ty();
                let e = self.expr(&from, d - 1);
                if bound_of(&from) <= bound_of(t) || risky {
                    cast(t, e)
                } else {
                    cast(t, Expr::Arith(Arith::BitAnd, bx(e), bx(lit(&from, bound_of(t)))))
                }
            }
            9 if *t != U8 => {
                let n = match t {
                    T::Base(BaseType::U16) => 2,
                    T::Base(BaseType::U32) => 4,
                    _ => 8,
                };
                let tup = Expr::Tuple((0..n).map(|_| self.byte_plain()).collect());
                let be = self.rng.chance(1, 2);
                match (n, be) {
                    (2, true) => Expr::U16Be(bx(tup)),
                    (2, false) => Expr::U16Le(bx(tup)),
                    (4, true) => Expr::U32Be(bx(tup)),
                    (4, false) => Expr::U32Le(bx(tup)),
                    (_, true) => Expr::U64Be(bx(tup)),
                    (_, false) => Expr::U64Le(bx(tup)),
                }
            }
            10 if *t == U32 => {
                let et = self.ty(1);
                Expr::SeqLength(bx(self.expr(&T::Seq(bx(et)), d - 1)))
            }
            11 => {
                let e = self.sorted_lookup(t, d);
                let n = self.literal(t);
                Expr::Match(bx(e), vec![(Pattern::Option(Some(bx(Pattern::Binding("v".into())))), var("v")), (Pattern::Option(None), n)])
            }
            _ => self.literal(t),
        }
    }
    /// binary search in an ascending list; the query is often a member
    fn sorted_lookup(&mut self, t: &T, d: usize) -> Expr {
        let n = self.rng.range(1, 9);
        let mut k: Vec<u64> = (0..n).map(|i| if self.rng.chance(1, 6) { self.rng.next() & bound_of(t) } else { (i as u64) * 2 + self.rng.below(2) as u64 }).collect();
        k.sort();
        k.dedup();
        let q = if self.rng.chance(1, 2) {
            let e = self.expr(t, d - 1);
            Expr::Arith(Arith::BitAnd, bx(e), bx(lit(t, 15)))
        } else {
            let j = *self.rng.pick(&k);
            lit(t, if self.rng.chance(1, 4) { j ^ 1 } else { j })
        };
        let s = Expr::Seq(k.iter().map(|k| lit(t, *k)).collect());
        Expr::FindByKey(true, bx(lam("k", var("k"))), bx(q), bx(s))
    }
    fn byte_plain(&mut self) -> Expr {
        match self.path_of(&U8) {
            Some(e) if self.rng.chance(2, 3) => e,
            _ => self.literal(&U8),
        }
    }
    fn seq_nonempty(&mut self, t: &T, d: usize) -> Expr {
        let first = self.expr(t, d.saturating_sub(1));
        if self.rng.chance(1, 3) {
            let rest = self.expr(&T::Seq(bx(t.clone())), d.saturating_sub(1));
            return Expr::Append(bx(Expr::Seq(vec![first])), bx(rest));
        }
        if self.rng.chance(1, 4) {
            let n = self.rng.range(1, 4) as u32;
            return Expr::Dup(bx(Expr::U32(n)), bx(first));
        }
        let n = self.rng.below(3);
        let mut v = vec![first];
        for _ in 0..n {
            v.push(self.expr(t, d.saturating_sub(1)));
        }
        Expr::Seq(v)
    }
    fn seq_expr(&mut self, t: &T, d: usize) -> Expr {
        let st = T::Seq(bx(t.clone()));
        match self.rng.below(11) {
            0 => {
                let lo = if self.cfg.holes { 0 } else { 1 };
                let n = self.rng.range(lo, 3);
                Expr::Seq((0..n).map(|_| self.expr(t, d - 1)).collect())
            }
            1 => Expr::Append(bx(self.expr(&st, d - 1)), bx(self.expr(&st, d - 1))),
            2 => {
                let n = if self.rng.chance(1, 2) { Expr::U32(self.rng.below(5) as u32) } else { Expr::AsU32(bx(self.expr(&U8, d - 1))) };
                Expr::Dup(bx(n), bx(self.expr(t, d - 1)))
            }
            3 => {
                let s = self.seq_nonempty(t, d - 1);
                let k = if self.cfg.faults && self.rng.chance(1, 10) { 7 } else { self.rng.below(2) as u32 };
                let a = if k == 0 { self.rng.below(2) as u32 } else { 0 };
                Expr::SubSeq(bx(s), bx(Expr::U32(a)), bx(Expr::U32(k)))
            }
            4 => {
                let s = self.seq_nonempty(t, d - 1);
                let k = self.rng.below(6) as u32;
                Expr::SubSeqInflate(bx(s), bx(Expr::U32(0)), bx(Expr::U32(k)))
            }
            5 | 6 => {
                let et = self.ty(1);
                let s = self.expr(&T::Seq(bx(et.clone())), d - 1);
                let n = self.name();
                let b = self.with(&n, &et, |g| g.expr(&st, d - 1));
                Expr::FlatMap(bx(lam(&n, b)), bx(s))
            }
            7 => {
                let (et, at) = (self.ty(0), self.ty(0));
                let s = self.expr(&T::Seq(bx(et.clone())), d - 1);
                let init = self.expr(&at, d - 1);
                let n = self.name();
                let b = self.with(&n, &T::Tuple(vec![at.clone(), et]), |g| Expr::Tuple(vec![g.expr(&at, d - 1), g.expr(&st, d - 1)]));
                Expr::FlatMapAccum(bx(lam(&n, b)), bx(init), TypeHint::from(at), bx(s))
            }
            8 => {
                let et = self.ty(0);
                let s = self.expr(&T::Seq(bx(et.clone())), d - 1);
                let n = self.name();
                let b = self.with(&n, &T::Tuple(vec![st.clone(), et]), |g| g.expr(&st, d - 1));
                Expr::FlatMapList(bx(lam(&n, b)), TypeHint::from(t.clone()), bx(s))
            }
            9 => {
                // an enumerated range, elements used through a cast
                let (a, k) = (self.rng.below(4) as u32, self.rng.below(5) as u32);
                let n = self.name();
                let b = self.with("e_", &U32, |g| g.expr(t, d - 1));
                Expr::FlatMap(
                    bx(lam(&n, Expr::Match(bx(Expr::AsU32(bx(var(&n)))), vec![(Pattern::Binding(lab("e_")), Expr::Seq(vec![b]))]))),
                    bx(Expr::EnumFromTo(bx(Expr::U32(a)), bx(Expr::U32(a + k)))),
                )
            }
            _ => self.literal(&st),
        }
    }
    fn irrefutable(&mut self, t: &T, d: usize) -> (Pattern, Vec<(String, T)>) {
        match t {
            T::Tuple(ts) if d > 0 && self.rng.chance(3, 4) => {
                let mut ps = vec![];
                let mut b = vec![];
                for t in ts {
                    let (p, x) = self.irrefutable(t, d - 1);
                    ps.push(p);
                    b.extend(x);
                }
                // binding one name twice in a pattern is not meaningful
                let mut seen = std::collections::HashSet::new();
                if b.iter().all(|x| seen.insert(x.0.clone())) { (Pattern::Tuple(ps), b) } else { (Pattern::Wildcard, vec![]) }
            }
            _ => {
                if self.rng.chance(1, 4) {
                    (Pattern::Wildcard, vec![])
                } else {
                    let n = self.name();
                    (Pattern::Binding(lab(&n)), vec![(n, t.clone())])
                }
            }
        }
    }
    /// a pattern for values of type t, and its bindings
    fn pattern(&mut self, t: &T, d: usize) -> (Pattern, Vec<(String, T)>) {
        if d == 0 || self.rng.chance(1, 5) {
            return self.irrefutable(t, 0);
        }
        match t {
            T::Base(BaseType::Bool) => (Pattern::Bool(self.rng.chance(1, 2)), vec![]),
            T::Base(BaseType::Char) => self.irrefutable(t, 0),
            t if is_int(t) => {
                let n = self.small(t);
                if self.rng.chance(1, 3) && !self.cfg.codegen {
                    let lo = self.rng.below(5);
                    let b = if self.rng.chance(1, 3) { Bounds::at_least(lo) } else { Bounds::new(lo, lo + self.rng.below(9)) };
                    return (Pattern::Int(b), vec![]);
                }
                let p = match t {
                    T::Base(BaseType::U8) => Pattern::U8(n as u8),
                    T::Base(BaseType::U16) => Pattern::U16(n as u16),
                    T::Base(BaseType::U32) => Pattern::U32(n as u32),
                    _ => Pattern::U64(n),
                };
                (p, vec![])
            }
            T::Tuple(ts) => {
                let mut ps = vec![];
                let mut b: Vec<(String, T)> = vec![];
                for t in ts {
                    let (p, x) = self.pattern(t, d - 1);
                    ps.push(p);
                    b.extend(x);
                }
                let mut seen = std::collections::HashSet::new();
                if b.iter().all(|x| seen.insert(x.0.clone())) { (Pattern::Tuple(ps), b) } else { self.irrefutable(t, 0) }
            }
            T::Union(m) => {
                let (l, t) = m.iter().nth(self.rng.below(m.len())).unwrap();
                let (p, b) = self.pattern(t, d - 1);
                (Pattern::Variant(l.clone(), bx(p)), b)
            }
            T::Option(t) => {
                if self.rng.chance(1, 3) {
                    (Pattern::Option(None), vec![])
                } else {
                    let (p, b) = self.pattern(t, d - 1);
                    (Pattern::Option(Some(bx(p))), b)
                }
            }
            T::Seq(t) => {
                if self.cfg.codegen {
                    return self.irrefutable(t, 0);
                }
                let n = self.rng.below(3);
                let mut ps = vec![];
                let mut b: Vec<(String, T)> = vec![];
                for _ in 0..n {
                    let (p, x) = self.pattern(t, d - 1);
                    ps.push(p);
                    b.extend(x);
                }
                let mut seen = std::collections::HashSet::new();
                if b.iter().all(|x| seen.insert(x.0.clone())) { (Pattern::Seq(ps), b) } else { (Pattern::Wildcard, vec![]) }
            }
            _ => self.irrefutable(t, 0),
        }
    }
    fn scrutinee(&mut self, d: usize) -> (Expr, T) {
        let ps: Vec<(Expr, T)> = self.paths();
        if !ps.is_empty() && self.rng.chance(3, 4) {
            return self.rng.pick(&ps).clone();
        }
        let t = self.ty(1);
        (self.expr(&t, d), t)
    }
    fn match_expr(&mut self, t: &T, d: usize) -> Expr {
        let (h, ht) = self.scrutinee(d - 1);
        let n = self.rng.below(3);
        let mut bs = vec![];
        for _ in 0..n {
            let (p, binds) = self.pattern(&ht, 2);
            let k = binds.len();
            self.env.extend(binds);
            let b = self.expr(t, d - 1);
            self.env.truncate(self.env.len() - k);
            bs.push((p, b));
        }
        if !self.cfg.faults || self.rng.chance(14, 15) || bs.is_empty() {
            bs.push((Pattern::Wildcard, self.expr(t, d - 1)));
        }
        Expr::Match(bx(h), bs)
    }
    /// a count: only operators whose range is simple to compute
    pub fn count(&mut self) -> Expr {
        let ps: Vec<(Expr, T)> = self.paths().into_iter().filter(|p| is_int(&p.1)).collect();
        let base = if !ps.is_empty() && self.rng.chance(2, 3) {
            let (e, t) = self.rng.pick(&ps).clone();
            match self.rng.below(4) {
                0 => cast(&U32, e),
                1 => cast(&U64, e),
                2 if t != U8 => cast(&U16, e),
                _ => e,
            }
        } else {
            let t = self.int_ty();
            return lit(&t, self.rng.below(5) as u64);
        };
        match self.rng.below(8) {
            0 => Expr::Arith(Arith::Add, bx(cast(&U32, base)), bx(Expr::U32(self.rng.below(3) as u32))),
            1 => Expr::Arith(Arith::Mul, bx(cast(&U32, base)), bx(Expr::U32(self.rng.below(4) as u32))),
            2 => Expr::Unary(UnaryOp::IntSucc, bx(cast(&U64, base))),
            _ => base,
        }
    }

    // ---------- formats ----------
    pub fn byteset(&mut self) -> ByteSet {
        if self.in_bits {
            return match self.rng.below(4) {
                0 => ByteSet::from([0]),
                1 => ByteSet::from([1]),
                _ => ByteSet::full(),
            };
        }
        match self.rng.below(8) {
            0 => ByteSet::from([self.rng.byte()]),
            1 => {
                let a = self.rng.byte();
                let b = self.rng.byte();
                let (a, b) = (a.min(b), a.max(b));
                if a == b { ByteSet::from([a]) } else { ByteSet::from(a..=b) }
            }
            2 => ByteSet::from(0..=5),
            3 => !ByteSet::from([self.rng.below(4) as u8]),
            4 => ByteSet::from([self.rng.below(6) as u8]),
            5 => (0..self.rng.range(1, 6)).map(|_| self.rng.below(12) as u8).collect(),
            _ => ByteSet::full(),
        }
    }
    pub fn int_fmt(&mut self) -> (Format, T, usize) {
        let v = lab("b");
        let (n, t) = self.rng.pick(&[(2usize, U16), (4, U32), (8, U64)]).clone();
        let be = self.rng.chance(2, 3);
        let e = bx(Expr::Var(v.clone()));
        let (e, k) = match (n, be) {
            (2, true) => (Expr::U16Be(e), BaseKind::U16Ext(Endian::Be)),
            (2, false) => (Expr::U16Le(e), BaseKind::U16Ext(Endian::Le)),
            (4, true) => (Expr::U32Be(e), BaseKind::U32Ext(Endian::Be)),
            (4, false) => (Expr::U32Le(e), BaseKind::U32Ext(Endian::Le)),
            (_, true) => (Expr::U64Be(e), BaseKind::U64Ext(Endian::Be)),
            (_, false) => (Expr::U64Le(e), BaseKind::U64Ext(Endian::Le)),
        };
        let f = Format::Map(bx(Format::Tuple(vec![Format::ANY_BYTE; n])), bx(Expr::Lambda(v, bx(e))));
        let f = if self.rng.chance(1, 2) { Format::Hint(StyleHint::Common(CommonOp::EndianParse(k)), bx(f)) } else { f };
        (f, t, n)
    }
    /// a format whose type is exactly t
    pub fn fmt_of(&mut self, t: &T, d: usize) -> (Format, usize) {
        if *t == U8 && self.rng.chance(2, 3) {
            return (Format::Byte(self.byteset()), 1);
        }
        if d == 0 {
            return match self.rng.below(2) {
                0 => (Format::Compute(bx(self.expr(t, 1))), 0),
                _ => (Format::Map(bx(Format::Byte(self.byteset())), bx(self.lambda(&U8, t))), 1),
            };
        }
        match self.rng.below(6) {
            0 => (Format::Compute(bx(self.expr(t, 2))), 0),
            1 => {
                let (f, ft, m) = self.fmt(d - 1);
                if opaque(&ft) {
                    return (Format::MonadSeq(bx(f), bx(Format::Compute(bx(self.expr(t, 1))))), m);
                }
                (Format::Map(bx(f), bx(self.lambda(&ft, t))), m)
            }
            2 => {
                let (f, ft, m) = self.fmt(d - 1);
                let n = self.name();
                let (g, m2) = self.with(&n, &ft, |s| s.fmt_of(t, d - 1));
                (Format::LetFormat(bx(f), lab(&n), bx(g)), m + m2)
            }
            3 => {
                let (f, m) = self.fmt_of(t, d - 1);
                let c = self.with("c_", t, |g| g.expr(&BOOL, 2));
                (self.where_(f, lam("c_", c)), m)
            }
            _ => match t {
                T::Tuple(ts) => {
                    let mut m = 0;
                    let fs = ts.iter().map(|t| {
                        let (f, k) = self.fmt_of(t, d - 1);
                        m += k;
                        f
                    }).collect();
                    (Format::Tuple(fs), m)
                }
                T::Seq(t) => {
                    let e = self.count();
                    let (f, _) = self.fmt_of(t, d - 1);
                    (Format::RepeatCount(bx(e), bx(f)), 0)
                }
                T::Option(t) => {
                    let c = self.expr(&BOOL, 1);
                    let (f, _) = self.fmt_of(t, d - 1);
                    (Format::Maybe(bx(c), bx(f)), 0)
                }
                T::Record(fs) => {
                    let mut out = vec![];
                    let mut m = 0;
                    let n0 = self.env.len();
                    for (l, t) in fs {
                        let (f, k) = self.fmt_of(t, d - 1);
                        m += k;
                        out.push((l.clone(), f));
                        self.env.push((l.to_string(), t.clone()));
                    }
                    self.env.truncate(n0);
                    (Format::record(out), m)
                }
                _ => (Format::Map(bx(Format::Byte(self.byteset())), bx(self.lambda(&U8, t))), 1),
            },
        }
    }
    fn lambda(&mut self, from: &T, to: &T) -> Expr {
        let n = self.name();
        let b = self.with(&n, from, |g| g.expr(to, 3));
        lam(&n, b)
    }
    fn where_(&mut self, f: Format, l: Expr) -> Format {
        let Expr::Lambda(n, b) = l else { unreachable!() };
        if self.rng.chance(1, 5) { doodle::helper::expect_lambda(f, n, *b) } else { doodle::helper::where_lambda(f, n, *b) }
    }
    fn lead(&mut self) -> ByteSet {
        if self.in_bits {
            self.tag += 1;
            return ByteSet::from([(self.tag & 1) as u8]);
        }
        self.tag += 1;
        ByteSet::from([(self.tag * 7 % 251) as u8])
    }
    fn seqf(&mut self, a: Format, b: Format) -> Format {
        if self.rng.chance(1, 2) { Format::MonadSeq(bx(a), bx(b)) } else { Format::LetFormat(bx(a), lab("_u"), bx(b)) }
    }
    pub fn fmt(&mut self, d: usize) -> G {
        self.fuel -= 2;
        if d == 0 || self.fuel < 0 {
            return match self.rng.weighted(&[10, 3, 1, 1, 1, 1]) {
                1 if !self.in_bits => self.int_fmt(),
                2 => {
                    let t = self.ty(1);
                    (Format::Compute(bx(self.expr(&t, 2))), t, 0)
                }
                3 => (Format::EMPTY, unit(), 0),
                4 if self.cfg.pos && !self.in_bits => (Format::Pos, T::NumericHole, 0),
                5 => {
                    let n = self.rng.below(3);
                    (Format::Tuple((0..n).map(|_| Format::Byte(self.byteset())).collect()), T::Tuple(vec![U8; n]), n)
                }
                _ => (Format::Byte(self.byteset()), U8, 1),
            };
        }
        let k = self.rng.weighted(&[
            3, 4, 5, 2, 5, 3, 2, 5, 4, 2, 3, 2, 2, 3, 2, 2, 3, 2, 2, 4, 3, 3, 3, 3, 2, 2, 1, 2, 6, 1, 1, 2, 1, 3, 2,
        ]);
        match k {
            0 => (Format::Byte(self.byteset()), U8, 1),
            1 if !self.in_bits => self.int_fmt(),
            2 => {
                let n = self.rng.range(1, 3);
                let (mut fs, mut ts, mut m) = (vec![], vec![], 0);
                for _ in 0..n {
                    let (f, t, k) = self.fmt(d - 1);
                    fs.push(f);
                    ts.push(t);
                    m += k;
                }
                (Format::Tuple(fs), T::Tuple(ts), m)
            }
            3 => {
                let t = self.ty(1);
                let lo = if self.cfg.holes { 0 } else { 1 };
                let n = self.rng.range(lo, 3);
                let mut m = 0;
                let fs = (0..n).map(|_| {
                    let (f, k) = self.fmt_of(&t, d - 1);
                    m += k;
                    f
                }).collect();
                (Format::Sequence(fs), T::Seq(bx(t)), m)
            }
            4 => {
                // alternatives told apart by a leading byte
                let n = self.rng.range(1, if self.in_bits { 2 } else { 3 });
                let mut m = usize::MAX;
                if self.rng.chance(2, 3) {
                    let mut ty = BTreeMap::new();
                    let mut fs = vec![];
                    for l in ["A", "B", "C"].iter().take(n) {
                        let b = Format::Byte(self.lead());
                        let (f, t, k) = self.fmt(d - 1);
                        m = m.min(k + 1);
                        ty.insert(lab(l), t);
                        fs.push(Format::Variant(lab(l), bx(self.seqf(b, f))));
                    }
                    (Format::Union(fs), T::Union(ty), m)
                } else {
                    let t = self.ty(1);
                    let mut fs = vec![];
                    for _ in 0..n {
                        let b = Format::Byte(self.lead());
                        let (f, k) = self.fmt_of(&t, d - 1);
                        m = m.min(k + 1);
                        fs.push(self.seqf(b, f));
                    }
                    (Format::Union(fs), t, m)
                }
            }
            5 | 6 if k == 5 || self.cfg.nondet => {
                let n = self.rng.range(1, 3);
                let mut m = usize::MAX;
                let mut ty = BTreeMap::new();
                let mut fs = vec![];
                for l in ["A", "B", "C"].iter().take(n) {
                    let (f, t, k) = self.fmt(d - 1);
                    m = m.min(k);
                    ty.insert(lab(l), t);
                    fs.push(Format::Variant(lab(l), bx(f)));
                }
                (if k == 5 { Format::Union(fs) } else { Format::UnionNondet(fs) }, T::Union(ty), m)
            }
            7 => {
                let b = Format::Byte(if self.rng.chance(1, 2) { self.lead() } else { self.byteset() });
                let (f, t, _) = self.fmt(d - 1);
                let (f, t) = match self.rng.below(3) {
                    0 => (b, U8),
                    1 => (Format::Tuple(vec![b, f]), T::Tuple(vec![U8, t])),
                    _ => (self.seqf(b, f), t),
                };
                if self.rng.chance(1, 3) { (Format::Repeat1(bx(f)), T::Seq(bx(t)), 1) } else { (Format::Repeat(bx(f)), T::Seq(bx(t)), 0) }
            }
            8 => {
                let e = self.count();
                let (f, t, _) = self.fmt(d - 1);
                (Format::RepeatCount(bx(e), bx(f)), T::Seq(bx(t)), 0)
            }
            9 => {
                let t = self.int_ty();
                let lo = self.rng.below(3);
                let hi = lo + 1 + self.rng.below(3);
                let b = Format::Byte(if self.rng.chance(2, 3) { self.lead() } else { self.byteset() });
                let (f, ft, k) = self.fmt(d - 1);
                let (f, ft) = if self.rng.chance(1, 2) { (b, U8) } else { (self.seqf(b, f), ft) };
                (Format::RepeatBetween(bx(lit(&t, lo as u64)), bx(lit(&t, hi as u64)), bx(f)), T::Seq(bx(ft)), lo * (k + 1) * 0)
            }
            10 | 11 => {
                let (f, t, k2) = self.fmt(d - 1);
                let (f, t) = if k2 == 0 { (Format::Tuple(vec![Format::Byte(self.byteset()), f]), T::Tuple(vec![U8, t])) } else { (f, t) };
                let n = self.name();
                let st = T::Seq(bx(t.clone()));
                if k == 10 {
                    let e = self.with(&n, &t, |g| g.expr(&BOOL, 2));
                    (Format::RepeatUntilLast(bx(lam(&n, e)), bx(f)), st, 1)
                } else {
                    let e = if !opaque(&t) && self.rng.chance(1, 2) {
                        self.with(&n, &st, |g| g.expr(&BOOL, 2))
                    } else {
                        let k = self.rng.range(1, 4) as u32;
                        Expr::IntRel(IntRel::Gte, bx(Expr::SeqLength(bx(var(&n)))), bx(Expr::U32(k)))
                    };
                    (Format::RepeatUntilSeq(bx(lam(&n, e)), bx(f)), st, 1)
                }
            }
            12 => {
                let (f, t, k2) = self.fmt(d - 1);
                let (f, t) = if k2 == 0 { (Format::Tuple(vec![Format::Byte(self.byteset()), f]), T::Tuple(vec![U8, t])) } else { (f, t) };
                let at = self.ty(1);
                let init = self.expr(&at, 2);
                let st = T::Seq(bx(t.clone()));
                let k = self.rng.range(0, 4) as u32;
                let stop = Expr::IntRel(IntRel::Gte, bx(Expr::SeqLength(bx(Expr::TupleProj(bx(var("s_")), 1)))), bx(Expr::U32(k)));
                let e = self.with("s_", &T::Tuple(vec![at.clone(), st.clone()]), |g| g.expr(&BOOL, 2));
                let done = Expr::Arith(Arith::BoolOr, bx(stop), bx(e));
                let upd = self.with("u_", &T::Tuple(vec![at.clone(), t]), |g| g.expr(&at, 2));
                (Format::AccumUntil(bx(lam("s_", done)), bx(lam("u_", upd)), bx(init), TypeHint::from(at.clone()), bx(f)), T::Tuple(vec![at, st]), 0)
            }
            13 => {
                let et = self.ty(1);
                let s = self.expr(&T::Seq(bx(et.clone())), 2);
                let n = self.name();
                let (f, t, _) = self.with(&n, &et, |g| g.fmt(d - 1));
                (Format::ForEach(bx(s), lab(&n), bx(f)), T::Seq(bx(t)), 0)
            }
            14 => {
                let c = self.expr(&BOOL, 2);
                let (f, t, _) = self.fmt(d - 1);
                (Format::Maybe(bx(c), bx(f)), T::Option(bx(t)), 0)
            }
            15 if self.cfg.lookahead => {
                let (f, t, _) = self.fmt(d - 1);
                (Format::Peek(bx(f)), t, 0)
            }
            16 if self.cfg.lookahead => {
                let (f, _, _) = self.fmt(d - 1);
                (Format::PeekNot(bx(f)), unit(), 0)
            }
            17 if !self.in_bits => {
                let e = self.count();
                let (f, t, _) = self.fmt(d - 1);
                (Format::Slice(bx(e), bx(f)), t, 0)
            }
            18 if self.cfg.bits && !self.in_bits => {
                self.in_bits = true;
                let (f, t, k) = self.fmt(d - 1);
                self.in_bits = false;
                (Format::Bits(bx(f)), t, k.div_ceil(8))
            }
            19 if self.cfg.offsets && !self.in_bits => {
                let (b, e) = (Expr::U64(self.rng.below(3) as u64), cast(&U64, self.count()));
                let (f, t, _) = self.fmt(d - 1);
                (Format::WithRelativeOffset(bx(b), bx(e), bx(f)), t, 0)
            }
            20 => {
                let (f, t, m) = self.fmt(d - 1);
                if opaque(&t) {
                    return (f, t, m);
                }
                let to = self.ty(2);
                (Format::Map(bx(f), bx(self.lambda(&t, &to))), to, m)
            }
            21 => {
                let (f, t, m) = self.fmt(d - 1);
                if opaque(&t) {
                    return (f, t, m);
                }
                let n = self.name();
                let c = self.with(&n, &t, |g| g.expr(&BOOL, 3));
                (self.where_(f, lam(&n, c)), t, m)
            }
            22 => {
                let t = self.ty(2);
                (Format::Compute(bx(self.expr(&t, 3))), t, 0)
            }
            23 => {
                let t = self.ty(2);
                let e = self.expr(&t, 2);
                let n = self.name();
                let (f, ft, m) = self.with(&n, &t, |g| g.fmt(d - 1));
                (Format::Let(lab(&n), bx(e), bx(f)), ft, m)
            }
            24 if self.cfg.views && !self.in_bits => {
                let n = format!("v{}", self.views.len() % 3);
                self.views.push(n.clone());
                let (f, t, m) = self.fmt(d - 1);
                let (g, gt) = self.view_fmt(d - 1);
                self.views.pop();
                let r = if self.rng.chance(1, 2) { (Format::Tuple(vec![f, g]), T::Tuple(vec![t, gt])) } else { (Format::Tuple(vec![g, f]), T::Tuple(vec![gt, t])) };
                (Format::LetView(lab(&n), bx(r.0)), r.1, m)
            }
            25 if self.cfg.views && !self.views.is_empty() => {
                let (f, t) = self.view_fmt(d - 1);
                (f, t, 0)
            }
            26 | 27 => {
                let (h, ht) = self.scrutinee(2);
                let t = self.ty(1);
                let same = self.rng.chance(1, 2);
                let n = self.rng.range(1, 3);
                let mut ty = BTreeMap::new();
                let mut bs = vec![];
                let mut m = usize::MAX;
                for (i, l) in ["A", "B", "C"].iter().take(n).enumerate() {
                    let (p, binds) = if i + 1 == n && (!self.cfg.faults || self.rng.chance(9, 10)) { (Pattern::Wildcard, vec![]) } else { self.pattern(&ht, 2) };
                    let nb = binds.len();
                    self.env.extend(binds);
                    let (f, k) = if same {
                        self.fmt_of(&t, d - 1)
                    } else {
                        let (f, t, k) = self.fmt(d - 1);
                        ty.insert(lab(l), t);
                        (Format::Variant(lab(l), bx(f)), k)
                    };
                    self.env.truncate(self.env.len() - nb);
                    m = m.min(k);
                    bs.push((p, f));
                }
                (Format::Match(bx(h), bs), if same { t } else { T::Union(ty) }, m)
            }
            28 => {
                // dependent sequence / record
                if self.rng.chance(1, 2) {
                    let n = self.rng.range(1, 4);
                    let (mut fs, mut ts, mut m) = (vec![], vec![], 0);
                    let n0 = self.env.len();
                    for l in ["p", "q", "r", "s"].iter().take(n) {
                        let (f, t, k) = self.fmt(d - 1);
                        fs.push((lab(l), f));
                        self.env.push((l.to_string(), t.clone()));
                        ts.push((lab(l), t));
                        m += k;
                    }
                    self.env.truncate(n0);
                    (Format::record(fs), T::Record(ts), m)
                } else {
                    let (f, t, m) = self.fmt(d - 1);
                    let n = self.name();
                    let (g, gt, m2) = self.with(&n, &t, |s| s.fmt(d - 1));
                    (Format::LetFormat(bx(f), lab(&n), bx(g)), gt, m + m2)
                }
            }
            29 => {
                let (f, _, m) = self.fmt(d - 1);
                let (g, t, m2) = self.fmt(d - 1);
                (Format::MonadSeq(bx(f), bx(g)), t, m + m2)
            }
            30 => {
                if self.cfg.holes && self.rng.chance(1, 3) {
                    return (Format::LiftedOption(None), T::Option(bx(T::Any)), 0);
                }
                let (f, t, m) = self.fmt(d - 1);
                (Format::LiftedOption(Some(bx(f))), T::Option(bx(t)), m)
            }
            31 if self.cfg.permit => {
                let t = self.ty(1);
                let (f, _) = self.fmt_of(&t, d - 1);
                let e = self.expr(&t, 1);
                (Format::Permit(bx(f), bx(e)), T::Any, 0)
            }
            32 if self.cfg.huffman && self.in_bits => {
                let n = "h".to_string();
                let lens: Vec<Expr> = self.rng.pick(&[vec![1u8, 2, 2], vec![2, 2, 2, 2], vec![1, 1], vec![3, 3, 3, 3, 3, 2, 4, 4], vec![1, 0, 2, 3, 3], vec![1, 2], vec![0, 1]]).iter().map(|n| Expr::U8(*n)).collect();
                let k = lens.len();
                let values = if self.rng.chance(1, 3) {
                    let mut v: Vec<u8> = (0..k as u8).collect();
                    for i in (1..k).rev() {
                        v.swap(i, self.rng.below(i + 1));
                    }
                    Some(bx(Expr::Seq(v.into_iter().map(Expr::U8).collect())))
                } else {
                    None
                };
                self.dyns.push(n.clone());
                let f = match self.rng.below(3) {
                    0 => (Format::Apply(lab(&n)), U16, 1),
                    1 => (Format::RepeatCount(bx(Expr::U8(self.rng.below(4) as u8)), bx(Format::Apply(lab(&n)))), T::Seq(bx(U16)), 0),
                    _ => self.fmt(d - 1),
                };
                self.dyns.pop();
                (Format::Dynamic(lab(&n), DynFormat::Huffman(bx(Expr::Seq(lens)), values), bx(f.0)), f.1, f.2)
            }
            33 => {
                let c: Vec<usize> = (0..self.defs.len()).filter(|i| self.defs[*i].bits == self.in_bits && self.defs[*i].views.len() <= self.views.len()).collect();
                if c.is_empty() {
                    return self.fmt(d - 1);
                }
                let i = *self.rng.pick(&c);
                let ats = self.defs[i].args.clone();
                let nv = self.defs[i].views.len();
                let args: Vec<Expr> = ats.iter().map(|(_, t)| self.expr(t, 2)).collect();
                let views: Vec<ViewExpr> = (0..nv).map(|_| self.view_expr()).collect();
                (self.defs[i].r.call_args_views(args, views), self.defs[i].ty.clone(), self.defs[i].min)
            }
            _ => match self.rng.below(8) {
                0 if self.cfg.pos && !self.in_bits => (Format::Pos, T::NumericHole, 0),
                1 => (Format::SkipRemainder, unit(), 0),
                2 => (Format::EndOfInput, unit(), 0),
                3 => {
                    let n = *self.rng.pick(&[1usize, 2, 4, 8, 3]);
                    (Format::Align(n), unit(), 0)
                }
                4 if !self.dyns.is_empty() => (Format::Apply(lab("h")), U16, 1),
                5 if self.cfg.phantom => {
                    let (f, _, _) = self.fmt(d - 1);
                    (Format::Phantom(bx(f)), T::Any, 0)
                }
                6 if !self.in_bits => {
                    let s = self.expr(&T::Seq(bx(U8)), 2);
                    let (f, t, _) = self.fmt(d - 1);
                    (Format::DecodeBytes(bx(s), bx(f)), t, 0)
                }
                7 if !self.cfg.codegen => (Format::Fail, T::Empty, 0),
                _ => (Format::Byte(self.byteset()), U8, 1),
            },
        }
    }
    fn view_expr(&mut self) -> ViewExpr {
        let n = self.rng.pick(&self.views.clone()).clone();
        let mut v = ViewExpr::var(n);
        if self.rng.chance(1, 3) {
            v = v.offset(self.count());
        }
        v
    }
    fn view_fmt(&mut self, d: usize) -> (Format, T) {
        let v = self.view_expr();
        match self.rng.below(6) {
            0 => (Format::WithView(v, ViewFormat::ReifyView), T::ViewObj),
            1 => (Format::WithView(v, ViewFormat::CaptureBytes(bx(self.count()))), T::Seq(bx(U8))),
            2 => {
                let (k, t) = self.rng.pick(&[(BaseKind::U8, U8), (BaseKind::U16Ext(Endian::Be), U16), (BaseKind::U32Ext(Endian::Be), U32), (BaseKind::U64Ext(Endian::Be), U64)]).clone();
                (Format::WithView(v, ViewFormat::ReadArray(bx(self.count()), k)), T::Seq(bx(t)))
            }
            _ => {
                let (f, t, _) = self.fmt(d);
                (Format::ParseFromView(v, bx(f)), t)
            }
        }
    }
}
