//! Reference interpreter: what a format description means on a byte string, written from the documented
//! meaning of the combinators. Independent of doodle's compiler, decoders and evaluator.
//! In generating mode the same rules build an input instead of reading one.
use crate::look::{F, Fs, Look, Looker, Nx, Rn, end, expr_iv};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::{Arith, BaseKind, DynFormat, Endian, Expr, Format, FormatModule, IntRel, Pattern, UnaryOp, ViewExpr, ViewFormat};
use doodle::numeric::core::NumRep;
use num_bigint::BigInt;
use std::cell::{Cell, RefCell};
use std::sync::Arc as Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    /// the input does not match
    Reject,
    /// the description itself has no meaning here (overflow, index out of range, non-exhaustive match ...)
    Fault(String),
    /// gave up
    Fuel,
}
pub type Res<T> = Result<T, Stop>;
fn fault<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Fault(s.into()))
}

pub struct Buf {
    pub data: RefCell<Vec<u8>>,
    /// generating: may still grow
    pub grow: Cell<bool>,
}
#[derive(Clone)]
pub struct Cur {
    pub buf: Rc<Buf>,
    pub off: usize,
    /// end of the window; None = end of the buffer
    pub lim: Option<usize>,
}
impl Cur {
    pub fn over(data: Vec<u8>) -> Cur {
        Cur { buf: Rc::new(Buf { data: RefCell::new(data), grow: Cell::new(false) }), off: 0, lim: None }
    }
    fn end(&self) -> usize {
        self.lim.unwrap_or_else(|| self.buf.data.borrow().len())
    }
    fn peek(&self, i: usize) -> Option<u8> {
        let p = self.off.checked_add(i)?;
        if self.lim.is_some_and(|l| p >= l) { None } else { self.buf.data.borrow().get(p).copied() }
    }
    fn at(&self, off: usize) -> Cur {
        Cur { off, ..self.clone() }
    }
}

enum Ent<'a> {
    Val(Rv),
    Huff(Rc<Huff>),
    View(Cur),
    #[allow(dead_code)]
    Pd(&'a ()),
}
pub struct Node<'a> {
    name: &'a str,
    ent: Ent<'a>,
    up: Scope<'a>,
}
pub type Scope<'a> = Option<Rc<Node<'a>>>;
fn bind<'a>(sc: &Scope<'a>, name: &'a str, ent: Ent<'a>) -> Scope<'a> {
    Some(Rc::new(Node { name, ent, up: sc.clone() }))
}

/// canonical prefix code: (bits, symbol)
pub struct Huff(Vec<(Vec<u8>, u16)>);

/// one successful sub-parse
#[derive(Clone)]
pub struct Tr<'a> {
    pub f: &'a Format,
    pub start: usize,
    pub end: usize,
    pub kids: Vec<Tr<'a>>,
}

pub struct Ref<'a> {
    /// when set, the tree of successful sub-parses is recorded here
    pub trace: RefCell<Option<Vec<Tr<'a>>>>,
    pub m: &'a FormatModule,
    pub look: Looker<'a>,
    pub sigs: &'a [(Vec<String>, Vec<String>)],
    pub fuel: Cell<i64>,
    pub rng: Option<RefCell<Rng>>,
    /// number of choice points decided, faults and kinds of combinators executed
    pub decisions: Cell<u64>,
    pub warned: Cell<u64>,
    pub kinds: Cell<u64>,
    /// told every value an expression takes
    pub watch: Option<Box<dyn Fn(&Expr, &Rv) + 'a>>,
    /// named format and expression, each innermost, that first went wrong
    pub fault_in: Cell<Option<usize>>,
    pub fault_at: RefCell<Option<&'a Expr>>,
}

/// parameter names of every definition of a module
pub fn sigs(m: &FormatModule) -> Vec<(Vec<String>, Vec<String>)> {
    let j = serde_json::to_value(m).expect("module serializes");
    let n = m.iter_formats().count();
    let mut out = vec![(vec![], vec![]); n];
    let names = |e: &serde_json::Value| -> Vec<String> {
        e.as_array()
            .map(|a| a.iter().map(|x| x.as_str().map(|s| s.to_string()).unwrap_or_else(|| x[0].as_str().unwrap_or("").to_string())).collect())
            .unwrap_or_default()
    };
    for (i, o) in out.iter_mut().enumerate() {
        let get = |k: &str| -> Vec<String> {
            match &j[k] {
                serde_json::Value::Array(a) => a.get(i).map(&names).unwrap_or_default(),
                serde_json::Value::Object(ob) => ob.get(&i.to_string()).map(&names).unwrap_or_default(),
                _ => vec![],
            }
        };
        o.0 = get("args");
        o.1 = get("views");
    }
    out
}

fn w_of(k: &Expr) -> Option<u32> {
    Some(match k {
        Expr::AsU8(_) => 8,
        Expr::AsU16(_) => 16,
        Expr::AsU32(_) => 32,
        Expr::AsU64(_) => 64,
        _ => return None,
    })
}
fn maxw(w: u32) -> u64 {
    match w {
        8 => 0xff,
        16 => 0xffff,
        32 => 0xffff_ffff,
        _ => u64::MAX,
    }
}

/// arithmetic on exact integers, with anything that does not fit the width being a fault
pub fn arith(op: Arith, a: &Rv, b: &Rv) -> Res<Rv> {
    if let (Rv::Bool(x), Rv::Bool(y)) = (a, b) {
        return match op {
            Arith::BoolOr => Ok(Rv::Bool(*x | *y)),
            Arith::BoolAnd => Ok(Rv::Bool(*x & *y)),
            _ => fault("bool operands"),
        };
    }
    let (Some(wa), Some(wb), Some(x), Some(y)) = (a.width(), b.width(), a.num(), b.num()) else { return fault("operands") };
    if wa != wb {
        return fault("mixed widths");
    }
    let bitw = if wa == 0 { 64 } else { wa as u64 };
    let (x, y) = (x as u128, y as u128);
    let r: u128 = match op {
        Arith::Add => x + y,
        Arith::Sub if y > x => return fault("underflow"),
        Arith::Sub => x - y,
        Arith::Mul => x * y,
        Arith::Div | Arith::Rem if y == 0 => return fault("division by zero"),
        Arith::Div => x / y,
        Arith::Rem => x % y,
        Arith::BitAnd => x & y,
        Arith::BitOr => x | y,
        Arith::Shl | Arith::Shr if y >= bitw as u128 => return fault("shift amount"),
        // shifting drops the bits that leave the word
        Arith::Shl => (x << y) & maxw(wa) as u128,
        Arith::Shr => x >> y,
        Arith::BoolOr | Arith::BoolAnd => return fault("bool op on ints"),
    };
    if r > maxw(wa) as u128 { fault("overflow") } else { Ok(Rv::mk(wa, r as u64)) }
}
pub fn as_num(v: &Rv) -> Option<(BigInt, NumRep)> {
    Some(match v {
        Rv::Num(n, r) => (n.clone(), *r),
        Rv::U8(n) => (BigInt::from(*n), NumRep::U8),
        Rv::U16(n) => (BigInt::from(*n), NumRep::U16),
        Rv::U32(n) => (BigInt::from(*n), NumRep::U32),
        Rv::U64(n) => (BigInt::from(*n), NumRep::U64),
        Rv::Usize(n) => (BigInt::from(*n), NumRep::Auto),
        _ => return None,
    })
}
pub fn rel(op: IntRel, a: &Rv, b: &Rv) -> Res<Rv> {
    if matches!(a, Rv::Num(..)) || matches!(b, Rv::Num(..)) {
        let (Some((x, rx)), Some((y, ry))) = (as_num(a), as_num(b)) else { return fault("rel operands") };
        if rx != ry && rx != NumRep::Auto && ry != NumRep::Auto && !matches!((a, b), (Rv::Num(..), Rv::Num(..))) {
            return fault("mixed representations");
        }
        let o = x.cmp(&y);
        return Ok(Rv::Bool(match op {
            IntRel::Eq => o.is_eq(),
            IntRel::Ne => o.is_ne(),
            IntRel::Lt => o.is_lt(),
            IntRel::Gt => o.is_gt(),
            IntRel::Lte => o.is_le(),
            IntRel::Gte => o.is_ge(),
        }));
    }
    let (Some(wa), Some(wb), Some(x), Some(y)) = (a.width(), b.width(), a.num(), b.num()) else { return fault("rel operands") };
    if wa != wb {
        return fault("mixed widths");
    }
    Ok(Rv::Bool(match op {
        IntRel::Eq => x == y,
        IntRel::Ne => x != y,
        IntRel::Lt => x < y,
        IntRel::Gt => x > y,
        IntRel::Lte => x <= y,
        IntRel::Gte => x >= y,
    }))
}

pub fn matches<'a>(p: &'a Pattern, v: &Rv, out: &mut Vec<(&'a str, Rv)>) -> bool {
    let n = v.num();
    if let Rv::Num(z, r) = v {
        let m = |k: u64, w: NumRep| *r == w && *z == BigInt::from(k);
        match p {
            Pattern::U8(a) => return m(*a as u64, NumRep::U8),
            Pattern::U16(a) => return m(*a as u64, NumRep::U16),
            Pattern::U32(a) => return m(*a as u64, NumRep::U32),
            Pattern::U64(a) => return m(*a, NumRep::U64),
            Pattern::Int(b) => return *z >= BigInt::from(b.min()) && b.max().is_none_or(|m| *z <= BigInt::from(m)),
            Pattern::ZConst(c) => return c == z,
            Pattern::ZRange(b) => return b.min <= *z && *z <= b.max,
            _ => {}
        }
    }
    match (p, v) {
        (Pattern::ZRange(b), _) => n.is_some_and(|n| b.min <= BigInt::from(n) && BigInt::from(n) <= b.max),
        (Pattern::Binding(l), _) => {
            out.push((l, v.clone()));
            true
        }
        (Pattern::Wildcard, _) => true,
        (Pattern::Bool(a), Rv::Bool(b)) => a == b,
        (Pattern::U8(a), Rv::U8(b)) => a == b,
        (Pattern::U16(a), Rv::U16(b)) => a == b,
        (Pattern::U32(a), Rv::U32(b)) => a == b,
        (Pattern::U64(a), Rv::U64(b)) => a == b,
        (Pattern::Char(a), Rv::Char(b)) => a == b,
        (Pattern::Int(b), _) => n.is_some_and(|n| n >= b.min() as u64 && b.max().is_none_or(|m| n <= m as u64)),
        (Pattern::ZConst(z), _) => n.is_some_and(|n| *z == BigInt::from(n)),
        (Pattern::Tuple(ps), Rv::Tuple(vs)) => ps.len() == vs.len() && ps.iter().zip(vs.iter()).all(|(p, v)| matches(p, v, out)),
        (Pattern::Seq(ps), Rv::Seq(vs)) => ps.len() == vs.len() && ps.iter().zip(vs.iter()).all(|(p, v)| matches(p, v, out)),
        (Pattern::Variant(l, p), Rv::Var(l2, v)) => l.as_ref() == &**l2 && matches(p, v, out),
        (Pattern::Option(None), Rv::Opt(None)) => true,
        (Pattern::Option(Some(p)), Rv::Opt(Some(v))) => matches(p, v, out),
        _ => false,
    }
}

impl<'a> Ref<'a> {
    pub fn new(m: &'a FormatModule, sigs: &'a [(Vec<String>, Vec<String>)]) -> Self {
        Ref { trace: RefCell::new(None), m, look: Looker::new(m), sigs, fuel: Cell::new(200_000), rng: None, decisions: Cell::new(0), warned: Cell::new(0), kinds: Cell::new(0), watch: None, fault_in: Cell::new(None), fault_at: RefCell::new(None) }
    }
    pub fn run(&self, f: &'a Format, input: &[u8]) -> Res<(Rv, usize)> {
        self.look.fuel.set(400_000);
        let c = Cur::over(input.to_vec());
        let (v, c) = self.parse(f, &None, c, end())?;
        Ok((v, c.off))
    }
    /// the same with no limit on lookahead work
    pub fn run_big(&self, f: &'a Format, input: &[u8]) -> Res<(Rv, usize)> {
        self.look.fuel.set(i64::MAX / 2);
        let c = Cur::over(input.to_vec());
        let (v, c) = self.parse(f, &None, c, end())?;
        Ok((v, c.off))
    }
    /// Produce an input the format is likely to accept.
    pub fn generate(&mut self, f: &'a Format, rng: Rng) -> Option<Vec<u8>> {
        self.rng = Some(RefCell::new(rng));
        let c = Cur { buf: Rc::new(Buf { data: RefCell::new(vec![]), grow: Cell::new(true) }), off: 0, lim: None };
        let buf = c.buf.clone();
        let r = self.parse(f, &None, c, end());
        self.rng = None;
        let d = buf.data.borrow().clone();
        match r {
            Ok(_) => Some(d),
            Err(_) if !d.is_empty() => Some(d),
            _ => None,
        }
    }

    fn burn(&self) -> Res<()> {
        self.fuel.set(self.fuel.get() - 1);
        if self.fuel.get() < 0 { Err(Stop::Fuel) } else { Ok(()) }
    }
    fn burn_n(&self, n: usize) -> Res<()> {
        self.fuel.set(self.fuel.get() - n as i64 / 4);
        self.burn()
    }
    fn generating(&self, c: &Cur) -> bool {
        self.rng.is_some() && c.buf.grow.get()
    }
    fn rand(&self, n: usize) -> usize {
        self.rng.as_ref().unwrap().borrow_mut().below(n)
    }

    // ---- expressions ----
    fn val(&self, sc: &Scope<'a>, name: &str) -> Res<Rv> {
        let mut s = sc;
        while let Some(n) = s {
            if n.name == name {
                if let Ent::Val(v) = &n.ent {
                    return Ok(v.clone());
                }
            }
            s = &n.up;
        }
        fault(format!("unbound {name}"))
    }
    fn uint(&self, e: &'a Expr, sc: &Scope<'a>) -> Res<u64> {
        self.eval(e, sc)?.num().ok_or_else(|| Stop::Fault("number expected".into()))
    }
    fn boolean(&self, v: Rv) -> Res<bool> {
        match v {
            Rv::Bool(b) => Ok(b),
            _ => fault("bool expected"),
        }
    }
    fn seqv(&self, v: Rv) -> Res<Rc<Vec<Rv>>> {
        match v {
            Rv::Seq(s) => Ok(s),
            _ => fault("seq expected"),
        }
    }
    pub fn apply(&self, lam: &'a Expr, sc: &Scope<'a>, arg: Rv) -> Res<Rv> {
        match lam {
            Expr::Lambda(n, b) => self.eval(b, &bind(sc, n, Ent::Val(arg))),
            _ => fault("lambda expected"),
        }
    }
    fn bytes_n(&self, e: &'a Expr, sc: &Scope<'a>, n: usize) -> Res<Vec<u8>> {
        match self.eval(e, sc)? {
            Rv::Tuple(t) if t.len() == n => t.iter().map(|v| if let Rv::U8(b) = v { Ok(*b) } else { fault("byte expected") }).collect(),
            _ => fault("byte tuple expected"),
        }
    }
    pub fn eval(&self, e: &'a Expr, sc: &Scope<'a>) -> Res<Rv> {
        let r = self.eval_in(e, sc);
        if matches!(r, Err(Stop::Fault(_))) {
            self.fault_at.borrow_mut().get_or_insert(e);
        }
        let v = r?;
        if let Some(w) = &self.watch {
            w(e, &v);
        }
        Ok(v)
    }
    fn eval_in(&self, e: &'a Expr, sc: &Scope<'a>) -> Res<Rv> {
        self.burn()?;
        Ok(match e {
            Expr::Var(n) => self.val(sc, n)?,
            Expr::Bool(b) => Rv::Bool(*b),
            Expr::U8(n) => Rv::U8(*n),
            Expr::U16(n) => Rv::U16(*n),
            Expr::U32(n) => Rv::U32(*n),
            Expr::U64(n) => Rv::U64(*n),
            Expr::Tuple(es) => Rv::tuple(es.iter().map(|e| self.eval(e, sc)).collect::<Res<_>>()?),
            Expr::Seq(es) => Rv::seq(es.iter().map(|e| self.eval(e, sc)).collect::<Res<_>>()?),
            Expr::Record(fs) => Rv::Rec(Rc::new(fs.iter().map(|(l, e)| Ok((l.to_string(), self.eval(e, sc)?))).collect::<Res<_>>()?)),
            Expr::Variant(l, e) => Rv::Var(l.as_ref().into(), Rc::new(self.eval(e, sc)?)),
            Expr::LiftOption(o) => Rv::Opt(match o {
                None => None,
                Some(e) => Some(Rc::new(self.eval(e, sc)?)),
            }),
            Expr::TupleProj(e, i) => match self.eval(e, sc)? {
                Rv::Tuple(t) if *i < t.len() => t[*i].clone(),
                _ => return fault("tuple projection"),
            },
            Expr::RecordProj(e, l) => match self.eval(e, sc)? {
                Rv::Rec(fs) => match fs.iter().find(|f| f.0 == l.as_ref()) {
                    Some(f) => f.1.clone(),
                    None => return fault("no field"),
                },
                _ => return fault("record projection"),
            },
            Expr::Numeric(n) => {
                let look = |name: &str| self.val(sc, name).ok().and_then(|v| as_num(&v));
                match crate::numref::eval(n, &look) {
                    Ok((n, r)) => Rv::Num(n, r),
                    Err(e) => return fault(format!("numeric {e:?}")),
                }
            }
            Expr::Match(h, bs) => {
                let v = self.eval(h, sc)?;
                for (p, b) in bs {
                    let mut out = vec![];
                    if matches(p, &v, &mut out) {
                        let mut s = sc.clone();
                        for (n, v) in out {
                            s = bind(&s, n, Ent::Val(v));
                        }
                        return self.eval(b, &s);
                    }
                }
                return fault("non-exhaustive");
            }
            Expr::Destructure(h, p, b) => {
                let v = self.eval(h, sc)?;
                let mut out = vec![];
                if !matches(p, &v, &mut out) {
                    return fault("refutable");
                }
                let mut s = sc.clone();
                for (n, v) in out {
                    s = bind(&s, n, Ent::Val(v));
                }
                self.eval(b, &s)?
            }
            Expr::Lambda(..) => return fault("lambda as value"),
            Expr::IntRel(r, a, b) => rel(*r, &self.eval(a, sc)?, &self.eval(b, sc)?)?,
            Expr::Arith(op, a, b) => arith(*op, &self.eval(a, sc)?, &self.eval(b, sc)?)?,
            Expr::Unary(UnaryOp::BoolNot, a) => Rv::Bool(!self.boolean(self.eval(a, sc)?)?),
            Expr::Unary(op, a) => {
                let v = self.eval(a, sc)?;
                let Some(w) = v.width() else { return fault("unary operand") };
                arith(if *op == UnaryOp::IntSucc { Arith::Add } else { Arith::Sub }, &v, &Rv::mk(w, 1))?
            }
            Expr::AsU8(x) | Expr::AsU16(x) | Expr::AsU32(x) | Expr::AsU64(x) => {
                let n = self.uint(x, sc)?;
                let w = w_of(e).unwrap();
                if n > maxw(w) {
                    return fault("cast");
                }
                Rv::mk(w, n)
            }
            Expr::AsChar(x) => {
                let n = self.uint(x, sc)?;
                let Ok(n) = u32::try_from(n) else { return fault("cast to char") };
                Rv::Char(char::from_u32(n).unwrap_or('\u{fffd}'))
            }
            Expr::U16Be(x) => Rv::U16(self.bytes_n(x, sc, 2)?.iter().fold(0, |a, b| a << 8 | *b as u16)),
            Expr::U16Le(x) => Rv::U16(self.bytes_n(x, sc, 2)?.iter().rev().fold(0, |a, b| a << 8 | *b as u16)),
            Expr::U32Be(x) => Rv::U32(self.bytes_n(x, sc, 4)?.iter().fold(0, |a, b| a << 8 | *b as u32)),
            Expr::U32Le(x) => Rv::U32(self.bytes_n(x, sc, 4)?.iter().rev().fold(0, |a, b| a << 8 | *b as u32)),
            Expr::U64Be(x) => Rv::U64(self.bytes_n(x, sc, 8)?.iter().fold(0, |a, b| a << 8 | *b as u64)),
            Expr::U64Le(x) => Rv::U64(self.bytes_n(x, sc, 8)?.iter().rev().fold(0, |a, b| a << 8 | *b as u64)),
            Expr::SeqLength(x) => Rv::U32(self.seqv(self.eval(x, sc)?)?.len() as u32),
            Expr::SeqIx(x, i) => {
                let s = self.seqv(self.eval(x, sc)?)?;
                let i = self.uint(i, sc)? as usize;
                match s.get(i) {
                    Some(v) => v.clone(),
                    None => return fault("index"),
                }
            }
            Expr::SubSeq(x, a, n) => {
                let s = self.seqv(self.eval(x, sc)?)?;
                let (a, n) = (self.uint(a, sc)? as usize, self.uint(n, sc)? as usize);
                match a.checked_add(n).filter(|e| *e <= s.len()) {
                    Some(e) => Rv::seq(s[a..e].to_vec()),
                    None => return fault("subseq range"),
                }
            }
            Expr::SubSeqInflate(x, a, n) => {
                let s = self.seqv(self.eval(x, sc)?)?;
                let (a, n) = (self.uint(a, sc)? as usize, self.uint(n, sc)? as usize);
                let mut all = (*s).clone();
                if n > 0 && a >= all.len() {
                    return fault("inflate start");
                }
                for i in 0..n {
                    self.burn()?;
                    let v = all[a + i].clone();
                    all.push(v);
                }
                Rv::seq(all[s.len()..].to_vec())
            }
            Expr::Append(a, b) => {
                let (a, b) = (self.seqv(self.eval(a, sc)?)?, self.seqv(self.eval(b, sc)?)?);
                self.burn_n(a.len() + b.len())?;
                Rv::seq(a.iter().chain(b.iter()).cloned().collect())
            }
            Expr::FlatMap(f, s) => {
                let s = self.seqv(self.eval(s, sc)?)?;
                let mut out = vec![];
                for v in s.iter() {
                    let r = self.seqv(self.apply(f, sc, v.clone())?)?;
                    self.burn_n(r.len())?;
                    out.extend(r.iter().cloned());
                }
                Rv::seq(out)
            }
            Expr::FlatMapAccum(f, init, _, s) => {
                let s = self.seqv(self.eval(s, sc)?)?;
                let mut acc = self.eval(init, sc)?;
                let mut out = vec![];
                for v in s.iter() {
                    match self.apply(f, sc, Rv::tuple(vec![acc, v.clone()]))? {
                        Rv::Tuple(t) if t.len() == 2 => {
                            acc = t[0].clone();
                            let r = self.seqv(t[1].clone())?;
                            self.burn_n(r.len())?;
                            out.extend(r.iter().cloned());
                        }
                        _ => return fault("flat-map-accum result"),
                    }
                }
                Rv::seq(out)
            }
            Expr::FlatMapList(f, _, s) => {
                let s = self.seqv(self.eval(s, sc)?)?;
                let mut out: Vec<Rv> = vec![];
                for v in s.iter() {
                    let r = self.seqv(self.apply(f, sc, Rv::tuple(vec![Rv::seq(out.clone()), v.clone()]))?)?;
                    self.burn_n(r.len() + out.len())?;
                    out.extend(r.iter().cloned());
                }
                Rv::seq(out)
            }
            Expr::LeftFold(f, init, _, s) => {
                let s = self.seqv(self.eval(s, sc)?)?;
                let mut acc = self.eval(init, sc)?;
                for v in s.iter() {
                    acc = self.apply(f, sc, Rv::tuple(vec![acc, v.clone()]))?;
                }
                acc
            }
            Expr::FindByKey(sorted, f, q, s) => {
                let s = self.seqv(self.eval(s, sc)?)?;
                let q = self.eval(q, sc)?;
                let keys: Vec<Rv> = s.iter().map(|v| self.apply(f, sc, v.clone())).collect::<Res<_>>()?;
                if keys.iter().any(|k| k.width().is_none() || k.width() == Some(0) || k.width() != q.width()) {
                    return fault("keys");
                }
                if *sorted && !keys.windows(2).all(|w| w[0].num() < w[1].num()) {
                    return Err(Stop::Fuel); // unspecified
                }
                Rv::Opt(keys.iter().position(|k| *k == q).map(|i| Rc::new(s[i].clone())))
            }
            Expr::Dup(n, x) => {
                let n = self.uint(n, sc)?;
                let v = self.eval(x, sc)?;
                if n > 100_000 {
                    return Err(Stop::Fuel);
                }
                self.burn_n(n as usize)?;
                Rv::seq(vec![v; n as usize])
            }
            Expr::EnumFromTo(a, b) => {
                let (a, b) = (self.uint(a, sc)?, self.uint(b, sc)?);
                if b.saturating_sub(a) > 100_000 {
                    return Err(Stop::Fuel);
                }
                Rv::seq((a..b).map(Rv::Usize).collect())
            }
        })
    }

    // ---- views ----
    fn view(&self, v: &'a ViewExpr, sc: &Scope<'a>) -> Res<Cur> {
        match v {
            ViewExpr::Var(name) => {
                let mut s = sc;
                while let Some(n) = s {
                    if n.name == name.as_ref() {
                        if let Ent::View(c) = &n.ent {
                            return Ok(c.clone());
                        }
                    }
                    s = &n.up;
                }
                fault("unbound view")
            }
            ViewExpr::Offset(b, e) => {
                let n = self.uint(e, sc)?;
                let c = self.view(b, sc)?;
                let Some(p) = (c.off as u64).checked_add(n) else { return Err(Stop::Reject) };
                self.want(&c, p as usize);
                if p > c.end() as u64 { Err(Stop::Reject) } else { Ok(c.at(p as usize)) }
            }
        }
    }
    /// generating: make sure the buffer reaches `to`
    fn want(&self, c: &Cur, to: usize) {
        if self.generating(c) && c.lim.is_none_or(|l| to <= l) && to < 4096 {
            let mut d = c.buf.data.borrow_mut();
            while d.len() < to {
                let b = self.rng.as_ref().unwrap().borrow_mut().byte();
                d.push(b & if b & 0x80 != 0 { 0xff } else { 0x07 });
            }
        }
    }

    fn byte(&self, c: &Cur) -> Res<(u8, Cur)> {
        match c.peek(0) {
            Some(b) => Ok((b, c.at(c.off + 1))),
            None => Err(Stop::Reject),
        }
    }

    fn huff(&self, lengths: &Rv, values: Option<&Rv>) -> Res<Huff> {
        let to = |v: &Rv| -> Res<Vec<usize>> {
            match v {
                Rv::Seq(s) => s.iter().map(|x| if let Rv::U8(n) = x { Ok(*n as usize) } else { fault("huffman element") }).collect(),
                _ => fault("huffman seq"),
            }
        };
        let mut len = to(lengths)?;
        if let Some(v) = values {
            let v = to(v)?;
            let mut nl = vec![0; v.len()];
            for i in 0..len.len() {
                match v.get(i).and_then(|s| nl.get_mut(*s)) {
                    Some(x) => *x = len[i],
                    None => return fault("huffman values"),
                }
            }
            len = nl;
        }
        let max = len.iter().copied().max().unwrap_or(0);
        if max > 40 {
            return Err(Stop::Fuel);
        }
        let mut codes: Vec<(Vec<u8>, u16)> = vec![];
        let mut code: u64 = 0;
        for l in 1..=max {
            code <<= 1;
            for (s, _) in len.iter().enumerate().filter(|x| *x.1 == l) {
                if code >> l != 0 {
                    return Ok(Huff(vec![])); // no prefix code has these lengths: nothing can be read with it
                }
                codes.push(((0..l).rev().map(|b| (code >> b & 1) as u8).collect(), s as u16));
                code += 1;
            }
        }
        codes.sort_by_key(|c| c.1);
        Ok(Huff(codes))
    }

    // ---- formats ----
    fn alt<T>(&self, c: &Cur, n: usize, f: impl Fn(usize) -> Res<T>) -> Res<T> {
        // generating: try the alternatives in random order, undoing failed attempts
        let mut order: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            order.swap(i, self.rand(i + 1));
        }
        let mut last = Err(Stop::Reject);
        for i in order {
            let len = c.buf.data.borrow().len();
            let g = c.buf.grow.get();
            last = f(i);
            if !matches!(last, Err(Stop::Reject)) {
                return last;
            }
            c.buf.data.borrow_mut().truncate(len);
            c.buf.grow.set(g);
        }
        last
    }

    pub fn decide(&self, alts: Vec<Rn<'a>>, c: &Cur) -> Res<usize> {
        self.decisions.set(self.decisions.get() + 1);
        match self.look.decide(alts, |i| c.peek(i)) {
            Look::Pick(i) => Ok(i),
            Look::NoMatch => Err(Stop::Reject),
            Look::Ambiguous => fault("undecidable choice in an accepted format"),
            Look::Fuel => Err(Stop::Fuel),
        }
    }

    pub fn parse(&self, f: &'a Format, sc: &Scope<'a>, c: Cur, next: Rn<'a>) -> Res<(Rv, Cur)> {
        let start = c.off;
        let outer = {
            let mut t = self.trace.borrow_mut();
            t.as_mut().map(std::mem::take)
        };
        let Some(mut outer) = outer else { return self.step(f, sc, c, next) };
        let r = self.step(f, sc, c, next);
        let mut t = self.trace.borrow_mut();
        let kids = t.take().unwrap_or_default();
        if let Ok((_, c2)) = &r {
            outer.push(Tr { f, start, end: c2.off, kids });
        }
        *t = Some(outer);
        r
    }
    fn step(&self, f: &'a Format, sc: &Scope<'a>, c: Cur, next: Rn<'a>) -> Res<(Rv, Cur)> {
        self.burn()?;
        macro_rules! kind { ($n:expr) => { self.kinds.set(self.kinds.get() | 1 << $n) } }
        match f {
            Format::ItemVar(l, args, views) => {
                kind!(0);
                let (an, vn) = &self.sigs[*l];
                let mut s: Scope<'a> = None;
                for (n, e) in an.iter().zip(args) {
                    s = bind(&s, n, Ent::Val(self.eval(e, sc)?));
                }
                for (n, v) in vn.iter().zip(views) {
                    s = bind(&s, n, Ent::View(self.view(v, sc)?));
                }
                let g = self.m.get_format(*l);
                let k = if self.look.needs_next(g) { next } else { end() };
                let r = self.parse(g, &s, c, k);
                if matches!(r, Err(Stop::Fault(_))) && self.fault_in.get().is_none() {
                    self.fault_in.set(Some(*l));
                }
                r
            }
            Format::Phantom(_) => Ok((Rv::Phantom, c)),
            Format::Fail => Err(Stop::Reject),
            Format::Pos => {
                kind!(1);
                Ok((Rv::U64(c.off as u64), c))
            }
            Format::SkipRemainder => {
                kind!(2);
                let e = c.end();
                self.want(&c, e);
                Ok((Rv::unit(), c.at(e)))
            }
            Format::EndOfInput => {
                kind!(3);
                match c.peek(0) {
                    None if c.lim.is_some_and(|l| c.off < l) => Err(Stop::Reject),
                    None => {
                        c.buf.grow.set(c.buf.grow.get() && c.lim.is_some());
                        Ok((Rv::unit(), c))
                    }
                    Some(_) => Err(Stop::Reject),
                }
            }
            Format::Align(n) => {
                kind!(4);
                let p = c.off.div_ceil(*n) * n;
                self.want(&c, p);
                if p > c.end() { Err(Stop::Reject) } else { Ok((Rv::unit(), c.at(p))) }
            }
            Format::Byte(bs) => {
                if self.generating(&c) && c.peek(0).is_none() && c.lim.is_none_or(|l| c.off < l) {
                    self.want(&c, c.off);
                    let opts: Vec<u8> = (0..=255u8).filter(|b| bs.contains(*b)).collect();
                    if opts.is_empty() {
                        return Err(Stop::Reject);
                    }
                    // favour small values: they serve as counts
                    let small: Vec<u8> = opts.iter().copied().filter(|b| *b < 6).collect();
                    let b = if !small.is_empty() && self.rand(4) != 0 { small[self.rand(small.len())] } else { opts[self.rand(opts.len())] };
                    c.buf.data.borrow_mut().push(b);
                }
                let (b, c) = self.byte(&c)?;
                if bs.contains(b) { Ok((Rv::U8(b), c)) } else { Err(Stop::Reject) }
            }
            Format::Variant(l, g) => {
                kind!(5);
                let (v, c) = self.parse(g, sc, c, next)?;
                Ok((Rv::Var(l.as_ref().into(), Rc::new(v)), c))
            }
            Format::Union(fs) => {
                kind!(6);
                if self.generating(&c) {
                    return self.alt(&c, fs.len(), |i| self.parse(&fs[i], sc, c.clone(), next.clone()));
                }
                let i = self.decide(fs.iter().map(|g| Rc::new(Nx::Then(F(g), next.clone()))).collect(), &c)?;
                self.parse(&fs[i], sc, c, next)
            }
            Format::UnionNondet(fs) => {
                kind!(7);
                if self.generating(&c) {
                    return self.alt(&c, fs.len(), |i| self.parse(&fs[i], sc, c.clone(), next.clone()));
                }
                for g in fs {
                    match self.parse(g, sc, c.clone(), next.clone()) {
                        Err(Stop::Reject) => {}
                        r => return r,
                    }
                }
                Err(Stop::Reject)
            }
            Format::Tuple(fs) | Format::Sequence(fs) => {
                let mut c = c;
                let mut out = vec![];
                for i in 0..fs.len() {
                    let (v, c2) = self.parse(&fs[i], sc, c, Rc::new(Nx::Many(Fs(&fs[i + 1..]), next.clone())))?;
                    out.push(v);
                    c = c2;
                }
                if matches!(f, Format::Tuple(_)) {
                    Ok((Rv::tuple(out), c))
                } else {
                    kind!(8);
                    Ok((Rv::seq(out), c))
                }
            }
            Format::Repeat(a) | Format::Repeat1(a) => {
                kind!(9);
                let one = matches!(f, Format::Repeat1(_));
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next.clone()));
                let mut out = vec![];
                let mut c = c;
                loop {
                    let more = if one && out.is_empty() {
                        true
                    } else if self.generating(&c) {
                        self.rand(3) != 0 && out.len() < 8
                    } else {
                        self.decide(vec![Rc::new(Nx::Then(F(a), star.clone())), next.clone()], &c)? == 0
                    };
                    if !more {
                        return Ok((Rv::seq(out), c));
                    }
                    let (v, c2) = self.parse(a, sc, c, star.clone())?;
                    out.push(v);
                    c = c2;
                }
            }
            Format::RepeatCount(e, a) => {
                kind!(10);
                let n = self.uint(e, sc)?;
                if n > 50_000 {
                    return Err(Stop::Fuel);
                }
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next));
                let mut out = vec![];
                let mut c = c;
                for _ in 0..n {
                    let (v, c2) = self.parse(a, sc, c, star.clone())?;
                    out.push(v);
                    c = c2;
                }
                Ok((Rv::seq(out), c))
            }
            Format::RepeatBetween(lo, hi, a) => {
                kind!(11);
                let (elo, ehi) = (expr_iv(lo).lo, expr_iv(hi).lo);
                let (lo, hi) = (self.uint(lo, sc)?, self.uint(hi, sc)?);
                let inner: Rn<'a> = Rc::new(Nx::Between(0, ehi.saturating_sub(1), F(a), next.clone()));
                let target = if self.generating(&c) { lo + self.rand((hi - lo + 1) as usize) as u64 } else { 0 };
                let mut out = vec![];
                let mut c = c;
                loop {
                    let n = out.len() as u64;
                    let stop = if self.generating(&c) {
                        n >= target
                    } else {
                        self.decide((0..=ehi).map(|i| Rc::new(Nx::Count(i, F(a), next.clone()))).collect(), &c)? == 0 || n == hi
                    };
                    if stop {
                        return if n < lo { Err(Stop::Reject) } else { Ok((Rv::seq(out), c)) };
                    }
                    let (v, c2) = self.parse(a, sc, c, inner.clone())?;
                    out.push(v);
                    c = c2;
                }
            }
            Format::RepeatUntilLast(p, a) | Format::RepeatUntilSeq(p, a) => {
                kind!(12);
                let last = matches!(f, Format::RepeatUntilLast(..));
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next));
                let mut out = vec![];
                let mut c = c;
                loop {
                    let (v, c2) = self.parse(a, sc, c, star.clone())?;
                    out.push(v.clone());
                    c = c2;
                    let arg = if last { v } else { Rv::seq(out.clone()) };
                    if self.boolean(self.apply(p, sc, arg)?)? {
                        return Ok((Rv::seq(out), c));
                    }
                }
            }
            Format::AccumUntil(done, upd, init, _, a) => {
                kind!(13);
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next));
                let mut acc = self.eval(init, sc)?;
                let mut out = vec![];
                let mut c = c;
                loop {
                    if self.boolean(self.apply(done, sc, Rv::tuple(vec![acc.clone(), Rv::seq(out.clone())]))?)? {
                        return Ok((Rv::tuple(vec![acc, Rv::seq(out)]), c));
                    }
                    let (v, c2) = self.parse(a, sc, c, star.clone())?;
                    out.push(v.clone());
                    c = c2;
                    acc = self.apply(upd, sc, Rv::tuple(vec![acc, v]))?;
                }
            }
            Format::ForEach(e, l, a) => {
                kind!(14);
                let s = self.seqv(self.eval(e, sc)?)?;
                let star: Rn<'a> = Rc::new(Nx::Star(F(a), next));
                let mut out = vec![];
                let mut c = c;
                for v in s.iter() {
                    let (v, c2) = self.parse(a, &bind(sc, l, Ent::Val(v.clone())), c, star.clone())?;
                    out.push(v);
                    c = c2;
                }
                Ok((Rv::seq(out), c))
            }
            Format::Maybe(e, a) => {
                kind!(15);
                if self.boolean(self.eval(e, sc)?)? {
                    let (v, c) = self.parse(a, sc, c, next)?;
                    Ok((Rv::Opt(Some(Rc::new(v))), c))
                } else {
                    Ok((Rv::Opt(None), c))
                }
            }
            Format::LiftedOption(None) => Ok((Rv::Opt(None), c)),
            Format::LiftedOption(Some(a)) => {
                let (v, c) = self.parse(a, sc, c, next)?;
                Ok((Rv::Opt(Some(Rc::new(v))), c))
            }
            Format::Peek(a) => {
                kind!(16);
                let (v, _) = self.parse(a, sc, c.clone(), end())?;
                Ok((v, c))
            }
            Format::PeekNot(a) => {
                kind!(17);
                let g = c.buf.grow.replace(false);
                let r = self.parse(a, sc, c.clone(), end());
                c.buf.grow.set(g);
                match r {
                    Ok(_) => Err(Stop::Reject),
                    Err(Stop::Reject) => Ok((Rv::unit(), c)),
                    Err(e) => Err(e),
                }
            }
            Format::Slice(e, a) => {
                kind!(18);
                let n = self.uint(e, sc)?;
                let Some(p) = (c.off as u64).checked_add(n) else { return Err(Stop::Reject) };
                if self.generating(&c) && p < 4096 && c.lim.is_none_or(|l| p <= l as u64) {
                    let inner = Cur { buf: c.buf.clone(), off: c.off, lim: Some(p as usize) };
                    let (v, _) = self.parse(a, sc, inner, end())?;
                    self.want(&c, p as usize);
                    return Ok((v, c.at(p as usize)));
                }
                if p > c.end() as u64 {
                    return Err(Stop::Reject);
                }
                let p = p as usize;
                let (v, _) = self.parse(a, sc, Cur { buf: c.buf.clone(), off: c.off, lim: Some(p) }, end())?;
                Ok((v, c.at(p)))
            }
            Format::Bits(a) => {
                kind!(19);
                let g = self.generating(&c) && c.lim.is_none();
                let mut bits = vec![];
                let mut i = 0;
                while let Some(b) = c.peek(i) {
                    bits.extend((0..8).map(|k| b >> k & 1));
                    i += 1;
                }
                let sub = Cur { buf: Rc::new(Buf { data: RefCell::new(bits), grow: Cell::new(g) }), off: 0, lim: None };
                let sb = sub.buf.clone();
                let (v, rest) = self.parse(a, sc, sub, end())?;
                let used = rest.off.div_ceil(8);
                if g {
                    let mut d = sb.data.borrow_mut();
                    while d.len() % 8 != 0 {
                        let b = self.rand(2) as u8;
                        d.push(b);
                    }
                    let bytes: Vec<u8> = d.chunks(8).map(|ch| ch.iter().enumerate().fold(0, |a, (k, b)| a | (b & 1) << k)).collect();
                    let mut pd = c.buf.data.borrow_mut();
                    pd.truncate(c.off);
                    pd.extend(bytes);
                }
                Ok((v, c.at(c.off + used)))
            }
            Format::WithRelativeOffset(b, e, a) => {
                kind!(20);
                let (b, n) = (self.uint(b, sc)?, self.uint(e, sc)?);
                let Some(p) = b.checked_add(n) else { return Err(Stop::Reject) };
                if p < 4096 {
                    self.want(&c, p as usize);
                }
                if p > c.end() as u64 {
                    return Err(Stop::Reject);
                }
                let (v, _) = self.parse(a, sc, c.at(p as usize), end())?;
                Ok((v, c))
            }
            Format::Map(a, e) => {
                kind!(21);
                let (v, c) = self.parse(a, sc, c, next)?;
                Ok((self.apply(e, sc, v)?, c))
            }
            Format::Where(a, cond) => {
                kind!(22);
                let e: &'a Expr = AsRef::<Expr>::as_ref(cond);
                let tries = if self.generating(&c) { 6 } else { 1 };
                for t in 0..tries {
                    let len = c.buf.data.borrow().len();
                    let (v, c2) = self.parse(a, sc, c.clone(), next.clone())?;
                    if self.boolean(self.apply(e, sc, v.clone())?)? {
                        return Ok((v, c2));
                    }
                    if !cond.is_required() {
                        self.warned.set(self.warned.get() + 1);
                        return Ok((v, c2));
                    }
                    if t + 1 < tries {
                        c.buf.data.borrow_mut().truncate(len);
                        c.buf.grow.set(true);
                    }
                }
                Err(Stop::Reject)
            }
            Format::Compute(e) => Ok((self.eval(e, sc)?, c)),
            Format::Let(n, e, a) => {
                kind!(23);
                let v = self.eval(e, sc)?;
                self.parse(a, &bind(sc, n, Ent::Val(v)), c, next)
            }
            Format::LetView(n, a) => {
                kind!(24);
                self.parse(a, &bind(sc, n, Ent::View(c.clone())), c, next)
            }
            Format::Match(h, bs) => {
                kind!(25);
                let v = self.eval(h, sc)?;
                for (p, g) in bs {
                    let mut out = vec![];
                    if matches(p, &v, &mut out) {
                        let mut s = sc.clone();
                        for (n, v) in out {
                            s = bind(&s, n, Ent::Val(v));
                        }
                        return self.parse(g, &s, c, next);
                    }
                }
                Err(Stop::Reject)
            }
            Format::Dynamic(n, DynFormat::Huffman(l, vs), a) => {
                kind!(26);
                let l = self.eval(l, sc)?;
                let vs = match vs {
                    Some(e) => Some(self.eval(e, sc)?),
                    None => None,
                };
                let h = self.huff(&l, vs.as_ref())?;
                self.parse(a, &bind(sc, n, Ent::Huff(Rc::new(h))), c, next)
            }
            Format::Apply(name) => {
                kind!(27);
                let mut s = sc;
                let h = loop {
                    match s {
                        None => return fault("unbound dynamic format"),
                        Some(n) if n.name == name.as_ref() => {
                            if let Ent::Huff(h) = &n.ent {
                                break h.clone();
                            }
                            s = &n.up;
                        }
                        Some(n) => s = &n.up,
                    }
                };
                if h.0.is_empty() {
                    return Err(Stop::Reject);
                }
                if self.generating(&c) && c.peek(0).is_none() {
                    let (bits, _) = &h.0[self.rand(h.0.len())];
                    c.buf.data.borrow_mut().extend(bits);
                }
                let mut cands: Vec<usize> = (0..h.0.len()).collect();
                // a sole symbol is committed to without looking; otherwise follow the bits
                let mut k = 0;
                while cands.len() > 1 {
                    let Some(b) = c.peek(k) else { return Err(Stop::Reject) };
                    cands.retain(|i| h.0[*i].0.get(k) == Some(&b));
                    k += 1;
                }
                let Some(&i) = cands.first() else { return Err(Stop::Reject) };
                let (bits, sym) = &h.0[i];
                for (k, b) in bits.iter().enumerate() {
                    if c.peek(k) != Some(*b) {
                        return Err(Stop::Reject);
                    }
                }
                Ok((Rv::U16(*sym), c.at(c.off + bits.len())))
            }
            Format::DecodeBytes(e, a) => {
                kind!(28);
                let s = self.seqv(self.eval(e, sc)?)?;
                let bytes: Vec<u8> = s.iter().map(|v| if let Rv::U8(b) = v { Ok(*b) } else { fault("byte expected") }).collect::<Res<_>>()?;
                let n = bytes.len();
                let (v, r) = self.parse(a, sc, Cur::over(bytes), end())?;
                if r.off < n {
                    self.warned.set(self.warned.get() + 1);
                }
                Ok((v, c))
            }
            Format::ParseFromView(v, a) => {
                kind!(29);
                let w = self.view(v, sc)?;
                let (v, _) = self.parse(a, sc, w, end())?;
                Ok((v, c))
            }
            Format::WithView(v, vf) => {
                kind!(30);
                match vf {
                    ViewFormat::ReifyView => Ok((Rv::View(self.view(v, sc)?.off), c)),
                    ViewFormat::CaptureBytes(n) => {
                        let n = self.uint(n, sc)?;
                        self.array(v, sc, n, 1).map(|x| (x, c))
                    }
                    ViewFormat::ReadArray(n, k) => {
                        let n = self.uint(n, sc)?;
                        let w = match k {
                            BaseKind::U8 => 1,
                            BaseKind::U16Ext(Endian::Be) => 2,
                            BaseKind::U32Ext(Endian::Be) => 4,
                            BaseKind::U64Ext(Endian::Be) => 8,
                            _ => return fault("little-endian array"),
                        };
                        self.array(v, sc, n, w).map(|x| (x, c))
                    }
                }
            }
            Format::LetFormat(a, n, b) => {
                kind!(31);
                let (v, c) = self.parse(a, sc, c, Rc::new(Nx::Then(F(b), next.clone())))?;
                self.parse(b, &bind(sc, n, Ent::Val(v)), c, next)
            }
            Format::MonadSeq(a, b) => {
                kind!(32);
                let (_, c) = self.parse(a, sc, c, Rc::new(Nx::Then(F(b), next.clone())))?;
                self.parse(b, sc, c, next)
            }
            Format::Hint(_, a) => self.parse(a, sc, c, next),
            Format::Permit(a, e) => {
                kind!(33);
                match self.parse(a, sc, c.clone(), next) {
                    Err(Stop::Reject) => Ok((self.eval(e, sc)?, c)),
                    r => r,
                }
            }
        }
    }
    fn array(&self, v: &'a ViewExpr, sc: &Scope<'a>, n: u64, w: usize) -> Res<Rv> {
        let c = self.view(v, sc)?;
        if n > 50_000 {
            return Err(Stop::Fuel);
        }
        let n = n as usize;
        self.want(&c, c.off + n * w);
        if c.off + n * w > c.end() {
            return Err(Stop::Reject);
        }
        let mut out = vec![];
        for i in 0..n {
            let x = (0..w).fold(0u64, |a, k| a << 8 | c.peek(i * w + k).unwrap_or(0) as u64);
            out.push(Rv::mk(8 * w as u32, x));
        }
        Ok(Rv::seq(out))
    }
}
