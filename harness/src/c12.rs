//! C12: numeric expressions are exact; nothing wraps.
use crate::ev::{Report, guarded, par};
use crate::numref::{self, NErr, fits, show, show_tc};
use crate::rng::Rng;
use doodle::decoder::{Compiler, Value};
use doodle::numeric::core::{BasicBinOp, BasicUnaryOp, BinOp, CastOp, Expr, MachineRep, NumRep, TypedConst, UnaryOp, VOID, Value as NV, bitwise_cast};
use doodle::numeric::eval::{self as m, Eval, EvalError};
use doodle::read::ReadCtxt;
use doodle::{BaseKind, Endian, Format, FormatModule};
use num_bigint::BigInt;
use serde_json::json;
use std::collections::HashMap;

pub const REPS: [MachineRep; 8] = [MachineRep::U8, MachineRep::U16, MachineRep::U32, MachineRep::U64, MachineRep::I8, MachineRep::I16, MachineRep::I32, MachineRep::I64];

pub fn big_in(r: &mut Rng, rep: MachineRep) -> BigInt {
    let (s, w) = numref::rep_bits(rep);
    let lo = if s { -(BigInt::from(1) << (w - 1)) } else { BigInt::from(0) };
    let hi = if s { (BigInt::from(1) << (w - 1)) - 1 } else { (BigInt::from(1) << w) - 1 };
    match r.below(8) {
        0 => lo,
        1 => hi,
        2 => lo + r.below(4),
        3 => hi - r.below(4),
        4 => BigInt::from(r.below(5)),
        5 if s => -BigInt::from(r.below(5)),
        6 => {
            let k = r.below(w as usize) as u32;
            let x = (BigInt::from(1) << k) + r.below(3) as i64 - 1;
            if fits(&x, rep) { x } else { BigInt::from(1) }
        }
        _ => numref::reinterpret(&BigInt::from(r.next()), rep),
    }
}

pub fn gen_expr(r: &mut Rng, vars: &[(&str, MachineRep)], depth: usize, wild: bool) -> Expr {
    if depth == 0 || r.chance(1, 6) {
        if !vars.is_empty() && r.chance(2, 3) {
            return Expr::NumVar(r.pick(vars).0.to_string().into());
        }
        let rep = *r.pick(&REPS);
        let mut n = big_in(r, rep);
        if wild && r.chance(1, 10) {
            n = n + 300;
        }
        let rep = if r.chance(1, 4) { NumRep::Auto } else { NumRep::Concrete(rep) };
        return Expr::Const(TypedConst(n, rep));
    }
    let d = depth - 1;
    let out = |r: &mut Rng, p: usize| if r.chance(p, 4) { Some(*r.pick(&REPS)) } else { None };
    match r.below(10) {
        0..=4 => {
            let op = *r.pick(&[BasicBinOp::Add, BasicBinOp::Sub, BasicBinOp::Mul, BasicBinOp::Div, BasicBinOp::Rem]);
            let o = out(r, 3);
            Expr::BinOp(BinOp::new(op, o), Box::new(gen_expr(r, vars, d, wild)), Box::new(gen_expr(r, vars, d, wild)))
        }
        5..=6 => {
            let op = *r.pick(&[BasicUnaryOp::Negate, BasicUnaryOp::AbsVal, BasicUnaryOp::IntSucc, BasicUnaryOp::IntPred]);
            let o = out(r, 2);
            Expr::UnaryOp(UnaryOp::new(op, o), Box::new(gen_expr(r, vars, d, wild)))
        }
        _ => {
            let rep = *r.pick(&REPS);
            let op = if r.chance(1, 2) { CastOp::arith(rep) } else { CastOp::bitwise(rep) };
            Expr::Cast(op, Box::new(gen_expr(r, vars, d, wild)))
        }
    }
}

fn tc(v: &NV) -> TypedConst {
    v.as_const().expect("numeric value").clone()
}

/// engine result: Some(Some(text)) valid value, Some(None) reported as invalid, None panic
fn judge(rep: &Report, what: &str, e: &Expr, want: &Result<(BigInt, NumRep), NErr>, got: Option<String>, ctx: &str) {
    let ok = match (want, &got) {
        (Ok((n, r)), Some(g)) => &show(n, *r) == g,
        (Ok(_), None) => false,
        (Err(_), Some(_)) => false,
        (Err(_), None) => true,
    };
    rep.eval(1);
    rep.count(&format!("{what}:{}", if want.is_ok() { "value" } else { "error" }), 1);
    if !ok {
        rep.violation(what, format!("{what}: {e:?} {ctx}: exact meaning {want:?}, got {got:?}"), json!({"expr": format!("{e:?}"), "context": ctx, "expected": format!("{want:?}"), "got": got}));
    }
}

fn trees(rep: &Report) {
    let n = rep.scale(60_000, 3_000_000);
    par(64, |k| {
        let mut r = Rng::derive(rep.seed, 0xc12 + ((k as u64) << 8));
        for _ in 0..n / 64 {
            let d = 1 + r.below(5);
            let e = gen_expr(&mut r, &[], d, true);
            let want = numref::eval(&e, &|_| None);
            let got = guarded(|| e.eval_strict(VOID).ok().filter(|s| s.is_valid()).map(|s| show_tc(&tc(&s.value)))).unwrap_or(None);
            judge(rep, "strict evaluation", &e, &want, got, "");
            // the lax evaluator agrees whenever there is an exact answer
            if let Ok((n, rp)) = &want {
                let got = guarded(|| e.eval(VOID).ok().map(|v| show_tc(&tc(&v)))).unwrap_or(None);
                judge(rep, "plain evaluation", &e, &Ok((n.clone(), *rp)), got, "");
            }
            rep.sig(&(d, want.is_ok(), shape(&e)));
        }
    });
}
fn shape(e: &Expr) -> u64 {
    match e {
        Expr::Const(c) => 1 + matches!(c.1, NumRep::Auto) as u64,
        Expr::NumVar(_) => 3,
        Expr::BinOp(o, l, r) => crate::ev::hash_of(&(o, shape(l), shape(r))),
        Expr::UnaryOp(o, x) => crate::ev::hash_of(&(o, shape(x))),
        Expr::Cast(o, x) => crate::ev::hash_of(&(o, shape(x))),
    }
}

/// numeric expressions inside formats, in the plain and the located interpreter
fn embedded(rep: &Report) {
    let n = rep.scale(4000, 150_000);
    par(64, |k| {
        let mut r = Rng::derive(rep.seed, 0xec12 + ((k as u64) << 8));
        for _ in 0..n / 64 {
            let kinds = [(BaseKind::U8, MachineRep::U8, 1), (BaseKind::U16Ext(Endian::Be), MachineRep::U16, 2), (BaseKind::U32Ext(Endian::Le), MachineRep::U32, 4), (BaseKind::U64Ext(Endian::Be), MachineRep::U64, 8)];
            let a = *r.pick(&kinds);
            let b = *r.pick(&kinds);
            let d = 1 + r.below(4);
            let e = gen_expr(&mut r, &[("a", a.1), ("b", b.1)], d, false);
            let fmt = |k: (BaseKind<Endian>, MachineRep, usize)| match k.0 {
                BaseKind::U8 => doodle::helper::u8(),
                BaseKind::U16Ext(_) => doodle::helper::u16be(),
                BaseKind::U32Ext(_) => doodle::helper::u32le(),
                BaseKind::U64Ext(_) => doodle::helper::u64be(),
            };
            let f = Format::LetFormat(Box::new(fmt(a)), "a".into(), Box::new(Format::LetFormat(Box::new(fmt(b)), "b".into(), Box::new(Format::Compute(Box::new(doodle::Expr::Numeric(Box::new(e.clone()))))))));
            let mut md = FormatModule::new();
            let Ok(fr) = guarded(|| md.define_format("t.m", f)) else {
                rep.count("untyped", 1);
                continue;
            };
            let Ok(Ok(p)) = guarded(|| Compiler::compile_program(&md, &fr.call())) else {
                rep.violation("compile", format!("format around {e:?} does not compile"), json!({"expr": format!("{e:?}")}));
                continue;
            };
            for _ in 0..4 {
                let (x, y) = (big_in(&mut r, a.1), big_in(&mut r, b.1));
                let put = |n: &BigInt, k: (BaseKind<Endian>, MachineRep, usize)| -> Vec<u8> {
                    let v: u64 = n.try_into().unwrap();
                    match k.2 {
                        1 => vec![v as u8],
                        2 => (v as u16).to_be_bytes().to_vec(),
                        4 => (v as u32).to_le_bytes().to_vec(),
                        _ => v.to_be_bytes().to_vec(),
                    }
                };
                let mut inp = put(&x, a);
                inp.extend(put(&y, b));
                let vars: HashMap<&str, (BigInt, NumRep)> = [("a", (x.clone(), NumRep::Concrete(a.1))), ("b", (y.clone(), NumRep::Concrete(b.1)))].into();
                let want = numref::eval(&e, &|v| vars.get(v).cloned());
                let txt = |v: &Value| match v.coerce_mapped_value() {
                    Value::Numeric(n) => Some(show_tc(n)),
                    Value::U8(n) => Some(format!("{n}u8")),
                    Value::U16(n) => Some(format!("{n}u16")),
                    Value::U32(n) => Some(format!("{n}u32")),
                    Value::U64(n) => Some(format!("{n}u64")),
                    _ => Some("not numeric".into()),
                };
                let ctx = format!("a={x} b={y}");
                let got = guarded(|| p.run(ReadCtxt::new(&inp)).ok().and_then(|v| txt(&v.0))).unwrap_or(None);
                judge(rep, "interpreted format", &e, &want, got, &ctx);
                let got = guarded(|| p.run_with_loc(ReadCtxt::new(&inp)).ok().and_then(|v| txt(&Value::from(v.0)))).unwrap_or(None);
                judge(rep, "located interpreted format", &e, &want, got, &ctx);
            }
        }
    });
}

trait Prim: Copy + Into<BigInt> + std::fmt::Debug {
    fn samples(r: &mut Rng, n: usize) -> Vec<Self>;
    const REP: MachineRep;
}
macro_rules! prim {
    ($($t:ty, $r:ident);*) => {$(
        impl Prim for $t {
            fn samples(r: &mut Rng, n: usize) -> Vec<Self> {
                let b = <$t>::BITS;
                if b == 8 { return (0..=255u8).map(|x| x as $t).collect(); }
                let mut v: Vec<$t> = vec![0, 1, 2, <$t>::MAX, <$t>::MIN, <$t>::MAX - 1, <$t>::MIN + 1, <$t>::MAX / 2, (<$t>::MAX / 2) + 1, (0 as $t).wrapping_sub(1), (0 as $t).wrapping_sub(2)];
                for k in 0..b { v.push((1 as $t) << k); v.push(((1 as $t) << k).wrapping_sub(1)); v.push((0 as $t).wrapping_sub((1 as $t) << k)); }
                for _ in 0..n { v.push(r.next() as $t >> r.below(b as usize)); }
                v
            }
            const REP: MachineRep = MachineRep::$r;
        }
    )*};
}
prim!(u8, U8; u16, U16; u32, U32; u64, U64; i8, I8; i16, I16; i32, I32; i64, I64);

fn machine<T: Copy + Into<BigInt>>(rep: &Report, name: &'static str, lossy_ok: bool, exact: Option<BigInt>, out: MachineRep, call: impl FnOnce() -> Eval<T>, args: &dyn Fn() -> String) {
    let got = guarded(|| match call().eval() {
        Ok(v) => Ok(v.into()),
        Err(EvalError::Indirect(b)) => Err(Some(b)),
        Err(EvalError::NotANumber) => Err(None),
    });
    rep.eval(1);
    let ok = match (&exact, &got) {
        (_, Err(_)) => false,
        (Some(x), Ok(Ok(v))) => fits(x, out) && x == v,
        (Some(x), Ok(Err(Some(v)))) => !fits(x, out) && x == v,
        (Some(x), Ok(Err(None))) => lossy_ok || !fits(x, out),
        (None, Ok(Err(_))) => true,
        (None, Ok(Ok(_))) => false,
    };
    if !ok {
        rep.violation(&format!("machine op {name}"), format!("{name}({}) exact {exact:?}, got {got:?}", args()), json!({"function": name, "args": args(), "exact": format!("{exact:?}"), "got": format!("{got:?}")}));
    }
}

fn machine_ops(rep: &Report) {
    let mut jobs: Vec<Box<dyn Fn() + Send + Sync>> = vec![];
    let extra = rep.scale(6, 400);
    macro_rules! b {
        ($op:ident, $f:ident, $a:ty, $b:ty, $o:ty) => {
            jobs.push(Box::new(move || {
                let mut r = Rng::derive(rep.seed, crate::ev::hash_of(stringify!($f)));
                let ys = <$b as Prim>::samples(&mut r, extra);
                let op = bop(stringify!($op));
                for x in <$a as Prim>::samples(&mut r, extra) {
                    for &y in &ys {
                        if !rep.thorough() && ys.len() == 256 && !r.chance(1, 6) && <$a as Prim>::REP != MachineRep::I8 {
                            continue;
                        }
                        let exact = numref::bin(op, &x.into(), &y.into());
                        let neg_rem = matches!(op, BasicBinOp::Rem) && BigInt::from(y) < BigInt::from(0);
                        machine::<$o>(rep, stringify!($f), neg_rem, exact, <$o as Prim>::REP, || m::$f(x, y), &|| format!("{x}, {y}"));
                    }
                }
                rep.sig(stringify!($f));
                rep.count("machine functions", 1);
            }));
        };
    }
    macro_rules! u {
        ($op:ident, $f:ident, $a:ty, $o:ty) => {
            jobs.push(Box::new(move || {
                let mut r = Rng::derive(rep.seed, crate::ev::hash_of(stringify!($f)));
                for x in <$a as Prim>::samples(&mut r, extra * 20) {
                    let xb: BigInt = x.into();
                    let exact = match stringify!($op) {
                        "neg" => numref::un(BasicUnaryOp::Negate, &xb),
                        "abs" => numref::un(BasicUnaryOp::AbsVal, &xb),
                        _ => xb,
                    };
                    machine::<$o>(rep, stringify!($f), false, Some(exact), <$o as Prim>::REP, || m::$f(x), &|| format!("{x}"));
                }
                rep.sig(stringify!($f));
                rep.count("machine functions", 1);
            }));
        };
    }
    include!("c12_table.rs");
    par(jobs.len(), |i| jobs[i]());
}
fn bop(s: &str) -> BasicBinOp {
    match s {
        "add" => BasicBinOp::Add,
        "sub" => BasicBinOp::Sub,
        "mul" => BasicBinOp::Mul,
        "div" => BasicBinOp::Div,
        _ => BasicBinOp::Rem,
    }
}

fn casts(rep: &Report) {
    let mut r = Rng::derive(rep.seed, 0xca57);
    for a in REPS {
        for b in REPS {
            for _ in 0..rep.scale(400, 20_000) {
                let n = big_in(&mut r, a);
                let got = guarded(|| bitwise_cast(n.clone(), NumRep::Concrete(a), b));
                rep.eval(1);
                if got.as_ref().ok() != Some(&numref::reinterpret(&n, b)) {
                    rep.violation("bitwise cast", format!("bitwise cast of {n} from {a} to {b} gave {got:?}"), json!({"n": n.to_string(), "from": a.to_string(), "to": b.to_string()}));
                }
                // representability, bounds and containment of representations
                let t = TypedConst(n.clone(), NumRep::Concrete(b));
                if t.is_representable() != fits(&n, b) || b.as_bounds().min > b.as_bounds().max {
                    rep.violation("representable", format!("{n} representable in {b}: {}", t.is_representable()), json!({}));
                }
                let t = TypedConst(n.clone(), NumRep::Concrete(a));
                if a == MachineRep::U8 && t.get_as_u8().ok().map(BigInt::from) != Some(n.clone()) {
                    rep.violation("get_as_u8", format!("{n}"), json!({}));
                }
            }
            let sub = fits(&a.as_bounds().min, b) && fits(&a.as_bounds().max, b);
            rep.eval(1);
            if b.encompasses(a) != sub || (b.is_superset(a) && !sub) || (sub && a != b && !b.is_superset(a)) || !fits(&a.as_bounds().min, a) || fits(&(a.as_bounds().max + 1), a) || fits(&(a.as_bounds().min - 1), a) {
                rep.violation("containment", format!("containment of {a} in {b}"), json!({}));
            }
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    trees(rep);
    embedded(rep);
    machine_ops(rep);
    casts(rep);
    "one evaluation = one numeric expression or machine operation evaluated and compared with its exact integer meaning; distinct = expression shapes x outcome, and machine functions"
}
