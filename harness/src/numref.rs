//! Exact meaning of machine-numeric expressions, on arbitrary-precision integers.
use doodle::numeric::core::{BasicBinOp, BasicUnaryOp, CastSemantics, Expr, MachineRep, NumRep, TypedConst};
use num_bigint::BigInt;
use num_traits::{Signed, Zero};

#[derive(Debug, Clone, PartialEq)]
pub enum NErr {
    /// no mathematical result (division by zero, ambiguous representation, unknown variable)
    Undefined,
    /// some term does not fit its representation
    Range,
}

pub fn rep_bits(r: MachineRep) -> (bool, u32) {
    let s = r.to_static_str();
    (s.starts_with('i'), s[1..].parse().unwrap())
}
pub fn fits(n: &BigInt, r: MachineRep) -> bool {
    let (signed, w) = rep_bits(r);
    let (lo, hi) = if signed { (-(BigInt::from(1) << (w - 1)), (BigInt::from(1) << (w - 1)) - 1) } else { (BigInt::zero(), (BigInt::from(1) << w) - 1) };
    *n >= lo && *n <= hi
}
/// two's complement reinterpretation
pub fn reinterpret(n: &BigInt, r: MachineRep) -> BigInt {
    let (signed, w) = rep_bits(r);
    let m = BigInt::from(1) << w;
    let mut x = n % &m;
    if x.is_negative() {
        x += &m;
    }
    if signed && x >= (BigInt::from(1) << (w - 1)) {
        x -= m;
    }
    x
}
pub fn show(n: &BigInt, r: NumRep) -> String {
    match r {
        NumRep::Auto => format!("{n}?"),
        NumRep::Concrete(m) => {
            let (s, w) = rep_bits(m);
            format!("{n}{}{w}", if s { "i" } else { "u" })
        }
    }
}
pub fn show_tc(t: &TypedConst) -> String {
    show(&t.0, t.1)
}

pub fn bin(op: BasicBinOp, a: &BigInt, b: &BigInt) -> Option<BigInt> {
    Some(match op {
        BasicBinOp::Add => a + b,
        BasicBinOp::Sub => a - b,
        BasicBinOp::Mul => a * b,
        BasicBinOp::Div => {
            if b.is_zero() {
                return None;
            }
            // towards zero
            let q = a.abs() / b.abs();
            if a.is_negative() != b.is_negative() { -q } else { q }
        }
        BasicBinOp::Rem => {
            if b.is_zero() {
                return None;
            }
            let r = a.abs() % b.abs();
            if a.is_negative() { -r } else { r }
        }
    })
}
pub fn un(op: BasicUnaryOp, a: &BigInt) -> BigInt {
    match op {
        BasicUnaryOp::Negate => BigInt::zero() - a,
        BasicUnaryOp::AbsVal => a.abs(),
        BasicUnaryOp::IntSucc => a + 1,
        BasicUnaryOp::IntPred => a - 1,
    }
}

fn check(n: BigInt, r: NumRep) -> Result<(BigInt, NumRep), NErr> {
    match r {
        NumRep::Concrete(m) if !fits(&n, m) => Err(NErr::Range),
        _ => Ok((n, r)),
    }
}

/// `var` gives the value of a variable
pub fn eval(e: &Expr, var: &dyn Fn(&str) -> Option<(BigInt, NumRep)>) -> Result<(BigInt, NumRep), NErr> {
    match e {
        Expr::Const(c) => check(c.0.clone(), c.1),
        Expr::NumVar(l) => {
            let (n, r) = var(l).ok_or(NErr::Undefined)?;
            check(n, r)
        }
        Expr::BinOp(op, l, r) => {
            let (a, ra) = eval(l, var)?;
            let (b, rb) = eval(r, var)?;
            let x = bin(op.op, &a, &b).ok_or(NErr::Undefined)?;
            if matches!(op.op, BasicBinOp::Rem) && !b.is_positive() {
                return Err(NErr::Undefined);
            }
            let rep = match (op.out_rep, ra, rb) {
                (Some(m), _, _) => NumRep::Concrete(m),
                (None, NumRep::Auto, o) | (None, o, NumRep::Auto) => o,
                (None, x, y) if x == y => x,
                _ => return Err(NErr::Undefined),
            };
            check(x, rep)
        }
        Expr::UnaryOp(op, x) => {
            let (a, ra) = eval(x, var)?;
            check(un(op.op, &a), op.out_rep.map_or(ra, NumRep::Concrete))
        }
        Expr::Cast(c, x) => {
            let (a, ra) = eval(x, var)?;
            let n = if c.cast_semantics == CastSemantics::Bitwise && ra != NumRep::Auto { reinterpret(&a, c.out_rep) } else { a };
            check(n, NumRep::Concrete(c.out_rep))
        }
    }
}
