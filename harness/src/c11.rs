//! C11: decoded values inhabit the type inferred for their format. Random well-typed modules and modules with
//! deliberately misplaced expressions: whatever is accepted as well-typed is decoded, every value is checked
//! against the inferred type, and no expression may go wrong for a reason of type.
use crate::c01;
use crate::corpus;
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, guarded, par};
use crate::fgen::Cfg;
use crate::refint::{self, Ref, Stop};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::numeric::core::{BasicBinOp, BinOp, Expr as N, NumRep, TypedConst};
use doodle::{BaseType, FormatModule, ValueType as T};
use serde_json::json;

/// None: the value has the type; otherwise where it does not
pub fn misfit(v: &Rv, t: &T) -> Option<String> {
    let no = || Some(format!("{} is not of type {t:?}", v.show().chars().take(120).collect::<String>()));
    match (v, t) {
        (_, T::Any) => None,
        (_, T::Empty) => Some(format!("{} has a type without values", v.show().chars().take(120).collect::<String>())),
        (Rv::View(_), T::ViewObj) | (Rv::Phantom, T::PhantomData(_)) => None,
        // captured and permitted-but-absent parts
        (Rv::Bool(_), T::Base(BaseType::Bool)) | (Rv::Char(_), T::Base(BaseType::Char)) => None,
        (Rv::U8(_), T::Base(BaseType::U8)) | (Rv::U16(_), T::Base(BaseType::U16)) | (Rv::U32(_), T::Base(BaseType::U32)) | (Rv::U64(_), T::Base(BaseType::U64)) => None,
        (Rv::Usize(_), T::Base(b)) if !matches!(b, BaseType::Bool | BaseType::Char) => None,
        (Rv::Num(..) | Rv::U8(_) | Rv::U16(_) | Rv::U32(_) | Rv::U64(_) | Rv::Usize(_), T::NumericHole) => None,
        (Rv::Num(_, r), T::Base(b)) if fits(*r, *b) => None,
        (Rv::Num(_, r), T::Signed(s)) if *r == NumRep::Auto || name(*r) == s.to_static_str() => None,
        (Rv::Tuple(vs), T::Tuple(ts)) => {
            if vs.len() != ts.len() {
                return no();
            }
            vs.iter().zip(ts).find_map(|(v, t)| misfit(v, t))
        }
        (Rv::Rec(fs), T::Record(ts)) => {
            if fs.len() != ts.len() || fs.iter().zip(ts).any(|(a, b)| a.0 != b.0.as_ref()) {
                return no();
            }
            fs.iter().zip(ts).find_map(|((_, v), (_, t))| misfit(v, t))
        }
        (Rv::Var(l, v), T::Union(m)) => match m.iter().find(|(k, _)| k.as_ref() == &**l) {
            Some((_, t)) => misfit(v, t),
            None => no(),
        },
        (Rv::Seq(vs), T::Seq(t)) => vs.iter().find_map(|v| misfit(v, t)),
        (Rv::Opt(None), T::Option(_)) => None,
        (Rv::Opt(Some(v)), T::Option(t)) => misfit(v, t),
        _ => no(),
    }
}
fn name(r: NumRep) -> String {
    r.to_string().to_lowercase()
}
fn fits(r: NumRep, b: BaseType) -> bool {
    r == NumRep::Auto || name(r) == b.to_static_str()
}

/// could a value have both types?
pub fn compatible(a: &T, b: &T) -> bool {
    match (a, b) {
        (T::Any | T::Empty, _) | (_, T::Any | T::Empty) => true,
        (T::NumericHole, T::Base(_) | T::Signed(_) | T::NumericHole) | (T::Base(_) | T::Signed(_), T::NumericHole) => true,
        (T::PhantomData(x), T::PhantomData(y)) | (T::Seq(x), T::Seq(y)) | (T::Option(x), T::Option(y)) => compatible(x, y),
        (T::Tuple(x), T::Tuple(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| compatible(a, b)),
        (T::Record(x), T::Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| a.0 == b.0 && compatible(&a.1, &b.1)),
        (T::Union(x), T::Union(y)) => x.iter().all(|(k, a)| y.get(k).is_none_or(|b| compatible(a, b))),
        _ => a == b,
    }
}

/// faults that a well-typed expression cannot have
fn type_fault(e: &str) -> bool {
    let value = ["underflow", "overflow", "division by zero", "shift amount", "cast", "index", "subseq range", "inflate start", "non-exhaustive", "refutable", "numeric", "undecidable"];
    !value.iter().any(|v| e.contains(v))
}

fn case(rep: &Report, i: usize) {
    let mut cfg: Cfg = c01::cfg_for(i / 2);
    let slip = i % 2 == 1;
    if slip {
        cfg.slip = [6, 12, 25][i / 2 % 3];
        // (a part that is only known by context can take on any type)
        cfg.fuel = 20;
    }
    let b = match c01::gen_module(rep.seed, 0xc11, i, cfg) {
        Ok(b) => b,
        Err(e) => {
            rep.count(if slip { "misplaced: refused" } else { "well-typed: refused" }, 1);
            if !slip && std::env::var("DV_STRICT").is_ok() {
                eprintln!("refused {i}: {}", e.chars().take(300).collect::<String>());
            }
            return;
        }
    };
    rep.count(if slip { "misplaced: accepted" } else { "well-typed: accepted" }, 1);
    let f = b.main.call();
    let t = b.m.get_format_type(b.main.get_level()).clone();
    // the checker used for generation
    match guarded(|| doodle::typecheck(&b.m, &f)) {
        Ok(Ok(Some(u))) => {
            rep.eval(1);
            if !compatible(&t, &u) {
                rep.violation("types", format!("case {i}: plain inference gives {t:?}, the type checker {u:?}"), c01::describe(&b));
            }
        }
        Ok(Ok(None)) => rep.count("checker: undetermined", 1),
        Ok(Err(e)) => {
            rep.count(if slip { "checker: refused (misplaced)" } else { "checker: refused" }, 1);
            if !slip {
                rep.violation("checker", format!("case {i}: plain inference accepts, the type checker refuses: {e}; {:?}", b.m.get_format(b.main.get_level())), c01::describe(&b));
            }
        }
        Err(e) => {
            rep.count("checker: aborted", 1);
            if !slip {
                let key = if e.contains("missing varmap") { "checker abort: missing varmap" } else { "checker abort" };
                rep.violation(key, format!("case {i}: the type checker aborts: {e}; {:?}", b.m.get_format(b.main.get_level())), c01::describe(&b));
            }
        }
    }
    let Some(Comp::Ok(p)) = rep.watched(|| format!("compile case {i}"), || eng::compile_within(&b.m, &f, 300_000)) else { return };
    let mut r = Ref::new(&b.m, &b.sigs);
    let mut rng = Rng::derive(rep.seed, 0x11c11 ^ (i as u64) << 20);
    for inp in c01::inputs(&mut r, &f, &mut rng, 5) {
        r.fuel.set(100_000);
        r.kinds.set(0);
        let want = r.run(&f, &inp);
        if want == Err(Stop::Fuel) {
            continue;
        }
        let got = eng::run(&p, &inp);
        rep.eval(1);
        rep.sig(&(r.kinds.get(), got.tag(), slip));
        let bad = match (&want, &got) {
            (_, Out::Ok(v, _)) => misfit(v, &t),
            (Err(Stop::Fault(e)), Out::Panic(p)) if type_fault(e) => Some(format!("an expression of an accepted format goes wrong: {e} ({p})")),
            _ => None,
        };
        rep.count(match &got { Out::Ok(..) => "values checked", Out::Reject => "rejects", _ => "faults" }, 1);
        if let Some(w) = bad {
            rep.violation(&format!("case {i}"), format!("case {i}: {w}; main = {:?}", b.m.get_format(b.main.get_level())), json!({"module": c01::describe(&b), "input": inp}));
            return;
        }
    }
}

/// a constant without a representation takes on the one its context asks for exactly when its value fits
fn constants(rep: &Report) {
    use num_bigint::BigInt;
    let mut rng = Rng::derive(rep.seed, 0xc0c11);
    for mr in crate::c12::REPS {
        let want = name(NumRep::Concrete(mr));
        let mut vals: Vec<BigInt> = vec![0.into(), 1.into(), (-1).into(), 300.into(), (-200).into()];
        for other in crate::c12::REPS {
            let (s, w) = crate::numref::rep_bits(other);
            let one = BigInt::from(1);
            let (lo, hi): (BigInt, BigInt) = if s { (-(&one << (w - 1)), (&one << (w - 1)) - 1) } else { (0.into(), (&one << w) - 1) };
            vals.extend([&lo - 1, lo, &hi + 1, hi]);
            vals.extend((0..4).map(|_| crate::c12::big_in(&mut rng, other)));
        }
        for n in vals {
            let fit = crate::numref::fits(&n, mr);
            let auto = || Box::new(N::Const(TypedConst(n.clone(), NumRep::Auto)));
            let typed = || Box::new(N::Const(TypedConst(1.into(), NumRep::Concrete(mr))));
            for op in [BasicBinOp::Add, BasicBinOp::Sub, BasicBinOp::Mul, BasicBinOp::Div, BasicBinOp::Rem] {
                let o = |m| BinOp::new(op, m);
                for (k, e) in [N::BinOp(o(None), auto(), typed()), N::BinOp(o(None), typed(), auto()), N::BinOp(o(Some(mr)), auto(), auto()), N::BinOp(o(None), Box::new(N::BinOp(o(None), auto(), auto())), typed())].into_iter().enumerate() {
                    let f = doodle::Format::Compute(Box::new(doodle::Expr::Numeric(Box::new(e))));
                    let m = FormatModule::new();
                    let got = guarded(|| doodle::typecheck(&m, &f));
                    rep.eval(1);
                    rep.count(if fit { "constants that fit" } else { "constants that do not fit" }, 1);
                    let bad = match &got {
                        Ok(Ok(Some(T::Base(b)))) if fit => b.to_static_str() != want,
                        Ok(Ok(Some(T::Signed(b)))) if fit => b.to_static_str() != want,
                        Ok(Err(_)) => fit,
                        _ => true,
                    };
                    if bad {
                        rep.violation(&format!("constant {want} {k}"), format!("the constant {n} in a context that asks for {want} (shape {k}, {op:?}): the type checker says {:?}", got.map(|r| r.map_err(|e| e.to_string()))), json!({"constant": n.to_string(), "rep": want, "format": format!("{f:?}")}));
                        return;
                    }
                }
            }
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    constants(rep);
    par(rep.scale(30_000, 300_000), |i| case(rep, i));
    let files = corpus::files(rep.scale(20_000, 400_000) as u64);
    par(files.len(), |j| {
        let s = &files[j];
        let mut m = FormatModule::new();
        let main = doodle_formats::format::main(&mut m);
        let f = main.call();
        let t = m.get_format_type(main.get_level()).clone();
        let Comp::Ok(p) = eng::compile(&m, &f) else { return };
        let mut rng = Rng::derive(rep.seed, 0x5c11 + j as u64);
        if j == 0 {
            match guarded(|| doodle::typecheck(&m, &f)) {
                Ok(Ok(Some(u))) if compatible(&t, &u) => {}
                r => rep.violation("shipped types", format!("the shipped formats: plain inference and the type checker disagree: {:?}", r.map(|r| r.map(|_| "other type").map_err(|e| e.to_string()))), json!({})),
            }
        }
        for k in 0..rep.scale(5, 40) {
            let inp = if k == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            if let Out::Ok(v, _) = eng::run(&p, &inp) {
                rep.eval(1);
                rep.count("shipped values checked", 1);
                rep.sig(&(&s.name, crate::ev::hash_of(&v)));
                if let Some(w) = misfit(&v, &t) {
                    rep.violation("shipped", format!("variant {k} of {}: {w}", s.name), json!({"file": s.name}));
                }
            }
        }
    });
    "one evaluation = one decoded value checked against the inferred type, or one pair of inferred types compared; distinct = set of combinators executed x outcome, or decoded value of a sample file"
}
