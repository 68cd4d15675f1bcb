//! C09: computed size bounds are conservative. Three monitors: interval arithmetic against the set of results it
//! stands for; every value an expression takes during decoding against the expression's bounds; every successful
//! sub-parse of a decode against the bounds and nullability computed for that part.
use crate::c01;
use crate::corpus;
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, guarded, par};
use crate::refint::{self, Ref, Stop, Tr};
use crate::rng::Rng;
use doodle::bounds::Bounds;
use doodle::verif;
use doodle::{Expr, Format, FormatModule};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashMap;

type Op = (&'static str, fn(Bounds, Bounds) -> Bounds, fn(u128, u128) -> Option<u128>);
const OPS: &[Op] = &[
    ("add", |a, b| a + b, |x, y| Some(x + y)),
    ("sub", |a, b| a - b, |x, y| x.checked_sub(y)),
    ("mul", |a, b| a * b, |x, y| Some(x * y)),
    ("div", |a, b| a / b, |x, y| x.checked_div(y)),
    ("rem", verif::bounds_rem, |x, y| x.checked_rem(y)),
    ("shl", |a, b| a << b, |x, y| if y < 64 { Some(x << y) } else { None }),
    ("shr", |a, b| a >> b, |x, y| if y < 64 { Some(x >> y) } else { None }),
    ("bitor", |a, b| a | b, |x, y| Some(x | y)),
    ("bitand", |a, b| a & b, |x, y| Some(x & y)),
    ("union", Bounds::union, |x, _| Some(x)),
    ("union-right", Bounds::union, |_, y| Some(y)),
];

/// values to try within an interval
fn members(b: &Bounds, rng: &mut Rng, all: bool) -> Vec<usize> {
    let hi = b.max().unwrap_or(usize::MAX);
    if all && b.max().is_some() {
        return (b.min()..=hi).collect();
    }
    let mut v = vec![b.min(), hi, b.min().saturating_add(1).min(hi), hi.saturating_sub(1).max(b.min())];
    for k in 0..64 {
        for x in [1usize << k, (1usize << k) - 1] {
            if b.contains(x) && rng.chance(1, 4) {
                v.push(x);
            }
        }
    }
    for _ in 0..6 {
        let w = hi - b.min();
        let x = if w == usize::MAX { rng.next() as usize } else { b.min() + (rng.next() as usize) % (w + 1) };
        v.push(x);
    }
    v
}

fn arithmetic(rep: &Report, a: Bounds, b: Bounds, rng: &mut Rng, all: bool) {
    let (xs, ys) = (members(&a, rng, all), members(&b, rng, all));
    for (name, op, val) in OPS {
        let got = guarded(|| op(a, b));
        rep.eval(1);
        let bad = match &got {
            Err(e) => Some(format!("{name} of {a} and {b} aborts: {e}")),
            Ok(r) => {
                rep.sig(&(name, r.as_exact().is_some(), r.max().is_none(), r.min() == 0, a.max().is_none(), b.max().is_none(), a.as_exact().is_some(), b.as_exact().is_some()));
                let mut bad = None;
                for x in &xs {
                    for y in &ys {
                        if let Some(v) = val(*x as u128, *y as u128) {
                            if let Ok(v) = usize::try_from(v) {
                                if !r.contains(v) && bad.is_none() {
                                    bad = Some(format!("{name} of {a} and {b} is said to be in {r}, but {x} {name} {y} = {v}"));
                                }
                            }
                        }
                    }
                }
                bad
            }
        };
        if let Some(w) = bad {
            rep.violation(&format!("arith-{name}"), w.clone(), json!({"what": w}));
        }
    }
}

fn unary(rep: &Report, a: Bounds, rng: &mut Rng) {
    let r = a.bits_to_bytes();
    for x in members(&a, rng, false) {
        rep.eval(1);
        if !r.contains(x.div_ceil(8)) {
            rep.violation("bits-to-bytes", format!("{a} bits are said to be {r} bytes, but {x} bits take {}", x.div_ceil(8)), json!({}));
        }
        let (lo, hi) = (rng.next() as usize >> rng.below(64), rng.next() as usize >> rng.below(64));
        let (lo, hi) = (lo.min(hi), lo.max(hi));
        let c = a.clamp(lo, hi);
        if (lo..=hi).contains(&x) && !c.is_some_and(|c| c.contains(x)) {
            rep.violation("clamp", format!("{a} limited to {lo}..={hi} is said to be {c:?}, but contains {x}"), json!({}));
        }
    }
}

fn random_bounds(rng: &mut Rng) -> Bounds {
    let mut n = |rng: &mut Rng| match rng.below(6) {
        0 => rng.below(20),
        1 => 1usize << rng.below(64),
        2 => (1usize << rng.below(64)).wrapping_sub(1),
        3 => usize::MAX - rng.below(3),
        _ => (rng.next() as usize) >> rng.below(64),
    };
    let (x, y) = (n(rng), n(rng));
    match rng.below(8) {
        0 => Bounds::at_least(x),
        1 => Bounds::exact(x),
        2 => Bounds::any(),
        3 => Bounds::new(x, x.saturating_add(rng.below(5))),
        _ => Bounds::new(x.min(y), x.max(y)),
    }
}

fn walk(rep: &Report, m: &FormatModule, t: &Tr, memo: &mut HashMap<*const Format, Option<(Bounds, Bounds, bool)>>, bad: &mut Option<String>) {
    let e = *memo.entry(t.f as *const Format).or_insert_with(|| {
        guarded(|| (verif::match_bounds(m, t.f), verif::lookahead_bounds(m, t.f), verif::is_nullable(m, t.f))).ok()
    });
    match e {
        None => *bad = Some(format!("computing the bounds of {:?} aborts", t.f).chars().take(900).collect()),
        Some((mb, lb, null)) => {
            // (a part that seeks has no extent)
            if let Some(n) = t.end.checked_sub(t.start) {
                rep.count("parts checked", 1);
                let wrong = if !mb.contains(n) {
                    format!("is said to advance {mb}")
                } else if lb.max().is_some_and(|l| n > l) {
                    format!("is said to look at no more than {lb}")
                } else if n == 0 && !null {
                    "is said never to be empty".into()
                } else {
                    String::new()
                };
                if !wrong.is_empty() && bad.is_none() {
                    *bad = Some(format!("{:?} {wrong}, but advances {n}", t.f).chars().take(900).collect());
                }
            }
        }
    }
    for k in &t.kids {
        walk(rep, m, k, memo, bad);
    }
}

/// decode, watching every part and every expression
fn watch(rep: &Report, m: &FormatModule, f: &Format, inp: &[u8], sg: &[(Vec<String>, Vec<String>)], fuel: i64, big: bool, p: &doodle::decoder::Program) {
    let bad_expr: RefCell<Option<String>> = RefCell::new(None);
    let ex = RefCell::new(HashMap::<*const Expr, Option<Bounds>>::new());
    let seen = std::cell::Cell::new(0u64);
    let mut r = Ref::new(m, sg);
    r.watch = Some(Box::new(|e, v| {
        let Some(n) = v.num() else { return };
        if matches!(e, Expr::Var(_)) {
            return;
        }
        seen.set(seen.get() + 1);
        let b = *ex.borrow_mut().entry(e as *const Expr).or_insert_with(|| guarded(|| verif::expr_bounds(e)).ok());
        let w = match b {
            None => format!("computing the bounds of {e:?} aborts"),
            Some(b) if !b.contains(n as usize) => format!("{e:?} is said to be in {b}, but is {n}"),
            _ => return,
        };
        bad_expr.borrow_mut().get_or_insert(w.chars().take(900).collect());
    }));
    r.fuel.set(fuel);
    *r.trace.borrow_mut() = Some(vec![]);
    let want = if big { r.run_big(f, inp) } else { r.run(f, inp) };
    if want == Err(Stop::Fuel) {
        rep.count("reference gave up", 1);
        return;
    }
    let got = eng::run(p, inp);
    rep.eval(1);
    rep.count("expression values checked", seen.get());
    // the monitored trace is that of the real decode only where the two agree (C01 decides whether they do)
    if let (Ok((v, n)), Out::Ok(v2, n2)) = (&want, &got) {
        if v != v2 || n != n2 {
            rep.count("trace differs", 1);
            return;
        }
    }
    if let Out::Ok(_, n) = &got {
        if let Ok(b) = guarded(|| verif::match_bounds(m, f)) {
            if !b.contains(*n) {
                rep.violation("whole", format!("a format said to advance {b} advanced {n}"), json!({"module": serde_json::to_value(m).unwrap_or_default(), "input": inp}));
            }
        }
    }
    let tr = r.trace.borrow_mut().take().unwrap_or_default();
    let mut bad = None;
    let mut memo = HashMap::new();
    for t in &tr {
        walk(rep, m, t, &mut memo, &mut bad);
    }
    rep.sig(&(r.kinds.get(), want.is_ok()));
    for (k, b) in [("part", bad), ("expr", bad_expr.borrow().clone())] {
        if let Some(w) = b {
            rep.violation(k, w, json!({"module": serde_json::to_value(m).unwrap_or_default(), "input": inp}));
        }
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    // all pairs of small intervals, every member
    let top = 12;
    let mut small = vec![];
    for lo in 0..=top {
        for hi in lo..=top {
            small.push(Bounds::new(lo, hi));
        }
        small.push(Bounds::at_least(lo));
    }
    par(small.len(), |i| {
        let mut rng = Rng::derive(rep.seed, 0xc09 + i as u64);
        for b in &small {
            arithmetic(rep, small[i], *b, &mut rng, true);
        }
        unary(rep, small[i], &mut rng);
    });
    // byte-sized bitwise and shift operations, wide intervals
    par(64, |i| {
        let mut rng = Rng::derive(rep.seed, 0xc0900 + i as u64);
        for _ in 0..rep.scale(1_500, 40_000) {
            let (a, b) = (random_bounds(&mut rng), if rng.chance(1, 3) { Bounds::new(rng.below(4), 4 + rng.below(62)) } else { random_bounds(&mut rng) });
            arithmetic(rep, a, b, &mut rng, false);
            unary(rep, a, &mut rng);
        }
        for _ in 0..rep.scale(60, 2_000) {
            let mut iv = || {
                let (x, y) = (rng.below(256), rng.below(256));
                Bounds::new(x.min(y), x.max(y))
            };
            let (a, b) = (iv(), iv());
            arithmetic(rep, a, b, &mut rng, true);
        }
    });
    par(rep.scale(12_000, 150_000), |i| {
        let Ok(b) = c01::gen_module(rep.seed, 0x9c09, i, c01::cfg_for(i)) else { return };
        let mut rng = Rng::derive(rep.seed, 0x9c0900 ^ i as u64);
        let f = b.main.call();
        let p = match rep.watched(|| format!("compile case {i}"), || eng::compile_within(&b.m, &f, 300_000)) {
            Some(Comp::Ok(p)) => p,
            Some(Comp::Panic(e)) => {
                // bounds are computed while compiling
                if e.contains("bounds.rs") {
                    rep.violation("compile", format!("compiling a format aborts in the computation of bounds: {e}"), c01::describe(&b));
                }
                return;
            }
            _ => return,
        };
        let sg = refint::sigs(&b.m);
        let ins = {
            let mut r = Ref::new(&b.m, &sg);
            c01::inputs(&mut r, &f, &mut rng, 5)
        };
        for inp in ins {
            watch(rep, &b.m, &f, &inp, &sg, 100_000, false, &p);
        }
    });
    let files = corpus::files(rep.scale(5_000, 60_000) as u64);
    par(files.len(), |j| {
        let s = &files[j];
        let mut m = FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        let sg = refint::sigs(&m);
        let Comp::Ok(p) = eng::compile(&m, &f) else { return };
        let mut rng = Rng::derive(rep.seed, 0x5c09 + j as u64);
        for k in 0..rep.scale(2, 12) {
            let inp = if k == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            watch(rep, &m, &f, &inp, &sg, rep.scale(1_500_000, 40_000_000) as i64, true, &p);
        }
    });
    "one evaluation = one interval operation checked on members of its operands, or one decode with every part and expression watched; distinct = kinds of intervals and operation, or set of combinators executed x outcome"
}
