//! C19: expressions evaluate identically in all engines. A table of expressions, one per operation and width, over
//! operands read from the input; run on edge and random operands by the plain interpreter, the located interpreter
//! and freshly generated code, each result checked against exact evaluation.
use crate::c04::differs;
use crate::cgen::{self, Driver, Ran, Unit};
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, par};
use crate::refint::{self, Ref, Stop};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::helper::*;
use doodle::*;
use serde_json::json;
use std::sync::Mutex;

fn bx<T>(t: T) -> Box<T> {
    Box::new(t)
}
fn b() -> Format {
    Format::Byte(byte_set::ByteSet::full())
}
/// an integer of `w` bits
fn int(w: u32, le: bool) -> Format {
    let n = (w / 8) as usize;
    if n == 1 {
        return b();
    }
    let x = bx(var("x"));
    let e = match (w, le) {
        (16, false) => Expr::U16Be(x),
        (16, true) => Expr::U16Le(x),
        (32, false) => Expr::U32Be(x),
        (32, true) => Expr::U32Le(x),
        (_, false) => Expr::U64Be(x),
        (_, true) => Expr::U64Le(x),
    };
    map(tuple((0..n).map(|_| b())), lambda("x", e))
}
fn lit(w: u32, n: u64) -> Expr {
    match w {
        8 => Expr::U8(n as u8),
        16 => Expr::U16(n as u16),
        32 => Expr::U32(n as u32),
        _ => Expr::U64(n),
    }
}
fn ty(w: u32) -> ValueType {
    ValueType::Base(match w {
        8 => BaseType::U8,
        16 => BaseType::U16,
        32 => BaseType::U32,
        _ => BaseType::U64,
    })
}
fn cast(w: u32, e: Expr) -> Expr {
    match w {
        8 => Expr::AsU8(bx(e)),
        16 => Expr::AsU16(bx(e)),
        32 => Expr::AsU32(bx(e)),
        _ => Expr::AsU64(bx(e)),
    }
}

struct Item {
    name: String,
    /// widths of the operands a, b, c, then whether a counted sequence `xs` of that width follows
    ops: Vec<u32>,
    seq: Option<u32>,
    body: Format,
    /// operands worth trying beside the usual ones
    hot: Vec<u64>,
    /// the elements of `xs` are records of a key of that width and a byte
    recs: bool,
    /// the expression is in a definition of its own, the operands its arguments
    args: bool,
}

fn item(name: impl Into<String>, ops: &[u32], seq: Option<u32>, e: Expr) -> Item {
    Item { name: name.into(), ops: ops.to_vec(), seq, body: compute(e), hot: vec![], recs: false, args: false }
}

fn table() -> Vec<Item> {
    let mut t = vec![];
    let (a, bb, c) = (|| var("a"), || var("b"), || var("c"));
    let xs = || var("xs");
    let ar = |op, x: Expr, y: Expr| Expr::Arith(op, bx(x), bx(y));
    for w in [8u32, 16, 32, 64] {
        for (n, op) in [("add", Arith::Add), ("sub", Arith::Sub), ("mul", Arith::Mul), ("div", Arith::Div), ("rem", Arith::Rem), ("and", Arith::BitAnd), ("or", Arith::BitOr), ("shl", Arith::Shl), ("shr", Arith::Shr)] {
            t.push(item(format!("{n} {w}"), &[w, w], None, ar(op, a(), bb())));
            // in a condition, on the way to a boolean
            t.push(item(format!("{n} {w} compared"), &[w, w, w], None, Expr::IntRel(IntRel::Lte, bx(ar(op, a(), bb())), bx(c()))));
            // against a literal on either side
            t.push(item(format!("{n} {w} lit"), &[w], None, ar(op, a(), lit(w, 3))));
            t.push(item(format!("lit {n} {w}"), &[w], None, ar(op, lit(w, 200), a())));
            // nested both ways
            t.push(item(format!("{n} {w} left-nested"), &[w, w, w], None, ar(op, ar(op, a(), bb()), c())));
            t.push(item(format!("{n} {w} right-nested"), &[w, w, w], None, ar(op, a(), ar(op, bb(), c()))));
        }
        for (n, op) in [("eq", IntRel::Eq), ("ne", IntRel::Ne), ("lt", IntRel::Lt), ("gt", IntRel::Gt), ("lte", IntRel::Lte), ("gte", IntRel::Gte)] {
            t.push(item(format!("{n} {w}"), &[w, w], None, Expr::IntRel(op, bx(a()), bx(bb()))));
        }
        t.push(item(format!("succ {w}"), &[w], None, Expr::Unary(UnaryOp::IntSucc, bx(a()))));
        t.push(item(format!("pred {w}"), &[w], None, Expr::Unary(UnaryOp::IntPred, bx(a()))));
        for v in [8u32, 16, 32, 64] {
            t.push(item(format!("cast {w} to {v}"), &[w], None, cast(v, a())));
        }
        if w <= 32 {
            t.push(item(format!("char {w}"), &[w], None, Expr::AsChar(bx(a()))));
        }
        t.push(Item { hot: vec![2, 3, 7, 9], ..item(format!("match {w}"), &[w], None, expr_match(a(), [(pat(w, 3), lit(8, 1)), (Pattern::Int(bounds::Bounds::new(5, 9)), lit(8, 2)), (Pattern::Wildcard, lit(8, 3))])) });
        t.push(Item { hot: vec![7, 8], ..item(format!("match binding {w}"), &[w], None, expr_match(a(), [(pat(w, 7), lit(w, 0)), (Pattern::binding("y"), ar(Arith::BitOr, var("y"), lit(w, 1)))])) });
        // sequences of this width
        t.push(item(format!("fold sum {w}"), &[], Some(w), left_fold(lambda_tuple(["acc", "x"], ar(Arith::Add, var("acc"), Expr::AsU64(bx(var("x"))))), Expr::U64(0), ty(64), xs())));
        t.push(item(format!("fold last {w}"), &[], Some(w), left_fold(lambda_tuple(["_acc", "x"], var("x")), lit(w, 77), ty(w), xs())));
        t.push(item(format!("fold narrow {w}"), &[], Some(w), left_fold(lambda_tuple(["acc", "x"], ar(Arith::Sub, var("x"), var("acc"))), lit(w, 0), ty(w), xs())));
        t.push(item(format!("flat_map {w}"), &[], Some(w), flat_map(lambda("x", Expr::Seq(vec![var("x"), ar(Arith::BitAnd, var("x"), lit(w, 1))])), xs())));
        t.push(item(format!("flat_map filter {w}"), &[w], Some(w), flat_map(lambda("x", expr_if_else(Expr::IntRel(IntRel::Lt, bx(var("x")), bx(a())), Expr::Seq(vec![var("x")]), Expr::Seq(vec![]))), xs())));
        t.push(item(format!("flat_map_accum {w}"), &[], Some(w), flat_map_accum(lambda_tuple(["acc", "x"], Expr::Tuple(vec![ar(Arith::BitOr, var("acc"), var("x")), Expr::Seq(vec![var("acc")])])), lit(w, 1), ty(w), xs())));
        t.push(item(format!("flat_map_list {w}"), &[], Some(w), flat_map_list(lambda_tuple(["ls", "x"], expr_if_else(Expr::IntRel(IntRel::Lt, bx(seq_length(var("ls"))), bx(Expr::U32(4))), Expr::Seq(vec![var("x"), var("x")]), Expr::Seq(vec![]))), ty(w), xs())));
        t.push(Item { hot: vec![0, 1, 2, 3], ..item(format!("find {w}"), &[w], Some(w), Expr::FindByKey(false, bx(lambda("x", var("x"))), bx(a()), bx(xs()))) });
        t.push(Item { hot: vec![0, 1, 2, 3], ..item(format!("find sorted {w}"), &[w], Some(w), Expr::FindByKey(true, bx(lambda("x", var("x"))), bx(a()), bx(xs()))) });
        for sorted in [false, true] {
            t.push(Item { hot: vec![0, 1, 2, 3], recs: true, ..item(format!("find{} key {w}", if sorted { " sorted" } else { "" }), &[w], Some(w), Expr::FindByKey(sorted, bx(lambda("x", record_proj(var("x"), "k"))), bx(a()), bx(xs()))) });
        }
        t.push(item(format!("inflating list {w}"), &[8, 8], Some(w), flat_map_list(
            lambda_tuple(["ls", "x"], expr_if_else(
                Expr::IntRel(IntRel::Lt, bx(seq_length(var("ls"))), bx(Expr::U32(2))),
                Expr::Seq(vec![var("x"), lit(w, 5)]),
                Expr::SubSeqInflate(bx(var("ls")), bx(ar(Arith::Sub, seq_length(var("ls")), ar(Arith::BitAnd, Expr::AsU32(bx(a())), Expr::U32(3)))), bx(Expr::AsU32(bx(ar(Arith::BitAnd, bb(), Expr::U8(15))))))
            )), ty(w), xs())));
        t.push(item(format!("fold record {w}"), &[], Some(w), left_fold(lambda_tuple(["acc", "x"], Expr::Record(vec![("p".into(), var("x")), ("q".into(), record_proj(var("acc"), "p"))])), Expr::Record(vec![("p".into(), lit(w, 1)), ("q".into(), lit(w, 2))]), ValueType::Record(vec![("p".into(), ty(w)), ("q".into(), ty(w))]), xs())));
        for iw in [8u32, 16, 32] {
            if iw == 32 || w == 8 {
                let up = |e: Expr| if iw == 32 { e } else { Expr::AsU32(bx(e)) };
                t.push(Item { hot: vec![0, 1, 2, 3, 4, 5], ..item(format!("index {w} by {iw}"), &[iw], Some(w), Expr::SeqIx(bx(xs()), bx(up(a())))) });
                t.push(Item { hot: vec![0, 1, 2, 3, 4, 5], ..item(format!("subseq {w} by {iw}"), &[iw, iw], Some(w), Expr::SubSeq(bx(xs()), bx(up(a())), bx(up(bb())))) });
                t.push(Item { hot: vec![0, 1, 2, 3, 4, 5, 9], ..item(format!("inflate {w} by {iw}"), &[iw, iw], Some(w), Expr::SubSeqInflate(bx(xs()), bx(up(a())), bx(up(bb())))) });
            }
        }
        t.push(item(format!("length {w}"), &[], Some(w), seq_length(xs())));
        t.push(item(format!("append {w}"), &[w], Some(w), Expr::Append(bx(xs()), bx(Expr::Seq(vec![a()])))));
        t.push(item(format!("tuple {w}"), &[w, 8], None, Expr::TupleProj(bx(Expr::Tuple(vec![bb(), a()])), 1)));
        t.push(item(format!("option {w}"), &[w], None, expr_match(Expr::LiftOption(Some(bx(a()))), [(Pattern::Option(Some(bx(Pattern::binding("y")))), var("y")), (Pattern::Option(None), lit(w, 9))])));
    }
    t.push(Item { hot: vec![0, 1, 2, 3, 5], ..item("dup", &[8, 16], None, Expr::Dup(bx(Expr::AsU32(bx(a()))), bx(bb()))) });
    t.push(item("bool and", &[8, 8], None, Expr::Arith(Arith::BoolAnd, bx(expr_gt(a(), Expr::U8(100))), bx(expr_gt(bb(), Expr::U8(100))))));
    t.push(item("bool or", &[8, 8], None, Expr::Arith(Arith::BoolOr, bx(expr_gt(a(), Expr::U8(100))), bx(expr_gt(bb(), Expr::U8(100))))));
    t.push(item("bool not", &[8], None, Expr::Unary(UnaryOp::BoolNot, bx(expr_gt(a(), Expr::U8(100))))));
    t.push(item("if", &[8, 16, 16], None, expr_if_else(expr_gt(a(), Expr::U8(100)), bb(), c())));
    // little-endian readings
    for w in [16u32, 32, 64] {
        t.push(Item { ops: vec![], body: int(w, true), ..item(format!("little-endian {w}"), &[], None, Expr::UNIT) });
    }
    let via: Vec<Item> = t.iter().filter(|i| i.seq.is_some() || i.ops.len() == 2).map(|i| Item { name: format!("{} by argument", i.name), ops: i.ops.clone(), seq: i.seq, body: i.body.clone(), hot: i.hot.clone(), recs: i.recs, args: true }).collect();
    t.extend(via);
    t
}
fn pat(w: u32, n: u64) -> Pattern {
    match w {
        8 => Pattern::U8(n as u8),
        16 => Pattern::U16(n as u16),
        32 => Pattern::U32(n as u32),
        _ => Pattern::U64(n),
    }
}

fn module(it: &Item) -> (FormatModule, Format) {
    let mut m = FormatModule::new();
    let mut fs: Vec<(&'static str, Format)> = vec![];
    for (w, n) in it.ops.iter().zip(["a", "b", "c"]) {
        fs.push((n, int(*w, false)));
    }
    let mut params: Vec<(Label, ValueType)> = it.ops.iter().zip(["a", "b", "c"]).map(|(w, n)| (n.into(), ty(*w))).collect();
    if let Some(w) = it.seq {
        fs.push(("n", b()));
        let elem = if it.recs { m.define_format("verif.rec", record([("k", int(w, false)), ("v", b())])).call() } else { int(w, false) };
        let et = if it.recs { m.get_format_type(0).clone() } else { ty(w) };
        params.push(("xs".into(), ValueType::Seq(bx(et))));
        fs.push(("xs", repeat_count(var("n"), elem)));
    }
    let body = if it.args {
        let names: Vec<Expr> = params.iter().map(|(n, _)| Expr::Var(n.clone())).collect();
        m.define_format_args("verif.sub", params, it.body.clone()).call_args(names)
    } else {
        it.body.clone()
    };
    fs.push(("v", body));
    let r = m.define_format("verif.item", record(fs));
    (m, r.call())
}

fn operand(w: u32, it: &Item, rng: &mut Rng) -> u64 {
    let max = if w == 64 { u64::MAX } else { (1 << w) - 1 };
    match rng.below(9) {
        0 => 0,
        1 => max,
        2 => max - rng.below(3) as u64,
        3 => 1 << rng.below(w as usize),
        4 => (1u64 << rng.below(w as usize)).wrapping_sub(1),
        5 => rng.below(10) as u64,
        6 if !it.hot.is_empty() => *rng.pick(&it.hot),
        6 => [0xd7ff, 0xd800, 0xdfff, 0xe000, 0x10ffff, 0x110000, 255, 256, 65535, 65536][rng.below(10)] & max,
        7 => rng.below(w as usize + 3) as u64,
        _ => rng.next() & max,
    }
}

fn input(it: &Item, rng: &mut Rng) -> Vec<u8> {
    let mut out = vec![];
    let mut put = |w: u32, n: u64| out.extend_from_slice(&n.to_be_bytes()[8 - w as usize / 8..]);
    let ops: Vec<u64> = it.ops.iter().map(|w| operand(*w, it, rng)).collect();
    for (w, n) in it.ops.iter().zip(&ops) {
        put(*w, *n);
    }
    if let Some(w) = it.seq {
        let k = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 17]);
        let mut xs: Vec<u64> = (0..k).map(|_| operand(w, it, rng)).collect();
        if it.name.starts_with("find") {
            if !ops.is_empty() && k > 0 && rng.chance(2, 3) {
                let i = rng.below(k);
                xs[i] = ops[0] & if w == 64 { u64::MAX } else { (1 << w) - 1 };
            }
            if it.name.contains("sorted") {
                xs.sort();
                xs.dedup();
            }
        }
        put(8, xs.len() as u64);
        for x in xs {
            put(w, x);
            if it.recs {
                put(8, x ^ 0x5a & 0xff);
            }
        }
    }
    if it.ops.is_empty() && it.seq.is_none() {
        out.extend(rng.bytes(8));
    }
    out
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    thread_local! { static ITEMS: Vec<std::rc::Rc<Item>> = table().into_iter().map(std::rc::Rc::new).collect(); }
    let get = |i: usize| ITEMS.with(|t| t[i].clone());
    let len = ITEMS.with(|t| t.len());
    let out: Mutex<(Vec<Unit>, Vec<(usize, Vec<(Vec<u8>, Result<(Rv, usize), Stop>)>)>)> = Mutex::new((vec![], vec![]));
    par(len, |i| {
        let it = &*get(i);
        let (m, f) = module(it);
        let p = match eng::compile(&m, &f) {
            Comp::Ok(p) => p,
            _ => {
                rep.violation(&format!("compile {}", it.name), format!("{}: the interpreter refuses this expression", it.name), json!({}));
                return;
            }
        };
        let sg = refint::sigs(&m);
        let r = Ref::new(&m, &sg);
        let mut rng = Rng::derive(rep.seed, 0xc19 + ((i as u64) << 16));
        let mut cases = vec![];
        for _ in 0..rep.scale(300, 20_000) {
            let inp = input(it, &mut rng);
            r.fuel.set(200_000);
            let want = r.run(&f, &inp);
            if want == Err(Stop::Fuel) {
                continue;
            }
            let plain = eng::run(&p, &inp);
            let loc = match eng::run_loc(&p, &inp) {
                Ok(Some((v, n))) => Out::Ok(Rv::erase(&doodle::decoder::Value::from(v)), n),
                Ok(None) => Out::Reject,
                Err(e) => Out::Panic(e),
            };
            rep.eval(2);
            rep.count(match &want { Ok(_) => "exact", Err(Stop::Reject) => "reject", _ => "no such value" }, 1);
            rep.sig(&(&it.name, want.is_ok()));
            for (en, got) in [("the interpreter", &plain), ("the located interpreter", &loc)] {
                let bad = match (&want, got) {
                    (Ok((v, n)), Out::Ok(v2, n2)) => v != v2 || n != n2,
                    (Err(Stop::Reject), Out::Reject) => false,
                    (Err(Stop::Fault(_)), Out::Panic(_) | Out::Reject) => false,
                    _ => true,
                };
                if bad {
                    rep.violation(&it.name, format!("{} on {:02x?}: exactly {}, {en} gives {}", it.name, inp, want.as_ref().map_or_else(|e| format!("{e:?}"), |v| v.0.show()), got.show()), json!({"expr": format!("{:?}", it.body), "input": inp}));
                }
            }
            if cases.len() < rep.scale(300, 3_000) {
                cases.push((inp, want));
            }
        }
        match cgen::emit(&m, &f) {
            Ok((src, entry)) => {
                let mut o = out.lock().unwrap();
                o.0.push(Unit { id: i, src, entry });
                o.1.push((i, cases));
            }
            Err(e) => {
                rep.count("not generated", 1);
                rep.violation(&format!("generate {}", it.name), format!("{}: no code is generated: {e}", it.name), json!({}));
                if std::env::var("DV_KINDS").is_ok() {
                    eprintln!("NG {} {}", it.name, e);
                }
            }
        }
    });
    let (mut units, mut cases) = out.into_inner().unwrap();
    units.sort_by_key(|u| u.id);
    cases.sort_by_key(|c| c.0);
    let built = match cgen::build("C19", &units, 8, 0) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    for (i, e) in &built.broken {
        rep.count("not compiled", 1);
        let n = &get(*i).name;
        // forms the generator does not support
        let arg = n.ends_with(" by argument");
        let unsupported = n.starts_with("append ") || n == "char 8" || n == "char 16" || (n.starts_with("inflate ") && !arg) || (n.starts_with("find") && !(n.contains("key") && arg));
        if !unsupported {
            rep.violation(&format!("rustc {n}"), format!("{n}: generated code does not compile: {e}"), json!({"expr": format!("{:?}", get(*i).body)}));
        }
        if std::env::var("DV_KINDS").is_ok() {
            eprintln!("NC {} {}", get(*i).name, e.chars().take(300).collect::<String>());
        }
    }
    par(built.bins.len(), |k| {
        let mut dr = Driver::start(&built.bins[k].0);
        for &u in &built.bins[k].1 {
            let c = &cases[cases.binary_search_by_key(&u, |c| c.0).unwrap()];
            let it = &*get(u);
            for (inp, want) in &c.1 {
                let r = dr.run(u, inp);
                rep.eval(1);
                rep.count(&format!("generated {}", r.tag()), 1);
                let bad = match want {
                    Ok((v, n)) => differs(&Out::Ok(v.clone(), *n), &r),
                    Err(Stop::Reject) => differs(&Out::Reject, &r),
                    Err(Stop::Fault(e)) => match &r {
                        Ran::Ok(s, _) => Some(format!("{e}: there is no such value, but generated code yields {}", s.chars().take(200).collect::<String>())),
                        _ => None,
                    },
                    _ => None,
                };
                if let Some(e) = bad {
                    // (a narrowing cast truncates in generated code: a finding on file)
                    let cast = matches!(want, Err(Stop::Fault(e)) if e == "cast");
                    rep.violation(&format!("generated {}{}", if cast { "out-of-range " } else { "" }, it.name), format!("{} in generated code on {inp:02x?}: {e}", it.name), json!({"expr": format!("{:?}", it.body), "input": inp}));
                    if !cast {
                        break;
                    }
                }
            }
        }
    });
    "one evaluation = one expression evaluated by one engine on one set of operands; distinct = (expression, whether it has a value)"
}
