//! C04: the generated parser for the shipped formats agrees with the interpreter: both the source committed in
//! the repository and the source the generator yields now.
use crate::cgen::{self, DP, Driver, Ran, Unit, same};
use crate::corpus;
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, hex, par};
use crate::refint::{self, Ref};
use crate::rng::Rng;
use serde_json::json;
use std::cell::RefCell;

pub fn units(rep: &Report) -> Vec<Unit> {
    let mut m = doodle::FormatModule::new();
    let f = doodle_formats::format::main(&mut m).call();
    let mut units = vec![];
    match cgen::emit(&m, &f) {
        Ok((src, entry)) => units.push(Unit { id: 0, src, entry }),
        Err(e) => rep.violation("generate", format!("no code is generated for the shipped formats: {e}"), json!({})),
    }
    match std::fs::read_to_string("/repo/generated/gencode.rs").map_err(|e| e.to_string()).and_then(|s| cgen::prepare(&s)) {
        Ok((src, entry)) => {
            let flat = |s: &str| s.split_whitespace().collect::<String>();
            let same = units.first().is_some_and(|u| flat(&u.src) == flat(&src));
            rep.count("committed_source_equals_generated", same as u64);
            if !same {
                units.push(Unit { id: 1, src, entry });
            }
        }
        Err(e) => rep.violation("committed", format!("the committed generated source is unusable: {e}"), json!({})),
    }
    units
}

fn name(id: usize) -> &'static str {
    if id == 0 { "freshly generated parser" } else { "committed generated parser" }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(600);
    let us = units(rep);
    let b = match cgen::build("C04", &us, us.len(), 0) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    for (i, e) in &b.broken {
        rep.violation(&format!("build {i}"), format!("the {} does not compile: {e}", name(*i)), json!({}));
    }
    let files = corpus::files(rep.scale(150_000, 20_000_000) as u64);
    let per = rep.scale(160, 2500);
    let split = 16;
    thread_local! { static DR: RefCell<Vec<(usize, Driver)>> = const { RefCell::new(vec![]) }; }
    par(files.len() * split, |j| {
        let (s, part) = (&files[j / split], j % split);
        let mut m = doodle::FormatModule::new();
        let fr = doodle_formats::format::main(&mut m);
        let f = fr.call();
        let Comp::Ok(p) = eng::compile(&m, &f) else { return };
        let mut rng = Rng::derive(rep.seed, 0xc04 + j as u64);
        let n = match s.data.len() {
            0..4_000 => per,
            4_000..30_000 => per / 2,
            30_000..150_000 => per / 8,
            _ => 16,
        };
        for k in 0..n.max(1) {
            if k % split != part {
                continue;
            }
            let inp = if k == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            let got = rep.watched(|| format!("interpreter, variant {k} of {}", s.name), || eng::run(&p, &inp));
            check(rep, &b.bins, &s.name, &inp, &got);
        }
    });
    // inputs made up from the formats themselves
    let n = rep.scale(1600, 40_000);
    par(64, |j| {
        let mut m = doodle::FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        let Comp::Ok(p) = eng::compile(&m, &f) else { return };
        let sg = refint::sigs(&m);
        let mut r = Ref::new(&m, &sg);
        let mut rng = Rng::derive(rep.seed, 0x1c04 + j as u64);
        for _ in 0..n / 64 {
            for inp in crate::c01::inputs(&mut r, &f, &mut rng, 2) {
                if inp.len() > 20_000 {
                    continue;
                }
                let got = rep.watched(|| format!("interpreter {}", hex(&inp)), || eng::run(&p, &inp));
                check(rep, &b.bins, "made up", &inp, &got);
            }
        }
    });
    fn check(rep: &Report, bins: &[(String, Vec<usize>)], origin: &str, inp: &[u8], got: &Out) {
        if let Out::Panic(_) = got {
            rep.count("interpreter faults (not compared)", 1);
            return;
        }
        for (bin, us) in bins {
            for &u in us {
                let r = DR.with_borrow_mut(|d| {
                    if !d.iter().any(|x| x.0 == u) {
                        d.push((u, Driver::start(bin)));
                    }
                    let dr = &mut d.iter_mut().find(|x| x.0 == u).unwrap().1;
                    rep.watched(|| format!("{} on a variant of {origin} {}", name(u), hex(&inp[..inp.len().min(2000)])), || dr.run(u, inp))
                });
                rep.eval(1);
                rep.count(&format!("{}/{}", got.tag(), r.tag()), 1);
                let shape = match got {
                    Out::Ok(v, n) => (crate::ev::hash_of(&v.show().chars().filter(|c| c.is_alphabetic()).take(400).collect::<String>()), *n),
                    _ => (0, inp.len()),
                };
                rep.sig(&(u, got.tag(), shape));
                if let Some(e) = differs(got, &r) {
                    let file = rep.save(&format!("{}-{}", origin.replace('/', "_"), crate::ev::hash_of(inp)), inp);
                    rep.violation(&format!("{origin} {u}"), format!("{} on a variant of {origin} ({} bytes, saved as {file}): {e}", name(u), inp.len()), json!({"input_file": file, "what": e}));
                }
            }
        }
    }
    "one evaluation = one input run through one generated parser and compared with the interpreter; distinct = (parser, outcome, shape of the value)"
}

/// what the generated parser does differently from the interpreter, if anything
pub fn differs(got: &Out, r: &Ran) -> Option<String> {
    match (got, r) {
        (Out::Ok(v, n), Ran::Ok(s, k)) => match DP::parse(s) {
            Err(e) => Some(format!("unreadable result ({e}): {}", s.chars().take(400).collect::<String>())),
            Ok(d) if !same(v, &d) => Some(format!("values differ: interpreter {}, generated parser {}", v.show().chars().take(400).collect::<String>(), s.chars().take(400).collect::<String>())),
            _ if n != k => Some(format!("interpreter ends at {n}, generated parser at {k}")),
            _ => None,
        },
        (Out::Ok(..), r) => Some(format!("interpreter: {}, generated parser: {r:?}", got.show().chars().take(400).collect::<String>())),
        (Out::Panic(_), _) => None,
        (_, Ran::Ok(s, _)) => Some(format!("interpreter rejects, generated parser accepts: {}", s.chars().take(400).collect::<String>())),
        (_, Ran::Err(_)) => None,
        (_, r) => Some(format!("interpreter rejects, generated parser aborts: {r:?}")),
    }
}
