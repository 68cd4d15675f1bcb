//! C05: generated code for any module agrees with the interpreter.
use crate::c01::{describe, gen_module, inputs};
use crate::c05core::{self, CORE};
use crate::cgen::{self, Driver, Unit};
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, hex, par};
use crate::fgen::{self, Cfg};
use crate::look::end;
use crate::refint::{Ref, Stop};
use crate::rng::Rng;
use serde_json::json;
use std::collections::HashSet;
use std::sync::Mutex;

pub fn cfg(i: usize) -> Cfg {
    let mut c = Cfg::full();
    c.codegen = true;
    // what follows a permitted failure is outside what lookahead is built for
    c.permit = i % 5 == 0;
    c.lookahead = !c.permit;
    match i % 4 {
        0 => {
            c.fuel = 14;
            c.depth = 3;
            c.defs = 1;
        }
        1 => c.fuel = 60,
        2 => c.faults = false,
        _ => {}
    }
    c
}

/// case `i`: the core modules first, then random ones
fn make(rep: &Report, tag: u64, i: usize, cfg: &(impl Fn(usize) -> Cfg + Sync)) -> Result<fgen::Built, String> {
    if i < CORE.len() { Ok(c05core::build(i)) } else { gen_module(rep.seed, tag, i - CORE.len(), cfg(i - CORE.len())) }
}

/// the kind of a complaint, without the names and numbers in it
fn kind(e: &str) -> String {
    let mut out = String::new();
    let mut tick = false;
    for ch in e.chars() {
        match ch {
            '`' => { tick = !tick; if tick { out.push('_') } }
            _ if tick => {}
            '0'..='9' => { if !out.ends_with('#') { out.push('#') } }
            '[' | '(' | '{' if out.len() > 12 => break,
            c => out.push(c),
        }
        if out.len() > 60 { break }
    }
    out
}

pub struct Case {
    pub i: usize,
    pub ins: Vec<(Vec<u8>, Out)>,
}

/// modules with inputs and what the interpreter makes of them; their generated source
pub fn collect(rep: &Report, tag: u64, n: usize, per: usize, cfg: impl Fn(usize) -> Cfg + Sync) -> (Vec<Unit>, Vec<Case>) {
    let out = Mutex::new((vec![], vec![]));
    par(n, |i| {
        let Ok(b) = make(rep, tag, i, &cfg) else { return };
        let call = b.main.call();
        let mut r = Ref::new(&b.m, &b.sigs);
        r.look.fuel.set(60_000);
        let core = i < CORE.len();
        if r.look.refuses(&call, end(), &mut HashSet::new()) != Some(false) {
            if core { rep.violation(&format!("core {}", CORE[i].0), format!("{}: the reference refuses this module", CORE[i].0), describe(&b)); }
            return;
        }
        let Some(Comp::Ok(p)) = eng::compile_within(&b.m, &call, 300_000) else {
            if core { rep.violation(&format!("core {}", CORE[i].0), format!("{}: the interpreter refuses this module", CORE[i].0), describe(&b)); }
            return;
        };
        let mut rng = Rng::derive(rep.seed, 0x11c05 ^ tag << 8 ^ (i as u64) << 20);
        let mut ins = vec![];
        for inp in inputs(&mut r, &call, &mut rng, if core { 3 * per } else { per }) {
            r.fuel.set(200_000);
            let want = r.run(&call, &inp);
            if want == Err(Stop::Fuel) {
                continue;
            }
            let got = rep.watched(|| format!("case {i} input {}", hex(&inp)), || eng::run(&p, &inp));
            // an expression that faults is outside the comparison: generated arithmetic need not fault
            if matches!(got, Out::Panic(_)) {
                rep.count("faults (not compared)", 1);
                continue;
            }
            ins.push((inp, got));
        }
        doodle::verif::set_lookahead_budget(3_000_000);
        let e = rep.watched(|| format!("generate case {i}"), || cgen::emit(&b.m, &call));
        doodle::verif::set_lookahead_budget(u64::MAX);
        rep.count("modules", 1);
        match e {
            Err(e) => {
                if e.contains(doodle::verif::BUDGET_SPENT) {
                    return;
                }
                rep.count("not generated", 1);
                if std::env::var("DV_KINDS").is_ok() { rep.count(&format!("G {}", kind(&e)), 1); }
                if core { rep.violation(&format!("core {}", CORE[i].0), format!("{}: no code is generated: {e}", CORE[i].0), describe(&b)); }
                if std::env::var("DV_STRICT").is_ok() { rep.violation(&format!("generate {}", e.chars().take(100).collect::<String>()), format!("case {i}: no code is generated: {e}; main = {:?}", b.m.get_format(b.main.get_level())), describe(&b)); }
            }
            Ok((src, entry)) => {
                let mut o = out.lock().unwrap();
                o.0.push(Unit { id: i, src, entry });
                o.1.push(Case { i, ins });
            }
        }
    });
    let (mut u, mut c): (Vec<Unit>, Vec<Case>) = out.into_inner().unwrap();
    u.sort_by_key(|u| u.id);
    c.sort_by_key(|c| c.i);
    (u, c)
}

pub fn compare(rep: &Report, id: &str, tag: u64, units: &[Unit], cases: &[Case], cfg: impl Fn(usize) -> Cfg + Sync) {
    let t = std::time::Instant::now();
    let b = match cgen::build(id, units, 8, 0) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    rep.count("build_seconds", t.elapsed().as_secs());
    let main_of = |i: usize| make(rep, tag, i, &cfg).map(|b| (format!("{:?}", b.m.get_format(b.main.get_level())), describe(&b))).unwrap_or_default();
    for (i, e) in &b.broken {
        let (m, d) = main_of(*i);
        let msg: String = e.split("error").nth(1).unwrap_or(e).chars().take(140).collect();
        rep.count("not compiled", 1);
        if std::env::var("DV_KINDS").is_ok() { rep.count(&format!("B {}", kind(&msg)), 1); }
        if *i < CORE.len() { rep.violation(&format!("core {}", CORE[*i].0), format!("{}: generated code does not compile: {e}", CORE[*i].0), d.clone()); }
        if std::env::var("DV_STRICT").is_ok() { rep.violation(&format!("rustc {msg}"), format!("case {i}: generated code does not compile: {e}; main = {m}"), d); }
    }
    par(b.bins.len(), |k| {
        let mut dr = Driver::start(&b.bins[k].0);
        for &u in &b.bins[k].1 {
            let c = &cases[cases.binary_search_by_key(&u, |c| c.i).unwrap()];
            for (inp, got) in &c.ins {
                let r = rep.watched(|| format!("generated case {u} input {}", hex(inp)), || dr.run(u, inp));
                rep.eval(1);
                rep.count(&format!("{}/{}", got.tag(), r.tag()), 1);
                rep.sig(&(u, got.tag()));
                let bad = crate::c04::differs(got, &r);
                if let Some(e) = bad {
                    let (m, d) = main_of(u);
                    rep.violation(&format!("case {u}"), format!("case {u} on {}: {e}; main = {m}", hex(inp)), json!({"module": d, "input": hex(inp), "what": e}));
                    break;
                }
            }
        }
    });
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    let n = std::env::var("DV_N").ok().and_then(|s| s.parse().ok()).unwrap_or(rep.scale(3000, 30_000));
    let (u, c) = collect(rep, 0xc05, n + CORE.len(), rep.scale(8, 12), cfg);
    rep.sample(json!({"units": u.len(), "lines": u.iter().map(|u| u.src.lines().count()).sum::<usize>()}));
    compare(rep, "C05", 0xc05, &u, &c, cfg);
    let _ = fgen::bx(0);
    "one evaluation = one input run through the generated parser and compared with the interpreter; distinct = (module, outcome)"
}
