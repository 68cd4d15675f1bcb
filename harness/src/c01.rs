//! C01: the interpreter agrees with the reference meaning of the format description.
use crate::eng::{self, Comp, Out};
use crate::ev::{Report, guarded, hex, par};
use crate::fgen::{Built, Cfg, Gen};
use crate::look::end;
use crate::corpus;
use crate::refint::{self, Ref, Stop};
use crate::rng::Rng;
use doodle::Format;
use serde_json::json;
use std::collections::HashSet;

/// hostile and realistic inputs for a format
pub fn inputs<'a>(r: &mut Ref<'a>, f: &'a Format, rng: &mut Rng, n: usize) -> Vec<Vec<u8>> {
    let mut out: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..n {
        r.fuel.set(20_000);
        r.look.fuel.set(200_000);
        if let Some(d) = r.generate(f, Rng::new(rng.next())) {
            if d.len() > 4096 {
                continue;
            }
            if rng.chance(1, 2) && !d.is_empty() {
                let mut m = d.clone();
                for _ in 0..rng.range(1, 3) {
                    if m.is_empty() {
                        break;
                    }
                    let i = rng.below(m.len());
                    match rng.below(5) {
                        0 => m[i] = rng.byte(),
                        1 => m[i] ^= 1 << rng.below(8),
                        2 => m.truncate(i),
                        3 => {
                            m.remove(i);
                        }
                        _ => m.insert(i, rng.byte()),
                    }
                }
                out.push(m);
            }
            let mut e = d.clone();
            let k = rng.below(4);
            for _ in 0..k {
                let b = if !d.is_empty() && rng.chance(1, 2) { *rng.pick(&d) } else { rng.byte() };
                e.push(b);
            }
            out.push(d);
            if k > 0 {
                out.push(e);
            }
        }
    }
    let k = rng.below(24);
    out.push((0..k).map(|_| rng.below(8) as u8).collect());
    let k = rng.below(24);
    out.push(rng.bytes(k));
    out
}

pub fn describe(b: &Built) -> serde_json::Value {
    json!({"module": serde_json::to_value(&b.m).unwrap_or(serde_json::Value::Null), "main": b.main.get_level()})
}

pub fn gen_module(seed: u64, tag: u64, i: usize, cfg: Cfg) -> Result<Built, String> {
    let rng = Rng::derive(seed, tag ^ (i as u64) << 20);
    guarded(|| Gen::new(rng, cfg).module())
}

pub fn cfg_for(i: usize) -> Cfg {
    let mut c = Cfg::full();
    match i % 4 {
        0 => {
            c.fuel = 16;
            c.depth = 3;
            c.defs = 1;
        }
        1 => c.fuel = 70,
        2 => c.faults = false,
        _ => {}
    }
    c
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    let n = rep.scale(24_000, 200_000);
    par(n, |i| case(rep, i));
    shipped(rep);
    "one evaluation = one (format module, input) pair executed by both; distinct = set of combinators executed x outcome"
}

/// the shipped format descriptions themselves, on sample files and hostile variants
fn shipped(rep: &Report) {
    let files = corpus::files(rep.scale(9_000, 140_000) as u64);
    let per = rep.scale(12, 150);
    let jobs = files.len() * 8;
    par(jobs, |j| {
        let (s, slice) = (&files[j / 8], j % 8);
        let mut m = doodle::FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        let sg = refint::sigs(&m);
        let r = Ref::new(&m, &sg);
        let Comp::Ok(p) = eng::compile(&m, &f) else {
            rep.violation("compile", "the shipped formats do not compile", json!({}));
            return;
        };
        let mut rng = Rng::derive(rep.seed, 0x5c01 + j as u64);
        let big = s.data.len() > 20_000;
        for k in 0..per {
            if k % 8 != slice || (big && k >= 16) {
                continue;
            }
            let inp = if k == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            r.fuel.set(rep.scale(6_000_000, 150_000_000) as i64);
            r.kinds.set(0);
            let t = std::time::Instant::now();
            let want = r.run_big(&f, &inp);
            if std::env::var("DV_TIME").is_ok() {
                eprintln!("{} {} {:?} {}", s.name, inp.len(), t.elapsed(), match &want { Ok(_) => "ok", Err(Stop::Reject) => "reject", Err(Stop::Fuel) => "FUEL", Err(Stop::Fault(_)) => "fault" });
            }
            if want == Err(Stop::Fuel) {
                rep.count("shipped_ref_gave_up", 1);
                continue;
            }
            let got = rep.watched(|| format!("shipped {} {}", s.name, hex(&inp)), || eng::run(&p, &inp));
            rep.eval(1);
            let ok = match (&want, &got) {
                (Ok((v, n)), Out::Ok(v2, n2)) => v == v2 && n == n2,
                (Err(Stop::Reject), Out::Reject) => true,
                (Err(Stop::Fault(_)), Out::Ok(..)) => false,
                (Err(Stop::Fault(_)), _) => true,
                _ => false,
            };
            rep.count(if want.is_ok() { "shipped_accepted" } else if want == Err(Stop::Reject) { "shipped_rejected" } else { "shipped_faulted" }, 1);
            rep.sig(&(&s.name, r.kinds.get(), got.tag()));
            if !ok {
                let file = rep.save(&format!("shipped-{}-{k}", s.name.replace('/', "_")), &inp);
                let w: String = format!("{want:?}").chars().take(300).collect();
                rep.violation(&format!("shipped {}", s.name), format!("shipped formats on a variant of {} ({} bytes, saved as {file}): expected {w}, interpreter gave {}", s.name, inp.len(), got.show().chars().take(300).collect::<String>()), json!({"input_file": file, "expected": w}));
            }
        }
    });
}

fn case(rep: &Report, i: usize) {
    let b = match gen_module(rep.seed, 0xc01, i, cfg_for(i)) {
        Ok(b) => b,
        Err(_) => {
            rep.count("type_refused", 1);
            return;
        }
    };
    let call = b.main.call();
    let mut r = Ref::new(&b.m, &b.sigs);
    r.look.fuel.set(60_000);
    match rep.watched(|| format!("lookahead model case {i}"), || r.look.refuses(&call, end(), &mut HashSet::new())) {
        None => {
            rep.count("lookahead_too_big", 1);
            return;
        }
        Some(true) => {
            rep.count("refused", 1);
            return;
        }
        Some(false) => {}
    }
    let p = match rep.watched(|| format!("compile case {i}"), || eng::compile(&b.m, &call)) {
        Comp::Ok(p) => p,
        Comp::Refused(e) => {
            rep.count("compile_refused", 1);
            rep.count(&format!("cr:{}", e.chars().take(60).collect::<String>()), 1);
            return;
        }
        Comp::Panic(e) => {
            rep.count(&format!("compile_panic {}", e.chars().take(90).collect::<String>()), 1);
            return;
        }
    };
    rep.count("programs", 1);
    let mut rng = Rng::derive(rep.seed, 0x11c01 ^ (i as u64) << 20);
    let ins = rep.watched(|| format!("inputs case {i}"), || inputs(&mut r, &call, &mut rng, rep.scale(6, 10)));
    for inp in ins {
        r.fuel.set(200_000);
        r.kinds.set(0);
        let want = rep.watched(|| format!("reference case {i} {}", hex(&inp)), || r.run(&call, &inp));
        if want == Err(Stop::Fuel) {
            rep.count("ref_gave_up", 1);
            continue;
        }
        let got = rep.watched(|| format!("case {i} input {}", hex(&inp)), || eng::run(&p, &inp));
        rep.eval(1);
        let ok = match (&want, &got) {
            (Ok((v, n)), Out::Ok(v2, n2)) => v == v2 && n == n2,
            (Err(Stop::Reject), Out::Reject) => true,
            (Err(Stop::Fault(_)), Out::Ok(..)) => false,
            (Err(Stop::Fault(_)), _) => true,
            _ => false,
        };
        rep.count(
            match &want {
                Ok(_) => "accepted",
                Err(Stop::Reject) => "rejected",
                _ => "faulted",
            },
            1,
        );
        rep.sig(&(r.kinds.get(), got.tag()));
        if !ok {
            let key = match &got {
                Out::Panic(p) => format!("panic {}", p.chars().take(100).collect::<String>()),
                _ => format!("case {i}"),
            };
            rep.count(&format!("V {key}"), 1);
            let w: String = format!("{want:?}").chars().take(900).collect();
            rep.violation(&key, format!("case {i}: on {} expected {w}, interpreter gave {}; main = {:?}", hex(&inp), got.show(), b.m.get_format(b.main.get_level())), json!({"module": describe(&b), "input": hex(&inp), "expected": w, "got": got.show()}));
            return;
        }
    }
    if i < 3 {
        rep.sample(json!({"case": i, "main": format!("{:?}", b.m.get_format(b.main.get_level())).chars().take(400).collect::<String>()}));
    }
}
