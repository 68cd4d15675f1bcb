//! C06: compiling, generating and decoding are functions of their arguments. The same work is done by several
//! fresh processes in different orders and twice within each; every result must be the same everywhere.
use crate::c01::{cfg_for, gen_module, inputs};
use crate::corpus;
use crate::eng::{self, Comp};
use crate::ev::{Report, guarded, hash_of, par};
use crate::refint::Ref;
use crate::rng::Rng;
use doodle::codegen::{ToFragment, generate_code};
use doodle::decoder::Program;
use doodle::output::tree::TreePrinter;
use doodle::{Format, FormatModule};
use serde_json::json;
use std::collections::{BTreeMap, HashMap};

fn h(s: &str) -> String {
    format!("{:016x}:{}", hash_of(s.as_bytes()), s.len())
}
fn source(m: &FormatModule, f: &Format) -> String {
    // what is refused is told apart by the message
    match guarded(|| format!("{}", generate_code(m, f).to_fragment())) {
        Ok(s) => {
            if let Ok(d) = std::env::var("C06_DUMP") {
                let _ = std::fs::write(format!("{d}/{:x}", hash_of(s.as_bytes())), &s);
            }
            h(&s)
        }
        Err(e) => format!("no code {}", h(&e)),
    }
}
fn decode(p: &Program, m: &FormatModule, f: &Format, inp: &[u8], tree: bool) -> String {
    let v = eng::run_raw(p, inp);
    let mut size = 0;
    let mut s = match &v {
        Ok(Some((v, n))) => {
            let t = format!("{v:?}");
            size = t.len();
            format!("ok {n} {}", h(&t))
        }
        Ok(None) => match guarded(|| p.run(doodle::read::ReadCtxt::new(inp)).err().map(|e| e.to_string())) {
            Ok(Some(e)) => format!("error {}", h(&e)),
            _ => "error?".into(),
        },
        Err(e) => format!("abort {}", h(e)),
    };
    // (locating the parts of what a file inflates to takes very long)
    if size > 400_000 || inp.len() > 4000 && !s.starts_with("ok") {
        return s;
    }
    let l = eng::run_loc(p, inp);
    s += &match &l {
        Ok(Some((v, n))) => format!(" located {n} {}", h(&format!("{v:?}"))),
        Ok(None) => " located error".into(),
        Err(e) => format!(" located abort {}", h(e)),
    };
    if tree {
        if let Ok(Some((v, _))) = &v {
            let t = guarded(|| format!("{}", TreePrinter::new(m).compile_decoded_value(v, f)));
            s += &format!(" tree {}", t.map_or_else(|e| format!("abort {}", h(&e)), |t| h(&t)));
            s += &format!(" json {}", h(&serde_json::to_string(v).unwrap_or_default()));
        }
    }
    s
}

struct Work {
    key: String,
    what: What,
}
#[derive(Clone)]
enum What {
    Shipped,
    File(usize, usize),
    Module(usize),
}

fn shipped() -> (FormatModule, Format) {
    let mut m = FormatModule::new();
    let f = doodle_formats::format::main(&mut m).call();
    (m, f)
}
fn do_one(w: &What, seed: u64, files: &[corpus::Sample], cache: &mut Option<(FormatModule, Format, Program)>) -> String {
    match *w {
        What::Shipped => {
            let (m, f) = shipped();
            let mut s = format!("source {} json {} debug {}", source(&m, &f), h(&serde_json::to_string(&m).unwrap()), h(&format!("{m:?}")));
            let ty: Vec<String> = m.iter_formats().map(|(l, f)| format!("{:?} {:?}", m.get_format_type(l), guarded(|| format!("{:?}", doodle::typecheck(&m, &f).map_err(|e| e.to_string()))))).collect();
            s += &format!(" types {}", h(&ty.join("\n")));
            s
        }
        What::File(i, k) => {
            let (m, f, p) = cache.get_or_insert_with(|| {
                let (m, f) = shipped();
                match eng::compile(&m, &f) {
                    Comp::Ok(p) => (m, f, p),
                    _ => panic!("no program"),
                }
            });
            let mut rng = Rng::derive(seed, 0xc06 + (i as u64) * 1000 + k as u64);
            let inp = if k == 0 { files[i].data.clone() } else { corpus::mutate(&files[i].data, &mut rng) };
            decode(p, m, f, &inp, k < 3)
        }
        What::Module(i) => {
            let Ok(b) = gen_module(seed, 0xc06, i, cfg_for(i)) else { return "not built".into() };
            let call = b.main.call();
            let mut s = source(&b.m, &call);
            let mut rng = Rng::derive(seed, 0x1c06 + i as u64);
            let mut r = Ref::new(&b.m, &b.sigs);
            let ins = inputs(&mut r, &call, &mut rng, 3);
            match eng::compile_within(&b.m, &call, 100_000) {
                None => s += " too large",
                Some(Comp::Refused(e)) => s += &format!(" refused {}", h(&e)),
                Some(Comp::Panic(e)) => s += &format!(" abort {}", h(&e)),
                Some(Comp::Ok(p)) => {
                    for inp in ins {
                        s += &format!(" | {}", decode(&p, &b.m, &call, &inp, true))
                    }
                }
            }
            s
        }
    }
}

fn works(tier: &str, files: &[corpus::Sample]) -> Vec<Work> {
    let (per, mods) = if tier == "quick" { (6, 500) } else { (60, 8000) };
    let mut ws = vec![Work { key: "shipped formats".into(), what: What::Shipped }];
    for (i, s) in files.iter().enumerate() {
        for k in 0..if s.data.len() > 8000 { per / 3 } else { per } {
            ws.push(Work { key: format!("{} variant {k}", s.name), what: What::File(i, k) });
        }
    }
    ws.extend((0..mods).map(|i| Work { key: format!("random module {i}"), what: What::Module(i) }));
    ws
}
fn files() -> Vec<corpus::Sample> {
    corpus::files(30_000)
}

/// a fresh process: does everything in its own order, twice, and prints what came out
pub fn det(seed: u64, order: u64, tier: &str) {
    let files = files();
    let ws = works(tier, &files);
    let mut idx: Vec<usize> = (0..ws.len()).collect();
    match order {
        0 => {}
        1 => idx.reverse(),
        o => {
            let mut r = Rng::derive(o, 0xde7);
            for i in (1..idx.len()).rev() {
                idx.swap(i, r.below(i + 1));
            }
        }
    }
    let mut cache = None;
    let mut first = HashMap::new();
    for &i in &idx {
        first.insert(i, do_one(&ws[i].what, seed, &files, &mut cache));
    }
    // again, with everything else in between; half of it with a program compiled anew
    if order % 2 == 1 {
        cache = None;
    }
    for &i in &idx {
        let s = if i % 3 == 0 || matches!(ws[i].what, What::Shipped) { do_one(&ws[i].what, seed, &files, &mut cache) } else { first[&i].clone() };
        if s != first[&i] {
            println!("DIFF\t{i}\t{}\t{s}", first[&i]);
        }
    }
    for i in 0..ws.len() {
        println!("{i}\t{}", first[&i]);
    }
    println!("END");
}

pub fn run(rep: &Report) -> &'static str {
    let exe = std::env::current_exe().unwrap();
    let n = rep.scale(6, 8);
    let outs = std::sync::Mutex::new(vec![None; n]);
    par(n, |o| {
        let r = std::process::Command::new(&exe).args(["det", &rep.seed.to_string(), &o.to_string(), if rep.thorough() { "thorough" } else { "quick" }]).stderr(std::process::Stdio::null()).output();
        outs.lock().unwrap()[o] = r.ok().map(|o| String::from_utf8_lossy(&o.stdout).into_owned());
    });
    let files = files();
    let ws = works(if rep.thorough() { "thorough" } else { "quick" }, &files);
    let outs = outs.into_inner().unwrap();
    let mut all: BTreeMap<usize, Vec<(usize, String)>> = BTreeMap::new();
    for (o, t) in outs.iter().enumerate() {
        let Some(t) = t else { continue };
        if !t.ends_with("END\n") {
            eprintln!("process {o} did not finish");
            std::process::exit(2);
        }
        for l in t.lines() {
            let c: Vec<&str> = l.split('\t').collect();
            match c[..] {
                ["DIFF", i, a, b] => {
                    let w = &ws[i.parse::<usize>().unwrap()];
                    rep.violation(&w.key, format!("{}: two runs in one process differ: {a} and {b}", w.key), json!({"process": o}));
                }
                [i, s] => all.entry(i.parse().unwrap()).or_default().push((o, s.to_string())),
                _ => {}
            }
        }
    }
    for (i, rs) in &all {
        rep.eval(rs.len() as u64);
        rep.sig(&rs[0].1);
        rep.count(match ws[*i].what { What::Shipped => "shipped module", What::File(..) => "files and variants", What::Module(_) => "random modules" }, 1);
        if let Some(b) = rs.iter().find(|r| r.1 != rs[0].1) {
            rep.violation(&ws[*i].key, format!("{}: fresh processes differ: {} and {}", ws[*i].key, rs[0].1, b.1), json!({"processes": [rs[0].0, b.0]}));
        }
    }
    rep.count("processes", n as u64);
    "one evaluation = all results (generated source, types, values, locations, renderings, errors) of one module or file in one fresh process; distinct = distinct results"
}
