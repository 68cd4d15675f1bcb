//! C16: decoding never aborts on hostile input: the shipped formats, run by the interpreter (plain and with
//! locations) on damaged files, only ever succeed or report an error, within bounded memory.
use crate::corpus;
use crate::eng::{self, Comp};
use crate::ev::{Report, hash_of, par};
use crate::refint::{self, Ref, Stop};
use crate::rng::Rng;
use serde_json::json;
use std::cell::RefCell;
use doodle::decoder::Program;

thread_local! { pub static PROG: RefCell<Option<Program>> = const { RefCell::new(None) }; }

pub fn with_prog<T>(f: impl FnOnce(&Program) -> T) -> T {
    PROG.with_borrow_mut(|p| {
        if p.is_none() {
            let mut m = doodle::FormatModule::new();
            let f = doodle_formats::format::main(&mut m).call();
            match eng::compile(&m, &f) {
                Comp::Ok(q) => *p = Some(q),
                _ => panic!("the shipped formats do not compile"),
            }
        }
        f(p.as_ref().unwrap())
    })
}

/// the message of an abort without the data and the place in it
fn plain(e: &str) -> String {
    // ".../file.rs:NN: message"
    let msg = e.split_once(".rs:").and_then(|(_, r)| r.split_once(": ")).map_or(e, |(_, m)| m);
    let mut out = String::new();
    for c in msg.chars().take(100) {
        if c.is_ascii_digit() {
            if !out.ends_with('#') {
                out.push('#')
            }
        } else {
            out.push(c)
        }
    }
    out
}

thread_local! { static REF: RefCell<Option<(doodle::FormatModule, doodle::Format)>> = const { RefCell::new(None) }; }

/// Does the reference interpreter find that the format itself computes a value that does not exist on this input?
/// Some(family of the innermost format it happens in and the expression); None: it does not; Err: cannot tell
fn format_faults(inp: &[u8]) -> Result<Option<String>, ()> {
    REF.with_borrow_mut(|p| {
        let (m, f) = p.get_or_insert_with(|| {
            let mut m = doodle::FormatModule::new();
            let f = doodle_formats::format::main(&mut m).call();
            (m, f)
        });
        let sigs = refint::sigs(m);
        let r = Ref::new(m, &sigs);
        r.fuel.set(40_000_000);
        match r.run(f, inp) {
            Err(Stop::Fault(why)) => {
                let family = m.get_name(r.fault_in.get().unwrap_or(0)).split('.').next().unwrap_or("").to_string();
                let at = r.fault_at.borrow().map_or(why.to_string(), |e| format!("{e:?}").chars().take(150).collect());
                Ok(Some(format!("{family}: {at}")))
            }
            Err(Stop::Fuel) => Err(()),
            _ => Ok(None),
        }
    })
}

fn one(rep: &Report, name: &str, inp: &[u8], loc: bool, k: usize) {
    crate::largest_request();
    let r = rep.watched(
        || format!("{name} variant {k}"),
        || with_prog(|p| if loc { eng::run_loc(p, inp).map(|x| x.map(|y| y.1)) } else { eng::run_raw(p, inp).map(|x| x.map(|y| y.1)) }),
    );
    let big = crate::largest_request();
    rep.eval(1);
    rep.count(match &r { Ok(Some(_)) => "accepted", Ok(None) => "rejected", Err(_) => "aborted" }, 1);
    rep.sig(&(name, loc, format!("{r:?}").chars().take(80).collect::<String>(), big.next_power_of_two()));
    let engine = if loc { "located" } else { "plain" };
    // a sequence of values grows by doubling, and data inflates to at most about a thousandfold
    if big > (64 << 20) + inp.len() * 100_000 {
        let file = rep.save(&format!("{:x}", hash_of(inp)), inp);
        rep.violation("memory", format!("{engine} decoding asks for {big} bytes at once on a variant of {name} ({} bytes, saved as {file})", inp.len()), json!({"input_file": file, "request": big}));
    }
    if let Err(e) = r {
        let msg = plain(&e);
        // (asking the reference takes long where data inflates: a sample)
        let ext = name.rsplit('.').next().unwrap_or("");
        rep.count(&format!("aborts on {ext}: {msg}"), 1);
        let every = match ext { "png" => 128, "gz" | "tgz" => 24, _ => 1 };
        if msg == "integer overflow" && k != 0 && hash_of(inp) % every != 0 {
            rep.count("aborted, not attributed (sampled)", 1);
            return;
        }
        let at = match format_faults(inp) {
            Ok(Some(f)) => f,
            Ok(None) => format!("{msg} (where the format is well-defined)"),
            Err(()) => {
                rep.count("aborted, not attributed (too long)", 1);
                return;
            }
        };
        rep.count(&format!("abort {at}"), 1);
        let file = rep.save(&format!("{:x}", hash_of(&at)), inp);
        rep.violation(&at, format!("{engine} decoding aborts on a variant of {name} ({} bytes, saved as {file}): {e}", inp.len()), json!({"input_file": file, "abort": e}));
    }
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    // the inputs of the findings on file
    let mut known: Vec<_> = std::fs::read_dir(format!("{}/findings", crate::ROOT)).map(|d| d.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    known.sort();
    for p in known.iter().filter(|p| p.file_name().unwrap().to_string_lossy().starts_with("C16-")) {
        let inp = std::fs::read(p).unwrap();
        for loc in [false, true] {
            one(rep, &p.to_string_lossy(), &inp, loc, 0);
        }
    }
    let files = corpus::files(rep.scale(60_000, 400_000) as u64);
    let per = rep.scale(220, 2_500);
    let split = 16;
    par(files.len() * split, |j| {
        let (s, part) = (&files[j / split], j % split);
        let mut rng = Rng::derive(rep.seed, 0xc16 + j as u64);
        let n = match s.data.len() {
            0..4_000 => per,
            4_000..20_000 => per / 4,
            _ => per / 16,
        };
        for k in 0..n / split {
            let inp = if k == 0 && part == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            let t0 = std::time::Instant::now();
            one(rep, &s.name, &inp, false, k);
            // building locations for what a small file inflates to can take minutes
            if k % 2 == 0 && s.data.len() <= 20_000 && t0.elapsed().as_millis() < 25 {
                one(rep, &s.name, &inp, true, k);
            }
        }
    });
    "one evaluation = one decode of a file or damaged variant; distinct = (file, engine, end position or error, size class of the largest memory request)"
}
