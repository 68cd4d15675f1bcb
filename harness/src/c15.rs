//! C15: memory safety and exactness of the zero-copy readers. The workload (memsafe/) is built and run three
//! times: plainly with many histories, under AddressSanitizer, and under Miri.
use crate::ev::{Report, par};
use serde_json::json;
use std::process::Command;

fn cargo(dir: &str, sub: &[&str], flags: &str) -> Command {
    let mut c = Command::new("cargo");
    c.args(sub)
        .current_dir(format!("{}/memsafe", crate::ROOT))
        .env("RUSTUP_TOOLCHAIN", "nightly")
        .env("CARGO_NET_OFFLINE", "true")
        .env("CARGO_TARGET_DIR", format!("{}/target/{dir}", crate::ROOT))
        .env("RUSTFLAGS", flags)
        .env("MIRIFLAGS", "-Zmiri-disable-isolation")
        .env_remove("CARGO_ENCODED_RUSTFLAGS");
    c
}

fn judge(rep: &Report, how: &str, seed: u64, n: u64, mut c: Command) -> (u64, u64) {
    let out = c.env("ASAN_OPTIONS", "detect_leaks=0").output().expect("run");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    if let (true, Some(l)) = (out.status.success(), text.lines().find(|l| l.starts_with("EVALS "))) {
        let mut w = l.split(' ').filter_map(|x| x.parse::<u64>().ok());
        return (w.next().unwrap_or(0), w.next().unwrap_or(0));
    }
    let bad = text.lines().find(|l| l.starts_with("BAD ")).map(String::from).or_else(|| err.lines().find(|l| l.contains("error: Undefined") || l.contains("ERROR: Address") || l.contains("panicked") || l.contains("unsafe precondition")).map(String::from));
    match bad {
        Some(b) => {
            let at: String = err.lines().skip_while(|l| !l.contains("panicked") && !l.contains("ERROR") && !l.contains("error")).take(12).collect::<Vec<_>>().join("\n");
            rep.violation(how, format!("{how}, seed {seed}: {}", b.chars().take(900).collect::<String>()), json!({"run": format!("memsafe {seed} {n} under {how}"), "output": b, "stderr": at}));
        }
        None => {
            use std::os::unix::process::ExitStatusExt;
            if out.status.signal().is_some_and(|s| [4, 6, 7, 11].contains(&s)) {
                rep.violation(how, format!("{how}, seed {seed}: the process dies with signal {:?}", out.status.signal()), json!({"run": format!("memsafe {seed} {n} under {how}"), "stderr": err.chars().take(4000).collect::<String>()}));
            } else {
                panic!("{how} run failed without a verdict: {:?}\n{}", out.status, err.chars().rev().take(1500).collect::<String>().chars().rev().collect::<String>());
            }
        }
    }
    (0, 0)
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(3600);
    // builds: 0 plain, 1 AddressSanitizer, 2 Miri (a run of no histories)
    par(3, |i| {
        let mut c = match i {
            0 => cargo("memsafe", &["build", "--offline", "-q"], "-Awarnings"),
            1 => cargo("memsafe-asan", &["build", "--offline", "-q", "--target", "x86_64-unknown-linux-gnu"], "-Awarnings -Zsanitizer=address"),
            _ => cargo("memsafe-miri", &["miri", "run", "--offline", "-q", "--", "1", "0"], "-Awarnings"),
        };
        let out = c.output().expect("cargo");
        if !out.status.success() {
            panic!("building the workload failed: {}", String::from_utf8_lossy(&out.stderr).chars().take(3000).collect::<String>());
        }
    });
    let (plain, asan, miri) = (rep.scale(25_000, 1_500_000) as u64, rep.scale(6_000, 400_000) as u64, rep.scale(40, 3_000) as u64);
    par(24, |i| {
        let seed = rep.seed * 1000 + (i % 8) as u64;
        let (how, n, c) = match i / 8 {
            0 => {
                let mut c = cargo("memsafe-miri", &["miri", "run", "--offline", "-q", "--"], "-Awarnings");
                c.args([seed.to_string(), miri.to_string()]);
                ("Miri", miri, c)
            }
            1 => {
                let mut c = Command::new(format!("{}/target/memsafe/debug/memsafe", crate::ROOT));
                c.args([(seed + 100).to_string(), plain.to_string()]);
                ("plain", plain, c)
            }
            _ => {
                let mut c = Command::new(format!("{}/target/memsafe-asan/x86_64-unknown-linux-gnu/debug/memsafe", crate::ROOT));
                c.args([(seed + 200).to_string(), asan.to_string()]);
                ("AddressSanitizer", asan, c)
            }
        };
        let (e, k) = judge(rep, how, seed + 100 * [0, 1, 2][i / 8], n, c);
        rep.eval(e);
        rep.count(&format!("{how}: accesses compared"), e);
        rep.count(&format!("{how}: histories"), n);
        for j in 0..k {
            rep.sig(&j);
        }
    });
    "one evaluation = one result of a zero-copy access compared with plain indexing of the buffer, under one of three watchers (Miri, AddressSanitizer, debug assertions); distinct = kinds of operation, element type and nesting (largest number in one run)"
}
