//! Runtime monitors for yeslogic/doodle. Usage: dvh run <ID> <quick|thorough>   (see /verif/DESIGN.md)
mod ev;
mod rng;
mod c01;
mod eng;
mod fgen;
mod look;
mod refint;
mod rv;
mod c02;
mod c03;
mod c04;
mod c13;
mod c14;
mod c15;
mod c16;
mod c05;
mod c05core;
mod cgen;
mod c06;
mod c07;
mod c08;
mod c09;
mod c17;
mod c18;
mod c19;
mod c10;
mod c11;
mod corpus;
mod c12;
mod numref;

use ev::{ROOT, Report};

/// The system allocator, remembering the largest single request of each thread.
struct Watched;
thread_local! { static LARGEST: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
unsafe impl std::alloc::GlobalAlloc for Watched {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        note(l.size());
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        note(n);
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
fn note(n: usize) {
    let _ = LARGEST.try_with(|c| {
        if n > c.get() {
            c.set(n)
        }
    });
}
/// largest single allocation request of this thread since the last call
pub fn largest_request() -> usize {
    LARGEST.with(|c| c.replace(0))
}
#[global_allocator]
static ALLOC: Watched = Watched;


type Check = fn(&Report) -> &'static str;

const CHECKS: &[(&str, Check)] = &[("C01", c01::run), ("C02", c02::run), ("C03", c03::run), ("C04", c04::run), ("C05", c05::run), ("C06", c06::run), ("C07", c07::run), ("C08", c08::run), ("C09", c09::run), ("C10", c10::run), ("C11", c11::run), ("C12", c12::run), ("C13", c13::run), ("C14", c14::run), ("C15", c15::run), ("C16", c16::run), ("C17", c17::run), ("C18", c18::run), ("C19", c19::run)];

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => supervise(&a[2], a.get(3).map(|s| s.as_str()).unwrap_or("quick"), seed),
        Some("child") => {
            ev::install_panic_hook();
            let (id, f) = *CHECKS.iter().find(|c| c.0 == a[2]).expect("unknown check");
            let rep = Report::new(id, &a[3], seed);
            let r2 = rep.clone();
            let rule = std::thread::Builder::new().stack_size(512 << 20).spawn(move || f(&r2)).unwrap().join();
            let rule = match rule {
                Ok(r) => r,
                Err(_) => {
                    eprintln!("harness error in {id}");
                    std::process::exit(2)
                }
            };
            let c = rep.finish(rule);
            std::process::exit(c)
        }
        Some("det") => {
            ev::install_panic_hook();
            let (s, o, t) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].clone());
            let _ = std::thread::Builder::new().stack_size(512 << 20).spawn(move || c06::det(s, o, &t)).unwrap().join();
        }
        _ => {
            eprintln!("usage: dvh run <ID> <tier>");
            std::process::exit(2)
        }
    }
}

/// Runs the check in a child process: a child that dies of SIGSEGV, SIGABRT, SIGBUS or SIGILL while it
/// executes the code under test is a violation (memory error, stack overflow, abort); anything else
/// (SIGKILL by the memory limit, exit code >= 2) is an inconclusive run, never a violation.
fn supervise(id: &str, tier: &str, seed: u64) -> ! {
    use std::os::unix::process::ExitStatusExt;
    let exe = std::env::current_exe().unwrap();
    let mut n = 0;
    let _ = std::fs::remove_file(format!("{ROOT}/evidence/{id}.json"));
    loop {
        n += 1;
        let st = std::process::Command::new(&exe).args(["child", id, tier]).status().expect("spawn");
        if let Some(c) = st.code() {
            std::process::exit(c)
        }
        let sig = st.signal().unwrap_or(0);
        if matches!(sig, 4 | 6 | 7 | 8 | 11) {
            let rep = Report::new(leak(id), tier, seed);
            let last = std::fs::read_to_string(format!("{ROOT}/evidence/last-{id}.txt")).unwrap_or_default();
            rep.eval(1);
            rep.violation("crash", format!("process executing the code died with signal {sig}"), serde_json::json!({"signal": sig, "last_case": last}));
            std::process::exit(rep.finish("run ended by a fatal signal"))
        }
        if n >= 2 {
            eprintln!("{id}: child ended by signal {sig}; inconclusive");
            std::process::exit(2)
        }
    }
}

fn leak(s: &str) -> &'static str {
    Box::leak(s.to_string().into_boxed_str())
}
