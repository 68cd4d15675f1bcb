//! Evidence, violation reporting, known findings, panic capture and a hang watchdog.
use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Mutex, atomic::{AtomicU64, Ordering}};
use std::time::{Duration, Instant};

use serde_json::{Value as J, json};

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST: Cell<Option<String>> = const { Cell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        if QUIET.with(|q| q.get()) {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "?".into());
            LAST.with(|l| l.set(Some(format!("{loc}: {}", &msg.chars().take(300).collect::<String>()))));
        } else {
            old(info)
        }
    }));
}

/// Runs `f`, turning a panic into Err(message with source location).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(prev));
    r.map_err(|_| LAST.with(|l| l.take()).unwrap_or_else(|| "panic".into()))
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

pub struct Violation {
    pub key: String,
    pub what: String,
    pub replay: J,
}

#[derive(Default)]
struct Inner {
    evals: u64,
    sigs: HashSet<u64>,
    counters: BTreeMap<String, u64>,
    samples: Vec<J>,
    violations: Vec<Violation>,
    known: Vec<(String, String)>,
}

#[derive(Clone)]
pub struct Report {
    pub id: &'static str,
    pub tier: String,
    pub seed: u64,
    pub start: Instant,
    inner: Arc<Mutex<Inner>>,
    known_keys: Arc<Vec<(String, String)>>,
    watch: Arc<Mutex<BTreeMap<u64, (Instant, String)>>>,
    watch_id: Arc<AtomicU64>,
}

pub const ROOT: &str = "/verif";

impl Report {
    pub fn new(id: &'static str, tier: &str, seed: u64) -> Self {
        let mut known = Vec::new();
        if let Ok(txt) = std::fs::read_to_string(format!("{ROOT}/known_findings.json")) {
            if let Ok(J::Array(a)) = serde_json::from_str::<J>(&txt) {
                for e in a {
                    if e["status"] == "open" && e["property"] == id {
                        known.push((e["key"].as_str().unwrap_or("").to_string(), e["what"].as_str().unwrap_or("").to_string()));
                    }
                }
            }
        }
        Report {
            id,
            tier: tier.into(),
            seed,
            start: Instant::now(),
            inner: Default::default(),
            known_keys: Arc::new(known),
            watch: Default::default(),
            watch_id: Default::default(),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == "thorough"
    }
    /// number of cases: quick value, or thorough value
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough() { thorough } else { quick }
    }
    pub fn eval(&self, n: u64) {
        self.inner.lock().unwrap().evals += n;
    }
    pub fn sig<T: Hash + ?Sized>(&self, t: &T) {
        let h = hash_of(t);
        self.inner.lock().unwrap().sigs.insert(h);
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.inner.lock().unwrap().counters.entry(name.to_string()).or_default() += n;
    }
    pub fn get(&self, name: &str) -> u64 {
        self.inner.lock().unwrap().counters.get(name).copied().unwrap_or(0)
    }
    pub fn sample(&self, s: J) {
        let mut i = self.inner.lock().unwrap();
        if i.samples.len() < 12 {
            i.samples.push(s);
        }
    }
    /// keep an input beside the evidence
    pub fn save(&self, name: &str, data: &[u8]) -> String {
        let dir = format!("{ROOT}/evidence/replay");
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{dir}/{}-{name}.bin", self.id);
        let _ = std::fs::write(&p, data);
        p
    }
    pub fn nviol(&self) -> usize {
        self.inner.lock().unwrap().violations.len()
    }
    /// key identifies the finding (call site / history), for known findings.
    pub fn violation(&self, key: &str, what: impl Into<String>, replay: J) {
        let what = what.into();
        let mut i = self.inner.lock().unwrap();
        if let Some((k, w)) = self.known_keys.iter().find(|(k, _)| k == key) {
            if !i.known.iter().any(|(k2, _)| k2 == k) {
                i.known.push((k.clone(), w.clone()));
            }
            return;
        }
        if i.violations.len() < 40 && i.violations.iter().filter(|v| v.key == key).count() < 2 {
            i.violations.push(Violation { key: key.into(), what, replay });
        }
    }
    /// Watchdog registration: the closure must finish within `secs`.
    pub fn watched<T>(&self, label: impl FnOnce() -> String, f: impl FnOnce() -> T) -> T {
        let id = self.watch_id.fetch_add(1, Ordering::Relaxed);
        self.watch.lock().unwrap().insert(id, (Instant::now(), label()));
        let r = f();
        self.watch.lock().unwrap().remove(&id);
        r
    }
    pub fn start_watchdog(&self, secs: u64) {
        let me = self.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let rss = std::fs::read_to_string("/proc/self/statm").ok().and_then(|t| t.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096;
            if rss > 14 << 30 {
                let mut w: Vec<String> = me.watch.lock().unwrap().values().map(|(t, l)| format!("{:.1}s {l}", t.elapsed().as_secs_f64())).collect();
                w.sort();
                eprintln!("memory limit of the monitor reached ({} MB) while running:\n{}", rss >> 20, w.join("\n"));
                std::process::exit(3);
            }
            let stuck = me.watch.lock().unwrap().values().find(|(t, _)| t.elapsed() > Duration::from_secs(secs)).map(|x| x.1.clone());
            if let Some(l) = stuck {
                me.violation("hang", format!("no answer within {secs}s: {l}"), json!({"hang": l}));
                let c = me.finish("");
                std::process::exit(c);
            }
        });
    }
    pub fn finish(&self, rule: &str) -> i32 {
        let i = self.inner.lock().unwrap();
        let dir = format!("{ROOT}/evidence");
        let _ = std::fs::create_dir_all(format!("{dir}/replay"));
        let mut rep = Vec::new();
        for (n, v) in i.violations.iter().enumerate() {
            let path = format!("{dir}/replay/{}-{n}.json", self.id);
            let body = json!({"property": self.id, "key": v.key, "what": v.what, "seed": self.seed, "replay": v.replay});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
            if n < 12 {
                println!("VIOLATION property={} replay={path}", self.id);
                println!("  {}", v.what.chars().take(1500).collect::<String>());
            }
            rep.push(json!({"replay": path, "what": v.what.chars().take(600).collect::<String>()}));
        }
        for (k, w) in &i.known {
            println!("KNOWN-FINDING: property={} {} [{}]", self.id, w, k);
        }
        let mut samples = i.samples.clone();
        samples.push(json!({"counters": i.counters}));
        let ev = json!({
            "property": self.id,
            "tier": self.tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": i.evals,
                "distinct_nontrivial": i.sigs.len(),
                "rule": rule,
                "samples": samples,
            },
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": i.violations.len(),
            "violation_list": rep,
            "known_findings_seen": i.known.iter().map(|k| k.0.clone()).collect::<Vec<_>>(),
        });
        let _ = std::fs::write(format!("{dir}/{}.json", self.id), serde_json::to_string_pretty(&ev).unwrap());
        eprintln!("{} {}: {} evaluations, {} distinct, {} violations, {:.1}s; {:?}", self.id, self.tier, i.evals, i.sigs.len(), i.violations.len(), self.start.elapsed().as_secs_f64(), i.counters);
        if i.violations.is_empty() { 0 } else { 1 }
    }
}

/// Runs `n` cases over worker threads with large stacks; case index -> closure.
pub fn par(n: usize, f: impl Fn(usize) + Send + Sync) {
    let next = std::sync::atomic::AtomicUsize::new(0);
    let nt = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(8).min(8);
    std::thread::scope(|s| {
        for _ in 0..nt {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        break;
                    }
                    f(i);
                })
                .unwrap();
        }
    });
}
