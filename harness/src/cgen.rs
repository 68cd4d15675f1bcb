//! Generating, compiling and driving the code that doodle generates.
use crate::ev::{ROOT, guarded};
use crate::rv::Rv;
use doodle::codegen::{ToFragment, generate_code};
use doodle::{Format, FormatModule};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};

/// Generated source of a module, its attributes and submodule lines removed; and the name of its entry function.
pub fn emit(m: &FormatModule, f: &Format) -> Result<(String, String), String> {
    let src = guarded(|| generate_code(m, f).to_fragment().to_string())?;
    prepare(&src)
}
/// The same for source text.
pub fn prepare(src: &str) -> Result<(String, String), String> {
    let body: String = src.lines().filter(|l| !l.starts_with("#![") && !l.starts_with("mod codegen_tests") && !l.starts_with("pub mod api_helper")).map(|l| format!("{l}\n")).collect();
    let mark = "/// d#0\n";
    let at = body.find(mark).ok_or("no entry function in the generated source")?;
    let rest = &body[at + mark.len()..];
    let fnp = rest.find("fn ").ok_or("no entry function")? + 3;
    let name: String = rest[fnp..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
    Ok((body, name))
}

pub struct Unit {
    pub id: usize,
    pub src: String,
    pub entry: String,
}

const HEAD: &str = "#![allow(warnings)]
use std::io::{BufRead, Write};
";
const MAIN: &str = r#"
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn work() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let (i, h) = l.split_once(' ').unwrap();
        let i: usize = i.parse().unwrap();
        let d = if let Some(p) = h.strip_prefix('@') { std::fs::read(p).unwrap() } else { unhex(h) };
        let r = std::panic::catch_unwind(|| run(i, &d));
        let mut o = out.lock();
        match r {
            Ok(Ok((s, n))) => writeln!(o, "ok {n} {s}"),
            Ok(Err(e)) => writeln!(o, "err {}", e.replace('\n', " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(o, "panic {}", m.replace('\n', " "))
            }
        }
        .unwrap();
        o.flush().unwrap();
    }
}
fn main() {
    std::thread::Builder::new().stack_size(256 << 20).spawn(work).unwrap().join().unwrap();
}
"#;

/// Builds driver programs for the units, in `chunks` crates. Returns per crate: path of the program, the units
/// in it; and the units whose generated code does not compile, with the compiler's message.
pub struct Built {
    pub bins: Vec<(String, Vec<usize>)>,
    pub broken: Vec<(usize, String)>,
}
pub fn build(id: &str, units: &[Unit], chunks: usize, opt: u32) -> Result<Built, String> {
    let dir = format!("{ROOT}/build/{id}");
    let _ = std::fs::remove_dir_all(&dir);
    let mut groups: Vec<Vec<usize>> = vec![vec![]; chunks];
    for (i, u) in units.iter().enumerate() {
        let _ = u;
        groups[i % chunks].push(i);
    }
    let mut broken: Vec<(usize, String)> = vec![];
    for round in 0..6 {
        let mut lines: Vec<Vec<(usize, usize)>> = vec![];
        let names: Vec<String> = (0..chunks).map(|c| format!("{}g{c}", id.to_lowercase())).collect();
        for c in 0..chunks {
            let d = format!("{dir}/{}", names[c]);
            std::fs::create_dir_all(format!("{d}/src")).map_err(|e| e.to_string())?;
            std::fs::write(format!("{d}/Cargo.toml"), format!("[package]\nname = \"{}\"\nversion = \"0.1.0\"\nedition = \"2024\"\n[dependencies]\ndoodle = {{ path = \"/repo\" }}\nlog = \"0.4\"\n", names[c])).map_err(|e| e.to_string())?;
            let mut s = HEAD.to_string();
            let mut ln = vec![];
            let mut arms = String::new();
            for &i in &groups[c] {
                if broken.iter().any(|b| b.0 == units[i].id) {
                    continue;
                }
                let at = s.matches('\n').count() + 1;
                let u = &units[i];
                s.push_str(&format!("mod m{} {{\n{}\npub fn verif_entry(d: &[u8]) -> Result<(String, u64), String> {{\nlet mut p = Parser::new(d);\nlet r = {}(&mut p);\nmatch r {{ Ok(v) => Ok((format!(\"{{v:?}}\"), p.get_offset_u64())), Err(e) => Err(format!(\"{{e:?}}\")) }}\n}}\n}}\n", u.id, u.src, u.entry));
                arms.push_str(&format!("{} => m{}::verif_entry(d),\n", u.id, u.id));
                ln.push((at, u.id));
            }
            s.push_str(&format!("fn run(i: usize, d: &[u8]) -> Result<(String, u64), String> {{\nmatch i {{\n{arms}_ => unreachable!() }}\n}}\n"));
            s.push_str(MAIN);
            ln.push((s.matches('\n').count() + 1, usize::MAX));
            std::fs::write(format!("{d}/src/main.rs"), s).map_err(|e| e.to_string())?;
            lines.push(ln);
        }
        let mut ws = format!("[workspace]\nresolver = \"3\"\nmembers = {names:?}\n[profile.dev]\nopt-level = 1\ndebug = \"line-tables-only\"\nincremental = false\ndebug-assertions = true\noverflow-checks = true\n");
        for n in &names {
            ws.push_str(&format!("[profile.dev.package.{n}]\nopt-level = {opt}\ndebug = false\n"));
        }
        std::fs::write(format!("{dir}/Cargo.toml"), ws).map_err(|e| e.to_string())?;
        if round == 0 {
            let _ = std::fs::copy(format!("{ROOT}/harness/Cargo.lock"), format!("{dir}/Cargo.lock"));
        }
        let tgt = format!("{ROOT}/target");
        let o = Command::new("cargo").env("CARGO_TARGET_DIR", &tgt).env("CARGO_NET_OFFLINE", "true").env("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu").env("RUSTFLAGS", "--cfg doodle_verif -Awarnings").args(["build", "-q", "--offline", "--keep-going", "--message-format", "short", "--manifest-path", &format!("{dir}/Cargo.toml")]).output().map_err(|e| e.to_string())?;
        if o.status.success() {
            let bins = (0..chunks).map(|c| (format!("{tgt}/debug/{}", names[c]), groups[c].iter().map(|i| units[*i].id).filter(|i| !broken.iter().any(|b| b.0 == *i)).collect())).collect();
            return Ok(Built { bins, broken });
        }
        let err = String::from_utf8_lossy(&o.stderr).to_string();
        let mut found = 0;
        for l in err.lines() {
            let Some(c) = (0..chunks).find(|c| l.contains(&format!("{}/src/main.rs:", names[*c]))) else { continue };
            if !l.contains("error") {
                continue;
            }
            let Some(n) = l.split("main.rs:").nth(1).and_then(|x| x.split(':').next()).and_then(|x| x.parse::<usize>().ok()) else { continue };
            let Some(k) = lines[c].iter().rposition(|x| x.0 <= n) else { continue };
            let u = lines[c][k].1;
            if u != usize::MAX && !broken.iter().any(|b| b.0 == u) {
                broken.push((u, l.to_string()));
                found += 1;
            }
        }
        if found == 0 {
            return Err(format!("the generated crates do not build: {}", err.chars().take(3000).collect::<String>()));
        }
    }
    Err("generated code still does not build after six rounds".into())
}

/// a running driver
pub struct Driver {
    bin: String,
    child: std::process::Child,
    rd: BufReader<std::process::ChildStdout>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Ran {
    Ok(String, usize),
    Err(String),
    Panic(String),
    /// the process died
    Died(String),
}
impl Ran {
    pub fn tag(&self) -> &'static str {
        match self {
            Ran::Ok(..) => "ok",
            Ran::Err(_) => "reject",
            Ran::Panic(_) => "panic",
            Ran::Died(_) => "died",
        }
    }
}
impl Driver {
    pub fn start(bin: &str) -> Driver {
        let mut child = Command::new("bash").args(["-c", "ulimit -v 6000000; exec \"$0\"", bin]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("driver starts");
        let rd = BufReader::new(child.stdout.take().unwrap());
        Driver { bin: bin.into(), child, rd }
    }
    pub fn run(&mut self, unit: usize, d: &[u8]) -> Ran {
        let mut s = format!("{unit} ");
        for b in d {
            s.push_str(&format!("{b:02x}"));
        }
        self.ask(s)
    }
    fn ask(&mut self, mut s: String) -> Ran {
        s.push('\n');
        let sent = self.child.stdin.as_mut().unwrap().write_all(s.as_bytes());
        let mut l = String::new();
        let got = self.rd.read_line(&mut l);
        if sent.is_err() || got.is_err() || !l.ends_with('\n') {
            let st = self.child.wait().map(|s| s.to_string()).unwrap_or_default();
            let b = self.bin.clone();
            *self = Driver::start(&b);
            return Ran::Died(st);
        }
        let l = l.trim_end_matches('\n');
        let (t, r) = l.split_once(' ').unwrap_or((l, ""));
        match t {
            "ok" => {
                let (n, v) = r.split_once(' ').unwrap_or((r, ""));
                Ran::Ok(v.into(), n.parse().unwrap_or(usize::MAX))
            }
            "err" => Ran::Err(r.into()),
            _ => Ran::Panic(r.into()),
        }
    }
}
impl Drop for Driver {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// parsed `Debug` output
#[derive(Debug, Clone, PartialEq)]
pub enum Dbg {
    Num(i128),
    Chr(char),
    Str(String),
    List(Vec<Dbg>),
    Tup(Vec<Dbg>),
    /// Name, Name(..)
    Call(String, Vec<Dbg>),
    /// Name { f: .. }
    Struct(String, Vec<(String, Dbg)>),
}
pub struct DP<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> DP<'a> {
    pub fn parse(s: &'a str) -> Result<Dbg, String> {
        let mut p = DP { s: s.as_bytes(), i: 0 };
        let v = p.val()?;
        p.ws();
        if p.i != p.s.len() { Err(format!("trailing text at {} of {s}", p.i)) } else { Ok(v) }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i] == b' ' {
            self.i += 1;
        }
    }
    fn pk(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn list(&mut self, close: u8) -> Result<Vec<Dbg>, String> {
        self.i += 1;
        let mut v = vec![];
        loop {
            if self.pk() == close {
                self.i += 1;
                return Ok(v);
            }
            v.push(self.val()?);
            match self.pk() {
                b',' => self.i += 1,
                c if c == close => {}
                c => return Err(format!("unexpected {} at {}", c as char, self.i)),
            }
        }
    }
    fn ident(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'#' | b':') || self.s[self.i] >= 128) {
            if self.s[self.i] == b':' && self.s.get(self.i + 1) != Some(&b':') && (self.i == 0 || self.s[self.i - 1] != b':') {
                break;
            }
            self.i += 1;
        }
        // generic arguments
        if self.s.get(self.i) == Some(&b'<') {
            let mut d = 0;
            while self.i < self.s.len() {
                match self.s[self.i] {
                    b'<' => d += 1,
                    b'>' => d -= 1,
                    _ => {}
                }
                self.i += 1;
                if d == 0 {
                    break;
                }
            }
        }
        String::from_utf8_lossy(&self.s[st..self.i]).to_string()
    }
    fn val(&mut self) -> Result<Dbg, String> {
        match self.pk() {
            b'[' => Ok(Dbg::List(self.list(b']')?)),
            b'(' => Ok(Dbg::Tup(self.list(b')')?)),
            b'-' | b'0'..=b'9' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map(Dbg::Num).map_err(|e| e.to_string())
            }
            q @ (b'\'' | b'"') => {
                let txt = std::str::from_utf8(&self.s[self.i + 1..]).map_err(|e| e.to_string())?;
                let mut it = txt.char_indices();
                let mut out = String::new();
                while let Some((k, c)) = it.next() {
                    match c {
                        c if c as u32 == q as u32 => {
                            self.i += 1 + k + 1;
                            return Ok(if q == b'"' { Dbg::Str(out) } else { Dbg::Chr(out.chars().next().ok_or("empty char")?) });
                        }
                        '\\' => match it.next().ok_or("bad escape")?.1 {
                            'n' => out.push('\n'),
                            'r' => out.push('\r'),
                            't' => out.push('\t'),
                            '0' => out.push('\0'),
                            'u' => {
                                let mut h = String::new();
                                it.next();
                                for (_, c) in it.by_ref() {
                                    if c == '}' {
                                        break;
                                    }
                                    h.push(c);
                                }
                                out.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("bad escape")?);
                            }
                            c => out.push(c),
                        },
                        c => out.push(c),
                    }
                }
                Err("unterminated".into())
            }
            c if c.is_ascii_alphabetic() || c == b'_' => {
                let n = self.ident();
                // `Name(` and `Name {` only
                if self.s.get(self.i) == Some(&b'(') {
                    return Ok(Dbg::Call(n, self.list(b')')?));
                }
                if self.s.get(self.i) == Some(&b' ') && self.s.get(self.i + 1) == Some(&b'{') {
                    self.i += 2;
                    let mut fs = vec![];
                    loop {
                        if self.pk() == b'}' {
                            self.i += 1;
                            return Ok(Dbg::Struct(n, fs));
                        }
                        if self.pk() == b'.' {
                            self.i += 2;
                            continue;
                        }
                        let f = self.ident();
                        if self.pk() != b':' {
                            return Err(format!("expected : at {}", self.i));
                        }
                        self.i += 1;
                        let v = self.val()?;
                        fs.push((f, v));
                        if self.pk() == b',' {
                            self.i += 1;
                        }
                    }
                }
                Ok(Dbg::Call(n, vec![]))
            }
            c => Err(format!("unexpected {:?} at {}", c as char, self.i)),
        }
    }
}

fn plain(l: &str) -> String {
    // names are adapted to Rust identifiers
    l.trim_start_matches("r#").chars().map(|c| if c.is_alphanumeric() { c } else { '_' }).collect::<String>().trim_matches('_').to_lowercase()
}

/// does the generated parser's result show the same content as the interpreter's value
pub fn same(v: &Rv, d: &Dbg) -> bool {
    match (v, d) {
        (Rv::Bool(b), Dbg::Call(n, a)) => a.is_empty() && n == if *b { "true" } else { "false" },
        (Rv::Char(c), Dbg::Chr(e)) => c == e,
        (Rv::Num(n, _), Dbg::Num(k)) => n == &num_bigint::BigInt::from(*k),
        (v, Dbg::Num(k)) if v.num().is_some() => v.num().unwrap() as i128 == *k,
        (Rv::Phantom, Dbg::Call(n, _)) => n.starts_with("PhantomData"),
        (Rv::Phantom, Dbg::Tup(t)) => t.is_empty(),
        (Rv::View(_), Dbg::Struct(n, _)) => n == "View",
        (Rv::Seq(vs), Dbg::List(ds)) => vs.len() == ds.len() && vs.iter().zip(ds).all(|(v, d)| same(v, d)),
        // zero-copy arrays
        (Rv::Seq(_), Dbg::Struct(n, fs)) if n == "ReadArray" => fs.iter().any(|(_, d)| same(v, d)),
        (Rv::Tuple(vs), Dbg::Tup(ds)) => vs.len() == ds.len() && vs.iter().zip(ds).all(|(v, d)| same(v, d)),
        (Rv::Opt(None), Dbg::Call(n, a)) => n == "None" && a.is_empty(),
        (Rv::Opt(Some(v)), Dbg::Call(n, a)) => n == "Some" && a.len() == 1 && same(v, &a[0]),
        (Rv::Rec(fs), Dbg::Struct(_, ds)) => fields(fs, ds),
        (Rv::Rec(fs), Dbg::Call(_, a)) => fs.is_empty() && a.is_empty(),
        (Rv::Var(l, v), Dbg::Call(n, a)) => {
            plain(l) == plain(n)
                && match (&**v, a.as_slice()) {
                    (Rv::Tuple(t), []) => t.is_empty(),
                    (v, [d]) if same(v, d) => true,
                    (Rv::Tuple(t), ds) => t.len() == ds.len() && t.iter().zip(ds).all(|(v, d)| same(v, d)),
                    _ => false,
                }
        }
        (Rv::Var(l, v), Dbg::Struct(n, ds)) => plain(l) == plain(n) && matches!(&**v, Rv::Rec(fs) if fields(fs, ds)),
        _ => false,
    }
}
fn fields(fs: &[(String, Rv)], ds: &[(String, Dbg)]) -> bool {
    fs.len() == ds.len() && fs.iter().zip(ds).all(|((l, v), (k, d))| plain(l) == plain(k) && same(v, d))
}
