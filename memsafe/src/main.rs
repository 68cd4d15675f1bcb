//! C15: histories of calls on the zero-copy readers, each result compared with plain indexing of the buffer.
//! Run natively, under AddressSanitizer and under Miri, which watch for reads outside the buffer and other
//! undefined behaviour. Usage: memsafe SEED HISTORIES
use smallsorts::binary::read::*;
use smallsorts::binary::*;
use std::collections::HashSet;
use std::fmt::Debug;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb);
        z ^ z >> 31
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    /// sizes and indices around a limit, and huge ones
    fn size(&mut self, n: usize) -> usize {
        match self.below(14) {
            0 => n,
            1 => n + 1,
            2 => n.saturating_sub(1),
            3 => usize::MAX - self.below(3),
            4 => usize::MAX / 2 + self.below(3),
            5 => usize::MAX / [2, 3, 4, 5, 8, 9][self.below(6)] + self.below(3),
            6 => 0,
            _ => self.below(n + 2),
        }
    }
}

/// element types and the value their bytes stand for
trait Elem: ReadUnchecked<HostType: PartialEq + Debug + Copy + Ord> {
    fn model(b: &[u8]) -> Self::HostType;
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
macro_rules! elems { ($($t:ident $h:ty, $n:expr;)*) => { $(impl Elem for $t { fn model(b: &[u8]) -> $h { assert_eq!(b.len(), $n); be(b) as $h } })* } }
elems! { U8 u8, 1; I8 i8, 1; U16Be u16, 2; I16Be i16, 2; U24Be u32, 3; U32Be u32, 4; I32Be i32, 4; U64Be u64, 8; I64Be i64, 8; }
type P2 = (U8, U16Be);
type P3 = (U16Be, U24Be, I8);
type P4 = (U8, I32Be, U8, I16Be);
impl Elem for P2 {
    fn model(b: &[u8]) -> (u8, u16) {
        (b[0], be(&b[1..3]) as u16)
    }
}
impl Elem for P3 {
    fn model(b: &[u8]) -> (u16, u32, i8) {
        (be(&b[..2]) as u16, be(&b[2..5]) as u32, b[5] as i8)
    }
}
impl Elem for P4 {
    fn model(b: &[u8]) -> (u8, i32, u8, i16) {
        (b[0], be(&b[1..5]) as i32, b[5], be(&b[6..8]) as i16)
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Made(u16, u64);
impl ReadFrom for Made {
    type ReadType = (U16Be, U64Be);
    fn read_from((a, b): (u16, u64)) -> Self {
        Made(a, b)
    }
}
impl Elem for Made {
    fn model(b: &[u8]) -> Made {
        Made(be(&b[..2]) as u16, be(&b[2..10]))
    }
}

struct Run {
    rng: Rng,
    evals: u64,
    kinds: HashSet<u64>,
    log: Vec<String>,
    trace: bool,
}
macro_rules! same {
    ($r:expr, $what:expr, $got:expr, $want:expr) => {{
        let (g, w) = ($got, $want);
        $r.evals += 1;
        if g != w {
            bad($r, format!("{}: got {g:?}, expected {w:?}", $what));
        }
    }};
}
fn bad(r: &Run, what: String) -> ! {
    println!("BAD {what}; after: {}", r.log.join("; "));
    std::process::exit(7);
}
impl Run {
    fn note(&mut self, s: String) {
        if self.trace {
            eprintln!("{s}");
        }
        self.log.push(s);
    }
    fn kind(&mut self, a: u64, b: u64, c: u64) {
        self.kinds.insert(a << 32 | b << 16 | c);
    }
}

fn array<T: Elem>(r: &mut Run, a: ReadArray<'_, T>, items: &[T::HostType]) {
    let n = items.len();
    same!(r, "array length", a.len(), n);
    same!(r, "array emptiness", a.is_empty(), n == 0);
    for _ in 0..3 {
        let i = r.rng.size(n);
        r.note(format!("item {i}"));
        same!(r, format!("item {i}"), a.get_item(i), items.get(i).copied());
        same!(r, format!("reading item {i}"), a.read_item(i).ok(), items.get(i).copied());
        same!(r, format!("index {i}"), a.check_index(i).is_ok(), i < n);
    }
    same!(r, "last item", a.last(), items.last().copied());
    same!(r, "all items", a.to_vec(), items.to_vec());
    same!(r, "all items read", a.read_to_vec().ok(), Some(items.to_vec()));
    r.note("iterate".into());
    let mut it = a.iter();
    let mut k = 0;
    loop {
        same!(r, format!("length left to iterate after {k} of {n}"), it.size_hint(), (n - k, Some(n - k)));
        same!(r, format!("length left to iterate after {k} of {n}"), it.len(), n - k);
        let x = it.next();
        same!(r, format!("iterating: item {k}"), x, items.get(k).copied());
        if x.is_none() {
            break;
        }
        k += 1;
    }
    same!(r, "iterating past the end", it.next(), None);
    let mut it = a.iter_res();
    for k in 0..=n {
        same!(r, format!("results left after {k} of {n}"), it.size_hint(), (n - k, Some(n - k)));
        same!(r, format!("result {k}"), it.next().map(|x| x.ok()), items.get(k).map(|x| Some(*x)));
    }
    let mut seen = vec![];
    for x in &a {
        seen.push(x);
    }
    same!(r, "for loop", &seen[..], items);
    same!(r, "debug output", format!("{a:?}"), format!("{items:?}"));
    let b = a;
    same!(r, "copy", b.to_vec(), items.to_vec());
    // searching
    r.note("search".into());
    let key = if n > 0 && r.rng.below(2) == 0 { items[r.rng.below(n)] } else { T::model(&(0..T::SIZE).map(|_| r.rng.next() as u8).collect::<Vec<_>>()) };
    let mut probes = 0;
    let found = a.binary_search_by(|x| {
        probes += 1;
        x.cmp(&key)
    });
    if probes > 70 {
        bad(r, format!("{probes} probes to search {n} items"));
    }
    if items.is_sorted() {
        match found {
            Ok(i) => same!(r, "searching", items.get(i).copied(), Some(key)),
            Err(i) => same!(r, format!("searching: place {i}"), i <= n && items[..i].iter().all(|x| *x < key) && items[i..].iter().all(|x| *x > key), true),
        }
    } else {
        match found {
            Ok(i) => same!(r, "searching", items.get(i).copied(), Some(key)),
            Err(i) => same!(r, "searching: place in range", i <= n, true),
        }
    }
    for cow in [ReadArrayCow::Borrowed(a), ReadArrayCow::Owned(items.to_vec())] {
        let cow: ReadArrayCow<'_, T> = cow;
        same!(r, "cow length", (cow.len(), cow.is_empty()), (n, n == 0));
        let i = r.rng.size(n);
        same!(r, format!("cow item {i}"), (cow.get_item(i), cow.read_item(i).ok(), cow.check_index(i).is_ok()), (items.get(i).copied(), items.get(i).copied(), i < n));
        let mut it = cow.iter();
        for k in 0..=n {
            same!(r, format!("cow: left after {k} of {n}"), it.size_hint(), (n - k, Some(n - k)));
            same!(r, format!("cow: iterating {k}"), it.next(), items.get(k).copied());
        }
        same!(r, "cow: for loop", (&cow).into_iter().collect::<Vec<_>>(), items.to_vec());
        same!(r, "cow: debug output", format!("{cow:?}"), format!("{items:?}"));
    }
}

fn items<T: Elem>(b: &[u8], n: usize, stride: usize) -> Option<Vec<T::HostType>> {
    let total = n.checked_mul(stride)?;
    let b = b.get(..total)?;
    Some((0..n).map(|i| T::model(&b[i * stride..i * stride + T::SIZE])).collect())
}

/// one operation with element type T on a context whose unread bytes are `rest`; how many bytes it takes
fn typed<T: Elem>(r: &mut Run, c: &mut ReadCtxt<'_>, rest: &[u8], ty: u64) -> usize {
    let fit = rest.len() / T::SIZE;
    let k = r.rng.below(5);
    r.kind(1, ty, k as u64);
    match k {
        0 => {
            r.note(format!("read one of type {ty}"));
            let want = rest.get(..T::SIZE).map(T::model);
            same!(r, "one element", c.read::<T>().ok(), want);
            same!(r, "one element of the rest", c.scope().read::<T>().is_ok(), rest.get(if want.is_some() { T::SIZE } else { 0 }..).is_some_and(|x| x.len() >= T::SIZE));
            if want.is_some() { T::SIZE } else { 0 }
        }
        1 | 2 => {
            let n = r.rng.size(fit);
            r.note(format!("array of {n} of type {ty}"));
            let want = items::<T>(rest, n, T::SIZE);
            let got = if k == 1 { c.read_array::<T>(n) } else { c.read_array_dep::<T>(n, ()) };
            same!(r, format!("an array of {n}"), got.is_ok(), want.is_some());
            let (Ok(a), Some(w)) = (got, want) else { return 0 };
            array::<T>(r, a, &w);
            n * T::SIZE
        }
        3 => {
            let stride = match r.rng.below(6) {
                0 => r.rng.size(rest.len()),
                x => T::SIZE + x - 1,
            };
            let n = r.rng.size(if stride == 0 { 3 } else { rest.len() / stride });
            r.note(format!("array of {n} of type {ty} with stride {stride}"));
            let want = if stride < T::SIZE { None } else { items::<T>(rest, n, stride) };
            let got = c.read_array_stride::<T>(n, stride);
            same!(r, format!("an array of {n} with stride {stride}"), got.is_ok(), want.is_some());
            let (Ok(a), Some(w)) = (got, want) else { return 0 };
            array::<T>(r, a, &w);
            n * stride
        }
        _ => {
            let n = r.rng.size(fit);
            r.note(format!("array of up to {n} of type {ty}"));
            let m = n.min(fit);
            let got = c.read_array_upto_hack::<T>(n);
            same!(r, format!("an array of up to {n}"), got.is_ok(), true);
            array::<T>(r, got.unwrap(), &items::<T>(rest, m, T::SIZE).unwrap());
            m * T::SIZE
        }
    }
}

fn empties(r: &mut Run) {
    array::<U16Be>(r, ReadArray::empty(), &[]);
    array::<P3>(r, ReadArray::empty(), &[]);
}

fn history(r: &mut Run, top: ReadScope<'_>, buf: &[u8], steps: usize, depth: usize) {
    let mut c = top.ctxt();
    let mut at = 0;
    same!(r, "scope data", top.data(), buf);
    for _ in 0..steps {
        let rest = &buf[at..];
        let k = r.rng.below(24);
        r.kind(0, k as u64, depth as u64);
        macro_rules! prim {
            ($f:ident, $t:ty, $n:expr) => {{
                r.note(stringify!($f).into());
                let want = rest.get(..$n).map(|b| be(b) as $t);
                same!(r, stringify!($f), c.$f().ok(), want);
                if want.is_some() {
                    at += $n;
                }
            }};
        }
        match k {
            0 => prim!(read_u8, u8, 1),
            1 => prim!(read_i8, i8, 1),
            2 => prim!(read_u16be, u16, 2),
            3 => prim!(read_i16be, i16, 2),
            4 => prim!(read_u32be, u32, 4),
            5 => prim!(read_i32be, i32, 4),
            6 => prim!(read_u64be, u64, 8),
            7 => prim!(read_i64be, i64, 8),
            8 | 9 => {
                let n = r.rng.size(rest.len());
                r.note(format!("slice of {n}"));
                let want = rest.get(..n);
                if k == 8 {
                    same!(r, format!("a slice of {n}"), c.read_slice(n).ok(), want);
                } else {
                    let got = c.read_scope(n).ok();
                    same!(r, format!("a scope of {n}"), got.map(|s| s.data()), want);
                    if let (Some(s), true) = (got, depth > 0) {
                        history(r, s, want.unwrap(), 4, depth - 1);
                    }
                }
                if want.is_some() {
                    at += n;
                }
            }
            10 => {
                let nib = r.rng.below(17) as u8;
                r.note(format!("until nibble {nib}"));
                let end = rest.iter().position(|b| b >> 4 == nib || b & 15 == nib);
                same!(r, format!("until nibble {nib}"), c.read_until_nibble(nib).ok(), end.map(|e| &rest[..=e]));
                at += end.map_or(0, |e| e + 1);
            }
            11 => {
                same!(r, "rest", c.scope().data(), rest);
                if depth > 0 {
                    history(r, c.scope(), rest, 3, depth - 1);
                }
            }
            12 => {
                let o = r.rng.size(buf.len());
                r.note(format!("scope at {o}"));
                let want = buf.get(o..).unwrap_or(&[]);
                same!(r, format!("scope at {o}"), top.offset(o).data(), want);
                if depth > 0 {
                    history(r, top.offset(o), want, 3, depth - 1);
                }
            }
            13 => {
                let (o, n) = (r.rng.size(buf.len()), r.rng.size(buf.len()));
                r.note(format!("scope at {o} of {n}"));
                let want = if n == 0 { Some(&[][..]) } else { o.checked_add(n).and_then(|e| buf.get(o..e)) };
                let got = top.offset_length(o, n).ok();
                same!(r, format!("scope at {o} of {n}"), got.map(|s| s.data()), want);
                if let (Some(s), true) = (got, depth > 0) {
                    history(r, s, want.unwrap(), 3, depth - 1);
                }
            }
            14 => {
                let own = ReadScopeOwned::new(top);
                same!(r, "owned scope", own.scope().data(), buf);
                if depth > 0 {
                    history(r, own.scope(), buf, 3, depth - 1);
                }
                let own = ReadBuf::from(buf.to_vec());
                same!(r, "owned buffer", own.scope().data(), buf);
                if depth > 0 {
                    history(r, own.scope(), buf, 3, depth - 1);
                }
                same!(r, "buffer data", own.into_data().to_vec(), buf.to_vec());
            }
            15 => {
                let mut d = c.clone();
                same!(r, "copied context", d.read_u8().ok(), rest.first().copied());
                same!(r, "context after a copy was read", c.scope().data(), rest);
            }
            16 => empties(r),
            _ => {
                let ty = r.rng.below(13) as u64;
                at += match ty {
                    0 => typed::<U8>(r, &mut c, rest, ty),
                    1 => typed::<I8>(r, &mut c, rest, ty),
                    2 => typed::<U16Be>(r, &mut c, rest, ty),
                    3 => typed::<I16Be>(r, &mut c, rest, ty),
                    4 => typed::<U24Be>(r, &mut c, rest, ty),
                    5 => typed::<U32Be>(r, &mut c, rest, ty),
                    6 => typed::<I32Be>(r, &mut c, rest, ty),
                    7 => typed::<U64Be>(r, &mut c, rest, ty),
                    8 => typed::<I64Be>(r, &mut c, rest, ty),
                    9 => typed::<P2>(r, &mut c, rest, ty),
                    10 => typed::<P3>(r, &mut c, rest, ty),
                    11 => typed::<P4>(r, &mut c, rest, ty),
                    _ => typed::<Made>(r, &mut c, rest, ty),
                };
            }
        }
        same!(r, "bytes available", c.bytes_available(), at < buf.len());
        same!(r, "unread bytes", c.scope().data(), &buf[at..]);
    }
}

fn views(r: &mut Run, buf: &[u8]) {
    use doodle::parser::View;
    let (mut v, mut b) = (View::new(buf), buf);
    for _ in 0..4 {
        let n = r.rng.size(b.len());
        r.note(format!("view: {n} of {}", b.len()));
        same!(r, "bytes of a view", v.read_len(n).ok(), b.get(..n));
        same!(r, "u16 of a view", v.read_u16be().ok(), b.get(..2).map(|x| be(x) as u16));
        let n = r.rng.size(b.len() / 2);
        r.note(format!("view: arrays of {n}"));
        macro_rules! arr {
            ($f:ident, $t:ty, $w:expr) => {{
                let want = items::<$t>(b, n, $w);
                let got = v.$f(n).ok();
                same!(r, format!("view: {} of {n}", stringify!($f)), got.is_some(), want.is_some());
                if let (Some(a), Some(w)) = (got, want) {
                    array::<$t>(r, a, &w);
                }
            }};
        }
        arr!(read_array_u8, U8, 1);
        arr!(read_array_u16be, U16Be, 2);
        arr!(read_array_u32be, U32Be, 4);
        arr!(read_array_u64be, U64Be, 8);
        let o = r.rng.size(b.len());
        r.note(format!("view: offset {o}"));
        let u = v.offset(o).ok();
        same!(r, format!("view: offset {o} of {}", b.len()), u.is_some(), o <= b.len());
        if let Some(u) = u {
            (v, b) = (u, &b[o..]);
        }
        r.kind(2, o.min(40) as u64, n.min(40) as u64);
    }
}

fn main() {
    let mut args = std::env::args().skip(1).map(|a| a.parse::<u64>().unwrap());
    let (seed, n) = (args.next().unwrap_or(1), args.next().unwrap_or(100));
    let trace = args.next().is_some();
    let mut r = Run { rng: Rng(seed), evals: 0, kinds: HashSet::new(), log: vec![], trace };
    for h in 0..n {
        r.rng = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ h << 20);
        r.log.clear();
        let len = [0, 1, 2, 3, 4, 7, 8, 11, 16, 23, 40][r.rng.below(11)];
        let mut buf: Vec<u8> = (0..len).map(|_| r.rng.next() as u8).collect();
        if r.rng.below(3) == 0 {
            buf.sort();
        }
        // (an allocation of exactly this size, so that a read past its end is seen)
        let buf: Box<[u8]> = buf.into_boxed_slice();
        r.note(format!("history {h} of seed {seed} on {buf:?}"));
        let base = r.rng.size(10);
        history(&mut r, ReadScope::from_parts(&buf, base), &buf, 10, 2);
        history(&mut r, ReadScope::new(&buf), &buf, 5, 1);
        views(&mut r, &buf);
    }
    println!("EVALS {} KINDS {}", r.evals, r.kinds.len());
}
