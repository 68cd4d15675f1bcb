//! C07: the cursor of generated parsers (`parser::Parser`, `parser::View`) against a nested-window model.
//! Random histories of properly nested operations, with failures at any point; every result, the reported
//! offset and the remaining length are compared after every operation.
use crate::ev::{Report, guarded, hash_of, par};
use crate::rng::Rng;
use doodle::parser::offset::ByteOffset;
use doodle::parser::{Parser, View};
use doodle::read::ReadCtxt;
use serde_json::json;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Mode {
    Bytes,
    /// entered at this byte
    Bits(u128),
}
/// position in bits from the start of the buffer, and mode
#[derive(Clone, Copy, Debug, PartialEq)]
struct Pos {
    at: u128,
    mode: Mode,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Ctx {
    Alt(Pos),
    Peek(Pos),
    Not(Pos),
    Seek(Pos),
    Slice(Pos),
    /// bit mode entered explicitly
    Bits,
}
struct Model<'a> {
    buf: &'a [u8],
    base: usize,
    pos: Pos,
    stack: Vec<Ctx>,
}
impl<'a> Model<'a> {
    fn new(buf: &'a [u8], base: usize) -> Self {
        Model { buf, base, pos: Pos { at: 0, mode: Mode::Bytes }, stack: vec![] }
    }
    fn unit(&self) -> u128 {
        if self.pos.mode == Mode::Bytes { 8 } else { 1 }
    }
    fn limit(&self) -> u128 {
        self.stack.iter().rev().find_map(|c| if let Ctx::Slice(p) = c { Some(p.at) } else { None }).unwrap_or(self.buf.len() as u128 * 8)
    }
    fn remaining(&self) -> u128 {
        (self.limit() - self.pos.at) / self.unit()
    }
    fn advance(&mut self, n: u128) -> bool {
        let ok = n <= self.remaining();
        if ok {
            self.pos.at += n * self.unit();
        }
        ok
    }
    fn read(&mut self) -> Option<u8> {
        let at = self.pos.at;
        self.advance(1).then(|| match self.pos.mode {
            Mode::Bytes => self.buf[(at / 8) as usize],
            Mode::Bits(_) => self.buf[(at / 8) as usize] >> (at % 8) & 1,
        })
    }
    fn align(&mut self, n: u128) -> bool {
        let done = match self.pos.mode {
            Mode::Bytes => self.base as u128 + self.pos.at / 8,
            Mode::Bits(s) => self.pos.at - s * 8,
        };
        self.advance((n - done % n) % n)
    }
    fn offset(&self) -> ByteOffset {
        match self.pos.mode {
            Mode::Bytes => ByteOffset::Bytes((self.pos.at / 8) as usize),
            Mode::Bits(s) => ByteOffset::Bits { starting_byte: s as usize, bits_advanced: (self.pos.at - s * 8) as usize },
        }
    }
    /// innermost open context that is not a Bits marker
    fn top(&self) -> Option<Ctx> {
        self.stack.iter().rev().find(|c| **c != Ctx::Bits).copied()
    }
    /// as above, not counting alternatives left open by a branch that succeeded
    fn top_but_alt(&self) -> Option<Ctx> {
        self.stack.iter().rev().find(|c| !matches!(c, Ctx::Bits | Ctx::Alt(_))).copied()
    }
    fn pop_to(&mut self, f: impl Fn(&Ctx) -> bool) -> Option<Ctx> {
        while let Some(c) = self.stack.pop() {
            if f(&c) {
                return Some(c);
            }
        }
        None
    }
    /// a failure is caught by the innermost alternative or negative peek
    fn catcher(&self) -> Option<Ctx> {
        self.stack.iter().rev().find(|c| matches!(c, Ctx::Alt(_) | Ctx::Not(_))).copied()
    }
}

fn size(rng: &mut Rng, rem: u128) -> u64 {
    match rng.below(12) {
        0 => rem as u64,
        1 => rem as u64 + 1,
        2 => (rem as u64).saturating_sub(1),
        3 => u64::MAX - rng.below(3) as u64,
        4 => (1u64 << 63) - rng.below(2) as u64,
        5 => 1 << 61,
        6 => u32::MAX as u64 + rng.below(2) as u64,
        _ => rng.below(rem as usize + 2) as u64,
    }
}

const DEPTH: usize = 3;

fn history(rep: &Report, rng: &mut Rng, p: &mut Parser<'_>, m: &mut Model<'_>, n: usize, log: &mut Vec<String>, depth: usize, ops: &mut u64) -> Result<(), String> {
    macro_rules! same {
        ($what:expr, $got:expr, $want:expr) => {{
            let (g, w) = ($got, $want);
            if g != w {
                return Err(format!("{}: got {g:?}, expected {w:?}", $what));
            }
        }};
    }
    for _ in 0..n {
        let mut failed = false;
        let rem = m.remaining();
        let k = rng.below(34);
        *ops |= 1 << k;
        let bits = m.pos.mode != Mode::Bytes;
        match k {
            0..8 => {
                log.push("read".into());
                let w = m.read();
                failed = w.is_none();
                same!("byte read", p.read_byte().ok(), w);
            }
            8 | 9 => {
                let d = size(rng, rem);
                log.push(format!("advance {d}"));
                let w = m.advance(d as u128);
                failed = !w;
                same!(format!("advance by {d}"), p.advance_by(d).is_ok(), w);
            }
            10 | 11 => {
                let a = [1, 2, 3, 4, 5, 8, 16, 7][rng.below(8)];
                log.push(format!("align {a}"));
                let w = m.align(a as u128);
                failed = !w;
                same!(format!("align to {a}"), p.skip_align(a).is_ok(), w);
            }
            12 | 13 => {
                log.push("enter bits".into());
                same!("entering bit mode", p.enter_bits_mode().is_ok(), !bits);
                if !bits {
                    m.pos.mode = Mode::Bits(m.pos.at / 8);
                    m.stack.push(Ctx::Bits);
                }
            }
            14 | 15 => {
                // (within the context that bit mode was entered in)
                if bits && m.stack.iter().rev().find(|c| !matches!(c, Ctx::Alt(_))) != Some(&Ctx::Bits) {
                    continue;
                }
                log.push("escape bits".into());
                let w = match m.pos.mode {
                    Mode::Bits(s) => {
                        let n = m.pos.at - s * 8;
                        m.pos = Pos { at: m.pos.at.div_ceil(8) * 8, mode: Mode::Bytes };
                        let i = m.stack.iter().rposition(|c| *c == Ctx::Bits).unwrap();
                        m.stack.remove(i);
                        Some(n as usize)
                    }
                    Mode::Bytes => None,
                };
                same!("leaving bit mode", p.escape_bits_mode().ok(), w);
            }
            16..19 => {
                let d = size(rng, rem);
                log.push(format!("slice {d}"));
                let w = d as u128 <= rem;
                failed = !w;
                same!(format!("opening a slice of {d}"), p.start_slice(d as usize).is_ok(), w);
                if w {
                    m.stack.push(Ctx::Slice(Pos { at: m.pos.at + d as u128 * m.unit(), ..m.pos }));
                }
            }
            19..21 => match m.top_but_alt() {
                Some(Ctx::Slice(_)) => {
                    log.push("end slice".into());
                    same!("closing a slice", p.end_slice().is_ok(), true);
                    if let Some(Ctx::Slice(e)) = m.pop_to(|c| matches!(c, Ctx::Slice(_))) {
                        m.pos = e;
                    }
                }
                None if rng.below(8) == 0 => {
                    log.push("end slice".into());
                    same!("closing a slice that was not opened", p.end_slice().is_ok(), false);
                    return Ok(());
                }
                _ => {}
            },
            21 => {
                log.push("peek".into());
                p.open_peek_context();
                m.stack.push(Ctx::Peek(m.pos));
            }
            22 => {
                log.push("peek not".into());
                p.open_peek_not_context();
                m.stack.push(Ctx::Not(m.pos));
            }
            23 => {
                log.push("alt".into());
                p.start_alt();
                m.stack.push(Ctx::Alt(m.pos));
            }
            24 | 25 => {
                let dest = match rng.below(4) {
                    0 => size(rng, rem),
                    _ => m.base as u64 + rng.below(m.buf.len() + 2) as u64,
                };
                // (where a seek is to a position before the current one in bit mode is not defined)
                if bits && (dest < m.base as u64 || ((dest - m.base as u64) as u128) * 8 < m.pos.at) {
                    continue;
                }
                log.push(format!("seek {dest}"));
                let got = p.advance_or_seek(dest).ok();
                let w = match (dest as u128).checked_sub(m.base as u128) {
                    None => None,
                    Some(o) if o * 8 >= m.pos.at => {
                        let from = m.pos;
                        let ok = m.advance((o * 8 - m.pos.at) / m.unit());
                        if ok {
                            m.stack.push(Ctx::Seek(from));
                        }
                        ok.then_some(true)
                    }
                    Some(o) => {
                        m.stack.push(Ctx::Seek(m.pos));
                        m.pos = Pos { at: o * 8, mode: Mode::Bytes };
                        Some(false)
                    }
                };
                same!(format!("seeking to {dest}"), got, w);
                if w.is_none() {
                    // a failed seek is only ever followed by what catches the failure
                    log.push("(failed)".into());
                    if !caught(rng, p, m, log)? {
                        return Ok(());
                    }
                }
            }
            26 | 27 => match m.top_but_alt() {
                Some(Ctx::Peek(_) | Ctx::Seek(_)) => {
                    log.push("close peek".into());
                    same!("closing a peek", p.close_peek_context().is_ok(), true);
                    if let Some(Ctx::Peek(b) | Ctx::Seek(b)) = m.pop_to(|c| matches!(c, Ctx::Peek(_) | Ctx::Seek(_))) {
                        m.pos = b;
                    }
                }
                None if rng.below(8) == 0 => {
                    log.push("close peek".into());
                    same!("closing a peek that was not opened", p.close_peek_context().is_ok(), false);
                    return Ok(());
                }
                _ => {}
            },
            28 => match m.top() {
                Some(Ctx::Alt(_)) => {
                    log.push("end alt".into());
                    same!("closing alternatives", p.end_alt().is_ok(), true);
                    let i = m.stack.iter().rposition(|c| matches!(c, Ctx::Alt(_))).unwrap();
                    m.stack.remove(i);
                }
                None if rng.below(8) == 0 => {
                    log.push("end alt".into());
                    same!("closing alternatives that were not opened", p.end_alt().is_ok(), false);
                    return Ok(());
                }
                _ => {}
            },
            29 => {
                log.push("(fails)".into());
                if m.catcher().is_some() || rng.below(10) == 0 {
                    if !caught(rng, p, m, log)? {
                        return Ok(());
                    }
                }
            }
            30 => {
                log.push("skip remainder".into());
                p.skip_remainder();
                m.advance(rem);
            }
            31 => same!("end of input", p.finish().is_ok(), rem == 0),
            _ => {
                if bits {
                    continue;
                }
                let from = (m.pos.at / 8) as usize;
                let part = &m.buf[from..(m.limit() / 8) as usize];
                let base = m.base + from;
                log.push(format!("view at {base}, {} bytes", part.len()));
                let v = p.view();
                views(rep, rng, v, part, base, log)?;
                if depth > 0 {
                    let off = rng.below(part.len() + 2);
                    let u = v.offset(off);
                    same!(format!("offset {off} of a view"), u.is_ok(), off <= part.len());
                    if let Ok(u) = u {
                        log.push(format!("parse at {off}: ["));
                        let mut q = Parser::from(u);
                        let mut qm = Model::new(&part[off..], base + off);
                        let n = 2 + rng.below(12);
                        history(rep, rng, &mut q, &mut qm, n, log, depth - 1, ops)?;
                        log.push("]".into());
                    }
                }
            }
        }
        same!("offset", p.get_current_offset(), m.offset());
        same!("remaining length", p.remaining() as u128, m.remaining());
        if let Mode::Bytes = m.pos.mode {
            same!("absolute offset", p.get_offset_u64() as u128, m.base as u128 + m.pos.at / 8);
            same!("bits read", p.get_bits_read(), None);
        } else if let Mode::Bits(s) = m.pos.mode {
            same!("bits read", p.get_bits_read(), Some((m.pos.at - s * 8) as usize));
        }
        rep.eval(1);
        // a failure usually ends the innermost attempt
        if failed && rng.below(3) != 0 && m.catcher().is_some() && !caught(rng, p, m, log)? {
            return Ok(());
        }
    }
    Ok(())
}

/// What catches a failure rewinds; false: nothing does, the history ends
fn caught(rng: &mut Rng, p: &mut Parser<'_>, m: &mut Model<'_>, log: &mut Vec<String>) -> Result<bool, String> {
    match m.catcher() {
        Some(Ctx::Alt(at)) => {
            let last = rng.below(2) == 0;
            log.push(format!("next alt, last: {last}"));
            if p.next_alt(last).is_err() {
                return Err("the next alternative is refused".into());
            }
            m.pop_to(|c| matches!(c, Ctx::Alt(_)));
            m.pos = at;
            if !last {
                m.stack.push(Ctx::Alt(at));
            }
        }
        Some(Ctx::Not(at)) => {
            log.push("close peek not".into());
            if p.close_peek_not_context().is_err() {
                return Err("closing a negative peek is refused".into());
            }
            m.pop_to(|c| matches!(c, Ctx::Not(_)));
            m.pos = at;
        }
        _ => {
            log.push("next alt (none open)".into());
            if p.next_alt(true).is_ok() {
                return Err("an alternative that was not opened is rewound".into());
            }
            return Ok(false);
        }
    }
    if p.get_current_offset() != m.offset() || p.remaining() as u128 != m.remaining() {
        return Err(format!("after a failure was caught: at {:?} with {} left, expected {:?} with {}", p.get_current_offset(), p.remaining(), m.offset(), m.remaining()));
    }
    Ok(true)
}

fn views(rep: &Report, rng: &mut Rng, v: View<'_>, part: &[u8], base: usize, log: &mut Vec<String>) -> Result<(), String> {
    let n = size(rng, part.len() as u128) as usize;
    log.push(format!("read {n}"));
    rep.eval(1);
    if v.read_len(n).ok() != part.get(..n) {
        return Err(format!("reading {n} bytes of a view of {part:?}: {:?}", v.read_len(n)));
    }
    if v.offset(n).is_ok() != (n <= part.len()) {
        return Err(format!("offset {n} of a view of {} bytes", part.len()));
    }
    let w = part.get(..2).map(|b| u16::from_be_bytes([b[0], b[1]]));
    if v.read_u16be().ok() != w {
        return Err(format!("reading two bytes of a view of {part:?}"));
    }
    fn be(b: &[u8]) -> u64 {
        b.iter().fold(0, |a, x| a << 8 | *x as u64)
    }
    let k = size(rng, part.len() as u128 / 2) as usize;
    log.push(format!("arrays of {k}"));
    for w in [1usize, 2, 4, 8] {
        let want: Option<Vec<u64>> = k.checked_mul(w).and_then(|t| part.get(..t)).map(|b| b.chunks(w).map(be).collect());
        let got: Option<Vec<u64>> = match w {
            1 => v.read_array_u8(k).ok().map(|a| a.iter().map(|x| x as u64).collect()),
            2 => v.read_array_u16be(k).ok().map(|a| a.iter().map(|x| x as u64).collect()),
            4 => v.read_array_u32be(k).ok().map(|a| a.iter().map(|x| x as u64).collect()),
            _ => v.read_array_u64be(k).ok().map(|a| a.iter().collect()),
        };
        if got != want {
            return Err(format!("an array of {k} {w}-byte values in a view at {base} of {part:?}: got {got:?}, expected {want:?}"));
        }
    }
    Ok(())
}

/// the interpreter's cursor
fn ctxt(rep: &Report, rng: &mut Rng, buf: &[u8]) -> Result<u64, String> {
    let mut c = ReadCtxt::new(buf);
    let (mut at, mut end) = (0usize, buf.len());
    let mut outer = vec![];
    let mut ops = 0;
    for _ in 0..30 {
        let k = rng.below(9);
        ops |= 1 << k;
        rep.eval(1);
        if c.offset != at || c.input.len() != end || c.remaining() != &buf[at..end] {
            return Err(format!("the interpreter's cursor is at {} of {}, expected {at} of {end}", c.offset, c.input.len()));
        }
        let be = |w: usize| buf[at..end].get(..w).map(|b| b.iter().fold(0u64, |a, x| a << 8 | *x as u64));
        let (w, got) = match k {
            0..3 => (1, c.read_byte().map(|(b, c)| (b as u64, c))),
            3 => (2, c.read_u16be().map(|(b, c)| (b as u64, c))),
            4 => (4, c.read_u32be().map(|(b, c)| (b as u64, c))),
            5 => (8, c.read_u64be()),
            6 => {
                let n = size(rng, (end - at) as u128) as usize;
                match c.split_at(n) {
                    None if n <= end - at => return Err(format!("split at {n} of {} is refused", end - at)),
                    Some(_) if n > end - at => return Err(format!("split at {n} of {} is accepted", end - at)),
                    None => {}
                    Some((a, b)) => {
                        outer.push((b, at + n, end));
                        c = a;
                        end = at + n;
                    }
                }
                continue;
            }
            7 => {
                if let Some((b, p, e)) = outer.pop() {
                    (c, at, end) = (b, p, e);
                }
                continue;
            }
            _ => {
                let n = size(rng, end as u128) as usize;
                match c.seek_to(n) {
                    Some(d) if n <= end => {
                        c = d;
                        at = n;
                    }
                    None if n > end => {}
                    r => return Err(format!("seek to {n} of {end}: {r:?}")),
                }
                continue;
            }
        };
        let want = be(w);
        if got.map(|g| g.0) != want {
            return Err(format!("reading {w} bytes at {at} of {end}: got {:?}, expected {want:?}", got.map(|g| g.0)));
        }
        if let Some((_, d)) = got {
            c = d;
            at += w;
        }
    }
    Ok(ops)
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(120);
    let n = rep.scale(1_500_000, 40_000_000);
    let per = 500;
    par(n / per, |j| {
        for h in j * per..(j + 1) * per {
            let mut rng = Rng::derive(rep.seed, 0xc07 ^ (h as u64) << 16);
            let len = [0, 1, 2, 3, 5, 8, 13, 24, 40][rng.below(9)];
            let buf: Vec<u8> = (0..len).map(|_| rng.byte()).collect();
            let mut log = vec![];
            let mut ops = 0;
            let r = guarded(|| {
                let mut p = Parser::new(&buf);
                let mut m = Model::new(&buf, 0);
                let n = 3 + rng.below(45);
                let r = history(rep, &mut rng, &mut p, &mut m, n, &mut log, DEPTH, &mut ops);
                (r, m.stack.len(), m.pos.mode == Mode::Bytes)
            });
            match r {
                Ok((Ok(()), deep, bytes)) => {
                    rep.sig(&(hash_of(&ops), deep, bytes));
                    rep.count(&format!("histories ending {} contexts deep", if deep > 6 { "more than 6".into() } else { deep.to_string() }), 1);
                }
                Ok((Err(e), ..)) | Err(e) => {
                    rep.violation(&format!("history {h}"), format!("history {h} on {} bytes: {e}; after: {}", buf.len(), log.join("; ")), json!({"buffer": buf, "history": log, "wrong": e}));
                    return;
                }
            }
            if h % 4 == 0 {
                match guarded(|| ctxt(rep, &mut rng, &buf)) {
                    Ok(Ok(o)) => rep.sig(&(1, o)),
                    Ok(Err(e)) | Err(e) => rep.violation(&format!("cursor {h}"), format!("history {h}: {e}"), json!({"buffer": buf})),
                }
            }
        }
    });
    "one evaluation = one cursor operation compared with the window model (result, offset, remaining length); distinct = set of operations in a history x final nesting depth and mode"
}
