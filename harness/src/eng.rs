//! Driving the real engines.
use crate::ev::guarded;
use crate::rv::Rv;
use doodle::decoder::{Compiler, Program, Value};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule};

#[derive(Clone, PartialEq, Debug)]
pub enum Out {
    Ok(Rv, usize),
    /// ordinary decode error
    Reject,
    /// panic, with message
    Panic(String),
}
impl Out {
    pub fn tag(&self) -> &'static str {
        match self {
            Out::Ok(..) => "ok",
            Out::Reject => "reject",
            Out::Panic(_) => "panic",
        }
    }
    pub fn show(&self) -> String {
        format!("{self:?}").chars().take(900).collect()
    }
}

pub enum Comp {
    Ok(Program),
    Refused(String),
    Panic(String),
}
pub fn compile(m: &FormatModule, f: &Format) -> Comp {
    match guarded(|| Compiler::compile_program(m, f)) {
        Ok(Ok(p)) => Comp::Ok(p),
        Ok(Err(e)) => Comp::Refused(format!("{e:#}")),
        Err(p) => Comp::Panic(p),
    }
}
/// None: the lookahead analysis of this format is too large to wait for
pub fn compile_within(m: &FormatModule, f: &Format, steps: u64) -> Option<Comp> {
    doodle::verif::set_lookahead_budget(steps);
    let r = compile(m, f);
    doodle::verif::set_lookahead_budget(u64::MAX);
    match r {
        Comp::Panic(e) if e.contains(doodle::verif::BUDGET_SPENT) => None,
        r => Some(r),
    }
}
pub fn run_raw(p: &Program, input: &[u8]) -> Result<Option<(Value, usize)>, String> {
    guarded(|| match p.run(ReadCtxt::new(input)) {
        Ok((v, c)) => Some((v, c.offset)),
        Err(_) => None,
    })
}
pub fn run(p: &Program, input: &[u8]) -> Out {
    match run_raw(p, input) {
        Ok(Some((v, n))) => Out::Ok(Rv::erase(&v), n),
        Ok(None) => Out::Reject,
        Err(e) => Out::Panic(e),
    }
}

/// located decode: None = reported failure
pub fn run_loc(p: &Program, input: &[u8]) -> Result<Option<(doodle::loc_decoder::ParsedValue, usize)>, String> {
    guarded(|| match p.run_with_loc(ReadCtxt::new(input)) {
        Ok((v, c)) => Some((v, c.offset)),
        Err(_) => None,
    })
}
