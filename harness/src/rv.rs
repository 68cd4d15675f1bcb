//! Reference values: the nominal content of decoded values, with engine bookkeeping (branch indices,
//! mapping pre-images, permit wrappers, lazy sequence representations) erased.
use doodle::decoder::{SeqKind, Value};
use std::sync::Arc as Rc;

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Rv {
    Bool(bool),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    Char(char),
    /// width-less integer (element of an enumerated range)
    Usize(u64),
    View(usize),
    Phantom,
    Tuple(Rc<Vec<Rv>>),
    Rec(Rc<Vec<(String, Rv)>>),
    Var(Rc<str>, Rc<Rv>),
    Seq(Rc<Vec<Rv>>),
    Opt(Option<Rc<Rv>>),
    Num(num_bigint::BigInt, doodle::numeric::core::NumRep),
}

impl Rv {
    pub fn unit() -> Rv {
        Rv::Tuple(Rc::new(vec![]))
    }
    pub fn seq(v: Vec<Rv>) -> Rv {
        Rv::Seq(Rc::new(v))
    }
    pub fn tuple(v: Vec<Rv>) -> Rv {
        Rv::Tuple(Rc::new(v))
    }
    pub fn num(&self) -> Option<u64> {
        Some(match self {
            Rv::U8(n) => *n as u64,
            Rv::U16(n) => *n as u64,
            Rv::U32(n) => *n as u64,
            Rv::U64(n) | Rv::Usize(n) => *n,
            _ => return None,
        })
    }
    /// width class: 8,16,32,64, or 0 for width-less
    pub fn width(&self) -> Option<u32> {
        Some(match self {
            Rv::U8(_) => 8,
            Rv::U16(_) => 16,
            Rv::U32(_) => 32,
            Rv::U64(_) => 64,
            Rv::Usize(_) => 0,
            _ => return None,
        })
    }
    pub fn mk(width: u32, n: u64) -> Rv {
        match width {
            8 => Rv::U8(n as u8),
            16 => Rv::U16(n as u16),
            32 => Rv::U32(n as u32),
            64 => Rv::U64(n),
            _ => Rv::Usize(n),
        }
    }
    pub fn erase(v: &Value) -> Rv {
        match v {
            Value::Bool(b) => Rv::Bool(*b),
            Value::U8(n) => Rv::U8(*n),
            Value::U16(n) => Rv::U16(*n),
            Value::U32(n) => Rv::U32(*n),
            Value::U64(n) => Rv::U64(*n),
            Value::Char(c) => Rv::Char(*c),
            Value::Usize(n) => Rv::Usize(*n as u64),
            Value::Numeric(n) => Rv::Num(n.0.clone(), n.1),
            Value::View { offset } => Rv::View(*offset),
            Value::PhantomData => Rv::Phantom,
            Value::EnumFromTo(r) => Rv::seq(r.clone().map(|n| Rv::Usize(n as u64)).collect()),
            Value::Option(o) => Rv::Opt(o.as_ref().map(|v| Rc::new(Rv::erase(v)))),
            Value::Tuple(vs) => Rv::tuple(vs.iter().map(Rv::erase).collect()),
            Value::Record(fs) => Rv::Rec(Rc::new(fs.iter().map(|(l, v)| (l.to_string(), Rv::erase(v))).collect())),
            Value::Variant(l, v) => Rv::Var(l.as_ref().into(), Rc::new(Rv::erase(v))),
            Value::Seq(SeqKind::Strict(vs)) => Rv::seq(vs.iter().map(Rv::erase).collect()),
            Value::Seq(SeqKind::Dup(n, v)) => Rv::seq(vec![Rv::erase(v); *n]),
            Value::Mapped(_, v) => Rv::erase(v),
            Value::Branch(_, v) => Rv::erase(v),
            Value::Permit(Ok(v)) => Rv::erase(v),
            Value::Permit(Err(Some(v))) => Rv::erase(v),
            Value::Permit(Err(None)) => Rv::Phantom,
        }
    }
    pub fn show(&self) -> String {
        let s = format!("{:?}", self);
        s.chars().take(1200).collect()
    }
}
