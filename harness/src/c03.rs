//! C03: located decoding agrees with plain decoding and reports true spans.
use crate::c01::{cfg_for, describe, gen_module, inputs};
use crate::corpus;
use crate::eng::{self, Comp};
use crate::ev::{Report, hex, par};
use crate::look::end;
use crate::refint::{self, Ref, Stop, Tr};
use crate::rng::Rng;
use crate::rv::Rv;
use doodle::decoder::{SeqKind, Value};
use doodle::loc_decoder::{ParseLoc, ParsedValue as P};
use doodle::{Expr, Format, ViewFormat};
use serde_json::json;
use std::collections::HashSet;

fn spans(at: usize, len: usize) -> ParseLoc {
    ParseLoc::InBuffer { offset: at, length: len }
}

/// every part that the reference trace says was read at [start,end) must be located there
type Env<'b, 'a> = Vec<(String, Option<&'b Tr<'a>>)>;
pub fn walk<'b, 'a>(n: &'b Tr<'a>, v: &P, env: &Env<'b, 'a>, seen: &mut u64) -> Result<(), String> {
    let here = spans(n.start, n.end - n.start);
    *seen += 1;
    macro_rules! loc {
        ($v:expr, $what:expr) => {
            if $v.get_loc() != here {
                return Err(format!("{} was read at {}..{} but is located at {:?}", $what, n.start, n.end, $v.get_loc()));
            }
        };
    }
    let last = |v: &P, seen: &mut u64| match n.kids.last() {
        Some(k) => walk(k, v, env, seen),
        None => Ok(()),
    };
    let elems = |v: &P, seen: &mut u64, env: &Env<'b, 'a>| -> Result<(), String> {
        let P::Seq(s) = v else { return Err(format!("a repetition is not a sequence: {v:?}")) };
        let xs: Vec<&P> = match s.as_ref() {
            SeqKind::Strict(xs) => xs.iter().collect(),
            SeqKind::Dup(k, x) => std::iter::repeat_n(&**x, *k).collect(),
        };
        if xs.len() != n.kids.len() {
            return Err(format!("a repetition: {} elements, {} were read", xs.len(), n.kids.len()));
        }
        n.kids.iter().zip(xs).try_for_each(|(k, x)| walk(k, x, env, seen))
    };
    match n.f {
        Format::LetFormat(_, name, _) => {
            let mut e = env.clone();
            e.push((name.to_string(), n.kids.first()));
            n.kids.last().map_or(Ok(()), |k| walk(k, v, &e, seen))
        }
        Format::Let(name, ..) => {
            let mut e = env.clone();
            e.push((name.to_string(), None));
            n.kids.last().map_or(Ok(()), |k| walk(k, v, &e, seen))
        }
        Format::ItemVar(..) => n.kids.last().map_or(Ok(()), |k| walk(k, v, &vec![], seen)),
        Format::Compute(x) => computed(x, v, env, seen),
        Format::LetView(..) | Format::Dynamic(..) | Format::Hint(..) | Format::Where(..) | Format::Slice(..) | Format::Peek(_) | Format::Bits(_) | Format::WithRelativeOffset(..) | Format::DecodeBytes(..) | Format::ParseFromView(..) | Format::MonadSeq(..) => last(v, seen),
        Format::Variant(..) => match v {
            P::Variant(_, x) => last(x, seen),
            _ => Err(format!("not a variant: {v:?}")),
        },
        Format::Match(..) => match v {
            P::Branch(_, x) => n.kids.last().map_or(Ok(()), |k| walk(k, x, &vec![], seen)),
            _ => Err(format!("not a branch: {v:?}")),
        },
        Format::Union(_) | Format::UnionNondet(_) => match v {
            P::Branch(_, x) => last(x, seen),
            _ => Err(format!("not a branch: {v:?}")),
        },
        Format::Maybe(..) | Format::LiftedOption(_) => match v {
            P::Option(Some(x)) => last(x, seen),
            _ => Ok(()),
        },
        Format::Map(..) => match v {
            P::Mapped(o, i) => {
                last(o, seen)?;
                // an image that is a plain datum takes the place of what it was computed from
                if matches!(**i, P::Flat(_) | P::Tuple(_) | P::Seq(_) | P::Record(_)) && i.get_loc() != o.get_loc() {
                    return Err(format!("image located at {:?}, what it was computed from at {:?}", i.get_loc(), o.get_loc()));
                }
                Ok(())
            }
            _ => Err(format!("not mapped: {v:?}")),
        },
        Format::Permit(..) => match v {
            P::Permit(Ok(x)) => last(x, seen),
            _ => Ok(()),
        },
        Format::Byte(_) => match v {
            P::Flat(_) => {
                loc!(v, "byte");
                Ok(())
            }
            _ => Err(format!("not a byte: {v:?}")),
        },
        Format::EndOfInput | Format::PeekNot(_) | Format::SkipRemainder | Format::Align(_) => {
            loc!(v, "a unit part");
            Ok(())
        }
        Format::Tuple(_) => {
            loc!(v, "a tuple");
            let P::Tuple(t) = v else { return Err(format!("not a tuple: {v:?}")) };
            n.kids.iter().zip(t.as_ref()).try_for_each(|(k, x)| walk(k, x, env, seen))
        }
        Format::Sequence(_) | Format::Repeat(_) | Format::Repeat1(_) | Format::RepeatCount(..) | Format::RepeatBetween(..) | Format::RepeatUntilLast(..) | Format::RepeatUntilSeq(..) => {
            loc!(v, "a sequence");
            elems(v, seen, env)
        }
        Format::ForEach(..) => {
            loc!(v, "a sequence");
            elems(v, seen, &vec![])
        }
        Format::AccumUntil(..) => {
            loc!(v, "an accumulation");
            let P::Tuple(t) = v else { return Err(format!("not a tuple: {v:?}")) };
            loc!(t.as_ref()[1], "an accumulated sequence");
            elems(&t.as_ref()[1], seen, env)
        }
        Format::Apply(_) => {
            loc!(v, "a code word");
            Ok(())
        }
        Format::WithView(_, vf) => {
            let w = match vf {
                ViewFormat::CaptureBytes(_) => 1,
                ViewFormat::ReadArray(_, k) => k.size(),
                ViewFormat::ReifyView => return Ok(()),
            };
            let P::Seq(s) = v else { return Err(format!("not a sequence: {v:?}")) };
            let (ParseLoc::InBuffer { offset, length }, SeqKind::Strict(xs)) = (v.get_loc(), s.as_ref()) else { return Err(format!("a captured array is not located: {v:?}")) };
            if length != xs.len() * w {
                return Err(format!("a captured array of {} elements spans {length}", xs.len()));
            }
            for (i, x) in xs.iter().enumerate() {
                if x.get_loc() != spans(offset + i * w, w) {
                    return Err(format!("element {i} of a captured array at {offset} is located at {:?}", x.get_loc()));
                }
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// what a bound part was read as keeps its location when it is put into a record or tuple
fn computed<'b, 'a>(e: &Expr, v: &P, env: &Env<'b, 'a>, seen: &mut u64) -> Result<(), String> {
    match (e, v) {
        (Expr::Var(x), v) => match env.iter().rev().find(|b| b.0 == x.as_ref()) {
            Some((_, Some(n))) => walk(n, v, &vec![], seen).map_err(|e| format!("part bound to {x}: {e}")),
            _ => Ok(()),
        },
        (Expr::Record(fs), P::Record(r)) => fs.iter().zip(r.as_ref()).try_for_each(|((_, e), (_, v))| computed(e, v, env, seen)),
        _ => Ok(()),
    }
}

type Raw<V> = Result<Option<(V, usize)>, String>;
fn tag<V>(r: &Raw<V>) -> &'static str {
    match r {
        Ok(Some(_)) => "ok",
        Ok(None) => "reject",
        Err(_) => "panic",
    }
}
/// Some(message) when the two decodes disagree
pub fn disagree(plain: &Raw<Value>, loc: &Raw<P>) -> Option<String> {
    let s = |x: String| x.chars().take(700).collect::<String>();
    match (plain, loc) {
        (Ok(Some((v, n))), Ok(Some((l, k)))) => {
            let (a, b) = (Rv::erase(v), Rv::erase(&Value::from(l.clone())));
            if a != b {
                Some(format!("plain value {} but located value {}", s(a.show()), s(b.show())))
            } else if n != k {
                Some(format!("plain decode ends at {n}, located decode at {k}"))
            } else {
                None
            }
        }
        (Ok(None), Ok(None)) | (Err(_), Err(_)) => None,
        (a, b) => Some(format!("plain decode: {}, located decode: {}", s(format!("{} {a:?}", tag(a))), s(format!("{} {b:?}", tag(b))))),
    }
}

fn case(rep: &Report, i: usize) {
    let Ok(b) = gen_module(rep.seed, 0xc03, i, cfg_for(i)) else { return };
    let call = b.main.call();
    let mut r = Ref::new(&b.m, &b.sigs);
    r.look.fuel.set(60_000);
    if r.look.refuses(&call, end(), &mut HashSet::new()) != Some(false) {
        return;
    }
    let Comp::Ok(p) = rep.watched(|| format!("compile case {i}"), || eng::compile(&b.m, &call)) else { return };
    rep.count("programs", 1);
    let mut rng = Rng::derive(rep.seed, 0x11c03 ^ (i as u64) << 20);
    for inp in inputs(&mut r, &call, &mut rng, rep.scale(5, 9)) {
        r.kinds.set(0);
        r.fuel.set(200_000);
        *r.trace.borrow_mut() = Some(vec![]);
        let want = rep.watched(|| format!("reference case {i} {}", hex(&inp)), || r.run(&call, &inp));
        let tr = r.trace.borrow_mut().take().unwrap_or_default();
        if want == Err(Stop::Fuel) {
            // does not end, or not soon
            rep.count("ref_gave_up", 1);
            continue;
        }
        let plain = rep.watched(|| format!("case {i} input {}", hex(&inp)), || eng::run_raw(&p, &inp));
        let loc = rep.watched(|| format!("located case {i} input {}", hex(&inp)), || eng::run_loc(&p, &inp));
        rep.eval(1);
        rep.count(tag(&plain), 1);
        let mut bad = disagree(&plain, &loc);
        if let (None, Ok(Some((pv, _)))) = (&bad, &loc) {
            if want.is_ok() && tr.len() == 1 {
                let mut seen = 0;
                bad = walk(&tr[0], pv, &vec![], &mut seen).err();
                rep.count("spans_checked", seen);
            }
        }
        rep.sig(&(r.kinds.get(), tag(&plain)));
        if let Some(e) = bad {
            rep.violation(&format!("case {i}"), format!("case {i} on {}: {e}; main = {:?}", hex(&inp), b.m.get_format(b.main.get_level())), json!({"module": describe(&b), "input": hex(&inp), "what": e}));
            return;
        }
    }
    if i < 3 {
        rep.sample(json!({"case": i, "main": format!("{:?}", b.m.get_format(b.main.get_level())).chars().take(300).collect::<String>()}));
    }
}

fn shipped(rep: &Report) {
    let files = corpus::files(rep.scale(9_000, 400_000) as u64);
    let per = rep.scale(8, 60);
    par(files.len() * 4, |j| {
        let (s, slice) = (&files[j / 4], j % 4);
        let mut m = doodle::FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        let sg = refint::sigs(&m);
        let r = Ref::new(&m, &sg);
        let Comp::Ok(p) = eng::compile(&m, &f) else {
            rep.violation("compile", "the shipped formats do not compile", json!({}));
            return;
        };
        let mut rng = Rng::derive(rep.seed, 0x5c03 + j as u64);
        let big = s.data.len() > 20_000;
        for k in 0..per {
            if k % 4 != slice || (big && k >= 8) {
                continue;
            }
            let inp = if k == 0 { s.data.clone() } else { corpus::mutate(&s.data, &mut rng) };
            let plain = rep.watched(|| format!("shipped {} {}", s.name, hex(&inp)), || eng::run_raw(&p, &inp));
            let loc = rep.watched(|| format!("shipped located {} {}", s.name, hex(&inp)), || eng::run_loc(&p, &inp));
            rep.eval(1);
            rep.count(&format!("shipped_{}", tag(&plain)), 1);
            let mut bad = disagree(&plain, &loc);
            r.kinds.set(0);
            if let (None, Ok(Some((pv, _)))) = (&bad, &loc) {
                r.fuel.set(rep.scale(4_000_000, 80_000_000) as i64);
                *r.trace.borrow_mut() = Some(vec![]);
                let want = r.run_big(&f, &inp);
                let tr = r.trace.borrow_mut().take().unwrap_or_default();
                if want.is_ok() && tr.len() == 1 {
                    let mut seen = 0;
                    bad = walk(&tr[0], pv, &vec![], &mut seen).err();
                    rep.count("shipped_spans_checked", seen);
                }
            }
            rep.sig(&(&s.name, tag(&plain), r.kinds.get()));
            if let Some(e) = bad {
                let file = rep.save(&format!("shipped-{}-{k}", s.name.replace('/', "_")), &inp);
                rep.violation(&format!("shipped {}", s.name), format!("shipped formats on a variant of {} (saved as {file}): {e}", s.name), json!({"input_file": file, "what": e}));
            }
        }
    });
}

pub fn run(rep: &Report) -> &'static str {
    rep.start_watchdog(300);
    par(rep.scale(14_000, 150_000), |i| case(rep, i));
    shipped(rep);
    "one evaluation = one input decoded plainly and with locations and compared; spans_checked counts located parts compared with the reference trace of what was read where; distinct = combinators executed x outcome"
}
