//! One small module per combinator, all of which the code generator supports today: each has to yield source that compiles.
use crate::fgen::Built;
use doodle::helper::*;
use doodle::*;

fn b() -> Format {
    Format::Byte(byte_set::ByteSet::full())
}
fn bx<T>(t: T) -> Box<T> {
    Box::new(t)
}
fn u16be() -> Format {
    map(tuple([b(), b()]), lambda("x", Expr::U16Be(bx(var("x")))))
}
fn u32be() -> Format {
    map(tuple([b(), b(), b(), b()]), lambda("x", Expr::U32Be(bx(var("x")))))
}
fn u64le() -> Format {
    map(tuple((0..8).map(|_| b())), lambda("x", Expr::U64Le(bx(var("x")))))
}
fn u8v(n: u8) -> Expr {
    Expr::U8(n)
}
fn hint(t: ValueType) -> TypeHint {
    t.into()
}
const U8T: ValueType = ValueType::Base(BaseType::U8);
const U32T: ValueType = ValueType::Base(BaseType::U32);

type Mk = fn(&mut FormatModule) -> Format;

pub const CORE: &[(&str, Mk)] = &[
    ("byte", |_| byte_in([1u8, 2, 9])),
    ("tuple", |_| tuple([b(), u16be(), u32be(), u64le()])),
    ("record", |_| record([("a", b()), ("b", u16be())])),
    ("record_auto", |_| record_auto([("a", b()), ("__skip", b()), ("b", map(u16be(), lambda("x", add(var("x"), Expr::U16(0)))))])),
    ("alts", |_| alts([("p", tuple([is_byte(1), b()])), ("q", tuple([is_byte(2), u16be()])), ("r", is_byte(3))])),
    ("union", |_| union([map(is_byte(1), lambda("_x", Expr::U16(7))), map(tuple([is_byte(2), u16be()]), lambda("x", tuple_proj(var("x"), 1)))])),
    ("deep alts", |_| alts([("p", tuple([is_byte(1), is_byte(1), is_byte(1)])), ("q", tuple([is_byte(1), is_byte(1), is_byte(2)])), ("r", tuple([is_byte(1), is_byte(2)]))])),
    ("alts_nondet", |_| alts_nondet([("p", tuple([b(), is_byte(1)])), ("q", tuple([b(), b(), is_byte(2)])), ("r", tuple([b()]))])),
    ("optional", |_| tuple([optional(is_byte(1)), is_byte(2)])),
    ("repeat", |_| tuple([repeat(is_byte(1)), is_byte(2)])),
    ("repeat1", |_| tuple([repeat1(byte_in([1u8, 4])), is_byte(2)])),
    ("repeat pair", |_| tuple([repeat(tuple([is_byte(1), b()])), is_byte(2), Format::EndOfInput])),
    ("repeat_count", |_| record([("n", b()), ("xs", repeat_count(var("n"), u16be()))])),
    ("repeat_between", |_| tuple([repeat_between(Expr::U32(1), Expr::U32(3), is_byte(1)), is_byte(2)])),
    ("repeat_until_last", |_| tuple([repeat_until_last(lambda("x", expr_eq(record_proj(var("x"), "k"), u8v(0))), record([("k", b()), ("l", b())])), b()])),
    ("repeat_until_seq", |_| tuple([repeat_until_seq(lambda("xs", expr_gte(seq_length(var("xs")), Expr::U32(3))), b()), b()])),
    ("accum_until", |_| {
        Format::AccumUntil(
            bx(lambda_tuple(["acc", "_xs"], expr_gte(var("acc"), Expr::U32(9)))),
            bx(lambda_tuple(["acc", "x"], add(var("acc"), as_u32(var("x"))))),
            bx(Expr::U32(0)),
            hint(U32T),
            bx(b()),
        )
    }),
    ("for_each", |_| chain_let(repeat_count(u8v(3), b()), "ns", Format::ForEach(bx(var("ns")), "n".into(), bx(tuple([b(), compute(var("n"))]))))),
    ("maybe", |_| record([("f", b()), ("v", cond_maybe(expr_eq(bit_and(var("f"), u8v(1)), u8v(1)), u16be()))])),
    ("where", |_| where_lambda(u16be(), "x", expr_lt(var("x"), Expr::U16(300)))),
    ("match", |_| record([("k", b()), ("v", fmt_match(var("k"), [(Pattern::U8(1), Format::Variant("one".into(), bx(b()))), (Pattern::U8(2), Format::Variant("two".into(), bx(u32be()))), (Pattern::Wildcard, Format::Variant("other".into(), bx(Format::EMPTY)))]))])),
    ("slice", |_| record([("n", b()), ("v", slice(var("n"), tuple([b(), repeat(b())]))), ("t", b())])),
    ("nested slice", |_| record([("n", b()), ("v", slice(var("n"), record([("m", b()), ("w", slice(var("m"), repeat(b()))), ("z", b())]))), ("t", b())])),
    ("bits", |_| tuple([Format::Bits(bx(tuple([b(), b(), repeat_count(Expr::U32(3), b())]))), b()])),
    ("bits in slice", |_| tuple([slice(Expr::U32(2), Format::Bits(bx(repeat(b())))), b()])),
    ("peek", |_| tuple([Format::Peek(bx(tuple([b(), u16be()]))), b()])),
    ("peek_not", |_| tuple([Format::PeekNot(bx(is_byte(1))), b(), b()])),
    ("offset forward", |_| record([("o", b()), ("v", Format::WithRelativeOffset(bx(Expr::U64(0)), bx(as_u64(var("o"))), bx(u16be()))), ("t", b())])),
    ("offset back", |_| tuple([b(), b(), b(), Format::WithRelativeOffset(bx(Expr::U64(0)), bx(Expr::U64(1)), bx(u16be())), b()])),
    ("align", |_| tuple([b(), Format::Align(4), u16be(), Format::Align(8), b()])),
    ("pos", |_| tuple([b(), Format::Pos, repeat(is_byte(1)), Format::Pos])),
    ("skip", |_| tuple([slice(Expr::U32(3), tuple([b(), Format::SkipRemainder])), b()])),
    ("end", |_| tuple([b(), b(), Format::EndOfInput])),
    ("lifted option", |_| tuple([Format::LiftedOption(Some(bx(b()))), b()])),
    ("let", |_| Format::Let("x".into(), bx(Expr::U16(513)), bx(tuple([b(), compute(add(var("x"), Expr::U16(1)))])))),
    ("let_format", |_| Format::LetFormat(bx(b()), "n".into(), bx(repeat_count(var("n"), b())))),
    ("monad_seq", |_| Format::MonadSeq(bx(is_byte(5)), bx(u16be()))),
    ("decode_bytes", |_| record([("xs", repeat_count(u8v(4), b())), ("v", Format::DecodeBytes(bx(var("xs")), bx(tuple([u16be(), b()]))))])),
    ("view capture", |_| Format::LetView("w".into(), bx(record([("n", b()), ("xs", Format::WithView(ViewExpr::Var("w".into()), ViewFormat::CaptureBytes(bx(as_u32(var("n")))))), ("t", b())])))),
    ("view parse", |_| Format::LetView("w".into(), bx(record([("n", b()), ("v", Format::ParseFromView(ViewExpr::Offset(bx(ViewExpr::Var("w".into())), bx(as_u32(var("n")))), bx(tuple([u16be(), Format::Pos])))), ("t", b())])))),
    ("view in slice", |_| tuple([b(), slice(Expr::U32(3), Format::LetView("w".into(), bx(tuple([b(), Format::ParseFromView(ViewExpr::Var("w".into()), bx(tuple([repeat(b())])))])))), b()])),
    ("view array", |_| Format::LetView("w".into(), bx(record([("n", b()), ("xs", Format::WithView(ViewExpr::Offset(bx(ViewExpr::Var("w".into())), bx(u8v(1))), ViewFormat::ReadArray(bx(as_u32(var("n"))), BaseKind::U16BE)))])))),
    ("huffman", |_| {
        Format::Dynamic(
            "h".into(),
            DynFormat::Huffman(bx(Expr::Seq(vec![u8v(2), u8v(1), u8v(3), u8v(3)])), None),
            bx(tuple([Format::Bits(bx(repeat_count(Expr::U32(5), Format::Apply("h".into())))), b()])),
        )
    }),
    ("call", |m| {
        let inner = m.define_format("test.inner", record([("a", b()), ("z", u16be())]));
        tuple([inner.call(), inner.call(), b()])
    }),
    ("call args", |m| {
        let inner = m.define_format_args("test.inner", vec![("n".into(), U8T), ("k".into(), U32T)], record([("xs", repeat_count(var("n"), b())), ("k", compute(add(var("k"), Expr::U32(1))))]));
        record([("n", b()), ("v", inner.call_args(vec![var("n"), Expr::U32(4)]))])
    }),
    ("call view", |m| {
        let inner = m.define_format_views("test.inner", vec!["w".into()], tuple([b(), Format::ParseFromView(ViewExpr::Var("w".into()), bx(u16be()))]));
        Format::LetView("v".into(), bx(tuple([b(), inner.call_views(vec![ViewExpr::Var("v".into())])])))
    }),
    ("shared variant", |m| {
        let inner = m.define_format("test.opt", alts([("some", tuple([is_byte(1), b()])), ("none", is_byte(0))]));
        tuple([repeat_count(Expr::U32(2), inner.call()), inner.call()])
    }),
    ("arithmetic", |_| {
        record([
            ("a", u32be()),
            ("b", u32be()),
            ("s", compute(bit_or(var("a"), var("b")))),
            ("t", compute(bit_and(var("a"), Expr::U32(0xffff)))),
            ("u", compute(shr(var("a"), Expr::U32(3)))),
            ("v", compute(div(var("a"), bit_or(var("b"), Expr::U32(1))))),
            ("w", compute(rem(var("a"), bit_or(var("b"), Expr::U32(1))))),
            ("x", compute(add(bit_and(var("a"), Expr::U32(0xffff)), bit_and(var("b"), Expr::U32(0xffff))))),
        ])
    }),
    ("comparison", |_| {
        let c = |f: fn(Expr, Expr) -> Expr| compute(f(var("a"), var("b")));
        record([("a", u16be()), ("b", u16be()), ("p", c(expr_eq)), ("q", c(expr_ne)), ("r", c(expr_lt)), ("s", c(expr_lte)), ("t", c(expr_gt)), ("u", c(expr_gte))])
    }),
    ("widen", |_| record([("a", b()), ("b", u16be()), ("x", compute(tuple_e([as_u16(var("a")), as_u32(var("b")), as_u64(var("b"))])))])),
    ("flat_map", |_| chain_let(repeat_count(u8v(4), b()), "xs", compute(flat_map(lambda("x", Expr::Seq(vec![var("x"), u8v(1)])), var("xs"))))),
    ("left_fold", |_| {
        chain_let(
            repeat_count(u8v(4), b()),
            "xs",
            compute(Expr::LeftFold(bx(lambda_tuple(["acc", "x"], add(var("acc"), as_u32(var("x"))))), bx(Expr::U32(5)), hint(U32T), bx(var("xs")))),
        )
    }),
    ("sub_seq", |_| chain_let(repeat_count(u8v(5), b()), "xs", tuple([b(), compute(sub_seq(var("xs"), Expr::U32(1), Expr::U32(3)))]))),
    ("index", |_| chain_let(repeat_count(u8v(5), b()), "xs", tuple([b(), compute(Expr::SeqIx(bx(var("xs")), bx(Expr::U32(3))))]))),
    ("dup", |_| chain_let(b(), "n", compute(dup(as_u32(var("n")), Expr::U16(9))))),
    ("expr match", |_| record([("k", b()), ("v", compute(expr_match(var("k"), [(Pattern::U8(1), Expr::U32(10)), (Pattern::Wildcard, Expr::U32(20))])))])),
    ("char", |_| map(u32be(), lambda("x", as_char(var("x"))))),
    ("variant expr", |_| map(b(), lambda("x", variant("v", var("x"))))),
    ("nested option", |_| record([("f", b()), ("v", cond_maybe(expr_eq(var("f"), u8v(1)), tuple([optional(is_byte(7)), is_byte(8)])))])),
];

fn tuple_e<const N: usize>(x: [Expr; N]) -> Expr {
    Expr::Tuple(x.into())
}
fn compute(e: Expr) -> Format {
    Format::Compute(bx(e))
}
fn slice(n: Expr, f: Format) -> Format {
    Format::Slice(bx(n), bx(f))
}
fn chain_let(a: Format, n: &'static str, k: Format) -> Format {
    Format::LetFormat(bx(a), n.into(), bx(k))
}

pub fn build(i: usize) -> Built {
    let mut m = FormatModule::new();
    let f = CORE[i].1(&mut m);
    let ty = ValueType::Tuple(vec![]);
    let main = m.define_format("test.main", f);
    let mut sigs: Vec<(Vec<String>, Vec<String>)> = match CORE[i].0 {
        "call args" => vec![(vec!["n".into(), "k".into()], vec![])],
        "call view" => vec![(vec![], vec!["w".into()])],
        _ => vec![(vec![], vec![]); main.get_level()],
    };
    sigs.push((vec![], vec![]));
    Built { m, main, ty, sigs }
}
