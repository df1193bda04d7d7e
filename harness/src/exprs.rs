//! C08: expression structure.
use super::gen_::*;
use super::rt::*;

fn leaf(k: u32) -> X {
    match k {
        0 => field(below(10) as i32),
        1 => int(below(10) as i64),
        _ => boolean(true),
    }
}
fn ty(i: u32) -> T {
    match i {
        0 => i64t(),
        1 => simple(7, NUL),
        _ => list(simple(0, NUL), REQ),
    }
}
/// Composite of kind `k` over children from `g`.
const KINDS: u32 = 10;
fn node(k: u32, g: &mut dyn FnMut() -> X) -> X {
    match k {
        0 => call("f", 1, vec![], ty(0)),
        1 => call("g", 2, vec![g()], ty(1)),
        2 => call("f", 1, vec![g(), g()], ty(2)),
        3 => call("g", 2, vec![g(), g(), g()], ty(0)),
        4 => cast(g(), ty(0), 0),
        5 => cast(g(), ty(1), 1),
        6 => cast(g(), ty(2), 2),
        7 => if_then(vec![(g(), g())], g()),
        8 => if_then(vec![(g(), g()), (g(), g())], g()),
        _ => leaf(choice(3)),
    }
}
fn arity(k: u32) -> u32 {
    [0, 1, 2, 3, 1, 1, 1, 3, 5, 0][k as usize]
}
fn place(e: X, where_: u32) {
    let (p, x) = match where_ {
        0 => plan1(&ext1(), filter(e, &[0], tab("t", 1))),
        1 => plan1(&ext1(), project(vec![P::Ref(0), P::Ex(int(1)), P::Ex(e)], tab("t", 1))),
        2 => plan1(&ext1(), join(0, e, None, &[0, 1], tab("t", 1), tab("u", 1))),
        3 => plan1(&ext1(), join(2, boolean(true), Some(e), &[0, 1], tab("t", 1), tab("u", 1))),
        4 => plan1(&ext1(), sort(vec![(e, choice(5))], &[0], tab("t", 1))),
        5 => plan1(&ext1(), virt(vec![vec![e]], None, &cols(1))),
        6 => plan1(&ext1(), virt(vec![], Some(e), &cols(1))),
        7 => plan1(&ext1(), fetch(Some(e), None, &[0], tab("t", 1))),
        8 => plan1(&ext1(), fetch(Some(int(1)), Some(e), &[0], tab("t", 1))),
        _ => plan1(&ext1(), virt(vec![vec![int(1)], vec![int(2)], vec![e]], Some(boolean(true)), &cols(1))),
    };
    agree(&p, &x);
}
pub fn shallow_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..KINDS {
        for w in 0..10 {
            // a bare reference as a projection is a mapping, and a bare
            // non-default limit is covered with the numbers
            v.push(k * 16 + w);
        }
    }
    v
}
/// Every expression kind over leaves, in every place an expression can stand.
pub fn shallow(case: u32) {
    let (k, w) = (case / 16, case % 16);
    let e = node(k, &mut || leaf(if arity(k) > 3 { 0 } else { choice(3) }));
    if k == 9 && w == 1 {
        // a reference in Project is a mapping, not a computed expression
        if let Some(substrait::proto::expression::RexType::Selection(_)) = e.e.rex_type {
            return;
        }
    }
    place(e, w);
}
pub fn deep_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 1..9 {
        for slot in 0..arity(k) {
            for inner in 0..9 {
                for i2 in 0..(if th { 9 } else { 3 }) {
                    v.push(((k * 8 + slot) * 16 + inner) * 16 + i2);
                }
            }
        }
    }
    v
}
/// Three levels: any kind, in any argument slot of any kind, in turn inside a
/// call, a cast or a conditional.
pub fn deep(case: u32) {
    let i2 = case % 16;
    let inner = case / 16 % 16;
    let slot = case / 256 % 8;
    let k = case / 2048;
    let e0 = node(inner, &mut || leaf(0));
    let mut n = 0;
    let e1 = node(k, &mut || {
        n += 1;
        if n - 1 == slot { e0.clone() } else { leaf(1) }
    });
    let outer = [1, 4, 7, 0, 2, 3, 5, 6, 8][i2 as usize];
    let mut m = 0;
    let e2 = node(outer, &mut || {
        m += 1;
        if m == 1 { e1.clone() } else { leaf(2) }
    });
    place(e2, 0);
}
pub fn refs_cases(_: bool) -> Vec<u32> {
    (0..2).collect()
}
/// Field references of any non-negative index.
pub fn references(case: u32) {
    let i = any_i32();
    assume(i >= 0);
    let e = if case == 0 { call("f", 1, vec![field(i), field(0)], ty(0)) } else { cast(field(i), ty(0), 0) };
    place(e, 0);
}
pub fn space_cases(_: bool) -> Vec<u32> {
    (0..3).collect()
}
fn sp() -> &'static str {
    ["", " "][choice(2) as usize]
}
/// Optional spaces inside expressions do not change them.
pub fn spaces(case: u32) {
    let (e, x) = match case {
        0 => (
            call("f", 1, vec![field(1), int(2)], i64t()),
            cat(&["f", sp(), "($1", sp(), ",", sp(), "2):", sp(), "i64"]),
        ),
        1 => (
            cast(field(0), simple(7, NUL), 1),
            cat(&["(", sp(), "$0", sp(), ")", sp(), "::", sp(), "?", sp(), "string?"]),
        ),
        _ => (
            if_then(vec![(boolean(true), int(1))], field(0)),
            cat(&["if_then(", sp(), "true", sp(), "->", sp(), "1", sp(), ",", sp(), "_", sp(), "->", sp(), "$0)"]),
        ),
    };
    let (p, _) = plan1(&ext1(), filter(e, &[0], tab("t", 1)));
    let t = cat(&[&ext1().text(), "=== Plan\nFilter[", &x, " => $0]\n  Read[t => a:i64]\n"]);
    emit(&t);
    parses_to(&t, &p);
}

/// Literals of every kind with the text they take inside an expression.
pub const LITS: u32 = 22;
#[allow(deprecated)]
pub fn literal(i: u32, n: bool) -> X {
    use substrait::proto::expression::literal::*;
    let t = |v: LiteralType, x: &str, ty: &str| X {
        e: lit(v, n),
        x: cat(&[x, ":", ty, if n { "?" } else { "" }]),
    };
    let pr = |v: LiteralType, x: &str, ty: &str, p: &str| X {
        e: lit(v, n),
        x: cat(&[x, ":", ty, if n { "?" } else { "" }, "<", p, ">"]),
    };
    match i {
        0 => t(LiteralType::I8(-3), "-3", "i8"),
        1 => t(LiteralType::I16(300), "300", "i16"),
        2 => t(LiteralType::I32(70000), "70000", "i32"),
        3 if !n => int(12),
        3 => t(LiteralType::I64(12), "12", "i64"),
        4 if !n => boolean(false),
        4 => t(LiteralType::Boolean(false), "false", "boolean"),
        5 if !n => X { e: lit(LiteralType::String("x y".into()), n), x: "'x y'".into() },
        5 => t(LiteralType::String("x y".into()), "'x y'", "string"),
        6 => t(LiteralType::Date(1), "'1970-01-02'", "date"),
        7 => t(LiteralType::Time(1_000_000), "'00:00:01.000000'", "time"),
        8 => t(LiteralType::Timestamp(1), "'1970-01-01T00:00:00.000001'", "timestamp"),
        9 => pr(LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: 9, value: -1 }), "'1969-12-31T23:59:59.999999999'", "precisiontimestamp", "9"),
        10 => pr(LiteralType::PrecisionTimestamp(PrecisionTimestamp { precision: 0, value: 60 }), "'1970-01-01T00:01:00'", "precisiontimestamp", "0"),
        11 => pr(LiteralType::PrecisionTimestampTz(PrecisionTimestamp { precision: 3, value: 60000 }), "'1970-01-01T00:01:00.000'", "precisiontimestamptz", "3"),
        12 => pr(LiteralType::PrecisionTime(PrecisionTime { precision: 6, value: 0 }), "'00:00:00.000000'", "precisiontime", "6"),
        13 => pr(
            LiteralType::IntervalDayToSecond(IntervalDayToSecond {
                days: 4,
                seconds: 0,
                subseconds: 5,
                precision_mode: Some(interval_day_to_second::PrecisionMode::Precision(9)),
            }),
            "'4d 5ns'",
            "interval_day",
            "9",
        ),
        14 if !n => X { e: lit(LiteralType::Fp64(0.5), n), x: "0.5".into() },
        14 => t(LiteralType::Fp64(0.5), "0.5", "fp64"),
        15 => t(LiteralType::Fp32(2.5), "2.5", "fp32"),
        _ => {
            // nullability is a matter of the null's type
            let ty = match i {
                16 => simple(4, NUL),
                17 => simple(7, NUL),
                18 => list(simple(1, REQ), NUL),
                19 => prec_type(0, 6, NUL),
                20 => user("point", 1, NUL, vec![]),
                _ => user("boxed", 2, NUL, vec![simple(0, REQ), simple(11, NUL)]),
            };
            X { e: lit(LiteralType::Null(ty.t), false), x: cat(&["null:", &ty.x]) }
        }
    }
}
pub fn literal_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for i in 0..LITS {
        for w in 0..10 {
            v.push(i * 16 + w);
        }
    }
    v
}
/// Every kind of literal, alone and inside every construct, in every place.
pub fn literals(case: u32) {
    let (i, w) = (case / 16, case % 16);
    let l = || literal(i, false);
    let e = match choice(9) {
        0 => literal(i, true),
        1 => call("f", 1, vec![l()], ty(0)),
        2 => call("f", 1, vec![field(1), literal(i, true), l()], ty(0)),
        3 => cast(l(), ty(0), choice(3) as i32),
        4 => if_then(vec![(l(), int(1))], int(2)),
        5 => if_then(vec![(boolean(true), l())], literal(i, true)),
        6 => cast(cast(l(), ty(1), 0), ty(2), 1),
        7 => call("g", 2, vec![int(1), cast(l(), ty(0), 0)], ty(1)),
        _ => l(),
    };
    place(e, w);
}
pub fn scale_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for what in 0..6 {
        for n in if th { vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 24, 33, 40, 65, 130, 260] } else { vec![4, 5, 8, 9, 10, 12, 17, 40, 130, 260] } {
            // nesting is limited by the stack
            if n < 50 || what < 2 {
                v.push(what * 1024 + n);
            }
        }
    }
    v
}
/// Wide and deep expressions with one arbitrary part at an arbitrary place.
pub fn scale(case: u32) {
    let (what, n) = (case / 1024, case % 1024);
    let at = spot(n);
    let odd = || if choice(2) == 0 { field(below(30) as i32) } else { node(choice(9), &mut || int(7)) };
    let e = match what {
        0 => call("f", 1, (0..n).map(|i| if i == at { odd() } else { int(i as i64) }).collect(), ty(1)),
        1 => {
            let side = choice(2) == 0;
            let v = (0..n)
                .map(|i| match i == at {
                    true if side => (odd(), int(i as i64)),
                    true => (boolean(false), odd()),
                    _ => (field(i as i32), int(i as i64)),
                })
                .collect();
            if_then(v, field(3))
        }
        2 => {
            let mut e = field(1);
            for i in 0..n {
                e = if i == at { cast(e, ty(choice(3)), choice(3) as i32) } else { call("g", 2, vec![e, int(i as i64)], ty(0)) };
            }
            e
        }
        3 => {
            let mut e = odd();
            for i in 0..n {
                e = cast(e, ty(i % 3), i as i32 % 3);
            }
            e
        }
        4 => {
            let mut e = int(1);
            for i in 0..n {
                e = if i == at { if_then(vec![(e, int(4))], field(2)) } else { if_then(vec![(boolean(true), int(4))], e) };
            }
            e
        }
        _ => {
            let mut e = odd();
            for _ in 0..n {
                e = call("f", 1, vec![e], ty(0));
            }
            e
        }
    };
    place(e, 0);
}
