//! C02: plans with parts the text format cannot show. A damaged part is written
//! as MARK in the expected text: any one `!{...}` token stands for it.
use super::gen_::*;
use super::rt::*;
use super::wire;
use prost::Message;
use proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use proto::expression::literal::{self as lt, LiteralType};
use proto::expression::{FieldReference, ReferenceSegment, RexType, reference_segment as rs};
use proto::function_argument::ArgType;
use proto::rel::RelType;
use proto::r#type::Kind;
use proto::{Expression, Plan, PlanRel, Rel, Type, read_rel};
use substrait::proto;

const MARK: u8 = 0x1f;
const M: &str = "\u{1f}";
/// Length of the `!{...}` token at the start of `b`.
fn token(b: &[u8]) -> Option<usize> {
    if b.len() < 4 || b[0] != b'!' || b[1] != b'{' {
        return None;
    }
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'}' {
            return if i > 2 { Some(i + 1) } else { None };
        }
        if !(b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'.' || b[i] == b':') {
            return None;
        }
        i += 1;
    }
    None
}
/// The tokens outside quoted text.
fn tokens(t: &str) -> usize {
    let b = t.as_bytes();
    let (mut i, mut q, mut n) = (0, 0u8, 0);
    while i < b.len() {
        let c = b[i];
        if q != 0 {
            if c == b'\\' {
                i += 1;
            } else if c == q {
                q = 0;
            }
        } else if c == b'\'' || c == b'"' {
            q = c;
        } else if c == b'!' && i + 1 < b.len() && b[i + 1] == b'{' {
            n += 1;
        }
        i += 1;
    }
    n
}
fn formatted(plan: &Plan) -> (String, usize) {
    let (out, errs) = substrait_explain::format(plan);
    for e in errs.iter() {
        check(!e.to_string().is_empty(), "a formatting error has no description");
    }
    (out, errs.len())
}
/// The formatted plan is `want` with a token for every MARK, at least as many
/// errors as tokens, and an error exactly when one is due.
fn shows(plan: &Plan, want: &str, due: bool) {
    let (out, errs) = formatted(plan);
    emit(&out);
    let (o, w) = (out.as_bytes(), want.as_bytes());
    let (mut i, mut k, mut marks) = (0, 0, 0);
    while k < w.len() {
        if w[k] == MARK {
            match token(&o[i..]) {
                Some(n) => i += n,
                None => {
                    emit("\nexpected:\n");
                    emit(want);
                    fail("a part that cannot be shown is not marked by a token");
                }
            }
            marks += 1;
        } else {
            if i >= o.len() || o[i] != w[k] {
                emit("\nexpected:\n");
                emit(want);
                fail("the text around a damaged part is not that of the plan");
            }
            i += 1;
        }
        k += 1;
    }
    check(i == o.len(), "the formatted text goes on after the plan");
    check(errs >= marks, "a part that cannot be shown is not reported");
    check((errs > 0) == (due || marks > 0), "an error is missing, or reported for a sound plan");
    // whatever was printed can be handed to the parser
    let r = substrait_explain::parse(&out);
    check(marks == 0 || r.is_err(), "a text with a token parses");
    cover(1);
}

// ------------------------------------------------------------ expressions
fn broken(e: RexType) -> X {
    X { e: rex(e), x: M.into() }
}
fn selection(r: Option<ReferenceType>, root: Option<RootType>) -> X {
    broken(RexType::Selection(Box::new(FieldReference { reference_type: r, root_type: root })))
}
fn root() -> Option<RootType> {
    Some(RootType::RootReference(RootReference {}))
}
fn seg(r: Option<rs::ReferenceType>) -> X {
    selection(Some(ReferenceType::DirectReference(ReferenceSegment { reference_type: r })), root())
}
fn litx(l: LiteralType, nullable: bool) -> X {
    X { e: lit(l, nullable), x: M.into() }
}
fn none() -> X {
    X { e: Expression { rex_type: None }, x: M.into() }
}
const NX: u32 = 48;
#[allow(deprecated)]
fn broken_x(i: u32) -> X {
    let n = i % 2 == 1;
    match i {
        0 => none(),
        1 => broken(RexType::Literal(Default::default())),
        2 => litx(LiteralType::Decimal(Default::default()), n),
        3 => litx(LiteralType::FixedChar("x".into()), n),
        4 => litx(LiteralType::VarChar(lt::VarChar { value: "x".into(), length: 1 }), n),
        5 => litx(LiteralType::FixedBinary(vec![1]), n),
        6 => litx(LiteralType::IntervalYearToMonth(Default::default()), n),
        7 => litx(LiteralType::IntervalCompound(Default::default()), n),
        8 => litx(LiteralType::Struct(Default::default()), n),
        9 => litx(LiteralType::Map(Default::default()), n),
        10 => litx(LiteralType::TimestampTz(1), n),
        11 => litx(LiteralType::Uuid(vec![0; 16]), n),
        12 => litx(LiteralType::List(Default::default()), n),
        13 => litx(LiteralType::EmptyList(Default::default()), n),
        14 => litx(LiteralType::EmptyMap(Default::default()), n),
        15 => litx(LiteralType::UserDefined(Default::default()), n),
        16 => selection(Some(ReferenceType::DirectReference(Default::default())), None),
        17 => selection(None, root()),
        18 => selection(Some(ReferenceType::MaskedReference(Default::default())), root()),
        19 => seg(None),
        20 => seg(Some(rs::ReferenceType::MapKey(Box::default()))),
        21 => seg(Some(rs::ReferenceType::ListElement(Box::default()))),
        22 => selection(
            Some(ReferenceType::DirectReference(Default::default())),
            Some(RootType::OuterReference(Default::default())),
        ),
        23 => selection(
            Some(ReferenceType::DirectReference(Default::default())),
            Some(RootType::Expression(Box::new(int(1).e))),
        ),
        24 => selection(
            Some(ReferenceType::DirectReference(Default::default())),
            Some(RootType::LambdaParameterReference(Default::default())),
        ),
        25 => broken(RexType::WindowFunction(Default::default())),
        26 => broken(RexType::SwitchExpression(Box::default())),
        27 => broken(RexType::SingularOrList(Box::default())),
        28 => broken(RexType::MultiOrList(Default::default())),
        29 => broken(RexType::Subquery(Box::default())),
        30 => broken(RexType::Nested(Default::default())),
        31 => broken(RexType::DynamicParameter(Default::default())),
        32 => broken(RexType::Enum(Default::default())),
        33 => broken(RexType::Lambda(Box::default())),
        34 => broken(RexType::LambdaInvocation(Box::default())),
        35 => {
            let mut x = call("f", 1, vec![field(0), int(1)], i64t());
            if let Some(RexType::ScalarFunction(f)) = &mut x.e.rex_type {
                f.arguments[1].arg_type = None;
            }
            x.x = cat(&["f($0, ", M, "):i64"]);
            x
        }
        36 => {
            let mut x = call("f", 1, vec![field(0)], i64t());
            if let Some(RexType::ScalarFunction(f)) = &mut x.e.rex_type {
                f.output_type = None;
            }
            x.x = cat(&["f($0)", M]);
            x
        }
        37 => {
            let mut x = cast(int(1), i64t(), 0);
            if let Some(RexType::Cast(c)) = &mut x.e.rex_type {
                c.input = None;
            }
            x.x = cat(&["(", M, ")::i64"]);
            x
        }
        38 => {
            let mut x = cast(int(1), i64t(), 1);
            if let Some(RexType::Cast(c)) = &mut x.e.rex_type {
                c.r#type = None;
            }
            x.x = cat(&["(1)::?", M]);
            x
        }
        39 | 40 | 41 => {
            let mut x = if_then(vec![(boolean(true), int(1)), (boolean(false), int(2))], int(3));
            if let Some(RexType::IfThen(f)) = &mut x.e.rex_type {
                match i {
                    39 => f.ifs[1].r#if = None,
                    40 => f.ifs[0].then = None,
                    _ => f.r#else = None,
                }
            }
            x.x = match i {
                39 => cat(&["if_then(true -> 1, ", M, " -> 2, _ -> 3)"]),
                40 => cat(&["if_then(true -> ", M, ", false -> 2, _ -> 3)"]),
                _ => cat(&["if_then(true -> 1, false -> 2, _ -> ", M, ")"]),
            };
            x
        }
        42 => X { e: lit(LiteralType::Null(Type { kind: None }), false), x: cat(&["null:", M]) },
        43 => call("g", 2, vec![none(), int(7), none()], i64t()),
        46 | 47 => {
            // a field of a field, of any number
            let child = match i {
                46 => ReferenceSegment { reference_type: None },
                _ => ReferenceSegment {
                    reference_type: Some(rs::ReferenceType::StructField(Box::new(rs::StructField {
                        field: any_i32(),
                        child: None,
                    }))),
                },
            };
            seg(Some(rs::ReferenceType::StructField(Box::new(rs::StructField {
                field: any_i32(),
                child: Some(Box::new(child)),
            }))))
        }
        44 => cast(none(), T { t: Type { kind: None }, x: M.into() }, 2),
        _ => {
            let mut x = call("f", 1, vec![int(1)], i64t());
            if let Some(RexType::ScalarFunction(f)) = &mut x.e.rex_type {
                f.arguments[0].arg_type = Some(ArgType::Type(Type { kind: None }));
            }
            x.x = cat(&["f(", M, "):i64"]);
            x
        }
    }
}
fn any_ref() -> X {
    field(below(10) as i32)
}
fn any_int() -> X {
    int(below(100) as i64)
}
/// A relation with `e` in one of its places.
const PLACES: u32 = 12;
fn place(w: u32, e: X) -> R {
    let t = |n: &str| tab(n, 1);
    match w {
        0 => filter(e, &[0], t("t")),
        1 => project(vec![P::Ref(0), P::Ex(any_int()), P::Ex(e), P::Ex(any_int())], t("t")),
        2 => join(0, e, None, &[0, 1], t("t"), t("u")),
        3 => join(2, boolean(true), Some(e), &[0, 1], t("t"), t("u")),
        4 => sort(vec![(any_ref(), 1), (e, 2), (any_ref(), 0)], &[0], t("t")),
        5 => virt(vec![vec![int(1)], vec![e]], None, &cols(1)),
        6 => virt(vec![vec![int(1)]], Some(e), &cols(1)),
        7 => fetch(Some(e), Some(any_int()), &[0], t("t")),
        8 => fetch(Some(int(1)), Some(e), &[0], t("t")),
        9 => virt(vec![vec![any_int(), any_int()], vec![any_int(), int(4)], vec![e, any_int()]], None, &cols(2)),
        10 => filter(call("f", 1, vec![any_ref(), cast(e, i64t(), 1), any_int()], i64t()), &[0], t("t")),
        _ => filter(if_then(vec![(boolean(true), e)], any_int()), &[0], t("t")),
    }
}
pub fn exprs_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..PLACES {
        for k in 0..NX.div_ceil(8) {
            v.push(w * 16 + k + if th { 256 } else { 0 });
        }
    }
    v
}
/// Every kind of damaged expression in every place, next to sound relations.
pub fn exprs(case: u32) {
    let (th, w) = (case >= 256, case % 256 / 16);
    let k = case % 16 * 8;
    let i = k + choice((NX - k).min(8));
    let x = broken_x(i);
    let r = place(w, x);
    let deep = if th { choice(2) } else { i % 2 };
    let r = if deep == 1 { sort(vec![(field(0), 0)], &ident(r.w), r) } else { r };
    let (mut p, mut t) = plan_root(&ext1(), &["x", "y"], r);
    let k = tab("keep", 2);
    t.push('\n');
    t.push_str(&lines(&k.l, 0));
    p.relations.push(plan_rel(k.r));
    shows(&p, &t, true);
}

// ------------------------------------------------------------------ types
const NT: u32 = 9;
fn bad_t() -> T {
    T { t: Type { kind: None }, x: M.into() }
}
#[allow(deprecated)]
fn broken_t(i: u32) -> T {
    match i {
        0 => bad_t(),
        1 => T { t: kind(Kind::Func(Box::default())), x: M.into() },
        2 => T { t: kind(Kind::Alias(Default::default())), x: M.into() },
        3 => list(bad_t(), NUL),
        4 => {
            let mut t = list(i64t(), REQ);
            if let Some(Kind::List(l)) = &mut t.t.kind {
                l.r#type = None;
            }
            t.x = cat(&["list<", M, ">"]);
            t
        }
        5 => user("boxed", 2, NUL, vec![i64t(), bad_t()]),
        6 => {
            let mut t = user("boxed", 2, REQ, vec![i64t(), i64t()]);
            if let Some(Kind::UserDefined(u)) = &mut t.t.kind {
                u.type_parameters[0].parameter = None;
            }
            t.x = cat(&["boxed<", M, ", i64>"]);
            t
        }
        7 => list(list(user("boxed", 2, REQ, vec![bad_t()]), REQ), REQ),
        _ => T { t: kind(Kind::UserDefinedTypeReference(77)), x: cat(&[M, "#77"]) },
    }
}
pub fn types_cases(_: bool) -> Vec<u32> {
    (0..5).collect()
}
/// Damaged types in every place a type stands.
pub fn types_(w: u32) {
    let t = broken_t(choice(NT));
    let r = match w {
        0 => read(&["t"], &[("a".into(), i64t()), ("b".into(), t), ("c".into(), i64t())]),
        1 => filter(call("f", 1, vec![field(0)], t), &[0], tab("t", 1)),
        2 => filter(cast(field(0), t, 0), &[0], tab("t", 1)),
        3 => {
            let x = cat(&["null:", &t.x]);
            filter(X { e: lit(LiteralType::Null(t.t), false), x }, &[0], tab("t", 1))
        }
        _ => virt(vec![vec![int(1)]], None, &[("a".into(), t)]),
    };
    let (p, x) = plan1(&ext1(), r);
    shows(&p, &x, true);
}

// -------------------------------------------------------------- relations
const NR: u32 = 50;
#[allow(deprecated)]
fn unsupported(i: u32) -> Option<RelType> {
    Some(match i {
        0 => return None,
        1 => RelType::Reference(Default::default()),
        2 => RelType::Write(Box::default()),
        3 => RelType::Ddl(Box::default()),
        4 => RelType::Update(Box::default()),
        5 => RelType::HashJoin(Box::default()),
        6 => RelType::MergeJoin(Box::default()),
        7 => RelType::NestedLoopJoin(Box::default()),
        8 => RelType::Window(Box::default()),
        9 => RelType::Exchange(Box::default()),
        _ => RelType::Expand(Box::default()),
    })
}
fn line(r: Rel, x: &[&str], w: usize) -> R {
    R { r, l: vec![(0, cat(x))], w }
}
fn read_edit(f: impl Fn(&mut proto::ReadRel)) -> Rel {
    let mut r = tab("t", 2).r;
    if let Some(RelType::Read(x)) = &mut r.rel_type {
        f(x);
    }
    r
}
/// An aggregate of three measures, the one `at` changed by `f` to be shown as
/// `x`, with a mapping that swaps its last two outputs.
fn odd_measure(at: usize, x: String, f: impl Fn(&mut proto::aggregate_rel::Measure)) -> R {
    let k = tab("t", 2);
    let sum = call("sum", 3, vec![field(1)], i64t());
    let mut measures = vec![];
    let mut text = vec![];
    for n in 0..3 {
        let mut m = measure(&sum);
        if n == at {
            f(&mut m);
        }
        measures.push(m);
        text.push(if n == at { x.as_str() } else { &sum.x });
    }
    let head = cat(&["Aggregate[$0 => $0, ", text[0], ", ", text[2], ", ", text[1], "]"]);
    R {
        l: under(head, &[], &[&k]),
        r: rel(RelType::Aggregate(Box::new(proto::AggregateRel {
            common: emit_explicit(&[0, 1, 3, 2]),
            input: Some(Box::new(k.r)),
            grouping_expressions: vec![field_e(0)],
            groupings: vec![proto::aggregate_rel::Grouping {
                expression_references: vec![0],
                ..Default::default()
            }],
            measures,
            ..Default::default()
        }))),
        w: 4,
    }
}
#[allow(deprecated)]
fn broken_r(i: u32) -> R {
    let c2 = "a:i64, b:i64]";
    match i {
        0..=10 => line(Rel { rel_type: unsupported(i) }, &[M, "[]"], 0),
        11 => line(read_edit(|r| r.read_type = None), &["Read[", M, " => ", c2], 2),
        12 => line(
            read_edit(|r| r.read_type = Some(read_rel::ReadType::LocalFiles(Default::default()))),
            &["Read[", M, " => ", c2],
            2,
        ),
        13 => line(
            read_edit(|r| r.read_type = Some(read_rel::ReadType::IcebergTable(Default::default()))),
            &["Read[", M, " => ", c2],
            2,
        ),
        14 => line(read_edit(|r| r.base_schema = None), &["Read[t => ", M, "]"], 1),
        15 => line(
            read_edit(|r| {
                r.base_schema.as_mut().unwrap().names.pop();
            }),
            &["Read[t => a:i64, ", M, ":i64]"],
            2,
        ),
        16 => line(
            read_edit(|r| {
                let s = r.base_schema.as_mut().unwrap();
                s.r#struct.as_mut().unwrap().types.pop();
            }),
            &["Read[t => a:i64, b:", M, "]"],
            2,
        ),
        17 => line(
            read_edit(|r| {
                r.base_schema.as_mut().unwrap().r#struct = None;
            }),
            &["Read[t => a:", M, ", b:", M, "]"],
            2,
        ),
        18 => {
            let mut r = filter(boolean(true), &[0], tab("t", 1));
            if let Some(RelType::Filter(f)) = &mut r.r.rel_type {
                f.condition = None;
            }
            r.l[0].1 = cat(&["Filter[", M, " => $0]"]);
            r
        }
        19 => {
            let mut r = join(0, boolean(true), None, &[0, 1], tab("t", 1), tab("u", 1));
            if let Some(RelType::Join(f)) = &mut r.r.rel_type {
                f.expression = None;
            }
            r.l[0].1 = cat(&["Join[&Inner, ", M, " => $0, $1]"]);
            r
        }
        20 | 21 => {
            let mut r = sort(vec![(field(0), 0), (field(0), 1)], &[0], tab("t", 1));
            if let Some(RelType::Sort(f)) = &mut r.r.rel_type {
                match i {
                    20 => f.sorts[1].expr = None,
                    _ => f.sorts[0].sort_kind = None,
                }
            }
            r.l[0].1 = match i {
                20 => cat(&["Sort[($0, &AscNullsFirst), (", M, ", &AscNullsLast) => $0]"]),
                _ => cat(&["Sort[($0, ", M, "), ($0, &AscNullsLast) => $0]"]),
            };
            r
        }
        22 => {
            let mut r = sort(vec![(field(0), 0)], &[0], tab("t", 1));
            if let Some(RelType::Sort(f)) = &mut r.r.rel_type {
                f.sorts[0].sort_kind = Some(proto::sort_field::SortKind::ComparisonFunctionReference(1));
            }
            r.l[0].1 = cat(&["Sort[($0, ", M, ") => $0]"]);
            r
        }
        23 => line(
            proto::Rel { rel_type: Some(RelType::ExtensionLeaf(Default::default())) },
            &["ExtensionLeaf[", M, "]"],
            1,
        ),
        24 => {
            let k = tab("t", 2);
            R {
                l: under(cat(&["ExtensionSingle[", M, "]"]), &[], &[&k]),
                r: rel(RelType::ExtensionSingle(Box::new(proto::ExtensionSingleRel {
                    input: Some(Box::new(k.r)),
                    ..Default::default()
                }))),
                w: 1,
            }
        }
        25 => {
            let (a, b) = (tab("t", 2), tab("u", 1));
            R {
                l: under(cat(&["ExtensionMulti[", M, "]"]), &[], &[&a, &b]),
                r: rel(RelType::ExtensionMulti(proto::ExtensionMultiRel {
                    inputs: vec![a.r, b.r],
                    ..Default::default()
                })),
                w: 1,
            }
        }
        // a measure without a function
        27..=29 => odd_measure((i - 27) as usize, M.into(), |m| m.measure = None),
        // measures with parts that have no text
        30..=32 => odd_measure((i - 30) as usize, M.into(), |m| m.filter = Some(boolean(true).e)),
        33 | 34 => {
            // neither unspecified nor all
            let v = any_i32();
            assume((v != 0) & (v != 1));
            odd_measure((i - 33) as usize, cat(&["sum($1)", M, ":i64"]), |m| {
                m.measure.as_mut().unwrap().invocation = v;
            })
        }
        35 | 36 => {
            // neither unspecified nor initial to result
            let v = any_i32();
            assume((v != 0) & (v != 3));
            odd_measure((i - 34) as usize, cat(&["sum($1)", M, ":i64"]), |m| {
                m.measure.as_mut().unwrap().phase = v;
            })
        }
        37 => odd_measure(2, cat(&["sum($1)", M, ":i64"]), |m| {
            m.measure.as_mut().unwrap().sorts = vec![Default::default()];
        }),
        38 => odd_measure(1, cat(&["sum($1)", M, M, M, ":i64"]), |m| {
            let f = m.measure.as_mut().unwrap();
            f.sorts = vec![Default::default()];
            f.invocation = 2;
            f.phase = 1;
        }),
        // filters and projections of reads
        39..=41 => {
            let r = read_edit(|r| match i {
                39 => r.filter = Some(Box::new(boolean(true).e)),
                40 => r.best_effort_filter = Some(Box::new(boolean(true).e)),
                _ => r.projection = Some(Default::default()),
            });
            let name = ["filter", "best_effort_filter", "projection"][i as usize - 39];
            line(r, &["Read[t, ", name, "=", M, " => ", c2], 2)
        }
        42 | 43 => {
            let mut r = virt(vec![vec![int(1)]], Some(boolean(true)), &cols(1));
            if let Some(RelType::Read(x)) = &mut r.r.rel_type {
                if i == 42 {
                    x.best_effort_filter = Some(Box::new(boolean(true).e));
                } else {
                    x.projection = Some(Default::default());
                }
            }
            let name = ["best_effort_filter", "projection"][i as usize - 42];
            r.l[0].1 = cat(&["Read:Virtual[(1), filter=true, ", name, "=", M, " => a:i64]"]);
            r
        }
        // missing inputs
        44 => {
            let mut r = filter(boolean(true), &[0], tab("t", 1));
            if let Some(RelType::Filter(f)) = &mut r.r.rel_type {
                f.input = None;
                f.common = None;
            }
            r.l = vec![(0, "Filter[true => ]".into()), (1, cat(&[M, "[]"]))];
            r.w = 0;
            r
        }
        45 | 46 => {
            let (a, b) = (tab("t", 1), tab("u", 1));
            let keep = if i == 45 { b.l[0].1.clone() } else { a.l[0].1.clone() };
            let mut r = join(0, boolean(true), None, &[0, 1], a, b);
            if let Some(RelType::Join(f)) = &mut r.r.rel_type {
                if i == 45 {
                    f.left = None;
                } else {
                    f.right = None;
                }
                f.common = None;
            }
            let no = cat(&[M, "[]"]);
            let (x, y) = if i == 45 { (no, keep) } else { (keep, no) };
            r.l = vec![(0, "Join[&Inner, true => $0]".into()), (1, x), (1, y)];
            r.w = 1;
            r
        }
        47 => {
            let mut r = cross(&[0, 1], tab("t", 1), tab("u", 1));
            if let Some(RelType::Cross(f)) = &mut r.r.rel_type {
                f.left = None;
                f.right = None;
                f.common = None;
            }
            r.l = vec![(0, "Cross[]".into()), (1, cat(&[M, "[]"])), (1, cat(&[M, "[]"]))];
            r.w = 0;
            r
        }
        48 => {
            let mut r = project(vec![P::Ex(int(7))], tab("t", 1));
            if let Some(RelType::Project(f)) = &mut r.r.rel_type {
                f.input = None;
                f.common = None;
            }
            r.l = vec![(0, "Project[7]".into()), (1, cat(&[M, "[]"]))];
            r
        }
        _ => {
            // one failing part of each kind in one relation
            let mut r = join(0, boolean(true), None, &[0, 1], tab("t", 1), tab("u", 1));
            if let Some(RelType::Join(f)) = &mut r.r.rel_type {
                f.expression = None;
                f.r#type = 99;
                f.post_join_filter = Some(Box::new(none().e));
            }
            r.l[0].1 = cat(&["Join[", M, ", ", M, ", post_filter=", M, " => $0, $1]"]);
            r
        }
    }
}
pub fn rels_cases(_: bool) -> Vec<u32> {
    (0..7).flat_map(|w| (0..NR.div_ceil(8)).map(move |k| w * 16 + k)).collect()
}
/// Damaged relations as root, child, left or right input and between roots.
pub fn rels(case: u32) {
    let (w, k) = (case / 16, case % 16 * 8);
    let r = broken_r(k + choice((NR - k).min(8)));
    let (p, t) = match w {
        0 => plan1(&ext1(), r),
        1 => plan_root(&ext1(), &["x"], r),
        2 => {
            let m = ident(r.w + 2);
            plan1(&ext1(), cross(&m, r, tab("right", 2)))
        }
        3 => {
            let m = ident(r.w + 2);
            plan_root(&ext1(), &["x"], cross(&m, tab("left", 2), r))
        }
        4 => {
            let m = ident(r.w);
            plan1(&ext1(), fetch(Some(int(1)), None, &m, r))
        }
        5 => {
            let m = ident(r.w);
            plan1(&ext1(), filter(boolean(true), &m, sort(vec![(field(0), 0)], &m, r)))
        }
        _ => {
            let (mut p, mut t) = plan1(&ext1(), tab("first", 1));
            t.push('\n');
            t.push_str(&lines(&r.l, 0));
            p.relations.push(plan_rel(r.r));
            let z = filter(boolean(true), &[1], tab("last", 2));
            t.push('\n');
            t.push_str(&lines(&z.l, 0));
            p.relations.push(plan_rel(z.r));
            (p, t)
        }
    };
    shows(&p, &t, true);
}
pub fn roots_cases(_: bool) -> Vec<u32> {
    (0..3).collect()
}
/// Plan relations without a kind.
pub fn roots(n: u32) {
    let mut p = Plan::default();
    let mut t = String::from("=== Plan\n");
    for i in 0..n + 1 {
        if i > 0 {
            t.push('\n');
        }
        match choice(4) {
            0 => {
                p.relations.push(PlanRel { rel_type: None });
                t.push_str(&cat(&[M, "\n"]));
            }
            1 => {
                p.relations.push(plan_rel(Rel { rel_type: None }));
                t.push_str(&cat(&[M, "[]\n"]));
            }
            2 => {
                p.relations.push(PlanRel {
                    rel_type: Some(proto::plan_rel::RelType::Root(proto::RelRoot {
                        names: vec!["y".into(), "z".into()],
                        input: None,
                    })),
                });
                t.push_str(&cat(&["Root[y, z]\n  ", M, "[]\n"]));
            }
            _ => {
                p.relations.push(root_rel(vec!["z".into()], tab("t", 1).r));
                t.push_str("Root[z]\n  Read[t => a:i64]\n");
            }
        }
    }
    shows(&p, &t, false);
}

// ---------------------------------------------------------------- numbers
pub fn numbers_cases(_: bool) -> Vec<u32> {
    (0..25).collect()
}
const JOINS: [&str; 13] = [
    "", "Inner", "Outer", "Left", "Right", "LeftSemi", "LeftAnti", "LeftSingle", "RightSemi", "RightAnti",
    "RightSingle", "LeftMark", "RightMark",
];
/// Numbers with a meaning only for some values: any value.
#[allow(deprecated)]
pub fn numbers(case: u32) {
    let v = any_i32();
    match case {
        0 => {
            let mut r = join(0, boolean(true), None, &[0], tab("t", 1), tab("u", 1));
            if let Some(RelType::Join(f)) = &mut r.r.rel_type {
                f.r#type = v;
            }
            let ok = (1..=12).contains(&v);
            let x = if ok { cat(&["&", JOINS[conc(v as u64) as usize]]) } else { M.into() };
            r.l[0].1 = cat(&["Join[", &x, ", true => $0]"]);
            both(r, !ok);
        }
        1 => {
            let mut r = set(0, &[0], vec![tab("t", 1), tab("u", 1)]);
            if let Some(RelType::Set(f)) = &mut r.r.rel_type {
                f.op = v;
            }
            if (1..=8).contains(&v) {
                return;
            }
            r.l[0].1 = cat(&["Set[", M, " => $0]"]);
            both(r, true);
        }
        2 => {
            let mut r = sort(vec![(field(0), 0), (field(0), 1)], &[0], tab("t", 1));
            if let Some(RelType::Sort(f)) = &mut r.r.rel_type {
                f.sorts[0].sort_kind = Some(proto::sort_field::SortKind::Direction(v));
            }
            if (1..=5).contains(&v) {
                return;
            }
            r.l[0].1 = cat(&["Sort[($0, ", M, "), ($0, &AscNullsLast) => $0]"]);
            both(r, true);
        }
        3 => {
            let mut x = cast(field(0), i64t(), 0);
            if let Some(RexType::Cast(c)) = &mut x.e.rex_type {
                c.failure_behavior = v;
            }
            let ok = (0..=2).contains(&v);
            let b = if ok { ["", "?", "!"][conc(v as u64) as usize] } else { M };
            x.x = cat(&["($0)::", b, "i64"]);
            both(filter(x, &[0], tab("t", 1)), !ok);
        }
        // undeclared functions and types
        4 | 5 => {
            let a = any_u32();
            assume((a < 1) | (a > 3));
            assume(a < 10 || a > 4_294_967_200);
            let n = a.to_string();
            let f = call("f", a, vec![int(1)], i64t());
            let x = X { e: f.e, x: cat(&[M, "#", &n, "(1):i64"]) };
            both(
                match case {
                    4 => filter(x, &[0], tab("t", 1)),
                    _ => project(vec![P::Ex(x)], tab("t", 1)),
                },
                true,
            );
        }
        6 | 7 => {
            let a = any_u32();
            assume((a < 1) | (a > 2));
            assume(a < 10 || a > 4_294_967_200);
            let n = a.to_string();
            let q = choice(2);
            let mut t = user("point", a, if q == 1 { NUL } else { REQ }, vec![]);
            t.x = cat(&[M, "#", &n, if q == 1 { "?" } else { "" }]);
            let t = if case == 7 { list(t, REQ) } else { t };
            both(read(&["t"], &[("a".into(), t), ("b".into(), i64t())]), true);
        }
        // output mappings
        8..=13 => {
            let (w, w2) = (2, 3);
            let mut r = match case {
                8 => filter(boolean(true), &[1, 0], tab("t", w)),
                9 => sort(vec![(field(0), 0)], &[1, 0], tab("t", w)),
                10 => fetch(Some(int(1)), None, &[1, 0], tab("t", w)),
                11 => join(0, boolean(true), None, &[1, 0], tab("t", 1), tab("u", 1)),
                12 => cross(&[1, 0], tab("t", 1), tab("u", 1)),
                _ => set(1, &[1, 0], vec![tab("t", w), tab("u", w)]),
            };
            let at = choice(w2 as u32) as usize;
            let mut m = vec![1, 0, 1];
            m[at] = v;
            let c = emit_explicit(&m);
            match r.r.rel_type.as_mut().unwrap() {
                RelType::Filter(x) => x.common = c,
                RelType::Sort(x) => x.common = c,
                RelType::Fetch(x) => x.common = c,
                RelType::Join(x) => x.common = c,
                RelType::Cross(x) => x.common = c,
                RelType::Set(x) => x.common = c,
                _ => {}
            }
            let ok = (0..w as i32).contains(&v);
            let mut x = String::new();
            for (i, k) in m.iter().enumerate() {
                if i > 0 {
                    x.push_str(", ");
                }
                if i == at {
                    x.push_str(if !ok { M } else if v == 0 { "$0" } else { "$1" });
                } else {
                    x.push_str(&cat(&["$", &k.to_string()]));
                }
            }
            let h = r.l[0].1.clone();
            let cut = h.find("$1, $0]").unwrap();
            r.l[0].1 = cat(&[&h[..cut], &x, "]"]);
            both(r, !ok);
        }
        // references of a grouping set
        14 => {
            let g = any_u32();
            let mut r = super::rels::aggregate1(&[0, 1], tab("t", 2));
            if let Some(RelType::Aggregate(a)) = &mut r.r.rel_type {
                a.groupings[0].expression_references[1] = g;
            }
            let ok = g < 2;
            let x = if !ok { M } else if g == 0 { "$0" } else { "$1" };
            r.l[0].1 = cat(&["Aggregate[$0, ", x, " => $0, $1, sum($0):i64]"]);
            both(r, !ok);
        }
        // nullability without a meaning: reported, the text goes on
        15 => {
            let ok = (1..=2).contains(&v);
            let t = simple(4, v);
            let x = cat(&["i64", if !ok { "⁉" } else if v == 1 { "?" } else { "" }]);
            both(read(&["t"], &[("a".into(), T { t: t.t, x }), ("b".into(), i64t())]), !ok);
        }
        // precisions of literals
        16..=19 => {
            let ok = matches!(v, 0 | 3 | 6 | 9);
            if ok || v == 12 {
                return;
            }
            // the number itself is printed
            assume((v > -100) & (v < 100));
            let (l, n) = match case {
                16 => (LiteralType::PrecisionTimestamp(lt::PrecisionTimestamp { precision: v, value: 0 }), "precisiontimestamp"),
                17 => (LiteralType::PrecisionTimestampTz(lt::PrecisionTimestamp { precision: v, value: 0 }), "precisiontimestamptz"),
                18 => (LiteralType::PrecisionTime(lt::PrecisionTime { precision: v, value: 0 }), "precisiontime"),
                _ => (
                    LiteralType::IntervalDayToSecond(lt::IntervalDayToSecond {
                        days: 1,
                        seconds: 2,
                        precision_mode: Some(lt::interval_day_to_second::PrecisionMode::Precision(v)),
                        subseconds: 3,
                    }),
                    "interval_day",
                ),
            };
            let q = choice(2) == 1;
            let x = cat(&[M, ":", n, if q { "?" } else { "" }, "<", &v.to_string(), ">"]);
            both(filter(call("f", 1, vec![X { e: lit(l, q), x }], i64t()), &[0], tab("t", 1)), true);
        }
        // times outside a day
        20 => {
            let us = any_i64();
            assume(us < 0 || us >= 86_400_000_000);
            let x = X { e: lit(LiteralType::Time(us), false), x: cat(&[M, ":time"]) };
            both(filter(x, &[0], tab("t", 1)), true);
        }
        21 => {
            let s = any_i64();
            assume(s < 0 || s >= 86_400_000);
            let l = LiteralType::PrecisionTime(lt::PrecisionTime { precision: 3, value: s });
            let x = X { e: lit(l, true), x: cat(&[M, ":precisiontime?<3>"]) };
            both(filter(x, &[0], tab("t", 1)), true);
        }
        // dates outside the calendar
        22 => {
            let base = [95_026_237, 95_100_000, 1 << 30, i32::MAX - 255, i32::MIN, -(1 << 30), -96_465_293 - 256][choice(7) as usize];
            let v = base + any_u8() as i32;
            let x = X { e: lit(LiteralType::Date(v), false), x: cat(&[M, ":date"]) };
            both(filter(x, &[0], tab("t", 1)), true);
        }
        // timestamps outside the calendar
        24 => {
            let p = [0, 3, 6][choice(3) as usize];
            let base = [i64::MAX - 255, i64::MIN, i64::MAX - 1_000_000_000_000, i64::MIN + 1_000_000_000_000][choice(4) as usize];
            let value = base + any_u8() as i64;
            let v = lt::PrecisionTimestamp { precision: p, value };
            let (l, n) = match choice(3) {
                0 => (LiteralType::PrecisionTimestamp(v), "precisiontimestamp"),
                1 => (LiteralType::PrecisionTimestampTz(v), "precisiontimestamptz"),
                _ => {
                    let x = X { e: lit(LiteralType::Timestamp(value), false), x: cat(&[M, ":timestamp"]) };
                    return both(filter(x, &[0], tab("t", 1)), true);
                }
            };
            let x = X { e: lit(l, true), x: cat(&[M, ":", n, "?<", &p.to_string(), ">"]) };
            both(filter(x, &[0], tab("t", 1)), true);
        }
        _ => {
            let d = any_i32();
            assume(d > 3_650_000 || d < -3_650_000);
            // the number itself is printed
            assume((d > 3_650_000 && d < 3_650_100) || (d < i32::MIN + 50));
            let l = LiteralType::IntervalDayToSecond(lt::IntervalDayToSecond {
                days: d,
                seconds: 0,
                precision_mode: Some(lt::interval_day_to_second::PrecisionMode::Precision(6)),
                subseconds: 0,
            });
            let x = X { e: lit(l, false), x: cat(&["'", &d.to_string(), "d':interval_day<6>"]) };
            both(filter(x, &[0], tab("t", 1)), true);
        }
    }
}
/// The relation alone and under a root.
fn both(r: R, due: bool) {
    let (p, t) = plan1(&ext1(), r.clone());
    shows(&p, &t, due);
    let (p, t) = plan_root(&ext1(), &["x"], r);
    shows(&p, &t, due);
}

// ----------------------------------------------------------------- fields
const SEEDS: [&str; 7] = [
    "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: f\n  #  2 @  1: g:i64\nTypes:\n  #  1 @  1: point\nType Variations:\n  #  4 @  1: v\n\n=== Plan\nRoot[a]\n  Filter[f($0, 'x', 1:i8):boolean? => $1]\n    Read[s.t => a:point?, b:list<point<i64>>]\n",
    "=== Version 1.2.3\n  producer: p\n  git_hash: ab\n=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: f\n\n=== Plan\nProject[$0, if_then(true -> 1, _ -> 2), ($1)::?i32, f(null:i64?):i64]\n  Sort[($0, &AscNullsFirst), ($1, &DescNullsLast) => $1, $0]\n    Fetch[limit=1, offset=$0 => $0, $1]\n      Read[t => a:i64, b:i64]\n",
    "=== Plan\nJoin[&Left, true, post_filter=false => $0, $1]\n  Cross[$0]\n    Read[t => a:i64]\n    Read[u => b:precisiontimestamp<3>]\n  Set[&UnionAll => $0]\n    Read[t => a:string?]\n    Read[u => a:string?]\n",
    "=== Plan\nRead:Virtual[(1, '2020-01-01':date), (2, null:date?), filter=true => a:i64, b:date?]\n",
    "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  2 @  1: sum\n\n=== Plan\nAggregate[($0, $1), ($0), _ => $0, $1, sum($2):i64]\n  Read[t => a:i64, b:i64, c:interval_day<6>]\n",
    "=== Plan\nProject[1:i8, 2:i16, 1.5:fp32, '10:00:00':time, '2020-01-01T10:00:00':timestamp, '2020-01-01T10:00:00':precisiontimestamp<6>, '10:00:00':precisiontime<3>, '1d 1s 5ms':interval_day<3>]\n  Read[t => a:i64]\n",
    "=== Plan\nRead[t +> a:i64, b:i64 |> $1]\n\nAggregate[_ => ]\n  Read[t => a:i64]\n",
];
const KEEP: &str = "\n\nRoot[z]\n  Filter[true => $1]\n    Read[keep => q:i64, r:string?]\n";
const GROUP: u32 = 8;
/// (fields per seed)
const COUNTS: [u32; 7] = [100, 120, 100, 60, 80, 90, 60];
pub fn fields_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for (s, c) in COUNTS.iter().enumerate() {
        for g in 0..c.div_ceil(GROUP) {
            v.push(s as u32 * 64 + g + if th { 1024 } else { 0 });
        }
    }
    v
}
/// Any one field of an encoded plan removed, repeated, emptied, set to other
/// numbers, cut, or given an unknown part.
pub fn fields(case: u32) {
    let (th, s) = (case >= 1024, (case % 1024 / 64) as usize);
    let first = case % 64 * GROUP;
    let Ok(p) = substrait_explain::parse(SEEDS[s]) else { fail("a seed text does not parse") };
    let mut m = match wire::read(&p.encode_to_vec()) {
        Some(m) => m,
        None => fail("an encoded plan cannot be read"),
    };
    let n = wire::count(&m) as u32;
    check(n <= COUNTS[s], "the seeds have more fields than counted");
    if first >= n {
        return;
    }
    let at = first + choice(GROUP.min(n - first));
    let kind = choice(4);
    wire::at(&mut m, at as usize, &mut |v, i| match kind {
        0 => {
            v.remove(i);
        }
        1 => {
            let f = v[i].clone();
            v.insert(i, f);
        }
        2 => match &mut v[i] {
            wire::Field::Msg(_, c) => c.clear(),
            wire::Field::Bytes(_, c) => {
                // any one character
                for b in c.iter_mut().take(1) {
                    *b = hole(ANY);
                }
            }
            wire::Field::Var(_, x) => {
                *x = any_u8() as u64;
                assume(*x < 128);
            }
            wire::Field::F32(_, x) => x[3] = 0x7f,
            wire::Field::F64(_, x) => {
                x[7] = 0x7f;
                x[6] = 0xf0;
            }
        },
        _ => match &mut v[i] {
            wire::Field::Msg(_, c) => {
                let f = 1 + choice(if th { 60 } else { 32 });
                c.push(if choice(2) == 0 { wire::Field::Var(f, 1) } else { wire::Field::Msg(f, vec![]) });
            }
            wire::Field::Bytes(_, c) => c.clear(),
            wire::Field::Var(_, x) => {
                *x = [
                    0x7fff_ffff,
                    0x8000_0000,
                    0xffff_ffff,
                    u64::MAX,
                    -(1i64 << 31) as u64,
                    1 << 63,
                    i64::MAX as u64,
                    1000,
                ][choice(8) as usize]
            }
            wire::Field::F32(_, x) => x[2] = 0xc0,
            wire::Field::F64(_, x) => x[6] = 0xf8,
        },
    });
    let mut b = vec![];
    wire::write(&m, &mut b);
    let Ok(mut q) = Plan::decode(&b[..]) else {
        cover(2);
        return;
    };
    q.relations.push(root_rel(vec!["z".into()], filter(boolean(true), &[1], read(&["keep"], &[("q".into(), i64t()), ("r".into(), simple(7, NUL))])).r));
    let (out, errs) = formatted(&q);
    emit(&out);
    let t = tokens(&out);
    check(t <= errs, "a token without a reported error");
    let tail = if q.relations.len() == 1 { &KEEP[2..] } else { KEEP };
    check(out.ends_with(tail), "damage to one relation changes the text of another");
    let r = substrait_explain::parse(&out);
    check(t == 0 || r.is_err(), "a text with a token parses");
    if th {
        let (v, errs) = substrait_explain::format_with_options(&q, &substrait_explain::OutputOptions::verbose());
        check(tokens(&v) <= errs.len(), "a token without a reported error");
        let _ = substrait_explain::parse(&v);
    }
    if let Err(e) = r {
        check(!e.to_string().is_empty(), "a parse error has no description");
    }
    cover(1);
}
