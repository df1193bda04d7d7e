//! Builders that produce a Substrait message together with the text the
//! documented grammar gives it, written independently of the crate under test.
use super::rt::*;
use substrait::proto;
use proto::expression::field_reference::{ReferenceType, RootReference, RootType};
use proto::expression::literal::LiteralType;
use proto::expression::{
    Cast, FieldReference, IfThen, Literal, ReferenceSegment, RexType, ScalarFunction, if_then,
    reference_segment,
};
use proto::extensions::simple_extension_declaration::{
    ExtensionFunction, ExtensionType, ExtensionTypeVariation, MappingType,
};
use proto::extensions::{SimpleExtensionDeclaration, SimpleExtensionUrn};
use proto::join_rel::JoinType;
use proto::rel::RelType;
use proto::rel_common::{Direct, Emit, EmitKind};
use proto::r#type::{self as pt, Kind};
use proto::{
    Expression, FunctionArgument, NamedStruct, Plan, PlanRel, Rel, RelCommon, RelRoot, Type,
    function_argument::ArgType, plan_rel, read_rel,
};

pub const REQ: i32 = 2;
pub const NUL: i32 = 1;
pub const UNS: i32 = 0;

pub fn qm(n: i32) -> &'static str {
    match n {
        NUL => "?",
        REQ => "",
        _ => "⁉",
    }
}

// ------------------------------------------------------------------ types
pub const NSIMPLE: u32 = 15;
pub const SIMPLE: [&str; 15] = [
    "boolean", "i8", "i16", "i32", "i64", "fp32", "fp64", "string", "binary", "timestamp",
    "timestamp_tz", "date", "time", "interval_year", "uuid",
];
macro_rules! kd {
    ($k:ident, $t:ident, $n:expr) => {
        Kind::$k(pt::$t { nullability: $n, type_variation_reference: 0 })
    };
}
#[allow(deprecated)]
pub fn simple_kind(i: u32, n: i32) -> Kind {
    match i {
        0 => kd!(Bool, Boolean, n),
        1 => kd!(I8, I8, n),
        2 => kd!(I16, I16, n),
        3 => kd!(I32, I32, n),
        4 => kd!(I64, I64, n),
        5 => kd!(Fp32, Fp32, n),
        6 => kd!(Fp64, Fp64, n),
        7 => kd!(String, String, n),
        8 => kd!(Binary, Binary, n),
        9 => kd!(Timestamp, Timestamp, n),
        10 => kd!(TimestampTz, TimestampTz, n),
        11 => kd!(Date, Date, n),
        12 => kd!(Time, Time, n),
        13 => kd!(IntervalYear, IntervalYear, n),
        _ => kd!(Uuid, Uuid, n),
    }
}
pub fn kind(k: Kind) -> Type {
    Type { kind: Some(k) }
}
/// A type and its text.
#[derive(Clone)]
pub struct T {
    pub t: Type,
    pub x: String,
}
pub fn simple(i: u32, n: i32) -> T {
    T { t: kind(simple_kind(i, n)), x: cat(&[SIMPLE[i as usize], qm(n)]) }
}
pub fn i64t() -> T {
    simple(4, REQ)
}
pub fn list(e: T, n: i32) -> T {
    T {
        t: kind(Kind::List(Box::new(pt::List {
            r#type: Some(Box::new(e.t)),
            nullability: n,
            type_variation_reference: 0,
        }))),
        x: cat(&["list", qm(n), "<", &e.x, ">"]),
    }
}
pub const PREC: [&str; 4] = ["precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day"];
pub fn prec_type(i: u32, p: i32, n: i32) -> T {
    let k = match i {
        0 => Kind::PrecisionTimestamp(pt::PrecisionTimestamp { precision: p, nullability: n, type_variation_reference: 0 }),
        1 => Kind::PrecisionTimestampTz(pt::PrecisionTimestampTz { precision: p, nullability: n, type_variation_reference: 0 }),
        2 => Kind::PrecisionTime(pt::PrecisionTime { precision: p, nullability: n, type_variation_reference: 0 }),
        _ => Kind::IntervalDay(pt::IntervalDay { precision: Some(p), nullability: n, type_variation_reference: 0 }),
    };
    T { t: kind(k), x: cat(&[PREC[i as usize], qm(n), "<", &p.to_string(), ">"]) }
}
pub fn user(name: &str, anchor: u32, n: i32, params: Vec<T>) -> T {
    let mut x = cat(&[name, qm(n)]);
    if !params.is_empty() {
        x.push('<');
        for (i, p) in params.iter().enumerate() {
            if i > 0 {
                x.push_str(", ");
            }
            x.push_str(&p.x);
        }
        x.push('>');
    }
    T {
        t: kind(Kind::UserDefined(pt::UserDefined {
            type_reference: anchor,
            nullability: n,
            type_variation_reference: 0,
            type_parameters: params
                .into_iter()
                .map(|p| pt::Parameter { parameter: Some(pt::parameter::Parameter::DataType(p.t)) })
                .collect(),
        })),
        x,
    }
}

// ------------------------------------------------------------ expressions
/// An expression and its text.
#[derive(Clone)]
pub struct X {
    pub e: Expression,
    pub x: String,
}
pub fn rex(r: RexType) -> Expression {
    Expression { rex_type: Some(r) }
}
pub fn lit(l: LiteralType, nullable: bool) -> Expression {
    rex(RexType::Literal(Literal { literal_type: Some(l), nullable, type_variation_reference: 0 }))
}
pub fn field_e(i: i32) -> Expression {
    rex(RexType::Selection(Box::new(FieldReference {
        reference_type: Some(ReferenceType::DirectReference(ReferenceSegment {
            reference_type: Some(reference_segment::ReferenceType::StructField(Box::new(
                reference_segment::StructField { field: i, child: None },
            ))),
        })),
        root_type: Some(RootType::RootReference(RootReference {})),
    })))
}
pub fn field(i: i32) -> X {
    X { e: field_e(i), x: cat(&["$", &i.to_string()]) }
}
pub fn int(v: i64) -> X {
    X { e: lit(LiteralType::I64(v), false), x: v.to_string() }
}
pub fn boolean(v: bool) -> X {
    X { e: lit(LiteralType::Boolean(v), false), x: (if v { "true" } else { "false" }).into() }
}
pub fn arg(e: Expression) -> FunctionArgument {
    FunctionArgument { arg_type: Some(ArgType::Value(e)) }
}
#[allow(deprecated)]
pub fn call(name: &str, anchor: u32, args: Vec<X>, out: T) -> X {
    let mut x = cat(&[name, "("]);
    for (i, a) in args.iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        x.push_str(&a.x);
    }
    x.push_str("):");
    x.push_str(&out.x);
    X {
        e: rex(RexType::ScalarFunction(ScalarFunction {
            function_reference: anchor,
            arguments: args.into_iter().map(|a| arg(a.e)).collect(),
            options: vec![],
            output_type: Some(out.t),
            args: vec![],
        })),
        x,
    }
}
pub fn cast(a: X, t: T, behaviour: i32) -> X {
    let b = match behaviour {
        1 => "?",
        2 => "!",
        _ => "",
    };
    X {
        e: rex(RexType::Cast(Box::new(Cast {
            r#type: Some(t.t),
            input: Some(Box::new(a.e)),
            failure_behavior: behaviour,
        }))),
        x: cat(&["(", &a.x, ")::", b, &t.x]),
    }
}
pub fn if_then(ifs: Vec<(X, X)>, els: X) -> X {
    let mut x = String::from("if_then(");
    let mut v = vec![];
    for (c, t) in ifs {
        x.push_str(&c.x);
        x.push_str(" -> ");
        x.push_str(&t.x);
        x.push_str(", ");
        v.push(if_then::IfClause { r#if: Some(c.e), then: Some(t.e) });
    }
    x.push_str("_ -> ");
    x.push_str(&els.x);
    x.push(')');
    X { e: rex(RexType::IfThen(Box::new(IfThen { ifs: v, r#else: Some(Box::new(els.e)) }))), x }
}

// -------------------------------------------------------------- relations
/// A relation, its header line(s), addenda and children (as text lines with
/// relative depth) and its output width.
#[derive(Clone)]
pub struct R {
    pub r: Rel,
    /// (depth, text)
    pub l: Vec<(usize, String)>,
    pub w: usize,
}
pub fn direct() -> Option<RelCommon> {
    Some(RelCommon { emit_kind: Some(EmitKind::Direct(Direct {})), ..Default::default() })
}
pub fn emit_of(m: &[i32], width: usize) -> Option<RelCommon> {
    let mut id = m.len() == width;
    for (i, v) in m.iter().enumerate() {
        id &= *v == i as i32;
    }
    if id { direct() } else { emit_explicit(m) }
}
pub fn emit_explicit(m: &[i32]) -> Option<RelCommon> {
    Some(RelCommon { emit_kind: Some(EmitKind::Emit(Emit { output_mapping: m.to_vec() })), ..Default::default() })
}
pub fn rel(r: RelType) -> Rel {
    Rel { rel_type: Some(r) }
}
pub fn refs(m: &[i32]) -> String {
    let mut x = String::new();
    for (i, v) in m.iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        x.push('$');
        x.push_str(&v.to_string());
    }
    x
}
/// `n` references below `w`, symbolic.
pub fn sym_refs(n: usize, w: usize) -> Vec<i32> {
    (0..n).map(|_| below(w as u32) as i32).collect()
}
pub fn ident(w: usize) -> Vec<i32> {
    (0..w as i32).collect()
}
pub fn under(head: String, addenda: &[String], kids: &[&R]) -> Vec<(usize, String)> {
    let mut l = vec![(0, head)];
    for a in addenda {
        l.push((1, a.clone()));
    }
    for k in kids {
        for (d, s) in &k.l {
            l.push((d + 1, s.clone()));
        }
    }
    l
}
pub fn schema(cols: &[(String, T)]) -> Option<NamedStruct> {
    Some(NamedStruct {
        names: cols.iter().map(|c| c.0.clone()).collect(),
        r#struct: Some(pt::Struct {
            types: cols.iter().map(|c| c.1.t.clone()).collect(),
            type_variation_reference: 0,
            nullability: REQ,
        }),
    })
}
/// `names` are printed by `name_text`.
pub fn columns(cols: &[(String, T)]) -> String {
    let mut x = String::new();
    for (i, (n, t)) in cols.iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        x.push_str(&name_text(n));
        x.push(':');
        x.push_str(&t.x);
    }
    x
}
pub fn read_rel_of(names: Vec<String>, cols: &[(String, T)], common: Option<RelCommon>) -> Rel {
    rel(RelType::Read(Box::new(proto::ReadRel {
        common,
        base_schema: schema(cols),
        read_type: Some(read_rel::ReadType::NamedTable(read_rel::NamedTable { names, advanced_extension: None })),
        ..Default::default()
    })))
}
pub fn read(table: &[&str], cols: &[(String, T)]) -> R {
    let mut tn = String::new();
    for (i, n) in table.iter().enumerate() {
        if i > 0 {
            tn.push('.');
        }
        tn.push_str(&name_text(n));
    }
    R {
        r: read_rel_of(table.iter().map(|s| s.to_string()).collect(), cols, direct()),
        l: vec![(0, cat(&["Read[", &tn, " => ", &columns(cols), "]"]))],
        w: cols.len(),
    }
}
pub fn cols(w: usize) -> Vec<(String, T)> {
    const N: [&str; 24] = [
        "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v",
        "w", "x",
    ];
    (0..w).map(|i| (if i < 24 { N[i].to_string() } else { cat(&["c", &i.to_string()]) }, i64t())).collect()
}
/// `Read[t => a:i64, b:i64, ...]`
pub fn tab(name: &str, w: usize) -> R {
    read(&[name], &cols(w))
}
pub fn filter(c: X, m: &[i32], k: R) -> R {
    R {
        l: under(cat(&["Filter[", &c.x, " => ", &refs(m), "]"]), &[], &[&k]),
        r: rel(RelType::Filter(Box::new(proto::FilterRel {
            common: emit_of(m, k.w),
            input: Some(Box::new(k.r)),
            condition: Some(Box::new(c.e)),
            advanced_extension: None,
        }))),
        w: m.len(),
    }
}
/// Project output items: a reference or a computed expression.
pub enum P {
    Ref(i32),
    Ex(X),
}
pub fn project(items: Vec<P>, k: R) -> R {
    let mut x = String::from("Project[");
    let mut m = vec![];
    let mut ex = vec![];
    for (i, it) in items.into_iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        match it {
            P::Ref(r) => {
                x.push('$');
                x.push_str(&r.to_string());
                m.push(r);
            }
            P::Ex(e) => {
                x.push_str(&e.x);
                m.push((k.w + ex.len()) as i32);
                ex.push(e.e);
            }
        }
    }
    x.push(']');
    let w = m.len();
    R {
        l: under(x, &[], &[&k]),
        r: rel(RelType::Project(Box::new(proto::ProjectRel {
            common: emit_of(&m, k.w + ex.len()),
            input: Some(Box::new(k.r)),
            expressions: ex,
            advanced_extension: None,
        }))),
        w,
    }
}
pub const DIRS: [&str; 5] = ["AscNullsFirst", "AscNullsLast", "DescNullsFirst", "DescNullsLast", "Clustered"];
pub fn sort(fields: Vec<(X, u32)>, m: &[i32], k: R) -> R {
    let mut x = String::from("Sort[");
    let mut s = vec![];
    for (i, (e, d)) in fields.into_iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        x.push('(');
        x.push_str(&e.x);
        x.push_str(", &");
        x.push_str(DIRS[d as usize]);
        x.push(')');
        s.push(proto::SortField {
            expr: Some(e.e),
            sort_kind: Some(proto::sort_field::SortKind::Direction(d as i32 + 1)),
        });
    }
    x.push_str(" => ");
    x.push_str(&refs(m));
    x.push(']');
    R {
        l: under(x, &[], &[&k]),
        r: rel(RelType::Sort(Box::new(proto::SortRel {
            common: emit_of(m, k.w),
            input: Some(Box::new(k.r)),
            sorts: s,
            advanced_extension: None,
        }))),
        w: m.len(),
    }
}
pub fn fetch(limit: Option<X>, offset: Option<X>, m: &[i32], k: R) -> R {
    let mut x = String::from("Fetch[");
    if let Some(l) = &limit {
        x.push_str("limit=");
        x.push_str(&l.x);
    }
    if let Some(o) = &offset {
        if limit.is_some() {
            x.push_str(", ");
        }
        x.push_str("offset=");
        x.push_str(&o.x);
    }
    if limit.is_none() && offset.is_none() {
        x.push('_');
    }
    x.push_str(" => ");
    x.push_str(&refs(m));
    x.push(']');
    R {
        l: under(x, &[], &[&k]),
        r: rel(RelType::Fetch(Box::new(proto::FetchRel {
            common: emit_of(m, k.w),
            input: Some(Box::new(k.r)),
            advanced_extension: None,
            offset_mode: offset.map(|o| proto::fetch_rel::OffsetMode::OffsetExpr(Box::new(o.e))),
            count_mode: limit.map(|l| proto::fetch_rel::CountMode::CountExpr(Box::new(l.e))),
        }))),
        w: m.len(),
    }
}
/// name, proto number, (uses left, uses right, extra)
pub const JOINS: [(&str, JoinType, usize, usize, usize); 12] = [
    ("Inner", JoinType::Inner, 1, 1, 0),
    ("Outer", JoinType::Outer, 1, 1, 0),
    ("Left", JoinType::Left, 1, 1, 0),
    ("Right", JoinType::Right, 1, 1, 0),
    ("LeftSemi", JoinType::LeftSemi, 1, 0, 0),
    ("RightSemi", JoinType::RightSemi, 0, 1, 0),
    ("LeftAnti", JoinType::LeftAnti, 1, 0, 0),
    ("RightAnti", JoinType::RightAnti, 0, 1, 0),
    ("LeftSingle", JoinType::LeftSingle, 1, 0, 0),
    ("RightSingle", JoinType::RightSingle, 0, 1, 0),
    ("LeftMark", JoinType::LeftMark, 1, 0, 1),
    ("RightMark", JoinType::RightMark, 0, 1, 1),
];
pub fn join_width(t: usize, l: usize, r: usize) -> usize {
    l * JOINS[t].2 + r * JOINS[t].3 + JOINS[t].4
}
pub fn join(t: usize, c: X, post: Option<X>, m: &[i32], a: R, b: R) -> R {
    // the parser takes left + right columns as the direct output of every join
    // type, so an identity mapping of a narrower join stays explicit
    let w = a.w + b.w;
    let mut x = cat(&["Join[&", JOINS[t].0, ", ", &c.x]);
    if let Some(p) = &post {
        x.push_str(", post_filter=");
        x.push_str(&p.x);
    }
    x.push_str(" => ");
    x.push_str(&refs(m));
    x.push(']');
    R {
        l: under(x, &[], &[&a, &b]),
        r: rel(RelType::Join(Box::new(proto::JoinRel {
            common: emit_of(m, w),
            left: Some(Box::new(a.r)),
            right: Some(Box::new(b.r)),
            expression: Some(Box::new(c.e)),
            post_join_filter: post.map(|p| Box::new(p.e)),
            r#type: JOINS[t].1 as i32,
            advanced_extension: None,
        }))),
        w: m.len(),
    }
}
pub fn cross(m: &[i32], a: R, b: R) -> R {
    R {
        l: under(cat(&["Cross[", &refs(m), "]"]), &[], &[&a, &b]),
        r: rel(RelType::Cross(Box::new(proto::CrossRel {
            common: emit_of(m, a.w + b.w),
            left: Some(Box::new(a.r)),
            right: Some(Box::new(b.r)),
            advanced_extension: None,
        }))),
        w: m.len(),
    }
}
pub const SETS: [(&str, i32); 8] = [
    ("MinusPrimary", 1),
    ("MinusPrimaryAll", 7),
    ("MinusMultiset", 2),
    ("IntersectionPrimary", 3),
    ("IntersectionMultiset", 4),
    ("IntersectionMultisetAll", 8),
    ("UnionDistinct", 5),
    ("UnionAll", 6),
];
pub fn set(op: usize, m: &[i32], kids: Vec<R>) -> R {
    let w = kids[0].w;
    let ks: Vec<&R> = kids.iter().collect();
    let l = under(cat(&["Set[&", SETS[op].0, " => ", &refs(m), "]"]), &[], &ks);
    R {
        l,
        r: rel(RelType::Set(proto::SetRel {
            common: emit_of(m, w),
            inputs: kids.into_iter().map(|k| k.r).collect(),
            op: SETS[op].1,
            advanced_extension: None,
        })),
        w: m.len(),
    }
}
pub fn virt(rows: Vec<Vec<X>>, flt: Option<X>, cs: &[(String, T)]) -> R {
    let many = rows.len() >= 3;
    virt_as(many, rows, flt, cs)
}
/// A virtual table written on one line or on several.
pub fn virt_as(many: bool, rows: Vec<Vec<X>>, flt: Option<X>, cs: &[(String, T)]) -> R {
    let row = |r: &Vec<X>| {
        let mut x = String::from("(");
        for (i, e) in r.iter().enumerate() {
            if i > 0 {
                x.push_str(", ");
            }
            x.push_str(&e.x);
        }
        x.push(')');
        x
    };
    let mut l = vec![];
    if many {
        l.push((0, String::from("Read:Virtual[")));
        for (i, r) in rows.iter().enumerate() {
            let comma = if i + 1 == rows.len() && flt.is_none() { "" } else { "," };
            l.push((1, cat(&["- ", &row(r), comma])));
        }
        if let Some(f) = &flt {
            l.push((1, cat(&["- filter=", &f.x])));
        }
        l.push((1, cat(&["- => ", &columns(cs), "]"])));
    } else {
        let mut x = String::from("Read:Virtual[");
        if rows.is_empty() {
            x.push('_');
        }
        for (i, r) in rows.iter().enumerate() {
            if i > 0 {
                x.push_str(", ");
            }
            x.push_str(&row(r));
        }
        if let Some(f) = &flt {
            x.push_str(", filter=");
            x.push_str(&f.x);
        }
        x.push_str(" => ");
        x.push_str(&columns(cs));
        x.push(']');
        l.push((0, x));
    }
    R {
        r: rel(RelType::Read(Box::new(proto::ReadRel {
            common: direct(),
            base_schema: schema(cs),
            filter: flt.map(|f| Box::new(f.e)),
            read_type: Some(read_rel::ReadType::VirtualTable(read_rel::VirtualTable {
                expressions: rows
                    .into_iter()
                    .map(|r| proto::expression::nested::Struct { fields: r.into_iter().map(|e| e.e).collect() })
                    .collect(),
                ..Default::default()
            })),
            ..Default::default()
        }))),
        l,
        w: cs.len(),
    }
}
#[allow(deprecated)]
pub fn measure(x: &X) -> proto::aggregate_rel::Measure {
    let Some(RexType::ScalarFunction(f)) = &x.e.rex_type else { fail("measure") };
    proto::aggregate_rel::Measure {
        measure: Some(proto::AggregateFunction {
            function_reference: f.function_reference,
            arguments: f.arguments.clone(),
            output_type: f.output_type.clone(),
            ..Default::default()
        }),
        filter: None,
    }
}

// ------------------------------------------------------------------- plan
pub struct Ext {
    pub urns: Vec<(u32, String)>,
    pub funcs: Vec<(u32, u32, String)>,
    pub types: Vec<(u32, u32, String)>,
    pub vars: Vec<(u32, u32, String)>,
}
pub fn ext0() -> Ext {
    Ext { urns: vec![], funcs: vec![], types: vec![], vars: vec![] }
}
/// One URN; functions f#1, g#2, sum#3; types pt#1, box#2.
pub fn ext1() -> Ext {
    Ext {
        urns: vec![(1, "/u".into())],
        funcs: vec![(1, 1, "f".into()), (2, 1, "g".into()), (3, 1, "sum".into())],
        types: vec![(1, 1, "point".into()), (2, 1, "boxed".into())],
        vars: vec![],
    }
}
pub fn pad(v: u32) -> String {
    let s = v.to_string();
    let mut r = String::new();
    for _ in s.len()..3 {
        r.push(' ');
    }
    r.push_str(&s);
    r
}
pub fn urn_proto(a: u32, u: &str) -> SimpleExtensionUrn {
    SimpleExtensionUrn { extension_urn_anchor: a, urn: u.into() }
}
#[allow(deprecated)]
pub fn decl(kind: u32, anchor: u32, urn: u32, name: &str) -> SimpleExtensionDeclaration {
    SimpleExtensionDeclaration {
        mapping_type: Some(match kind {
            0 => MappingType::ExtensionFunction(ExtensionFunction {
                extension_urn_reference: urn,
                function_anchor: anchor,
                name: name.into(),
            }),
            1 => MappingType::ExtensionType(ExtensionType {
                extension_urn_reference: urn,
                type_anchor: anchor,
                name: name.into(),
            }),
            _ => MappingType::ExtensionTypeVariation(ExtensionTypeVariation {
                extension_urn_reference: urn,
                type_variation_anchor: anchor,
                name: name.into(),
            }),
        }),
    }
}
impl Ext {
    pub fn text(&self) -> String {
        let mut x = String::new();
        if self.urns.is_empty() && self.funcs.is_empty() && self.types.is_empty() && self.vars.is_empty() {
            return x;
        }
        x.push_str("=== Extensions\n");
        if !self.urns.is_empty() {
            x.push_str("URNs:\n");
            for (a, u) in &self.urns {
                x.push_str(&cat(&["  @", &pad(*a), ": ", u, "\n"]));
            }
        }
        for (h, v) in [("Functions:\n", &self.funcs), ("Types:\n", &self.types), ("Type Variations:\n", &self.vars)] {
            if !v.is_empty() {
                x.push_str(h);
                for (a, u, n) in v.iter() {
                    x.push_str(&cat(&["  #", &pad(*a), " @", &pad(*u), ": ", n, "\n"]));
                }
            }
        }
        x.push('\n');
        x
    }
    pub fn fill(&self, p: &mut Plan) {
        for (a, u) in &self.urns {
            p.extension_urns.push(urn_proto(*a, u));
        }
        // declarations are listed by anchor, then kind
        let mut all = vec![];
        for (k, v) in [(0, &self.funcs), (1, &self.types), (2, &self.vars)] {
            for (a, u, n) in v.iter() {
                all.push((*a, k, *u, n));
            }
        }
        all.sort_by_key(|x| (x.0, x.1));
        for (a, k, u, n) in all {
            p.extensions.push(decl(k, a, u, n));
        }
    }
}
pub fn lines(l: &[(usize, String)], base: usize) -> String {
    let mut x = String::new();
    for (d, s) in l {
        for _ in 0..(d + base) {
            x.push_str("  ");
        }
        x.push_str(s);
        x.push('\n');
    }
    x
}
pub fn plan_rel(r: Rel) -> PlanRel {
    PlanRel { rel_type: Some(plan_rel::RelType::Rel(r)) }
}
pub fn root_rel(names: Vec<String>, r: Rel) -> PlanRel {
    PlanRel { rel_type: Some(plan_rel::RelType::Root(RelRoot { names, input: Some(r) })) }
}
/// A plan with one bare relation, and its text.
pub fn plan1(ext: &Ext, r: R) -> (Plan, String) {
    let mut p = Plan::default();
    ext.fill(&mut p);
    let t = cat(&[&ext.text(), "=== Plan\n", &lines(&r.l, 0)]);
    p.relations.push(plan_rel(r.r));
    (p, t)
}
pub fn plan_root(ext: &Ext, names: &[&str], r: R) -> (Plan, String) {
    let mut p = Plan::default();
    ext.fill(&mut p);
    let mut n = String::from("Root[");
    for (i, s) in names.iter().enumerate() {
        if i > 0 {
            n.push_str(", ");
        }
        n.push_str(&name_text(s));
    }
    n.push_str("]\n");
    let t = cat(&[&ext.text(), "=== Plan\n", &n, &lines(&r.l, 1)]);
    p.relations.push(root_rel(names.iter().map(|s| s.to_string()).collect(), r.r));
    (p, t)
}

// ----------------------------------------------------------------- checks
pub fn cat(v: &[&str]) -> String {
    let mut x = String::new();
    for s in v {
        x.push_str(s);
    }
    x
}
/// Text of a name: bare when it is an identifier, else quoted. Only for names
/// without characters that need an escape.
pub fn name_text(s: &str) -> String {
    let b = s.as_bytes();
    let mut id = !b.is_empty() && b[0].is_ascii_alphabetic();
    for c in b {
        id &= c.is_ascii_alphanumeric() | (*c == b'_');
    }
    if id { s.into() } else { cat(&["\"", s, "\""]) }
}
pub fn same_text(a: &str, b: &str) -> bool {
    a.as_bytes() == b.as_bytes()
}
/// `text` is the canonical text of `plan`: parsing it gives the plan and
/// formatting the plan gives it, without errors.
pub fn agree(plan: &Plan, text: &str) {
    emit(text);
    let (out, errs) = substrait_explain::format(plan);
    if !same_text(&out, text) {
        emit("\nformatted:\n");
        emit(&out);
        fail("the formatted text is not the documented text of the plan");
    }
    check(errs.is_empty(), "formatting a supported plan reported errors");
    parses_to(text, plan);
}
pub fn parses_to(text: &str, plan: &Plan) {
    match substrait_explain::parse(text) {
        Ok(p) => {
            if p != *plan {
                fail("parsing the text gives a different plan");
            }
        }
        Err(_) => fail("the text of a supported plan does not parse"),
    }
    cover(1);
}
pub fn rejected(text: &str, why: &str) {
    emit(text);
    if substrait_explain::parse(text).is_ok() {
        fail(why);
    }
    cover(2);
}
