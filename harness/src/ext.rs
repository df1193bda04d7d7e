//! C21: registered extension relations and addenda. `Bag<N>` keeps whatever
//! arguments it is given, byte for byte, so what the text says and what the
//! handler receives can be compared exactly.
use super::gen_::*;
use super::rt::*;
use prost::Message;
use substrait::proto;
use substrait::proto::extensions::AdvancedExtension;
use substrait::proto::rel::RelType;
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn,
    ExtensionContext, ExtensionError, ExtensionRegistry, ExtensionValue, TupleValue,
};
use substrait_explain::{OutputOptions, format_with_registry, parse_with_registry};

// ------------------------------------------------------------ byte encoding
fn put(b: &mut Vec<u8>, s: &[u8]) {
    b.push(s.len() as u8);
    b.push((s.len() >> 8) as u8);
    b.extend_from_slice(s);
}
/// While set, integers and references are compared as whole numbers with this
/// value rather than byte by byte.
static mut WATCH: Option<i64> = None;
fn watch() -> Option<i64> {
    // SAFETY: single-threaded
    unsafe { WATCH }
}
pub fn enc_value(v: &ExtensionValue, b: &mut Vec<u8>) -> Result<(), ExtensionError> {
    match v {
        ExtensionValue::String(s) => {
            b.push(0);
            put(b, s.as_bytes());
        }
        ExtensionValue::Integer(i) => {
            b.push(1);
            match watch() {
                Some(w) => {
                    check(*i == w, "an integer argument changed its value");
                    b.extend_from_slice(&[0; 8]);
                }
                None => b.extend_from_slice(&i.to_le_bytes()),
            }
        }
        ExtensionValue::Float(f) => {
            b.push(2);
            b.extend_from_slice(&f.to_bits().to_le_bytes());
        }
        ExtensionValue::Boolean(v) => {
            b.push(3);
            b.push(*v as u8);
        }
        ExtensionValue::Null => b.push(4),
        ExtensionValue::Expr(e) => {
            b.push(5);
            match watch() {
                Some(w) => {
                    check(e.as_direct_reference() == Some(w as i32), "a reference argument changed its value");
                    put(b, &[]);
                }
                None => put(b, &e.as_proto().encode_to_vec()),
            }
        }
        ExtensionValue::Enum(s) => {
            b.push(6);
            put(b, s.as_bytes());
        }
        ExtensionValue::Tuple(t) => {
            b.push(7);
            b.push(t.len() as u8);
            for v in t {
                enc_value(v, b)?;
            }
        }
        ExtensionValue::Error(e) => return Err(e.clone()),
    }
    Ok(())
}
struct Rd<'a>(&'a [u8]);
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.0[0];
        self.0 = &self.0[1..];
        b
    }
    fn take(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u8() as usize + ((self.u8() as usize) << 8);
        self.take(n)
    }
    fn str(&mut self) -> String {
        // SAFETY: written from a String
        unsafe { String::from_utf8_unchecked(self.bytes().to_vec()) }
    }
    fn value(&mut self) -> ExtensionValue {
        match self.u8() {
            1 if watch().is_some() => {
                self.take(8);
                ExtensionValue::Integer(watch().unwrap())
            }
            5 if watch().is_some() => {
                self.bytes();
                ExtensionValue::Expr(Expr::field(watch().unwrap() as i32))
            }
            0 => ExtensionValue::String(self.str()),
            1 => ExtensionValue::Integer(i64::from_le_bytes(self.take(8).try_into().unwrap())),
            2 => ExtensionValue::Float(f64::from_bits(u64::from_le_bytes(self.take(8).try_into().unwrap()))),
            3 => ExtensionValue::Boolean(self.u8() == 1),
            4 => ExtensionValue::Null,
            5 => ExtensionValue::Expr(proto::Expression::decode(self.bytes()).unwrap().into()),
            6 => ExtensionValue::Enum(self.str()),
            _ => {
                let n = self.u8();
                ExtensionValue::Tuple((0..n).map(|_| self.value()).collect::<TupleValue>())
            }
        }
    }
}

// ------------------------------------------------------------ the handlers
/// Argument names a bag knows, in the order it displays them.
pub const NAMES: [&str; 12] = ["k", "alpha", "b2", "mode", "null_ok", "limit", "_x", "two words", "null", "true", "false", "n12"];
/// (text name, type URL)
pub const BAGS: [(&str, &str); 5] = [
    ("Bag", "t.example/bag"),
    ("Other", "t.example/other"),
    ("Twin", "t.example/bag"),
    ("Odd name", "t.example/odd"),
    ("Bag2", "t.example/bag2"),
];
pub struct Bag<const N: usize>(pub Vec<u8>);
impl<const N: usize> AnyConvertible for Bag<N> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), self.0.clone()))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        if any.value.first() == Some(&255) {
            return Err(ExtensionError::Custom("undecodable".into()));
        }
        Ok(Bag(any.value.to_vec()))
    }
    fn type_url() -> String {
        BAGS[N].1.into()
    }
}
impl<const N: usize> Explainable for Bag<N> {
    fn name() -> &'static str {
        BAGS[N].0
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        let mut b = vec![];
        let p = args.positional();
        b.push(p.len() as u8);
        for v in p {
            enc_value(v, &mut b)?;
        }
        for (i, n) in NAMES.iter().enumerate() {
            if let Some(v) = args.get_named_arg(n) {
                b.push(i as u8);
                enc_value(v, &mut b)?;
            }
        }
        b.push(99);
        for c in args.output_columns() {
            match c {
                ExtensionColumn::Named { name, r#type } => {
                    b.push(0);
                    put(&mut b, name.as_bytes());
                    put(&mut b, &r#type.encode_to_vec());
                }
                ExtensionColumn::Expr(e) => {
                    b.push(1);
                    put(&mut b, &e.as_proto().encode_to_vec());
                }
            }
        }
        Ok(Bag(b))
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        let mut r = Rd(&self.0);
        let n = r.u8();
        for _ in 0..n {
            a.push(r.value());
        }
        loop {
            let k = r.u8();
            if k == 99 {
                break;
            }
            a.insert(NAMES[k as usize], r.value());
        }
        while !r.0.is_empty() {
            if r.u8() == 0 {
                let name = r.str();
                let ty = proto::Type::decode(r.bytes()).unwrap();
                a.output_columns.push(ExtensionColumn::Named { name, r#type: ty });
            } else {
                a.output_columns.push(ExtensionColumn::Expr(proto::Expression::decode(r.bytes()).unwrap().into()));
            }
        }
        Ok(a)
    }
}
/// Displays the widths of its inputs.
pub struct Widths;
impl AnyConvertible for Widths {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![]))
    }
    fn from_any<'a>(_: AnyRef<'a>) -> Result<Self, ExtensionError> {
        Ok(Widths)
    }
    fn type_url() -> String {
        "t.example/widths".into()
    }
}
impl Explainable for Widths {
    fn name() -> &'static str {
        "Widths"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        args.positional();
        Ok(Widths)
    }
    fn to_args(&self, c: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        let mut a = ExtensionArgs::default();
        for i in c.inputs() {
            a.push(i.emitted_column_count() as i64);
            a.output_columns.push(ExtensionColumn::field(0));
        }
        Ok(a)
    }
}
pub fn registry() -> ExtensionRegistry {
    let mut r = ExtensionRegistry::new();
    let ok = r.register_relation::<Bag<0>>().is_ok()
        & r.register_relation::<Bag<1>>().is_ok()
        & r.register_relation::<Bag<3>>().is_ok()
        & r.register_relation::<Widths>().is_ok()
        & r.register_enhancement::<Bag<2>>().is_ok()
        & r.register_enhancement::<Bag<1>>().is_ok()
        & r.register_enhancement::<Bag<3>>().is_ok()
        & r.register_enhancement::<Widths>().is_ok()
        & r.register_optimization::<Bag<0>>().is_ok()
        & r.register_optimization::<Bag<1>>().is_ok()
        & r.register_optimization::<Bag<3>>().is_ok()
        & r.register_extension_table::<Bag<0>>().is_ok()
        & r.register_extension_table::<Bag<1>>().is_ok()
        & r.register_extension_table::<Bag<3>>().is_ok();
    check(ok, "registering distinct extensions failed");
    r
}

// ------------------------------------------------------------ builders
/// An argument value: its encoding and its text.
#[derive(Clone)]
pub struct V {
    pub v: Vec<u8>,
    pub x: String,
}
pub fn v_of(v: ExtensionValue, x: &str) -> V {
    let mut b = vec![];
    let _ = enc_value(&v, &mut b);
    V { v: b, x: x.into() }
}
pub fn v_expr(e: X) -> V {
    let mut b = vec![5];
    put(&mut b, &e.e.encode_to_vec());
    V { v: b, x: e.x }
}
pub fn v_tuple(items: Vec<V>) -> V {
    let mut b = vec![7, items.len() as u8];
    let mut x = String::from("(");
    for (i, v) in items.iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        b.extend_from_slice(&v.v);
        x.push_str(&v.x);
    }
    if items.len() == 1 {
        x.push(',');
    }
    x.push(')');
    V { v: b, x }
}
fn plain(i: u32) -> V {
    match i % 4 {
        0 => v_of(ExtensionValue::Integer(i as i64), &i.to_string()),
        1 => v_of(ExtensionValue::Null, "null"),
        2 => v_of(ExtensionValue::Boolean(true), "true"),
        _ => v_of(ExtensionValue::Enum("E".into()), "&E"),
    }
}
/// Values of every kind, with symbolic contents.
pub const VALUES: u32 = 18;
pub fn value(k: u32) -> V {
    match k {
        0 => {
            let s = sym_str(IDC, 2);
            let x = cat(&["'", &s, "'"]);
            v_of(ExtensionValue::String(s), &x)
        }
        1 => {
            let i = below(100) as i64;
            let x = i.to_string();
            v_of(ExtensionValue::Integer(i), &x)
        }
        2 => v_of(ExtensionValue::Float(1.5), "1.5"),
        3 => {
            let b = any_bool();
            v_of(ExtensionValue::Boolean(b), if b { "true" } else { "false" })
        }
        4 => v_of(ExtensionValue::Null, "null"),
        5 => v_expr(field(below(100) as i32)),
        6 => {
            let mut s = sym_str(ALP, 1);
            s.push_str(&sym_str(IDC, 2));
            let x = cat(&["&", &s]);
            v_of(ExtensionValue::Enum(s), &x)
        }
        7 => v_expr(call("f", 1, vec![field(0), int(3)], i64t())),
        8 => v_expr(X { e: lit(proto::expression::literal::LiteralType::I16(7), false), x: "7:i16".into() }),
        9 => v_expr(cast(field(1), simple(7, NUL), 1)),
        10 => v_expr(if_then(vec![(boolean(true), field(0))], int(1))),
        11 => v_expr(X {
            e: lit(proto::expression::literal::LiteralType::Null(simple(4, NUL).t), false),
            x: "null:i64?".into(),
        }),
        12 => v_expr(X { e: lit(proto::expression::literal::LiteralType::Date(1), false), x: "'1970-01-02':date".into() }),
        13 => v_of(ExtensionValue::Integer(i64::MIN), "-9223372036854775808"),
        14 => v_of(ExtensionValue::String("a'\\\n\u{e9}\"".into()), "'a\\'\\\\\\n\u{e9}\\\"'"),
        15 => v_of(ExtensionValue::String(String::new()), "''"),
        16 => v_of(ExtensionValue::Float(-0.25), "-0.25"),
        _ => v_of(ExtensionValue::String("true, (k=$0) => [x]".into()), "'true, (k=$0) => [x]'"),
    }
}
#[derive(Clone)]
pub enum C {
    Named(String, T),
    Ex(X),
}
/// Positional, named (index into NAMES, ascending) and output columns.
#[derive(Clone, Default)]
pub struct A {
    pub p: Vec<V>,
    pub n: Vec<(usize, V)>,
    pub c: Vec<C>,
}
impl A {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![self.p.len() as u8];
        for v in &self.p {
            b.extend_from_slice(&v.v);
        }
        for (i, v) in &self.n {
            b.push(*i as u8);
            b.extend_from_slice(&v.v);
        }
        b.push(99);
        for c in &self.c {
            match c {
                C::Named(n, t) => {
                    b.push(0);
                    put(&mut b, n.as_bytes());
                    put(&mut b, &t.t.encode_to_vec());
                }
                C::Ex(e) => {
                    b.push(1);
                    put(&mut b, &e.e.encode_to_vec());
                }
            }
        }
        b
    }
    pub fn text(&self) -> String {
        let mut x = String::new();
        for v in &self.p {
            if !x.is_empty() {
                x.push_str(", ");
            }
            x.push_str(&v.x);
        }
        for (i, v) in &self.n {
            if !x.is_empty() {
                x.push_str(", ");
            }
            x.push_str(&name_text(NAMES[*i]));
            x.push('=');
            x.push_str(&v.x);
        }
        if x.is_empty() {
            x.push('_');
        }
        for (i, c) in self.c.iter().enumerate() {
            x.push_str(if i == 0 { " => " } else { ", " });
            match c {
                C::Named(n, t) => {
                    x.push_str(&name_text(n));
                    x.push(':');
                    x.push_str(&t.x);
                }
                C::Ex(e) => x.push_str(&e.x),
            }
        }
        x
    }
}
pub fn any_of(url: &str, b: Vec<u8>) -> Any {
    Any::new(url.into(), b)
}
pub const EXTS: [&str; 3] = ["ExtensionLeaf", "ExtensionSingle", "ExtensionMulti"];
pub fn ext_rel_raw(kind: usize, head: String, any: Any, w: usize, kids: Vec<R>) -> R {
    let l = {
        let k: Vec<&R> = kids.iter().collect();
        under(head, &[], &k)
    };
    let detail = Some(any.into());
    let common = direct();
    let mut ch: Vec<proto::Rel> = kids.into_iter().map(|k| k.r).collect();
    let r = rel(match kind {
        0 => RelType::ExtensionLeaf(proto::ExtensionLeafRel { common, detail }),
        1 => RelType::ExtensionSingle(Box::new(proto::ExtensionSingleRel {
            common,
            detail,
            input: Some(Box::new(ch.remove(0))),
        })),
        _ => RelType::ExtensionMulti(proto::ExtensionMultiRel { common, detail, inputs: ch }),
    });
    R { r, l, w }
}
/// An extension relation holding bag `bag`.
pub fn ext_rel(kind: usize, bag: usize, a: &A, kids: Vec<R>) -> R {
    let arrow = if a.c.is_empty() { " => " } else { "" };
    let head = cat(&[EXTS[kind], ":", &name_text(BAGS[bag].0), "[", &a.text(), arrow, "]"]);
    ext_rel_raw(kind, head, any_of(BAGS[bag].1, a.bytes()), a.c.len(), kids)
}
/// An addendum: 0 = enhancement, 1 = optimization.
#[derive(Clone)]
pub struct Add {
    pub kind: usize,
    pub bag: usize,
    pub a: A,
}
impl Add {
    fn line(&self) -> String {
        cat(&["+ ", ["Enh", "Opt", "Ext"][self.kind], ":", &name_text(BAGS[self.bag].0), "[", &self.a.text(), "]"])
    }
}
/// Attach addenda (at most one enhancement, listed first) to a standard relation.
pub fn with(mut r: R, adds: &[Add]) -> R {
    let mut ae = AdvancedExtension::default();
    let mut at = 1;
    while at < r.l.len() && r.l[at].0 == 1 && (r.l[at].1.starts_with("- ") || r.l[at].1.starts_with("+ Ext")) {
        at += 1;
    }
    for a in adds {
        let any = any_of(BAGS[a.bag].1, a.a.bytes());
        if a.kind == 0 {
            ae.enhancement = Some(any.into());
        } else {
            ae.optimization.push(any.into());
        }
        r.l.insert(at, (1, a.line()));
        at += 1;
    }
    let ae = if adds.is_empty() { None } else { Some(ae) };
    match &mut r.r.rel_type {
        Some(RelType::Read(x)) => x.advanced_extension = ae,
        Some(RelType::Filter(x)) => x.advanced_extension = ae,
        Some(RelType::Project(x)) => x.advanced_extension = ae,
        Some(RelType::Sort(x)) => x.advanced_extension = ae,
        Some(RelType::Fetch(x)) => x.advanced_extension = ae,
        Some(RelType::Join(x)) => x.advanced_extension = ae,
        Some(RelType::Cross(x)) => x.advanced_extension = ae,
        Some(RelType::Set(x)) => x.advanced_extension = ae,
        Some(RelType::Aggregate(x)) => x.advanced_extension = ae,
        _ => fail("relation without addenda"),
    }
    r
}
/// `Read:Extension[cols]` with its detail.
pub fn ext_read(bag: usize, a: &A, cs: &[(String, T)]) -> R {
    let add = Add { kind: 2, bag, a: a.clone() };
    R {
        r: rel(RelType::Read(Box::new(proto::ReadRel {
            common: direct(),
            base_schema: schema(cs),
            read_type: Some(proto::read_rel::ReadType::ExtensionTable(proto::read_rel::ExtensionTable {
                detail: Some(any_of(BAGS[bag].1, a.bytes()).into()),
            })),
            ..Default::default()
        }))),
        l: vec![(0, cat(&["Read:Extension[", &columns(cs), "]"])), (1, add.line())],
        w: cs.len(),
    }
}

// ------------------------------------------------------------ checks
pub fn agree_reg(plan: &proto::Plan, text: &str, reg: &ExtensionRegistry) {
    emit(text);
    let (out, errs) = format_with_registry(plan, &OutputOptions::default(), reg);
    if !same_text(&out, text) {
        emit("\nformatted:\n");
        emit(&out);
        fail("the formatted text is not the documented text of the plan");
    }
    check(errs.is_empty(), "formatting a supported plan reported errors");
    parses_reg(text, plan, reg);
}
pub fn parses_reg(text: &str, plan: &proto::Plan, reg: &ExtensionRegistry) {
    match parse_with_registry(text, reg) {
        Ok(p) => {
            if p != *plan {
                fail("parsing the text gives a different plan");
            }
        }
        Err(_) => fail("the text of a supported plan does not parse"),
    }
    cover(1);
}
pub fn rejected_reg(text: &str, reg: &ExtensionRegistry, why: &str) {
    emit(text);
    if parse_with_registry(text, reg).is_ok() {
        fail(why);
    }
    cover(2);
}
fn named_cols(n: usize) -> Vec<C> {
    cols(n).into_iter().map(|(n, t)| C::Named(n, t)).collect()
}
/// Put arguments in one of the places they can stand.
const PLACES: u32 = 6;
fn in_place(w: u32, a: A) {
    let bag = [0, 1, 0, 1, 2, 0][w as usize];
    let r = match w {
        0 => ext_rel(0, bag, &a, vec![]),
        1 => ext_rel(1, bag, &a, vec![tab("t", 2)]),
        2 => ext_rel(2, bag, &a, vec![tab("t", 1), tab("u", 2)]),
        3 => ext_read(bag, &a, &cols(2)),
        4 => with(tab("t", 1), &[Add { kind: 0, bag, a }]),
        _ => with(filter(boolean(true), &[0], tab("t", 1)), &[Add { kind: 1, bag, a }]),
    };
    let (p, x) = plan1(&ext1(), r);
    agree_reg(&p, &x, &registry());
}

// ------------------------------------------------------------ harnesses
pub fn values_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..VALUES {
        for w in 0..PLACES {
            v.push(k * 8 + w);
        }
    }
    v
}
/// Every kind of value, positional, named and in tuples, in every place.
pub fn values(case: u32) {
    let (k, w) = (case / 8, case % 8);
    let mut a = A::default();
    match choice(7) {
        0 => a.p.push(value(k)),
        1 => a.n.push((0, value(k))),
        2 => a.p.push(v_tuple(vec![value(k)])),
        3 => a.n.push((1, v_tuple(vec![value(4), value(k)]))),
        4 => a.p.push(v_tuple(vec![v_tuple(vec![]), v_tuple(vec![value(k), value(2), value(4)])])),
        5 => {
            a.p.push(value(4));
            a.p.push(value(k));
            a.p.push(value(15));
        }
        _ => {
            a.p.push(value(4));
            a.n.push((2, value(15)));
            a.n.push((3, value(k)));
            a.n.push((4, value(2)));
        }
    }
    in_place(w, a);
}
fn tuple_shape(depth: u32, max: u32) -> V {
    let n = choice(max + 1);
    let mut v = vec![];
    for i in 0..n {
        v.push(if depth > 1 && choice(2) == 1 {
            tuple_shape(depth - 1, max)
        } else {
            v_of(ExtensionValue::Integer(i as i64 + 4), ["4", "5", "6"][i as usize])
        });
    }
    v_tuple(v)
}
pub fn tuples_cases(th: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..PLACES).collect();
    v.extend(8..16);
    if th {
        v.extend(16..16 + PLACES);
    }
    v
}
/// Tuples of every shape to depth 3, and wider and deeper ones.
pub fn tuples(case: u32) {
    let mut a = A::default();
    let w = match case {
        0..8 => {
            a.p.push(if case == 0 { tuple_shape(3, 2) } else { tuple_shape(2, 3) });
            case
        }
        8..16 => {
            // wide or deep
            let n = case - 8 + 3;
            let mut t: Vec<V> = (0..n).map(|i| value(if i % 2 == 0 { 4 } else { 2 })).collect();
            if choice(2) == 1 {
                for _ in 0..n {
                    t = vec![v_tuple(t)];
                }
            } else {
                t = vec![v_tuple(t.clone()), v_tuple(vec![v_tuple(t)])];
            }
            a.n.push((1, v_tuple(t)));
            case % PLACES
        }
        _ => {
            a.n.push((0, tuple_shape(3, 3)));
            case - 16
        }
    };
    in_place(w, a);
}
pub fn ints_cases(_: bool) -> Vec<u32> {
    (0..PLACES * 2).collect()
}
/// Integer arguments hold every 64-bit value; references every index.
pub fn ints(case: u32) {
    let w = case % PLACES;
    let mut a = A::default();
    if case < PLACES {
        let i = any_i64();
        // SAFETY: single-threaded
        unsafe { WATCH = Some(i) };
        let x = i.to_string();
        a.p.push(v_of(ExtensionValue::Integer(i), &x));
    } else {
        let i = any_i32();
        assume(i >= 0);
        // SAFETY: single-threaded
        unsafe { WATCH = Some(i as i64) };
        let mut v = v_expr(field(i));
        v.v = vec![5, 0, 0];
        a.n.push((0, v));
    }
    in_place(w, a);
    // SAFETY: single-threaded
    unsafe { WATCH = None };
}
pub fn strings_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..PLACES {
        for n in 1..=(if th { 3 } else { 2 }) {
            v.push(w * 8 + n);
        }
    }
    v
}
/// String arguments of any ASCII characters survive.
pub fn strings_(case: u32) {
    let (w, n) = (case / 8, (case % 8) as usize);
    let s = sym_str(ANY, n);
    let mut a = A::default();
    a.p.push(v_of(ExtensionValue::String(s), ""));
    let r = match w {
        0 => ext_rel(0, 0, &a, vec![]),
        1 => ext_rel(1, 0, &a, vec![tab("t", 2)]),
        2 => ext_rel(2, 0, &a, vec![tab("t", 1), tab("u", 2)]),
        3 => ext_read(0, &a, &cols(2)),
        4 => with(tab("t", 1), &[Add { kind: 0, bag: 2, a }]),
        _ => with(filter(boolean(true), &[0], tab("t", 1)), &[Add { kind: 1, bag: 0, a }]),
    };
    let (p, _) = plan1(&ext0(), r);
    let reg = registry();
    let (x, errs) = format_with_registry(&p, &OutputOptions::default(), &reg);
    emit(&x);
    check(errs.is_empty(), "formatting a supported plan reported errors");
    parses_reg(&x, &p, &reg);
}
pub fn counts_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..PLACES {
        for p in if th { vec![0, 1, 2, 3, 5, 9, 10, 12] } else { vec![0, 3, 10] } {
            for n in if th { vec![0, 1, 2, 3, 5, 8, 9, 12] } else { vec![0, 2, 11] } {
                v.push(w * 256 + p * 16 + n);
            }
        }
        // many positional ones
        v.extend([w * 256 + 13 * 16, w * 256 + 14 * 16 + 2]);
    }
    v
}
/// Any number of positional and named arguments, one of any kind anywhere.
pub fn counts(case: u32) {
    let (w, p, n) = (case / 256, case / 16 % 16, case % 16);
    let p = [p, 40, 200][(p as usize).saturating_sub(12).min(2)];
    let mut a = A::default();
    let at = spot(p + n);
    let k = [0, 1, 3, 5, 6, 7, 10, 12, 14, 17, VALUES][choice(11) as usize];
    let odd = || if k == VALUES { v_tuple(vec![plain(0), plain(1)]) } else { value(k) };
    for i in 0..p {
        a.p.push(if i == at { odd() } else { plain(i) });
    }
    for i in 0..n {
        a.n.push((i as usize, if p + i == at { odd() } else { plain(i + 1) }));
    }
    in_place(w, a);
}
pub fn columns_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for kind in 0..3 {
        for n in [0, 1, 2, 3, 5, 11, 260] {
            v.push(kind * 1024 + n);
        }
    }
    v
}
/// Output columns of every kind; their number is the width seen by parents.
pub fn out_columns(case: u32) {
    let (kind, n) = ((case / 1024) as usize, case % 1024);
    let mut a = A::default();
    let at = spot(n);
    a.c = named_cols(n as usize);
    if n > 0 {
        a.c[at as usize] = match choice(6) {
            0 => C::Named("two words".into(), simple(7, NUL)),
            1 => C::Named("p".into(), user("point", 1, NUL, vec![])),
            2 => C::Ex(field(below(100) as i32)),
            3 => C::Ex(call("f", 1, vec![field(0)], i64t())),
            4 => C::Ex(cast(field(0), list(simple(0, NUL), REQ), 2)),
            _ => C::Named("null".into(), prec_type(0, 6, REQ)),
        };
    }
    let kids = match kind {
        0 => vec![],
        1 => vec![tab("t", 2)],
        _ => (0..n % 4).map(|_| tab("t", 2)).collect(),
    };
    let r = ext_rel(kind, n as usize % 2, &a, kids);
    let w = r.w;
    let r = match choice(6) {
        0 => r,
        1 => filter(boolean(true), &ident(w), r),
        2 if w > 0 => filter(boolean(true), &sym_refs(2, w), r),
        3 if w > 0 => project(vec![P::Ex(int(1)), P::Ref(0)], r),
        4 => cross(&ident(w + 1), r, tab("v", 1)),
        _ => cross(&ident(w + 1), tab("v", 1), r),
    };
    let (p, x) = plan1(&ext1(), r);
    agree_reg(&p, &x, &registry());
}
pub fn context_cases(_: bool) -> Vec<u32> {
    (0..6).collect()
}
fn width_text(w: &[usize]) -> String {
    let mut x = String::new();
    for (i, n) in w.iter().enumerate() {
        if i > 0 {
            x.push_str(", ");
        }
        x.push_str(&n.to_string());
    }
    for i in 0..w.len() {
        x.push_str(if i == 0 { " => $0" } else { ", $0" });
    }
    if w.is_empty() { "_ => ".into() } else { x }
}
/// A handler sees the emitted width of each of its inputs, in order.
pub fn context(n: u32) {
    let kind = if n == 0 { [0, 2][choice(2) as usize] } else if n == 1 { 1 + choice(2) as usize } else { 2 };
    let mut kids = vec![];
    let mut ws = vec![];
    let at = choice(n);
    for i in 0..n {
        let k = if i == at {
            match choice(9) {
                0 => filter(boolean(true), &sym_refs(1, 2), tab("t", 2)),
                1 => filter(boolean(true), &[], tab("t", 2)),
                2 => project(vec![P::Ref(0), P::Ex(int(1)), P::Ref(0)], tab("t", 2)),
                3 => join(0, boolean(true), None, &ident(4), tab("t", 2), tab("u", 2)),
                4 => ext_rel(0, 0, &A { c: named_cols(5), ..A::default() }, vec![]),
                5 => cross(&[3, 0, 0], tab("t", 2), tab("u", 2)),
                6 => virt(vec![vec![int(1), int(2), int(3)]], None, &cols(3)),
                7 => ext_rel(1, 0, &A { c: named_cols(3), ..A::default() }, vec![tab("t", 1)]),
                _ => set(6, &[0, 1, 0], vec![tab("t", 2), tab("u", 2)]),
            }
        } else {
            tab("t", (i % 3) as usize)
        };
        ws.push(k.w);
        kids.push(k);
    }
    let head = cat(&[EXTS[kind], ":Widths[", &width_text(&ws), "]"]);
    let r = ext_rel_raw(kind, head, any_of("t.example/widths", vec![]), ws.len(), kids);
    let r = if choice(2) == 0 { r } else { with(filter(boolean(true), &ident(n as usize), r), &[]) };
    let (p, x) = plan1(&ext0(), r);
    agree_reg(&p, &x, &registry());
}
/// Standard relations an addendum can stand on.
const STD: u32 = 12;
fn std_rel(k: u32) -> R {
    let c = || call("f", 1, vec![field(0)], simple(0, NUL));
    match k {
        0 => tab("t", 2),
        1 => virt(vec![vec![int(1)], vec![int(2)]], Some(boolean(true)), &cols(1)),
        2 => virt(vec![vec![int(1)], vec![int(2)], vec![int(3)], vec![int(4)]], None, &cols(1)),
        3 => filter(c(), &[0], tab("t", 1)),
        4 => project(vec![P::Ref(0), P::Ex(int(1))], tab("t", 1)),
        5 => sort(vec![(field(0), 0)], &[0], tab("t", 1)),
        6 => fetch(Some(int(1)), None, &[0], tab("t", 1)),
        7 => join(0, c(), None, &[0, 1], tab("t", 1), tab("u", 1)),
        8 => cross(&[0, 1], tab("t", 1), tab("u", 1)),
        9 => set(6, &[0], vec![tab("t", 1), tab("u", 1)]),
        10 => super::rels::aggregate1(&[0], tab("t", 1)),
        _ => ext_read(1, &A { p: vec![plain(0)], ..A::default() }, &cols(1)),
    }
}
fn arg(i: u32) -> A {
    match i {
        0 => A::default(),
        1 => A { p: vec![plain(4)], ..A::default() },
        2 => A { n: vec![(0, value(3)), (1, value(4))], ..A::default() },
        3 => A { p: vec![v_expr(field(0)), v_tuple(vec![plain(3)])], n: vec![(7, value(4))], ..A::default() },
        _ => A { p: vec![v_expr(call("g", 2, vec![], i64t()))], ..A::default() },
    }
}
pub fn addenda_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..STD {
        for n in if th { vec![0, 1, 2, 3, 4, 9] } else { vec![0, 1, 3] } {
            v.push(k * 16 + n);
        }
    }
    v
}
/// Addenda on every relation: none or one enhancement and 0 to 4
/// optimizations, in order, anywhere in the tree.
pub fn addenda(case: u32) {
    let (k, n) = (case / 16, case % 16);
    let mut adds = vec![];
    if choice(2) == 1 {
        let i = choice(5);
        adds.push(Add { kind: 0, bag: [1, 2, 3][i as usize % 3], a: arg(i) });
    }
    let at = choice(n);
    for i in 0..n {
        let j = if i == at { choice(5) } else { i % 2 };
        adds.push(Add { kind: 1, bag: [0, 1, 3][(i + j) as usize % 3], a: if i == at { arg(j) } else { A { p: vec![plain(i)], ..A::default() } } });
    }
    let r = with(std_rel(k), &adds);
    let r = match (k + n + adds.len() as u32) % 4 {
        0 => r,
        1 => with(filter(boolean(true), &ident(r.w), r), &[Add { kind: 1, bag: 0, a: arg(1) }]),
        2 => cross(&ident(r.w + 2), r, with(tab("v", 2), &[Add { kind: 0, bag: 1, a: arg(2) }])),
        _ => ext_rel(1, 0, &A { c: named_cols(2), ..A::default() }, vec![r]),
    };
    let names = ["x", "y"];
    let (p, x) = if k % 2 == 0 { plan1(&ext1(), r) } else { plan_root(&ext1(), &names, r) };
    agree_reg(&p, &x, &registry());
}
pub fn order_cases(_: bool) -> Vec<u32> {
    (0..STD).collect()
}
/// Enhancement and optimization lines may be written in any order; the
/// optimizations keep theirs.
pub fn order(k: u32) {
    let e = Add { kind: 0, bag: 1, a: arg(1) };
    let o1 = Add { kind: 1, bag: 0, a: arg(2) };
    let o2 = Add { kind: 1, bag: 1, a: arg(1) };
    let r = with(std_rel(k), &[e.clone(), o1.clone(), o2.clone()]);
    let (p, _) = plan1(&ext1(), r);
    let mut three = match choice(3) {
        0 => vec![e, o1, o2],
        1 => vec![o1, e, o2],
        _ => vec![o1, o2, e],
    };
    if k == 11 {
        let x = Add { kind: 2, bag: 1, a: A { p: vec![value(1)], ..A::default() } };
        let at = choice(4) as usize;
        let mut s = ext_read(1, &x.a, &cols(1));
        // the symbolic value must be the same on both sides
        let r = with(s.clone(), &[three.iter().find(|a| a.kind == 0).unwrap().clone()]);
        let _ = r;
        s.l.truncate(1);
        three.insert(at, x.clone());
        let mut l = s.l.clone();
        for a in &three {
            l.push((1, a.line()));
        }
        let ee: Vec<Add> = [0usize, 1].iter().flat_map(|k| three.iter().filter(move |a| a.kind == *k).cloned()).collect();
        let (p, _) = plan1(&ext1(), with(ext_read(1, &x.a, &cols(1)), &ee));
        let t = cat(&[&ext1().text(), "=== Plan\n", &lines(&l, 0)]);
        emit(&t);
        return parses_reg(&t, &p, &registry());
    }
    let base = std_rel(k);
    let mut l = base.l.clone();
    let mut at = 1;
    while at < l.len() && l[at].0 == 1 && l[at].1.starts_with("- ") {
        at += 1;
    }
    for a in &three {
        l.insert(at, (1, a.line()));
        at += 1;
    }
    let t = cat(&[&ext1().text(), "=== Plan\n", &lines(&l, 0)]);
    emit(&t);
    parses_reg(&t, &p, &registry());
}
pub fn named_order_cases(_: bool) -> Vec<u32> {
    (0..PLACES).collect()
}
/// Named arguments may be written in any order, with optional spaces and
/// quoted names, and a tuple may end with a comma.
pub fn named_order(w: u32) {
    let all = choice(2);
    let sp = || if all == 0 { "" } else { ["", " "][choice(2) as usize] };
    let (v1, v2) = (value(1), value(3));
    let want = A { p: vec![v_tuple(vec![value(4), value(15)])], n: vec![(0, v1.clone()), (3, v2.clone())], ..A::default() };
    let a1 = cat(&[["k", "\"k\""][choice(2) as usize], sp(), "=", &v1.x]);
    let a2 = cat(&["mode=", sp(), &v2.x]);
    let (x1, x2) = if choice(2) == 0 { (a1, a2) } else { (a2, a1) };
    let t = cat(&["(null,", sp(), "''", ["", ","][choice(2) as usize], "),", sp(), &x1, ", ", &x2]);
    let bag = [0, 1, 0, 1, 2, 0][w as usize];
    let bt = cat(&[&name_text(BAGS[bag].0), "[", &t, "]"]);
    let (r, x) = match w {
        0 => (ext_rel(0, bag, &want, vec![]), cat(&["ExtensionLeaf:", &bt, "\n"])),
        1 => (ext_rel(1, bag, &want, vec![tab("t", 1)]), cat(&["ExtensionSingle:", &bt, "\n  Read[t => a:i64]\n"])),
        2 => (ext_rel(2, bag, &want, vec![]), cat(&["ExtensionMulti:", &bt, "\n"])),
        3 => (ext_read(bag, &want, &cols(1)), cat(&["Read:Extension[a:i64]\n  + Ext:", &bt, "\n"])),
        4 => (with(tab("t", 1), &[Add { kind: 0, bag, a: want }]), cat(&["Read[t => a:i64]\n  +", sp(), "Enh:", &bt, "\n"])),
        _ => (with(tab("t", 1), &[Add { kind: 1, bag, a: want }]), cat(&["Read[t => a:i64]\n  +", sp(), "Opt:", &bt, "\n"])),
    };
    let (p, _) = plan1(&ext0(), r);
    let x = cat(&["=== Plan\n", &x]);
    emit(&x);
    parses_reg(&x, &p, &registry());
}
pub const BAD: [&str; 37] = [
    "ExtensionLeaf:Bag[k=1, k=2]\n",
    "ExtensionLeaf:Bag[k=1, alpha=1, \"k\"=1]\n",
    "Read[t => a:i64]\n  + Opt:Bag[mode=null, mode=null]\n",
    "Read[t => a:i64]\n  + Enh:Other[_]\n  + Enh:Other[_]\n",
    "Read[t => a:i64]\n  + Enh:Other[_]\n  + Opt:Bag[_]\n  + Enh:Twin[_]\n",
    "Read[t => a:i64]\n  + Ext:Bag[_]\n",
    "Read:Virtual[(1) => a:i64]\n  + Ext:Bag[_]\n",
    "Filter[true => $0]\n  + Ext:Bag[_]\n  Read[t => a:i64]\n",
    "Set[&UnionAll => $0]\n  + Ext:Bag[_]\n  Read[t => a:i64]\n  Read[u => a:i64]\n",
    "Read:Extension[a:i64]\n",
    "Read:Extension[a:i64]\n  + Enh:Other[_]\n",
    "Read:Extension[a:i64]\n  + Ext:Bag[_]\n  + Ext:Bag[_]\n",
    "Read:Extension[a:i64]\n  + Ext:Bag[_]\n  + Enh:Other[_]\n  + Enh:Other[_]\n",
    "Read:Extension[a:i64]\n  + Ext:Bag[_]\n  + Opt:Bag[_]\n  + Ext:Other[_]\n",
    "+ Enh:Other[_]\n",
    "+ Opt:Bag[_]\nRead[t => a:i64]\n",
    "Read[t => a:i64]\n+ Enh:Other[_]\n",
    "Filter[true => $0]\n  Read[t => a:i64]\n  + Enh:Other[_]\n",
    "Filter[true => $0]\n  Read[t => a:i64]\n  + Opt:Bag[_]\n",
    "ExtensionLeaf:Bag[_]\n  + Enh:Other[_]\n",
    "ExtensionLeaf:Bag[_]\n  + Opt:Bag[_]\n",
    "ExtensionSingle:Bag[_]\n  + Opt:Bag[_]\n  Read[t => a:i64]\n",
    "ExtensionMulti:Bag[_]\n  + Ext:Bag[_]\n  Read[t => a:i64]\n",
    "Root[a]\n  + Enh:Other[_]\n  Read[t => a:i64]\n",
    "ExtensionLeaf:Bag[_]\n  Read[t => a:i64]\n",
    "ExtensionSingle:Bag[_]\n",
    "ExtensionSingle:Bag[_]\n  Read[t => a:i64]\n  Read[u => a:i64]\n",
    "ExtensionSingle:Bag[_]\n  Read[t => a:i64]\n  Read[u => a:i64]\n  Read[v => a:i64]\n",
    "Read:Extension[a:i64]\n  + Ext:Bag[_]\n  Read[t => a:i64]\n",
    "ExtensionLeaf:Nope[_]\n",
    "ExtensionLeaf:Twin[_]\n",
    "Read[t => a:i64]\n  + Enh:Bag[_]\n",
    "Read[t => a:i64]\n  + Opt:Twin[_]\n",
    "Read:Extension[a:i64]\n  + Ext:Widths[_]\n",
    "ExtensionLeaf:Bag[unknown=1]\n",
    "ExtensionLeaf:Widths[x=1]\n",
    "Read[t => a:i64]\n  + Enh:Widths[k=1]\n",
];
pub fn bad_cases(_: bool) -> Vec<u32> {
    (0..BAD.len() as u32).collect()
}
/// Misplaced, repeated, missing, unknown addenda and extensions are errors,
/// under any parent.
pub fn bad(case: u32) {
    let b = BAD[case as usize];
    let mut t = String::from("=== Plan\n");
    let depth = if b.starts_with('+') || b.contains("\n+") || b.starts_with("Root") { 0 } else { choice(3) };
    if depth == 1 {
        t.push_str("Root[x]\n");
    }
    if depth == 2 {
        t.push_str("ExtensionMulti:Bag[_]\n  Read[t => a:i64]\n");
    }
    for l in b.lines() {
        if depth > 0 {
            t.push_str("  ");
        }
        t.push_str(l);
        t.push('\n');
    }
    rejected_reg(&t, &registry(), "a misplaced or unknown extension was accepted");
}
pub fn unknown_cases(_: bool) -> Vec<u32> {
    (0..PLACES * 3).collect()
}
fn contains(h: &str, n: &str) -> bool {
    let (h, n) = (h.as_bytes(), n.as_bytes());
    let mut i = 0;
    while i + n.len() <= h.len() {
        if &h[i..i + n.len()] == n {
            return true;
        }
        i += 1;
    }
    false
}
/// Details no handler knows, or that cannot be decoded, are shown as a failure
/// token and reported; the rest of the plan is still shown.
pub fn unknown(case: u32) {
    let (w, how) = (case % PLACES, case / PLACES);
    let a = A { p: vec![value(1)], ..A::default() };
    let bag = [0, 1, 0, 1, 2, 0][w as usize];
    let mut any = any_of(BAGS[bag].1, a.bytes());
    if how == 1 {
        any = any_of("t.example/unknown", a.bytes());
    }
    if how == 2 {
        any = any_of(BAGS[bag].1, vec![255]);
    }
    let reg = if how == 0 { ExtensionRegistry::new() } else { registry() };
    let r = match w {
        0 => ext_rel_raw(0, "ExtensionLeaf[!{extension}]".into(), any, 0, vec![]),
        1 => ext_rel_raw(1, "ExtensionSingle[!{extension}]".into(), any, 0, vec![tab("t", 2)]),
        2 => ext_rel_raw(2, "ExtensionMulti[!{extension}]".into(), any, 0, vec![tab("t", 1), tab("u", 1)]),
        3 => {
            let mut r = ext_read(bag, &a, &cols(1));
            if let Some(RelType::Read(x)) = &mut r.r.rel_type {
                x.read_type = Some(proto::read_rel::ReadType::ExtensionTable(proto::read_rel::ExtensionTable { detail: Some(any.into()) }));
            }
            r.l[1].1 = "+ Ext[!{extension}]".into();
            r
        }
        _ => {
            let mut r = with(filter(boolean(true), &[0], tab("t", 1)), &[Add { kind: w as usize - 4, bag, a }]);
            if let Some(RelType::Filter(x)) = &mut r.r.rel_type {
                let mut ae = AdvancedExtension::default();
                if w == 4 {
                    ae.enhancement = Some(any.into());
                } else {
                    ae.optimization.push(any.into());
                }
                x.advanced_extension = Some(ae);
            }
            r.l[1].1 = if w == 4 { "+ Enh[!{extension}]".into() } else { "+ Opt[!{extension}]".into() };
            r
        }
    };
    let r = if choice(2) == 0 { r } else { cross(&[1, 0], tab("v", 2), r) };
    let (p, x) = plan1(&ext0(), r);
    emit(&x);
    let (out, errs) = format_with_registry(&p, &OutputOptions::default(), &reg);
    emit("\nformatted:\n");
    emit(&out);
    check(errs.len() == 1, "an unknown or undecodable detail must be reported exactly once");
    check(contains(&out, "!{"), "an unknown or undecodable detail must show a failure token");
    check(same_text(&out, &x), "the rest of the plan must be shown around the failure token");
    check(parse_with_registry(&out, &reg).is_err(), "a failure token must not parse");
}
pub fn unreg_cases(_: bool) -> Vec<u32> {
    (0..PLACES).collect()
}
/// Without handlers, texts with extensions are parse errors.
pub fn unregistered(w: u32) {
    let a = A { p: vec![value(1)], ..A::default() };
    let bag = [0, 1, 0, 1, 2, 0][w as usize];
    let r = match w {
        0 => ext_rel(0, bag, &a, vec![]),
        1 => ext_rel(1, bag, &a, vec![tab("t", 2)]),
        2 => ext_rel(2, bag, &a, vec![tab("t", 1), tab("u", 2)]),
        3 => ext_read(bag, &a, &cols(2)),
        4 => with(tab("t", 1), &[Add { kind: 0, bag, a }]),
        _ => with(filter(boolean(true), &[0], tab("t", 1)), &[Add { kind: 1, bag, a }]),
    };
    let (_, x) = plan1(&ext0(), r);
    rejected(&x, "an extension without a handler was accepted");
}
pub fn names_cases(_: bool) -> Vec<u32> {
    (0..PLACES).collect()
}
/// Extension names and argument names that need quotes are quoted.
pub fn names(w: u32) {
    let mut n = vec![(6, value(1)), (7, value(3))];
    match choice(4) {
        0 => {}
        k => n = vec![(7 + k as usize, value(1)), (10, value(3)), (11, value(0))],
    }
    if n[0].0 == n[1].0 {
        n.remove(0);
    }
    let p = if choice(2) == 0 { vec![] } else { vec![value(4)] };
    let a = A { p, n, ..A::default() };
    let r = match w {
        0 => ext_rel(0, 3, &a, vec![]),
        1 => ext_rel(1, 3, &a, vec![tab("t", 2)]),
        2 => ext_rel(2, 3, &a, vec![tab("t", 1), tab("u", 2)]),
        3 => ext_read(3, &a, &cols(2)),
        4 => with(tab("t", 1), &[Add { kind: 0, bag: 3, a }]),
        _ => with(filter(boolean(true), &[0], tab("t", 1)), &[Add { kind: 1, bag: 3, a }]),
    };
    let (p, x) = plan1(&ext0(), r);
    agree_reg(&p, &x, &registry());
}
#[allow(dead_code)]
fn _unused(e: EnumValue, x: Expr) -> (EnumValue, Expr) {
    (e, x)
}
