//! C20: how a handler gets at its arguments.
use super::gen_::*;
use super::rt::*;
use substrait::proto;
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::expression::reference_segment::{self, MapKey, StructField};
use substrait::proto::expression::{FieldReference, ReferenceSegment, RexType, field_reference};
use substrait_explain::extensions::{
    ArgsAccess, EnumValue, Explainable, Expr, ExtensionArgs, ExtensionColumn, ExtensionContext, ExtensionError,
    ExtensionProtoConvert, ExtensionValue, ExtensionValueKind, TupleValue,
};

type Script = fn(&mut ArgsAccess<'_>) -> Result<(), ExtensionError>;
fn nothing(_: &mut ArgsAccess<'_>) -> Result<(), ExtensionError> {
    Ok(())
}
static mut SCRIPT: Script = nothing;
/// Reads its arguments as the script says.
struct Scripted;
impl Explainable for Scripted {
    fn name() -> &'static str {
        "Scripted"
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        // SAFETY: single-threaded
        let f = unsafe { SCRIPT };
        f(args)?;
        Ok(Scripted)
    }
    fn to_args(&self, _: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        Ok(ExtensionArgs::default())
    }
}
fn run(args: &ExtensionArgs, f: Script) -> Result<(), ExtensionError> {
    // SAFETY: single-threaded
    unsafe { SCRIPT = f };
    args.parse::<Scripted>().map(|_| ())
}
fn same_err(a: &ExtensionError, b: &ExtensionError) -> bool {
    use ExtensionError::*;
    match (a, b) {
        (MissingArgument { name: a }, MissingArgument { name: b }) => a == b,
        (NamedArgumentConversion { name: a, source: s }, NamedArgumentConversion { name: b, source: t }) => {
            a == b && same_err(s, t)
        }
        (ArgumentConversion { expected: a, source: s }, ArgumentConversion { expected: b, source: t }) => {
            a == b && same_err(s, t)
        }
        (InvalidArgumentType { expected: a, actual: b }, InvalidArgumentType { expected: c, actual: d }) => a == c && b == d,
        (InvalidArgument(a), InvalidArgument(b)) => a == b,
        (Custom(a), Custom(b)) => a == b,
        _ => false,
    }
}
fn expect<T>(r: Result<T, ExtensionError>, want: &ExtensionError) {
    match r {
        Ok(_) => fail("an argument that is not of the type asked for was converted"),
        Err(e) => check(same_err(&e, want), "another error was reported"),
    }
}

// ------------------------------------------------------------ what was handled
const KEYS: [&str; 4] = ["b", "a", "Z", "aa"];
static mut PLAN: (u32, u32, u32, u32) = (0, 0, 0, 0);
/// The handler: (method, names asked for, positional?, outcome).
fn ask(args: &mut ArgsAccess<'_>) -> Result<(), ExtensionError> {
    // SAFETY: single-threaded
    let (how, mask, pos, out) = unsafe { PLAN };
    for (i, k) in KEYS.iter().enumerate() {
        if mask >> i & 1 == 0 {
            continue;
        }
        match how {
            0 => {
                args.get_named_arg(k);
            }
            1 => {
                args.get_named::<i64>(k)?;
            }
            // a failed conversion the handler does not mind
            2 => {
                let _ = args.get_named::<bool>(k);
            }
            3 => {
                let _ = args.get_named_tuple::<i64>(k);
            }
            4 => {
                let _ = args.expect_named::<i64>(k);
            }
            _ => {
                let _ = args.expect_named::<String>(k);
                args.get_named_arg(k);
                args.get_named_arg("absent");
            }
        }
    }
    if pos == 1 {
        args.positional();
    }
    let _ = args.output_columns();
    if out == 1 { Err(ExtensionError::Custom("no".into())) } else { Ok(()) }
}
pub fn handled_cases(_: bool) -> Vec<u32> {
    (0..24).collect()
}
/// Arguments a handler did not ask for are refused; all others are not.
pub fn handled(case: u32) {
    let (how, present4) = (case / 4, case % 4);
    let present = present4 | choice(4) << 2;
    let mask = choice(16);
    let npos = choice(3);
    let (pos, out) = (choice(2), choice(2));
    let mut a = ExtensionArgs::default();
    for i in 0..npos {
        a.push(any_i64() & !(i as i64));
    }
    // in another order than the handler asks
    for i in [2, 0, 3, 1] {
        if present >> i & 1 == 1 {
            a.insert(KEYS[i], any_i64());
        }
    }
    if choice(2) == 1 {
        a.output_columns.push(ExtensionColumn::field(0));
    }
    // SAFETY: single-threaded
    unsafe { PLAN = (how, mask, pos, out) };
    let got = run(&a, ask);
    if out == 1 {
        return expect(got, &ExtensionError::Custom("no".into()));
    }
    if npos > 0 && pos == 0 {
        let m = ["", "Unhandled positional arguments: 1", "Unhandled positional arguments: 2"][npos as usize];
        return expect(got, &ExtensionError::InvalidArgument(m.into()));
    }
    let left = present & !mask;
    if left == 0 {
        return check(got.is_ok(), "arguments that were all read were refused");
    }
    let mut m = String::from("Unknown named arguments: ");
    let mut first = true;
    for i in [2, 1, 3, 0] {
        if left >> i & 1 == 1 {
            if !first {
                m.push_str(", ");
            }
            first = false;
            m.push_str(KEYS[i]);
        }
    }
    expect(got, &ExtensionError::InvalidArgument(m))
}
pub fn many_cases(_: bool) -> Vec<u32> {
    vec![10, 11, 40, 130, 260]
}
/// Many arguments: exactly one is not asked for, or none.
pub fn many(n: u32) {
    let mut a = ExtensionArgs::default();
    let skip = if n > 40 { spot(n + 1) } else { choice(n + 1) };
    let name = |i: u32| cat(&["n", &i.to_string()]);
    for i in 0..n {
        a.push(i as i64);
        a.insert(name(i), i as i64);
    }
    // SAFETY: single-threaded
    unsafe { PLAN = (n, skip, 0, 0) };
    let got = run(&a, |args| {
        // SAFETY: single-threaded
        let (n, skip, ..) = unsafe { PLAN };
        for (i, v) in args.positional().iter().enumerate() {
            check(matches!(v, ExtensionValue::Integer(k) if *k == i as i64), "positional arguments changed places");
        }
        for i in (0..n).rev() {
            if i != skip {
                let v: i64 = args.expect_named(&cat(&["n", &i.to_string()]))?;
                check(v == i as i64, "another argument was returned");
            }
        }
        Ok(())
    });
    if skip == n {
        check(got.is_ok(), "arguments that were all read were refused");
    } else {
        expect(got, &ExtensionError::InvalidArgument(cat(&["Unknown named arguments: ", &name(skip)])));
    }
}

// ------------------------------------------------------------ conversions
const KINDS: u32 = 12;
fn seg(f: Option<reference_segment::ReferenceType>) -> Expr {
    proto::Expression {
        rex_type: Some(RexType::Selection(Box::new(FieldReference {
            reference_type: Some(field_reference::ReferenceType::DirectReference(ReferenceSegment { reference_type: f })),
            root_type: None,
        }))),
    }
    .into()
}
/// A value of each kind, with symbolic contents.
fn val(k: u32) -> (ExtensionValue, ExtensionValueKind) {
    use ExtensionValueKind as K;
    match k {
        0 => (ExtensionValue::String(sym_str(ANY, 2)), K::String),
        1 => (ExtensionValue::Integer(any_i64()), K::Integer),
        2 => (ExtensionValue::Float(f64::from_bits(any_i64() as u64)), K::Float),
        3 => (ExtensionValue::Boolean(any_bool()), K::Boolean),
        4 => (ExtensionValue::Null, K::Null),
        5 => (ExtensionValue::Error(ExtensionError::Custom(sym_str(ANY, 1))), K::Error),
        6 => (ExtensionValue::Expr(Expr::field(any_i32())), K::Expression),
        7 => (ExtensionValue::Enum(sym_str(ANY, 2)), K::Enum),
        8 => (
            ExtensionValue::Tuple(TupleValue::from(vec![ExtensionValue::Integer(any_i64()), ExtensionValue::Null])),
            K::Tuple,
        ),
        9 => (
            ExtensionValue::Expr(
                proto::expression::Literal {
                    literal_type: Some(LiteralType::I32(any_i32())),
                    nullable: any_bool(),
                    type_variation_reference: any_u32(),
                }
                .into(),
            ),
            K::Expression,
        ),
        10 => (ExtensionValue::Expr(proto::Expression { rex_type: None }.into()), K::Expression),
        _ => (ExtensionValue::Tuple(TupleValue::from(vec![])), K::Tuple),
    }
}
fn wrong(v: &ExtensionValue, k: ExtensionValueKind, want: ExtensionValueKind) -> ExtensionError {
    match v {
        ExtensionValue::Error(e) => ExtensionError::ArgumentConversion { expected: want, source: Box::new(e.clone()) },
        _ => ExtensionError::InvalidArgumentType { expected: want, actual: k },
    }
}
fn same_value(a: &ExtensionValue, b: &ExtensionValue) -> bool {
    use ExtensionValue::*;
    match (a, b) {
        (String(a), String(b)) | (Enum(a), Enum(b)) => a == b,
        (Integer(a), Integer(b)) => a == b,
        (Float(a), Float(b)) => a.to_bits() == b.to_bits(),
        (Boolean(a), Boolean(b)) => a == b,
        (Null, Null) => true,
        (Error(a), Error(b)) => same_err(a, b),
        (Expr(a), Expr(b)) => same_expr(a.as_proto(), b.as_proto()),
        (Tuple(a), Tuple(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(a, b)| same_value(a, b)),
        _ => false,
    }
}
fn same_expr(a: &proto::Expression, b: &proto::Expression) -> bool {
    match (&a.rex_type, &b.rex_type) {
        (Some(RexType::Literal(a)), Some(RexType::Literal(b))) => {
            a.nullable == b.nullable
                && a.type_variation_reference == b.type_variation_reference
                && match (&a.literal_type, &b.literal_type) {
                    (Some(LiteralType::Fp64(a)), Some(LiteralType::Fp64(b))) => a.to_bits() == b.to_bits(),
                    (a, b) => a == b,
                }
        }
        (a, b) => a == b,
    }
}
fn literal(t: LiteralType) -> proto::Expression {
    proto::Expression {
        rex_type: Some(RexType::Literal(proto::expression::Literal {
            literal_type: Some(t),
            nullable: false,
            type_variation_reference: 0,
        })),
    }
}
/// One way of reading a value, by target type.
macro_rules! target {
    ($t:ty, $kind:ident, $v:expr, $k:expr, $get:expr, $wrap:expr, $ok:expr) => {{
        let got: Result<$t, ExtensionError> = $get;
        let ok: Option<Box<dyn Fn(&$t) -> bool>> = $ok;
        match ok {
            Some(f) => match got {
                Ok(x) => check(f(&x), "the value changed when it was converted"),
                Err(_) => fail("a value of the type asked for was refused"),
            },
            None => expect(got, &$wrap(wrong($v, $k, ExtensionValueKind::$kind))),
        }
    }};
}
type Ok_<T> = Option<Box<dyn Fn(&T) -> bool>>;
fn ok_str(v: &ExtensionValue) -> Ok_<String> {
    let ExtensionValue::String(s) = v else { return None };
    let s = s.clone();
    Some(Box::new(move |x| *x == s))
}
fn ok_i64(v: &ExtensionValue) -> Ok_<i64> {
    let ExtensionValue::Integer(i) = v else { return None };
    let i = *i;
    Some(Box::new(move |x| *x == i))
}
fn ok_f64(v: &ExtensionValue) -> Ok_<f64> {
    let ExtensionValue::Float(i) = v else { return None };
    let i = i.to_bits();
    Some(Box::new(move |x| x.to_bits() == i))
}
fn ok_bool(v: &ExtensionValue) -> Ok_<bool> {
    let ExtensionValue::Boolean(i) = v else { return None };
    let i = *i;
    Some(Box::new(move |x| *x == i))
}
fn ok_enum(v: &ExtensionValue) -> Ok_<EnumValue> {
    let ExtensionValue::Enum(s) = v else { return None };
    let s = s.clone();
    Some(Box::new(move |x| x.0 == s))
}
fn ok_expr(v: &ExtensionValue) -> Ok_<Expr> {
    let want = match v {
        ExtensionValue::Expr(e) => e.to_proto(),
        ExtensionValue::Integer(i) => literal(LiteralType::I64(*i)),
        ExtensionValue::Float(f) => literal(LiteralType::Fp64(*f)),
        ExtensionValue::String(s) => literal(LiteralType::String(s.clone())),
        ExtensionValue::Boolean(b) => literal(LiteralType::Boolean(*b)),
        _ => return None,
    };
    Some(Box::new(move |x| same_expr(x.as_proto(), &want)))
}
fn owned<'a>(t: &'a TupleValue) -> TupleValue {
    t.clone()
}
fn ok_tuple(v: &ExtensionValue) -> Ok_<TupleValue> {
    let ExtensionValue::Tuple(t) = v else { return None };
    let t = ExtensionValue::Tuple(t.clone());
    Some(Box::new(move |x| same_value(&ExtensionValue::Tuple(x.clone()), &t)))
}
pub fn convert_cases(_: bool) -> Vec<u32> {
    (0..KINDS).collect()
}
/// Every kind of value read as every type, directly and by name.
pub fn convert(case: u32) {
    let (v, k) = val(case);
    check(v.kind() == k, "the kind of a value is wrong");
    let mut a = ExtensionArgs::default();
    a.insert("other", 1i64);
    a.insert("k", v.clone());
    check(a.named.get("k").is_some_and(|x| same_value(x, &v)), "an argument changed when it was inserted");
    // SAFETY: single-threaded
    unsafe {
        VALUE = Some((v, k));
        PLAN = (choice(3), choice(8), 0, 0);
    }
    let got = run(&a, |args| {
        #[allow(static_mut_refs)]
        // SAFETY: single-threaded
        let (how, t, (v, k)) = unsafe { (PLAN.0, PLAN.1, VALUE.clone().unwrap()) };
        args.get_named_arg("other");
        let named = |e| ExtensionError::NamedArgumentConversion { name: "k".into(), source: Box::new(e) };
        macro_rules! by {
            ($t:ty, $kind:ident, $ok:expr, $map:expr) => {
                match how {
                    0 => target!(_, $kind, &v, k, <$t>::try_from(&v).map($map), |e| e, $ok),
                    1 => {
                        let r = args.get_named::<$t>("k").map(|o| $map(o.unwrap_or_else(|| fail("a present argument was missed"))));
                        target!(_, $kind, &v, k, r, named, $ok)
                    }
                    _ => target!(_, $kind, &v, k, args.expect_named::<$t>("k").map($map), named, $ok),
                }
            };
        }
        match t {
            0 => by!(&str, String, ok_str(&v), |s: &str| s.to_string()),
            1 => by!(String, String, ok_str(&v), |s| s),
            2 => by!(i64, Integer, ok_i64(&v), |s| s),
            3 => by!(f64, Float, ok_f64(&v), |s| s),
            4 => by!(bool, Boolean, ok_bool(&v), |s| s),
            5 => by!(EnumValue, Enum, ok_enum(&v), |s| s),
            6 => by!(Expr, Expression, ok_expr(&v), |s| s),
            _ => by!(&TupleValue, Tuple, ok_tuple(&v), owned),
        }
        args.get_named_arg("k");
        check(
            matches!(args.get_named::<bool>("none"), Ok(None)) && matches!(args.get_named_tuple::<bool>("K"), Ok(None)),
            "an absent argument was found",
        );
        expect(args.expect_named::<bool>("ot"), &ExtensionError::MissingArgument { name: "ot".into() });
        Ok(())
    });
    check(got.is_ok(), "arguments that were all read were refused");
}
static mut VALUE: Option<(ExtensionValue, ExtensionValueKind)> = None;
pub fn tuple_cases(_: bool) -> Vec<u32> {
    (0..KINDS * 3).collect()
}
/// Tuples read element by element: all elements in order, or the first that does not fit.
pub fn tuple(case: u32) {
    let at = case as usize / KINDS as usize;
    let (bad, bk) = val(case % KINDS);
    let (x, y) = (any_i64(), any_i64());
    let mut items = vec![ExtensionValue::Integer(x), ExtensionValue::Integer(y)];
    items.insert(at, bad.clone());
    if choice(2) == 1 {
        items.push(ExtensionValue::Error(ExtensionError::Custom("late".into())));
    }
    let late = items.len() == 4;
    let mut a = ExtensionArgs::default();
    let t: TupleValue = if choice(2) == 0 { items.clone().into() } else { items.clone().into_iter().collect() };
    check(t.len() == items.len() && !t.is_empty(), "a tuple has another length");
    check(t.iter().zip(&items).all(|(a, b)| same_value(a, b)), "a tuple has other elements");
    check((&t).into_iter().zip(&items).all(|(a, b)| same_value(a, b)), "a tuple has other elements");
    a.insert("k", ExtensionValue::Tuple(t));
    let whole = choice(2) == 1;
    // SAFETY: single-threaded
    unsafe {
        VALUE = Some((bad.clone(), bk));
        ITEMS = items;
    }
    let named = |e| ExtensionError::NamedArgumentConversion { name: "k".into(), source: Box::new(e) };
    if whole {
        // as expressions: the widening applies to elements too
        let got = run(&a, |args| {
            #[allow(static_mut_refs)]
            // SAFETY: single-threaded
            let items = unsafe { ITEMS.clone() };
            let Some(r) = args.get_named_tuple::<Expr>("k")? else { fail("a present argument was missed") };
            check(r.len() == items.len(), "elements of a tuple were lost");
            for (e, i) in r.iter().zip(&items) {
                check(ok_expr(i).is_some_and(|f| f(e)), "an element changed");
            }
            Ok(())
        });
        if ok_expr(&bad).is_none() {
            expect(got, &named(wrong(&bad, bk, ExtensionValueKind::Expression)));
        } else if late {
            let e = ExtensionValue::Error(ExtensionError::Custom("late".into()));
            expect(got, &named(wrong(&e, ExtensionValueKind::Error, ExtensionValueKind::Expression)));
        } else {
            check(got.is_ok(), "a tuple of expressions was refused");
        }
        return;
    }
    let got = run(&a, |args| {
        #[allow(static_mut_refs)]
        // SAFETY: single-threaded
        let items = unsafe { ITEMS.clone() };
        let Some(r) = args.get_named_tuple::<i64>("k")? else { fail("a present argument was missed") };
        check(r.len() == items.len(), "elements of a tuple were lost");
        for (e, i) in r.iter().zip(&items) {
            check(matches!(i, ExtensionValue::Integer(i) if i == e), "an element changed");
        }
        Ok(())
    });
    if ok_i64(&bad).is_none() {
        expect(got, &named(wrong(&bad, bk, ExtensionValueKind::Integer)));
    } else if late {
        let e = ExtensionValue::Error(ExtensionError::Custom("late".into()));
        expect(got, &named(wrong(&e, ExtensionValueKind::Error, ExtensionValueKind::Integer)));
    } else {
        check(got.is_ok(), "a tuple of integers was refused");
    }
}
static mut ITEMS: Vec<ExtensionValue> = vec![];
pub fn whole_cases(_: bool) -> Vec<u32> {
    (0..KINDS).collect()
}
/// What is not a tuple is not read as one; an empty tuple is one.
pub fn whole(case: u32) {
    let (v, k) = val(case);
    let mut a = ExtensionArgs::default();
    a.insert("k", v.clone());
    let got = run(&a, |args| match args.get_named_tuple::<String>("k")? {
        Some(r) => {
            check(r.is_empty(), "elements appeared in an empty tuple");
            Ok(())
        }
        None => fail("a present argument was missed"),
    });
    let named = |e| ExtensionError::NamedArgumentConversion { name: "k".into(), source: Box::new(e) };
    match case {
        11 => check(got.is_ok(), "an empty tuple was refused"),
        8 => expect(
            got,
            &named(ExtensionError::InvalidArgumentType { expected: ExtensionValueKind::String, actual: ExtensionValueKind::Integer }),
        ),
        _ => expect(got, &named(wrong(&v, k, ExtensionValueKind::Tuple))),
    }
}

// ------------------------------------------------------------ building values
pub fn build_cases(_: bool) -> Vec<u32> {
    (0..12).collect()
}
/// Values are what they were made from.
pub fn build(case: u32) {
    let i = any_i64();
    let s = sym_str(ANY, 2);
    let f = f64::from_bits(any_i64() as u64);
    let b = any_bool();
    let n = any_i32();
    let is = |v: ExtensionValue, w: ExtensionValue| check(same_value(&v, &w), "a value is not what it was made from");
    let ex = |v: Expr, w: LiteralType| check(same_expr(v.as_proto(), &literal(w)), "a literal is not what it was made from");
    match case {
        0 => {
            is(i.into(), ExtensionValue::Integer(i));
            ex(i.into(), LiteralType::I64(i));
        }
        1 => {
            is(f.into(), ExtensionValue::Float(f));
            ex(f.into(), LiteralType::Fp64(f));
        }
        2 => {
            is(b.into(), ExtensionValue::Boolean(b));
            ex(b.into(), LiteralType::Boolean(b));
        }
        3 => {
            is(s.as_str().into(), ExtensionValue::String(s.clone()));
            ex(s.as_str().into(), LiteralType::String(s.clone()));
        }
        4 => {
            is(s.clone().into(), ExtensionValue::String(s.clone()));
            ex(s.clone().into(), LiteralType::String(s.clone()));
        }
        5 => is(
            vec![i, 3, i].into(),
            ExtensionValue::Tuple(vec![ExtensionValue::Integer(i), ExtensionValue::Integer(3), ExtensionValue::Integer(i)].into()),
        ),
        6 => {
            let e = Expr::field(n);
            check(e.as_direct_reference() == Some(n), "a reference has another index");
            check(same_expr(e.as_proto(), &field(n).e), "a reference is not a plain one");
            is(e.clone().into(), ExtensionValue::Expr(e.clone()));
            is(e.to_proto().into(), ExtensionValue::Expr(e.clone()));
            let p: proto::Expression = e.into();
            check(same_expr(&p, &field(n).e), "a reference changed");
            let ExtensionColumn::Expr(c) = ExtensionColumn::field(n) else { fail("a reference column is not one") };
            check(c.as_direct_reference() == Some(n), "a reference has another index");
        }
        7 => {
            // references that go further, and other expressions, are not plain references
            use reference_segment::ReferenceType as R;
            let inner = ReferenceSegment { reference_type: Some(R::StructField(Box::new(StructField { field: n, child: None }))) };
            let not = |e: Expr| check(e.as_direct_reference().is_none(), "something else passed for a plain reference");
            not(seg(Some(R::StructField(Box::new(StructField { field: n, child: Some(Box::new(inner.clone())) })))));
            not(seg(Some(R::MapKey(Box::new(MapKey { map_key: None, child: None })))));
            not(seg(None));
            not(Expr::from(i));
            not(proto::Expression { rex_type: None }.into());
            let plain = seg(Some(R::StructField(Box::new(StructField { field: n, child: None }))));
            check(plain.as_direct_reference() == Some(n), "a plain reference was not recognised");
        }
        8 => {
            // the last value of a name counts, in the place of the first
            let mut a = ExtensionArgs::default();
            check(a.insert("x", i).is_none(), "a new name had a value");
            check(a.insert("y", b).is_none(), "a new name had a value");
            let old = a.insert("x", s.as_str());
            check(old.is_some_and(|o| same_value(&o, &ExtensionValue::Integer(i))), "the value replaced is another");
            check(a.named.len() == 2, "a name was kept twice");
            let k: Vec<&String> = a.named.keys().collect();
            check(k[0] == "x" && k[1] == "y", "names changed their order");
            is(a.named["x"].clone(), ExtensionValue::String(s));
            is(a.named["y"].clone(), ExtensionValue::Boolean(b));
        }
        9 => {
            let mut a = ExtensionArgs::default();
            a.push(i);
            a.push(s.as_str());
            a.push(b);
            check(a.positional.len() == 3, "positional arguments were lost");
            is(a.positional[0].clone(), ExtensionValue::Integer(i));
            is(a.positional[1].clone(), ExtensionValue::String(s));
            is(a.positional[2].clone(), ExtensionValue::Boolean(b));
        }
        10 => {
            let l = proto::expression::Literal { literal_type: Some(LiteralType::I8(n)), nullable: b, type_variation_reference: any_u32() };
            let want = proto::Expression { rex_type: Some(RexType::Literal(l.clone())) };
            check(same_expr(Expr::from(l.clone()).as_proto(), &want), "a literal changed");
            is(l.into(), ExtensionValue::Expr(want.into()));
        }
        _ => {
            let e = ExtensionError::Custom(s);
            is(e.clone().into(), ExtensionValue::Error(e));
        }
    }
}

// ------------------------------------------------------------ columns
pub fn columns_cases(_: bool) -> Vec<u32> {
    (0..5).collect()
}
/// Named columns and schemas say the same thing.
pub fn columns(n: u32) {
    let n = n as usize;
    let names: Vec<String> = (0..n).map(|_| sym_str(ANY, 1)).collect();
    let types: Vec<T> = (0..n).map(|i| simple([4, 7, 0, 3][(i + 1) % 4], if i % 2 == 0 { NUL } else { REQ })).collect();
    let odd = choice(n as u32 + 1) as usize;
    let mut c: Vec<ExtensionColumn> =
        names.iter().zip(&types).map(|(n, t)| ExtensionColumn::Named { name: n.clone(), r#type: t.t.clone() }).collect();
    if odd < n {
        c[odd] = ExtensionColumn::field(any_i32());
        let r: Result<proto::NamedStruct, ExtensionError> = c.as_slice().convert();
        check(matches!(r, Err(ExtensionError::InvalidArgument(_))), "a column without a name became part of a schema");
        return;
    }
    let r: Result<proto::NamedStruct, ExtensionError> = c.as_slice().convert();
    let Ok(s) = r else { fail("named columns were refused") };
    check(s.names == names, "column names changed");
    let Some(st) = &s.r#struct else { fail("the schema has no types") };
    check(st.types.len() == n && st.types.iter().zip(&types).all(|(a, b)| *a == b.t), "column types changed");
    check(st.nullability == 2 && st.type_variation_reference == 0, "a schema is not nullable");
    let back: Result<Vec<ExtensionColumn>, ExtensionError> = s.convert();
    let Ok(back) = back else { fail("a schema was refused") };
    check(back.len() == n, "columns were lost");
    for (i, c) in back.iter().enumerate() {
        check(
            matches!(c, ExtensionColumn::Named { name, r#type } if *name == names[i] && *r#type == types[i].t),
            "a column changed",
        );
    }
    // schemas that are not one type per name
    let mut bad = s.clone();
    match choice(4) {
        0 => bad.names.push("x".into()),
        1 => bad.r#struct.as_mut().unwrap().types.push(simple(4, REQ).t),
        2 if n > 0 => bad.r#struct = None,
        3 if n > 0 => {
            bad.names.pop();
        }
        _ => {
            bad.r#struct = None;
            let r: Result<Vec<ExtensionColumn>, ExtensionError> = bad.convert();
            return check(matches!(r, Ok(c) if c.is_empty()) == (n == 0), "an empty schema was refused");
        }
    }
    let (a, b) = (bad.names.len(), bad.r#struct.as_ref().map_or(0, |s| s.types.len()));
    let r: Result<Vec<ExtensionColumn>, ExtensionError> = bad.convert();
    match r {
        Err(ExtensionError::InvalidArgument(m)) => check(
            m == cat(&["NamedStruct has ", &a.to_string(), " names but ", &b.to_string(), " types"]),
            "the counts reported are wrong",
        ),
        _ => fail("a schema with a name or a type too many was accepted"),
    }
}
