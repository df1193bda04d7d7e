//! C19: the extension registry against a list of what was registered.
use super::rt::*;
use prost::{Message, Name};
use substrait_explain::extensions::{
    Any, AnyConvertible, AnyRef, ArgsAccess, Explainable, ExtensionArgs, ExtensionContext, ExtensionError,
    ExtensionRegistry, ExtensionType, ExtensionValue, RegistrationError,
};

pub const NS: [ExtensionType; 4] = [
    ExtensionType::Relation,
    ExtensionType::ExtensionTable,
    ExtensionType::Enhancement,
    ExtensionType::Optimization,
];
const NAMES: [&str; 6] = ["Ab", "ab", "Ab c", "Z", "", "t/Ab"];
const URLS: [&str; 6] = ["t/Ab", "t/ab", "Ab", "", "x.y/t.Z", "t/Ab/"];
/// An extension named NAMES[K / 6] for URLs[K % 6].
struct Reg<const K: usize>(u8);
impl<const K: usize> AnyConvertible for Reg<K> {
    fn to_any(&self) -> Result<Any, ExtensionError> {
        Ok(Any::new(Self::type_url(), vec![K as u8, self.0]))
    }
    fn from_any<'a>(any: AnyRef<'a>) -> Result<Self, ExtensionError> {
        check(any.type_url == URLS[K % 6], "a handler was given the payload of another type");
        match any.value {
            [v] => Ok(Reg(*v)),
            _ => Err(ExtensionError::Custom("one byte expected".into())),
        }
    }
    fn type_url() -> String {
        URLS[K % 6].into()
    }
}
impl<const K: usize> Explainable for Reg<K> {
    fn name() -> &'static str {
        NAMES[K / 6]
    }
    fn from_args(args: &mut ArgsAccess<'_>) -> Result<Self, ExtensionError> {
        Ok(Reg(args.expect_named::<i64>("v")? as u8))
    }
    fn to_args(&self, c: &ExtensionContext<'_>) -> Result<ExtensionArgs, ExtensionError> {
        check(c.inputs().is_empty(), "inputs appeared from nowhere");
        let mut a = ExtensionArgs::default();
        a.insert("k", K as i64);
        a.insert("v", self.0 as i64);
        Ok(a)
    }
}
fn reg_one<const K: usize>(r: &mut ExtensionRegistry, ns: usize) -> Result<(), RegistrationError> {
    match ns {
        0 => r.register_relation::<Reg<K>>(),
        1 => r.register_extension_table::<Reg<K>>(),
        2 => r.register_enhancement::<Reg<K>>(),
        _ => r.register_optimization::<Reg<K>>(),
    }
}
macro_rules! dispatch {
    ($($k:literal)*) => {
        fn register(r: &mut ExtensionRegistry, ns: usize, k: usize) -> Result<(), RegistrationError> {
            match k {
                $($k => reg_one::<$k>(r, ns),)*
                _ => fail("no such extension"),
            }
        }
    };
}
dispatch!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35);

/// What is registered: (namespace, name, URL), in order.
type Model = Vec<(usize, usize, usize)>;
fn step(r: &mut ExtensionRegistry, m: &mut Model, ns: usize, name: usize, url: usize) {
    let got = register(r, ns, name * 6 + url);
    if m.iter().any(|e| e.0 == ns && e.1 == name) {
        match got {
            Err(RegistrationError::DuplicateName { ext_type, name: n }) => {
                check(ext_type == NS[ns] && n == NAMES[name], "the duplicate reported is not the one registered")
            }
            _ => fail("registering a name twice was not reported as a duplicate"),
        }
        return;
    }
    if let Some(e) = m.iter().find(|e| e.0 == ns && e.2 == url) {
        match got {
            Err(RegistrationError::ConflictingTypeUrl { type_url, ext_type, existing_name }) => check(
                type_url == URLS[url] && ext_type == NS[ns] && existing_name == NAMES[e.1],
                "the conflict reported is not the one there is",
            ),
            _ => fail("registering a type URL twice was not reported as a conflict"),
        }
        return;
    }
    check(got.is_ok(), "registering a new extension was refused");
    m.push((ns, name, url));
}
fn not_found<T>(r: Result<T, ExtensionError>, what: &str) {
    match r {
        Err(ExtensionError::NotFound { name }) => check(name == what, "something else was reported as missing"),
        _ => fail("an extension that is not registered was found"),
    }
}
fn state(r: &ExtensionRegistry, m: &Model, names: &[usize], urls: &[usize]) {
    for ns in 0..4 {
        let mut want: Vec<&str> = m.iter().filter(|e| e.0 == ns).map(|e| NAMES[e.1]).collect();
        want.sort();
        check(r.extension_names(NS[ns]) == want, "the list of names is not what was registered");
        for &n in names {
            let e = m.iter().find(|e| e.0 == ns && e.1 == n);
            check(r.has_extension(NS[ns], NAMES[n]) == e.is_some(), "has_extension is wrong about a name");
            let v = any_u8();
            let mut a = ExtensionArgs::default();
            a.insert("v", v as i64);
            let got = match ns {
                0 => r.parse_extension(NAMES[n], &a),
                1 => r.parse_extension_table(NAMES[n], &a),
                2 => r.parse_enhancement(NAMES[n], &a),
                _ => r.parse_optimization(NAMES[n], &a),
            };
            match e {
                None => not_found(got, NAMES[n]),
                Some(e) => {
                    let Ok(any) = got else { fail("a registered extension did not accept its arguments") };
                    check(any.type_url == URLS[e.2], "the payload got another type URL");
                    check(any.value.len() == 2 && any.value[0] as usize == n * 6 + e.2, "another extension read the arguments");
                    check(any.value[1] == v, "the payload changed");
                }
            }
        }
        for &u in urls {
            let v = [any_u8(), 0];
            let long = choice_free();
            let any = AnyRef::new(URLS[u], if long { &v } else { &v[..1] });
            let got = match ns {
                0 => r.decode(any),
                1 => r.decode_extension_table(any),
                2 => r.decode_enhancement(any),
                _ => r.decode_optimization(any),
            };
            match m.iter().find(|e| e.0 == ns && e.2 == u) {
                None => not_found(got, URLS[u]),
                Some(_) if long => match got {
                    Err(ExtensionError::Custom(s)) => check(s == "one byte expected", "the handler's error was lost"),
                    _ => fail("the handler's error was lost"),
                },
                Some(e) => {
                    let Ok((name, a)) = got else { fail("a registered payload was not decoded") };
                    check(name == NAMES[e.1], "the payload was decoded under another name");
                    check(a.positional.is_empty() && a.named.len() == 2 && a.output_columns.is_empty(), "arguments appeared");
                    check(
                        matches!(a.named.get("k"), Some(ExtensionValue::Integer(k)) if *k as usize == e.1 * 6 + u),
                        "another extension decoded the payload",
                    );
                    check(
                        matches!(a.named.get("v"), Some(ExtensionValue::Integer(x)) if *x == v[0] as i64),
                        "the payload changed",
                    );
                }
            }
        }
    }
}
/// Alternates, so that both kinds of payload are met without extra paths.
static mut ALT: u32 = 0;
fn choice_free() -> bool {
    // SAFETY: single-threaded
    unsafe {
        ALT += 1;
        ALT % 5 == 0
    }
}
pub fn spaces_cases(th: bool) -> Vec<u32> {
    (0..if th { 256 } else { 16 }).collect()
}
/// Registrations across namespaces, two names and two URLs.
pub fn spaces(case: u32) {
    let mut r = ExtensionRegistry::new();
    let mut m = vec![];
    let mut ops = vec![case % 16];
    if case >= 16 {
        ops.push(case / 16);
    }
    for _ in 0..2 {
        ops.push(choice(16));
    }
    for o in ops {
        step(&mut r, &mut m, (o / 4) as usize, (o % 4 / 2) as usize, (o % 2) as usize);
    }
    state(&r, &m, &[0, 1], &[0, 1]);
}
pub fn names_cases(th: bool) -> Vec<u32> {
    (0..if th { 144 } else { 36 }).collect()
}
/// Registrations in one namespace (and one elsewhere), every name and URL.
pub fn names(case: u32) {
    let k = case as usize % 36;
    let mut r = ExtensionRegistry::new();
    let mut m = vec![];
    let ns = choice(4) as usize;
    step(&mut r, &mut m, ns, k / 6, k % 6);
    let o = choice(36) as usize;
    step(&mut r, &mut m, ns, o / 6, o % 6);
    if case >= 36 {
        let o = choice(9) as usize;
        let d = case as usize / 36;
        step(&mut r, &mut m, ns, (o / 3 + d) % 6, (o % 3 + 2 * d) % 6);
        step(&mut r, &mut m, (ns + d) % 4, o / 3, o % 3);
    }
    state(&r, &m, &[0, 1, 2, 3, 4, 5], &[0, 1, 2, 3, 4, 5]);
}
pub fn full_cases(th: bool) -> Vec<u32> {
    (0..if th { 36 } else { 12 }).collect()
}
/// A full registry, its copy, and the descriptors.
pub fn full(case: u32) {
    let case = case as usize;
    let mut r = ExtensionRegistry::new();
    let mut m = vec![];
    for i in 0..6 {
        for ns in 0..4 {
            step(&mut r, &mut m, ns, (i + case) % 6, (i * (1 + 4 * (case / 6 % 2)) + ns + case / 12) % 6);
        }
    }
    check(m.len() == 24, "the registry was not filled");
    let d: Vec<Vec<u8>> = (0..3).map(|i| { let mut b = vec![0; [2, 0, 3][i]]; fill_bytes(&mut b); b }).collect();
    for b in &d {
        r.add_descriptor(b.clone());
    }
    let all: Vec<usize> = (0..6).collect();
    let (ns, n, u) = (choice(4) as usize, choice(6) as usize, choice(6) as usize);
    step(&mut r, &mut m, ns, n, u);
    let copy = r.clone();
    state(&copy, &m, &all, &all);
    for x in [&r, &copy] {
        let got = x.descriptors();
        check(got.len() == 3, "a descriptor was lost");
        check((0..3).all(|i| got[i] == d[i]), "a descriptor changed");
    }
}
pub fn copies_cases(_: bool) -> Vec<u32> {
    (0..16).collect()
}
/// A copy goes its own way.
pub fn copies(case: u32) {
    let mut r = ExtensionRegistry::default();
    let mut m = vec![];
    step(&mut r, &mut m, case as usize / 4, case as usize % 4 / 2, case as usize % 2);
    let mut r2 = r.clone();
    let mut m2 = m.clone();
    let (a, b) = (choice(16) as usize, choice(16) as usize);
    step(&mut r, &mut m, a / 4, a % 4 / 2, a % 2);
    step(&mut r2, &mut m2, b / 4, b % 4 / 2, b % 2);
    state(&r, &m, &[0, 1], &[0, 1]);
    state(&r2, &m2, &[0, 1], &[0, 1]);
}
pub fn any_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// Payloads as protobuf messages: same bytes, same URL, and no other type's URL.
pub fn any(case: u32) {
    type F = prost_types::Duration;
    type U = String;
    let f = F { seconds: any_i64(), nanos: any_i32() };
    let u = sym_str(ANY, 3);
    let (fu, uu) = (<F as Name>::type_url(), <U as Name>::type_url());
    check(<F as AnyConvertible>::type_url() == fu && <U as AnyConvertible>::type_url() == uu, "the type URL is not the message's");
    match case {
        0..=3 => {
            let Ok(mut a) = f.to_any() else { fail("encoding a message failed") };
            check(a.type_url == fu && a.value == f.encode_to_vec(), "the payload is not the message");
            if case >= 2 {
                let p: prost_types::Any = a.clone().into();
                check(p.type_url == a.type_url && p.value == a.value, "conversion changed the payload");
                let r = AnyRef::from(&p);
                check(r.type_url == a.type_url && r.value == a.value, "conversion changed the payload");
                a = p.into();
            }
            let back = if case % 2 == 0 { F::from_any(a.as_ref()) } else { a.decode::<F>() };
            let Ok(b) = back else { fail("decoding a message failed") };
            check(b.seconds == f.seconds && b.nanos == f.nanos, "the message changed");
            check(mismatch(a.decode::<U>(), &uu, &fu), "a payload was decoded as another type");
            check(mismatch(U::from_any(a.as_ref()), &uu, &fu), "a payload was decoded as another type");
        }
        4..=5 => {
            let Ok(a) = Any::encode(&u) else { fail("encoding a message failed") };
            check(a.type_url == uu && a.value == u.encode_to_vec(), "the payload is not the message");
            let back = if case % 2 == 0 { U::from_any(a.as_ref()) } else { a.as_ref().decode::<U>() };
            let Ok(b) = back else { fail("decoding a message failed") };
            check(b == u, "the message changed");
            check(mismatch(a.decode::<F>(), &fu, &uu), "a payload was decoded as another type");
        }
        _ => {
            // other URLs with one character changed or dropped
            let mut s = fu.clone().into_bytes();
            let i = choice(s.len() as u32) as usize;
            if case == 6 {
                let b = hole(ANY);
                assume(b != s[i]);
                s[i] = b;
            } else {
                s.remove(i);
            }
            // SAFETY: ASCII
            let s = unsafe { String::from_utf8_unchecked(s) };
            if s == fu {
                return;
            }
            let mut b = vec![];
            if f.encode(&mut b).is_err() {
                fail("encoding a message failed");
            }
            let a = Any::new(s.clone(), b);
            check(mismatch(a.decode::<F>(), &fu, &s), "a payload with another URL was decoded");
        }
    }
}
fn mismatch<T>(r: Result<T, ExtensionError>, want: &str, got: &str) -> bool {
    matches!(r, Err(ExtensionError::TypeUrlMismatch { expected, actual }) if expected == want && actual == got)
}
