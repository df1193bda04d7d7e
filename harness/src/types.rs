//! C03: types.
use super::gen_::*;
use super::rt::*;
use substrait::proto::expression::literal::LiteralType;

/// A plan using the type in every position a type can take.
pub fn everywhere(t: &T) -> (substrait::proto::Plan, String) {
    let null = X { e: lit(LiteralType::Null(t.t.clone()), false), x: cat(&["null:", &t.x]) };
    let k = read(&["t"], &[("a".into(), t.clone()), ("b".into(), list(t.clone(), REQ))]);
    let items = vec![
        P::Ref(0),
        P::Ref(1),
        P::Ex(null),
        P::Ex(cast(field(0), t.clone(), 0)),
        P::Ex(cast(field(0), t.clone(), 1)),
        P::Ex(call("f", 1, vec![field(0)], t.clone())),
    ];
    plan1(&ext1(), project(items, k))
}
fn all(t: &T) {
    let (p, x) = everywhere(t);
    agree(&p, &x);
}
fn nul() -> i32 {
    choice(2) as i32 + 1
}
pub fn simple_cases(_: bool) -> Vec<u32> {
    (0..NSIMPLE).collect()
}
/// Every simple type, required and nullable; unspecified nullability is
/// reported and still survives.
pub fn simple_(case: u32) {
    let n = choice(3) as i32;
    let t = simple(case, n);
    if n != UNS {
        return all(&t);
    }
    let (p, x) = everywhere(&t);
    emit(&x);
    let (out, errs) = substrait_explain::format(&p);
    check(same_text(&out, &x), "text of unspecified nullability");
    check(!errs.is_empty(), "unspecified nullability is not reported");
    parses_to(&x, &p);
}
pub fn prec_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
pub fn prec(case: u32) {
    let p = below(13) as i32;
    all(&prec_type(case, p, nul()));
}
pub fn prec_text_cases(_: bool) -> Vec<u32> {
    (0..4 * 12).collect()
}
/// A written precision outside 0..=12 is rejected, one inside is kept.
pub fn prec_text(case: u32) {
    let k = case % 4;
    let n = (case / 4 % 6) as usize;
    let neg = case / 24 == 1;
    let digits = sym_str(DIG, n + 1);
    let mut v: i64 = 0;
    for b in digits.bytes() {
        v = v * 10 + (b - b'0') as i64;
    }
    if neg {
        v = -v;
    }
    let t = cat(&["=== Plan\nRead[t => a:", PREC[k as usize], "<", if neg { "-" } else { "" }, &digits, ">]\n"]);
    emit(&t);
    let r = substrait_explain::parse(&t);
    if (v >= 0) & (v <= 12) {
        let w = read(&["t"], &[("a".into(), prec_type(k, v as i32, REQ))]);
        let (p, _) = plan1(&ext0(), w);
        match r {
            Ok(q) => check(p == q, "precision changed"),
            Err(_) => fail("valid precision rejected"),
        }
        cover(1);
    } else {
        check(r.is_err(), "precision outside 0..=12 accepted");
        cover(2);
    }
}
pub fn nested_cases(_: bool) -> Vec<u32> {
    (0..6).collect()
}
/// Lists of lists of lists.
pub fn nested(case: u32) {
    let leaf = match case {
        0 => simple(0, nul()),
        1 => simple(4, nul()),
        2 => simple(7, nul()),
        3 => prec_type(choice(4), below(13) as i32, nul()),
        4 => user("point", 1, nul(), vec![]),
        _ => user("point", 1, nul(), vec![simple(choice(3), nul())]),
    };
    let d = choice(4);
    let mut t = leaf;
    for _ in 0..d {
        t = list(t, nul());
    }
    all(&t);
}
pub fn user_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// User-defined types with up to three parameters.
pub fn user_(case: u32) {
    let n = (case % 4) as usize;
    let deep = case / 4 == 1;
    let mut ps = vec![];
    for _ in 0..n {
        ps.push(match choice(if deep && n < 3 { 4 } else { 2 }) {
            0 => simple(2, nul()),
            1 => list(simple(7, REQ), nul()),
            2 => user("boxed", 2, nul(), vec![simple(0, REQ)]),
            _ => prec_type(3, below(13) as i32, REQ),
        });
    }
    let (nm, a) = if choice(2) == 0 { ("point", 1) } else { ("boxed", 2) };
    all(&user(nm, a, nul(), ps));
}
pub fn name_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for n in 1..=(if th { 5 } else { 4 }) {
        for p in 0..2 {
            v.push(n * 4 + p);
        }
    }
    // names that begin with a built-in name
    for k in 0..SIMPLE.len() as u32 + 8 {
        for p in 0..2 {
            v.push(1000 + k * 4 + p);
        }
    }
    v
}
/// Any identifier that is not itself a built-in type name works as the name of
/// a user-defined type, with or without parameters and the `u!` prefix.
pub fn name(case: u32) {
    let withp = case % 2 == 1;
    let name = if case >= 1000 {
        let k = ((case - 1000) / 4) as usize;
        let tail = sym_str(IDC, 1);
        let base = if k < SIMPLE.len() {
            SIMPLE[k]
        } else {
            ["list", "map", "struct", "precisiontime", "precisiontimestamp", "interval_day", "u", "null"][k - SIMPLE.len()]
        };
        cat(&[base, &tail])
    } else {
        let n = (case / 4) as usize;
        let a = sym_str(ALP, 1);
        let b = sym_str(IDC, n - 1);
        cat(&[&a, &b])
    };
    for s in SIMPLE {
        assume(!same_text(s, &name));
    }
    if withp {
        // `list<..>` and the like are built-in
        for s in ["list", "map", "struct", "precisiontimestamp", "precisiontimestamptz", "precisiontime", "interval_day"] {
            assume(!name.eq_ignore_ascii_case(s));
        }
    }
    let ext = Ext { urns: vec![(1, "/u".into())], funcs: vec![], types: vec![(1, 1, name.clone())], vars: vec![] };
    let ps = if withp { vec![simple(1, REQ), simple(4, NUL)] } else { vec![] };
    let t = user(&name, 1, nul(), ps);
    let (p, x) = plan1(&ext, read(&["t"], &[("a".into(), t.clone()), ("b".into(), list(t.clone(), REQ))]));
    agree(&p, &x);
    // the u! prefix is optional
    let t2 = cat(&[&ext.text(), "=== Plan\nRead[t => a:u!", &t.x, ", b:list<u!", &t.x, ">]\n"]);
    parses_to(&t2, &p);
}
pub fn case_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
/// Compound type names are case-insensitive.
pub fn letter_case(case: u32) {
    let words = ["list", "precisiontime", "interval_day", "precisiontimestamptz"];
    let w = words[case as usize];
    let mut b = w.as_bytes().to_vec();
    for (i, c) in b.iter_mut().enumerate() {
        if c.is_ascii_alphabetic() && i % 3 != 2 {
            let u = any_bool();
            *c = if u { c.to_ascii_uppercase() } else { *c };
        }
    }
    let name = unsafe { String::from_utf8_unchecked(b) };
    let (t, ptxt) = match case {
        0 => (list(simple(4, REQ), NUL), "?<i64>"),
        1 => (prec_type(2, 3, NUL), "?<3>"),
        2 => (prec_type(3, 6, NUL), "?<6>"),
        _ => (prec_type(1, 9, NUL), "?<9>"),
    };
    let (p, _) = plan1(&ext0(), read(&["t"], &[("a".into(), t)]));
    let x = cat(&["=== Plan\nRead[t => a:", &name, ptxt, "]\n"]);
    emit(&x);
    parses_to(&x, &p);
}
pub fn large_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for what in 0..3 {
        for n in [5, 9, 17, 40, 130, 260] {
            if what == 0 || n < 130 {
                v.push(what * 1024 + n);
            }
        }
    }
    v
}
/// Long parameter lists and deep nesting, with one arbitrary part.
pub fn large(case: u32) {
    let (what, n) = (case / 1024, case % 1024);
    let at = [0, n / 2, n - 1][choice(3) as usize];
    let odd = || match choice(4) {
        0 => simple([0, 4, 9][choice(3) as usize], nul()),
        1 => list(simple(7, REQ), nul()),
        2 => user("boxed", 2, nul(), vec![simple(0, REQ)]),
        _ => prec_type(choice(2) * 3, below(13) as i32, nul()),
    };
    let t = match what {
        0 => user("point", 1, nul(), (0..n).map(|i| if i == at { odd() } else { simple(i % NSIMPLE, REQ) }).collect()),
        1 => {
            let mut t = odd();
            for i in 0..n {
                t = list(t, if i == at { nul() } else { i as i32 % 2 + 1 });
            }
            t
        }
        _ => {
            let mut t = simple(1, REQ);
            for i in 0..n {
                t = match i == at {
                    true => user("boxed", 2, nul(), vec![odd(), t]),
                    false => user("point", 1, i as i32 % 2 + 1, vec![t]),
                };
            }
            t
        }
    };
    let (p, x) = plan1(&ext1(), filter(cast(field(0), t.clone(), 0), &[0], read(&["t"], &[("a".into(), t)])));
    agree(&p, &x);
}
