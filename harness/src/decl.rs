//! C15: extension declarations. C16: names of functions and types.
use super::gen_::*;
use super::rt::*;
use substrait::proto::Plan;

// ------------------------------------------------------------ C16
pub const NAMES: [&str; 8] = ["f", "f:i64", "g", "f:", "f:i64_i64", "fg", "g:i64", "f:i6"];
fn base(n: &str) -> &str {
    match n.find(':') {
        Some(i) => &n[..i],
        None => n,
    }
}
/// `n` anchors in increasing order, of three digits each.
fn anchors(n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    for _ in 0..n {
        let a = any_u32();
        assume((a >= 100) & (a < 1000));
        if let Some(p) = v.last() {
            assume(a > *p);
        }
        v.push(a);
    }
    v
}
/// The documented name of function `k`: the base name if no other function has
/// it, else the full name, with the anchor if that does not decide either.
fn fn_text(names: &[&str], anchors: &[u32], k: usize) -> String {
    let n = names[k];
    let shared_base = (0..names.len()).any(|i| i != k && base(names[i]) == base(n));
    let shared = (0..names.len()).any(|i| i != k && names[i] == n);
    if !shared_base {
        return base(n).into();
    }
    if shared || !n.contains(':') {
        return cat(&[n, "#", &anchors[k].to_string()]);
    }
    n.into()
}
fn ext_of(names: &[&str], a: &[u32]) -> Ext {
    let mut e = ext0();
    e.urns = vec![(1, "/u".into()), (2, "/v".into())];
    for (i, n) in names.iter().enumerate() {
        e.funcs.push((a[i], 1 + (i as u32 % 2), String::from(*n)));
    }
    e
}
/// A plan that calls the function in one of several places.
fn calling(ext: &Ext, place: u32, name: &str, anchor: u32) -> (Plan, String) {
    let c = |args: Vec<X>| call(name, anchor, args, i64t());
    let r = match place {
        0 => project(vec![P::Ex(c(vec![field(0)]))], tab("t", 1)),
        1 => {
            let x = c(vec![]);
            let head = cat(&["Aggregate[_ => ", &x.x, "]"]);
            let a = tab("t", 1);
            R {
                l: under(head, &[], &[&a]),
                r: rel(substrait::proto::rel::RelType::Aggregate(Box::new(substrait::proto::AggregateRel {
                    common: direct(),
                    input: Some(Box::new(a.r)),
                    grouping_expressions: vec![],
                    groupings: vec![substrait::proto::aggregate_rel::Grouping::default()],
                    measures: vec![measure(&x)],
                    advanced_extension: None,
                }))),
                w: 1,
            }
        }
        2 => filter(c(vec![int(1), c(vec![field(0)])]), &[0], tab("t", 1)),
        _ => sort(vec![(cast(c(vec![boolean(true)]), i64t(), 0), 0)], &[0], tab("t", 1)),
    };
    plan1(ext, r)
}
pub fn functions_cases(_: bool) -> Vec<u32> {
    (0..8).chain(16..24).chain(32..38).collect()
}
/// Every set of up to three functions, calls to each.
pub fn functions(case: u32) {
    let (n, first, pool) = match case / 16 {
        0 => (1, case % 16, 8),
        1 => (2, case % 16, 8),
        _ => (3, case % 16, 6),
    };
    let mut names = vec![NAMES[first as usize]];
    for _ in 1..n {
        names.push(NAMES[choice(pool) as usize]);
    }
    let a = anchors(n);
    let k = choice(n as u32) as usize;
    let place = if n == 3 { (k as u32 + first) % 4 } else { choice(4) };
    let (p, t) = calling(&ext_of(&names, &a), place, &fn_text(&names, &a, k), a[k]);
    agree(&p, &t);
}
pub fn many_cases(th: bool) -> Vec<u32> {
    if th { (4..14).chain(30..32).chain([65, 130, 260]).collect() } else { vec![4, 5, 6, 9, 12, 30, 130, 260] }
}
/// Many functions, two of them sharing a base or a name.
pub fn many(n: u32) {
    let own: Vec<String> = (0..n).map(|i| cat(&["f", &i.to_string()])).collect();
    let mut names: Vec<&str> = own.iter().map(|s| s.as_str()).collect();
    let i = if n > 12 { [0, n / 2 + 1, n - 1][choice(3) as usize] } else { choice(n) } as usize;
    let j = if n > 12 { [0, n / 2, n - 1][choice(3) as usize] } else { choice(n) } as usize;
    let (x, y) = [("f", "f"), ("f:i64", "f:i64"), ("f", "f:i64"), ("f:", "f:i64")][choice(4) as usize];
    names[i] = x;
    names[j] = y;
    let a: Vec<u32> = (0..n).map(|v| 95 + v).collect();
    let k = if choice(2) == 0 { i } else { j };
    let (p, t) = calling(&ext_of(&names, &a), 0, &fn_text(&names, &a, k), a[k]);
    agree(&p, &t);
}
pub fn written_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..9 {
        for f in 0..6 {
            v.push(w * 16 + f);
        }
    }
    v
}
/// A written name means the one function it matches, or is an error.
pub fn written(case: u32) {
    let w = (case / 16) as usize;
    let w = if w < 8 { NAMES[w] } else { "h" };
    let n = 2 + choice(2) as usize;
    let mut names = vec![NAMES[(case % 16) as usize]];
    for _ in 1..n {
        names.push(NAMES[choice(if n == 2 { 6 } else { 4 }) as usize]);
    }
    let a = anchors(n);
    let ext = ext_of(&names, &a);
    let fits = |i: usize| if w.contains(':') { names[i] == w } else { base(names[i]) == w };
    let k = choice(n as u32 + 2) as usize;
    let mut x = String::from(w);
    let mut meant = None;
    if k == n {
        // no anchor: exactly one function may fit
        let m: Vec<usize> = (0..n).filter(|i| fits(*i)).collect();
        if m.len() == 1 {
            meant = Some(m[0]);
        }
    } else {
        let anchor = if k < n {
            if fits(k) {
                meant = Some(k);
            }
            a[k]
        } else {
            let u = any_u32();
            assume((u >= 100) & (u < 1000));
            for v in &a {
                assume(u != *v);
            }
            u
        };
        x = cat(&[&x, "#", &anchor.to_string()]);
    }
    let (p, t) = calling(&ext, 0, &x, meant.map_or(0, |i| a[i]));
    match meant {
        Some(_) => {
            emit(&t);
            parses_to(&t, &p)
        }
        None => rejected(&t, "a name that fits no function, or several, was accepted"),
    }
}
pub const TYPES: [&str; 4] = ["p", "q", "pq", "f"];
pub fn types_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for n in 1..4 {
        for f in 0..4 {
            v.push(n * 16 + f);
        }
    }
    v
}
/// User-defined types among up to three, and functions of the same name and anchor.
pub fn types_(case: u32) {
    let n = (case / 16) as usize;
    let mut names = vec![TYPES[(case % 16) as usize]];
    for _ in 1..n {
        names.push(TYPES[choice(4) as usize]);
    }
    let a = anchors(n);
    let mut ext = ext_of(&[], &a);
    for i in 0..n {
        ext.types.push((a[i], 1 + (i as u32 % 2), String::from(names[i])));
    }
    if choice(2) == 1 {
        // functions and variations live in other name spaces
        ext.funcs.push((a[0], 1, "f".into()));
        ext.vars.push((a[n - 1], 2, "p".into()));
        ext.vars.push((1000, 2, "q".into()));
    }
    let k = choice(n as u32) as usize;
    let shared = (0..n).any(|i| i != k && names[i] == names[k]);
    let name = if shared { cat(&[names[k], "#", &a[k].to_string()]) } else { String::from(names[k]) };
    let nul = if choice(2) == 1 { NUL } else { REQ };
    let t = user(&name, a[k], nul, if choice(2) == 1 { vec![i64t()] } else { vec![] });
    let r = match choice(3) {
        0 => read(&["t"], &[("a".into(), t)]),
        1 => filter(cast(field(0), list(t, REQ), 0), &[0], tab("t", 1)),
        _ => filter(
            X {
                e: lit(substrait::proto::expression::literal::LiteralType::Null(t.t), false),
                x: cat(&["null:", &t.x]),
            },
            &[0],
            tab("t", 1),
        ),
    };
    let (p, x) = plan1(&ext, r);
    agree(&p, &x);
}
pub fn twritten_cases(_: bool) -> Vec<u32> {
    (0..5).flat_map(|w| (0..4).map(move |f| w * 16 + f)).collect()
}
/// A written type name means the one type it matches, or is an error.
pub fn twritten(case: u32) {
    let w = (case / 16) as usize;
    let w = if w < 4 { TYPES[w] } else { "h" };
    let n = 1 + choice(3) as usize;
    let mut names = vec![TYPES[(case % 16) as usize]];
    for _ in 1..n {
        names.push(TYPES[choice(3) as usize]);
    }
    let a = anchors(n);
    let mut ext = ext_of(&["h", "q"], &[5, 6]);
    for i in 0..n {
        ext.types.push((a[i], 1, String::from(names[i])));
    }
    let k = choice(n as u32 + 2) as usize;
    let mut x = String::from(if choice(2) == 1 { "u!" } else { "" });
    x.push_str(w);
    let mut meant = None;
    if k == n {
        let m: Vec<usize> = (0..n).filter(|i| names[*i] == w).collect();
        if m.len() == 1 {
            meant = Some(m[0]);
        }
    } else {
        let anchor = if k < n {
            if names[k] == w {
                meant = Some(k);
            }
            a[k]
        } else {
            5
        };
        x = cat(&[&x, "#", &anchor.to_string()]);
    }
    let t = user(&x, meant.map_or(0, |i| a[i]), REQ, vec![]);
    let (p, x) = plan1(&ext, read(&["t"], &[("a".into(), t)]));
    match meant {
        Some(_) => {
            emit(&x);
            parses_to(&x, &p)
        }
        None => rejected(&x, "a type name that fits no type, or several, was accepted"),
    }
}

// ------------------------------------------------------------ C15
fn digit(n: u32) -> (u32, String) {
    let b = any_u8();
    assume((b >= b'0') & (b < b'0' + n as u8));
    // SAFETY: an ASCII digit
    (b as u32 - b'0' as u32, unsafe { String::from_utf8_unchecked(vec![b]) })
}
const HEADS: [&str; 3] = ["Functions:\n", "Types:\n", "Type Variations:\n"];
const DECLS: [[&str; 4]; 3] = [["f", "g:i64", "h", "k"], ["a", "b", "c", "d"], ["v", "w", "x", "y"]];
fn header(p: &Plan, ext: &str) -> String {
    let _ = p;
    cat(&["=== Extensions\n", ext, "\n=== Plan\nRead[t => a:i64]\n"])
}
fn blank(ext: &Ext) -> Plan {
    plan1(ext, tab("t", 1)).0
}
pub fn anchors_cases(th: bool) -> Vec<u32> {
    // URNs, declarations, kind of the first
    let mut v = vec![];
    for u in 0..3 {
        for d in 0..(if th { 4 } else { 3 }) {
            for k in 0..3 {
                if d > 0 || k == 0 {
                    v.push(u * 100 + d * 10 + k);
                }
            }
        }
    }
    if th {
        v.push(330);
    }
    v.push(300);
    v.push(310);
    v
}
/// Declarations with arbitrary anchors: accepted exactly when every anchor is
/// new and every URN is declared; then listed by anchor and kind.
pub fn anchors_(case: u32) {
    let (nu, nd, k0) = (case / 100, case / 10 % 10, case % 10);
    let mut t = String::new();
    let mut e = ext0();
    let mut bad = 0;
    if nu > 0 {
        t.push_str("URNs:\n");
    }
    for i in 0..nu {
        let (a, x) = digit(3);
        // also the same URN twice
        let u = ["/u", "/v", "/w"][if i == 1 { choice(2) } else { i } as usize];
        t.push_str(&cat(&["  @  ", &x, ": ", u, "\n"]));
        if e.urns.iter().any(|o| o.0 == a) {
            bad += 1;
        } else {
            e.urns.push((a, u.into()));
        }
    }
    let mut p = blank(&ext0());
    for (a, u) in &e.urns {
        p.extension_urns.push(urn_proto(*a, u));
    }
    for i in 0..nd {
        let k = if i == 0 { k0 } else { choice(3) } as usize;
        let (a, ax) = digit(4);
        let (u, ux) = digit(3);
        // also the same name twice, of one kind or several
        let name = match if i == 0 { 0 } else { choice(3) } {
            0 => DECLS[k][i as usize],
            1 => DECLS[k][0],
            _ => DECLS[k0 as usize][0],
        };
        if k > 0 && name.contains(':') {
            return;
        }
        t.push_str(HEADS[k]);
        t.push_str(&cat(&["  #  ", &ax, " @  ", &ux, ": ", name, "\n"]));
        p.extensions.push(decl(k as u32, a, u, name));
        let v = match k {
            0 => &mut e.funcs,
            1 => &mut e.types,
            _ => &mut e.vars,
        };
        let dup = v.iter().any(|o| o.0 == a);
        if dup | !e.urns.iter().any(|o| o.0 == u) {
            bad += 1;
        }
        if !dup {
            v.push((a, u, name.into()));
        }
    }
    let text = header(&p, &t);
    if bad > 0 {
        rejected(&text, "a duplicate anchor or an undeclared URN was accepted");
        if e.urns.len() as u32 == nu {
            let (_, errs) = substrait_explain::format(&p);
            check(errs.len() == bad, "a wrong declaration of a plan is not reported once");
        }
        return;
    }
    e.urns.sort_by_key(|x| x.0);
    e.funcs.sort_by_key(|x| x.0);
    e.types.sort_by_key(|x| x.0);
    e.vars.sort_by_key(|x| x.0);
    let (q, canon) = plan1(&e, tab("t", 1));
    emit(&text);
    parses_to(&text, &q);
    // the plan with its declarations in any order prints the sorted listing
    let (out, errs) = substrait_explain::format(&p);
    check(errs.is_empty(), "correct declarations were reported as errors");
    check(same_text(&out, &canon), "declarations are not listed by anchor");
    parses_to(&canon, &q);
}
pub fn words_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// Names and URNs of arbitrary characters.
pub fn words(case: u32) {
    let mut e = ext0();
    let mut id = sym_str(ALP, 1);
    id.push_str(&sym_str(IDC, 2));
    let mut urn = String::from("/u");
    match case {
        0 => {
            e.funcs.push((7, 1, id));
        }
        1 => {
            let s = cat(&[&id, ":", &sym_str(ALP, 2), ["_i64", "_u!x_str", ""][choice(3) as usize]]);
            e.funcs.push((7, 1, s));
        }
        2 => {
            let s = cat(&[&id, ":"]);
            e.funcs.push((7, 1, s));
        }
        3 => e.types.push((7, 1, id)),
        4 => e.vars.push((7, 1, id)),
        5 | 6 => {
            let mut b = vec![];
            for _ in 0..3 {
                let c = hole(PRN);
                assume(c != b' ');
                b.push(c);
            }
            // SAFETY: ASCII
            urn = unsafe { String::from_utf8_unchecked(b) };
            if case == 6 {
                urn = cat(&["https://x.y/\u{e9}\u{1f600}", &urn, "functions_aggregate_generic.yaml#frag?q=1&r=2"]);
            }
            e.funcs.push((7, 1, "f".into()));
        }
        _ => {
            let s = "a_rather_long_function_name_with_many_words_in_it_1234567890";
            e.funcs.push((7, 1, cat(&[s, &id, ":", "decimal_decimal_i64_opt_req_timestamp"])));
            e.types.push((8, 1, cat(&[s, &id])));
        }
    }
    e.urns.push((1, urn));
    let (p, t) = plan1(&e, tab("t", 1));
    agree(&p, &t);
}
pub fn numbers_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
/// Anchors of every length, aligned to three columns (C04 has all values).
pub fn numbers(case: u32) {
    let mut e = ext0();
    let a = [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 1 << 31, u32::MAX][choice(11) as usize];
    e.urns.push((if case == 0 { a } else { 1 }, "/u".into()));
    let u = e.urns[0].0;
    match case {
        0 => e.funcs.push((1, u, "f".into())),
        1 => e.funcs.push((a, u, "f".into())),
        2 => e.types.push((a, u, "f".into())),
        _ => e.vars.push((a, u, "f".into())),
    }
    let (p, t) = plan1(&e, tab("t", 1));
    agree(&p, &t);
}
pub fn forms_cases(_: bool) -> Vec<u32> {
    (0..17).collect()
}
/// Other spellings of the same declarations, and malformed ones.
pub fn forms(case: u32) {
    let mut e = ext0();
    e.urns = vec![(1, "/u".into()), (2, "/v".into())];
    e.funcs = vec![(1, 1, "f".into()), (3, 2, "g".into())];
    e.types = vec![(1, 2, "t".into())];
    let p = blank(&e);
    let ok = |t: &str| {
        let x = header(&p, t);
        emit(&x);
        parses_to(&x, &p);
    };
    let no = |t: &str| rejected(&header(&p, t), "a malformed declaration was accepted");
    match case {
        0 => {
            // subsections in any order after their URNs, split and repeated
            let s = ["Functions:\n  #  1 @  1: f\n", "Types:\n  #  1 @  2: t\n", "Functions:\n  #  3 @  2: g\n"];
            let o = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][choice(6) as usize];
            let b = if choice(2) == 1 { "\n" } else { "" };
            let u = if choice(2) == 1 { "URNs:\n  @  2: /v\n  @  1: /u\n" } else { "URNs:\n  @  1: /u\nURNs:\n  @  2: /v\n" };
            ok(&cat(&[u, b, s[o[0]], b, s[o[1]], b, s[o[2]]]));
        }
        1 => {
            // optional spaces
            let s = |n: u32| " ".repeat(choice(n) as usize);
            let (a, b, c) = (s(3), s(3), s(3));
            ok(&cat(&[
                "URNs:\n  @", &a, "1:", &b, "/u\n  @2: /v\nFunctions:\n  #", &c, "1", &a, "@", &b, "1", &c, ":", &a,
                "f\n  #3@2:g\nTypes:\n  #1@2:", &b, "t\n",
            ]));
        }
        2 => ok("URNs:\n  @  1: /u\n  @  2: /v\nFunctions:\n  #  1 @  1: f\n  #  3 @  2: g\nTypes:\n  #  1 @  2: u!t\n"),
        3 => no("URNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: u!f\n"),
        4 => no("URNs:\n  @  1: /u\nType Variations:\n  #  1 @  1: u!f\n"),
        5 => no("URNs:\n  @  1: /u\nTypes:\n  #  1 @  1: t:i64\n"),
        6 => no("URNs:\n  @  1: /u\nType Variations:\n  #  1 @  1: v:\n"),
        7 => no("URNs:\n  @  1: /u\nFunctions:\n#  1 @  1: f\n"),
        8 => no("URNs:\n  @  1: /u\nFunctions:\n    #  1 @  1: f\n"),
        9 => no("URNs:\n  @  1: /u\nFuncs:\n  #  1 @  1: f\n"),
        10 => no("Functions:\n  #  1 @  1: f\nURNs:\n  @  1: /u\n"),
        11 => no("URNs:\n  @  1: /u\n  #  1 @  1: f\n"),
        12 => no("URNs:\n  @  1: /u\nFunctions:\n  @  1: f\n"),
        13 => no("URNs:\n  @  1: /u\nFunctions:\n  #  1: f\n"),
        14 => no("  @  1: /u\n"),
        15 => no("URNs:\n  @  1: /u /v\n"),
        _ => {
            // an arbitrary character that no name can start with
            let c = hole(PRN);
            assume(!c.is_ascii_alphabetic() & (c != b' '));
            // SAFETY: ASCII
            let c = unsafe { String::from_utf8_unchecked(vec![c]) };
            no(&cat(&["URNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: ", &c, "f\n"]))
        }
    }
}
