//! C12: indentation and the plan tree. C13: layout. C14: version and sections.
use super::ext::*;
use super::gen_::*;
use super::rt::*;
use substrait::proto::{Plan, Version};
use substrait_explain::extensions::ExtensionValue;

// ------------------------------------------------------------ C12
struct Node {
    id: usize,
    kids: Vec<Node>,
}
/// The tree that indentation describes, if it describes one.
fn tree(depths: &[u32]) -> Option<Vec<Node>> {
    let mut roots: Vec<Node> = vec![];
    let mut last = 0;
    for (i, d) in depths.iter().enumerate() {
        if *d > 0 && (i == 0 || *d > last + 1) {
            return None;
        }
        last = *d;
        let mut level = &mut roots;
        for _ in 0..*d {
            let at = level.len() - 1;
            level = &mut level[at].kids;
        }
        level.push(Node { id: i, kids: vec![] });
    }
    Some(roots)
}
fn args(id: usize) -> A {
    let x = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9"][id];
    let mut a = A::default();
    a.p.push(v_of(ExtensionValue::Integer(id as i64), x));
    a
}
fn build(n: Node) -> R {
    let kids = n.kids.into_iter().map(build).collect();
    ext_rel(2, 0, &args(n.id), kids)
}
fn forest(roots: Vec<Node>) -> (Plan, String) {
    let mut p = Plan::default();
    let mut x = String::from("=== Plan\n");
    for (i, n) in roots.into_iter().enumerate() {
        if i > 0 {
            x.push('\n');
        }
        let r = build(n);
        x.push_str(&lines(&r.l, 0));
        p.relations.push(plan_rel(r.r));
    }
    (p, x)
}
pub fn depths_cases(th: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (1..4).map(|n| n * 100).collect();
    for n in 4..=(if th { 6 } else { 5 }) {
        for d in 0..3 {
            v.push(n * 100 + d);
        }
    }
    v
}
/// Lines at every sequence of depths.
pub fn depths(case: u32) {
    let n = case / 100;
    let mut d = vec![];
    for i in 0..n {
        d.push(match i {
            0 => choice(2),
            1 if n >= 4 => case % 100,
            _ => choice(if n >= 6 { 4 } else { 5 }),
        });
    }
    let reg = registry();
    let mut x = String::from("=== Plan\n");
    for (i, k) in d.iter().enumerate() {
        for _ in 0..*k {
            x.push_str("  ");
        }
        let r = ext_rel(2, 0, &args(i), vec![]);
        x.push_str(&r.l[0].1);
        x.push('\n');
    }
    match tree(&d) {
        None => rejected_reg(&x, &reg, "a relation without a parent was accepted"),
        Some(t) => {
            let (p, canon) = forest(t);
            emit(&x);
            parses_reg(&x, &p, &reg);
            agree_reg(&p, &canon, &reg);
        }
    }
}
pub fn large_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// Wide and deep trees.
pub fn large(case: u32) {
    let n = [8, 9, 10, 16, 17, 33, 65, 130, 260][case as usize];
    let reg = registry();
    let at = spot(n);
    let deep = |k: u32| {
        let mut r = ext_rel(2, 0, &args(1), vec![]);
        for i in 0..k {
            r = ext_rel(2, 0, &args(2 + (i % 2) as usize), vec![r]);
        }
        r
    };
    // a node with n inputs, one of them itself a chain, or a chain of n with one fork
    let r = if n > 200 || choice(2) == 0 {
        let kids = (0..n).map(|i| if i == at { deep(3) } else { ext_rel(2, 0, &args(4 + (i % 3) as usize), vec![]) });
        ext_rel(2, 0, &args(9), kids.collect())
    } else {
        let mut r = ext_rel(2, 0, &args(1), vec![]);
        for i in 0..n {
            let mut kids = vec![r];
            if i == at {
                kids.push(deep(1));
                kids.insert(0, deep(0));
            }
            r = ext_rel(2, 0, &args(2 + (i % 2) as usize), kids);
        }
        r
    };
    let (p, x) = plan1(&ext0(), r);
    agree_reg(&p, &x, &reg);
}
const HEADS: [(&str, u32, u32); 14] = [
    ("Read[t => a:i64]", 0, 0),
    ("Read:Virtual[(1) => a:i64]", 0, 0),
    ("Filter[true => $0]", 1, 1),
    ("Project[$0]", 1, 1),
    ("Sort[($0, &AscNullsFirst) => $0]", 1, 1),
    ("Fetch[limit=1 => $0]", 1, 1),
    ("Aggregate[$0 => $0]", 1, 1),
    ("Join[&Inner, true => $0]", 2, 2),
    ("Cross[$0]", 2, 2),
    ("Set[&UnionAll => $0]", 2, 99),
    ("ExtensionLeaf:Bag[_ => ]", 0, 0),
    ("ExtensionSingle:Bag[_ => ]", 1, 1),
    ("ExtensionMulti:Bag[_ => ]", 0, 99),
    ("Root[a]", 1, 1),
];
pub fn arity_cases(_: bool) -> Vec<u32> {
    (0..14).collect()
}
/// Each relation takes exactly the inputs it is defined with.
pub fn arity(case: u32) {
    let (h, lo, hi) = HEADS[case as usize];
    let n = choice(5);
    // below another relation, and followed by another
    let d = if case == 13 { 0 } else { choice(2) };
    let mut x = String::from("=== Plan\n");
    if d == 1 {
        x.push_str("Filter[true => ]\n");
    }
    let ind = |x: &mut String, k: u32| {
        for _ in 0..k {
            x.push_str("  ");
        }
    };
    ind(&mut x, d);
    x.push_str(h);
    x.push('\n');
    for _ in 0..n {
        ind(&mut x, d + 1);
        if choice(2) == 1 {
            x.push_str("Filter[true => $0]\n");
            ind(&mut x, d + 2);
        }
        x.push_str("Read[t => a:i64]\n");
    }
    if choice(2) == 1 {
        x.push_str("Read[u => a:i64]\n");
    }
    let ok = substrait_explain::parse_with_registry(&x, &registry()).is_ok();
    emit(&x);
    check(ok == (n >= lo && n <= hi), "the number of inputs is not checked");
    cover(1 + ok as u64);
}
pub fn addenda_cases(_: bool) -> Vec<u32> {
    (0..6).collect()
}
/// An addendum belongs to the relation above it, one level up, and comes before
/// that relation's inputs.
pub fn addenda(case: u32) {
    let l = [
        (0, "Filter[true => $0]"),
        (1, "Cross[$0]"),
        (2, "Read[t => a:i64]"),
        (2, "Filter[true => $0]"),
        (3, "Read[u => b:i64]"),
    ];
    let (at, d) = (case as usize, choice(6));
    // the relation the addendum would belong to
    let mut own = None;
    for (i, (k, _)) in l.iter().enumerate().take(at) {
        if *k + 1 == d {
            own = Some(i);
        } else if *k < d {
            // an ancestor
        }
        // a shallower relation ends the subtree
        if *k + 1 < d {
            own = None;
        }
    }
    let first_child = own.is_some_and(|o| !l[o + 1..at].iter().any(|(k, _)| *k == d));
    let mut x = String::from("=== Plan\n");
    let mut it = l.to_vec();
    it.insert(at, (d, "+ Opt:Bag[7]"));
    for (k, s) in &it {
        for _ in 0..*k {
            x.push_str("  ");
        }
        x.push_str(s);
        x.push('\n');
    }
    let reg = registry();
    if d == 0 || !first_child {
        return rejected_reg(&x, &reg, "a misplaced addendum was accepted");
    }
    let mut a = A::default();
    a.p.push(v_of(ExtensionValue::Integer(7), "7"));
    let add = |i: usize, r: R| if own == Some(i) { with(r, &[Add { kind: 1, bag: 0, a: a.clone() }]) } else { r };
    let u = add(4, read(&["u"], &[("b".into(), i64t())]));
    let f = add(3, filter(boolean(true), &[0], u));
    let t = add(2, tab("t", 1));
    let c = add(1, cross(&[0], t, f));
    let r = add(0, filter(boolean(true), &[0], c));
    let (p, _) = plan1(&ext0(), r);
    emit(&x);
    parses_reg(&x, &p, &reg);
}
pub fn odd_cases(_: bool) -> Vec<u32> {
    (0..5).collect()
}
/// Indentation that is not a whole number of levels, or not spaces, is an error.
pub fn odd(case: u32) {
    let l = [
        "Root[a]",
        "  Join[&Inner, true => $0]",
        "    Read[t => a:i64]",
        "    Filter[true => $0]",
        "      Read[u => b:i64]",
    ];
    let mut x = String::from("=== Plan\n");
    let c = hole(ANY);
    assume(c != b'\n');
    // SAFETY: ASCII
    let c = unsafe { String::from_utf8_unchecked(vec![c]) };
    for (i, s) in l.iter().enumerate() {
        if i == case as usize {
            x.push_str(&c);
        }
        x.push_str(s);
        x.push('\n');
    }
    rejected(&x, "a line with a stray character before it was accepted");
}

// ------------------------------------------------------------ C13
/// Texts and, per line, whether a blank line may precede it.
pub const TEXTS: [&str; 6] = [
    "=== Version 1.2.3\n  producer: p q\n  git_hash: 00\n=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  # 10 @  1: f:i64\nTypes:\n  # 11 @  1: t\nType Variations:\n  # 12 @  1: v\n=== Plan\nRoot[a]\n  Project[f($0):i64]\n    Read[x => a:t]\n",
    "=== Plan\nFilter[true => $0]\n  Sort[($0, &AscNullsFirst) => $0]\n    Fetch[limit=10, offset=5 => $0]\n      Read[t +> a:i64 |> $0]\n",
    "=== Plan\nSet[&UnionAll => $0]\n  Cross[$0]\n    Read:Virtual[\n      - (1),\n      - (2)\n      - => a:i64]\n    Read:Virtual[(1), filter=true => a:i64]\n  Read[t => a:i64]\n",
    "=== Plan\nAggregate[($0, $1), _ => $0]\n  Join[&Left, true, post_filter=false => $0, $1]\n    Read:Virtual[(1, null:i8) => a:i64, b:i8]\n    Read[t => ]\n",
    "=== Plan\nProject['x y', if_then(true -> 1, _ -> 2)]\n  Read[t => a:precisiontimestamp<6>]\n    + Enh:Twin[_]\n    + Opt:Bag[1, &C, (1,), k='b']\nRead[t => ]\n",
    "=== Plan\nRoot[a]\n  ExtensionSingle:Bag[1, k=$0 => $0, b:i64]\n    Read:Extension[a:i64]\n      + Ext:Bag[_]\n",
];
fn blank_ok(l: &str) -> bool {
    let t = l.trim_start();
    !(t.starts_with("# ") || t.starts_with("@ ") || t.starts_with("- "))
}
pub fn layout_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, t) in TEXTS.iter().enumerate() {
        for l in 0..=t.lines().count() {
            v.push((i * 64 + l) as u32);
        }
    }
    v
}
/// Blank lines, trailing space, line endings and a missing final newline do not
/// change the plan.
pub fn layout(case: u32) {
    let t = TEXTS[case as usize / 64];
    let at = case as usize % 64;
    let reg = registry();
    let Ok(p) = substrait_explain::parse_with_registry(t, &reg) else { fail("the text does not parse") };
    let ls: Vec<&str> = t.lines().collect();
    let mut x = String::new();
    let op = choice(5);
    let tail = |n: u32| {
        // n trailing white-space characters
        let mut v = vec![];
        for _ in 0..n {
            let b = any_u8();
            assume((b == b' ') | (b == b'\t') | (b == b'\r'));
            v.push(b);
        }
        // SAFETY: ASCII
        unsafe { String::from_utf8_unchecked(v) }
    };
    for (i, l) in ls.iter().enumerate() {
        if i == at && op == 0 && blank_ok(l) {
            let n = choice(4);
            x.push_str(&tail(n));
            x.push('\n');
            if n == 3 {
                x.push('\n');
            }
        }
        x.push_str(l);
        match op {
            1 if i == at => x.push_str(&tail(1 + choice(2))),
            2 if i == at => x.push('\r'),
            3 => x.push('\r'),
            _ => {}
        }
        if i + 1 < ls.len() || op != 4 {
            x.push('\n');
        }
    }
    if at == ls.len() && op == 0 {
        for _ in 0..choice(3) {
            x.push_str(&tail(1));
            x.push('\n');
        }
        x.push_str(&tail(choice(2)));
    }
    emit(&x);
    parses_reg(&x, &p, &reg);
}
pub fn rows_cases(_: bool) -> Vec<u32> {
    (0..5).collect()
}
/// A virtual table written inline, or with line breaks at any of the allowed
/// places, is the same table.
pub fn rows(n: u32) {
    let rows: Vec<Vec<X>> = (0..n).map(|i| vec![int(i as i64), X { e: lit(substrait::proto::expression::literal::LiteralType::String("a, (b".into()), false), x: "'a, (b'".into() }]).collect();
    let flt = if choice(2) == 1 { Some(boolean(true)) } else { None };
    let cs = vec![(String::from("a"), i64t()), (String::from("b"), simple(7, REQ))];
    let depth = choice(2) as usize;
    let mut r = virt(rows.clone(), flt.clone(), &cs);
    let mut head = String::new();
    if depth == 1 {
        r = filter(boolean(true), &[0, 1], r);
        head = "Filter[true => $0, $1]\n".into();
    }
    let (p, _) = plan1(&ext0(), r);
    let mut x = cat(&["=== Plan\n", &head]);
    for _ in 0..depth {
        x.push_str("  ");
    }
    x.push_str("Read:Virtual[");
    let br = |x: &mut String, inline: &str| {
        if choice(2) == 1 {
            x.push_str(if choice(2) == 1 && n < 3 { "\r\n" } else { "\n" });
            for _ in 0..=depth {
                x.push_str("  ");
            }
            x.push_str("- ");
        } else {
            x.push_str(inline);
        }
    };
    br(&mut x, "");
    if n == 0 {
        x.push('_');
    }
    for (i, r) in rows.iter().enumerate() {
        if i > 0 {
            x.push(',');
            br(&mut x, " ");
        }
        x.push_str(&cat(&["(", &r[0].x, ", ", &r[1].x, ")"]));
    }
    if let Some(f) = &flt {
        x.push(',');
        br(&mut x, " ");
        x.push_str(&cat(&["filter=", &f.x]));
    }
    br(&mut x, " ");
    x.push_str("=> a:i64, b:string]\n");
    emit(&x);
    parses_to(&x, &p);
}

// ------------------------------------------------------------ C14
fn versioned(v: Option<Version>, text: &str) -> (Plan, String) {
    let (mut p, t) = plan1(&ext1(), tab("t", 1));
    p.version = v;
    (p, cat(&[text, &t]))
}
fn word() -> String {
    // printable, not beginning or ending with a space
    let n = 1 + choice(3);
    let mut b = vec![];
    for i in 0..n {
        let c = hole(PRN);
        if i == 0 || i + 1 == n {
            assume(c != b' ');
        }
        b.push(c);
    }
    // SAFETY: ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn version_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// Versions with any producer and git hash.
pub fn version(case: u32) {
    let producer = match case / 3 {
        0 => String::new(),
        1 => word(),
        _ => cat(&["\u{e9}\u{1f600} ", &word(), " a producer: with = a [rather] long name, 1234567890 === Plan"]),
    };
    let git_hash = match case % 3 {
        0 => String::new(),
        1 => word(),
        _ => "0123456789abcdef0123456789abcdef01234567".into(),
    };
    let ns = [0, 1, 9, 10, 4294967295];
    let n = |i: u32| ns[i as usize];
    let (a, b, c) = (choice(5), choice(5), choice(3));
    let v = Version {
        major_number: n(a),
        minor_number: n(b),
        patch_number: n(c),
        git_hash: git_hash.clone(),
        producer: producer.clone(),
    };
    if v == Version::default() {
        let (p, t) = versioned(Some(v), "");
        emit(&t);
        let (out, errs) = substrait_explain::format(&p);
        check(same_text(&out, &t) & errs.is_empty(), "an empty version is printed");
        cover(1);
        return;
    }
    let mut t = cat(&["=== Version ", &n(a).to_string(), ".", &n(b).to_string(), ".", &n(c).to_string(), "\n"]);
    if !producer.is_empty() {
        t.push_str(&cat(&["  producer: ", &producer, "\n"]));
    }
    if !git_hash.is_empty() {
        t.push_str(&cat(&["  git_hash: ", &git_hash, "\n"]));
    }
    let (p, t) = versioned(Some(v), &t);
    agree(&p, &t);
}
pub fn vforms_cases(_: bool) -> Vec<u32> {
    (0..16).collect()
}
/// Other spellings of a version, and malformed ones.
pub fn vforms(case: u32) {
    let v = Version { major_number: 1, minor_number: 22, patch_number: 3, git_hash: "ab".into(), producer: "p: q".into() };
    let ok = |t: &str| {
        let (p, t) = versioned(Some(v.clone()), t);
        emit(&t);
        parses_to(&t, &p);
    };
    let no = |t: &str| {
        let (_, t) = versioned(None, t);
        rejected(&t, "a malformed version section was accepted");
    };
    match case {
        0 => ok("=== Version 1.22.3\n  git_hash: ab\n  producer: p: q\n"),
        1 => {
            let s = |n: u32| " ".repeat(choice(n) as usize);
            let (a, b, c) = (s(3), s(3), s(3));
            ok(&cat(&["=== Version ", &a, "1.22.3", &b, "\n  producer", &c, ":", &a, "p: q", &b, "\n  git_hash:", &c, "ab\n"]));
        }
        2 => ok("\n\n=== Version 1.22.3\n\n  producer: p: q\n\n  git_hash: ab\n\n"),
        3 => no("=== Version\n"),
        4 => no("=== Version 1\n"),
        5 => no("=== Version 1.2\n"),
        6 => no("=== Version 1.2.3.4\n"),
        7 => no("=== Version 1..3\n"),
        8 => no("=== Version 1.2.3\nproducer: p\n"),
        9 => no("=== Version 1.2.3\n    producer: p\n"),
        10 => no("=== Version 1.2.3\n  producer p\n"),
        11 => no("=== Version 1.2.3\n  author: p\n"),
        12 => no("=== Version1.2.3\n"),
        13 | 14 => {
            // one character of the number or key is another
            let mut b = (if case == 13 { "=== Version 1.2.3\n" } else { "=== Version 1.2.3\n  producer: p\n" }).as_bytes().to_vec();
            let (lo, n) = if case == 13 { (12, 5) } else { (20, 8) };
            let i = lo + choice(n) as usize;
            let c = hole(PRN);
            if case == 13 {
                assume(!c.is_ascii_digit() & (c != b'+') & (c != b'.'));
                // a space at either end is allowed, but then a number is missing
            } else {
                assume(c != b[i]);
            }
            b[i] = c;
            // SAFETY: ASCII
            no(&unsafe { String::from_utf8_unchecked(b) });
        }
        _ => no("  producer: p\n"),
    }
}
pub fn sections_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
/// Sections are optional, unique and in order.
pub fn sections(case: u32) {
    let n = case + 1;
    let mut x = String::new();
    let mut seq = vec![];
    if choice(2) == 1 {
        x.push('\n');
    }
    let e = ext1();
    for _ in 0..n {
        let k = choice(3);
        let full = choice(2) == 1;
        seq.push((k, full));
        match k {
            0 => x.push_str(if full { "=== Version 1.2.3\n  producer: p\n" } else { "=== Version 1.2.3\n" }),
            1 => {
                if full {
                    x.push_str(&e.text());
                } else {
                    x.push_str("=== Extensions\n");
                }
            }
            _ => x.push_str(if full { "=== Plan\nRead[t => a:i64]\n" } else { "=== Plan\n" }),
        }
    }
    if seq.windows(2).any(|w| w[0].0 >= w[1].0) {
        return rejected(&x, "sections out of order were accepted");
    }
    let mut p = Plan::default();
    for (k, full) in seq {
        match (k, full) {
            (0, _) => {
                p.version = Some(Version {
                    major_number: 1,
                    minor_number: 2,
                    patch_number: 3,
                    producer: (if full { "p" } else { "" }).into(),
                    git_hash: String::new(),
                })
            }
            (1, true) => e.fill(&mut p),
            (2, true) => p.relations.push(plan_rel(tab("t", 1).r)),
            _ => {}
        }
    }
    emit(&x);
    parses_to(&x, &p);
}
pub fn heads_cases(_: bool) -> Vec<u32> {
    (0..6).collect()
}
/// Only the exact headers are headers, and nothing may precede the first.
pub fn heads(case: u32) {
    let h = ["=== Version 1.2.3", "=== Extensions", "=== Plan"][case as usize % 3];
    let before = ["", "=== Version 1.2.3\n", "=== Version 1.2.3\n=== Extensions\n"][case as usize % 3];
    let mut b = h.as_bytes().to_vec();
    let c = hole(PRN);
    if case < 3 {
        // replace
        let n = if case == 0 { 11 } else { h.len() };
        let i = choice(n as u32) as usize;
        assume(c != b[i]);
        b[i] = c;
    } else if choice(2) == 0 {
        // append
        assume((c != b' ') & !(c.is_ascii_digit() & (case == 3)));
        b.push(c);
    } else {
        // a space inserted
        let i = choice(if case == 3 { 11 } else { h.len() as u32 }) as usize;
        b.insert(i, b' ');
    }
    // SAFETY: ASCII
    let b = unsafe { String::from_utf8_unchecked(b) };
    rejected(&cat(&[before, &b, "\n"]), "a misspelt section header was accepted");
}
