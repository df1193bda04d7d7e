//! C01: parsing is total.
use super::rt::*;
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{ParseError, parse, parse_with_registry};

pub const SEEDS: &[&str] = &[
    "=== Version 1.2.3\n  producer: p\n  git_hash: 00\n=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  # 10 @  1: f:i64\nTypes:\n  # 11 @  1: t\nType Variations:\n  # 12 @  1: v\n=== Plan\nRoot[a]\n  Read[x => a:i64]\n",
    "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  # 1 @  1: f:i64\nTypes:\n  # 2 @  1: t\n=== Plan\nRoot[\"a b\"]\n  Project[$0, f#1@1($0, '1970-01-02':date):i64, (1:i8)::?i16]\n    Read[a.\"b\" => a:t#2@1?<i8>, c:list<i64?>]\n",
    "=== Plan\nFilter[true => $0]\n  Sort[($0, &AscNullsFirst) => $0]\n    Fetch[limit=10, offset=5 => $0]\n      Read[t +> a:i64 |> $0]\n",
    "=== Plan\nAggregate[($0, $1), _ => $0]\n  Join[&Left, true, post_filter=false => $0, $1]\n    Read:Virtual[(1, null:i8) => a:i64, b:i8]\n    Read[t => ]\n",
    "=== Plan\nSet[&UnionAll => $0]\n  Cross[$0]\n    Read:Virtual[\n    - (1),\n    - _]\n    Read:Virtual[_, filter=true => a:i64]\n",
    "=== Plan\nProject[if_then(true -> 1, _ -> 2), '1d 2s 3ms':interval_day<3>, 1.5:fp32]\n  Read[t => a:precisiontimestamp<6>]\n    + Opt:Bag[1, &C, (1,), k='b']\n",
    "=== Plan\nRoot[a]\n  ExtensionSingle:Bag[1, k=$0 => $0, b:i64, null:i8]\n    Read:Extension[a:i64]\n      + Ext:Bag[_]\n",
];
/// Seeds from this one on need the registry.
const REG: usize = 5;
fn try_parse(seed: usize, t: &str) {
    let r: Result<_, ParseError> = if seed >= REG {
        let reg: ExtensionRegistry = super::ext::registry();
        parse_with_registry(t, &reg)
    } else {
        parse(t)
    };
    if let Err(e) = &r {
        check(!e.to_string().is_empty(), "a parse error has no text");
    }
    emit(if r.is_ok() { "ok" } else { "err" });
    cover(r.is_ok() as u64);
}
fn positions(step: usize) -> Vec<u32> {
    let mut v = vec![];
    for (i, s) in SEEDS.iter().enumerate() {
        for p in 0..s.len() {
            // arbitrary floating-point text is out of reach of the encoding (C30)
            let float = s.find("1.5").is_some_and(|f| p + 3 > f && p <= f + 3);
            if p % step == 0 && !float {
                v.push(((i as u32) << 16) | p as u32);
            }
        }
    }
    v
}
fn at(case: u32) -> (usize, usize, &'static str) {
    let i = (case >> 16) as usize;
    (i, (case & 0xffff) as usize, SEEDS[i])
}
pub fn window_cases(th: bool) -> Vec<u32> {
    positions(if th { 1 } else { 2 })
}
/// Two arbitrary ASCII bytes overwrite the text at every position.
pub fn window(case: u32) {
    let (i, p, s) = at(case);
    try_parse(i, &overwritten(s, p));
}
pub fn overwritten(s: &str, p: usize) -> String {
    let mut b = s.as_bytes().to_vec();
    for k in 0..2 {
        if p + k < b.len() {
            b[p + k] = hole(ANY);
        }
    }
    // SAFETY: ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
fn cont() -> u8 {
    let b = any_u8();
    assume((b >= 0x80) & (b < 0xc0));
    b
}
pub fn insert_cases(th: bool) -> Vec<u32> {
    positions(if th { 1 } else { 2 })
}
/// One character of 2, 3 or 4 bytes, or a long run, is inserted anywhere, or the
/// text is cut there.
pub fn insert(case: u32) {
    let (i, p, s) = at(case);
    try_parse(i, &inserted(s, p));
}
pub fn inserted(s: &str, p: usize) -> String {
    let mut b = s.as_bytes()[..p].to_vec();
    let mut rest = &s.as_bytes()[p..];
    match choice(9) {
        0 => b.extend([[0xc2, 0xc3][choice(2) as usize], cont()]),
        1 => {
            // U+2000.. and U+3000.. hold the wide spaces
            let (x, y) = [(0xe2, 0x80), (0xe3, 0x80), (0xe2, 0x82)][choice(3) as usize];
            b.extend([x, y, cont()]);
        }
        2 => b.extend([0xf0, 0x9f, 0x98, cont()]),
        3 => {
            let c = hole(ANY);
            b.extend([c; 48]);
        }
        4 => {
            for _ in 0..300 {
                b.extend("é".as_bytes());
            }
        }
        5 => {
            b.push(b'a');
            for _ in 0..300 {
                b.extend("é".as_bytes());
            }
        }
        6 => {
            b.push(hole(DIG));
            b.extend([b'9'; 24]);
        }
        7 => {
            b.push(hole(ANY));
            rest = &[];
        }
        _ => {
            b.push(hole(ANY));
            rest = match rest.iter().position(|c| *c == b'\n') {
                Some(n) => &rest[n..],
                None => &[],
            };
        }
    }
    b.extend(rest);
    // SAFETY: whole characters were inserted into ASCII
    unsafe { String::from_utf8_unchecked(b) }
}
pub fn lines_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, s) in SEEDS.iter().enumerate() {
        for l in 0..s.lines().count() {
            v.push(((i as u32) << 16) | l as u32);
        }
    }
    v
}
/// Lines are dropped, repeated, exchanged, re-indented or preceded by others.
pub fn lines(case: u32) {
    let (i, l, s) = at(case);
    try_parse(i, &edited(s, l));
}
pub fn edited(s: &str, l: usize) -> String {
    let ls: Vec<&str> = s.lines().collect();
    let mut o: Vec<String> = ls.iter().map(|x| String::from(*x)).collect();
    let body = ls[l].trim_start();
    match choice(9) {
        0 => {
            o.remove(l);
        }
        1 => {
            let x = o[l].clone();
            let to = choice(ls.len() as u32) as usize;
            o.insert(to, x);
        }
        2 => {
            let to = choice(ls.len() as u32) as usize;
            o.swap(l, to);
        }
        3 => {
            let n = choice(9) as usize;
            let mut x = " ".repeat(n);
            x.push_str(body);
            o[l] = x;
        }
        4 => {
            // one arbitrary character instead of the indentation
            let mut x = sym_str(ANY, 1);
            x.push_str(body);
            o[l] = x;
        }
        5 => {
            let mut x = " ".repeat(choice(4) as usize * 2);
            x.push_str(["- ", "+ ", "+", "-"][choice(4) as usize]);
            x.push_str(body);
            o[l] = x;
        }
        6 => {
            // an extra line of two arbitrary characters
            o.insert(l, sym_str(ANY, 2));
        }
        7 => {
            // a very long line, without and with a quote before its end
            let mut x = String::from(["", "a", "\"", "'a"][choice(4) as usize]);
            for _ in 0..2100 {
                x.push('é');
            }
            match choice(3) {
                0 => {}
                1 => x.push_str(["", "", "\"", "'"][choice(4) as usize]),
                _ => x.push(']'),
            }
            if choice(2) == 0 {
                o[l].push_str(&x);
            } else if let Some(at) = o[l].find([' ', '[', '(']) {
                o[l].insert_str(at + 1, &x);
            }
        }
        _ => {
            o[l].push('\r');
            let w = sym_str(ANY, 1);
            o[l].push_str(&w);
        }
    }
    let mut t = o.join("\n");
    t.push('\n');
    t
}
