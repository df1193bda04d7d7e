//! C17: what the parser accepts, the formatter prints as text that parses to the same
//! plan and prints the same again.
use super::c01::{edited, inserted, overwritten};
use super::doc::TEXTS;
use super::ext::registry;
use super::rt::*;
use substrait_explain::{OutputOptions, format_with_registry, parse_with_registry};

const MORE: &[&str] = &[
    "=== Version 0.1.2\n  producer: x y\n=== Extensions\nURNs:\n  @  1: /u\n  @  2: /v\nFunctions:\n  #  1 @  1: f:i64\n  #  2 @  2: f:i64\n  #  3 @  1: g\nTypes:\n  #  1 @  1: p\n=== Plan\nRoot[a]\n  Aggregate[($0, $1), ($0), _ => $0, $1, g($2):i64, f:i64#2():i64]\n    Sort[($0, &AscNullsFirst), (g($1):i64, &DescNullsLast) => $0, $1, $2]\n      Fetch[limit=1:i32, offset=g():i64 => $0, $1, $2]\n        Read[t => a:i64, b:p?<i64, list<i8>>, c:interval_day<6>]\n\nFilter[if_then(g(null:i64?):boolean -> true, _ -> ($0)::!boolean) => $0]\n  Read[t +> a:i64 |> $0, $0]\n",
    "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  # 1 @  1: f:i64\nTypes:\n  # 2 @  1: t\n=== Plan\nRoot[\"a b\"]\n  Project[$0, f#1@1($0, '1970-01-02':date):i64, (1:i8)::?i16]\n    Read[a.\"b\" => a:t#2@1?<i8>, c:list<i64?>]\n",
    "=== Plan\nProject[$0, $1, 7, $0, '01:02:03.5':time, '1d 2s 3ms':interval_day<3>?]\n  Cross[$1, $0]\n    Read:Virtual[\n    - (1:i8?),\n    - (null:i8?)\n    - => a:i8?]\n    Read[x.y +> b:i64 |> ]\n",
    "=== Plan\nRoot[a, \"\"]\n  ExtensionMulti:Bag[1, &C, 'q', (1, $0, (true,)), -5, k='b', j=null => $0, b:i64?, g:list<i8>]\n    Sort[_ => $0]\n      Read[t => a:u!i8x, b:precisiontime<3>]\n        + Enh:Twin[_]\n        + Opt:Bag[_]\n    Fetch[offset=1 => $0]\n      Read:Extension:Bag[1 => a:i64]\n",
];
fn text(i: usize) -> &'static str {
    if i < TEXTS.len() { TEXTS[i] } else { MORE[i - TEXTS.len()] }
}
fn judge(t: &str) {
    let reg = registry();
    let Ok(p) = parse_with_registry(t, &reg) else {
        return cover(0);
    };
    let o = OutputOptions::default();
    let (a, errs) = format_with_registry(&p, &o, &reg);
    if !errs.is_empty() {
        // C02
        return cover(1);
    }
    emit(&a);
    let Ok(q) = parse_with_registry(&a, &reg) else { fail("the printed text of an accepted text does not parse") };
    check(p == q, "the printed text of an accepted text is another plan");
    let (b, errs) = format_with_registry(&q, &o, &reg);
    check(errs.is_empty() & (a == b), "the printed text is not its own canonical form");
    cover(2);
}
fn positions(step: usize) -> Vec<u32> {
    let mut v = vec![];
    for i in 0..TEXTS.len() + MORE.len() {
        for p in 0..text(i).len() {
            if p % step == i % step {
                v.push(((i as u32) << 16) | p as u32);
            }
        }
    }
    v
}
pub fn window_cases(th: bool) -> Vec<u32> {
    positions(if th { 1 } else { 2 })
}
/// Two arbitrary ASCII bytes overwrite the text at every position.
pub fn window(case: u32) {
    let (s, p) = (text((case >> 16) as usize), (case & 0xffff) as usize);
    let t = overwritten(s, p);
    if s.find("=== Plan").is_some_and(|x| x < p) {
        // new floating-point numbers are out of reach of the encoding (C30)
        let b = t.as_bytes();
        let dot = |i: usize| (b[i] == b'.') & b[i - 1].is_ascii_digit();
        assume(!dot(p));
        if p + 1 < b.len() {
            assume(!dot(p + 1));
        }
    }
    judge(&t);
}
pub fn insert_cases(th: bool) -> Vec<u32> {
    positions(if th { 1 } else { 3 })
}
/// Characters or runs of them are inserted anywhere.
pub fn insert(case: u32) {
    judge(&inserted(text((case >> 16) as usize), (case & 0xffff) as usize));
}
/// One byte is deleted, or replaced by an arbitrary one, or an arbitrary one inserted.
pub fn byte(case: u32) {
    let s = text((case >> 16) as usize).as_bytes();
    let p = (case & 0xffff) as usize;
    let mut b = s[..p].to_vec();
    match choice(3) {
        0 => b.extend(&s[p + 1..]),
        1 => {
            b.push(hole(ANY));
            b.extend(&s[p + 1..]);
        }
        _ => {
            b.push(hole(ANY));
            b.extend(&s[p..]);
        }
    }
    // SAFETY: ASCII
    judge(&unsafe { String::from_utf8_unchecked(b) });
}
pub fn byte_cases(_: bool) -> Vec<u32> {
    positions(1)
}
pub fn lines_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for i in 0..TEXTS.len() + MORE.len() {
        for l in 0..text(i).lines().count() {
            v.push(((i as u32) << 16) | l as u32);
        }
    }
    v
}
/// Lines are dropped, repeated, exchanged, re-indented or preceded by others.
pub fn lines(case: u32) {
    judge(&edited(text((case >> 16) as usize), (case & 0xffff) as usize));
}
