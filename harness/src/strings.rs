//! C05: strings and quoted names.
use super::gen_::*;
use super::rt::*;
use substrait::proto::Plan;
use substrait::proto::expression::literal::LiteralType;

/// A plan holding `s` at position `k`.
pub const PLACES: u32 = 7;
fn string(s: &str, nullable: bool) -> X {
    X { e: lit(LiteralType::String(s.into()), nullable), x: String::new() }
}
fn place(k: u32, s: &str) -> Plan {
    match k {
        0 => plan1(&ext1(), project(vec![P::Ref(0), P::Ex(string(s, false))], tab("t", 1))).0,
        1 => plan1(&ext1(), filter(call("f", 1, vec![string(s, true), field(0)], simple(0, REQ)), &[0], tab("t", 1))).0,
        2 => plan1(&ext1(), virt(vec![vec![string(s, false), int(1)]], None, &cols(2))).0,
        3 => plan1(&ext0(), read(&[s, "u"], &cols(1))).0,
        4 => plan1(&ext0(), read(&["t"], &[("a".into(), i64t()), (s.into(), simple(7, NUL))])).0,
        5 => plan_root(&ext0(), &[s, "b"], tab("t", 2)).0,
        _ => plan1(&ext1(), project(vec![P::Ex(if_then(vec![(string(s, false), string(s, true))], int(1)))], tab("t", 1))).0,
    }
}
fn survives(k: u32, s: &str) {
    let p = place(k, s);
    emit(s);
    let (out, errs) = substrait_explain::format(&p);
    emit("\n");
    emit(&out);
    check(errs.is_empty(), "formatting a string reported errors");
    parses_to(&out, &p);
}
pub fn ascii_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..PLACES {
        for n in 0..=(if th { 4 } else { 2 }) {
            if n > 0 || k != 5 {
                v.push(k * 16 + n);
            }
        }
    }
    if !th {
        v.push(3);
        v.push(3 * 16 + 3);
    }
    v
}
/// Every string of a few ASCII characters, in every position.
pub fn ascii(case: u32) {
    survives(case / 16, &sym_str(ANY, (case % 16) as usize));
}
pub fn unicode_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..PLACES {
        for (r, u) in UNI.iter().enumerate() {
            if th || (u.2 == 0 && (k == 0 || r < 2)) {
                v.push(k * 32 + r as u32);
            }
        }
    }
    v
}
/// Ranges covering all of Unicode; the last number is 1 for those left to the
/// thorough tier.
const UNI: [(u32, u32, u32); 22] = [
    (0x80, 0x300, 0),
    (0x300, 0x500, 0),
    (0x500, 0x800, 0),
    (0x800, 0xb00, 0),
    (0xb00, 0xd00, 1),
    (0xd00, 0x1000, 1),
    (0x1000, 0x1700, 1),
    (0x1700, 0x1f00, 1),
    (0x1f00, 0x2100, 0),
    (0x2100, 0x3000, 0),
    (0x3000, 0xa000, 0),
    (0xa000, 0xac00, 1),
    (0xac00, 0xd800, 0),
    (0xe000, 0xfb00, 0),
    (0xfb00, 0xfe00, 1),
    (0xfe00, 0x10000, 0),
    (0x10000, 0x10a00, 1),
    (0x10a00, 0x11800, 1),
    (0x11800, 0x1d000, 1),
    (0x1d000, 0x1f300, 1),
    (0x1f300, 0x1f700, 0),
    (0x1f700, 0x110000, 0),
];
/// One character of a Unicode range between two others.
pub fn unicode(case: u32) {
    let (lo, hi, _) = UNI[(case % 32) as usize];
    let v = any_u32();
    assume((v >= lo) & (v < hi) & !((v >= 0xd800) & (v < 0xe000)));
    let c = unsafe { char::from_u32_unchecked(v) };
    let k = case / 32;
    let mut s = String::from(match choice(2) {
        0 => "",
        _ if (3..6).contains(&k) => "a",
        _ => "é",
    });
    s.push(c);
    s.push('z');
    survives(k, &s);
}
/// The documented meaning of a quoted body: `\n`, `\t`, `\r`, `\0` and `\u{..}`
/// are escapes, any other escaped character stands for itself. None if the
/// quote ends early or the escape runs over the end.
fn unquote(b: &[u8], q: u8) -> Option<Vec<u8>> {
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        if c == q {
            return None;
        }
        if c == b'\\' {
            i += 1;
            if i >= b.len() {
                return None;
            }
            match b[i] {
                b'n' => v.push(b'\n'),
                b't' => v.push(b'\t'),
                b'r' => v.push(b'\r'),
                b'0' => v.push(0),
                // unicode escapes are checked by `escapes`
                b'u' if i + 1 < b.len() && b[i + 1] == b'{' => return None,
                o => v.push(o),
            }
        } else {
            v.push(c);
        }
        i += 1;
    }
    Some(v)
}
pub fn text_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..4 {
        for n in 0..=(if th { 5 } else { 3 }) {
            v.push(k * 16 + n);
        }
    }
    v
}
/// Any quoted text denotes what the grammar says.
pub fn text(case: u32) {
    let (k, n) = (case / 16, (case % 16) as usize);
    let b = sym_str(ANY, n);
    for c in b.bytes() {
        assume(c != b'\n');
    }
    let q = if k < 2 { b'\'' } else { b'"' };
    let Some(v) = unquote(b.as_bytes(), q) else { return cover(3) };
    let s = unsafe { String::from_utf8_unchecked(v) };
    let (p, x) = match k {
        0 => (
            plan1(&ext0(), project(vec![P::Ref(0), P::Ex(string(&s, false))], tab("t", 1))).0,
            cat(&["=== Plan\nProject[$0, '", &b, "']\n  Read[t => a:i64]\n"]),
        ),
        1 => (
            plan1(&ext0(), filter(string(&s, true), &[0], tab("t", 1))).0,
            cat(&["=== Plan\nFilter['", &b, "':string? => $0]\n  Read[t => a:i64]\n"]),
        ),
        2 => (
            plan_root(&ext0(), &[&s], tab("t", 1)).0,
            cat(&["=== Plan\nRoot[\"", &b, "\"]\n  Read[t => a:i64]\n"]),
        ),
        _ => (
            plan1(&ext0(), read(&["t", &s], &[(s.clone(), i64t())])).0,
            cat(&["=== Plan\nRead[t.\"", &b, "\" => \"", &b, "\":i64]\n"]),
        ),
    };
    emit(&x);
    parses_to(&x, &p);
}
pub fn escape_cases(th: bool) -> Vec<u32> {
    (1..=(if th { 6 } else { 4 })).collect()
}
/// `\u{..}` with up to six hexadecimal digits.
pub fn escapes(n: u32) {
    let h = sym_str(IDC, n as usize);
    let mut v = 0u32;
    for b in h.bytes() {
        assume(b.is_ascii_hexdigit());
        let d = if b <= b'9' { b - b'0' } else { (b & 0x0f) + 9 };
        v = v * 16 + d as u32;
    }
    assume((v < 0xd800) | ((v >= 0xe000) & (v < 0x110000)));
    let c = unsafe { char::from_u32_unchecked(v) };
    let mut s = String::from("<");
    s.push(c);
    s.push('>');
    let x = cat(&["=== Plan\nProject[$0, '<\\u{", &h, "}>']\n  Read[t => a:i64]\n"]);
    emit(&x);
    let (p, _) = plan1(&ext0(), project(vec![P::Ref(0), P::Ex(string(&s, false))], tab("t", 1)));
    parses_to(&x, &p);
}
pub fn bare_cases(th: bool) -> Vec<u32> {
    (1..=(if th { 4 } else { 3 })).collect()
}
/// Identifiers are written bare, everything else quoted, and the two spellings
/// of a name mean the same.
pub fn bare(n: u32) {
    let s = sym_str(PRN, n as usize);
    for c in s.bytes() {
        assume((c != b'"') & (c != b'\\') & (c != b'\''));
    }
    let (p, x) = plan1(&ext0(), read(&["t", &s], &cols(1)));
    agree(&p, &x);
    let x2 = cat(&["=== Plan\nRead[\"t\".\"", &s, "\" => \"a\":i64]\n"]);
    parses_to(&x2, &p);
}
pub fn long_cases(_: bool) -> Vec<u32> {
    (0..PLACES).collect()
}
/// Long strings are not cut, split or normalised.
pub fn long(k: u32) {
    let mut s = String::new();
    for i in 0..40 {
        s.push_str(["abcdefg ", "x\u{e9}y\u{1f600}z", "'\"\\  ", "A=> ,(]"][i % 4]);
        if i == 3 || i == 37 {
            s.push_str(&sym_str(PRN, 1));
        }
    }
    survives(k, &s);
}
