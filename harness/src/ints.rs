//! C04: numbers and constants are never altered.
use super::gen_::*;
use super::rt::*;
use substrait::proto::expression::literal::LiteralType;
use substrait::proto::rel::RelType;
use substrait::proto::{Plan, plan_rel};

const TY: [&str; 4] = ["i8", "i16", "i32", "i64"];
fn int_kind(k: u32, v: i64) -> LiteralType {
    match k {
        0 => LiteralType::I8(v as i32),
        1 => LiteralType::I16(v as i32),
        2 => LiteralType::I32(v as i32),
        _ => LiteralType::I64(v),
    }
}
fn int_lit(k: u32, v: i64, nullable: bool) -> X {
    let l = int_kind(k, v);
    let mut x = v.to_string();
    if k != 3 || nullable {
        x.push(':');
        x.push_str(TY[k as usize]);
        if nullable {
            x.push('?');
        }
    }
    X { e: lit(l, nullable), x }
}
fn one(e: X) -> (Plan, String) {
    plan1(&ext1(), project(vec![P::Ref(0), P::Ex(e)], tab("t", 1)))
}
pub fn lit_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// Every value of every integer literal type.
pub fn literal(case: u32) {
    let k = case % 4;
    let v = if k == 3 { any_i64() } else { any_i32() as i64 };
    let (p, x) = one(int_lit(k, v, case >= 4));
    agree(&p, &x);
}
pub fn bool_cases(_: bool) -> Vec<u32> {
    vec![0]
}
pub fn constants(_: u32) {
    let v = choice(2) == 1;
    let nullable = choice(2) == 1;
    let mut x: String = (if v { "true" } else { "false" }).into();
    if nullable {
        x.push_str(":boolean?");
    }
    let (p, t) = one(X { e: lit(LiteralType::Boolean(v), nullable), x });
    agree(&p, &t);
    // an explicit default suffix means the same
    let (p, _) = one(X { e: lit(LiteralType::Boolean(v), false), x: String::new() });
    let t = cat(&[&ext1().text(), "=== Plan\nProject[$0, ", if v { "true" } else { "false" }, ":boolean]\n  Read[t => a:i64]\n"]);
    parses_to(&t, &p);
}

/// The last 20 digits of a decimal number as (hi, lo) with value hi * 10^18 + lo,
/// lo < 10^18.
#[derive(Clone, Copy)]
struct Big(u64, u64);
fn value(d: &str) -> Big {
    let b = d.as_bytes();
    let b = if b.len() > 20 { &b[b.len() - 20..] } else { b };
    let cut = b.len().saturating_sub(18);
    let f = |b: &[u8]| {
        let mut v = 0u64;
        for c in b {
            v = v.wrapping_mul(10).wrapping_add((c - b'0') as u64);
        }
        v
    };
    Big(f(&b[..cut]), f(&b[cut..]))
}
impl Big {
    fn at_most(self, m: u64) -> bool {
        let t = 1_000_000_000_000_000_000;
        (self.0 < m / t) | ((self.0 == m / t) & (self.1 <= m % t))
    }
    fn low(self) -> i64 {
        self.0.wrapping_mul(1_000_000_000_000_000_000).wrapping_add(self.1) as i64
    }
}
/// Fixed leading digits before the symbolic ones: around the limits of i32,
/// u32, i64 and u64.
const LEAD: [(&str, u32); 8] = [
    ("21474", 5),
    ("42949", 5),
    ("92233720368547", 5),
    ("1844674407370955", 4),
    ("000000000000000000000000", 4),
    ("999999999999999999", 2),
    ("1234567890", 3),
    ("42949672960", 2),
];
pub fn text_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..12u32 {
        for neg in 0..2u32 {
            for n in 1..=9u32 {
                if th || n <= 2 || n == 6 || n == 9 {
                    v.push(k << 16 | n << 8 | neg);
                }
            }
            for l in 0..LEAD.len() as u32 {
                v.push(k << 16 | (100 + l) << 8 | neg);
            }
        }
    }
    v
}
/// A written number is stored exactly, or the text is rejected when the field
/// cannot hold it. `k` selects where the number stands.
pub fn text(case: u32) {
    let k = case >> 16;
    let n = (case >> 8 & 0xff) as usize;
    let neg = case & 1 == 1;
    let d = if n >= 100 {
        let (p, k) = LEAD[n - 100];
        cat(&[p, &sym_str(DIG, k as usize)])
    } else {
        sym_str(DIG, n)
    };
    let big = value(&d);
    let num = cat(&[if neg { "-" } else { "" }, &d]);
    let i32ok = big.at_most(i32::MAX as u64 + neg as u64);
    let i64ok = big.at_most(i64::MAX as u64 + neg as u64);
    let u32ok = big.at_most(u32::MAX as u64) & !neg;
    let zero = (big.0 == 0) & (big.1 == 0);
    let v = if neg { big.low().wrapping_neg() } else { big.low() };
    let e = ext1().text();
    let (t, ok): (String, bool) = match k {
        0 => (cat(&[&e, "=== Plan\nProject[$0, ", &num, ":i8]\n  Read[t => a:i64]\n"]), i32ok),
        1 => (cat(&[&e, "=== Plan\nProject[$0, ", &num, ":i16?]\n  Read[t => a:i64]\n"]), i32ok),
        2 => (cat(&[&e, "=== Plan\nProject[$0, ", &num, ":i32]\n  Read[t => a:i64]\n"]), i32ok),
        3 => (cat(&[&e, "=== Plan\nProject[$0, ", &num, "]\n  Read[t => a:i64]\n"]), i64ok),
        4 => (cat(&[&e, "=== Plan\nFilter[f($", &num, "):boolean => $0]\n  Read[t => a:i64]\n"]), i32ok),
        5 => (cat(&[&e, "=== Plan\nFilter[true => $0, $", &num, "]\n  Read[t => a:i64]\n"]), i32ok),
        6 => (cat(&[&e, "=== Plan\nFetch[limit=", &num, " => $0]\n  Read[t => a:i64]\n"]), i64ok & (!neg | zero)),
        7 => (cat(&[&e, "=== Plan\nFetch[offset=", &num, " => $0]\n  Read[t => a:i64]\n"]), i64ok & (!neg | zero)),
        8 => (cat(&["=== Extensions\nURNs:\n  @ ", &num, ": /u\n\n=== Plan\nRead[t => a:i64]\n"]), u32ok),
        9 => (cat(&["=== Extensions\nURNs:\n  @ 1: /u\nFunctions:\n  #", &num, " @ 1: f\n\n=== Plan\nRead[t => a:i64]\n"]), u32ok),
        10 => (cat(&["=== Extensions\nURNs:\n  @ 1: /u\nTypes:\n  #", &num, " @ 1: f\n\n=== Plan\nRead[t => a:i64]\n"]), u32ok),
        _ => (cat(&["=== Version ", &num, ".0.7\n=== Plan\nRead[t => a:i64]\n"]), u32ok),
    };
    emit(&t);
    let r = substrait_explain::parse(&t);
    if !ok {
        check(r.is_err(), "a number that does not fit is accepted");
        cover(2);
        return;
    }
    let Ok(got) = r else { fail("a number that fits is rejected") };
    let e1 = ext1();
    let want = match k {
        0..=3 => one(X { e: lit(int_kind(k, v), k == 1), x: String::new() }).0,
        4 => plan1(&e1, filter(call("f", 1, vec![X { e: field_e(v as i32), x: String::new() }], simple(0, REQ)), &[0], tab("t", 1))).0,
        5 => {
            let mut p = plan1(&e1, filter(boolean(true), &[0], tab("t", 1))).0;
            let Some(plan_rel::RelType::Rel(r)) = &mut p.relations[0].rel_type else { fail("plan") };
            let Some(RelType::Filter(f)) = &mut r.rel_type else { fail("plan") };
            f.common = emit_explicit(&[0, v as i32]);
            p
        }
        6 => plan1(&e1, fetch(Some(X { e: lit(LiteralType::I64(v), false), x: String::new() }), None, &[0], tab("t", 1))).0,
        7 => plan1(&e1, fetch(None, Some(X { e: lit(LiteralType::I64(v), false), x: String::new() }), &[0], tab("t", 1))).0,
        8 => {
            let mut p = plan1(&ext0(), tab("t", 1)).0;
            p.extension_urns.push(urn_proto(v as u32, "/u"));
            p
        }
        9 | 10 => {
            let mut p = plan1(&ext0(), tab("t", 1)).0;
            p.extension_urns.push(urn_proto(1, "/u"));
            p.extensions.push(decl(k - 9, v as u32, 1, "f"));
            p
        }
        _ => {
            let mut p = plan1(&ext0(), tab("t", 1)).0;
            p.version = Some(substrait::proto::Version { major_number: v as u32, patch_number: 7, ..Default::default() });
            p
        }
    };
    check(got == want, "a number was altered by parsing");
    cover(1);
}
pub fn fetch_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
/// Limit and offset of any size, in either order of writing.
pub fn limits(case: u32) {
    let a = any_i64();
    assume(a >= 0);
    let b = 7 + below(2) as i64;
    let (l, o) = if case % 2 == 0 { (a, b) } else { (b, a) };
    if case < 2 {
        let (p, x) = plan1(&ext0(), fetch(Some(int(l)), Some(int(o)), &[0], tab("t", 1)));
        agree(&p, &x);
    } else {
        let (p, _) = plan1(&ext0(), fetch(Some(int(l)), Some(int(o)), &[0], tab("t", 1)));
        let x = cat(&["=== Plan\nFetch[offset=", &o.to_string(), ", limit=", &l.to_string(), " => $0]\n  Read[t => a:i64]\n"]);
        emit(&x);
        parses_to(&x, &p);
    }
}
