//! C06: dates, times and timestamps; C07: day intervals.
use super::gen_::*;
use super::rt::*;
use substrait::proto::Plan;
use substrait::proto::expression::literal::{self, LiteralType};

fn one(l: LiteralType, nullable: bool) -> Plan {
    plan1(&ext0(), project(vec![P::Ref(0), P::Ex(X { e: lit(l, nullable), x: String::new() })], tab("t", 1))).0
}
fn page(x: &str) -> String {
    cat(&["=== Plan\nProject[$0, ", x, "]\n  Read[t => a:i64]\n"])
}
fn num(b: &[u8]) -> i64 {
    let mut v = 0i64;
    for c in b {
        v = v * 10 + (*c - b'0') as i64;
    }
    v
}
fn leap(y: i64) -> bool {
    (y % 4 == 0) & ((y % 100 != 0) | (y % 400 == 0))
}
/// Days since 1970-01-01 of a proleptic Gregorian date, None if there is no
/// such date.
fn days(y: i64, m: i64, d: i64) -> Option<i64> {
    const BEFORE: [i64; 14] = [0, 0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365];
    if (m < 1) | (m > 12) | (d < 1) {
        return None;
    }
    let l = leap(y) as i64;
    let i = m as usize;
    let len = BEFORE[i + 1] - BEFORE[i] + if m == 2 { l } else { 0 };
    if d > len {
        return None;
    }
    // 365 days per year plus one per earlier leap year
    let leaps = |z: i64| {
        let t = z - 1 + 12000;
        t / 4 - t / 100 + t / 400
    };
    let d0 = 365 * (y - 1970) + leaps(y) - leaps(1970);
    Some(d0 + BEFORE[i] + if m > 2 { l } else { 0 } + d - 1)
}
/// Overwrite the digits numbered by the bits of `mask` with symbolic digits.
fn holes(s: &str, mask: u32) -> String {
    let mut v = s.as_bytes().to_vec();
    let mut k = 0;
    for c in v.iter_mut() {
        if c.is_ascii_digit() {
            if mask >> k & 1 == 1 {
                *c = hole(DIG);
            }
            k += 1;
        }
    }
    unsafe { String::from_utf8_unchecked(v) }
}
fn masks(n: u32, th: bool) -> Vec<u32> {
    let mut v = vec![];
    for m in 1u32..(1 << n) {
        let c = m.count_ones();
        if c == 2 || (th && c == 3) {
            v.push(m);
        }
    }
    v
}
const DATES: [&str; 8] = [
    "2024-02-29", "1999-12-31", "0001-01-01", "9999-12-31", "1970-01-01", "1900-02-28", "2000-03-01", "0000-02-29",
];
pub fn date_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for m in masks(8, th) {
        for b in 0..DATES.len() as u32 {
            if th || (m + b) % 2 == 0 || b < 2 {
                v.push(b << 16 | m);
            }
        }
    }
    v
}
/// Every date that differs in two (thorough: three) digits from a base date.
pub fn date(case: u32) {
    let s = holes(DATES[(case >> 16) as usize], case & 0xffff);
    let nullable = case & 1 == 1;
    let q = if nullable { "?" } else { "" };
    let b = s.as_bytes();
    let d = days(num(&b[0..4]), num(&b[5..7]), num(&b[8..10]));
    let x = page(&cat(&["'", &s, "':date", q]));
    emit(&x);
    match d {
        Some(d) => {
            let p = one(LiteralType::Date(d as i32), nullable);
            agree(&p, &x);
            let slash = cat(&[&s[0..4], "/", &s[5..7], "/", &s[8..10]]);
            parses_to(&page(&cat(&["'", &slash, "':date", q])), &p);
        }
        None => rejected(&x, "a date that does not exist is accepted"),
    }
}
/// (text of the time of day, fraction digits)
const TIMES: [&str; 9] = [
    "23:59:59",
    "00:00:00.000",
    "12:34:56.789",
    "23:59:59.999999",
    "01:02:03.000001",
    "00:00:00.000000000",
    "23:59:59.999999999",
    "10:20:30.0000000000",
    "10:20:30.12345000000",
];
pub const TKINDS: u32 = 10;
/// kind 0: time, 1..=4: precisiontime<0,3,6,9>; 5: timestamp,
/// 6..=9: precisiontimestamp<..>; +10: precisiontimestamptz
fn unit(kind: u32) -> (i64, u32) {
    match kind % 5 {
        1 => (1, 0),
        2 => (1_000, 3),
        0 | 3 => (1_000_000, 6),
        _ => (1_000_000_000, 9),
    }
}
pub fn time_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, t) in TIMES.iter().enumerate() {
        let nd = t.bytes().filter(|c| c.is_ascii_digit()).count() as u32;
        for m in masks(nd, false) {
            for k in 0..5 {
                if th || (m.wrapping_mul(7) + i as u32 + k) % 4 == 0 {
                    v.push(k << 24 | (i as u32) << 20 | m);
                }
            }
        }
    }
    v
}
/// The value of a time of day in units of `per` a second; Err(false) if it
/// cannot be written in that unit, Err(true) if there is no such time.
fn tod(s: &str, per: i64) -> Result<i64, bool> {
    let b = s.as_bytes();
    let (h, m, sec) = (num(&b[0..2]), num(&b[3..5]), num(&b[6..8]));
    // the 60th second has a reading of its own
    assume(sec != 60);
    if (h > 23) | (m > 59) | (sec > 59) {
        return Err(true);
    }
    let mut f = 0i64;
    let mut unit = 1i64;
    if b.len() > 9 {
        f = num(&b[9..]);
        for _ in 9..b.len() {
            unit *= 10;
        }
    }
    // f / unit seconds
    if unit <= per {
        Ok((h * 3600 + m * 60 + sec) * per + f * (per / unit))
    } else {
        let r = unit / per;
        if f % r != 0 { Err(false) } else { Ok((h * 3600 + m * 60 + sec) * per + f / r) }
    }
}
fn time_literal(kind: u32, v: i64, nullable: bool) -> (LiteralType, String) {
    let (_, p) = unit(kind);
    let q = if nullable { "?" } else { "" };
    let ps = ["<0>", "<3>", "<6>", "<9>"][p as usize / 3];
    let p = p as i32;
    #[allow(deprecated)]
    match kind {
        0 => (LiteralType::Time(v), cat(&["time", q])),
        1..=4 => (
            LiteralType::PrecisionTime(literal::PrecisionTime { precision: p, value: v }),
            cat(&["precisiontime", q, ps]),
        ),
        5 => (LiteralType::Timestamp(v), cat(&["timestamp", q])),
        6..=9 => (
            LiteralType::PrecisionTimestamp(literal::PrecisionTimestamp { precision: p, value: v }),
            cat(&["precisiontimestamp", q, ps]),
        ),
        _ => (
            LiteralType::PrecisionTimestampTz(literal::PrecisionTimestamp { precision: p, value: v }),
            cat(&["precisiontimestamptz", q, ps]),
        ),
    }
}
fn frac_digits(s: &str) -> u32 {
    match s.find('.') {
        Some(i) => (s.len() - i - 1) as u32,
        None => 0,
    }
}
/// Every time of day that differs in two digits from a base time.
pub fn time(case: u32) {
    let (k, i, m) = (case >> 24, (case >> 20 & 0xf) as usize, case & 0xfffff);
    let s = holes(TIMES[i], m);
    temporal(k, &s, tod(&s, unit(k).0), m % 2 == 0);
}
fn temporal(k: u32, s: &str, v: Result<i64, bool>, nullable: bool) {
    let (l, ty) = time_literal(k, v.unwrap_or(0), nullable);
    let x = page(&cat(&["'", s, "':", &ty]));
    emit(&x);
    match v {
        Ok(_) => {
            let p = one(l, nullable);
            if frac_digits(s) == unit(k).1 {
                agree(&p, &x);
            } else {
                parses_to(&x, &p);
            }
        }
        Err(true) => rejected(&x, "a time that does not exist is accepted"),
        Err(false) => rejected(&x, "a fraction finer than the type is accepted"),
    }
}
const STAMPS: [&str; 6] = [
    "2024-02-29T23:59:59",
    "1969-12-31T23:59:59.999",
    "1970-01-01T00:00:00.000001",
    "2262-04-11T23:47:16.854775807",
    "1677-09-21T00:12:43.145224193",
    "0001-03-01T00:00:00.5",
];
pub fn stamp_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, t) in STAMPS.iter().enumerate() {
        let nd = t.bytes().filter(|c| c.is_ascii_digit()).count() as u32;
        for m in masks(nd, false) {
            for k in 5..15 {
                if k != 10 && (th || (m.wrapping_mul(5) + i as u32 + k) % 16 == 0) {
                    v.push(k << 27 | (i as u32) << 24 | m);
                }
            }
        }
    }
    v
}
/// Day and time of day in units since the epoch, if 64 bits hold it.
fn instant(d: i64, t: i64, per: i64, p: u32) -> Option<i64> {
    if p != 9 {
        return Some(d * 86400 * per + t);
    }
    // 64-bit nanoseconds end in 2262 and begin in 1677
    let (lo, hi) = (-106752i64, 106751i64);
    let day = 86_400_000_000_000i64;
    if (d < lo) | (d > hi) | ((d == hi) & (t > i64::MAX - hi * day)) {
        return None;
    }
    if d == lo {
        // lo * day does not fit; (lo + 1) * day - (day - t) does
        let r = (lo + 1) * day;
        let back = day - t;
        if back > r - i64::MIN { None } else { Some(r - back) }
    } else {
        Some(d * day + t)
    }
}
/// Every timestamp that differs in two digits from a base one.
pub fn stamp(case: u32) {
    let (k, i, m) = (case >> 27, (case >> 24 & 7) as usize, case & 0xffffff);
    let s = holes(STAMPS[i], m);
    let b = s.as_bytes();
    let (per, p) = unit(k);
    let d = days(num(&b[0..4]), num(&b[5..7]), num(&b[8..10]));
    let t = tod(&s[11..], per);
    let v = match (d, t) {
        (None, _) | (_, Err(true)) => Err(true),
        (_, Err(false)) => Err(false),
        (Some(d), Ok(t)) => match instant(d, t, per, p) {
            Some(v) => Ok(v),
            None => {
                let x = page(&cat(&["'", &s, "':", &time_literal(k, 0, false).1]));
                return rejected(&x, "a timestamp out of range is accepted");
            }
        },
    };
    temporal(k, &s, v, m % 2 == 0);
    if let Ok(v) = v {
        let (l, ty) = time_literal(k, v, false);
        let p = one(l, false);
        let sp = cat(&[&s[0..10], " ", &s[11..]]);
        parses_to(&page(&cat(&["'", &sp, "':", &ty])), &p);
        let sl = cat(&[&s[0..4], "/", &s[5..7], "/", &s[8..]]);
        parses_to(&page(&cat(&["'", &sl, "':", &ty])), &p);
    }
}

/// A reader of texts that may leave out leading zeros, put spaces before
/// numbers, sign the year, or put any number of spaces between date and time:
/// whatever is accepted must be one of these and mean this. `strict` stays
/// true for texts that use none of these liberties.
struct Lenient<'a> {
    b: &'a [u8],
    i: usize,
    strict: bool,
}
impl Lenient<'_> {
    fn at(&self) -> u8 {
        if self.i < self.b.len() { self.b[self.i] } else { 0 }
    }
    fn is(&mut self, c: u8) -> bool {
        let y = self.at() == c;
        self.i += y as usize;
        y
    }
    fn spaces(&mut self) -> usize {
        let mut n = 0;
        while self.is(b' ') {
            n += 1;
        }
        n
    }
    fn number(&mut self, width: usize, signed: bool) -> Option<i64> {
        if self.spaces() > 0 {
            self.strict = false;
        }
        let (mut max, mut neg) = (width, false);
        if signed && (self.at() == b'-' || self.at() == b'+') {
            neg = self.at() == b'-';
            self.i += 1;
            max = 9;
            self.strict = false;
        }
        let (mut n, mut v) = (0, 0i64);
        while n < max && self.at().is_ascii_digit() {
            v = v * 10 + (self.at() - b'0') as i64;
            n += 1;
            self.i += 1;
        }
        if n == 0 {
            return None;
        }
        if n != width {
            self.strict = false;
        }
        Some(if neg { -v } else { v })
    }
    fn date(&mut self) -> Option<i64> {
        let y = self.number(4, true)?;
        let sep = if self.is(b'-') {
            b'-'
        } else if self.is(b'/') {
            b'/'
        } else {
            return None;
        };
        let m = self.number(2, false)?;
        if !self.is(sep) {
            return None;
        }
        let d = self.number(2, false)?;
        days(y, m, d)
    }
    fn time(&mut self, per: i64) -> Option<i64> {
        let h = self.number(2, false)?;
        if !self.is(b':') {
            return None;
        }
        let m = self.number(2, false)?;
        if !self.is(b':') {
            return None;
        }
        let s = self.number(2, false)?;
        // the 60th second has a reading of its own
        assume(s != 60);
        if (h > 23) | (m > 59) | (s > 59) {
            return None;
        }
        let (mut f, mut unit) = (0i64, 1i64);
        if self.is(b'.') {
            let mut n = 0;
            while self.at().is_ascii_digit() {
                f = f * 10 + (self.at() - b'0') as i64;
                unit *= 10;
                n += 1;
                self.i += 1;
            }
            if n == 0 {
                return None;
            }
        }
        let t = (h * 3600 + m * 60 + s) * per;
        if unit <= per {
            Some(t + f * (per / unit))
        } else {
            let r = unit / per;
            if f % r != 0 { None } else { Some(t + f / r) }
        }
    }
    fn all(&self) -> bool {
        self.i == self.b.len()
    }
}
/// (kind as in `time_literal`, 20: date; base text)
const WRITTEN: [(u32, &str); 13] = [
    (20, "2024-02-29"),
    (20, "1999/12/31"),
    (20, "0009-1-1"),
    (0, "23:59:59"),
    (0, "01:02:03.000001"),
    (1, "00:00:00.0"),
    (4, "12:34:56.123456789"),
    (5, "2024-02-29T23:59:59"),
    (6, "1969-12-31 23:59:59"),
    (9, "2262-04-11T23:47:16.854775807"),
    (12, "1970/01/01T00:00:00.5"),
    (3, "1:2:3.5"),
    (7, "0999-10-10 10:10:10.000"),
];
pub fn written_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, (_, t)) in WRITTEN.iter().enumerate() {
        for p in 0..=t.len() as u32 {
            // replaced, inserted, deleted, two at once
            for k in 0..4 {
                if k == 1 || p < t.len() as u32 {
                    v.push((i as u32) << 16 | p << 4 | k);
                }
            }
        }
    }
    v
}
/// One arbitrary character replaced, inserted or deleted anywhere: the text
/// denotes the value it is read as, or is rejected.
pub fn written(case: u32) {
    let (i, p, how) = ((case >> 16) as usize, (case >> 4 & 0xfff) as usize, case & 15);
    let (k, t) = WRITTEN[i];
    let mut b = t.as_bytes().to_vec();
    match how {
        0 => b[p] = hole(PRN),
        1 => b.insert(p, hole(PRN)),
        2 => {
            b.remove(p);
        }
        _ => {
            b[p] = hole(PRN);
            b.insert(p, hole(PRN));
        }
    }
    for c in &b {
        assume((*c != b'\'') & (*c != b'\\'));
    }
    let mut r = Lenient { b: &b, i: 0, strict: true };
    let v = match k {
        20 => r.date(),
        0..5 => r.time(unit(k).0),
        _ => match r.date() {
            None => None,
            Some(d) => {
                let sep = if r.is(b'T') { 1 } else { r.spaces() };
                if sep != 1 {
                    r.strict = false;
                }
                let (per, p) = unit(k);
                r.time(per).and_then(|t| instant(d, t, per, p))
            }
        },
    };
    let v = if r.all() { v } else { None };
    let strict = r.strict;
    let nullable = p % 2 == 0;
    let q = if nullable { "?" } else { "" };
    let (l, ty) = match k {
        20 => (LiteralType::Date(v.unwrap_or(0) as i32), cat(&["date", q])),
        _ => time_literal(k, v.unwrap_or(0), nullable),
    };
    let t = unsafe { String::from_utf8_unchecked(b) };
    let x = page(&cat(&["'", &t, "':", &ty]));
    emit(&x);
    match (substrait_explain::parse(&x), v) {
        (Ok(p), Some(_)) => {
            check(p == one(l, nullable), "a date or time is read as another value");
            cover(1);
        }
        (Ok(_), None) => check(false, "a text that is no date or time is accepted"),
        (Err(_), Some(_)) => {
            check(!strict, "a well-formed date or time is rejected");
            cover(2);
        }
        (Err(_), None) => cover(3),
    }
}

// ------------------------------------------------------------- C07: intervals
use substrait::proto::expression::literal::IntervalDayToSecond;
use substrait::proto::expression::literal::interval_day_to_second::PrecisionMode;
const UNITS: [(&str, i32, i64); 5] =
    [("", 0, 1), ("ms", 3, 1000), ("us", 6, 1_000_000), ("ns", 9, 1_000_000_000), ("ps", 12, 1_000_000_000_000)];
const PTXT: [&str; 5] = ["<0>", "<3>", "<6>", "<9>", "<12>"];
fn interval(d: i32, s: i32, sub: i64, u: usize) -> LiteralType {
    LiteralType::IntervalDayToSecond(IntervalDayToSecond {
        days: d,
        seconds: s,
        subseconds: sub,
        precision_mode: Some(PrecisionMode::Precision(UNITS[u].1)),
    })
}
pub fn iv_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for u in 0..5 {
        for f in 0..3 {
            for o in 0..4 {
                v.push(u * 16 + f * 4 + o);
            }
        }
    }
    v
}
/// Every value of one field, next to zero and non-zero values of the others.
pub fn iv_value(case: u32) {
    let (u, f, o) = ((case / 16) as usize, case / 4 % 4, case % 4);
    let (o1, o2) = (o & 1 == 1, o & 2 == 2);
    let (mut d, mut s, mut sub) = (0i32, 0i32, 0i64);
    match f {
        0 => {
            d = any_i32();
            s = if o1 { -7 } else { 0 };
            sub = if o2 { 12 } else { 0 };
        }
        1 => {
            s = any_i32();
            d = if o1 { 3 } else { 0 };
            sub = if o2 { -40 } else { 0 };
        }
        _ => {
            sub = any_i64();
            d = if o1 { -5 } else { 0 };
            s = if o2 { 86401 } else { 0 };
        }
    }
    let nullable = o == 3;
    let mut x = String::from("'");
    let mut sep = "";
    if d != 0 {
        x.push_str(&cat(&[&d.to_string(), "d"]));
        sep = " ";
    }
    if s != 0 {
        x.push_str(&cat(&[sep, &s.to_string(), "s"]));
        sep = " ";
    }
    if sub != 0 {
        if u == 0 {
            // nothing to write it in
            let (out, errs) = substrait_explain::format(&one(interval(d, s, sub, u), nullable));
            emit(&out);
            check(!errs.is_empty(), "sub-seconds at precision 0 are dropped silently");
            check(out.contains("!{"), "sub-seconds at precision 0 have no error token");
            return cover(2);
        }
        x.push_str(&cat(&[sep, &sub.to_string(), UNITS[u].0]));
        sep = " ";
    }
    if sep.is_empty() {
        x.push_str("0s");
    }
    x.push_str("':interval_day");
    if nullable {
        x.push('?');
    }
    x.push_str(PTXT[u]);
    let x = page(&x);
    emit(&x);
    let p = one(interval(d, s, sub, u), nullable);
    let (out, errs) = substrait_explain::format(&p);
    check(same_text(&out, &x), "the text of an interval is not the documented one");
    let total = d as i64 * 86400 + s as i64;
    let m = 3_650_000i64;
    let ok = (d as i64 >= -m) & (d as i64 <= m) & (total >= -m * 86400) & (total <= m * 86400);
    let ok = ok & (sub > -UNITS[u].2) & (sub < UNITS[u].2);
    check(errs.is_empty() == ok, "an interval outside the allowed range is reported, one inside is not");
    parses_to(&x, &p);
}
/// The meaning of a duration: terms in the order d, s, sub-second, separated by
/// one space.
fn meaning(b: &[u8], unit: &[u8]) -> Option<(i32, i32, i64)> {
    let (mut d, mut s, mut sub) = (0i64, 0i64, 0i64);
    let mut i = 0;
    let mut last = 0;
    loop {
        let neg = i < b.len() && b[i] == b'-';
        if neg {
            i += 1;
        }
        let st = i;
        let mut v = 0i64;
        while i < b.len() && b[i].is_ascii_digit() {
            v = v.checked_mul(10)?.checked_add((b[i] - b'0') as i64)?;
            i += 1;
        }
        if i == st {
            return None;
        }
        let v = if neg { -v } else { v };
        let us = i;
        while i < b.len() && b[i].is_ascii_lowercase() {
            i += 1;
        }
        let un = &b[us..i];
        let k = if un == b"d" {
            d = v;
            1
        } else if un == b"s" {
            s = v;
            2
        } else if un == unit && !unit.is_empty() {
            sub = v;
            3
        } else {
            return None;
        };
        if k <= last {
            return None;
        }
        last = k;
        if i == b.len() {
            break;
        }
        if b[i] != b' ' {
            return None;
        }
        i += 1;
    }
    if d < i32::MIN as i64 || d > i32::MAX as i64 || s < i32::MIN as i64 || s > i32::MAX as i64 {
        return None;
    }
    Some((d as i32, s as i32, sub))
}
const IVS: [&str; 9] = [
    "5d 3s 100ms", "-4d -5s", "7us", "12ns", "1d 9ps", "0s", "2147483647d 2147483640s", "9223372036854775800us", "1s -2ms",
];
pub fn iv_text_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, t) in IVS.iter().enumerate() {
        for p in 0..t.len() as u32 {
            for u in 0..5u32 {
                if th || (p + u) % 3 == 0 || (p + u) % 5 == 0 {
                    v.push((i as u32) << 16 | p << 8 | u);
                }
            }
        }
    }
    v
}
/// Two arbitrary characters anywhere in a duration: it means what the grammar
/// says or is rejected.
pub fn iv_text(case: u32) {
    let (i, p, u) = ((case >> 16) as usize, (case >> 8 & 0xff) as usize, (case & 0xff) as usize);
    let mut b = IVS[i].as_bytes().to_vec();
    for k in p..(p + 2).min(b.len()) {
        b[k] = hole(PRN);
        assume((b[k] != b'\'') & (b[k] != b'\\'));
    }
    let m = meaning(&b, UNITS[u].0.as_bytes());
    let t = unsafe { String::from_utf8_unchecked(b) };
    let x = page(&cat(&["'", &t, "':interval_day", PTXT[u]]));
    match m {
        Some((d, s, sub)) => {
            emit(&x);
            parses_to(&x, &one(interval(d, s, sub, u), false))
        }
        None => rejected(&x, "a malformed duration is accepted"),
    }
}
pub fn iv_prec_cases(_: bool) -> Vec<u32> {
    vec![0, 1]
}
/// Only precisions 0, 3, 6, 9 and 12 have literals.
pub fn iv_prec(case: u32) {
    let p = choice(13);
    let ok = p % 3 == 0;
    let x = page(&cat(&["'1d':interval_day", if case == 1 { "?" } else { "" }, "<", &p.to_string(), ">"]));
    if ok {
        emit(&x);
        parses_to(&x, &one(interval(1, 0, 0, (p / 3) as usize), case == 1));
    } else {
        rejected(&x, "an interval literal of a precision without a unit is accepted");
    }
}
