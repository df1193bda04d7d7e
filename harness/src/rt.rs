//! Interface to the symbolic executor. In the replay binary the same functions
//! read concrete values from a file.
unsafe extern "C" {
    fn __sym_int(bits: u32) -> u64;
    fn __sym_bytes(p: *mut u8, n: usize);
    fn __sym_assume(c: bool);
    fn __sym_fail(p: *const u8, n: usize) -> !;
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_emit(p: *const u8, n: usize);
    fn __sym_cover(id: u64);
}
pub fn any_u8() -> u8 {
    unsafe { __sym_int(8) as u8 }
}
pub fn any_u32() -> u32 {
    unsafe { __sym_int(32) as u32 }
}
pub fn any_i32() -> i32 {
    unsafe { __sym_int(32) as i32 }
}
pub fn any_i64() -> i64 {
    unsafe { __sym_int(64) as i64 }
}
pub fn any_bool() -> bool {
    unsafe { __sym_int(1) & 1 == 1 }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn fail(m: &str) -> ! {
    unsafe { __sym_fail(m.as_ptr(), m.len()) }
}
pub fn check(c: bool, m: &str) {
    if !c {
        fail(m)
    }
}
/// A value in 0..n, made concrete (one path per value).
pub fn choice(n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe {
        let v = __sym_int(8);
        __sym_assume(v < n as u64);
        __sym_concretize(v) as u32
    }
}
/// A place among `n`: any, or when there are many the first, middle or last.
pub fn spot(n: u32) -> u32 {
    if n > 20 { [0, n / 2, n - 1][choice(3) as usize] } else { choice(n) }
}
/// A value in 0..n that stays symbolic.
pub fn below(n: u32) -> u32 {
    let v = any_u32();
    assume(v < n);
    v
}
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
pub fn emit(s: &str) {
    unsafe { __sym_emit(s.as_ptr(), s.len()) }
}
pub fn cover(id: u64) {
    unsafe { __sym_cover(id) }
}
pub fn fill_bytes(b: &mut [u8]) {
    unsafe { __sym_bytes(b.as_mut_ptr(), b.len()) }
}

/// Hole markers in templates.
pub const ANY: u8 = 0x01; // any ASCII byte
pub const DIG: u8 = 0x02; // decimal digit
pub const IDC: u8 = 0x03; // identifier character
pub const PRN: u8 = 0x04; // printable ASCII (0x20..=0x7e)
pub const ALP: u8 = 0x05; // ASCII letter

pub fn hole(kind: u8) -> u8 {
    let b = any_u8();
    match kind {
        ANY => assume(b < 0x80),
        DIG => assume(b.is_ascii_digit()),
        IDC => assume(b.is_ascii_alphanumeric() | (b == b'_')),
        PRN => assume((b >= 0x20) & (b < 0x7f)),
        ALP => assume(b.is_ascii_alphabetic()),
        _ => {}
    }
    b
}
/// Replace hole markers by symbolic bytes of their class.
pub fn fill(t: &str) -> String {
    let mut v = t.as_bytes().to_vec();
    for b in v.iter_mut() {
        if *b >= 1 && *b <= 5 {
            *b = hole(*b);
        }
    }
    // SAFETY: only ASCII bytes were replaced by ASCII bytes
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `n` symbolic characters of a class.
pub fn sym_str(kind: u8, n: usize) -> String {
    let mut v = vec![];
    for _ in 0..n {
        v.push(hole(kind));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// One arbitrary Unicode scalar value (all UTF-8 lengths; one path per length).
pub fn any_char() -> char {
    let v = any_u32();
    assume((v < 0xd800) | ((v >= 0xe000) & (v < 0x110000)));
    unsafe { char::from_u32_unchecked(v) }
}
