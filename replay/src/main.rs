//! Native replay of harness entries: `vreplay --list`, or
//! `vreplay <entry> <case> <w:v,w:v,...>`; exit 0 = passed, 3 = assertion failed,
//! 4 = assumption violated, 101 = panic.
#[cfg_attr(not(feature = "cli"), path = "../../harness/src/lib.rs")]
#[cfg_attr(feature = "cli", path = "../../harness-cli/src/lib.rs")]
#[allow(dead_code)]
mod harness;
use std::cell::RefCell;
use std::io::Write;

struct St {
    vals: Vec<(u32, u64)>,
    pos: usize,
    emit: Vec<u8>,
}
thread_local! {
    static ST: RefCell<St> = const { RefCell::new(St { vals: vec![], pos: 0, emit: vec![] }) };
}
fn next(bits: u32) -> u64 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let v = match s.vals.get(s.pos) {
            Some((w, v)) => {
                if *w != bits {
                    eprintln!("replay: input {} has width {w}, wanted {bits}", s.pos);
                    std::process::exit(5);
                }
                *v
            }
            None => 0,
        };
        s.pos += 1;
        v
    })
}
#[unsafe(no_mangle)]
extern "C" fn __sym_int(bits: u32) -> u64 {
    next(bits)
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __sym_bytes(p: *mut u8, n: usize) {
    for i in 0..n {
        unsafe { *p.add(i) = next(8) as u8 };
    }
}
#[unsafe(no_mangle)]
extern "C" fn __sym_assume(c: bool) {
    if !c {
        eprintln!("replay: assumption violated");
        std::process::exit(4);
    }
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __sym_fail(p: *const u8, n: usize) -> ! {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    dump();
    eprintln!("assertion failed: {}", String::from_utf8_lossy(s));
    std::process::exit(3);
}
#[unsafe(no_mangle)]
extern "C" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
unsafe extern "C" fn __sym_emit(p: *const u8, n: usize) {
    let s = unsafe { std::slice::from_raw_parts(p, n) };
    ST.with(|st| {
        let e = &mut st.borrow_mut().emit;
        e.extend_from_slice(s);
        e.push(b'\n');
    });
}
#[unsafe(no_mangle)]
extern "C" fn __sym_cover(_: u64) {}

fn dump() {
    ST.with(|s| {
        let s = s.borrow();
        std::io::stdout().write_all(&s.emit).unwrap();
        std::io::stdout().flush().unwrap();
    });
}
fn parse_inputs(s: &str) -> Vec<(u32, u64)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (w, v) = x.split_once(':').unwrap();
            (w.parse().unwrap(), v.parse().unwrap())
        })
        .collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let t = harness::table();
    if a.get(1).map(String::as_str) == Some("--list") {
        for e in t {
            let f = |v: Vec<u32>| v.iter().map(u32::to_string).collect::<Vec<_>>().join(",");
            println!("{} {} {} {}", e.prop, e.name, f((e.cases)(false)), f((e.cases)(true)));
        }
        return;
    }
    if a.get(1).map(String::as_str) == Some("--batch") {
        // lines: entry case inputs expected-hex ; prints the lines that differ
        let mut n = 0u64;
        let mut bad = 0u64;
        for line in std::io::stdin().lines() {
            let line = line.unwrap();
            let f: Vec<&str> = line.split(' ').collect();
            let e = t.iter().find(|e| e.name == f[0]).unwrap();
            ST.with(|s| *s.borrow_mut() = St { vals: parse_inputs(f[2]), pos: 0, emit: vec![] });
            (e.f)(f[1].parse().unwrap());
            let got: String = ST.with(|s| s.borrow().emit.iter().map(|b| format!("{b:02x}")).collect());
            n += 1;
            if got != f[3] {
                bad += 1;
                println!("DIFF {} {} {} expected {} got {}", f[0], f[1], f[2], f[3], got);
            }
        }
        println!("VALIDATED {n} {bad}");
        return;
    }
    let e = t.iter().find(|e| e.name == a[1]).expect("entry");
    ST.with(|s| s.borrow_mut().vals = parse_inputs(a.get(3).map_or("", |s| s.as_str())));
    (e.f)(a[2].parse().unwrap());
    dump();
}
