//! C24: the command line: formats, options, files, exit codes.
use super::cli::*;
use super::ext::*;
use super::gen_::*;
use super::rt::*;
use clap::Parser;
use std::process::ExitCode;
use substrait_explain::cli::{Cli, Commands, Format};
use substrait_explain::extensions::ExtensionRegistry;
use substrait_explain::{OutputOptions, Visibility, format_with_registry};

fn lower(b: &[u8]) -> Vec<u8> {
    b.iter().map(|c| if c.is_ascii_uppercase() { c + 32 } else { *c }).collect()
}
fn name_of(s: &[u8]) -> Option<Format> {
    match &lower(s)[..] {
        b"text" => Some(Format::Text),
        b"json" => Some(Format::Json),
        b"yaml" => Some(Format::Yaml),
        b"protobuf" | b"proto" | b"pb" => Some(Format::Protobuf),
        _ => None,
    }
}
fn ending(s: &[u8]) -> Option<Format> {
    match &lower(s)[..] {
        b"substrait" | b"txt" => Some(Format::Text),
        b"json" => Some(Format::Json),
        b"yaml" | b"yml" => Some(Format::Yaml),
        b"pb" | b"proto" | b"protobuf" => Some(Format::Protobuf),
        _ => None,
    }
}
pub fn names_cases(_: bool) -> Vec<u32> {
    (0..10).chain(100..110).collect()
}
/// Every format name, and every other string of up to nine ASCII characters.
pub fn names(case: u32) {
    let s = if case < 100 {
        sym_str(ANY, case as usize)
    } else {
        // a name with one character replaced by any other, or one inserted
        let n = ["text", "json", "yaml", "protobuf", "proto", "pb", "txt", "substrait", "yml", ""][case as usize - 100];
        let at = choice(n.len() as u32 + 1) as usize;
        let c = any_char();
        let skip = if at < n.len() { choice(2) as usize } else { 0 };
        cat(&[&n[..at], c.encode_utf8(&mut [0; 4]), &n[at + skip..]])
    };
    emit(&s);
    // a few letters outside ASCII have an ASCII lower case; the names do not contain it
    check(s.parse::<Format>().ok() == name_of(s.as_bytes()), "the name stands for another format");
}
pub fn endings_cases(_: bool) -> Vec<u32> {
    (0..8).chain(100..100 + 9 * 8).collect()
}
const ENDS: [&str; 9] = ["substrait", "txt", "json", "yaml", "yml", "pb", "proto", "protobuf", "PB"];
/// File names: the last component's last extension decides.
pub fn endings(case: u32) {
    let s = if case < 100 {
        sym_str(ANY, case as usize)
    } else {
        let (e, k) = (ENDS[(case as usize - 100) / 8], (case - 100) % 8);
        match k {
            0 => cat(&[&sym_str(ANY, 2), ".", e]),
            1 => {
                let mut b = e.as_bytes().to_vec();
                let at = choice(b.len() as u32) as usize;
                b[at] = hole(ANY);
                cat(&["a.", unsafe { std::str::from_utf8_unchecked(&b) }])
            }
            2 => cat(&["a.", e, &sym_str(ANY, 1)]),
            3 => cat(&["a", &sym_str(ANY, 1), e]),
            4 => cat(&["a.json/b.c.", &sym_str(ANY, 1), e]),
            5 => cat(&[".", e]),
            6 => cat(&["dir.", e, "/", &sym_str(ANY, 1)]),
            _ => cat(&["\u{e9}/\u{1f600}.", e]),
        }
    };
    emit(&s);
    // the oracle: trailing separators (and `.` components) do not count
    let mut b = s.as_bytes();
    let want = if b == b"-" {
        None
    } else {
        loop {
            if b.last() == Some(&b'/') {
                b = &b[..b.len() - 1];
            } else if b.ends_with(b"/.") {
                b = &b[..b.len() - 2];
            } else {
                break;
            }
        }
        let f = match b.iter().rposition(|c| *c == b'/') {
            Some(i) => &b[i + 1..],
            None => b,
        };
        match f.iter().rposition(|c| *c == b'.') {
            // a leading dot starts a name, and `..` is no name
            Some(0) | None => None,
            Some(_) if f == b".." => None,
            Some(i) => ending(&f[i + 1..]),
        }
    };
    check(Format::from_extension(&s) == want, "the file name stands for another format");
}

// ------------------------------------------------------------ arguments
const HOW: [&str; 5] = ["", "-x V", "-xV", "--long V", "--long=V"];
fn put(v: &mut Vec<String>, how: u32, short: &str, long: &str, val: &str) {
    match HOW[how as usize] {
        "-x V" => v.extend([short.to_string(), val.into()]),
        "-xV" => v.push(cat(&[short, val])),
        "--long V" => v.extend([cat(&["--", long]), val.into()]),
        "--long=V" => v.push(cat(&["--", long, "=", val])),
        _ => {}
    }
}
pub fn args_cases(_: bool) -> Vec<u32> {
    (0..25).chain(100..125).chain(200..210).collect()
}
/// Options in every form, anywhere on the line.
pub fn args(case: u32) {
    let mut v: Vec<String> = vec!["substrait-explain".into()];
    if case >= 200 {
        // what is refused
        let w: &[&str] = match case {
            200 => &[],
            201 => &["explain"],
            202 => &["convert", "-f", "txt"],
            203 => &["convert", "-t", "xml"],
            204 => &["convert", "-f"],
            205 => &["convert", "--unknown"],
            206 => &["validate", "-f", "text"],
            207 => &["convert", "-f", "text", "-f", "json"],
            208 => &["validate", "--show-literal-types"],
            _ => &["convert", "plan.txt"],
        };
        v.extend(w.iter().map(|s| s.to_string()));
        check(Cli::try_parse_from(v).is_err(), "a wrong command line was accepted");
        return;
    }
    let c = case % 25;
    let val = case >= 100;
    v.push(if val { "validate" } else { "convert" }.into());
    let (i, o) = (c / 5, c % 5);
    let name = cat(&["a", &sym_str(ALP, 1), ".pb"]);
    let flip = choice(2) == 1;
    let (f, t, lit, verb) = if val { (0, 0, false, choice(3)) } else { (choice(5), choice(2) * 3, choice(2) == 1, choice(2)) };
    if flip {
        put(&mut v, t, "-t", "to", "YAML");
        put(&mut v, o, "-o", "output", "x/y.json");
    }
    if lit {
        v.push("--show-literal-types".into());
    }
    put(&mut v, f, "-f", "from", "pb");
    put(&mut v, i, "-i", "input", &name);
    if verb > 0 {
        v.push(["-v", "--verbose"][verb as usize - 1].into());
    }
    if !flip {
        put(&mut v, t, "-t", "to", "YAML");
        put(&mut v, o, "-o", "output", "x/y.json");
    }
    let c = match Cli::try_parse_from(v) {
        Ok(c) => c,
        Err(_) => fail("a command line was refused"),
    };
    let wi = if i > 0 { &name[..] } else { "-" };
    let wo = if o > 0 { "x/y.json" } else { "-" };
    match c.command {
        Commands::Convert { input, output, from, to, show_literal_types, verbose } => {
            check(!val, "another command was run");
            check(input == wi && output == wo, "another file was named");
            check(from == (if f > 0 { Some(Format::Protobuf) } else { None }), "another input format");
            check(to == (if t > 0 { Some(Format::Yaml) } else { None }), "another output format");
            check(show_literal_types == lit, "literal types");
            check(verbose == (verb > 0), "verbosity");
        }
        Commands::Validate { input, output, verbose } => {
            check(val, "another command was run");
            check(input == wi && output == wo, "another file was named");
            check(verbose == (verb > 0), "verbosity");
        }
    }
}

// ------------------------------------------------------------ which formats a run uses
const PATHS: [(&str, Option<usize>); 8] =
    [("-", None), ("a.txt", Some(0)), ("b.JSON", Some(1)), ("c.yml", Some(2)), ("d.pb", Some(3)), ("e", None), ("f.xml", None), ("g.json.substrait", Some(0))];
fn plan_text() -> String {
    cat(&["=== Plan\nFilter[true => $0]\n  Read[t", &sym_str(ALP, 1), " => a:i64]\n"])
}
pub fn resolve_cases(_: bool) -> Vec<u32> {
    (0..64).collect()
}
/// Named formats win over file names; without either there is no conversion.
pub fn resolve(case: u32) {
    let ((i, fi), (o, fo)) = (PATHS[case as usize / 8], PATHS[case as usize % 8]);
    let reg = ExtensionRegistry::default();
    let given = |k: u32| if k == 0 { None } else { Some(k as usize - 1) };
    // JSON is slow to read
    let f = given([0, 1, 3, 4][choice(4) as usize]);
    let t = given(choice(5));
    let types = choice(2) == 1;
    if f.or(fi) == Some(1) && (t.is_some() || types) {
        return;
    }
    let x = plan_text();
    let Ok(p) = substrait_explain::parse(&x) else { fail("not a plan") };
    let c = Cli {
        command: Commands::Convert {
            input: i.into(),
            output: o.into(),
            from: f.map(|k| FORMATS[k].clone()),
            to: t.map(|k| FORMATS[k].clone()),
            show_literal_types: types,
            verbose: false,
        },
    };
    let mut out = vec![];
    let (Some(f), Some(t)) = (f.or(fi), t.or(fo)) else {
        let d = run(&c, x.as_bytes(), &mut out, &reg);
        check(matches!(d, Done::Err) && out.is_empty(), "a conversion without a format was made");
        return;
    };
    let input = if f == 0 { x.clone().into_bytes() } else { write_as(f, &p) };
    check(matches!(run(&c, &input[..], &mut out, &reg), Done::Ok), "a plan was not converted");
    if t == 0 {
        let mut o = OutputOptions::default();
        if types {
            o.literal_types = Visibility::Always;
        }
        check(out == format_with_registry(&p, &o, &reg).0.as_bytes(), "the output is not the formatted plan");
    } else {
        let mut want = vec![];
        // literal types make no difference to the other formats
        check(matches!(run(&convert(f, t, false), &input[..], &mut want, &reg), Done::Ok), "a plan was not converted");
        check(out == want, "the output is another");
        holds(t, &out, &p);
    }
}

// ------------------------------------------------------------ files and exit codes
fn exists(p: &str) -> Option<Vec<u8>> {
    std::fs::read(p).ok()
}
fn place(p: &str, b: &[u8]) {
    if std::fs::write(p, b).is_err() {
        fail("cannot write a file");
    }
}
pub fn files_cases(_: bool) -> Vec<u32> {
    (0..14).collect()
}
/// Whole runs over files.
pub fn files(case: u32) {
    let reg = registry();
    let mut x = plan_text();
    if case >= 12 {
        x = cat(&["=== Plan\nRead[", &"t".repeat(20000), " => a:i64]\n"]);
    }
    let Ok(p) = substrait_explain::parse(&x) else { fail("not a plan") };
    let _ = std::fs::remove_file("out.pb");
    let _ = std::fs::remove_file("out.txt");
    let _ = std::fs::remove_file("none.txt");
    place("in.txt", x.as_bytes());
    place("in.pb", &p.encode_to_vec_());
    let conv = |i: &str, o: &str| Cli {
        command: Commands::Convert { input: i.into(), output: o.into(), from: None, to: None, show_literal_types: false, verbose: choice(2) == 1 },
    };
    let val = |i: &str, o: &str| Cli { command: Commands::Validate { input: i.into(), output: o.into(), verbose: false } };
    // what was there before is replaced
    let before = choice(2) == 1;
    if before {
        place("out.pb", &vec![b'x'; 30000]);
        place("out.txt", &vec![b'x'; 30000]);
    }
    let go = |c: Cli| if c.run_with_extensions(registry()) == ExitCode::SUCCESS { true } else { false };
    let want = x.as_bytes().to_vec();
    let good = |c: Cli, o: &str, want: &[u8]| {
        check(go(c), "the run failed");
        match exists(o) {
            None => fail("there is no output"),
            Some(b) => check(b == want, "the output file holds something else"),
        }
        check(exists("in.txt").as_deref() == Some(x.as_bytes()), "the input file was changed");
    };
    let bad = |c: Cli| check(!go(c), "a run that failed has the exit code of success");
    match case {
        0 | 12 => good(conv("in.txt", "out.pb"), "out.pb", &p.encode_to_vec_()),
        1 | 13 => good(conv("in.pb", "out.txt"), "out.txt", &want),
        2 => good(conv("in.txt", "out.txt"), "out.txt", &want),
        3 => good(val("in.txt", "out.txt"), "out.txt", &want),
        4 => good(val("in.txt", "out.pb"), "out.pb", &want),
        5 => bad(conv("none.txt", "out.txt")),
        6 => bad(conv("in.txt", "no-such-directory/out.txt")),
        7 => bad(val("none.txt", "out.txt")),
        8 => {
            // input that is no plan
            place("in.txt", b"=== Plan\nRead[t => a:\n");
            bad(if choice(2) == 1 { conv("in.txt", "out.txt") } else { val("in.txt", "out.txt") });
            check(exists("out.txt").is_none_or(|b| b.is_empty() || before), "output was written although the input is no plan");
        }
        9 => {
            place("in.pb", &[0xff, 0xff, 0xff]);
            bad(conv("in.pb", "out.txt"));
        }
        10 => {
            // formatting issues: the text is written, and the exit code tells
            let p = plan1(&ext0(), filter(call("f", 3, vec![field(0)], i64t()), &[0], tab("t", 1))).0;
            place("in.pb", &p.encode_to_vec_());
            bad(conv("in.pb", "out.txt"));
            let (t, e) = format_with_registry(&p, &OutputOptions::default(), &reg);
            check(!e.is_empty(), "no formatting issue");
            check(exists("out.txt").as_deref() == Some(t.as_bytes()), "the text was not written");
        }
        _ => {
            // `run` knows no extensions, `run_with_extensions` those it is given
            let x = "=== Plan\nExtensionLeaf:Bag[1 => a:i64]\n";
            place("in.txt", x.as_bytes());
            check(val("in.txt", "out.txt").run() != ExitCode::SUCCESS, "an unknown extension was accepted");
            check(go(val("in.txt", "out.txt")), "a known extension was refused");
            check(exists("out.txt").as_deref() == Some(x.as_bytes()), "the output file holds something else");
        }
    }
}
trait Enc {
    fn encode_to_vec_(&self) -> Vec<u8>;
}
impl Enc for substrait::proto::Plan {
    fn encode_to_vec_(&self) -> Vec<u8> {
        prost::Message::encode_to_vec(self)
    }
}
