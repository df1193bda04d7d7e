//! C23: converting between formats. Everything goes through `Cli::run_with_io`.
use super::ext::*;
use super::exprs::{LITS, literal};
use super::gen_::*;
use super::rt::*;
use prost::Message;
use std::io::{self, Read, Write};
use substrait::proto::{self, Plan, Rel, plan_rel as pr, rel::RelType};
use substrait_explain::cli::{Cli, Commands, Format, Outcome};
use substrait_explain::extensions::{ExtensionRegistry, ExtensionValue};
use substrait_explain::{FormatError, OutputOptions, Visibility, format_with_registry, parse_with_registry};

pub const FORMATS: [Format; 4] = [Format::Text, Format::Json, Format::Yaml, Format::Protobuf];
const TEXT: usize = 0;
const JSON: usize = 1;
const YAML: usize = 2;
const PB: usize = 3;

pub fn convert(f: usize, t: usize, types: bool) -> Cli {
    Cli {
        command: Commands::Convert {
            input: "-".into(),
            output: "-".into(),
            from: Some(FORMATS[f].clone()),
            to: Some(FORMATS[t].clone()),
            show_literal_types: types,
            verbose: false,
        },
    }
}
pub fn validate() -> Cli {
    Cli { command: Commands::Validate { input: "-".into(), output: "-".into(), verbose: false } }
}
/// What a run did.
pub enum Done {
    Ok,
    Issues(Vec<FormatError>),
    Err,
}
pub fn run(c: &Cli, r: impl Read, w: impl Write, reg: &ExtensionRegistry) -> Done {
    match c.run_with_io(r, w, reg) {
        Ok(Outcome::Success) => Done::Ok,
        Ok(Outcome::HadFormattingIssues(e)) => Done::Issues(e),
        Err(_) => Done::Err,
    }
}
fn ok(c: &Cli, i: &[u8], reg: &ExtensionRegistry) -> Vec<u8> {
    let mut out = vec![];
    match run(c, i, &mut out, reg) {
        Done::Ok => out,
        Done::Issues(_) => fail("the conversion reported formatting issues"),
        Done::Err => fail("the conversion failed"),
    }
}
fn refused(c: &Cli, i: &[u8], reg: &ExtensionRegistry, why: &str) {
    let mut out = vec![];
    match run(c, i, &mut out, reg) {
        Done::Err => check(out.is_empty(), "output was written although the input could not be read"),
        _ => fail(why),
    }
}
pub fn write_as(f: usize, p: &Plan) -> Vec<u8> {
    match f {
        JSON => serde_json::to_vec(p).unwrap_or_else(|_| fail("not JSON")),
        YAML => serde_yaml::to_string(p).unwrap_or_else(|_| fail("not YAML")).into_bytes(),
        PB => p.encode_to_vec(),
        _ => fail("not a plan format"),
    }
}
fn read_as(f: usize, b: &[u8]) -> Option<Plan> {
    match f {
        JSON => serde_json::from_slice(b).ok(),
        YAML => serde_yaml::from_slice(b).ok(),
        PB => Plan::decode(b).ok(),
        _ => None,
    }
}
/// `b` is the plan in the format.
pub fn holds(f: usize, b: &[u8], p: &Plan) {
    match read_as(f, b) {
        None => fail("the output cannot be read"),
        Some(q) => check(q.encode_to_vec() == p.encode_to_vec(), "the output is another plan"),
    }
}

// ------------------------------------------------------------ plans
/// One of a few 32-bit values.
fn num(f: usize) -> u32 {
    [2147483648, 4294967295, 0, 1][pick(4, f, 0) as usize]
}
/// One of `n`, all of them if time allows.
fn pick(n: u32, f: usize, t: usize) -> u32 {
    if f == JSON { (t as u32 + 4 * choice(2.min(n))) % n } else { choice(n) }
}
pub const PLANS: u32 = 13;
/// Plans that text shows in full, with their text.
pub fn shown(k: u32, f: usize, t: usize) -> (Plan, String) {
    let s = |x: &str| x.to_string();
    match k {
        0 => plan_root(&ext0(), &["r"], filter(boolean(true), &[0], read(&["t"], &[(s("a"), i64t())]))),
        1 => {
            // a name with symbolic characters
            let n = sym_str(ALP, 2);
            plan1(&ext0(), read(&["cat", &n], &[(n.clone(), i64t())]))
        }
        2 => {
            // integers at the edges of what JSON numbers hold
            let v = [i64::MIN, i64::MAX, -9007199254740993, 9007199254740993, -1, 0, 4294967296][pick(7, f, t) as usize];
            plan1(&ext0(), project(vec![P::Ex(int(v))], tab("t", 1)))
        }
        3 => {
            let i = pick(LITS, f, t);
            plan1(&ext1(), project(vec![P::Ex(literal(i, pick(2, f, t / 2) == 1))], tab("t", 1)))
        }
        4 => {
            let c = call("f", 1, vec![field(0), int(-7)], i64t());
            plan1(&ext1(), filter(c, &[1, 0], tab("t", 2)))
        }
        5 => plan1(&ext0(), fetch(Some(int(3)), Some(int(0)), &[0], sort(vec![(field(0), pick(4, f, t))], &[0], tab("t", 1)))),
        6 => {
            let t = pick(8, f, t) as usize;
            plan1(&ext0(), join(t, boolean(true), None, &[0], tab("a", 1), tab("b", 1)))
        }
        7 => plan1(&ext0(), set(pick(6, f, t) as usize, &[0], vec![tab("a", 1), tab("b", 1)])),
        8 => {
            let mut a = A::default();
            a.p.push(value(pick(8, f, t)));
            a.n.push((0, v_of(ExtensionValue::Integer(-1), "-1")));
            plan1(&ext1(), ext_rel(1, 0, &a, vec![with(tab("t", 1), &[])]))
        }
        9 => plan1(&ext0(), virt(vec![vec![int(1), boolean(false)], vec![int(2), boolean(true)]], None, &[(s("a"), i64t()), (s("b"), simple(0, 2))])),
        10 => {
            let (mut p, mut x) = plan1(&ext0(), tab("t", 1));
            p.version = Some(proto::Version { major_number: 1, minor_number: 0, patch_number: 4294967295, git_hash: s(""), producer: s("me: \"you\"") });
            x = cat(&["=== Version 1.0.4294967295\n  producer: me: \"you\"\n", &x]);
            (p, x)
        }
        12 => {
            // more than any buffer holds
            let mut n = "n".repeat(35000);
            n.push_str(&sym_str(ALP, 1));
            n.push_str(&"m".repeat(35000));
            plan1(&ext0(), read(&[&n], &[(s("a"), i64t())]))
        }
        _ => {
            let n = [1, 2, 5][pick(3, f, t) as usize];
            let mut p = Plan::default();
            let mut x = s("=== Plan\n");
            for i in 0..n {
                let r = tab(["a", "b", "c", "d", "e"][i], 1);
                if i > 0 {
                    x.push('\n');
                }
                x.push_str(&lines(&r.l, 0));
                p.relations.push(plan_rel(r.r));
            }
            (p, x)
        }
    }
}
/// Plans with parts that text does not show; the other formats keep them.
pub const HIDDEN: u32 = 9;
fn hidden(k: u32, f: usize) -> Plan {
    let mut p = plan1(&ext1(), tab("t", 1)).0;
    let r = match &mut p.relations[0].rel_type {
        Some(pr::RelType::Rel(r)) => r,
        _ => fail("no relation"),
    };
    match k {
        0 => {
            p.expected_type_urls.push("a/b".into());
            p.expected_type_urls.push(sym_str(ALP, 1));
        }
        1 => p.parameter_bindings.push(proto::DynamicParameterBinding { parameter_anchor: num(f), value: None }),
        2 => {
            if let Some(RelType::Read(r)) = &mut r.rel_type {
                r.filter = Some(Box::new(boolean(pick(2, f, 0) == 1).e));
                r.best_effort_filter = Some(Box::new(boolean(false).e));
            }
        }
        3 => {
            let w = proto::WriteRel { op: pick(5, f, 0) as i32, input: Some(Box::new(r.clone())), ..Default::default() };
            *r = Rel { rel_type: Some(RelType::Write(Box::new(w))) };
        }
        4 => {
            let f = proto::expression::Literal {
                literal_type: Some(proto::expression::literal::LiteralType::Binary(vec![[0, 10, 128][pick(3, f, 0) as usize], 0, 255])),
                nullable: pick(2, f, 0) == 1,
                type_variation_reference: num(f),
            };
            if let Some(RelType::Read(r)) = &mut r.rel_type {
                r.filter = Some(Box::new(proto::Expression { rex_type: Some(proto::expression::RexType::Literal(f)) }));
            }
        }
        5 => *r = Rel { rel_type: None },
        6 => p.relations.push(proto::PlanRel { rel_type: None }),
        7 => {
            p.type_aliases.push(proto::TypeAlias { type_alias_anchor: num(f), r#type: None });
        }
        _ => {
            let v = [f64::NAN, f64::INFINITY, -0.0, 5e-324, f64::MAX][choice(5) as usize];
            let l = lit(proto::expression::literal::LiteralType::Fp64(v), false);
            *r = project(vec![P::Ex(X { e: l, x: String::new() })], tab("t", 1)).r;
        }
    }
    p
}

pub fn pairs_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..PLANS {
        for f in 0..4 {
            for t in 0..4 {
                // every reader with every writer, for every plan; JSON readers are slow
                if th || f != JSON || k % 4 == t as u32 {
                    v.push(k * 16 + (f * 4 + t) as u32);
                }
            }
        }
    }
    v
}
/// A plan read in one format and written in another.
pub fn pairs(case: u32) {
    let (k, f, t) = (case / 16, case as usize / 4 % 4, case as usize % 4);
    let reg = registry();
    let (p, x) = shown(k, f, t);
    emit(&x);
    let i = if f == TEXT { x.clone().into_bytes() } else { write_as(f, &p) };
    let o = ok(&convert(f, t, false), &i, &reg);
    if t == TEXT {
        check(o == x.as_bytes(), "the text written is not the plan's");
    } else {
        holds(t, &o, &p);
    }
}
pub fn keep_cases(_: bool) -> Vec<u32> {
    (0..HIDDEN * 9).collect()
}
/// Parts that the text format does not show survive the other formats.
pub fn keep(case: u32) {
    let (k, f, t) = (case / 9, 1 + case as usize / 3 % 3, 1 + case as usize % 3);
    let reg = ExtensionRegistry::default();
    let p = hidden(k, f);
    let i = write_as(f, &p);
    if read_as(f, &i).is_none_or(|q| q.encode_to_vec() != p.encode_to_vec()) {
        return; // the format cannot hold the plan (NaN payloads, for instance)
    }
    let o = ok(&convert(f, t, false), &i, &reg);
    if t == PB {
        check(o == p.encode_to_vec(), "the output is another plan");
    } else if read_as(t, &write_as(t, &p)).is_some_and(|q| q.encode_to_vec() == p.encode_to_vec()) {
        holds(t, &o, &p);
    }
}
pub fn chain_cases(_: bool) -> Vec<u32> {
    (0..PLANS * 3).collect()
}
/// Text to another format and back is the same text.
pub fn chain(case: u32) {
    let (k, f) = (case / 3, 1 + case as usize % 3);
    let reg = registry();
    let (_, x) = shown(k, f, k as usize % 4);
    let i = ok(&convert(TEXT, f, false), x.as_bytes(), &reg);
    let o = ok(&convert(f, TEXT, false), &i, &reg);
    check(o == x.as_bytes(), "converting there and back changed the text");
}

// ------------------------------------------------------------ text input
pub const DOCS: [&str; 5] = [
    "=== Plan\nRoot[r]\n  Filter[true => $0]\n    Read[t => a:i64]\n",
    "=== Extensions\nURNs:\n  @  1: /u\nFunctions:\n  #  1 @  1: f\n\n=== Plan\nProject[f($0, 'x'):i64?]\n  Read[t => a:i64]\n",
    "=== Version 1.2.3\n  producer: p\n\n=== Plan\nExtensionLeaf:Bag[1, k=2 => a:i64]\n",
    "=== Plan\nRead[t => a:i64]\n  + Opt:Bag[1]\n\nCross[$0]\n  Read[t => a:i64]\n  Read[t => a:i64]\n",
    "=== Plan\nRead:Virtual[\n  - (1, 'é'),\n  - (2, '') => a:i64, b:string]\n",
];
pub fn window_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for (i, d) in DOCS.iter().enumerate() {
        let d = d.as_bytes();
        for at in (0..d.len()).step_by(1) {
            if d[at] < 0x80 {
                v.push((i * 256 + at) as u32);
                if th && d.get(at + 1).is_some_and(|c| *c < 0x80) {
                    v.push((4096 + i * 256 + at) as u32);
                }
            }
        }
    }
    v
}
fn windowed(case: u32) -> String {
    let (case, w) = (case % 4096, 1 + case as usize / 4096);
    let mut d = DOCS[case as usize / 256].as_bytes().to_vec();
    let at = case as usize % 256;
    for b in d.iter_mut().skip(at).take(w) {
        if *b < 0x80 {
            *b = hole(ANY);
        }
    }
    // SAFETY: ASCII bytes replaced by ASCII bytes
    unsafe { String::from_utf8_unchecked(d) }
}
/// Text conversion and validation do what the library does.
pub fn window(case: u32) {
    let x = windowed(case);
    let reg = registry();
    emit(&x);
    let types = case % 2 == 1;
    let c = if case % 3 == 0 { validate() } else { convert(TEXT, TEXT, types) };
    let mut o = OutputOptions::default();
    if types && case % 3 != 0 {
        o.literal_types = Visibility::Always;
    }
    let mut out = vec![];
    let d = run(&c, x.as_bytes(), &mut out, &reg);
    match (parse_with_registry(&x, &reg), d) {
        (Err(_), Done::Err) => check(out.is_empty(), "output was written although the text is not a plan"),
        (Err(_), _) => fail("text that is not a plan was converted"),
        (Ok(p), d) => {
            let (t, e) = format_with_registry(&p, &o, &reg);
            match d {
                Done::Err => fail("a plan was not converted"),
                Done::Ok => check(e.is_empty(), "formatting issues were not reported"),
                Done::Issues(f) => check(!e.is_empty() && e.len() == f.len(), "other formatting issues were reported"),
            }
            check(out == t.as_bytes(), "the output is not the formatted plan");
        }
    }
}
pub fn to_data_cases(th: bool) -> Vec<u32> {
    window_cases(th).into_iter().filter(|c| th || c % 3 == 0).collect()
}
/// Text written in another format is the plan the library reads.
pub fn to_data(case: u32) {
    let x = windowed(case);
    let reg = registry();
    emit(&x);
    let t = 1 + case as usize % 3;
    let c = convert(TEXT, t, false);
    let mut out = vec![];
    match (parse_with_registry(&x, &reg), run(&c, x.as_bytes(), &mut out, &reg)) {
        (Err(_), Done::Err) => check(out.is_empty(), "output was written although the text is not a plan"),
        (Err(_), _) => fail("text that is not a plan was converted"),
        (Ok(p), Done::Ok) => holds(t, &out, &p),
        (Ok(_), _) => fail("a plan was not converted"),
    }
}

// ------------------------------------------------------------ input that is not a plan
pub fn utf8_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// Bytes that are not UTF-8 are no text, JSON or YAML.
pub fn utf8(case: u32) {
    let f = case as usize % 3;
    let reg = ExtensionRegistry::default();
    let p = plan1(&ext0(), read(&["tabl"], &[("a".into(), i64t())])).0;
    let mut i = if f == TEXT { b"=== Plan\nRead[tabl => a:i64]\n".to_vec() } else { write_as(f, &p) };
    let Some(at) = i.windows(4).position(|w| w == b"tabl") else { fail("no name") };
    let b = any_u8();
    match case / 3 {
        0 => {
            // a lone continuation or lead byte
            assume(b >= 0x80);
            i[at + 1] = b;
        }
        1 => {
            // a lead byte without enough continuation bytes
            assume(b >= 0xe0);
            i[at] = b;
            i[at + 1] = 0xa0;
        }
        _ => {
            // surrogates, overlong forms, too large
            let (x, y) = [(0xed, 0xa0), (0xc0, 0x80), (0xe0, 0x80), (0xf0, 0x80), (0xf4, 0x90), (0xf5, 0x80)][choice(6) as usize];
            assume((b >= 0x80) & (b < 0xc0));
            i[at] = x;
            i[at + 1] = y;
            i[at + 2] = b;
            i[at + 3] = b;
        }
    }
    let t = choice(4) as usize;
    refused(&convert(f, t, false), &i, &reg, "input that is not UTF-8 was accepted");
    if f == TEXT {
        refused(&validate(), &i, &reg, "input that is not UTF-8 was accepted");
    }
}
pub fn bytes_cases(th: bool) -> Vec<u32> {
    let n = sample().encode_to_vec().len() as u32;
    (0..n).step_by(if th { 1 } else { 2 }).chain([1000, 1001, 1002, 1003]).collect()
}
fn sample() -> Plan {
    plan1(&ext1(), filter(call("f", 1, vec![field(0), int(300)], i64t()), &[0], tab("t", 1))).0
}
/// Protobuf bytes: a symbolic byte, or a symbolic prefix length.
pub fn bytes(case: u32) {
    let reg = ExtensionRegistry::default();
    let mut i = sample().encode_to_vec();
    if case >= 1000 {
        match case {
            1000 => i = vec![],
            1001 => i = vec![any_u8()],
            1002 => i = vec![any_u8(), any_u8()],
            _ => {
                let n = choice(i.len() as u32);
                i.truncate(n as usize);
            }
        }
    } else {
        i[case as usize] = any_u8();
    }
    let t = 3;
    let mut out = vec![];
    match (Plan::decode(&i[..]), run(&convert(PB, t, false), &i[..], &mut out, &reg)) {
        (Err(_), Done::Err) => check(out.is_empty(), "output was written although the input is no plan"),
        (Err(_), _) => fail("bytes that are not a plan were accepted"),
        (Ok(p), Done::Ok) => check(out == p.encode_to_vec(), "the output is another plan"),
        (Ok(_), _) => fail("a plan was not converted"),
    }
}
const JPLAN: &str = r#"{"relations":[{"rel":{"fetch":{"input":{"read":{"baseSchema":{"names":["a"],"struct":{"types":[{"i64":{"nullability":"NULLABILITY_REQUIRED"}}],"nullability":2}},"namedTable":{"names":["t"]}}},"count":"5"}}}]}"#;
const YPLAN: &str = "relations:\n- rel:\n    read:\n      baseSchema:\n        names: [a]\n        struct:\n          types:\n          - i64: {nullability: NULLABILITY_REQUIRED}\n      namedTable:\n        names: ['t']\n";
pub fn json_bytes_cases(th: bool) -> Vec<u32> {
    let n = JPLAN.len() as u32;
    let m = YPLAN.len() as u32;
    let s = if th { 1 } else { 9 };
    (0..n).step_by(s).chain((1000..1000 + m).step_by(s)).chain([3000, 3001, 3002]).collect()
}
/// JSON and YAML with a symbolic byte, cut short, or with something after it.
pub fn json_bytes(case: u32) {
    let reg = ExtensionRegistry::default();
    let f = if case >= 1000 && case != 3000 && case != 3002 { YAML } else { JSON };
    let mut i = (if f == JSON { JPLAN } else { YPLAN }).as_bytes().to_vec();
    if case == 3002 {
        // something after it
        i.push(hole(ANY));
        if choice(2) == 0 {
            i.extend_from_slice(&JPLAN.as_bytes()[..[1, 2, JPLAN.len()][choice(3) as usize]]);
        }
    } else if case >= 3000 {
        let l = i.len();
        i.truncate([0, 1, l / 3, l / 2, l - 1][choice(5) as usize]);
    } else {
        i[case as usize % 1000] = hole(ANY);
    }
    let mut out = vec![];
    let d = run(&convert(f, PB, false), &i[..], &mut out, &reg);
    match (read_as(f, &i), d) {
        (Some(p), Done::Ok) => check(out == p.encode_to_vec(), "the output is another plan"),
        (Some(_), _) => fail("a plan was not converted"),
        (None, Done::Err) => check(out.is_empty(), "output was written although the input is no plan"),
        // the second JSON reader is allowed to read what the first cannot
        (None, Done::Ok) if f == JSON => check(serde_json::from_slice::<serde_json::Value>(&i).is_ok(), "input that is not JSON was accepted"),
        (None, _) => fail("input that is not a plan was accepted"),
    }
}

// ------------------------------------------------------------ Any in JSON
/// A message type named `bag` with a string, a bool and a 64-bit integer.
fn descriptor(file: &str, msg: &str, dup: bool) -> Vec<u8> {
    use prost_types::field_descriptor_proto::{Label, Type};
    use prost_types::*;
    let f = |n: &str, i: i32, t: Type| FieldDescriptorProto {
        name: Some(n.into()),
        json_name: Some(n.into()),
        number: Some(i),
        label: Some(Label::Optional as i32),
        r#type: Some(t as i32),
        ..Default::default()
    };
    let m = DescriptorProto {
        name: Some(msg.into()),
        field: vec![f("s", 1, Type::String), f("b", 2, Type::Bool), f("n", 3, Type::Int64)],
        ..Default::default()
    };
    let fd = FileDescriptorProto {
        name: Some(file.into()),
        package: Some("vt".into()),
        message_type: vec![m],
        syntax: Some("proto3".into()),
        ..Default::default()
    };
    let mut s = FileDescriptorSet { file: vec![] };
    if dup {
        // what a compiler bundles along: a file the core schema has too
        s.file.push(FileDescriptorProto {
            name: Some("google/protobuf/any.proto".into()),
            package: Some("google.protobuf".into()),
            syntax: Some("proto3".into()),
            message_type: vec![DescriptorProto {
                name: Some("Any".into()),
                field: vec![f("type_url", 1, Type::String), f("value", 2, Type::Bytes)],
                ..Default::default()
            }],
            ..Default::default()
        });
    }
    s.file.push(fd);
    s.encode_to_vec()
}
pub fn anys_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// `{"@type": …}` is read with the registered descriptors; `{"typeUrl": …}` without.
pub fn anys(case: u32) {
    let c = sym_str(ALP, 1);
    let mut reg = ExtensionRegistry::new();
    // what the message's encoding is: field 1 a string, field 2 a bool, field 3 a varint
    let body = |s: &str| {
        let mut v = vec![0x0a, s.len() as u8];
        v.extend_from_slice(s.as_bytes());
        v.extend_from_slice(&[0x10, 1, 0x18, 0xac, 0x02]);
        v
    };
    let (url, json, bytes): (&str, String, Option<Vec<u8>>) = match case {
        0..=2 => {
            if case < 2 {
                reg.add_descriptor(descriptor("bag.proto", "Bag", case == 1));
                if case == 1 {
                    reg.add_descriptor(descriptor("bag.proto", "Bag", true));
                }
            }
            let j = cat(&[r#"{"@type":"t.example/vt.Bag","s":""#, &c, r#"","b":true,"n":"300"}"#]);
            ("t.example/vt.Bag", j, if case < 2 { Some(body(&c)) } else { None })
        }
        3 => ("type.googleapis.com/substrait.Version", cat(&[r#"{"@type":"type.googleapis.com/substrait.Version","minorNumber":7,"producer":""#, &c, r#""}"#]), Some([&[0x10, 7, 0x2a, 1][..], c.as_bytes()].concat())),
        4 => ("x/y", r#"{"typeUrl":"x/y","value":"AP8B"}"#.into(), Some(vec![0, 255, 1])),
        6..=8 => {
            // several descriptors, of one package, with and without common files
            reg.add_descriptor(descriptor("other.proto", "Other", case == 7));
            reg.add_descriptor(descriptor("bag.proto", "Bag", case >= 7));
            reg.add_descriptor(descriptor("third.proto", "Third", case == 8));
            let m = ["Other", "Bag", "Third"][case as usize - 6];
            let j = cat(&[r#"{"@type":"t.example/vt."#, m, r#"","s":""#, &c, r#"","b":true,"n":"300"}"#]);
            (["t.example/vt.Other", "t.example/vt.Bag", "t.example/vt.Third"][case as usize - 6], j, Some(body(&c)))
        }
        _ => {
            // an unknown field
            reg.add_descriptor(descriptor("bag.proto", "Bag", false));
            ("", cat(&[r#"{"@type":"t.example/vt.Bag","q":""#, &c, r#""}"#]), None)
        }
    };
    let (i, want) = {
        let mut p = Plan::default();
        let l = proto::ExtensionLeafRel { common: None, detail: bytes.clone().map(|b| any_of(url, b).into()) };
        p.relations.push(plan_rel(Rel { rel_type: Some(RelType::ExtensionLeaf(l)) }));
        (cat(&[r#"{"relations":[{"rel":{"extensionLeaf":{"detail":"#, &json, r#"}}}]}"#]), p)
    };
    let cl = convert(JSON, PB, false);
    if bytes.is_none() {
        refused(&cl, i.as_bytes(), &reg, "a message without a schema was accepted");
        return;
    }
    let o = ok(&cl, i.as_bytes(), &reg);
    check(o == want.encode_to_vec(), "the extension message was read wrongly");
}

// ------------------------------------------------------------ formatting issues
pub fn issues_cases(_: bool) -> Vec<u32> {
    (0..12).collect()
}
/// Plans that cannot be shown in full: the text is written and the issues reported.
pub fn issues(case: u32) {
    let (k, f) = (case / 3, 1 + case as usize % 3);
    let reg = registry();
    let a = [0, 9, 7, 4294967295][if f == JSON { choice(2) * 3 } else { choice(4) } as usize];
    let p = match k {
        // functions that are not declared: one, several
        0 => plan1(&ext0(), filter(call("f", a, vec![field(0)], i64t()), &[0], tab("t", 1))).0,
        1 => {
            let c = |i| P::Ex(call("f", i, vec![], i64t()));
            plan1(&ext0(), project(vec![c(a), c(5), c(6)], tab("t", 1))).0
        }
        // an undeclared type
        2 => plan1(&ext1(), read(&["t"], &[("a".into(), user("t", a, 2, vec![]))])).0,
        // an extension nobody knows
        _ => {
            let l = proto::ExtensionLeafRel { common: None, detail: Some(any_of("no/one", vec![1]).into()) };
            let mut p = Plan::default();
            p.relations.push(plan_rel(Rel { rel_type: Some(RelType::ExtensionLeaf(l)) }));
            p
        }
    };
    let i = write_as(f, &p);
    let mut out = vec![];
    let types = choice(2) == 1;
    let mut o = OutputOptions::default();
    if types {
        o.literal_types = Visibility::Always;
    }
    let (x, e) = format_with_registry(&p, &o, &reg);
    check(!e.is_empty(), "a plan that cannot be shown in full was formatted without an error");
    match run(&convert(f, TEXT, types), &i[..], &mut out, &reg) {
        Done::Issues(g) => check(g.len() == e.len(), "other formatting issues were reported"),
        Done::Ok => fail("formatting issues were not reported"),
        Done::Err => fail("a plan with formatting issues was not converted"),
    }
    check(out == x.as_bytes(), "the output is not the formatted plan");
    // no other format has formatting issues
    let o = ok(&convert(f, 1 + choice(3) as usize, false), &i, &reg);
    check(!o.is_empty(), "no output");
}

// ------------------------------------------------------------ readers and writers
struct Chunks<'a> {
    d: &'a [u8],
    /// how much each read delivers
    n: usize,
    /// what the k-th read does instead
    at: usize,
    how: u32,
    i: usize,
}
impl Read for Chunks<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.i += 1;
        if self.i == self.at {
            match self.how {
                1 => return Err(io::ErrorKind::Interrupted.into()),
                2 => return Err(io::ErrorKind::ConnectionReset.into()),
                _ => {}
            }
        }
        let n = self.n.min(b.len()).min(self.d.len());
        b[..n].copy_from_slice(&self.d[..n]);
        self.d = &self.d[n..];
        Ok(n)
    }
}
struct Short {
    out: Vec<u8>,
    n: usize,
    at: usize,
    how: u32,
    i: usize,
    hit: bool,
}
impl Write for Short {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.i += 1;
        if self.i == self.at {
            self.hit = true;
            match self.how {
                1 => return Err(io::ErrorKind::Interrupted.into()),
                2 => return Err(io::ErrorKind::StorageFull.into()),
                3 => return Ok(0),
                _ => {}
            }
        }
        let n = self.n.min(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
const IOX: &str = "=== Plan\nRoot[r]\n  Filter[true => $0]\n    Read[\"täble\" => a:i64]\n";
pub fn readers_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// Input that arrives in pieces, is interrupted, or fails.
pub fn readers(case: u32) {
    let (f, how) = (case as usize % 3, case / 3);
    let f = [TEXT, PB, YAML][f];
    let reg = ExtensionRegistry::default();
    let Ok(p) = parse_with_registry(IOX, &reg) else { fail("not a plan") };
    let i = if f == TEXT { IOX.as_bytes().to_vec() } else { write_as(f, &p) };
    let mut r = Chunks { d: &i, n: [1, 2, 7, 33, 4096][choice(5) as usize], at: 1 + choice(4) as usize, how, i: 0 };
    let mut out = vec![];
    let d = run(&convert(f, PB, false), &mut r, &mut out, &reg);
    let how = if r.i >= r.at { how } else { 0 };
    match (how, d) {
        (2, Done::Err) => check(out.is_empty(), "output was written although reading failed"),
        (2, Done::Ok) => fail("a failure to read was not reported"),
        (_, Done::Ok) => check(out == p.encode_to_vec(), "the input was not read as a whole"),
        _ => fail("a plan was not converted"),
    }
}
pub fn writers_cases(_: bool) -> Vec<u32> {
    (0..16).collect()
}
/// Output that is taken in pieces, interrupted, or refused.
pub fn writers(case: u32) {
    let (t, how) = (case as usize % 4, case / 4);
    let reg = ExtensionRegistry::default();
    let mut want = vec![];
    if !matches!(run(&convert(TEXT, t, false), IOX.as_bytes(), &mut want, &reg), Done::Ok) {
        fail("a plan was not converted");
    }
    let c = if t == TEXT && choice(2) == 1 { validate() } else { convert(TEXT, t, false) };
    let n = [1, 5, 64, 1 << 20][choice(4) as usize];
    let at = 1 + choice(if n == 1 { 20 } else { 3 }) as usize;
    let mut w = Short { out: vec![], n, at, how, i: 0, hit: false };
    let d = run(&c, IOX.as_bytes(), &mut w, &reg);
    match d {
        Done::Ok => check(w.out == want, "success was reported although not all of the output was taken"),
        Done::Err => {
            check(how >= 2 && w.hit, "a plan was not converted");
            check(want.starts_with(&w.out), "other output was written");
        }
        _ => fail("a plan had formatting issues"),
    }
}
