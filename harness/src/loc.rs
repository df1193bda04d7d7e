//! C22: a parse error names the line at fault.
use super::rt::*;
use substrait_explain::{ParseError, parse_with_registry};

fn place(e: &ParseError) -> Option<(i64, &str)> {
    let c = match e {
        ParseError::Extension(c, _) => c,
        ParseError::ExtensionDetail(c, _) => c,
        ParseError::Plan(c, _) => c,
        ParseError::Expected { context, .. } => context,
        ParseError::NoRelationFound => return None,
        ParseError::UnregisteredExtension { context, .. } => context,
        ParseError::RelationParse(c, _) => c,
        ParseError::ValidationError(c, _) => c,
        ParseError::Initial(c, _) => c,
        ParseError::Relation(c, _) => c,
    };
    Some((c.line_no, &c.line))
}
const DOC: &[&str] = &[
    "=== Version 1.2.3",                            // 0
    "  producer: p",                                // 1
    "=== Extensions",                               // 2
    "URNs:",                                        // 3
    "  @  1: /u",                                   // 4
    "Functions:",                                   // 5
    "  #  1 @  1: f:i64",                           // 6
    "Types:",                                       // 7
    "  #  2 @  1: t",                               // 8
    "=== Plan",                                     // 9
    "Root[a]",                                      // 10
    "  Filter[true => $0]",                         // 11
    "    + Opt:Bag[1]",                             // 12
    "    Cross[$0]",                                // 13
    "      Project[f($0):i64, if_then(true -> 1, _ -> 2)]", // 14
    "        Read[x => a:t]",                       // 15
    "      Read:Virtual[",                          // 16
    "        - (1),",                               // 17
    "        - (2) => a:i64]",                      // 18
    "ExtensionSingle:Bag[1, k=2 => a:i64]",         // 19
    "  Join[&Inner, true => $0]",                   // 20
    "    Read:Extension[a:i64]",                    // 21
    "      + Enh:Twin[1]",                          // 22
    "      + Ext:Bag[1]",                           // 23
    "    Sort[($0, &AscNullsFirst) => $0]",         // 24
    "      Fetch[limit=1, offset=2 => $0]",         // 25
    "        Aggregate[$0 => $0, f($0):i64]",       // 26
    "          Read[z => b:i64]",                   // 27
    "Set[&UnionAll => $0]",                         // 28
    "  Read[p => b:i64]",                           // 29
    "  Read[q => b:i64]",                           // 30
];
/// Lines before which blank lines may stand.
const GAPS: &[usize] = &[0, 2, 9, 10, 11, 12, 13, 14, 15, 16, 19, 20, 21, 22, 23, 24, 28, 29, 30];
/// (line, what replaces it); the error must name the line.
const BAD: &[(usize, &str)] = &[
    (0, "hello"),
    (0, "  hello"),
    (0, "      === Version 1.2.3"),
    (0, "=== Nonsense"),
    (0, "=== Version 1.2"),
    (0, "=== Version 1.2.3.4"),
    (0, "=== Version 1.x.3"),
    (0, "=== Version 1.2.4294967296"),
    (1, "  maker: p"),
    (1, "  producer"),
    (1, "producer: p"),
    (1, "    producer: p"),
    (1, "=== Version 1.2.3"),
    (2, "=== Extension"),
    (2, "  === Extensions"),
    (2, "=== Version 1.2.3"),
    (3, "URN:"),
    (3, "  URNs:"),
    (4, "  @ x: /u"),
    (4, "  1: /u"),
    (4, "  @ 4294967296: /u"),
    (5, "Function:"),
    (6, "  #  1 @  7: f:i64"),
    (6, "  #  1   1: f:i64"),
    (6, "    #  1 @  1: f:i64"),
    (6, "  #  4294967296 @  1: f:i64"),
    (8, "  #  2 @  9: t"),
    (8, "  nonsense"),
    (9, "=== Plans"),
    (9, "=== Extensions"),
    (10, "Root[a"),
    (10, "Root"),
    (10, "+ Opt:Bag[1]"),
    (11, "  Filter[true]x[ => $0]"),
    (11, "  Filter[g($0):i64 => $0]"),
    (11, "  Filter[f#3($0):i64 => $0]"),
    (11, "  Filter['2024-13-01':date => $0]"),
    (11, "  Filter[99999999999999999999 => $0]"),
    (11, "  Filter[99999999999:i8 => $0]"),
    (11, "  Join[&Inner, true => $0]"),
    (11, "  Set[&UnionAll => $0]"),
    (12, "    + Opt:Nope[1]"),
    (12, "    + Ext:Bag[1]"),
    (12, "    + Opt:Bag[1"),
    (12, "    + Enh:Bag[1]"),
    (12, "    + Opt:Bag[g()]"),
    (13, "    Cross[x]"),
    (13, "    Filter[true => $0]"),
    (14, "      Project[g($0):i64]"),
    (14, "      Project[f($0):u]"),
    (14, "      Project[f($0):t#9]"),
    (14, "      Project[18446744073709551616:i64]"),
    (14, "      Join[&Inner, true => $0]"),
    (15, "        Read[x => a:u]"),
    (15, "        Read[x => a:precisiontimestamp<13>]"),
    (15, "            Read[x => a:t]"),
    (15, "        Filter[true => $0]"),
    (15, "        Reed[x => a:t]"),
    (15, "        ExtensionLeaf:Nope[1]"),
    (16, "      Read:Virtual[ g(),"),
    (16, "      Read:Virtual[ (1, 2),"),
    (19, "ExtensionSingle:Nope[1 => a:i64]"),
    (19, "ExtensionSingle:Bag[1 => a:u]"),
    (19, "ExtensionSingle:Bag[k=1, k=2]"),
    (19, "ExtensionLeaf:Bag[1]"),
    (20, "  Join[&Inner, g() => $0]"),
    (20, "  Join[&Nonsense, true => $0]"),
    (20, "  Filter[true => $0]"),
    (20, "      Join[&Inner, true => $0]"),
    (21, "    Read:Extension[a:u]"),
    (22, "      + Enh:Nope[1]"),
    (22, "        + Enh:Twin[1]"),
    (23, "      + Ext:Nope[1]"),
    (24, "    Sort[($0, &Nope) => $0]"),
    (24, "    Read[x => a:i64]"),
    (25, "      Fetch[limit=-1 => $0]"),
    (25, "      Fetch[limit=1, limit=2 => $0]"),
    (26, "        Aggregate[$0 => $0, g($0):i64]"),
    (26, "        Aggregate[$0 => 1]"),
    (27, "          Read[z => b:u]"),
    (28, "Set[&Nope => $0]"),
    (28, "Filter[true => $0]"),
    (30, "  Read[q => b:u]"),
    (30, "  - (1)]"),
    (30, "  + Opt:Bag[1]"),
];
/// Valid lines that make another line invalid: (line, replacement, line at fault).
const REMOTE: &[(usize, &str, usize)] = &[
    (4, "  @  2: /u", 6),
    (6, "  #  1 @  1: h:i64", 14),
    (6, "  #  2 @  1: f:i64", usize::MAX),
    (8, "  #  1 @  1: t", usize::MAX),
    (8, "  #  2 @  1: s", 15),
    (23, "      + Opt:Bag[1]", 21),
    (27, "        Read[z => b:i64]", 26),
    (27, "            Read[z => b:i64]", 27),
    (27, "          - Read[z => b:i64]", 26),
    (29, "  Read[p => b:i64, c:i64]", 28),
];
struct Doc {
    text: String,
    at: Vec<i64>,
}
/// The document with line endings and blank lines chosen, and where each line stands.
fn doc(lines: &[String]) -> Doc {
    doc_with(lines, usize::MAX)
}
/// With line `extra` not among the numbered ones.
fn doc_with(lines: &[String], extra: usize) -> Doc {
    let nl = if choice(2) == 1 { "\r\n" } else { "\n" };
    let gaps: Vec<usize> = match choice(6) {
        0 => vec![],
        1 => GAPS.to_vec(),
        2 => vec![0],
        3 => vec![10, 19],
        4 => vec![0, 0, 2, 2, 9, 9, 12, 19, 19, 19, 28],
        _ => vec![0; 260],
    };
    let mut text = String::new();
    let mut at = vec![];
    let mut n = 1;
    for (i, l) in lines.iter().enumerate() {
        for g in &gaps {
            if *g == (if i > extra { i - 1 } else { i }) && i != extra {
                text.push_str(nl);
                n += 1;
            }
        }
        at.push(n);
        text.push_str(l);
        text.push_str(nl);
        n += 1;
    }
    Doc { text, at }
}
fn names(d: &Doc, line: usize, lines: &[String]) {
    let reg = super::ext::registry();
    match parse_with_registry(&d.text, &reg) {
        Ok(_) => fail("an invalid line is accepted"),
        Err(e) => located(&e, d, line, lines),
    }
}
/// A continuation line belongs to the relation it continues.
fn head(l: usize) -> usize {
    if l == 17 || l == 18 { 16 } else { l }
}
fn located(e: &ParseError, d: &Doc, line: usize, lines: &[String]) {
    let line = if lines.len() == DOC.len() { head(line) } else { line };
    match place(e) {
        None => fail("a parse error without a place"),
        Some((n, q)) => {
            check(n == d.at[line], "the error names another line");
            let mut whole = lines[line].clone();
            if line == 16 {
                whole = String::from(&d.text[d.text.find(&lines[16]).unwrap()..]);
            }
            check(whole.contains(q), "the error quotes something else");
            check(!q.is_empty(), "the error quotes nothing");
            emit(q);
        }
    }
}
fn owned() -> Vec<String> {
    DOC.iter().map(|l| String::from(*l)).collect()
}
pub fn good_cases(_: bool) -> Vec<u32> {
    vec![0]
}
pub fn good(_: u32) {
    let d = doc(&owned());
    let reg = super::ext::registry();
    check(parse_with_registry(&d.text, &reg).is_ok(), "the document is rejected");
}
pub fn bad_cases(_: bool) -> Vec<u32> {
    (0..BAD.len() as u32).collect()
}
/// One invalid line in a valid document.
pub fn bad(case: u32) {
    let (l, x) = BAD[case as usize];
    let mut lines = owned();
    lines[l] = String::from(x);
    names(&doc(&lines), l, &lines);
}
pub fn remote_cases(_: bool) -> Vec<u32> {
    (0..REMOTE.len() as u32).collect()
}
/// A line that is invalid because of another.
pub fn remote(case: u32) {
    let (l, x, at) = REMOTE[case as usize];
    let mut lines = owned();
    lines[l] = String::from(x);
    let d = doc(&lines);
    if at == usize::MAX {
        let reg = super::ext::registry();
        check(parse_with_registry(&d.text, &reg).is_ok(), "a valid document is rejected");
    } else {
        names(&d, at, &lines);
    }
}
/// (where a line is added, the line, the line at fault counting the new one).
const ADDED: &[(usize, &str, usize)] = &[
    (2, "=== Version 1.2.3", 2),
    (2, "  producer", 2),
    (4, "  @  1: /w", 5),
    (5, "  @  1: /w", 5),
    (5, "  @  1: /u", 5),
    (6, "  #  1 @  1: g", 7),
    (7, "  #  1 @  1: g", 7),
    (7, "  #  1 @  1: f:i64", 7),
    (7, "  #  3 @  2: g", 7),
    (9, "  #  2 @  1: u", 9),
    (9, "=== Extensions", 9),
    (9, "=== Version 1.2.3", 9),
    (9, "  @  2: /w", 9),
    (11, "  + Opt:Bag[1]", 11),
    (11, "  Read[r => a:i64]", 10),
    (12, "=== Plan", 12),
    (12, "=== Extensions", 12),
    (12, "    + Opt:Nope[1]", 12),
    (12, "    Read[r => a:i64]", 13),
    (13, "    + Opt:Nope[1]", 13),
    (13, "    + Enh:Bag[g()]", 13),
    (13, "    + Ext:Bag[1]", 13),
    (13, "    Read[r => a:i64]", 11),
    (14, "    + Opt:Bag[1]", 14),
    (15, "        Read[r => a:t]", 14),
    (16, "        Read[r => a:t]", 14),
    (16, "          Read[r => a:t]", 15),
    (16, "      Read[r => a:i64]", 13),
    (16, "          + Opt:Nope[1]", 16),
    (19, "        Read[r => a:i64]", 16),
    (19, "        - (3)", 16),
    (20, "  Read[r => a:i64]", 19),
    (22, "      + Enh:Twin[1]", 23),
    (22, "      + Ext:Bag[1]", 24),
    (22, "      Read[r => a:i64]", 23),
    (23, "      + Enh:Twin[1]", 23),
    (23, "      + Ext:Bag[1]", 24),
    (23, "      + Ext:Nope[1]", 24),
    (24, "      + Enh:Twin[1]", 24),
    (24, "      + Ext:Bag[1]", 24),
    (24, "      + Ext:Nope[1]", 24),
    (24, "      + Opt:Nope[1]", 24),
    (24, "      Read[r => a:i64]", 21),
    (24, "    Read[r => a:i64]", 20),
    (25, "      Read[r => a:i64]", 24),
    (26, "        Read[r => a:i64]", 25),
    (27, "          Read[r => a:i64]", 26),
    (28, "            Read[r => a:i64]", 27),
    (28, "              Read[r => a:i64]", 28),
    (29, "  Read[r => a:i64, b:i64]", 28),
    (31, "  Read[r => a:i64, b:i64]", 28),
    (31, "  - (1)", 31),
    (31, "=== Plan", 31),
];
pub fn added_cases(_: bool) -> Vec<u32> {
    (0..ADDED.len() as u32).collect()
}
/// A line too many: the second of two, or the one that has it.
pub fn added(case: u32) {
    let (l, x, at) = ADDED[case as usize];
    let mut lines = owned();
    lines.insert(l, String::from(x));
    names(&doc_with(&lines, l), at, &lines);
}
const PLAIN: &[usize] = &[0, 1, 2, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28];
pub fn window_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for l in PLAIN {
        let s = DOC[*l];
        let body = s.len() - s.trim_start().len();
        let from = if *l == 17 || *l == 18 { body + 2 } else { body };
        for p in from..s.len() {
            if th || p % 2 == 0 {
                v.push(((*l as u32) << 8) | p as u32);
            }
        }
    }
    v
}
/// Two arbitrary characters anywhere in one line: whatever is then wrong is wrong
/// with that line.
pub fn window(case: u32) {
    let (l, p) = ((case >> 8) as usize, (case & 0xff) as usize);
    let mut lines = owned();
    let mut b = DOC[l].as_bytes().to_vec();
    for k in 0..2 {
        if p + k < b.len() {
            let c = hole(ANY);
            assume(c != b'\n');
            b[p + k] = c;
        }
    }
    lines[l] = unsafe { String::from_utf8_unchecked(b) };
    // a line that starts like a continuation belongs to the line before it
    if !(l == 17 || l == 18) && lines[l].trim_start_matches(' ').starts_with("- ") {
        return;
    }
    // and an addendum of another kind leaves its relation without the one it needs
    if l == 23 && !lines[l].contains("Ext") {
        return;
    }
    let mut text = String::from("\n");
    let mut at = vec![];
    for (i, x) in lines.iter().enumerate() {
        at.push(i as i64 + 2);
        text.push_str(x);
        text.push('\n');
    }
    let d = Doc { text, at };
    let reg = super::ext::registry();
    if let Err(e) = parse_with_registry(&d.text, &reg) {
        located(&e, &d, l, &lines);
        cover(1);
    }
}
