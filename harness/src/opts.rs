//! C18: output options change how a plan is shown, not what it says.
use super::exprs::{LITS, literal};
use super::ext::*;
use super::gen_::*;
use super::rt::*;
use substrait::proto::Plan;
use substrait_explain::extensions::ExtensionValue;
use substrait_explain::{OutputOptions, Visibility, format_with_registry, parse_with_registry};

struct O {
    o: OutputOptions,
    /// types of all literals, anchors of all names
    lits: bool,
    anchors: bool,
}
/// Options that leave the text complete.
fn options() -> O {
    let v = |b: bool| if b { Visibility::Always } else { Visibility::Required };
    let k = choice(6);
    let (lits, anchors) = if k < 4 { (k & 1 == 1, k & 2 == 2) } else { (true, true) };
    let mut o = if k >= 4 { OutputOptions::verbose() } else { OutputOptions::default() };
    if k < 4 {
        o.literal_types = v(lits);
        o.show_simple_extension_anchors = v(anchors);
    }
    if k == 5 || k == 3 {
        // the other switches do not take anything away either
        o.show_extension_urns = !o.show_extension_urns;
        o.show_simple_extensions = !o.show_simple_extensions;
        o.read_types = !o.read_types;
        o.nullability = !o.nullability;
        o.show_literal_binaries = !o.show_literal_binaries;
    }
    O { o, lits, anchors }
}
fn shows(plan: &Plan, text: &str, o: &OutputOptions) {
    emit(text);
    let reg = registry();
    let (out, errs) = format_with_registry(plan, o, &reg);
    if !same_text(&out, text) {
        emit("\nformatted:\n");
        emit(&out);
        fail("the text shown with these options is not the documented one");
    }
    check(errs.is_empty(), "formatting a supported plan reported errors");
    parses_reg(text, plan, &reg);
}
/// The literal with its type, which some only show when asked to.
fn typed(i: u32, n: bool, always: bool) -> X {
    let mut x = literal(i, n);
    let ty = match i {
        3 => ":i64",
        4 => ":boolean",
        5 => ":string",
        14 => ":fp64",
        _ => return x,
    };
    if always && !n {
        x.x.push_str(ty);
    }
    x
}
fn num(v: i64, always: bool) -> X {
    let mut x = int(v);
    if always {
        x.x.push_str(":i64");
    }
    x
}
fn yes(always: bool) -> X {
    let mut x = boolean(true);
    if always {
        x.x.push_str(":boolean");
    }
    x
}
fn nm(name: &str, anchor: &str, always: bool) -> String {
    if always { cat(&[name, "#", anchor]) } else { name.into() }
}
pub fn literals_cases(_: bool) -> Vec<u32> {
    (0..LITS).collect()
}
/// Every kind of literal with and without its type, in every place.
pub fn literals(i: u32) {
    let O { mut o, lits, anchors } = options();
    let l = typed(i, choice(2) == 1, lits);
    let f = nm("f", "1", anchors);
    if i >= 20 && anchors {
        // the type of the null is a declared one; c18_names has those
        return;
    }
    let n = |v| num(v + below(5) as i64, lits);
    let t = || yes(lits);
    let e = match choice(4) {
        0 => l,
        1 => call(&f, 1, vec![n(1), l], i64t()),
        2 => cast(l, i64t(), 0),
        _ => if_then(vec![(t(), l)], n(2)),
    };
    let r = match choice(6) {
        0 => filter(e, &[0], tab("t", 1)),
        1 => {
            if let Some(substrait::proto::expression::RexType::Selection(_)) = e.e.rex_type {
                return;
            }
            project(vec![P::Ex(e), P::Ref(0)], tab("t", 1))
        }
        2 => join(2, t(), Some(e), &[0, 1], tab("t", 1), tab("u", 1)),
        3 => sort(vec![(e, 0)], &[0], tab("t", 1)),
        4 => {
            o.virtual_table_multiline_threshold = 2 - choice(2) as usize;
            let many = o.virtual_table_multiline_threshold == 1;
            virt_as(many, vec![vec![e]], Some(t()), &cols(1))
        }
        _ => fetch(Some(n(3)), Some(e), &[0], tab("t", 1)),
    };
    let (p, x) = plan1(&ext1(), r);
    shows(&p, &x, &o);
}
pub fn args_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// Expressions among the arguments of extensions; plain arguments have no types.
pub fn args(case: u32) {
    let O { o, lits, anchors } = options();
    let f = nm("f", "1", anchors);
    let mut a = A::default();
    a.p.push(v_of(ExtensionValue::Integer(4), "4"));
    a.p.push(v_of(ExtensionValue::String("s".into()), "'s'"));
    a.p.push(v_expr(call(&f, 1, vec![num(1, lits)], i64t())));
    a.p.push(v_tuple(vec![v_of(ExtensionValue::Boolean(true), "true"), v_of(ExtensionValue::Null, "null")]));
    let r = match case {
        0 => ext_rel(0, 0, &a, vec![]),
        1 => ext_rel(1, 0, &a, vec![tab("t", 1)]),
        2 => ext_rel(2, 0, &a, vec![tab("t", 1), tab("u", 1)]),
        3 => ext_read(0, &a, &cols(2)),
        4 => with(filter(yes(lits), &[0], tab("t", 1)), &[Add { kind: 1, bag: 0, a: a.clone() }]),
        5 => with(tab("t", 1), &[Add { kind: 1, bag: 0, a: a.clone() }]),
        6 => with(cross(&[1, 0], tab("t", 1), tab("u", 1)), &[Add { kind: 1, bag: 1, a: a.clone() }]),
        _ => with(set(7, &[0], vec![tab("t", 1), tab("u", 1)]), &[Add { kind: 1, bag: 0, a: a.clone() }]),
    };
    let (p, x) = plan1(&ext1(), r);
    shows(&p, &x, &o);
}
pub fn names_cases(_: bool) -> Vec<u32> {
    (0..24).collect()
}
/// Functions and types with their anchors always shown.
pub fn names(case: u32) {
    let all = super::decl::NAMES;
    let n = 1 + (case / 8) as usize;
    let mut names = vec![all[case as usize % 8]];
    for _ in 1..n {
        names.push(all[choice(if n == 3 { 4 } else { 8 }) as usize]);
    }
    let mut e = ext0();
    e.urns = vec![(1, "/u".into()), (2, "/v".into())];
    let a = [["5", "6", "7"], ["10", "99", "100"]][choice(2) as usize];
    let num_: Vec<u32> = a.iter().map(|s| s.parse::<u32>().unwrap()).collect();
    for (i, n) in names.iter().enumerate() {
        e.funcs.push((num_[i], 1 + (i as u32 % 2), String::from(*n)));
    }
    e.types = vec![(5, 1, "p".into()), (6, 2, "p".into()), (7, 1, "q".into())];
    let k = choice(n as u32) as usize;
    let ty = choice(3) as usize;
    let tt = user(&cat(&[["p", "p", "q"][ty], "#", ["5", "6", "7"][ty]]), 5 + ty as u32, NUL, vec![]);
    let name = cat(&[names[k], "#", a[k]]);
    let lits = choice(2) == 1;
    let mut o = if lits { OutputOptions::verbose() } else { OutputOptions::default() };
    o.show_simple_extension_anchors = Visibility::Always;
    let c = call(&name, num_[k], vec![field(0), cast(num(1, lits), tt.clone(), 0)], tt.clone());
    let (p, x) = plan1(&e, filter(c, &[0], read(&["t"], &[("a".into(), tt)])));
    shows(&p, &x, &o);
}
pub fn rows_cases(th: bool) -> Vec<u32> {
    let mut v: Vec<u32> = (0..7).collect();
    v.extend(if th { 12..=40 } else { 12..=17 });
    v.extend([64, 65, 130, 260]);
    v
}
/// A virtual table is written over several lines exactly when it has rows and at
/// least as many as the limit, whatever the limit.
pub fn rows(n: u32) {
    let mut o = OutputOptions::default();
    let limit = any_i64() as u64 as usize;
    o.virtual_table_multiline_threshold = limit;
    let many = n > 0 && n as usize >= limit;
    let flt = || if choice(2) == 1 { Some(boolean(true)) } else { None };
    let rows = (0..n).map(|i| vec![int((i % 10) as i64), field(1)]).collect();
    let v = virt_as(many, rows, flt(), &cols(2));
    let r = match choice(3) {
        0 => v,
        1 => filter(boolean(true), &[1], v),
        _ => cross(&[0, 1], v, tab("t", 1)),
    };
    let (p, x) = plan1(&ext0(), r);
    shows(&p, &x, &o);
}
pub fn plans_cases(_: bool) -> Vec<u32> {
    (0..super::doc::TEXTS.len() as u32).collect()
}
/// Whole documents under every combination mean the same.
pub fn plans(case: u32) {
    let reg = registry();
    let Ok(p) = parse_with_registry(super::doc::TEXTS[case as usize], &reg) else { fail("the text does not parse") };
    let O { mut o, .. } = options();
    o.virtual_table_multiline_threshold = choice(4) as usize;
    let (out, errs) = format_with_registry(&p, &o, &reg);
    emit(&out);
    check(errs.is_empty(), "formatting a supported plan reported errors");
    parses_reg(&out, &p, &reg);
}
pub fn hidden_cases(_: bool) -> Vec<u32> {
    (0..LITS + 8).collect()
}
/// Only the text: what it leaves out cannot be read back.
fn reads(plan: &Plan, text: &str, o: &OutputOptions) {
    emit(text);
    let (out, errs) = format_with_registry(plan, o, &registry());
    if !same_text(&out, text) {
        emit("\nformatted:\n");
        emit(&out);
        fail("the text shown with these options is not the documented one");
    }
    check(errs.is_empty(), "formatting a supported plan reported errors");
}
/// A literal without its type; a null is nothing but its type.
fn bare(i: u32, n: bool) -> X {
    let mut x = literal(i, n);
    if i < 16 {
        let e = match x.x.starts_with('\'') {
            true => x.x.rfind('\'').map(|e| e + 1),
            false => x.x.find(':'),
        };
        if let Some(e) = e {
            x.x.truncate(e);
        }
    }
    x
}
/// Types of literals never shown, names always without signature and anchor.
pub fn hidden(i: u32) {
    let mut o = if choice(2) == 1 { OutputOptions::verbose() } else { OutputOptions::default() };
    if i < LITS {
        o.literal_types = Visibility::Never;
        let always = choice(2) == 1;
        o.show_simple_extension_anchors = if always { Visibility::Always } else { Visibility::Required };
        if i >= 20 && always {
            return;
        }
        let l = bare(i, choice(2) == 1);
        let e = match choice(4) {
            0 => l,
            1 => call(&nm("f", "1", always), 1, vec![int(1), l], i64t()),
            2 => cast(l, i64t(), 0),
            _ => if_then(vec![(boolean(true), l)], int(2)),
        };
        let r = match choice(4) {
            0 => filter(e, &[0], tab("t", 1)),
            1 => join(2, boolean(true), Some(e), &[0, 1], tab("t", 1), tab("u", 1)),
            2 => virt_as(false, vec![vec![e]], Some(boolean(true)), &cols(1)),
            _ => with(tab("t", 1), &[Add {
                kind: 1,
                bag: 0,
                a: A { p: vec![v_expr(call(&nm("f", "1", always), 1, vec![e], i64t()))], ..A::default() },
            }]),
        };
        let (p, x) = plan1(&ext1(), r);
        return reads(&p, &x, &o);
    }
    let all = super::decl::NAMES;
    let names = [all[(i - LITS) as usize], all[choice(8) as usize]];
    let mut e = ext0();
    e.urns = vec![(1, "/u".into()), (2, "/v".into())];
    for (k, n) in names.iter().enumerate() {
        e.funcs.push((5 + k as u32, 1 + k as u32, String::from(*n)));
    }
    e.types = vec![(5, 1, "p".into()), (6, 2, "p".into()), (7, 1, "q".into())];
    let k = choice(2) as usize;
    let ty = choice(3) as usize;
    let tt = user(["p", "p", "q"][ty], 5 + ty as u32, NUL, vec![]);
    let base = names[k].split(':').next().unwrap();
    let lits = choice(2) == 1;
    o.literal_types = if lits { Visibility::Always } else { Visibility::Required };
    o.show_simple_extension_anchors = Visibility::Never;
    let c = call(base, 5 + k as u32, vec![field(0), cast(num(1, lits), tt.clone(), 0)], tt.clone());
    let (p, x) = plan1(&e, filter(c, &[0], read(&["t"], &[("a".into(), tt)])));
    reads(&p, &x, &o);
}
pub fn indent_cases(_: bool) -> Vec<u32> {
    (0..super::doc::TEXTS.len() as u32 * 4).collect()
}
/// Any other indentation stands where two spaces would.
pub fn indent(case: u32) {
    let reg = registry();
    let Ok(p) = parse_with_registry(super::doc::TEXTS[case as usize / 4], &reg) else { fail("the text does not parse") };
    let mut ind = vec![];
    for _ in 0..case % 4 {
        let b = any_u8();
        assume(((b >= b' ') & (b <= b'~')) | (b == b'\t'));
        ind.push(b);
    }
    // SAFETY: ASCII
    let ind = unsafe { String::from_utf8_unchecked(ind) };
    let mut o = if choice(2) == 1 { OutputOptions::verbose() } else { OutputOptions::default() };
    o.virtual_table_multiline_threshold = choice(3) as usize;
    let (usual, errs) = format_with_registry(&p, &o, &reg);
    check(errs.is_empty(), "formatting a supported plan reported errors");
    let mut want = String::new();
    for l in usual.split_inclusive('\n') {
        let mut l = l;
        while let Some(rest) = l.strip_prefix("  ") {
            want.push_str(&ind);
            l = rest;
        }
        want.push_str(l);
    }
    o.indent = ind;
    emit(&want);
    let (out, errs) = format_with_registry(&p, &o, &reg);
    if !same_text(&out, &want) {
        emit("\nformatted:\n");
        emit(&out);
        fail("the text with this indentation is not the usual one, indented otherwise");
    }
    check(errs.is_empty(), "formatting a supported plan reported errors");
}
