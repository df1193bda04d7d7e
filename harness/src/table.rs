//! C10: the table of declared extensions.
use super::rt::*;
use substrait::proto::extensions::simple_extension_declaration::{
    ExtensionFunction, ExtensionType, ExtensionTypeVariation, MappingType,
};
use substrait::proto::extensions::{SimpleExtensionDeclaration, SimpleExtensionUrn};
use substrait_explain::extensions::simple::{CompoundName, ExtensionKind, InsertError, MissingReference};
use substrait_explain::extensions::SimpleExtensions;

const KIND: [ExtensionKind; 3] = [ExtensionKind::Function, ExtensionKind::Type, ExtensionKind::TypeVariation];
#[derive(Clone)]
struct Decl {
    kind: usize,
    urn: u32,
    anchor: u32,
    name: String,
}
/// What was inserted first.
#[derive(Default, Clone)]
struct Model {
    urns: Vec<(u32, String)>,
    decls: Vec<Decl>,
}
impl Model {
    fn urn(&self, a: u32) -> Option<&str> {
        for (x, u) in &self.urns {
            if *x == a {
                return Some(u);
            }
        }
        None
    }
    fn at(&self, kind: usize, a: u32) -> Option<&Decl> {
        for d in &self.decls {
            if d.kind == kind && d.anchor == a {
                return Some(d);
            }
        }
        None
    }
    fn add_urn(&mut self, a: u32, u: &str) -> Result<(), InsertError> {
        if let Some(p) = self.urn(a) {
            return Err(InsertError::DuplicateUrnAnchor { anchor: a, prev: p.into(), name: u.into() });
        }
        self.urns.push((a, u.into()));
        Ok(())
    }
    fn add(&mut self, kind: usize, urn: u32, anchor: u32, written: &str) -> Result<(), InsertError> {
        let k = KIND[kind];
        let mut name = String::from(written);
        if let Some(n) = written.strip_prefix("u!") {
            if kind != 1 {
                return Err(InsertError::InvalidName { kind: k, name });
            }
            name = n.into();
        }
        let missing = self.urn(urn).is_none();
        let prev = self.at(kind, anchor).map(|d| d.name.clone());
        match (missing, prev) {
            (true, Some(prev)) => Err(InsertError::DuplicateAndMissingUrn { kind: k, anchor, prev, name, urn }),
            (false, Some(prev)) => Err(InsertError::DuplicateAnchor { kind: k, anchor, prev, name }),
            (m, None) => {
                self.decls.push(Decl { kind, urn, anchor, name: name.clone() });
                if m { Err(InsertError::MissingUrn { kind: k, anchor, name, urn }) } else { Ok(()) }
            }
        }
    }
}
fn decl(kind: usize, urn: u32, anchor: u32, name: &str) -> SimpleExtensionDeclaration {
    let name = String::from(name);
    SimpleExtensionDeclaration {
        mapping_type: Some(match kind {
            0 => MappingType::ExtensionFunction(ExtensionFunction {
                extension_urn_reference: urn,
                function_anchor: anchor,
                name,
                ..Default::default()
            }),
            1 => MappingType::ExtensionType(ExtensionType {
                extension_urn_reference: urn,
                type_anchor: anchor,
                name,
                ..Default::default()
            }),
            _ => MappingType::ExtensionTypeVariation(ExtensionTypeVariation {
                extension_urn_reference: urn,
                type_variation_anchor: anchor,
                name,
                ..Default::default()
            }),
        }),
    }
}
fn key(d: &SimpleExtensionDeclaration) -> (u32, usize, u32, &str) {
    match &d.mapping_type {
        Some(MappingType::ExtensionFunction(f)) => (f.function_anchor, 0, f.extension_urn_reference, &f.name),
        Some(MappingType::ExtensionType(f)) => (f.type_anchor, 1, f.extension_urn_reference, &f.name),
        Some(MappingType::ExtensionTypeVariation(f)) => {
            (f.type_variation_anchor, 2, f.extension_urn_reference, &f.name)
        }
        None => fail("an exported declaration is empty"),
    }
}
pub fn insert_cases(th: bool) -> Vec<u32> {
    (0..if th { 256 } else { 64 }).collect()
}
/// Sequences of three (thorough: four) insertions with arbitrary anchors and URN
/// references: what each answers, and what the table holds afterwards.
pub fn insert(case: u32) {
    let n = if case < 64 { 3 } else { 4 };
    let mut t = SimpleExtensions::new();
    let mut m = Model::default();
    let mut urns = vec![];
    let mut decls = vec![];
    let mut want = vec![];
    for i in 0..n {
        let op = (case >> (2 * i)) % 4;
        let a = any_u32();
        if op == 3 {
            let u = ["/u", "/v", "/w", "/x"][i];
            let r = t.add_extension_urn(u.into(), a);
            let w = m.add_urn(a, u);
            check(r == w, "inserting a URN answers something else than it should");
            urns.push(SimpleExtensionUrn { extension_urn_anchor: a, urn: u.into() });
        } else {
            let name = [["f", "u!f"], ["g:i64", "u!f"], ["f", "u!"], ["k", "u!g:i64"]][i][choice(2) as usize];
            let u = any_u32();
            let r = t.add_extension(KIND[op as usize], u, a, name.into());
            let w = m.add(op as usize, u, a, name);
            check(r == w, "inserting a declaration answers something else than it should");
            decls.push((op as usize, u, a, name));
        }
    }
    check(t.is_empty() == (m.urns.is_empty() && m.decls.is_empty()), "is_empty is wrong");
    // lookups
    let q = any_u32();
    check(t.find_urn(q) == m.urn(q).ok_or(MissingReference::MissingUrn(q)), "a URN is not found under its anchor");
    for k in 0..3 {
        match (t.find_by_anchor(KIND[k], q), m.at(k, q)) {
            (Ok((u, n)), Some(d)) => {
                check((u == d.urn) & (n.full() == d.name), "an anchor leads to another declaration");
            }
            (Err(e), None) => {
                check(e == MissingReference::MissingAnchor(KIND[k], q), "a missing anchor is reported as something else");
            }
            _ => fail("a declaration is found or missed wrongly"),
        }
    }
    // what is exported: all of it, in order
    let us = t.to_extension_urns();
    check(us.len() == m.urns.len(), "URNs are lost or repeated");
    for (i, u) in us.iter().enumerate() {
        check(i == 0 || us[i - 1].extension_urn_anchor < u.extension_urn_anchor, "URNs are not sorted");
        check(m.urn(u.extension_urn_anchor) == Some(&u.urn), "a URN is changed");
    }
    let ds = t.to_extension_declarations();
    check(ds.len() == m.decls.len(), "declarations are lost or repeated");
    let mut last = None;
    for d in &ds {
        let (a, k, u, n) = key(d);
        check(last < Some((a, k)), "declarations are not sorted");
        last = Some((a, k));
        let Some(w) = m.at(k, a) else { fail("a declaration is made up") };
        check((w.urn == u) & (w.name == n), "a declaration is changed");
    }
    let (c, _) = SimpleExtensions::from_extensions(&us, &ds);
    check(c == t, "a table is not rebuilt from what it exports");
    // all at once: first the URNs, then the rest
    let mut m = Model::default();
    for u in &urns {
        if let Err(e) = m.add_urn(u.extension_urn_anchor, &u.urn) {
            want.push(e);
        }
    }
    let mut msgs = vec![];
    for (k, u, a, n) in &decls {
        if let Err(e) = m.add(*k, *u, *a, n) {
            want.push(e);
        }
        msgs.push(decl(*k, *u, *a, n));
    }
    msgs.push(SimpleExtensionDeclaration { mapping_type: None });
    want.push(InsertError::MissingMappingType);
    let (b, errs) = SimpleExtensions::from_extensions(&urns, &msgs);
    check(errs == want, "a set of declarations reports other errors than it should");
    let n = b.to_extension_declarations().len() + b.to_extension_urns().len();
    check(n == m.decls.len() + m.urns.len(), "a set of declarations is not kept");
    cover(1);
}
const NAMES: [&str; 6] = ["f", "f:", "f:i64", "f:i64_i64", "g", "fi"];
const ASK: [&str; 8] = ["f", "f:", "f:i64", "f:i64_i64", "g", "fi", "", "f:x"];
fn base(n: &str) -> &str {
    match n.bytes().position(|c| c == b':') {
        Some(i) => &n[..i],
        None => n,
    }
}
fn fits(stored: &str, asked: &str) -> bool {
    if asked.bytes().any(|c| c == b':') { stored == asked } else { base(stored) == asked }
}
pub fn names_cases(_: bool) -> Vec<u32> {
    // two functions, a third declaration of either kind, a written name
    let mut v = vec![];
    for a in 0..NAMES.len() as u32 {
        for ask in 0..ASK.len() as u32 {
            v.push(a * 16 + ask);
        }
    }
    v
}
/// Lookups by name among three declarations with arbitrary anchors.
pub fn names(case: u32) {
    let ask = ASK[case as usize % 16];
    let mut t = SimpleExtensions::new();
    let mut m = Model::default();
    let u = any_u32();
    let _ = t.add_extension_urn("/u".into(), u);
    let _ = m.add_urn(u, "/u");
    for i in 0..3 {
        let k = if i == 2 { choice(2) as usize } else { 0 };
        let n = if i == 0 { NAMES[case as usize / 16] } else { NAMES[choice(NAMES.len() as u32) as usize] };
        let a = any_u32();
        // the first two in order of anchor
        assume(i != 1 || a > m.decls[0].anchor);
        let r = t.add_extension(KIND[k], u, a, n.into());
        check(r == m.add(k, u, a, n), "inserting a declaration answers something else than it should");
    }
    for k in 0..2 {
        let same: Vec<u32> = m.decls.iter().filter(|d| d.kind == k && d.name == ask).map(|d| d.anchor).collect();
        let r = t.find_by_name(KIND[k], ask);
        let w = match same.len() {
            0 => Err(MissingReference::MissingName(KIND[k], ask.into())),
            1 => Ok(same[0]),
            _ => Err(MissingReference::DuplicateName(KIND[k], ask.into())),
        };
        check(r == w, "a name leads to another anchor than it should");
        // is the name unique, from the view of any anchor
        let q = any_u32();
        let r = t.is_name_unique(KIND[k], q, ask);
        let w = match m.at(k, q) {
            None => Err(MissingReference::MissingAnchor(KIND[k], q)),
            Some(d) if d.name != ask => Err(MissingReference::Mismatched(KIND[k], ask.into(), q)),
            Some(_) => Ok(same.len() == 1),
        };
        check(r == w, "a name is taken as unique or not wrongly");
    }
    let fns: Vec<&Decl> = m.decls.iter().filter(|d| d.kind == 0).collect();
    let fit: Vec<&&Decl> = fns.iter().filter(|d| fits(&d.name, ask)).collect();
    let q = any_u32();
    let with = choice(2) == 1;
    let r = t.resolve_function(ask, with.then_some(q));
    let w = if with {
        match m.at(0, q) {
            None => Err(MissingReference::MissingAnchor(KIND[0], q)),
            Some(d) if fits(&d.name, ask) => Ok(d),
            Some(_) => Err(MissingReference::Mismatched(KIND[0], ask.into(), q)),
        }
    } else {
        match fit.len() {
            0 => Err(MissingReference::MissingName(KIND[0], ask.into())),
            1 => Ok(*fit[0]),
            _ => Err(MissingReference::DuplicateName(KIND[0], ask.into())),
        }
    };
    match (r, w) {
        (Err(a), Err(b)) => check(a == b, "a name that cannot be resolved is reported as something else"),
        (Ok(f), Ok(d)) => {
            check((f.anchor == d.anchor) & (f.urn == d.urn) & (f.name.full() == d.name), "a name resolves to another function");
            let nb = fns.iter().filter(|x| base(&x.name) == base(&d.name)).count();
            let nf = fns.iter().filter(|x| x.name == d.name).count();
            check((f.base_name_unique == (nb == 1)) & (f.name_unique == (nf == 1)), "a function's name is taken as unique or not wrongly");
        }
        _ => fail("a name is resolved or refused wrongly"),
    }
    cover(2);
}
pub fn compound_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for n in 0..=(if th { 6 } else { 5 }) {
        for p in 0..=(if th { 5 } else { 4 }) {
            v.push(n * 8 + p);
        }
    }
    v
}
/// All names and patterns of a few ASCII characters.
pub fn compound(case: u32) {
    let s = sym_str(PRN, case as usize / 8);
    let p = sym_str(PRN, case as usize % 8);
    let c = CompoundName::new(s.clone());
    let b = base(&s);
    check(c.full() == s, "a name is changed");
    check(c.base() == b, "the base of a name is something else");
    check(c.has_signature() == (b.len() < s.len()), "a signature is seen or missed wrongly");
    check(c.matches(&p) == fits(&s, &p), "a written name fits or not wrongly");
    check(c == CompoundName::new(s.clone()), "equal names differ");
    cover(3);
}
pub fn many_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for n in [9, 40, 260] {
        for k in 0..2 {
            v.push(n * 2 + k);
        }
    }
    v
}
/// Many declarations, two of which may clash, under consecutive anchors.
pub fn many(case: u32) {
    let (n, kind) = (case / 2, case as usize % 2);
    let mut t = SimpleExtensions::new();
    let mut m = Model::default();
    let (i, j) = (spot(n), spot(n));
    let (x, y) = [("h", "h"), ("h:i64", "h:i64"), ("h", "h:i64"), ("h:", "h:i64")][choice(4) as usize];
    let up = choice(2) == 1;
    for s in 0..n {
        let s = if up { s } else { n - 1 - s };
        let name = match s {
            s if s == i => String::from(x),
            s if s == j => y.into(),
            s => format!("f{s}"),
        };
        let u = 95 + s;
        check(t.add_extension_urn(format!("/{s}"), u) == m.add_urn(u, &format!("/{s}")), "inserting a URN answers something else than it should");
        check(t.add_extension(KIND[kind], u, 95 + s, name.clone()) == m.add(kind, u, 95 + s, &name), "inserting a declaration answers something else than it should");
    }
    let q = 95 + [0, i, j, n - 1][choice(4) as usize];
    let name = &m.at(kind, q).unwrap().name;
    match t.find_by_anchor(KIND[kind], q) {
        Ok((u, f)) => check((u == q) & (f.full() == *name), "an anchor leads to another declaration"),
        Err(_) => fail("a declaration is missed"),
    }
    let same = m.decls.iter().filter(|d| d.name == *name).count();
    check(t.is_name_unique(KIND[kind], q, name) == Ok(same == 1), "a name is unique or not, wrongly");
    let w = if same == 1 { Ok(q) } else { Err(MissingReference::DuplicateName(KIND[kind], name.clone())) };
    check(t.find_by_name(KIND[kind], name) == w, "a name leads to another anchor");
    if kind == 0 {
        let bases = m.decls.iter().filter(|d| base(&d.name) == base(name)).count();
        match t.lookup_function(q) {
            Ok(r) => check((r.name_unique == (same == 1)) & (r.base_name_unique == (bases == 1)), "a name is unique or not, wrongly"),
            Err(_) => fail("a declaration is missed"),
        }
    }
    let ds = t.to_extension_declarations();
    check(ds.len() == n as usize, "declarations are lost or repeated");
    for (s, d) in ds.iter().enumerate() {
        let (a, k, u, f) = key(d);
        let w = m.at(kind, 95 + s as u32).unwrap();
        check((a == w.anchor) & (k == kind) & (u == w.urn) & (f == w.name), "a declaration is changed or not in order");
    }
    let us = t.to_extension_urns();
    check(us.len() == n as usize && us.iter().enumerate().all(|(s, u)| u.extension_urn_anchor == 95 + s as u32), "URNs are lost or not in order");
}
