//! C11: Aggregate relations.
use super::gen_::*;
use super::rt::*;
use substrait::proto::aggregate_rel::{Grouping, Measure};
use substrait::proto::expression::RexType;
use substrait::proto::rel::RelType;
use substrait::proto::{AggregateRel, Expression, Plan, plan_rel};

/// The expressions to group by; the first may be the second.
const POOL: u32 = 8;
fn ex(k: u32) -> X {
    match k {
        0 => field(conc(below(3) as u64) as i32),
        1 => field(1),
        2 => call("f", 1, vec![field(0)], i64t()),
        3 => cast(field(0), simple(2, REQ), 1),
        4 => int(5),
        5 => if_then(vec![(field(0), int(5))], field(1)),
        6 => call("f", 1, vec![field(1)], i64t()),
        _ => call("f", 1, vec![], simple(4, NUL)),
    }
}
/// The measures; none of them is in the pool.
const MEASURES: u32 = 5;
fn me(k: u32) -> X {
    match k {
        0 => call("sum", 3, vec![field(1)], i64t()),
        1 => call("g", 2, vec![], simple(4, NUL)),
        2 => call("f", 1, vec![field(0)], simple(4, NUL)),
        3 => call("g", 2, vec![cast(field(0), simple(2, REQ), 1), call("f", 1, vec![int(5)], i64t())], simple(7, REQ)),
        _ => call("f", 1, vec![], i64t()),
    }
}
fn joined(v: &[X]) -> String {
    let mut s = String::new();
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        s.push_str(&x.x);
    }
    s
}
fn sets_text(sets: &[Vec<X>], parens: bool) -> String {
    let mut s = String::new();
    for (i, g) in sets.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        if g.is_empty() {
            s.push('_');
        } else if sets.len() == 1 && !parens {
            s.push_str(&joined(g));
        } else {
            s.push_str(&cat(&["(", &joined(g), ")"]));
        }
    }
    s
}
fn find(v: &[Expression], e: &Expression) -> Option<usize> {
    for (i, x) in v.iter().enumerate() {
        if x == e {
            return Some(i);
        }
    }
    None
}
fn shared(sets: &[Vec<X>]) -> (Vec<Grouping>, Vec<Expression>) {
    let mut es: Vec<Expression> = vec![];
    let mut gs = vec![];
    for g in sets {
        let mut r = vec![];
        for x in g {
            let i = match find(&es, &x.e) {
                Some(i) => i,
                None => {
                    es.push(x.e.clone());
                    es.len() - 1
                }
            };
            r.push(i as u32);
        }
        gs.push(Grouping { expression_references: r, ..Default::default() });
    }
    (gs, es)
}
/// The relation, or none if an output is neither grouped by nor a measure.
fn message(sets: &[Vec<X>], outs: &[X], child: R) -> Option<(AggregateRel, usize)> {
    let (groupings, es) = shared(sets);
    let mut measures: Vec<Measure> = vec![];
    let mut map = vec![];
    for o in outs {
        if let Some(i) = find(&es, &o.e) {
            map.push(i as i32);
        } else if matches!(o.e.rex_type, Some(RexType::ScalarFunction(_))) {
            map.push((es.len() + measures.len()) as i32);
            measures.push(measure(o));
        } else {
            return None;
        }
    }
    let n = es.len() + measures.len();
    let w = map.len();
    let a = AggregateRel {
        common: emit_of(&map, n),
        input: Some(Box::new(child.r)),
        grouping_expressions: es,
        groupings,
        measures,
        advanced_extension: None,
    };
    Some((a, w))
}
fn head(sets: &[Vec<X>], outs: &[X], parens: bool) -> String {
    cat(&["Aggregate[", &sets_text(sets, parens), " => ", &joined(outs), "]"])
}
fn agg(a: AggregateRel, w: usize, head: String, t: &R) -> R {
    R { l: under(head, &[], &[t]), r: rel(RelType::Aggregate(Box::new(a))), w }
}
fn table() -> R {
    tab("t", 3)
}
fn ok(sets: &[Vec<X>], outs: &[X]) {
    let Some((a, w)) = message(sets, outs, table()) else { fail("outputs") };
    let (p, x) = plan1(&ext1(), agg(a.clone(), w, head(sets, outs, false), &table()));
    agree(&p, &x);
    if sets.len() == 1 {
        // one set may be written like several
        let (p, x) = plan1(&ext1(), agg(a.clone(), w, head(sets, outs, true), &table()));
        parses_to(&x, &p);
    }
    old_style(&p, sets, &x);
}
/// Sets that hold their own expressions print the same text.
#[allow(deprecated)]
fn old_style(p: &Plan, sets: &[Vec<X>], x: &str) {
    let mut p = p.clone();
    let Some(plan_rel::RelType::Rel(r)) = &mut p.relations[0].rel_type else { fail("plan") };
    let Some(RelType::Aggregate(a)) = &mut r.rel_type else { fail("plan") };
    if sets.len() == 1 && sets[0].is_empty() {
        // no grouping at all
        a.groupings.clear();
    } else {
        for (g, s) in a.groupings.iter_mut().zip(sets) {
            g.expression_references.clear();
            g.grouping_expressions = s.iter().map(|x| x.e.clone()).collect();
        }
        a.grouping_expressions.clear();
    }
    let (out, errs) = substrait_explain::format(&p);
    check(errs.is_empty(), "formatting an aggregate with its own expressions in each set reported errors");
    check(same_text(&out, x), "an aggregate with its own expressions in each set is not printed like one with shared ones");
}
pub fn sets_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for n in 1..=(if th { 4 } else { 3 }) {
        for a in 0..=POOL {
            v.push(if th && n < 4 { 128 } else { 0 } + n * 16 + a);
        }
    }
    v
}
/// One to three (thorough: four) sets of up to two expressions each; the first
/// output is a reference to any of them, the second a measure.
pub fn sets(case: u32) {
    let n = case / 16 % 8;
    let first = case % 16;
    let deep = || case >= 128;
    let mut s: Vec<Vec<X>> = vec![];
    for i in 0..n {
        let mut g = vec![];
        if i == 0 {
            if first < POOL {
                g.push(ex(first));
                if (n < 3 || deep()) && choice(2) == 1 {
                    g.push(ex(choice(POOL)));
                }
            }
        } else {
            let pool = if n > 2 || !deep() { 4 } else { POOL };
            for _ in 0..choice(if n > 2 && !deep() { 2 } else { 3 }) {
                g.push(ex(choice(pool)));
            }
        }
        s.push(g);
    }
    let all: Vec<X> = s.iter().flatten().cloned().collect();
    let mut outs = vec![];
    if !all.is_empty() {
        outs.push(all[all.len() - 1].clone());
    }
    outs.push(me(0));
    ok(&s, &outs);
}
pub fn outputs_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for g in 0..GROUPS {
        for n in 0..=(if th { 4 } else { 3 }) {
            v.push(g * 8 + n);
        }
    }
    v
}
const GROUPS: u32 = 5;
fn group(g: u32) -> Vec<Vec<X>> {
    match g {
        0 => vec![vec![]],
        1 => vec![vec![field(2)]],
        2 => vec![vec![ex(2), field(1)]],
        3 => vec![vec![field(0)], vec![], vec![ex(3), field(0)]],
        _ => vec![vec![ex(4), ex(5), ex(7)]],
    }
}
/// Every list of up to three (thorough: four) outputs: any grouping expression or
/// measure, in any order and repeated.
pub fn outputs(case: u32) {
    let s = group(case / 8);
    let (_, es) = shared(&s);
    let all: Vec<X> = s.iter().flatten().cloned().collect();
    let mut outs = vec![];
    for _ in 0..case % 8 {
        let c = choice(es.len() as u32 + MEASURES);
        if (c as usize) < es.len() {
            let at = all.iter().position(|x| x.e == es[c as usize]);
            outs.push(all[at.unwrap_or(0)].clone());
        } else {
            outs.push(me(c - es.len() as u32));
        }
    }
    ok(&s, &outs);
}
pub fn foreign_cases(_: bool) -> Vec<u32> {
    (0..GROUPS * 2).collect()
}
/// An output that is neither is refused, wherever it is.
pub fn foreign(case: u32) {
    let s = group(case / 2);
    let o = match choice(7) {
        0 => field(conc(below(5) as u64) as i32),
        1 => int(conc(below(8) as u64) as i64),
        2 => cast(field(0), simple(2, NUL), 1),
        3 => cast(field(0), simple(2, REQ), choice(3) as i32),
        4 => if_then(vec![(field(0), int(5))], field(below(2) as i32)),
        5 => boolean(true),
        _ => cast(me(choice(MEASURES)), simple(2, REQ), 0),
    };
    let outs = if case % 2 == 0 { vec![o, me(0)] } else { vec![me(1), o] };
    let h = head(&s, &outs, choice(2) == 1);
    match message(&s, &outs, table()) {
        Some((a, w)) => {
            let (p, x) = plan1(&ext1(), agg(a, w, h, &table()));
            emit(&x);
            parses_to(&x, &p);
        }
        None => {
            let x = cat(&[&ext1().text(), "=== Plan\n", &lines(&under(h, &[], &[&table()]), 0)]);
            rejected(&x, "an output that is neither grouped by nor a measure is accepted");
        }
    }
}
pub fn printed_cases(_: bool) -> Vec<u32> {
    (0..9).collect()
}
/// Plans with any groupings, references and mapping print what they hold.
pub fn printed(case: u32) {
    let (n, m) = (1 + case / 3, case % 3);
    let es: Vec<X> = (0..n).map(|i| ex([2, 3, 0][i as usize])).collect();
    let ms: Vec<X> = (0..m).map(|i| me(i + 1)).collect();
    let nsets = choice(3);
    let mut s = vec![];
    let mut groupings = vec![];
    for _ in 0..nsets {
        let r: Vec<u32> = (0..choice(3)).map(|_| choice(n)).collect();
        s.push(r.iter().map(|i| es[*i as usize].clone()).collect::<Vec<X>>());
        groupings.push(Grouping { expression_references: r, ..Default::default() });
    }
    if nsets == 0 {
        s.push(vec![]);
    }
    let all: Vec<X> = es.iter().chain(&ms).cloned().collect();
    let k = if nsets == 2 { [0, 1, 3][choice(3) as usize] } else { choice(4) };
    let (common, outs) = if k == 3 {
        (if choice(2) == 0 { None } else { direct() }, all.clone())
    } else {
        let map: Vec<i32> = (0..k).map(|_| choice(n + m) as i32).collect();
        let o = map.iter().map(|i| all[*i as usize].clone()).collect();
        (emit_explicit(&map), o)
    };
    let a = AggregateRel {
        common,
        input: Some(Box::new(table().r)),
        grouping_expressions: es.iter().map(|x| x.e.clone()).collect(),
        groupings,
        measures: ms.iter().map(measure).collect(),
        advanced_extension: None,
    };
    let (p, x) = plan1(&ext1(), agg(a, outs.len(), head(&s, &outs, false), &table()));
    emit(&x);
    let (out, errs) = substrait_explain::format(&p);
    check(errs.is_empty(), "formatting an aggregate reported errors");
    check(same_text(&out, &x), "an aggregate is not printed as its sets and outputs");
    cover(3);
}
pub fn width_cases(_: bool) -> Vec<u32> {
    (0..GROUPS).collect()
}
/// The relation above sees as many columns as there are outputs.
pub fn width(case: u32) {
    let s = group(case);
    let all: Vec<X> = s.iter().flatten().cloned().collect();
    let mut outs: Vec<X> = vec![];
    for i in 0..choice(4) {
        outs.push(if all.is_empty() || choice(2) == 0 { me(i) } else { all[choice(all.len() as u32) as usize].clone() });
    }
    let Some((a, w)) = message(&s, &outs, table()) else { fail("outputs") };
    let inner = agg(a, w, head(&s, &outs, false), &table());
    let n = choice(inner.w as u32 + 1) as usize;
    let m = ident(n);
    let above = match choice(4) {
        0 => filter(boolean(true), &m, inner),
        1 => project(vec![P::Ex(int(7))], inner),
        2 => {
            let k = w + 2;
            cross(&ident(if n == 0 { k } else { n.min(k) }), tab("u", 2), inner)
        }
        _ => {
            // an aggregate of the aggregate
            let g = vec![vec![field(0)]];
            let o = vec![me(0), field(0)];
            let h = head(&g, &o, false);
            let l = under(h, &[], &[&inner]);
            let Some((a, w)) = message(&g, &o, inner) else { fail("outputs") };
            R { l, r: rel(RelType::Aggregate(Box::new(a))), w }
        }
    };
    let (p, x) = plan1(&ext1(), above);
    agree(&p, &x);
}
pub fn large_cases(th: bool) -> Vec<u32> {
    let mut v = vec![3, 7, 12, 40, 130, 260];
    if th {
        v.push(24);
    }
    v
}
/// Many expressions, sets and outputs, with any one repeated.
pub fn large(case: u32) {
    let n = case;
    let mut all: Vec<X> = (0..n)
        .map(|i| if i % 3 == 2 { call("f", 1, vec![field(i as i32)], i64t()) } else { field(i as i32) })
        .collect();
    let at = spot(n) as usize;
    let to = spot(n) as usize;
    all[to] = all[at].clone();
    let s: Vec<Vec<X>> = match choice(if n > 40 { 2 } else { 3 }) {
        0 => vec![all.clone()],
        1 => all.iter().map(|x| vec![x.clone()]).collect(),
        // rollup
        _ => (0..=n as usize).rev().map(|k| all[..k].to_vec()).collect(),
    };
    let mut outs = vec![];
    for (i, x) in all.iter().enumerate() {
        if i % 2 == 0 {
            outs.push(me(i as u32 / 2 % MEASURES));
        }
        outs.push(x.clone());
    }
    ok(&s, &outs);
}
