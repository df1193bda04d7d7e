//! C09: relations, C10: output mappings.
use super::gen_::*;
use super::rt::*;
use substrait::proto::plan_rel::RelType as PlanRelType;
use substrait::proto::rel::RelType;

fn cond() -> X {
    call("f", 1, vec![field(0)], simple(0, NUL))
}
/// Relation of kind `k` over `a` (and `b`), passing the columns `m`.
pub const KINDS: u32 = 8;
fn over(k: u32, m: &[i32], a: R, b: R) -> R {
    match k {
        0 => filter(cond(), m, a),
        1 => {
            let mut it: Vec<P> = m.iter().map(|i| P::Ref(*i)).collect();
            it.push(P::Ex(int(5)));
            project(it, a)
        }
        2 => sort(vec![(field(0), 0), (cond(), 3)], m, a),
        3 => fetch(Some(int(3)), None, m, a),
        4 => join(0, cond(), None, m, a, b),
        5 => cross(m, a, b),
        6 => set(7, m, vec![a, b]),
        _ => {
            // aggregate: group by the mapped references
            aggregate1(m, a)
        }
    }
}
/// `Aggregate[$.. => $.., sum($0):i64]` grouping by distinct references.
pub fn aggregate1(m: &[i32], a: R) -> R {
    let s = call("sum", 3, vec![field(0)], i64t());
    let mut groups: Vec<i32> = vec![];
    let mut refsv = vec![];
    for v in m {
        let mut at = groups.len();
        for (i, g) in groups.iter().enumerate() {
            if *g == *v {
                at = i;
                break;
            }
        }
        if at == groups.len() {
            groups.push(*v);
        }
        refsv.push(at as u32);
    }
    let g = refs(m);
    let head = if m.is_empty() {
        cat(&["Aggregate[_ => ", &s.x, "]"])
    } else {
        cat(&["Aggregate[", &g, " => ", &g, ", ", &s.x, "]"])
    };
    let mut map: Vec<i32> = refsv.iter().map(|x| *x as i32).collect();
    map.push(groups.len() as i32);
    let w = map.len();
    R {
        l: under(head, &[], &[&a]),
        r: rel(substrait::proto::rel::RelType::Aggregate(Box::new(substrait::proto::AggregateRel {
            common: emit_of(&map, groups.len() + 1),
            input: Some(Box::new(a.r)),
            grouping_expressions: groups.iter().map(|g| field_e(*g)).collect(),
            groupings: vec![substrait::proto::aggregate_rel::Grouping {
                expression_references: refsv,
                ..Default::default()
            }],
            measures: vec![measure(&s)],
            advanced_extension: None,
        }))),
        w,
    }
}
fn direct_width(k: u32, a: usize, b: usize) -> usize {
    match k {
        4 | 5 => a + b,
        _ => a,
    }
}
pub fn single_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..KINDS {
        for w in 1..=3 {
            for n in 0..=(if th { 4 } else { 3 }) {
                v.push(k * 64 + w * 8 + n);
            }
        }
    }
    v
}
/// Each relation over tables of up to three columns with any output mapping of
/// up to three (thorough: four) references.
pub fn single(case: u32) {
    let (k, w, n) = (case / 64, (case / 8 % 8) as usize, (case % 8) as usize);
    let b = if k == 6 { w } else { 2 };
    let m = sym_refs(n, direct_width(k, w, b));
    let (p, x) = plan1(&ext1(), over(k, &m, tab("t", w), tab("u", b)));
    agree(&p, &x);
}
pub fn pair_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..KINDS {
        for j in 0..KINDS {
            for side in 0..2 {
                if side == 0 || (4..=6).contains(&k) {
                    if th || side == 0 || j == k {
                        v.push(k * 64 + j * 8 + side);
                    }
                }
            }
        }
    }
    v
}
/// Each relation over each relation, with remapped outputs on both.
pub fn pair(case: u32) {
    let (k, j, side) = (case / 64, case / 8 % 8, case % 8);
    let dj = direct_width(j, 2, 2);
    let n = if j == 1 || j == 7 { 1 } else { 2 };
    let mj = sym_refs(n, dj);
    let inner = over(j, &mj, tab("t", 2), tab("u", 2));
    let (a, b) = if side == 0 { (inner, tab("v", 2)) } else { (tab("v", 2), inner) };
    let mk = sym_refs(2, direct_width(k, a.w, b.w));
    let (p, x) = plan_root(&ext1(), &["x", "y"], over(k, &mk, a, b));
    agree(&p, &x);
}
pub fn join_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for t in 0..12 {
        for w in 0..4 {
            v.push(t * 4 + w);
        }
    }
    v
}
/// Every join type, with its own output width, with and without a post filter.
pub fn joins(case: u32) {
    let t = (case / 4) as usize;
    let (a, b) = [(1, 1), (1, 2), (2, 1), (2, 2)][(case % 4) as usize];
    let w = join_width(t, a, b);
    let post = if choice(2) == 1 { Some(call("g", 2, vec![field(0)], simple(0, REQ))) } else { None };
    if choice(2) == 0 {
        // direct output
        let (mut p, x) = plan1(&ext1(), join(t, cond(), post, &ident(w), tab("t", a), tab("u", b)));
        agree(&p, &x);
        let Some(PlanRelType::Rel(r)) = &mut p.relations[0].rel_type else { fail("plan") };
        let Some(RelType::Join(j)) = &mut r.rel_type else { fail("plan") };
        j.common = direct();
        let (out, errs) = substrait_explain::format(&p);
        check(errs.is_empty(), "formatting a join with direct output reported errors");
        check(same_text(&out, &x), "a join with direct output does not list its own columns");
        return;
    }
    let m = sym_refs(choice(4) as usize, w);
    let (p, x) = plan1(&ext1(), join(t, cond(), post, &m, tab("t", a), tab("u", b)));
    agree(&p, &x);
}
pub fn set_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
pub fn sets(case: u32) {
    let n = 2 + choice(3) as usize;
    let w = 1 + choice(2) as usize;
    let kids = (0..n).map(|i| tab(["t", "u", "v", "w"][i], w)).collect();
    let m = sym_refs(choice(4) as usize, w);
    let (p, x) = plan1(&ext1(), set(case as usize, &m, kids));
    agree(&p, &x);
}
pub fn sort_cases(_: bool) -> Vec<u32> {
    (1..=3).collect()
}
/// Sort fields keep their order and direction.
pub fn sorts(case: u32) {
    let mut f = vec![];
    for _ in 0..case {
        let e = if choice(2) == 0 { field(below(3) as i32) } else { cond() };
        f.push((e, choice(5)));
    }
    let (p, x) = plan1(&ext1(), sort(f, &[1, 0], tab("t", 2)));
    agree(&p, &x);
}
pub fn fetch_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
pub fn fetches(case: u32) {
    let v = |i: u32| match i {
        0 => int(below(100) as i64),
        1 => field(0),
        _ => cond(),
    };
    let l = if case & 1 == 1 { Some(v(choice(3))) } else { None };
    let o = if case & 2 == 2 { Some(v(choice(3))) } else { None };
    let m = sym_refs(choice(3) as usize, 2);
    let (p, x) = plan1(&ext1(), fetch(l, o, &m, tab("t", 2)));
    agree(&p, &x);
}
pub fn virt_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for rows in 0..=(if th { 5 } else { 4 }) {
        for w in 0..=2 {
            for f in 0..2 {
                v.push(rows * 16 + w * 4 + f);
            }
        }
    }
    v
}
/// Virtual tables of any shape, both layouts.
pub fn virts(case: u32) {
    let (rows, w, f) = (case / 16, (case / 4 % 4) as usize, case % 4);
    let mut rs = vec![];
    for i in 0..rows {
        let mut r = vec![];
        for _ in 0..w {
            r.push(if i == 0 && choice(2) == 1 { cond() } else { int(below(10) as i64) });
        }
        rs.push(r);
    }
    let flt = if f == 1 { Some(cond()) } else { None };
    let (p, x) = plan1(&ext1(), virt(rs, flt, &cols(w)));
    agree(&p, &x);
}
pub fn project_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..=3u32 {
        for n in 0..=(if th { 5 } else { 4 }) {
            v.push(w * 8 + n);
        }
    }
    v
}
/// Projections mixing references and computed columns in any order.
pub fn projects(case: u32) {
    let (w, n) = ((case / 8) as usize, case % 8);
    let mut it = vec![];
    for _ in 0..n {
        if w > 0 && choice(2) == 0 {
            it.push(P::Ref(below(w as u32) as i32));
        } else {
            it.push(P::Ex(if choice(2) == 0 { int(below(10) as i64) } else { cond() }));
        }
    }
    let (p, x) = plan1(&ext1(), project(it, tab("t", w)));
    agree(&p, &x);
}
pub fn read_cases(_: bool) -> Vec<u32> {
    let mut v = vec![];
    for w in 0..=3 {
        for n in 0..=3 {
            v.push(w * 8 + n);
        }
    }
    v
}
/// Reads with an explicit emit keep it verbatim, even the identity; the
/// columns and the mapping are both kept.
pub fn reads(case: u32) {
    let (w, n) = ((case / 8) as usize, (case % 8) as usize);
    if w == 0 && n > 0 {
        return cover(3);
    }
    let m = sym_refs(n, w);
    let cs = cols(w);
    let mut r = read(&["s", "t"], &cs);
    r.r = read_rel_of(vec!["s".into(), "t".into()], &cs, emit_explicit(&m));
    r.l = vec![(0, cat(&["Read[s.t +> ", &columns(&cs), " |> ", &refs(&m), "]"]))];
    r.w = n;
    // the parent sees the emitted columns
    let mm = ident(n);
    let (p, x) = if choice(2) == 0 {
        // an empty trailing list leaves trailing text that is trimmed by the line reader only outside brackets
        plan1(&ext1(), r)
    } else {
        plan1(&ext1(), filter(boolean(true), &mm, r))
    };
    agree(&p, &x);
}
pub fn direct_cases(_: bool) -> Vec<u32> {
    (0..4).collect()
}
/// `+>` without a mapping is the direct output.
pub fn reads_direct(case: u32) {
    let w = case as usize;
    let (p, _) = plan1(&ext0(), tab("t", w));
    let x = cat(&["=== Plan\nRead[t +> ", &columns(&cols(w)), "]\n"]);
    emit(&x);
    parses_to(&x, &p);
}
pub fn roots_cases(th: bool) -> Vec<u32> {
    (1..=(if th { 4 } else { 3 })).collect()
}
/// Several relations and roots in one plan keep their order and content.
pub fn roots(n: u32) {
    let mut p = substrait::proto::Plan::default();
    let e = ext1();
    e.fill(&mut p);
    let mut x = cat(&[&e.text(), "=== Plan\n"]);
    for i in 0..n {
        if i > 0 {
            x.push('\n');
        }
        let r = match (i + choice(2)) % 3 {
            0 => tab("t", 1),
            1 => filter(cond(), &ident(2), tab("u", 2)),
            _ => tab("v", 2),
        };
        let names: &[&str] = match choice(4) {
            0 => {
                x.push_str(&lines(&r.l, 0));
                p.relations.push(plan_rel(r.r));
                continue;
            }
            1 => &[],
            2 => &["n1"],
            _ => &["n2", "n1"],
        };
        x.push_str("Root[");
        for (i, s) in names.iter().enumerate() {
            if i > 0 {
                x.push_str(", ");
            }
            x.push_str(s);
        }
        x.push_str("]\n");
        x.push_str(&lines(&r.l, 1));
        p.relations.push(root_rel(names.iter().map(|s| s.to_string()).collect(), r.r));
    }
    agree(&p, &x);
}

pub fn wide_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for k in 0..KINDS {
        for n in if th { vec![4, 5, 7, 9, 10, 11, 12, 13] } else { vec![5, 11, 12] } {
            for shape in 0..6 {
                v.push(k * 1024 + n * 8 + shape);
            }
        }
    }
    v
}
/// Wide inputs: mappings close to the identity, with every other reference at
/// one position (two-digit references, prefixes, extensions, swaps, repeats).
pub fn wide(case: u32) {
    let (k, n, shape) = (case / 1024, (case / 8 % 128) as usize, case % 8);
    let b = if k == 6 { n } else { 3 };
    let d = direct_width(k, n, b);
    let mut m = ident(d);
    match shape {
        0 => {}
        1 => m.truncate(d - 1 - choice(d as u32 - 1) as usize),
        2 => {
            let i = choice(d as u32) as usize;
            m[i] = below(d as u32) as i32;
        }
        3 => m.push(below(d as u32) as i32),
        4 => {
            let i = choice(d as u32 - 1) as usize;
            m.swap(i, i + 1);
        }
        _ => m.drain(..1 + choice(d as u32 - 1) as usize).for_each(|_| {}),
    }
    let (p, x) = plan1(&ext1(), over(k, &m, tab("t", n), tab("u", b)));
    agree(&p, &x);
}
pub fn large_cases(th: bool) -> Vec<u32> {
    let mut v = vec![];
    for what in 0..8 {
        for n in if th { vec![4, 6, 8, 9, 10, 11, 12, 16, 17, 20, 33, 40, 65, 130, 260] } else { vec![5, 9, 10, 12, 17, 40, 130, 260] } {
            // deep trees that large have no end
            if n < 200 || (what != 0 && what != 7) {
                v.push(what * 1024 + n);
            }
        }
    }
    v
}
/// Larger plans than the exhaustive ones, with one arbitrary part.
pub fn large(case: u32) {
    let (what, n) = (case / 1024, (case % 1024) as usize);
    let at = spot(n as u32) as usize;
    let r = match what {
        0 => {
            // a deep chain, one link of any kind
            let mut r = tab("t", 2);
            for i in 0..n {
                let k = if i == at { choice(KINDS) } else { i as u32 % 4 };
                let m = if k == 1 || k == 7 { vec![1] } else { vec![1, 0] };
                r = over(k, &m, r, tab("u", 2));
            }
            r
        }
        1 => {
            let mut kids: Vec<R> = (0..n).map(|_| tab("t", 2)).collect();
            kids[at] = filter(cond(), &[1, 0], tab("u", 2));
            set(choice(8) as usize, &[1, 0], kids)
        }
        2 => {
            let mut f: Vec<(X, u32)> = (0..n).map(|i| (field(i as i32), i as u32 % 4)).collect();
            f[at] = if choice(2) == 0 { (field(below(20) as i32), choice(5)) } else { (cond(), choice(5)) };
            sort(f, &[0], tab("t", 1))
        }
        3 => {
            let mut rows: Vec<Vec<X>> = (0..n).map(|i| vec![int(i as i64), int(7)]).collect();
            rows[at] = vec![int(below(1000) as i64), if choice(2) == 0 { cond() } else { boolean(true) }];
            let flt = if choice(2) == 0 { Some(cond()) } else { None };
            virt(rows, flt, &cols(2))
        }
        4 => {
            let mut row: Vec<X> = (0..n).map(|i| int(i as i64)).collect();
            row[at] = int(below(1000) as i64);
            virt(vec![row], None, &cols(n))
        }
        5 => {
            let mut it: Vec<P> = (0..n).map(|i| if i % 2 == 0 { P::Ref(i as i32 / 2) } else { P::Ex(int(i as i64)) }).collect();
            it[at] = if choice(2) == 0 { P::Ref(below(12) as i32) } else { P::Ex(cond()) };
            project(it, tab("t", 12.max(n)))
        }
        6 => {
            let mut m = ident(n);
            m[at] = below(n as u32) as i32;
            let cs = cols(n);
            let mut r = read(&["s", "t"], &cs);
            r.r = read_rel_of(vec!["s".into(), "t".into()], &cs, emit_explicit(&m));
            r.l = vec![(0, cat(&["Read[s.t +> ", &columns(&cs), " |> ", &refs(&m), "]"]))];
            r.w = n;
            filter(cond(), &ident(n), r)
        }
        _ => {
            // a deep tree on either side of joins
            let mut r = tab("t", 1);
            for i in 0..n {
                let left = if i == at { choice(2) == 0 } else { i % 2 == 0 };
                r = if left { join(0, cond(), None, &[1], r, tab("u", 1)) } else { cross(&[1], tab("u", 1), r) };
            }
            r
        }
    };
    let w = r.w;
    let names: Vec<String> = (0..w).map(|i| cat(&["n", &i.to_string()])).collect();
    let names: Vec<&str> = names.iter().map(|n| n.as_str()).collect();
    let (p, x) = plan_root(&ext1(), &names, r);
    agree(&p, &x);
}
/// Expressions of every form, with the values that code could treat specially.
fn pool(i: u32) -> X {
    match i {
        0 => boolean(true),
        1 => boolean(false),
        2 => X {
            e: lit(substrait::proto::expression::literal::LiteralType::Null(simple(0, NUL).t), false),
            x: "null:boolean?".into(),
        },
        3 => field(0),
        4 => field(1),
        5 => cond(),
        6 => call("g", 2, vec![], simple(0, REQ)),
        7 => cast(field(0), simple(0, REQ), 0),
        8 => if_then(vec![(boolean(true), field(0))], boolean(false)),
        9 => int(0),
        10 => int(1),
        _ => int(2 + below(100) as i64),
    }
}
pub fn value_cases(_: bool) -> Vec<u32> {
    (0..8).collect()
}
/// Any two expressions, equal ones included, at the places of each relation.
pub fn values(case: u32) {
    let (i, j) = (choice(12), choice(12));
    let (a, b) = (pool(i), pool(j));
    let (t, u) = (tab("t", 2), tab("u", 2));
    let r = match case {
        0 => filter(a, &[1, 0], filter(b, &[0, 1], t)),
        1 => join(choice(4) as usize, a, Some(b), &[1, 0], t, u),
        2 => join(0, a, None, &[0], t, sort(vec![(b, 2)], &[0, 1], u)),
        3 => sort(vec![(a, choice(4)), (b, choice(4))], &[1, 0], t),
        4 => fetch(Some(a), Some(b), &[1, 0], t),
        5 => {
            let it = vec![plain(a), P::Ex(int(5)), plain(b)];
            project(it, t)
        }
        6 => virt(vec![vec![a, int(7)], vec![b, int(7)]], if choice(2) == 0 { Some(pool(j)) } else { None }, &cols(2)),
        _ => filter(a, &[0, 1, 2, 3], cross(&[0, 1, 2, 3], filter(b, &[0, 1], tab("t", 2)), t)),
    };
    let (p, x) = plan1(&ext1(), r);
    agree(&p, &x);
}
/// A projected field reference is a mapping.
fn plain(x: X) -> P {
    match x.x.as_str() {
        "$0" => P::Ref(0),
        "$1" => P::Ref(1),
        _ => P::Ex(x),
    }
}
