//! Symbolic executor over the translated LLVM bitcode.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::{Res, Solver};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    f: Rc<Func>,
    regs: Vec<Val>,
    blk: u32,
    ip: u32,
    dst: u32,
    cont: Option<u32>,
    sp: u64,
}
#[derive(Clone)]
pub struct State {
    mem: Mem,
    frames: Vec<Rc<Frame>>,
    cur: Frame,
    sp: u64,
    heap: u64,
    last: u64,
    cons: Vec<E>,
    rg: Ranges,
    dom: FxMap<u32, [u64; 4]>,
    multi: BTreeSet<u32>,
    model: Vec<u128>,
    inputs: Vec<E>,
    emits: Vec<(u8, E)>,
    steps: u64,
}
#[derive(Debug)]
pub enum Stop {
    Done,
    Killed,
    Fail(String, String),
    Unsup(String),
}
impl From<Bad> for Stop {
    fn from(b: Bad) -> Stop {
        Stop::Unsup(format!("access to unmapped address {:#x}", b.0))
    }
}
type R<T> = Result<T, Stop>;

pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub place: String,
    pub inputs: Vec<(u32, u128)>,
    pub trace: Vec<String>,
}
pub struct Sample {
    pub inputs: Vec<(u32, u128)>,
    pub emit: Vec<u8>,
}
#[derive(Default)]
pub struct JobOut {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub steps: u64,
    pub violations: Vec<Violation>,
    pub samples: Vec<Sample>,
    pub covers: BTreeSet<u64>,
    pub incomplete: Option<String>,
}
pub struct Exec {
    pub p: Prog,
    pub pool: Pool,
    pub sv: Solver,
    base: Mem,
    work: Vec<State>,
    pub used: Vec<bool>,
    pub out: JobOut,
    pub z3_all: bool,
    started: Instant,
    pub prof: Option<FxMap<String, u64>>,
    pub max_steps: u64,
}
const STACK_TOP: u64 = STACK + (64 << 20);

fn bitset_and(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & b[0], a[1] & b[1], a[2] & b[2], a[3] & b[3]]
}
fn bitset_andn(a: &[u64; 4], b: &[u64; 4]) -> [u64; 4] {
    [a[0] & !b[0], a[1] & !b[1], a[2] & !b[2], a[3] & !b[3]]
}
fn first(a: &[u64; 4]) -> Option<u32> {
    // prefer printable values: they make readable counterexamples
    for i in (0x20..0x7f).chain(0..256) {
        if a[i >> 6] >> (i & 63) & 1 == 1 {
            return Some(i as u32);
        }
    }
    None
}
fn bounds(a: &[u64; 4]) -> (u128, u128) {
    let mut lo = 256;
    let mut hi = 0;
    for i in 0..256 {
        if a[i >> 6] >> (i & 63) & 1 == 1 {
            lo = lo.min(i);
            hi = hi.max(i);
        }
    }
    (lo as u128, hi as u128)
}
fn full(w: u32) -> [u64; 4] {
    let n = 1usize << w;
    let mut s = [0u64; 4];
    for i in 0..n {
        s[i >> 6] |= 1 << (i & 63);
    }
    s
}
fn m64(w: u32) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}
fn sx64(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

enum Dec {
    T,
    F,
    /// both feasible; the assignment makes the *other* side (not the current model's) true
    Both(bool, Vec<(u32, u128)>),
}

impl Exec {
    pub fn new(p: Prog, base: Mem, slow_ms: u32) -> Self {
        let n = p.fns.len();
        Exec {
            p,
            pool: Pool::new(),
            sv: Solver::new(slow_ms),
            base,
            work: vec![],
            used: vec![false; n],
            out: JobOut::default(),
            z3_all: false,
            started: Instant::now(),
            prof: None,
            max_steps: 400_000_000,
        }
    }

    pub fn run_job(&mut self, entry: &str, case: u64, budget_s: f64, nsamples: usize) -> JobOut {
        self.out = JobOut::default();
        let t0 = Instant::now();
        let Some(&id) = self.p.by_name.get(entry) else {
            self.out.incomplete = Some(format!("no function {entry}"));
            return std::mem::take(&mut self.out);
        };
        let f = self.p.func(id);
        let mut regs = vec![Val::I(0); f.nregs as usize];
        regs[0] = Val::I(case);
        let st = State {
            mem: self.base.clone(),
            frames: vec![],
            cur: Frame { f, regs, blk: 0, ip: 0, dst: NODST, cont: None, sp: STACK_TOP },
            sp: STACK_TOP,
            heap: HEAP + 4096,
            last: 0,
            cons: vec![],
            rg: Ranges::default(),
            dom: FxMap::default(),
            multi: BTreeSet::new(),
            model: vec![],
            inputs: vec![],
            emits: vec![],
            steps: 0,
        };
        self.work.clear();
        self.work.push(st);
        self.used[id as usize] = true;
        while let Some(mut st) = self.work.pop() {
            let s0 = st.steps;
            let deadline = budget_s - t0.elapsed().as_secs_f64();
            if deadline <= 0.0 {
                self.out.incomplete = Some(format!("time budget of {budget_s} s exhausted"));
                break;
            }
            let r = self.run(&mut st, Instant::now(), deadline);
            self.out.steps += st.steps - s0;
            match r {
                Stop::Done => {
                    self.out.paths += 1;
                    let k = self.out.paths;
                    if self.out.samples.len() < nsamples && (k <= 2 || k.is_power_of_two() || k % 37 == 0) {
                        let s = Sample { inputs: self.inputs(&st), emit: self.emit_bytes(&st) };
                        self.out.samples.push(s);
                    }
                }
                Stop::Killed => self.out.killed += 1,
                Stop::Fail(kind, msg) => {
                    self.out.paths += 1;
                    let trace = self.trace(&st);
                    let place = trace.iter().find(|n| n.contains("substrait_explain")).cloned().unwrap_or_default();
                    let same =
                        self.out.violations.iter().filter(|v| v.kind == kind && v.msg == msg && v.place == place).count();
                    if same < 3 && self.out.violations.len() < 40 {
                        let inputs = self.inputs(&st);
                        self.out.violations.push(Violation { kind, msg, place, inputs, trace });
                    }
                }
                Stop::Unsup(m) => {
                    let tr = self.trace(&st);
                    let m = format!("{m} in {}", tr.iter().take(6).cloned().collect::<Vec<_>>().join(" < "));
                    self.out.incomplete.get_or_insert(m);
                }
            }
        }
        self.work.clear();
        std::mem::take(&mut self.out)
    }
    fn inputs(&mut self, st: &State) -> Vec<(u32, u128)> {
        st.inputs.iter().map(|&e| (self.pool.w(e), self.pool.eval(e, &st.model))).collect()
    }
    fn emit_bytes(&mut self, st: &State) -> Vec<u8> {
        st.emits.iter().map(|&(b, e)| if e == 0 { b } else { self.pool.eval(e, &st.model) as u8 }).collect()
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.p.fns[st.cur.f.id as usize].name.clone()];
        for f in st.frames.iter().rev() {
            v.push(self.p.fns[f.f.id as usize].name.clone());
        }
        v
    }

    // ------------------------------------------------------------- deciding
    fn simp(&mut self, st: &State, c: E) -> E {
        match *self.pool.k(c) {
            K::Cmp(op, a, b) => self.pool.mk_cmp(op, a, b, &st.rg),
            K::Not(x) => {
                let y = self.simp(st, x);
                if y != x { self.pool.mk_not(y) } else { c }
            }
            K::Bin(Op::And, a, b) if self.pool.w(c) == 1 => {
                let (x, y) = (self.simp(st, a), self.simp(st, b));
                if x != a || y != b { self.pool.mk_and(x, y, &st.rg) } else { c }
            }
            K::Bin(Op::Or, a, b) if self.pool.w(c) == 1 => {
                let (x, y) = (self.simp(st, a), self.simp(st, b));
                if x != a || y != b { self.pool.mk_or(x, y, &st.rg) } else { c }
            }
            _ => c,
        }
    }
    fn known(&mut self, st: &State, c: E) -> Option<bool> {
        if let Some(v) = self.pool.is_const(c) {
            return Some(v == 1);
        }
        if let Some(&(a, b)) = st.rg.get(&c)
            && a == b
        {
            return Some(a == 1);
        }
        let n = self.pool.mk_not(c);
        if let Some(&(a, b)) = st.rg.get(&n)
            && a == b
        {
            return Some(a == 0);
        }
        None
    }
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut vars: BTreeSet<u32> = self.pool.sup(c).iter().copied().collect();
        let mut taken = vec![false; st.cons.len()];
        let mut out = vec![];
        loop {
            let mut grew = false;
            for (i, &k) in st.cons.iter().enumerate() {
                if taken[i] {
                    continue;
                }
                let s = self.pool.sup(k);
                if s.iter().any(|v| vars.contains(v)) {
                    taken[i] = true;
                    out.push(k);
                    for v in s.iter() {
                        if vars.insert(*v) {
                            grew = true;
                        }
                    }
                }
            }
            if !grew {
                break;
            }
        }
        out
    }
    fn decide(&mut self, st: &State, c0: E) -> R<Dec> {
        if let Some(v) = self.known(st, c0) {
            return Ok(if v { Dec::T } else { Dec::F });
        }
        let mut c = c0;
        if !self.z3_all {
            c = self.simp(st, c0);
            if let Some(v) = self.known(st, c) {
                self.sv.range_decisions += 1;
                return Ok(if v { Dec::T } else { Dec::F });
            }
            if let Some((v, t)) = self.pool.truth_set(c) {
                let d = st.dom.get(&v).copied().unwrap_or_else(|| full(self.pool.var_w[v as usize]));
                let (a, b) = (bitset_and(&d, &t), bitset_andn(&d, &t));
                let (fa, fb) = (first(&a), first(&b));
                if fa.is_none() || fb.is_none() {
                    self.sv.fd_decisions += 1;
                    if self.sv.fd_decisions % 256 == 1 {
                        let other = if fb.is_none() { self.pool.mk_not(c) } else { c };
                        let q = self.slice(st, c);
                        self.cross_check(st, q, other, false);
                    }
                    return Ok(if fb.is_none() { Dec::T } else { Dec::F });
                }
                if !st.multi.contains(&v) {
                    self.sv.fd_decisions += 1;
                    let mv = self.pool.eval(c, &st.model) == 1;
                    let o = if mv { fb } else { fa }.unwrap();
                    return Ok(Dec::Both(mv, vec![(v, o as u128)]));
                }
            } else {
                let mut memo = FxMap::default();
                c = self.pool.resimp(c, &st.rg, &mut memo);
                if let Some(v) = self.known(st, c) {
                    self.sv.range_decisions += 1;
                    return Ok(if v { Dec::T } else { Dec::F });
                }
            }
        }
        let mv = self.pool.eval(c, &st.model) == 1;
        let other = if mv { self.pool.mk_not(c) } else { c };
        let mut q = self.slice(st, c);
        let mut size = None;
        if !self.z3_all {
            size = self.domain(st, &q, c);
            if let Some((n, _)) = &size
                && n * (q.len() + 1) <= 20_000
            {
                let d = size.unwrap().1;
                let r = self.enumerate(&q, c, mv, &d);
                self.cross_check(st, q, other, matches!(r, Dec::Both(..)));
                return Ok(r);
            }
        }
        let q0 = q.clone();
        q.push(other);
        match self.sv.check(&self.pool, &q, size.is_none()) {
            Res::Sat(m) => Ok(Dec::Both(mv, m)),
            Res::Unsat => Ok(if mv { Dec::T } else { Dec::F }),
            Res::Unknown => match size {
                Some((_, d)) => Ok(self.enumerate(&q0, c, mv, &d)),
                None => Err(Stop::Unsup("solver timeout".into())),
            },
        }
    }
    /// Ask Z3 about a sample of the decisions made by evaluation.
    fn cross_check(&mut self, _st: &State, mut q: Vec<E>, other: E, sat: bool) {
        if self.sv.fd_decisions % 16 != 1 || self.sv.cross_s > 1.0 + 0.1 * self.started.elapsed().as_secs_f64() {
            return;
        }
        q.push(other);
        let t = Instant::now();
        let r = self.sv.check(&self.pool, &q, false);
        self.sv.cross_s += t.elapsed().as_secs_f64();
        match r {
            Res::Unknown => self.sv.unknown -= 1,
            Res::Sat(_) if sat => self.sv.crossed += 1,
            Res::Unsat if !sat => self.sv.crossed += 1,
            _ => panic!("Z3 and evaluation disagree"),
        }
    }
    /// The values of the variables of a query, when there are few enough
    /// combinations to decide it by evaluating it on all of them.
    fn domain(&mut self, st: &State, q: &[E], c: E) -> Option<(usize, Vec<(u32, Vec<u128>)>)> {
        let mut vars: BTreeSet<u32> = self.pool.sup(c).iter().copied().collect();
        for &k in q {
            vars.extend(self.pool.sup(k).iter());
        }
        let mut n = 1usize;
        let mut out = vec![];
        for v in vars {
            let w = self.pool.var_w[v as usize];
            let vals: Vec<u128> = if w <= 8 {
                let d = st.dom.get(&v).copied().unwrap_or_else(|| full(w));
                (0..256u128).filter(|i| d[(*i >> 6) as usize] >> (i & 63) & 1 == 1).collect()
            } else {
                let ve = self.pool.intern(K::Var(v), w);
                let (lo, hi) = self.pool.range(ve, &st.rg);
                if hi - lo > 1000 {
                    return None;
                }
                (lo..=hi).collect()
            };
            n = n.checked_mul(vals.len())?;
            if n > 40_000 {
                return None;
            }
            out.push((v, vals));
        }
        Some((n, out))
    }
    fn enumerate(&mut self, q: &[E], c: E, mv: bool, dom: &[(u32, Vec<u128>)]) -> Dec {
        self.sv.fd_decisions += 1;
        let top = dom.iter().map(|d| d.0).max().unwrap_or(0) as usize;
        let mut md = vec![0u128; top + 1];
        let mut ix = vec![0usize; dom.len()];
        for (v, vals) in dom {
            if vals.is_empty() {
                return if mv { Dec::T } else { Dec::F };
            }
            md[*v as usize] = vals[0];
        }
        loop {
            if (self.pool.eval(c, &md) == 1) != mv && q.iter().all(|&k| self.pool.eval(k, &md) == 1) {
                return Dec::Both(mv, dom.iter().map(|(v, _)| (*v, md[*v as usize])).collect());
            }
            let mut i = 0;
            loop {
                if i == dom.len() {
                    return if mv { Dec::T } else { Dec::F };
                }
                ix[i] += 1;
                if ix[i] < dom[i].1.len() {
                    md[dom[i].0 as usize] = dom[i].1[ix[i]];
                    break;
                }
                ix[i] = 0;
                md[dom[i].0 as usize] = dom[i].1[0];
                i += 1;
            }
        }
    }
    /// Add a constraint already known feasible under st.model.
    fn add_con(&mut self, st: &mut State, e: E) {
        if self.pool.is_const(e).is_some() {
            return;
        }
        if let K::Bin(Op::And, a, b) = *self.pool.k(e) {
            self.add_con(st, a);
            self.add_con(st, b);
            st.rg.insert(e, (1, 1));
            return;
        }
        if let K::Not(x) = *self.pool.k(e)
            && let K::Bin(Op::Or, a, b) = *self.pool.k(x)
        {
            let (a, b) = (self.pool.mk_not(a), self.pool.mk_not(b));
            self.add_con(st, a);
            self.add_con(st, b);
            st.rg.insert(e, (1, 1));
            return;
        }
        st.cons.push(e);
        if let Some((v, t)) = self.pool.truth_set(e) {
            let w = self.pool.var_w[v as usize];
            let d = st.dom.get(&v).copied().unwrap_or_else(|| full(w));
            let n = bitset_and(&d, &t);
            st.dom.insert(v, n);
            let (lo, hi) = bounds(&n);
            if lo <= hi {
                let ve = self.pool.intern(K::Var(v), w);
                st.rg.insert(ve, (lo, hi));
            }
        } else {
            for &v in self.pool.sup(e).iter() {
                st.multi.insert(v);
            }
            self.pool.refine(&mut st.rg, e, true);
        }
        st.rg.insert(e, (1, 1));
    }
    fn set_model(st: &mut State, m: &[(u32, u128)]) {
        for &(v, x) in m {
            if st.model.len() <= v as usize {
                st.model.resize(v as usize + 1, 0);
            }
            st.model[v as usize] = x;
        }
    }
    /// Decide a branch condition; forks when both sides are feasible (the other
    /// side re-executes the current instruction under the opposite constraint).
    fn branch(&mut self, st: &mut State, c: E) -> R<bool> {
        match self.decide(st, c)? {
            Dec::T => Ok(true),
            Dec::F => Ok(false),
            Dec::Both(mv, m) => {
                let n = self.pool.mk_not(c);
                let (mine, theirs) = if mv { (c, n) } else { (n, c) };
                let mut o = st.clone();
                Self::set_model(&mut o, &m);
                self.add_con(&mut o, theirs);
                self.work.push(o);
                self.out.forks += 1;
                if let Some(p) = &mut self.prof {
                    let nm = &self.p.fns[st.cur.f.id as usize].name;
                    *p.entry(nm.clone()).or_default() += 1;
                }
                self.add_con(st, mine);
                Ok(mv)
            }
        }
    }
    /// Floating-point operations are not encoded: go on with one value of the
    /// operand only. What that finds is real; the case counts as cut short.
    fn pin(&mut self, st: &mut State, v: Val) -> Val {
        let Val::S(e) = v else { return v };
        let (l, h) = self.pool.range(e, &st.rg);
        if l == h {
            return Val::I(l as u64);
        }
        let x = self.pool.eval(e, &st.model);
        let w = self.pool.w(e);
        let k = self.pool.cst(x, w);
        let rg = std::mem::take(&mut st.rg);
        let c = self.pool.mk_cmp(Cmp::Eq, e, k, &rg);
        st.rg = rg;
        self.add_con(st, c);
        if self.out.incomplete.is_none() {
            let tr = self.trace(st);
            self.out.incomplete = Some(format!("floating-point arithmetic on a symbolic value (one value tried) in {}", tr[0]));
        }
        Val::I(x as u64)
    }
    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x),
            Val::S(e) => {
                let e = *e;
                let (l, h) = self.pool.range(e, &st.rg);
                if l == h {
                    return Ok(l as u64);
                }
                if let K::Ite(c, a, b) = *self.pool.k(e) {
                    let t = self.branch(st, c)?;
                    let x = if t { a } else { b };
                    let x = self.from_e(x);
                    return self.conc(st, &x);
                }
                let x = self.pool.eval(e, &st.model);
                let w = self.pool.w(e);
                let k = self.pool.cst(x, w);
                let rg = std::mem::take(&mut st.rg);
                let c = self.pool.mk_cmp(Cmp::Eq, e, k, &rg);
                st.rg = rg;
                let b = self.branch(st, c)?;
                if !b {
                    return Err(Stop::Unsup("concretize: model mismatch".into()));
                }
                Ok(x as u64)
            }
            Val::W(x) => Ok(**x as u64),
            Val::A(_) => Err(Stop::Unsup("concretize aggregate".into())),
        }
    }

    // --------------------------------------------------------------- values
    fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::I(x) => self.pool.cst(*x as u128, w),
            Val::S(e) => *e,
            Val::W(x) => self.pool.cst(**x, w),
            Val::A(_) => panic!("aggregate as scalar"),
        }
    }
    fn from_e(&self, e: E) -> Val {
        match self.pool.is_const(e) {
            Some(v) => {
                if self.pool.w(e) > 64 {
                    Val::W(Rc::new(v))
                } else {
                    Val::I(v as u64)
                }
            }
            None => Val::S(e),
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> Val {
        match o {
            Opd::R(r) => st.cur.regs[*r as usize].clone(),
            Opd::K(k) => Val::I(*k),
            Opd::V(v) => v.clone(),
        }
    }
    fn bin(&mut self, st: &State, op: B, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match op {
                B::Add => x.wrapping_add(y),
                B::Sub => x.wrapping_sub(y),
                B::Mul => x.wrapping_mul(y),
                B::And => x & y,
                B::Or => x | y,
                B::Xor => x ^ y,
                B::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                B::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                B::AShr => (sx64(x, w) >> y.min(w as u64 - 1)) as u64,
                B::UDiv | B::URem | B::SDiv | B::SRem if y == 0 => return Err(Stop::Unsup("division by zero".into())),
                B::UDiv => x / y,
                B::URem => x % y,
                B::SDiv => sx64(x, w).wrapping_div(sx64(y, w)) as u64,
                B::SRem => sx64(x, w).wrapping_rem(sx64(y, w)) as u64,
            };
            return Ok(Val::I(r & m64(w)));
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let p = &mut self.pool;
        let r = &st.rg;
        let e = match op {
            B::Add => p.mk_add(x, y, r),
            B::Sub => p.mk_sub(x, y, r),
            B::Mul => p.mk_mul(x, y, r),
            B::And => p.mk_and(x, y, r),
            B::Or => p.mk_or(x, y, r),
            B::Xor => p.mk_xor(x, y, r),
            B::Shl => p.mk_shift(Op::Shl, x, y, r),
            B::LShr => p.mk_shift(Op::LShr, x, y, r),
            B::AShr => p.mk_shift(Op::AShr, x, y, r),
            B::UDiv => p.mk_udiv(x, y, r),
            B::URem => p.mk_urem(x, y, r),
            B::SDiv => p.mk_sdiv(x, y, r),
            B::SRem => p.mk_srem(x, y, r),
        };
        Ok(self.from_e(e))
    }
    fn icmp(&mut self, st: &State, p: P, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (s, t) = (sx64(x, w), sx64(y, w));
            return Val::I(match p {
                P::Eq => x == y,
                P::Ne => x != y,
                P::Ugt => x > y,
                P::Uge => x >= y,
                P::Ult => x < y,
                P::Ule => x <= y,
                P::Sgt => s > t,
                P::Sge => s >= t,
                P::Slt => s < t,
                P::Sle => s <= t,
            } as u64);
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        let q = &mut self.pool;
        let r = &st.rg;
        let e = match p {
            P::Eq => q.mk_cmp(Cmp::Eq, x, y, r),
            P::Ne => {
                let e = q.mk_cmp(Cmp::Eq, x, y, r);
                q.mk_not(e)
            }
            P::Ugt => q.mk_cmp(Cmp::Ult, y, x, r),
            P::Uge => q.mk_cmp(Cmp::Ule, y, x, r),
            P::Ult => q.mk_cmp(Cmp::Ult, x, y, r),
            P::Ule => q.mk_cmp(Cmp::Ule, x, y, r),
            P::Sgt => q.mk_cmp(Cmp::Slt, y, x, r),
            P::Sge => q.mk_cmp(Cmp::Sle, y, x, r),
            P::Slt => q.mk_cmp(Cmp::Slt, x, y, r),
            P::Sle => q.mk_cmp(Cmp::Sle, x, y, r),
        };
        self.from_e(e)
    }
    fn cast(&mut self, st: &State, k: C, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if let (Ty::Vec(n, a), Ty::Vec(m, b)) = (from, to)
            && n == m
            && let Val::A(x) = v
        {
            let mut o = vec![];
            for e in x.iter() {
                o.push(self.cast(st, k, a, b, e)?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        if k == C::Bit {
            return self.bitcast(st, from, to, v);
        }
        let (fw, tw) = (from.w(), to.w());
        match k {
            C::Trunc | C::ZExt | C::SExt => {
                if let Val::I(x) = v
                    && tw <= 64
                {
                    return Ok(Val::I(match k {
                        C::SExt => sx64(*x, fw) as u64 & m64(tw),
                        _ => *x & m64(tw),
                    }));
                }
                let e = self.to_e(v, fw);
                let r = match k {
                    C::Trunc => self.pool.mk_extract(e, 0, tw, &st.rg),
                    C::ZExt => self.pool.mk_zext(e, tw, &st.rg),
                    _ => self.pool.mk_sext(e, tw, &st.rg),
                };
                Ok(self.from_e(r))
            }
            _ => {
                let x = match v {
                    Val::I(x) => *x,
                    _ => return Err(Stop::Unsup("symbolic float conversion".into())),
                };
                let asf = |t: &Ty, x: u64| if *t == Ty::F32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x) };
                let r = match k {
                    C::FpToUi => (asf(from, x) as u64) & m64(tw),
                    C::FpToSi => (asf(from, x) as i64) as u64 & m64(tw),
                    C::UiToFp => {
                        if *to == Ty::F32 {
                            (x as f32).to_bits() as u64
                        } else {
                            (x as f64).to_bits()
                        }
                    }
                    C::SiToFp => {
                        let s = sx64(x, fw);
                        if *to == Ty::F32 { (s as f32).to_bits() as u64 } else { (s as f64).to_bits() }
                    }
                    C::FpTrunc => (f64::from_bits(x) as f32).to_bits() as u64,
                    C::FpExt => (f32::from_bits(x as u32) as f64).to_bits(),
                    _ => unreachable!(),
                };
                Ok(Val::I(r))
            }
        }
    }
    fn flatten(&mut self, st: &State, t: &Ty, v: &Val) -> E {
        match (t, v) {
            (Ty::Vec(_, et), Val::A(x)) => {
                let mut acc = None;
                for e in x.iter() {
                    let y = self.flatten(st, et, e);
                    acc = Some(match acc {
                        None => y,
                        Some(a) => self.pool.mk_concat(y, a, &st.rg),
                    });
                }
                acc.unwrap()
            }
            _ => self.to_e(v, t.w()),
        }
    }
    fn bitcast(&mut self, st: &State, from: &Ty, to: &Ty, v: &Val) -> R<Val> {
        if !matches!(from, Ty::Vec(..)) && !matches!(to, Ty::Vec(..)) {
            return Ok(v.clone());
        }
        let e = self.flatten(st, from, v);
        match to {
            Ty::Vec(n, et) => {
                let w = et.w();
                let mut o = vec![];
                for i in 0..*n {
                    let x = self.pool.mk_extract(e, i * w, w, &st.rg);
                    o.push(self.from_e(x));
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => Ok(self.from_e(e)),
        }
    }

    // --------------------------------------------------------------- memory
    fn sbyte(&mut self, st: &State, b: u8, e: E) -> Val {
        if e == 0 {
            return Val::I(b as u64);
        }
        let (l, h) = self.pool.range(e, &st.rg);
        if l == h {
            return Val::I(l as u64);
        }
        if let K::Extract(x, lo) = *self.pool.k(e) {
            let y = self.pool.mk_extract(x, lo, 8, &st.rg);
            return self.from_e(y);
        }
        self.from_e(e)
    }
    fn load_int(&mut self, st: &State, a: u64, w: u32) -> R<Val> {
        let n = w.div_ceil(8) as usize;
        if n <= 8 {
            if let Some(v) = st.mem.read_u(a, n)? {
                return Ok(Val::I(v & m64(w)));
            }
        }
        // symbolic (or wide)
        let mut parts: Vec<(u8, E)> = vec![];
        for i in 0..n {
            parts.push(st.mem.byte(a + i as u64)?);
        }
        if n == 1 {
            let v = self.sbyte(st, parts[0].0, parts[0].1);
            if w == 8 {
                return Ok(v);
            }
            let e = self.to_e(&v, 8);
            let e = self.pool.mk_extract(e, 0, w, &st.rg);
            return Ok(self.from_e(e));
        }
        // merge runs
        let mut acc: Option<E> = None;
        let mut i = 0;
        while i < n {
            let (b, e) = parts[i];
            let piece;
            let mut j = i + 1;
            if e == 0 {
                let mut v = b as u128;
                while j < n && parts[j].1 == 0 {
                    v |= (parts[j].0 as u128) << (8 * (j - i));
                    j += 1;
                }
                piece = self.pool.cst(v, 8 * (j - i) as u32);
            } else if let K::Extract(x, lo) = *self.pool.k(e) {
                while j < n
                    && let K::Extract(y, l2) = *self.pool.k(parts[j].1)
                    && parts[j].1 != 0
                    && y == x
                    && l2 == lo + 8 * (j - i) as u32
                {
                    j += 1;
                }
                piece = self.pool.mk_extract(x, lo, 8 * (j - i) as u32, &st.rg);
            } else {
                let v = self.sbyte(st, b, e);
                piece = self.to_e(&v, 8);
            }
            acc = Some(match acc {
                None => piece,
                Some(a) => self.pool.mk_concat(piece, a, &st.rg),
            });
            i = j;
        }
        let mut e = acc.unwrap();
        if self.pool.w(e) > w {
            e = self.pool.mk_extract(e, 0, w, &st.rg);
        }
        let (l, h) = self.pool.range(e, &st.rg);
        if l == h {
            return Ok(if w > 64 { Val::W(Rc::new(l)) } else { Val::I(l as u64) });
        }
        Ok(self.from_e(e))
    }
    fn load(&mut self, st: &State, a: u64, t: &Ty) -> R<Val> {
        match t {
            Ty::Int(w) => self.load_int(st, a, *w),
            Ty::F32 => self.load_int(st, a, 32),
            Ty::F64 => self.load_int(st, a, 64),
            Ty::Agg(f, _) => {
                let mut o = vec![];
                for (off, t) in f.iter() {
                    o.push(self.load(st, a + off, t)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Ty::Vec(n, et) => {
                let w = et.w();
                let mut o = vec![];
                if w % 8 != 0 {
                    let v = self.load_int(st, a, w * n)?;
                    return self.bitcast(st, &Ty::Int(w * n), t, &v);
                }
                for i in 0..*n {
                    o.push(self.load(st, a + (i * w / 8) as u64, et)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            Ty::Void => Ok(Val::I(0)),
        }
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u32, v: &Val) -> R<()> {
        let n = w.div_ceil(8);
        match v {
            Val::I(x) if n <= 8 => {
                st.mem.write_u(a, n as usize, *x & m64(w))?;
            }
            Val::S(e) => {
                let mut e = *e;
                if w % 8 != 0 {
                    e = self.pool.mk_zext(e, n * 8, &st.rg);
                }
                for i in 0..n {
                    let b = if n == 1 { e } else { self.pool.raw_extract(e, 8 * i, 8) };
                    match self.pool.is_const(b) {
                        Some(c) => st.mem.set_byte(a + i as u64, c as u8, 0)?,
                        None => st.mem.set_byte(a + i as u64, 0, b)?,
                    }
                }
            }
            _ => {
                let x = match v {
                    Val::I(x) => *x as u128,
                    Val::W(x) => **x,
                    _ => return Err(Stop::Unsup("store aggregate as int".into())),
                };
                for i in 0..n {
                    st.mem.set_byte(a + i as u64, (x >> (8 * i)) as u8, 0)?;
                }
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, t: &Ty, v: &Val) -> R<()> {
        match t {
            Ty::Int(w) => self.store_int(st, a, *w, v),
            Ty::F32 => self.store_int(st, a, 32, v),
            Ty::F64 => self.store_int(st, a, 64, v),
            Ty::Agg(f, _) => {
                let Val::A(x) = v else { return Err(Stop::Unsup("store agg".into())) };
                for (i, (off, t)) in f.iter().enumerate() {
                    self.store(st, a + off, t, &x[i])?;
                }
                Ok(())
            }
            Ty::Vec(n, et) => {
                let w = et.w();
                if w % 8 != 0 {
                    let x = self.bitcast(st, t, &Ty::Int(w * n), v)?;
                    return self.store_int(st, a, w * n, &x);
                }
                let Val::A(x) = v else { return Err(Stop::Unsup("store vec".into())) };
                for i in 0..*n {
                    self.store(st, a + (i * w / 8) as u64, et, &x[i as usize])?;
                }
                Ok(())
            }
            Ty::Void => Ok(()),
        }
    }
    /// Load through a symbolic pointer: table look-up when the index range is small.
    fn load_sym(&mut self, st: &mut State, pe: E, t: &Ty) -> R<Val> {
        let w = t.w();
        let (atom, coef, base) = match self.pool.k(pe) {
            K::Lin(ts, c) if ts.len() == 1 => (ts[0].0, ts[0].1, *c),
            K::Var(_) | K::ZExt(_) | K::Bin(..) => (pe, 1, 0),
            _ => {
                if std::env::var("SYMEX_SLOWQ").is_ok() {
                    eprintln!("address {}", self.pool.show(pe));
                }
                let a = self.conc(st, &Val::S(pe))?;
                return self.load(st, a, t);
            }
        };
        let (lo, hi) = self.pool.range(atom, &st.rg);
        if w == 0 || w > 64 || hi - lo > 512 {
            if std::env::var("SYMEX_SLOWQ").is_ok() {
                eprintln!("address {} {lo}..{hi}", self.pool.show(pe));
            }
            let a = self.conc(st, &Val::S(pe))?;
            return self.load(st, a, t);
        }
        let mut tab: Vec<u64> = vec![];
        for i in lo..=hi {
            let a = base.wrapping_add(coef.wrapping_mul(i)) as u64;
            match st.mem.read_u(a, w.div_ceil(8) as usize) {
                Ok(Some(v)) => tab.push(v & m64(w)),
                _ => {
                    let a = self.conc(st, &Val::S(pe))?;
                    return self.load(st, a, t);
                }
            }
        }
        if w % 8 == 0 && w > 8 && w <= 32 {
            // decimal digit-pair tables and the like: try byte-wise closed forms
            let mut acc = None;
            let mut ok = true;
            for b in 0..w / 8 {
                let col: Vec<u64> = tab.iter().map(|x| (x >> (8 * b)) & 255).collect();
                match self.closed(st, atom, lo, &col, 8) {
                    Some(e) => {
                        acc = Some(match acc {
                            None => e,
                            Some(a) => self.pool.mk_concat(e, a, &st.rg),
                        })
                    }
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            if ok {
                return Ok(self.from_e(acc.unwrap()));
            }
        }
        if let Some(e) = self.closed(st, atom, lo, &tab, w) {
            return Ok(self.from_e(e));
        }
        // run-compressed ITE chain
        let aw = self.pool.w(atom);
        let mut e = self.pool.cst(*tab.last().unwrap() as u128, w);
        let mut i = tab.len() - 1;
        while i > 0 {
            if tab[i - 1] != tab[i] {
                let k = self.pool.cst(lo + i as u128, aw);
                let c = self.pool.mk_cmp(Cmp::Ult, atom, k, &st.rg);
                let v = self.pool.cst(tab[i - 1] as u128, w);
                // everything below i: rebuilt in later iterations
                e = self.pool.mk_ite(c, v, e, &st.rg);
            }
            i -= 1;
        }
        Ok(self.from_e(e))
    }
    fn closed(&mut self, st: &State, atom: E, lo: u128, tab: &[u64], w: u32) -> Option<E> {
        let m = m64(w);
        if tab.iter().all(|x| *x == tab[0]) {
            return Some(self.pool.cst(tab[0] as u128, w));
        }
        let aw = self.pool.w(atom);
        let lin = |d: u64| tab.windows(2).all(|p| p[1] == p[0].wrapping_add(d) & m);
        let d = tab[1].wrapping_sub(tab[0]) & m;
        if lin(d) {
            let a = self.pool.resize(atom, w, &st.rg);
            let c = (tab[0] as u128).wrapping_sub(lo.wrapping_mul(d as u128)) & mask(w);
            return Some(self.pool.mk_lin(vec![(a, d as u128)], c, w, &st.rg));
        }
        for (div, f) in [(true, 48u64), (false, 48u64)] {
            let ok = tab.iter().enumerate().all(|(i, x)| {
                let v = lo as u64 + i as u64;
                *x == f + if div { v / 10 } else { v % 10 }
            });
            if ok {
                let ten = self.pool.cst(10, aw);
                let q = if div { self.pool.mk_udiv(atom, ten, &st.rg) } else { self.pool.mk_urem(atom, ten, &st.rg) };
                let q = self.pool.resize(q, w, &st.rg);
                return Some(self.pool.mk_lin(vec![(q, 1)], f as u128, w, &st.rg));
            }
        }
        None
    }

    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.heap + 16 + al - 1) & !(al - 1);
        st.mem.map(a - 16, size + 32);
        let _ = st.mem.write_u(a - 16, 8, size);
        st.heap = a + size;
        st.last = a;
        a
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.cur.f.clone();
        let from = st.cur.blk;
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty()
            && let Some((_, mv)) = b.phis.iter().find(|p| p.0 == from)
        {
            if mv.len() == 1 {
                let v = self.get(st, &mv[0].1);
                st.cur.regs[mv[0].0 as usize] = v;
            } else {
                let vals: Vec<Val> = mv.iter().map(|(_, o)| self.get(st, o)).collect();
                for ((d, _), v) in mv.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    // ----------------------------------------------------------- main loop
    fn run(&mut self, st: &mut State, t0: Instant, deadline: f64) -> Stop {
        loop {
            match self.burst(st) {
                Ok(()) => {
                    if t0.elapsed().as_secs_f64() > deadline {
                        return Stop::Unsup("time budget exhausted".into());
                    }
                    if st.steps > self.max_steps {
                        return Stop::Unsup("step budget of one path exhausted".into());
                    }
                }
                Err(s) => return s,
            }
        }
    }
    fn burst(&mut self, st: &mut State) -> R<()> {
        let mut f = st.cur.f.clone();
        for _ in 0..200_000 {
            st.steps += 1;
            let ins = &f.blocks[st.cur.blk as usize].ins[st.cur.ip as usize];
            let dst = ins.dst as usize;
            match &ins.k {
                IK::Bin(op, t, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = self.bin_t(st, *op, t, &x, &y)?;
                    st.cur.regs[dst] = v;
                }
                IK::ICmp(p, t, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = self.icmp_t(st, *p, t, &x, &y);
                    st.cur.regs[dst] = v;
                }
                IK::Load(t, p) => {
                    let v = match self.get(st, p) {
                        Val::I(a) => self.load(st, a, t)?,
                        Val::S(e) => {
                            let (l, h) = self.pool.range(e, &st.rg);
                            if l == h { self.load(st, l as u64, t)? } else { self.load_sym(st, e, t)? }
                        }
                        _ => return Err(Stop::Unsup("load pointer".into())),
                    };
                    st.cur.regs[dst] = v;
                }
                IK::Store(t, v, p) => {
                    let v = self.get(st, v);
                    let a = self.get(st, p);
                    let a = self.conc(st, &a)?;
                    self.store(st, a, t, &v)?;
                }
                IK::Gep(b, off, terms) => {
                    let base = self.get(st, b);
                    let v = self.gep(st, &base, *off, terms)?;
                    st.cur.regs[dst] = v;
                }
                IK::Br(t) => {
                    self.jump(st, *t);
                    continue;
                }
                IK::Cond(c, t, e) => {
                    let b = match self.get(st, c) {
                        Val::I(x) => x != 0,
                        Val::S(x) => self.branch(st, x)?,
                        _ => return Err(Stop::Unsup("branch".into())),
                    };
                    self.jump(st, if b { *t } else { *e });
                    continue;
                }
                IK::Switch(c, w, cases, d) => {
                    let v = self.get(st, c);
                    let t = match v {
                        Val::I(x) => cases.iter().find(|k| k.0 == x).map_or(*d, |k| k.1),
                        Val::S(e) => self.switch(st, e, *w, cases, *d)?,
                        _ => return Err(Stop::Unsup("switch".into())),
                    };
                    self.jump(st, t);
                    continue;
                }
                IK::Call(c, args, t, cont) => {
                    let id = match c {
                        Callee::F(id) => *id,
                        Callee::Ind(o) => {
                            let v = self.get(st, o);
                            let a = self.conc(st, &v)?;
                            if a < FUNCS || (a - FUNCS) / 16 >= self.p.fns.len() as u64 {
                                return Err(Stop::Unsup(format!("call through {a:#x}")));
                            }
                            ((a - FUNCS) / 16) as u32
                        }
                    };
                    match self.p.fns[id as usize].kind {
                        FnKind::Plain => {
                            self.used[id as usize] = true;
                            let nf = match &self.p.cache[id as usize] {
                                Some(f) => f.clone(),
                                None => self.p.func(id),
                            };
                            let mut regs = Vec::with_capacity(nf.nregs as usize);
                            for a in args.iter().take(nf.nparams as usize) {
                                regs.push(self.get(st, a));
                            }
                            regs.resize(nf.nregs as usize, Val::I(0));
                            if st.frames.len() > 6000 {
                                return Err(Stop::Fail("stack-overflow".into(), "call depth exceeds 6000 frames".into()));
                            }
                            st.cur.ip += 1;
                            let nfr = Frame {
                                f: nf.clone(),
                                regs,
                                blk: 0,
                                ip: 0,
                                dst: ins.dst,
                                cont: cont.map(|c| c.0),
                                sp: st.sp,
                            };
                            let old = std::mem::replace(&mut st.cur, nfr);
                            st.frames.push(Rc::new(old));
                            f = nf;
                            continue;
                        }
                        FnKind::Panic => {
                            return Err(Stop::Fail("panic".into(), self.p.fns[id as usize].name.clone()));
                        }
                        FnKind::HashOne => {
                            if ins.dst != NODST {
                                st.cur.regs[dst] = Val::I(0);
                            }
                        }
                        FnKind::Ext(x) => {
                            let av: Vec<Val> = args.iter().map(|a| self.get(st, a)).collect();
                            let v = self.ext(st, x, id, &av, t)?;
                            if ins.dst != NODST {
                                st.cur.regs[dst] = v;
                            }
                        }
                    }
                    if let Some((b, _)) = cont {
                        self.jump(st, *b);
                        continue;
                    }
                }
                IK::Ret(o) => {
                    let v = o.as_ref().map(|o| self.get(st, o));
                    let Some(up) = st.frames.pop() else { return Err(Stop::Done) };
                    let up = Rc::try_unwrap(up).unwrap_or_else(|r| (*r).clone());
                    let done = std::mem::replace(&mut st.cur, up);
                    st.sp = done.sp;
                    if done.dst != NODST
                        && let Some(v) = v
                    {
                        st.cur.regs[done.dst as usize] = v;
                    }
                    if let Some(b) = done.cont {
                        self.jump(st, b);
                    }
                    f = st.cur.f.clone();
                    continue;
                }
                IK::Select(t, vc, c, a, b) => {
                    let cv = self.get(st, c);
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let v = self.select(st, t, *vc, &cv, x, y)?;
                    st.cur.regs[dst] = v;
                }
                IK::Cast(k, ft, tt, a) => {
                    let x = self.get(st, a);
                    let x = if matches!(k, C::Trunc | C::ZExt | C::SExt | C::Bit) { x } else { self.pin(st, x) };
                    let v = self.cast(st, *k, ft, tt, &x)?;
                    st.cur.regs[dst] = v;
                }
                IK::Alloca(sz, al) => {
                    let mut sp = st.sp - sz.max(&1);
                    sp &= !(al - 1);
                    st.mem.map(sp, st.sp - sp);
                    st.sp = sp;
                    st.cur.regs[dst] = Val::I(sp);
                }
                IK::Mov(o) => {
                    if ins.dst != NODST {
                        st.cur.regs[dst] = self.get(st, o);
                    }
                }
                IK::Extract(a, ix) => {
                    let mut v = self.get(st, a);
                    for i in ix {
                        v = match v {
                            Val::A(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Unsup("extractvalue".into())),
                        };
                    }
                    st.cur.regs[dst] = v;
                }
                IK::Insert(a, b, ix) => {
                    let v = self.get(st, a);
                    let n = self.get(st, b);
                    st.cur.regs[dst] = insert(v, n, ix);
                }
                IK::Rmw(op, w, p, v) => {
                    let a = self.get(st, p);
                    let a = self.conc(st, &a)?;
                    let old = self.load_int(st, a, *w)?;
                    let x = self.get(st, v);
                    let new = match op {
                        0 => x,
                        1 => self.bin(st, B::Add, *w, &old, &x)?,
                        2 => self.bin(st, B::Sub, *w, &old, &x)?,
                        3 => self.bin(st, B::And, *w, &old, &x)?,
                        5 => self.bin(st, B::Or, *w, &old, &x)?,
                        6 => self.bin(st, B::Xor, *w, &old, &x)?,
                        _ => return Err(Stop::Unsup("atomicrmw".into())),
                    };
                    self.store_int(st, a, *w, &new)?;
                    st.cur.regs[dst] = old;
                }
                IK::CmpXchg(w, p, c, n) => {
                    let a = self.get(st, p);
                    let a = self.conc(st, &a)?;
                    let old = self.load_int(st, a, *w)?;
                    let old = Val::I(self.conc(st, &old)?);
                    let cv = self.get(st, c);
                    let cv = self.conc(st, &cv)?;
                    let Val::I(ov) = old else { unreachable!() };
                    let eq = ov == cv;
                    if eq {
                        let nv = self.get(st, n);
                        self.store_int(st, a, *w, &nv)?;
                    }
                    st.cur.regs[dst] = Val::A(Rc::new(vec![old, Val::I(eq as u64)]));
                }
                IK::ExtEl(a, i) => {
                    let Val::A(x) = self.get(st, a) else { return Err(Stop::Unsup("extractelement".into())) };
                    let i = self.get(st, i);
                    let i = self.conc(st, &i)?;
                    st.cur.regs[dst] = x[i as usize].clone();
                }
                IK::InsEl(a, v, i) => {
                    let Val::A(x) = self.get(st, a) else { return Err(Stop::Unsup("insertelement".into())) };
                    let v = self.get(st, v);
                    let i = self.get(st, i);
                    let i = self.conc(st, &i)?;
                    let mut x = (*x).clone();
                    x[i as usize] = v;
                    st.cur.regs[dst] = Val::A(Rc::new(x));
                }
                IK::Shuf(a, b, m, k) => {
                    let (Val::A(x), Val::A(y)) = (self.get(st, a), self.get(st, b)) else {
                        return Err(Stop::Unsup("shuffle".into()));
                    };
                    let o = m
                        .iter()
                        .map(|&i| {
                            if i < 0 {
                                Val::I(0)
                            } else if (i as u32) < *k {
                                x[i as usize].clone()
                            } else {
                                y[i as usize - *k as usize].clone()
                            }
                        })
                        .collect();
                    st.cur.regs[dst] = Val::A(Rc::new(o));
                }
                IK::FBin(op, t, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = (self.pin(st, x), self.pin(st, y));
                    let v = self.fbin(*op, t, &x, &y)?;
                    st.cur.regs[dst] = v;
                }
                IK::FNeg(t, a) => {
                    let x = self.get(st, a);
                    let w = t.w();
                    let s = Val::I(1u64 << (w - 1));
                    let v = self.bin(st, B::Xor, w, &x, &s)?;
                    st.cur.regs[dst] = v;
                }
                IK::FCmp(p, t, a, b) => {
                    let (x, y) = (self.get(st, a), self.get(st, b));
                    let (x, y) = (self.pin(st, x), self.pin(st, y));
                    let (Val::I(x), Val::I(y)) = (x, y) else {
                        return Err(Stop::Unsup("symbolic float comparison".into()));
                    };
                    let g = |v: u64| if *t == Ty::F32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v) };
                    let (x, y) = (g(x), g(y));
                    let un = x.is_nan() || y.is_nan();
                    let r = match p {
                        0 => false,
                        1 => x == y,
                        2 => x > y,
                        3 => x >= y,
                        4 => x < y,
                        5 => x <= y,
                        6 => !un && x != y,
                        7 => !un,
                        8 => un,
                        9 => un || x == y,
                        10 => un || x > y,
                        11 => un || x >= y,
                        12 => un || x < y,
                        13 => un || x <= y,
                        14 => un || x != y,
                        _ => true,
                    };
                    st.cur.regs[dst] = Val::I(r as u64);
                }
                IK::Unreachable => return Err(Stop::Unsup("reached `unreachable`".into())),
                IK::Bad(s) => return Err(Stop::Unsup(s.clone())),
            }
            st.cur.ip += 1;
        }
        Ok(())
    }
    fn bin_t(&mut self, st: &State, op: B, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        match t {
            Ty::Int(w) => self.bin(st, op, *w, x, y),
            Ty::Vec(_, et) => {
                let (Val::A(a), Val::A(b)) = (x, y) else { return Err(Stop::Unsup("vector op".into())) };
                let mut o = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    o.push(self.bin(st, op, et.w(), p, q)?);
                }
                Ok(Val::A(Rc::new(o)))
            }
            _ => Err(Stop::Unsup("bin type".into())),
        }
    }
    fn icmp_t(&mut self, st: &State, p: P, t: &Ty, x: &Val, y: &Val) -> Val {
        match (t, x, y) {
            (Ty::Vec(_, et), Val::A(a), Val::A(b)) => {
                Val::A(Rc::new(a.iter().zip(b.iter()).map(|(u, v)| self.icmp(st, p, et.w(), u, v)).collect()))
            }
            _ => self.icmp(st, p, t.w(), x, y),
        }
    }
    fn fbin(&mut self, op: FB, t: &Ty, x: &Val, y: &Val) -> R<Val> {
        let (Val::I(x), Val::I(y)) = (x, y) else { return Err(Stop::Unsup("symbolic float arithmetic".into())) };
        Ok(Val::I(if *t == Ty::F32 {
            let (a, b) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
            (match op {
                FB::Add => a + b,
                FB::Sub => a - b,
                FB::Mul => a * b,
                FB::Div => a / b,
                FB::Rem => a % b,
            })
            .to_bits() as u64
        } else {
            let (a, b) = (f64::from_bits(*x), f64::from_bits(*y));
            (match op {
                FB::Add => a + b,
                FB::Sub => a - b,
                FB::Mul => a * b,
                FB::Div => a / b,
                FB::Rem => a % b,
            })
            .to_bits()
        }))
    }
    fn gep(&mut self, st: &State, base: &Val, off: u64, terms: &[(Opd, u64, u32)]) -> R<Val> {
        let mut acc = match base {
            Val::I(b) => Val::I(b.wrapping_add(off)),
            b => self.bin(st, B::Add, 64, b, &Val::I(off))?,
        };
        for (o, scale, w) in terms {
            let v = self.get(st, o);
            match (&acc, &v) {
                (Val::I(a), Val::I(x)) => {
                    acc = Val::I(a.wrapping_add((sx64(*x, *w) as u64).wrapping_mul(*scale)));
                }
                _ => {
                    let x = self.cast(st, C::SExt, &Ty::Int(*w), &Ty::Int(64), &v)?;
                    let x = self.bin(st, B::Mul, 64, &x, &Val::I(*scale))?;
                    acc = self.bin(st, B::Add, 64, &acc, &x)?;
                }
            }
        }
        Ok(acc)
    }
    fn select(&mut self, st: &mut State, t: &Ty, vc: bool, c: &Val, a: Val, b: Val) -> R<Val> {
        if vc {
            let (Val::A(c), Val::A(x), Val::A(y), Ty::Vec(_, et)) = (c, &a, &b, t) else {
                return Err(Stop::Unsup("vector select".into()));
            };
            let mut o = vec![];
            for i in 0..c.len() {
                o.push(self.select(st, et, false, &c[i], x[i].clone(), y[i].clone())?);
            }
            return Ok(Val::A(Rc::new(o)));
        }
        match c {
            Val::I(x) => Ok(if *x != 0 { a } else { b }),
            Val::S(e) => {
                let w = t.w();
                if w > 0 && !matches!(t, Ty::F32 | Ty::F64) {
                    if let Some(k) = self.known(st, *e) {
                        return Ok(if k { a } else { b });
                    }
                    let (x, y) = (self.to_e(&a, w), self.to_e(&b, w));
                    let r = self.pool.mk_ite(*e, x, y, &st.rg);
                    return Ok(self.from_e(r));
                }
                Ok(if self.branch(st, *e)? { a } else { b })
            }
            _ => Err(Stop::Unsup("select".into())),
        }
    }
    fn switch(&mut self, st: &mut State, e: E, w: u32, cases: &[(u64, u32)], d: u32) -> R<u32> {
        let mut tgts: Vec<u32> = vec![];
        for (_, t) in cases {
            if !tgts.contains(t) {
                tgts.push(*t);
            }
        }
        // follow the model first: then every other target is one fork away
        let mv = self.pool.eval(e, &st.model) as u64;
        let mt = cases.iter().find(|k| k.0 == mv).map(|k| k.1);
        if let Some(m) = mt {
            tgts.retain(|t| *t != m);
            tgts.insert(0, m);
        }
        for t in tgts {
            let mut c = Pool::F;
            for (v, tt) in cases {
                if *tt == t {
                    let k = self.pool.cst(*v as u128, w);
                    let q = self.pool.mk_cmp(Cmp::Eq, e, k, &st.rg);
                    c = self.pool.mk_or(c, q, &st.rg);
                }
            }
            if self.pool.is_const(c) == Some(0) {
                continue;
            }
            if self.branch(st, c)? {
                return Ok(t);
            }
        }
        Ok(d)
    }

    fn ext(&mut self, st: &mut State, x: X, id: u32, a: &[Val], t: &Ty) -> R<Val> {
        let w = match t {
            Ty::Agg(f, _) => f[0].1.w(),
            t => t.w(),
        };
        let z = Val::I(0);
        if let Ty::Vec(n, et) = t {
            if matches!(x, X::Umax | X::Umin | X::Smax | X::Smin | X::UsubSat | X::UaddSat | X::Ctpop) {
                let mut o = vec![];
                for i in 0..*n as usize {
                    let av: Vec<Val> = a
                        .iter()
                        .map(|v| match v {
                            Val::A(y) => y[i].clone(),
                            v => v.clone(),
                        })
                        .collect();
                    o.push(self.ext(st, x, id, &av, et)?);
                }
                return Ok(Val::A(Rc::new(o)));
            }
        }
        Ok(match x {
            X::Memcpy => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                if n > 0 {
                    if let Val::S(e) = a[1]
                        && n <= 4
                    {
                        let (l, h) = self.pool.range(e, &st.rg);
                        if l != h {
                            let t = Ty::Int(8 * n as u32);
                            let v = self.load_sym(st, e, &t)?;
                            self.store_int(st, d, 8 * n as u32, &v)?;
                            return Ok(a[0].clone());
                        }
                    }
                    let s = self.conc(st, &a[1])?;
                    st.mem.copy(d, s, n)?;
                }
                a[0].clone()
            }
            X::Memset => {
                let n = self.conc(st, &a[2])?;
                let d = self.conc(st, &a[0])?;
                let (b, e) = match &a[1] {
                    Val::I(v) => (*v as u8, 0),
                    Val::S(e) => (0, self.pool.mk_extract(*e, 0, 8, &st.rg)),
                    _ => return Err(Stop::Unsup("memset".into())),
                };
                if n > 0 {
                    st.mem.fill(d, b, e, n)?;
                }
                a[0].clone()
            }
            X::Bcmp | X::Memcmp => {
                let n = self.conc(st, &a[2])?;
                let p = self.conc(st, &a[0])?;
                let q = self.conc(st, &a[1])?;
                let mut pairs: Vec<(Val, Val)> = vec![];
                let mut sym = false;
                for i in 0..n {
                    let (b1, e1) = st.mem.byte(p + i)?;
                    let (b2, e2) = st.mem.byte(q + i)?;
                    if e1 == 0 && e2 == 0 {
                        if b1 != b2 && (!sym || x == X::Bcmp) {
                            let r = if x == X::Bcmp { 1 } else { (b1 as i32 - b2 as i32) as u32 as u64 };
                            return Ok(Val::I(r));
                        }
                        if b1 != b2 {
                            pairs.push((Val::I(b1 as u64), Val::I(b2 as u64)));
                            break;
                        }
                        continue;
                    }
                    if e1 == e2 {
                        continue;
                    }
                    sym = true;
                    let v1 = self.sbyte(st, b1, e1);
                    let v2 = self.sbyte(st, b2, e2);
                    pairs.push((v1, v2));
                }
                if x == X::Bcmp {
                    let mut c = Pool::T;
                    for (u, v) in pairs {
                        let (u, v) = (self.to_e(&u, 8), self.to_e(&v, 8));
                        let q = self.pool.mk_cmp(Cmp::Eq, u, v, &st.rg);
                        c = self.pool.mk_and(c, q, &st.rg);
                        if c == Pool::F {
                            break;
                        }
                    }
                    let ne = self.pool.mk_not(c);
                    let e = self.pool.mk_zext(ne, 32, &st.rg);
                    self.from_e(e)
                } else {
                    let mut r = self.pool.cst(0, 32);
                    for (u, v) in pairs.into_iter().rev() {
                        let (u, v) = (self.to_e(&u, 8), self.to_e(&v, 8));
                        let eq = self.pool.mk_cmp(Cmp::Eq, u, v, &st.rg);
                        let lt = self.pool.mk_cmp(Cmp::Ult, u, v, &st.rg);
                        let m = self.pool.cst(u32::MAX as u128, 32);
                        let o = self.pool.cst(1, 32);
                        let d = self.pool.mk_ite(lt, m, o, &st.rg);
                        r = self.pool.mk_ite(eq, r, d, &st.rg);
                    }
                    self.from_e(r)
                }
            }
            // core::slice::memchr::memchr_aligned(needle, text) -> Option<usize>
            X::Memchr => {
                let p = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let x = self.to_e(&a[0], 8);
                let xc = self.pool.is_const(x);
                for i in 0..n {
                    let (b, e) = st.mem.byte(p + i)?;
                    let hit = match xc {
                        Some(v) if e == 0 => v == b as u128,
                        _ => {
                            let v = self.sbyte(st, b, e);
                            let v = self.to_e(&v, 8);
                            let c = self.pool.mk_cmp(Cmp::Eq, v, x, &st.rg);
                            self.branch(st, c)?
                        }
                    };
                    if hit {
                        return Ok(Val::A(Rc::new(vec![Val::I(1), Val::I(i)])));
                    }
                }
                Val::A(Rc::new(vec![z.clone(), z]))
            }
            X::Strlen => {
                let p = self.conc(st, &a[0])?;
                let mut n = 0;
                while st.mem.byte(p + n)?.0 != 0 {
                    n += 1;
                }
                Val::I(n)
            }
            X::Malloc => {
                let n = self.conc(st, &a[0])?;
                Val::I(self.alloc(st, n, 16))
            }
            X::Calloc => {
                let n = self.conc(st, &a[0])?;
                let m = self.conc(st, &a[1])?;
                Val::I(self.alloc(st, n * m, 16))
            }
            X::PosixMemalign => {
                let out = self.conc(st, &a[0])?;
                let al = self.conc(st, &a[1])?;
                let n = self.conc(st, &a[2])?;
                let p = self.alloc(st, n, al);
                st.mem.write_u(out, 8, p)?;
                z
            }
            X::Realloc => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                if p == 0 {
                    return Ok(Val::I(self.alloc(st, n, 16)));
                }
                let old = st.mem.read_u(p - 16, 8)?.unwrap();
                if p == st.last && n >= old {
                    st.mem.map(p, n + 16);
                    st.mem.write_u(p - 16, 8, n)?;
                    st.heap = p + n;
                    return Ok(Val::I(p));
                }
                let q = self.alloc(st, n, 16);
                st.mem.copy(q, p, old.min(n))?;
                Val::I(q)
            }
            X::Free => z,
            X::Getrandom => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                st.mem.fill(p, 0x5a, 0, n)?;
                Val::I(n)
            }
            X::Zero => z,
            X::Ident => a[0].clone(),
            X::Abort => return Err(Stop::Fail("abort".into(), "abort".into())),
            X::Umax | X::Umin | X::Smax | X::Smin => {
                let p = match x {
                    X::Umax => P::Ugt,
                    X::Umin => P::Ult,
                    X::Smax => P::Sgt,
                    _ => P::Slt,
                };
                let c = self.icmp(st, p, w, &a[0], &a[1]);
                self.select(st, &Ty::Int(w), false, &c, a[0].clone(), a[1].clone())?
            }
            X::UsubSat => {
                let c = self.icmp(st, P::Ult, w, &a[0], &a[1]);
                let d = self.bin(st, B::Sub, w, &a[0], &a[1])?;
                self.select(st, &Ty::Int(w), false, &c, z, d)?
            }
            X::UaddSat => {
                let s = self.bin(st, B::Add, w, &a[0], &a[1])?;
                let c = self.icmp(st, P::Ult, w, &s, &a[0]);
                self.select(st, &Ty::Int(w), false, &c, Val::I(m64(w)), s)?
            }
            X::Ov(op, signed) => {
                let r = self.bin(st, op, w, &a[0], &a[1])?;
                let o = self.overflow(st, op, signed, w, &a[0], &a[1], &r)?;
                Val::A(Rc::new(vec![r, o]))
            }
            X::Ctlz | X::Cttz => match &a[0] {
                Val::I(v) => Val::I(if x == X::Ctlz {
                    (v.leading_zeros() - (64 - w)) as u64
                } else {
                    v.trailing_zeros().min(w) as u64
                }),
                v => {
                    let e = self.to_e(v, w);
                    let mut r = self.pool.cst(w as u128, w);
                    for i in 0..w {
                        // for ctlz: highest set bit wins, for cttz: lowest
                        let bit = if x == X::Ctlz { i } else { w - 1 - i };
                        let b = self.pool.mk_extract(e, bit, 1, &st.rg);
                        let k = self.pool.cst(if x == X::Ctlz { w - 1 - bit } else { bit } as u128, w);
                        r = self.pool.mk_ite(b, k, r, &st.rg);
                    }
                    self.from_e(r)
                }
            },
            X::Ctpop => match &a[0] {
                Val::I(v) => Val::I(v.count_ones() as u64),
                v => {
                    let e = self.to_e(v, w);
                    let mut ts = vec![];
                    for i in 0..w {
                        let b = self.pool.mk_extract(e, i, 1, &st.rg);
                        let b = self.pool.mk_zext(b, w, &st.rg);
                        ts.push((b, 1));
                    }
                    let r = self.pool.mk_lin(ts, 0, w, &st.rg);
                    self.from_e(r)
                }
            },
            X::Bswap => match &a[0] {
                Val::I(v) => Val::I(v.swap_bytes() >> (64 - w)),
                v => {
                    let e = self.to_e(v, w);
                    let mut acc = None;
                    for i in (0..w / 8).rev() {
                        let b = self.pool.mk_extract(e, 8 * i, 8, &st.rg);
                        acc = Some(match acc {
                            None => b,
                            Some(h) => self.pool.mk_concat(b, h, &st.rg),
                        });
                    }
                    self.from_e(acc.unwrap())
                }
            },
            X::Bitrev => match &a[0] {
                Val::I(v) => Val::I(v.reverse_bits() >> (64 - w)),
                _ => return Err(Stop::Unsup("bitreverse".into())),
            },
            X::Fshl | X::Fshr => {
                let s = self.conc(st, &a[2])? % w as u64;
                let (hi, lo) = (&a[0], &a[1]);
                let s = if x == X::Fshl { s } else { (w as u64 - s) % w as u64 };
                if s == 0 {
                    return Ok(if x == X::Fshl { a[0].clone() } else { a[1].clone() });
                }
                let p = self.bin(st, B::Shl, w, hi, &Val::I(s))?;
                let q = self.bin(st, B::LShr, w, lo, &Val::I(w as u64 - s))?;
                self.bin(st, B::Or, w, &p, &q)?
            }
            X::Abs => {
                let c = self.icmp(st, P::Slt, w, &a[0], &z);
                let n = self.bin(st, B::Sub, w, &z, &a[0])?;
                self.select(st, &Ty::Int(w), false, &c, n, a[0].clone())?
            }
            X::Scmp | X::Ucmp => {
                let aw = match (&a[0], &a[1]) {
                    (Val::S(e), _) | (_, Val::S(e)) => self.pool.w(*e),
                    _ => {
                        // operand width from the intrinsic's name (llvm.scmp.i8.i64)
                        let n = &self.p.fns[id as usize].name;
                        n.rsplit(".i").next().unwrap().parse().unwrap()
                    }
                };
                let lt = self.icmp(st, if x == X::Scmp { P::Slt } else { P::Ult }, aw, &a[0], &a[1]);
                let eq = self.icmp(st, P::Eq, aw, &a[0], &a[1]);
                let r = self.select(st, &Ty::Int(w), false, &eq, Val::I(0), Val::I(1))?;
                self.select(st, &Ty::Int(w), false, &lt, Val::I(m64(w)), r)?
            }
            X::SsubSat | X::SaddSat => {
                let op = if x == X::SsubSat { B::Sub } else { B::Add };
                let r = self.bin(st, op, w, &a[0], &a[1])?;
                let o = self.overflow(st, op, true, w, &a[0], &a[1], &r)?;
                // an overflowing result has the first operand's sign
                let n = self.icmp(st, P::Slt, w, &a[0], &z);
                let lim = self.select(st, &Ty::Int(w), false, &n, Val::I(1 << (w - 1)), Val::I(m64(w) >> 1))?;
                self.select(st, &Ty::Int(w), false, &o, lim, r)?
            }
            X::Copysign => {
                let m = m64(w) >> 1;
                let v = self.bin(st, B::And, w, &a[0], &Val::I(m))?;
                let s = self.bin(st, B::And, w, &a[1], &Val::I(m + 1))?;
                self.bin(st, B::Or, w, &v, &s)?
            }
            X::Fabs => self.bin(st, B::And, w, &a[0], &Val::I(m64(w) >> 1))?,
            X::ReduceOr | X::ReduceAnd | X::ReduceAdd => {
                let Val::A(v) = &a[0] else { return Err(Stop::Unsup("reduce".into())) };
                let op = match x {
                    X::ReduceOr => B::Or,
                    X::ReduceAnd => B::And,
                    _ => B::Add,
                };
                let mut acc = v[0].clone();
                for y in v.iter().skip(1) {
                    acc = self.bin(st, op, w, &acc, y)?;
                }
                acc
            }
            X::SymInt => {
                let bits = self.conc(st, &a[0])? as u32;
                let e = self.fresh(st, bits);
                let e = self.pool.mk_zext(e, 64, &st.rg);
                self.from_e(e)
            }
            X::SymBytes => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    let e = self.fresh(st, 8);
                    st.mem.set_byte(p + i, 0, e)?;
                }
                z
            }
            X::SymAssume => match &a[0] {
                Val::I(v) => {
                    if v & 1 == 0 {
                        return Err(Stop::Killed);
                    }
                    z
                }
                Val::S(e) => {
                    let c = if self.pool.w(*e) == 1 { *e } else { self.pool.mk_extract(*e, 0, 1, &st.rg) };
                    match self.decide(st, c)? {
                        Dec::T => z,
                        Dec::F => return Err(Stop::Killed),
                        Dec::Both(mv, m) => {
                            if !mv {
                                Self::set_model(st, &m);
                            }
                            self.add_con(st, c);
                            z
                        }
                    }
                }
                _ => return Err(Stop::Unsup("assume".into())),
            },
            X::SymFail => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                let mut s = vec![];
                for i in 0..n {
                    s.push(st.mem.byte(p + i)?.0);
                }
                return Err(Stop::Fail("assert".into(), String::from_utf8_lossy(&s).into_owned()));
            }
            X::SymConc => Val::I(self.conc(st, &a[0])?),
            X::SymEmit => {
                let p = self.conc(st, &a[0])?;
                let n = self.conc(st, &a[1])?;
                for i in 0..n {
                    let b = st.mem.byte(p + i)?;
                    st.emits.push(b);
                }
                st.emits.push((b'\n', 0));
                z
            }
            X::SymCover => {
                let k = self.conc(st, &a[0])?;
                self.out.covers.insert(k);
                z
            }
            X::Unknown => {
                return Err(Stop::Unsup(format!("external function {}", self.p.fns[id as usize].name)));
            }
        })
    }
    fn fresh(&mut self, st: &mut State, bits: u32) -> E {
        let e = self.pool.var(st.inputs.len() as u32, bits);
        st.inputs.push(e);
        let K::Var(v) = *self.pool.k(e) else { unreachable!() };
        if st.model.len() <= v as usize {
            st.model.resize(v as usize + 1, 0);
        }
        e
    }
    #[allow(clippy::too_many_arguments)]
    fn overflow(&mut self, st: &State, op: B, signed: bool, w: u32, a: &Val, b: &Val, r: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y)) = (a, b) {
            let o = if signed {
                let (x, y) = (sx64(*x, w) as i128, sx64(*y, w) as i128);
                let t = match op {
                    B::Add => x + y,
                    B::Sub => x - y,
                    _ => x * y,
                };
                let lim = 1i128 << (w - 1);
                t < -lim || t >= lim
            } else {
                let (x, y) = (*x as u128, *y as u128);
                match op {
                    B::Add => x + y > mask(w),
                    B::Sub => x < y,
                    _ => x * y > mask(w),
                }
            };
            return Ok(Val::I(o as u64));
        }
        let (x, y) = (self.to_e(a, w), self.to_e(b, w));
        if w == 128
            && let (Some(x), Some(y)) = (self.pool.is_const(x), self.pool.is_const(y))
        {
            let o = match (op, signed) {
                (B::Add, false) => x.overflowing_add(y).1,
                (B::Sub, false) => x.overflowing_sub(y).1,
                (_, false) => x.overflowing_mul(y).1,
                (B::Add, true) => (x as i128).overflowing_add(y as i128).1,
                (B::Sub, true) => (x as i128).overflowing_sub(y as i128).1,
                (_, true) => (x as i128).overflowing_mul(y as i128).1,
            };
            return Ok(Val::I(o as u64));
        }
        if w > 64 {
            return Err(Stop::Unsup("wide overflow arithmetic".into()));
        }
        if signed {
            let (al, ah) = self.pool.srange(x, &st.rg);
            let (bl, bh) = self.pool.srange(y, &st.rg);
            let lim = 1i128 << (w - 1);
            let (l, h) = match op {
                B::Add => (al + bl, ah + bh),
                B::Sub => (al - bh, ah - bl),
                _ => {
                    let c = [al * bl, al * bh, ah * bl, ah * bh];
                    (*c.iter().min().unwrap(), *c.iter().max().unwrap())
                }
            };
            if l >= -lim && h < lim {
                return Ok(Val::I(0));
            }
            if h < -lim || l >= lim {
                return Ok(Val::I(1));
            }
            if op == B::Mul
                && let Some((v, k)) = self.const_side(x, y)
            {
                let k = sx(k, w);
                if k > 0 {
                    let mx = self.pool.cst((lim - 1).div_euclid(k) as u128, w);
                    let mn = self.pool.cst((-((lim) / k)) as u128, w);
                    let g = self.pool.mk_cmp(Cmp::Slt, mx, v, &st.rg);
                    let l = self.pool.mk_cmp(Cmp::Slt, v, mn, &st.rg);
                    let o = self.pool.mk_or(g, l, &st.rg);
                    return Ok(self.from_e(o));
                }
            }
            // a + c / a - c with constant c
            let kc = self.pool.is_const(y).map(|k| if op == B::Sub { -sx(k, w) } else { sx(k, w) });
            if op != B::Mul
                && let Some(k) = kc
            {
                let o = if k >= 0 {
                    let m = self.pool.cst((lim - 1 - k) as u128, w);
                    self.pool.mk_cmp(Cmp::Slt, m, x, &st.rg)
                } else {
                    let m = self.pool.cst((-lim - k) as u128, w);
                    self.pool.mk_cmp(Cmp::Slt, x, m, &st.rg)
                };
                return Ok(self.from_e(o));
            }
            let (xx, yy) = (self.pool.mk_sext(x, 2 * w, &st.rg), self.pool.mk_sext(y, 2 * w, &st.rg));
            let t = match op {
                B::Add => self.pool.mk_add(xx, yy, &st.rg),
                B::Sub => self.pool.mk_sub(xx, yy, &st.rg),
                _ => self.pool.mk_mul(xx, yy, &st.rg),
            };
            let re = self.to_e(r, w);
            let rr = self.pool.mk_sext(re, 2 * w, &st.rg);
            let e = self.pool.mk_cmp(Cmp::Eq, t, rr, &st.rg);
            let o = self.pool.mk_not(e);
            return Ok(self.from_e(o));
        }
        let (al, ah) = self.pool.range(x, &st.rg);
        let (bl, bh) = self.pool.range(y, &st.rg);
        let o = match op {
            B::Add => {
                if ah + bh <= mask(w) {
                    return Ok(Val::I(0));
                }
                if al + bl > mask(w) {
                    return Ok(Val::I(1));
                }
                if let Some((v, k)) = self.const_side(x, y) {
                    let m = self.pool.cst(mask(w) - k, w);
                    self.pool.mk_cmp(Cmp::Ult, m, v, &st.rg)
                } else {
                    let re = self.to_e(r, w);
                    self.pool.mk_cmp(Cmp::Ult, re, x, &st.rg)
                }
            }
            B::Sub => self.pool.mk_cmp(Cmp::Ult, x, y, &st.rg),
            _ => {
                if ah.checked_mul(bh).is_some_and(|v| v <= mask(w)) {
                    return Ok(Val::I(0));
                }
                if let Some((v, k)) = self.const_side(x, y) {
                    if k == 0 {
                        return Ok(Val::I(0));
                    }
                    let m = self.pool.cst(mask(w) / k, w);
                    self.pool.mk_cmp(Cmp::Ult, m, v, &st.rg)
                } else {
                    let (xx, yy) = (self.pool.mk_zext(x, 2 * w, &st.rg), self.pool.mk_zext(y, 2 * w, &st.rg));
                    let t = self.pool.mk_mul(xx, yy, &st.rg);
                    let m = self.pool.cst(mask(w), 2 * w);
                    self.pool.mk_cmp(Cmp::Ult, m, t, &st.rg)
                }
            }
        };
        Ok(self.from_e(o))
    }
    fn const_side(&self, x: E, y: E) -> Option<(E, u128)> {
        if let Some(k) = self.pool.is_const(y) {
            return Some((x, k));
        }
        self.pool.is_const(x).map(|k| (y, k))
    }
}
fn insert(v: Val, n: Val, ix: &[u32]) -> Val {
    if ix.is_empty() {
        return n;
    }
    match v {
        Val::A(x) => {
            let mut y = (*x).clone();
            let i = ix[0] as usize;
            y[i] = insert(y[i].clone(), n, &ix[1..]);
            Val::A(Rc::new(y))
        }
        v => v,
    }
}
