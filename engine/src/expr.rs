//! Hash-consed bit-vector expressions with range-aware simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64);
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Cmp {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    /// sum coef*atom + c (mod 2^w)
    Lin(Box<[(E, u128)]>, u128),
    Bin(Op, E, E),
    Concat(E, E),
    Extract(E, u32),
    ZExt(E),
    SExt(E),
    Ite(E, E, E),
    Cmp(Cmp, E, E),
    Not(E),
}
pub struct Node {
    pub k: K,
    pub w: u32,
    pub lo: u128,
    pub hi: u128,
    pub sup: Rc<[u32]>,
}

pub type Ranges = FxMap<E, (u128, u128)>;

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<(K, u32), E>,
    empty: Rc<[u32]>,
    pub var_w: Vec<u32>,
    memo: Vec<(u32, u128)>,
    epoch: u32,
    truth: FxMap<E, Rc<[u64; 4]>>,
    vars: FxMap<(u32, u32), E>,
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

const RD: u32 = 7;

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool {
            nodes: Vec::new(),
            map: FxMap::default(),
            empty: Rc::new([]),
            var_w: Vec::new(),
            memo: Vec::new(),
            epoch: 0,
            truth: FxMap::default(),
            vars: FxMap::default(),
        };
        p.cst(0, 1);
        p.cst(1, 1);
        p
    }
    pub const F: E = 0;
    pub const T: E = 1;
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn k(&self, e: E) -> &K {
        &self.nodes[e as usize].k
    }
    pub fn sup(&self, e: E) -> &Rc<[u32]> {
        &self.nodes[e as usize].sup
    }
    pub fn is_const(&self, e: E) -> Option<u128> {
        if let K::Const(v) = self.nodes[e as usize].k { Some(v) } else { None }
    }
    pub fn cst(&mut self, v: u128, w: u32) -> E {
        let v = v & mask(w);
        self.intern(K::Const(v), w)
    }
    pub fn b(&self, v: bool) -> E {
        v as E
    }
    /// Variable for the `idx`-th symbolic input of width `w`.
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        if let Some(&e) = self.vars.get(&(idx, w)) {
            return e;
        }
        let id = self.var_w.len() as u32;
        self.var_w.push(w);
        let e = self.intern(K::Var(id), w);
        self.vars.insert((idx, w), e);
        e
    }
    fn merge_sup(&self, a: &Rc<[u32]>, b: &Rc<[u32]>) -> Rc<[u32]> {
        if a.is_empty() {
            return b.clone();
        }
        if b.is_empty() || Rc::ptr_eq(a, b) || a == b {
            return a.clone();
        }
        let mut v: Vec<u32> = a.iter().chain(b.iter()).copied().collect();
        v.sort_unstable();
        v.dedup();
        if v.len() == a.len() {
            return a.clone();
        }
        if v.len() == b.len() {
            return b.clone();
        }
        v.into()
    }
    pub fn intern(&mut self, k: K, w: u32) -> E {
        if let Some(&e) = self.map.get(&(k.clone(), w)) {
            return e;
        }
        let sup = match &k {
            K::Const(_) => self.empty.clone(),
            K::Var(i) => Rc::from([*i]),
            K::Lin(t, _) => {
                let mut s = self.empty.clone();
                for (a, _) in t.iter() {
                    s = self.merge_sup(&s, self.sup(*a));
                }
                s
            }
            K::Bin(_, a, b) | K::Concat(a, b) | K::Cmp(_, a, b) => self.merge_sup(self.sup(*a), self.sup(*b)),
            K::Extract(a, _) | K::ZExt(a) | K::SExt(a) | K::Not(a) => self.sup(*a).clone(),
            K::Ite(a, b, c) => {
                let s = self.merge_sup(self.sup(*a), self.sup(*b));
                self.merge_sup(&s, self.sup(*c))
            }
        };
        let e = self.nodes.len() as E;
        self.nodes.push(Node { k: k.clone(), w, lo: 0, hi: mask(w), sup });
        let r = Ranges::default();
        let (lo, hi) = self.range_struct(e, &r, 1);
        self.nodes[e as usize].lo = lo;
        self.nodes[e as usize].hi = hi;
        self.map.insert((k, w), e);
        e
    }

    // ---------------------------------------------------------------- ranges
    pub fn range(&self, e: E, r: &Ranges) -> (u128, u128) {
        self.range_d(e, r, RD)
    }
    fn range_d(&self, e: E, r: &Ranges, d: u32) -> (u128, u128) {
        let n = &self.nodes[e as usize];
        if let K::Const(v) = n.k {
            return (v, v);
        }
        let (mut lo, mut hi) = (n.lo, n.hi);
        if r.is_empty() {
            return (lo, hi);
        }
        if let Some(&(a, b)) = r.get(&e) {
            lo = lo.max(a);
            hi = hi.min(b);
        }
        if d > 0 && lo != hi {
            let (a, b) = self.range_struct(e, r, d - 1);
            lo = lo.max(a);
            hi = hi.min(b);
        }
        if lo > hi { (n.lo, n.hi) } else { (lo, hi) }
    }
    fn range_struct(&self, e: E, r: &Ranges, d: u32) -> (u128, u128) {
        let n = &self.nodes[e as usize];
        let m = mask(n.w);
        match &n.k {
            K::Const(v) => (*v, *v),
            K::Var(_) => (0, m),
            K::ZExt(x) => self.range_d(*x, r, d),
            K::SExt(x) => {
                let (lo, hi) = self.range_d(*x, r, d);
                let w = self.w(*x);
                let s = 1u128 << (w - 1);
                if hi < s {
                    (lo, hi)
                } else if lo >= s {
                    (sx(lo, w) as u128 & m, sx(hi, w) as u128 & m)
                } else {
                    (0, m)
                }
            }
            K::Extract(x, lo) => {
                let (a, b) = self.range_d(*x, r, d);
                let (a, b) = (a >> lo, b >> lo);
                if b <= m { (a, b) } else { (0, m) }
            }
            K::Concat(h, l) => {
                let (a, b) = self.range_d(*h, r, d);
                let (c, f) = self.range_d(*l, r, d);
                let wl = self.w(*l);
                ((a << wl) | c, (b << wl) | f)
            }
            K::Ite(_, a, b) => {
                let (x, y) = self.range_d(*a, r, d);
                let (z, w) = self.range_d(*b, r, d);
                (x.min(z), y.max(w))
            }
            K::Cmp(..) | K::Not(_) => (0, 1),
            K::Lin(t, c) => match self.lin_interval(t, *c, n.w, r, d) {
                Some((l, h)) => {
                    if n.w >= 120 {
                        return if l >= 0 { (l as u128, h as u128) } else { (0, m) };
                    }
                    let k = l >> n.w; // floor div by 2^w
                    if k == h >> n.w {
                        let off = k << n.w;
                        ((l - off) as u128, (h - off) as u128)
                    } else {
                        (0, m)
                    }
                }
                None => (0, m),
            },
            K::Bin(op, a, b) => {
                let (a0, a1) = self.range_d(*a, r, d);
                let (b0, b1) = self.range_d(*b, r, d);
                match op {
                    Op::UDiv if b0 > 0 => (a0 / b1, a1 / b0),
                    Op::URem if b0 > 0 => {
                        if a1 < b0 {
                            (a0, a1)
                        } else {
                            (0, a1.min(b1 - 1))
                        }
                    }
                    Op::And => (0, a1.min(b1)),
                    Op::Or => {
                        let top = 128 - (a1 | b1).leading_zeros();
                        (a0.max(b0), mask(top).min(m))
                    }
                    Op::Xor => {
                        let top = 128 - (a1 | b1).leading_zeros();
                        (0, mask(top).min(m))
                    }
                    Op::LShr => (0, a1),
                    Op::Mul => match a1.checked_mul(b1) {
                        Some(h) if h <= m => (a0 * b0, h),
                        _ => (0, m),
                    },
                    _ => (0, m),
                }
            }
        }
    }
    /// Mathematical interval of a Lin with signed coefficients and unsigned atoms.
    fn lin_interval(&self, t: &[(E, u128)], c: u128, w: u32, r: &Ranges, d: u32) -> Option<(i128, i128)> {
        let mut l = sx(c, w);
        let mut h = l;
        if w >= 127 && (l == i128::MIN) {
            return None;
        }
        for (a, k) in t {
            let (x, y) = self.range_d(*a, r, d);
            if x > i128::MAX as u128 || y > i128::MAX as u128 {
                return None;
            }
            let k = sx(*k, w);
            let p = k.checked_mul(x as i128)?;
            let q = k.checked_mul(y as i128)?;
            l = l.checked_add(p.min(q))?;
            h = h.checked_add(p.max(q))?;
        }
        Some((l, h))
    }
    /// Signed interval of `e` as a mathematical integer.
    pub fn srange(&self, e: E, r: &Ranges) -> (i128, i128) {
        let w = self.w(e);
        let full = (sx(1u128 << (w - 1), w), (mask(w) >> 1) as i128);
        if let K::SExt(x) = self.k(e) {
            return self.srange(*x, r);
        }
        let (lo, hi) = self.range(e, r);
        let s = 1u128 << (w - 1);
        if hi < s || lo >= s {
            return (sx(lo, w), sx(hi, w));
        }
        if let K::Lin(t, c) = self.k(e)
            && let Some((l, h)) = self.lin_interval(t, *c, w, r, RD)
            && l >= full.0
            && h <= full.1
        {
            return (l, h);
        }
        full
    }

    // ------------------------------------------------------------- Lin forms
    fn lin_of(&self, e: E) -> (Vec<(E, u128)>, u128) {
        match self.k(e) {
            K::Const(v) => (vec![], *v),
            K::Lin(t, c) => (t.to_vec(), *c),
            _ => (vec![(e, 1)], 0),
        }
    }
    pub fn mk_lin(&mut self, terms: Vec<(E, u128)>, c: u128, w: u32, r: &Ranges) -> E {
        let m = mask(w);
        let mut t: Vec<(E, u128)> = Vec::with_capacity(terms.len());
        let mut c = c & m;
        for (a, k) in terms {
            self.lin_add(&mut t, &mut c, a, k, w);
        }
        loop {
            t.retain(|x| x.1 != 0);
            let mut changed = false;
            'outer: for i in 0..t.len() {
                let (a, k) = t[i];
                // adjacent pieces of one value
                if let K::ZExt(ex) = *self.k(a)
                    && let K::Extract(x, lo) = *self.k(ex)
                {
                    let w1 = self.w(ex);
                    let want = (k << w1) & m;
                    for j in 0..t.len() {
                        if t[j].1 == want
                            && let K::ZExt(ey) = *self.k(t[j].0)
                            && let K::Extract(y, l2) = *self.k(ey)
                            && y == x
                            && l2 == lo + w1
                        {
                            let tot = w1 + self.w(ey);
                            if tot > w {
                                break;
                            }
                            let z = self.mk_extract(x, lo, tot, r);
                            let z = self.mk_zext(z, w, r);
                            let (h, l) = (i.max(j), i.min(j));
                            t.remove(h);
                            t.remove(l);
                            self.lin_add(&mut t, &mut c, z, k, w);
                            changed = true;
                            break 'outer;
                        }
                    }
                }
                if let K::Bin(Op::URem, y, mm) = *self.k(a)
                    && let Some(mv) = self.is_const(mm)
                {
                    let want = k.wrapping_mul(mv) & m;
                    if t.iter().any(|x| x.1 == want) {
                        let q = self.mk_udiv(y, mm, r);
                        if let Some(j) = t.iter().position(|x| x.0 == q && x.1 == want) {
                            let (hi, lo) = (i.max(j), i.min(j));
                            t.remove(hi);
                            t.remove(lo);
                            self.lin_add(&mut t, &mut c, y, k, w);
                            changed = true;
                            break 'outer;
                        }
                    }
                }
                if let K::Bin(Op::UDiv, y, mm) = *self.k(a)
                    && let Some(mv) = self.is_const(mm)
                {
                    // k*y - k*m*(y/m) = k*(y % m), also for y = x/10^j folded
                    let mut cands: Vec<(E, u128)> = vec![(y, mv)];
                    for (b, _) in t.iter() {
                        if let K::Bin(Op::UDiv, y2, m2) = *self.k(*b)
                            && y2 == y
                            && let Some(m2v) = self.is_const(m2)
                            && m2v < mv
                            && mv % m2v == 0
                        {
                            cands.push((*b, mv / m2v));
                        }
                    }
                    for (yy, q) in cands {
                        if let Some(j) = t.iter().position(|x| x.0 == yy)
                            && k == (t[j].1.wrapping_mul(q)).wrapping_neg() & m
                        {
                            let kk = t[j].1;
                            let (h, l) = (i.max(j), i.min(j));
                            t.remove(h);
                            t.remove(l);
                            let qc = self.cst(q, w);
                            let re = self.mk_urem(yy, qc, r);
                            self.lin_add(&mut t, &mut c, re, kk, w);
                            changed = true;
                            break 'outer;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        t.retain(|x| x.1 != 0);
        // digits of a wider number that were narrowed one by one: recombine at the
        // wider width (truncation is a ring homomorphism)
        if t.len() >= 2 && w < 64 {
            let mut wide: Vec<(E, u128)> = vec![];
            let mut ww = 0;
            for (a, k) in &t {
                if let K::Extract(x, 0) = *self.k(*a)
                    && matches!(self.k(x), K::Bin(Op::UDiv | Op::URem, ..))
                    && (ww == 0 || self.w(x) == ww)
                    && self.w(x) <= 64
                {
                    ww = self.w(x);
                    wide.push((x, sx(*k, w) as u128 & mask(ww)));
                }
            }
            if wide.len() >= 2 {
                let n = wide.len();
                // coefficients are only known modulo 2^w: prefer the one that
                // matches the atom's place value
                let d: Vec<u128> = wide.iter().map(|(x, _)| self.place(*x)).collect();
                if let Some(i) = (0..n).min_by_key(|i| d[*i])
                    && (sx(wide[i].1, ww) % d[i] as i128) == 0
                {
                    let s = sx(wide[i].1, ww) / d[i] as i128;
                    for j in 0..n {
                        let g = (s.wrapping_mul(d[j] as i128)) as u128;
                        if g & m == wide[j].1 & m {
                            wide[j].1 = g & mask(ww);
                        }
                    }
                }
                // digits whose place value is a multiple of 2^w are gone: put back the
                // rest of the number, whose place value is one as well
                if let Some(i) = (0..n).max_by_key(|i| d[*i])
                    && let K::Bin(Op::URem, y, q) = *self.k(wide[i].0)
                    && let Some(q) = self.is_const(q)
                    && wide[i].1.wrapping_mul(q) & m == 0
                    && d[i] * q <= mask(ww)
                {
                    let base = match *self.k(y) {
                        K::Bin(Op::UDiv, b, _) => b,
                        _ => y,
                    };
                    let k = wide[i].1.wrapping_mul(q) & mask(ww);
                    let c = self.cst(d[i] * q, ww);
                    let rest = self.mk_udiv(base, c, r);
                    wide.push((rest, k));
                }
                let l = self.mk_lin(wide, 0, ww, r);
                let after = match self.k(l) {
                    K::Lin(t, _) => t.len(),
                    _ => 1,
                };
                if after < n {
                    t.retain(|(a, _)| {
                        !matches!(*self.k(*a), K::Extract(x, 0) if matches!(self.k(x), K::Bin(Op::UDiv | Op::URem, ..)) && self.w(x) == ww)
                    });
                    let x = self.mk_extract(l, 0, w, r);
                    t.push((x, 1));
                    return self.mk_lin(t, c, w, r);
                }
            }
        }
        if t.is_empty() {
            return self.cst(c, w);
        }
        if t.len() == 1 && t[0].1 == 1 && c == 0 {
            return t[0].0;
        }
        t.sort_unstable_by_key(|x| x.0);
        self.intern(K::Lin(t.into(), c), w)
    }
    fn place(&self, x: E) -> u128 {
        match *self.k(x) {
            K::Bin(Op::UDiv, _, c) => self.is_const(c).unwrap_or(1).max(1),
            K::Bin(Op::URem, y, _) => match *self.k(y) {
                K::Bin(Op::UDiv, _, c) => self.is_const(c).unwrap_or(1).max(1),
                _ => 1,
            },
            _ => 1,
        }
    }
    fn lin_add(&mut self, t: &mut Vec<(E, u128)>, c: &mut u128, a: E, k: u128, w: u32) {
        let m = mask(w);
        let (ta, ca) = self.lin_of(a);
        *c = c.wrapping_add(ca.wrapping_mul(k)) & m;
        for (x, kx) in ta {
            let kk = kx.wrapping_mul(k) & m;
            if kk == 0 {
                continue;
            }
            if let Some(p) = t.iter_mut().find(|p| p.0 == x) {
                p.1 = p.1.wrapping_add(kk) & m;
            } else {
                t.push((x, kk));
            }
        }
    }
    pub fn mk_add(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.mk_xor(a, b, r);
        }
        self.mk_lin(vec![(a, 1), (b, 1)], 0, w, r)
    }
    pub fn mk_sub(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.mk_xor(a, b, r);
        }
        if a == b {
            return self.cst(0, w);
        }
        self.mk_lin(vec![(a, 1), (b, mask(w))], 0, w, r)
    }
    pub fn mk_mul(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.mk_and(a, b, r);
        }
        if let Some(k) = self.is_const(b) {
            return self.mk_lin(vec![(a, k)], 0, w, r);
        }
        if let Some(k) = self.is_const(a) {
            return self.mk_lin(vec![(b, k)], 0, w, r);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Op::Mul, a, b), w)
    }
    fn fixed(&mut self, e: E, r: &Ranges) -> E {
        if self.is_const(e).is_some() {
            return e;
        }
        let (l, h) = self.range(e, r);
        if l == h {
            let w = self.w(e);
            return self.cst(l, w);
        }
        e
    }
    pub fn mk_udiv(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let b = self.fixed(b, r);
        if let Some(c) = self.is_const(b)
            && c != 0
        {
            if let Some(x) = self.is_const(a) {
                return self.cst(x / c, w);
            }
            if c == 1 {
                return a;
            }
            let (_, hi) = self.range(a, r);
            if hi < c {
                return self.cst(0, w);
            }
            if c.is_power_of_two() {
                return self.mk_lshr_c(a, c.trailing_zeros(), r);
            }
            match self.k(a).clone() {
                K::Bin(Op::UDiv, x, c1) => {
                    if let Some(c1) = self.is_const(c1)
                        && let Some(p) = c1.checked_mul(c)
                        && p <= mask(w)
                    {
                        let p = self.cst(p, w);
                        return self.mk_udiv(x, p, r);
                    }
                }
                K::Bin(Op::URem, x, m) => {
                    if let Some(m) = self.is_const(m)
                        && m % c == 0
                    {
                        let cc = self.cst(c, w);
                        let d = self.mk_udiv(x, cc, r);
                        let mm = self.cst(m / c, w);
                        return self.mk_urem(d, mm, r);
                    }
                }
                K::Lin(t, k) => {
                    if let Some((dt, dc, rt, rc)) = self.split_div(&t, k, w, c, r) {
                        let rest = self.mk_lin(rt, rc, w, r);
                        let (_, rh) = self.range(rest, r);
                        if rh < c {
                            let dt = dt.into_iter().map(|(a, k)| (a, (sx(k, w) / c as i128) as u128)).collect();
                            return self.mk_lin(dt, (sx(dc, w) / c as i128) as u128, w, r);
                        }
                    }
                }
                K::ZExt(x) if false => {
                    let _ = x;
                }
                _ => {}
            }
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b))
            && y != 0
        {
            return self.cst(x / y, w);
        }
        self.intern(K::Bin(Op::UDiv, a, b), w)
    }
    /// Split a non-wrapping Lin into a part divisible by c and a rest (both
    /// mathematically non-negative and non-wrapping), if possible.
    #[allow(clippy::type_complexity)]
    fn split_div(
        &mut self,
        t: &[(E, u128)],
        k: u128,
        w: u32,
        c: u128,
        r: &Ranges,
    ) -> Option<(Vec<(E, u128)>, u128, Vec<(E, u128)>, u128)> {
        if w > 64 || c > i64::MAX as u128 {
            return None;
        }
        let (l, h) = self.lin_interval(t, k, w, r, RD)?;
        if l < 0 || h > mask(w) as i128 {
            return None;
        }
        let ci = c as i128;
        let mut dt = vec![];
        let mut rt = vec![];
        for &(a, kk) in t {
            if sx(kk, w) % ci == 0 {
                dt.push((a, kk));
            } else {
                rt.push((a, kk));
            }
        }
        let ks = sx(k, w);
        let rc = ks.rem_euclid(ci);
        let dc = ks - rc;
        if dt.is_empty() && dc == 0 {
            return None;
        }
        let m = mask(w);
        // the rest must be in [0, 2^w) mathematically, likewise the divisible part
        let (l2, h2) = self.lin_interval(&rt, rc as u128 & m, w, r, RD)?;
        let (l3, h3) = self.lin_interval(&dt, dc as u128 & m, w, r, RD)?;
        if l2 < 0 || h2 > m as i128 || l3 < 0 || h3 > m as i128 {
            return None;
        }
        Some((dt, dc as u128 & m, rt, rc as u128 & m))
    }
    pub fn mk_urem(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let b = self.fixed(b, r);
        if let Some(c) = self.is_const(b)
            && c != 0
        {
            if let Some(x) = self.is_const(a) {
                return self.cst(x % c, w);
            }
            if c == 1 {
                return self.cst(0, w);
            }
            let (_, hi) = self.range(a, r);
            if hi < c {
                return a;
            }
            if c.is_power_of_two() {
                let x = self.mk_extract(a, 0, c.trailing_zeros(), r);
                return self.mk_zext(x, w, r);
            }
            match self.k(a).clone() {
                K::Bin(Op::URem, x, m) => {
                    if let Some(m) = self.is_const(m)
                        && m % c == 0
                    {
                        return self.mk_urem(x, b, r);
                    }
                }
                K::Lin(t, k) => {
                    if let Some((_, _, rt, rc)) = self.split_div(&t, k, w, c, r) {
                        let rest = self.mk_lin(rt, rc, w, r);
                        return self.mk_urem(rest, b, r);
                    }
                }
                _ => {}
            }
        }
        self.intern(K::Bin(Op::URem, a, b), w)
    }
    pub fn mk_sdiv(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let (sa, sb) = (self.srange(a, r), self.srange(b, r));
        if sa.0 >= 0 && sb.0 > 0 {
            return self.mk_udiv(a, b, r);
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b))
            && y != 0
        {
            return self.cst(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
        }
        if sa.1 <= 0 && sb.0 > 0 && sa.0 > sx(1u128 << (w - 1), w) {
            let z = self.cst(0, w);
            let na = self.mk_sub(z, a, r);
            let q = self.mk_udiv(na, b, r);
            return self.mk_sub(z, q, r);
        }
        self.intern(K::Bin(Op::SDiv, a, b), w)
    }
    pub fn mk_srem(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let (sa, sb) = (self.srange(a, r), self.srange(b, r));
        if sa.0 >= 0 && sb.0 > 0 {
            return self.mk_urem(a, b, r);
        }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b))
            && y != 0
        {
            return self.cst(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
        }
        if sa.1 <= 0 && sb.0 > 0 && sa.0 > sx(1u128 << (w - 1), w) {
            let z = self.cst(0, w);
            let na = self.mk_sub(z, a, r);
            let q = self.mk_urem(na, b, r);
            return self.mk_sub(z, q, r);
        }
        self.intern(K::Bin(Op::SRem, a, b), w)
    }
    /// number of known trailing zero bits
    fn tz(&self, e: E) -> u32 {
        let w = self.w(e);
        match self.k(e) {
            K::Const(0) => w,
            K::Const(v) => v.trailing_zeros(),
            K::Lin(t, c) => {
                let mut m = if *c == 0 { w } else { c.trailing_zeros() };
                for (a, k) in t.iter() {
                    m = m.min(k.trailing_zeros() + self.tz(*a));
                }
                m.min(w)
            }
            K::ZExt(x) | K::SExt(x) => {
                let t = self.tz(*x);
                if t == self.w(*x) { w } else { t }
            }
            _ => 0,
        }
    }
    pub fn mk_and(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let m = mask(w);
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x & c, w);
            }
            if c == 0 {
                return b;
            }
            if c == m {
                return a;
            }
            let (_, hi) = self.range(a, r);
            let need = mask(128 - hi.leading_zeros());
            if c & need == need {
                return a;
            }
            // contiguous mask
            let s = c.trailing_zeros();
            let body = c >> s;
            if (body & (body + 1)) == 0 {
                let n = 128 - body.leading_zeros();
                let x = self.mk_extract(a, s, n, r);
                let x = self.mk_zext(x, w, r);
                return self.mk_lin(vec![(x, 1u128 << s)], 0, w, r);
            }
            if let K::Bin(Op::And, x, y) = *self.k(a)
                && let Some(d) = self.is_const(y)
            {
                let k = self.cst(c & d, w);
                return self.mk_and(x, k, r);
            }
            return self.intern(K::Bin(Op::And, a, b), w);
        }
        if w == 1 {
            if self.mk_not(a) == b {
                return self.cst(0, 1);
            }
            // absorb: and(x, and(x,y))
            if let K::Bin(Op::And, x, y) = *self.k(b)
                && (x == a || y == a)
            {
                return b;
            }
            if let K::Bin(Op::And, x, y) = *self.k(a)
                && (x == b || y == b)
            {
                return a;
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Op::And, a, b), w)
    }
    pub fn mk_or(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let m = mask(w);
        if a == b {
            return a;
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x | c, w);
            }
            if c == 0 {
                return a;
            }
            if c == m {
                return b;
            }
        }
        if w == 1 {
            if self.mk_not(a) == b {
                return self.cst(1, 1);
            }
        } else {
            let (_, ha) = self.range(a, r);
            let (_, hb) = self.range(b, r);
            let (ta, tb) = (self.tz(a), self.tz(b));
            if (tb < 128 && ha < (1u128 << tb)) || (ta < 128 && hb < (1u128 << ta)) {
                return self.mk_add(a, b, r);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Op::Or, a, b), w)
    }
    pub fn mk_xor(&mut self, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        if a == b {
            return self.cst(0, w);
        }
        let (a, b) = if self.is_const(a).is_some() { (b, a) } else { (a, b) };
        if let Some(c) = self.is_const(b) {
            if let Some(x) = self.is_const(a) {
                return self.cst(x ^ c, w);
            }
            if c == 0 {
                return a;
            }
            if w == 1 {
                return self.mk_not(a);
            }
            if c == mask(w) {
                let m1 = mask(w);
                return self.mk_lin(vec![(a, m1)], m1, w, r);
            }
            // xor with the sign bit = add of the sign bit
            if c == 1u128 << (w - 1) {
                return self.mk_lin(vec![(a, 1)], c, w, r);
            }
        }
        let (a, b) = (a.min(b), a.max(b));
        self.intern(K::Bin(Op::Xor, a, b), w)
    }
    pub fn mk_lshr_c(&mut self, a: E, s: u32, r: &Ranges) -> E {
        let w = self.w(a);
        if s == 0 {
            return a;
        }
        if s >= w {
            return self.cst(0, w);
        }
        let x = self.mk_extract(a, s, w - s, r);
        self.mk_zext(x, w, r)
    }
    pub fn mk_shift(&mut self, op: Op, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        let b = self.fixed(b, r);
        if let Some(s) = self.is_const(b) {
            let s = s.min(w as u128) as u32;
            return match op {
                Op::Shl => {
                    if s >= w {
                        self.cst(0, w)
                    } else {
                        self.mk_lin(vec![(a, 1u128 << s)], 0, w, r)
                    }
                }
                Op::LShr => self.mk_lshr_c(a, s, r),
                _ => {
                    let s = s.min(w - 1);
                    let x = self.mk_extract(a, s, w - s, r);
                    self.mk_sext(x, w, r)
                }
            };
        }
        self.intern(K::Bin(op, a, b), w)
    }
    pub fn mk_not(&mut self, a: E) -> E {
        match self.k(a).clone() {
            K::Const(v) => (v ^ 1) as E,
            K::Not(x) => x,
            K::Cmp(Cmp::Ult, x, y) => self.intern(K::Cmp(Cmp::Ule, y, x), 1),
            K::Cmp(Cmp::Ule, x, y) => self.intern(K::Cmp(Cmp::Ult, y, x), 1),
            K::Cmp(Cmp::Slt, x, y) => self.intern(K::Cmp(Cmp::Sle, y, x), 1),
            K::Cmp(Cmp::Sle, x, y) => self.intern(K::Cmp(Cmp::Slt, y, x), 1),
            _ => self.intern(K::Not(a), 1),
        }
    }
    pub fn mk_zext(&mut self, e: E, w: u32, r: &Ranges) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        match self.k(e).clone() {
            K::Const(v) => return self.cst(v, w),
            K::ZExt(x) => return self.mk_zext(x, w, r),
            K::Extract(x, 0) => {
                let (_, hi) = self.range(x, r);
                if hi <= mask(we) {
                    return self.resize(x, w, r);
                }
            }
            K::Lin(t, c) if w <= 64 => {
                if let Some((l, h)) = self.lin_interval(&t, c, we, r, RD) {
                    let k = l >> we;
                    if k == h >> we {
                        let mut nt = vec![];
                        for (a, kk) in t.iter() {
                            let z = self.mk_zext(*a, w, r);
                            nt.push((z, sx(*kk, we) as u128 & mask(w)));
                        }
                        let nc = (sx(c, we) - (k << we)) as u128;
                        return self.mk_lin(nt, nc, w, r);
                    }
                }
                // a narrowed wide sum whose wide value fits
                let mut ww = 0;
                let all = t.iter().all(|(a, _)| match *self.k(*a) {
                    K::Extract(x, 0) if ww == 0 || ww == self.w(x) => {
                        ww = self.w(x);
                        true
                    }
                    _ => false,
                });
                if all && ww <= 64 {
                    let nt: Vec<_> = t
                        .iter()
                        .map(|(a, k)| match *self.k(*a) {
                            K::Extract(x, _) => (x, sx(*k, we) as u128 & mask(ww)),
                            _ => unreachable!(),
                        })
                        .collect();
                    let l = self.mk_lin(nt, sx(c, we) as u128, ww, r);
                    if self.range(l, r).1 <= mask(we) {
                        return self.resize(l, w, r);
                    }
                }
            }
            K::Lin(t, c) if w == 128 && we <= 64 => {
                if let Some((l, h)) = self.lin_interval(&t, c, we, r, RD) {
                    let k = l >> we;
                    if k == h >> we {
                        let mut nt = vec![];
                        for (a, kk) in t.iter() {
                            let z = self.mk_zext(*a, w, r);
                            nt.push((z, sx(*kk, we) as u128));
                        }
                        let nc = (sx(c, we) - (k << we)) as u128;
                        return self.mk_lin(nt, nc, w, r);
                    }
                }
            }
            K::Bin(op @ (Op::UDiv | Op::URem), a, b) => {
                if let Some(c) = self.is_const(b)
                    && c != 0
                {
                    let a2 = self.mk_zext(a, w, r);
                    let b2 = self.cst(c, w);
                    return if op == Op::UDiv { self.mk_udiv(a2, b2, r) } else { self.mk_urem(a2, b2, r) };
                }
            }
            K::Ite(c, a, b) => {
                if self.is_const(a).is_some() || self.is_const(b).is_some() {
                    let a = self.mk_zext(a, w, r);
                    let b = self.mk_zext(b, w, r);
                    return self.mk_ite(c, a, b, r);
                }
            }
            _ => {}
        }
        self.intern(K::ZExt(e), w)
    }
    pub fn resize(&mut self, e: E, w: u32, r: &Ranges) -> E {
        let we = self.w(e);
        if we < w {
            self.mk_zext(e, w, r)
        } else if we > w {
            self.mk_extract(e, 0, w, r)
        } else {
            e
        }
    }
    pub fn mk_sext(&mut self, e: E, w: u32, r: &Ranges) -> E {
        let we = self.w(e);
        if we == w {
            return e;
        }
        if let Some(v) = self.is_const(e) {
            return self.cst(sx(v, we) as u128, w);
        }
        if we > 1 {
            let (_, hi) = self.range(e, r);
            if hi < (1u128 << (we - 1)) {
                return self.mk_zext(e, w, r);
            }
            if matches!(self.k(e), K::Var(_)) && self.range(e, r).0 >= (1u128 << (we - 1)) {
                let z = self.mk_zext(e, w, r);
                return self.mk_lin(vec![(z, 1)], mask(w) ^ mask(we), w, r);
            }
        }
        match self.k(e).clone() {
            K::SExt(x) => return self.mk_sext(x, w, r),
            K::Extract(x, 0) => {
                // sext(trunc(x)) where x's signed value fits
                let (l, h) = self.srange(x, r);
                let lim = (mask(we) >> 1) as i128;
                if l >= -lim - 1 && h <= lim {
                    let wx = self.w(x);
                    return if wx < w {
                        self.mk_sext(x, w, r)
                    } else if wx > w {
                        self.mk_extract(x, 0, w, r)
                    } else {
                        x
                    };
                }
            }
            K::Lin(t, c) if we <= 64 => {
                if let Some((l, h)) = self.lin_interval(&t, c, we, r, RD) {
                    let half = 1i128 << (we - 1);
                    let k = (l + half) >> we;
                    if k == (h + half) >> we {
                        let mut nt = vec![];
                        for (a, kk) in t.iter() {
                            let z = self.mk_zext(*a, w, r);
                            nt.push((z, sx(*kk, we) as u128 & mask(w)));
                        }
                        let nc = (sx(c, we) - (k << we)) as u128;
                        return self.mk_lin(nt, nc, w, r);
                    }
                }
            }
            K::Ite(c, a, b) => {
                if self.is_const(a).is_some() || self.is_const(b).is_some() {
                    let a = self.mk_sext(a, w, r);
                    let b = self.mk_sext(b, w, r);
                    return self.mk_ite(c, a, b, r);
                }
            }
            _ if we == 1 => {
                let a = self.cst(mask(w), w);
                let b = self.cst(0, w);
                return self.mk_ite(e, a, b, r);
            }
            _ => {}
        }
        if we == 1 {
            let a = self.cst(mask(w), w);
            let b = self.cst(0, w);
            return self.mk_ite(e, a, b, r);
        }
        self.intern(K::SExt(e), w)
    }
    pub fn mk_extract(&mut self, e: E, lo: u32, w: u32, r: &Ranges) -> E {
        let we = self.w(e);
        debug_assert!(lo + w <= we);
        if w == we {
            return e;
        }
        if lo > 0 {
            let (_, hi) = self.range(e, r);
            if hi >> lo == 0 {
                return self.cst(0, w);
            }
        }
        match self.k(e).clone() {
            K::Const(v) => return self.cst(v >> lo, w),
            K::Extract(x, l2) => return self.mk_extract(x, l2 + lo, w, r),
            K::ZExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.mk_extract(x, lo, w, r);
                }
                if lo >= wx {
                    return self.cst(0, w);
                }
                let y = self.mk_extract(x, lo, wx - lo, r);
                return self.mk_zext(y, w, r);
            }
            K::SExt(x) => {
                let wx = self.w(x);
                if lo + w <= wx {
                    return self.mk_extract(x, lo, w, r);
                }
                if lo < wx {
                    let y = self.mk_extract(x, lo, wx - lo, r);
                    return self.mk_sext(y, w, r);
                }
            }
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo + w <= wl {
                    return self.mk_extract(l, lo, w, r);
                }
                if lo >= wl {
                    return self.mk_extract(h, lo - wl, w, r);
                }
                let a = self.mk_extract(l, lo, wl - lo, r);
                let b = self.mk_extract(h, 0, lo + w - wl, r);
                return self.mk_concat(b, a, r);
            }
            K::Lin(t, c) => {
                if lo == 0 {
                    let mut nt = vec![];
                    for (a, k) in t.iter() {
                        if *k & mask(w) != 0 {
                            let x = self.mk_extract(*a, 0, w, r);
                            nt.push((x, *k & mask(w)));
                        }
                    }
                    if w == 1 {
                        let mut acc = self.cst(c, 1);
                        for (x, k) in nt {
                            if k & 1 == 1 {
                                acc = self.mk_xor(acc, x, r);
                            }
                        }
                        return acc;
                    }
                    return self.mk_lin(nt, c, w, r);
                }
                // all terms are multiples of 2^lo and nothing wraps: shift through
                if self.tz(e) >= lo
                    && we <= 64
                    && let Some((l, h)) = self.lin_interval(&t, c, we, r, RD)
                    && l >= 0
                    && h <= mask(we) as i128
                    && t.iter().all(|(_, k)| k.trailing_zeros() >= lo)
                {
                    let nt = t.iter().map(|(a, k)| (*a, (sx(*k, we) >> lo) as u128 & mask(we))).collect();
                    let x = self.mk_lin(nt, (sx(c, we) >> lo) as u128, we, r);
                    return self.mk_extract(x, 0, w, r);
                }
                if we <= 64
                    && lo < 64
                    && let Some((dt, dc, rt, rc)) = self.split_div(&t, c, we, 1u128 << lo, r)
                {
                    let rest = self.mk_lin(rt, rc, we, r);
                    let (_, rh) = self.range(rest, r);
                    if rh < (1u128 << lo) {
                        let nt = dt.into_iter().map(|(a, k)| (a, (sx(k, we) >> lo) as u128 & mask(we))).collect();
                        let x = self.mk_lin(nt, (sx(dc, we) >> lo) as u128, we, r);
                        return self.mk_extract(x, 0, w, r);
                    }
                }
            }
            K::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.mk_extract(a, lo, w, r);
                let y = self.mk_extract(b, lo, w, r);
                return match op {
                    Op::And => self.mk_and(x, y, r),
                    Op::Or => self.mk_or(x, y, r),
                    _ => self.mk_xor(x, y, r),
                };
            }
            K::Ite(c, a, b) => {
                if self.is_const(a).is_some() || self.is_const(b).is_some() {
                    let a = self.mk_extract(a, lo, w, r);
                    let b = self.mk_extract(b, lo, w, r);
                    return self.mk_ite(c, a, b, r);
                }
            }
            _ => {}
        }
        self.intern(K::Extract(e, lo), w)
    }
    /// Extract node without any simplification (used for bytes in memory).
    pub fn raw_extract(&mut self, e: E, lo: u32, w: u32) -> E {
        if self.w(e) == w {
            return e;
        }
        self.intern(K::Extract(e, lo), w)
    }
    pub fn mk_concat(&mut self, h: E, l: E, r: &Ranges) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        match (self.k(h).clone(), self.k(l).clone()) {
            (K::Const(a), K::Const(b)) => return self.cst((a << wl) | b, w),
            (K::Const(0), _) => return self.mk_zext(l, w, r),
            (K::Extract(x, a), K::Extract(y, b)) if x == y && a == b + wl => return self.mk_extract(x, b, w, r),
            _ => {}
        }
        self.intern(K::Concat(h, l), w)
    }
    pub fn mk_ite(&mut self, c: E, a: E, b: E, r: &Ranges) -> E {
        if let Some(v) = self.is_const(c) {
            return if v == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        if self.w(a) == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.mk_not(c),
                (Some(1), None) => return self.mk_or(c, b, r),
                (Some(0), None) => {
                    let n = self.mk_not(c);
                    return self.mk_and(n, b, r);
                }
                (None, Some(0)) => return self.mk_and(c, a, r),
                (None, Some(1)) => {
                    let n = self.mk_not(c);
                    return self.mk_or(n, a, r);
                }
                _ => {}
            }
        }
        if let K::Not(x) = *self.k(c) {
            return self.mk_ite(x, b, a, r);
        }
        let w = self.w(a);
        self.intern(K::Ite(c, a, b), w)
    }
    fn const_leaves(&self, e: E, n: &mut u32) -> bool {
        if *n == 0 {
            return false;
        }
        *n -= 1;
        match self.k(e) {
            K::Const(_) => true,
            K::Ite(_, a, b) => {
                let (a, b) = (*a, *b);
                self.const_leaves(a, n) && self.const_leaves(b, n)
            }
            _ => false,
        }
    }
    fn cmp_ite(&mut self, op: Cmp, e: E, k: E, flip: bool, r: &Ranges) -> E {
        if let K::Ite(c, a, b) = *self.k(e) {
            let x = self.cmp_ite(op, a, k, flip, r);
            let y = self.cmp_ite(op, b, k, flip, r);
            return self.mk_ite(c, x, y, r);
        }
        if flip { self.mk_cmp(op, k, e, r) } else { self.mk_cmp(op, e, k, r) }
    }
    pub fn mk_cmp(&mut self, op: Cmp, a: E, b: E, r: &Ranges) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return self.b(matches!(op, Cmp::Eq | Cmp::Ule | Cmp::Sle));
        }
        let (ca, cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.b(match op {
                Cmp::Eq => x == y,
                Cmp::Ult => x < y,
                Cmp::Ule => x <= y,
                Cmp::Slt => sx(x, w) < sx(y, w),
                Cmp::Sle => sx(x, w) <= sx(y, w),
            });
        }
        if let Cmp::Slt | Cmp::Sle = op {
            let (a0, a1) = self.srange(a, r);
            let (b0, b1) = self.srange(b, r);
            if op == Cmp::Slt {
                if a1 < b0 {
                    return Self::T;
                }
                if a0 >= b1 {
                    return Self::F;
                }
            } else {
                if a1 <= b0 {
                    return Self::T;
                }
                if a0 > b1 {
                    return Self::F;
                }
            }
            if (a0 >= 0 && b0 >= 0) || (a1 < 0 && b1 < 0) {
                return self.mk_cmp(if op == Cmp::Slt { Cmp::Ult } else { Cmp::Ule }, a, b, r);
            }
        } else {
            let (a0, a1) = self.range(a, r);
            let (b0, b1) = self.range(b, r);
            match op {
                Cmp::Eq => {
                    if a1 < b0 || b1 < a0 {
                        return Self::F;
                    }
                    if a0 == a1 && b0 == b1 && a0 == b0 {
                        return Self::T;
                    }
                }
                Cmp::Ult => {
                    if a1 < b0 {
                        return Self::T;
                    }
                    if a0 >= b1 {
                        return Self::F;
                    }
                }
                _ => {
                    if a1 <= b0 {
                        return Self::T;
                    }
                    if a0 > b1 {
                        return Self::F;
                    }
                }
            }
        }
        if op == Cmp::Eq && ca.is_some() {
            return self.mk_cmp(op, b, a, r);
        }
        if w == 1 && op == Cmp::Eq {
            if let Some(v) = cb {
                return if v == 1 { a } else { self.mk_not(a) };
            }
            let x = self.mk_xor(a, b, r);
            return self.mk_not(x);
        }
        if w == 1 {
            // 1-bit order comparisons
            let na = self.mk_not(a);
            let nb = self.mk_not(b);
            return match op {
                Cmp::Ult => self.mk_and(na, b, r),
                Cmp::Ule => self.mk_or(na, b, r),
                Cmp::Slt => self.mk_and(a, nb, r),
                _ => self.mk_or(a, nb, r),
            };
        }
        // constant against an ite-tree with constant leaves
        let mut n = 300;
        if cb.is_some() && matches!(self.k(a), K::Ite(..)) && self.const_leaves(a, &mut n) {
            return self.cmp_ite(op, a, b, false, r);
        }
        let mut n = 300;
        if ca.is_some() && matches!(self.k(b), K::Ite(..)) && self.const_leaves(b, &mut n) {
            return self.cmp_ite(op, b, a, true, r);
        }
        if op == Cmp::Eq {
            if let Some(c) = cb {
                match self.k(a).clone() {
                    K::ZExt(x) => {
                        let wx = self.w(x);
                        if c > mask(wx) {
                            return Self::F;
                        }
                        let k = self.cst(c, wx);
                        return self.mk_cmp(Cmp::Eq, x, k, r);
                    }
                    K::SExt(x) => {
                        let wx = self.w(x);
                        let k = c & mask(wx);
                        if sx(k, wx) as u128 & mask(w) != c {
                            return Self::F;
                        }
                        let k = self.cst(k, wx);
                        return self.mk_cmp(Cmp::Eq, x, k, r);
                    }
                    K::Concat(h, l) => {
                        let wl = self.w(l);
                        let kh = self.cst(c >> wl, w - wl);
                        let kl = self.cst(c, wl);
                        let x = self.mk_cmp(Cmp::Eq, h, kh, r);
                        let y = self.mk_cmp(Cmp::Eq, l, kl, r);
                        return self.mk_and(x, y, r);
                    }
                    K::Lin(t, k) => {
                        if t.len() == 1 && t[0].1 == 1 {
                            let kk = self.cst(c.wrapping_sub(k), w);
                            return self.mk_cmp(Cmp::Eq, t[0].0, kk, r);
                        }
                        if t.len() == 1 && t[0].1 == mask(w) {
                            let kk = self.cst(k.wrapping_sub(c), w);
                            return self.mk_cmp(Cmp::Eq, t[0].0, kk, r);
                        }
                        if t.len() == 1 && t[0].1 & 1 == 1 {
                            // odd coefficient: invertible
                            let inv = inverse(t[0].1, w);
                            let kk = self.cst(c.wrapping_sub(k).wrapping_mul(inv), w);
                            return self.mk_cmp(Cmp::Eq, t[0].0, kk, r);
                        }
                        if k != 0 {
                            let x = self.mk_lin(t.to_vec(), 0, w, r);
                            let kk = self.cst(c.wrapping_sub(k), w);
                            return self.mk_cmp(Cmp::Eq, x, kk, r);
                        }
                    }
                    _ => {}
                }
            } else {
                // compare differences when that folds
                if matches!(self.k(a), K::Lin(..)) || matches!(self.k(b), K::Lin(..)) {
                    let d = self.mk_sub(a, b, r);
                    if let Some(v) = self.is_const(d) {
                        return self.b(v == 0);
                    }
                }
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a).clone(), self.k(b).clone())
                    && self.w(x) == self.w(y)
                {
                    return self.mk_cmp(Cmp::Eq, x, y, r);
                }
                let (a, b) = (a.min(b), a.max(b));
                return self.intern(K::Cmp(Cmp::Eq, a, b), 1);
            }
        } else if let Cmp::Ult | Cmp::Ule = op {
            if let (K::ZExt(x), Some(c)) = (self.k(a).clone(), cb) {
                let wx = self.w(x);
                if c <= mask(wx) {
                    let k = self.cst(c, wx);
                    return self.mk_cmp(op, x, k, r);
                }
            }
            if let (Some(c), K::ZExt(x)) = (ca, self.k(b).clone()) {
                let wx = self.w(x);
                if c <= mask(wx) {
                    let k = self.cst(c, wx);
                    return self.mk_cmp(op, k, x, r);
                }
            }
            // canonical: x < 1  ->  x == 0
            if op == Cmp::Ult && cb == Some(1) {
                let z = self.cst(0, w);
                return self.mk_cmp(Cmp::Eq, a, z, r);
            }
            // x/c < k  ->  x < k*c ; k <= x/c -> k*c <= x
            if let (K::Bin(Op::UDiv, x, d), Some(c)) = (self.k(a).clone(), cb)
                && let Some(d) = self.is_const(d)
                && d > 0
            {
                let bound = if op == Cmp::Ult { Some(c) } else { c.checked_add(1) };
                if let Some(p) = bound.and_then(|b| b.checked_mul(d))
                    && p <= mask(w)
                {
                    let k = self.cst(p, w);
                    return self.mk_cmp(Cmp::Ult, x, k, r);
                }
            }
            if let (Some(c), K::Bin(Op::UDiv, x, d)) = (ca, self.k(b).clone())
                && let Some(d) = self.is_const(d)
                && d > 0
            {
                let bound = if op == Cmp::Ule { Some(c) } else { c.checked_add(1) };
                if let Some(p) = bound.and_then(|b| b.checked_mul(d))
                    && p <= mask(w)
                {
                    let k = self.cst(p, w);
                    return self.mk_cmp(Cmp::Ule, k, x, r);
                }
            }
        }
        self.intern(K::Cmp(op, a, b), 1)
    }

    /// Rebuild an expression under the given ranges.
    pub fn resimp(&mut self, e: E, r: &Ranges, memo: &mut FxMap<E, E>) -> E {
        if self.is_const(e).is_some() {
            return e;
        }
        if let Some(&x) = memo.get(&e) {
            return x;
        }
        let (l, h) = self.range(e, r);
        let w = self.w(e);
        let x = if l == h {
            self.cst(l, w)
        } else {
            match self.k(e).clone() {
                K::Const(_) | K::Var(_) => e,
                K::Lin(t, c) => {
                    let nt = t.iter().map(|(a, k)| (self.resimp(*a, r, memo), *k)).collect();
                    self.mk_lin(nt, c, w, r)
                }
                K::Bin(op, a, b) => {
                    let (a, b) = (self.resimp(a, r, memo), self.resimp(b, r, memo));
                    match op {
                        Op::Mul => self.mk_mul(a, b, r),
                        Op::UDiv => self.mk_udiv(a, b, r),
                        Op::URem => self.mk_urem(a, b, r),
                        Op::SDiv => self.mk_sdiv(a, b, r),
                        Op::SRem => self.mk_srem(a, b, r),
                        Op::And => self.mk_and(a, b, r),
                        Op::Or => self.mk_or(a, b, r),
                        Op::Xor => self.mk_xor(a, b, r),
                        _ => self.mk_shift(op, a, b, r),
                    }
                }
                K::Concat(a, b) => {
                    let (a, b) = (self.resimp(a, r, memo), self.resimp(b, r, memo));
                    self.mk_concat(a, b, r)
                }
                K::Extract(a, lo) => {
                    let a = self.resimp(a, r, memo);
                    self.mk_extract(a, lo, w, r)
                }
                K::ZExt(a) => {
                    let a = self.resimp(a, r, memo);
                    self.mk_zext(a, w, r)
                }
                K::SExt(a) => {
                    let a = self.resimp(a, r, memo);
                    self.mk_sext(a, w, r)
                }
                K::Not(a) => {
                    let a = self.resimp(a, r, memo);
                    self.mk_not(a)
                }
                K::Ite(c, a, b) => {
                    let c = self.resimp(c, r, memo);
                    let (a, b) = (self.resimp(a, r, memo), self.resimp(b, r, memo));
                    self.mk_ite(c, a, b, r)
                }
                K::Cmp(op, a, b) => {
                    let (a, b) = (self.resimp(a, r, memo), self.resimp(b, r, memo));
                    self.mk_cmp(op, a, b, r)
                }
            }
        };
        memo.insert(e, x);
        x
    }
    // ----------------------------------------------------------- refinement
    pub fn refine(&self, rg: &mut Ranges, e: E, val: bool) {
        match self.k(e) {
            K::Not(x) => self.refine(rg, *x, !val),
            K::Bin(Op::And, a, b) if val => {
                self.refine(rg, *a, true);
                self.refine(rg, *b, true);
            }
            K::Bin(Op::Or, a, b) if !val => {
                self.refine(rg, *a, false);
                self.refine(rg, *b, false);
            }
            K::Cmp(op, a, b) => {
                let (a, b) = (*a, *b);
                let w = self.w(a);
                let m = mask(w);
                match (op, val) {
                    (Cmp::Eq, true) => {
                        let (x0, x1) = self.range(a, rg);
                        let (y0, y1) = self.range(b, rg);
                        self.set_range(rg, a, y0, y1);
                        self.set_range(rg, b, x0, x1);
                    }
                    (Cmp::Eq, false) => {
                        if let Some(c) = self.is_const(b) {
                            let (x0, x1) = self.range(a, rg);
                            if c == x0 && x0 < x1 {
                                self.set_range(rg, a, x0 + 1, x1);
                            } else if c == x1 && x0 < x1 {
                                self.set_range(rg, a, x0, x1 - 1);
                            }
                        }
                    }
                    (Cmp::Ult, true) | (Cmp::Ule, false) => {
                        // a < b (or, negated ule: b < a)
                        let (a, b) = if val { (a, b) } else { (b, a) };
                        let (_, y1) = self.range(b, rg);
                        let (x0, _) = self.range(a, rg);
                        if y1 > 0 {
                            self.set_range(rg, a, 0, y1 - 1);
                        }
                        if x0 < m {
                            self.set_range(rg, b, x0 + 1, m);
                        }
                    }
                    (Cmp::Ule, true) | (Cmp::Ult, false) => {
                        let (a, b) = if val { (a, b) } else { (b, a) };
                        let (_, y1) = self.range(b, rg);
                        let (x0, _) = self.range(a, rg);
                        self.set_range(rg, a, 0, y1);
                        self.set_range(rg, b, x0, m);
                    }
                    (Cmp::Slt, _) | (Cmp::Sle, _) => {
                        let (strict, a, b) = match (op, val) {
                            (Cmp::Slt, true) => (1, a, b),
                            (Cmp::Slt, false) => (0, b, a),
                            (Cmp::Sle, true) => (0, a, b),
                            _ => (1, b, a),
                        };
                        // a (<|<=) b signed
                        let (_, b1) = self.srange(b, rg);
                        let (a0, a1) = self.srange(a, rg);
                        let na1 = a1.min(b1 - strict);
                        self.set_srange(rg, a, a0, na1);
                        let (b0, b1) = self.srange(b, rg);
                        let nb0 = b0.max(a0 + strict);
                        self.set_srange(rg, b, nb0, b1);
                    }
                }
            }
            _ => {
                self.set_range(rg, e, val as u128, val as u128);
            }
        }
    }
    fn set_srange(&self, rg: &mut Ranges, e: E, l: i128, h: i128) {
        if l > h {
            return;
        }
        let w = self.w(e);
        let m = mask(w);
        if l >= 0 || h < 0 {
            self.set_range(rg, e, l as u128 & m, h as u128 & m);
        }
    }
    fn set_range(&self, rg: &mut Ranges, e: E, lo: u128, hi: u128) {
        if self.is_const(e).is_some() {
            return;
        }
        let (l, h) = self.range(e, rg);
        let (nl, nh) = (l.max(lo), h.min(hi));
        if nl > nh || (nl == l && nh == h) {
            return;
        }
        rg.insert(e, (nl, nh));
        let w = self.w(e);
        match self.k(e) {
            K::ZExt(x) => self.set_range(rg, *x, nl, nh),
            K::SExt(x) => {
                let wx = self.w(*x);
                if nh < (1u128 << (wx - 1)) {
                    self.set_range(rg, *x, nl, nh);
                } else if sx(nl, w) < 0 && sx(nh, w) < 0 {
                    self.set_range(rg, *x, nl & mask(wx), nh & mask(wx));
                }
            }
            K::Extract(x, 0) => {
                let (_, xh) = self.range(*x, rg);
                if xh <= mask(w) {
                    self.set_range(rg, *x, nl, nh);
                }
            }
            K::Bin(Op::UDiv, y, c) => {
                if let Some(c) = self.is_const(*c)
                    && let (Some(a), Some(b)) = (nl.checked_mul(c), nh.checked_mul(c).and_then(|v| v.checked_add(c - 1)))
                {
                    self.set_range(rg, *y, a, b.min(mask(w)));
                }
            }
            K::Lin(t, c) if t.len() == 1 => {
                let m = mask(w);
                if t[0].1 == 1 {
                    let a = nl.wrapping_sub(*c) & m;
                    let b = nh.wrapping_sub(*c) & m;
                    if a <= b {
                        self.set_range(rg, t[0].0, a, b);
                    }
                } else if t[0].1 == m {
                    let a = c.wrapping_sub(nh) & m;
                    let b = c.wrapping_sub(nl) & m;
                    if a <= b {
                        self.set_range(rg, t[0].0, a, b);
                    }
                }
            }
            _ => {}
        }
    }

    // ------------------------------------------------------------ evaluation
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.epoch += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len() + 1024, (0, 0));
        }
        let ep = self.epoch;
        let mut memo = std::mem::take(&mut self.memo);
        let v = self.ev(e, model, &mut memo, ep);
        self.memo = memo;
        v
    }
    fn ev(&self, e: E, md: &[u128], memo: &mut [(u32, u128)], ep: u32) -> u128 {
        let n = &self.nodes[e as usize];
        match &n.k {
            K::Const(v) => return *v,
            K::Var(i) => return md.get(*i as usize).copied().unwrap_or(0) & mask(n.w),
            _ => {}
        }
        if memo[e as usize].0 == ep {
            return memo[e as usize].1;
        }
        let m = mask(n.w);
        let v = match &n.k {
            K::Const(_) | K::Var(_) => unreachable!(),
            K::Lin(t, c) => {
                let mut s = *c;
                for (a, k) in t.iter() {
                    s = s.wrapping_add(self.ev(*a, md, memo, ep).wrapping_mul(*k));
                }
                s & m
            }
            K::Bin(op, a, b) => {
                let x = self.ev(*a, md, memo, ep);
                let y = self.ev(*b, md, memo, ep);
                bin(*op, x, y, n.w)
            }
            K::Concat(h, l) => (self.ev(*h, md, memo, ep) << self.w(*l)) | self.ev(*l, md, memo, ep),
            K::Extract(x, lo) => (self.ev(*x, md, memo, ep) >> lo) & m,
            K::ZExt(x) => self.ev(*x, md, memo, ep),
            K::SExt(x) => sx(self.ev(*x, md, memo, ep), self.w(*x)) as u128 & m,
            K::Ite(c, a, b) => {
                if self.ev(*c, md, memo, ep) == 1 {
                    self.ev(*a, md, memo, ep)
                } else {
                    self.ev(*b, md, memo, ep)
                }
            }
            K::Not(x) => self.ev(*x, md, memo, ep) ^ 1,
            K::Cmp(op, a, b) => {
                let x = self.ev(*a, md, memo, ep);
                let y = self.ev(*b, md, memo, ep);
                let w = self.w(*a);
                (match op {
                    Cmp::Eq => x == y,
                    Cmp::Ult => x < y,
                    Cmp::Ule => x <= y,
                    Cmp::Slt => sx(x, w) < sx(y, w),
                    Cmp::Sle => sx(x, w) <= sx(y, w),
                }) as u128
            }
        };
        memo[e as usize] = (ep, v);
        v
    }
    /// Truth set of a boolean over a single variable of at most 8 bits.
    pub fn truth_set(&mut self, e: E) -> Option<(u32, Rc<[u64; 4]>)> {
        let sup = self.sup(e);
        if sup.len() != 1 {
            return None;
        }
        let v = sup[0];
        if self.var_w[v as usize] > 8 {
            return None;
        }
        if let Some(t) = self.truth.get(&e) {
            return Some((v, t.clone()));
        }
        let mut md = vec![0u128; v as usize + 1];
        let mut s = [0u64; 4];
        for x in 0..(1usize << self.var_w[v as usize]) {
            md[v as usize] = x as u128;
            if self.eval(e, &md) == 1 {
                s[x >> 6] |= 1 << (x & 63);
            }
        }
        let t = Rc::new(s);
        self.truth.insert(e, t.clone());
        Some((v, t))
    }
    #[allow(dead_code)]
    pub fn show(&self, e: E) -> String {
        fn go(p: &Pool, e: E, d: u32, s: &mut String) {
            if d == 0 {
                s.push_str("..");
                return;
            }
            match p.k(e) {
                K::Const(v) => s.push_str(&format!("{v:#x}")),
                K::Var(i) => s.push_str(&format!("v{i}:{}", p.w(e))),
                K::Lin(t, c) => {
                    s.push('[');
                    for (a, k) in t.iter() {
                        s.push_str(&format!("{}*", sx(*k, p.w(e))));
                        go(p, *a, d - 1, s);
                        s.push_str(" + ");
                    }
                    s.push_str(&format!("{}]", sx(*c, p.w(e))));
                }
                K::Bin(op, a, b) => {
                    s.push_str(&format!("({op:?} "));
                    go(p, *a, d - 1, s);
                    s.push(' ');
                    go(p, *b, d - 1, s);
                    s.push(')');
                }
                K::Cmp(op, a, b) => {
                    s.push_str(&format!("({op:?} "));
                    go(p, *a, d - 1, s);
                    s.push(' ');
                    go(p, *b, d - 1, s);
                    s.push(')');
                }
                K::Concat(a, b) => {
                    s.push_str("(cat ");
                    go(p, *a, d - 1, s);
                    s.push(' ');
                    go(p, *b, d - 1, s);
                    s.push(')');
                }
                K::Extract(a, lo) => {
                    s.push_str(&format!("(ext{}+{} ", lo, p.w(e)));
                    go(p, *a, d - 1, s);
                    s.push(')');
                }
                K::ZExt(a) => {
                    s.push_str(&format!("(zx{} ", p.w(e)));
                    go(p, *a, d - 1, s);
                    s.push(')');
                }
                K::SExt(a) => {
                    s.push_str(&format!("(sx{} ", p.w(e)));
                    go(p, *a, d - 1, s);
                    s.push(')');
                }
                K::Not(a) => {
                    s.push('!');
                    go(p, *a, d - 1, s);
                }
                K::Ite(c, a, b) => {
                    s.push_str("(ite ");
                    go(p, *c, d - 1, s);
                    s.push(' ');
                    go(p, *a, d - 1, s);
                    s.push(' ');
                    go(p, *b, d - 1, s);
                    s.push(')');
                }
            }
        }
        let mut s = String::new();
        go(self, e, 8, &mut s);
        s
    }
}
fn inverse(a: u128, w: u32) -> u128 {
    let mut x: u128 = 1;
    for _ in 0..8 {
        x = x.wrapping_mul(2u128.wrapping_sub(a.wrapping_mul(x)));
    }
    x & mask(w)
}
pub fn bin(op: Op, x: u128, y: u128, w: u32) -> u128 {
    let m = mask(w);
    (match op {
        Op::Mul => x.wrapping_mul(y),
        Op::UDiv => {
            if y == 0 {
                m
            } else {
                x / y
            }
        }
        Op::URem => {
            if y == 0 {
                x
            } else {
                x % y
            }
        }
        Op::SDiv => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 {
                if a < 0 { 1 } else { m }
            } else {
                a.wrapping_div(b) as u128
            }
        }
        Op::SRem => {
            let (a, b) = (sx(x, w), sx(y, w));
            if b == 0 { x } else { a.wrapping_rem(b) as u128 }
        }
        Op::And => x & y,
        Op::Or => x | y,
        Op::Xor => x ^ y,
        Op::Shl => {
            if y >= w as u128 {
                0
            } else {
                x << y
            }
        }
        Op::LShr => {
            if y >= w as u128 {
                0
            } else {
                x >> y
            }
        }
        Op::AShr => {
            let s = y.min(w as u128 - 1);
            (sx(x, w) >> s) as u128
        }
    }) & m
}
