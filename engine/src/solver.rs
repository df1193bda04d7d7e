//! Z3 back end: decides satisfiability of path conditions.
use crate::expr::*;
use std::ffi::{CString, c_char, c_int, c_uint, c_void};
use std::time::Instant;

type Z = *mut c_void;
unsafe extern "C" {
    fn Z3_mk_config() -> Z;
    fn Z3_set_param_value(c: Z, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: Z) -> Z;
    fn Z3_del_context(c: Z);
    fn Z3_del_config(c: Z);
    fn Z3_mk_string_symbol(c: Z, s: *const c_char) -> Z;
    fn Z3_mk_bv_sort(c: Z, n: c_uint) -> Z;
    fn Z3_mk_const(c: Z, s: Z, t: Z) -> Z;
    fn Z3_mk_numeral(c: Z, s: *const c_char, t: Z) -> Z;
    fn Z3_mk_unsigned_int64(c: Z, v: u64, t: Z) -> Z;
    fn Z3_mk_bvadd(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvmul(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvudiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvurem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsdiv(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsrem(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvand(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvxor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvshl(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvlshr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvashr(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_concat(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_extract(c: Z, h: c_uint, l: c_uint, a: Z) -> Z;
    fn Z3_mk_zero_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_sign_ext(c: Z, n: c_uint, a: Z) -> Z;
    fn Z3_mk_eq(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvult(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvule(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvslt(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_bvsle(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_ite(c: Z, a: Z, b: Z, d: Z) -> Z;
    fn Z3_mk_not(c: Z, a: Z) -> Z;
    fn Z3_mk_and(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_or(c: Z, n: c_uint, a: *const Z) -> Z;
    fn Z3_mk_xor(c: Z, a: Z, b: Z) -> Z;
    fn Z3_mk_true(c: Z) -> Z;
    fn Z3_mk_false(c: Z) -> Z;
    fn Z3_mk_simple_solver(c: Z) -> Z;
    fn Z3_mk_solver_for_logic(c: Z, s: Z) -> Z;
    fn Z3_solver_inc_ref(c: Z, s: Z);
    fn Z3_solver_reset(c: Z, s: Z);
    fn Z3_solver_assert(c: Z, s: Z, a: Z);
    fn Z3_solver_check(c: Z, s: Z) -> c_int;
    fn Z3_solver_get_model(c: Z, s: Z) -> Z;
    fn Z3_solver_set_params(c: Z, s: Z, p: Z);
    fn Z3_model_inc_ref(c: Z, m: Z);
    fn Z3_model_dec_ref(c: Z, m: Z);
    fn Z3_model_eval(c: Z, m: Z, t: Z, comp: bool, v: *mut Z) -> bool;
    fn Z3_get_numeral_string(c: Z, a: Z) -> *const c_char;
    fn Z3_mk_params(c: Z) -> Z;
    fn Z3_params_inc_ref(c: Z, p: Z);
    fn Z3_params_set_uint(c: Z, p: Z, k: Z, v: c_uint);
    fn Z3_set_error_handler(c: Z, h: extern "C" fn(Z, c_int));
}
extern "C" fn err(_c: Z, e: c_int) {
    eprintln!("z3 error {e}");
    std::process::exit(4);
}

pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: Z,
    fast: Z,
    slow: Z,
    /// bit-vector translation (booleans are 1-bit vectors here)
    bv: Vec<Z>,
    bo: Vec<Z>,
    vars: Vec<Z>,
    cache: FxMap<Vec<E>, Option<Vec<(u32, u128)>>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub fd_decisions: u64,
    /// decisions confirmed by Z3, and the time that took
    pub crossed: u64,
    pub cross_s: f64,
    pub range_decisions: u64,
    pub time: f64,
    pub max_time: f64,
    made: usize,
    pub slow_ms: u32,
}

impl Solver {
    pub fn new(slow_ms: u32) -> Self {
        let mut s = Solver {
            ctx: std::ptr::null_mut(),
            fast: std::ptr::null_mut(),
            slow: std::ptr::null_mut(),
            bv: vec![],
            bo: vec![],
            vars: vec![],
            cache: FxMap::default(),
            queries: 0,
            sat: 0,
            unsat: 0,
            unknown: 0,
            cache_hits: 0,
            fd_decisions: 0,
            crossed: 0,
            cross_s: 0.0,
            range_decisions: 0,
            time: 0.0,
            max_time: 0.0,
            made: 0,
            slow_ms,
        };
        s.init();
        s
    }
    fn init(&mut self) {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            let ctx = Z3_mk_context(cfg);
            Z3_del_config(cfg);
            Z3_set_error_handler(ctx, err);
            let sym = |s: &str| {
                let c = CString::new(s).unwrap();
                Z3_mk_string_symbol(ctx, c.as_ptr())
            };
            let mk = |ms: u32, logic: Option<&str>| {
                let s = match logic {
                    None => Z3_mk_simple_solver(ctx),
                    Some(l) => Z3_mk_solver_for_logic(ctx, sym(l)),
                };
                Z3_solver_inc_ref(ctx, s);
                let p = Z3_mk_params(ctx);
                Z3_params_inc_ref(ctx, p);
                Z3_params_set_uint(ctx, p, sym("timeout"), ms);
                Z3_solver_set_params(ctx, s, p);
                s
            };
            self.fast = mk(400, None);
            self.slow = mk(self.slow_ms, Some("QF_BV"));
            self.ctx = ctx;
        }
    }
    fn reset(&mut self) {
        unsafe { Z3_del_context(self.ctx) };
        self.bv.clear();
        self.bo.clear();
        self.vars.clear();
        self.made = 0;
        self.init();
    }
    fn keep(&mut self, z: Z) -> Z {
        
        self.made += 1;
        z
    }
    fn sort(&self, w: u32) -> Z {
        unsafe { Z3_mk_bv_sort(self.ctx, w) }
    }
    fn num(&self, v: u128, w: u32) -> Z {
        unsafe {
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, self.sort(w))
            } else {
                let s = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, s.as_ptr(), self.sort(w))
            }
        }
    }
    /// e as a bit-vector term
    fn tr(&mut self, p: &Pool, e: E) -> Z {
        let i = e as usize;
        if self.bv.len() <= i {
            self.bv.resize(p.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bv[i].is_null() {
            return self.bv[i];
        }
        let c = self.ctx;
        let w = p.w(e);
        let z = unsafe {
            match p.k(e).clone() {
                K::Const(v) => self.num(v, w),
                K::Var(v) => {
                    let s = CString::new(format!("v{v}")).unwrap();
                    let z = Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), self.sort(w));
                    if self.vars.len() <= v as usize {
                        self.vars.resize(v as usize + 1, std::ptr::null_mut());
                    }
                    self.vars[v as usize] = z;
                    z
                }
                _ if w == 1 && matches!(p.k(e), K::Cmp(..) | K::Not(_) | K::Bin(Op::And | Op::Or | Op::Xor, ..)) => {
                    let b = self.trb(p, e);
                    let one = self.num(1, 1);
                    let zero = self.num(0, 1);
                    Z3_mk_ite(c, b, one, zero)
                }
                K::Lin(t, k) => {
                    let mut acc = if k != 0 { Some(self.num(k, w)) } else { None };
                    for (a, co) in t.iter() {
                        let x = self.tr(p, *a);
                        let x = if *co == 1 {
                            x
                        } else {
                            let n = self.num(*co, w);
                            Z3_mk_bvmul(c, x, n)
                        };
                        acc = Some(match acc {
                            None => x,
                            Some(s) => Z3_mk_bvadd(c, s, x),
                        });
                    }
                    acc.unwrap()
                }
                K::Bin(op, a, b) => {
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    match op {
                        Op::Mul => Z3_mk_bvmul(c, x, y),
                        Op::UDiv => Z3_mk_bvudiv(c, x, y),
                        Op::URem => Z3_mk_bvurem(c, x, y),
                        Op::SDiv => Z3_mk_bvsdiv(c, x, y),
                        Op::SRem => Z3_mk_bvsrem(c, x, y),
                        Op::And => Z3_mk_bvand(c, x, y),
                        Op::Or => Z3_mk_bvor(c, x, y),
                        Op::Xor => Z3_mk_bvxor(c, x, y),
                        Op::Shl => Z3_mk_bvshl(c, x, y),
                        Op::LShr => Z3_mk_bvlshr(c, x, y),
                        Op::AShr => Z3_mk_bvashr(c, x, y),
                    }
                }
                K::Concat(h, l) => {
                    let x = self.tr(p, h);
                    let y = self.tr(p, l);
                    Z3_mk_concat(c, x, y)
                }
                K::Extract(x, lo) => {
                    let z = self.tr(p, x);
                    Z3_mk_extract(c, lo + w - 1, lo, z)
                }
                K::ZExt(x) => {
                    let z = self.tr(p, x);
                    Z3_mk_zero_ext(c, w - p.w(x), z)
                }
                K::SExt(x) => {
                    let z = self.tr(p, x);
                    Z3_mk_sign_ext(c, w - p.w(x), z)
                }
                K::Ite(q, a, b) => {
                    let q = self.trb(p, q);
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    Z3_mk_ite(c, q, x, y)
                }
                K::Cmp(..) | K::Not(_) => unreachable!(),
            }
        };
        let z = self.keep(z);
        self.bv[i] = z;
        z
    }
    /// e (1 bit) as a Z3 Bool
    fn trb(&mut self, p: &Pool, e: E) -> Z {
        let i = e as usize;
        if self.bo.len() <= i {
            self.bo.resize(p.nodes.len().max(i + 1), std::ptr::null_mut());
        }
        if !self.bo[i].is_null() {
            return self.bo[i];
        }
        let c = self.ctx;
        let z = unsafe {
            match p.k(e).clone() {
                K::Const(v) => {
                    if v == 1 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                K::Not(x) => {
                    let x = self.trb(p, x);
                    Z3_mk_not(c, x)
                }
                K::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                    let x = self.trb(p, a);
                    let y = self.trb(p, b);
                    match op {
                        Op::And => Z3_mk_and(c, 2, [x, y].as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, [x, y].as_ptr()),
                        _ => Z3_mk_xor(c, x, y),
                    }
                }
                K::Cmp(op, a, b) => {
                    let x = self.tr(p, a);
                    let y = self.tr(p, b);
                    match op {
                        Cmp::Eq => Z3_mk_eq(c, x, y),
                        Cmp::Ult => Z3_mk_bvult(c, x, y),
                        Cmp::Ule => Z3_mk_bvule(c, x, y),
                        Cmp::Slt => Z3_mk_bvslt(c, x, y),
                        Cmp::Sle => Z3_mk_bvsle(c, x, y),
                    }
                }
                K::Ite(q, a, b) => {
                    let q = self.trb(p, q);
                    let x = self.trb(p, a);
                    let y = self.trb(p, b);
                    Z3_mk_ite(c, q, x, y)
                }
                _ => {
                    let x = self.tr(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, x, one)
                }
            }
        };
        let z = self.keep(z);
        self.bo[i] = z;
        z
    }

    /// Is the conjunction of `cs` satisfiable? On sat, returns values for its variables.
    pub fn check(&mut self, p: &Pool, cs: &[E], hard: bool) -> Res {
        let mut key: Vec<E> = cs.to_vec();
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cache_hits += 1;
            return match r {
                Some(m) => Res::Sat(m.clone()),
                None => Res::Unsat,
            };
        }
        if self.made > 400_000 {
            self.reset();
        }
        let t0 = Instant::now();
        self.queries += 1;
        let mut zs = vec![];
        let mut vars: Vec<u32> = vec![];
        for &e in &key {
            zs.push(self.trb(p, e));
            vars.extend(p.sup(e).iter());
        }
        vars.sort_unstable();
        vars.dedup();
        let c = self.ctx;
        let mut res = Res::Unknown;
        unsafe {
            let tries = [self.fast, self.slow];
            for &s in if hard { &tries[..] } else { &tries[..1] } {
                Z3_solver_reset(c, s);
                for &z in &zs {
                    Z3_solver_assert(c, s, z);
                }
                let r = Z3_solver_check(c, s);
                if r == 1 {
                    let m = Z3_solver_get_model(c, s);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for &v in &vars {
                        let mut z = std::ptr::null_mut();
                        Z3_model_eval(c, m, self.vars[v as usize], true, &mut z);

                        let st = std::ffi::CStr::from_ptr(Z3_get_numeral_string(c, z)).to_str().unwrap();
                        out.push((v, st.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(c, m);
                    self.sat += 1;
                    res = Res::Sat(out);
                    break;
                } else if r == -1 {
                    self.unsat += 1;
                    res = Res::Unsat;
                    break;
                }
            }
        }
        let dt = t0.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        if dt > 2.0 && std::env::var("SYMEX_SLOWQ").is_ok() {
            eprintln!("slow query {dt:.1}s");
            for &e in &key {
                eprintln!("   {}", p.show(e));
            }
        }
        match &res {
            Res::Sat(m) => {
                self.cache.insert(key, Some(m.clone()));
            }
            Res::Unsat => {
                self.cache.insert(key, None);
            }
            Res::Unknown => self.unknown += 1,
        }
        res
    }
}
