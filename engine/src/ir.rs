//! Lazy translation of LLVM functions into a compact internal form.
use crate::expr::FxMap;
use crate::llvm::*;
use crate::mem::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    I(u64),
    S(u32),
    W(Rc<u128>),
    A(Rc<Vec<Val>>),
}
#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(u64),
    V(Val),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    F32,
    F64,
    /// offset, type; total size
    Agg(Rc<Vec<(u64, Ty)>>, u64),
    Vec(u32, Rc<Ty>),
}
impl Ty {
    pub fn w(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::F32 => 32,
            Ty::F64 => 64,
            _ => 0,
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FB {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum P {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum C {
    Trunc,
    ZExt,
    SExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    FpTrunc,
    FpExt,
    Bit,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ind(Opd),
}
#[derive(Clone, Debug)]
pub enum IK {
    Bin(B, Ty, Opd, Opd),
    FBin(FB, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(P, Ty, Opd, Opd),
    FCmp(u32, Ty, Opd, Opd),
    Select(Ty, bool, Opd, Opd, Opd),
    Cast(C, Ty, Ty, Opd),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u64, u32)>),
    Alloca(u64, u64),
    Call(Callee, Vec<Opd>, Ty, Option<(u32, u32)>),
    Extract(Opd, Vec<u32>),
    Insert(Opd, Opd, Vec<u32>),
    Br(u32),
    Cond(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u64, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Rmw(u32, u32, Opd, Opd),
    CmpXchg(u32, Opd, Opd, Opd),
    Mov(Opd),
    ExtEl(Opd, Opd),
    InsEl(Opd, Opd, Opd),
    Shuf(Opd, Opd, Vec<i32>, u32),
    Bad(String),
}
#[derive(Debug)]
pub struct Ins {
    pub dst: u32,
    pub k: IK,
}
#[derive(Debug)]
pub struct Block {
    pub ins: Vec<Ins>,
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
}
#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nregs: u32,
    pub nparams: u32,
    pub blocks: Vec<Block>,
}
pub const NODST: u32 = u32::MAX;

pub struct FnInfo {
    pub v: V,
    pub name: String,
    pub decl: bool,
    pub kind: FnKind,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum FnKind {
    Plain,
    Panic,
    HashOne,
    Ext(X),
}
pub struct Prog {
    pub m: Module,
    pub td: TD,
    pub fns: Vec<FnInfo>,
    pub by_name: FxMap<String, u32>,
    pub fn_of: FxMap<usize, u32>,
    pub gaddr: FxMap<usize, u64>,
    pub ginfo: Vec<(u64, u64, String)>,
    pub cache: Vec<Option<Rc<Func>>>,
}

fn aggregate_zero(p: &Prog, t: T) -> Val {
    match p.ty(t) {
        Ty::Agg(f, _) => Val::A(Rc::new(f.iter().map(|(_, t)| zero_ty(t)).collect())),
        Ty::Vec(n, e) => Val::A(Rc::new((0..n).map(|_| zero_ty(&e)).collect())),
        t => zero_ty(&t),
    }
}
pub fn zero_ty(t: &Ty) -> Val {
    match t {
        Ty::Agg(f, _) => Val::A(Rc::new(f.iter().map(|(_, t)| zero_ty(t)).collect())),
        Ty::Vec(n, e) => Val::A(Rc::new((0..*n).map(|_| zero_ty(e)).collect())),
        Ty::Int(w) if *w > 64 => Val::W(Rc::new(0)),
        _ => Val::I(0),
    }
}

impl Prog {
    pub fn load(path: &str) -> (Prog, Mem) {
        let m = load_module(path);
        unsafe {
            let td = LLVMGetModuleDataLayout(m);
            let mut p = Prog {
                m,
                td,
                fns: vec![],
                by_name: FxMap::default(),
                fn_of: FxMap::default(),
                gaddr: FxMap::default(),
                ginfo: vec![],
                cache: vec![],
            };
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let n = name(f);
                let decl = LLVMIsDeclaration(f) != 0;
                let id = p.fns.len() as u32;
                let kind = classify(&n, decl);
                p.by_name.insert(n.clone(), id);
                p.fn_of.insert(f as usize, id);
                p.gaddr.insert(f as usize, FUNCS + (id as u64) * 16);
                p.fns.push(FnInfo { v: f, name: n, decl, kind });
                f = LLVMGetNextFunction(f);
            }
            // calls of an external X go to the harness's __model_X, if it has one
            for id in 0..p.fns.len() {
                if p.fns[id].decl
                    && let Some(&t) = p.by_name.get(&format!("__model_{}", p.fns[id].name))
                {
                    let v = p.fns[id].v as usize;
                    p.fn_of.insert(v, t);
                    p.gaddr.insert(v, FUNCS + (t as u64) * 16);
                }
            }
            p.cache = p.fns.iter().map(|_| None).collect();
            let mut mem = Mem::new();
            let mut top = GLOBAL + 4096;
            let mut g = LLVMGetFirstGlobal(m);
            let mut gs = vec![];
            while !g.is_null() {
                let t = LLVMGlobalGetValueType(g);
                let sz = LLVMABISizeOfType(td, t);
                let al = (LLVMGetAlignment(g) as u64).max(LLVMABIAlignmentOfType(td, t) as u64).max(1);
                top = (top + al - 1) & !(al - 1);
                p.gaddr.insert(g as usize, top);
                p.ginfo.push((top, sz, name(g)));
                gs.push((g, top));
                mem.map(top, sz.max(1) + 16);
                top += sz.max(1);
                g = LLVMGetNextGlobal(g);
            }
            let mut al = LLVMGetFirstGlobalAlias(m);
            while !al.is_null() {
                let t = LLVMAliasGetAliasee(al);
                if let Some(&a) = p.gaddr.get(&(t as usize)) {
                    p.gaddr.insert(al as usize, a);
                    if let Some(&f) = p.fn_of.get(&(t as usize)) {
                        p.fn_of.insert(al as usize, f);
                    }
                }
                al = LLVMGetNextGlobalAlias(al);
            }
            for (g, a) in gs {
                if LLVMIsDeclaration(g) == 0 {
                    let init = LLVMGetInitializer(g);
                    p.write_const(&mut mem, a, init);
                }
            }
            (p, mem)
        }
    }
    fn write_const(&self, mem: &mut Mem, a: u64, v: V) {
        unsafe {
            let t = LLVMTypeOf(v);
            if !LLVMIsAConstantAggregateZero(v).is_null() || LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 {
                return;
            }
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let mut n = 0usize;
                let p = LLVMGetRawDataValues(v, &mut n);
                let s = std::slice::from_raw_parts(p as *const u8, n);
                mem.write_bytes(a, s, &[]).unwrap();
                return;
            }
            match LLVMGetTypeKind(t) {
                TK_STRUCT => {
                    for i in 0..LLVMCountStructElementTypes(t) {
                        let e = LLVMGetAggregateElement(v, i);
                        self.write_const(mem, a + LLVMOffsetOfElement(self.td, t, i), e);
                    }
                }
                TK_ARRAY => {
                    let es = LLVMABISizeOfType(self.td, LLVMGetElementType(t));
                    for i in 0..LLVMGetArrayLength2(t) {
                        let e = LLVMGetAggregateElement(v, i as u32);
                        self.write_const(mem, a + i * es, e);
                    }
                }
                _ => {
                    let n = LLVMStoreSizeOfType(self.td, t);
                    match self.cval(v) {
                        Val::I(x) => mem.write_u(a, n as usize, x).unwrap(),
                        Val::W(x) => {
                            mem.write_u(a, 8, *x as u64).unwrap();
                            mem.write_u(a + 8, (n - 8) as usize, (*x >> 64) as u64).unwrap();
                        }
                        x => panic!("global const {x:?}"),
                    }
                }
            }
        }
    }
    pub fn ty(&self, t: T) -> Ty {
        unsafe {
            match LLVMGetTypeKind(t) {
                TK_VOID => Ty::Void,
                TK_INT => Ty::Int(LLVMGetIntTypeWidth(t)),
                TK_PTR => Ty::Int(64),
                TK_FLOAT => Ty::F32,
                TK_DOUBLE => Ty::F64,
                TK_STRUCT => {
                    let n = LLVMCountStructElementTypes(t);
                    let f = (0..n)
                        .map(|i| (LLVMOffsetOfElement(self.td, t, i), self.ty(LLVMStructGetTypeAtIndex(t, i))))
                        .collect();
                    Ty::Agg(Rc::new(f), LLVMABISizeOfType(self.td, t))
                }
                TK_ARRAY => {
                    let e = LLVMGetElementType(t);
                    let es = LLVMABISizeOfType(self.td, e);
                    let et = self.ty(e);
                    let n = LLVMGetArrayLength2(t);
                    Ty::Agg(Rc::new((0..n).map(|i| (i * es, et.clone())).collect()), es * n)
                }
                TK_VECTOR => Ty::Vec(LLVMGetVectorSize(t), Rc::new(self.ty(LLVMGetElementType(t)))),
                _ => Ty::Void,
            }
        }
    }
    /// Value of a constant.
    pub fn cval(&self, v: V) -> Val {
        unsafe {
            let t = LLVMTypeOf(v);
            if LLVMIsUndef(v) != 0 || LLVMIsPoison(v) != 0 || !LLVMIsAConstantAggregateZero(v).is_null() {
                return aggregate_zero(self, t);
            }
            if !LLVMIsAConstantPointerNull(v).is_null() {
                return Val::I(0);
            }
            if !LLVMIsAConstantInt(v).is_null() {
                let w = LLVMGetIntTypeWidth(t);
                if w <= 64 {
                    return Val::I(LLVMConstIntGetZExtValue(v));
                }
                let s = show(v);
                let n = s.split(' ').nth(1).unwrap();
                let x = if let Some(neg) = n.strip_prefix('-') {
                    neg.parse::<u128>().unwrap().wrapping_neg()
                } else {
                    n.parse::<u128>().unwrap()
                };
                return Val::W(Rc::new(x & crate::expr::mask(w)));
            }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return if LLVMGetTypeKind(t) == TK_FLOAT {
                    Val::I((d as f32).to_bits() as u64)
                } else {
                    Val::I(d.to_bits())
                };
            }
            if let Some(&a) = self.gaddr.get(&(v as usize)) {
                return Val::I(a);
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let o = |i| LLVMGetOperand(v, i);
                let i = |i| match self.cval(o(i)) {
                    Val::I(x) => x,
                    x => panic!("const operand {x:?}"),
                };
                return match op {
                    29 => {
                        let base = i(0);
                        let (off, terms) = self.gep(v, &|x| Opd::V(self.cval(x)));
                        assert!(terms.is_empty());
                        Val::I(base.wrapping_add(off))
                    }
                    39 | 40 | 69 => Val::I(i(0)),
                    41 | 60 => self.cval(o(0)),
                    8 => Val::I(i(0).wrapping_add(i(1))),
                    10 => Val::I(i(0).wrapping_sub(i(1))),
                    30 => Val::I(i(0) & crate::expr::mask(LLVMGetIntTypeWidth(t)) as u64),
                    25 => Val::I(i(0) ^ i(1)),
                    _ => panic!("const expr {}", show(v)),
                };
            }
            match LLVMGetTypeKind(t) {
                TK_STRUCT | TK_ARRAY | TK_VECTOR => {
                    let n = match LLVMGetTypeKind(t) {
                        TK_STRUCT => LLVMCountStructElementTypes(t),
                        TK_ARRAY => LLVMGetArrayLength2(t) as u32,
                        _ => LLVMGetVectorSize(t),
                    };
                    Val::A(Rc::new((0..n).map(|i| self.cval(LLVMGetAggregateElement(v, i))).collect()))
                }
                _ => panic!("constant {}", show(v)),
            }
        }
    }
    fn gep(&self, v: V, opd: &dyn Fn(V) -> Opd) -> (u64, Vec<(Opd, u64, u32)>) {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut off = 0u64;
            let mut terms = vec![];
            for i in 1..n {
                let ix = LLVMGetOperand(v, i);
                let scale;
                if i == 1 {
                    scale = LLVMABISizeOfType(self.td, t);
                } else if LLVMGetTypeKind(t) == TK_STRUCT {
                    let k = LLVMConstIntGetZExtValue(ix) as u32;
                    off = off.wrapping_add(LLVMOffsetOfElement(self.td, t, k));
                    t = LLVMStructGetTypeAtIndex(t, k);
                    continue;
                } else {
                    t = LLVMGetElementType(t);
                    scale = LLVMABISizeOfType(self.td, t);
                }
                if !LLVMIsAConstantInt(ix).is_null() {
                    off = off.wrapping_add((LLVMConstIntGetSExtValue(ix) as u64).wrapping_mul(scale));
                } else {
                    terms.push((opd(ix), scale, LLVMGetIntTypeWidth(LLVMTypeOf(ix))));
                }
            }
            (off, terms)
        }
    }
    pub fn func(&mut self, id: u32) -> Rc<Func> {
        if let Some(f) = &self.cache[id as usize] {
            return f.clone();
        }
        let f = Rc::new(self.translate(id));
        self.cache[id as usize] = Some(f.clone());
        f
    }
    fn translate(&self, id: u32) -> Func {
        unsafe {
            let fv = self.fns[id as usize].v;
            let mut regs: FxMap<usize, u32> = FxMap::default();
            let np = LLVMCountParams(fv);
            for i in 0..np {
                regs.insert(LLVMGetParam(fv, i) as usize, i);
            }
            let mut n = np;
            let mut bbs: FxMap<usize, u32> = FxMap::default();
            let mut blist = vec![];
            let mut bb = LLVMGetFirstBasicBlock(fv);
            while !bb.is_null() {
                bbs.insert(bb as usize, blist.len() as u32);
                blist.push(bb);
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != TK_VOID {
                        regs.insert(i as usize, n);
                        n += 1;
                    }
                    i = LLVMGetNextInstruction(i);
                }
                bb = LLVMGetNextBasicBlock(bb);
            }
            let opd = |v: V| -> Opd {
                if let Some(&r) = regs.get(&(v as usize)) {
                    return Opd::R(r);
                }
                match self.cval(v) {
                    Val::I(x) => Opd::K(x),
                    x => Opd::V(x),
                }
            };
            let mut blocks = vec![];
            for &bb in &blist {
                let mut ins = vec![];
                let mut phis: Vec<(u32, Vec<(u32, Opd)>)> = vec![];
                let mut i = LLVMGetFirstInstruction(bb);
                while !i.is_null() {
                    let dst = regs.get(&(i as usize)).copied().unwrap_or(NODST);
                    if LLVMGetInstructionOpcode(i) == 44 {
                        for j in 0..LLVMCountIncoming(i) {
                            let pb = bbs[&(LLVMGetIncomingBlock(i, j) as usize)];
                            let o = opd(LLVMGetIncomingValue(i, j));
                            match phis.iter_mut().find(|p| p.0 == pb) {
                                Some(p) => {
                                    if !p.1.iter().any(|x| x.0 == dst) {
                                        p.1.push((dst, o));
                                    }
                                }
                                None => phis.push((pb, vec![(dst, o)])),
                            }
                        }
                    } else {
                        let k = self.ins(i, &opd, &bbs);
                        ins.push(Ins { dst, k });
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(Block { ins, phis });
            }
            Func { id, nregs: n, nparams: np, blocks }
        }
    }
    fn ins(&self, i: V, opd: &dyn Fn(V) -> Opd, bbs: &FxMap<usize, u32>) -> IK {
        unsafe {
            let op = LLVMGetInstructionOpcode(i);
            let v = |k: u32| LLVMGetOperand(i, k);
            let o = |k: u32| opd(LLVMGetOperand(i, k));
            let ty = |x: V| self.ty(LLVMTypeOf(x));
            let b = |k: B| IK::Bin(k, ty(i), o(0), o(1));
            let fb = |k: FB| IK::FBin(k, ty(i), o(0), o(1));
            let cast = |k: C| IK::Cast(k, ty(v(0)), ty(i), o(0));
            let bbi = |x: BB| bbs[&(x as usize)];
            match op {
                1 => IK::Ret(if LLVMGetNumOperands(i) > 0 { Some(o(0)) } else { None }),
                3 => {
                    let n = LLVMGetNumSuccessors(i);
                    let mut cases = vec![];
                    for k in 1..n {
                        let c = LLVMGetSwitchCaseValue(i, k);
                        cases.push((LLVMConstIntGetZExtValue(c), bbi(LLVMGetSuccessor(i, k))));
                    }
                    IK::Switch(o(0), ty(v(0)).w(), cases, bbi(LLVMGetSwitchDefaultDest(i)))
                }
                5 | 45 => {
                    let n = LLVMGetNumArgOperands(i);
                    let cv = LLVMGetCalledValue(i);
                    if !LLVMIsAInlineAsm(cv).is_null() {
                        let t = show(i);
                        // an assembler comment whose output register is tied to its input
                        // (an optimization barrier) returns its argument
                        if n == 1 && t.contains(" \"/*${0:q}*/\", \"=&r,0,") {
                            return IK::Mov(o(0));
                        }
                        // the processor reports no optional features
                        if t.contains("cpuid") {
                            return IK::Mov(Opd::V(zero_ty(&ty(i))));
                        }
                        return IK::Bad(format!("inline asm {t}"));
                    }
                    let mut args = vec![];
                    let callee = match self.fn_of.get(&(cv as usize)) {
                        Some(&f) => Callee::F(f),
                        None => Callee::Ind(opd(cv)),
                    };
                    if let Callee::F(f) = callee {
                        let nm = &self.fns[f as usize].name;
                        if nm.starts_with("llvm.lifetime")
                            || nm.starts_with("llvm.dbg")
                            || nm.starts_with("llvm.experimental.noalias")
                            || nm.starts_with("llvm.assume")
                            || nm.starts_with("llvm.invariant")
                        {
                            return IK::Mov(Opd::K(0));
                        }
                    }
                    for k in 0..n {
                        args.push(o(k));
                    }
                    let cont = if op == 5 { Some((bbi(LLVMGetNormalDest(i)), 0)) } else { None };
                    IK::Call(callee, args, ty(i), cont)
                }
                7 => IK::Unreachable,
                8 => b(B::Add),
                10 => b(B::Sub),
                12 => b(B::Mul),
                14 => b(B::UDiv),
                15 => b(B::SDiv),
                17 => b(B::URem),
                18 => b(B::SRem),
                20 => b(B::Shl),
                21 => b(B::LShr),
                22 => b(B::AShr),
                23 => b(B::And),
                24 => b(B::Or),
                25 => b(B::Xor),
                9 => fb(FB::Add),
                11 => fb(FB::Sub),
                13 => fb(FB::Mul),
                16 => fb(FB::Div),
                19 => fb(FB::Rem),
                66 => IK::FNeg(ty(i), o(0)),
                26 => {
                    let t = LLVMGetAllocatedType(i);
                    let mut sz = LLVMABISizeOfType(self.td, t);
                    if let Val::I(n) = self.cval(v(0)) {
                        sz *= n;
                    }
                    let al = (LLVMGetAlignment(i) as u64).max(1);
                    IK::Alloca(sz, al)
                }
                27 => IK::Load(ty(i), o(0)),
                28 => IK::Store(ty(v(0)), o(0), o(1)),
                29 => {
                    if matches!(ty(i), Ty::Vec(..)) {
                        return IK::Bad("vector gep".into());
                    }
                    let (off, terms) = self.gep(i, opd);
                    IK::Gep(o(0), off, terms)
                }
                30 => cast(C::Trunc),
                31 => cast(C::ZExt),
                32 => cast(C::SExt),
                33 => cast(C::FpToUi),
                34 => cast(C::FpToSi),
                35 => cast(C::UiToFp),
                36 => cast(C::SiToFp),
                37 => cast(C::FpTrunc),
                38 => cast(C::FpExt),
                39 | 40 | 69 => {
                    let (a, z) = (ty(v(0)).w(), ty(i).w());
                    if a == z {
                        IK::Mov(o(0))
                    } else if a > z {
                        cast(C::Trunc)
                    } else {
                        cast(C::ZExt)
                    }
                }
                41 | 60 => cast(C::Bit),
                42 => {
                    let p = match LLVMGetICmpPredicate(i) {
                        32 => P::Eq,
                        33 => P::Ne,
                        34 => P::Ugt,
                        35 => P::Uge,
                        36 => P::Ult,
                        37 => P::Ule,
                        38 => P::Sgt,
                        39 => P::Sge,
                        40 => P::Slt,
                        41 => P::Sle,
                        x => return IK::Bad(format!("icmp {x}")),
                    };
                    IK::ICmp(p, ty(v(0)), o(0), o(1))
                }
                43 => IK::FCmp(LLVMGetFCmpPredicate(i), ty(v(0)), o(0), o(1)),
                46 => {
                    let vc = matches!(ty(v(0)), Ty::Vec(..));
                    IK::Select(ty(i), vc, o(0), o(1), o(2))
                }
                50 => IK::ExtEl(o(0), o(1)),
                51 => IK::InsEl(o(0), o(1), o(2)),
                52 => {
                    let n = LLVMGetNumMaskElements(i);
                    let Ty::Vec(k, _) = ty(v(0)) else { return IK::Bad("shuffle".into()) };
                    IK::Shuf(o(0), o(1), (0..n).map(|j| LLVMGetMaskValue(i, j)).collect(), k)
                }
                53 | 54 => {
                    let n = LLVMGetNumIndices(i) as usize;
                    let ix = std::slice::from_raw_parts(LLVMGetIndices(i), n).to_vec();
                    if op == 53 { IK::Extract(o(0), ix) } else { IK::Insert(o(0), o(1), ix) }
                }
                55 => IK::Mov(Opd::K(0)),
                56 => IK::CmpXchg(ty(v(1)).w(), o(0), o(1), o(2)),
                57 => IK::Rmw(LLVMGetAtomicRMWBinOp(i), ty(v(1)).w(), o(0), o(1)),
                68 => IK::Mov(o(0)),
                _ => {
                    // branches (opcode numbers differ between LLVM versions)
                    thread_local!(static BR: std::cell::RefCell<std::collections::HashMap<u32, bool>> = Default::default());
                    // printing is slow: once per opcode
                    let br = BR.with(|b| {
                        *b.borrow_mut().entry(op as u32).or_insert_with(|| show(i).trim_start().starts_with("br "))
                    });
                    if br {
                        let n = LLVMGetNumSuccessors(i);
                        if n == 1 {
                            IK::Br(bbi(LLVMGetSuccessor(i, 0)))
                        } else {
                            IK::Cond(opd(LLVMGetCondition(i)), bbi(LLVMGetSuccessor(i, 0)), bbi(LLVMGetSuccessor(i, 1)))
                        }
                    } else {
                        IK::Bad(format!("opcode {op}: {}", show(i)))
                    }
                }
            }
        }
    }
}

fn classify(n: &str, decl: bool) -> FnKind {
    let std_panic = n.contains("3std9panicking") && !n.contains("panic_count");
    if n.contains("4core9panicking") || std_panic || n.contains("rust_begin_unwind") || n.contains("18handle_alloc_error") {
        return FnKind::Panic;
    }
    if n.contains("8hash_one") {
        return FnKind::HashOne;
    }
    if n.contains("4core5slice6memchr14memchr_aligned") {
        return FnKind::Ext(X::Memchr);
    }
    if let Some(x) = ext(n) {
        return FnKind::Ext(x);
    }
    if decl { FnKind::Ext(X::Unknown) } else { FnKind::Plain }
}

/// Environment functions and LLVM intrinsics the executor models itself.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum X {
    Memcpy,
    Memset,
    Bcmp,
    Memcmp,
    Memchr,
    Strlen,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Getrandom,
    Zero,
    Ident,
    Abort,
    Umax,
    Umin,
    Smax,
    Smin,
    UsubSat,
    UaddSat,
    SsubSat,
    SaddSat,
    Ov(B, bool),
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Fshl,
    Fshr,
    Abs,
    Scmp,
    Ucmp,
    Fabs,
    Copysign,
    ReduceOr,
    ReduceAnd,
    ReduceAdd,
    SymInt,
    SymBytes,
    SymAssume,
    SymFail,
    SymConc,
    SymEmit,
    SymCover,
    Unknown,
}
fn ext(n: &str) -> Option<X> {
    if let Some(i) = n.strip_prefix("llvm.") {
        let p = |s: &str| i.starts_with(s);
        return Some(if p("memcpy") || p("memmove") {
            X::Memcpy
        } else if p("memset") {
            X::Memset
        } else if p("umax") {
            X::Umax
        } else if p("umin") {
            X::Umin
        } else if p("smax") {
            X::Smax
        } else if p("smin") {
            X::Smin
        } else if p("usub.sat") {
            X::UsubSat
        } else if p("uadd.sat") {
            X::UaddSat
        } else if p("ssub.sat") {
            X::SsubSat
        } else if p("sadd.sat") {
            X::SaddSat
        } else if p("uadd.with") {
            X::Ov(B::Add, false)
        } else if p("sadd.with") {
            X::Ov(B::Add, true)
        } else if p("usub.with") {
            X::Ov(B::Sub, false)
        } else if p("ssub.with") {
            X::Ov(B::Sub, true)
        } else if p("umul.with") {
            X::Ov(B::Mul, false)
        } else if p("smul.with") {
            X::Ov(B::Mul, true)
        } else if p("ctlz") {
            X::Ctlz
        } else if p("cttz") {
            X::Cttz
        } else if p("ctpop") {
            X::Ctpop
        } else if p("bswap") {
            X::Bswap
        } else if p("bitreverse") {
            X::Bitrev
        } else if p("fshl") {
            X::Fshl
        } else if p("fshr") {
            X::Fshr
        } else if p("abs.") {
            X::Abs
        } else if p("scmp") {
            X::Scmp
        } else if p("ucmp") {
            X::Ucmp
        } else if p("fabs") {
            X::Fabs
        } else if p("copysign") {
            X::Copysign
        } else if p("threadlocal.address") || p("expect") || p("launder") || p("strip") {
            X::Ident
        } else if p("is.constant") || p("lifetime") || p("dbg") || p("assume") || p("experimental.noalias") || p("prefetch") {
            X::Zero
        } else if p("trap") {
            X::Abort
        } else if p("vector.reduce.or") {
            X::ReduceOr
        } else if p("vector.reduce.and") {
            X::ReduceAnd
        } else if p("vector.reduce.add") {
            X::ReduceAdd
        } else {
            X::Unknown
        });
    }
    Some(match n {
        "memcpy" | "memmove" => X::Memcpy,
        "memset" => X::Memset,
        "bcmp" => X::Bcmp,
        "memcmp" => X::Memcmp,
        "strlen" => X::Strlen,
        "malloc" => X::Malloc,
        "calloc" => X::Calloc,
        "realloc" => X::Realloc,
        "free" => X::Free,
        "posix_memalign" => X::PosixMemalign,
        "getrandom" => X::Getrandom,
        "__cxa_thread_atexit_impl" | "getenv" | "pthread_key_create" | "pthread_setspecific" | "pthread_getspecific" => X::Zero,
        "abort" => X::Abort,
        "__sym_int" => X::SymInt,
        "__sym_bytes" => X::SymBytes,
        "__sym_assume" => X::SymAssume,
        "__sym_fail" => X::SymFail,
        "__sym_concretize" => X::SymConc,
        "__sym_emit" => X::SymEmit,
        "__sym_cover" => X::SymCover,
        _ => return None,
    })
}
