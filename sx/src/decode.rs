//! Lazy translation of LLVM functions (read through the C API) into a compact executable form.
use crate::expr::*;
use crate::llvm::*;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone)]
pub enum TyK { Void, Int(u32), Ptr, Struct(Vec<(Rc<Ty>, u64)>), Array(Rc<Ty>, u64), Vector(Rc<Ty>, u64), Other(String) }
#[derive(Debug, Clone)]
pub struct Ty { pub k: TyK, pub size: u64 }
impl Ty {
    /// width in bits of a scalar
    pub fn w(&self) -> u32 { match self.k { TyK::Int(w) => w, TyK::Ptr => 64, _ => 0 } }
    pub fn scalar(&self) -> bool { matches!(self.k, TyK::Int(_) | TyK::Ptr) }
}

/// A value: concrete (<= 64 bits), term, entirely uninitialised, or aggregate / vector lanes.
#[derive(Clone, Debug)]
pub enum V { C(u64), E(E), U, Agg(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { Reg(u32), K(V) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastK { Trunc, ZExt, SExt, Same }

#[derive(Clone, Debug)]
pub enum Target { Direct(u32), Indirect(Opd), Asm(String) }

#[derive(Clone, Debug)]
pub enum In {
    Bin(Op, Rc<Ty>, Opd, Opd),
    ICmp(Pred, Rc<Ty>, Opd, Opd),
    Select(Rc<Ty>, Opd, Opd, Opd),
    Load(Rc<Ty>, Opd),
    Store(Rc<Ty>, Opd, Opd),
    Gep(Opd, i64, Vec<(Opd, i64, u32)>),
    Cast(CastK, Rc<Ty>, Rc<Ty>, Opd),
    Alloca(u64, u64, Opd),
    Call { t: Target, args: Vec<(Opd, Rc<Ty>)>, ret: Rc<Ty>, normal: Option<u32> },
    ExtractValue(Opd, Rc<Ty>, Vec<u32>),
    InsertValue(Opd, Rc<Ty>, Opd, Vec<u32>),
    ExtractElement(Opd, Rc<Ty>, Opd),
    InsertElement(Opd, Rc<Ty>, Opd, Opd),
    Shuffle(Opd, Opd, Rc<Ty>, Vec<i32>),
    AtomicRmw(u32, Rc<Ty>, Opd, Opd),
    CmpXchg(Rc<Ty>, Opd, Opd, Opd),
    Freeze(Rc<Ty>, Opd),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(Opd, u32, Vec<(u64, u32)>, u32),
    Ret(Option<Opd>),
    Unreachable,
    Nop,
    Unsupported(String),
}
#[derive(Debug)]
pub struct Inst { pub i: In, pub dst: u32, pub v: Value }
#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub insts: Vec<Inst> }
#[derive(Debug)]
pub struct Func { pub id: u32, pub name: String, pub nregs: u32, pub nparams: u32, pub blocks: Vec<Block> }

pub const NODST: u32 = u32::MAX;
pub const FN_ID: u64 = 0x7000_0000;
pub const BASE_OFF: u64 = 0x1000;
pub const FIRST_DYN: u32 = 0x10_0000;

pub struct FnInfo { pub v: Value, pub name: String, pub decl: bool, pub body: Option<Rc<Func>> }
pub struct GlobInfo { pub v: Value, pub name: String, pub ro: bool, pub size: u64, pub defined: bool }

pub struct Decoder {
    pub td: TargetData,
    pub fns: Vec<FnInfo>,
    pub fn_ix: HashMap<Value, u32>,
    pub globs: Vec<GlobInfo>,
    pub glob_ix: HashMap<Value, u32>,
    tys: HashMap<Type, Rc<Ty>>,
}

impl Decoder {
    pub fn new(m: Module) -> Self {
        let mut d = Decoder { td: unsafe { LLVMGetModuleDataLayout(m) }, fns: vec![], fn_ix: HashMap::new(), globs: vec![], glob_ix: HashMap::new(), tys: HashMap::new() };
        unsafe {
            let mut f = LLVMGetFirstFunction(m);
            while !f.is_null() {
                let decl = LLVMIsDeclaration(f) != 0;
                d.fn_ix.insert(f, d.fns.len() as u32);
                d.fns.push(FnInfo { v: f, name: name(f), decl, body: None });
                f = LLVMGetNextFunction(f);
            }
        }
        d
    }
    pub fn fn_addr(i: u32) -> u64 { (FN_ID << 32) + BASE_OFF + (i as u64) * 16 }
    pub fn addr_fn(a: u64) -> Option<u32> {
        if a >> 32 != FN_ID { return None; }
        let o = (a & 0xffff_ffff).checked_sub(BASE_OFF)?;
        if o % 16 != 0 { return None; }
        Some((o / 16) as u32)
    }
    pub fn ty(&mut self, t: Type) -> Rc<Ty> {
        if let Some(r) = self.tys.get(&t) { return r.clone(); }
        let r = unsafe {
            let sized = |k| Ty { k, size: LLVMABISizeOfType(self.td, t) };
            match LLVMGetTypeKind(t) {
                0 => Ty { k: TyK::Void, size: 0 },
                2 => sized(TyK::Int(32)),
                3 => sized(TyK::Int(64)),
                8 => sized(TyK::Int(LLVMGetIntTypeWidth(t))),
                10 => {
                    let n = LLVMCountStructElementTypes(t);
                    let size = LLVMABISizeOfType(self.td, t);
                    let mut v = vec![];
                    for i in 0..n {
                        let et = LLVMStructGetTypeAtIndex(t, i);
                        v.push((self.ty(et), LLVMOffsetOfElement(self.td, t, i)));
                    }
                    Ty { k: TyK::Struct(v), size }
                }
                11 => { let e = self.ty(LLVMGetElementType(t)); Ty { k: TyK::Array(e, LLVMGetArrayLength2(t)), size: LLVMABISizeOfType(self.td, t) } }
                12 => Ty { k: TyK::Ptr, size: 8 },
                13 => { let e = self.ty(LLVMGetElementType(t)); Ty { k: TyK::Vector(e, LLVMGetVectorSize(t) as u64), size: LLVMABISizeOfType(self.td, t) } }
                k => Ty { k: TyK::Other(format!("type kind {}", k)), size: 0 },
            }
        };
        let r = Rc::new(r);
        self.tys.insert(t, r.clone());
        r
    }
    fn glob(&mut self, v: Value) -> u32 {
        if let Some(&i) = self.glob_ix.get(&v) { return i; }
        unsafe {
            let t = LLVMGlobalGetValueType(v);
            let size = if LLVMGetTypeKind(t) == 10 || LLVMGetTypeKind(t) != 0 { LLVMABISizeOfType(self.td, t) } else { 0 };
            let i = self.globs.len() as u32;
            self.globs.push(GlobInfo { v, name: name(v), ro: LLVMIsGlobalConstant(v) != 0, size, defined: LLVMIsDeclaration(v) == 0 });
            self.glob_ix.insert(v, i);
            i
        }
    }
    pub fn konst_c(&self, x: &mut Exprs, v: u128, w: u32) -> V {
        if w <= 64 { V::C((v & mask(w)) as u64) } else { V::E(x.konst(v, w)) }
    }
    /// Evaluate a constant.
    pub fn konst(&mut self, x: &mut Exprs, v: Value) -> Result<V, String> {
        unsafe {
            let t = self.ty(LLVMTypeOf(v));
            if !LLVMIsAUndefValue(v).is_null() || !LLVMIsAPoisonValue(v).is_null() {
                return Ok(self.undef(&t));
            }
            if !LLVMIsAConstantPointerNull(v).is_null() { return Ok(V::C(0)); }
            if !LLVMIsAConstantInt(v).is_null() {
                let w = t.w();
                if w <= 64 { return Ok(V::C(LLVMConstIntGetZExtValue(v) & mask(w) as u64)); }
                let s = print(v);
                let s = s.rsplit(' ').next().unwrap().to_string();
                let k: u128 = if let Some(n) = s.strip_prefix('-') { n.parse::<u128>().map_err(|e| e.to_string())?.wrapping_neg() } else { s.parse().map_err(|_| format!("i128 constant {}", s))? };
                return Ok(V::E(x.konst(k, w)));
            }
            if !LLVMIsAFunction(v).is_null() { return Ok(V::C(Self::fn_addr(self.fn_ix[&v]))); }
            if !LLVMIsAGlobalVariable(v).is_null() {
                let i = self.glob(v);
                return Ok(V::C((((i + 1) as u64) << 32) + BASE_OFF));
            }
            if !LLVMIsAGlobalAlias(v).is_null() { return self.konst(x, LLVMAliasGetAliasee(v)); }
            if !LLVMIsAConstantAggregateZero(v).is_null() { return Ok(self.zero(x, &t)); }
            if !LLVMIsAConstantFP(v).is_null() {
                let mut l = 0;
                let d = LLVMConstRealGetDouble(v, &mut l);
                return Ok(V::C(if t.w() == 32 { (d as f32).to_bits() as u64 } else { d.to_bits() }));
            }
            let n = match &t.k { TyK::Struct(f) => f.len() as u64, TyK::Array(_, n) | TyK::Vector(_, n) => *n, _ => 0 };
            if !LLVMIsAConstantDataSequential(v).is_null() {
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n { let e = LLVMGetElementAsConstant(v, i as u32); o.push(self.konst(x, e)?); }
                return Ok(V::Agg(Rc::new(o)));
            }
            if !LLVMIsAConstantStruct(v).is_null() || !LLVMIsAConstantArray(v).is_null() || !LLVMIsAConstantVector(v).is_null() {
                let mut o = Vec::with_capacity(n as usize);
                for i in 0..n { let e = LLVMGetOperand(v, i as u32); o.push(self.konst(x, e)?); }
                return Ok(V::Agg(Rc::new(o)));
            }
            if !LLVMIsAConstantExpr(v).is_null() {
                let op = LLVMGetConstOpcode(v);
                let get = |d: &mut Self, x: &mut Exprs, i: u32| -> Result<V, String> { d.konst(x, LLVMGetOperand(v, i)) };
                let c = |r: V| -> Result<u64, String> { if let V::C(k) = r { Ok(k) } else { Err(format!("constant expression {}", print(v))) } };
                return Ok(match op {
                    29 => { // gep
                        let base = c(get(self, x, 0)?)?;
                        let (k, dynv) = self.gep_parts(x, v)?;
                        if !dynv.is_empty() { return Err("constant gep with symbolic index".into()); }
                        V::C(base.wrapping_add(k as u64))
                    }
                    41 | 39 | 40 | 60 => get(self, x, 0)?, // bitcast, ptrtoint, inttoptr, addrspacecast
                    30 => V::C(c(get(self, x, 0)?)? & mask(t.w()) as u64),
                    31 => get(self, x, 0)?,
                    8 => V::C(c(get(self, x, 0)?)?.wrapping_add(c(get(self, x, 1)?)?) & mask(t.w()) as u64),
                    10 => V::C(c(get(self, x, 0)?)?.wrapping_sub(c(get(self, x, 1)?)?) & mask(t.w()) as u64),
                    _ => return Err(format!("constant expression {}", print(v))),
                });
            }
            Err(format!("constant {}", print(v)))
        }
    }
    pub fn zero(&self, x: &mut Exprs, t: &Rc<Ty>) -> V {
        match &t.k {
            TyK::Struct(f) => V::Agg(Rc::new(f.iter().map(|(t, _)| self.zero(x, t)).collect())),
            TyK::Array(e, n) | TyK::Vector(e, n) => { let z = self.zero(x, e); V::Agg(Rc::new(vec![z; *n as usize])) }
            _ => self.konst_c(x, 0, t.w()),
        }
    }
    pub fn undef(&self, t: &Rc<Ty>) -> V {
        match &t.k {
            TyK::Struct(f) => V::Agg(Rc::new(f.iter().map(|(t, _)| self.undef(t)).collect())),
            TyK::Array(e, n) | TyK::Vector(e, n) => { let z = self.undef(e); V::Agg(Rc::new(vec![z; *n as usize])) }
            _ => V::U,
        }
    }
    fn gep_parts(&mut self, x: &mut Exprs, v: Value) -> Result<(i64, Vec<(Value, i64, u32)>), String> {
        unsafe {
            let mut t = LLVMGetGEPSourceElementType(v);
            let n = LLVMGetNumOperands(v) as u32;
            let mut k = 0i64;
            let mut dynv = vec![];
            for i in 1..n {
                let o = LLVMGetOperand(v, i);
                let scale;
                if i == 1 { scale = LLVMABISizeOfType(self.td, t) as i64; }
                else {
                    match LLVMGetTypeKind(t) {
                        10 => {
                            let ix = match self.konst(x, o)? { V::C(c) => c as u32, _ => return Err("gep struct index".into()) };
                            k += LLVMOffsetOfElement(self.td, t, ix) as i64;
                            t = LLVMStructGetTypeAtIndex(t, ix);
                            continue;
                        }
                        11 | 13 => { t = LLVMGetElementType(t); scale = LLVMABISizeOfType(self.td, t) as i64; }
                        q => return Err(format!("gep through type kind {}", q)),
                    }
                }
                let w = LLVMGetIntTypeWidth(LLVMTypeOf(o));
                if LLVMIsConstant(o) != 0 {
                    match self.konst(x, o)? {
                        V::C(c) => { k = k.wrapping_add((sext(c as u128, w) as i64).wrapping_mul(scale)); }
                        _ => return Err("gep constant".into()),
                    }
                } else { dynv.push((o, scale, w)); }
            }
            Ok((k, dynv))
        }
    }
    /// Bytes of a constant initialiser: (value, mask) pairs written through `put`.
    pub fn flatten(&mut self, x: &mut Exprs, t: &Rc<Ty>, v: &V, off: u64, data: &mut [u8], init: &mut [u8]) -> Result<(), String> {
        match (&t.k, v) {
            (TyK::Struct(f), V::Agg(a)) => { for (i, (ft, o)) in f.iter().enumerate() { self.flatten(x, ft, &a[i], off + o, data, init)?; } }
            (TyK::Array(e, n), V::Agg(a)) | (TyK::Vector(e, n), V::Agg(a)) => { for i in 0..*n { self.flatten(x, e, &a[i as usize], off + i * e.size, data, init)?; } }
            (_, V::C(c)) => {
                let n = ((t.w() + 7) / 8) as usize;
                for i in 0..n { data[off as usize + i] = (c >> (8 * i)) as u8; init[off as usize + i] = 1; }
            }
            (_, V::E(e)) => {
                let c = x.as_const(*e).ok_or("initialiser")?;
                let n = ((t.w() + 7) / 8) as usize;
                for i in 0..n { data[off as usize + i] = (c >> (8 * i)) as u8; init[off as usize + i] = 1; }
            }
            (_, V::U) => {}
            _ => return Err("initialiser shape".into()),
        }
        Ok(())
    }
    /// Raw bytes for a global; strings taken directly for speed.
    pub fn global_bytes(&mut self, x: &mut Exprs, gi: u32) -> Result<(Vec<u8>, Vec<u8>), String> {
        let (v, size) = { let g = &self.globs[gi as usize]; (g.v, g.size as usize) };
        let (mut data, mut init) = (vec![0u8; size], vec![0u8; size]);
        unsafe {
            if !self.globs[gi as usize].defined { return Err(format!("access to external global {}", self.globs[gi as usize].name)); }
            let iv = LLVMGetInitializer(v);
            let t = self.ty(LLVMGlobalGetValueType(v));
            let k = self.konst(x, iv)?;
            self.flatten(x, &t, &k, 0, &mut data, &mut init)?;
        }
        Ok((data, init))
    }
    pub fn func(&mut self, x: &mut Exprs, fi: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.fns[fi as usize].body { return Ok(f.clone()); }
        let f = Rc::new(self.decode(x, fi)?);
        self.fns[fi as usize].body = Some(f.clone());
        Ok(f)
    }
    fn decode(&mut self, x: &mut Exprs, fi: u32) -> Result<Func, String> {
        unsafe {
            let f = self.fns[fi as usize].v;
            let fname = self.fns[fi as usize].name.clone();
            let mut regs: HashMap<Value, u32> = HashMap::new();
            let np = LLVMCountParams(f);
            for i in 0..np { let p = LLVMGetParam(f, i); regs.insert(p, i); }
            let mut nregs = np;
            let mut bbs: HashMap<Bb, u32> = HashMap::new();
            let mut order = vec![];
            let mut b = LLVMGetFirstBasicBlock(f);
            while !b.is_null() {
                bbs.insert(b, order.len() as u32);
                order.push(b);
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    if LLVMGetTypeKind(LLVMTypeOf(i)) != 0 { regs.insert(i, nregs); nregs += 1; }
                    i = LLVMGetNextInstruction(i);
                }
                b = LLVMGetNextBasicBlock(b);
            }
            let mut blocks = vec![];
            for &b in &order {
                let mut phis = vec![];
                let mut insts = vec![];
                let mut i = LLVMGetFirstInstruction(b);
                while !i.is_null() {
                    let dst = regs.get(&i).copied().unwrap_or(NODST);
                    if LLVMGetInstructionOpcode(i) == 44 {
                        let mut inc = vec![];
                        for k in 0..LLVMCountIncoming(i) {
                            let o = self.opd(x, &regs, LLVMGetIncomingValue(i, k))?;
                            inc.push((bbs[&LLVMGetIncomingBlock(i, k)], o));
                        }
                        phis.push((dst, inc));
                    } else {
                        let ins = match self.inst(x, i, &regs, &bbs) { Ok(q) => q, Err(e) => In::Unsupported(e) };
                        if !matches!(ins, In::Nop) { insts.push(Inst { i: ins, dst, v: i }); }
                    }
                    i = LLVMGetNextInstruction(i);
                }
                blocks.push(Block { phis, insts });
            }
            Ok(Func { id: fi, name: fname, nregs, nparams: np, blocks })
        }
    }
    fn opd(&mut self, x: &mut Exprs, regs: &HashMap<Value, u32>, v: Value) -> Result<Opd, String> {
        if let Some(&r) = regs.get(&v) { return Ok(Opd::Reg(r)); }
        if unsafe { LLVMIsConstant(v) } != 0 { return Ok(Opd::K(self.konst(x, v)?)); }
        Err(format!("operand {}", print(v)))
    }
    fn inst(&mut self, x: &mut Exprs, i: Value, regs: &HashMap<Value, u32>, bbs: &HashMap<Bb, u32>) -> Result<In, String> {
        unsafe {
            let ty = self.ty(LLVMTypeOf(i));
            let o = |d: &mut Self, x: &mut Exprs, k: u32| d.opd(x, regs, LLVMGetOperand(i, k));
            let ot = |d: &mut Self, k: u32| d.ty(LLVMTypeOf(LLVMGetOperand(i, k)));
            Ok(match LLVMGetInstructionOpcode(i) {
                1 => In::Ret(if LLVMGetNumOperands(i) == 0 { None } else { Some(o(self, x, 0)?) }),
                2 => {
                    let s = |k| bbs[&LLVMGetSuccessor(i, k)];
                    if LLVMIsConditional(i) != 0 { In::CondBr(self.opd(x, regs, LLVMGetCondition(i))?, s(0), s(1)) } else { In::Br(s(0)) }
                }
                3 => {
                    let c = o(self, x, 0)?;
                    let w = ot(self, 0).w();
                    let d = bbs[&LLVMGetSwitchDefaultDest(i)];
                    let n = LLVMGetNumSuccessors(i);
                    let mut cs = vec![];
                    for k in 1..n {
                        let cv = match self.konst(x, LLVMGetOperand(i, 2 * k))? { V::C(c) => c, _ => return Err("switch case".into()) };
                        cs.push((cv, bbs[&LLVMGetSuccessor(i, k)]));
                    }
                    In::Switch(c, w, cs, d)
                }
                5 | 45 => {
                    let invoke = LLVMGetInstructionOpcode(i) == 5;
                    let n = LLVMGetNumArgOperands(i);
                    let cv = LLVMGetCalledValue(i);
                    let t = if !LLVMIsAFunction(cv).is_null() { Target::Direct(self.fn_ix[&cv]) }
                        else if !LLVMIsAInlineAsm(cv).is_null() { Target::Asm(print(cv)) }
                        else { Target::Indirect(self.opd(x, regs, cv)?) };
                    if let Target::Direct(f) = t {
                        let nm = &self.fns[f as usize].name;
                        if nm.starts_with("llvm.dbg") || nm.starts_with("llvm.lifetime") || nm.starts_with("llvm.experimental.noalias") || nm.starts_with("llvm.invariant") { return Ok(In::Nop); }
                    }
                    let mut args = vec![];
                    for k in 0..n { args.push((o(self, x, k)?, ot(self, k))); }
                    In::Call { t, args, ret: ty, normal: if invoke { Some(bbs[&LLVMGetNormalDest(i)]) } else { None } }
                }
                7 => In::Unreachable,
                op @ (8 | 10 | 12 | 14 | 15 | 17 | 18 | 20 | 21 | 22 | 23 | 24 | 25) => {
                    let k = match op { 8 => Op::Add, 10 => Op::Sub, 12 => Op::Mul, 14 => Op::UDiv, 15 => Op::SDiv, 17 => Op::URem, 18 => Op::SRem,
                        20 => Op::Shl, 21 => Op::LShr, 22 => Op::AShr, 23 => Op::And, 24 => Op::Or, _ => Op::Xor };
                    In::Bin(k, ty, o(self, x, 0)?, o(self, x, 1)?)
                }
                26 => {
                    let at = self.ty(LLVMGetAllocatedType(i));
                    In::Alloca(at.size, 16, o(self, x, 0)?)
                }
                27 => In::Load(ty, o(self, x, 0)?),
                28 => In::Store(ot(self, 0), o(self, x, 0)?, o(self, x, 1)?),
                29 => {
                    if !matches!(ty.k, TyK::Ptr) { return Err("vector gep".into()); }
                    let b = o(self, x, 0)?;
                    let (k, d) = self.gep_parts(x, i)?;
                    let mut dd = vec![];
                    for (v, s, w) in d { dd.push((self.opd(x, regs, v)?, s, w)); }
                    In::Gep(b, k, dd)
                }
                30 => In::Cast(CastK::Trunc, ot(self, 0), ty, o(self, x, 0)?),
                31 => In::Cast(CastK::ZExt, ot(self, 0), ty, o(self, x, 0)?),
                32 => In::Cast(CastK::SExt, ot(self, 0), ty, o(self, x, 0)?),
                39 | 40 | 41 | 60 => {
                    let f = ot(self, 0);
                    if f.scalar() && ty.scalar() {
                        let k = if f.w() == ty.w() { CastK::Same } else if f.w() > ty.w() { CastK::Trunc } else { CastK::ZExt };
                        In::Cast(k, f, ty, o(self, x, 0)?)
                    } else { return Err(format!("cast {}", print(i))); }
                }
                42 => {
                    let p = match LLVMGetICmpPredicate(i) { 32 => Pred::Eq, 33 => Pred::Ne, 34 => Pred::Ugt, 35 => Pred::Uge, 36 => Pred::Ult, 37 => Pred::Ule,
                        38 => Pred::Sgt, 39 => Pred::Sge, 40 => Pred::Slt, 41 => Pred::Sle, p => return Err(format!("icmp predicate {}", p)) };
                    In::ICmp(p, ot(self, 0), o(self, x, 0)?, o(self, x, 1)?)
                }
                46 => { if !ot(self, 0).scalar() { return Err("vector select".into()); } In::Select(ty, o(self, x, 0)?, o(self, x, 1)?, o(self, x, 2)?) }
                50 => In::ExtractElement(o(self, x, 0)?, ot(self, 0), o(self, x, 1)?),
                51 => In::InsertElement(o(self, x, 0)?, ty, o(self, x, 1)?, o(self, x, 2)?),
                52 => {
                    let n = LLVMGetNumMaskElements(i);
                    let m = (0..n).map(|k| LLVMGetMaskValue(i, k)).collect();
                    In::Shuffle(o(self, x, 0)?, o(self, x, 1)?, ot(self, 0), m)
                }
                53 | 54 => {
                    let n = LLVMGetNumIndices(i);
                    let p = LLVMGetIndices(i);
                    let ix: Vec<u32> = (0..n).map(|k| *p.add(k as usize)).collect();
                    if LLVMGetInstructionOpcode(i) == 53 { In::ExtractValue(o(self, x, 0)?, ot(self, 0), ix) }
                    else { In::InsertValue(o(self, x, 0)?, ty, o(self, x, 1)?, ix) }
                }
                55 => In::Nop,
                56 => In::CmpXchg(ot(self, 1), o(self, x, 0)?, o(self, x, 1)?, o(self, x, 2)?),
                57 => In::AtomicRmw(LLVMGetAtomicRMWBinOp(i) as u32, ot(self, 1), o(self, x, 0)?, o(self, x, 1)?),
                68 => In::Freeze(ty, o(self, x, 0)?),
                op => return Err(format!("opcode {}: {}", op, print(i))),
            })
        }
    }
}
