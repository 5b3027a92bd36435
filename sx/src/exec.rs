//! The symbolic interpreter.
use crate::decode::*;
use crate::expr::*;
use crate::llvm;
use crate::mem::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<V>,
    pub bb: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
    pub ret_dst: u32,
    pub normal: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub known: HashMap<E, bool>,
    pub model: Vec<u128>,
    pub inputs: Vec<E>,
    pub observed: Vec<V>,
    pub covers: Vec<u32>,
    pub steps: u64,
    pub allow_panic: bool,
    pub real_format: bool,
    pub real_contains: bool,
    pub asserts: u32,
}

pub struct Violation { pub kind: String, pub msg: String, pub inputs: Vec<u128>, pub stack: Vec<String>, pub path: u64 }
pub struct Trace { pub inputs: Vec<u128>, pub observed: Vec<u128>, pub panics: bool }

/// Why an instruction could not complete.
pub enum Stop {
    Fork(E),
    Bug(&'static str, String),
    Kill,
    Allowed,
    Unsupported(String),
    Done,
}
type R<T> = Result<T, Stop>;

#[derive(Default)]
pub struct Stats {
    pub paths: u64, pub killed: u64, pub instrs: u64, pub forks: u64, pub asserts: u64, pub panicked_ok: u64, pub max_steps: u64, pub max_depth: usize, pub uninit_checks: u64,
}
pub struct Cfg { pub max_steps: u64, pub max_depth: usize, pub max_violations: usize, pub max_traces: usize, pub params: Vec<u64>, pub max_secs: f64, pub max_paths: u64, pub fix: HashMap<Vec<u8>, Vec<u128>> }

pub struct Engine {
    pub d: Decoder,
    pub x: Exprs,
    pub s: Solver,
    pub cfg: Cfg,
    pub st: Stats,
    pub violations: Vec<Violation>,
    vio_keys: HashSet<String>,
    pub traces: Vec<Trace>,
    pub covers: BTreeMap<u32, u64>,
    pub unsupported: Vec<String>,
    pub visited: HashMap<u32, BTreeSet<u32>>,
    pub stubbed: BTreeMap<String, u64>,
    consts: HashMap<u32, Rc<Obj>>,
    /// constant text made symbolic: its characters by global
    pattern_of: HashMap<u32, Rc<Vec<E>>>,
    pub patterns: Vec<(Vec<u8>, usize, usize)>,
    invars: HashMap<(usize, u32, u64), E>,
    ntaint: u64,
    fnkind: HashMap<u32, FnKind>,
    fmt_stub: Option<u32>,
    start: Instant,
    rng: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FnKind { Plain, Ext, Panic, Format, CharContains, Abort }

fn cls(name: &str, decl: bool) -> FnKind {
    // legacy-mangled names; only the path part is compared, never the hash
    let p = |s: &str| name.starts_with(s);
    if p("_ZN4core9panicking") || p("_ZN3std9panicking11begin_panic") || p("_ZN3std9panicking15begin_panic_fmt") || name == "rust_begin_unwind" || p("_ZN3std9panicking20rust_panic_with_hook")
        || p("_ZN4core6option13expect_failed") || p("_ZN4core6result13unwrap_failed") || p("_ZN4core5slice5index") && name.contains("_fail")
        || p("_ZN4core3str16slice_error_fail") || p("_ZN5alloc7raw_vec17capacity_overflow") || p("_ZN4core4cell") && name.contains("panic") {
        // assert_failed & friends live under core::panicking too
        return FnKind::Panic;
    }
    if p("_ZN5alloc5alloc18handle_alloc_error") || name == "abort" || name == "llvm.trap" || p("_ZN3std7process5abort") || p("_ZN3std10sys_common4util") { return FnKind::Abort; }
    if p("_ZN5alloc3fmt6format17h") { return FnKind::Format; }
    if name.contains("char$u20$as$u20$core..str..pattern..Pattern") && name.contains("is_contained_in") { return FnKind::CharContains; }
    if decl { FnKind::Ext } else { FnKind::Plain }
}

fn bug<T>(k: &'static str, m: impl Into<String>) -> R<T> { Err(Stop::Bug(k, m.into())) }
fn unsup<T>(m: impl Into<String>) -> R<T> { Err(Stop::Unsupported(m.into())) }

impl Engine {
    pub fn new(d: Decoder, s: Solver, cfg: Cfg) -> Engine {
        let fmt_stub = d.fns.iter().position(|f| f.name == "vp_format_stub").map(|i| i as u32);
        Engine { d, x: Exprs::new(), s, cfg, st: Stats::default(), violations: vec![], vio_keys: HashSet::new(), traces: vec![], covers: BTreeMap::new(), unsupported: vec![], visited: HashMap::new(),
            stubbed: BTreeMap::new(), consts: HashMap::new(), pattern_of: HashMap::new(), patterns: vec![], invars: HashMap::new(), ntaint: 0, fnkind: HashMap::new(), fmt_stub, start: Instant::now(), rng: 0x9e3779b97f4a7c15 }
    }

    // ---------- values ----------
    fn e(&mut self, v: &V, w: u32) -> E {
        match v {
            V::C(c) => self.x.konst(*c as u128, w),
            V::E(e) => *e,
            V::U => self.taint(w),
            V::Agg(_) => panic!("aggregate used as scalar"),
        }
    }
    fn taint(&mut self, w: u32) -> E {
        self.ntaint += 1;
        let n = format!("u{}", self.ntaint);
        self.x.new_var(n, w, true, 0)
    }
    fn v(&mut self, e: E) -> V {
        match self.x.as_const(e) {
            Some(k) if self.x.w(e) <= 64 => V::C(k as u64),
            _ => V::E(e),
        }
    }
    fn opd(st: &State, o: &Opd) -> V {
        match o { Opd::Reg(r) => st.frames.last().unwrap().regs[*r as usize].clone(), Opd::K(v) => v.clone() }
    }
    fn set(st: &mut State, dst: u32, v: V) { if dst != NODST { st.frames.last_mut().unwrap().regs[dst as usize] = v; } }

    // ---------- decisions ----------
    fn solver_check(&mut self, cons: &[E], e: E) -> R<SatRes> {
        self.s.check(&self.x, cons, e).map_err(Stop::Unsupported)
    }
    /// Ok(b): the 1-bit term has that value on every input of this path; Err(Fork): both are possible.
    fn decide(&mut self, st: &mut State, c: E) -> R<bool> {
        if let Some(k) = self.x.as_const(c) { return Ok(k == 1); }
        if let Some(&b) = st.known.get(&c) { return Ok(b); }
        if self.x.vars_of[c as usize] & TAINT != 0 { return self.decide_tainted(st, c); }
        let b = self.x.eval(c, &st.model) == 1;
        let other = if b { self.x.not(c) } else { c };
        match self.solver_check(&st.cons, other)? {
            SatRes::Unsat => { st.known.insert(c, b); Ok(b) }
            SatRes::Sat(_) => Err(Stop::Fork(c)),
        }
    }
    /// A branch whose condition mentions uninitialised bytes: legal only if they cannot influence it.
    fn decide_tainted(&mut self, st: &mut State, c: E) -> R<bool> {
        self.st.uninit_checks += 1;
        let mut m = HashMap::new();
        let c0 = self.x.subst_taint(c, true, &mut m);
        let mut m = HashMap::new();
        let c1 = self.x.subst_taint(c, false, &mut m);
        let d = self.x.bin(Op::Xor, c0, c1);
        // free copies of the taint variables: any difference means dependence
        let dep = match self.x.as_const(d) {
            Some(0) => false,
            Some(_) => true,
            None => matches!(self.solver_check(&st.cons, d)?, SatRes::Sat(_)),
        };
        if dep { return bug("uninit", "branch depends on uninitialised memory"); }
        self.decide(st, c1)
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u32, what: &str) -> R<u64> {
        match v {
            V::C(c) => Ok(*c),
            V::U => bug("uninit", format!("{} is uninitialised", what)),
            V::E(e) => {
                let mut e = *e;
                if self.x.vars_of[e as usize] & TAINT != 0 {
                    // passed along with uninitialised bytes (padding): legal if they cannot influence the value
                    self.st.uninit_checks += 1;
                    let e0 = self.x.subst_taint(e, true, &mut HashMap::new());
                    let e1 = self.x.subst_taint(e, false, &mut HashMap::new());
                    if e0 != e1 {
                        let same = self.x.bin(Op::Eq, e0, e1);
                        let differ = self.x.not(same);
                        let dep = match self.x.as_const(differ) {
                            Some(k) => k != 0,
                            None => matches!(self.solver_check(&st.cons, differ)?, SatRes::Sat(_)),
                        };
                        if dep { return bug("uninit", format!("{} depends on uninitialised memory", what)); }
                    }
                    e = e1;
                }
                let k = self.x.eval(e, &st.model);
                let c = self.x.eq_const(e, k);
                let _ = w;
                if self.decide(st, c)? { Ok(k as u64) } else { unsup("model does not satisfy its own path") }
            }
            V::Agg(_) => unsup(format!("aggregate {}", what)),
        }
    }
    fn truth(&mut self, st: &mut State, v: &V, what: &str) -> R<bool> {
        match v {
            V::C(c) => Ok(*c & 1 == 1),
            V::U => bug("uninit", format!("{} is uninitialised", what)),
            V::E(e) => { let e = *e; self.decide(st, e) }
            _ => unsup("aggregate condition"),
        }
    }
    fn add_cons(&mut self, st: &mut State, c: E, b: bool) {
        st.known.insert(c, b);
        let e = if b { c } else { self.x.not(c) };
        if self.x.as_const(e).is_none() { st.cons.push(e); st.known.insert(e, true); }
    }

    // ---------- memory ----------
    fn obj<'a>(&'a mut self, st: &'a mut State, addr: u64, len: u64, write: bool) -> R<(u32, usize)> {
        let id = (addr >> 32) as u32;
        let off = (addr & 0xffff_ffff) as i64 - BASE_OFF as i64;
        if id == 0 {
            return bug("null", format!("{} of {} bytes at invalid address {:#x}", if write { "write" } else { "read" }, len, addr));
        }
        let (size, kind) = if id >= FIRST_DYN {
            if Decoder::addr_fn(addr).is_some() { return bug("oob", "data access to a function"); }
            match st.mem.get(id - FIRST_DYN) {
                None => return bug("oob", format!("access through invalid pointer {:#x}", addr)),
                Some(None) => return bug("uaf", format!("{} of {} bytes in a freed or out-of-scope object", if write { "write" } else { "read" }, len)),
                Some(Some(o)) => (o.size(), o.kind),
            }
        } else {
            let gi = id - 1;
            if gi as usize >= self.d.globs.len() { return bug("oob", format!("access through invalid pointer {:#x}", addr)); }
            let ro = self.d.globs[gi as usize].ro;
            if ro {
                if !self.consts.contains_key(&gi) {
                    let (data, init) = self.d.global_bytes(&mut self.x, gi).map_err(Stop::Unsupported)?;
                    self.consts.insert(gi, Rc::new(Obj { data, st: init, sym: vec![], kind: Kind::Const, align: 16 }));
                }
            } else if !st.mem.globals.contains_key(&gi) {
                let (data, init) = self.d.global_bytes(&mut self.x, gi).map_err(Stop::Unsupported)?;
                Rc::make_mut(&mut st.mem.globals).insert(gi, Rc::new(Obj { data, st: init, sym: vec![], kind: Kind::Global, align: 16 }));
            }
            let o = if ro { &self.consts[&gi] } else { &st.mem.globals[&gi] };
            (o.size(), o.kind)
        };
        if off < 0 || off as u64 + len > size as u64 {
            return bug("oob", format!("{} of {} bytes at offset {} of a {}-byte {:?} object", if write { "write" } else { "read" }, len, off, size, kind));
        }
        if write && kind == Kind::Const { return bug("const-write", "write to read-only memory"); }
        Ok((id, off as usize))
    }
    fn rd<'a>(&'a self, st: &'a State, id: u32) -> &'a Obj {
        if id >= FIRST_DYN { st.mem.get(id - FIRST_DYN).unwrap().unwrap() }
        else if let Some(o) = self.consts.get(&(id - 1)) { o } else { &st.mem.globals[&(id - 1)] }
    }
    fn wr<'a>(st: &'a mut State, id: u32) -> &'a mut Obj {
        if id >= FIRST_DYN { st.mem.get_mut(id - FIRST_DYN).unwrap() }
        else { Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&(id - 1)).unwrap()) }
    }
    fn load_scalar(&mut self, st: &mut State, addr: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.obj(st, addr, n as u64, false)?;
        let o = self.rd(st, id);
        let s = &o.st[off..off + n];
        if s.iter().all(|&b| b == CONC) && n <= 8 {
            let mut v = 0u64;
            for i in 0..n { v |= (o.data[off + i] as u64) << (8 * i); }
            if w < 64 { v &= (1u64 << w) - 1; }
            return Ok(V::C(v));
        }
        if s.iter().all(|&b| b == UNINIT) { return Ok(V::U); }
        // whole-term fast path
        if s.iter().all(|&b| b == SYM) {
            let (e0, i0) = o.sym[off];
            if i0 == 0 && self.x.w(e0) == w && (0..n).all(|i| o.sym[off + i] == (e0, i as u8)) { return Ok(V::E(e0)); }
        }
        let bytes: Vec<(u8, u8, (E, u8))> = (0..n).map(|i| (o.st[off + i], o.data[off + i], if o.st[off + i] == SYM { o.sym[off + i] } else { (0, 0) })).collect();
        let mut acc: Option<E> = None;
        for (s, d, (e, i)) in bytes {
            let b = match s {
                CONC => self.x.konst(d as u128, 8),
                SYM => { let ew = self.x.w(e); let lo = 8 * i as u32; if lo + 8 <= ew { self.x.extract(e, lo, 8) } else { let q = self.x.extract(e, lo, ew - lo); self.x.zext(q, 8) } }
                _ => self.taint(8),
            };
            acc = Some(match acc { None => b, Some(a) => self.x.concat(b, a) });
        }
        let e = acc.unwrap();
        let e = if self.x.w(e) > w { self.x.extract(e, 0, w) } else { e };
        Ok(self.v(e))
    }
    fn store_scalar(&mut self, st: &mut State, addr: u64, v: &V, w: u32) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let (id, off) = self.obj(st, addr, n as u64, true)?;
        match v {
            V::C(c) => {
                let o = Self::wr(st, id);
                for i in 0..n { o.data[off + i] = if i < 8 { (c >> (8 * i)) as u8 } else { 0 }; o.st[off + i] = CONC; }
            }
            V::U => { let o = Self::wr(st, id); for i in 0..n { o.st[off + i] = UNINIT; } }
            V::E(e) => {
                let e = *e;
                let ew = self.x.w(e);
                let e = if ew < 8 * n as u32 { self.x.zext(e, 8 * n as u32) } else { e };
                let tainted = self.x.vars_of[e as usize] & TAINT != 0;
                let split = tainted || self.x.as_const(e).is_some() || matches!(self.x.n(e).op, Op::ZExt | Op::Concat);
                if split {
                    for i in 0..n {
                        let b = self.x.extract(e, 8 * i as u32, 8);
                        let nb = self.x.n(b);
                        let o = Self::wr(st, id);
                        match nb.op {
                            Op::Const => { o.data[off + i] = nb.k as u8; o.st[off + i] = CONC; }
                            Op::Var if self.x.vars[nb.k as usize].taint => { o.st[off + i] = UNINIT; }
                            _ => {
                                if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
                                o.sym[off + i] = (b, 0);
                                o.st[off + i] = SYM;
                            }
                        }
                    }
                } else {
                    let o = Self::wr(st, id);
                    if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
                    for i in 0..n { o.sym[off + i] = (e, i as u8); o.st[off + i] = SYM; }
                }
            }
            V::Agg(_) => return unsup("scalar store of aggregate"),
        }
        Ok(())
    }
    fn load(&mut self, st: &mut State, addr: u64, t: &Rc<Ty>) -> R<V> {
        match &t.k {
            TyK::Int(w) => self.load_scalar(st, addr, *w),
            TyK::Ptr => self.load_scalar(st, addr, 64),
            TyK::Struct(f) => { let mut o = vec![]; for (ft, off) in f { o.push(self.load(st, addr.wrapping_add(*off), ft)?); } Ok(V::Agg(Rc::new(o))) }
            TyK::Array(e, n) | TyK::Vector(e, n) => { let mut o = vec![]; for i in 0..*n { o.push(self.load(st, addr.wrapping_add(i * e.size), e)?); } Ok(V::Agg(Rc::new(o))) }
            k => unsup(format!("load of {:?}", k)),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &V, t: &Rc<Ty>) -> R<()> {
        match (&t.k, v) {
            (TyK::Int(w), _) => self.store_scalar(st, addr, v, *w),
            (TyK::Ptr, _) => self.store_scalar(st, addr, v, 64),
            (TyK::Struct(f), V::Agg(a)) => { for (i, (ft, off)) in f.iter().enumerate() { self.store(st, addr.wrapping_add(*off), &a[i], ft)?; } Ok(()) }
            (TyK::Array(e, n), V::Agg(a)) | (TyK::Vector(e, n), V::Agg(a)) => { for i in 0..*n { self.store(st, addr.wrapping_add(i * e.size), &a[i as usize], e)?; } Ok(()) }
            (_, V::U) => Ok(()),
            (k, _) => unsup(format!("store of {:?}", k)),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64, overlap_ok: bool) -> R<()> {
        if n == 0 { return Ok(()); }
        let (sid, so) = self.obj(st, src, n, false)?;
        let (did, d) = self.obj(st, dst, n, true)?;
        let n = n as usize;
        if !overlap_ok && sid == did && so != d && so < d + n && d < so + n { return bug("overlap", "memcpy with overlapping ranges"); }
        let o = self.rd(st, sid);
        let data = o.data[so..so + n].to_vec();
        let stt = o.st[so..so + n].to_vec();
        let sym: Vec<(E, u8)> = if stt.iter().any(|&b| b == SYM) { o.sym[so..so + n].to_vec() } else { vec![] };
        let o = Self::wr(st, did);
        o.data[d..d + n].copy_from_slice(&data);
        o.st[d..d + n].copy_from_slice(&stt);
        if !sym.is_empty() {
            if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; }
            o.sym[d..d + n].copy_from_slice(&sym);
        }
        Ok(())
    }
    fn heap_alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if align == 0 || !align.is_power_of_two() { return bug("alloc", "bad alignment"); }
        if size > 1 << 24 { return bug("alloc", format!("allocation of {} bytes", size)); }
        let mut o = Obj::new(size as usize, Kind::Heap, align);
        if zero { for s in o.st.iter_mut() { *s = CONC; } }
        st.mem.live_heap += size;
        let id = st.mem.alloc(o) + FIRST_DYN;
        Ok(((id as u64) << 32) + BASE_OFF)
    }
    fn heap_free(&mut self, st: &mut State, p: u64, size: u64, align: u64) -> R<()> {
        let id = (p >> 32) as u32;
        if id < FIRST_DYN || p & 0xffff_ffff != BASE_OFF { return bug("free", format!("deallocation of a pointer ({:#x}) that is not the start of a heap block", p)); }
        match st.mem.get(id - FIRST_DYN) {
            None => return bug("free", "deallocation of an invalid pointer"),
            Some(None) => return bug("double-free", "heap block freed twice"),
            Some(Some(o)) => {
                if o.kind != Kind::Heap { return bug("free", "deallocation of a non-heap object"); }
                if o.size() as u64 != size || o.align != align { return bug("free", format!("deallocation with layout ({}, {}) of a block allocated with ({}, {})", size, align, o.size(), o.align)); }
            }
        }
        st.mem.live_heap -= size;
        st.mem.free(id - FIRST_DYN);
        Ok(())
    }

    // ---------- arithmetic ----------
    fn bin(&mut self, st: &mut State, op: Op, t: &Rc<Ty>, a: &V, b: &V) -> R<V> {
        match &t.k {
            TyK::Vector(et, n) => {
                let (a, b) = (self.lanes(a, *n)?, self.lanes(b, *n)?);
                let mut o = vec![];
                for i in 0..*n as usize { o.push(self.bin(st, op, et, &a[i], &b[i])?); }
                return Ok(V::Agg(Rc::new(o)));
            }
            _ => {}
        }
        let w = t.w();
        if w == 0 { return unsup("arithmetic on this type"); }
        if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
            let be = self.e(b, w);
            let z = self.x.eq_const(be, 0);
            if self.decide(st, z)? { return bug("div", "division by zero"); }
        }
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(y), Op::Sub => x.wrapping_sub(y), Op::Mul => x.wrapping_mul(y),
                    Op::And => x & y, Op::Or => x | y, Op::Xor => x ^ y,
                    Op::Shl => if y >= w as u64 { 0 } else { x << y },
                    Op::LShr => if y >= w as u64 { 0 } else { x >> y },
                    _ => Exprs::fold(op, x as u128, y as u128, w) as u64,
                };
                return Ok(V::C(r & m));
            }
        }
        match (a, b, op) {
            (V::U, V::C(0), Op::And) | (V::C(0), V::U, Op::And) => return Ok(V::C(0)),
            (V::U, _, _) | (_, V::U, _) if !matches!(op, Op::And | Op::Or) => return Ok(V::U),
            _ => {}
        }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = self.x.bin(op, x, y);
        Ok(self.v(r))
    }
    fn lanes(&self, v: &V, n: u64) -> R<Vec<V>> {
        match v { V::Agg(a) => Ok(a.to_vec()), V::U => Ok(vec![V::U; n as usize]), _ => unsup("lanes of scalar") }
    }
    fn icmp(&mut self, p: Pred, t: &Rc<Ty>, a: &V, b: &V) -> R<V> {
        if let TyK::Vector(et, n) = &t.k {
            let (a, b) = (self.lanes(a, *n)?, self.lanes(b, *n)?);
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.icmp(p, et, &a[i], &b[i])?); }
            return Ok(V::Agg(Rc::new(o)));
        }
        let w = t.w();
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let (sx, sy) = (sext(x as u128, w), sext(y as u128, w));
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => sx > sy, Pred::Sge => sx >= sy, Pred::Slt => sx < sy, Pred::Sle => sx <= sy };
            return Ok(V::C(r as u64));
        }
        if matches!(a, V::U) || matches!(b, V::U) { return Ok(V::U); }
        let (x, y) = (self.e(a, w), self.e(b, w));
        let r = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => { let q = self.x.bin(Op::Eq, x, y); self.x.not(q) }
            Pred::Ugt => self.x.bin(Op::Ult, y, x), Pred::Uge => self.x.bin(Op::Ule, y, x),
            Pred::Ult => self.x.bin(Op::Ult, x, y), Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x), Pred::Sge => self.x.bin(Op::Sle, y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y), Pred::Sle => self.x.bin(Op::Sle, x, y),
        };
        Ok(self.v(r))
    }
    fn cast(&mut self, k: CastK, f: &Rc<Ty>, t: &Rc<Ty>, v: &V) -> R<V> {
        if let (TyK::Vector(fe, n), TyK::Vector(te, _)) = (&f.k, &t.k) {
            let a = self.lanes(v, *n)?;
            let mut o = vec![];
            for i in 0..*n as usize { o.push(self.cast(k, fe, te, &a[i])?); }
            return Ok(V::Agg(Rc::new(o)));
        }
        let (fw, tw) = (f.w(), t.w());
        Ok(match (k, v) {
            (CastK::Same, v) => v.clone(),
            (_, V::U) => match k { CastK::ZExt => { let e = self.taint(fw); let e = self.x.zext(e, tw); V::E(e) } _ => V::U },
            (CastK::Trunc, V::C(c)) => V::C(if tw >= 64 { *c } else { c & ((1u64 << tw) - 1) }),
            (CastK::ZExt, V::C(c)) if tw <= 64 => V::C(*c),
            (CastK::SExt, V::C(c)) if tw <= 64 => V::C((sext(*c as u128, fw) as u64) & mask(tw) as u64),
            _ => {
                let e = self.e(v, fw);
                let r = match k { CastK::Trunc => self.x.extract(e, 0, tw), CastK::ZExt => self.x.zext(e, tw), _ => self.x.sext(e, tw) };
                self.v(r)
            }
        })
    }
    fn select(&mut self, st: &mut State, t: &Rc<Ty>, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(k) => Ok(if k & 1 == 1 { a.clone() } else { b.clone() }),
            V::U => Ok(self.d.undef(t)),
            V::E(e) => {
                let e = *e;
                if let Some(&k) = st.known.get(&e) { return Ok(if k { a.clone() } else { b.clone() }); }
                match &t.k {
                    TyK::Int(w) => {
                        if matches!(a, V::U) && matches!(b, V::U) { return Ok(V::U); }
                        let (x, y) = (self.e(a, *w), self.e(b, *w));
                        let r = self.x.ite(e, x, y);
                        Ok(self.v(r))
                    }
                    _ => Ok(if self.decide(st, e)? { a.clone() } else { b.clone() }),
                }
            }
            _ => unsup("vector select"),
        }
    }
    fn agg_get(v: &V, t: &Rc<Ty>, ix: &[u32]) -> V {
        let mut v = v.clone();
        let _ = t;
        for &i in ix {
            v = match v { V::Agg(a) => a[i as usize].clone(), _ => return V::U };
        }
        v
    }
    fn agg_set(&mut self, v: &V, t: &Rc<Ty>, x: V, ix: &[u32]) -> V {
        if ix.is_empty() { return x; }
        let base = match v { V::Agg(a) => a.to_vec(), _ => match self.d.undef(t) { V::Agg(a) => a.to_vec(), _ => vec![] } };
        let et = match &t.k { TyK::Struct(f) => f[ix[0] as usize].0.clone(), TyK::Array(e, _) | TyK::Vector(e, _) => e.clone(), _ => unreachable!() };
        let mut base = base;
        let old = base[ix[0] as usize].clone();
        base[ix[0] as usize] = self.agg_set(&old, &et, x, &ix[1..]);
        V::Agg(Rc::new(base))
    }

    // ---------- control ----------
    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.bb;
        let f = fr.f.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (dst, inc) in &b.phis {
                let o = match inc.iter().find(|p| p.0 == from) { Some(p) => &p.1, None => return unsup("phi without incoming edge") };
                let v = match o { Opd::Reg(r) => fr.regs[*r as usize].clone(), Opd::K(v) => v.clone() };
                vals.push((*dst, v));
            }
            for (d, v) in vals { fr.regs[d as usize] = v; }
        }
        fr.bb = to;
        fr.ip = 0;
        self.visited.entry(f.id).or_default().insert(to);
        Ok(())
    }
    fn push_frame(&mut self, st: &mut State, fi: u32, args: Vec<V>, ret_dst: u32, normal: Option<u32>) -> R<()> {
        let f = self.d.func(&mut self.x, fi).map_err(Stop::Unsupported)?;
        if st.frames.len() >= self.cfg.max_depth { return bug("stack-overflow", format!("call depth exceeds {}", self.cfg.max_depth)); }
        let mut regs = vec![V::U; f.nregs as usize];
        for (i, a) in args.into_iter().enumerate() { if i < f.nparams as usize { regs[i] = a; } }
        self.visited.entry(fi).or_default().insert(0);
        st.frames.push(Frame { f, regs, bb: 0, ip: 0, allocas: vec![], ret_dst, normal });
        if st.frames.len() > self.st.max_depth { self.st.max_depth = st.frames.len(); }
        Ok(())
    }
    fn advance(&mut self, st: &mut State, normal: Option<u32>) -> R<()> {
        match normal { Some(b) => self.jump(st, b), None => { st.frames.last_mut().unwrap().ip += 1; Ok(()) } }
    }
    fn kind(&mut self, fi: u32) -> FnKind {
        if let Some(&k) = self.fnkind.get(&fi) { return k; }
        let k = { let f = &self.d.fns[fi as usize]; cls(&f.name, f.decl) };
        self.fnkind.insert(fi, k);
        k
    }

    /// One instruction. On Err(Fork) nothing observable has been committed.
    fn step(&mut self, st: &mut State) -> R<()> {
        let (f, bb, ip) = { let fr = st.frames.last().unwrap(); (fr.f.clone(), fr.bb as usize, fr.ip as usize) };
        let inst = &f.blocks[bb].insts[ip];
        let dst = inst.dst;
        macro_rules! o { ($x:expr) => { Self::opd(st, $x) } }
        let val = match &inst.i {
            In::Bin(op, t, a, b) => { let (a, b) = (o!(a), o!(b)); self.bin(st, *op, t, &a, &b)? }
            In::ICmp(p, t, a, b) => { let (a, b) = (o!(a), o!(b)); self.icmp(*p, t, &a, &b)? }
            In::Select(t, c, a, b) => { let (c, a, b) = (o!(c), o!(a), o!(b)); self.select(st, t, &c, &a, &b)? }
            In::Load(t, p) => { let p = o!(p); let a = self.concretize(st, &p, 64, "load address")?; self.load(st, a, t)? }
            In::Store(t, v, p) => { let (v, p) = (o!(v), o!(p)); let a = self.concretize(st, &p, 64, "store address")?; self.store(st, a, &v, t)?; V::U }
            In::Gep(b, k, dy) => {
                let b = o!(b);
                if let V::C(base) = b {
                    let mut acc = base.wrapping_add(*k as u64);
                    let mut sym: Option<E> = None;
                    for (ix, s, w) in dy {
                        match o!(ix) {
                            V::C(c) => acc = acc.wrapping_add((sext(c as u128, *w) as i64).wrapping_mul(*s) as u64),
                            V::U => return bug("uninit", "uninitialised index"),
                            V::E(e) => {
                                let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                                let sc = self.x.konst(*s as u64 as u128, 64);
                                let m = self.x.bin(Op::Mul, e, sc);
                                sym = Some(match sym { None => m, Some(q) => self.x.bin(Op::Add, q, m) });
                            }
                            _ => return unsup("gep index"),
                        }
                    }
                    match sym {
                        None => V::C(acc),
                        Some(e) => { let c = self.x.konst(acc as u128, 64); let r = self.x.bin(Op::Add, e, c); self.v(r) }
                    }
                } else {
                    let mut acc = match b { V::U => return bug("uninit", "uninitialised pointer"), ref b => self.e(b, 64) };
                    let kk = self.x.konst(*k as u64 as u128, 64);
                    acc = self.x.bin(Op::Add, acc, kk);
                    for (ix, s, w) in dy {
                        let v = o!(ix);
                        let e = self.e(&v, *w);
                        let e = if *w < 64 { self.x.sext(e, 64) } else { e };
                        let sc = self.x.konst(*s as u64 as u128, 64);
                        let m = self.x.bin(Op::Mul, e, sc);
                        acc = self.x.bin(Op::Add, acc, m);
                    }
                    self.v(acc)
                }
            }
            In::Cast(k, ft, t, v) => { let v = o!(v); self.cast(*k, ft, t, &v)? }
            In::Alloca(sz, al, n) => {
                let n = o!(n);
                let n = self.concretize(st, &n, 64, "alloca count")?;
                let id = st.mem.alloc(Obj::new((sz * n) as usize, Kind::Stack, *al));
                st.frames.last_mut().unwrap().allocas.push(id);
                V::C((((id + FIRST_DYN) as u64) << 32) + BASE_OFF)
            }
            In::ExtractValue(v, t, ix) => Self::agg_get(&o!(v), t, ix),
            In::InsertValue(v, t, x, ix) => { let (v, x) = (o!(v), o!(x)); self.agg_set(&v, t, x, ix) }
            In::ExtractElement(v, t, i) => { let (v, i) = (o!(v), o!(i)); let i = self.concretize(st, &i, 64, "lane")?; Self::agg_get(&v, t, &[i as u32]) }
            In::InsertElement(v, t, x, i) => { let (v, x, i) = (o!(v), o!(x), o!(i)); let i = self.concretize(st, &i, 64, "lane")?; self.agg_set(&v, t, x, &[i as u32]) }
            In::Shuffle(a, b, t, m) => {
                let n = match &t.k { TyK::Vector(_, n) => *n, _ => return unsup("shuffle") };
                let (a, b) = (self.lanes(&o!(a), n)?, self.lanes(&o!(b), n)?);
                V::Agg(Rc::new(m.iter().map(|&i| if i < 0 { V::U } else if (i as u64) < n { a[i as usize].clone() } else { b[i as usize - n as usize].clone() }).collect()))
            }
            In::Freeze(_, v) => { let v = o!(v); match v { V::U => V::C(0), v => v } }
            In::AtomicRmw(op, t, p, v) => {
                let (p, v) = (o!(p), o!(v));
                let a = self.concretize(st, &p, 64, "atomic address")?;
                let old = self.load(st, a, t)?;
                let new = match op { 0 => v, 1 => self.bin(st, Op::Add, t, &old, &v)?, 2 => self.bin(st, Op::Sub, t, &old, &v)?, 3 => self.bin(st, Op::And, t, &old, &v)?,
                    5 => self.bin(st, Op::Or, t, &old, &v)?, 6 => self.bin(st, Op::Xor, t, &old, &v)?, k => return unsup(format!("atomicrmw {}", k)) };
                self.store(st, a, &new, t)?;
                old
            }
            In::CmpXchg(t, p, c, n) => {
                let (p, c, n) = (o!(p), o!(c), o!(n));
                let a = self.concretize(st, &p, 64, "atomic address")?;
                let old = self.load(st, a, t)?;
                let eq = self.icmp(Pred::Eq, t, &old, &c)?;
                let b = self.truth(st, &eq, "cmpxchg")?;
                if b { self.store(st, a, &n, t)?; }
                V::Agg(Rc::new(vec![old, V::C(b as u64)]))
            }
            In::Br(t) => return self.jump(st, *t),
            In::CondBr(c, a, b) => {
                let c = o!(c);
                let t = self.truth(st, &c, "branch condition")?;
                return self.jump(st, if t { *a } else { *b });
            }
            In::Switch(c, w, cs, d) => {
                let c = o!(c);
                match c {
                    V::C(k) => { let t = cs.iter().find(|p| p.0 == k).map(|p| p.1).unwrap_or(*d); return self.jump(st, t); }
                    V::U => return bug("uninit", "switch on uninitialised value"),
                    V::E(e) => {
                        for (k, t) in cs {
                            let q = self.x.eq_const(e, *k as u128 & mask(*w));
                            if self.decide(st, q)? { return self.jump(st, *t); }
                        }
                        return self.jump(st, *d);
                    }
                    _ => return unsup("switch"),
                }
            }
            In::Ret(v) => {
                let v = v.as_ref().map(|v| o!(v));
                let fr = st.frames.pop().unwrap();
                for a in fr.allocas { st.mem.free(a); }
                if st.frames.is_empty() { return Err(Stop::Done); }
                if let Some(v) = v { Self::set(st, fr.ret_dst, v); }
                return self.advance(st, fr.normal);
            }
            In::Unreachable => return bug("unreachable", "reached code the compiler was promised is unreachable"),
            In::Call { t, args, ret, normal } => {
                let fi = match t {
                    Target::Direct(f) => *f,
                    Target::Indirect(p) => {
                        let p = o!(p);
                        let a = self.concretize(st, &p, 64, "call target")?;
                        match Decoder::addr_fn(a) { Some(f) if (f as usize) < self.d.fns.len() => f, _ => return bug("call", format!("call through invalid function pointer {:#x}", a)) }
                    }
                    Target::Asm(s) => {
                        if s.contains("asm sideeffect \"\"") || s.contains("asm \"\"") { return self.advance(st, *normal); }
                        return unsup(format!("inline asm {}", s));
                    }
                };
                let mut av = Vec::with_capacity(args.len());
                for (a, _) in args { av.push(o!(a)); }
                match self.kind(fi) {
                    FnKind::Plain => return self.push_frame(st, fi, av, dst, *normal),
                    FnKind::Format if !st.real_format && self.fmt_stub.is_some() => {
                        *self.stubbed.entry("alloc::fmt::format".into()).or_default() += 1;
                        let s = self.fmt_stub.unwrap();
                        return self.push_frame(st, s, av, dst, *normal);
                    }
                    FnKind::Format => return self.push_frame(st, fi, av, dst, *normal),
                    FnKind::CharContains if st.real_contains => return self.push_frame(st, fi, av, dst, *normal),
                    FnKind::CharContains => {
                        match self.char_contains(st, &av)? {
                            Some(v) => { Self::set(st, dst, v); return self.advance(st, *normal); }
                            None => return self.push_frame(st, fi, av, dst, *normal),
                        }
                    }
                    FnKind::Panic => {
                        let m = self.panic_msg(st, &av);
                        if st.allow_panic { return Err(Stop::Allowed); }
                        return bug("panic", m);
                    }
                    FnKind::Abort => return bug("abort", self.d.fns[fi as usize].name.clone()),
                    FnKind::Ext => {
                        let name = self.d.fns[fi as usize].name.clone();
                        let tys: Vec<Rc<Ty>> = args.iter().map(|a| a.1.clone()).collect();
                        let r = self.external(st, &name, &av, &tys, ret)?;
                        Self::set(st, dst, r);
                        return self.advance(st, *normal);
                    }
                }
            }
            In::Nop => V::U,
            In::Unsupported(m) => return unsup(m.clone()),
        };
        let fr = st.frames.last_mut().unwrap();
        if dst != NODST { fr.regs[dst as usize] = val; }
        fr.ip += 1;
        Ok(())
    }

    fn panic_msg(&mut self, st: &mut State, av: &[V]) -> String {
        if av.len() >= 2 {
            if let (V::C(p), V::C(n)) = (&av[0], &av[1]) {
                if *n < 200 { if let Ok(s) = self.cstr(st, *p, *n) { return s; } }
            }
        }
        "panic".into()
    }
    fn cstr(&mut self, st: &mut State, p: u64, n: u64) -> R<String> {
        let mut s = vec![];
        for i in 0..n {
            match self.load_scalar(st, p + i, 8)? { V::C(c) => s.push(c as u8), _ => s.push(b'?') }
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    /// `str::contains(char)` as one term: the disjunction of equalities with the haystack's characters.
    fn char_contains(&mut self, st: &mut State, av: &[V]) -> R<Option<V>> {
        let (p, n) = match (&av[1], &av[2]) { (V::C(p), V::C(n)) => (*p, *n), _ => return Ok(None) };
        let gi = ((p >> 32) as u32).wrapping_sub(1);
        if let Some(chars) = self.pattern_of.get(&gi).cloned() {
            let (id, off) = self.obj(st, p, n, false)?;
            if off != 0 || n as u32 as usize != self.rd(st, id).data.len() || self.x.w(chars[0]) != 32 { return Ok(None); }
            if !matches!(av[0], V::C(_) | V::E(_)) { return Ok(None); }
            let c = self.e(&av[0], 32);
            let mut r = self.x.konst(0, 1);
            for &ch in chars.iter() {
                let q = self.x.bin(Op::Eq, c, ch);
                r = self.x.bin(Op::Or, r, q);
            }
            *self.stubbed.entry("<char as core::str::pattern::Pattern>::is_contained_in".into()).or_default() += 1;
            return Ok(Some(self.v(r)));
        }
        let c = match &av[0] { V::E(e) => *e, _ => return Ok(None) };
        let mut b = vec![];
        for i in 0..n { match self.load_scalar(st, p + i, 8)? { V::C(c) => b.push(c as u8), _ => return Ok(None) } }
        let s = match String::from_utf8(b) { Ok(s) => s, Err(_) => return Ok(None) };
        let mut r = self.x.konst(0, 1);
        for ch in s.chars() {
            let q = self.x.eq_const(c, ch as u128);
            r = self.x.bin(Op::Or, r, q);
        }
        *self.stubbed.entry("<char as core::str::pattern::Pattern>::is_contained_in".into()).or_default() += 1;
        Ok(Some(self.v(r)))
    }

    /// Every read-only global that holds exactly these bytes holds symbolic text of the same shape from now on:
    /// for a str, each character any scalar value of the same UTF-8 length; otherwise each byte any byte.
    fn pattern(&mut self, st: &mut State, p: u64, n: u64, is_str: bool) -> R<()> {
        if self.st.forks != 0 { return unsup("vp_pattern after a fork"); }
        let mut text = vec![];
        for i in 0..n { match self.load_scalar(st, p + i, 8)? { V::C(c) => text.push(c as u8), _ => return unsup("vp_pattern of symbolic text") } }
        if text.is_empty() { return unsup("vp_pattern of no text"); }
        let first = st.inputs.len();
        let (mut chars, mut bytes): (Vec<E>, Vec<E>) = (vec![], vec![]);
        if is_str {
            let s = String::from_utf8(text.clone()).map_err(|_| Stop::Unsupported("vp_pattern: not UTF-8".into()))?;
            for ch in s.chars() {
                let ranges: &[(u32, u32)] = match ch.len_utf8() { 1 => &[(0, 0x7f)], 2 => &[(0x80, 0x7ff)], 3 => &[(0x800, 0xd7ff), (0xe000, 0xffff)], _ => &[(0x10000, 0x10ffff)] };
                let e = self.input(st, 32, ranges[0].0 as u64);
                let mut any = self.x.konst(0, 1);
                for &(lo, hi) in ranges {
                    let (l, h) = (self.x.konst(lo as u128, 32), self.x.konst(hi as u128, 32));
                    let (a, b) = (self.x.bin(Op::Ule, l, e), self.x.bin(Op::Ule, e, h));
                    let ab = self.x.bin(Op::And, a, b);
                    any = self.x.bin(Op::Or, any, ab);
                }
                self.add_cons(st, any, true);
                st.inputs.push(e);
                chars.push(e);
                match ch.len_utf8() {
                    1 => { let b = self.x.extract(e, 0, 8); bytes.push(b) }
                    k => {
                        let lead: (u128, u32) = match k { 2 => (0b110, 5), 3 => (0b1110, 4), _ => (0b11110, 3) };
                        let h = self.x.konst(lead.0, 8 - lead.1);
                        let t = self.x.extract(e, 6 * (k as u32 - 1), lead.1);
                        let b = self.x.concat(h, t);
                        bytes.push(b);
                        for i in (0..k as u32 - 1).rev() {
                            let h = self.x.konst(0b10, 2);
                            let t = self.x.extract(e, 6 * i, 6);
                            let b = self.x.concat(h, t);
                            bytes.push(b);
                        }
                    }
                }
            }
        } else {
            for &b in &text {
                let e = self.input(st, 8, b as u64);
                st.inputs.push(e);
                chars.push(e);
                bytes.push(e);
            }
        }
        if let Some(vals) = self.cfg.fix.get(&text).cloned() {
            // (validation runs: this text, but still as constrained symbols)
            if vals.len() != chars.len() { return unsup("--fix: wrong length"); }
            for (&e, &v) in chars.iter().zip(&vals) {
                let i = self.x.n(e).k as usize;
                st.model[i] = v;
                let q = self.x.eq_const(e, v);
                self.add_cons(st, q, true);
            }
        }
        let mut hits = 0;
        for gi in 0..self.d.globs.len() as u32 {
            let g = &self.d.globs[gi as usize];
            if !g.ro || !g.defined || g.size != n { continue; }
            let o = match self.consts.get(&gi) {
                Some(o) => o.clone(),
                None => {
                    let (data, init) = self.d.global_bytes(&mut self.x, gi).map_err(Stop::Unsupported)?;
                    Rc::new(Obj { data, st: init, sym: vec![], kind: Kind::Const, align: 16 })
                }
            };
            if o.data != text || !o.st.iter().all(|&b| b == CONC) { continue; }
            let mut o = (*o).clone();
            o.sym = bytes.iter().map(|&b| (b, 0)).collect();
            o.st = vec![SYM; n as usize];
            self.consts.insert(gi, Rc::new(o));
            self.pattern_of.insert(gi, Rc::new(chars.clone()));
            hits += 1;
        }
        if hits == 0 { return unsup("vp_pattern: no such constant"); }
        self.patterns.push((text, first, chars.len()));
        Ok(())
    }

    fn external(&mut self, st: &mut State, name: &str, a: &[V], tys: &[Rc<Ty>], ret: &Rc<Ty>) -> R<V> {
        macro_rules! c { ($i:expr, $w:expr) => { { let v = a[$i].clone(); self.concretize(st, &v, 64, $w)? } } }
        if let Some(rest) = name.strip_prefix("llvm.") {
            let base = rest.split('.').next().unwrap();
            if base == "memcpy" { let (d, s, n) = (c!(0, "memcpy dst"), c!(1, "memcpy src"), c!(2, "memcpy length")); self.copy(st, d, s, n, false)?; return Ok(V::U); }
            if base == "memmove" { let (d, s, n) = (c!(0, "memmove dst"), c!(1, "memmove src"), c!(2, "memmove length")); self.copy(st, d, s, n, true)?; return Ok(V::U); }
            if base == "memset" {
                let (d, n) = (c!(0, "memset dst"), c!(2, "memset length"));
                let v = a[1].clone();
                for i in 0..n { self.store_scalar(st, d + i, &v, 8)?; }
                return Ok(V::U);
            }
            if rest.starts_with("expect") || rest.starts_with("ssa.copy") || rest.starts_with("launder") || rest.starts_with("strip") { return Ok(a[0].clone()); }
            if base == "assume" {
                let v = a[0].clone();
                return match self.truth(st, &v, "assume")? { true => Ok(V::U), false => bug("unreachable", "compiler assumption violated") };
            }
            if rest.contains(".with.overflow.") {
                let t = &tys[0];
                let w = t.w();
                let sg = rest.starts_with('s');
                let (x, y) = (a[0].clone(), a[1].clone());
                if let (V::C(x), V::C(y)) = (&x, &y) {
                    let (xs, ys): (i128, i128) = if sg { (sext(*x as u128, w), sext(*y as u128, w)) } else { (*x as i128, *y as i128) };
                    let r = if rest[1..].starts_with("add") { xs + ys } else if rest[1..].starts_with("sub") { xs - ys } else {
                        if !sg { let p = (*x as u128) * (*y as u128); return Ok(V::Agg(Rc::new(vec![V::C((p & mask(w)) as u64), V::C((p > mask(w)) as u64)]))); }
                        xs * ys };
                    let lo = (r as u128) & mask(w);
                    let back: i128 = if sg { sext(lo, w) } else { lo as i128 };
                    return Ok(V::Agg(Rc::new(vec![V::C(lo as u64), V::C((back != r) as u64)])));
                }
                if matches!(x, V::U) || matches!(y, V::U) { return Ok(V::Agg(Rc::new(vec![V::U, V::U]))); }
                let (x, y) = (self.e(&x, w), self.e(&y, w));
                let mul = rest[1..].starts_with("mul");
                let op = if rest[1..].starts_with("add") { Op::Add } else if mul { Op::Mul } else { Op::Sub };
                let w2 = if mul { 2 * w } else { w + 1 };
                if w2 > 128 { return unsup("wide overflow arithmetic"); }
                let (xx, yy) = if sg { (self.x.sext(x, w2), self.x.sext(y, w2)) } else { (self.x.zext(x, w2), self.x.zext(y, w2)) };
                let r = self.x.bin(op, xx, yy);
                let lo = self.x.bin(op, x, y);
                let ov = if sg { let b = self.x.sext(lo, w2); let q = self.x.bin(Op::Eq, b, r); self.x.not(q) }
                    else { let hi = self.x.extract(r, w, w2 - w); let q = self.x.eq_const(hi, 0); self.x.not(q) };
                let (lo, ov) = (self.v(lo), self.v(ov));
                return Ok(V::Agg(Rc::new(vec![lo, ov])));
            }
            if matches!(base, "umin" | "umax" | "smin" | "smax") {
                let t = tys[0].clone();
                let p = match base { "umin" => Pred::Ult, "umax" => Pred::Ugt, "smin" => Pred::Slt, _ => Pred::Sgt };
                let cnd = self.icmp(p, &t, &a[0], &a[1])?;
                return self.select(st, &t, &cnd, &a[0], &a[1]);
            }
            if base == "usub" || base == "uadd" { // saturating
                let t = tys[0].clone();
                let w = t.w();
                let r = self.bin(st, if base == "usub" { Op::Sub } else { Op::Add }, &t, &a[0], &a[1])?;
                let (p, other, lim) = if base == "usub" { (Pred::Ult, a[1].clone(), 0) } else { (Pred::Ugt, r.clone(), mask(w)) };
                let cnd = if base == "usub" { self.icmp(p, &t, &a[0], &other)? } else { self.icmp(p, &t, &a[0], &other)? };
                let l = self.d.konst_c(&mut self.x, lim, w);
                return self.select(st, &t, &cnd, &l, &r);
            }
            if matches!(base, "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse") {
                let w = tys[0].w();
                let v = a[0].clone();
                let k = self.concretize(st, &v, w, base)? as u128 & mask(w);
                let r = match base {
                    "ctpop" => k.count_ones() as u128,
                    "ctlz" => (k.leading_zeros() - (128 - w)) as u128,
                    "cttz" => if k == 0 { w as u128 } else { k.trailing_zeros() as u128 },
                    "bswap" => k.swap_bytes() >> (128 - w),
                    _ => k.reverse_bits() >> (128 - w),
                };
                return Ok(V::C(r as u64));
            }
            if base == "fshl" || base == "fshr" {
                let t = tys[0].clone();
                let w = t.w();
                let s = { let v = a[2].clone(); self.concretize(st, &v, w, "funnel shift")? } as u32 % w;
                let (h, l) = (self.e(&a[0], w), self.e(&a[1], w));
                if 2 * w > 128 { return unsup("wide funnel shift"); }
                let cc = self.x.concat(h, l);
                let r = if base == "fshl" { self.x.extract(cc, w - s, w) } else { self.x.extract(cc, s, w) };
                return Ok(self.v(r));
            }
            if base == "sideeffect" || base == "prefetch" || base == "donothing" { return Ok(V::U); }
            if base == "is" { return Ok(V::C(0)); }
            return unsup(format!("intrinsic {}", name));
        }
        match name {
            "__rust_alloc" | "__rust_alloc_zeroed" => { let (s, al) = (c!(0, "allocation size"), c!(1, "alignment")); Ok(V::C(self.heap_alloc(st, s, al, name.ends_with("zeroed"))?)) }
            "__rust_dealloc" => { let (p, s, al) = (c!(0, "freed pointer"), c!(1, "freed size"), c!(2, "alignment")); self.heap_free(st, p, s, al)?; Ok(V::U) }
            "__rust_realloc" => {
                let (p, s, al, n) = (c!(0, "realloc pointer"), c!(1, "size"), c!(2, "alignment"), c!(3, "new size"));
                let q = self.heap_alloc(st, n, al, false)?;
                self.copy(st, q, p, s.min(n), false)?;
                self.heap_free(st, p, s, al)?;
                Ok(V::C(q))
            }
            "memcmp" | "bcmp" => {
                let (p, q, n) = (c!(0, "memcmp"), c!(1, "memcmp"), c!(2, "memcmp length"));
                let mut r = self.x.konst(0, 32);
                for i in (0..n).rev() {
                    let (x, y) = (self.load_scalar(st, p + i, 8)?, self.load_scalar(st, q + i, 8)?);
                    let (x, y) = (self.e(&x, 8), self.e(&y, 8));
                    let eq = self.x.bin(Op::Eq, x, y);
                    let lt = self.x.bin(Op::Ult, x, y);
                    let (m1, p1) = (self.x.konst(u32::MAX as u128, 32), self.x.konst(1, 32));
                    let d = if name == "bcmp" { p1 } else { self.x.ite(lt, m1, p1) };
                    r = self.x.ite(eq, r, d);
                }
                Ok(self.v(r))
            }
            "memchr" => {
                let (p, n) = (c!(0, "memchr"), c!(2, "memchr length"));
                let k = self.e(&a[1], 32);
                let k = self.x.extract(k, 0, 8);
                for i in 0..n {
                    let b = self.load_scalar(st, p + i, 8)?;
                    let b = self.e(&b, 8);
                    let q = self.x.bin(Op::Eq, b, k);
                    if self.decide(st, q)? { return Ok(V::C(p + i)); }
                }
                Ok(V::C(0))
            }
            "strlen" => {
                let p = c!(0, "strlen");
                let mut n = 0;
                loop { let b = self.load_scalar(st, p + n, 8)?; let b = self.e(&b, 8); let q = self.x.eq_const(b, 0); if self.decide(st, q)? { return Ok(V::C(n)); } n += 1; }
            }
            "getenv" => Ok(V::C(0)),
            n if n.starts_with("pthread_") => {
                if n == "pthread_key_create" { let p = c!(0, "key"); self.store_scalar(st, p, &V::C(1), 32)?; }
                Ok(V::C(0))
            }
            "__errno_location" => unsup("errno"),
            "vp_sym" => {
                let (w, lo, hi) = (c!(0, "vp_sym") as u32, c!(1, "vp_sym"), c!(2, "vp_sym"));
                if lo > hi { return unsup("vp_sym: empty range"); }
                let e = self.input(st, w, lo);
                let l = self.x.konst(lo as u128, w);
                let h = self.x.konst(hi as u128, w);
                let c1 = self.x.bin(Op::Ule, l, e);
                let c2 = self.x.bin(Op::Ule, e, h);
                for q in [c1, c2] { if self.x.as_const(q).is_none() { self.add_cons(st, q, true); } }
                st.inputs.push(e);
                let z = self.x.zext(e, 64);
                Ok(self.v(z))
            }
            "vp_sym_char" => {
                let e = self.input(st, 32, 0);
                let (a0, b0, b1) = (self.x.konst(0xD800, 32), self.x.konst(0xE000, 32), self.x.konst(0x10FFFF, 32));
                let p = self.x.bin(Op::Ult, e, a0);
                let q = self.x.bin(Op::Ule, b0, e);
                let r = self.x.bin(Op::Ule, e, b1);
                let qr = self.x.bin(Op::And, q, r);
                let q = self.x.bin(Op::Or, p, qr);
                self.add_cons(st, q, true);
                st.inputs.push(e);
                Ok(V::E(e))
            }
            "vp_pattern" => { let (p, n, s) = (c!(0, "vp_pattern"), c!(1, "vp_pattern"), c!(2, "vp_pattern")); self.pattern(st, p, n, s & 1 == 1)?; Ok(V::U) }
            "vp_param" => { let i = c!(0, "vp_param") as usize; Ok(V::C(self.cfg.params.get(i).copied().unwrap_or(0))) }
            "vp_assume" => { let v = a[0].clone(); if self.truth(st, &v, "vp_assume")? { Ok(V::U) } else { Err(Stop::Kill) } }
            "vp_assert" => {
                let v = a[0].clone();
                let ok = self.truth(st, &v, "vp_assert")?;
                st.asserts += 1;
                self.st.asserts += 1;
                if ok { return Ok(V::U); }
                let (p, n) = (c!(1, "message"), c!(2, "message"));
                let m = self.cstr(st, p, n)?;
                bug("assert", m)
            }
            "vp_observe" => { st.observed.push(a[0].clone()); Ok(V::U) }
            "vp_cover" => { let k = c!(0, "cover") as u32; st.covers.push(k); Ok(V::U) }
            "vp_concrete" => { let k = c!(0, "vp_concrete"); Ok(V::C(k)) }
            "vp_live" => Ok(V::C(st.mem.live_heap)),
            "vp_allow_panic" => { st.allow_panic = c!(0, "flag") & 1 == 1; Ok(V::U) }
            "vp_real_contains" => { st.real_contains = c!(0, "flag") & 1 == 1; Ok(V::U) }
            "vp_real_format" => { st.real_format = c!(0, "flag") & 1 == 1; Ok(V::U) }
            _ => { let _ = ret; unsup(format!("call to external function {}", name)) }
        }
    }
    fn input(&mut self, st: &mut State, w: u32, default: u64) -> E {
        let k = (st.inputs.len(), w, default);
        let e = match self.invars.get(&k) {
            Some(&e) => e,
            None => { let e = self.x.new_var(format!("in{}", st.inputs.len()), w, false, default as u128); self.invars.insert(k, e); e }
        };
        // make the model explicit for this variable
        let i = self.x.n(e).k as usize;
        while st.model.len() <= i { let d = self.x.vars[st.model.len()].default; st.model.push(d); }
        e
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(24).map(|f| {
            let b = &f.f.blocks[f.bb as usize];
            let loc = b.insts.get(f.ip as usize).map(|i| { let l = unsafe { llvm::LLVMGetDebugLocLine(i.v) }; let p = llvm::dbg_file(i.v); format!("{}:{}", p, l) }).unwrap_or_default();
            format!("{} @ {}", f.f.name, loc)
        }).collect()
    }
    fn input_values(&self, st: &State) -> Vec<u128> { st.inputs.iter().map(|&e| self.x.eval(e, &st.model)).collect() }

    fn violation(&mut self, st: &State, kind: &str, msg: String) {
        let stack = self.stack(st);
        let key = format!("{}|{}|{}", kind, msg, stack.first().cloned().unwrap_or_default());
        if !self.vio_keys.insert(key) { return; }
        let inputs = self.input_values(st);
        self.violations.push(Violation { kind: kind.into(), msg, inputs, stack, path: self.st.paths });
    }
    fn note_trace(&mut self, st: &State, panics: bool) {
        // reservoir sample of completed paths, replayed natively afterwards
        let n = self.st.paths;
        let take = if self.traces.len() < self.cfg.max_traces { Some(self.traces.len()) } else {
            self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17;
            let k = self.rng % n.max(1);
            if (k as usize) < self.cfg.max_traces { Some(k as usize) } else { None }
        };
        if let Some(i) = take {
            let observed = st.observed.iter().map(|v| match v { V::C(c) => *c as u128, V::E(e) => self.x.eval(*e, &st.model), _ => u128::MAX }).collect();
            let t = Trace { inputs: self.input_values(st), observed, panics };
            if i == self.traces.len() { self.traces.push(t); } else { self.traces[i] = t; }
        }
    }

    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let fi = self.d.fns.iter().position(|f| f.name == entry && !f.decl).ok_or(format!("no function {}", entry))? as u32;
        let mut st = State { frames: vec![], mem: Mem::new(), cons: vec![], known: HashMap::new(), model: vec![], inputs: vec![], observed: vec![], covers: vec![], steps: 0, allow_panic: false, real_format: false, real_contains: false, asserts: 0 };
        let r = self.push_frame(&mut st, fi, vec![], NODST, None);
        if let Err(Stop::Unsupported(m)) = r { return Err(m); }
        let mut work = vec![st];
        self.start = Instant::now();
        while let Some(mut st) = work.pop() {
            if self.violations.len() >= self.cfg.max_violations { break; }
            loop {
                st.steps += 1;
                self.st.instrs += 1;
                if st.steps > self.cfg.max_steps {
                    self.violation(&st, "hang", format!("no result after {} instructions", self.cfg.max_steps));
                    self.st.paths += 1;
                    break;
                }
                if self.st.instrs & 0xfffff == 0 && std::env::var("SX_TRACE").is_ok() { eprintln!("{} instrs, {} paths, {} pending: {}", self.st.instrs, self.st.paths, work.len(), self.stack(&st).join(" <- ")); }
                if self.st.instrs & 0xffff == 0 && self.start.elapsed().as_secs_f64() > self.cfg.max_secs {
                    return Err(format!("time limit of {} s reached with {} states pending", self.cfg.max_secs, work.len() + 1));
                }
                match self.step(&mut st) {
                    Ok(()) => {}
                    Err(Stop::Fork(c)) => {
                        self.st.forks += 1;
                        let b = self.x.eval(c, &st.model) == 1;
                        let nc = self.x.not(c);
                        let (mine, other) = if b { (c, nc) } else { (nc, c) };
                        let _ = mine;
                        let m = match self.s.check(&self.x, &st.cons, other)? { SatRes::Sat(m) => m, SatRes::Unsat => return Err("inconsistent solver answers".into()) };
                        let mut o = st.clone();
                        for (i, v) in m { while o.model.len() <= i { let d = self.x.vars[o.model.len()].default; o.model.push(d); } o.model[i] = v; }
                        self.add_cons(&mut o, c, !b);
                        self.add_cons(&mut st, c, b);
                        work.push(o);
                    }
                    Err(Stop::Bug(k, m)) => {
                        self.violation(&st, k, m);
                        self.st.paths += 1;
                        break;
                    }
                    Err(Stop::Kill) => {
                        self.st.killed += 1;
                        break;
                    }
                    Err(Stop::Allowed) => {
                        self.st.panicked_ok += 1;
                        self.st.paths += 1;
                        if st.steps > self.st.max_steps { self.st.max_steps = st.steps; }
                        for c in &st.covers { *self.covers.entry(*c).or_default() += 1; }
                        break;
                    }
                    Err(Stop::Done) => {
                        self.st.paths += 1;
                        if st.steps > self.st.max_steps { self.st.max_steps = st.steps; }
                        for c in &st.covers { *self.covers.entry(*c).or_default() += 1; }
                        self.note_trace(&st, false);
                        if self.st.paths > self.cfg.max_paths { return Err(format!("path limit of {} reached", self.cfg.max_paths)); }
                        break;
                    }
                    Err(Stop::Unsupported(m)) => {
                        let s = self.stack(&st);
                        return Err(format!("{} [in {}]", m, s.join(" <- ")));
                    }
                }
            }
        }
        Ok(())
    }
}
