//! Hash-consed bit-vector terms with local simplification, and the SMT back end.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::time::Instant;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle,
    Ite, Extract, Concat, ZExt, SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u32, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub const TAINT: u128 = 1 << 127;
/// bits of a slice's variable set: for choices (64 bits wide) and for items
const CHOICES: usize = 46;
const ITEMS: usize = 80;

pub fn mask(w: u32) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u32) -> i128 {
    if w == 0 || w >= 128 { return v as i128; }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub struct VarInfo { pub w: u32, pub name: String, pub taint: bool, pub default: u128, pub bit: u32 }

pub struct Exprs {
    pub nodes: Vec<Node>,
    pub vars_of: Vec<u128>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    nwide: usize,
    nitem: usize,
}

impl Exprs {
    pub fn new() -> Self {
        Exprs { nodes: vec![], vars_of: vec![], map: HashMap::new(), vars: vec![], nwide: 0, nitem: 0 }
    }
    fn intern(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let vs = match n.op {
            Const => 0,
            Var => {
                let i = n.k as usize;
                if self.vars[i].taint { TAINT } else { 1u128 << self.vars[i].bit }
            }
            Ite => self.vars_of[n.a as usize] | self.vars_of[n.b as usize] | self.vars_of[n.c as usize],
            Extract | ZExt | SExt => self.vars_of[n.a as usize],
            _ => self.vars_of[n.a as usize] | self.vars_of[n.b as usize],
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.vars_of.push(vs);
        self.map.insert(n, e);
        e
    }
    pub fn w(&self, e: E) -> u32 { self.nodes[e as usize].w }
    pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Const { Some(n.k) } else { None }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.intern(Node { op: Const, w, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn new_var(&mut self, name: String, w: u32, taint: bool, default: u128) -> E {
        let i = self.vars.len();
        // many variables share a bit: slices then hold more than they need, never less
        let bit = if taint { 0 } else if w == 64 { self.nwide += 1; (self.nwide - 1) % CHOICES } else { self.nitem += 1; CHOICES + (self.nitem - 1) % ITEMS };
        let bit = bit as u32;
        self.vars.push(VarInfo { w, name, taint, default, bit });
        self.intern(Node { op: Var, w, a: 0, b: 0, c: 0, k: i as u128 })
    }
    pub fn not(&mut self, e: E) -> E {
        let one = self.konst(1, 1);
        self.bin(Xor, e, one)
    }
    pub fn eq_const(&mut self, e: E, v: u128) -> E {
        let w = self.w(e);
        let c = self.konst(v, w);
        self.bin(Eq, e, c)
    }
    pub fn zext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        debug_assert!(n.w < w);
        match n.op {
            Const => self.konst(n.k, w),
            ZExt => self.zext(n.a, w),
            _ => self.intern(Node { op: ZExt, w, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, e: E, w: u32) -> E {
        let n = self.n(e);
        if n.w == w { return e; }
        match n.op {
            Const => self.konst(sext(n.k, n.w) as u128, w),
            ZExt => self.zext(n.a, w),
            _ => self.intern(Node { op: SExt, w, a: e, b: 0, c: 0, k: 0 }),
        }
    }
    /// bits lo .. lo+w
    pub fn extract(&mut self, e: E, lo: u32, w: u32) -> E {
        let n = self.n(e);
        if lo == 0 && w == n.w { return e; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Const => self.konst(n.k >> lo, w),
            Extract => self.extract(n.a, lo + n.k as u32, w),
            ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.konst(0, w) }
                else if lo + w <= iw { self.extract(n.a, lo, w) }
                else { let x = self.extract(n.a, lo, iw - lo); self.zext(x, w) }
            }
            SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, lo, w) }
                else { self.intern(Node { op: Extract, w, a: e, b: 0, c: 0, k: lo as u128 }) }
            }
            Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { self.extract(n.b, lo, w) }
                else if lo >= lw { self.extract(n.a, lo - lw, w) }
                else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, w - (lw - lo));
                    self.concat(h, l)
                }
            }
            And | Or | Xor if self.as_const(n.b).is_some() || self.as_const(n.a).is_some() || n.op == Or => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            Ite => {
                let b = self.extract(n.b, lo, w);
                let c = self.extract(n.c, lo, w);
                self.ite(n.a, b, c)
            }
            Add | Sub if lo == 0 => {
                let a = self.extract(n.a, lo, w);
                let b = self.extract(n.b, lo, w);
                self.bin(n.op, a, b)
            }
            _ => self.intern(Node { op: Extract, w, a: e, b: 0, c: 0, k: lo as u128 }),
        }
    }
    /// a is the high part
    pub fn concat(&mut self, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        assert!(w <= 128, "term wider than 128 bits");
        if na.op == Const && na.k == 0 { return self.zext(b, w); }
        if na.op == Const && nb.op == Const { return self.konst((na.k << nb.w) | nb.k, w); }
        // adjacent extracts of one term
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract(na.a, nb.k as u32, w);
        }
        if na.op == Extract && na.a == b && na.k == nb.w as u128 {
            return self.extract(b, 0, w);
        }
        if nb.op == Concat {
            let h = self.n(nb.a);
            if na.op == Extract && h.op == Extract && na.a == h.a && na.k == h.k + h.w as u128 {
                let x = self.extract(na.a, h.k as u32, na.w + h.w);
                return self.concat(x, nb.b);
            }
        }
        // high part is a zero-extension of an extract
        if na.op == ZExt {
            let inner = na.a;
            let x = self.concat(inner, b);
            return self.zext(x, w);
        }
        self.intern(Node { op: Concat, w, a, b, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b { return a; }
        if let Some(k) = self.as_const(c) { return if k == 1 { a } else { b }; }
        let w = self.w(a);
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(And, nc, b); }
                (None, Some(0)) => return self.bin(And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Or, nc, a); }
                _ => {}
            }
        }
        // normalise ite(not c, a, b)
        let nc = self.n(c);
        if nc.op == Xor && self.as_const(nc.b) == Some(1) { return self.ite(nc.a, b, a); }
        // where x is k, k is x
        if nc.op == Eq && (nc.a == a && nc.b == b || nc.a == b && nc.b == a) { return b; }
        self.intern(Node { op: Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn fold(op: Op, x: u128, y: u128, w: u32) -> u128 {
        let m = mask(w);
        let r = match op {
            Add => x.wrapping_add(y),
            Sub => x.wrapping_sub(y),
            Mul => x.wrapping_mul(y),
            UDiv => if y == 0 { m } else { x / y },
            URem => if y == 0 { x } else { x % y },
            SDiv => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 } }
            SRem => { let (a, b) = (sext(x, w), sext(y, w)); if b == 0 { x } else { a.wrapping_rem(b) as u128 } }
            And => x & y,
            Or => x | y,
            Xor => x ^ y,
            Shl => if y >= w as u128 { 0 } else { x << y },
            LShr => if y >= w as u128 { 0 } else { x >> y },
            AShr => { let a = sext(x, w); if y >= w as u128 { (a >> 127) as u128 } else { (a >> y) as u128 } }
            Eq => (x == y) as u128,
            Ult => (x < y) as u128,
            Ule => (x <= y) as u128,
            Slt => (sext(x, w) < sext(y, w)) as u128,
            Sle => (sext(x, w) <= sext(y, w)) as u128,
            _ => unreachable!(),
        };
        r & m
    }
    fn is_cmp(op: Op) -> bool { matches!(op, Eq | Ult | Ule | Slt | Sle) }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w;
        debug_assert_eq!(na.w, nb.w, "{:?}", op);
        let rw = if Self::is_cmp(op) { 1 } else { w };
        if na.op == Const && nb.op == Const {
            let v = if Self::is_cmp(op) { Self::fold(op, na.k, nb.k, w) & 1 } else { Self::fold(op, na.k, nb.k, w) };
            return self.konst(v, rw);
        }
        // constant to the right for commutative operators
        if na.op == Const && matches!(op, Add | Mul | And | Or | Xor | Eq) { return self.bin(op, b, a); }
        let kb = if nb.op == Const { Some(nb.k) } else { None };
        let m = mask(w);
        match op {
            Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Add { if let Some(k2) = self.as_const(na.b) { let c = self.konst(k.wrapping_add(k2), w); return self.bin(Add, na.a, c); } }
                }
            }
            Sub => {
                if kb == Some(0) { return a; }
                if a == b { return self.konst(0, w); }
                if let Some(k) = kb { let c = self.konst(k.wrapping_neg(), w); return self.bin(Add, a, c); }
            }
            Mul => { if kb == Some(0) { return b; } if kb == Some(1) { return a; }
                if let Some(k) = kb { if k.is_power_of_two() { let c = self.konst(k.trailing_zeros() as u128, w); return self.bin(Shl, a, c); } } }
            UDiv => { if kb == Some(1) { return a; } }
            And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    if w > 1 && (k & (k + 1)) == 0 {
                        let bits = k.count_ones();
                        let x = self.extract(a, 0, bits);
                        return self.zext(x, w);
                    }
                    if na.op == And { if let Some(k2) = self.as_const(na.b) { let c = self.konst(k & k2, w); return self.bin(And, na.a, c); } }
                }
                if w == 1 { let nx = self.not(a); if nx == b { return self.konst(0, 1); } }
            }
            Or => {
                if a == b { return a; }
                if let Some(k) = kb { if k == 0 { return a; } if k == m { return b; } }
                if w > 1 {
                    // or of disjoint parts: concat(x, 0) | zext(y)
                    if let Some(r) = self.or_disjoint(a, b) { return r; }
                    if let Some(r) = self.or_disjoint(b, a) { return r; }
                }
            }
            Xor => {
                if a == b { return self.konst(0, w); }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if na.op == Xor { if let Some(k2) = self.as_const(na.b) { let c = self.konst(k ^ k2, w); return self.bin(Xor, na.a, c); } }
                    if w == 1 && na.op == Ult { return self.bin(Ule, na.b, na.a); }
                    if w == 1 && na.op == Ule { return self.bin(Ult, na.b, na.a); }
                    if w == 1 && na.op == Slt { return self.bin(Sle, na.b, na.a); }
                    if w == 1 && na.op == Sle { return self.bin(Slt, na.b, na.a); }
                }
            }
            Shl => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.konst(0, w); }
                    let x = self.extract(a, 0, w - k as u32);
                    let z = self.konst(0, k as u32);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k >= w as u128 { return self.konst(0, w); }
                    let x = self.extract(a, k as u32, w - k as u32);
                    return self.zext(x, w);
                }
            }
            AShr => { if kb == Some(0) { return a; } }
            Eq => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = kb {
                    match na.op {
                        ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) { return self.konst(0, 1); }
                            let c = self.konst(k, iw);
                            return self.bin(Eq, na.a, c);
                        }
                        Xor => if let Some(k2) = self.as_const(na.b) { let c = self.konst(k ^ k2, w); return self.bin(Eq, na.a, c); },
                        Add => if let Some(k2) = self.as_const(na.b) { let c = self.konst(k.wrapping_sub(k2), w); return self.bin(Eq, na.a, c); },
                        Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kh = self.konst(k >> lw, hw);
                            let kl = self.konst(k & mask(lw), lw);
                            let h = self.bin(Eq, na.a, kh);
                            let l = self.bin(Eq, na.b, kl);
                            return self.bin(And, h, l);
                        }
                        Ite => {
                            let (t, f) = (self.as_const(na.b), self.as_const(na.c));
                            if t.is_some() || f.is_some() {
                                let x = self.bin(Eq, na.b, b);
                                let y = self.bin(Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                    if w == 1 { return if k == 1 { a } else { self.not(a) }; }
                }
                if kb.is_none() && a > b { return self.bin(Eq, b, a); }
            }
            Ult => {
                if a == b { return self.konst(0, 1); }
                if let Some(k) = kb {
                    if k == 0 { return self.konst(0, 1); }
                    if k == 1 { return self.eq_const(a, 0); }
                    if na.op == ZExt {
                        let iw = self.w(na.a);
                        if k > mask(iw) { return self.konst(1, 1); }
                        let c = self.konst(k, iw);
                        return self.bin(Ult, na.a, c);
                    }
                }
                if na.op == Const {
                    if na.k == m { return self.konst(0, 1); }
                    if nb.op == ZExt {
                        let iw = self.w(nb.a);
                        if na.k >= mask(iw) { return self.konst(0, 1); }
                        let c = self.konst(na.k, iw);
                        return self.bin(Ult, c, nb.a);
                    }
                }
                if na.op == ZExt && nb.op == ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Ult, na.a, nb.a); }
            }
            Ule => {
                if a == b { return self.konst(1, 1); }
                if let Some(k) = kb {
                    if k == m { return self.konst(1, 1); }
                    let c = self.konst(k + 1, w);
                    return self.bin(Ult, a, c);
                }
                if na.op == Const {
                    if na.k == 0 { return self.konst(1, 1); }
                    let c = self.konst(na.k - 1, w);
                    return self.bin(Ult, c, b);
                }
            }
            Slt | Sle => {
                if a == b { return self.konst((op == Sle) as u128, 1); }
                // both non-negative by construction
                let nn = |s: &Self, n: &Node| match n.op { ZExt => true, Const => n.k >> (w - 1) == 0, _ => { let _ = s; false } };
                if nn(self, &na) && nn(self, &nb) { return self.bin(if op == Slt { Ult } else { Ule }, a, b); }
            }
            _ => {}
        }
        self.intern(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // a = [zext] concat(x, 0:k) ; b = zext(y) with width(y) <= k
        let w = self.w(a);
        let mut na = self.n(a);
        if na.op == ZExt { na = self.n(na.a); }
        if na.op != Concat { return None; }
        let z = self.w(na.b);
        if self.as_const(na.b) != Some(0) { return None; }
        let lowfits = match self.n(b).op {
            ZExt => self.w(self.n(b).a) <= z,
            Const => self.n(b).k <= mask(z),
            _ => false,
        };
        if !lowfits { return None; }
        let low = self.extract(b, 0, z);
        let c = self.concat(na.a, low);
        Some(if self.w(c) < w { self.zext(c, w) } else { c })
    }
    /// The term with every uninitialised-byte variable replaced: by a fresh copy (`fresh`) or by zero.
    pub fn subst_taint(&mut self, e: E, fresh: bool, memo: &mut HashMap<E, E>) -> E {
        if self.vars_of[e as usize] & TAINT == 0 { return e; }
        if let Some(&r) = memo.get(&e) { return r; }
        let n = self.n(e);
        let r = match n.op {
            Const => e,
            Var => if fresh { let nm = format!("{}c", self.vars[n.k as usize].name); self.new_var(nm, n.w, true, 0) } else { self.konst(0, n.w) },
            Extract => { let a = self.subst_taint(n.a, fresh, memo); self.extract(a, n.k as u32, n.w) }
            ZExt => { let a = self.subst_taint(n.a, fresh, memo); self.zext(a, n.w) }
            SExt => { let a = self.subst_taint(n.a, fresh, memo); self.sext(a, n.w) }
            Concat => { let a = self.subst_taint(n.a, fresh, memo); let b = self.subst_taint(n.b, fresh, memo); self.concat(a, b) }
            Ite => { let a = self.subst_taint(n.a, fresh, memo); let b = self.subst_taint(n.b, fresh, memo); let c = self.subst_taint(n.c, fresh, memo); self.ite(a, b, c) }
            op => { let a = self.subst_taint(n.a, fresh, memo); let b = self.subst_taint(n.b, fresh, memo); self.bin(op, a, b) }
        };
        memo.insert(e, r);
        r
    }
    pub fn eval(&self, e: E, model: &[u128]) -> u128 {
        let mut memo = HashMap::new();
        self.ev(e, model, &mut memo)
    }
    fn ev(&self, e: E, model: &[u128], memo: &mut HashMap<E, u128>) -> u128 {
        let n = self.n(e);
        match n.op {
            Const => return n.k,
            Var => {
                let i = n.k as usize;
                let v = if i < model.len() { model[i] } else { self.vars[i].default };
                return v & mask(n.w);
            }
            _ => {}
        }
        if let Some(&v) = memo.get(&e) { return v; }
        let r = match n.op {
            Ite => if self.ev(n.a, model, memo) == 1 { self.ev(n.b, model, memo) } else { self.ev(n.c, model, memo) },
            Extract => (self.ev(n.a, model, memo) >> n.k) & mask(n.w),
            Concat => { let h = self.ev(n.a, model, memo); let l = self.ev(n.b, model, memo); ((h << self.w(n.b)) | l) & mask(n.w) }
            ZExt => self.ev(n.a, model, memo),
            SExt => sext(self.ev(n.a, model, memo), self.w(n.a)) as u128 & mask(n.w),
            op => {
                let x = self.ev(n.a, model, memo);
                let y = self.ev(n.b, model, memo);
                let iw = self.w(n.a);
                let r = Self::fold(op, x, y, iw);
                if Self::is_cmp(op) { r & 1 } else { r }
            }
        };
        memo.insert(e, r);
        r
    }
}

pub struct Solver {
    child: Child,
    inp: ChildStdin,
    out: BufReader<ChildStdout>,
    emitted: Vec<bool>,
    vars_declared: usize,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub cached: u64,
    pub secs: f64,
    pub log: Option<std::fs::File>,
    pub timeout_ms: u32,
    cache: HashMap<Vec<E>, Option<Vec<(usize, u128)>>>,
}

pub enum SatRes { Unsat, Sat(Vec<(usize, u128)>) }

impl Solver {
    pub fn new(cmd: &[String], timeout_ms: u32, log: Option<&str>) -> Result<Self, String> {
        let mut child = Command::new(&cmd[0]).args(&cmd[1..]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null())
            .spawn().map_err(|e| format!("cannot start solver {:?}: {}", cmd, e))?;
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        let mut s = Solver { child, inp, out, emitted: vec![], vars_declared: 0, queries: 0, sat: 0, unsat: 0, cached: 0, secs: 0.0,
            log: log.map(|p| std::fs::File::create(p).unwrap()), timeout_ms, cache: HashMap::new() };
        let iscvc = cmd[0].contains("cvc5");
        s.send("(set-option :print-success false)\n(set-option :produce-models true)\n")?;
        if iscvc { s.send("(set-logic QF_BV)\n")?; }
        else { s.send(&format!("(set-option :timeout {})\n(set-option :model.completion true)\n(set-logic QF_BV)\n", timeout_ms))?; }
        Ok(s)
    }
    fn send(&mut self, t: &str) -> Result<(), String> {
        if let Some(l) = &mut self.log { let _ = l.write_all(t.as_bytes()); }
        self.inp.write_all(t.as_bytes()).map_err(|e| format!("solver pipe: {}", e))
    }
    fn line(&mut self) -> Result<String, String> {
        let mut s = String::new();
        loop {
            s.clear();
            let n = self.out.read_line(&mut s).map_err(|e| format!("solver pipe: {}", e))?;
            if n == 0 { return Err("solver closed its output".into()); }
            let t = s.trim();
            if t.is_empty() { continue; }
            if t.starts_with("(error") { return Err(format!("solver: {}", t)); }
            return Ok(t.to_string());
        }
    }
    fn r(x: &Exprs, e: E) -> String {
        let n = x.n(e);
        match n.op {
            Const => format!("(_ bv{} {})", n.k, n.w),
            Var => format!("v{}", n.k),
            _ => format!("e{}", e),
        }
    }
    fn emit(&mut self, x: &Exprs, root: E, buf: &mut String) {
        use std::fmt::Write;
        while self.vars_declared < x.vars.len() {
            let _ = writeln!(buf, "(declare-const v{} (_ BitVec {}))", self.vars_declared, x.vars[self.vars_declared].w);
            self.vars_declared += 1;
        }
        if self.emitted.len() < x.nodes.len() { self.emitted.resize(x.nodes.len(), false); }
        let mut st = vec![(root, false)];
        while let Some((e, done)) = st.pop() {
            if self.emitted[e as usize] { continue; }
            let n = x.n(e);
            if matches!(n.op, Const | Var) { self.emitted[e as usize] = true; continue; }
            if !done {
                st.push((e, true));
                match n.op {
                    Ite => { st.push((n.a, false)); st.push((n.b, false)); st.push((n.c, false)); }
                    Extract | ZExt | SExt => st.push((n.a, false)),
                    _ => { st.push((n.a, false)); st.push((n.b, false)); }
                }
                continue;
            }
            let (a, b, c) = (Self::r(x, n.a), Self::r(x, n.b), Self::r(x, n.c));
            let body = match n.op {
                Ite => format!("(ite (= {} #b1) {} {})", a, b, c),
                Extract => format!("((_ extract {} {}) {})", n.k as u32 + n.w - 1, n.k, a),
                Concat => format!("(concat {} {})", a, b),
                ZExt => format!("((_ zero_extend {}) {})", n.w - x.w(n.a), a),
                SExt => format!("((_ sign_extend {}) {})", n.w - x.w(n.a), a),
                Eq => format!("(ite (= {} {}) #b1 #b0)", a, b),
                Ult => format!("(ite (bvult {} {}) #b1 #b0)", a, b),
                Ule => format!("(ite (bvule {} {}) #b1 #b0)", a, b),
                Slt => format!("(ite (bvslt {} {}) #b1 #b0)", a, b),
                Sle => format!("(ite (bvsle {} {}) #b1 #b0)", a, b),
                op => {
                    let s = match op { Add => "bvadd", Sub => "bvsub", Mul => "bvmul", UDiv => "bvudiv", SDiv => "bvsdiv", URem => "bvurem", SRem => "bvsrem",
                        And => "bvand", Or => "bvor", Xor => "bvxor", Shl => "bvshl", LShr => "bvlshr", AShr => "bvashr", _ => unreachable!() };
                    format!("({} {} {})", s, a, b)
                }
            };
            let _ = writeln!(buf, "(define-fun e{} () (_ BitVec {}) {})", e, n.w, body);
            self.emitted[e as usize] = true;
        }
    }
    /// Satisfiability of the conjunction of (a slice of) `cons` with `cond`.
    /// Only the constraints connected to `cond` through shared variables are sent: the rest is
    /// satisfied by the caller's current model and shares no variable with the slice.
    pub fn check(&mut self, x: &Exprs, cons: &[E], cond: E) -> Result<SatRes, String> {
        let mut vs = x.vars_of[cond as usize];
        let mut used = vec![false; cons.len()];
        loop {
            let mut changed = false;
            for (i, &c) in cons.iter().enumerate() {
                if !used[i] && x.vars_of[c as usize] & vs != 0 {
                    used[i] = true;
                    vs |= x.vars_of[c as usize];
                    changed = true;
                }
            }
            if !changed { break; }
        }
        let mut key: Vec<E> = cons.iter().zip(&used).filter(|p| *p.1).map(|p| *p.0).collect();
        key.push(cond);
        key.sort_unstable();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return Ok(match r { None => SatRes::Unsat, Some(m) => SatRes::Sat(m.clone()) });
        }
        let t = Instant::now();
        let mut buf = String::new();
        for &e in &key { self.emit(x, e, &mut buf); }
        buf.push_str("(push 1)\n");
        for &e in &key { buf.push_str(&format!("(assert (= {} #b1))\n", Self::r(x, e))); }
        buf.push_str("(check-sat)\n");
        self.send(&buf)?;
        self.inp.flush().map_err(|e| e.to_string())?;
        self.queries += 1;
        let ans = self.line()?;
        let res = match ans.as_str() {
            "sat" => {
                self.sat += 1;
                let mut m = vec![];
                for i in 0..x.vars.len() {
                    if x.vars[i].taint || vs & (1u128 << x.vars[i].bit) == 0 { continue; }
                    self.send(&format!("(get-value (v{}))\n", i))?;
                    self.inp.flush().map_err(|e| e.to_string())?;
                    let l = self.line()?;
                    m.push((i, parse_value(&l)?));
                }
                Some(m)
            }
            "unsat" => { self.unsat += 1; None }
            o => { let o = o.to_string(); return Err(format!("solver answered {}", o)); }
        };
        self.send("(pop 1)\n")?;
        self.secs += t.elapsed().as_secs_f64();
        self.cache.insert(key, res.clone());
        Ok(match res { None => SatRes::Unsat, Some(m) => SatRes::Sat(m) })
    }
}

impl Drop for Solver {
    fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); }
}

fn parse_value(l: &str) -> Result<u128, String> {
    // ((v3 #x0000002a)) or #b..., or (_ bv42 32)
    if let Some(p) = l.find("#x") {
        let s: String = l[p + 2..].chars().take_while(|c| c.is_ascii_hexdigit()).collect();
        return u128::from_str_radix(&s, 16).map_err(|e| e.to_string());
    }
    if let Some(p) = l.find("#b") {
        let s: String = l[p + 2..].chars().take_while(|c| *c == '0' || *c == '1').collect();
        return u128::from_str_radix(&s, 2).map_err(|e| e.to_string());
    }
    if let Some(p) = l.find("bv") {
        let s: String = l[p + 2..].chars().take_while(|c| c.is_ascii_digit()).collect();
        return s.parse().map_err(|e| format!("{:?}", e));
    }
    Err(format!("cannot read solver value {}", l))
}
