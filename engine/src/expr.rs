//! Hash-consed bit-vector terms over byte variables.
//!
//! A term whose support is a single byte variable also carries its value table over that
//! variable's declared alphabet; two such terms with equal tables are the same node. Terms over
//! several variables carry known-bits information. Every feasibility question is still put to z3
//! (see `exec.rs`), with the table used as a cross-check.

use crate::z3::*;
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0u8; 8];
            x[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(x));
        }
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u16(&mut self, v: u16) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type Id = u32; // 0 = "no expression"

pub const OP_CONST: u16 = 1;
pub const OP_VAR: u16 = 2;
pub const OP_EXTRACT: u16 = 3; // a, imm = bit offset; width = w
pub const OP_CONCAT: u16 = 4; // a = hi, b = lo
pub const OP_ZEXT: u16 = 5;
pub const OP_SEXT: u16 = 6;
pub const OP_ITE: u16 = 7; // a = cond (any width, nonzero = true), b, c
pub const OP_LUT: u16 = 8; // table only (support: a single var) ; z3: ite chain
// >= 0x45: wasm numeric opcode

#[derive(Clone, Copy)]
pub struct Node {
    pub op: u16,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub imm: u64,
    pub vars: u128,
    pub tab: u32, // index+1 into tabs, 0 = none
    pub kz: u64,  // known zero bits
    pub ko: u64,  // known one bits
}

pub struct Var {
    pub vals: Vec<u8>, // alphabet, in declared order (index in tables)
    pub node: Id,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub tabs: Vec<Box<[u64]>>,
    pub vars: Vec<Var>,
    memo: FxMap<(u16, u8, Id, Id, Id, u64), Id>,
    consts: FxMap<(u64, u8), Id>,
    canon: FxMap<(u32, u8, u64), Vec<Id>>,
    pub z3: Ctx,
    pub solver: Solver,
    ast: FxMap<Id, Ast>,
    basts: FxMap<Id, Ast>,
    pub var_ast: Vec<Ast>,
}

#[inline]
pub fn mask(w: u8) -> u64 {
    if w >= 64 { u64::MAX } else { (1u64 << w) - 1 }
}

#[inline]
fn sx(v: u64, w: u8) -> i64 {
    let s = 64 - w as u32;
    ((v << s) as i64) >> s
}

/// Width of operands and of the result for integer wasm ops handled symbolically.
fn op_width(op: u16) -> Option<(u8, u8)> {
    Some(match op {
        0x45..=0x4f => (32, 32),
        0x50..=0x5a => (64, 32),
        0x67..=0x78 => (32, 32),
        0x79..=0x8a => (64, 64),
        0xa7 => (64, 32),
        0xac | 0xad => (32, 64),
        0xc0 | 0xc1 => (32, 32),
        0xc2..=0xc4 => (64, 64),
        _ => return None,
    })
}

/// Concrete semantics of the integer ops (None = trap or not an integer op).
#[inline(always)]
pub fn alu(op: u16, a: u64, b: u64) -> Option<u64> {
    let (a32, b32) = (a as u32, b as u32);
    Some(match op {
        0x45 => (a32 == 0) as u64,
        0x46 => (a32 == b32) as u64,
        0x47 => (a32 != b32) as u64,
        0x48 => ((a32 as i32) < b32 as i32) as u64,
        0x49 => (a32 < b32) as u64,
        0x4a => ((a32 as i32) > b32 as i32) as u64,
        0x4b => (a32 > b32) as u64,
        0x4c => ((a32 as i32) <= b32 as i32) as u64,
        0x4d => (a32 <= b32) as u64,
        0x4e => ((a32 as i32) >= b32 as i32) as u64,
        0x4f => (a32 >= b32) as u64,
        0x50 => (a == 0) as u64,
        0x51 => (a == b) as u64,
        0x52 => (a != b) as u64,
        0x53 => ((a as i64) < b as i64) as u64,
        0x54 => (a < b) as u64,
        0x55 => ((a as i64) > b as i64) as u64,
        0x56 => (a > b) as u64,
        0x57 => ((a as i64) <= b as i64) as u64,
        0x58 => (a <= b) as u64,
        0x59 => ((a as i64) >= b as i64) as u64,
        0x5a => (a >= b) as u64,
        0x67 => a32.leading_zeros() as u64,
        0x68 => a32.trailing_zeros() as u64,
        0x69 => a32.count_ones() as u64,
        0x6a => a32.wrapping_add(b32) as u64,
        0x6b => a32.wrapping_sub(b32) as u64,
        0x6c => a32.wrapping_mul(b32) as u64,
        0x6d => {
            let (x, y) = (a32 as i32, b32 as i32);
            if y == 0 || (x == i32::MIN && y == -1) {
                return None;
            }
            (x / y) as u32 as u64
        }
        0x6e => {
            if b32 == 0 {
                return None;
            }
            (a32 / b32) as u64
        }
        0x6f => {
            if b32 == 0 {
                return None;
            }
            (a32 as i32).wrapping_rem(b32 as i32) as u32 as u64
        }
        0x70 => {
            if b32 == 0 {
                return None;
            }
            (a32 % b32) as u64
        }
        0x71 => (a32 & b32) as u64,
        0x72 => (a32 | b32) as u64,
        0x73 => (a32 ^ b32) as u64,
        0x74 => a32.wrapping_shl(b32) as u64,
        0x75 => ((a32 as i32).wrapping_shr(b32)) as u32 as u64,
        0x76 => a32.wrapping_shr(b32) as u64,
        0x77 => a32.rotate_left(b32 & 31) as u64,
        0x78 => a32.rotate_right(b32 & 31) as u64,
        0x79 => a.leading_zeros() as u64,
        0x7a => a.trailing_zeros() as u64,
        0x7b => a.count_ones() as u64,
        0x7c => a.wrapping_add(b),
        0x7d => a.wrapping_sub(b),
        0x7e => a.wrapping_mul(b),
        0x7f => {
            let (x, y) = (a as i64, b as i64);
            if y == 0 || (x == i64::MIN && y == -1) {
                return None;
            }
            (x / y) as u64
        }
        0x80 => {
            if b == 0 {
                return None;
            }
            a / b
        }
        0x81 => {
            if b == 0 {
                return None;
            }
            (a as i64).wrapping_rem(b as i64) as u64
        }
        0x82 => {
            if b == 0 {
                return None;
            }
            a % b
        }
        0x83 => a & b,
        0x84 => a | b,
        0x85 => a ^ b,
        0x86 => a.wrapping_shl(b as u32),
        0x87 => ((a as i64).wrapping_shr(b as u32)) as u64,
        0x88 => a.wrapping_shr(b as u32),
        0x89 => a.rotate_left(b as u32 & 63),
        0x8a => a.rotate_right(b as u32 & 63),
        0xa7 => a32 as u64,
        0xac => a32 as i32 as i64 as u64,
        0xad => a32 as u64,
        0xc0 => a as i8 as i32 as u32 as u64,
        0xc1 => a as i16 as i32 as u32 as u64,
        0xc2 => a as i8 as i64 as u64,
        0xc3 => a as i16 as i64 as u64,
        0xc4 => a as i32 as i64 as u64,
        _ => return None,
    })
}

fn is_cmp(op: u16) -> bool {
    matches!(op, 0x45..=0x5a)
}

impl Arena {
    pub fn new() -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            Z3_set_param_value(cfg, c"model".as_ptr(), c"true".as_ptr());
            let z3 = Z3_mk_context(cfg);
            let solver = Z3_mk_simple_solver(z3);
            Z3_solver_inc_ref(z3, solver);
            let p = Z3_mk_params(z3);
            Z3_params_inc_ref(z3, p);
            Z3_params_set_uint(z3, p, Z3_mk_string_symbol(z3, c"timeout".as_ptr()), 30_000);
            Z3_solver_set_params(z3, solver, p);
            let zero = Node { op: 0, w: 0, a: 0, b: 0, c: 0, imm: 0, vars: 0, tab: 0, kz: 0, ko: 0 };
            Arena {
                nodes: vec![zero],
                tabs: vec![],
                vars: vec![],
                memo: Default::default(),
                consts: Default::default(),
                canon: Default::default(),
                z3,
                solver,
                ast: Default::default(),
                basts: Default::default(),
                var_ast: vec![],
            }
        }
    }

    pub fn konst(&mut self, v: u64, w: u8) -> Id {
        let v = v & mask(w);
        if let Some(&i) = self.consts.get(&(v, w)) {
            return i;
        }
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op: OP_CONST, w, a: 0, b: 0, c: 0, imm: v, vars: 0, tab: 0, kz: !v & mask(w), ko: v });
        self.consts.insert((v, w), id);
        id
    }

    #[inline]
    pub fn n(&self, i: Id) -> &Node {
        &self.nodes[i as usize]
    }
    #[inline]
    pub fn as_const(&self, i: Id) -> Option<u64> {
        let n = self.n(i);
        (n.op == OP_CONST).then_some(n.imm)
    }
    pub fn single_var(&self, i: Id) -> Option<u32> {
        let n = self.n(i);
        (n.tab != 0).then(|| n.vars.trailing_zeros())
    }
    pub fn tab(&self, i: Id) -> &[u64] {
        &self.tabs[self.n(i).tab as usize - 1]
    }

    pub fn new_var(&mut self, vals: Vec<u8>) -> u32 {
        let vi = self.vars.len() as u32;
        assert!(vi < 128);
        let t: Box<[u64]> = vals.iter().map(|&b| b as u64).collect();
        let mut kz = 0xff;
        let mut ko = 0xff;
        for &b in &vals {
            kz &= !(b as u64);
            ko &= b as u64;
        }
        self.tabs.push(t.clone());
        let id = self.nodes.len() as Id;
        self.nodes.push(Node { op: OP_VAR, w: 8, a: vi, b: 0, c: 0, imm: 0, vars: 1u128 << vi, tab: self.tabs.len() as u32, kz, ko });
        let h = Self::tab_hash(&t);
        self.canon.entry((vi, 8, h)).or_default().push(id);
        self.vars.push(Var { vals, node: id });
        unsafe {
            let s = std::ffi::CString::new(format!("b{vi}")).unwrap();
            let a = Z3_mk_const(self.z3, Z3_mk_string_symbol(self.z3, s.as_ptr()), Z3_mk_bv_sort(self.z3, 8));
            Z3_inc_ref(self.z3, a);
            self.var_ast.push(a);
        }
        id
    }

    fn tab_hash(t: &[u64]) -> u64 {
        let mut h = Fx::default();
        for &x in t {
            h.write_u64(x);
        }
        h.finish()
    }

    /// Intern a node whose support is exactly one variable, canonical by its table.
    fn intern_tab(&mut self, vi: u32, w: u8, t: Box<[u64]>, mut n: Node) -> Id {
        let first = t[0];
        if t.iter().all(|&x| x == first) {
            return self.konst(first, w);
        }
        let h = Self::tab_hash(&t);
        if let Some(l) = self.canon.get(&(vi, w, h)) {
            for &i in l {
                if *self.tab(i) == *t {
                    return i;
                }
            }
        }
        let (mut kz, mut ko) = (mask(w), mask(w));
        for &x in t.iter() {
            kz &= !x;
            ko &= x;
        }
        self.tabs.push(t);
        n.tab = self.tabs.len() as u32;
        n.vars = 1u128 << vi;
        n.kz = kz;
        n.ko = ko;
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        self.canon.entry((vi, w, h)).or_default().push(id);
        id
    }

    /// A lookup table over one variable.
    pub fn lut(&mut self, vi: u32, w: u8, t: Box<[u64]>) -> Id {
        let n = Node { op: OP_LUT, w, a: vi, b: 0, c: 0, imm: 0, vars: 0, tab: 0, kz: 0, ko: 0 };
        self.intern_tab(vi, w, t, n)
    }

    fn bare(op: u16, w: u8, a: Id, b: Id, c: Id, imm: u64) -> Node {
        Node { op, w, a, b, c, imm, vars: 0, tab: 0, kz: 0, ko: 0 }
    }

    /// Evaluate one node given operand values.
    fn eval_op(&self, n: &Node, a: u64, b: u64, c: u64) -> Option<u64> {
        Some(match n.op {
            OP_EXTRACT => (a >> n.imm) & mask(n.w),
            OP_CONCAT => {
                let lw = self.n(n.b).w;
                (a << lw | b) & mask(n.w)
            }
            OP_ZEXT => a,
            OP_SEXT => sx(a, self.n(n.a).w) as u64 & mask(n.w),
            OP_ITE => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            op => alu(op, a, b)?,
        })
    }

    fn mk(&mut self, op: u16, w: u8, a: Id, b: Id, c: Id, imm: u64) -> Id {
        let key = (op, w, a, b, c, imm);
        if let Some(&i) = self.memo.get(&key) {
            return i;
        }
        let n = Self::bare(op, w, a, b, c, imm);
        let vars = [a, b, c].iter().fold(0u128, |s, &i| s | self.n(i).vars);
        let id = if vars == 0 {
            let v = |s: &Self, i: Id| if i == 0 { 0 } else { s.n(i).imm };
            let r = self.eval_op(&n, v(self, a), v(self, b), v(self, c)).unwrap_or(0);
            self.konst(r, w)
        } else if vars.count_ones() == 1 && [a, b, c].iter().all(|&i| i == 0 || self.n(i).vars == 0 || self.n(i).tab != 0) {
            let vi = vars.trailing_zeros();
            let len = self.vars[vi as usize].vals.len();
            let mut t = Vec::with_capacity(len);
            let get = |s: &Self, i: Id, k: usize| {
                if i == 0 {
                    0
                } else if s.n(i).tab != 0 {
                    s.tabs[s.n(i).tab as usize - 1][k]
                } else {
                    s.n(i).imm
                }
            };
            for k in 0..len {
                let r = self.eval_op(&n, get(self, a, k), get(self, b, k), get(self, c, k)).unwrap_or(0);
                t.push(r);
            }
            self.intern_tab(vi, w, t.into_boxed_slice(), n)
        } else {
            self.mk_multi(n, vars)
        };
        self.memo.insert(key, id);
        id
    }

    fn mk_multi(&mut self, mut n: Node, vars: u128) -> Id {
        n.vars = vars;
        let m = mask(n.w);
        let g = |s: &Self, i: Id| if i == 0 { (0, 0) } else { (s.n(i).kz, s.n(i).ko) };
        let (az, ao) = g(self, n.a);
        let (bz, bo) = g(self, n.b);
        let cb = if n.b != 0 { self.as_const(n.b) } else { None };
        let (mut kz, mut ko) = (0u64, 0u64);
        match n.op {
            OP_EXTRACT => {
                kz = (az >> n.imm) & m;
                ko = (ao >> n.imm) & m;
            }
            OP_CONCAT => {
                let lw = self.n(n.b).w;
                kz = (az << lw | bz) & m;
                ko = (ao << lw | bo) & m;
            }
            OP_ZEXT => {
                kz = az | (m & !mask(self.n(n.a).w));
                ko = ao;
            }
            OP_SEXT => {
                let aw = self.n(n.a).w;
                kz = az;
                ko = ao;
                if az >> (aw - 1) & 1 == 1 {
                    kz |= m & !mask(aw);
                } else if ao >> (aw - 1) & 1 == 1 {
                    ko |= m & !mask(aw);
                }
            }
            OP_ITE => {
                let (cz, co) = g(self, n.c);
                kz = bz & cz;
                ko = bo & co;
            }
            0x71 | 0x83 => {
                kz = az | bz;
                ko = ao & bo;
            }
            0x72 | 0x84 => {
                kz = az & bz;
                ko = ao | bo;
            }
            0x73 | 0x85 => {
                kz = az & bz | ao & bo;
                ko = az & bo | ao & bz;
            }
            0x74 | 0x86 => {
                if let Some(c) = cb {
                    let k = (c as u32 & (n.w as u32 - 1)) as u64;
                    kz = (az << k | ((1u64 << k) - 1)) & m;
                    ko = (ao << k) & m;
                }
            }
            0x76 | 0x88 => {
                if let Some(c) = cb {
                    let k = (c as u32 & (n.w as u32 - 1)) as u64;
                    kz = (az >> k) | (m & !(m >> k));
                    ko = ao >> k;
                }
            }
            0x6a | 0x7c | 0x6b | 0x7d => {
                // low bits: exact while both operands' low bits are known
                let known = (az | ao) & (bz | bo);
                let t = (!known).trailing_zeros().min(n.w as u32);
                let lm = if t >= 64 { u64::MAX } else { (1u64 << t) - 1 };
                let s = if matches!(n.op, 0x6a | 0x7c) { (ao & lm).wrapping_add(bo & lm) } else { (ao & lm).wrapping_sub(bo & lm) } & lm & m;
                ko = s;
                kz = !s & lm & m;
                if matches!(n.op, 0x6a | 0x7c) {
                    // high bits: unsigned upper bound
                    let (ua, ub) = (!az & m, !bz & m);
                    if let Some(u) = ua.checked_add(ub).filter(|&u| u <= m) {
                        let lz = u.leading_zeros();
                        let hm = if lz == 64 { u64::MAX } else { !(u64::MAX >> lz) };
                        kz |= hm & m;
                    }
                }
            }
            0x6c | 0x7e => {
                let (ua, ub) = (!az & m, !bz & m);
                if let Some(u) = ua.checked_mul(ub).filter(|&u| u <= m) {
                    let lz = u.leading_zeros();
                    let hm = if lz == 0 { 0 } else { !(u64::MAX >> lz) };
                    kz |= hm & m;
                }
                let tz = (!az).trailing_zeros() + (!bz).trailing_zeros();
                let tz = tz.min(n.w as u32);
                kz |= (if tz >= 64 { u64::MAX } else { (1u64 << tz) - 1 }) & m;
            }
            0x67..=0x69 | 0x79..=0x7b => {
                kz = m & !0x7f;
            }
            0xa7 => {
                kz = az & m;
                ko = ao & m;
            }
            op if is_cmp(op) => {
                kz = m & !1;
                let ow = op_width(op).unwrap().0;
                let om = mask(ow);
                let (alo, ahi) = (ao & om, !az & om);
                let (blo, bhi) = (bo & om, !bz & om);
                let r = match op {
                    0x45 | 0x50 => {
                        if alo != 0 {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    0x46 | 0x51 => (ao & bz != 0 || az & bo != 0).then_some(false),
                    0x47 | 0x52 => (ao & bz != 0 || az & bo != 0).then_some(true),
                    0x49 | 0x54 => {
                        if ahi < blo {
                            Some(true)
                        } else if alo >= bhi {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    0x4b | 0x56 => {
                        if alo > bhi {
                            Some(true)
                        } else if ahi <= blo {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    0x4d | 0x58 => {
                        if ahi <= blo {
                            Some(true)
                        } else if alo > bhi {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    0x4f | 0x5a => {
                        if alo >= bhi {
                            Some(true)
                        } else if ahi < blo {
                            Some(false)
                        } else {
                            None
                        }
                    }
                    _ => None,
                };
                match r {
                    Some(true) => {
                        ko |= 1;
                    }
                    Some(false) => kz |= 1,
                    None => {}
                }
            }
            _ => {}
        }
        if kz | ko == m {
            return self.konst(ko, n.w);
        }
        n.kz = kz;
        n.ko = ko;
        let id = self.nodes.len() as Id;
        self.nodes.push(n);
        id
    }

    pub fn extract(&mut self, a: Id, off: u64, w: u8) -> Id {
        let n = *self.n(a);
        if off == 0 && w == n.w {
            return a;
        }
        match n.op {
            OP_CONST => return self.konst(n.imm >> off, w),
            OP_EXTRACT => return self.extract(n.a, n.imm + off, w),
            OP_CONCAT => {
                let lw = self.n(n.b).w as u64;
                if off + w as u64 <= lw {
                    return self.extract(n.b, off, w);
                }
                if off >= lw {
                    return self.extract(n.a, off - lw, w);
                }
                let lo = self.extract(n.b, off, (lw - off) as u8);
                let hi = self.extract(n.a, 0, w - (lw - off) as u8);
                return self.concat(hi, lo);
            }
            OP_ZEXT => {
                let aw = self.n(n.a).w as u64;
                if off + w as u64 <= aw {
                    return self.extract(n.a, off, w);
                }
                if off >= aw {
                    return self.konst(0, w);
                }
            }
            OP_SEXT => {
                let aw = self.n(n.a).w as u64;
                if off + w as u64 <= aw {
                    return self.extract(n.a, off, w);
                }
            }
            0xa7 => return self.extract(n.a, off, w),
            0x71 | 0x83 | 0x72 | 0x84 | 0x73 | 0x85 if n.tab == 0 => {
                // bitwise: push the extraction inside (via a 32/64-bit op on zero-extended parts)
                let m = mask(w) << off;
                if (n.kz | n.ko) & m == m {
                    return self.konst(n.ko >> off, w);
                }
            }
            _ => {}
        }
        self.mk(OP_EXTRACT, w, a, 0, 0, off)
    }

    pub fn concat(&mut self, hi: Id, lo: Id) -> Id {
        let (h, l) = (*self.n(hi), *self.n(lo));
        if h.op == OP_CONST && h.imm == 0 {
            return self.zext(lo, h.w + l.w);
        }
        if h.op == OP_EXTRACT && l.op == OP_EXTRACT && h.a == l.a && h.imm == l.imm + l.w as u64 {
            return self.extract(h.a, l.imm, h.w + l.w);
        }
        if h.op == OP_EXTRACT && h.a == lo && h.imm == l.w as u64 {
            return self.extract(h.a, 0, h.w + l.w);
        }
        // concat(extract(x), concat(extract(x), y)) -> concat(extract', y) is left to z3
        if l.op == OP_CONCAT {
            let lh = *self.n(l.a);
            if h.op == OP_EXTRACT && lh.op == OP_EXTRACT && h.a == lh.a && h.imm == lh.imm + lh.w as u64 {
                let nh = self.extract(h.a, lh.imm, h.w + lh.w);
                return self.concat(nh, l.b);
            }
        }
        self.mk(OP_CONCAT, h.w + l.w, hi, lo, 0, 0)
    }

    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        if n.op == OP_ZEXT {
            return self.zext(n.a, w);
        }
        if n.op == OP_CONST {
            return self.konst(n.imm, w);
        }
        self.mk(OP_ZEXT, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let n = *self.n(a);
        if n.w == w {
            return a;
        }
        if n.kz >> (n.w - 1) & 1 == 1 {
            return self.zext(a, w);
        }
        self.mk(OP_SEXT, w, a, 0, 0, 0)
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.n(a).w;
        self.mk(OP_ITE, w, c, a, b, 0)
    }

    /// Result width of an integer op, None when it must be executed concretely.
    pub fn sym_op_width(op: u16) -> Option<(u8, u8)> {
        op_width(op)
    }

    /// Symbolic wasm numeric op (integers only). Division needs a divisor known nonzero.
    pub fn alu_sym(&mut self, op: u16, a: Id, b: Id) -> Id {
        let (_, rw) = op_width(op).unwrap();
        match op {
            0xa7 => return self.extract(a, 0, 32),
            0xad => return self.zext(a, 64),
            0xac => return self.sext(a, 64),
            0xc0 => {
                let x = self.extract(a, 0, 8);
                return self.sext(x, 32);
            }
            0xc1 => {
                let x = self.extract(a, 0, 16);
                return self.sext(x, 32);
            }
            0xc2 => {
                let x = self.extract(a, 0, 8);
                return self.sext(x, 64);
            }
            0xc3 => {
                let x = self.extract(a, 0, 16);
                return self.sext(x, 64);
            }
            0xc4 => {
                let x = self.extract(a, 0, 32);
                return self.sext(x, 64);
            }
            _ => {}
        }
        let (na, nb) = (*self.n(a), if b != 0 { *self.n(b) } else { self.nodes[0] });
        let ca = (na.op == OP_CONST).then_some(na.imm);
        let cb = (b != 0 && nb.op == OP_CONST).then_some(nb.imm);
        match op {
            0x71 | 0x83 => {
                if cb == Some(0) || ca == Some(0) {
                    return self.konst(0, rw);
                }
                if cb == Some(mask(rw)) {
                    return a;
                }
                if ca == Some(mask(rw)) {
                    return b;
                }
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    // mask of low bits = zext(extract)
                    if (c & (c + 1)) == 0 {
                        let k = c.count_ones() as u8;
                        if na.kz & mask(rw) & !c == mask(rw) & !c {
                            return a;
                        }
                        let x = self.extract(a, 0, k);
                        return self.zext(x, rw);
                    }
                    // all bits that survive are already known
                    if na.kz | c == mask(rw) && na.tab == 0 && (na.kz & !c) == !c & mask(rw) {
                        return a;
                    }
                }
            }
            0x72 | 0x84 | 0x73 | 0x85 | 0x6a | 0x7c => {
                if cb == Some(0) {
                    return a;
                }
                if ca == Some(0) {
                    return b;
                }
                if matches!(op, 0x72 | 0x84) && a == b {
                    return a;
                }
                if matches!(op, 0x73 | 0x85) && a == b {
                    return self.konst(0, rw);
                }
            }
            0x6b | 0x7d => {
                if cb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, rw);
                }
            }
            0x6c | 0x7e => {
                if cb == Some(1) {
                    return a;
                }
                if ca == Some(1) {
                    return b;
                }
                if cb == Some(0) || ca == Some(0) {
                    return self.konst(0, rw);
                }
            }
            0x74 | 0x86 => {
                if let Some(c) = cb {
                    let k = c & (rw as u64 - 1);
                    if k == 0 {
                        return a;
                    }
                    if na.tab == 0 {
                        let hi = self.extract(a, 0, rw - k as u8);
                        let z = self.konst(0, k as u8);
                        return self.concat(hi, z);
                    }
                }
            }
            0x76 | 0x88 => {
                if let Some(c) = cb {
                    let k = c & (rw as u64 - 1);
                    if k == 0 {
                        return a;
                    }
                    if na.tab == 0 {
                        let x = self.extract(a, k, rw - k as u8);
                        return self.zext(x, rw);
                    }
                }
            }
            0x46 | 0x51 => {
                if a == b {
                    return self.konst(1, 32);
                }
            }
            0x47 | 0x52 => {
                if a == b {
                    return self.konst(0, 32);
                }
                if cb == Some(0) && is_bool(&na) && na.w == 32 {
                    return a;
                }
            }
            0x45 => {
                // eqz of a comparison: flip
                if na.tab == 0 && is_cmp(na.op) {
                    let inv = match na.op {
                        0x46 => 0x47,
                        0x47 => 0x46,
                        0x48 => 0x4e,
                        0x4e => 0x48,
                        0x49 => 0x4f,
                        0x4f => 0x49,
                        0x4a => 0x4c,
                        0x4c => 0x4a,
                        0x4b => 0x4d,
                        0x4d => 0x4b,
                        0x51 => 0x52,
                        0x52 => 0x51,
                        0x53 => 0x59,
                        0x59 => 0x53,
                        0x54 => 0x5a,
                        0x5a => 0x54,
                        0x55 => 0x57,
                        0x57 => 0x55,
                        0x56 => 0x58,
                        0x58 => 0x56,
                        _ => 0,
                    };
                    if inv != 0 {
                        return self.mk(inv, 32, na.a, na.b, 0, 0);
                    }
                }
            }
            _ => {}
        }
        // comparisons of a zero-extended value against a constant: work on the narrow value
        if matches!(op, 0x46 | 0x47 | 0x51 | 0x52) && na.tab == 0 && cb.is_some() && na.op == OP_ITE {
            // ite(c, k1, k2) == k
            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
            if let (Some(x), Some(y)) = (x, y) {
                let k = cb.unwrap();
                let eq = matches!(op, 0x46 | 0x51);
                let (rx, ry) = ((x == k) == eq, (y == k) == eq);
                if rx == ry {
                    return self.konst(rx as u64, 32);
                }
                let c = self.boolify(na.a);
                return if rx { c } else { self.alu_sym(0x45, c, 0) };
            }
        }
        self.mk(op, rw, a, b, 0, 0)
    }

    /// 32-bit 0/1 value of "a != 0"
    pub fn boolify(&mut self, a: Id) -> Id {
        let n = *self.n(a);
        if is_bool(&n) {
            return self.zext_or_trunc(a, 32);
        }
        let z = self.konst(0, n.w);
        if n.w == 32 {
            self.alu_sym(0x47, a, z)
        } else if n.w == 64 {
            self.alu_sym(0x52, a, z)
        } else {
            let x = self.zext(a, 32);
            let z = self.konst(0, 32);
            self.alu_sym(0x47, x, z)
        }
    }
    fn zext_or_trunc(&mut self, a: Id, w: u8) -> Id {
        let aw = self.n(a).w;
        if aw == w {
            a
        } else if aw < w {
            self.zext(a, w)
        } else {
            self.extract(a, 0, w)
        }
    }

    /// Evaluate under a full assignment of the variables (memoised per call).
    pub fn eval(&self, i: Id, model: &[u8], cache: &mut FxMap<Id, u64>) -> u64 {
        let n = self.n(i);
        match n.op {
            OP_CONST => return n.imm,
            OP_VAR => return model[n.a as usize] as u64,
            _ => {}
        }
        if n.tab != 0 {
            let vi = n.vars.trailing_zeros() as usize;
            let v = model[vi];
            let k = self.vars[vi].vals.iter().position(|&x| x == v).expect("model value in alphabet");
            return self.tabs[n.tab as usize - 1][k];
        }
        if let Some(&v) = cache.get(&i) {
            return v;
        }
        let g = |s: &Self, j: Id, cache: &mut FxMap<Id, u64>| if j == 0 { 0 } else { s.eval(j, model, cache) };
        let v = if n.op == OP_ITE {
            if g(self, n.a, cache) != 0 { g(self, n.b, cache) } else { g(self, n.c, cache) }
        } else {
            let a = g(self, n.a, cache);
            let b = g(self, n.b, cache);
            self.eval_op(n, a, b, 0).unwrap_or(0)
        };
        cache.insert(i, v);
        v
    }

    // ---- z3 terms -------------------------------------------------------------------------

    fn bv(&self, v: u64, w: u8) -> Ast {
        unsafe { Z3_mk_unsigned_int64(self.z3, v & mask(w), Z3_mk_bv_sort(self.z3, w as u32)) }
    }

    /// z3 boolean for "node != 0"
    pub fn z3_bool(&mut self, i: Id) -> Ast {
        if let Some(&a) = self.basts.get(&i) {
            return a;
        }
        let n = *self.n(i);
        let c = self.z3;
        let r = unsafe {
            match n.op {
                OP_CONST => {
                    if n.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                0x45 | 0x50 => {
                    let x = self.z3_bool(n.a);
                    Z3_mk_not(c, x)
                }
                OP_ZEXT => self.z3_bool(n.a),
                OP_ITE => {
                    let x = self.z3_bool(n.a);
                    let y = self.z3_bool(n.b);
                    let z = self.z3_bool(n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                0x71 | 0x83 if is_bool(self.n(n.a)) && is_bool(self.n(n.b)) => {
                    let l = [self.z3_bool(n.a), self.z3_bool(n.b)];
                    Z3_mk_and(c, 2, l.as_ptr())
                }
                0x72 | 0x84 => {
                    let l = [self.z3_bool(n.a), self.z3_bool(n.b)];
                    Z3_mk_or(c, 2, l.as_ptr())
                }
                op if is_cmp(op) => {
                    let a = self.z3_bv(n.a);
                    let b = self.z3_bv(n.b);
                    match op {
                        0x46 | 0x51 => Z3_mk_eq(c, a, b),
                        0x47 | 0x52 => Z3_mk_not(c, Z3_mk_eq(c, a, b)),
                        0x48 | 0x53 => Z3_mk_bvslt(c, a, b),
                        0x49 | 0x54 => Z3_mk_bvult(c, a, b),
                        0x4a | 0x55 => Z3_mk_bvsgt(c, a, b),
                        0x4b | 0x56 => Z3_mk_bvugt(c, a, b),
                        0x4c | 0x57 => Z3_mk_bvsle(c, a, b),
                        0x4d | 0x58 => Z3_mk_bvule(c, a, b),
                        0x4e | 0x59 => Z3_mk_bvsge(c, a, b),
                        _ => Z3_mk_bvuge(c, a, b),
                    }
                }
                _ => {
                    let a = self.z3_bv(i);
                    Z3_mk_not(c, Z3_mk_eq(c, a, self.bv(0, n.w)))
                }
            }
        };
        unsafe { Z3_inc_ref(self.z3, r) };
        self.basts.insert(i, r);
        r
    }

    pub fn z3_bv(&mut self, i: Id) -> Ast {
        if let Some(&a) = self.ast.get(&i) {
            return a;
        }
        let n = *self.n(i);
        let c = self.z3;
        let r = unsafe {
            match n.op {
                OP_CONST => self.bv(n.imm, n.w),
                OP_VAR => self.var_ast[n.a as usize],
                OP_LUT => {
                    let t = self.tabs[n.tab as usize - 1].clone();
                    let vals = self.vars[n.a as usize].vals.clone();
                    let mut r = self.bv(t[0], n.w);
                    for (k, &v) in vals.iter().enumerate().skip(1) {
                        if t[k] != t[0] {
                            let e = Z3_mk_eq(c, self.var_ast[n.a as usize], self.bv(v as u64, 8));
                            r = Z3_mk_ite(c, e, self.bv(t[k], n.w), r);
                        }
                    }
                    r
                }
                OP_EXTRACT => {
                    let a = self.z3_bv(n.a);
                    Z3_mk_extract(c, (n.imm + n.w as u64 - 1) as u32, n.imm as u32, a)
                }
                OP_CONCAT => {
                    let a = self.z3_bv(n.a);
                    let b = self.z3_bv(n.b);
                    Z3_mk_concat(c, a, b)
                }
                OP_ZEXT => {
                    let aw = self.n(n.a).w;
                    let a = self.z3_bv(n.a);
                    Z3_mk_zero_ext(c, (n.w - aw) as u32, a)
                }
                OP_SEXT => {
                    let aw = self.n(n.a).w;
                    let a = self.z3_bv(n.a);
                    Z3_mk_sign_ext(c, (n.w - aw) as u32, a)
                }
                OP_ITE => {
                    let x = self.z3_bool(n.a);
                    let y = self.z3_bv(n.b);
                    let z = self.z3_bv(n.c);
                    Z3_mk_ite(c, x, y, z)
                }
                op if is_cmp(op) => {
                    let x = self.z3_bool(i);
                    Z3_mk_ite(c, x, self.bv(1, n.w), self.bv(0, n.w))
                }
                op => {
                    let w = n.w;
                    let a = self.z3_bv(n.a);
                    let b = if n.b != 0 { self.z3_bv(n.b) } else { self.bv(0, w) };
                    let shb = || Z3_mk_bvand(c, b, self.bv(w as u64 - 1, w));
                    match op {
                        0x6a | 0x7c => Z3_mk_bvadd(c, a, b),
                        0x6b | 0x7d => Z3_mk_bvsub(c, a, b),
                        0x6c | 0x7e => Z3_mk_bvmul(c, a, b),
                        0x6d | 0x7f => Z3_mk_bvsdiv(c, a, b),
                        0x6e | 0x80 => Z3_mk_bvudiv(c, a, b),
                        0x6f | 0x81 => Z3_mk_bvsrem(c, a, b),
                        0x70 | 0x82 => Z3_mk_bvurem(c, a, b),
                        0x71 | 0x83 => Z3_mk_bvand(c, a, b),
                        0x72 | 0x84 => Z3_mk_bvor(c, a, b),
                        0x73 | 0x85 => Z3_mk_bvxor(c, a, b),
                        0x74 | 0x86 => Z3_mk_bvshl(c, a, shb()),
                        0x75 | 0x87 => Z3_mk_bvashr(c, a, shb()),
                        0x76 | 0x88 => Z3_mk_bvlshr(c, a, shb()),
                        0x77 | 0x89 => Z3_mk_ext_rotate_left(c, a, shb()),
                        0x78 | 0x8a => Z3_mk_ext_rotate_right(c, a, shb()),
                        0x67 | 0x79 => {
                            // clz: ite chain from bit 0 up
                            let mut r = self.bv(w as u64, w);
                            for k in 0..w {
                                let bit = Z3_mk_extract(c, k as u32, k as u32, a);
                                let e = Z3_mk_eq(c, bit, self.bv(1, 1));
                                r = Z3_mk_ite(c, e, self.bv((w - 1 - k) as u64, w), r);
                            }
                            r
                        }
                        0x68 | 0x7a => {
                            let mut r = self.bv(w as u64, w);
                            for k in (0..w).rev() {
                                let bit = Z3_mk_extract(c, k as u32, k as u32, a);
                                let e = Z3_mk_eq(c, bit, self.bv(1, 1));
                                r = Z3_mk_ite(c, e, self.bv(k as u64, w), r);
                            }
                            r
                        }
                        0x69 | 0x7b => {
                            let mut r = self.bv(0, w);
                            for k in 0..w {
                                let bit = Z3_mk_extract(c, k as u32, k as u32, a);
                                r = Z3_mk_bvadd(c, r, Z3_mk_zero_ext(c, w as u32 - 1, bit));
                            }
                            r
                        }
                        x => panic!("z3 term for op {x:#x}"),
                    }
                }
            }
        };
        unsafe { Z3_inc_ref(self.z3, r) };
        self.ast.insert(i, r);
        r
    }
}

pub fn is_bool(n: &Node) -> bool {
    n.kz | 1 == mask(n.w) && n.kz & 1 == 0 || n.kz == mask(n.w) & !1
}

impl Drop for Arena {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.z3) }
    }
}
