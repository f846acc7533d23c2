//! Forking symbolic executor over the register IR.
//!
//! Depth-first search with an undo log: memory is flat, every page first written after a choice
//! point is saved, and backtracking restores it. Registers, frames and path-condition state are
//! copied at each choice point.

use crate::expr::*;
use crate::wasm::*;
use crate::z3::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::Arc;
use std::time::{Duration, Instant};

pub const PG: usize = 1024;
const PGS: u32 = 10;
const REGS_CAP: usize = 1 << 21;

#[derive(Clone, Copy, Default)]
#[repr(C)]
pub struct Val {
    pub v: u64,
    pub e: Id,
}

#[derive(Clone, Copy)]
struct Frame {
    func: u32,
    pc: u32,
    base: u32,
}

type Dom = [u64; 4];

struct Choice {
    regs: Vec<Val>,
    frames: Vec<Frame>,
    globals: Vec<Val>,
    func: u32,
    pc: u32,
    base: u32,
    doms: Vec<Dom>,
    singleton: u128,
    multi_len: usize,
    multi_vars: u128,
    nvars: usize,
    alt: Id,
    alt_model: Vec<u8>,
    outs_len: usize,
    log_len: usize,
    mem_pages: u64,
    checks: u64,
}

struct LogEntry {
    page: u32,
    old_epoch: u32,
    sym: bool,
    data: Box<[u8; PG]>,
    shadow: Option<Box<[Id; PG]>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub id: String,
    pub detail: String,
    pub model: Vec<u8>,
    pub outs: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Sample {
    pub model: Vec<u8>,
    pub outs: Vec<u8>,
    pub checks: u64,
}

#[derive(Default)]
pub struct JobResult {
    pub paths: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub instrs: u64,
    pub checks: u64,
    pub solver_queries: u64,
    pub solver_sat: u64,
    pub solver_unsat: u64,
    pub memo_hits: u64,
    pub solver_time: f64,
    pub max_vars: usize,
    pub violations: Vec<Violation>,
    pub known: BTreeMap<String, (u64, Vec<u8>)>,
    pub reach: BTreeMap<String, u64>,
    pub errors: Vec<String>,
    pub exhausted: bool,
    pub samples: Vec<Sample>,
    pub unknown: u64,
    pub secs: f64,
    pub concretised: u64,
    pub fork_sites: HashMap<(u32, u32), u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Host {
    Sym,
    Assume,
    Check,
    Known,
    Reach,
    Out,
    Panic,
    Param,
    Concrete,
    Note,
    IsConst,
    Const(u64),
    Nop,
    Unknown,
}

enum Ctl {
    EndPath,
    Error(String),
}

pub struct Job {
    pub entry: String,
    pub params: Vec<i64>,
    pub split: (u32, u32),
}

pub struct Limits {
    pub deadline: Instant,
    pub job_secs: f64,
    pub path_instrs: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub seed: u64,
    pub max_concretise: u64,
}

pub struct Vm {
    m: Arc<Module>,
    hosts: Vec<Host>,
    mem: Vec<u8>,
    shadow: Vec<Id>,
    pg_sym: Vec<u8>,
    pg_epoch: Vec<u32>,
    mem_pages: u64, // wasm pages
    regs: Vec<Val>,
    frames: Vec<Frame>,
    globals: Vec<Val>,
    pub ar: Arena,
    doms: Vec<Dom>,
    singleton: u128,
    multi: Vec<Id>,
    multi_vars: u128,
    nvars: usize,
    model: Vec<u8>,
    choices: Vec<Choice>,
    log: Vec<LogEntry>,
    outs: Vec<Val>, // bytes
    path_checks: u64,
    params: Vec<i64>,
    split: (u32, u32),
    pub executed: Vec<u8>, // per function: bit0 executed in a job, bit1 handled symbolic data
    res: JobResult,
    lim: Limits,
    single_memo: FxMap<(Id, Dom), ()>,
    multi_memo: HashMap<u128, Option<Vec<(u32, u8)>>>,
    dom_ast: FxMap<(u32, Dom), Ast>,
    max_mem: usize,
    warm: bool,
    rng: u64,
    path_start_instrs: u64,
    pub profile: bool,
}

fn dom_full(n: usize) -> Dom {
    let mut d = [0u64; 4];
    for i in 0..n {
        d[i / 64] |= 1 << (i % 64);
    }
    d
}
#[inline]
fn dcount(d: &Dom) -> u32 {
    d.iter().map(|x| x.count_ones()).sum()
}
#[inline]
fn dhas(d: &Dom, i: usize) -> bool {
    d[i / 64] >> (i % 64) & 1 == 1
}
fn dfirst(d: &Dom) -> usize {
    for (k, x) in d.iter().enumerate() {
        if *x != 0 {
            return k * 64 + x.trailing_zeros() as usize;
        }
    }
    usize::MAX
}

impl Vm {
    pub fn new(m: Arc<Module>, max_mem: usize) -> Self {
        let hosts = m
            .imports
            .iter()
            .map(|i| {
                if i.module != "vs" {
                    // the clock (chrono, through js-sys): 2000-01-01T00:00:00Z, UTC
                    let n = i.name.as_str();
                    return if n.starts_with("__wbg_new0_") || n.starts_with("__wbg_new_") || n.starts_with("__wbg_newwithyearmonthday") || n == "__wbindgen_number_new" {
                        Host::Const(1)
                    } else if n.starts_with("__wbg_getTime_") {
                        Host::Const(946684800000f64.to_bits())
                    } else if n.starts_with("__wbg_getTimezoneOffset_") {
                        Host::Const(0f64.to_bits())
                    } else if n == "__wbindgen_object_drop_ref" {
                        Host::Nop
                    } else {
                        Host::Unknown
                    };
                }
                match i.name.as_str() {
                    "sym" => Host::Sym,
                    "assume" => Host::Assume,
                    "check" => Host::Check,
                    "known" => Host::Known,
                    "reach" => Host::Reach,
                    "out" => Host::Out,
                    "panic" => Host::Panic,
                    "param" => Host::Param,
                    "concrete" => Host::Concrete,
                    "note" => Host::Note,
                    "is_const" => Host::IsConst,
                    _ => Host::Unknown,
                }
            })
            .collect();
        let npages = max_mem / PG;
        let mut vm = Vm {
            hosts,
            mem: vec![0; max_mem],
            shadow: vec![0; max_mem],
            pg_sym: vec![0; npages],
            pg_epoch: vec![0; npages],
            mem_pages: m.mem_min_pages,
            regs: vec![Val::default(); REGS_CAP],
            frames: vec![],
            globals: m.globals.iter().map(|&v| Val { v, e: 0 }).collect(),
            ar: Arena::new(),
            doms: vec![],
            singleton: 0,
            multi: vec![],
            multi_vars: 0,
            nvars: 0,
            model: vec![],
            choices: vec![],
            log: vec![],
            outs: vec![],
            path_checks: 0,
            params: vec![],
            split: (0, 1),
            executed: vec![0; m.funcs.len()],
            res: JobResult::default(),
            lim: Limits { deadline: Instant::now() + Duration::from_secs(3600), job_secs: 1e9, path_instrs: 4_000_000_000, max_viol: 3, samples: 2, seed: 1, max_concretise: 0 },
            single_memo: Default::default(),
            multi_memo: Default::default(),
            dom_ast: Default::default(),
            max_mem,
            warm: true,
            rng: 1,
            path_start_instrs: 0,
            profile: false,
            m,
        };
        for (off, d) in vm.m.data.clone() {
            let o = off as usize;
            vm.mem[o..o + d.len()].copy_from_slice(&d);
        }
        vm
    }

    fn reset_arena(&mut self) {
        self.single_memo.clear();
        self.multi_memo.clear();
        self.dom_ast.clear();
        self.ar = Arena::new();
    }

    /// Concrete warm-up run (lazy statics, regex compilation); its effects become the start state.
    pub fn warm_up(&mut self, entry: &str) -> Result<(), String> {
        self.warm = true;
        if let Some(&f) = self.m.exports.get(entry) {
            let fi = f - self.m.imports.len() as u32;
            match self.start(fi) {
                Ok(()) => {}
                Err(Ctl::EndPath) => return Err(format!("warm-up ended abnormally: {:?} {:?}", self.res.violations, self.res.errors)),
                Err(Ctl::Error(e)) => return Err(e),
            }
        }
        self.warm = false;
        for x in self.executed.iter_mut() {
            *x = 0;
        }
        Ok(())
    }

    pub fn run_job(&mut self, job: &Job, lim: Limits) -> JobResult {
        let t0 = Instant::now();
        if self.ar.nodes.len() > 1_500_000 || self.ar.tabs.len() > 300_000 {
            // fresh arena: all symbolic memory has been restored to concrete by now
            self.reset_arena();
        }
        // variables are per job
        let keep = self.ar.vars.len();
        if keep > 0 {
            self.reset_arena();
        }
        self.rng = lim.seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        self.lim = lim;
        let jd = Instant::now() + Duration::from_secs_f64(self.lim.job_secs.min(1e6));
        if jd < self.lim.deadline {
            self.lim.deadline = jd;
        }
        self.res = JobResult::default();
        self.params = job.params.clone();
        self.split = job.split;
        self.doms.clear();
        self.singleton = 0;
        self.multi.clear();
        self.multi_vars = 0;
        self.nvars = 0;
        self.model.clear();
        self.outs.clear();
        self.path_checks = 0;
        let globals0 = self.globals.clone();
        let pages0 = self.mem_pages;
        // bottom sentinel epoch: everything written from now on is logged
        self.choices.clear();
        self.log.clear();
        let fi = match self.m.exports.get(&job.entry) {
            Some(&f) => f - self.m.imports.len() as u32,
            None => {
                self.res.errors.push(format!("no export {}", job.entry));
                return std::mem::take(&mut self.res);
            }
        };
        self.path_start_instrs = 0;
        let mut r = self.start(fi);
        let mut exhausted = true;
        loop {
            match r {
                Ok(()) => self.end_path_ok(),
                Err(Ctl::EndPath) => {}
                Err(Ctl::Error(e)) => {
                    exhausted = false;
                    if self.res.errors.len() < 5 {
                        let e = format!("{e} [in {}]", self.backtrace());
                        self.res.errors.push(e);
                    }
                }
            }
            if Instant::now() > self.lim.deadline || self.res.violations.len() >= self.lim.max_viol {
                if !self.choices.is_empty() {
                    exhausted = false;
                }
                break;
            }
            if !self.backtrack() {
                break;
            }
            self.path_start_instrs = self.res.instrs;
            r = self.resume();
        }
        // restore the start state
        while let Some(l) = self.log.pop() {
            self.undo(l);
        }
        self.choices.clear();
        self.globals = globals0;
        self.mem_pages = pages0;
        self.frames.clear();
        self.res.exhausted = exhausted;
        self.res.secs = t0.elapsed().as_secs_f64();
        std::mem::take(&mut self.res)
    }

    fn backtrace(&self) -> String {
        let mut s = String::new();
        for f in self.frames.iter().rev().take(12) {
            s.push_str(&self.m.funcs[f.func as usize].name);
            s.push_str(" < ");
        }
        s
    }

    fn undo(&mut self, l: LogEntry) {
        let p = l.page as usize;
        let o = p * PG;
        self.mem[o..o + PG].copy_from_slice(&l.data[..]);
        match l.shadow {
            Some(s) => self.shadow[o..o + PG].copy_from_slice(&s[..]),
            None => {
                if self.pg_sym[p] != 0 {
                    self.shadow[o..o + PG].fill(0);
                }
            }
        }
        self.pg_sym[p] = l.sym as u8;
        self.pg_epoch[p] = l.old_epoch;
    }

    fn backtrack(&mut self) -> bool {
        let Some(c) = self.choices.pop() else { return false };
        while self.log.len() > c.log_len {
            let l = self.log.pop().unwrap();
            self.undo(l);
        }
        self.regs[..c.regs.len()].copy_from_slice(&c.regs);
        self.frames = c.frames;
        self.frames.push(Frame { func: c.func, pc: c.pc, base: c.base });
        self.globals = c.globals;
        self.doms = c.doms;
        self.singleton = c.singleton;
        self.multi.truncate(c.multi_len);
        self.multi_vars = c.multi_vars;
        self.nvars = c.nvars;
        self.model = c.alt_model;
        self.outs.truncate(c.outs_len);
        self.mem_pages = c.mem_pages;
        self.path_checks = c.checks;
        self.assert_true(c.alt);
        true
    }

    fn end_path_ok(&mut self) {
        self.res.paths += 1;
        // reservoir sample of completed paths for native trace comparison
        let k = self.lim.samples;
        let n = self.res.paths;
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let slot = if (n as usize) <= k { Some(n as usize - 1) } else {
            let j = (self.rng % n) as usize;
            (j < k).then_some(j)
        };
        if let Some(s) = slot {
            let smp = Sample { model: self.model[..self.nvars].to_vec(), outs: self.eval_outs(), checks: self.path_checks };
            if s < self.res.samples.len() {
                self.res.samples[s] = smp;
            } else {
                self.res.samples.push(smp);
            }
        }
    }

    fn eval_outs(&self) -> Vec<u8> {
        let mut cache = FxMap::default();
        self.outs.iter().map(|v| if v.e == 0 { v.v as u8 } else { self.ar.eval(v.e, &self.model, &mut cache) as u8 }).collect()
    }

    fn violation(&mut self, id: String, detail: String, model: Vec<u8>) {
        if self.res.violations.len() < self.lim.max_viol {
            self.res.violations.push(Violation { id, detail, model: model[..self.nvars].to_vec(), outs: vec![] });
        }
    }

    // ---- path condition ---------------------------------------------------------------------

    fn tmask(&self, c: Id) -> Dom {
        let t = self.ar.tab(c);
        let mut d = [0u64; 4];
        for (i, &x) in t.iter().enumerate() {
            if x != 0 {
                d[i / 64] |= 1 << (i % 64);
            }
        }
        d
    }

    fn z3_dom(&mut self, v: u32, d: &Dom) -> Ast {
        if let Some(&a) = self.dom_ast.get(&(v, *d)) {
            return a;
        }
        let c = self.ar.z3;
        let mut vals: Vec<u8> = self.ar.vars[v as usize].vals.iter().enumerate().filter(|(i, _)| dhas(d, *i)).map(|(_, &x)| x).collect();
        vals.sort();
        let x = self.ar.var_ast[v as usize];
        let mut terms: Vec<Ast> = vec![];
        unsafe {
            let s = Z3_mk_bv_sort(c, 8);
            let k = |v: u8| Z3_mk_unsigned_int64(c, v as u64, s);
            let mut i = 0;
            while i < vals.len() {
                let mut j = i;
                while j + 1 < vals.len() && vals[j + 1] == vals[j] + 1 {
                    j += 1;
                }
                if i == j {
                    terms.push(Z3_mk_eq(c, x, k(vals[i])));
                } else {
                    let l = [Z3_mk_bvuge(c, x, k(vals[i])), Z3_mk_bvule(c, x, k(vals[j]))];
                    terms.push(Z3_mk_and(c, 2, l.as_ptr()));
                }
                i = j + 1;
            }
            let a = Z3_mk_or(c, terms.len() as u32, terms.as_ptr());
            Z3_inc_ref(c, a);
            self.dom_ast.insert((v, *d), a);
            a
        }
    }

    /// One solver call: is (domains of vars) ∧ cs ∧ (p = pol) satisfiable? None = unknown.
    fn solve(&mut self, vars: u128, cs: &[Id], p: Id, pol: bool, want_model: bool) -> Result<Option<Vec<(u32, u8)>>, Ctl> {
        let t0 = Instant::now();
        let c = self.ar.z3;
        let s = self.ar.solver;
        unsafe {
            Z3_solver_push(c, s);
            let mut vs = vars;
            while vs != 0 {
                let v = vs.trailing_zeros();
                vs &= vs - 1;
                let d = self.doms[v as usize];
                let a = self.z3_dom(v, &d);
                Z3_solver_assert(c, s, a);
            }
            for &x in cs {
                let a = self.ar.z3_bool(x);
                Z3_solver_assert(c, s, a);
            }
            let a = self.ar.z3_bool(p);
            Z3_solver_assert(c, s, if pol { a } else { Z3_mk_not(c, a) });
            let r = Z3_solver_check(c, s);
            let out = match r {
                1 => {
                    let mut mv = vec![];
                    if want_model {
                        let m = Z3_solver_get_model(c, s);
                        Z3_model_inc_ref(c, m);
                        let mut vs = vars;
                        while vs != 0 {
                            let v = vs.trailing_zeros();
                            vs &= vs - 1;
                            let mut o: Ast = std::ptr::null_mut();
                            let mut u = 0u64;
                            if !Z3_model_eval(c, m, self.ar.var_ast[v as usize], true, &mut o) || !Z3_get_numeral_uint64(c, o, &mut u) {
                                return Err(Ctl::Error("z3 model".into()));
                            }
                            mv.push((v, u as u8));
                        }
                        Z3_model_dec_ref(c, m);
                    }
                    Ok(Some(mv))
                }
                -1 => Ok(None),
                _ => Err(Ctl::Error("solver answered unknown".into())),
            };
            Z3_solver_pop(c, s, 1);
            if Z3_get_error_code(c) != 0 {
                return Err(Ctl::Error("z3 error".into()));
            }
            self.res.solver_queries += 1;
            self.res.solver_time += t0.elapsed().as_secs_f64();
            match &out {
                Ok(Some(_)) => self.res.solver_sat += 1,
                Ok(None) => self.res.solver_unsat += 1,
                _ => self.res.unknown += 1,
            }
            out
        }
    }

    /// Constraints connected to `vars`.
    fn slice(&self, mut vars: u128) -> (u128, Vec<Id>) {
        if vars & self.multi_vars == 0 {
            return (vars, vec![]);
        }
        let mut used = vec![false; self.multi.len()];
        let mut cs = vec![];
        loop {
            let mut ch = false;
            for (i, &m) in self.multi.iter().enumerate() {
                if !used[i] {
                    let mv = self.ar.n(m).vars;
                    if mv & vars & !self.singleton != 0 || mv & vars != 0 && mv & !self.singleton & vars == mv & !self.singleton {
                        used[i] = true;
                        cs.push(m);
                        vars |= mv;
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        cs.sort();
        (vars, cs)
    }

    /// Sat query with memo over (slice, predicate, polarity); updates of the model returned.
    fn query(&mut self, p: Id, pol: bool) -> Result<Option<Vec<(u32, u8)>>, Ctl> {
        let pv = self.ar.n(p).vars;
        let (vars, cs) = self.slice(pv);
        let mut h1 = Fx::default();
        let mut h2 = Fx::default();
        use std::hash::Hasher;
        h2.write_u64(0x1234567);
        for h in [&mut h1, &mut h2] {
            h.write_u32(p);
            h.write_u8(pol as u8);
            for &c in &cs {
                h.write_u32(c);
            }
            h.write_u64(0xffff_ffff_ffff);
            let mut vs = vars;
            while vs != 0 {
                let v = vs.trailing_zeros();
                vs &= vs - 1;
                h.write_u32(v);
                for x in self.doms[v as usize] {
                    h.write_u64(x);
                }
            }
        }
        let key = (h1.finish() as u128) << 64 | h2.finish() as u128;
        if let Some(r) = self.multi_memo.get(&key) {
            self.res.memo_hits += 1;
            return Ok(r.clone());
        }
        let r = self.solve(vars, &cs, p, pol, true)?;
        if self.multi_memo.len() > 2_000_000 {
            self.multi_memo.clear();
        }
        self.multi_memo.insert(key, r.clone());
        Ok(r)
    }

    /// (true feasible, false feasible, model for the side the current model is not on)
    fn decide(&mut self, c: Id) -> Result<(bool, bool, bool, Vec<u8>), Ctl> {
        // returns (can_true, can_false, model_side, other_model)
        let n = *self.ar.n(c);
        if n.op == OP_CONST {
            return Ok((n.imm != 0, n.imm == 0, n.imm != 0, vec![]));
        }
        if let Some(v) = self.ar.single_var(c) {
            let d = self.doms[v as usize];
            let t = self.tmask(c);
            let mut td = [0u64; 4];
            let mut fd = [0u64; 4];
            for i in 0..4 {
                td[i] = d[i] & t[i];
                fd[i] = d[i] & !t[i];
            }
            let (ct, cf) = (dcount(&td) > 0, dcount(&fd) > 0);
            if !self.single_memo.contains_key(&(c, d)) {
                // the solver's verdict on this predicate over this domain; the table must agree
                let bit = 1u128 << v;
                let zt = self.solve(bit, &[], c, true, false)?.is_some();
                let zf = self.solve(bit, &[], c, false, false)?.is_some();
                if zt != ct || zf != cf {
                    return Err(Ctl::Error(format!("solver/table disagreement on node {c}")));
                }
                self.single_memo.insert((c, d), ());
            } else {
                self.res.memo_hits += 1;
            }
            let cur = self.ar.vars[v as usize].vals.iter().position(|&x| x == self.model[v as usize]).unwrap();
            let side = dhas(&t, cur);
            if !ct || !cf {
                return Ok((ct, cf, ct, vec![]));
            }
            if self.multi_vars >> v & 1 == 0 {
                let od = if side { &fd } else { &td };
                let mut m = self.model.clone();
                m[v as usize] = self.ar.vars[v as usize].vals[dfirst(od)];
                return Ok((true, true, side, m));
            }
        } else {
            if self.multi.contains(&c) {
                return Ok((true, false, true, vec![]));
            }
            let nc = self.not(c);
            if self.multi.contains(&nc) {
                return Ok((false, true, false, vec![]));
            }
        }
        let side = {
            let mut cache = FxMap::default();
            self.ar.eval(c, &self.model, &mut cache) != 0
        };
        match self.query(c, !side)? {
            None => Ok((side, !side, side, vec![])),
            Some(up) => {
                let mut m = self.model.clone();
                for (v, x) in up {
                    m[v as usize] = x;
                }
                Ok((true, true, side, m))
            }
        }
    }

    fn assert_true(&mut self, c: Id) {
        let n = *self.ar.n(c);
        if n.op == OP_CONST {
            return;
        }
        if let Some(v) = self.ar.single_var(c) {
            let t = self.tmask(c);
            let d = &mut self.doms[v as usize];
            for i in 0..4 {
                d[i] &= t[i];
            }
            debug_assert!(dcount(d) > 0);
            if dcount(d) == 1 {
                self.singleton |= 1u128 << v;
            }
            return;
        }
        match n.op {
            0x71 | 0x83 => {
                let (na, nb) = (*self.ar.n(n.a), *self.ar.n(n.b));
                if is_bool(&na) && is_bool(&nb) {
                    self.assert_true(n.a);
                    self.assert_true(n.b);
                    return;
                }
            }
            OP_ZEXT => return self.assert_true(n.a),
            0x46 | 0x51 => {
                if let Some(k) = self.ar.as_const(n.b)
                    && self.assert_eq_const(n.a, k)
                {
                    return;
                }
            }
            0x45 | 0x50 => {
                if self.assert_eq_const(n.a, 0) {
                    return;
                }
            }
            _ => {}
        }
        if !self.multi.contains(&c) {
            self.multi.push(c);
            self.multi_vars |= n.vars;
        }
    }

    /// Asserts a == k piecewise; false if there is nothing to take apart.
    fn assert_eq_const(&mut self, a: Id, k: u64) -> bool {
        let n = *self.ar.n(a);
        let parts = match n.op {
            OP_ZEXT => {
                if self.ar.single_var(n.a).is_none() && self.assert_eq_const(n.a, k) {
                    return true;
                }
                return false;
            }
            OP_CONCAT => {
                let lw = self.ar.n(n.b).w;
                let hw = self.ar.n(n.a).w;
                [(n.a, (k >> lw) & mask(hw)), (n.b, k & mask(lw))]
            }
            0x72 | 0x84 if k == 0 => [(n.a, 0), (n.b, 0)],
            _ => return false,
        };
        for (x, v) in parts {
            let mut y = x;
            while self.ar.n(y).op == OP_ZEXT && self.ar.single_var(y).is_none() {
                y = self.ar.n(y).a;
            }
            let m = *self.ar.n(y);
            let compound = self.ar.single_var(y).is_none() && (m.op == OP_CONCAT || (v == 0 && (m.op == 0x72 || m.op == 0x84)));
            if compound {
                self.assert_eq_const(y, v);
            } else {
                let e = self.eq_const(x, v);
                self.assert_leaf(e);
            }
        }
        true
    }
    fn assert_leaf(&mut self, c: Id) {
        let n = *self.ar.n(c);
        if n.op == OP_CONST || self.ar.single_var(c).is_some() {
            return self.assert_true(c);
        }
        if !self.multi.contains(&c) {
            self.multi.push(c);
            self.multi_vars |= n.vars;
        }
    }

    /// 32-bit 0/1 node for a == k (any width)
    fn eq_const(&mut self, a: Id, k: u64) -> Id {
        let w = self.ar.n(a).w;
        if w < 32 {
            let x = self.ar.zext(a, 32);
            let kk = self.ar.konst(k, 32);
            return self.ar.alu_sym(0x46, x, kk);
        }
        if w == 32 {
            let kk = self.ar.konst(k, 32);
            return self.ar.alu_sym(0x46, a, kk);
        }
        let x = if w < 64 { self.ar.zext(a, 64) } else { a };
        let kk = self.ar.konst(k, 64);
        self.ar.alu_sym(0x51, x, kk)
    }
    fn not(&mut self, c: Id) -> Id {
        let b = self.ar.boolify(c);
        self.ar.alu_sym(0x45, b, 0)
    }

    /// Take one side of a boolean node, leaving the other as a choice if it is feasible.
    /// `cur` = (func, pc, base) of the instruction to re-execute on the other side.
    fn branch(&mut self, c: Id, cur: Frame) -> Result<bool, Ctl> {
        let (ct, cf, side, other) = self.decide(c)?;
        if !ct || !cf {
            return Ok(ct);
        }
        let nc = self.not(c);
        let cb = self.ar.boolify(c);
        let (mine, alt) = if side { (cb, nc) } else { (nc, cb) };
        self.push_choice(cur, alt, other);
        self.assert_true(mine);
        Ok(side)
    }

    fn push_choice(&mut self, cur: Frame, alt: Id, alt_model: Vec<u8>) {
        let top = cur.base as usize + self.m.funcs[cur.func as usize].nregs as usize;
        let frames = self.frames.clone();
        if self.profile {
            *self.res.fork_sites.entry((cur.func, cur.pc)).or_default() += 1;
        }
        self.res.forks += 1;
        self.choices.push(Choice {
            regs: self.regs[..top].to_vec(),
            frames,
            globals: self.globals.clone(),
            func: cur.func,
            pc: cur.pc,
            base: cur.base,
            doms: self.doms.clone(),
            singleton: self.singleton,
            multi_len: self.multi.len(),
            multi_vars: self.multi_vars,
            nvars: self.nvars,
            alt,
            alt_model,
            outs_len: self.outs.len(),
            log_len: self.log.len(),
            mem_pages: self.mem_pages,
            checks: self.path_checks,
        });
    }

    fn concretise(&mut self, e: Id, cur: Frame) -> Result<u64, Ctl> {
        let n = *self.ar.n(e);
        if n.op == OP_CONST {
            return Ok(n.imm);
        }
        let k = {
            let mut cache = FxMap::default();
            self.ar.eval(e, &self.model, &mut cache)
        };
        if n.vars & !self.singleton == 0 {
            return Ok(k);
        }
        self.res.concretised += 1;
        let c = self.eq_const(e, k);
        if self.branch(c, cur)? { Ok(k) } else { Err(Ctl::Error("concretise: model side not taken".into())) }
    }

    /// Drop to a concrete value if the path condition fixes every variable involved.
    #[inline]
    fn simp(&mut self, e: Id) -> Val {
        let n = self.ar.n(e);
        if n.op == OP_CONST {
            return Val { v: n.imm, e: 0 };
        }
        if n.vars & !self.singleton == 0 {
            let mut cache = FxMap::default();
            let v = self.ar.eval(e, &self.model, &mut cache);
            return Val { v, e: 0 };
        }
        Val { v: 0, e }
    }

    fn coerce(&mut self, x: Val, w: u8) -> Id {
        if x.e == 0 {
            return self.ar.konst(x.v, w);
        }
        let ew = self.ar.n(x.e).w;
        if ew == w {
            x.e
        } else if ew < w {
            self.ar.zext(x.e, w)
        } else {
            self.ar.extract(x.e, 0, w)
        }
    }

    // ---- memory -----------------------------------------------------------------------------

    #[cold]
    #[inline(never)]
    fn save_page(&mut self, p: usize) {
        let o = p * PG;
        let mut data = Box::new([0u8; PG]);
        data.copy_from_slice(&self.mem[o..o + PG]);
        let sym = self.pg_sym[p] != 0;
        let shadow = if sym {
            let mut s = Box::new([0 as Id; PG]);
            s.copy_from_slice(&self.shadow[o..o + PG]);
            Some(s)
        } else {
            None
        };
        self.log.push(LogEntry { page: p as u32, old_epoch: self.pg_epoch[p], sym, data, shadow });
        self.pg_epoch[p] = self.choices.len() as u32 + 1;
    }
    #[inline(always)]
    fn touch(&mut self, addr: usize, len: usize) {
        if self.warm {
            return;
        }
        let ep = self.choices.len() as u32 + 1;
        let p0 = addr >> PGS;
        let p1 = (addr + len - 1) >> PGS;
        for p in p0..=p1 {
            if self.pg_epoch[p] != ep {
                self.save_page(p);
            }
        }
    }
    #[inline(always)]
    fn mem_len(&self) -> u64 {
        self.mem_pages << 16
    }

    #[inline]
    fn has_sym(&self, addr: usize, len: usize) -> bool {
        let p0 = addr >> PGS;
        let p1 = (addr + len - 1) >> PGS;
        (self.pg_sym[p0] | self.pg_sym[p1]) != 0 && self.shadow[addr..addr + len].iter().any(|&x| x != 0)
    }

    #[inline(always)]
    fn raw(&self, addr: usize, n: usize) -> u64 {
        unsafe {
            let p = self.mem.as_ptr().add(addr);
            match n {
                1 => *p as u64,
                2 => (p as *const u16).read_unaligned() as u64,
                4 => (p as *const u32).read_unaligned() as u64,
                _ => (p as *const u64).read_unaligned(),
            }
        }
    }

    fn sym_load(&mut self, addr: usize, n: usize) -> Id {
        let mut r: Id = 0;
        for i in 0..n {
            let s = self.shadow[addr + i];
            let b = if s != 0 { s } else { self.ar.konst(self.mem[addr + i] as u64, 8) };
            r = if i == 0 { b } else { self.ar.concat(b, r) };
        }
        r
    }

    fn write_conc(&mut self, addr: usize, n: usize, v: u64) {
        self.touch(addr, n);
        let p0 = addr >> PGS;
        let p1 = (addr + n - 1) >> PGS;
        if self.pg_sym[p0] | self.pg_sym[p1] != 0 {
            self.shadow[addr..addr + n].fill(0);
        }
        unsafe {
            let p = self.mem.as_mut_ptr().add(addr);
            match n {
                1 => *p = v as u8,
                2 => (p as *mut u16).write_unaligned(v as u16),
                4 => (p as *mut u32).write_unaligned(v as u32),
                _ => (p as *mut u64).write_unaligned(v),
            }
        }
    }

    fn write_sym(&mut self, addr: usize, n: usize, e: Id) {
        self.touch(addr, n);
        for i in 0..n {
            let b = self.ar.extract(e, 8 * i as u64, 8);
            let x = self.simp(b);
            if x.e == 0 {
                self.shadow[addr + i] = 0;
                self.mem[addr + i] = x.v as u8;
            } else {
                self.shadow[addr + i] = x.e;
                self.mem[addr + i] = 0;
                self.pg_sym[(addr + i) >> PGS] = 1;
            }
        }
    }

    // ---- running ----------------------------------------------------------------------------

    fn start(&mut self, fi: u32) -> Result<(), Ctl> {
        self.frames.clear();
        let f = &self.m.funcs[fi as usize];
        for i in 0..f.nregs as usize {
            self.regs[i] = Val::default();
        }
        self.frames.push(Frame { func: fi, pc: 0, base: 0 });
        self.resume()
    }

    fn resume(&mut self) -> Result<(), Ctl> {
        let m = self.m.clone();
        let f = self.frames.pop().unwrap();
        self.exec(&m, f)
    }

    #[inline(never)]
    fn exec(&mut self, m: &Module, fr: Frame) -> Result<(), Ctl> {
        let mut func = fr.func;
        let mut f: &Func = &m.funcs[func as usize];
        let mut pc = fr.pc as usize;
        let mut base = fr.base as usize;
        let rp = self.regs.as_mut_ptr();
        self.executed[func as usize] |= 1;
        let mut tick: u64 = 0;
        macro_rules! r {
            ($i:expr) => {
                *unsafe { &mut *rp.add(base + $i as usize) }
            };
        }
        macro_rules! cur {
            () => {
                Frame { func, pc: pc as u32, base: base as u32 }
            };
        }
        macro_rules! bail {
            ($e:expr) => {{
                self.res.instrs += tick;
                let fr = cur!();
                self.frames.push(fr);
                return Err($e);
            }};
        }
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(c) => bail!(c),
                }
            };
        }
        // replaces a symbolic register by a concrete value on this path
        macro_rules! conc {
            ($i:expr) => {{
                let x = r!($i);
                if x.e != 0 {
                    let v = tri!(self.concretise(x.e, cur!()));
                    self.executed[func as usize] |= 2;
                    r!($i) = Val { v, e: 0 };
                    v
                } else {
                    x.v
                }
            }};
        }
        loop {
            let ins = unsafe { *f.code.get_unchecked(pc) };
            tick += 1;
            if tick & 0xf_ffff == 0 {
                self.res.instrs += tick;
                tick = 0;
                if self.res.instrs - self.path_start_instrs > self.lim.path_instrs {
                    bail!(Ctl::Error("path instruction cap".into()));
                }
                if !self.warm && Instant::now() > self.lim.deadline {
                    bail!(Ctl::Error("deadline inside a path".into()));
                }
            }
            let opc = ins.op;
            if opc < 0x200 {
                let a = r!(ins.a);
                let (o, b) = if opc >= 0x100 { (opc & 0xff, Val { v: ins.imm, e: 0 }) } else { (opc, r!(ins.b)) };
                if a.e | b.e == 0 {
                    if let Some(v) = alu(o, a.v, b.v) {
                        r!(ins.d) = Val { v, e: 0 };
                    } else {
                        match float_op(o, a.v, b.v) {
                            Some(v) => r!(ins.d) = Val { v, e: 0 },
                            None => {
                                tri!(self.trap("arithmetic trap", cur!()));
                            }
                        }
                    }
                } else {
                    self.executed[func as usize] |= 2;
                    // unary ops: register b is unused (0): ignore its content
                    let b = if is_unary(o) { Val::default() } else { b };
                    if a.e == 0 && b.e == 0 {
                        let v = match alu(o, a.v, 0) {
                            Some(v) => v,
                            None => match float_op(o, a.v, 0) {
                                Some(v) => v,
                                None => tri!(self.trap("arithmetic trap", cur!())),
                            },
                        };
                        r!(ins.d) = Val { v, e: 0 };
                        pc += 1;
                        continue;
                    }
                    if matches!(o, 0xbc..=0xbf) {
                        r!(ins.d) = a;
                        pc += 1;
                        continue;
                    }
                    match Arena::sym_op_width(o) {
                        None => {
                            conc!(ins.a);
                            if opc < 0x100 && !is_unary(o) {
                                conc!(ins.b);
                            }
                            continue;
                        }
                        Some((w, _)) => {
                            if matches!(o, 0x6d..=0x70 | 0x7f..=0x82) {
                                // division: divisor must be a nonzero constant other than -1
                                if b.e != 0 {
                                    conc!(ins.b);
                                    continue;
                                }
                                let bad = b.v == 0 || (matches!(o, 0x6d | 0x6f) && b.v as u32 == u32::MAX) || (matches!(o, 0x7f | 0x81) && b.v == u64::MAX);
                                if bad {
                                    conc!(ins.a);
                                    continue;
                                }
                            }
                            let x = self.coerce(a, w);
                            let y = if is_unary(o) { 0 } else { self.coerce(b, w) };
                            let e = self.ar.alu_sym(o, x, y);
                            let v = self.simp(e);
                            r!(ins.d) = v;
                        }
                    }
                }
                pc += 1;
                continue;
            }
            match opc {
                op::MOV => {
                    r!(ins.d) = r!(ins.a);
                    pc += 1;
                }
                op::CONST => {
                    r!(ins.d) = Val { v: ins.imm, e: 0 };
                    pc += 1;
                }
                0x240..=0x24d => {
                    let a = r!(ins.a);
                    let (n, kind) = load_kind(opc - op::LOAD);
                    if a.e != 0 {
                        self.executed[func as usize] |= 2;
                        match tri!(self.load_sym_addr(a.e, ins.imm, n, kind)) {
                            Some(v) => {
                                r!(ins.d) = v;
                                pc += 1;
                            }
                            None => {
                                conc!(ins.a);
                            }
                        }
                        continue;
                    }
                    let addr = a.v.wrapping_add(ins.imm);
                    if addr.wrapping_add(n as u64) > self.mem_len() || addr > self.mem_len() {
                        tri!(self.trap("out-of-bounds load", cur!()));
                        unreachable!();
                    }
                    let ad = addr as usize;
                    let p0 = ad >> PGS;
                    let p1 = (ad + n - 1) >> PGS;
                    if unsafe { *self.pg_sym.get_unchecked(p0) | *self.pg_sym.get_unchecked(p1) } != 0 && self.has_sym(ad, n) {
                        self.executed[func as usize] |= 2;
                        let e = self.sym_load(ad, n);
                        let e = match kind {
                            0 => {
                                let w = if n <= 4 { 32 } else { 64 };
                                self.ar.zext(e, w)
                            }
                            1 => self.ar.zext(e, 64),
                            2 => self.ar.sext(e, 32),
                            _ => self.ar.sext(e, 64),
                        };
                        let v = self.simp(e);
                        r!(ins.d) = v;
                    } else {
                        let x = self.raw(ad, n);
                        r!(ins.d) = Val { v: ext(x, n, kind), e: 0 };
                    }
                    pc += 1;
                }
                0x260..=0x268 => {
                    let a = r!(ins.a);
                    let n = store_size(opc - op::STORE);
                    if a.e != 0 {
                        conc!(ins.a);
                        continue;
                    }
                    let addr = a.v.wrapping_add(ins.imm);
                    if addr.wrapping_add(n as u64) > self.mem_len() || addr > self.mem_len() {
                        tri!(self.trap("out-of-bounds store", cur!()));
                        unreachable!();
                    }
                    let ad = addr as usize;
                    let b = r!(ins.b);
                    if b.e == 0 {
                        self.write_conc(ad, n, b.v);
                    } else {
                        self.executed[func as usize] |= 2;
                        self.write_sym(ad, n, b.e);
                    }
                    pc += 1;
                }
                op::BR => pc = ins.imm as usize,
                op::BRIF | op::BRIFZ => {
                    let c = r!(ins.a);
                    let t = if c.e == 0 {
                        c.v as u32 != 0
                    } else {
                        self.executed[func as usize] |= 2;
                        tri!(self.branch(c.e, cur!()))
                    };
                    if t == (opc == op::BRIF) {
                        pc = ins.imm as usize;
                    } else {
                        pc += 1;
                    }
                }
                op::BRTABLE => {
                    let c = r!(ins.a);
                    let tb = &f.tables[ins.imm as usize];
                    let last = tb.len() - 1;
                    if c.e == 0 {
                        pc = tb[(c.v as u32 as usize).min(last)] as usize;
                    } else {
                        self.executed[func as usize] |= 2;
                        pc = tri!(self.br_table(c.e, tb, cur!())) as usize;
                    }
                }
                op::SELECT => {
                    let c = r!(ins.imm);
                    if c.e == 0 {
                        r!(ins.d) = if c.v as u32 != 0 { r!(ins.a) } else { r!(ins.b) };
                    } else {
                        self.executed[func as usize] |= 2;
                        let (a, b) = (r!(ins.a), r!(ins.b));
                        if a.e == 0 && b.e == 0 && a.v == b.v {
                            r!(ins.d) = a;
                        } else {
                            let mut w = 32;
                            for x in [a, b] {
                                if x.e != 0 {
                                    w = w.max(self.ar.n(x.e).w);
                                } else if x.v > u32::MAX as u64 {
                                    w = 64;
                                }
                            }
                            let x = self.coerce(a, w);
                            let y = self.coerce(b, w);
                            let cc = self.ar.boolify(c.e);
                            let e = self.ar.ite(cc, x, y);
                            let v = self.simp(e);
                            r!(ins.d) = v;
                        }
                    }
                    pc += 1;
                }
                op::CALL | op::CALLI => {
                    let fi = if opc == op::CALL {
                        ins.imm as u32
                    } else {
                        let i = conc!(ins.b);
                        let nimp = m.imports.len() as u32;
                        let fx = m.table.get(i as usize).copied().unwrap_or(u32::MAX);
                        if fx == u32::MAX || fx < nimp {
                            tri!(self.trap("bad indirect call", cur!()));
                            unreachable!();
                        }
                        let g = fx - nimp;
                        if m.canon_type[m.funcs[g as usize].type_idx as usize] != m.canon_type[ins.imm as usize] {
                            tri!(self.trap("indirect call type mismatch", cur!()));
                            unreachable!();
                        }
                        g
                    };
                    self.frames.push(Frame { func, pc: pc as u32 + 1, base: base as u32 });
                    func = fi;
                    f = &m.funcs[func as usize];
                    base += ins.a as usize;
                    pc = 0;
                    self.executed[func as usize] |= 1;
                    if base + f.nregs as usize >= REGS_CAP || self.frames.len() > 20000 {
                        tri!(self.trap("call stack overflow", cur!()));
                        unreachable!();
                    }
                    for i in f.nparams..f.nlocals {
                        r!(i) = Val::default();
                    }
                }
                op::RET => {
                    if ins.b == 1 {
                        r!(0) = r!(ins.a);
                    }
                    match self.frames.pop() {
                        None => {
                            self.res.instrs += tick;
                            return Ok(());
                        }
                        Some(p) => {
                            func = p.func;
                            f = &m.funcs[func as usize];
                            pc = p.pc as usize;
                            base = p.base as usize;
                        }
                    }
                }
                op::UNREACHABLE => {
                    tri!(self.trap("unreachable (abort)", cur!()));
                    unreachable!();
                }
                op::GGET => {
                    r!(ins.d) = self.globals[ins.imm as usize];
                    pc += 1;
                }
                op::GSET => {
                    self.globals[ins.imm as usize] = r!(ins.a);
                    pc += 1;
                }
                op::MEMSIZE => {
                    r!(ins.d) = Val { v: self.mem_pages, e: 0 };
                    pc += 1;
                }
                op::MEMGROW => {
                    let n = conc!(ins.a);
                    let old = self.mem_pages;
                    if n > (1 << 20) || ((old + n) << 16) as usize > self.max_mem {
                        bail!(Ctl::Error(format!("memory cap: grow by {n}")));
                    }
                    self.mem_pages += n;
                    r!(ins.d) = Val { v: old, e: 0 };
                    pc += 1;
                }
                op::MEMCOPY => {
                    let d = conc!(ins.a);
                    let s = conc!(ins.b);
                    let n = conc!(ins.imm);
                    if n > 0 {
                        let l = self.mem_len();
                        if s.checked_add(n).is_none_or(|x| x > l) || d.checked_add(n).is_none_or(|x| x > l) {
                            tri!(self.trap("out-of-bounds copy", cur!()));
                            unreachable!();
                        }
                        self.copy(d as usize, s as usize, n as usize);
                    }
                    pc += 1;
                }
                op::MEMFILL => {
                    let d = conc!(ins.a);
                    let n = conc!(ins.imm);
                    if n > 0 {
                        if d.checked_add(n).is_none_or(|x| x > self.mem_len()) {
                            tri!(self.trap("out-of-bounds fill", cur!()));
                            unreachable!();
                        }
                        let v = r!(ins.b);
                        let (d, n) = (d as usize, n as usize);
                        if v.e != 0 {
                            let b = self.ar.extract(v.e, 0, 8);
                            for i in 0..n {
                                self.write_sym(d + i, 1, b);
                            }
                        } else {
                            self.touch(d, n);
                            self.clear_shadow(d, n);
                            self.mem[d..d + n].fill(v.v as u8);
                        }
                    }
                    pc += 1;
                }
                op::CALLHOST => {
                    let h = self.hosts[ins.imm as usize];
                    let a = ins.a;
                    // pointer/length arguments are made concrete first
                    let nargs = ins.b;
                    for i in 0..nargs {
                        let keep_sym = matches!((h, i), (Host::Assume, 0) | (Host::Check, 0) | (Host::Known, 0));
                        if !keep_sym {
                            conc!(a + i);
                        }
                    }
                    let args: [Val; 4] = std::array::from_fn(|i| if (i as u16) < nargs { r!(a + i as u16) } else { Val::default() });
                    let out = tri!(self.host(h, ins.imm as usize, &args, cur!()));
                    if let Some(v) = out {
                        r!(a) = v;
                    }
                    pc += 1;
                }
                0x220..=0x227 => {
                    let v = conc!(ins.a);
                    r!(ins.d) = Val { v: trunc_sat(opc - op::TRUNCSAT, v), e: 0 };
                    pc += 1;
                }
                x => bail!(Ctl::Error(format!("bad IR op {x:#x}"))),
            }
        }
    }

    fn clear_shadow(&mut self, d: usize, n: usize) {
        for p in d >> PGS..=(d + n - 1) >> PGS {
            if self.pg_sym[p] != 0 {
                let lo = (p << PGS).max(d);
                let hi = ((p + 1) << PGS).min(d + n);
                self.shadow[lo..hi].fill(0);
            }
        }
    }

    fn copy(&mut self, d: usize, s: usize, n: usize) {
        self.touch(d, n);
        let any = (s >> PGS..=(s + n - 1) >> PGS).any(|p| self.pg_sym[p] != 0) && self.shadow[s..s + n].iter().any(|&x| x != 0);
        if any {
            self.shadow.copy_within(s..s + n, d);
            for p in d >> PGS..=(d + n - 1) >> PGS {
                self.pg_sym[p] = 1;
            }
        } else {
            self.clear_shadow(d, n);
        }
        self.mem.copy_within(s..s + n, d);
    }

    fn load_sym_addr(&mut self, e: Id, off: u64, n: usize, kind: u8) -> Result<Option<Val>, Ctl> {
        let Some(v) = self.ar.single_var(e) else { return Ok(None) };
        let t = self.ar.tab(e).to_vec();
        let d = self.doms[v as usize];
        let w = if kind == 1 || kind == 3 || n == 8 { 64 } else { 32 };
        let mut out: Vec<Option<u64>> = vec![None; t.len()];
        let len = self.mem_len();
        let mut first = 0;
        for (i, &x) in t.iter().enumerate() {
            if !dhas(&d, i) {
                continue;
            }
            let ad = x.wrapping_add(off);
            if ad > len || ad + n as u64 > len || self.has_sym(ad as usize, n) {
                return Ok(None);
            }
            let y = ext(self.raw(ad as usize, n), n, kind);
            out[i] = Some(y);
            first = y;
        }
        let tab: Box<[u64]> = out.into_iter().map(|x| x.unwrap_or(first)).collect();
        let id = self.ar.lut(v, w, tab);
        Ok(Some(self.simp(id)))
    }

    fn br_table(&mut self, e: Id, tb: &[u32], cur: Frame) -> Result<u32, Ctl> {
        let last = tb.len() - 1;
        let k = {
            let mut cache = FxMap::default();
            self.ar.eval(e, &self.model, &mut cache)
        };
        let target = tb[(k as usize).min(last)];
        let pred = if let Some(v) = self.ar.single_var(e) {
            let t: Box<[u64]> = self.ar.tab(e).iter().map(|&x| (tb[(x as u32 as usize).min(last)] == target) as u64).collect();
            self.ar.lut(v, 32, t)
        } else {
            let mut p = self.ar.konst(0, 32);
            for (i, &x) in tb.iter().enumerate() {
                if x == target {
                    let kk = self.ar.konst(i as u64, 32);
                    let c = if i == last { self.ar.alu_sym(0x4f, e, kk) } else { self.ar.alu_sym(0x46, e, kk) };
                    p = self.ar.alu_sym(0x72, p, c);
                }
            }
            p
        };
        if self.ar.as_const(pred).is_some() {
            return Ok(target);
        }
        if self.branch(pred, cur)? { Ok(target) } else { Err(Ctl::Error("br_table: model side not taken".into())) }
    }

    fn trap(&mut self, what: &str, cur: Frame) -> Result<u64, Ctl> {
        self.frames.push(cur);
        let bt = self.backtrace();
        self.frames.pop();
        let model = self.model.clone();
        self.violation("trap".into(), format!("{what} at {bt}"), model);
        Err(Ctl::EndPath)
    }

    fn cstr(&self, p: u64, n: u64) -> String {
        String::from_utf8_lossy(&self.mem[p as usize..(p + n) as usize]).into_owned()
    }

    fn host(&mut self, h: Host, imp: usize, a: &[Val; 4], cur: Frame) -> Result<Option<Val>, Ctl> {
        match h {
            Host::Sym => {
                if self.warm {
                    return Err(Ctl::Error("symbolic input during warm-up".into()));
                }
                let (p, n) = (a[0].v as usize, a[1].v as usize);
                let vals: Vec<u8> = self.mem[p..p + n].to_vec();
                if vals.is_empty() || n > 256 {
                    return Err(Ctl::Error("bad alphabet".into()));
                }
                let vi = self.nvars;
                // the same variable is re-declared identically on sibling paths when possible
                let node = if vi < self.ar.vars.len() && self.ar.vars[vi].vals == vals {
                    self.ar.vars[vi].node
                } else if vi == self.ar.vars.len() {
                    self.ar.new_var(vals.clone())
                } else {
                    return Err(Ctl::Error(format!("variable {vi} declared with two alphabets on different paths")));
                };
                let mut d = dom_full(n);
                if vi == 0 && self.split.1 > 1 {
                    let (i, k) = self.split;
                    for j in 0..n {
                        if (j as u32) % k != i {
                            d[j / 64] &= !(1 << (j % 64));
                        }
                    }
                    if dcount(&d) == 0 {
                        self.res.assumed_away += 1;
                        return Err(Ctl::EndPath);
                    }
                }
                self.doms.truncate(vi);
                self.doms.push(d);
                self.model.truncate(vi);
                self.model.push(vals[dfirst(&d)]);
                self.singleton &= !(1u128 << vi);
                if dcount(&d) == 1 {
                    self.singleton |= 1u128 << vi;
                }
                self.nvars += 1;
                self.res.max_vars = self.res.max_vars.max(self.nvars);
                let e = self.ar.zext(node, 32);
                Ok(Some(self.simp(e)))
            }
            Host::Assume => {
                let c = a[0];
                let t = if c.e == 0 { c.v as u32 != 0 } else { self.branch(c.e, cur)? };
                if !t {
                    self.res.assumed_away += 1;
                    return Err(Ctl::EndPath);
                }
                Ok(None)
            }
            Host::Check => {
                let c = a[0];
                self.res.checks += 1;
                self.path_checks += 1;
                if c.e == 0 {
                    if c.v as u32 == 0 {
                        let id = self.cstr(a[1].v, a[2].v);
                        let model = self.model.clone();
                        self.violation(id, String::new(), model);
                        return Err(Ctl::EndPath);
                    }
                    return Ok(None);
                }
                let (ct, cf, side, other) = self.decide(c.e)?;
                if cf {
                    let id = self.cstr(a[1].v, a[2].v);
                    let model = if ct && side { other.clone() } else { self.model.clone() };
                    self.violation(id, String::new(), model);
                    if !ct {
                        return Err(Ctl::EndPath);
                    }
                    if !side {
                        self.model = other;
                    }
                    let b = self.ar.boolify(c.e);
                    self.assert_true(b);
                }
                Ok(None)
            }
            Host::Known => {
                // cond true: a listed finding applies to this path; record it and stop the path
                let c = a[0];
                let t = if c.e == 0 { c.v as u32 != 0 } else { self.branch(c.e, cur)? };
                if t {
                    let id = self.cstr(a[1].v, a[2].v);
                    let model = self.model[..self.nvars].to_vec();
                    let e = self.res.known.entry(id).or_insert((0, model));
                    e.0 += 1;
                    return Err(Ctl::EndPath);
                }
                Ok(None)
            }
            Host::Reach => {
                if !self.warm {
                    let id = self.cstr(a[0].v, a[1].v);
                    *self.res.reach.entry(id).or_default() += 1;
                }
                Ok(None)
            }
            Host::Out => {
                if self.warm {
                    return Ok(None);
                }
                let (p, n) = (a[0].v as usize, a[1].v as usize);
                for i in 0..n {
                    let s = if self.pg_sym[(p + i) >> PGS] != 0 { self.shadow[p + i] } else { 0 };
                    self.outs.push(Val { v: self.mem[p + i] as u64, e: s });
                }
                Ok(None)
            }
            Host::Panic => {
                let file = self.cstr(a[0].v, a[1].v);
                let line = a[2].v;
                let model = self.model.clone();
                self.violation("panic".into(), format!("panic at {file}:{line}"), model);
                Err(Ctl::EndPath)
            }
            Host::Param => {
                let i = a[0].v as usize;
                let v = self.params.get(i).copied().unwrap_or(0);
                Ok(Some(Val { v: v as u64, e: 0 }))
            }
            Host::Concrete => Ok(Some(a[0])),
            Host::IsConst => {
                let (p, n) = (a[0].v as usize, a[1].v as usize);
                let c = (p..p + n).all(|q| self.pg_sym[q >> PGS] == 0 || self.shadow[q] == 0);
                Ok(Some(Val { v: c as u64, e: 0 }))
            }
            Host::Note => {
                if self.profile || self.warm {
                    eprintln!("note: {}", self.cstr(a[0].v, a[1].v));
                }
                Ok(None)
            }
            Host::Const(v) => Ok(Some(Val { v, e: 0 })),
            Host::Nop => Ok(None),
            Host::Unknown => {
                let i = &self.m.imports[imp];
                Err(Ctl::Error(format!("call of unmodelled import {}.{}", i.module, i.name)))
            }
        }
    }

    pub fn func_name(&self, i: u32) -> &str {
        &self.m.funcs[i as usize].name
    }
    pub fn used_sets(&self) -> (HashSet<u32>, HashSet<u32>) {
        let mut a = HashSet::new();
        let mut b = HashSet::new();
        for (i, &x) in self.executed.iter().enumerate() {
            if x & 1 != 0 {
                a.insert(i as u32);
            }
            if x & 2 != 0 {
                b.insert(i as u32);
            }
        }
        (a, b)
    }
}

/// (bytes, kind): kind 0 = zero-extend to natural width, 1 = zero-extend to 64, 2 = sign-extend to 32, 3 = sign-extend to 64
#[inline(always)]
fn load_kind(k: u16) -> (usize, u8) {
    match k {
        0 => (4, 0),
        1 => (8, 0),
        2 => (4, 0),
        3 => (8, 0),
        4 => (1, 2),
        5 => (1, 0),
        6 => (2, 2),
        7 => (2, 0),
        8 => (1, 3),
        9 => (1, 1),
        10 => (2, 3),
        11 => (2, 1),
        12 => (4, 3),
        _ => (4, 1),
    }
}
#[inline(always)]
fn store_size(k: u16) -> usize {
    match k {
        0 => 4,
        1 => 8,
        2 => 4,
        3 => 8,
        4 => 1,
        5 => 2,
        6 => 1,
        7 => 2,
        _ => 4,
    }
}
#[inline(always)]
fn ext(x: u64, n: usize, kind: u8) -> u64 {
    match kind {
        0 | 1 => x,
        2 => (match n {
            1 => x as i8 as i32,
            _ => x as i16 as i32,
        }) as u32 as u64,
        _ => (match n {
            1 => x as i8 as i64,
            2 => x as i16 as i64,
            _ => x as i32 as i64,
        }) as u64,
    }
}

fn f32b(v: u64) -> f32 {
    f32::from_bits(v as u32)
}
fn f64b(v: u64) -> f64 {
    f64::from_bits(v)
}

fn trunc_sat(k: u16, v: u64) -> u64 {
    match k {
        0 => f32b(v) as i32 as u32 as u64,
        1 => f32b(v) as u32 as u64,
        2 => f64b(v) as i32 as u32 as u64,
        3 => f64b(v) as u32 as u64,
        4 => f32b(v) as i64 as u64,
        5 => f32b(v) as u64,
        6 => f64b(v) as i64 as u64,
        _ => f64b(v) as u64,
    }
}

#[inline(never)]
fn float_op(o: u16, a: u64, b: u64) -> Option<u64> {
    let (x, y) = (f32b(a), f32b(b));
    let (p, q) = (f64b(a), f64b(b));
    let s = |v: f32| v.to_bits() as u64;
    let d = |v: f64| v.to_bits();
    Some(match o {
        0x5b => (x == y) as u64,
        0x5c => (x != y) as u64,
        0x5d => (x < y) as u64,
        0x5e => (x > y) as u64,
        0x5f => (x <= y) as u64,
        0x60 => (x >= y) as u64,
        0x61 => (p == q) as u64,
        0x62 => (p != q) as u64,
        0x63 => (p < q) as u64,
        0x64 => (p > q) as u64,
        0x65 => (p <= q) as u64,
        0x66 => (p >= q) as u64,
        0x8b => s(x.abs()),
        0x8c => a as u32 as u64 ^ 0x8000_0000,
        0x8d => s(x.ceil()),
        0x8e => s(x.floor()),
        0x8f => s(x.trunc()),
        0x90 => s(x.round_ties_even()),
        0x91 => s(x.sqrt()),
        0x92 => s(x + y),
        0x93 => s(x - y),
        0x94 => s(x * y),
        0x95 => s(x / y),
        0x96 => s(if x.is_nan() || y.is_nan() { f32::NAN } else { x.min(y) }),
        0x97 => s(if x.is_nan() || y.is_nan() { f32::NAN } else { x.max(y) }),
        0x98 => s(x.copysign(y)),
        0x99 => d(p.abs()),
        0x9a => a ^ (1 << 63),
        0x9b => d(p.ceil()),
        0x9c => d(p.floor()),
        0x9d => d(p.trunc()),
        0x9e => d(p.round_ties_even()),
        0x9f => d(p.sqrt()),
        0xa0 => d(p + q),
        0xa1 => d(p - q),
        0xa2 => d(p * q),
        0xa3 => d(p / q),
        0xa4 => d(if p.is_nan() || q.is_nan() { f64::NAN } else { p.min(q) }),
        0xa5 => d(if p.is_nan() || q.is_nan() { f64::NAN } else { p.max(q) }),
        0xa6 => d(p.copysign(q)),
        0xa8 => {
            if x.is_nan() || x < -2147483648.0 || x >= 2147483648.0 {
                return None;
            }
            x as i32 as u32 as u64
        }
        0xa9 => {
            if x.is_nan() || x <= -1.0 || x >= 4294967296.0 {
                return None;
            }
            x as u32 as u64
        }
        0xaa => {
            if p.is_nan() || p <= -2147483649.0 || p >= 2147483648.0 {
                return None;
            }
            p as i32 as u32 as u64
        }
        0xab => {
            if p.is_nan() || p <= -1.0 || p >= 4294967296.0 {
                return None;
            }
            p as u32 as u64
        }
        0xae => x as i64 as u64,
        0xaf => x as u64,
        0xb0 => p as i64 as u64,
        0xb1 => p as u64,
        0xb2 => s(a as u32 as i32 as f32),
        0xb3 => s(a as u32 as f32),
        0xb4 => s(a as i64 as f32),
        0xb5 => s(a as f32),
        0xb6 => s(p as f32),
        0xb7 => d(a as u32 as i32 as f64),
        0xb8 => d(a as u32 as f64),
        0xb9 => d(a as i64 as f64),
        0xba => d(a as f64),
        0xbb => d(x as f64),
        0xbc | 0xbe => a as u32 as u64,
        0xbd | 0xbf => a,
        _ => return None,
    })
}
