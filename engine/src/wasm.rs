//! WebAssembly (memory64) parser and translator to a register-style IR.
//!
//! The IR keeps the wasm locals and the operand stack in one register window per call; callee
//! windows overlap the caller's argument slots, so a call copies nothing.

use std::collections::HashMap;

#[derive(Clone, Copy, Debug)]
#[repr(C)]
pub struct Ins {
    pub op: u16,
    pub d: u16,
    pub a: u16,
    pub b: u16,
    pub imm: u64,
}

/// IR opcodes above the wasm numeric range. Numeric ops keep their wasm number (0x45..=0xC4);
/// bit 8 set means "second operand is `imm`".
pub mod op {
    pub const IMM: u16 = 0x100;
    pub const MOV: u16 = 0x200;
    pub const CONST: u16 = 0x201;
    pub const BR: u16 = 0x202;
    pub const BRIF: u16 = 0x203;
    pub const BRIFZ: u16 = 0x204;
    pub const BRTABLE: u16 = 0x205;
    pub const CALL: u16 = 0x206;
    pub const CALLI: u16 = 0x207;
    pub const RET: u16 = 0x208;
    pub const UNREACHABLE: u16 = 0x209;
    pub const SELECT: u16 = 0x20a;
    pub const GGET: u16 = 0x20b;
    pub const GSET: u16 = 0x20c;
    pub const MEMSIZE: u16 = 0x20d;
    pub const MEMGROW: u16 = 0x20e;
    pub const MEMCOPY: u16 = 0x20f;
    pub const MEMFILL: u16 = 0x210;
    pub const CALLHOST: u16 = 0x211;
    /// saturating float->int conversions: TRUNCSAT + sub (0..=7)
    pub const TRUNCSAT: u16 = 0x220;
    /// loads: LOAD + (wasm opcode - 0x28); stores: STORE + (wasm opcode - 0x36)
    pub const LOAD: u16 = 0x240;
    pub const STORE: u16 = 0x260;
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct FuncType {
    pub params: Vec<u8>,
    pub results: Vec<u8>,
}

pub struct Func {
    pub type_idx: u32,
    pub nparams: u32,
    pub nlocals: u32,
    pub nresults: u32,
    pub nregs: u32,
    pub code: Vec<Ins>,
    pub tables: Vec<Vec<u32>>,
    pub name: String,
}

pub struct Import {
    pub module: String,
    pub name: String,
    pub type_idx: u32,
}

pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<Import>,
    pub funcs: Vec<Func>, // defined functions; index = funcidx - imports.len()
    pub table: Vec<u32>,  // funcidx or u32::MAX
    pub globals: Vec<u64>,
    pub exports: HashMap<String, u32>,
    pub global_exports: HashMap<String, u32>,
    pub mem_min_pages: u64,
    pub data: Vec<(u64, Vec<u8>)>,
    pub canon_type: Vec<u32>,
}

struct R<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let v = self.b[self.p];
        self.p += 1;
        v
    }
    fn leb(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            if b & 0x80 == 0 {
                return r;
            }
            s += 7;
        }
    }
    fn u32(&mut self) -> u32 {
        self.leb() as u32
    }
    fn sleb(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        s
    }
    fn name(&mut self) -> String {
        let n = self.u32() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn limits(&mut self) -> (u64, u8) {
        let f = self.u8();
        let min = self.leb();
        if f & 1 != 0 {
            self.leb();
        }
        (min, f)
    }
}

fn const_expr(r: &mut R, globals: &[u64]) -> Result<u64, String> {
    let mut st: Vec<u64> = vec![];
    loop {
        match r.u8() {
            0x41 => st.push(r.sleb() as i32 as u32 as u64),
            0x42 => st.push(r.sleb() as u64),
            0x43 => st.push(u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64),
            0x44 => st.push(u64::from_le_bytes(r.bytes(8).try_into().unwrap())),
            0x23 => st.push(globals[r.u32() as usize]),
            0xd2 => st.push(r.u32() as u64),
            0xd0 => {
                r.u8();
                st.push(u32::MAX as u64)
            }
            0x0b => return st.pop().ok_or("empty const expr".into()),
            x => return Err(format!("const expr opcode {x:#x}")),
        }
    }
}

pub fn parse(bytes: &[u8]) -> Result<Module, String> {
    if &bytes[0..4] != b"\0asm" {
        return Err("not wasm".into());
    }
    let mut r = R { b: bytes, p: 8 };
    let mut m = Module {
        types: vec![],
        imports: vec![],
        funcs: vec![],
        table: vec![],
        globals: vec![],
        exports: HashMap::new(),
        global_exports: HashMap::new(),
        mem_min_pages: 0,
        data: vec![],
        canon_type: vec![],
    };
    let mut ftypes: Vec<u32> = vec![];
    let mut bodies: Vec<&[u8]> = vec![];
    let mut names: HashMap<u32, String> = HashMap::new();
    while r.p < bytes.len() {
        let id = r.u8();
        let n = r.u32() as usize;
        let sec = r.bytes(n);
        let mut s = R { b: sec, p: 0 };
        match id {
            0 => {
                let nm = s.name();
                if nm == "name" {
                    while s.p < sec.len() {
                        let sub = s.u8();
                        let len = s.u32() as usize;
                        let d = s.bytes(len);
                        if sub == 1 {
                            let mut q = R { b: d, p: 0 };
                            let c = q.u32();
                            for _ in 0..c {
                                let i = q.u32();
                                let nm = q.name();
                                names.insert(i, nm);
                            }
                        }
                    }
                }
            }
            1 => {
                let c = s.u32();
                for _ in 0..c {
                    if s.u8() != 0x60 {
                        return Err("type form".into());
                    }
                    let np = s.u32() as usize;
                    let params = s.bytes(np).to_vec();
                    let nr = s.u32() as usize;
                    let results = s.bytes(nr).to_vec();
                    m.types.push(FuncType { params, results });
                }
            }
            2 => {
                let c = s.u32();
                for _ in 0..c {
                    let module = s.name();
                    let name = s.name();
                    match s.u8() {
                        0 => {
                            let type_idx = s.u32();
                            m.imports.push(Import { module, name, type_idx })
                        }
                        k => return Err(format!("import kind {k} {module}.{name}")),
                    }
                }
            }
            3 => {
                let c = s.u32();
                for _ in 0..c {
                    ftypes.push(s.u32());
                }
            }
            4 => {
                let c = s.u32();
                for _ in 0..c {
                    s.u8();
                    let (min, _) = s.limits();
                    m.table = vec![u32::MAX; min as usize];
                }
            }
            5 => {
                let c = s.u32();
                for _ in 0..c {
                    m.mem_min_pages = s.limits().0;
                }
            }
            6 => {
                let c = s.u32();
                for _ in 0..c {
                    s.u8();
                    s.u8();
                    let v = const_expr(&mut s, &m.globals)?;
                    m.globals.push(v);
                }
            }
            7 => {
                let c = s.u32();
                for _ in 0..c {
                    let nm = s.name();
                    let k = s.u8();
                    let i = s.u32();
                    if k == 0 {
                        m.exports.insert(nm, i);
                    } else if k == 3 {
                        m.global_exports.insert(nm, i);
                    }
                }
            }
            8 => return Err("start section unsupported".into()),
            9 => {
                let c = s.u32();
                for _ in 0..c {
                    let fl = s.u32();
                    match fl {
                        0 => {
                            let off = const_expr(&mut s, &m.globals)? as usize;
                            let k = s.u32();
                            for j in 0..k {
                                m.table[off + j as usize] = s.u32();
                            }
                        }
                        2 => {
                            s.u32();
                            let off = const_expr(&mut s, &m.globals)? as usize;
                            s.u8();
                            let k = s.u32();
                            for j in 0..k {
                                m.table[off + j as usize] = s.u32();
                            }
                        }
                        x => return Err(format!("element flags {x}")),
                    }
                }
            }
            10 => {
                let c = s.u32();
                for _ in 0..c {
                    let n = s.u32() as usize;
                    bodies.push(s.bytes(n));
                }
            }
            11 => {
                let c = s.u32();
                for _ in 0..c {
                    let fl = s.u32();
                    if fl != 0 {
                        return Err("passive data".into());
                    }
                    let off = const_expr(&mut s, &m.globals)?;
                    let n = s.u32() as usize;
                    m.data.push((off, s.bytes(n).to_vec()));
                }
            }
            12 => {}
            13 => {}
            x => return Err(format!("section {x}")),
        }
    }
    // canonical type ids so that call_indirect compares structurally
    for i in 0..m.types.len() {
        let c = (0..=i).find(|&j| m.types[j] == m.types[i]).unwrap();
        m.canon_type.push(c as u32);
    }
    let nimp = m.imports.len() as u32;
    for (i, body) in bodies.iter().enumerate() {
        let name = names.get(&(nimp + i as u32)).cloned().unwrap_or_else(|| format!("f{}", nimp + i as u32));
        let f = translate(&m, &ftypes, ftypes[i], body, name.clone()).map_err(|e| format!("{name}: {e}"))?;
        m.funcs.push(f);
    }
    Ok(m)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Opd {
    Slot,       // lives in its own stack slot
    Local(u16), // alias of a local
    Const(u64),
}

struct Label {
    is_loop: bool,
    start_pc: u32,
    fixups: Vec<(usize, usize)>, // (kind/table, index): (usize::MAX, ins) or (table, entry)
    height: usize,               // operand stack height at entry (without params)
    arity: usize,                // values carried by a branch
    results: usize,
    params: usize,
    else_fix: Option<usize>,
    is_if: bool,
}

struct T<'m> {
    m: &'m Module,
    ftypes: &'m [u32],
    nlocals: usize,
    code: Vec<Ins>,
    tables: Vec<Vec<u32>>,
    st: Vec<Opd>,
    max: usize,
    labels: Vec<Label>,
    last_def: Option<usize>, // code index whose destination is the slot on top of the stack
}

impl<'m> T<'m> {
    fn slot(&self, i: usize) -> u16 {
        (self.nlocals + i) as u16
    }
    fn emit(&mut self, op: u16, d: u16, a: u16, b: u16, imm: u64) -> usize {
        self.code.push(Ins { op, d, a, b, imm });
        self.code.len() - 1
    }
    fn push(&mut self, o: Opd) {
        self.st.push(o);
        if self.st.len() > self.max {
            self.max = self.st.len();
        }
    }
    fn materialize(&mut self, i: usize) {
        match self.st[i] {
            Opd::Slot => {}
            Opd::Local(l) => {
                let d = self.slot(i);
                self.emit(op::MOV, d, l, 0, 0);
                self.st[i] = Opd::Slot;
                self.last_def = None;
            }
            Opd::Const(c) => {
                let d = self.slot(i);
                self.emit(op::CONST, d, 0, 0, c);
                self.st[i] = Opd::Slot;
                self.last_def = None;
            }
        }
    }
    fn materialize_all(&mut self) {
        for i in 0..self.st.len() {
            self.materialize(i);
        }
        self.last_def = None;
    }
    /// register holding operand i of the compile-time stack (constants are materialised)
    fn reg(&mut self, i: usize) -> u16 {
        if let Opd::Const(_) = self.st[i] {
            self.materialize(i);
        }
        match self.st[i] {
            Opd::Slot => self.slot(i),
            Opd::Local(l) => l,
            Opd::Const(_) => unreachable!(),
        }
    }
    /// pop k operands, push a result defined by the instruction emitted by `f`
    fn def(&mut self, k: usize, mut ins: Ins) {
        let base = self.st.len() - k;
        self.st.truncate(base);
        ins.d = self.slot(base);
        self.code.push(ins);
        self.push(Opd::Slot);
        self.last_def = Some(self.code.len() - 1);
    }
    fn branch_moves_needed(&self, l: &Label) -> bool {
        let n = l.arity;
        (0..n).any(|j| {
            let src = self.st.len() - n + j;
            src != l.height + j || self.st[src] != Opd::Slot
        })
    }
    fn emit_moves(&mut self, li: usize) {
        let n = self.labels[li].arity;
        let h = self.labels[li].height;
        for j in 0..n {
            let src = self.st.len() - n + j;
            let d = self.slot(h + j);
            match self.st[src] {
                Opd::Slot => {
                    let a = self.slot(src);
                    if a != d {
                        self.emit(op::MOV, d, a, 0, 0);
                    }
                }
                Opd::Local(l) => {
                    self.emit(op::MOV, d, l, 0, 0);
                }
                Opd::Const(c) => {
                    self.emit(op::CONST, d, 0, 0, c);
                }
            }
        }
    }
    fn emit_br(&mut self, li: usize) {
        let pc = self.emit(op::BR, 0, 0, 0, 0);
        self.link(li, usize::MAX, pc);
    }
    fn link(&mut self, li: usize, table: usize, idx: usize) {
        let l = &mut self.labels[li];
        if l.is_loop {
            let t = l.start_pc;
            if table == usize::MAX {
                self.code[idx].imm = t as u64;
            } else {
                self.tables[table][idx] = t;
            }
        } else {
            l.fixups.push((table, idx));
        }
    }
    fn bind(&mut self, fix: &[(usize, usize)]) {
        let pc = self.code.len();
        for &(t, i) in fix {
            if t == usize::MAX {
                self.code[i].imm = pc as u64;
            } else {
                self.tables[t][i] = pc as u32;
            }
        }
        self.last_def = None;
    }
    fn block_type(&self, r: &mut R) -> (usize, usize) {
        let v = r.sleb();
        if v == -64 {
            (0, 0)
        } else if v < 0 {
            (0, 1)
        } else {
            let t = &self.m.types[v as usize];
            (t.params.len(), t.results.len())
        }
    }
}

pub fn is_unary(o: u16) -> bool {
    matches!(o, 0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f | 0xa7..=0xc4)
}

fn translate(m: &Module, ftypes: &[u32], ti: u32, body: &[u8], name: String) -> Result<Func, String> {
    let mut r = R { b: body, p: 0 };
    let ty = &m.types[ti as usize];
    let mut nlocals = ty.params.len();
    let g = r.u32();
    for _ in 0..g {
        let n = r.u32() as usize;
        r.u8();
        nlocals += n;
    }
    let nres = ty.results.len();
    if nres > 1 {
        return Err("multi-value result".into());
    }
    let nimp = m.imports.len() as u32;
    let mut t = T { m, ftypes, nlocals, code: vec![], tables: vec![], st: vec![], max: 0, labels: vec![], last_def: None };
    t.labels.push(Label { is_loop: false, start_pc: 0, fixups: vec![], height: 0, arity: nres, results: nres, params: 0, else_fix: None, is_if: false });
    let _ = t.ftypes;
    // skipping dead code: depth of nested blocks opened while dead
    let mut dead: Option<u32> = None;
    loop {
        if r.p >= body.len() {
            return Err("body overrun".into());
        }
        let o = r.u8();
        if let Some(dd) = dead {
            // consume immediates, track nesting
            match o {
                0x02 | 0x03 | 0x04 => {
                    r.sleb();
                    dead = Some(dd + 1);
                    continue;
                }
                0x05 if dd == 0 => { /* handled below */ }
                0x0b if dd == 0 => { /* handled below */ }
                0x0b => {
                    dead = Some(dd - 1);
                    continue;
                }
                _ => {
                    skip_imm(&mut r, o)?;
                    continue;
                }
            }
        }
        match o {
            0x00 => {
                t.emit(op::UNREACHABLE, 0, 0, 0, 0);
                dead = Some(0);
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (p, res) = t.block_type(&mut r);
                t.materialize_all();
                let is_loop = o == 3;
                let pc = t.code.len() as u32;
                let h = t.st.len() - p;
                t.labels.push(Label { is_loop, start_pc: pc, fixups: vec![], height: h, arity: if is_loop { p } else { res }, results: res, params: p, else_fix: None, is_if: false });
            }
            0x04 => {
                let (p, res) = t.block_type(&mut r);
                let ci = t.st.len() - 1;
                let c = t.reg(ci);
                // the condition may alias a local; others must be materialised first
                let top = t.st.pop().unwrap();
                t.materialize_all();
                let _ = top;
                let pc = t.emit(op::BRIFZ, 0, c, 0, 0);
                let h = t.st.len() - p;
                t.labels.push(Label { is_loop: false, start_pc: 0, fixups: vec![], height: h, arity: res, results: res, params: p, else_fix: Some(pc), is_if: true });
            }
            0x05 => {
                let li = t.labels.len() - 1;
                if dead.is_none() {
                    t.emit_moves(li);
                    t.emit_br(li);
                }
                dead = None;
                let f = t.labels[li].else_fix.take().unwrap();
                t.bind(&[(usize::MAX, f)]);
                let h = t.labels[li].height + t.labels[li].params;
                t.st.truncate(h.min(t.st.len()));
                while t.st.len() < h {
                    t.push(Opd::Slot);
                }
                for x in t.st.iter_mut() {
                    *x = Opd::Slot;
                }
            }
            0x0b => {
                let li = t.labels.len() - 1;
                if dead.is_none() {
                    t.emit_moves(li);
                }
                dead = None;
                let l = t.labels.pop().unwrap();
                let mut fx = l.fixups;
                if let Some(e) = l.else_fix {
                    fx.push((usize::MAX, e));
                }
                let _ = l.is_if;
                t.bind(&fx);
                t.st.truncate(l.height.min(t.st.len()));
                while t.st.len() < l.height {
                    t.push(Opd::Slot);
                }
                for x in t.st.iter_mut() {
                    *x = Opd::Slot;
                }
                for _ in 0..l.results {
                    t.push(Opd::Slot);
                }
                if t.labels.is_empty() {
                    let a = t.slot(0);
                    t.emit(op::RET, 0, a, nres as u16, 0);
                    break;
                }
            }
            0x0c => {
                let li = t.labels.len() - 1 - r.u32() as usize;
                t.emit_moves(li);
                t.emit_br(li);
                dead = Some(0);
            }
            0x0d => {
                let li = t.labels.len() - 1 - r.u32() as usize;
                let ci = t.st.len() - 1;
                let c = t.reg(ci);
                t.st.pop();
                t.last_def = None;
                if t.branch_moves_needed(&t.labels[li]) {
                    let sk = t.emit(op::BRIFZ, 0, c, 0, 0);
                    t.emit_moves(li);
                    t.emit_br(li);
                    t.bind(&[(usize::MAX, sk)]);
                } else {
                    let pc = t.emit(op::BRIF, 0, c, 0, 0);
                    t.link(li, usize::MAX, pc);
                }
            }
            0x0e => {
                let n = r.u32() as usize;
                let mut tg: Vec<usize> = vec![];
                for _ in 0..=n {
                    tg.push(t.labels.len() - 1 - r.u32() as usize);
                }
                let ci = t.st.len() - 1;
                let c = t.reg(ci);
                t.st.pop();
                t.last_def = None;
                let ti = t.tables.len();
                t.tables.push(vec![u32::MAX; n + 1]);
                t.emit(op::BRTABLE, 0, c, 0, ti as u64);
                let mut tramp: HashMap<usize, u32> = HashMap::new();
                for (k, &li) in tg.iter().enumerate() {
                    if t.branch_moves_needed(&t.labels[li]) {
                        if let Some(&p) = tramp.get(&li) {
                            t.tables[ti][k] = p;
                        } else {
                            let p = t.code.len() as u32;
                            t.emit_moves(li);
                            t.emit_br(li);
                            tramp.insert(li, p);
                            t.tables[ti][k] = p;
                        }
                    } else {
                        t.link(li, ti, k);
                    }
                }
                dead = Some(0);
            }
            0x0f => {
                let a = if nres == 1 {
                    let i = t.st.len() - 1;
                    t.reg(i)
                } else {
                    0
                };
                t.emit(op::RET, 0, a, nres as u16, 0);
                dead = Some(0);
            }
            0x10 => {
                let f = r.u32();
                let fti = if f < nimp { m.imports[f as usize].type_idx } else { ftypes[(f - nimp) as usize] };
                let fty = &m.types[fti as usize];
                let np = fty.params.len();
                let base = t.st.len() - np;
                // everything that aliases stays valid (callee cannot touch our locals), only args move
                for i in base..t.st.len() {
                    t.materialize(i);
                }
                let a = t.slot(base);
                t.st.truncate(base);
                if f < nimp {
                    t.emit(op::CALLHOST, a, a, np as u16, f as u64);
                } else {
                    t.emit(op::CALL, a, a, 0, (f - nimp) as u64);
                }
                t.last_def = None;
                if base + 1 > t.max {
                    t.max = base + 1;
                }
                for _ in 0..fty.results.len() {
                    t.push(Opd::Slot);
                }
            }
            0x11 => {
                let fti = r.u32();
                r.u32();
                let fty = &m.types[fti as usize];
                let np = fty.params.len();
                let ii = t.st.len() - 1;
                let base = ii - np;
                t.materialize(ii);
                let c = t.slot(ii);
                for i in base..ii {
                    t.materialize(i);
                }
                let a = t.slot(base);
                t.st.truncate(base);
                t.emit(op::CALLI, a, a, c, fti as u64);
                t.last_def = None;
                if base + 1 > t.max {
                    t.max = base + 1;
                }
                for _ in 0..fty.results.len() {
                    t.push(Opd::Slot);
                }
            }
            0x1a => {
                t.st.pop();
                t.last_def = None;
            }
            0x1b | 0x1c => {
                if o == 0x1c {
                    let n = r.u32();
                    for _ in 0..n {
                        r.u8();
                    }
                }
                let n = t.st.len();
                let c = t.reg(n - 1);
                let b = t.reg(n - 2);
                let a = t.reg(n - 3);
                t.def(3, Ins { op: op::SELECT, d: 0, a, b, imm: c as u64 });
            }
            0x20 => {
                let i = r.u32() as u16;
                t.push(Opd::Local(i));
                t.last_def = None;
            }
            0x21 | 0x22 => {
                let i = r.u32() as u16;
                let top = t.st.len() - 1;
                // save aliases of this local lower in the stack
                let ld = t.last_def;
                let mut moved = false;
                for k in 0..top {
                    if t.st[k] == Opd::Local(i) {
                        t.materialize(k);
                        moved = true;
                    }
                }
                match t.st[top] {
                    Opd::Slot => {
                        if let (Some(p), false) = (ld, moved) {
                            t.code[p].d = i;
                        } else {
                            let a = t.slot(top);
                            t.emit(op::MOV, i, a, 0, 0);
                        }
                    }
                    Opd::Local(l) => {
                        if l != i {
                            t.emit(op::MOV, i, l, 0, 0);
                        }
                    }
                    Opd::Const(c) => {
                        t.emit(op::CONST, i, 0, 0, c);
                    }
                }
                t.st.pop();
                t.last_def = None;
                if o == 0x22 {
                    t.push(Opd::Local(i));
                }
            }
            0x23 => {
                let i = r.u32();
                t.def(0, Ins { op: op::GGET, d: 0, a: 0, b: 0, imm: i as u64 });
            }
            0x24 => {
                let i = r.u32();
                let top = t.st.len() - 1;
                let a = t.reg(top);
                t.emit(op::GSET, 0, a, 0, i as u64);
                t.st.pop();
                t.last_def = None;
            }
            0x28..=0x35 => {
                let al = r.u32();
                if al & 0x40 != 0 {
                    r.u32();
                }
                let off = r.leb();
                let i = t.st.len() - 1;
                let a = t.reg(i);
                t.def(1, Ins { op: op::LOAD + (o as u16 - 0x28), d: 0, a, b: 0, imm: off });
            }
            0x36..=0x3e => {
                let al = r.u32();
                if al & 0x40 != 0 {
                    r.u32();
                }
                let off = r.leb();
                let n = t.st.len();
                let b = t.reg(n - 1);
                let a = t.reg(n - 2);
                t.emit(op::STORE + (o as u16 - 0x36), 0, a, b, off);
                t.st.truncate(n - 2);
                t.last_def = None;
            }
            0x3f => {
                r.u8();
                t.def(0, Ins { op: op::MEMSIZE, d: 0, a: 0, b: 0, imm: 0 });
            }
            0x40 => {
                r.u8();
                let i = t.st.len() - 1;
                let a = t.reg(i);
                t.def(1, Ins { op: op::MEMGROW, d: 0, a, b: 0, imm: 0 });
            }
            0x41 => {
                let v = r.sleb() as i32 as u32 as u64;
                t.push(Opd::Const(v));
                t.last_def = None;
            }
            0x42 => {
                let v = r.sleb() as u64;
                t.push(Opd::Const(v));
                t.last_def = None;
            }
            0x43 => {
                let v = u32::from_le_bytes(r.bytes(4).try_into().unwrap()) as u64;
                t.push(Opd::Const(v));
                t.last_def = None;
            }
            0x44 => {
                let v = u64::from_le_bytes(r.bytes(8).try_into().unwrap());
                t.push(Opd::Const(v));
                t.last_def = None;
            }
            0x45..=0xc4 => {
                let oo = o as u16;
                if is_unary(oo) {
                    let i = t.st.len() - 1;
                    let a = t.reg(i);
                    t.def(1, Ins { op: oo, d: 0, a, b: 0, imm: 0 });
                } else {
                    let n = t.st.len();
                    let a = t.reg(n - 2);
                    if let Opd::Const(c) = t.st[n - 1] {
                        t.def(2, Ins { op: oo | op::IMM, d: 0, a, b: 0, imm: c });
                    } else {
                        let b = t.reg(n - 1);
                        t.def(2, Ins { op: oo, d: 0, a, b, imm: 0 });
                    }
                }
            }
            0xfc => {
                let sub = r.u32();
                match sub {
                    0..=7 => {
                        let i = t.st.len() - 1;
                        let a = t.reg(i);
                        t.def(1, Ins { op: op::TRUNCSAT + sub as u16, d: 0, a, b: 0, imm: 0 });
                    }
                    10 => {
                        r.u8();
                        r.u8();
                        let n = t.st.len();
                        let c = t.reg(n - 1);
                        let b = t.reg(n - 2);
                        let a = t.reg(n - 3);
                        t.emit(op::MEMCOPY, 0, a, b, c as u64);
                        t.st.truncate(n - 3);
                        t.last_def = None;
                    }
                    11 => {
                        r.u8();
                        let n = t.st.len();
                        let c = t.reg(n - 1);
                        let b = t.reg(n - 2);
                        let a = t.reg(n - 3);
                        t.emit(op::MEMFILL, 0, a, b, c as u64);
                        t.st.truncate(n - 3);
                        t.last_def = None;
                    }
                    x => return Err(format!("0xfc {x}")),
                }
            }
            x => return Err(format!("opcode {x:#x}")),
        }
    }
    let nregs = nlocals + t.max + 2;
    if nregs > 60000 {
        return Err("too many registers".into());
    }
    Ok(Func {
        type_idx: ti,
        nparams: ty.params.len() as u32,
        nlocals: nlocals as u32,
        nresults: nres as u32,
        nregs: nregs as u32,
        code: t.code,
        tables: t.tables,
        name,
    })
}

fn skip_imm(r: &mut R, o: u8) -> Result<(), String> {
    match o {
        0x00 | 0x01 | 0x0f | 0x1a | 0x1b | 0x45..=0xc4 | 0x05 | 0x0b => {}
        0x0c | 0x0d | 0x10 | 0x20..=0x24 => {
            r.u32();
        }
        0x0e => {
            let n = r.u32();
            for _ in 0..=n {
                r.u32();
            }
        }
        0x11 => {
            r.u32();
            r.u32();
        }
        0x1c => {
            let n = r.u32();
            for _ in 0..n {
                r.u8();
            }
        }
        0x28..=0x3e => {
            let al = r.u32();
            if al & 0x40 != 0 {
                r.u32();
            }
            r.leb();
        }
        0x3f | 0x40 => {
            r.u8();
        }
        0x41 | 0x42 => {
            r.sleb();
        }
        0x43 => {
            r.bytes(4);
        }
        0x44 => {
            r.bytes(8);
        }
        0xfc => match r.u32() {
            0..=7 => {}
            10 => {
                r.u8();
                r.u8();
            }
            11 => {
                r.u8();
            }
            x => return Err(format!("skip 0xfc {x}")),
        },
        x => return Err(format!("skip {x:#x}")),
    }
    Ok(())
}
