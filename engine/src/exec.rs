//! The symbolic interpreter.
use crate::builtin::B;
use crate::expr::*;
use crate::ll::*;
use crate::mem::*;
use crate::val::V;
use crate::z3::{Res, Solver};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;

pub fn give_up(msg: &str) -> ! {
    unsafe {
        if let Some(h) = HOOK {
            h(msg)
        }
    }
    println!("ENGINE-ERROR {}", msg);
    eprintln!("ENGINE-ERROR {}", msg);
    std::process::exit(3);
}
pub static mut HOOK: Option<fn(&str)> = None;
pub static mut CUR_STACK: Vec<u32> = Vec::new();

#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: *const Body,
    pub regs: Vec<V>,
    pub blk: u32,
    pub ip: u32,
    pub ret_reg: R,
    pub normal: u32,
    pub allocas: Vec<u64>,
    /// entered through __sym_try: an exception ends here
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: Mem,
    pub cons: Vec<E>,
    pub known: FxMap<u32, u128>,
    pub kset: VarSet,
    pub eqs: FxMap<E, u128>,
    pub model: Vec<u128>,
    pub inputs: Vec<(u32, E)>, // width, expr
    pub obs: Vec<V>,
    pub insts: u64,
    pub panic_mode: u64,
    /// treat selects on symbolic conditions as branches
    pub fork_select: bool,
    pub seed: u64,
    pub forks: u32,
    pub errno: u64,
    /// files in memory: name and content (bytes as expressions)
    pub files: Vec<(Rc<Vec<u8>>, Rc<Vec<E>>)>,
    /// open descriptors, from 100: file and place
    pub fds: Vec<Option<(usize, usize)>>,
    pub notes: Vec<String>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Return,
    Pruned,
    Panic,
    PanicAllowed,
    Fail(u64),
    Abort,
    Exception,
    TooLong,
    Memory(String),
}

pub struct Config {
    pub max_insts: u64,
    pub deadline: std::time::Instant,
    pub sample_cap: usize,
    pub max_viol: usize,
    pub verbose: bool,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub panic_allowed: u64,
    pub forks: u64,
    pub insts: u64,
    pub obligations: u64,
    pub discharged: u64,
    pub incomplete: u64,
    pub reach: BTreeMap<u64, u64>,
    pub max_path_insts: u64,
    pub max_inputs: u64,
    pub concretized: u64,
}

pub struct Report {
    pub kind: String,
    pub inputs: Vec<u128>,
    pub obs: Vec<u64>,
    pub stack: Vec<String>,
    pub notes: Vec<String>,
}

pub struct Engine {
    pub m: Module,
    pub solver: Solver,
    pub cfg: Config,
    pub st: Stats,
    pub base: Vec<Option<Rc<Obj>>>,
    pub work: VecDeque<State>,
    pub viols: Vec<Report>,
    pub samples: Vec<Report>,
    pub nsample: u64,
    pub reach_sample: BTreeMap<u64, Report>,
}

enum Go {
    Next,
    Stay, // control already moved
    Done(End),
}

macro_rules! tryg {
    ($e:expr) => {
        match $e {
            Ok(v) => v,
            Err(end) => return Go::Done(end),
        }
    };
}

fn w_of(m: &Module, t: TyId) -> u32 {
    m.int_w(t)
}

impl Engine {
    pub fn new(m: Module, cfg: Config, solver_ms: u32) -> Engine {
        let ng = m.globals.len();
        Engine {
            m,
            solver: Solver::new(solver_ms),
            cfg,
            st: Stats::default(),
            base: vec![None; ng + 1],
            work: VecDeque::new(),
            viols: vec![],
            samples: vec![],
            nsample: 0,
            reach_sample: BTreeMap::new(),
        }
    }

    pub fn initial(&mut self, entry: &str, args: &[u64]) -> State {
        let hbase = self.m.fbase + self.m.funcs.len() as u32 + 16;
        let mut st = State {
            frames: vec![],
            mem: Mem::new(hbase),
            cons: vec![],
            known: Default::default(),
            kset: 0,
            eqs: Default::default(),
            model: vec![],
            inputs: vec![],
            obs: vec![],
            insts: 0,
            panic_mode: 0,
            fork_select: false,
            seed: 0x9E3779B97F4A7C15,
            forks: 0,
            errno: 0,
            files: vec![],
            fds: vec![],
            notes: vec![],
        };
        st.errno = st.mem.alloc(8);
        let f = match self.m.sym.get(entry) {
            Some(Sym::F(f)) => *f,
            _ => give_up(&format!("no entry function {}", entry)),
        };
        let body = self.m.body(f);
        let mut regs = vec![V::C(0); body.nregs as usize];
        for (i, p) in body.params.iter().enumerate() {
            regs[*p as usize] = V::C(args.get(i).copied().unwrap_or(0));
        }
        self.m.funcs[f as usize].calls += 1;
        st.frames.push(Frame {
            func: f,
            body: &*body,
            regs,
            blk: 0,
            ip: 0,
            ret_reg: NOREG,
            normal: u32::MAX,
            allocas: vec![],
            catch: false,
        });
        st
    }

    // ---------- memory ----------
    fn obj<'a>(&'a mut self, st: &'a State, id: u32) -> Option<&'a Rc<Obj>> {
        if id >= st.mem.hbase {
            return st.mem.heap(id);
        }
        if let Some(o) = st.mem.globals.get(&id) {
            return Some(o);
        }
        if id == 0 || id as usize > self.m.globals.len() {
            return None;
        }
        if self.base[id as usize].is_none() {
            let o = self.materialise(id);
            self.base[id as usize] = Some(Rc::new(o));
        }
        self.base[id as usize].as_ref()
    }
    fn obj_mut<'a>(&mut self, st: &'a mut State, id: u32) -> Option<&'a mut Obj> {
        if id >= st.mem.hbase {
            return st.mem.heap_mut(id);
        }
        if id == 0 || id as usize > self.m.globals.len() {
            return None;
        }
        if !st.mem.globals.contains_key(&id) {
            let o = self.obj(st, id).unwrap().clone();
            Rc::make_mut(&mut st.mem.globals).insert(id, o);
        }
        let o = Rc::make_mut(Rc::make_mut(&mut st.mem.globals).get_mut(&id).unwrap());
        if o.ro {
            return None;
        }
        Some(o)
    }
    fn materialise(&mut self, id: u32) -> Obj {
        let (ty, init, constant, ext, name) = {
            let g = &self.m.globals[id as usize - 1];
            (g.ty, g.init, g.constant, g.external, g.name.clone())
        };
        let mut o = Obj::new(self.m.lay[ty as usize].size as usize);
        if ext {
            if !matches!(name.as_str(), "environ" | "__libc_single_threaded" | "stderr" | "stdout" | "_ZSt4cout" | "_ZSt4cerr")
                && !name.starts_with("_ZTV")
            {
                // contents unknown: an access would be unsound
                give_up(&format!("access to external global {}", name));
            }
            if name.starts_with("_ZTV") {
                o.data = vec![0; 64];
            }
            return o;
        }
        let src = self.m.src.clone();
        let mut c = Cur { s: &src[..init.1], p: init.0 };
        // fast path for byte strings
        c.ws();
        let v = self.m.parse_const(&mut c, ty);
        self.put(&mut o, 0, &v, ty);
        o.ro = constant;
        o
    }
    fn put(&mut self, o: &mut Obj, off: usize, v: &V, ty: TyId) {
        match self.m.tys[ty as usize].clone() {
            Ty::Arr(n, e) | Ty::Vect(n, e) => {
                let sz = self.m.lay[e as usize].size as usize;
                if let V::A(a) = v {
                    for i in 0..n as usize {
                        self.put(o, off + i * sz, &a[i], e);
                    }
                }
            }
            Ty::Struct(els, packed) => {
                if let V::A(a) = v {
                    for i in 0..els.len() {
                        let fo = self.m.field_off(&els, packed, i) as usize;
                        self.put(o, off + fo, &a[i], els[i]);
                    }
                }
            }
            _ => {
                let n = self.m.lay[ty as usize].store as usize;
                match v {
                    V::C(x) => {
                        for i in 0..n.min(8) {
                            o.data[off + i] = (x >> (8 * i)) as u8;
                        }
                    }
                    V::E(e) => {
                        let x = as_const(*e).unwrap();
                        for i in 0..n {
                            o.data[off + i] = (x >> (8 * i)) as u8;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn bad(&self, st: &State, what: &str, addr: u64, n: u64) -> End {
        let _ = st;
        End::Memory(format!("{} of {} bytes at {:#x}", what, n, addr))
    }

    fn load(&mut self, st: &State, addr: u64, ty: TyId) -> Result<V, End> {
        let lay = self.m.lay[ty as usize];
        let n = lay.store as usize;
        if n == 0 {
            return Ok(self.m.zero(ty));
        }
        let off = (addr & 0xffff_ffff) as usize;
        let scalar = match &self.m.tys[ty as usize] {
            Ty::Int(w) => Some(*w),
            Ty::Ptr => Some(64),
            Ty::Flt(w) => Some(*w),
            _ => None,
        };
        if let Some(w) = scalar {
            let o = match self.obj(st, (addr >> 32) as u32) {
                Some(o) if off + n <= o.data.len() => o,
                _ => return Err(self.bad(st, "load", addr, n as u64)),
            };
            if o.sym.is_empty() || !o.any_sym(off, n) {
                if n <= 8 {
                    let mut b = [0u8; 8];
                    b[..n].copy_from_slice(&o.data[off..off + n]);
                    let mut x = u64::from_le_bytes(b);
                    if w < 64 {
                        x &= (1u64 << w) - 1;
                    }
                    return Ok(V::C(x));
                }
                let mut x = 0u128;
                for i in (0..n.min(16)).rev() {
                    x = x << 8 | o.data[off + i] as u128;
                }
                return Ok(V::E(cst(x, w)));
            }
            let mut e = o.byte(off);
            for i in 1..n {
                e = concat(o.byte(off + i), e);
            }
            if width(e) > w {
                e = extract(e, 0, w);
            }
            let e = if varset(e) & st.kset != 0 { self.simp(st, e) } else { e };
            return Ok(V::of(e));
        }
        match self.m.tys[ty as usize].clone() {
            Ty::Arr(k, e) => {
                let sz = self.m.lay[e as usize].size;
                let mut v = Vec::with_capacity(k as usize);
                for i in 0..k {
                    v.push(self.load(st, addr + i * sz, e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Vect(k, e) => {
                let w = w_of(&self.m, e);
                if w % 8 != 0 {
                    let off = (addr & 0xffff_ffff) as usize;
                    let o = match self.obj(st, (addr >> 32) as u32) {
                        Some(o) if off + n <= o.data.len() => o,
                        _ => return Err(self.bad(st, "load", addr, n as u64)),
                    };
                    let mut x = o.byte(off);
                    for i in 1..n {
                        x = concat(o.byte(off + i), x);
                    }
                    return Ok(V::A(Rc::new((0..k as u32).map(|i| V::of(extract(x, i * w, w))).collect())));
                }
                let mut v = Vec::with_capacity(k as usize);
                for i in 0..k {
                    v.push(self.load(st, addr + i * (w as u64 / 8), e)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(els, packed) => {
                let mut v = Vec::with_capacity(els.len());
                for i in 0..els.len() {
                    let fo = self.m.field_off(&els, packed, i);
                    v.push(self.load(st, addr + fo, els[i])?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => give_up("load of an unsupported type"),
        }
    }
    fn store(&mut self, st: &mut State, addr: u64, v: &V, ty: TyId) -> Result<(), End> {
        let lay = self.m.lay[ty as usize];
        let n = lay.store as usize;
        if n == 0 {
            return Ok(());
        }
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            V::C(x) => {
                let x = *x;
                let scalar_ok = matches!(self.m.tys[ty as usize], Ty::Int(_) | Ty::Ptr | Ty::Flt(_));
                if !scalar_ok {
                    let z = self.m.zero(ty);
                    return self.store(st, addr, &z, ty);
                }
                let o = match self.obj_mut(st, (addr >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() => o,
                    _ => return Err(End::Memory(format!("store of {} bytes at {:#x}", n, addr))),
                };
                let b = x.to_le_bytes();
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    o.data[off + 8..off + n].fill(0);
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].fill(0);
                }
                Ok(())
            }
            V::E(e) => {
                let e = *e;
                let o = match self.obj_mut(st, (addr >> 32) as u32) {
                    Some(o) if off + n <= o.data.len() => o,
                    _ => return Err(End::Memory(format!("store of {} bytes at {:#x}", n, addr))),
                };
                let e = if (width(e) as usize) < 8 * n { zext(e, 8 * n as u32) } else { e };
                for i in 0..n {
                    let b = extract(e, 8 * i as u32, 8);
                    o.set_byte(off + i, b);
                }
                Ok(())
            }
            V::A(a) => {
                let a = a.clone();
                match self.m.tys[ty as usize].clone() {
                    Ty::Arr(_, e) => {
                        let sz = self.m.lay[e as usize].size;
                        for (i, x) in a.iter().enumerate() {
                            self.store(st, addr + i as u64 * sz, x, e)?;
                        }
                    }
                    Ty::Vect(_, e) => {
                        let w = w_of(&self.m, e);
                        if w % 8 != 0 {
                            let mut x = a[0].e(w);
                            for v in &a[1..] {
                                x = concat(v.e(w), x);
                            }
                            return self.store(st, addr, &V::E(x), ty);
                        }
                        for (i, x) in a.iter().enumerate() {
                            self.store(st, addr + i as u64 * (w as u64 / 8), x, e)?;
                        }
                    }
                    Ty::Struct(els, packed) => {
                        for (i, x) in a.iter().enumerate() {
                            let fo = self.m.field_off(&els, packed, i);
                            self.store(st, addr + fo, x, els[i])?;
                        }
                    }
                    _ => give_up("store of an aggregate into a scalar"),
                }
                Ok(())
            }
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> Result<(), End> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let so = (src & 0xffff_ffff) as usize;
        let (data, sym) = match self.obj(st, (src >> 32) as u32) {
            Some(o) if so + n <= o.data.len() => (
                o.data[so..so + n].to_vec(),
                if o.any_sym(so, n) { o.sym[so..so + n].to_vec() } else { vec![] },
            ),
            _ => return Err(End::Memory(format!("copy of {} bytes from {:#x}", n, src))),
        };
        let d = (dst & 0xffff_ffff) as usize;
        match self.obj_mut(st, (dst >> 32) as u32) {
            Some(o) if d + n <= o.data.len() => {
                o.data[d..d + n].copy_from_slice(&data);
                if !sym.is_empty() {
                    if o.sym.is_empty() {
                        o.sym = vec![0; o.data.len()];
                    }
                    o.sym[d..d + n].copy_from_slice(&sym);
                } else if !o.sym.is_empty() {
                    o.sym[d..d + n].fill(0);
                }
                Ok(())
            }
            _ => Err(End::Memory(format!("copy of {} bytes to {:#x}", n, dst))),
        }
    }
    pub fn bytes(&mut self, st: &State, addr: u64, n: u64) -> Result<Vec<E>, End> {
        if n == 0 {
            return Ok(vec![]);
        }
        let off = (addr & 0xffff_ffff) as usize;
        match self.obj(st, (addr >> 32) as u32) {
            Some(o) if off + n as usize <= o.data.len() => Ok((off..off + n as usize).map(|i| o.byte(i)).collect()),
            _ => Err(End::Memory(format!("read of {} bytes at {:#x}", n, addr))),
        }
    }

    // ---------- constraints ----------
    pub fn simp(&self, st: &State, e: E) -> E {
        let mut e = e;
        if varset(e) & st.kset != 0 {
            let mut memo = Default::default();
            e = subst(e, &st.known, st.kset, &mut memo);
        }
        if !st.eqs.is_empty() {
            if let Some(v) = st.eqs.get(&e) {
                return cst(*v, width(e));
            }
        }
        e
    }
    fn slice(&self, st: &State, c: E) -> Vec<E> {
        let mut vs = varset(c);
        let mut out = vec![c];
        let mut used = vec![false; st.cons.len()];
        loop {
            let mut ch = false;
            for (i, k) in st.cons.iter().enumerate() {
                if !used[i] && varset(*k) & vs != 0 {
                    used[i] = true;
                    out.push(*k);
                    if varset(*k) & !vs != 0 {
                        vs |= varset(*k);
                        ch = true;
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    /// is `c` satisfiable together with the path? returns the extended model
    pub fn feasible(&mut self, st: &State, c: E) -> Option<Vec<u128>> {
        self.query(st, c, false)
    }
    fn query(&mut self, st: &State, c: E, verdict: bool) -> Option<Vec<u128>> {
        let c = if varset(c) & st.kset != 0 { self.simp(st, c) } else { c };
        if let Some(v) = as_const(c) {
            return if v == 1 { Some(st.model.clone()) } else { None };
        }
        if eval(c, &st.model) == 1 {
            self.solver.st.model_hits += 1;
            return Some(st.model.clone());
        }
        let mut s = self.slice(st, c);
        let r = self.solver.feasible(&mut s, &st.model, verdict);
        match r {
            Res::Sat(asg) => {
                let mut m = st.model.clone();
                for (i, v) in asg {
                    if m.len() <= i as usize {
                        m.resize(i as usize + 1, 0);
                    }
                    m[i as usize] = v;
                }
                Some(m)
            }
            Res::Unsat => None,
            Res::Unknown => give_up("solver returned unknown (time limit)"),
        }
    }
    /// add a constraint known to hold in st.model
    pub fn constrain(&mut self, st: &mut State, c: E) {
        if as_const(c).is_some() {
            return;
        }
        let n = node(c);
        if n.op == Op::And && n.w == 1 {
            self.constrain(st, n.k[0]);
            self.constrain(st, n.k[1]);
            return;
        }
        // not (a or b)
        if n.op == Op::Xor && as_const(n.k[1]) == Some(1) {
            let i = node(n.k[0]);
            if i.op == Op::Or {
                self.constrain(st, not(i.k[0]));
                self.constrain(st, not(i.k[1]));
                return;
            }
        }
        let mut nk = None;
        if n.op == Op::Eq {
            if let (Op::Var(i), Some(v)) = (node(n.k[0]).op, as_const(n.k[1])) {
                nk = Some((i, v));
            }
        }
        if let Op::Var(i) = n.op {
            nk = Some((i, 1));
        }
        if let Some((i, v)) = nk {
            st.known.insert(i, v);
            st.kset |= 1 << i;
            let mut memo = Default::default();
            let old = std::mem::take(&mut st.cons);
            for k in old {
                let k2 = if varset(k) & (1 << i) != 0 { subst(k, &st.known, st.kset, &mut memo) } else { k };
                if k2 == k {
                    st.cons.push(k);
                } else {
                    self.constrain(st, k2);
                }
            }
            return;
        }
        if !st.cons.contains(&c) {
            st.cons.push(c);
        }
    }
    /// branch on a width-1 expression: returns the side this state takes and queues the other if feasible
    fn decide(&mut self, st: &mut State, c: E) -> bool {
        let c = self.simp(st, c);
        if let Some(v) = as_const(c) {
            return v == 1;
        }
        let cur = eval(c, &st.model) == 1;
        let other = if cur { not(c) } else { c };
        if let Some(m) = self.feasible(st, other) {
            let mut o = st.clone();
            o.model = m;
            o.forks += 1;
            st.forks += 1;
            self.st.forks += 1;
            self.constrain(&mut o, other);
            o.eqs.insert(c, !cur as u128);
            self.work.push_back(o);
            let me = if cur { c } else { not(c) };
            self.constrain(st, me);
        }
        st.eqs.insert(c, cur as u128);
        cur
    }
    /// make a value concrete; other feasible values are explored by re-executing the instruction
    fn concretize(&mut self, st: &mut State, v: &V, w: u32) -> u64 {
        match v {
            V::C(x) => *x,
            V::E(e) => {
                let e = self.simp(st, *e);
                if let Some(c) = as_const(e) {
                    return c as u64;
                }
                let val = eval(e, &st.model);
                let eq = bin(Op::Eq, e, cst(val, w));
                if as_const(eq).is_none() {
                    self.st.concretized += 1;
                    let ne = not(eq);
                    if let Some(m) = self.feasible(st, ne) {
                        let mut o = st.clone();
                        o.model = m;
                        o.forks += 1;
                        st.forks += 1;
                        self.st.forks += 1;
                        self.constrain(&mut o, ne);
                        self.work.push_back(o);
                    }
                    self.constrain(st, eq);
                    st.eqs.insert(e, val);
                }
                val as u64
            }
            V::A(_) => give_up("concretize of aggregate"),
        }
    }

    fn report(&mut self, st: &State, kind: String, model: &[u128]) -> Report {
        let inputs = st.inputs.iter().map(|(_, e)| eval(*e, model)).collect();
        let obs = st
            .obs
            .iter()
            .map(|v| match v {
                V::C(x) => *x,
                V::E(e) => eval(*e, model) as u64,
                _ => 0,
            })
            .collect();
        let stack = st.frames.iter().map(|f| self.m.funcs[f.func as usize].name.clone()).collect();
        Report { kind, inputs, obs, stack, notes: st.notes.clone() }
    }
    fn violation(&mut self, st: &State, kind: String, model: &[u128]) {
        if self.viols.len() < self.cfg.max_viol {
            let r = self.report(st, kind, model);
            self.viols.push(r);
        }
    }

    pub fn finish(&mut self, st: State, end: End) {
        self.st.insts += st.insts;
        self.st.max_path_insts = self.st.max_path_insts.max(st.insts);
        self.st.max_inputs = self.st.max_inputs.max(st.inputs.len() as u64);
        match &end {
            End::Return => {
                self.st.paths += 1;
                self.sample(&st, "return");
            }
            End::Pruned => self.st.pruned += 1,
            End::PanicAllowed => {
                self.st.paths += 1;
                self.st.panic_allowed += 1;
                self.sample(&st, "panic");
            }
            e => {
                self.st.paths += 1;
                let k = match e {
                    End::Panic => "panic".to_string(),
                    End::Fail(c) => format!("fail:{}", c),
                    End::Abort => "abort".to_string(),
                    End::Exception => "exception".to_string(),
                    End::TooLong => "too-long".to_string(),
                    End::Memory(s) => format!("memory:{}", s),
                    _ => unreachable!(),
                };
                let m = st.model.clone();
                self.violation(&st, k, &m);
            }
        }
    }
    fn sample(&mut self, st: &State, kind: &str) {
        self.nsample += 1;
        let cap = self.cfg.sample_cap;
        if self.samples.len() < cap {
            let r = self.report(st, kind.to_string(), &st.model.clone());
            self.samples.push(r);
        } else if cap > 0 {
            let h = self.nsample.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
            let i = h % self.nsample;
            if (i as usize) < cap {
                let r = self.report(st, kind.to_string(), &st.model.clone());
                self.samples[i as usize] = r;
            }
        }
    }

    /// run one state until it ends (true) or, if `until_fork`, until it forks
    /// Until the path ends, if there is no budget; otherwise until it forks or has used the budget up.
    pub fn run(&mut self, mut st: State, budget: u64) -> Option<State> {
        let w0 = self.work.len();
        let stop = st.insts.saturating_add(budget);
        loop {
            let go = self.step(&mut st);
            st.insts += 1;
            match go {
                Go::Next => {
                    st.frames.last_mut().unwrap().ip += 1;
                }
                Go::Stay => {}
                Go::Done(e) => {
                    self.finish(st, e);
                    return None;
                }
            }
            if st.insts & 0xfff == 0 {
                if st.insts > self.cfg.max_insts {
                    self.finish(st, End::TooLong);
                    return None;
                }
                if std::time::Instant::now() > self.cfg.deadline {
                    self.st.incomplete += 1;
                    self.st.insts += st.insts;
                    return None;
                }
            }
            if budget != u64::MAX && (self.work.len() > w0 || st.insts >= stop) {
                return Some(st);
            }
        }
    }

    #[inline(always)]
    fn get(&self, st: &State, o: &O) -> V {
        match o {
            O::R(r) => unsafe {
                let f = st.frames.last().unwrap_unchecked();
                f.regs.get_unchecked(*r as usize).clone()
            },
            O::K(v) => v.clone(),
        }
    }
    #[inline(always)]
    fn set(&self, st: &mut State, r: R, v: V) {
        if r != NOREG {
            unsafe {
                let f = st.frames.last_mut().unwrap_unchecked();
                *f.regs.get_unchecked_mut(r as usize) = v;
            }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = st.frames.last_mut().unwrap();
        let from = f.blk;
        let body = unsafe { &*f.body };
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (r, inc, _) = &b.phis[0];
                let o = inc.iter().find(|x| x.0 == from).expect("phi edge");
                let v = match &o.1 {
                    O::R(x) => f.regs[*x as usize].clone(),
                    O::K(v) => v.clone(),
                };
                f.regs[*r as usize] = v;
            } else {
                let mut tmp: Vec<(R, V)> = Vec::with_capacity(b.phis.len());
                for (r, inc, _) in &b.phis {
                    let o = inc.iter().find(|x| x.0 == from).expect("phi edge");
                    let v = match &o.1 {
                        O::R(x) => f.regs[*x as usize].clone(),
                        O::K(v) => v.clone(),
                    };
                    tmp.push((*r, v));
                }
                for (r, v) in tmp {
                    f.regs[r as usize] = v;
                }
            }
        }
        f.blk = to;
        f.ip = 0;
    }

    pub fn vbin(&self, op: Op, w: u32, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1 << w) - 1 };
                let r = match op {
                    Op::Add => x.wrapping_add(*y) & m,
                    Op::Sub => x.wrapping_sub(*y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Mul => x.wrapping_mul(*y) & m,
                    Op::Eq => (x == y) as u64,
                    Op::Ult => (x < y) as u64,
                    Op::Ule => (x <= y) as u64,
                    Op::LShr if *y < w as u64 => x >> y,
                    Op::Shl if *y < w as u64 => (x << y) & m,
                    _ => fold(op, w, *x as u128, *y as u128) as u64,
                };
                return V::C(r);
            }
        }
        V::of(bin(op, a.e(w), b.e(w)))
    }
    pub fn vcmp(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        match p {
            Pred::Eq => self.vbin(Op::Eq, w, a, b),
            Pred::Ne => match self.vbin(Op::Eq, w, a, b) {
                V::C(x) => V::C(x ^ 1),
                V::E(e) => V::of(not(e)),
                v => v,
            },
            Pred::Ult => self.vbin(Op::Ult, w, a, b),
            Pred::Ule => self.vbin(Op::Ule, w, a, b),
            Pred::Ugt => self.vbin(Op::Ult, w, b, a),
            Pred::Uge => self.vbin(Op::Ule, w, b, a),
            Pred::Slt => self.vbin(Op::Slt, w, a, b),
            Pred::Sle => self.vbin(Op::Sle, w, a, b),
            Pred::Sgt => self.vbin(Op::Slt, w, b, a),
            Pred::Sge => self.vbin(Op::Sle, w, b, a),
        }
    }
    fn ite_v(&self, c: E, a: &V, b: &V, ty: TyId) -> V {
        match (a, b) {
            (V::A(x), V::A(y)) => {
                let els: Vec<TyId> = match &self.m.tys[ty as usize] {
                    Ty::Struct(e, _) => e.clone(),
                    Ty::Arr(n, e) | Ty::Vect(n, e) => vec![*e; *n as usize],
                    _ => give_up("select of aggregate"),
                };
                V::A(Rc::new((0..x.len()).map(|i| self.ite_v(c, &x[i], &y[i], els[i])).collect()))
            }
            _ => {
                let w = w_of(&self.m, ty);
                V::of(ite(c, a.e(w), b.e(w)))
            }
        }
    }

    /// resolve a pointer operand for a load: either one address, or a set of guarded addresses
    fn ptr(&mut self, st: &mut State, v: &V) -> u64 {
        match v {
            V::C(x) => *x,
            v => self.concretize(st, v, 64),
        }
    }

    fn load_sym(&mut self, st: &mut State, e: E, ty: TyId) -> Option<Result<V, End>> {
        // try an if-then-else over the possible addresses
        let scalar = matches!(self.m.tys[ty as usize], Ty::Int(_) | Ty::Ptr | Ty::Flt(_));
        if !scalar {
            return None;
        }
        let e = self.simp(st, e);
        if let Some(c) = as_const(e) {
            return Some(self.load(st, c as u64, ty));
        }
        let mut lv = vec![];
        if !leaves(e, &mut lv, 64) {
            lv.clear();
            // enumerate feasible addresses with the solver, up to a limit
            let mut block = cst(1, 1);
            loop {
                let m = match self.feasible(st, block) {
                    Some(m) => m,
                    None => break,
                };
                let v = eval(e, &m);
                lv.push(v);
                if lv.len() > 48 {
                    return None;
                }
                block = bin(Op::And, block, not(bin(Op::Eq, e, cst(v, 64))));
            }
        } else {
            // keep only leaves feasible here
            let mut keep = vec![];
            for v in lv {
                let q = bin(Op::Eq, e, cst(v, 64));
                if self.feasible(st, q).is_some() {
                    keep.push(v);
                }
            }
            lv = keep;
        }
        let w = w_of(&self.m, ty);
        let mut r: Option<E> = None;
        for v in lv {
            let x = match self.load(st, v as u64, ty) {
                Ok(x) => x.e(w),
                Err(_) => return None, // fall back to forking so the bad address is isolated
            };
            r = Some(match r {
                None => x,
                Some(p) => ite(bin(Op::Eq, e, cst(v, 64)), x, p),
            });
        }
        r.map(|e| Ok(V::of(e)))
    }

    fn step(&mut self, st: &mut State) -> Go {
        let ins: &I = unsafe {
            let f = st.frames.last().unwrap_unchecked();
            let b = &*f.body;
            b.blocks.get_unchecked(f.blk as usize).ins.get_unchecked(f.ip as usize)
        };
        match ins {
            I::Bin(op, w, lanes, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                if *lanes == 0 {
                    if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                        if let V::C(0) = y {
                            return Go::Done(End::Memory("division by zero".into()));
                        }
                        if let V::E(e) = y {
                            let z = bin(Op::Eq, e, cst(0, *w));
                            if self.decide(st, z) {
                                return Go::Done(End::Memory("division by zero".into()));
                            }
                        }
                    }
                    let r = self.vbin(*op, *w, &x, &y);
                    self.set(st, *d, r);
                } else if let (V::A(x), V::A(y)) = (&x, &y) {
                    let r = (0..x.len()).map(|i| self.vbin(*op, *w, &x[i], &y[i])).collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                } else {
                    give_up("vector operand");
                }
                Go::Next
            }
            I::Cmp(p, w, lanes, a, b, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                if *lanes == 0 {
                    let r = self.vcmp(*p, *w, &x, &y);
                    self.set(st, *d, r);
                } else if let (V::A(x), V::A(y)) = (&x, &y) {
                    let r = (0..x.len()).map(|i| self.vcmp(*p, *w, &x[i], &y[i])).collect();
                    self.set(st, *d, V::A(Rc::new(r)));
                } else {
                    give_up("vector operand");
                }
                Go::Next
            }
            I::Cast(op, ft, tt, a, d) => {
                let x = self.get(st, a);
                let r = self.cast(*op, *ft, *tt, &x);
                self.set(st, *d, r);
                Go::Next
            }
            I::Load(ty, p, d) => {
                let pv = self.get(st, p);
                let r = match pv {
                    V::C(x) => tryg!(self.load(st, x, *ty)),
                    V::E(e) => match self.load_sym(st, e, *ty) {
                        Some(r) => tryg!(r),
                        None => {
                            let a = self.ptr(st, &V::E(e));
                            tryg!(self.load(st, a, *ty))
                        }
                    },
                    _ => give_up("load through aggregate"),
                };
                self.set(st, *d, r);
                Go::Next
            }
            I::Store(ty, v, p) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv);
                let x = self.get(st, v);
                tryg!(self.store(st, a, &x, *ty));
                Go::Next
            }
            I::Alloca(sz, n, d) => {
                let k = self.get(st, n);
                let k = self.concretize(st, &k, 64);
                let a = st.mem.alloc(sz * k);
                st.frames.last_mut().unwrap().allocas.push(a);
                self.set(st, *d, V::C(a));
                Go::Next
            }
            I::Gep(base, off, terms, d) => {
                let b = self.get(st, base);
                let mut acc = match b {
                    V::C(x) => V::C(x.wrapping_add(*off as u64)),
                    V::E(e) => V::of(bin(Op::Add, e, cst(*off as u64 as u128, 64))),
                    _ => give_up("gep base"),
                };
                for (t, w, stride) in terms {
                    let i = self.get(st, t);
                    acc = match (&acc, &i) {
                        (V::C(x), V::C(i)) => {
                            let iv = if *w == 64 { *i as i64 } else { sx(*i as u128, *w) as i64 };
                            V::C(x.wrapping_add(iv.wrapping_mul(*stride) as u64))
                        }
                        (x, i) => {
                            let ie = sext(i.e(*w), 64);
                            let p = bin(Op::Mul, ie, cst(*stride as u64 as u128, 64));
                            V::of(bin(Op::Add, p, x.e(64)))
                        }
                    };
                }
                self.set(st, *d, acc);
                Go::Next
            }
            I::Select(c, a, b, ty, vec, d) => {
                let cv = self.get(st, c);
                let x = self.get(st, a);
                let y = self.get(st, b);
                let r = if *vec {
                    match (&cv, &x, &y) {
                        (V::A(c), V::A(x), V::A(y)) => {
                            let et = match self.m.tys[*ty as usize] {
                                Ty::Vect(_, e) => e,
                                _ => give_up("vector select"),
                            };
                            V::A(Rc::new(
                                (0..x.len())
                                    .map(|i| match &c[i] {
                                        V::C(1) => x[i].clone(),
                                        V::C(_) => y[i].clone(),
                                        V::E(e) => self.ite_v(*e, &x[i], &y[i], et),
                                        _ => give_up("vector select"),
                                    })
                                    .collect(),
                            ))
                        }
                        _ => give_up("vector select"),
                    }
                } else {
                    match cv {
                        V::C(1) => x,
                        V::C(_) => y,
                        V::E(e) if st.fork_select => {
                            if self.decide(st, e) {
                                x
                            } else {
                                y
                            }
                        }
                        V::E(e) => {
                            let e = self.simp(st, e);
                            self.ite_v(e, &x, &y, *ty)
                        }
                        _ => give_up("select condition"),
                    }
                };
                self.set(st, *d, r);
                Go::Next
            }
            I::ExtractValue(v, idx, d) => {
                let mut x = self.get(st, v);
                for i in idx {
                    x = match &x {
                        V::A(a) => a[*i as usize].clone(),
                        _ => give_up("extractvalue"),
                    };
                }
                self.set(st, *d, x);
                Go::Next
            }
            I::InsertValue(v, e, idx, ty, d) => {
                let x = self.get(st, v);
                let y = self.get(st, e);
                let x = match x {
                    V::A(_) => x,
                    _ => self.m.zero(*ty),
                };
                let r = insert(x, y, idx);
                self.set(st, *d, r);
                Go::Next
            }
            I::ExtractElement(v, i, d) => {
                let x = self.get(st, v);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64);
                let r = match x {
                    V::A(a) => a[i as usize].clone(),
                    _ => give_up("extractelement"),
                };
                self.set(st, *d, r);
                Go::Next
            }
            I::InsertElement(v, e, i, _ty, d) => {
                let x = self.get(st, v);
                let e = self.get(st, e);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64);
                let r = insert(x, e, &[i as u32]);
                self.set(st, *d, r);
                Go::Next
            }
            I::Shuffle(a, b, mask, n, d) => {
                let x = self.get(st, a);
                let y = self.get(st, b);
                let r = match (&x, &y) {
                    (V::A(x), V::A(y)) => mask
                        .iter()
                        .map(|k| {
                            if *k < 0 {
                                V::C(0)
                            } else if (*k as u32) < *n {
                                x[*k as usize].clone()
                            } else {
                                y[*k as usize - *n as usize].clone()
                            }
                        })
                        .collect(),
                    _ => give_up("shufflevector"),
                };
                self.set(st, *d, V::A(Rc::new(r)));
                Go::Next
            }
            I::Br(l) => {
                self.jump(st, *l);
                Go::Stay
            }
            I::CondBr(c, t, f) => {
                let cv = self.get(st, c);
                let take = match cv {
                    V::C(x) => x == 1,
                    V::E(e) => self.decide(st, e),
                    _ => give_up("branch condition"),
                };
                self.jump(st, if take { *t } else { *f });
                Go::Stay
            }
            I::Switch(w, v, dft, cases) => {
                let x = self.get(st, v);
                let to = match x {
                    V::C(x) => cases.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*dft),
                    V::E(e) => {
                        let e = self.simp(st, e);
                        if let Some(c) = as_const(e) {
                            cases.iter().find(|k| k.0 == c as u64).map(|k| k.1).unwrap_or(*dft)
                        } else {
                            // one outcome per distinct target
                            let mut groups: Vec<(u32, E)> = vec![];
                            let mut none = cst(1, 1);
                            for (k, t) in cases {
                                let q = bin(Op::Eq, e, cst(*k as u128, *w));
                                none = bin(Op::And, none, not(q));
                                match groups.iter_mut().find(|g| g.0 == *t) {
                                    Some(g) => g.1 = bin(Op::Or, g.1, q),
                                    None => groups.push((*t, q)),
                                }
                            }
                            match groups.iter_mut().find(|g| g.0 == *dft) {
                                Some(g) => g.1 = bin(Op::Or, g.1, none),
                                None => groups.push((*dft, none)),
                            }
                            let mut mine = None;
                            let mut todo = vec![];
                            for (t, q) in groups {
                                let q = self.simp(st, q);
                                if as_const(q) == Some(0) {
                                    continue;
                                }
                                if mine.is_none() && eval(q, &st.model) == 1 {
                                    mine = Some((t, q));
                                } else {
                                    todo.push((t, q));
                                }
                            }
                            let (mt, mq) = mine.expect("switch side");
                            for (t, q) in todo {
                                if let Some(m) = self.feasible(st, q) {
                                    let mut o = st.clone();
                                    o.model = m;
                                    o.forks += 1;
                                    self.st.forks += 1;
                                    self.constrain(&mut o, q);
                                    self.jump(&mut o, t);
                                    self.work.push_back(o);
                                }
                            }
                            self.constrain(st, mq);
                            mt
                        }
                    }
                    _ => give_up("switch"),
                };
                self.jump(st, to);
                Go::Stay
            }
            I::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(st, o));
                let f = st.frames.pop().unwrap();
                for a in &f.allocas {
                    st.mem.release(*a);
                }
                if st.frames.is_empty() {
                    return Go::Done(End::Return);
                }
                if let Some(v) = r {
                    self.set(st, f.ret_reg, v);
                }
                if f.normal != u32::MAX {
                    self.jump(st, f.normal);
                    Go::Stay
                } else {
                    Go::Next
                }
            }
            I::Unreachable => Go::Done(End::Memory("unreachable executed".into())),
            I::Call { callee, args, byval, d, ret, normal, aw } => self.call(st, callee, args, byval, *d, *ret, *normal, aw),
            I::Rmw(op, p, v, ty, d) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv);
                let x = self.get(st, v);
                let old = tryg!(self.load(st, a, *ty));
                let w = w_of(&self.m, *ty);
                let new = match op {
                    0 => x,
                    1 => self.vbin(Op::Add, w, &old, &x),
                    2 => self.vbin(Op::Sub, w, &old, &x),
                    3 => self.vbin(Op::And, w, &old, &x),
                    4 => self.vbin(Op::Or, w, &old, &x),
                    5 => self.vbin(Op::Xor, w, &old, &x),
                    6 | 7 => {
                        let c = self.vbin(Op::Ult, w, &old, &x);
                        let (a, b) = if *op == 6 { (&x, &old) } else { (&old, &x) };
                        V::of(ite(c.e(1), a.e(w), b.e(w)))
                    }
                    _ => give_up("atomicrmw"),
                };
                tryg!(self.store(st, a, &new, *ty));
                self.set(st, *d, old);
                Go::Next
            }
            I::CmpXchg(p, x, n, ty, d) => {
                let pv = self.get(st, p);
                let a = self.ptr(st, &pv);
                let x = self.get(st, x);
                let n = self.get(st, n);
                let old = tryg!(self.load(st, a, *ty));
                let w = w_of(&self.m, *ty);
                let eq = self.vbin(Op::Eq, w, &old, &x);
                let eq = self.concretize(st, &eq, 1);
                if eq == 1 {
                    tryg!(self.store(st, a, &n, *ty));
                }
                self.set(st, *d, V::A(Rc::new(vec![old, V::C(eq)])));
                Go::Next
            }
            I::Fence => Go::Next,
            I::Freeze(v, d) => {
                let x = self.get(st, v);
                self.set(st, *d, x);
                Go::Next
            }
            I::Unsup(s) => {
                let f = st.frames.last().unwrap();
                give_up(&format!("unsupported instruction in {}: {}", self.m.funcs[f.func as usize].name, s))
            }
        }
    }

    fn cast(&mut self, op: CastOp, ft: TyId, tt: TyId, x: &V) -> V {
        if let V::A(a) = x {
            if let (Ty::Vect(n, fe), Ty::Vect(m, te)) = (self.m.tys[ft as usize].clone(), self.m.tys[tt as usize].clone()) {
                if n == m && op != CastOp::Bitcast {
                    let r = a.iter().map(|v| self.cast(op, fe, te, v)).collect();
                    return V::A(Rc::new(r));
                }
            }
        }
        match op {
            CastOp::ZExt | CastOp::SExt | CastOp::Trunc | CastOp::PtrToInt | CastOp::IntToPtr => {
                let fw = w_of(&self.m, ft);
                let tw = w_of(&self.m, tt);
                match x {
                    V::C(c) if tw <= 64 => {
                        if op == CastOp::SExt {
                            let v = sx(*c as u128, fw) as u64;
                            return V::C(if tw == 64 { v } else { v & ((1 << tw) - 1) });
                        }
                        V::C(if tw == 64 { *c } else { *c & ((1 << tw) - 1) })
                    }
                    v => {
                        let e = v.e(fw);
                        let r = if tw < fw {
                            extract(e, 0, tw)
                        } else if op == CastOp::SExt {
                            sext(e, tw)
                        } else {
                            zext(e, tw)
                        };
                        V::of(r)
                    }
                }
            }
            CastOp::Bitcast => {
                // flatten to one wide value, then cut
                let (fl, tl) = (self.m.tys[ft as usize].clone(), self.m.tys[tt as usize].clone());
                let flat: V = match (&fl, x) {
                    (Ty::Vect(n, e), V::A(a)) => {
                        let w = w_of(&self.m, *e);
                        let total = w * *n as u32;
                        if total <= 64 && a.iter().all(|v| v.is_c()) {
                            let mut r = 0u64;
                            for (i, v) in a.iter().enumerate() {
                                r |= v.c() << (i as u32 * w);
                            }
                            V::C(r)
                        } else {
                            let mut e = a[0].e(w);
                            for v in &a[1..] {
                                e = concat(v.e(w), e);
                            }
                            V::of(e)
                        }
                    }
                    (_, v) => v.clone(),
                };
                match tl {
                    Ty::Vect(n, e) => {
                        let w = w_of(&self.m, e);
                        let total = w * n as u32;
                        let fe = flat.e(total);
                        V::A(Rc::new((0..n as u32).map(|i| V::of(extract(fe, i * w, w))).collect()))
                    }
                    _ => flat,
                }
            }
        }
    }

    fn call(
        &mut self,
        st: &mut State,
        callee: &Callee,
        args: &[O],
        byval: &[(u32, u64)],
        d: R,
        ret: TyId,
        normal: u32,
        aw: &[u32],
    ) -> Go {
        let f = match callee {
            Callee::Fn(f) => *f,
            Callee::Asm => {
                if d != NOREG {
                    let z = self.m.zero(ret);
                    self.set(st, d, z);
                }
                return Go::Next;
            }
            Callee::Ptr(o) => {
                let v = self.get(st, o);
                let a = self.ptr(st, &v);
                let id = (a >> 32) as u32;
                if a & 0xffff_ffff != 0 || id < self.m.fbase || id - self.m.fbase >= self.m.funcs.len() as u32 {
                    return Go::Done(End::Memory(format!("call of non-function address {:#x}", a)));
                }
                id - self.m.fbase
            }
        };
        let mut f = f;
        let mut args = args;
        let mut catch = false;
        let mut b = B::from(self.m.funcs[f as usize].builtin);
        if b == B::SymTry {
            // __sym_try(f, x): f(x) with a handler around it
            let v = self.get(st, &args[0]);
            let a = self.ptr(st, &v);
            let id = (a >> 32) as u32;
            if a & 0xffff_ffff != 0 || id < self.m.fbase || id - self.m.fbase >= self.m.funcs.len() as u32 {
                return Go::Done(End::Memory(format!("call of non-function address {:#x}", a)));
            }
            f = id - self.m.fbase;
            args = &args[1..];
            catch = true;
            b = B::from(self.m.funcs[f as usize].builtin);
        }
        if b == B::Throw {
            return self.throw(st, args);
        }
        if b != B::None {
            let go = self.builtin(st, f, b, args, d, ret, aw);
            if let Go::Next = go {
                if normal != u32::MAX {
                    self.jump(st, normal);
                    return Go::Stay;
                }
            }
            return go;
        }
        let body = self.m.body(f);
        self.m.funcs[f as usize].calls += 1;
        let mut regs = vec![V::C(0); body.nregs as usize];
        for (i, p) in body.params.iter().enumerate() {
            if i < args.len() {
                regs[*p as usize] = self.get(st, &args[i]);
            }
        }
        let mut allocas = vec![];
        for (i, sz) in byval {
            let src = regs[body.params[*i as usize] as usize].clone();
            let src = self.ptr(st, &src);
            let a = st.mem.alloc(*sz);
            tryg!(self.copy(st, a, src, *sz));
            allocas.push(a);
            regs[body.params[*i as usize] as usize] = V::C(a);
        }
        if st.frames.len() > 4000 {
            return Go::Done(End::Memory("stack overflow (4000 frames)".into()));
        }
        st.frames.push(Frame { func: f, body: &*body, regs, blk: 0, ip: 0, ret_reg: d, normal, allocas, catch });
        Go::Stay
    }

    /// Unwinds to the innermost __sym_try, which then returns 1 for std::runtime_error and 2 for any other type.
    /// Destructors of the frames in between do not run.
    fn throw(&mut self, st: &mut State, args: &[O]) -> Go {
        if st.panic_mode == 1 {
            return Go::Done(End::PanicAllowed);
        }
        let Some(at) = st.frames.iter().rposition(|f| f.catch) else { return Go::Done(End::Exception) };
        let runtime_error = match args.get(1) {
            Some(o) => {
                let v = self.get(st, o);
                let id = (self.ptr(st, &v) >> 32) as usize;
                id >= 1 && self.m.globals.get(id - 1).map_or(false, |g| g.name == "_ZTISt13runtime_error")
            }
            None => false,
        };
        let fs: Vec<Frame> = st.frames.drain(at..).collect();
        for f in &fs {
            for a in &f.allocas {
                st.mem.release(*a);
            }
        }
        self.set(st, fs[0].ret_reg, V::C(if runtime_error { 1 } else { 2 }));
        if fs[0].normal != u32::MAX {
            self.jump(st, fs[0].normal);
            Go::Stay
        } else {
            Go::Next
        }
    }

    fn builtin(&mut self, st: &mut State, f: u32, b: B, args: &[O], d: R, ret: TyId, aw: &[u32]) -> Go {
        macro_rules! arg {
            ($i:expr) => {
                self.get(st, &args[$i])
            };
        }
        macro_rules! conc {
            ($i:expr) => {{
                let v = self.get(st, &args[$i]);
                let w = aw[$i];
                self.concretize(st, &v, w)
            }};
        }
        macro_rules! done {
            ($v:expr) => {{
                let v = $v;
                self.set(st, d, v);
                return Go::Next;
            }};
        }
        match b {
            B::Nop => Go::Next,
            B::Zero => done!(V::C(0)),
            B::One => done!(V::C(1)),
            B::MinusOne | B::ObjSize => done!(V::C(u64::MAX)),
            B::Arg0 => {
                let v = arg!(0);
                done!(v)
            }
            B::SymInt => {
                let w = w_of(&self.m, ret);
                let lo = conc!(0) & mask(w) as u64;
                let hi = conc!(1) & mask(w) as u64;
                let i = st.inputs.len() as u32;
                if lo == hi {
                    st.inputs.push((w, cst(lo as u128, w)));
                    st.model.push(lo as u128);
                    done!(V::C(lo));
                }
                // no wider a variable than the range needs
                let vw = (64 - hi.leading_zeros()).max(1);
                let e0 = var(i, vw.min(w));
                let e = zext(e0, w);
                st.inputs.push((w, e));
                st.model.resize(i as usize + 1, 0);
                st.model[i as usize] = lo as u128;
                if lo > 0 {
                    let c = bin(Op::Ule, cst(lo as u128, w), e);
                    self.constrain(st, c);
                }
                if (hi as u128) < mask(vw.min(w)) {
                    let c = bin(Op::Ule, e, cst(hi as u128, w));
                    self.constrain(st, c);
                }
                done!(V::E(e))
            }
            B::SymAssume => {
                let v = arg!(0);
                let e = self.simp(st, v.e(aw[0]));
                let e = extract(e, 0, 1);
                match self.feasible(st, e) {
                    None => Go::Done(End::Pruned),
                    Some(m) => {
                        st.model = m;
                        self.constrain(st, e);
                        Go::Next
                    }
                }
            }
            B::SymCheck => {
                let v = arg!(0);
                let code = conc!(1);
                let e = self.simp(st, v.e(aw[0]));
                let e = extract(e, 0, 1);
                self.st.obligations += 1;
                match self.query(st, not(e), true) {
                    Some(m) => {
                        self.violation(st, format!("fail:{}", code), &m);
                        match self.feasible(st, e) {
                            None => Go::Done(End::Pruned),
                            Some(m) => {
                                st.model = m;
                                self.constrain(st, e);
                                Go::Next
                            }
                        }
                    }
                    None => {
                        self.st.discharged += 1;
                        Go::Next
                    }
                }
            }
            B::SymFail => {
                let c = conc!(0);
                Go::Done(End::Fail(c))
            }
            B::SymObserve => {
                let v = arg!(0);
                let v = match v {
                    V::E(e) => V::of(zext(e, 64)),
                    v => v,
                };
                st.obs.push(v);
                Go::Next
            }
            B::SymPanicMode => {
                st.panic_mode = conc!(0);
                Go::Next
            }
            B::SymForkSelect => {
                st.fork_select = conc!(0) != 0;
                Go::Next
            }
            B::SymReach => {
                let c = conc!(0);
                *self.st.reach.entry(c).or_insert(0) += 1;
                Go::Next
            }
            B::SymConc => {
                let v = arg!(0);
                let x = self.concretize(st, &v, aw[0]);
                done!(V::C(x))
            }
            B::SymIsSym => {
                let v = arg!(0);
                let x = match v {
                    V::E(e) => as_const(self.simp(st, e)).is_none() as u64,
                    _ => 0,
                };
                done!(V::C(x))
            }
            B::SymReplay => done!(V::C(0)),
            B::SymNote => {
                let p = conc!(0);
                let n = conc!(1);
                let bs = tryg!(self.bytes(st, p, n));
                let s: Vec<u8> = bs.iter().map(|e| eval(*e, &st.model) as u8).collect();
                let s = String::from_utf8_lossy(&s).into_owned();
                if self.cfg.verbose {
                    eprintln!("note: {}", s);
                }
                if st.notes.len() < 40 {
                    st.notes.push(s);
                }
                Go::Next
            }
            B::Panic if std::env::var("SYMX_PANIC").is_ok() => {
                eprintln!("PANIC {}", self.m.funcs[f as usize].name);
                for fr in st.frames.iter() { eprintln!("  {} bb{:?}", self.m.funcs[fr.func as usize].name, (fr.blk, fr.ip)); }
                Go::Done(End::Panic)
            }
            B::Panic => Go::Done(if st.panic_mode == 1 { End::PanicAllowed } else { End::Panic }),
            B::Abort | B::Trap | B::Exit => Go::Done(End::Abort),
            B::Exception => Go::Done(if st.panic_mode == 1 { End::PanicAllowed } else { End::Exception }),
            B::Malloc | B::RAlloc => {
                let n = conc!(0);
                let a = st.mem.alloc(n);
                done!(V::C(a))
            }
            B::RAllocZ => {
                let n = conc!(0);
                let a = st.mem.alloc(n);
                done!(V::C(a))
            }
            B::Calloc => {
                let n = conc!(0);
                let k = conc!(1);
                let a = st.mem.alloc(n * k);
                done!(V::C(a))
            }
            B::Free | B::RDealloc => {
                let p = conc!(0);
                if p != 0 && !st.mem.release(p) {
                    return Go::Done(End::Memory(format!("free of {:#x}", p)));
                }
                Go::Next
            }
            B::Realloc | B::RRealloc => {
                let p = conc!(0);
                let n = if b == B::Realloc { conc!(1) } else { conc!(3) };
                let a = st.mem.alloc(n);
                if p != 0 {
                    let old = match self.obj(st, (p >> 32) as u32) {
                        Some(o) => o.data.len() as u64,
                        None => return Go::Done(End::Memory(format!("realloc of {:#x}", p))),
                    };
                    tryg!(self.copy(st, a, p, old.min(n)));
                    st.mem.release(p);
                }
                done!(V::C(a))
            }
            B::PosixMemalign => {
                let pp = conc!(0);
                let n = conc!(2);
                let a = st.mem.alloc(n);
                let pt = self.m.ty(Ty::Ptr);
                tryg!(self.store(st, pp, &V::C(a), pt));
                done!(V::C(0))
            }
            B::AlignedAlloc => {
                let i = if self.m.funcs[f as usize].name == "aligned_alloc" { 1 } else { 0 };
                let n = conc!(i);
                let a = st.mem.alloc(n);
                done!(V::C(a))
            }
            B::Memcmp => {
                let p = conc!(0);
                let q = conc!(1);
                let n = conc!(2);
                let x = tryg!(self.bytes(st, p, n));
                let y = tryg!(self.bytes(st, q, n));
                let mut r = cst(0, 32);
                for i in (0..x.len()).rev() {
                    let eq = bin(Op::Eq, x[i], y[i]);
                    let lt = bin(Op::Ult, x[i], y[i]);
                    let dif = ite(lt, cst(u128::MAX, 32), cst(1, 32));
                    r = ite(eq, r, dif);
                }
                done!(V::of(r))
            }
            B::SymBytesEq => {
                let p = conc!(0);
                let q = conc!(1);
                let n = conc!(2);
                let x = tryg!(self.bytes(st, p, n));
                let y = tryg!(self.bytes(st, q, n));
                let mut r = cst(1, 1);
                for i in 0..x.len() {
                    r = bin(Op::And, r, bin(Op::Eq, x[i], y[i]));
                }
                let w = w_of(&self.m, ret);
                done!(V::of(zext(r, w)))
            }
            B::Strlen => {
                let p = conc!(0);
                let off = (p & 0xffff_ffff) as usize;
                let len = match self.obj(st, (p >> 32) as u32) {
                    Some(o) => o.data.len(),
                    None => return Go::Done(End::Memory("strlen".into())),
                };
                let bs = tryg!(self.bytes(st, p, (len - off) as u64));
                for (i, e) in bs.iter().enumerate() {
                    let z = bin(Op::Eq, *e, cst(0, 8));
                    if self.decide(st, z) {
                        done!(V::C(i as u64));
                    }
                }
                Go::Done(End::Memory("strlen runs off the object".into()))
            }
            B::Memchr | B::Memrchr => {
                let p = conc!(0);
                let c = arg!(1);
                let n = conc!(2);
                let ce = extract(c.e(aw[1]), 0, 8);
                let bs = tryg!(self.bytes(st, p, n));
                let mut r = cst(0, 64);
                let idx: Vec<usize> = if b == B::Memchr { (0..bs.len()).rev().collect() } else { (0..bs.len()).collect() };
                for i in idx {
                    let eq = bin(Op::Eq, bs[i], ce);
                    r = ite(eq, cst((p + i as u64) as u128, 64), r);
                }
                done!(V::of(r))
            }
            B::Write => {
                if self.m.funcs[f as usize].name == "write" {
                    let fd = (conc!(0) as u32 as usize).wrapping_sub(100);
                    if let Some(Some((k, _))) = st.fds.get(fd).cloned() {
                        let p = conc!(1);
                        let n = conc!(2);
                        let bs = tryg!(self.bytes(st, p, n));
                        Rc::make_mut(&mut st.files[k].1).extend(bs);
                        done!(V::C(n))
                    }
                }
                let i = 2;
                let v = arg!(i);
                done!(v)
            }
            B::FOpen => {
                let p = conc!(0);
                let flags = conc!(1);
                let off = (p & 0xffff_ffff) as usize;
                let len = match self.obj(st, (p >> 32) as u32) {
                    Some(o) => o.data.len(),
                    None => return Go::Done(End::Memory("open".into())),
                };
                let mut name = vec![];
                for e in tryg!(self.bytes(st, p, (len - off) as u64)) {
                    let c = self.concretize(st, &V::of(e), 8);
                    if c == 0 {
                        break;
                    }
                    name.push(c as u8);
                }
                let mut k = st.files.iter().position(|(n, _)| **n == name);
                if k.is_none() && flags & 0o100 != 0 {
                    st.files.push((Rc::new(name), Rc::new(vec![])));
                    k = Some(st.files.len() - 1);
                }
                match k {
                    Some(k) => {
                        if flags & 0o1000 != 0 {
                            st.files[k].1 = Rc::new(vec![]);
                        }
                        st.fds.push(Some((k, 0)));
                        let fd = 99 + st.fds.len() as u64;
                        done!(V::C(fd))
                    }
                    None => {
                        let (a, t) = (st.errno, self.m.ty(Ty::Int(32)));
                        tryg!(self.store(st, a, &V::C(2), t));
                        done!(V::C(0xffff_ffff))
                    }
                }
            }
            B::FRead => {
                let fd = (conc!(0) as u32 as usize).wrapping_sub(100);
                let p = conc!(1);
                let n = conc!(2) as usize;
                match st.fds.get(fd).cloned() {
                    Some(Some((k, at))) => {
                        let file = st.files[k].1.clone();
                        let n = n.min(file.len() - at);
                        let t = self.m.ty(Ty::Int(8));
                        for i in 0..n {
                            tryg!(self.store(st, p + i as u64, &V::of(file[at + i]), t));
                        }
                        st.fds[fd] = Some((k, at + n));
                        done!(V::C(n as u64))
                    }
                    _ => give_up("read of something that is no file"),
                }
            }
            B::FClose => {
                let fd = (conc!(0) as u32 as usize).wrapping_sub(100);
                if let Some(x) = st.fds.get_mut(fd) {
                    *x = None;
                }
                done!(V::C(0))
            }
            // the text of an error: the same for all of them
            B::StrError => {
                let p = conc!(1);
                let n = conc!(2) as usize;
                let t = self.m.ty(Ty::Int(8));
                for (i, b) in b"some error\0".iter().enumerate().take(n) {
                    tryg!(self.store(st, p + i as u64, &V::C(*b as u64), t));
                }
                done!(V::C(0))
            }
            // no answer: "function not implemented"
            B::FNone => {
                let (a, t) = (st.errno, self.m.ty(Ty::Int(32)));
                tryg!(self.store(st, a, &V::C(38), t));
                let w = w_of(&self.m, ret);
                done!(V::C(if w >= 64 { u64::MAX } else { (1 << w) - 1 }))
            }
            B::Writev => {
                let p = conc!(1);
                let n = conc!(2);
                let it = self.m.ty(Ty::Int(64));
                let mut tot = 0;
                for k in 0..n {
                    tot += tryg!(self.load(st, p + 16 * k + 8, it)).c();
                }
                done!(V::C(tot))
            }
            B::GetRandom => {
                let p = conc!(0);
                let n = conc!(1);
                let t = self.m.ty(Ty::Int(8));
                for i in 0..n {
                    st.seed = st.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let x = st.seed >> 56;
                    tryg!(self.store(st, p + i, &V::C(x), t));
                }
                done!(V::C(n))
            }
            B::RandKeys => {
                let v = V::A(Rc::new(vec![V::C(0x0123456789abcdef), V::C(0xfedcba9876543210)]));
                done!(v)
            }
            B::Syscall => {
                let n = conc!(0);
                if n == 318 {
                    let p = conc!(1);
                    let n = conc!(2);
                    let t = self.m.ty(Ty::Int(8));
                    for i in 0..n {
                        st.seed = st.seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let x = st.seed >> 56;
                        tryg!(self.store(st, p + i, &V::C(x), t));
                    }
                    done!(V::C(n))
                }
                give_up(&format!("syscall {}", n))
            }
            B::Errno => {
                let e = st.errno;
                done!(V::C(e))
            }
            B::Memcpy | B::Memmove | B::IMemcpy => {
                let n = conc!(2);
                let p = conc!(0);
                let q = conc!(1);
                tryg!(self.copy(st, p, q, n));
                if b != B::IMemcpy {
                    done!(V::C(p))
                }
                Go::Next
            }
            B::Memset | B::IMemset => {
                let p = conc!(0);
                let n = conc!(2) as usize;
                let v = arg!(1);
                let e = extract(v.e(aw[1]), 0, 8);
                if n > 0 {
                    let off = (p & 0xffff_ffff) as usize;
                    match self.obj_mut(st, (p >> 32) as u32) {
                        Some(o) if off + n <= o.data.len() => {
                            if let Some(c) = as_const(e) {
                                o.data[off..off + n].fill(c as u8);
                                if !o.sym.is_empty() {
                                    o.sym[off..off + n].fill(0);
                                }
                            } else {
                                for i in 0..n {
                                    o.set_byte(off + i, e);
                                }
                            }
                        }
                        _ => return Go::Done(End::Memory(format!("memset of {} bytes at {:#x}", n, p))),
                    }
                }
                if b == B::Memset {
                    done!(V::C(p))
                }
                Go::Next
            }
            B::Unsupported => {
                let nm = self.m.funcs[f as usize].name.clone();
                let stack: Vec<String> = st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.func as usize].name.clone()).collect();
                give_up(&format!("call of unmodelled function {} from {:?}", nm, stack))
            }
            _ => {
                // pure intrinsics, lane-wise on vectors
                let vals: Vec<V> = (0..args.len()).map(|i| self.get(st, &args[i])).collect();
                let r = if let (V::A(_), Ty::Vect(n, et)) = (&vals[0], self.m.tys[ret as usize].clone()) {
                    let mut out = vec![];
                    for i in 0..n as usize {
                        let lane: Vec<V> = vals
                            .iter()
                            .map(|v| match v {
                                V::A(a) => a[i].clone(),
                                v => v.clone(),
                            })
                            .collect();
                        out.push(self.pure(b, &lane, w_of(&self.m, et)));
                    }
                    V::A(Rc::new(out))
                } else if matches!(b, B::ReduceOr | B::ReduceAnd | B::ReduceAdd | B::ReduceXor | B::ReduceUmax | B::ReduceUmin) {
                    let w = w_of(&self.m, ret);
                    let a = match &vals[0] {
                        V::A(a) => a.clone(),
                        _ => give_up("reduce"),
                    };
                    let mut acc = a[0].clone();
                    for x in &a[1..] {
                        acc = match b {
                            B::ReduceOr => self.vbin(Op::Or, w, &acc, x),
                            B::ReduceAnd => self.vbin(Op::And, w, &acc, x),
                            B::ReduceAdd => self.vbin(Op::Add, w, &acc, x),
                            B::ReduceXor => self.vbin(Op::Xor, w, &acc, x),
                            B::ReduceUmax => self.pure(B::Umax, &[acc, x.clone()], w),
                            _ => self.pure(B::Umin, &[acc, x.clone()], w),
                        };
                    }
                    acc
                } else if b == B::Pmovmskb {
                    let a = match &vals[0] {
                        V::A(a) => a.clone(),
                        _ => give_up("pmovmskb"),
                    };
                    let mut e = cst(0, 16);
                    for (i, v) in a.iter().enumerate() {
                        let bit = extract(v.e(8), 7, 1);
                        e = bin(Op::Or, e, bin(Op::Shl, zext(bit, 16), cst(i as u128, 16)));
                    }
                    V::of(zext(e, 32))
                } else {
                    let w = if matches!(b, B::Ucmp | B::Scmp) { aw[0] } else { aw[0] };
                    let r = self.pure(b, &vals, w);
                    if matches!(b, B::Ucmp | B::Scmp) {
                        let rw = w_of(&self.m, ret);
                        // pure gives an 8-bit result
                        match r {
                            V::C(x) => V::C((sx(x as u128, 8) as u64) & mask(rw) as u64),
                            V::E(e) => V::of(if rw >= 8 { sext(e, rw) } else { extract(e, 0, rw) }),
                            v => v,
                        }
                    } else {
                        r
                    }
                };
                done!(r)
            }
        }
    }

    fn pure(&mut self, b: B, v: &[V], w: u32) -> V {
        let m = mask(w);
        if v.iter().all(|x| x.is_c()) && w <= 64 {
            let x = v[0].c() as u128;
            let y = v.get(1).map(|q| q.c() as u128).unwrap_or(0);
            let (sx_, sy) = (sx(x, w), sx(y, w));
            let smax = (m >> 1) as i128;
            let smin = -smax - 1;
            let two = |r: u128, o: bool| V::A(Rc::new(vec![V::C((r & m) as u64), V::C(o as u64)]));
            let r = match b {
                B::Cttz => {
                    if x == 0 {
                        w as u128
                    } else {
                        x.trailing_zeros() as u128
                    }
                }
                B::Ctlz => {
                    if x == 0 {
                        w as u128
                    } else {
                        (w - (128 - x.leading_zeros())) as u128
                    }
                }
                B::Ctpop => x.count_ones() as u128,
                B::Bswap => {
                    let mut r = 0;
                    for i in 0..w / 8 {
                        r = r << 8 | (x >> (8 * i)) & 0xff;
                    }
                    r
                }
                B::Bitrev => x.reverse_bits() >> (128 - w),
                B::Fshl | B::Fshr => {
                    let s = (v[2].c() as u128 % w as u128) as u32;
                    let cat = x << w | y;
                    if b == B::Fshl {
                        (cat << s) >> w
                    } else {
                        cat >> s
                    }
                }
                B::Umin => x.min(y),
                B::Umax => x.max(y),
                B::Smin => (if sx_ < sy { x } else { y }),
                B::Smax => (if sx_ > sy { x } else { y }),
                B::Abs => (sx_.unsigned_abs()) & m,
                B::UaddSat => (x + y).min(m),
                B::UsubSat => x.saturating_sub(y),
                B::SaddSat => (sx_ + sy).clamp(smin, smax) as u128,
                B::SsubSat => (sx_ - sy).clamp(smin, smax) as u128,
                B::UaddO => return two(x + y, x + y > m),
                B::UsubO => return two(x.wrapping_sub(y), y > x),
                B::UmulO => return two(x * y, x * y > m),
                B::SaddO => return two((sx_ + sy) as u128, sx_ + sy > smax || sx_ + sy < smin),
                B::SsubO => return two((sx_ - sy) as u128, sx_ - sy > smax || sx_ - sy < smin),
                B::SmulO => return two((sx_ * sy) as u128, sx_ * sy > smax || sx_ * sy < smin),
                B::Ucmp => return V::C(((x > y) as i8 - (x < y) as i8) as u8 as u64),
                B::Scmp => return V::C(((sx_ > sy) as i8 - (sx_ < sy) as i8) as u8 as u64),
                B::PtrMask => x & y,
                _ => give_up(&format!("intrinsic {:?}", b)),
            };
            return V::C((r & m) as u64);
        }
        let x = v[0].e(w);
        let y = || v[1].e(w);
        let two = |r: E, o: E| V::A(Rc::new(vec![V::of(r), V::of(o)]));
        let r = match b {
            B::Umin => ite(bin(Op::Ult, x, y()), x, y()),
            B::Umax => ite(bin(Op::Ult, y(), x), x, y()),
            B::Smin => ite(bin(Op::Slt, x, y()), x, y()),
            B::Smax => ite(bin(Op::Slt, y(), x), x, y()),
            B::Abs => ite(bin(Op::Slt, x, cst(0, w)), bin(Op::Sub, cst(0, w), x), x),
            B::UsubSat => ite(bin(Op::Ult, x, y()), cst(0, w), bin(Op::Sub, x, y())),
            B::UaddSat => {
                let s = bin(Op::Add, x, y());
                ite(bin(Op::Ult, s, x), cst(m, w), s)
            }
            B::UaddO => {
                let s = bin(Op::Add, x, y());
                return two(s, bin(Op::Ult, s, x));
            }
            B::UsubO => return two(bin(Op::Sub, x, y()), bin(Op::Ult, x, y())),
            B::UmulO => {
                let p = bin(Op::Mul, zext(x, 2 * w), zext(y(), 2 * w));
                let o = not(bin(Op::Eq, extract(p, w, w), cst(0, w)));
                return two(extract(p, 0, w), o);
            }
            B::SaddO | B::SsubO | B::SmulO => {
                let n = if b == B::SmulO { 2 * w } else { w + 1 };
                let op = match b {
                    B::SaddO => Op::Add,
                    B::SsubO => Op::Sub,
                    _ => Op::Mul,
                };
                let p = bin(op, sext(x, n), sext(y(), n));
                let r = extract(p, 0, w);
                return two(r, not(bin(Op::Eq, sext(r, n), p)));
            }
            B::Ucmp | B::Scmp => {
                let op = if b == B::Ucmp { Op::Ult } else { Op::Slt };
                ite(bin(op, x, y()), cst(0xff, 8), ite(bin(Op::Eq, x, y()), cst(0, 8), cst(1, 8)))
            }
            B::Cttz => {
                let mut r = cst(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), cst(i as u128, w), r);
                }
                r
            }
            B::Ctlz => {
                let mut r = cst(w as u128, w);
                for i in 0..w {
                    r = ite(extract(x, i, 1), cst((w - 1 - i) as u128, w), r);
                }
                r
            }
            B::Ctpop => {
                let mut r = cst(0, w);
                for i in 0..w {
                    r = bin(Op::Add, r, zext(extract(x, i, 1), w));
                }
                r
            }
            B::Bswap => {
                let mut r = extract(x, 0, 8);
                for i in 1..w / 8 {
                    r = concat(r, extract(x, 8 * i, 8));
                }
                r
            }
            B::Fshl | B::Fshr => {
                let s = match &v[2] {
                    V::C(s) => (*s % w as u64) as u32,
                    _ => give_up("symbolic funnel shift"),
                };
                if s == 0 {
                    if b == B::Fshl {
                        x
                    } else {
                        y()
                    }
                } else {
                    let k = if b == B::Fshl { w - s } else { s };
                    concat(extract(x, 0, k), extract(y(), k, w - k))
                }
            }
            B::PtrMask => bin(Op::And, x, y()),
            _ => give_up(&format!("symbolic intrinsic {:?}", b)),
        };
        V::of(r)
    }
}

fn insert(x: V, y: V, idx: &[u32]) -> V {
    match x {
        V::A(mut a) => {
            let v = Rc::make_mut(&mut a);
            let i = idx[0] as usize;
            if idx.len() == 1 {
                v[i] = y;
            } else {
                let inner = std::mem::replace(&mut v[i], V::C(0));
                v[i] = insert(inner, y, &idx[1..]);
            }
            V::A(a)
        }
        _ => give_up("insertvalue into scalar"),
    }
}
