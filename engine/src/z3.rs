//! Thin FFI to the system libz3 (C API) and a caching solver front end.
use crate::expr::*;
use crate::sat::Blaster;
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, n: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, t: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, t: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_get_error_code(c: P) -> c_int;
    fn Z3_set_error_handler(c: P, h: P);
}

#[derive(Clone, Debug)]
pub enum Res {
    Sat(Vec<(u32, u128)>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub us: u64,
    pub max_us: u64,
    pub quick: u64,
    pub verdicts: u64,
    pub quick_us: u64,
    pub cross: u64,
}

pub struct Solver {
    c: P,
    s: P,
    ast: Vec<P>,
    sorts: HashMap<u32, P>,
    one1: P,
    zero1: P,
    cache: FxMap<Vec<E>, Res>,
    quick_cache: FxMap<Vec<E>, Res>,
    quick: Blaster,
    pub st: Stats,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Solver {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(c, std::ptr::null_mut());
            let name = CString::new("QF_BV").unwrap();
            let sym = Z3_mk_string_symbol(c, name.as_ptr());
            let s = Z3_mk_solver_for_logic(c, sym);
            Z3_solver_inc_ref(c, s);
            let p = Z3_mk_params(c);
            Z3_params_inc_ref(c, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(c, s, p);
            let mut me = Solver {
                c,
                s,
                ast: vec![],
                sorts: HashMap::new(),
                one1: std::ptr::null_mut(),
                zero1: std::ptr::null_mut(),
                cache: Default::default(),
                quick_cache: Default::default(),
                quick: Blaster::new(),
                st: Stats::default(),
            };
            me.one1 = me.num(1, 1);
            me.zero1 = me.num(0, 1);
            me
        }
    }
    unsafe fn sort(&mut self, w: u32) -> P {
        let c = self.c;
        *self.sorts.entry(w).or_insert_with(|| {
            let s = Z3_mk_bv_sort(c, w);
            Z3_inc_ref(c, s);
            s
        })
    }
    unsafe fn num(&mut self, v: u128, w: u32) -> P {
        let st = CString::new(v.to_string()).unwrap();
        let s = self.sort(w);
        let a = Z3_mk_numeral(self.c, st.as_ptr(), s);
        Z3_inc_ref(self.c, a);
        a
    }
    unsafe fn b2v(&mut self, b: P) -> P {
        Z3_mk_ite(self.c, b, self.one1, self.zero1)
    }
    unsafe fn conv(&mut self, e: E) -> P {
        if self.ast.len() <= e as usize {
            self.ast.resize(ar().nodes.len(), std::ptr::null_mut());
        }
        if !self.ast[e as usize].is_null() {
            return self.ast[e as usize];
        }
        let n = node(e);
        let c = self.c;
        let r = match n.op {
            Op::Const(v) => self.num(v, n.w),
            Op::Var(i) => {
                let nm = CString::new(format!("v{}_{}", i, n.w)).unwrap();
                let s = self.sort(n.w);
                Z3_mk_const(c, Z3_mk_string_symbol(c, nm.as_ptr()), s)
            }
            Op::Ite => {
                let k = self.conv(n.k[0]);
                let a = self.conv(n.k[1]);
                let b = self.conv(n.k[2]);
                let kb = Z3_mk_eq(c, k, self.one1);
                Z3_mk_ite(c, kb, a, b)
            }
            Op::Extract(lo) => {
                let a = self.conv(n.k[0]);
                Z3_mk_extract(c, lo + n.w - 1, lo, a)
            }
            Op::ZExt => {
                let a = self.conv(n.k[0]);
                Z3_mk_zero_ext(c, n.w - width(n.k[0]), a)
            }
            Op::SExt => {
                let a = self.conv(n.k[0]);
                Z3_mk_sign_ext(c, n.w - width(n.k[0]), a)
            }
            op => {
                let a = self.conv(n.k[0]);
                let b = self.conv(n.k[1]);
                match op {
                    Op::Add => Z3_mk_bvadd(c, a, b),
                    Op::Sub => Z3_mk_bvsub(c, a, b),
                    Op::Mul => Z3_mk_bvmul(c, a, b),
                    Op::UDiv => Z3_mk_bvudiv(c, a, b),
                    Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                    Op::URem => Z3_mk_bvurem(c, a, b),
                    Op::SRem => Z3_mk_bvsrem(c, a, b),
                    Op::And => Z3_mk_bvand(c, a, b),
                    Op::Or => Z3_mk_bvor(c, a, b),
                    Op::Xor => Z3_mk_bvxor(c, a, b),
                    Op::Shl => Z3_mk_bvshl(c, a, b),
                    Op::LShr => Z3_mk_bvlshr(c, a, b),
                    Op::AShr => Z3_mk_bvashr(c, a, b),
                    Op::Eq => {
                        let x = Z3_mk_eq(c, a, b);
                        Z3_inc_ref(c, x);
                        self.b2v(x)
                    }
                    Op::Ult => {
                        let x = Z3_mk_bvult(c, a, b);
                        self.b2v(x)
                    }
                    Op::Ule => {
                        let x = Z3_mk_bvule(c, a, b);
                        self.b2v(x)
                    }
                    Op::Slt => {
                        let x = Z3_mk_bvslt(c, a, b);
                        self.b2v(x)
                    }
                    Op::Sle => {
                        let x = Z3_mk_bvsle(c, a, b);
                        self.b2v(x)
                    }
                    Op::Concat => Z3_mk_concat(c, a, b),
                    _ => unreachable!(),
                }
            }
        };
        if r.is_null() || Z3_get_error_code(c) != 0 {
            crate::exec::give_up("z3 error while building a term");
        }
        Z3_inc_ref(c, r);
        self.ast[e as usize] = r;
        r
    }

    /// The built-in solver first, z3 for what it cannot do and to cross-check a sample: one in 97 path
    /// feasibility answers, one in 11 verdicts on property obligations.
    pub fn feasible(&mut self, cs: &mut Vec<E>, model: &[u128], verdict: bool) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.quick_cache.get(cs).or_else(|| self.cache.get(cs)) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t = std::time::Instant::now();
        let q = self.quick.check(cs, model);

        self.st.quick_us += t.elapsed().as_micros() as u64;
        let r = match q {
            None => return self.check(cs),
            Some(None) => Res::Unsat,
            Some(Some(asg)) => {
                confirm(cs, &asg);
                Res::Sat(asg)
            }
        };
        self.st.quick += 1;
        self.st.verdicts += verdict as u64;
        if if verdict { self.st.verdicts % 11 == 1 } else { self.st.quick % 97 == 0 } {
            self.st.cross += 1;
            let k = self.check(cs);
            if matches!(k, Res::Sat(_)) != matches!(r, Res::Sat(_)) {
                crate::exec::give_up("z3 and the built-in solver disagree");
            }
        }
        self.quick_cache.insert(cs.clone(), r.clone());
        r
    }

    /// z3's verdict on the conjunction of `cs` (already sliced by the caller)
    pub fn check(&mut self, cs: &mut Vec<E>) -> Res {
        cs.sort_unstable();
        cs.dedup();
        if let Some(r) = self.cache.get(cs) {
            self.st.cache_hits += 1;
            return r.clone();
        }
        let t = std::time::Instant::now();
        let r = unsafe {
            Z3_solver_push(self.c, self.s);
            let mut vs: VarSet = 0;
            for e in cs.iter() {
                vs |= varset(*e);
                let a = self.conv(*e);
                let b = Z3_mk_eq(self.c, a, self.one1);
                Z3_solver_assert(self.c, self.s, b);
            }
            let k = Z3_solver_check(self.c, self.s);
            if Z3_get_error_code(self.c) != 0 {
                crate::exec::give_up("z3 error");
            }
            let r = match k {
                1 => {
                    let m = Z3_solver_get_model(self.c, self.s);
                    Z3_model_inc_ref(self.c, m);
                    let mut out = vec![];
                    for (i, w) in vars_of(cs, vs) {
                        let v = self.conv(var(i, w));
                        let mut o: P = std::ptr::null_mut();
                        if !Z3_model_eval(self.c, m, v, true, &mut o) {
                            crate::exec::give_up("z3 model evaluation failed");
                        }
                        let s = Z3_get_numeral_string(self.c, o);
                        let s = std::ffi::CStr::from_ptr(s).to_str().unwrap();
                        out.push((i, s.parse::<u128>().unwrap()));
                    }
                    Z3_model_dec_ref(self.c, m);
                    Res::Sat(out)
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            Z3_solver_pop(self.c, self.s, 1);
            r
        };
        let us = t.elapsed().as_micros() as u64;
        self.st.queries += 1;
        self.st.us += us;
        self.st.max_us = self.st.max_us.max(us);
        match &r {
            Res::Sat(asg) => {
                self.st.sat += 1;
                confirm(cs, asg);
            }
            Res::Unsat => self.st.unsat += 1,
            Res::Unknown => self.st.unknown += 1,
        }
        self.cache.insert(cs.clone(), r.clone());
        r
    }
}

/// the model must satisfy our own reading of the constraints
fn confirm(cs: &[E], asg: &[(u32, u128)]) {
    let mut full = vec![0u128; 128];
    for (i, v) in asg {
        full[*i as usize] = *v;
    }
    for e in cs.iter() {
        if eval(*e, &full) != 1 {
            crate::exec::give_up("a solver's model does not satisfy the constraints as evaluated by the engine");
        }
    }
}

fn vars_of(cs: &[E], vs: VarSet) -> Vec<(u32, u32)> {
    let mut out = vec![];
    let mut seen: std::collections::HashSet<E> = Default::default();
    let mut have: VarSet = 0;
    let mut stack: Vec<E> = cs.to_vec();
    while let Some(e) = stack.pop() {
        if have == vs {
            break;
        }
        if varset(e) & !have == 0 || !seen.insert(e) {
            continue;
        }
        let n = node(e);
        if let Op::Var(i) = n.op {
            if have >> i & 1 == 0 {
                have |= 1 << i;
                out.push((i, n.w));
            }
            continue;
        }
        for k in n.k {
            if k != 0 {
                stack.push(k)
            }
        }
    }
    out
}
