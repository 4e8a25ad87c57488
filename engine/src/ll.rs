//! Reader for textual LLVM IR (as written by rustc/LLVM 23 and clang 18).
//! Globals and function bodies are indexed at load time and decoded on first use.
use crate::expr::{cst, FxMap, Op};
use crate::val::V;
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Flt(u32),
    Arr(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vect(u64, TyId),
    Func,
    Meta,
    Label,
    Opaque,
}

#[derive(Clone, Copy, Debug)]
pub struct Lay {
    pub size: u64, // alloc size (with padding to alignment)
    pub store: u64,
    pub align: u64,
}

#[derive(Clone, Debug)]
pub enum O {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

pub type R = u32;
pub const NOREG: R = u32::MAX;

#[derive(Clone, Debug)]
pub enum Callee {
    Fn(u32),
    Ptr(O),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(Op, u32, u32, O, O, R), // op, element width, lanes (0 scalar)
    Cmp(Pred, u32, u32, O, O, R),
    Cast(CastOp, TyId, TyId, O, R),
    Load(TyId, O, R),
    Store(TyId, O, O), // ty, value, ptr
    Alloca(u64, O, R),
    Gep(O, i64, Vec<(O, u32, i64)>, R),
    Select(O, O, O, TyId, bool, R),
    ExtractValue(O, Vec<u32>, R),
    InsertValue(O, O, Vec<u32>, TyId, R),
    ExtractElement(O, O, R),
    InsertElement(O, O, O, TyId, R),
    Shuffle(O, O, Vec<i32>, u32, R),
    Br(u32),
    CondBr(O, u32, u32),
    Switch(u32, O, u32, Vec<(u64, u32)>),
    Ret(Option<O>),
    Unreachable,
    Call {
        callee: Callee,
        args: Vec<O>,
        byval: Vec<(u32, u64)>,
        d: R,
        ret: TyId,
        normal: u32,
        aw: Vec<u32>,
    },
    Rmw(u8, O, O, TyId, R),
    CmpXchg(O, O, O, TyId, R),
    Fence,
    Freeze(O, R),
    Unsup(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(R, Vec<(u32, O)>, TyId)>,
    pub ins: Vec<I>,
}
#[derive(Debug)]
pub struct Body {
    pub nregs: u32,
    pub params: Vec<R>,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub text: (usize, usize), // 0,0 for a declaration
    pub body: Option<Rc<Body>>,
    pub builtin: u32,
    pub calls: u64,
}

pub struct Global {
    pub name: String,
    pub ty: TyId,
    pub init: (usize, usize),
    pub constant: bool,
    pub external: bool,
}

pub struct Module {
    pub src: Rc<Vec<u8>>,
    pub tys: Vec<Ty>,
    pub lay: Vec<Lay>,
    tymap: HashMap<Ty, TyId>,
    pub named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub sym: HashMap<String, Sym>,
    alias_pending: Vec<(String, String)>,
    pub fbase: u32, // object id of function 0
}
#[derive(Clone, Copy, Debug)]
pub enum Sym {
    F(u32),
    G(u32),
}

pub struct Cur<'a> {
    pub s: &'a [u8],
    pub p: usize,
}

impl<'a> Cur<'a> {
    pub fn ws(&mut self) {
        while self.p < self.s.len() {
            let c = self.s[self.p];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.p += 1
            } else if c == b';' {
                while self.p < self.s.len() && self.s[self.p] != b'\n' {
                    self.p += 1
                }
            } else {
                break;
            }
        }
    }
    pub fn ws1(&mut self) {
        while self.p < self.s.len() && (self.s[self.p] == b' ' || self.s[self.p] == b'\t') {
            self.p += 1
        }
    }
    pub fn peek(&self) -> u8 {
        *self.s.get(self.p).unwrap_or(&0)
    }
    pub fn eat(&mut self, t: &str) -> bool {
        let save = self.p;
        self.ws();
        if self.s[self.p..].starts_with(t.as_bytes()) {
            self.p += t.len();
            true
        } else {
            self.p = save;
            false
        }
    }
    pub fn expect(&mut self, t: &str) {
        if !self.eat(t) {
            let e = (self.p + 80).min(self.s.len());
            let b = self.p.saturating_sub(120);
            crate::exec::give_up(&format!(
                "IR parse: expected {:?} at ...{}<<<HERE>>>{}",
                t,
                String::from_utf8_lossy(&self.s[b..self.p]),
                String::from_utf8_lossy(&self.s[self.p..e])
            ));
        }
    }
    pub fn peek_word(&mut self) -> &'a str {
        let save = self.p;
        self.ws();
        let mut q = self.p;
        let at = self.p;
        self.p = save;
        while q < self.s.len()
            && (self.s[q].is_ascii_alphanumeric() || self.s[q] == b'_' || self.s[q] == b'.')
        {
            q += 1
        }
        std::str::from_utf8(&self.s[at..q]).unwrap()
    }
    pub fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.ws();
        self.p += w.len();
        w
    }
    pub fn eat_word(&mut self, t: &str) -> bool {
        if self.peek_word() == t {
            self.ws();
            self.p += t.len();
            true
        } else {
            false
        }
    }
    /// name after a sigil: quoted or plain
    pub fn name(&mut self) -> String {
        if self.peek() == b'"' {
            self.p += 1;
            let st = self.p;
            while self.s[self.p] != b'"' {
                self.p += 1
            }
            let r = String::from_utf8_lossy(&self.s[st..self.p]).into_owned();
            self.p += 1;
            r
        } else {
            let st = self.p;
            while self.p < self.s.len() {
                let c = self.s[self.p];
                if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' {
                    self.p += 1
                } else {
                    break;
                }
            }
            String::from_utf8_lossy(&self.s[st..self.p]).into_owned()
        }
    }
    pub fn eol(&mut self) {
        while self.p < self.s.len() && self.s[self.p] != b'\n' {
            self.p += 1
        }
    }
    pub fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.peek() {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.p += 1;
                        return;
                    }
                }
                b'"' => {
                    self.p += 1;
                    while self.peek() != b'"' {
                        self.p += 1
                    }
                }
                0 => crate::exec::give_up("IR parse: unbalanced parentheses"),
                _ => {}
            }
            self.p += 1;
        }
    }
    pub fn int(&mut self) -> Option<i128> {
        let save = self.p;
        self.ws();
        let st = self.p;
        let mut q = self.p;
        if q < self.s.len() && self.s[q] == b'-' {
            q += 1
        }
        let d = q;
        while q < self.s.len() && self.s[q].is_ascii_digit() {
            q += 1
        }
        if q == d {
            self.p = save;
            return None;
        }
        self.p = q;
        let t = std::str::from_utf8(&self.s[st..q]).unwrap();
        Some(t.parse::<i128>().unwrap_or_else(|_| t.parse::<u128>().unwrap() as i128))
    }
}

const PARAM_ATTRS: &[&str] = &[
    "noundef", "nonnull", "noalias", "nocapture", "readonly", "readnone", "writeonly", "writable",
    "dead_on_unwind", "zeroext", "signext", "inreg", "returned", "nofree", "immarg", "nest",
    "swiftself", "dead_on_return", "noext", "allocptr", "swifterror", "swiftasync", "allocalign",
];

impl Module {
    pub fn load(path: &str) -> Module {
        let src = std::fs::read(path)
            .unwrap_or_else(|e| crate::exec::give_up(&format!("cannot read {}: {}", path, e)));
        let src = Rc::new(src);
        let mut m = Module {
            src: src.clone(),
            tys: vec![],
            lay: vec![],
            tymap: HashMap::new(),
            named: HashMap::new(),
            funcs: vec![],
            globals: vec![],
            sym: HashMap::new(),
            alias_pending: vec![],
            fbase: 0,
        };
        m.ty(Ty::Void);
        let s: &[u8] = &src;
        // pass 1: find top-level items (lines starting in column 0)
        let mut p = 0;
        let mut types = vec![];
        let mut globs = vec![];
        while p < s.len() {
            let e = memchr(s, b'\n', p);
            match s[p] {
                b'%' => types.push(p),
                b'@' => globs.push((p, e)),
                b'd' if s[p..].starts_with(b"define ") => {
                    // body up to "\n}\n"
                    let mut q = e + 1;
                    loop {
                        if q >= s.len() || s[q] == b'}' {
                            break;
                        }
                        q = memchr(s, b'\n', q) + 1;
                    }
                    m.scan_func(p, q);
                    p = q;
                    p = memchr(s, b'\n', p) + 1;
                    continue;
                }
                b'd' if s[p..].starts_with(b"declare ") => m.scan_func(p, 0),
                _ => {}
            }
            p = e + 1;
        }
        // named types may refer to each other: pointers are opaque, so a repeated pass settles sizes
        for _ in 0..16 {
            for &t in &types {
                let mut c = Cur { s, p: t + 1 };
                let name = c.name();
                c.expect("=");
                c.expect("type");
                if c.eat_word("opaque") {
                    let o = m.ty(Ty::Opaque);
                    m.named.insert(name, o);
                    continue;
                }
                let ty = m.parse_ty(&mut c);
                m.named.insert(name, ty);
            }
        }
        for (p, e) in globs {
            m.scan_global(p, e);
        }
        let mut pend = std::mem::take(&mut m.alias_pending);
        for _ in 0..8 {
            pend.retain(|(a, b)| {
                if let Some(x) = m.sym.get(b).copied() {
                    m.sym.insert(a.clone(), x);
                    false
                } else {
                    true
                }
            });
        }
        m.fbase = m.globals.len() as u32 + 16;
        m
    }

    fn scan_func(&mut self, p: usize, q: usize) {
        let src = self.src.clone();
        let s: &[u8] = &src;
        let mut i = p;
        // the function name is the first '@' outside quotes on the line
        while s[i] != b'@' {
            if s[i] == b'"' {
                i += 1;
                while s[i] != b'"' {
                    i += 1
                }
            }
            i += 1
        }
        let mut c = Cur { s, p: i + 1 };
        let name = c.name();
        // modules are concatenated: a declaration gives way to a definition
        if q == 0 && self.sym.contains_key(&name) {
            return;
        }
        let id = self.funcs.len() as u32;
        self.sym.insert(name.clone(), Sym::F(id));
        let b = crate::builtin::lookup(&name, q != 0);
        self.funcs.push(Func {
            name,
            text: if q == 0 { (0, 0) } else { (c.p, q) },
            body: None,
            builtin: b,
            calls: 0,
        });
    }

    fn scan_global(&mut self, p: usize, e: usize) {
        let src = self.src.clone();
        let s: &[u8] = &src;
        let mut c = Cur { s, p: p + 1 };
        let name = c.name();
        c.expect("=");
        let mut external = false;
        loop {
            let w = c.peek_word();
            match w {
                "global" | "constant" => break,
                "alias" => {
                    c.word();
                    let _ = self.parse_ty(&mut c);
                    c.expect(",");
                    let _ = self.parse_ty(&mut c);
                    c.ws();
                    if c.peek() == b'@' {
                        c.p += 1;
                        let t = c.name();
                        self.alias_pending.push((name, t));
                    }
                    return;
                }
                "external" | "extern_weak" => {
                    external = true;
                    c.word();
                }
                "" => crate::exec::give_up(&format!(
                    "IR parse: global {}",
                    String::from_utf8_lossy(&s[p..e.min(p + 200)])
                )),
                _ => {
                    c.word();
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens()
                    }
                }
            }
        }
        let constant = c.word() == "constant";
        let ty = self.parse_ty(&mut c);
        let id = self.globals.len() as u32;
        self.globals.push(Global { name: name.clone(), ty, init: (c.p, e), constant, external });
        self.sym.insert(name, Sym::G(id));
    }

    pub fn ty(&mut self, t: Ty) -> TyId {
        if let Some(i) = self.tymap.get(&t) {
            return *i;
        }
        let l = match &t {
            Ty::Void | Ty::Func | Ty::Meta | Ty::Label | Ty::Opaque => {
                Lay { size: 0, store: 0, align: 1 }
            }
            Ty::Int(w) => {
                let st = (*w as u64 + 7) / 8;
                let al = st.next_power_of_two().min(16);
                Lay { size: (st + al - 1) / al * al, store: st, align: al }
            }
            Ty::Ptr => Lay { size: 8, store: 8, align: 8 },
            Ty::Flt(w) => {
                let st = *w as u64 / 8;
                let al = if st > 8 { 16 } else { st };
                Lay { size: (st + al - 1) / al * al, store: st, align: al }
            }
            Ty::Arr(n, e) => {
                let l = self.lay[*e as usize];
                Lay { size: n * l.size, store: n * l.size, align: l.align }
            }
            Ty::Vect(n, e) => {
                let bits = match &self.tys[*e as usize] {
                    Ty::Int(w) => *w as u64,
                    Ty::Ptr => 64,
                    Ty::Flt(w) => *w as u64,
                    _ => 8 * self.lay[*e as usize].size,
                };
                let st = (n * bits + 7) / 8;
                let al = st.next_power_of_two();
                Lay { size: (st + al - 1) / al * al, store: st, align: al }
            }
            Ty::Struct(els, packed) => {
                let mut off = 0;
                let mut al = 1;
                for e in els {
                    let l = self.lay[*e as usize];
                    if !packed {
                        off = (off + l.align - 1) / l.align * l.align;
                        al = al.max(l.align);
                    }
                    off += l.size;
                }
                let off = (off + al - 1) / al * al;
                Lay { size: off, store: off, align: al }
            }
        };
        let id = self.tys.len() as TyId;
        self.tys.push(t.clone());
        self.lay.push(l);
        self.tymap.insert(t, id);
        id
    }
    pub fn field_off(&self, els: &[TyId], packed: bool, idx: usize) -> u64 {
        let mut off = 0;
        for (i, e) in els.iter().enumerate() {
            let l = self.lay[*e as usize];
            if !packed {
                off = (off + l.align - 1) / l.align * l.align;
            }
            if i == idx {
                return off;
            }
            off += l.size;
        }
        off
    }

    pub fn parse_ty(&mut self, c: &mut Cur) -> TyId {
        c.ws();
        let t = match c.peek() {
            b'i' if c.s[c.p + 1].is_ascii_digit() => {
                c.p += 1;
                let n = c.int().unwrap();
                self.ty(Ty::Int(n as u32))
            }
            b'[' => {
                c.p += 1;
                let n = c.int().unwrap() as u64;
                c.expect("x");
                let e = self.parse_ty(c);
                c.expect("]");
                self.ty(Ty::Arr(n, e))
            }
            b'{' => {
                c.p += 1;
                let els = self.ty_list(c, "}");
                self.ty(Ty::Struct(els, false))
            }
            b'<' => {
                c.p += 1;
                c.ws();
                if c.peek() == b'{' {
                    c.p += 1;
                    let els = self.ty_list(c, "}");
                    c.expect(">");
                    self.ty(Ty::Struct(els, true))
                } else {
                    let n = c.int().unwrap() as u64;
                    c.expect("x");
                    let e = self.parse_ty(c);
                    c.expect(">");
                    self.ty(Ty::Vect(n, e))
                }
            }
            b'%' => {
                c.p += 1;
                let n = c.name();
                match self.named.get(&n) {
                    Some(t) => *t,
                    None => self.ty(Ty::Opaque),
                }
            }
            _ => match c.word() {
                "ptr" => {
                    if c.peek_word() == "addrspace" {
                        c.word();
                        c.ws();
                        c.skip_parens();
                    }
                    self.ty(Ty::Ptr)
                }
                "void" => self.ty(Ty::Void),
                "double" => self.ty(Ty::Flt(64)),
                "float" => self.ty(Ty::Flt(32)),
                "half" => self.ty(Ty::Flt(16)),
                "fp128" | "x86_fp80" => self.ty(Ty::Flt(128)),
                "metadata" => self.ty(Ty::Meta),
                "label" => self.ty(Ty::Label),
                w => {
                    let b = c.p.saturating_sub(200);
                    crate::exec::give_up(&format!(
                        "IR parse: type {:?} near {}",
                        w,
                        String::from_utf8_lossy(&c.s[b..(c.p + 40).min(c.s.len())])
                    ))
                }
            },
        };
        c.ws1();
        if c.peek() == b'(' {
            // function type
            c.skip_parens();
            return t; // only used before a callee: return type matters
        }
        t
    }
    fn ty_list(&mut self, c: &mut Cur, end: &str) -> Vec<TyId> {
        let mut v = vec![];
        if c.eat(end) {
            return v;
        }
        loop {
            v.push(self.parse_ty(c));
            if c.eat(end) {
                return v;
            }
            c.expect(",");
        }
    }

    pub fn addr_of(&mut self, name: &str) -> u64 {
        match self.sym.get(name).copied() {
            Some(Sym::F(f)) => ((self.fbase + f) as u64) << 32,
            Some(Sym::G(g)) => ((g + 1) as u64) << 32,
            None => crate::exec::give_up(&format!("IR: unknown symbol @{}", name)),
        }
    }

    pub fn zero(&mut self, t: TyId) -> V {
        match self.tys[t as usize].clone() {
            Ty::Int(w) if w > 64 => V::E(cst(0, w)),
            Ty::Int(_) | Ty::Ptr | Ty::Flt(_) => V::C(0),
            Ty::Arr(n, e) | Ty::Vect(n, e) => {
                let z = self.zero(e);
                V::A(Rc::new(vec![z; n as usize]))
            }
            Ty::Struct(els, _) => {
                let v = els.iter().map(|e| self.zero(*e)).collect();
                V::A(Rc::new(v))
            }
            _ => V::C(0),
        }
    }

    /// constant of type t
    pub fn parse_const(&mut self, c: &mut Cur, t: TyId) -> V {
        c.ws();
        match c.peek() {
            b'@' => {
                c.p += 1;
                let n = c.name();
                return V::C(self.addr_of(&n));
            }
            b'c' if c.s[c.p + 1] == b'"' => {
                let b = parse_cstr(c);
                return V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect()));
            }
            b'[' | b'{' | b'<' => {
                let packed_struct = c.peek() == b'<' && {
                    let mut q = c.p + 1;
                    while c.s[q] == b' ' {
                        q += 1
                    }
                    c.s[q] == b'{'
                };
                let close = match c.peek() {
                    b'[' => "]",
                    b'{' => "}",
                    _ if packed_struct => "}",
                    _ => ">",
                };
                c.p += 1;
                if packed_struct {
                    c.expect("{");
                }
                let mut v = vec![];
                if !c.eat(close) {
                    loop {
                        let et = self.parse_ty(c);
                        v.push(self.parse_const(c, et));
                        if c.eat(close) {
                            break;
                        }
                        c.expect(",");
                    }
                }
                if packed_struct {
                    c.expect(">");
                }
                return V::A(Rc::new(v));
            }
            _ => {}
        }
        if let Ty::Flt(w) = self.tys[t as usize] {
            // decimal or hexadecimal floating constant
            let w0 = c.peek_word();
            if !matches!(w0, "zeroinitializer" | "undef" | "poison") {
                let st = c.p;
                while !matches!(c.peek(), b',' | b' ' | b'\n' | b')' | b'}' | b']' | b'>') {
                    c.p += 1
                }
                let txt = std::str::from_utf8(&c.s[st..c.p]).unwrap();
                if let Some(h) = txt.strip_prefix("0x") {
                    let bits = u64::from_str_radix(h.trim_start_matches(|c: char| "KLMHR".contains(c)), 16).unwrap_or(0);
                    if w == 32 {
                        return V::C((f64::from_bits(bits) as f32).to_bits() as u64);
                    }
                    return V::C(bits);
                }
                let f: f64 = txt.parse().unwrap_or(0.0);
                return V::C(if w == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() });
            }
        }
        if let Some(i) = c.int() {
            let w = match self.tys[t as usize] {
                Ty::Int(w) => w,
                _ => 64,
            };
            if w > 64 {
                return V::E(cst(i as u128, w));
            }
            return V::C((i as u128 & crate::expr::mask(w)) as u64);
        }
        let w = c.word();
        match w {
            "true" => V::C(1),
            "false" => V::C(0),
            "null" => V::C(0),
            "none" => V::C(0),
            "zeroinitializer" | "undef" | "poison" => self.zero(t),
            "splat" => {
                c.expect("(");
                let et = self.parse_ty(c);
                let v = self.parse_const(c, et);
                c.expect(")");
                let n = match self.tys[t as usize] {
                    Ty::Vect(n, _) => n,
                    _ => 1,
                };
                V::A(Rc::new(vec![v; n as usize]))
            }
            "dso_local_equivalent" | "no_cfi" => self.parse_const(c, t),
            "getelementptr" => {
                while c.peek_word() != "" {
                    let w = c.word();
                    if w == "inrange" {
                        c.ws();
                        if c.peek() == b'(' {
                            c.skip_parens()
                        }
                    }
                }
                c.expect("(");
                let et = self.parse_ty(c);
                c.expect(",");
                let pt = self.parse_ty(c);
                let base = self.parse_const(c, pt).c();
                let mut idx = vec![];
                while c.eat(",") {
                    c.eat_word("inrange");
                    let it = self.parse_ty(c);
                    let v = self.parse_const(c, it).c();
                    let w = self.int_w(it);
                    idx.push(crate::expr::sx(v as u128, w) as i64);
                }
                c.expect(")");
                let off = self.gep_const(et, &idx);
                V::C(base.wrapping_add(off as u64))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" | "sext" | "addrspacecast" | "ptrtoaddr" => {
                while c.peek_word() != "" {
                    c.word();
                }
                c.expect("(");
                let ft = self.parse_ty(c);
                let v = self.parse_const(c, ft);
                c.expect("to");
                let tt = self.parse_ty(c);
                c.expect(")");
                let fw = self.int_w(ft);
                let tw = self.int_w(tt);
                match v {
                    V::C(x) => {
                        let y = if w == "sext" { crate::expr::sx(x as u128, fw) as u128 } else { x as u128 };
                        let y = y & crate::expr::mask(tw);
                        if tw > 64 {
                            V::E(cst(y, tw))
                        } else {
                            V::C(y as u64)
                        }
                    }
                    v => v,
                }
            }
            "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" => {
                while c.peek_word() != "" {
                    c.word();
                }
                c.expect("(");
                let at = self.parse_ty(c);
                let a = self.parse_const(c, at).c() as u128;
                c.expect(",");
                let bt = self.parse_ty(c);
                let b = self.parse_const(c, bt).c() as u128;
                c.expect(")");
                let op = binop(w).unwrap();
                V::C(crate::expr::fold(op, self.int_w(at), a, b) as u64)
            }
            _ => {
                let b = c.p.saturating_sub(100);
                crate::exec::give_up(&format!(
                    "IR parse: constant {:?} near {}",
                    w,
                    String::from_utf8_lossy(&c.s[b..(c.p + 60).min(c.s.len())])
                ))
            }
        }
    }
    pub fn int_w(&self, t: TyId) -> u32 {
        match self.tys[t as usize] {
            Ty::Int(w) => w,
            Ty::Flt(w) => w,
            _ => 64,
        }
    }
    pub fn gep_const(&mut self, et: TyId, idx: &[i64]) -> i64 {
        let mut off = 0i64;
        let mut t = et;
        for (k, i) in idx.iter().enumerate() {
            if k == 0 {
                off = off.wrapping_add(i.wrapping_mul(self.lay[t as usize].size as i64));
                continue;
            }
            match self.tys[t as usize].clone() {
                Ty::Arr(_, e) | Ty::Vect(_, e) => {
                    off = off.wrapping_add(i.wrapping_mul(self.lay[e as usize].size as i64));
                    t = e;
                }
                Ty::Struct(els, packed) => {
                    off += self.field_off(&els, packed, *i as usize) as i64;
                    t = els[*i as usize];
                }
                _ => crate::exec::give_up("IR: gep into scalar"),
            }
        }
        off
    }

    pub fn body(&mut self, f: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[f as usize].body {
            return b.clone();
        }
        let b = Rc::new(FnParser::parse(self, f));
        self.funcs[f as usize].body = Some(b.clone());
        b
    }
}

pub fn parse_cstr(c: &mut Cur) -> Vec<u8> {
    c.p += 2;
    let mut v = vec![];
    loop {
        let ch = c.s[c.p];
        c.p += 1;
        match ch {
            b'"' => return v,
            b'\\' => {
                if c.s[c.p] == b'\\' {
                    v.push(b'\\');
                    c.p += 1;
                } else {
                    let h = std::str::from_utf8(&c.s[c.p..c.p + 2]).unwrap();
                    v.push(u8::from_str_radix(h, 16).unwrap());
                    c.p += 2;
                }
            }
            x => v.push(x),
        }
    }
}

fn memchr(s: &[u8], b: u8, from: usize) -> usize {
    s[from..].iter().position(|x| *x == b).map(|i| i + from).unwrap_or(s.len())
}

pub fn binop(w: &str) -> Option<Op> {
    Some(match w {
        "add" => Op::Add,
        "sub" => Op::Sub,
        "mul" => Op::Mul,
        "udiv" => Op::UDiv,
        "sdiv" => Op::SDiv,
        "urem" => Op::URem,
        "srem" => Op::SRem,
        "and" => Op::And,
        "or" => Op::Or,
        "xor" => Op::Xor,
        "shl" => Op::Shl,
        "lshr" => Op::LShr,
        "ashr" => Op::AShr,
        _ => return None,
    })
}

struct FnParser<'m> {
    m: &'m mut Module,
    regs: FxMap<String, R>,
    blocks: FxMap<String, u32>,
    nregs: u32,
}

impl<'m> FnParser<'m> {
    fn parse(m: &'m mut Module, f: u32) -> Body {
        let src = m.src.clone();
        let (st, en) = m.funcs[f as usize].text;
        let mut c = Cur { s: &src[..en], p: st };
        let mut fp = FnParser { m, regs: Default::default(), blocks: Default::default(), nregs: 0 };
        // parameters
        c.expect("(");
        let mut params = vec![];
        let mut anon = 0u32;
        if !c.eat(")") {
            loop {
                if c.eat("...") {
                    c.expect(")");
                    break;
                }
                let _t = fp.m.parse_ty(&mut c);
                fp.attrs(&mut c);
                c.ws();
                let name = if c.peek() == b'%' {
                    c.p += 1;
                    c.name()
                } else {
                    anon.to_string()
                };
                if name.bytes().all(|b| b.is_ascii_digit()) {
                    anon = name.parse::<u32>().unwrap() + 1;
                }
                let r = fp.reg(&name);
                params.push(r);
                if c.eat(")") {
                    break;
                }
                c.expect(",");
            }
        }
        // skip to the opening brace at the end of the define line
        c.eol();
        c.p += 1;
        // pre-scan of labels to number blocks
        let s = c.s;
        let mut p = c.p;
        let mut order: Vec<(String, usize)> = vec![];
        let mut first = true;
        while p < s.len() {
            let e = memchr(s, b'\n', p);
            let line = &s[p..e];
            if !line.is_empty() && line[0] != b' ' && line[0] != b';' && line[0] != b'\t' && line[0] != b'}' {
                // label
                let mut lc = Cur { s, p };
                let name = lc.name();
                order.push((name, e + 1));
            } else if first && !line.is_empty() && line[0] == b' ' {
                order.push((anon.to_string(), p));
            }
            if !line.is_empty() && line[0] != b';' {
                first = false;
            }
            p = e + 1;
        }
        for (i, (n, _)) in order.iter().enumerate() {
            fp.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for (i, (_, start)) in order.iter().enumerate() {
            c.p = *start;
            let end = if i + 1 < order.len() { order[i + 1].1 } else { s.len() };
            let b = fp.block(&mut c, end);
            blocks.push(b);
        }
        Body { nregs: fp.nregs, params, blocks }
    }
    fn reg(&mut self, n: &str) -> R {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
    /// skip parameter attributes; returns byval size if present
    fn attrs(&mut self, c: &mut Cur) -> Option<u64> {
        let mut bv = None;
        loop {
            c.ws();
            if c.peek() == b'"' {
                // string attribute
                c.name();
                if c.peek() == b'=' {
                    c.p += 1;
                    c.name();
                }
                continue;
            }
            if c.peek() == b'#' {
                c.p += 1;
                c.name();
                continue;
            }
            let w = c.peek_word();
            match w {
                "align" => {
                    c.word();
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens()
                    } else {
                        c.int();
                    }
                }
                "byval" => {
                    c.word();
                    c.expect("(");
                    let t = self.m.parse_ty(c);
                    c.expect(")");
                    bv = Some(self.m.lay[t as usize].size);
                }
                "dereferenceable" | "dereferenceable_or_null" | "sret" | "captures" | "range" | "byref"
                | "inalloca" | "preallocated" | "elementtype" | "nofpclass" | "initializes" | "memory"
                | "vscale_range" | "allocsize" | "alignstack" | "dead_on_return" => {
                    c.word();
                    c.ws();
                    if c.peek() == b'(' {
                        c.skip_parens();
                    }
                }
                w if PARAM_ATTRS.contains(&w) => {
                    c.word();
                }
                _ => return bv,
            }
        }
    }
    fn val(&mut self, c: &mut Cur, t: TyId) -> O {
        c.ws();
        if c.peek() == b'%' {
            c.p += 1;
            let n = c.name();
            return O::R(self.reg(&n));
        }
        O::K(self.m.parse_const(c, t))
    }
    fn tval(&mut self, c: &mut Cur) -> (TyId, O) {
        let t = self.m.parse_ty(c);
        let v = self.val(c, t);
        (t, v)
    }
    fn label(&mut self, c: &mut Cur) -> u32 {
        c.expect("label");
        c.expect("%");
        let n = c.name();
        self.blocks[&n]
    }
    fn block(&mut self, c: &mut Cur, end: usize) -> Block {
        let mut b = Block { phis: vec![], ins: vec![] };
        loop {
            c.ws();
            if c.p >= end || c.peek() == b'}' || c.p >= c.s.len() {
                break;
            }
            let d = if c.peek() == b'%' {
                c.p += 1;
                let n = c.name();
                c.expect("=");
                self.reg(&n)
            } else if c.s[c.p..].starts_with(b"#dbg") {
                c.eol();
                continue;
            } else {
                NOREG
            };
            let term = self.inst(c, d, &mut b);
            c.eol();
            if term {
                break;
            }
        }
        b
    }
    fn elem(&self, t: TyId) -> (u32, u32) {
        match self.m.tys[t as usize] {
            Ty::Vect(n, e) => (self.m.int_w(e), n as u32),
            _ => (self.m.int_w(t), 0),
        }
    }
    fn inst(&mut self, c: &mut Cur, d: R, b: &mut Block) -> bool {
        let start = c.p;
        let mut w = c.word();
        while matches!(w, "tail" | "musttail" | "notail") {
            w = c.word();
        }
        if let Some(op) = binop(w) {
            while matches!(c.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                c.word();
            }
            let t = self.m.parse_ty(c);
            let x = self.val(c, t);
            c.expect(",");
            let y = self.val(c, t);
            let (ew, n) = self.elem(t);
            b.ins.push(I::Bin(op, ew, n, x, y, d));
            return false;
        }
        match w {
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    x => crate::exec::give_up(&format!("icmp {}", x)),
                };
                let t = self.m.parse_ty(c);
                let x = self.val(c, t);
                c.expect(",");
                let y = self.val(c, t);
                let (ew, n) = self.elem(t);
                b.ins.push(I::Cmp(p, ew, n, x, y, d));
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                while matches!(c.peek_word(), "nneg" | "nuw" | "nsw") {
                    c.word();
                }
                let (ft, v) = self.tval(c);
                c.expect("to");
                let tt = self.m.parse_ty(c);
                let op = match w {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "ptrtoint" | "ptrtoaddr" => CastOp::PtrToInt,
                    "inttoptr" => CastOp::IntToPtr,
                    _ => CastOp::Bitcast,
                };
                b.ins.push(I::Cast(op, ft, tt, v, d));
            }
            "load" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let t = self.m.parse_ty(c);
                c.expect(",");
                let (_, p) = self.tval(c);
                b.ins.push(I::Load(t, p, d));
            }
            "store" => {
                while matches!(c.peek_word(), "atomic" | "volatile") {
                    c.word();
                }
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, p) = self.tval(c);
                b.ins.push(I::Store(t, v, p));
            }
            "alloca" => {
                c.eat_word("inalloca");
                let t = self.m.parse_ty(c);
                let mut n = O::K(V::C(1));
                if c.eat(",") {
                    if c.peek_word() != "align" {
                        n = self.tval(c).1;
                    }
                }
                let sz = self.m.lay[t as usize].size;
                b.ins.push(I::Alloca(sz, n, d));
            }
            "getelementptr" => {
                while matches!(c.peek_word(), "inbounds" | "nuw" | "nusw") {
                    c.word();
                }
                let et = self.m.parse_ty(c);
                c.expect(",");
                let (pt, base) = self.tval(c);
                if let Ty::Vect(..) = self.m.tys[pt as usize] {
                    b.ins.push(I::Unsup("vector gep".into()));
                    return false;
                }
                let mut off = 0i64;
                let mut terms = vec![];
                let mut t = et;
                let mut k = 0;
                loop {
                    let save = c.p;
                    if !c.eat(",") {
                        break;
                    }
                    c.ws();
                    if c.peek() == b'!' {
                        c.p = save;
                        break;
                    }
                    let (it, v) = self.tval(c);
                    let iw = self.m.int_w(it);
                    let stride;
                    if k == 0 {
                        stride = self.m.lay[t as usize].size as i64;
                    } else {
                        match self.m.tys[t as usize].clone() {
                            Ty::Arr(_, e) | Ty::Vect(_, e) => {
                                stride = self.m.lay[e as usize].size as i64;
                                t = e;
                            }
                            Ty::Struct(els, packed) => {
                                let i = match &v {
                                    O::K(V::C(x)) => *x as usize,
                                    _ => crate::exec::give_up("gep struct index"),
                                };
                                off += self.m.field_off(&els, packed, i) as i64;
                                t = els[i];
                                k += 1;
                                continue;
                            }
                            _ => crate::exec::give_up("gep into scalar"),
                        }
                    }
                    k += 1;
                    match v {
                        O::K(V::C(x)) => {
                            let x = crate::expr::sx(x as u128, iw) as i64;
                            off = off.wrapping_add(x.wrapping_mul(stride))
                        }
                        v => terms.push((v, iw, stride)),
                    }
                }
                b.ins.push(I::Gep(base, off, terms, d));
            }
            "select" => {
                let (ct, cv) = self.tval(c);
                c.expect(",");
                let (t, x) = self.tval(c);
                c.expect(",");
                let (_, y) = self.tval(c);
                let vec = matches!(self.m.tys[ct as usize], Ty::Vect(..));
                b.ins.push(I::Select(cv, x, y, t, vec, d));
            }
            "phi" => {
                let t = self.m.parse_ty(c);
                let mut v = vec![];
                loop {
                    c.expect("[");
                    let x = self.val(c, t);
                    c.expect(",");
                    c.expect("%");
                    let n = c.name();
                    c.expect("]");
                    let blk = *self.blocks.get(&n).unwrap_or_else(|| crate::exec::give_up(&format!("IR: no block {} for phi", n)));
                    v.push((blk, x));
                    let save = c.p;
                    if !c.eat(",") {
                        break;
                    }
                    c.ws();
                    if c.peek() != b'[' {
                        c.p = save;
                        break;
                    }
                }
                b.phis.push((d, v, t));
            }
            "extractvalue" => {
                let (_, v) = self.tval(c);
                let idx = self.indices(c);
                b.ins.push(I::ExtractValue(v, idx, d));
            }
            "insertvalue" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, e) = self.tval(c);
                let idx = self.indices(c);
                b.ins.push(I::InsertValue(v, e, idx, t, d));
            }
            "extractelement" => {
                let (_, v) = self.tval(c);
                c.expect(",");
                let (_, i) = self.tval(c);
                b.ins.push(I::ExtractElement(v, i, d));
            }
            "insertelement" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let (_, e) = self.tval(c);
                c.expect(",");
                let (_, i) = self.tval(c);
                b.ins.push(I::InsertElement(v, e, i, t, d));
            }
            "shufflevector" => {
                let (t, x) = self.tval(c);
                c.expect(",");
                let (_, y) = self.tval(c);
                c.expect(",");
                let (mt, mv) = self.tval(c);
                let n = match self.m.tys[t as usize] {
                    Ty::Vect(n, _) => n as u32,
                    _ => 0,
                };
                let mn = match self.m.tys[mt as usize] {
                    Ty::Vect(n, _) => n as usize,
                    _ => 0,
                };
                let mask = match mv {
                    O::K(V::A(v)) => v.iter().map(|x| x.c() as i32).collect(),
                    _ => vec![0; mn],
                };
                b.ins.push(I::Shuffle(x, y, mask, n, d));
            }
            "br" => {
                if c.peek_word() == "label" {
                    let l = self.label(c);
                    b.ins.push(I::Br(l));
                } else {
                    let (_, v) = self.tval(c);
                    c.expect(",");
                    let t = self.label(c);
                    c.expect(",");
                    let f = self.label(c);
                    b.ins.push(I::CondBr(v, t, f));
                }
                return true;
            }
            "switch" => {
                let (t, v) = self.tval(c);
                c.expect(",");
                let dft = self.label(c);
                c.expect("[");
                let mut cases = vec![];
                while !c.eat("]") {
                    let ct = self.m.parse_ty(c);
                    let k = self.m.parse_const(c, ct).c();
                    c.expect(",");
                    cases.push((k, self.label(c)));
                }
                let w = self.m.int_w(t);
                b.ins.push(I::Switch(w, v, dft, cases));
                return true;
            }
            "ret" => {
                if c.eat_word("void") {
                    b.ins.push(I::Ret(None));
                } else {
                    let (_, v) = self.tval(c);
                    b.ins.push(I::Ret(Some(v)));
                }
                return true;
            }
            "unreachable" => {
                b.ins.push(I::Unreachable);
                return true;
            }
            "resume" => {
                b.ins.push(I::Unsup("resume".into()));
                return true;
            }
            "landingpad" => {
                b.ins.push(I::Unsup("landingpad".into()));
                c.eol();
                loop {
                    let save = c.p;
                    c.ws();
                    if matches!(c.peek_word(), "cleanup" | "catch" | "filter") {
                        c.eol();
                    } else {
                        c.p = save;
                        break;
                    }
                }
            }
            "call" | "invoke" => {
                // calling convention and return attributes
                loop {
                    let w = c.peek_word();
                    match w {
                        "fastcc" | "coldcc" | "ccc" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn"
                        | "reassoc" => {
                            c.word();
                        }
                        "cc" => {
                            c.word();
                            c.int();
                        }
                        _ => {
                            let before = c.p;
                            self.attrs(c);
                            c.ws();
                            if c.p == before || c.peek_word() == w {
                                break;
                            }
                        }
                    }
                }
                let ret = self.m.parse_ty(c);
                c.ws();
                let callee = match c.peek() {
                    b'@' => {
                        c.p += 1;
                        let n = c.name();
                        match self.m.sym.get(&n).copied() {
                            Some(Sym::F(f)) => Callee::Fn(f),
                            _ => crate::exec::give_up(&format!("IR: call of unknown function {}", n)),
                        }
                    }
                    b'%' => {
                        c.p += 1;
                        let n = c.name();
                        Callee::Ptr(O::R(self.reg(&n)))
                    }
                    _ => {
                        if c.peek_word() == "asm" {
                            // asm sideeffect "..." , "..."
                            while c.peek() != b'"' {
                                c.p += 1
                            }
                            c.name();
                            c.expect(",");
                            c.ws();
                            c.name();
                            Callee::Asm
                        } else {
                            let pt = self.m.ty(Ty::Ptr);
                            let k = self.m.parse_const(c, pt);
                            Callee::Ptr(O::K(k))
                        }
                    }
                };
                c.expect("(");
                let mut args = vec![];
                let mut byval = vec![];
                let mut aw = vec![];
                if !c.eat(")") {
                    loop {
                        let t = self.m.parse_ty(c);
                        if self.m.tys[t as usize] == Ty::Meta {
                            // skip metadata operand
                            let mut dep = 0;
                            loop {
                                match c.peek() {
                                    b'(' | b'{' => dep += 1,
                                    b')' | b'}' if dep > 0 => dep -= 1,
                                    b')' | b',' if dep == 0 => break,
                                    b'"' => {
                                        c.name();
                                        continue;
                                    }
                                    0 => crate::exec::give_up("metadata operand"),
                                    _ => {}
                                }
                                c.p += 1;
                            }
                            args.push(O::K(V::C(0)));
                            aw.push(0);
                        } else {
                            if let Some(sz) = self.attrs(c) {
                                byval.push((args.len() as u32, sz));
                            }
                            let v = self.val(c, t);
                            aw.push(self.m.int_w(t));
                            args.push(v);
                        }
                        if c.eat(")") {
                            break;
                        }
                        c.expect(",");
                    }
                }
                let mut normal = u32::MAX;
                let inv = w == "invoke";
                if inv {
                    // attributes, bundles, then: to label %x unwind label %y (possibly on the next line)
                    while c.peek_word() != "to" {
                        c.ws();
                        if c.peek() == b'#' {
                            c.p += 1;
                            c.name();
                        } else if c.peek() == b'[' {
                            while c.peek() != b']' {
                                c.p += 1
                            }
                            c.p += 1;
                        } else if c.peek_word() != "" {
                            c.word();
                            if c.peek() == b'(' {
                                c.skip_parens();
                            }
                        } else if c.peek() == b'"' {
                            c.name();
                            if c.peek() == b'=' {
                                c.p += 1;
                            }
                        } else {
                            crate::exec::give_up("invoke parse");
                        }
                    }
                    c.expect("to");
                    normal = self.label(c);
                    c.expect("unwind");
                    self.label(c);
                }
                b.ins.push(I::Call { callee, args, byval, d, ret, normal, aw });
                return inv;
            }
            "atomicrmw" => {
                c.eat_word("volatile");
                let op = match c.word() {
                    "xchg" => 0,
                    "add" => 1,
                    "sub" => 2,
                    "and" => 3,
                    "or" => 4,
                    "xor" => 5,
                    "umax" => 6,
                    "umin" => 7,
                    x => crate::exec::give_up(&format!("atomicrmw {}", x)),
                };
                let (_, p) = self.tval(c);
                c.expect(",");
                let (t, v) = self.tval(c);
                b.ins.push(I::Rmw(op, p, v, t, d));
            }
            "cmpxchg" => {
                while matches!(c.peek_word(), "weak" | "volatile") {
                    c.word();
                }
                let (_, p) = self.tval(c);
                c.expect(",");
                let (t, x) = self.tval(c);
                c.expect(",");
                let (_, n) = self.tval(c);
                b.ins.push(I::CmpXchg(p, x, n, t, d));
            }
            "fence" => b.ins.push(I::Fence),
            "freeze" => {
                let (_, v) = self.tval(c);
                b.ins.push(I::Freeze(v, d));
            }
            _ => {
                let s = c.p;
                c.eol();
                let line = String::from_utf8_lossy(&c.s[start..c.p]).into_owned();
                c.p = s;
                b.ins.push(I::Unsup(line));
            }
        }
        false
    }
    fn indices(&mut self, c: &mut Cur) -> Vec<u32> {
        let mut v = vec![];
        loop {
            let save = c.p;
            if !c.eat(",") {
                break;
            }
            match c.int() {
                Some(i) => v.push(i as u32),
                None => {
                    c.p = save;
                    break;
                }
            }
        }
        v
    }
}
