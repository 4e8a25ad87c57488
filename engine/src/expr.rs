//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type E = u32;
pub type VarSet = u128;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const(u128),
    Var(u32),
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract(u32), // low bit; width is node width
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub k: [E; 3],
}

pub struct Arena {
    /// extractions already pushed through an operator (a shared graph would be walked once per path otherwise)
    cut: FxMap<(E, u32, u32), E>,
    pub nodes: Vec<Node>,
    pub vars: Vec<VarSet>,
    map: HashMap<Node, E, std::hash::BuildHasherDefault<Fx>>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
}

#[derive(Default, Clone)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, std::hash::BuildHasherDefault<Fx>>;

static mut ARENA: Option<Arena> = None;

pub fn init() {
    unsafe {
        ARENA = Some(Arena {
            nodes: vec![Node { op: Op::Const(0), w: 0, k: [0; 3] }],
            vars: vec![0],
            map: HashMap::default(),
            memo: vec![],
            stamp: 0,
            cut: HashMap::default(),
        });
    }
}

#[inline]
#[allow(static_mut_refs)]
pub fn ar() -> &'static mut Arena {
    unsafe { ARENA.as_mut().unwrap() }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn mk(op: Op, w: u32, k: [E; 3]) -> E {
    let a = ar();
    let n = Node { op, w, k };
    if let Some(e) = a.map.get(&n) {
        return *e;
    }
    let vs = match op {
        Op::Const(_) => 0,
        Op::Var(i) => 1u128 << i,
        _ => a.vars[k[0] as usize] | a.vars[k[1] as usize] | a.vars[k[2] as usize],
    };
    let id = a.nodes.len() as E;
    a.nodes.push(n);
    a.vars.push(vs);
    a.map.insert(n, id);
    id
}
#[inline]
pub fn node(e: E) -> Node {
    ar().nodes[e as usize]
}
#[inline]
pub fn width(e: E) -> u32 {
    ar().nodes[e as usize].w
}
#[inline]
pub fn varset(e: E) -> VarSet {
    ar().vars[e as usize]
}
pub fn cst(v: u128, w: u32) -> E {
    mk(Op::Const(v & mask(w)), w, [0; 3])
}
pub fn var(i: u32, w: u32) -> E {
    if i >= 128 {
        crate::exec::give_up("more than 128 symbolic variables on one path");
    }
    mk(Op::Var(i), w, [0; 3])
}
#[inline]
pub fn as_const(e: E) -> Option<u128> {
    match ar().nodes[e as usize].op {
        Op::Const(c) => Some(c),
        _ => None,
    }
}
pub fn is_cmp(o: Op) -> bool {
    matches!(o, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

/// evaluate an operation on concrete operands; `w` operand width
pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sx(a, w) >> s.min(127)) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, w) < sx(b, w)) as u128,
        Op::Sle => (sx(a, w) <= sx(b, w)) as u128,
        _ => unreachable!(),
    }
}

/// an ite tree whose leaves are all constants, of limited size
fn const_tree(e: E, budget: &mut u32) -> bool {
    if *budget == 0 {
        return false;
    }
    *budget -= 1;
    let n = node(e);
    match n.op {
        Op::Const(_) => true,
        Op::Ite => const_tree(n.k[1], budget) && const_tree(n.k[2], budget),
        _ => false,
    }
}
fn map_tree(e: E, f: &mut dyn FnMut(E) -> E) -> E {
    let n = node(e);
    match n.op {
        Op::Ite => {
            let a = map_tree(n.k[1], f);
            let b = map_tree(n.k[2], f);
            ite(n.k[0], a, b)
        }
        _ => f(e),
    }
}

pub fn not(e: E) -> E {
    // width 1
    let n = node(e);
    match n.op {
        Op::Const(c) => cst(c ^ 1, 1),
        Op::Xor if as_const(n.k[1]) == Some(1) => n.k[0],
        Op::Ult => mk(Op::Ule, 1, [n.k[1], n.k[0], 0]),
        Op::Ule => mk(Op::Ult, 1, [n.k[1], n.k[0], 0]),
        Op::Slt => mk(Op::Sle, 1, [n.k[1], n.k[0], 0]),
        Op::Sle => mk(Op::Slt, 1, [n.k[1], n.k[0], 0]),
        _ => mk(Op::Xor, 1, [e, cst(1, 1), 0]),
    }
}

pub fn bin(op: Op, a: E, b: E) -> E {
    let w = width(a);
    debug_assert_eq!(w, width(b));
    let (ca, cb) = (as_const(a), as_const(b));
    if let (Some(x), Some(y)) = (ca, cb) {
        let rw = if is_cmp(op) { 1 } else { w };
        return cst(fold(op, w, x, y), rw);
    }
    // commutative: constant to the right, otherwise ordered
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        if ca.is_some() || (cb.is_none() && a > b) {
            return bin_ord(op, w, b, a);
        }
    }
    bin_ord(op, w, a, b)
}

fn bin_ord(op: Op, w: u32, a: E, b: E) -> E {
    let ca = as_const(a);
    let cb = as_const(b);
    let rw = if is_cmp(op) { 1 } else { w };
    if a == b {
        match op {
            Op::Sub | Op::Xor => return cst(0, w),
            Op::And | Op::Or => return a,
            Op::Eq | Op::Ule | Op::Sle => return cst(1, 1),
            Op::Ult | Op::Slt => return cst(0, 1),
            _ => {}
        }
    }
    if let Some(c) = cb {
        let m = mask(w);
        match op {
            Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if c == 0 => {
                return a
            }
            Op::And | Op::Mul if c == 0 => return cst(0, w),
            Op::And if c == m => return a,
            Op::Or if c == m => return cst(m, w),
            Op::Mul | Op::UDiv | Op::SDiv if c == 1 => return a,
            Op::URem if c == 1 => return cst(0, w),
            Op::Shl | Op::LShr if c >= w as u128 => return cst(0, w),
            Op::Ult if c == 0 => return cst(0, 1),
            Op::Ult if c == 1 => return bin(Op::Eq, a, cst(0, w)),
            Op::Ule if c == m => return cst(1, 1),
            Op::Ule if c == 0 => return bin(Op::Eq, a, cst(0, w)),
            Op::Sub => return bin(Op::Add, a, cst(c.wrapping_neg(), w)),
            Op::Xor if w == 1 => return not(a),
            Op::Eq if w == 1 => return if c == 1 { a } else { not(a) },
            _ => {}
        }
        let n = node(a);
        // zext / sext comparisons against constants
        if let Op::ZExt = n.op {
            let iw = width(n.k[0]);
            match op {
                Op::Eq => {
                    if c > mask(iw) {
                        return cst(0, 1);
                    }
                    return bin(Op::Eq, n.k[0], cst(c, iw));
                }
                Op::Ult => {
                    if c > mask(iw) {
                        return cst(1, 1);
                    }
                    return bin(Op::Ult, n.k[0], cst(c, iw));
                }
                Op::Ule => {
                    if c >= mask(iw) {
                        return cst(1, 1);
                    }
                    return bin(Op::Ule, n.k[0], cst(c, iw));
                }
                Op::Slt | Op::Sle if iw < w => {
                    // a is non-negative
                    let s = sx(c, w);
                    if s < 0 {
                        return cst(0, 1);
                    }
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                Op::And => {
                    let lo = c & mask(iw);
                    let inner = bin(Op::And, n.k[0], cst(lo, iw));
                    return zext(inner, w);
                }
                Op::URem | Op::UDiv if c <= mask(iw) => {
                    return zext(bin(op, n.k[0], cst(c, iw)), w);
                }
                Op::LShr => {
                    if c >= iw as u128 {
                        return cst(0, w);
                    }
                    return zext(bin(Op::LShr, n.k[0], cst(c, iw)), w);
                }
                _ => {}
            }
        }
        if let (Op::Concat, Op::Eq) = (n.op, op) {
            let lw = width(n.k[1]);
            let hi = bin(Op::Eq, n.k[0], cst(c >> lw, w - lw));
            let lo = bin(Op::Eq, n.k[1], cst(c, lw));
            return bin(Op::And, hi, lo);
        }
        if op == Op::Add && n.op == Op::Add {
            if let Some(c2) = as_const(n.k[1]) {
                return bin(Op::Add, n.k[0], cst(c.wrapping_add(c2), w));
            }
        }
        if op == Op::Eq && n.op == Op::Add {
            if let Some(c2) = as_const(n.k[1]) {
                return bin(Op::Eq, n.k[0], cst(c.wrapping_sub(c2), w));
            }
        }
        if op == Op::Eq && n.op == Op::Xor {
            if let Some(c2) = as_const(n.k[1]) {
                return bin(Op::Eq, n.k[0], cst(c ^ c2, w));
            }
        }
        if op == Op::And && n.op == Op::And {
            if let Some(c2) = as_const(n.k[1]) {
                return bin(Op::And, n.k[0], cst(c & c2, w));
            }
        }
        // range tests: x + k < c
        if n.op == Op::Add && matches!(op, Op::Ult | Op::Ule) {
            if let Some(k) = as_const(n.k[1]) {
                let x = n.k[0];
                // number of values of x + k that satisfy the test: 1..2^w - 1
                let cnt = if op == Op::Ule { c + 1 } else { c };
                let lo = k.wrapping_neg() & m;
                let hi = lo.wrapping_add(cnt) & m;
                let ge = bin(Op::Ule, cst(lo, w), x);
                let lt = bin(Op::Ult, x, cst(hi, w));
                return if hi == 0 { ge } else if lo < hi { bin(Op::And, ge, lt) } else { bin(Op::Or, ge, lt) };
            }
        }
        // low-bit mask: and with 2^k-1 -> zext(extract)
        if op == Op::And && c != 0 && (c & (c + 1)) == 0 && c != m {
            let k = 128 - c.leading_zeros();
            return zext(extract(a, 0, k), w);
        }
        let mut budget = 256;
        if n.op == Op::Ite && const_tree(a, &mut budget) {
            return map_tree(a, &mut |l| bin(op, l, b));
        }
    }
    if let Some(c) = ca {
        let m = mask(w);
        match op {
            Op::Ule if c == 0 => return cst(1, 1),
            Op::Ult if c == m => return cst(0, 1),
            Op::Ult if c == 0 => return not(bin(Op::Eq, b, cst(0, w))),
            Op::Shl | Op::LShr | Op::AShr | Op::UDiv | Op::URem if c == 0 && !matches!(op, Op::UDiv | Op::URem) => {
                return cst(0, w)
            }
            _ => {}
        }
        let n = node(b);
        if n.op == Op::Add && matches!(op, Op::Ult | Op::Ule) && as_const(n.k[1]).is_some() {
            return not(bin(if op == Op::Ult { Op::Ule } else { Op::Ult }, b, a));
        }
        if n.op == Op::Sub && op == Op::Ult && c == 1 {
            // 1 < x - y
            return bin(Op::And, not(bin(Op::Eq, n.k[0], n.k[1])), not(bin(Op::Eq, n.k[0], bin(Op::Add, n.k[1], cst(1, w)))));
        }
        if let Op::ZExt = n.op {
            let iw = width(n.k[0]);
            match op {
                Op::Ult => {
                    if c >= mask(iw) {
                        return cst(0, 1);
                    }
                    return bin(Op::Ult, cst(c, iw), n.k[0]);
                }
                Op::Ule => {
                    if c > mask(iw) {
                        return cst(0, 1);
                    }
                    return bin(Op::Ule, cst(c, iw), n.k[0]);
                }
                Op::Slt | Op::Sle if iw < w => {
                    let s = sx(c, w);
                    if s < 0 {
                        return cst(1, 1);
                    }
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                _ => {}
            }
        }
        let mut budget = 256;
        if n.op == Op::Ite && const_tree(b, &mut budget) {
            return map_tree(b, &mut |l| bin(op, a, l));
        }
    }
    let (na, nb) = (node(a), node(b));
    // off-by-one comparisons of values that cannot wrap
    let small = |e: E| node(e).op == Op::ZExt && width(node(e).k[0]) < w;
    if op == Op::Ule && nb.op == Op::Add && as_const(nb.k[1]) == Some(mask(w)) && small(nb.k[0]) && small(a) {
        // a <= y - 1: a < y, or y is 0
        return bin(Op::Or, bin(Op::Ult, a, nb.k[0]), bin(Op::Eq, nb.k[0], cst(0, w)));
    }
    if op == Op::Ule && na.op == Op::Add && as_const(na.k[1]) == Some(1) && small(na.k[0]) {
        return bin(Op::Ult, na.k[0], b);
    }
    if op == Op::Ult && nb.op == Op::Add && as_const(nb.k[1]) == Some(1) && small(nb.k[0]) {
        return bin(Op::Ule, a, nb.k[0]);
    }
    if op == Op::Ult && na.op == Op::Add && as_const(na.k[1]) == Some(mask(w)) && small(na.k[0]) && small(b) {
        return bin(Op::And, bin(Op::Ule, na.k[0], b), not(bin(Op::Eq, na.k[0], cst(0, w))));
    }
    if na.op == Op::ZExt && nb.op == Op::ZExt && width(na.k[0]) == width(nb.k[0]) {
        match op {
            Op::Eq | Op::Ult | Op::Ule => return bin(op, na.k[0], nb.k[0]),
            Op::And | Op::Or | Op::Xor => return zext(bin(op, na.k[0], nb.k[0]), w),
            _ => {}
        }
    }
    if w == 1 {
        match op {
            Op::And if not(a) == b => return cst(0, 1),
            Op::Or if not(a) == b => return cst(1, 1),
            _ => {}
        }
    }
    mk(op, rw, [a, b, 0])
}

pub fn ite(c: E, a: E, b: E) -> E {
    if let Some(v) = as_const(c) {
        return if v == 1 { a } else { b };
    }
    if a == b {
        return a;
    }
    let w = width(a);
    if w == 1 {
        match (as_const(a), as_const(b)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, b),
            (Some(0), None) => return bin(Op::And, not(c), b),
            (None, Some(0)) => return bin(Op::And, c, a),
            (None, Some(1)) => return bin(Op::Or, not(c), a),
            _ => {}
        }
    }
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.k[1]) == Some(1) {
        return ite(nc.k[0], b, a);
    }
    if let (Some(1), Some(0)) = (as_const(a), as_const(b)) {
        return zext(c, w);
    }
    // nested with the same condition
    let na = node(a);
    if na.op == Op::Ite && na.k[0] == c {
        return ite(c, na.k[1], b);
    }
    let nb = node(b);
    if nb.op == Op::Ite && nb.k[0] == c {
        return ite(c, a, nb.k[2]);
    }
    mk(Op::Ite, w, [c, a, b])
}

pub fn zext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    let n = node(a);
    match n.op {
        Op::Const(c) => cst(c, w),
        Op::ZExt => zext(n.k[0], w),
        Op::Ite => {
            let mut b = 256;
            if const_tree(a, &mut b) {
                return map_tree(a, &mut |l| zext(l, w));
            }
            mk(Op::ZExt, w, [a, 0, 0])
        }
        _ => mk(Op::ZExt, w, [a, 0, 0]),
    }
}
pub fn sext(a: E, w: u32) -> E {
    let aw = width(a);
    if aw == w {
        return a;
    }
    let n = node(a);
    match n.op {
        Op::Const(c) => cst(sx(c, aw) as u128, w),
        Op::ZExt => zext(n.k[0], w),
        Op::SExt => sext(n.k[0], w),
        _ if aw == 1 => ite(a, cst(u128::MAX, w), cst(0, w)),
        _ => mk(Op::SExt, w, [a, 0, 0]),
    }
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    if lo == 0 && w == width(a) {
        return a;
    }
    if !matches!(node(a).op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Sub | Op::Mul | Op::Ite | Op::Concat) {
        return extract_of(a, lo, w);
    }
    if let Some(e) = ar().cut.get(&(a, lo, w)) {
        return *e;
    }
    let e = extract_of(a, lo, w);
    ar().cut.insert((a, lo, w), e);
    e
}
fn extract_of(a: E, lo: u32, w: u32) -> E {
    let aw = width(a);
    let n = node(a);
    match n.op {
        Op::Const(c) => cst(c >> lo, w),
        Op::Extract(l2) => extract(n.k[0], lo + l2, w),
        Op::ZExt => {
            let iw = width(n.k[0]);
            if lo >= iw {
                cst(0, w)
            } else if lo + w <= iw {
                extract(n.k[0], lo, w)
            } else {
                zext(extract(n.k[0], lo, iw - lo), w)
            }
        }
        Op::SExt => {
            let iw = width(n.k[0]);
            if lo + w <= iw {
                extract(n.k[0], lo, w)
            } else {
                mk(Op::Extract(lo), w, [a, 0, 0])
            }
        }
        Op::Concat => {
            let lw = width(n.k[1]);
            if lo + w <= lw {
                extract(n.k[1], lo, w)
            } else if lo >= lw {
                extract(n.k[0], lo - lw, w)
            } else {
                let l = extract(n.k[1], lo, lw - lo);
                let h = extract(n.k[0], 0, w - (lw - lo));
                concat(h, l)
            }
        }
        Op::And | Op::Or | Op::Xor => {
            let x = extract(n.k[0], lo, w);
            let y = extract(n.k[1], lo, w);
            bin(n.op, x, y)
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let x = extract(n.k[0], 0, w);
            let y = extract(n.k[1], 0, w);
            bin(n.op, x, y)
        }
        Op::Shl if as_const(n.k[1]).is_some() => {
            let s = as_const(n.k[1]).unwrap() as u32;
            if lo >= s {
                extract(n.k[0], lo - s, w)
            } else if lo + w <= s {
                cst(0, w)
            } else {
                mk(Op::Extract(lo), w, [a, 0, 0])
            }
        }
        Op::LShr if as_const(n.k[1]).is_some() => {
            let s = as_const(n.k[1]).unwrap() as u32;
            if lo + w + s <= aw {
                extract(n.k[0], lo + s, w)
            } else {
                mk(Op::Extract(lo), w, [a, 0, 0])
            }
        }
        Op::Ite => {
            let mut b = 256;
            if const_tree(a, &mut b) {
                return map_tree(a, &mut |l| extract(l, lo, w));
            }
            // pushing through is worthwhile when one side is constant
            let x = extract(n.k[1], lo, w);
            let y = extract(n.k[2], lo, w);
            ite(n.k[0], x, y)
        }
        _ => mk(Op::Extract(lo), w, [a, 0, 0]),
    }
}
pub fn concat(h: E, l: E) -> E {
    let (hw, lw) = (width(h), width(l));
    let w = hw + lw;
    let (nh, nl) = (node(h), node(l));
    if let Op::Const(x) = nh.op {
        if let Op::Const(y) = nl.op {
            return cst((x << lw) | y, w);
        }
        if x == 0 {
            return zext(l, w);
        }
    }
    if let (Op::Extract(a), Op::Extract(b)) = (nh.op, nl.op) {
        if nh.k[0] == nl.k[0] && a == b + lw {
            return extract(nh.k[0], b, w);
        }
    }
    // zext(x) high zeros: concat(extract_hi(0-part)...) handled by zext above
    if let (Op::Ite, Op::Ite) = (nh.op, nl.op) {
        if nh.k[0] == nl.k[0] {
            let a = concat(nh.k[1], nl.k[1]);
            let b = concat(nh.k[2], nl.k[2]);
            return ite(nh.k[0], a, b);
        }
    }
    // an extract on top of the adjacent lower part of the same value, in whatever form that part has
    if let Op::Extract(a) = nh.op {
        if a >= lw && extract(nh.k[0], a - lw, lw) == l {
            return extract(nh.k[0], a - lw, w);
        }
    }
    if nh.op == Op::ZExt {
        return zext(concat(nh.k[0], l), w);
    }
    mk(Op::Concat, w, [h, l, 0])
}

impl Arena {
    fn new_stamp(&mut self) {
        self.stamp += 1;
        if self.memo.len() < self.nodes.len() {
            self.memo.resize(self.nodes.len(), (0, 0));
        }
    }
}

/// evaluate under a full assignment (missing = 0)
pub fn eval(e: E, asg: &[u128]) -> u128 {
    let a = ar();
    a.new_stamp();
    ev(a, e, asg)
}
fn ev(a: &mut Arena, e: E, asg: &[u128]) -> u128 {
    let n = a.nodes[e as usize];
    match n.op {
        Op::Const(c) => return c,
        Op::Var(i) => return asg.get(i as usize).copied().unwrap_or(0) & mask(n.w),
        _ => {}
    }
    let st = a.stamp;
    if a.memo[e as usize].0 == st {
        return a.memo[e as usize].1;
    }
    let r = match n.op {
        Op::Ite => {
            if ev(a, n.k[0], asg) == 1 {
                ev(a, n.k[1], asg)
            } else {
                ev(a, n.k[2], asg)
            }
        }
        Op::Concat => {
            let h = ev(a, n.k[0], asg);
            let l = ev(a, n.k[1], asg);
            (h << a.nodes[n.k[1] as usize].w) | l
        }
        Op::Extract(lo) => (ev(a, n.k[0], asg) >> lo) & mask(n.w),
        Op::ZExt => ev(a, n.k[0], asg),
        Op::SExt => {
            let iw = a.nodes[n.k[0] as usize].w;
            (sx(ev(a, n.k[0], asg), iw) as u128) & mask(n.w)
        }
        _ => {
            let w = a.nodes[n.k[0] as usize].w;
            let x = ev(a, n.k[0], asg);
            let y = ev(a, n.k[1], asg);
            fold(n.op, w, x, y)
        }
    };
    a.memo[e as usize] = (st, r);
    r
}

/// substitute known variable values; memo keyed by caller
pub fn subst(e: E, known: &FxMap<u32, u128>, kset: VarSet, memo: &mut FxMap<E, E>) -> E {
    if varset(e) & kset == 0 {
        return e;
    }
    if let Some(r) = memo.get(&e) {
        return *r;
    }
    let n = node(e);
    let r = match n.op {
        Op::Const(_) => e,
        Op::Var(i) => cst(known[&i], n.w),
        Op::Ite => {
            let c = subst(n.k[0], known, kset, memo);
            match as_const(c) {
                Some(1) => subst(n.k[1], known, kset, memo),
                Some(_) => subst(n.k[2], known, kset, memo),
                None => {
                    let a = subst(n.k[1], known, kset, memo);
                    let b = subst(n.k[2], known, kset, memo);
                    ite(c, a, b)
                }
            }
        }
        Op::Concat => {
            let a = subst(n.k[0], known, kset, memo);
            let b = subst(n.k[1], known, kset, memo);
            concat(a, b)
        }
        Op::Extract(lo) => {
            let a = subst(n.k[0], known, kset, memo);
            extract(a, lo, n.w)
        }
        Op::ZExt => zext(subst(n.k[0], known, kset, memo), n.w),
        Op::SExt => sext(subst(n.k[0], known, kset, memo), n.w),
        _ => {
            let a = subst(n.k[0], known, kset, memo);
            let b = subst(n.k[1], known, kset, memo);
            bin(n.op, a, b)
        }
    };
    memo.insert(e, r);
    r
}

/// collect the constant leaves of an ite tree; None if some leaf is not constant
pub fn leaves(e: E, out: &mut Vec<u128>, limit: usize) -> bool {
    if out.len() > limit {
        return false;
    }
    let n = node(e);
    match n.op {
        Op::Const(c) => {
            if !out.contains(&c) {
                out.push(c)
            }
            true
        }
        Op::Ite => leaves(n.k[1], out, limit) && leaves(n.k[2], out, limit),
        _ => false,
    }
}

pub fn show(e: E) -> String {
    let n = node(e);
    match n.op {
        Op::Const(c) => format!("{:#x}:{}", c, n.w),
        Op::Var(i) => format!("v{}:{}", i, n.w),
        Op::Ite => format!("ite({},{},{})", show(n.k[0]), show(n.k[1]), show(n.k[2])),
        Op::Extract(l) => format!("{}[{}+{}]", show(n.k[0]), l, n.w),
        Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, show(n.k[0])),
        o => format!("({:?} {} {})", o, show(n.k[0]), show(n.k[1])),
    }
}
