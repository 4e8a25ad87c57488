//! A small bit-blaster and CDCL solver, used for path feasibility only: the many tiny queries a fork
//! asks cost z3 milliseconds of overhead each. Every satisfiable answer is a model that the expression
//! evaluator confirms; unsatisfiable answers are compared with z3 on a sample, and the verdict on a
//! property obligation always comes from z3 itself.
use crate::expr::*;

type L = u32; // AIG literal: node << 1 | negated; node 0 is false
const F: L = 0;
const T: L = 1;

#[derive(Default)]
pub struct Blaster {
    nodes: Vec<(L, L)>, // (a, b) for a & b; (u32::MAX, input) for inputs
    hash: FxMap<(L, L), L>,
    bits: FxMap<E, std::rc::Rc<Vec<L>>>,
    inputs: FxMap<(u32, u32), Vec<L>>,
    map: Vec<u32>,   // aig node -> sat var + 1 (for the current query)
    touched: Vec<u32>,
    pub sat: Cdcl,
}

impl Blaster {
    pub fn new() -> Blaster {
        let mut b = Blaster::default();
        b.nodes.push((0, 0));
        b.map.push(0);
        b
    }
    fn and(&mut self, a: L, b: L) -> L {
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if a == F || a == (b ^ 1) {
            return F;
        }
        if a == T || a == b {
            return b;
        }
        if let Some(l) = self.hash.get(&(a, b)) {
            return *l;
        }
        let l = (self.nodes.len() as L) << 1;
        self.nodes.push((a, b));
        self.map.push(0);
        self.hash.insert((a, b), l);
        l
    }
    fn or(&mut self, a: L, b: L) -> L {
        self.and(a ^ 1, b ^ 1) ^ 1
    }
    fn xor(&mut self, a: L, b: L) -> L {
        if a <= 1 {
            return b ^ a;
        }
        if b <= 1 {
            return a ^ b;
        }
        let x = self.and(a, b ^ 1);
        let y = self.and(a ^ 1, b);
        self.or(x, y)
    }
    fn mux(&mut self, c: L, a: L, b: L) -> L {
        if c == T || a == b {
            return a;
        }
        if c == F {
            return b;
        }
        let x = self.and(c, a);
        let y = self.and(c ^ 1, b);
        self.or(x, y)
    }
    fn add(&mut self, a: &[L], b: &[L], mut c: L) -> Vec<L> {
        let mut r = Vec::with_capacity(a.len());
        for i in 0..a.len() {
            let x = self.xor(a[i], b[i]);
            r.push(self.xor(x, c));
            if i + 1 < a.len() {
                let g = self.and(a[i], b[i]);
                let p = self.and(x, c);
                c = self.or(g, p);
            }
        }
        r
    }
    fn ult(&mut self, a: &[L], b: &[L], eq: bool) -> L {
        let mut r = if eq { T } else { F };
        for i in 0..a.len() {
            // r' = (~a & b) | (~(a ^ b) & r)
            let x = self.xor(a[i], b[i]);
            r = self.mux(x, b[i], r);
        }
        r
    }
    fn blast(&mut self, e: E) -> Option<std::rc::Rc<Vec<L>>> {
        if let Some(b) = self.bits.get(&e) {
            return Some(b.clone());
        }
        let n = node(e);
        let w = n.w as usize;
        let v: Vec<L> = match n.op {
            Op::Const(c) => (0..w).map(|i| (c >> i & 1) as L).collect(),
            Op::Var(i) => match self.inputs.get(&(i, n.w)) {
                Some(v) => v.clone(),
                None => {
                    let mut v = vec![];
                    for _ in 0..w {
                        let l = (self.nodes.len() as L) << 1;
                        self.nodes.push((u32::MAX, i));
                        self.map.push(0);
                        v.push(l);
                    }
                    self.inputs.insert((i, n.w), v.clone());
                    v
                }
            },
            Op::Extract(lo) => {
                let a = self.blast(n.k[0])?;
                a[lo as usize..lo as usize + w].to_vec()
            }
            Op::ZExt => {
                let mut a = (*self.blast(n.k[0])?).clone();
                a.resize(w, F);
                a
            }
            Op::SExt => {
                let mut a = (*self.blast(n.k[0])?).clone();
                let s = a[a.len() - 1];
                a.resize(w, s);
                a
            }
            Op::Concat => {
                // the first operand is the high part
                let h = self.blast(n.k[0])?;
                let mut l = (*self.blast(n.k[1])?).clone();
                l.extend_from_slice(&h);
                l
            }
            Op::Ite => {
                let c = self.blast(n.k[0])?[0];
                let a = self.blast(n.k[1])?;
                let b = self.blast(n.k[2])?;
                (0..w).map(|i| self.mux(c, a[i], b[i])).collect()
            }
            op => {
                let a = self.blast(n.k[0])?;
                let b = self.blast(n.k[1])?;
                match op {
                    Op::And => (0..w).map(|i| self.and(a[i], b[i])).collect(),
                    Op::Or => (0..w).map(|i| self.or(a[i], b[i])).collect(),
                    Op::Xor => (0..w).map(|i| self.xor(a[i], b[i])).collect(),
                    Op::Add => self.add(&a, &b, F),
                    Op::Sub => {
                        let nb: Vec<L> = b.iter().map(|x| x ^ 1).collect();
                        self.add(&a, &nb, T)
                    }
                    Op::Mul => {
                        let (c, x) = if as_const(n.k[0]).is_some() { (a, b) } else { (b, a) };
                        if w > 16 && !c.iter().all(|l| *l <= 1) {
                            return None;
                        }
                        let mut acc = vec![F; w];
                        for i in 0..w {
                            if c[i] == F {
                                continue;
                            }
                            let mut s = vec![F; w];
                            for j in i..w {
                                s[j] = self.and(x[j - i], c[i]);
                            }
                            acc = self.add(&acc, &s, F);
                        }
                        acc
                    }
                    Op::Shl | Op::LShr | Op::AShr => {
                        let fill = if op == Op::AShr { a[w - 1] } else { F };
                        let mut cur = (*a).clone();
                        let mut k = 0;
                        while (1usize << k) < w {
                            let s = b[k];
                            let d = 1usize << k;
                            let mut nx = vec![F; w];
                            for i in 0..w {
                                let m = if op == Op::Shl {
                                    if i >= d { cur[i - d] } else { F }
                                } else if i + d < w {
                                    cur[i + d]
                                } else {
                                    fill
                                };
                                nx[i] = self.mux(s, m, cur[i]);
                            }
                            cur = nx;
                            k += 1;
                        }
                        // amounts of at least the width
                        let wc: Vec<L> = (0..w).map(|i| (w as u128 >> i & 1) as L).collect();
                        let big = if k < w || !w.is_power_of_two() { self.ult(&wc, &b, true) } else { F };
                        (0..w).map(|i| self.mux(big, fill, cur[i])).collect()
                    }
                    Op::Eq => {
                        let mut r = T;
                        for i in 0..a.len() {
                            let x = self.xor(a[i], b[i]);
                            r = self.and(r, x ^ 1);
                        }
                        vec![r]
                    }
                    Op::Ult => vec![self.ult(&a, &b, false)],
                    Op::Ule => vec![self.ult(&a, &b, true)],
                    Op::Slt | Op::Sle => {
                        let mut x = (*a).clone();
                        let mut y = (*b).clone();
                        let k = x.len() - 1;
                        x[k] ^= 1;
                        y[k] ^= 1;
                        vec![self.ult(&x, &y, op == Op::Sle)]
                    }
                    _ => return None,
                }
            }
        };
        debug_assert_eq!(v.len(), w);
        let r = std::rc::Rc::new(v);
        self.bits.insert(e, r.clone());
        Some(r)
    }
    fn satvar(&mut self, root: L) -> u32 {
        let mut stack = vec![root >> 1];
        while let Some(n) = stack.pop() {
            if self.map[n as usize] != 0 {
                continue;
            }
            let (a, b) = self.nodes[n as usize];
            if n == 0 || a == u32::MAX {
                let v = self.sat.new_var();
                self.map[n as usize] = v + 1;
                self.touched.push(n);
                if n == 0 {
                    self.sat.clause(&[v << 1 | 1]);
                }
                continue;
            }
            let (ma, mb) = (self.map[(a >> 1) as usize], self.map[(b >> 1) as usize]);
            if ma != 0 && mb != 0 {
                let v = self.sat.new_var();
                self.map[n as usize] = v + 1;
                self.touched.push(n);
                let la = (ma - 1) << 1 | (a & 1);
                let lb = (mb - 1) << 1 | (b & 1);
                let ln = v << 1;
                self.sat.clause(&[ln ^ 1, la]);
                self.sat.clause(&[ln ^ 1, lb]);
                self.sat.clause(&[ln, la ^ 1, lb ^ 1]);
            } else {
                stack.push(n);
                if ma == 0 {
                    stack.push(a >> 1);
                }
                if mb == 0 {
                    stack.push(b >> 1);
                }
            }
        }
        (self.map[(root >> 1) as usize] - 1) << 1 | (root & 1)
    }
    /// Valid facts about the terms that are compared with each other: their order is transitive and total.
    /// Bit-level clauses alone make the solver rediscover this for every combination of bits.
    fn order_lemmas(&mut self, cs: &[E]) {
        let mut seen: FxMap<E, ()> = FxMap::default();
        let mut terms: Vec<E> = vec![];
        let mut st: Vec<E> = cs.to_vec();
        while let Some(e) = st.pop() {
            if seen.insert(e, ()).is_some() {
                continue;
            }
            let n = node(e);
            if matches!(n.op, Op::Const(_) | Op::Var(_)) {
                continue;
            }
            let arity = match n.op {
                Op::Extract(_) | Op::ZExt | Op::SExt => 1,
                Op::Ite => 3,
                _ => 2,
            };
            for k in 0..arity {
                st.push(n.k[k]);
            }
            if matches!(n.op, Op::Eq | Op::Ult | Op::Ule) && width(n.k[0]) > 1 {
                for k in 0..2 {
                    let mut t = n.k[k];
                    while let Op::ZExt = node(t).op {
                        t = node(t).k[0];
                    }
                    if let Some(c) = as_const(t) {
                        t = cst(c, 128);
                    }
                    if width(t) > 1 && !terms.contains(&t) {
                        terms.push(t);
                    }
                }
            }
        }
        // x + 1 and x - 1: nothing lies between them and x
        let mut near: Vec<(usize, usize, bool)> = vec![];
        let mut i = 0;
        while i < terms.len() {
            let t = node(terms[i]);
            if t.op == Op::Add {
                let c = as_const(t.k[1]);
                let up = c == Some(1);
                if up || c == Some(mask(t.w)) {
                    let mut b = t.k[0];
                    while let Op::ZExt = node(b).op {
                        b = node(b).k[0];
                    }
                    let j = match terms.iter().position(|x| *x == b) {
                        Some(j) => j,
                        None => {
                            terms.push(b);
                            terms.len() - 1
                        }
                    };
                    near.push((i, j, up));
                }
            }
            i += 1;
        }
        let n = terms.len();
        if n < 3 || n > 28 {
            return;
        }
        let bits: Vec<Vec<L>> = terms
            .iter()
            .map(|t| {
                let mut v = self.blast(*t).map(|b| (*b).clone()).unwrap_or_default();
                v.resize(128, F);
                v
            })
            .collect();
        let mut top = 1;
        for b in &bits {
            for (i, l) in b.iter().enumerate() {
                if *l != F {
                    top = top.max(i + 1);
                }
            }
        }
        // le[p][q]: p <= q, as a solver literal
        let mut le = vec![vec![0u32; n]; n];
        for p in 0..n {
            for q in 0..n {
                if p != q {
                    let l = self.ult(&bits[p][..top], &bits[q][..top], true);
                    le[p][q] = self.satvar(l);
                }
            }
        }
        for (p, q, up) in near {
            // unless the sum wraps, the larger of the two is the next value after the smaller
            let (lo, hi) = if up { (q, p) } else { (p, q) };
            for t in 0..n {
                if t != p && t != q {
                    self.sat.clause(&[le[hi][lo], le[t][lo], le[hi][t]]);
                }
            }
        }
        for p in 0..n {
            for q in 0..n {
                if p == q {
                    continue;
                }
                self.sat.clause(&[le[p][q], le[q][p]]);
                for r in 0..n {
                    if r != p && r != q {
                        self.sat.clause(&[le[p][q] ^ 1, le[q][r] ^ 1, le[p][r]]);
                    }
                }
            }
        }
    }
    /// None: outside the supported operations (or too hard)
    pub fn check(&mut self, cs: &[E], model: &[u128]) -> Option<Option<Vec<(u32, u128)>>> {
        if self.nodes.len() > 6_000_000 {
            *self = Blaster::new();
        }
        self.sat.reset();
        for n in self.touched.drain(..) {
            self.map[n as usize] = 0;
        }
        let mut roots = vec![];
        for e in cs {
            let mut st = vec![self.blast(*e)?[0]];
            while let Some(l) = st.pop() {
                let (a, b) = self.nodes[(l >> 1) as usize];
                if l & 1 == 0 && l > 1 && a != u32::MAX {
                    st.push(a);
                    st.push(b);
                } else {
                    roots.push(l);
                }
            }
        }
        roots.sort_unstable();
        roots.dedup();
        for r in roots {
            if r == F {
                return Some(None);
            }
            if r == T {
                continue;
            }
            let l = self.satvar(r);
            self.sat.clause(&[l]);
        }
        let mut vs = vec![];
        for ((i, w), bits) in &self.inputs {
            if bits.iter().any(|l| self.map[(*l >> 1) as usize] != 0) {
                vs.push((*i, *w));
                let m = model.get(*i as usize).copied().unwrap_or(0);
                for (k, l) in bits.iter().enumerate() {
                    let v = self.map[(*l >> 1) as usize];
                    if v != 0 {
                        self.sat.phase[(v - 1) as usize] = (m >> k & 1) as u8;
                    }
                }
            }
        }
        let r = match self.sat.solve(300) {
            Some(r) => r,
            None => {
                self.sat.cancel(0);
                self.order_lemmas(cs);
                self.sat.solve(200_000)?
            }
        };
        match r {
            false => Some(None),
            true => Some(Some(
                vs.into_iter()
                    .map(|(i, w)| {
                        let m = model.get(i as usize).copied().unwrap_or(0);
                        let mut x = 0u128;
                        for (k, l) in self.inputs[&(i, w)].iter().enumerate() {
                            let v = self.map[(*l >> 1) as usize];
                            let b = if v != 0 { self.sat.value(v - 1) } else { m >> k & 1 == 1 };
                            x |= (b as u128) << k;
                        }
                        (i, x)
                    })
                    .collect(),
            )),
        }
    }
}

/// Clause-learning solver. Literals are var << 1 | negated.
#[derive(Default)]
pub struct Cdcl {
    assign: Vec<u8>, // per literal: 0 unknown, 1 true, 2 false
    level: Vec<u32>,
    reason: Vec<u32>,
    pub phase: Vec<u8>,
    act: Vec<f64>,
    heap: Vec<u32>,
    pos: Vec<u32>,
    seen: Vec<u8>,
    watch: Vec<Vec<(u32, u32)>>, // (clause offset, blocker)
    cl: Vec<u32>,
    trail: Vec<u32>,
    lim: Vec<usize>,
    head: usize,
    inc: f64,
    bad: bool,
    pub nv: usize,
    units: Vec<u32>,

}
const NONE: u32 = u32::MAX;
impl Cdcl {
    fn reset(&mut self) {
        for w in self.watch.iter_mut().take(self.nv * 2) {
            w.clear();
        }
        self.nv = 0;
        self.assign.clear();
        self.level.clear();
        self.reason.clear();
        self.phase.clear();
        self.act.clear();
        self.heap.clear();
        self.pos.clear();
        self.seen.clear();
        self.cl.clear();
        self.trail.clear();
        self.lim.clear();
        self.units.clear();
        self.head = 0;
        self.inc = 1.0;
        self.bad = false;
    }
    fn new_var(&mut self) -> u32 {
        let v = self.nv as u32;
        self.nv += 1;
        if self.watch.len() < self.nv * 2 {
            self.watch.push(vec![]);
            self.watch.push(vec![]);
        }
        self.assign.push(0);
        self.assign.push(0);
        self.level.push(0);
        self.reason.push(NONE);
        self.phase.push(0);
        self.act.push(0.0);
        self.seen.push(0);
        self.pos.push(self.heap.len() as u32);
        self.heap.push(v);
        v
    }
    fn value(&self, v: u32) -> bool {
        self.assign[(v << 1) as usize] == 1
    }
    fn clause(&mut self, ls: &[u32]) {
        match ls.len() {
            1 => self.units.push(ls[0]),
            _ => {
                self.attach(ls);
            }
        }
    }
    fn attach(&mut self, ls: &[u32]) -> u32 {
        let o = self.cl.len() as u32;
        self.cl.push(ls.len() as u32);
        self.cl.extend_from_slice(ls);
        self.watch[(ls[0] ^ 1) as usize].push((o, ls[1]));
        self.watch[(ls[1] ^ 1) as usize].push((o, ls[0]));
        o
    }
    fn up(&mut self, mut i: usize) {
        let v = self.heap[i];
        while i > 0 {
            let p = (i - 1) / 2;
            if self.act[self.heap[p] as usize] >= self.act[v as usize] {
                break;
            }
            self.heap[i] = self.heap[p];
            self.pos[self.heap[i] as usize] = i as u32;
            i = p;
        }
        self.heap[i] = v;
        self.pos[v as usize] = i as u32;
    }
    fn down(&mut self, mut i: usize) {
        let v = self.heap[i];
        loop {
            let mut c = 2 * i + 1;
            if c >= self.heap.len() {
                break;
            }
            if c + 1 < self.heap.len() && self.act[self.heap[c + 1] as usize] > self.act[self.heap[c] as usize] {
                c += 1;
            }
            if self.act[self.heap[c] as usize] <= self.act[v as usize] {
                break;
            }
            self.heap[i] = self.heap[c];
            self.pos[self.heap[i] as usize] = i as u32;
            i = c;
        }
        self.heap[i] = v;
        self.pos[v as usize] = i as u32;
    }
    fn bump(&mut self, v: u32) {
        self.act[v as usize] += self.inc;
        if self.act[v as usize] > 1e100 {
            for a in &mut self.act {
                *a *= 1e-100;
            }
            self.inc *= 1e-100;
        }
        let p = self.pos[v as usize];
        if p != NONE {
            self.up(p as usize);
        }
    }
    fn set(&mut self, l: u32, r: u32) {
        self.assign[l as usize] = 1;
        self.assign[(l ^ 1) as usize] = 2;
        let v = (l >> 1) as usize;
        self.level[v] = self.lim.len() as u32;
        self.reason[v] = r;
        self.trail.push(l);
    }
    fn propagate(&mut self) -> u32 {
        while self.head < self.trail.len() {
            let p = self.trail[self.head];
            self.head += 1;
            let mut ws = std::mem::take(&mut self.watch[p as usize]);
            let mut i = 0;
            let mut j = 0;
            let mut conf = NONE;
            'w: while i < ws.len() {
                let (c, blk) = ws[i];
                i += 1;
                if self.assign[blk as usize] == 1 {
                    ws[j] = (c, blk);
                    j += 1;
                    continue;
                }
                let n = self.cl[c as usize] as usize;
                let b = c as usize + 1;
                let fl = p ^ 1;
                if self.cl[b] == fl {
                    self.cl.swap(b, b + 1);
                }
                let first = self.cl[b];
                if self.assign[first as usize] == 1 {
                    ws[j] = (c, first);
                    j += 1;
                    continue;
                }
                for k in 2..n {
                    let q = self.cl[b + k];
                    if self.assign[q as usize] != 2 {
                        self.cl.swap(b + 1, b + k);
                        self.watch[(q ^ 1) as usize].push((c, first));
                        continue 'w;
                    }
                }
                ws[j] = (c, first);
                j += 1;
                if self.assign[first as usize] == 2 {
                    conf = c;
                    while i < ws.len() {
                        ws[j] = ws[i];
                        j += 1;
                        i += 1;
                    }
                    self.head = self.trail.len();
                } else {
                    self.set(first, c);
                }
            }
            ws.truncate(j);
            // nothing is added to watch[p] while p is being propagated
            self.watch[p as usize] = ws;
            if conf != NONE {
                return conf;
            }
        }
        NONE
    }
    fn cancel(&mut self, lvl: usize) {
        if self.lim.len() <= lvl {
            return;
        }
        let t = self.lim[lvl];
        while self.trail.len() > t {
            let l = self.trail.pop().unwrap();
            self.assign[l as usize] = 0;
            self.assign[(l ^ 1) as usize] = 0;
            let v = l >> 1;
            self.phase[v as usize] = 1 - (l & 1) as u8;
            if self.pos[v as usize] == NONE {
                self.pos[v as usize] = self.heap.len() as u32;
                self.heap.push(v);
                self.up(self.heap.len() - 1);
            }
        }
        self.lim.truncate(lvl);
        self.head = t;
    }
    fn solve(&mut self, max_conf: u64) -> Option<bool> {
        for l in std::mem::take(&mut self.units) {
            match self.assign[l as usize] {
                0 => self.set(l, NONE),
                2 => return Some(false),
                _ => {}
            }
        }
        let mut conflicts = 0u64;
        let mut next_restart = 100u64;
        loop {
            let c = self.propagate();
            if c != NONE {
                if self.lim.is_empty() {
                    return Some(false);
                }
                conflicts += 1;
                if conflicts > max_conf {
                    return None;
                }
                // first unique implication point
                let mut learnt = vec![0u32];
                let mut cnt = 0;
                let mut idx = self.trail.len();
                let mut cl = c;
                let mut p = NONE;
                let cur = self.lim.len() as u32;
                let mut clear = vec![];
                loop {
                    let n = self.cl[cl as usize] as usize;
                    for k in 0..n {
                        let q = self.cl[cl as usize + 1 + k];
                        if q == p {
                            continue;
                        }
                        let v = q >> 1;
                        if self.seen[v as usize] == 0 && self.level[v as usize] > 0 {
                            self.seen[v as usize] = 1;
                            clear.push(v);
                            self.bump(v);
                            if self.level[v as usize] == cur {
                                cnt += 1;
                            } else {
                                learnt.push(q);
                            }
                        }
                    }
                    loop {
                        idx -= 1;
                        if self.seen[(self.trail[idx] >> 1) as usize] == 1 {
                            break;
                        }
                    }
                    p = self.trail[idx];
                    cnt -= 1;
                    if cnt == 0 {
                        break;
                    }
                    cl = self.reason[(p >> 1) as usize];
                }
                learnt[0] = p ^ 1;
                for v in clear {
                    self.seen[v as usize] = 0;
                }
                self.inc *= 1.05;
                if learnt.len() == 1 {
                    self.cancel(0);
                    self.set(learnt[0], NONE);
                } else {
                    let mut m = 1;
                    for k in 2..learnt.len() {
                        if self.level[(learnt[k] >> 1) as usize] > self.level[(learnt[m] >> 1) as usize] {
                            m = k;
                        }
                    }
                    learnt.swap(1, m);
                    let bl = self.level[(learnt[1] >> 1) as usize] as usize;
                    self.cancel(bl);
                    let o = self.attach(&learnt);
                    self.set(learnt[0], o);
                }
                continue;
            }
            if conflicts >= next_restart {
                next_restart = conflicts + next_restart / 2 + 50;
                self.cancel(0);
            }
            // decide
            let mut v = NONE;
            while !self.heap.is_empty() {
                let t = self.heap[0];
                let l = self.heap.pop().unwrap();
                self.pos[t as usize] = NONE;
                if !self.heap.is_empty() {
                    self.heap[0] = l;
                    self.pos[l as usize] = 0;
                    self.down(0);
                }
                if self.assign[(t << 1) as usize] == 0 {
                    v = t;
                    break;
                }
            }
            if v == NONE {
                return Some(true);
            }
            self.lim.push(self.trail.len());
            let l = v << 1 | (1 - self.phase[v as usize] as u32);
            self.set(l, NONE);
        }
    }
}
