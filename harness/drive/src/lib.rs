//! Drives generated parsers with arbitrary token strings and judges what they answer and what their visitors see.
use gram::{Derives, Ebnf, E, NT};

/// One generated parser: the rules its visitor functions stand for (symbols as in gram::Plain).
pub struct Case { pub index: usize, pub kind: u8, pub nts: usize, pub ts: usize, pub rules: &'static [(u8, &'static [u8])], pub run: fn(&mut Rec, &mut dyn FnMut() -> (u8, u8)) -> Out }
pub enum Out {
    Accept,
    /// the offending tokens (255: end of input) with their data, and what was expected instead
    Unexpected(Vec<(u8, u8)>, Vec<Vec<u8>>),
    /// refused without particulars
    Refused,
    Other,
}
/// What the visitor was told: the symbols not yet reduced (tokens by position) and the number of tokens.
/// Of a recursive descent: the nodes entered and not yet left, with where their children begin among the symbols.
pub struct Rec { pub cs: Vec<u8>, pub rules: &'static [(u8, &'static [u8])], stack: Vec<Sym>, shifted: usize, ll: Option<&'static Ebnf>, open: Vec<(u8, usize)>, ended: bool }
#[derive(Clone, Copy, PartialEq)]
enum Sym { Tok(usize), Nt(u8) }
impl Rec {
    pub fn new(cs: &[u8], rules: &'static [(u8, &'static [u8])]) -> Rec { Rec { cs: cs.to_vec(), rules, stack: vec![], shifted: 0, ll: None, open: vec![], ended: false } }
    /// for the functions enter_x and exit_x of the grammar's rules
    pub fn new_ll(cs: &[u8], g: &'static Ebnf) -> Rec { let mut r = Rec::new(cs, &[]); r.ll = Some(g); r }
    /// tokens in input order, each once, with their own data
    pub fn shift(&mut self, t: u8, data: u8) {
        if self.ll.is_some() {
            // the end of input may be reported as a last token
            if t == 255 && self.shifted == self.cs.len() && self.open.is_empty() && !self.ended { self.ended = true; return }
            if self.open.is_empty() { sym::fail(19); return }
        }
        if self.shifted >= self.cs.len() { sym::fail(10); return }
        sym::check(data as usize == self.shifted, 11);
        sym::check(t == self.cs[self.shifted], 12);
        self.stack.push(Sym::Tok(self.shifted));
        self.shifted += 1;
    }
    /// a reduction finds its right-hand side on top
    pub fn reduce(&mut self, r: usize) {
        if let Some(g) = self.ll { self.node(g, (r / 2) as u8, r % 2 == 1); return }
        let (l, rhs) = self.rules[r];
        if self.stack.len() < rhs.len() { sym::fail(13); return }
        let at = self.stack.len() - rhs.len();
        for (s, x) in self.stack[at..].iter().zip(rhs) {
            match s {
                Sym::Tok(i) => if *x < NT { sym::check(self.cs[*i] == *x, 14) } else { sym::fail(14) },
                Sym::Nt(n) => if *x != NT + *n { sym::fail(15) },
            }
        }
        self.stack.truncate(at);
        self.stack.push(Sym::Nt(l));
    }
    /// enter and exit nest, and what lies between is a right-hand side of the rule
    fn node(&mut self, g: &'static Ebnf, n: u8, exit: bool) {
        if !exit {
            if self.open.is_empty() && !self.stack.is_empty() { sym::fail(20); return }
            self.open.push((n, self.stack.len()));
            return;
        }
        let at = match self.open.pop() { Some((m, at)) if m == n => at, _ => { sym::fail(21); return } };
        let xs: Vec<u8> = self.stack[at..].iter().map(|s| match s { Sym::Tok(i) => self.cs[*i], Sym::Nt(k) => NT + *k }).collect();
        let mut ok = 0;
        for (l, e) in &g.prods { if *l == n { ok |= (ends(e, 1, &xs) >> xs.len()) & 1 } }
        sym::check(ok == 1, 22);
        self.stack.truncate(at);
        self.stack.push(Sym::Nt(n));
    }
    pub fn shifted(&self) -> usize { self.shifted }
    /// one tree of the entry over the whole input
    pub fn complete(&self) {
        if self.shifted != self.cs.len() { sym::fail(16) }
        if !self.open.is_empty() { sym::fail(23) }
        if self.stack.len() != 1 || self.stack[0] != Sym::Nt(0) { sym::fail(17) }
    }
}

/// Positions among the symbols `xs` at which a match of `e` that begins in `start` can end (branch free in the symbols).
fn ends(e: &E, start: u64, xs: &[u8]) -> u64 {
    let one = |c: u8| { let mut r = 0; for (i, x) in xs.iter().enumerate() { r |= ((start >> i) & 1 & (*x == c) as u64) << (i + 1) } r };
    match e {
        E::Eps => start,
        E::T(t) => one(*t),
        E::N(k) => one(NT + *k),
        E::Seq(v) => v.iter().fold(start, |s, e| ends(e, s, xs)),
        E::Alt(v) => v.iter().fold(0, |r, e| r | ends(e, start, xs)),
        E::Opt(e) => start | ends(e, start, xs),
        E::Star(e) => { let mut r = start; for _ in xs { r |= ends(e, r, xs) } r }
        E::Plus(e) => { let mut r = ends(e, start, xs); for _ in xs { r |= ends(e, r, xs) } r }
    }
}

/// prefix[nt][i]: tokens i.. begin a string of the nonterminal (every nonterminal derives some string)
struct Prefix { n: usize, p: Vec<u8> }
impl Prefix {
    fn tree(&self, d: &Derives, e: &E, cs: &[u8], i: usize) -> u8 {
        let n = self.n;
        match e {
            E::Eps => (i == n) as u8,
            E::T(t) => if i == n { 1 } else if i + 1 == n { (cs[i] == *t) as u8 } else { 0 },
            E::N(k) => self.p[*k as usize * (n + 1) + i],
            E::Alt(v) => { let mut r = 0; for e in v { r |= self.tree(d, e, cs, i) } r }
            E::Opt(e) => (i == n) as u8 | self.tree(d, e, cs, i),
            E::Seq(v) => {
                let mut r = 0;
                for m in 0..v.len() {
                    for k in i..=n { r |= if m == 0 { (k == i) as u8 } else { gram::tree_seq(d, &v[..m], cs, i, k) } & self.tree(d, &v[m], cs, k) }
                }
                r
            }
            E::Star(e) | E::Plus(e) => { let mut r = 0; for k in i..=n { r |= gram::star(d, e, cs, i, k) & self.tree(d, e, cs, k) } r }
        }
    }
}
/// Does a string of the grammar begin with `cs`?
pub fn viable(g: &Ebnf, cs: &[u8]) -> u8 {
    let d = gram::derives_ebnf(g, cs);
    let n = cs.len();
    let mut p = Prefix { n, p: vec![0; g.nts * (n + 1)] };
    for i in (0..=n).rev() {
        for _ in 0..g.nts {
            for (l, e) in &g.prods {
                let v = p.tree(&d, e, cs, i);
                p.p[*l as usize * (n + 1) + i] |= v;
            }
        }
    }
    p.p[0]
}

/// A nonterminal that may derive nothing stands before a recursive occurrence; a nonterminal derives itself.
pub const GLR_LOOPS: [&str; 2] = ["S:XSb|c;X:a|", "S:S|a"];

/// `mode` 0: every case; 1000 + kind: the large grammar; 2000 + k: grammar k of the corpus; other k: only case number k-1. Token strings of exactly `strlen` tokens or up to it.
pub fn parse(cases: &'static [Case], mode: u64, strlen: u64) {
    // the large grammar is a case of its own, found by kind
    let large = |c: &Case| c.index / 8 == corp::LARGE;
    let k = if mode >= 2000 { match cases.iter().position(|c| c.index / 8 == mode as usize - 2000) { Some(k) => k, None => return sym::fail(31) } }
        else if mode >= 1000 { match cases.iter().position(|c| large(c) && c.kind as u64 == mode - 1000) { Some(k) => k, None => return sym::fail(30) } }
        else if mode == 0 { sym::choose(cases.len() as u32) as usize } else { mode as usize - 1 };
    let c = &cases[k];
    if mode == 0 && large(c) { return }
    // known findings: run as cases of their own
    if mode == 0 && c.kind == 3 && GLR_LOOPS.contains(&corp::at(c.index / 8).text) { return }
    let g: &'static corp::G = Box::leak(Box::new(corp::at(c.index / 8)));
    sym::note(g.text);
    let n = sym::choose(strlen as u32 + 1) as usize;
    let cs: Vec<u8> = (0..n).map(|_| sym::u8(0, c.ts as u8 - 1)).collect();
    judge(c, &g.ebnf, &cs);
}
/// Sentences of a grammar, the same on every run.
struct Make<'a> { g: &'a Ebnf, height: Vec<u32>, x: u32, fuel: i32, out: Vec<u8> }
impl Make<'_> {
    fn rnd(&mut self, n: usize) -> usize { self.x = self.x.wrapping_mul(1664525).wrapping_add(1013904223); (self.x >> 16) as usize % n }
    fn high(&self, e: &E) -> u32 {
        match e {
            E::Eps | E::T(_) | E::Opt(_) | E::Star(_) => 0,
            E::N(k) => self.height[*k as usize],
            E::Seq(v) => v.iter().map(|e| self.high(e)).max().unwrap_or(0),
            E::Alt(v) => v.iter().map(|e| self.high(e)).min().unwrap_or(0),
            E::Plus(e) => self.high(e),
        }
    }
    /// while there is fuel any choice, then the one that ends first
    fn pick<'b>(&mut self, v: &[&'b E]) -> &'b E {
        if self.fuel > 0 { v[self.rnd(v.len())] } else { v.iter().min_by_key(|e| self.high(e)).unwrap() }
    }
    fn go(&mut self, e: &E) {
        match e {
            E::Eps => {}
            E::T(t) => { self.out.push(*t); self.fuel -= 1 }
            E::N(k) => {
                self.fuel -= 1;
                let g = self.g;
                let v: Vec<&E> = g.prods.iter().filter(|p| p.0 == *k).map(|p| &p.1).collect();
                let e = self.pick(&v);
                self.go(e)
            }
            E::Seq(v) => for e in v { self.go(e) },
            E::Alt(v) => { let v: Vec<&E> = v.iter().collect(); let e = self.pick(&v); self.go(e) }
            E::Opt(e) => if self.fuel > 0 && self.rnd(2) == 1 { self.go(e) },
            E::Star(e) => while self.fuel > 0 && self.rnd(4) > 0 { self.fuel -= 1; self.go(e) },
            E::Plus(e) => { self.go(e); while self.fuel > 0 && self.rnd(4) > 0 { self.fuel -= 1; self.go(e) } }
        }
    }
}
/// The longest of several sentences of at most `max` tokens; another one for every `which`.
pub fn sentence(g: &Ebnf, which: u32, max: usize) -> Vec<u8> {
    let mut height = vec![1000; g.nts];
    for _ in 0..g.nts { for (l, e) in &g.prods { let m = Make { g, height: height.clone(), x: 0, fuel: 0, out: vec![] }; let h = m.high(e) + 1; if h < height[*l as usize] { height[*l as usize] = h } } }
    let mut best: Vec<u8> = vec![];
    for k in 0..12 {
        let mut m = Make { g, height: height.clone(), x: which * 7919 + k * 104729 + 1, fuel: max as i32 * 2 - k as i32, out: vec![] };
        m.go(&E::N(0));
        if m.out.len() <= max && m.out.len() > best.len() { best = m.out }
    }
    best
}
/// A long sentence in which up to two tokens anywhere are replaced by up to two arbitrary ones (`less`: or by one or none).
pub fn edit(cases: &'static [Case], sentences: u64, max: u64, less: u64) {
    let c = &cases[sym::choose(cases.len() as u32) as usize];
    if c.index / 8 == corp::LARGE { return }
    if c.kind == 3 && GLR_LOOPS.contains(&corp::at(c.index / 8).text) { return }
    let g: &'static corp::G = Box::leak(Box::new(corp::at(c.index / 8)));
    sym::note(g.text);
    let mut cs = sentence(&g.ebnf, sym::choose(sentences as u32), max as usize);
    let at = (sym::choose(cs.len() as u32 / 2 + 1) * 2) as usize;
    let cut = 2.min(cs.len() - at);
    let put = 2 - if less > 0 { sym::choose(3) as usize } else { 0 };
    let tail = cs.split_off(at + cut);
    cs.truncate(at);
    for _ in 0..put { cs.push(sym::u8(0, c.ts as u8 - 1)) }
    cs.extend(tail);
    judge(c, &g.ebnf, &cs);
}
pub fn judge(c: &'static Case, g: &'static Ebnf, cs: &[u8]) {
    let n = cs.len();
    let mut rec = if c.kind == 4 { Rec::new_ll(cs, g) } else { Rec::new(cs, c.rules) };
    let mut at = 0;
    let toks = cs.to_vec();
    let out = (c.run)(&mut rec, &mut || if at < n { at += 1; (toks[at - 1], at as u8 - 1) } else { (255, n as u8) });
    let d = gram::derives_ebnf(g, cs);
    match out {
        Out::Accept => {
            sym::reach(1);
            sym::check(d.get(0, 0, n) == 1, 1);
            rec.complete();
            sym::observe(1);
        }
        Out::Unexpected(got, expected) => {
            sym::reach(2);
            sym::check(d.get(0, 0, n) == 0, 2);
            if got.is_empty() || expected.len() != if c.kind == 3 { got.len() } else { 1 } { sym::fail(3) }
            // the error is at the first token that no string of the grammar has there
            let k = if c.kind == 3 { sym::concretize(got[0].1 as u64) as usize } else { rec.shifted() };
            if k > n { sym::fail(4); return }
            for (t, data) in &got {
                sym::check(*t == if k < n { cs[k] } else { 255 }, 5);
                if c.kind == 3 { sym::check(*data as usize == k, 6) }
            }
            if k < n { sym::check(viable(g, &cs[..k + 1]) == 0, 7) }
            sym::check(viable(g, &cs[..k]) == 1, 8);
            if c.kind == 2 {
                // canonical LR(1): exactly the tokens that could have come
                for t in 0..c.ts as u8 {
                    let mut w = cs[..k].to_vec();
                    w.push(t);
                    sym::check(viable(g, &w) == expected[0].contains(&t) as u8, 9);
                }
                sym::check(gram::derives_ebnf(g, &cs[..k]).get(0, 0, k) == expected[0].contains(&255) as u8, 9);
            }
            sym::observe(2 + k as u64);
        }
        Out::Refused => {
            sym::reach(2);
            sym::check(d.get(0, 0, n) == 0, 2);
            let k = rec.shifted();
            if k < n { sym::check(viable(g, &cs[..k + 1]) == 0, 7) }
            sym::check(viable(g, &cs[..k]) == 1, 8);
            sym::observe(2 + k as u64);
        }
        Out::Other => sym::fail(18),
    }
}
