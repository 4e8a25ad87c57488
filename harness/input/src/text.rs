//! Writing definition texts from the harness's own rules, remembering where each rule stands.
use lapex_input::ProductionPattern;
use pat::*;

pub type Id = Vec<u32>;
pub fn id(s: &str) -> Id { s.chars().map(|c| c as u32).collect() }

#[derive(Clone)]
pub enum Q { Id(Id), Bang, Seq(Vec<Q>), Alt(Vec<Q>), Opt(Box<Q>), Star(Box<Q>), Plus(Box<Q>) }
pub enum Item { Token(Id, Option<u32>, P), Prod(Id, Option<Id>, Q), Entry(Id) }
pub struct Placed { pub rule: Item, pub start: usize, pub end: usize }
#[derive(Clone, Copy, PartialEq)]
pub enum Layout { Normal, Tight, Lines, Wide, Boot, Any(u64, u32) }
pub struct Written { pub text: String, pub items: Vec<Placed>, layout: Layout, wordy: bool, gaps: u32 }

pub fn name_is(s: &str, n: &Id) -> bool {
    if s.len() != n.len() { return false }
    let mut ok = true;
    for (a, b) in s.bytes().zip(n) { ok &= a as u32 == *b }
    ok
}
/// the pattern of the real rule set in the harness's terms
pub fn of_pattern(p: &ProductionPattern) -> Q {
    let all = |v: &Vec<ProductionPattern>| v.iter().map(of_pattern).collect();
    match p {
        ProductionPattern::Sequence { elements } => Q::Seq(all(elements)),
        ProductionPattern::Alternative { elements } => Q::Alt(all(elements)),
        ProductionPattern::OneOrMany { inner } => Q::Plus(Box::new(of_pattern(inner))),
        ProductionPattern::ZeroOrMany { inner } => Q::Star(Box::new(of_pattern(inner))),
        ProductionPattern::Optional { inner } => Q::Opt(Box::new(of_pattern(inner))),
        ProductionPattern::Rule { rule_name } => Q::Id(rule_name.bytes().map(|b| b as u32).collect()),
        ProductionPattern::Epsilon => Q::Bang,
    }
}
/// sequences inside sequences, alternatives inside alternatives and groups of one are the same thing
pub fn norm(q: &Q) -> Q {
    match q {
        Q::Seq(v) => {
            let mut o = vec![];
            for x in v { match norm(x) { Q::Seq(w) => o.extend(w), x => o.push(x) } }
            if o.len() == 1 { o.pop().unwrap() } else { Q::Seq(o) }
        }
        Q::Alt(v) => {
            let mut o = vec![];
            for x in v { match norm(x) { Q::Alt(w) => o.extend(w), x => o.push(x) } }
            if o.len() == 1 { o.pop().unwrap() } else { Q::Alt(o) }
        }
        Q::Opt(x) => Q::Opt(Box::new(norm(x))),
        Q::Star(x) => Q::Star(Box::new(norm(x))),
        Q::Plus(x) => Q::Plus(Box::new(norm(x))),
        x => x.clone(),
    }
}
pub fn same(a: &Q, b: &Q) -> bool {
    let all = |v: &Vec<Q>, w: &Vec<Q>| {
        if v.len() != w.len() { return false }
        let mut ok = true;
        for (a, b) in v.iter().zip(w) { ok &= same(a, b) }
        ok
    };
    match (a, b) {
        (Q::Id(a), Q::Id(b)) => {
            if a.len() != b.len() { return false }
            let mut ok = true;
            for (a, b) in a.iter().zip(b) { ok &= a == b }
            ok
        }
        (Q::Bang, Q::Bang) => true,
        (Q::Seq(v), Q::Seq(w)) | (Q::Alt(v), Q::Alt(w)) => all(v, w),
        (Q::Opt(x), Q::Opt(y)) | (Q::Star(x), Q::Star(y)) | (Q::Plus(x), Q::Plus(y)) => same(x, y),
        _ => false,
    }
}
fn qleaf(boot: bool) -> Q {
    match sym::choose(if boot { 2 } else { 3 }) { 0 => Q::Id(id("a")), 1 => Q::Id(id("b_")), _ => Q::Bang }
}
pub fn qtree(depth: u64, leaves: &mut u64, boot: bool) -> Q {
    if depth == 0 || *leaves == 0 {
        if *leaves > 0 { *leaves -= 1 }
        return qleaf(boot);
    }
    match sym::choose(if *leaves >= 2 { 6 } else { 4 }) {
        0 => { *leaves -= 1; qleaf(boot) }
        1 => Q::Opt(Box::new(qtree(depth - 1, leaves, boot))),
        2 => Q::Star(Box::new(qtree(depth - 1, leaves, boot))),
        3 => Q::Plus(Box::new(qtree(depth - 1, leaves, boot))),
        k => {
            *leaves -= 1;
            let x = qtree(depth - 1, leaves, boot);
            *leaves += 1;
            let y = qtree(depth - 1, leaves, boot);
            let mut v = vec![x, y];
            // a third operand of the same kind, so that the order of three shows
            if *leaves == 0 { v.push(Q::Id(id("c"))) }
            if k == 4 { Q::Seq(v) } else { Q::Alt(v) }
        }
    }
}
/// the text of a pattern; level 0: alternatives may stand free, 1: sequences, 2: operands of an operator
pub fn regex(p: &P, level: u32, o: &mut Vec<u32>) {
    let put = |c: u32, o: &mut Vec<u32>| {
        if c < 128 && "\\.+*?()|[]{}^$/-&~#".contains(c as u8 as char) { o.push(92) }
        o.push(c);
    };
    let s = |t: &str, o: &mut Vec<u32>| o.extend(t.chars().map(|c| c as u32));
    match p {
        Ch(c) => put(*c, o),
        Set(v, true) if v.len() == 1 && v[0] == (10, 10) => s(".", o),
        Set(v, neg) => {
            s(if *neg { "[^" } else { "[" }, o);
            for (a, b) in v { put(*a, o); if a != b { s("-", o); put(*b, o) } }
            s("]", o);
        }
        Seq(v) => {
            let paren = level >= 2 || v.is_empty();
            if paren { s("(", o) }
            for p in v { regex(p, 1, o) }
            if paren { s(")", o) }
        }
        Alt(v) => {
            if level >= 1 { s("(", o) }
            for (k, p) in v.iter().enumerate() {
                if k > 0 { s("|", o) }
                // an empty alternative stands as nothing at all
                if !matches!(p, Seq(v) if v.is_empty()) { regex(p, 0, o) }
            }
            if level >= 1 { s(")", o) }
        }
        Rep(a, b, i) => {
            let group = matches!(**i, Rep(..));
            if group { s("(?:", o) }
            regex(i, if group { 0 } else { 2 }, o);
            if group { s(")", o) }
            match (a, b) {
                (0, None) => s("*", o),
                (1, None) => s("+", o),
                (0, Some(1)) => s("?", o),
                (a, None) => { s("{", o); o.push(48 + a); s(",}", o) }
                (a, Some(b)) if a == b => { s("{", o); o.push(48 + a); s("}", o) }
                (a, Some(b)) => { s("{", o); o.push(48 + a); s(",", o); o.push(48 + b); s("}", o) }
            }
        }
        _ => unreachable!(),
    }
}
impl Written {
    pub fn new(layout: Layout) -> Written { Written { text: String::new(), items: vec![], layout, wordy: false, gaps: 0 } }
    fn put(&mut self, c: u32) { self.text.push(sym::chr(c)) }
    fn gap(&mut self, word: bool) {
        // between two words there has to be something
        let need = word && self.wordy;
        match self.layout {
            Layout::Normal => if !self.text.is_empty() { self.text.push(' ') },
            Layout::Tight => if need { self.text.push(' ') },
            Layout::Lines => self.text.push('\n'),
            Layout::Wide => self.text.push_str("\t \n  "),
            Layout::Boot => {}
            // arbitrary whitespace in one place, a space everywhere else
            Layout::Any(k, at) => {
                self.gaps += 1;
                if self.gaps != at { self.text.push(' '); return }
                let n = if need { 1 + sym::choose(k as u32) } else { sym::choose(k as u32 + 1) };
                for _ in 0..n { self.text.push([' ', '\t', '\n'][sym::choose(3) as usize]) }
            }
        }
    }
    fn token(&mut self, t: &[u32], word: bool) {
        self.gap(word);
        for c in t { self.put(*c) }
        self.wordy = word;
    }
    fn sign(&mut self, s: &str) { let v = id(s); self.token(&v, false) }
    fn space(&mut self) { if self.layout == Layout::Boot { self.text.push(' ') } }
    /// returns where the rule starts
    fn open(&mut self, kw: &str) -> usize {
        if self.layout == Layout::Boot && !self.text.is_empty() { self.text.push('\n') }
        self.gap(true);
        let start = self.text.len();
        self.text.push_str(kw);
        self.wordy = true;
        self.space();
        start
    }
    fn close(&mut self, rule: Item, start: usize) {
        self.sign(";");
        let end = self.text.len();
        self.items.push(Placed { rule, start, end });
    }
    pub fn item(&mut self, item: Item) {
        match item {
            Item::Entry(n) => {
                let s = self.open("entry");
                self.token(&n, true);
                self.close(Item::Entry(n), s);
            }
            Item::Token(n, prec, p) => {
                let mut raw = vec![];
                match &p {
                    Lit(v) => { raw.push(34); raw.extend(v); raw.push(34) }
                    p => { raw.push(47); regex(p, 0, &mut raw); raw.push(47) }
                }
                let digits = prec.map(|x| id(&x.to_string()));
                self.token_rule(n, digits, prec, raw, p);
            }
            Item::Prod(n, tag, q) => {
                let s = self.open("prod");
                self.token(&n, true);
                if let Some(t) = &tag { self.sign("["); self.token(t, true); self.sign("]") }
                self.space();
                self.sign("=");
                self.space();
                self.pattern(&q, if self.layout == Layout::Boot { 1 } else { 0 });
                self.close(Item::Prod(n, tag, q), s);
            }
        }
    }
    fn token_rule(&mut self, n: Id, digits: Option<Id>, prec: Option<u32>, raw: Vec<u32>, p: P) {
        let s = self.open("token");
        self.token(&n, true);
        if let Some(d) = digits { self.sign("["); self.token(&d, true); self.sign("]") }
        self.space();
        self.sign("=");
        self.space();
        self.token(&raw, false);
        self.close(Item::Token(n, prec, p), s);
    }
    /// a literal written with escapes
    pub fn raw_literal(&mut self, n: Id, mut inner: Vec<u32>, v: Vec<u32>) {
        inner.insert(0, 34);
        inner.push(34);
        self.token_rule(n, None, None, inner, Lit(v));
    }
    pub fn raw_precedence(&mut self, n: Id, digits: Vec<u32>, v: u32) { self.token_rule(n, Some(digits), Some(v), vec![34, 97, 34], Lit(vec![97])) }
    pub fn raw_regex(&mut self, n: Id, mut re: Vec<u32>) {
        re.insert(0, 47);
        re.push(47);
        self.token_rule(n, None, None, re, Seq(vec![]));
    }
    /// level 0: alternatives may stand free, 1: sequences, 2: single items only
    fn pattern(&mut self, q: &Q, level: u32) {
        let group = match q { Q::Id(_) => false, Q::Alt(_) | Q::Bang => level >= 1, Q::Seq(_) => level >= 2, _ => level >= 3 };
        let boot = self.layout == Layout::Boot;
        if group { self.sign("(") }
        match q {
            Q::Id(n) => self.token(n, true),
            Q::Bang => self.sign("!"),
            Q::Seq(v) => for (k, x) in v.iter().enumerate() { if k > 0 { self.space() } self.pattern(x, 2) },
            Q::Alt(v) => for (k, x) in v.iter().enumerate() {
                if k > 0 { self.space(); self.sign("|"); self.space() }
                self.pattern(x, 1)
            },
            Q::Opt(x) => { self.pattern(x, 3); self.sign("?") }
            Q::Star(x) => { self.pattern(x, 3); self.sign("*") }
            Q::Plus(x) => { self.pattern(x, 3); self.sign("+") }
        }
        if group { self.sign(")") }
        let _ = boot;
    }
}
