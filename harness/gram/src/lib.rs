//! The harness's own view of grammars: EBNF trees, plain rules, membership oracles and the families and
//! corpora that the checks range over. Nothing here is taken from the code under test except the input types.
use lapex_input::{EntryRule, ProductionPattern, ProductionRule, RuleSet, SourcePos, SourceSpan, Spanned, TokenPattern, TokenRule};
use lapex_parser::grammar::{Grammar, Symbol};

#[derive(Clone)]
pub enum E { T(u8), N(u8), Eps, Seq(Vec<E>), Alt(Vec<E>), Plus(Box<E>), Star(Box<E>), Opt(Box<E>) }
use E::*;

pub const TOKENS: [&str; 6] = ["TA", "TB", "TC", "TD", "TE", "TF"];
pub const NAMES: [&str; 6] = ["s", "x", "y", "z", "v", "w"];

/// Productions in source order; production 0's symbol is the entry.
#[derive(Clone, Default)]
pub struct Ebnf { pub nts: usize, pub ts: usize, pub prods: Vec<(u8, E)> }

/// Plain rules; symbols below 32 are terminals, nonterminal k is 32 + k. Empty right-hand sides are empty.
#[derive(Clone, Default)]
pub struct Plain { pub nts: usize, pub ts: usize, pub entry: usize, pub rules: Vec<(u8, Vec<u8>)> }
pub const NT: u8 = 32;

pub fn span(n: u16) -> SourceSpan { SourceSpan { start: SourcePos { line: n, col: 1 }, end: SourcePos { line: n, col: 2 } } }
fn pattern(e: &E, tns: &[&'static str], names: &[&'static str]) -> ProductionPattern<'static> {
    let p = |e| pattern(e, tns, names);
    match e {
        T(t) => ProductionPattern::Rule { rule_name: tns[*t as usize] },
        N(n) => ProductionPattern::Rule { rule_name: names[*n as usize] },
        Eps => ProductionPattern::Epsilon,
        Seq(v) => ProductionPattern::Sequence { elements: v.iter().map(p).collect() },
        Alt(v) => ProductionPattern::Alternative { elements: v.iter().map(p).collect() },
        Plus(e) => ProductionPattern::OneOrMany { inner: Box::new(p(e)) },
        Star(e) => ProductionPattern::ZeroOrMany { inner: Box::new(p(e)) },
        Opt(e) => ProductionPattern::Optional { inner: Box::new(p(e)) },
    }
}
pub fn token(name: &'static str, k: u16) -> Spanned<TokenRule<'static>> {
    let c = (b'a' + k as u8) as char;
    Spanned::new(span(k + 1), TokenRule { name, precedence: None, pattern: TokenPattern::Literal { characters: vec![c] } })
}
impl Ebnf {
    pub fn rule_set(&self) -> &'static RuleSet<'static> { self.rule_set_tagged(&[]) }
    pub fn rule_set_tagged(&self, tags: &[Option<&'static str>]) -> &'static RuleSet<'static> { self.rule_set_named(tags, &TOKENS, &NAMES) }
    pub fn rule_set_named(&self, tags: &[Option<&'static str>], tns: &[&'static str], names: &[&'static str]) -> &'static RuleSet<'static> { Box::leak(Box::new(self.rules_named(tags, tns, names))) }
    pub fn rules_named(&self, tags: &[Option<&'static str>], tns: &[&'static str], names: &[&'static str]) -> RuleSet<'static> {
        let tokens = (0..self.ts).map(|k| token(tns[k], k as u16)).collect();
        let prods = self.prods.iter().enumerate().map(|(k, (n, e))| Spanned::new(span(100 + k as u16), ProductionRule { name: names[*n as usize], tag: tags.get(k).copied().flatten(), pattern: pattern(e, tns, names) })).collect();
        let e = Spanned::new(span(50), EntryRule { name: names[0] });
        RuleSet::new(e, tokens, prods)
    }
    pub fn text(&self) -> String {
        let mut o = String::new();
        for (n, e) in &self.prods { o.push_str(NAMES[*n as usize]); o.push_str(" = "); show(e, &mut o); o.push_str("; "); }
        o
    }
}
pub fn show(e: &E, o: &mut String) {
    let list = |v: &Vec<E>, sep: &str, o: &mut String| { o.push('('); for (k, p) in v.iter().enumerate() { if k > 0 { o.push_str(sep) } show(p, o) } o.push(')') };
    match e {
        T(t) => o.push_str(TOKENS[*t as usize]),
        N(n) => o.push_str(NAMES[*n as usize]),
        Eps => o.push_str("(!)"),
        Seq(v) => list(v, " ", o),
        Alt(v) => list(v, " | ", o),
        Plus(p) => { show(p, o); o.push('+') }
        Star(p) => { show(p, o); o.push('*') }
        Opt(p) => { show(p, o); o.push('?') }
    }
}
/// The lowered grammar as plain rules, with nonterminals numbered densely: the declared ones in `names` first.
pub fn plain_of(g: &Grammar, ts: usize, names: usize) -> (Plain, Vec<Symbol>) { plain_of_named(g, ts, names, &NAMES) }
pub fn plain_of_named(g: &Grammar, ts: usize, names: usize, nns: &[&'static str]) -> (Plain, Vec<Symbol>) {
    let mut syms: Vec<Symbol> = vec![];
    for n in 0..names {
        for s in g.non_terminals() { if g.get_production_name(&s) == Some(nns[n]) && !syms.contains(&s) { syms.push(s) } }
        if syms.len() != n + 1 { sym::fail(30) }
    }
    for r in g.rules() { let l = r.lhs().unwrap(); if !syms.contains(&l) { syms.push(l) } }
    let mut p = Plain { nts: syms.len(), ts, entry: 0, rules: vec![] };
    for r in g.rules() {
        let l = syms.iter().position(|s| Some(*s) == r.lhs()).unwrap() as u8;
        let mut rhs = vec![];
        for s in r.rhs() {
            match s {
                Symbol::Epsilon => {}
                Symbol::Terminal(t) => rhs.push(*t as u8),
                s => match syms.iter().position(|x| x == s) { Some(k) => rhs.push(NT + k as u8), None => { sym::fail(31) } },
            }
        }
        p.rules.push((l, rhs));
    }
    (p, syms)
}
impl Plain {
    pub fn alts(&self, nt: u8) -> impl Iterator<Item = &(u8, Vec<u8>)> { self.rules.iter().filter(move |r| r.0 == nt) }
    /// One EBNF production per rule.
    pub fn ebnf(&self) -> Ebnf {
        let s = |x: &u8| if *x >= NT { N(*x - NT) } else { T(*x) };
        Ebnf { nts: self.nts, ts: self.ts, prods: self.rules.iter().map(|(l, r)| (*l, match r.len() { 0 => Eps, 1 => s(&r[0]), _ => Seq(r.iter().map(s).collect()) })).collect() }
    }
    /// "S:aX|b;X:" - upper case letters S X Y Z V W are nonterminals, a.. are terminals
    pub fn parse(text: &str) -> Plain {
        let mut p = Plain::default();
        for part in text.split(';') {
            let (l, r) = part.split_at(1);
            let l = nt_of(l.as_bytes()[0]).unwrap();
            for alt in r[1..].split('|') {
                let mut rhs = vec![];
                for c in alt.bytes() {
                    match nt_of(c) {
                        Some(k) => { rhs.push(NT + k); p.nts = p.nts.max(k as usize + 1) }
                        None => { rhs.push(c - b'a'); p.ts = p.ts.max((c - b'a') as usize + 1) }
                    }
                }
                p.nts = p.nts.max(l as usize + 1);
                p.rules.push((l, rhs));
            }
        }
        p.ts = p.ts.max(1);
        p
    }
}
pub fn nt_of(c: u8) -> Option<u8> {
    Some(match c { b'S' => 0, b'X' => 1, b'Y' => 2, b'Z' => 3, b'V' => 4, b'W' => 5, _ => return None })
}

/// derives[nt][i][j] in {0, 1}: the nonterminal derives tokens i..j (branch free in the tokens)
pub struct Derives { n: usize, d: Vec<u8> }
impl Derives {
    pub fn get(&self, nt: usize, i: usize, j: usize) -> u8 { self.d[(nt * (self.n + 1) + i) * (self.n + 1) + j] }
    fn set(&mut self, nt: usize, i: usize, j: usize, v: u8) { let n = self.n + 1; self.d[(nt * n + i) * n + j] = v }
}
fn seq(d: &Derives, rhs: &[u8], cs: &[u8], i: usize, j: usize) -> u8 {
    if rhs.is_empty() { return (i == j) as u8 }
    let x = rhs[0];
    if x < NT {
        if i >= j { return 0 }
        return (cs[i] == x) as u8 & seq(d, &rhs[1..], cs, i + 1, j);
    }
    if rhs.len() == 1 { return d.get((x - NT) as usize, i, j) }
    let mut r = 0;
    for k in i..=j { r |= d.get((x - NT) as usize, i, k) & seq(d, &rhs[1..], cs, k, j); }
    r
}
fn nullable(e: &E, null: u32) -> bool {
    match e {
        Eps | Star(_) | Opt(_) => true,
        T(_) => false,
        N(k) => null >> k & 1 == 1,
        Seq(v) => v.iter().all(|e| nullable(e, null)),
        Alt(v) => v.iter().any(|e| nullable(e, null)),
        Plus(e) => nullable(e, null),
    }
}
/// the nonterminals that can span all that `e` spans
fn spanning(e: &E, null: u32) -> u32 {
    match e {
        Eps | T(_) => 0,
        N(k) => 1 << k,
        Seq(v) => { let mut r = 0; for m in 0..v.len() { if (0..v.len()).all(|k| k == m || nullable(&v[k], null)) { r |= spanning(&v[m], null) } } r }
        Alt(v) => { let mut r = 0; for e in v { r |= spanning(e, null) } r }
        Plus(e) | Star(e) | Opt(e) => spanning(e, null),
    }
}
/// An order of the productions in which what a production needs over the same span comes first, and how often to go through it.
fn order(g: &Ebnf) -> (Vec<usize>, usize) {
    if g.nts > 32 { return ((0..g.prods.len()).collect(), g.nts) }
    let mut null = 0u32;
    for _ in 0..g.nts { for (l, e) in &g.prods { if nullable(e, null) { null |= 1 << l } } }
    let mut needs = vec![0u32; g.nts];
    for (l, e) in &g.prods { needs[*l as usize] |= spanning(e, null) }
    let mut done = 0u32;
    let mut order = vec![];
    for _ in 0..g.nts {
        for n in 0..g.nts {
            if done >> n & 1 == 1 || needs[n] & !done != 0 { continue }
            done |= 1 << n;
            for (k, p) in g.prods.iter().enumerate() { if p.0 as usize == n { order.push(k) } }
        }
    }
    // what is left needs itself
    if order.len() == g.prods.len() { return (order, 1) }
    for k in 0..g.prods.len() { if !order.contains(&k) { order.push(k) } }
    (order, g.nts)
}
pub fn derives_plain(g: &Plain, cs: &[u8]) -> Derives {
    let n = cs.len();
    let mut d = Derives { n, d: vec![0; g.nts * (n + 1) * (n + 1)] };
    let e = g.ebnf();
    let (order, rounds) = order(&e);
    for len in 0..=n {
        for i in 0..=n - len {
            // a minimal derivation repeats no symbol over the same span
            for _ in 0..rounds {
                for k in &order {
                    let (l, rhs) = &g.rules[*k];
                    let v = d.get(*l as usize, i, i + len) | seq(&d, rhs, cs, i, i + len);
                    d.set(*l as usize, i, i + len, v);
                }
            }
        }
    }
    d
}
fn tree(d: &Derives, e: &E, cs: &[u8], i: usize, j: usize) -> u8 {
    match e {
        Eps => (i == j) as u8,
        T(t) => if j == i + 1 { (cs[i] == *t) as u8 } else { 0 },
        N(n) => d.get(*n as usize, i, j),
        Seq(v) => tree_seq(d, v, cs, i, j),
        Alt(v) => { let mut r = 0; for e in v { r |= tree(d, e, cs, i, j) } r }
        Opt(e) => (i == j) as u8 | tree(d, e, cs, i, j),
        Star(e) => star(d, e, cs, i, j),
        Plus(e) => { let mut r = tree(d, e, cs, i, j); for k in i + 1..j { r |= tree(d, e, cs, i, k) & star(d, e, cs, k, j) } r }
    }
}
pub fn tree_seq(d: &Derives, v: &[E], cs: &[u8], i: usize, j: usize) -> u8 {
    match v.len() {
        0 => (i == j) as u8,
        1 => tree(d, &v[0], cs, i, j),
        _ => { let mut r = 0; for k in i..=j { r |= tree(d, &v[0], cs, i, k) & tree_seq(d, &v[1..], cs, k, j) } r }
    }
}
pub fn star(d: &Derives, e: &E, cs: &[u8], i: usize, j: usize) -> u8 {
    if i == j { return 1 }
    let mut r = 0;
    for k in i + 1..=j { r |= tree(d, e, cs, i, k) & star(d, e, cs, k, j) }
    r
}
pub fn derives_ebnf(g: &Ebnf, cs: &[u8]) -> Derives {
    let n = cs.len();
    let mut d = Derives { n, d: vec![0; g.nts * (n + 1) * (n + 1)] };
    let (order, rounds) = order(g);
    for len in 0..=n {
        for i in 0..=n - len {
            for _ in 0..rounds {
                for k in &order {
                    let (l, e) = &g.prods[*k];
                    let v = d.get(*l as usize, i, i + len) | tree(&d, e, cs, i, i + len);
                    d.set(*l as usize, i, i + len, v);
                }
            }
        }
    }
    d
}

const S_POOL: [&str; 13] = ["", "a", "X", "aX", "Xa", "aS", "Sa", "XX", "XS", "aSb", "SS", "bX", "Xb"];
const X_POOL: [&str; 9] = ["", "b", "a", "S", "bX", "Xb", "aS", "XX", "aXb"];
/// one or two different alternatives of a pool
fn alts(pool: &[&str], n: usize) -> String {
    let i = sym::choose(n as u32) as usize;
    let j = i + sym::choose((n - i) as u32) as usize;
    if i == j { pool[i].to_string() } else { [pool[i], pool[j]].join("|") }
}
/// Every grammar of a family, by forking.
pub fn family(fam: u64) -> Plain {
    match fam {
        // two nonterminals, one or two alternatives each
        0 => Plain::parse(&["S:", &alts(&S_POOL, 13), ";X:", &alts(&X_POOL, 9)].concat()).with(2, 2),
        // the same, smaller
        1 => Plain::parse(&["S:", &alts(&S_POOL, 8), ";X:", &alts(&X_POOL, 5)].concat()).with(2, 2),
        // one nonterminal, three alternatives
        2 => { let a = alts(&S3_POOL, 12); let b = S3_POOL[sym::choose(12) as usize]; Plain::parse(&["S:", &a, "|", b].concat()).with(1, 2) }
        // curated
        3 => Plain::parse(CURATED[sym::choose(CURATED.len() as u32) as usize]),
        4 => Plain::parse(MORE[sym::choose(MORE.len() as u32) as usize]),
        // long right-hand sides, many rivals
        7 => Plain::parse(LONG[sym::choose(LONG.len() as u32) as usize]),
        // three nonterminals, one or two alternatives each
        5 => Plain::parse(&["S:", &alts(&S_OF3, 6), ";X:", &alts(&X_OF3, 5), ";Y:", &alts(&Y_OF3, 5)].concat()).with(3, 3),
        // the same, smaller
        _ => Plain::parse(&["S:", &alts(&S_OF3, 3), ";X:", &alts(&X_OF3, 4), ";Y:", &alts(&Y_OF3, 4)].concat()).with(3, 3),
    }
}
const S_OF3: [&str; 6] = ["XYa", "aXb", "Yb", "aYc", "SX", "XbX"];
const X_OF3: [&str; 5] = ["", "aY", "Y", "b", "Xc"];
const Y_OF3: [&str; 5] = ["", "cX", "b", "XY", "aYb"];
const S3_POOL: [&str; 12] = ["", "a", "b", "aS", "Sa", "SS", "S", "aSb", "aSa", "SaS", "ab", "bSa"];
pub const CURATED: [&str; 30] = [
    "S:aXd|bYd|aYe|bXe;X:c;Y:c",            // LR(1), not LALR(1)
    "S:X|Y;X:aXb|;Y:aYbb|",                 // ambiguous on the empty string
    "S:XbX;X:aX|c",                         // S -> X b X
    "S:SaX|X;X:XbY|Y;Y:cSd|e",              // expressions, left recursive
    "S:XaS|X;X:YbX|Y;Y:cSd|e",              // expressions, right recursive
    "S:aSbS|aS|c",                          // dangling else
    "S:XY;X:a|;Y:b|",                       // nullable sequence
    "S:XYc;X:aX|;Y:bY|",
    "S:Xa|bXc|dc|bda;X:d",                  // LALR(1), not SLR(1)
    "S:XaYb|ZbVa;X:;Y:;Z:;V:",              // empty symbols told apart by lookahead only
    "S:X;X:Y;Y:Xa|b",                       // indirect left recursion
    "S:aX|aY;X:b;Y:b",                      // same handle, reduce/reduce
    "S:YaX|X;X:bY|c;Y:X",                   // LR(1), not SLR(1)
    "S:SS|a",                               // ambiguous
    "S:aSa|b",                              // palindromes with a centre
    "S:aSa|aa",                             // even palindromes: not LR(k)
    "S:X|aSb;X:c|Xd",
    "S:aXYb;X:cX|c;Y:dY|d",
    "S:X;X:XaY|Y;Y:bY|",                    // nullable below left recursion
    "S:XSb|c;X:a|",                         // hidden recursion
    "S:abX|acY;X:d|;Y:e|",
    "S:Xa|Yb;X:c;Y:c",                      // reduce by lookahead
    "S:XX;X:aX|b",                          // the textbook LR(1) example
    "S:Xd;X:YZV;Y:a|;Z:b|;V:c|",            // three nullable symbols before a token
    "S:aXYZV|b;X:b|;Y:c|;Z:d|;V:e|",        // and at the end of a production
    "S:XYZa;X:YZ|d;Y:b|;Z:c|",              // nullable symbols in two contexts
    "S:aXb|bXa;X:YZYc|;Y:d|;Z:e|",
    "S:XSa|;X:bY;Y:cYZ|;Z:d|",
    "S:X;X:YX|Z;Y:aZb;Z:V|cZ;V:d|",
    "S:aXc|Y;X:Y|b;Y:aX|",
];
/// Conflicts of several kinds (for GLR parsers), long and deep right-hand sides.
pub const MORE: [&str; 21] = [
    "S:aX|bY|aYe|bXe;X:c;Y:Z;Z:V;V:c",      // branches that reduce in different numbers of steps
    "S:Xc|Yd;X:Xa|a;Y:Ya|a",                // branches decided at the end only
    "S:Xc|Yd;X:aX|a;Y:aY|a",
    "S:aSa|bSb|a|b|",                       // palindromes
    "S:SaS|SbS|c",                          // ambiguous operators
    "S:aXYX;X:b|;Y:c|",                     // nullable, ambiguous
    "S:aXX|b;X:c|",
    "S:XYa|Zb;X:c|;Y:c|;Z:cc|",
    "S:X|Y|Z;X:aX|a;Y:aYb|ab;Z:aZc|ac",
    "S:aXd|aYd|aZd;X:bb|b;Y:b|bbb;Z:bX",    // three ways at once
    "S:SS|aSb|ab|c",
    "S:Xb|aY;X:a;Y:b|c",
    "S:X;X:Y|Za;Y:Z|bY;Z:c|cV;V:d|",
    "S:abcdef|abcdee|abcX;X:ddY|f;Y:abcd",
    "S:aXbYcZd|e;X:f|aX;Y:|fY;Z:fe|ZZ",
    "S:X;X:Y;Y:Z;Z:V;V:W;W:aS|b",
    "S:aSbScSd|e",
    "S:XaY|YaX;X:b|c;Y:b|d",
    "S:aX|aY|aZ;X:V;Y:W;Z:b;V:bc;W:bd",
    "S:XX|XY;X:a|ab;Y:b|ba",
    "S:S|a",                                // infinitely many trees
];
pub const LONG: [&str; 20] = [
    "S:aX|bYcZ|d;X:bYa|c;Y:Xd|e;Z:fS|a",    // no lookahead needed
    "S:aXYZVWb|c;X:d;Y:e;Z:f;V:dX;W:fZ|e",
    "S:XYZVW;X:a;Y:b|;Z:c|;V:d|;W:e|",      // four nullable symbols behind one
    "S:XYZVW;X:a|;Y:b|;Z:c|;V:d|;W:e|",     // and five
    "S:aXYZVWf;X:b|;Y:c|;Z:d|;V:e|;W:a|",
    "S:XYZVWf|Wd;X:|YY;Y:b|;Z:c|;V:|ZZ;W:e|X",
    "S:aXbYcZdVeW;X:f|;Y:|f;Z:f;V:fX;W:YX",
    "S:XaYbZcV|V;X:a|;Y:b|;Z:c|;V:d|XYZ",
    "S:aXYZVb;X:c;Y:d|;Z:Y;V:Z|e",          // nullable through others
    "S:aSbScSdSe|",
    "S:X|Y|Z;X:a;Y:a;Z:a",                  // three rivals
    "S:X|Y|Z|V;X:a;Y:a;Z:a;V:a",            // four
    "S:Xb|Yb|Zb|ab;X:a;Y:a;Z:a",            // three rivals and a shift
    "S:Xb|Yb|Zc|ac|Va;X:a;Y:a;Z:a;V:a",
    "S:X|Y|Z;X:;Y:;Z:",                     // rivals that are empty
    "S:aXc|aYc|aZc|bXd|bYd;X:e;Y:e;Z:e",
    "S:XX|YY|ZZ;X:a|b;Y:b|c;Z:a|c",
    "S:XYZVWXYZ;X:a|;Y:b;Z:c|;V:|d;W:",
    "S:XVW|YVW|ZVW;X:a;Y:a|b;Z:b;V:|c;W:|d",
    "S:X;X:YZ;Y:VW|;Z:WV|Y;V:a|;W:b|",
];
impl Plain {
    fn with(mut self, nts: usize, ts: usize) -> Plain { self.nts = self.nts.max(nts); self.ts = self.ts.max(ts); self }
}

fn leaf(nts: u8) -> E {
    match sym::choose(3 + (nts > 0) as u32) {
        0 => T(0),
        1 => T(1),
        2 => Eps,
        _ => N(sym::choose(nts as u32) as u8),
    }
}
/// Every EBNF tree of a depth, with at most `leaves` leaves.
pub fn ebnf_tree(depth: u64, leaves: &mut u64, nts: u8) -> E {
    if depth == 0 || *leaves == 0 {
        if *leaves > 0 { *leaves -= 1 }
        return leaf(nts);
    }
    match sym::choose(if *leaves >= 2 { 6 } else { 4 }) {
        0 => { *leaves -= 1; leaf(nts) }
        1 => Opt(Box::new(ebnf_tree(depth - 1, leaves, nts))),
        2 => Star(Box::new(ebnf_tree(depth - 1, leaves, nts))),
        3 => Plus(Box::new(ebnf_tree(depth - 1, leaves, nts))),
        k => {
            *leaves -= 1;
            let x = ebnf_tree(depth - 1, leaves, nts);
            *leaves += 1;
            let y = ebnf_tree(depth - 1, leaves, nts);
            if k == 4 { Seq(vec![x, y]) } else { Alt(vec![x, y]) }
        }
    }
}
