//! The rule sets that code is generated for, known to the generator and to the harness that executes the code.
use gram::{nt_of, Ebnf, E, MORE};

/// A grammar of the corpus. Written like gram::Plain with EBNF operators: "S:aX*(b|c)?;S#tag:()" - S X Y Z V W are
/// rules, a.. are tokens, () is the empty pattern, a name may have several productions and each a tag.
pub struct G { pub ebnf: Ebnf, pub tags: Vec<Option<&'static str>>, pub text: &'static str, pub plain: bool, pub tokens: Vec<&'static str>, pub names: Vec<&'static str> }

fn alt(s: &[u8], i: &mut usize) -> E {
    let mut v = vec![cat(s, i)];
    while *i < s.len() && s[*i] == b'|' { *i += 1; v.push(cat(s, i)) }
    if v.len() == 1 { v.pop().unwrap() } else { E::Alt(v) }
}
fn cat(s: &[u8], i: &mut usize) -> E {
    let mut v = vec![];
    while *i < s.len() && s[*i] != b'|' && s[*i] != b')' {
        let c = s[*i];
        *i += 1;
        let mut e = match c {
            b'(' => { let e = alt(s, i); assert!(s[*i] == b')'); *i += 1; e }
            c => match nt_of(c) { Some(k) => E::N(k), None => E::T(c - b'a') },
        };
        while *i < s.len() {
            match s[*i] {
                b'?' => e = E::Opt(Box::new(e)),
                b'*' => e = E::Star(Box::new(e)),
                b'+' => e = E::Plus(Box::new(e)),
                _ => break,
            }
            *i += 1;
        }
        v.push(e);
    }
    match v.len() { 0 => E::Eps, 1 => v.pop().unwrap(), _ => E::Seq(v) }
}
fn max_t(e: &E) -> usize {
    match e {
        E::T(t) => *t as usize + 1,
        E::N(_) | E::Eps => 0,
        E::Seq(v) | E::Alt(v) => { let mut m = 0; for e in v { m = m.max(max_t(e)) } m }
        E::Plus(e) | E::Star(e) | E::Opt(e) => max_t(e),
    }
}
/// `split` makes every top-level alternative a production of its own, so that every rule is a plain one.
pub fn grammar(text: &'static str, split: bool) -> G {
    let mut g = G { ebnf: Ebnf::default(), tags: vec![], text, plain: split, tokens: vec![], names: vec![] };
    for part in text.split(';') {
        let (l, r) = part.split_once(':').unwrap();
        let (l, tag) = match l.split_once('#') { Some((l, t)) => (l, Some(t)), None => (l, None) };
        let n = nt_of(l.as_bytes()[0]).unwrap();
        let mut i = 0;
        let e = alt(r.as_bytes(), &mut i);
        assert!(i == r.len());
        let v = match e { E::Alt(v) if split => v, e => vec![e] };
        for e in v {
            g.ebnf.nts = g.ebnf.nts.max(n as usize + 1);
            g.ebnf.ts = g.ebnf.ts.max(max_t(&e)).max(1);
            g.ebnf.prods.push((n, e));
            g.tags.push(tag);
        }
    }
    g.tokens = gram::TOKENS.to_vec();
    g.names = gram::NAMES.to_vec();
    g
}
fn named(mut g: G, tokens: &[&'static str], names: &[&'static str]) -> G { g.tokens = tokens.to_vec(); g.names = names.to_vec(); g }
pub const EBNF: [&str; 22] = [
    "S:a?b*c+",
    "S:(a|b)*c",
    "S:X(aX)*;X:b|c",
    "S:(aX?)+;X:b|cd",
    "S:aX*b;X:c|dX",
    "S:X?Y?Z?;X:a;Y:b;Z:c",
    "S:(ab|c)+d?",
    "S:((a|b)c?)*d",
    "S:X*;X:a|bS?c",
    "S:a(X|Y);X:b+;Y:c*d",
    "S:(a?b)+c|d",
    "S#one:aX;S#two:bS;S#three:c;X:()|d",
    "S#list:a(b|c)d;S#none:b;X:a",          // a tag on a rule with an inner alternative
    "S#x:X*;S#y:bX;X#z:a;X#w:c",
    "S#only:aX+;X:b",                       // a tag on the only rule of its name
    "S#t:X|aS;X#t:b|c;X#u:d",
    "S#p:a(b*|c+)?d;S#q:(a|b)(c|d)",
    "S:a(b|b);X:a",                         // ambiguous
    "S:(a|ab)(c|bcd)(d*)",                  // ambiguous
    "S:a*a*;X:a",                           // ambiguous
    "S:aX?b|aXc;X:d*",
    "S:X+;X:ab?",
];
pub const NAMED: [(&str, &[&str], &[&str]); 3] = [
    ("S#lit_a:a;S#b:XcS;X:b|YaY;Y:d", &["K_W", "ident", "Lower_Case", "LONG_NAME_X"], &["type", "some_rule", "CamelRule"]),
    ("S:aX*|Y;X:b|()cX;Y:d", &["fn", "self", "match", "loop"], &["program", "shift", "token"]),
    ("S#_:aX;S#b_:Yd;X:b|()cX;Y:d", &["_A", "B_", "C__D", "_"], &["_start", "x_", "a__b"]),
];
/// LL(1) grammars, for recursive descent only.
pub const LLS: [&str; 10] = [
    "S:XZ;Z:aXZ|();X:YV;V:bYV|();Y:cSd|e",  // expressions
    "S:a(S(cS)*)?b|d",                      // nested lists
    "S:(aX|bY)*c;X:d?;Y:d*",
    "S:X*Y?;X:ab?c;Y:d(a|b)*",
    "S:aXS|b;X:cXd|()",
    "S:X?Y?Z?a;X:bX?;Y:cY?;Z:dZ?",          // everything may be missing, in two ways
    "S:XYX;X:aX|();Y:bc|c",
    "S:X;X:Y;Y:Z;Z:a(bZ)?",
    "S:()|aSbS",
    "S:(a(b(c(d)?)?)?)?",
];
/// 289 rules in 307 states and more, over 17 tokens.
pub const LARGE: usize = GRAMMARS - 1;
pub const LARGE_TOKENS: u8 = 17;
fn large() -> G {
    let mut g = G { ebnf: Ebnf::default(), tags: vec![], text: "large", plain: true, tokens: vec![], names: gram::NAMES.to_vec() };
    g.ebnf.nts = 1;
    g.ebnf.ts = LARGE_TOKENS as usize;
    for a in 0..LARGE_TOKENS { for b in 0..LARGE_TOKENS { g.ebnf.prods.push((0, E::Seq(vec![E::T(a), E::T(b)]))); g.tags.push(None) } }
    for k in 0..LARGE_TOKENS { g.tokens.push(Box::leak(format!("L{}", k).into_boxed_str())) }
    g
}
pub const ALL: usize = GRAMMARS + LLS.len();
pub const GRAMMARS: usize = gram::CURATED.len() + EBNF.len() + NAMED.len() + MORE.len() + 1;
pub fn at(k: usize) -> G {
    let (c, e, m) = (gram::CURATED.len(), EBNF.len(), gram::CURATED.len() + EBNF.len() + NAMED.len());
    if k < c { grammar(gram::CURATED[k], true) }
    else if k < c + e { grammar(EBNF[k - c], false) }
    else if k >= GRAMMARS { grammar(LLS[k - GRAMMARS], false) }
    else if k == LARGE { large() }
    else if k >= m { grammar(MORE[k - m], true) }
    else { let (t, ts, ns) = NAMED[k - c - e]; named(grammar(t, false), ts, ns) }
}

use pat::*;
pub type Tok = (&'static str, P, Option<u16>);
fn lit(name: &'static str, s: &str) -> Tok { (name, Lit(s.chars().map(|c| c as u32).collect()), None) }
fn ch(c: char) -> P { Ch(c as u32) }
fn set(s: &[(char, char)], neg: bool) -> P { Set(s.iter().map(|(a, b)| (*a as u32, *b as u32)).collect(), neg) }
fn many(p: P) -> P { Rep(0, None, Box::new(p)) }
fn some(p: P) -> P { Rep(1, None, Box::new(p)) }
fn opt(p: P) -> P { Rep(0, Some(1), Box::new(p)) }
fn rep(a: u32, b: u32, p: P) -> P { Rep(a, Some(b), Box::new(p)) }
pub const LEXERS: usize = 13;
/// 300 rules in 301 states over 601 ranges.
pub const LARGE_LEXER: usize = 12;
/// Sets of token rules, each with a unique winner on every string.
pub fn lexer(k: usize) -> Vec<Tok> {
    match k {
        // keywords and identifiers
        0 => vec![lit("KW_IF", "if"), lit("KW_INT", "int"), ("IDENT", Seq(vec![set(&[('a', 'z'), ('_', '_')], false), many(set(&[('a', 'z'), ('0', '9'), ('_', '_')], false))]), None), ("NUM", some(set(&[('0', '9')], false)), None), ("WS", some(set(&[(' ', ' '), ('\n', '\n'), ('\t', '\t')], false)), None)],
        // operators that begin with each other
        1 => vec![lit("EQ", "="), lit("EQ_EQ", "=="), lit("ARROW", "=>"), lit("PLUS", "+"), lit("PLUS_EQ", "+="), lit("DOTS", "...")],
        // strings and comments
        2 => vec![("STR", Seq(vec![ch('"'), many(Alt(vec![set(&[('"', '"'), ('\\', '\\')], true), Seq(vec![ch('\\'), set(&[], true)])])), ch('"')]), None), ("COMMENT", Seq(vec![ch('/'), ch('/'), many(set(&[('\n', '\n')], true))]), None), lit("SLASH", "/"), ("NL", ch('\n'), None)],
        // beyond ASCII
        3 => vec![("GREEK", some(set(&[('α', 'ω')], false)), None), lit("SMILE", "\u{1f600}"), ("PLANES", set(&[('\u{10000}', '\u{1f5ff}'), ('\u{20000}', '\u{10ffff}')], false), None), lit("EURO", "€x"), ("LATIN", set(&[('à', 'ÿ')], false), None)],
        // ends of the ranges of code points and of their encodings
        4 => vec![("B_ONE", ch('\u{1}'), None), ("ASCII", set(&[('\u{7e}', '\u{7f}')], false), None), ("TWO", set(&[('\u{80}', '\u{7fe}')], false), None), ("THREE", Seq(vec![ch('\u{7ff}'), set(&[('\u{800}', '\u{d7ff}')], false)]), None), ("AFTER", set(&[('\u{e000}', '\u{fffe}')], false), None), ("EDGE", Seq(vec![ch('\u{ffff}'), opt(ch('\u{10000}'))]), None), ("LAST", ch('\u{10ffff}'), None)],
        // counted repetitions
        5 => vec![("HEX", Seq(vec![ch('#'), rep(2, 3, set(&[('0', '9'), ('a', 'f')], false))]), None), ("PAIR", Seq(vec![Rep(2, None, Box::new(ch('x'))), opt(ch('y'))]), None), lit("Z", "z")],
        // explicit precedences turn the defaults around
        6 => vec![("WORD", some(set(&[('a', 'c')], false)), Some(100)), ("AB", Lit(vec![97, 98]), None), ("LOW", Seq(vec![set(&[('a', 'b')], false), ch('d')]), Some(0)), ("BD", Lit(vec![98, 100]), Some(7))],
        // numbers: a digit must follow the dot
        7 => vec![("NUMBER", Seq(vec![some(set(&[('0', '9')], false)), opt(Seq(vec![ch('.'), some(set(&[('0', '9')], false))]))]), None), lit("DOT", "."), ("MINUS", Alt(vec![ch('-'), Seq(vec![ch('-'), ch('-'), ch('>')])]), None)],
        // everything is a token
        8 => vec![("ANY", set(&[], true), Some(0)), lit("A", "a"), ("NOT_AB", Seq(vec![set(&[('a', 'b')], true), ch('b')]), None)],
        // names in other styles
        9 => vec![lit("lower", "l"), lit("mixedCase", "m"), lit("X_Y_Z", "xyz"), ("self", ch('s'), None)],
        // one rule whose proper prefixes are not tokens
        10 => vec![("LONG", Seq(vec![ch('a'), many(Seq(vec![ch('b'), ch('a')])), ch('c')]), None), lit("AB", "ab")],
        LARGE_LEXER => (0..300).map(|k| { let n: &'static str = Box::leak(format!("C{}", k).into_boxed_str()); (n, Lit(vec![0x100 + 2 * k]), None) }).collect(),
        // longest match over alternatives of different lengths
        _ => vec![("ALTS", Alt(vec![Seq(vec![ch('a')]), Seq(vec![ch('a'), ch('b'), ch('c')]), Seq(vec![set(&[('d', 'f')], false), ch('a')])]), None), lit("B", "b"), lit("DE", "de")],
    }
}
/// Positions in a match of `p` that begins in `start`: where a match can still be completed (branch free in the characters).
pub fn inside(p: &P, start: u64, cs: &[u32]) -> u64 {
    match p {
        Ch(_) | Rg(..) | Set(..) => start | m(p, start, cs),
        Seq(v) => { let mut s = start; let mut r = start; for p in v { r |= inside(p, s, cs); s = m(p, s, cs) } r }
        Alt(v) => v.iter().fold(start, |r, p| r | inside(p, start, cs)),
        Lit(v) => { let mut s = start; let mut r = start; for c in v { s = m(&Ch(*c), s, cs); r |= s } r }
        Rep(a, b, i) => {
            let times = b.unwrap_or(cs.len() as u32 + 1 + *a);
            let mut s = start;
            let mut r = start;
            for _ in 0..times { r |= inside(i, s, cs); s = m(i, s, cs) }
            r | s
        }
    }
}

/// A text of the rules' own making, the same on every run: matches of rules after each other, up to `max` characters.
pub fn sample(rules: &[Tok], which: u32, max: usize) -> Vec<u32> {
    let mut x = which * 7919 + 17;
    let mut out = vec![];
    let mut tries = 0;
    while tries < 12 && out.len() < max {
        tries += 1;
        let k = rnd(&mut x, rules.len());
        let at = out.len();
        some_match(&rules[k].1, &mut x, &mut out);
        if out.len() > max { out.truncate(at) }
    }
    out
}
fn rnd(x: &mut u32, n: usize) -> usize { *x = x.wrapping_mul(1664525).wrapping_add(1013904223); (*x >> 16) as usize % n }
fn some_match(p: &P, x: &mut u32, out: &mut Vec<u32>) {
    match p {
        Ch(c) => out.push(*c),
        Rg(a, b) => out.push(if rnd(x, 2) == 0 { *a } else { *b }),
        Set(v, false) => { let (a, b) = v[rnd(x, v.len())]; out.push(if rnd(x, 2) == 0 { a } else { b }) }
        // outside of a negated set: one of a few
        Set(v, true) => { for c in [0x1f600, 'q' as u32, 0xe4, '9' as u32, 1] { if !v.iter().any(|(a, b)| c >= *a && c <= *b) { if rnd(x, 3) > 0 { out.push(c); return } } } out.push(0x20ac) }
        Seq(v) => for p in v { some_match(p, x, out) },
        Alt(v) => some_match(&v[rnd(x, v.len())], x, out),
        Lit(v) => out.extend(v),
        Rep(a, b, i) => { let n = *a as usize + rnd(x, match b { Some(b) => (*b - *a) as usize + 1, None => 4 }); for _ in 0..n { some_match(i, x, out) } }
    }
}
/// Such a text in which one or two characters anywhere are replaced by as many arbitrary ones.
pub fn edited(rules: &[Tok], texts: u64, max: u64, two: u64) -> Vec<u32> {
    let mut cs = sample(rules, sym::choose(texts as u32), max as usize);
    let at = sym::choose(cs.len() as u32 + 1) as usize;
    for k in at..at + 1 + (two > 0) as usize { let c = sym::scalar(1, 0x10ffff); if k < cs.len() { cs[k] = c } else { cs.push(c) } }
    cs
}
