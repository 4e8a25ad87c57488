//! The harness's own token patterns, their matcher (the oracle: sets of positions, branch free in the characters)
//! and deterministic automata flattened to arrays.
use lapex_automaton::{AutomatonState, Dfa};
use lapex_input::{Characters, Pattern, SourcePos, SourceSpan, Spanned, TokenPattern, TokenRule};

/// The harness's own pattern tree.
pub enum P {
    Ch(u32),
    Rg(u32, u32),
    Set(Vec<(u32, u32)>, bool),
    Seq(Vec<P>),
    Alt(Vec<P>),
    Rep(u32, Option<u32>, Box<P>),
    Lit(Vec<u32>),
}
pub use P::*;

pub fn chars(lo: u32, hi: u32, single: bool) -> Characters {
    if single { Characters::Single(sym::chr(lo)) } else { Characters::Range(sym::chr(lo), sym::chr(hi)) }
}
pub fn to_pattern(p: &P) -> Pattern {
    match p {
        Ch(c) => Pattern::Char { chars: chars(*c, *c, true) },
        Rg(a, b) => Pattern::Char { chars: chars(*a, *b, false) },
        Set(v, neg) => Pattern::CharSet { chars: v.iter().map(|(a, b)| chars(*a, *b, false)).collect(), negated: *neg },
        Seq(v) => Pattern::Sequence { elements: v.iter().map(to_pattern).collect() },
        Alt(v) => Pattern::Alternative { elements: v.iter().map(to_pattern).collect() },
        Rep(a, b, i) => Pattern::Repetition { min: *a, max: *b, inner: Box::new(to_pattern(i)) },
        Lit(_) => unreachable!(),
    }
}
pub fn to_token(p: &P) -> TokenPattern {
    match p {
        Lit(v) => TokenPattern::Literal { characters: v.iter().map(|c| sym::chr(*c)).collect() },
        p => TokenPattern::Pattern { pattern: to_pattern(p) },
    }
}
pub fn rule(name: &'static str, p: &P, precedence: Option<u16>) -> Spanned<TokenRule<'static>> {
    let z = SourcePos { line: 1, col: 1 };
    Spanned::new(SourceSpan { start: z, end: z }, TokenRule { name, precedence, pattern: to_token(p) })
}
pub fn inr(c: u32, a: u32, b: u32) -> u64 { ((c >= a) & (c <= b)) as u64 }
pub fn step(start: u64, cs: &[u32], ok: impl Fn(u32) -> u64) -> u64 {
    let mut r = 0;
    for (i, c) in cs.iter().enumerate() {
        r |= (((start >> i) & 1) & ok(*c)) << (i + 1);
    }
    r
}
/// Positions reachable by matching `p` from any position of the set `start` (branch free in the characters).
pub fn m(p: &P, start: u64, cs: &[u32]) -> u64 {
    match p {
        Ch(c) => step(start, cs, |x| (x == *c) as u64),
        Rg(a, b) => step(start, cs, |x| inr(x, *a, *b)),
        Set(v, neg) => step(start, cs, |x| {
            let mut h = 0;
            for (a, b) in v { h |= inr(x, *a, *b); }
            h ^ (*neg as u64)
        }),
        Seq(v) => v.iter().fold(start, |s, p| m(p, s, cs)),
        Alt(v) => v.iter().fold(0, |s, p| s | m(p, start, cs)),
        Lit(v) => v.iter().fold(start, |s, c| step(s, cs, |x| (x == *c) as u64)),
        Rep(a, b, i) => {
            let mut s = start;
            for _ in 0..*a { s = m(i, s, cs); }
            let extra = match b { Some(b) => *b - *a, None => cs.len() as u32 + 1 };
            let mut r = s;
            for _ in 0..extra { s = m(i, s, cs); r |= s; }
            r
        }
    }
}
pub fn prec(p: &P) -> usize {
    match p {
        Ch(_) | Rg(..) | Set(..) => 1,
        Seq(v) => v.iter().map(prec).sum(),
        Alt(v) => { let mut b = usize::MAX; for p in v { let q = prec(p); if q < b { b = q } } b }
        Rep(a, _, i) => *a as usize * prec(i),
        Lit(v) => v.len() * 2,
    }
}
pub fn describe(p: &P, o: &mut String) {
    match p {
        Ch(_) => o.push('c'),
        Rg(..) => o.push_str("[r]"),
        Set(v, n) => { o.push('['); if *n { o.push('^') } for _ in v { o.push('r') } o.push(']') }
        Seq(v) => { o.push('('); for p in v { describe(p, o) } o.push(')') }
        Alt(v) => { o.push('('); for (i, p) in v.iter().enumerate() { if i > 0 { o.push('|') } describe(p, o) } o.push(')') }
        Rep(a, b, i) => { describe(i, o); o.push('{'); o.push((b'0' + *a as u8) as char); o.push(','); if let Some(b) = b { o.push((b'0' + *b as u8) as char) } o.push('}') }
        Lit(v) => { o.push('"'); for _ in v { o.push('c') } o.push('"') }
    }
}

/// A DFA as plain arrays: transitions (from, lo, hi, to) and accepted rule sets.
pub struct Auto { pub n: usize, pub tr: Vec<(usize, u32, u32, usize)>, pub acc: Vec<Vec<usize>> }
pub fn flatten<S: std::fmt::Debug>(dfa: &Dfa<S, usize>, ranges: &[std::ops::RangeInclusive<u32>], f: impl Fn(&S) -> Vec<usize>) -> Auto {
    let ids: Vec<_> = dfa.states().map(|(i, _)| i).collect();
    let ix = |s| { let mut k = 0; while ids[k] != s { k += 1 } k };
    let mut a = Auto { n: ids.len(), tr: vec![], acc: vec![] };
    for (i, st) in dfa.states() {
        a.acc.push(match st { AutomatonState::Accepting(s) => f(s), AutomatonState::Intermediate(_) => vec![] });
        let mut seen: Vec<usize> = vec![];
        for (w, t) in dfa.transitions_from(i) {
            // deterministic: one transition per symbol of the alphabet
            if seen.contains(w) { sym::fail(40) }
            seen.push(*w);
            let r = &ranges[*w];
            a.tr.push((ix(i), *r.start(), *r.end(), ix(t)));
        }
    }
    if a.n > 120 { sym::fail(41) }
    a
}
/// Set of states after each prefix, as bit masks over the states (branch free in the characters).
pub fn run(a: &Auto, cs: &[u32]) -> Vec<u128> {
    let mut cur: u128 = 1;
    let mut v = vec![cur];
    for c in cs {
        let mut nx = 0u128;
        for (f, lo, hi, t) in &a.tr {
            nx |= (((cur >> *f) & 1) & inr(*c, *lo, *hi) as u128) << *t;
        }
        cur = nx;
        v.push(cur);
    }
    v
}
pub fn accmask(a: &Auto, r: usize) -> u128 {
    let mut k = 0u128;
    for (i, v) in a.acc.iter().enumerate() { if v.contains(&r) { k |= 1 << i } }
    k
}
pub fn string(n: usize) -> Vec<u32> { (0..n).map(|_| sym::scalar(0, 0x10ffff)).collect() }
pub fn idx(rules: &[Spanned<TokenRule<'static>>], r: &TokenRule) -> usize {
    let mut k = 0;
    while rules[k].inner.name != r.name { k += 1 }
    k
}

