//! Executes generated Rust lexers (written by harness/gen from /repo's current generators) on arbitrary texts.
use corp::inside;
use pat::m;

pub enum Lexed { Token(usize), End, Bad(u32, u32), Invalid(u32) }
type Run = fn(&str, &mut dyn FnMut(Lexed, std::ops::Range<usize>, &str) -> bool);
include!(concat!(env!("LAPEX_GEN_DIR"), "/all.rs"));

sym::entries! { h_lex(which, strlen), h_long(texts, max, two) }

/// `which` 0: every case; k: only case k-1. Texts of up to `strlen` arbitrary characters other than U+0000.
fn h_lex(which: u64, strlen: u64) {
    let k = if which == 0 { sym::choose(CASES.len() as u32) as usize } else { which as usize - 1 };
    let (id, run) = CASES[k];
    if which == 0 && id == corp::LARGE_LEXER { return }
    let rules = corp::lexer(id);
    let n = sym::choose(strlen as u32 + 1) as usize;
    judge(&rules, run, (0..n).map(|_| sym::scalar(1, 0x10ffff)).collect())
}
/// Long texts with arbitrary characters in one place.
fn h_long(texts: u64, max: u64, two: u64) {
    let (id, run) = CASES[sym::choose(CASES.len() as u32) as usize];
    if id == corp::LARGE_LEXER { return }
    let rules = corp::lexer(id);
    let cs = corp::edited(&rules, texts, max, two);
    judge(&rules, run, cs)
}
fn judge(rules: &[corp::Tok], run: Run, cs: Vec<u32>) {
    let n = cs.len();
    let mut text = String::new();
    // byte offset of every character
    let mut offs = vec![0];
    for c in &cs { text.push(sym::chr(*c)); offs.push(text.len()) }
    let precs: Vec<usize> = rules.iter().map(|(_, p, q)| q.map(|q| q as usize).unwrap_or(pat::prec(p))).collect();
    let mut at = 0;
    let mut ends = 0;
    let mut steps = 0;
    run(&text, &mut |x, span, slice| {
        steps += 1;
        if steps > n + 3 { sym::fail(1); return false }
        let (s, e) = (sym::concretize(span.start as u64) as usize, sym::concretize(span.end as u64) as usize);
        // the slice is the text of the span
        sym::check(slice.as_ptr() as usize == text.as_ptr() as usize + s, 2);
        sym::check(slice.len() == e - s, 2);
        let q = match offs.iter().position(|o| *o == e) { Some(q) => q, None => { sym::fail(3); return false } };
        // tokens follow each other without gaps
        if s != offs[at] || q < at { sym::fail(4); return false }
        sym::observe((s * 64 + e) as u64);
        if at == n {
            sym::reach(1);
            match x { Lexed::End => {} _ => sym::fail(5) }
            if q != n { sym::fail(6) }
            ends += 1;
            return ends < 2;
        }
        // the match was extended as long as some rule could go on
        let start = 1u64 << at;
        let live = rules.iter().fold(0, |r, (_, p, _)| r | inside(p, start, &cs));
        sym::check((live >> q) & 1 == 1, 7);
        if q < n { sym::check((live >> (q + 1)) & 1 == 0, 8) }
        let hits: Vec<u64> = rules.iter().map(|(_, p, _)| (m(p, start, &cs) >> q) & 1).collect();
        match x {
            Lexed::Token(t) => {
                sym::reach(2);
                if q == at { sym::fail(9); return false }
                sym::check(hits[t] == 1, 10);
                for i in 0..rules.len() { if i != t && precs[i] >= precs[t] { sym::check(hits[i] == 0, 11) } }
                at = q;
                sym::observe(t as u64);
                true
            }
            Lexed::Bad(lo, hi) => {
                sym::reach(3);
                for h in &hits { sym::check(*h == 0, 12) }
                let c = if q < n { cs[q] } else { 0 };
                sym::check((lo <= c) & (c <= hi), 13);
                false
            }
            Lexed::End => { sym::fail(14); false }
            Lexed::Invalid(_) => { sym::fail(15); false }
        }
    });
}
