//! Symbolic harnesses over the real lexer pipeline: token rules -> alphabet -> NFA -> DFA -> precedence.
//! The oracle is an independent position-set matcher over the harness's own pattern tree.
use lapex_input::{Spanned, TokenRule};
use pat::*;
use lapex_lexer::{apply_precedence_to_dfa, generate_alphabet, generate_nfa};

sym::entries! { h_alphabet(n, lits), h_shape(depth, leaves, strlen), h_bounds(max, strlen), h_symchars(set, which, strlen), h_prec(rules, strlen, symbolic), h_precsym(which, strlen) }

/// C11 for one rule set: DFA language and labels equal the oracle's, for every string up to `strlen`.
fn check_language(ps: &[P], strlen: usize) {
    let names = ["T0", "T1", "T2"];
    let rules: Vec<_> = ps.iter().enumerate().map(|(i, p)| rule(names[i], p, None)).collect();
    sym::fork_select(true);
    let alpha = generate_alphabet(&rules);
    let (s, nfa) = generate_nfa(&alpha, &rules);
    let dfa = nfa.powerset_construction(s);
    sym::fork_select(false);
    let a = flatten(&dfa, alpha.get_ranges(), |v: &Vec<&Spanned<TokenRule>>| v.iter().map(|r| idx(&rules, &r.inner)).collect());
    sym::reach(1);
    let cs = string(strlen);
    let st = run(&a, &cs);
    for (r, p) in ps.iter().enumerate() {
        let want = m(p, 1, &cs);
        let k = accmask(&a, r);
        for i in 0..=strlen {
            let got = ((st[i] & k) != 0) as u64;
            sym::check(got == (want >> i) & 1, 50 + r as u32);
        }
    }
    sym::observe(a.n as u64);
    sym::observe(a.tr.len() as u64);
}

/// C10: the alphabet over `n` arbitrary character items.
fn h_alphabet(n: u64, lits: u64) {
    let mut items = vec![];
    let mut ps = vec![];
    for k in 0..n {
        let a = sym::scalar(0, 0x10ffff);
        let kind = sym::choose(if k == 0 { 4 } else { 3 });
        if kind == 1 {
            let b = sym::scalar(0, 0x10ffff);
            sym::assume(a <= b);
            items.push((a, b));
            ps.push(Rg(a, b));
        } else {
            items.push((a, a));
            ps.push(match kind { 0 => Ch(a), 2 => Set(vec![(a, a)], true), _ => Rep(0, None, Box::new(Alt(vec![Seq(vec![Ch(a)])]))) });
        }
    }
    let mut rules: Vec<_> = vec![];
    if lits > 0 {
        let l: Vec<u32> = (0..lits).map(|_| sym::scalar(0, 0x10ffff)).collect();
        for c in &l { items.push((*c, *c)) }
        rules.push(rule("L", &Lit(l), None));
    }
    for p in &ps { rules.push(rule("T", p, None)); }
    let alpha = generate_alphabet(&rules);
    let r = alpha.get_ranges();
    sym::reach(1);
    sym::check(*r[0].start() == 0, 60);
    sym::check(*r[r.len() - 1].end() == 0x10ffff, 61);
    for i in 0..r.len() {
        sym::check(r[i].start() <= r[i].end(), 62);
        if i > 0 { sym::check(*r[i].start() == *r[i - 1].end() + 1, 63) }
        for (lo, hi) in &items {
            let (s, e) = (*r[i].start(), *r[i].end());
            sym::check((e < *lo) | (s > *hi) | ((s >= *lo) & (e <= *hi)), 64);
        }
    }
    let x = sym::u32(0, 0x11ffff);
    sym::fork_select(true);
    let found = alpha.find_range(x);
    sym::fork_select(false);
    match found {
        Some(i) => {
            sym::check((*r[i].start() <= x) & (x <= *r[i].end()), 65);
            sym::observe(i as u64);
        }
        None => sym::check(x > 0x10ffff, 66),
    }
    sym::observe(r.len() as u64);
}

fn leaf(leaves: &mut u64) -> P {
    *leaves -= 1;
    match sym::choose(9) {
        6 => Seq(vec![]),
        7 => Set(vec![], true),
        8 => Set(vec![], false),
        0 => Ch('a' as u32),
        1 => Ch('b' as u32),
        2 => Rg('a' as u32, 'c' as u32),
        3 => Set(vec![('a' as u32, 'a' as u32)], true),
        4 => Set(vec![('b' as u32, 'b' as u32), ('d' as u32, 'f' as u32)], false),
        _ => Set(vec![('b' as u32, 'c' as u32), ('c' as u32, 'e' as u32)], true),
    }
}
fn rep(p: P) -> P {
    let (a, b) = match sym::choose(10) {
        0 => (0, None),
        1 => (1, None),
        2 => (0, Some(1)),
        3 => (2, None),
        4 => (0, Some(2)),
        5 => (1, Some(2)),
        6 => (2, Some(2)),
        7 => (1, Some(3)),
        8 => (1, Some(1)),
        _ => (3, Some(3)),
    };
    Rep(a, b, Box::new(p))
}
/// C11: one repetition with any bounds up to `max` (or none), over several inner patterns, in several contexts.
fn h_bounds(max: u64, strlen: u64) {
    let (a, b, c) = ('a' as u32, 'b' as u32, 'c' as u32);
    let inner = match sym::choose(5) {
        0 => Ch(a),
        1 => Seq(vec![Ch(a), Ch(b)]),
        2 => Alt(vec![Ch(a), Seq(vec![Ch(b), Ch(a)])]),
        3 => Rep(0, Some(1), Box::new(Ch(a))),
        _ => Alt(vec![Rep(1, None, Box::new(Ch(a))), Ch(b)]),
    };
    let lo = sym::choose(max as u32 + 1);
    let hi = sym::choose(max as u32 - lo + 2);
    let r = Rep(lo, if hi == max as u32 - lo + 1 { None } else { Some(lo + hi) }, Box::new(inner));
    let p = match sym::choose(4) {
        0 => r,
        1 => Seq(vec![r, Ch(c)]),
        2 => Seq(vec![Ch(a), r]),
        _ => Alt(vec![r, Ch(c)]),
    };
    if sym::is_replay() { let mut o = String::new(); describe(&p, &mut o); sym::note(&o); }
    check_language(&[p], strlen as usize);
}
fn tree(depth: u64, leaves: &mut u64) -> P {
    if depth == 0 || *leaves == 0 {
        if *leaves == 0 { *leaves = 1 }
        return leaf(leaves);
    }
    match sym::choose(if *leaves >= 2 { 4 } else { 2 }) {
        0 => leaf(leaves),
        1 => rep(tree(depth - 1, leaves)),
        k => {
            // at least one leaf is kept for the second operand
            *leaves -= 1;
            let x = tree(depth - 1, leaves);
            *leaves += 1;
            let y = tree(depth - 1, leaves);
            if k == 2 { Seq(vec![x, y]) } else { Alt(vec![x, y]) }
        }
    }
}
/// C11: one rule, every pattern tree of the given depth and number of leaves over a fixed leaf set.
fn h_shape(depth: u64, leaves: u64, strlen: u64) {
    let mut l = leaves;
    let p = tree(depth, &mut l);
    if sym::is_replay() { let mut o = String::new(); describe(&p, &mut o); sym::note(&o); }
    check_language(&[p], strlen as usize);
}
/// C11: arbitrary characters, a list of shapes and rule sets.
fn h_symchars(set: u64, which: u64, strlen: u64) {
    let c = || sym::scalar(0, 0x10ffff);
    let rg = || { let a = c(); let b = c(); sym::assume(a <= b); (a, b) };
    let bx = Box::new;
    let ps = match (set, which) {
        (0, 0) => vec![Ch(c())],
        (0, 1) => { let (a, b) = rg(); vec![Rg(a, b)] }
        (0, 2) => { let r = rg(); vec![Set(vec![r], true)] }
        (0, 3) => vec![Seq(vec![Ch(c()), Ch(c())])],
        (0, 5) => vec![Lit(vec![]), Ch(c())],
        (0, 4) => vec![Ch(c()), Set(vec![{ let x = c(); (x, x) }], true)],
        (0, _) => vec![Lit(vec![c(), c()])],
        (1, 0) => vec![Lit(vec![c(), c()]), { let (a, b) = rg(); Rep(1, None, bx(Rg(a, b))) }],
        (1, 1) => { let r = rg(); let s = rg(); vec![Set(vec![r, s], false)] }
        (1, 2) => { let r = rg(); let s = rg(); vec![Set(vec![r, s], true)] }
        (1, 3) => vec![Seq(vec![Rep(0, None, bx(Ch(c()))), Alt(vec![Ch(c()), { let (a, b) = rg(); Rg(a, b) }])])],
        (1, 4) => { let (a, b) = rg(); vec![Rep(1, None, bx(Alt(vec![Rg(a, b), Ch(c())])))] }
        (1, 5) => { let r = rg(); vec![Seq(vec![Ch(c()), Rep(0, None, bx(Set(vec![r], true))), Ch(c())])] }
        _ => { let (a, b) = rg(); vec![Rg(a, b), { let (a, b) = rg(); Rg(a, b) }] }
    };
    check_language(&ps, strlen as usize);
}

fn prec_pattern(k: u32, sy: bool) -> P {
    let b = |x: P| Box::new(x);
    let ch = |c: char| Ch(if sy { sym::u32('a' as u32, 'c' as u32) } else { c as u32 });
    match k {
        0 => Lit(vec!['a' as u32]),
        1 => Lit(vec!['a' as u32, 'b' as u32]),
        2 => Rep(1, None, b(Rg('a' as u32, 'c' as u32))),
        3 => ch('a'),
        4 => Seq(vec![ch('a'), ch('b')]),
        5 => Alt(vec![Seq(vec![ch('a'), ch('b')]), ch('a')]),
        6 => Set(vec![('a' as u32, 'a' as u32)], true),
        7 => Rep(2, Some(3), b(Rg('a' as u32, 'b' as u32))),
        8 => Alt(vec![ch('a'), Seq(vec![ch('a'), ch('b'), ch('a')])]),
        _ => Seq(vec![Rep(2, Some(2), b(ch('a'))), Rep(0, None, b(ch('b')))]),
    }
}
fn check_precedence(ps: &[P], explicit: &[Option<u16>], strlen: usize) {
    let names = ["T0", "T1", "T2"];
    let n = ps.len();
    let rules: Vec<_> = ps.iter().zip(explicit).enumerate().map(|(i, (p, e))| rule(names[i], p, *e)).collect();
    let pr: Vec<usize> = ps.iter().zip(explicit).map(|(p, e)| match e { Some(e) => *e as usize, None => prec(p) }).collect();
    sym::fork_select(true);
    let alpha = generate_alphabet(&rules);
    let (s, nfa) = generate_nfa(&alpha, &rules);
    let labelled = apply_precedence_to_dfa(nfa.powerset_construction(s));
    sym::fork_select(false);
    match labelled {
        Ok(dfa) => {
            sym::reach(2);
            let a = flatten(&dfa, alpha.get_ranges(), |r: &&TokenRule| vec![idx(&rules, r)]);
            let cs = string(strlen);
            let st = run(&a, &cs);
            let ms: Vec<u64> = ps.iter().map(|p| m(p, 1, &cs)).collect();
            for i in 0..=strlen {
                let mut any = 0;
                let mut lab = 0;
                for r in 0..n {
                    let got = ((st[i] & accmask(&a, r)) != 0) as u64;
                    let mut want = (ms[r] >> i) & 1;
                    any |= want;
                    for q in 0..n {
                        if q != r { want &= 1 ^ (((ms[q] >> i) & 1) & (pr[q] >= pr[r]) as u64); }
                    }
                    lab |= got;
                    sym::check(got == want, 70 + r as u32);
                }
                sym::check(any == lab, 75);
            }
            sym::observe(1);
        }
        Err(e) => {
            sym::reach(3);
            // look for a string on which exactly the named rules tie at the top, among words leading to each state
            let dfa = nfa.powerset_construction(s);
            let a = flatten(&dfa, alpha.get_ranges(), |v: &Vec<&Spanned<TokenRule>>| v.iter().map(|r| idx(&rules, &r.inner)).collect());
            let mut word: Vec<Option<Vec<u32>>> = vec![None; a.n];
            word[0] = Some(vec![]);
            let mut q = vec![0];
            let mut k = 0;
            let mut good = false;
            while k < q.len() {
                let w = word[q[k]].clone().unwrap();
                let mut top = 0;
                let mut tie = vec![];
                for r in 0..n {
                    if (m(&ps[r], 1, &w) >> w.len()) & 1 == 1 {
                        if tie.is_empty() || pr[r] > top { top = pr[r]; tie = vec![r]; } else if pr[r] == top { tie.push(r) }
                    }
                }
                if tie.len() > 1 && e.precedence == top && e.rules.len() == tie.len()
                    && tie.iter().all(|r| e.rules.iter().any(|x| x.inner == names[*r])) { good = true; }
                for (f, lo, _, t) in &a.tr {
                    if *f == q[k] && word[*t].is_none() {
                        let mut w2 = w.clone();
                        w2.push(*lo);
                        word[*t] = Some(w2);
                        q.push(*t);
                    }
                }
                k += 1;
            }
            sym::check(good, 76);
            sym::observe(2);
        }
    }
}
/// C12: sets of two or three rules with arbitrary explicit precedences.
fn h_prec(nrules: u64, strlen: u64, symbolic: u64) {
    let mut ps = vec![];
    let mut ex = vec![];
    for _ in 0..nrules {
        ps.push(prec_pattern(sym::choose(if nrules > 2 { 6 } else { 10 }), symbolic == 1));
        ex.push(if sym::choose(2) == 1 { Some(sym::u16(0, 65535)) } else { None });
    }
    if sym::is_replay() { let mut o = String::new(); for p in &ps { describe(p, &mut o); o.push(' ') } sym::note(&o); }
    check_precedence(&ps, &ex, strlen as usize);
}
/// C12: arbitrary characters in two or three overlapping classes and literals.
fn h_precsym(which: u64, strlen: u64) {
    let c = || sym::scalar(0, 0x10ffff);
    let rg = || { let a = c(); let b = c(); sym::assume(a <= b); Rg(a, b) };
    let ps = match which {
        0 => vec![Lit(vec![c()]), rg()],
        1 => vec![rg(), rg()],
        _ => vec![Lit(vec![c()]), Ch(c()), Ch(c())],
    };
    let ex: Vec<_> = ps.iter().map(|_| if sym::choose(2) == 1 { Some(sym::u16(0, 65535)) } else { None }).collect();
    check_precedence(&ps, &ex, strlen as usize);
}
