//! Symbolic harnesses over grammar lowering and parse table generation.
mod refs;
use gram::*;
use lapex_input::{EntryRule, ProductionPattern, ProductionRule, RuleSet, Spanned};
use lapex_parser::grammar::{Grammar, GrammarError, Symbol};
use lapex_parser::ll_parser::{self, LLParserError};
use lapex_parser::lr_parser::{self, ActionGotoTable, Conflict, GenerationResult, TableEntry};

sym::entries! { h_lower(fam, depth, leaves, strlen), h_names(k), h_lr(fam, mode, strlen), h_lrebnf(depth, leaves, mode, strlen), h_conf(fam, mode), h_confebnf(depth, leaves, mode), h_ll(fam, strlen), h_llebnf(depth, leaves, strlen), h_table(fam, mode), h_tableebnf(depth, leaves, mode) }

fn grammar(e: &Ebnf) -> &'static Grammar<'static> {
    match Grammar::from_rule_set(e.rule_set()) {
        Ok(g) => Box::leak(Box::new(g)),
        Err(_) => { sym::fail(32); unreachable!() }
    }
}
fn ebnf(depth: u64, leaves: u64) -> Ebnf {
    let mut l = leaves;
    let s = ebnf_tree(depth, &mut l, 2);
    let x = match sym::choose(3) { 0 => E::T(1), 1 => E::Opt(Box::new(E::T(0))), _ => E::Seq(vec![E::T(0), E::Opt(Box::new(E::N(0)))]) };
    let e = Ebnf { nts: 2, ts: 2, prods: vec![(0, s), (1, x)] };
    if sym::is_replay() { sym::note(&e.text()) }
    e
}
fn fam(f: u64) -> Plain {
    let p = family(f);
    if sym::is_replay() { sym::note(&p.ebnf().text()) }
    p
}

/// C20: the lowered rules derive exactly what the EBNF text denotes, for every string up to `strlen`.
fn h_lower(f: u64, depth: u64, leaves: u64, strlen: u64) {
    let e = match f {
        0 => ebnf(depth, leaves),
        // several productions of one name, mutual recursion
        _ => {
            let mut l = leaves;
            let a = ebnf_tree(depth, &mut l, 2);
            let mut l = leaves;
            let b = ebnf_tree(depth, &mut l, 2);
            let e = match f {
                1 => Ebnf { nts: 2, ts: 2, prods: vec![(0, a), (1, b)] },
                2 => Ebnf { nts: 2, ts: 2, prods: vec![(0, a), (1, E::T(1)), (0, b)] },
                _ => Ebnf { nts: 2, ts: 2, prods: vec![(0, E::Seq(vec![E::N(1), E::N(1)])), (1, a), (1, b)] },
            };
            if sym::is_replay() { sym::note(&e.text()) }
            e
        }
    };
    let g = grammar(&e);
    let (p, _) = plain_of(g, e.ts, e.nts);
    sym::reach(1);
    let cs: Vec<u8> = (0..strlen).map(|_| sym::u8(0, e.ts as u8 - 1)).collect();
    let want = derives_ebnf(&e, &cs);
    let got = derives_plain(&p, &cs);
    let n = strlen as usize;
    for k in 0..e.nts {
        for i in 0..=n {
            let mut diff = 0;
            for j in i..=n { diff |= want.get(k, i, j) ^ got.get(k, i, j) }
            sym::check(diff == 0, 10 + k as u32);
        }
    }
    // helper symbols are not among the declared ones
    if *g.entry_point() != g.rules().iter().find(|r| r.rule().inner.name == NAMES[0] && g.get_production_name(&r.lhs().unwrap()) == Some(NAMES[0])).unwrap().lhs().unwrap() { sym::fail(15) }
    sym::observe(p.rules.len() as u64);
    sym::observe(p.nts as u64);
}

/// C20: undeclared names and clashing declarations are errors.
fn h_names(_: u64) {
    let names = ["a", "b", "c"];
    let nt = 1 + sym::choose(2) as usize;
    let tok: Vec<usize> = (0..nt).map(|_| sym::choose(3) as usize).collect();
    let np = 1 + sym::choose(2) as usize;
    let prod: Vec<usize> = (0..np).map(|_| sym::choose(3) as usize).collect();
    let refs: Vec<usize> = (0..np).map(|_| sym::choose(3) as usize).collect();
    let shape = sym::choose(6);
    let entry = sym::choose(3) as usize;
    let tokens = tok.iter().enumerate().map(|(k, n)| token(names[*n], k as u16)).collect();
    let pat = |n: usize| {
        let r = ProductionPattern::Rule { rule_name: names[n] };
        match shape {
            0 => r,
            1 => ProductionPattern::Optional { inner: Box::new(r) },
            2 => ProductionPattern::ZeroOrMany { inner: Box::new(r) },
            3 => ProductionPattern::OneOrMany { inner: Box::new(r) },
            4 => ProductionPattern::Alternative { elements: vec![ProductionPattern::Epsilon, r] },
            _ => ProductionPattern::Sequence { elements: vec![ProductionPattern::Rule { rule_name: names[prod[0]] }, r] },
        }
    };
    let prods = (0..np).map(|k| Spanned::new(span(100 + k as u16), ProductionRule { name: names[prod[k]], tag: None, pattern: pat(refs[k]) })).collect();
    let rs: &'static RuleSet = Box::leak(Box::new(RuleSet::new(Spanned::new(span(50), EntryRule { name: names[entry] }), tokens, prods)));
    let dup_tok = nt == 2 && tok[0] == tok[1];
    let clash = prod.iter().any(|p| tok.contains(p));
    let declared = |n: usize| tok.contains(&n) || prod.contains(&n);
    let missing = refs.iter().any(|r| !declared(*r)) || !prod.contains(&entry);
    match Grammar::from_rule_set(rs) {
        Ok(g) => {
            sym::reach(1);
            sym::check(!dup_tok & !clash & !missing, 20);
            sym::check(g.get_production_name(g.entry_point()) == Some(names[entry]), 21);
        }
        Err(GrammarError::ConflictingRules { rules }) => {
            sym::reach(2);
            sym::check(dup_tok | clash, 22);
            // the spans belong to two declarations of one name
            let name = |line: u16| if line < 50 { tok[line as usize - 1] } else { prod[line as usize - 100] };
            sym::check(rules.len() == 2 && rules[0].start.line != rules[1].start.line && name(rules[0].start.line) == name(rules[1].start.line), 23);
        }
        Err(GrammarError::MissingSymbol(n)) => {
            sym::reach(3);
            let k = names.iter().position(|x| *x == n);
            sym::check(missing && k.is_some_and(|k| (refs.contains(&k) && !declared(k)) || (entry == k && !prod.contains(&k))), 24);
        }
        Err(_) => sym::fail(25),
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Act { Err, Shift(usize), Reduce(usize), Accept }
struct Table { action: Vec<Vec<Act>>, goto: Vec<Vec<Act>>, entry: usize }

fn cell(g: &Grammar, e: Option<&Vec<TableEntry>>, is_goto: bool) -> Act {
    match e.map(|v| v.as_slice()) {
        None | Some([]) => Act::Err,
        Some([e]) => match e {
            TableEntry::Error => Act::Err,
            TableEntry::Accept => Act::Accept,
            TableEntry::Shift { target } => Act::Shift(*target),
            TableEntry::Reduce { rule } => if is_goto { Act::Err } else {
                match g.rules().iter().position(|r| std::ptr::eq(r as *const _ as *const u8, *rule as *const _ as *const u8)) {
                    Some(k) => Act::Reduce(k),
                    None => { sym::fail(40); Act::Err }
                }
            },
        },
        Some(_) => { sym::fail(41); Act::Err }
    }
}
fn dense(g: &'static Grammar<'static>, t: &ActionGotoTable<'static, 'static>, ts: usize, syms: &[Symbol]) -> Table {
    let n = t.states();
    let mut r = Table { action: vec![], goto: vec![], entry: t.entry_state() };
    for s in 0..n {
        let mut a: Vec<Act> = (0..ts).map(|k| cell(g, t.get_entry(s, Symbol::Terminal(k as u16)), false)).collect();
        a.push(cell(g, t.get_entry(s, Symbol::End), false));
        r.action.push(a);
        r.goto.push(syms.iter().map(|x| cell(g, t.get_entry(s, *x), true)).collect());
    }
    r
}
/// Whether every continuation of `word` (up to `max` tokens, or none if it is complete) is or is not in the language.
fn settle(p: &Plain, word: &[u8], complete: bool, max: usize, accepted: bool, code: u32) {
    let mut cs = word.to_vec();
    if !complete { while cs.len() < max { cs.push(sym::u8(0, p.ts as u8 - 1)) } }
    let d = derives_plain(p, &cs);
    for m in if complete { cs.len() } else { word.len() }..=cs.len() {
        sym::check(d.get(p.entry, 0, m) == accepted as u8, code);
    }
}
fn next(word: &mut Vec<u8>, ts: usize, max: usize) -> usize {
    let t = if word.len() < max { sym::choose(ts as u32 + 1) as usize } else { ts };
    if t < ts { word.push(t as u8) }
    t
}
fn drive_lr(p: &Plain, t: &Table, max: usize) {
    let ts = p.ts;
    let mut states = vec![t.entry];
    let mut symbols: Vec<u8> = vec![];
    let mut word = vec![];
    let mut look = next(&mut word, ts, max);
    let mut steps = 0;
    loop {
        steps += 1;
        if steps > 200 { sym::fail(53) }
        let s = states[states.len() - 1];
        if s >= t.action.len() { sym::fail(54); return }
        match t.action[s][look] {
            Act::Err => { sym::reach(3); return settle(p, &word, look == ts, max, false, 50) }
            Act::Accept => {
                sym::check(symbols.len() == 1 && symbols[0] == NT + p.entry as u8, 55);
                sym::reach(2);
                return settle(p, &word, look == ts, max, true, 51);
            }
            Act::Shift(q) => {
                if look == ts { sym::fail(56) }
                symbols.push(look as u8);
                states.push(q);
                look = next(&mut word, ts, max);
            }
            Act::Reduce(r) => {
                let (l, rhs) = &p.rules[r];
                let n = rhs.len();
                if symbols.len() < n || symbols[symbols.len() - n..] != rhs[..] { sym::fail(52); return }
                symbols.truncate(symbols.len() - n);
                states.truncate(states.len() - n);
                symbols.push(NT + *l);
                match t.goto[states[states.len() - 1]][*l as usize] {
                    Act::Shift(q) => states.push(q),
                    Act::Accept => {
                        sym::reach(2);
                        return settle(p, &word, look == ts, max, true, 51);
                    }
                    _ => { sym::fail(57); return }
                }
            }
        }
    }
}
fn check_lr(e: &Ebnf, mode: u64, strlen: u64) {
    let g = grammar(e);
    let (p, syms) = plain_of(g, e.ts, e.nts);
    // without lookahead, a symbol that derives no tokens can be expanded forever (also by the textbook)
    if mode == 0 && !refs::productive(&p) { return }
    macro_rules! go { ($n:expr, $lalr:expr) => {
        match lr_parser::generate_table::<$n>(g, false, $lalr) {
            GenerationResult::NoConflicts(t) => { sym::reach(1); drive_lr(&p, &dense(g, &t, e.ts, &syms), strlen as usize); sym::observe(t.states() as u64) }
            GenerationResult::AllowedConflicts { .. } => sym::fail(58),
            GenerationResult::BadConflicts(c) => { sym::check(!c.is_empty(), 59); sym::reach(4) }
        }
    } }
    match mode { 0 => go!(0, false), 1 => go!(1, true), _ => go!(1, false) }
}
/// C21: table-driven parsing, for every grammar of the family and every token string up to `strlen`.
fn h_lr(f: u64, mode: u64, strlen: u64) { check_lr(&fam(f).ebnf(), mode, strlen) }
fn h_lrebnf(depth: u64, leaves: u64, mode: u64, strlen: u64) { check_lr(&ebnf(depth, leaves), mode, strlen) }

fn check_conf(e: &Ebnf, mode: u64) {
    let g = grammar(e);
    let (p, syms) = plain_of(g, e.ts, e.nts);
    let want = refs::lr_conflicts(&p, mode);
    let index = |r: &lapex_parser::grammar::Rule| match r.lhs() {
        None => p.rules.len(),
        Some(_) => match g.rules().iter().position(|x| std::ptr::eq(x as *const _ as *const u8, r as *const _ as *const u8)) { Some(k) => k, None => { sym::fail(60); 0 } },
    };
    let check = |cs: &[Conflict]| {
        for c in cs {
            match c {
                Conflict::ShiftReduce { item_to_reduce, shift_symbol, .. } => {
                    let r = index(item_to_reduce.rule());
                    let t = match shift_symbol { Symbol::Terminal(t) => *t as u8, s => match syms.iter().position(|x| x == s) { Some(k) => NT + k as u8, None => 255 } };
                    sym::check(want.sr.contains(&(r, t)), 61);
                }
                Conflict::ReduceReduce { items, .. } => {
                    sym::check(items.len() > 1, 62);
                    let rs: Vec<usize> = items.iter().map(|i| index(i.rule())).collect();
                    for a in &rs { for b in &rs { if a < b { sym::check(want.rr.contains(&(*a, *b)), 63) } } }
                }
            }
        }
    };
    let any = !want.sr.is_empty() || !want.rr.is_empty();
    macro_rules! go { ($n:expr, $lalr:expr) => {
        match lr_parser::generate_table::<$n>(g, false, $lalr) {
            GenerationResult::NoConflicts(_) => { sym::reach(1); sym::check(!any, 64) }
            GenerationResult::AllowedConflicts { .. } => sym::fail(65),
            GenerationResult::BadConflicts(c) => {
                sym::reach(2);
                sym::check(any, 66);
                check(&c);
                match lr_parser::generate_table::<$n>(g, true, $lalr) {
                    GenerationResult::AllowedConflicts { conflicts, .. } => { check(&conflicts); sym::check(conflicts.len() == c.len(), 67) }
                    _ => sym::fail(68),
                }
            }
        }
    } }
    match mode { 0 => go!(0, false), 1 => go!(1, true), _ => go!(1, false) }
}
/// C22: conflicts against independently built LR(0), LALR(1) and LR(1) automata.
fn h_conf(f: u64, mode: u64) { check_conf(&fam(f).ebnf(), mode) }
fn h_confebnf(depth: u64, leaves: u64, mode: u64) { check_conf(&ebnf(depth, leaves), mode) }

fn drive_ll(p: &Plain, table: &[Vec<Option<Vec<u8>>>], max: usize) {
    let ts = p.ts;
    let mut word = vec![];
    let mut stack: Vec<u8> = vec![NT + p.entry as u8];
    let mut look = next(&mut word, ts, max);
    let mut steps = 0;
    while let Some(x) = stack.pop() {
        steps += 1;
        if steps > 200 { sym::fail(73) }
        if x < NT {
            if look == x as usize { look = next(&mut word, ts, max) } else { sym::reach(3); return settle(p, &word, look == ts, max, false, 70) }
        } else {
            match &table[(x - NT) as usize][look] {
                None => { sym::reach(3); return settle(p, &word, look == ts, max, false, 70) }
                Some(rhs) => for y in rhs.iter().rev() { stack.push(*y) },
            }
        }
    }
    sym::reach(2);
    // the whole input has to be consumed
    settle(p, &word, look == ts, max, look == ts, 71)
}
fn check_ll(e: &Ebnf, strlen: u64) {
    let g = grammar(e);
    let (p, syms) = plain_of(g, e.ts, e.nts);
    let code = |s: &Symbol| match s { Symbol::Terminal(t) => *t as u8, s => match syms.iter().position(|x| x == s) { Some(k) => NT + k as u8, None => { sym::fail(74); 0 } } };
    let strip = |v: &Vec<Symbol>| -> Vec<u8> { v.iter().filter(|s| **s != Symbol::Epsilon).map(code).collect() };
    let predict = refs::ll_predict(&p);
    let mut clash: Vec<(usize, usize)> = vec![];
    for a in 0..p.rules.len() { for b in a + 1..p.rules.len() { if p.rules[a].0 == p.rules[b].0 && predict[a] & predict[b] != 0 { clash.push((a, b)) } } }
    match ll_parser::generate_table(g) {
        Ok(t) => {
            sym::reach(1);
            sym::check(clash.is_empty(), 75);
            let table: Vec<Vec<Option<Vec<u8>>>> = syms.iter().map(|n| (0..=e.ts).map(|k| t.get_production(*n, &if k < e.ts { Symbol::Terminal(k as u16) } else { Symbol::End }).map(strip)).collect()).collect();
            // every cell holds exactly the predicted production
            for n in 0..syms.len() {
                for k in 0..=e.ts {
                    let mut want = None;
                    for r in 0..p.rules.len() { if p.rules[r].0 as usize == n && predict[r] >> k & 1 == 1 { want = Some(&p.rules[r].1) } }
                    sym::check(want == table[n][k].as_ref(), 76);
                }
            }
            drive_ll(&p, &table, strlen as usize);
        }
        Err(LLParserError::ParserTableConflict { non_terminal, terminal, production, existing_production }) => {
            sym::reach(4);
            sym::check(!clash.is_empty(), 77);
            let n = code(&non_terminal) - NT;
            let k = match terminal { Symbol::Terminal(t) => t as usize, Symbol::End => e.ts, _ => 99 };
            let (x, y) = (strip(&production), strip(&existing_production));
            sym::check(k <= e.ts && clash.iter().any(|(a, b)| p.rules[*a].0 == n && (predict[*a] & predict[*b]) >> k & 1 == 1
                && ((p.rules[*a].1 == x && p.rules[*b].1 == y) || (p.rules[*a].1 == y && p.rules[*b].1 == x))), 78);
        }
        Err(_) => sym::fail(79),
    }
}
/// C23: LL(1) tables and conflicts, and the predictive parse they drive.
fn h_ll(f: u64, strlen: u64) { check_ll(&fam(f).ebnf(), strlen) }
fn h_llebnf(depth: u64, leaves: u64, strlen: u64) { check_ll(&ebnf(depth, leaves), strlen) }

/// "name(3)" -> "name"
fn bare(s: &str) -> &str { match s.rfind('(') { Some(k) if k > 0 => &s[..k], _ => s } }
fn decimal(s: &str) -> Option<usize> {
    if s.is_empty() || s.len() > 9 { return None }
    let mut n = 0;
    for b in s.bytes() { if !b.is_ascii_digit() { return None } n = n * 10 + (b - b'0') as usize }
    Some(n)
}
/// The table as it is printed, read back: rules with their numbers, a header that names the symbols, one line per state.
fn check_print(g: &'static Grammar<'static>, p: &Plain, syms: &[Symbol], t: &ActionGotoTable<'static, 'static>, out: &[u8]) {
    let text = match std::str::from_utf8(out) { Ok(s) => s, Err(_) => return sym::fail(80) };
    if sym::is_replay() { sym::note(text) }
    let names: Vec<String> = syms.iter().map(|s| g.get_symbol_name(s)).collect();
    let tokens: Vec<Symbol> = (0..p.ts).map(|k| Symbol::Terminal(k as u16)).collect();
    let token_names: Vec<&str> = (0..p.ts).map(|k| g.get_token_name(k as u16)).collect();
    let mut lines = text.lines();
    if lines.next().is_none() { sym::fail(81) }
    let mut seen = vec![None; p.rules.len()];
    for l in lines.by_ref() {
        if l.is_empty() { break }
        let (k, rest) = match l.split_once(':') { Some(x) => x, None => return sym::fail(82) };
        let k = match decimal(k.trim()) { Some(k) if k < seen.len() => k, _ => return sym::fail(83) };
        sym::check(seen[k].is_none(), 84);
        // the rule as it is in the grammar
        let w: Vec<&str> = rest.split_whitespace().filter(|w| *w != "<eps>").collect();
        let (lhs, rhs) = &p.rules[k];
        let mut ok = w.len() == rhs.len() + 2 && w[0] == names[*lhs as usize];
        for (a, x) in w.iter().skip(2).zip(rhs) { ok &= if *x < NT { bare(a) == token_names[*x as usize] } else { *a == names[(*x - NT) as usize] } }
        sym::check(ok, 85);
        seen[k] = Some(());
    }
    sym::check(seen.iter().all(|s| s.is_some()), 86);
    let head: Vec<&str> = match lines.next() { Some(h) => h.split('|').skip(1).collect(), None => return sym::fail(87) };
    let columns: Vec<Option<Symbol>> = head.iter().map(|h| {
        let h = h.trim();
        if let Some(k) = names.iter().position(|n| n == h) { return Some(syms[k]) }
        if let Some(k) = token_names.iter().position(|n| *n == bare(h)) { return Some(tokens[k]) }
        if h == "<end>" { Some(Symbol::End) } else { None }
    }).collect();
    // every symbol has one column
    for s in syms.iter().chain(&tokens).chain([&Symbol::End]) { sym::check(columns.iter().filter(|c| **c == Some(*s)).count() == 1, 88) }
    let mut n = 0;
    for l in lines {
        if l.is_empty() { continue }
        let cells: Vec<&str> = l.split('|').collect();
        sym::check(decimal(cells[0].trim()) == Some(n) && cells.len() == head.len() + 1, 89);
        for (c, text) in columns.iter().zip(&cells[1..]) {
            let Some(c) = c else { continue };
            let text = text.trim();
            let e = t.get_entry(n, *c).map(|v| v.as_slice()).unwrap_or(&[]);
            let ok = match e {
                [] => text.is_empty(),
                [TableEntry::Error] => text == "e",
                [TableEntry::Accept] => text == "a",
                [TableEntry::Shift { target }] => text.starts_with('s') && decimal(&text[1..]) == Some(*target),
                [TableEntry::Reduce { rule }] => text.starts_with('r') && decimal(&text[1..]).is_some_and(|k| k < p.rules.len() && std::ptr::eq(g.rules()[k].rule() as *const _, rule.rule() as *const _) && g.rules()[k].rhs().len() == rule.rhs().len() && g.rules()[k].lhs() == rule.lhs() && g.rules()[k].rhs() == rule.rhs()),
                _ => text == "c",
            };
            sym::check(ok, 90);
        }
        n += 1;
    }
    sym::check(n == t.states(), 91);
}
fn table_of(e: &Ebnf, mode: u64) {
    let g = grammar(e);
    let (p, syms) = plain_of(g, e.ts, e.nts);
    macro_rules! go { ($n:expr, $allow:expr, $lalr:expr) => {
        match lr_parser::generate_table::<$n>(g, $allow, $lalr) {
            GenerationResult::NoConflicts(t) => Some(t),
            GenerationResult::AllowedConflicts { table, .. } => { sym::reach(2); Some(table) }
            _ => None,
        }
    } }
    let t = match mode { 0 => go!(0, false, false), 1 => go!(1, false, true), 2 => go!(1, false, false), _ => go!(1, true, true) };
    if let Some(t) = t {
        sym::reach(1);
        let mut out = vec![];
        if lr_parser::output_table(g, &t, &mut out).is_err() { return sym::fail(92) }
        check_print(g, &p, &syms, &t, &out);
        sym::observe(out.len() as u64);
    }
}
/// C29: the printed table.
fn h_table(f: u64, mode: u64) { table_of(&fam(f).ebnf(), mode) }
fn h_tableebnf(depth: u64, leaves: u64, mode: u64) { table_of(&ebnf(depth, leaves), mode) }
