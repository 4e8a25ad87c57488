//! From the text of a definition file to generated files or errors, as the command does it.
#[path = "../../input/src/recognise.rs"]
mod recognise;
#[path = "../../parse/src/refs.rs"]
mod refs;
use lapex::{generate, Language, ParsingAlgorithm};
use lapex_codegen::GeneratedCodeWriter;
use lapex_input::LapexInputParser;
use lapex_input_gen::GeneratedLapexInputParser;
use lapex_lexer::LexerCodeGen;
use lapex_parser::grammar::Grammar;
use lapex_parser::ll_parser::LLParserCodeGen;
use lapex_parser::lr_parser::{generate_table, output_table, GenerationResult, LRParserCodeGen};
use std::path::PathBuf;

sym::entries! { h_text(which, op, alg), h_grammar(fam, alg, lang), h_tokens(which, lang), h_names(alg, lang), h_same(alg, lang), h_unread(k), h_report(fam, alg), h_ties(which), h_twice(which) }

const LL: u64 = 4;
fn algorithm(k: u64) -> ParsingAlgorithm {
    match k { 0 => ParsingAlgorithm::LR0, 1 => ParsingAlgorithm::LALR, 2 => ParsingAlgorithm::LR1, 3 => ParsingAlgorithm::GLR, _ => ParsingAlgorithm::LL1 }
}
/// files in the executor's memory, or in a folder of its own when replayed
struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        if !sym::is_replay() { return Scratch(PathBuf::from("/w")) }
        let d = std::env::temp_dir().join(format!("lapex-full-{}", std::process::id()));
        std::fs::create_dir_all(&d).unwrap();
        Scratch(d)
    }
    fn read(&self, name: &str) -> Option<Vec<u8>> { std::fs::read(self.0.join(name)).ok() }
}
impl Drop for Scratch { fn drop(&mut self) { if sym::is_replay() { let _ = std::fs::remove_dir_all(&self.0); } } }

#[derive(Clone, Copy)]
struct Options { alg: u64, lang: u64, lexer: bool, table: bool }
fn tokens_files(lang: u64) -> &'static [&'static str] { if lang == 0 { &["tokens.rs"] } else { &["tokens.h", "tokens.cpp"] } }
fn lexer_files(lang: u64) -> &'static [&'static str] { if lang == 0 { &["lexer.rs"] } else { &["lexer.h", "lexer.cpp"] } }
fn parser_files(lang: u64) -> &'static [&'static str] { if lang == 0 { &["parser.rs"] } else { &["parser.h", "parser.cpp", "parser_impl.h", "visitor.h"] } }
const ALL: [&str; 13] = ["tokens.rs", "lexer.rs", "parser.rs", "tokens.h", "tokens.cpp", "lexer.h", "lexer.cpp", "parser.h", "parser.cpp", "parser_impl.h", "visitor.h", "table", "g.lapex"];
/// the files that have to be there, and no others
fn expected(o: Options, name: &str) -> bool {
    name == "g.lapex" || tokens_files(o.lang).contains(&name) || parser_files(o.lang).contains(&name) || (o.lexer && lexer_files(o.lang).contains(&name)) || (o.table && o.alg != LL && name == "table")
}
/// Runs the command; the lines of the definition that its errors point at, per error, if it has any.
fn command(d: &Scratch, text: &[u8], o: Options) -> Result<(), Vec<Vec<usize>>> {
    if sym::is_replay() { sym::note(&String::from_utf8_lossy(text)) }
    let g = d.0.join("g.lapex");
    if std::fs::write(&g, text).is_err() { sym::fail(9) }
    let r = generate(o.lexer, algorithm(o.alg), o.table, &g, &d.0, if o.lang == 0 { Language::Rust } else { Language::Cpp }, GeneratedLapexInputParser);
    match r {
        Ok(()) => {
            sym::reach(1);
            for f in ALL {
                match d.read(f) {
                    Some(b) => sym::check(expected(o, f) && !b.is_empty(), 10),
                    None => sym::check(!expected(o, f), 11),
                }
            }
            Ok(())
        }
        Err(v) => {
            sym::reach(2);
            sym::check(!v.is_empty(), 12);
            // the definition is left as it is
            sym::check(d.read("g.lapex").is_some_and(|b| b.len() == text.len()), 13);
            let v = v.iter().map(|e| {
                let s = e.to_string();
                if sym::is_replay() { sym::note(&s) }
                sym::check(s.len() > 10, 14);
                places(&s)
            }).collect();
            Err(v)
        }
    }
}
/// the lines behind "g.lapex:"
fn places(s: &str) -> Vec<usize> {
    let (b, key) = (s.as_bytes(), b"g.lapex:");
    let mut v = vec![];
    let mut i = 0;
    while i + key.len() < b.len() {
        if b[i..i + key.len()] == key[..] {
            i += key.len();
            let mut n = 0;
            while i < b.len() && b[i].is_ascii_digit() { n = n * 10 + (b[i] - b'0') as usize; i += 1 }
            v.push(n);
        } else { i += 1 }
    }
    v
}

pub const TEMPLATES: [&str; 5] = [
    "entry s;\ntoken A = \"a\";\nprod s = A;",
    "prod s[t]=(A|s)*A?;token A[1]=\"x\";entry s;",
    "entry s;prod s=!;token Z=/z/;",
    "prod s=A+(A)|(!);entry s;token A=\"\\\"\";",
    "prod a=b;prod b=a|(b);entry a;token c=\"c\";",
];
/// A well-formed text with one edit: replaced (0), inserted (1), deleted (2), cut off (3), any two bytes (4).
fn h_text(which: u64, op: u64, alg: u64) {
    let d = Scratch::new();
    let mut v: Vec<u8> = TEMPLATES[which as usize].bytes().collect();
    let at = sym::choose(v.len() as u32 + (op == 1) as u32) as usize;
    match op {
        0 => v[at] = sym::u8(1, 127),
        1 => v.insert(at, sym::u8(1, 127)),
        2 => { v.remove(at); }
        3 => v.truncate(at),
        _ => { v[at] = sym::u8(1, 255); if at + 1 < v.len() { v[at + 1] = sym::u8(128, 255) } }
    }
    let cs: Vec<u32> = v.iter().map(|b| *b as u32).collect();
    let o = Options { alg, lang: if alg == LL { 1 } else { 0 }, lexer: true, table: false };
    let r = command(&d, &v, o);
    // what is no definition has no parser
    if op != 4 && recognise::definition(&cs) == Some(false) { sym::check(r.is_err(), 20) }
    sym::observe(r.is_ok() as u64);
}
fn text_of(p: &gram::Plain) -> String {
    // rule k in line k + 1
    let e = p.ebnf();
    let mut t = String::new();
    for (n, b) in &e.prods { t.push_str("prod "); t.push_str(gram::NAMES[*n as usize]); t.push_str(" = "); gram::show(b, &mut t); t.push_str(";\n") }
    t.push_str("entry s;\n");
    for k in 0..p.ts { t.push_str("token "); t.push_str(gram::TOKENS[k]); t.push_str(" = \""); t.push((b'a' + k as u8) as char); t.push_str("\";\n") }
    t
}
/// The textbook's construction for the algorithm has no conflicts.
fn fits(p: &gram::Plain, alg: u64) -> bool {
    let n = p.rules.len();
    match alg {
        3 => true,
        LL => {
            let predict = refs::ll_predict(p);
            let mut clash = false;
            for a in 0..n { for b in a + 1..n { clash |= p.rules[a].0 == p.rules[b].0 && predict[a] & predict[b] != 0 } }
            !clash
        }
        _ => { let c = refs::lr_conflicts(p, alg); c.sr.is_empty() && c.rr.is_empty() }
    }
}
/// Accepted if and only if the textbook's construction for the algorithm has no conflicts; errors point at the rules in conflict.
fn h_grammar(fam: u64, alg: u64, lang: u64) {
    let d = Scratch::new();
    let p = gram::family(fam);
    if alg == 0 && !refs::productive(&p) { return }
    let o = Options { alg, lang, lexer: false, table: false };
    let r = command(&d, text_of(&p).as_bytes(), o);
    let n = p.rules.len();
    sym::check(r.is_ok() == fits(&p, alg), 30);
    if alg < 3 {
            let c = refs::lr_conflicts(&p, alg);
            if let Err(es) = &r {
                for e in es {
                    // the start rule is shown as a rule of the entry
                    let l: Vec<usize> = e.iter().map(|k| k - 1).collect();
                    match l.len() {
                        0 => sym::fail(33),
                        1 => sym::check(c.sr.iter().any(|(r, _)| *r == l[0] || (*r == n && p.rules[l[0]].0 as usize == p.entry)), 34),
                        _ => for a in &l { for b in &l { if a < b { sym::check(c.rr.contains(&(*a, *b)) || (p.rules[*a].0 as usize == p.entry && c.rr.contains(&(*b, n))) || (p.rules[*b].0 as usize == p.entry && c.rr.contains(&(*a, n))), 35) } } },
                    }
                }
            }
    }
    sym::observe(r.is_ok() as u64);
}
/// Token rules with arbitrary characters and precedences: refused if and only if two of them tie on some text.
fn h_tokens(which: u64, lang: u64) {
    let d = Scratch::new();
    let c = || sym::u8(97, 99);
    let (a, b, x) = (c(), c(), c());
    let (p, q) = (sym::choose(4) as u8, sym::choose(4) as u8);
    // without an explicit one, twice the length of a literal or the length of a regular expression's shortest match
    let (dp, dq) = match which { 0 => (4, 2), 1 => (2, 2), 2 => (2, 1), _ => (1, 1) };
    let prec = |p: u8, t: &mut Vec<u8>| if p > 0 { t.extend([b'[', b'0' + p, b']']) };
    let mut t: Vec<u8> = b"entry s; prod s = A B;\ntoken A".to_vec();
    prec(p, &mut t);
    let (first, second, tie): (Vec<u8>, Vec<u8>, bool) = match which {
        0 => (vec![b'"', a, b, b'"'], vec![b'"', x, b'"'], false),
        1 => (vec![b'"', a, b'"'], vec![b'"', x, b'"'], a == x),
        2 => (vec![b'"', a, b'"'], vec![b'/', b'[', b, b'-', x, b']', b'/'], { sym::assume(b <= x); (a >= b) & (a <= x) }),
        _ => (vec![b'/', a, b'|', b, b, b'/'], vec![b'/', x, b'+', b'/'], (a == x) | (b == x)),
    };
    t.push(b'=');
    t.extend(first);
    t.extend(b";\ntoken B");
    prec(q, &mut t);
    t.push(b'=');
    t.extend(second);
    t.extend(b";\n");
    let o = Options { alg: 1, lang, lexer: true, table: false };
    let r = command(&d, &t, o);
    let eff = |p: u8, d: u8| if p > 0 { p } else { d };
    let same = eff(p, dp) == eff(q, dq);
    sym::check(r.is_ok() == !(tie & same), 40);
    if let Err(es) = r { sym::check(es.len() == 1 && es[0].len() == 2 && es[0].contains(&2) && es[0].contains(&3), 41); sym::reach(3) }
}
/// Undeclared names, names declared twice: refused with the places of the declarations.
fn h_names(alg: u64, lang: u64) {
    let d = Scratch::new();
    let name = || ["a", "b", "c"][sym::choose(3) as usize];
    let (t, u, p, q, r, e) = (name(), name(), name(), name(), name(), name());
    let two = sym::choose(2) == 1;
    let mut text = format!("token {} = \"t\";\n", t);
    if two { text.push_str(&format!("token {} = \"u\";\n", u)) }
    text.push_str(&format!("prod {} = {};\nprod {} = {} {};\nentry {};\n", p, q, if two { p } else { q }, r, t, e));
    let prods = [p, if two { p } else { q }];
    let declared = |n: &str| n == t || (two && n == u) || prods.contains(&n);
    let twice = (two && t == u) || prods.contains(&t) || (two && prods.contains(&u));
    let missing = !declared(q) || !declared(r) || !prods.contains(&e);
    let o = Options { alg, lang, lexer: true, table: true };
    let fits = !twice && !missing && {
        let nts: Vec<&str> = if prods[0] == prods[1] { vec![prods[0]] } else { prods.to_vec() };
        let code = |n: &str| match nts.iter().position(|x| *x == n) { Some(k) => gram::NT + k as u8, None => (n != t) as u8 };
        let pl = gram::Plain { nts: nts.len(), ts: 1 + two as usize, entry: (code(e) - gram::NT) as usize, rules: vec![(code(prods[0]) - gram::NT, vec![code(q)]), (code(prods[1]) - gram::NT, vec![code(r), code(t)])] };
        sym::reach(4);
        fits(&pl, alg)
    };
    match command(&d, text.as_bytes(), o) {
        Ok(()) => { sym::reach(3); sym::check(fits, 50) }
        Err(es) => {
            sym::check(!fits, 51);
            // two declarations of one name are shown both
            if twice { sym::reach(5); sym::check(es.len() == 1 && (es[0].len() == 0 && missing || es[0].len() == 2 && es[0][0] != es[0][1]), 52) }
        }
    }
}
/// What is written is what the selected generator writes for the selected table; the files follow the options.
const SAME: [&str; 6] = [
    "S:XX;X:aX|b",
    "S:Xa|Yb;X:c;Y:c",
    "S:aXd|bYd|aYe|bXe;X:c;Y:c",
    "S:aXYb;X:cX|;Y:dY|",
    "S:SS|a",
    "S:aXS|b;X:cXd|",
];
fn h_same(alg: u64, lang: u64) {
    let d = Scratch::new();
    let p = gram::Plain::parse(SAME[sym::choose(6) as usize]);
    let o = Options { alg, lang, lexer: sym::choose(2) == 1, table: sym::choose(2) == 1 };
    let text = text_of(&p);
    let r = command(&d, text.as_bytes(), o);
    let rules = match GeneratedLapexInputParser.parse_lapex(&text) { Ok(r) => r, Err(_) => return sym::fail(60) };
    let g = match Grammar::from_rule_set(&rules) { Ok(g) => g, Err(_) => return sym::fail(61) };
    let mut want: Vec<Vec<u8>> = ALL.iter().map(|_| vec![]).collect();
    let mut w = GeneratedCodeWriter::new();
    for (k, v) in ALL.iter().zip(&mut want) { w.add_target(k, v) }
    let lexer: Box<dyn LexerCodeGen> = if lang == 0 { Box::new(lapex_rust_codegen::RustLexerCodeGen::new()) } else { Box::new(lapex_cpp_codegen::CppLexerCodeGen::new()) };
    lexer.generate_tokens(&rules.token_rules, &mut w);
    if o.lexer {
        let alphabet = lapex_lexer::generate_alphabet(&rules.token_rules);
        let (s, nfa) = lapex_lexer::generate_nfa(&alphabet, &rules.token_rules);
        let dfa = match lapex_lexer::apply_precedence_to_dfa(nfa.powerset_construction(s)) { Ok(d) => d, Err(_) => return sym::fail(62) };
        lexer.generate_lexer(&rules.token_rules, alphabet.get_ranges(), &dfa, &mut w);
    }
    let mut made = false;
    if alg == LL {
        if let Ok(t) = lapex_parser::ll_parser::generate_table(&g) { made = true; lapex_cpp_codegen::CppLLParserCodeGen::new().generate_code(&g, &t, &mut w) }
    } else {
        macro_rules! table { ($n:literal, $allow:expr, $lalr:expr) => { match generate_table::<$n>(&g, $allow, $lalr) { GenerationResult::NoConflicts(t) => Some(t), GenerationResult::AllowedConflicts { table, .. } => Some(table), _ => None } } }
        let t = match alg { 0 => table!(0, false, false), 1 => table!(1, false, true), 2 => table!(1, false, false), _ => table!(1, true, true) };
        if let Some(t) = t {
            made = true;
            if o.table && w.generate_code("table", |out| output_table(&g, &t, out)).is_err() { sym::fail(63) }
            let c: Box<dyn LRParserCodeGen> = match (lang, alg) {
                (0, 3) => Box::new(lapex_rust_codegen::RustGLRParserCodeGen::new()),
                (0, _) => Box::new(lapex_rust_codegen::RustLRParserCodeGen::new()),
                _ => Box::new(lapex_cpp_codegen::CppLRParserCodeGen::new()),
            };
            c.generate_code(&g, &t, &mut w);
        }
    }
    drop(w);
    sym::check(made == r.is_ok(), 64);
    for (f, v) in ALL.iter().zip(&want) {
        if *f == "g.lapex" { continue }
        match d.read(f) {
            Some(b) => sym::check(b == *v, 65),
            None => sym::check(v.is_empty(), 66),
        }
    }
    sym::observe(made as u64);
}
/// A definition that is not there, or not UTF-8, is an error.
fn h_unread(k: u64) {
    let d = Scratch::new();
    let g = d.0.join("g.lapex");
    if k == 1 {
        let mut t = b"entry s; token A = \"a\"; prod s = A;".to_vec();
        let at = sym::choose(t.len() as u32) as usize;
        t[at] = sym::u8(128, 255);
        if std::fs::write(&g, &t).is_err() { sym::fail(9) }
    }
    let r = generate(true, ParsingAlgorithm::LALR, true, &g, &d.0, Language::Rust, GeneratedLapexInputParser);
    sym::check(r.is_err(), 70);
    if let Err(v) = r { sym::reach(1); sym::check(v.len() == 1 && v[0].to_string().len() > 10, 71) }
    for f in ALL { if f != "g.lapex" { sym::check(d.read(f).is_none(), 72) } }
}

/// A report as it is shown, without colours: lines, and for each place its line, column, excerpt with what follows.
struct Report { head: Vec<u8>, places: Vec<Place>, lines: Vec<Vec<u8>> }
struct Place { line: usize, col: usize, body: Vec<Vec<u8>> }
fn report(s: &str) -> Report {
    let b = s.as_bytes();
    let mut lines: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < b.len() {
        if b[i] == 27 { while i < b.len() && b[i] != b'm' { i += 1 } i += 1; continue }
        if b[i] == b'\n' { lines.push(vec![]) } else { let n = lines.len(); lines[n - 1].push(b[i]) }
        i += 1;
    }
    let mut r = Report { head: lines[0].clone(), places: vec![], lines: lines.clone() };
    for l in &lines[1..] {
        let key = b"g.lapex:";
        let arrow = l.iter().take_while(|c| **c == b' ').count();
        if l[arrow..].starts_with(b"-->") {
            let at = match (0..l.len()).find(|k| l[*k..].starts_with(key)) { Some(k) => k + key.len(), None => { sym::fail(100); return r } };
            let mut n = [0usize; 2];
            let mut k = 0;
            for c in &l[at..] { if *c == b':' { k += 1; if k > 1 { sym::fail(101); break } } else if c.is_ascii_digit() { n[k] = n[k] * 10 + (*c - b'0') as usize } else { sym::fail(102); break } }
            r.places.push(Place { line: n[0], col: n[1], body: vec![] });
        } else if let Some(p) = r.places.last_mut() {
            // behind the bar
            let bar = l.iter().position(|c| *c == b'|');
            if let Some(k) = bar { let t = &l[k + 1..]; let skip = t.iter().take(2).take_while(|c| **c == b' ').count(); p.body.push(t[skip..].to_vec()) }
        }
    }
    r
}
impl Place {
    /// the excerpt is the text, line by line; what is below it
    fn below(&self, text: &[u8]) -> Option<&[Vec<u8>]> {
        let want: Vec<&[u8]> = text.split(|c| *c == b'\n').collect();
        for k in 0..self.body.len() {
            if k + want.len() <= self.body.len() && (0..want.len()).all(|i| self.body[k + i] == want[i]) { return Some(&self.body[k + want.len()..]) }
            if !self.body[k].is_empty() { return None }
        }
        None
    }
}
fn words(l: &[u8]) -> Vec<Vec<u8>> { l.split(|c| *c == b' ' || *c == b'\t').filter(|w| !w.is_empty()).map(|w| w.to_vec()).collect() }
/// "name(3)" is "name"
fn is_name(w: &[u8], name: &str) -> bool {
    let n = name.as_bytes();
    if !w.starts_with(n) { return false }
    let r = &w[n.len()..];
    r.is_empty() || (r.len() > 2 && r[0] == b'(' && r[r.len() - 1] == b')' && r[1..r.len() - 1].iter().all(|c| c.is_ascii_digit()))
}
fn sym_name(p: &gram::Plain, x: u8) -> &'static str { if x < gram::NT { if x as usize == p.ts { "<end>" } else { gram::TOKENS[x as usize] } } else { gram::NAMES[(x - gram::NT) as usize] } }
/// the words name the symbols of a right-hand side
fn is_rhs(p: &gram::Plain, ws: &[Vec<u8>], rhs: &[u8]) -> bool { ws.len() == rhs.len() && ws.iter().zip(rhs).all(|(w, x)| is_name(w, sym_name(p, *x))) }
/// a completed item of rule r (p.rules.len() is the start rule), the dot at its end
fn is_item(p: &gram::Plain, l: &[u8], r: usize) -> bool {
    let mut w: Vec<Vec<u8>> = words(l).into_iter().filter(|w| w != b"<eps>").collect();
    if w.last().map(|w| w.as_slice()) != Some("\u{2022}".as_bytes()) { return false }
    w.pop();
    if r == p.rules.len() { return is_rhs(p, &w, &[gram::NT + p.entry as u8]) }
    let (lhs, rhs) = &p.rules[r];
    w.len() >= 2 && is_name(&w[0], gram::NAMES[*lhs as usize]) && w[1] == b"->" && is_rhs(p, &w[2..], rhs)
}
/// The definition with rules that begin anywhere and may span lines; (line, column, text) per rule.
fn spread(p: &gram::Plain) -> (Vec<u8>, Vec<(usize, usize, Vec<u8>)>) {
    let e = p.ebnf();
    let style = sym::choose(3) as usize;
    let mut t: Vec<u8> = if style == 2 { "token Q = \"\u{e9}\u{20ac}\";".into() } else { vec![] };
    let mut places = vec![];
    let place = |t: &Vec<u8>| { let l = t.iter().filter(|c| **c == b'\n').count(); let from = t.iter().rposition(|c| *c == b'\n').map_or(0, |k| k + 1); (l + 1, std::str::from_utf8(&t[from..]).map_or(0, |s| s.chars().count()) + 1) };
    for (k, (n, b)) in e.prods.iter().enumerate() {
        let mut r = String::from("prod ");
        r.push_str(gram::NAMES[*n as usize]);
        r.push_str(match style { 1 if k % 2 == 1 => " =\n    ", _ => " = " });
        gram::show(b, &mut r);
        r.push(';');
        if style == 1 { t.extend(std::iter::repeat(b' ').take(k % 3)) }
        let (l, c) = place(&t);
        places.push((l, c, r.as_bytes().to_vec()));
        t.extend(r.as_bytes());
        t.extend(match style { 0 => &b"\n"[..], 1 => b"\n\n", _ => b"  " });
    }
    t.extend(b"entry s;\n");
    for k in 0..p.ts { t.extend(format!("token {} = \"{}\";\n", gram::TOKENS[k], (b'a' + k as u8) as char).as_bytes()) }
    (t, places)
}
/// Conflicts are shown with the place and the text of the rules that compete, and with the token they compete for.
fn h_report(fam: u64, alg: u64) {
    let d = Scratch::new();
    let p = gram::family(fam);
    if alg == 0 && !refs::productive(&p) { return }
    let (text, at) = spread(&p);
    if sym::is_replay() { sym::note(&String::from_utf8_lossy(&text)) }
    let g = d.0.join("g.lapex");
    if std::fs::write(&g, &text).is_err() { sym::fail(9) }
    let es = match generate(false, algorithm(alg), false, &g, &d.0, Language::Cpp, GeneratedLapexInputParser) { Ok(()) => return sym::reach(2), Err(es) => es };
    sym::reach(1);
    let n = p.rules.len();
    let shown = |q: &Place| at.iter().position(|(l, c, _)| *l == q.line && *c == q.col);
    if alg == LL {
        let predict = refs::ll_predict(&p);
        sym::check(es.len() == 1, 110);
        let r = report(&es[0].to_string());
        // the token, the rule's name, and two of its right-hand sides
        let said: Vec<Vec<Vec<u8>>> = r.lines.iter().map(|l| words(l)).collect();
        let mut ok = false;
        for a in 0..n { for b in 0..n {
            if a == b || p.rules[a].0 != p.rules[b].0 { continue }
            for t in 0..=p.ts as u8 {
                if predict[a] & predict[b] & 1 << t == 0 { continue }
                for k in 0..said.len() {
                    // on token T, N could be parsed as / one / or as / other
                    if k + 3 >= said.len() { break }
                    let first = &said[k];
                    let names = first.iter().filter(|w| { let w = if w.last() == Some(&b',') { &w[..w.len() - 1] } else { &w[..] }; is_name(w, sym_name(&p, t)) }).count() == 1 && first.iter().any(|w| is_name(w, gram::NAMES[p.rules[a].0 as usize]));
                    let side = |ws: &Vec<Vec<u8>>, r: usize| { let w: Vec<Vec<u8>> = ws.iter().filter(|w| *w != b"<eps>").cloned().collect(); is_rhs(&p, &w, &p.rules[r].1) };
                    ok |= names && side(&said[k + 1], a) && side(&said[k + 3], b);
                }
            }
        } }
        sym::check(ok, 111);
        return;
    }
    let c = refs::lr_conflicts(&p, alg);
    sym::check(!es.is_empty(), 112);
    let mut together = vec![];
    for e in &es {
        let s = e.to_string();
        if sym::is_replay() { sym::note(&s) }
        let r = report(&s);
        // which rule each place shows; the start rule is shown as a rule of the entry
        let mut rules = vec![];
        for q in &r.places {
            let k = match shown(q) { Some(k) => k, None => return sym::fail(113) };
            let below = match q.below(&at[k].2) { Some(b) => b, None => return sym::fail(114) };
            let is = |r: usize| below.iter().filter(|l| is_item(&p, l, r)).count() == 1;
            let rule = if is(k) { k } else if is(n) && p.rules[k].0 as usize == p.entry { n } else { return sym::fail(115) };
            rules.push((rule, below));
        }
        match rules.len() {
            0 => sym::fail(116),
            1 => {
                let (rule, below) = &rules[0];
                // the token it competes for
                sym::check(contains(&r.head, b"shift"), 117);
                sym::check(c.sr.iter().any(|(x, t)| x == rule && below.iter().any(|l| { let w = words(l); w.len() == 1 && is_name(&w[0], sym_name(&p, *t)) })), 118);
                sym::reach(3);
            }
            _ => {
                sym::check(!contains(&r.head, b"shift"), 119);
                for (a, _) in &rules { for (b, _) in &rules { if a < b { sym::check(c.rr.contains(&(*a, *b)), 120); together.push((*a, *b)) } } }
                let mut rs: Vec<usize> = rules.iter().map(|x| x.0).collect();
                rs.dedup();
                sym::check(rs.len() == rules.len(), 121);
                sym::reach(4);
            }
        }
    }
    // whatever competes for a reduction is shown together
    for ab in &c.rr { sym::check(together.contains(ab), 122) }
}
fn contains(a: &[u8], b: &[u8]) -> bool { (0..a.len()).any(|k| a[k..].starts_with(b)) }
/// Tokens that tie are all shown, with their places, texts and names, and no others.
fn h_ties(which: u64) {
    let d = Scratch::new();
    let (a, b, x) = (match sym::choose(3) { 0 => sym::u32(0x21, 0x7e), 1 => 0xe9, _ => 0x20ac }, [0x6b, 0xe9][sym::choose(2) as usize], [0x6b, 0xe9, 0x20ac][sym::choose(3) as usize]);
    for k in [a] { sym::assume(!matches!(k, 0x22 | 0x5c | 0x2f | 0x7f | 0xd800..=0xdfff) && !(0x5b..=0x5e).contains(&k)) }
    let ch = |k: u32| char::from_u32(k).unwrap();
    let mut t: Vec<u8> = vec![];
    let mut at = vec![];
    let mut line = 1;
    let mut push = |t: &mut Vec<u8>, name: &'static str, text: String, before: &str| {
        line += before.bytes().filter(|c| *c == b'\n').count();
        t.extend(before.as_bytes());
        let from = before.chars().rev().take_while(|c| *c != '\n').count() + 1;
        at.push((name, line, from, text.as_bytes().to_vec()));
        t.extend(text.as_bytes());
        t.push(b'\n');
        line += 1;
    };
    let lit = |n: &str, k: u32| { let mut s = format!("token {} = \"", n); s.push(ch(k)); s.push_str("\";"); s };
    push(&mut t, "FIRST", lit("FIRST", a), "");
    push(&mut t, "SECOND", lit("SECOND", b), "\n  ");
    push(&mut t, "C", if which == 0 { lit("C", x) } else { let mut s = String::from("token C[2] = /["); s.push(ch(x)); s.push_str("-\u{10ffff}]/;"); s }, " ");
    t.extend(b"entry s; prod s = FIRST SECOND C;\n");
    if sym::is_replay() { sym::note(&String::from_utf8_lossy(&t)) }
    let g = d.0.join("g.lapex");
    if std::fs::write(&g, &t).is_err() { sym::fail(9) }
    let tie = |i: usize, j: usize| match (i, j) { (0, 1) => a == b, (0, _) => if which == 0 { a == x } else { a >= x }, _ => if which == 0 { b == x } else { b >= x } };
    match generate(true, ParsingAlgorithm::LALR, false, &g, &d.0, Language::Rust, GeneratedLapexInputParser) {
        Ok(()) => { sym::reach(2); sym::check(!(tie(0, 1) | tie(0, 2) | tie(1, 2)), 130) }
        Err(es) => {
            sym::reach(1);
            sym::check(es.len() == 1, 131);
            let s = es[0].to_string();
            if sym::is_replay() { sym::note(&s) }
            let r = report(&s);
            sym::check(r.places.len() > 1, 132);
            let mut seen = vec![];
            for q in &r.places {
                let k = match at.iter().position(|(_, l, c, _)| *l == q.line && *c == q.col) { Some(k) => k, None => return sym::fail(133) };
                let below = match q.below(&at[k].3) { Some(b) => b, None => return sym::fail(134) };
                sym::check(below.iter().any(|l| { let w = words(l); w.len() == 1 && w[0] == at[k].0.as_bytes() }), 135);
                sym::check(!seen.contains(&k), 136);
                for j in &seen { sym::check(tie(k.min(*j), k.max(*j)), 137) }
                seen.push(k);
            }
            // a token that ties with all that are shown is shown
            for k in 0..3 { if !seen.contains(&k) { let all = seen.iter().fold(true, |z, j| z & tie(k.min(*j), k.max(*j))); if which == 0 { sym::check(!all, 138) } } }
        }
    }
}
/// Names declared twice are shown at both places; a name that is not declared is named.
fn h_twice(which: u64) {
    let d = Scratch::new();
    let c = || ((b'a' + sym::choose(3) as u8) as char).to_string();
    let (x, y, z) = (c() + "1", c() + "1", c() + "1");
    let v: Vec<(String, &str)> = vec![
        (format!("token {} = \"k\";", x), "\n "),
        (if which == 0 { format!("token {} = /n+/;", y) } else { format!("prod {}\n = {}\n ;", y, x) }, "   \n"),
        (format!("prod {} = {} | t0;", z, y), ""),
        ("prod s0 = a1 b1;".to_string(), " "),
        ("token t0 = \"t\";".to_string(), ""),
    ];
    let mut t: Vec<u8> = b"entry s0;".to_vec();
    let mut at = vec![];
    for (text, before) in &v {
        t.extend(before.as_bytes());
        let l = t.iter().filter(|c| **c == b'\n').count();
        let from = t.iter().rposition(|c| *c == b'\n').map_or(0, |k| k + 1);
        at.push((l + 1, t.len() - from + 1, text.as_bytes().to_vec()));
        t.extend(text.as_bytes());
    }
    if sym::is_replay() { sym::note(&String::from_utf8_lossy(&t)) }
    let g = d.0.join("g.lapex");
    if std::fs::write(&g, &t).is_err() { sym::fail(9) }
    let names = [x.as_str(), y.as_str(), z.as_str(), "s0", "t0"];
    let token = |k: usize| k == 0 || k == 4 || (k == 1 && which == 0);
    let clash = |i: usize, j: usize| i != j && names[i] == names[j] && (token(i) || token(j));
    let twice = (0..5).any(|i| (0..i).any(|j| clash(i, j)));
    let declared = |n: &str| names.contains(&n);
    match generate(false, ParsingAlgorithm::GLR, false, &g, &d.0, Language::Rust, GeneratedLapexInputParser) {
        Ok(()) => { sym::reach(2); sym::check(!twice && declared("a1") && declared("b1"), 140) }
        Err(es) => {
            sym::check(es.len() == 1, 141);
            let s = es[0].to_string();
            if sym::is_replay() { sym::note(&s) }
            let r = report(&s);
            if r.places.is_empty() {
                sym::reach(3);
                // the missing name is said
                sym::check(["a1", "b1"].iter().any(|n| !declared(n) && r.lines.iter().any(|l| words(l).iter().any(|w| w == n.as_bytes()))), 142);
                return;
            }
            sym::reach(1);
            let mut ks = vec![];
            for q in &r.places {
                let k = match at.iter().position(|(l, c, _)| *l == q.line && *c == q.col) { Some(k) => k, None => return sym::fail(143) };
                if q.below(&at[k].2).is_none() { return sym::fail(144) }
                ks.push(k);
            }
            sym::check(ks.len() == 2 && ks[0] != ks[1] && names[ks[0]] == names[ks[1]], 145);
        }
    }
}
