//! Runs the real generators over the corpus:  gen KIND OUTDIR
//! Writes every case's generated files to OUTDIR/c<k>/ and the glue that lets the harness call them to OUTDIR/all.rs
//! (all.cpp). A panic of a generator is printed as "GENERATOR-PANIC <case> ..." and leaves the case out.
use corp::G;
use lapex::{Language, ParsingAlgorithm};
use lapex_input::{EntryRule, LapexInputParser, LapexParsingError, ProductionPattern, ProductionRule, RuleSet, Spanned};
use lapex_parser::grammar::{Grammar, Symbol};
use std::fmt::Write as _;
use std::fs;
use std::path::{Path, PathBuf};

mod cpp;
#[path = "../../parse/src/refs.rs"]
mod refs;
mod rust;

pub struct Case<'a> { pub g: &'a G, pub grammar: &'static Grammar<'static>, pub plain: gram::Plain, pub syms: Vec<Symbol>, pub kind: u8, pub cpp: bool, pub dir: PathBuf, pub k: usize }

pub fn kind_name(k: u8) -> &'static str { ["LR(0)", "LALR(1)", "LR(1)", "GLR", "LL(1)"][k as usize] }

impl<'a> Case<'a> {
    /// Names of the visitor's functions, rule by rule: by tag, or by number among the rules of its name.
    pub fn functions(&self, tags: bool) -> Vec<String> {
        let mut v = vec![];
        for (k, (l, _)) in self.plain.rules.iter().enumerate() {
            let of: Vec<usize> = (0..self.plain.rules.len()).filter(|i| self.plain.rules[*i].0 == *l).collect();
            let anon = match self.syms[*l as usize] { Symbol::NonTerminal(i) => format!("anon{}", i), _ => unreachable!() };
            let name = if (*l as usize) < self.g.ebnf.nts { self.g.names[*l as usize].to_string() } else { anon };
            let i = of.iter().position(|x| *x == k).unwrap();
            let tag = if tags && (*l as usize) < self.g.ebnf.nts { self.grammar.rules()[k].rule().inner.tag } else { None };
            v.push(if of.len() == 1 { format!("reduce_{}", name) } else if let Some(t) = tag { format!("reduce_{}_{}", name, t) } else { format!("reduce_{}_{}", name, i + 1) });
        }
        v
    }
    pub fn describe(&self, o: &mut String) {
        let rules: Vec<String> = self.plain.rules.iter().map(|(l, r)| format!("({}, &{:?})", l, r)).collect();
        let run = if self.cpp { format!("|r, n| crate::cxx({}, r, n)", self.k) } else { format!("c{}::run", self.k) };
        write!(o, "Case {{ index: {}, kind: {}, nts: {}, ts: {}, rules: &[{}], run: {} }},\n", self.k, self.kind, self.plain.nts, self.plain.ts, rules.join(", "), run).unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let out = PathBuf::from(&a[2]);
    fs::create_dir_all(&out).unwrap();
    let all: Vec<G> = (0..if a[1] == "cpp-ll" { corp::ALL } else { corp::GRAMMARS }).map(corp::at).collect();
    let cpp = a[1].starts_with("cpp");
    let mut text = String::new();
    let mut list = String::new();
    let mut n = 0;
    let mut texts: Vec<(usize, String)> = vec![];
    match a[1].as_str() {
        "rust-lr" | "rust-glr" | "cpp-lr" | "cpp-ll" => {
            for (k, g) in all.iter().enumerate() {
                // the same grammar for every kind of table that gives a different parser
                let kinds: &[u8] = match a[1].as_str() { "rust-glr" => &[3], "cpp-ll" => &[4], _ => &[0, 1, 2] };
                for kind in kinds {
                    if k == corp::LARGE && (*kind == 0 || *kind == 2) { continue }
                    let id = k * 8 + *kind as usize;
                    let dir = out.join(format!("c{}", id));
                    fs::create_dir_all(&dir).unwrap();
                    let r = std::panic::catch_unwind(|| parser(g, *kind, cpp, &dir, id));
                    match r {
                        Ok(Some(c)) => { if cpp { let mut t = String::new(); cpp::glue(&c, &mut t); texts.push((id, t)) } else { rust::glue(&c, &mut text) } c.describe(&mut list); n += 1; }
                        Ok(None) => {}
                        Err(_) => println!("GENERATOR-PANIC {} grammar {}", kind_name(*kind), g.text),
                    }
                }
            }
            let cases = format!("pub static CASES: &[Case] = &[\n{}];\n", list);
            if cpp {
                cpp::write("cxx_parse", "Ctx", &texts, &out);
                fs::write(out.join("all.rs"), cases).unwrap();
            } else {
                fs::write(out.join("all.rs"), text + &cases).unwrap();
            }
        }
        "rust-lexer" | "cpp-lexer" => {
            for k in 0..corp::LEXERS {
                let dir = out.join(format!("c{}", k));
                fs::create_dir_all(&dir).unwrap();
                let toks = corp::lexer(k);
                let r = std::panic::catch_unwind(|| {
                    let lines = out.join("lines");
                    fs::write(&lines, "x\n".repeat(1000)).unwrap();
                    let rules = || {
                        let pattern = ProductionPattern::Rule { rule_name: toks[0].0 };
                        RuleSet::new(Spanned::new(gram::span(1), EntryRule { name: "s__" }), toks.iter().map(|(n, p, q)| pat::rule(n, p, *q)).collect(), vec![Spanned::new(gram::span(2), ProductionRule { name: "s__", tag: None, pattern })])
                    };
                    lapex::generate(true, ParsingAlgorithm::LALR, false, &lines, &dir, if cpp { Language::Cpp } else { Language::Rust }, Read(&rules)).map_err(|_| ()).expect("unique winners");
                });
                match r {
                    Ok(()) => {
                        let names: Vec<_> = toks.iter().map(|t| t.0).collect();
                        n += 1;
                        if cpp {
                            let mut t = String::new();
                            cpp::lexer_glue(k, &names, &dir, &mut t);
                            texts.push((k, t));
                            write!(list, "{}, ", k).unwrap();
                        } else {
                            rust::lexer_glue(k, &names, &dir, &mut text);
                            write!(list, "({}, c{}::run), ", k, k).unwrap();
                        }
                    }
                    Err(_) => println!("GENERATOR-PANIC lexer {}", k),
                }
            }
            if cpp {
                cpp::write("cxx_lex", "LexCtx", &texts, &out);
                fs::write(out.join("all.rs"), format!("pub static CASES: &[usize] = &[{}];\n", list)).unwrap();
                println!("GENERATED {} cases", n);
                return;
            }
            write!(text, "pub static CASES: &[(usize, fn(&str, &mut dyn FnMut(Lexed, std::ops::Range<usize>, &str) -> bool))] = &[{}];\n", list).unwrap();
            fs::write(out.join("all.rs"), text).unwrap();
        }
        k => panic!("unknown kind {}", k),
    }
    println!("GENERATED {} cases", n);
}

fn parser<'a>(g: &'a G, kind: u8, cpp: bool, dir: &Path, k: usize) -> Option<Case<'a>> {
    let rs = g.ebnf.rule_set_named(&g.tags, &g.tokens, &g.names);
    let grammar: &'static Grammar = Box::leak(Box::new(Grammar::from_rule_set(rs).unwrap()));
    let (plain, syms) = gram::plain_of_named(grammar, g.ebnf.ts, g.ebnf.nts, &g.names);
    let c = Case { g, grammar, plain, syms, kind, cpp, dir: dir.to_path_buf(), k };
    // the definition as it was read
    let lines = dir.parent().unwrap().join("lines");
    fs::write(&lines, "x\n".repeat(1000)).unwrap();
    let algorithm = match kind { 0 => ParsingAlgorithm::LR0, 1 => ParsingAlgorithm::LALR, 2 => ParsingAlgorithm::LR1, 3 => ParsingAlgorithm::GLR, _ => ParsingAlgorithm::LL1 };
    let r = lapex::generate(false, algorithm, false, &lines, dir, if cpp { Language::Cpp } else { Language::Rust }, Read(&|| g.ebnf.rules_named(&g.tags, &g.tokens, &g.names)));
    match r {
        Ok(()) => Some(c),
        Err(_) => {
            if fits(&c.plain, kind as u64) { println!("GENERATOR-REFUSED {} grammar {}", kind_name(kind), g.text) }
            None
        }
    }
}
/// The textbook's construction for the kind of table has no conflicts.
fn fits(p: &gram::Plain, kind: u64) -> bool {
    match kind {
        3 => true,
        4 => {
            let predict = refs::ll_predict(p);
            let n = p.rules.len();
            !(0..n).any(|a| (a + 1..n).any(|b| p.rules[a].0 == p.rules[b].0 && predict[a] & predict[b] != 0))
        }
        0 if !refs::productive(p) => false,
        _ => { let c = refs::lr_conflicts(p, kind); c.sr.is_empty() && c.rr.is_empty() }
    }
}
/// Stands for reading: what was read, whatever the text.
struct Read<'f>(&'f dyn Fn() -> RuleSet<'static>);
impl LapexInputParser for Read<'_> {
    fn parse_lapex<'src>(&self, _: &'src str) -> Result<RuleSet<'src>, LapexParsingError> { Ok((self.0)()) }
}
