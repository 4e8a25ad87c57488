//! Glue between the harness and generated C++ code: every case in a namespace of its own, in one translation unit.
use crate::Case;
use std::path::Path;

/// One text of a case's files: its own headers in place of their `#include`s. Standard headers were included before;
/// macros are forgotten at the end, so that include guards do not hide the next case.
fn files(d: &Path, o: &mut String, names: &[&str]) {
    fn put(d: &Path, name: &str, seen: &mut Vec<String>, macros: &mut Vec<String>, o: &mut String) {
        if seen.iter().any(|s| s == name) { return }
        seen.push(name.to_string());
        let text = std::fs::read_to_string(d.join(name)).unwrap_or_else(|e| panic!("{}: {}", name, e));
        for l in text.lines() {
            let t: String = l.trim_start().strip_prefix('#').map(|t| t.trim_start().to_string()).unwrap_or_default();
            if let Some(x) = t.strip_prefix("define") { macros.push(x.trim_start().split(|c: char| !c.is_alphanumeric() && c != '_').next().unwrap().to_string()) }
            match t.strip_prefix("include").map(|x| x.trim_start()) {
                Some(x) if x.starts_with('"') => put(d, x[1..].split('"').next().unwrap(), seen, macros, o),
                _ if t.starts_with("pragma") && t.contains("once") => {}
                _ => { o.push_str(l); o.push('\n') }
            }
        }
    }
    let (mut seen, mut macros) = (vec![], vec![]);
    for n in names { put(d, n, &mut seen, &mut macros, o) }
    for m in macros { o.push_str(&format!("#undef {}\n", m)) }
}

pub fn glue(c: &Case, o: &mut String) {
    o.push_str(&format!("// {} {}\nnamespace c{} {{\n", crate::kind_name(c.kind), c.g.text, c.k));
    files(&c.dir, o, &["tokens.h", "visitor.h", "parser.h", "parser_impl.h", "tokens.cpp", "parser.cpp"]);
    let mut p = |s: String| { o.push_str(&s); o.push('\n') };
    let toks: Vec<String> = (0..c.g.ebnf.ts).map(|k| format!("lexer::TokenType::TK_{}", c.g.tokens[k])).collect();
    p("static inline unsigned num(lexer::TokenType t) {".to_string());
    for (k, t) in toks.iter().enumerate() { p(format!("    if (t == {}) return {};", t, k)) }
    p("    return t == lexer::TokenType::TK_EOF ? 255 : 254;\n}\nstatic inline lexer::TokenType tok(unsigned k) {\n    switch (k) {".to_string());
    for (k, t) in toks.iter().enumerate() { p(format!("    case {}: return {};", k, t)) }
    p("    default: return lexer::TokenType::TK_EOF;\n    }\n}\nstruct V : parser::Visitor<uint8_t> {\n    Ctx *c;".to_string());
    if c.kind == 4 {
        p("    void token(lexer::TokenType t, uint8_t d) override { c->shift(c->me, num(t), d); }".to_string());
        for k in 0..c.g.ebnf.nts {
            p(format!("    void enter_{}() override {{ c->reduce(c->me, {}); }}", c.g.names[k], 2 * k));
            p(format!("    void exit_{}() override {{ c->reduce(c->me, {}); }}", c.g.names[k], 2 * k + 1));
        }
    } else {
        p("    void shift(lexer::TokenType t, uint8_t d) override { c->shift(c->me, num(t), d); }".to_string());
        for (k, f) in c.functions(false).iter().enumerate() { p(format!("    void {}() override {{ c->reduce(c->me, {}); }}", f, k)) }
    }
    p("};
unsigned run(void *x) {
    Ctx *c = (Ctx *)x;
    V v;
    v.c = c;
    parser::Parser<uint8_t> p([c]() { unsigned n = c->next(c->me); return parser::Token<uint8_t>(tok(n & 255), (uint8_t)(n >> 8)); }, v);
    p.parse();
    return 0;
}
}".to_string());
}
pub fn lexer_glue(k: usize, names: &[&'static str], d: &Path, o: &mut String) {
    o.push_str(&format!("namespace c{} {{\n", k));
    files(d, o, &["tokens.h", "lexer.h", "tokens.cpp", "lexer.cpp"]);
    let mut p = |s: String| { o.push_str(&s); o.push('\n') };
    p("static inline unsigned num(lexer::TokenType t) {".to_string());
    for (k, t) in names.iter().enumerate() { p(format!("    if (t == lexer::TokenType::TK_{}) return {};", t, k)) }
    p("    return t == lexer::TokenType::TK_EOF ? 1000255 : t == lexer::TokenType::TK_ERR ? 1000254 : 1000253;
}
unsigned run(void *x) {
    LexCtx *c = (LexCtx *)x;
    std::istringstream in(std::string(c->text, c->len));
    lexer::Lexer l(in);
    for (;;) {
        unsigned t = num(l.next());
        if (!c->out(c->me, t, l.start(), l.end())) return 0;
    }
}
}".to_string());
}
/// Writes the cases' texts to several files (to be compiled side by side), and the function that runs case k under a
/// handler for exceptions.
pub fn write(name: &str, ctx: &str, cases: &[(usize, String)], out: &Path) {
    let chunks = 6;
    for c in 0..chunks {
        let mut t = String::from("#include \"head.h\"\n");
        for (_, x) in cases.iter().skip(c).step_by(chunks) { t.push_str(x) }
        std::fs::write(out.join(format!("all{}.cpp", c)), t).unwrap();
    }
    let mut t = String::from("#define SYM_MAIN\n#include \"head.h\"\n");
    for (k, _) in cases { t.push_str(&format!("namespace c{} {{ unsigned run(void *); }}\n", k)) }
    t.push_str(&format!("extern \"C\" unsigned {}(unsigned k, {} *c) {{\n    switch (k) {{\n", name, ctx));
    for (k, _) in cases { t.push_str(&format!("    case {}: return __sym_try(&c{}::run, c);\n", k, k)) }
    t.push_str("    default: return 3;\n    }\n}\n");
    std::fs::write(out.join("all.cpp"), t).unwrap();
}
