//! Glue between the harness and generated Rust parsers.
use crate::Case;

/// `snake_case` to `UpperCamel`
pub fn camel(name: &str) -> String {
    name.split('_').map(|s| { let mut c = s.chars(); match c.next() { Some(h) => h.to_ascii_uppercase().to_string() + &c.as_str().to_ascii_lowercase(), None => "_".to_string() } }).collect()
}
pub fn glue(c: &Case, o: &mut String) {
    let glr = c.kind == 3;
    let d = c.dir.display();
    let ts: Vec<String> = (0..c.g.ebnf.ts).map(|k| format!("Tk{}", camel(c.g.tokens[k]))).collect();
    let mut p = |s: String| { o.push_str(&s); o.push('\n') };
    p(format!("#[allow(dead_code, unused)]\npub mod c{} {{ // {} {}", c.k, crate::kind_name(c.kind), c.g.text));
    p(format!("pub mod tokens {{ include!(\"{}/tokens.rs\"); }}\npub mod parser {{ include!(\"{}/parser.rs\"); }}", d, d));
    p("use tokens::TokenType; use super::{Rec, Out};".to_string());
    let arms: Vec<String> = ts.iter().enumerate().map(|(k, t)| format!("{} => TokenType::{}, ", k, t)).collect();
    p(format!("fn tok(k: u8) -> TokenType {{ match k {{ {}_ => TokenType::EndOfFile }} }}", arms.concat()));
    let arms: Vec<String> = ts.iter().enumerate().map(|(k, t)| format!("TokenType::{} => {}, ", t, k)).collect();
    p(format!("fn num(t: &TokenType) -> u8 {{ match t {{ {}TokenType::EndOfFile => 255 }} }}", arms.concat()));
    p("struct V<'a>(&'a mut Rec);\nimpl<'a> parser::Visitor<u8> for V<'a> {\n    fn shift(&mut self, t: TokenType, d: u8) { self.0.shift(num(&t), d) }".to_string());
    for (k, f) in c.functions(true).iter().enumerate() { p(format!("    fn {}(&mut self) {{ self.0.reduce({}) }}", f, k)) }
    p("}".to_string());
    if glr {
        p("#[derive(Debug)] pub struct Never; impl std::fmt::Display for Never { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(\"x\") } } impl std::error::Error for Never {}
pub fn run(rec: &mut Rec, next: &mut dyn FnMut() -> (u8, u8)) -> Out {
    let mut p = parser::Parser::new(|| -> Result<(TokenType, u8), Never> { let (t, d) = next(); Ok((tok(t), d)) }, V(rec));
    match p.parse() {
        Ok(()) => Out::Accept,
        Err(parser::ParserError::UnexpectedToken { got, got_data, expected }) => Out::Unexpected(vec![(num(&got), got_data)], vec![expected.iter().map(num).collect()]),
        Err(parser::ParserError::UnexpectedTokens { got, expected }) => Out::Unexpected(got.iter().map(|(t, d)| (num(t), *d)).collect(), expected.iter().map(|e| e.iter().map(num).collect()).collect()),
        Err(_) => Out::Other,
    }
}
}".to_string());
    } else {
        p("pub fn run(rec: &mut Rec, next: &mut dyn FnMut() -> (u8, u8)) -> Out {
    let mut p = parser::Parser::new(|| { let (t, d) = next(); (tok(t), d) }, V(rec));
    match p.parse() {
        Ok(()) => Out::Accept,
        Err(parser::ParserError::UnexpectedToken { got, expected }) => Out::Unexpected(vec![(num(&got), 0)], vec![expected.iter().map(num).collect()]),
    }
}
}".to_string());
    }
}
pub fn lexer_glue(k: usize, names: &[&'static str], d: &std::path::Path, o: &mut String) {
    let d = d.display();
    let mut p = |s: String| { o.push_str(&s); o.push('\n') };
    p(format!("#[allow(dead_code, unused)]\npub mod c{} {{", k));
    p(format!("pub mod tokens {{ include!(\"{}/tokens.rs\"); }}\npub mod lexer {{ include!(\"{}/lexer.rs\"); }}", d, d));
    p("use tokens::TokenType; use super::Lexed;".to_string());
    let arms: Vec<String> = names.iter().enumerate().map(|(k, t)| format!("TokenType::Tk{} => Lexed::Token({}), ", camel(t), k)).collect();
    p(format!("pub fn run(text: &str, out: &mut dyn FnMut(Lexed, std::ops::Range<usize>, &str) -> bool) {{
    let mut l = lexer::Lexer::new(text);
    loop {{
        let x = match l.next() {{
            Ok(t) => match t {{ {}TokenType::EndOfFile => Lexed::End }},
            Err(lexer::LexerError::UnexpectedAlphabet {{ range }}) => Lexed::Bad(*range.start(), *range.end()),
            Err(lexer::LexerError::InvalidChar {{ bad_ch }}) => Lexed::Invalid(bad_ch),
        }};
        if !out(x, l.span(), l.slice()) {{ return }}
    }}
}}
}}", arms.concat()));
}
