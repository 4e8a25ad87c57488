"""What each check explores: harness entries, bounds, and the findings that are known."""
import os, re

COMMON_ASSUMPTIONS = [
    "the code is executed as rustc (or clang) compiled it to LLVM IR at -O1 with overflow checks and debug assertions; the executor's model of that IR, its allocator stand-in and its solvers are trusted, and are validated by replaying sampled paths natively and by cross-checking solver answers with z3",
    "memory allocation never fails",
]

CRATES = {"lex": {}, "parse": {}}


def _known():
    """known_findings.txt: "known: id=<key> property=<id> <what fails>" (recorded, the check reports them as
    KNOWN-FINDING) and "fixed: property=<id> <commit> <what failed>" (repaired, suppresses nothing)"""
    r = {}
    for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_findings.txt")):
        m = re.match(r"known: id=(\S+) property=(\S+) (.*)", l)
        if m:
            r[m.group(1)] = m.group(3).strip()
    return r


# findings that are recorded instead of repaired: id -> what fails
KNOWN = _known()


def job(crate, entry, *args, **kw):
    d = {"crate": crate, "entry": entry, "args": list(args)}
    d.update(kw)
    return d


def lex(entry, *args, **kw):
    return job("lex", entry, *args, **kw)


SUITES = {}
SUITES["C10"] = {
    "bounds": "alphabets derived from up to 2 arbitrary character items (single, range, negated set, nested repetition; any scalar values) and up to 2 literal characters (quick), up to 3 items (thorough); looked-up code points 0..=0x11ffff",
    "outside": "more than three distinct items; code points above 0x11ffff",
    "quick": [lex("h_alphabet", 1, 0, reach=[1], what="one item, any characters"),
              lex("h_alphabet", 2, 0, reach=[1], what="two items, any characters"),
              lex("h_alphabet", 1, 2, reach=[1], what="one item and a two-character literal")],
    "thorough": [lex("h_alphabet", 1, 0, reach=[1]), lex("h_alphabet", 2, 0, reach=[1]), lex("h_alphabet", 1, 2, reach=[1]),
                 lex("h_alphabet", 2, 1, reach=[1], secs=1800), lex("h_alphabet", 0, 4, reach=[1], secs=1800), lex("h_alphabet", 3, 0, reach=[1], secs=3600)],
}
SUITES["C11"] = {
    "bounds": "every pattern tree of depth 2 with up to 2 leaves over 9 leaf kinds (the empty pattern, the empty and the full set included) and 10 repetition bounds; repetitions of 5 inner patterns with every bound up to 5 (9 in thorough) or none in 4 contexts, strings up to 6 (10); depth 3 with reduced leaf kinds; 13 rule-set shapes whose characters and ranges are arbitrary scalar values; all strings of scalar values up to 2 or 3 characters",
    "outside": "deeper trees, larger repetition bounds, longer strings, more than two rules at once",
    "quick": [lex("h_shape", 2, 2, 3, reach=[1], what="all pattern trees of depth 2"),
              lex("h_bounds", 5, 6, reach=[1], what="repetitions with any bounds up to 5, over and inside other patterns")]
    + [lex("h_symchars", 0, k, 3, reach=[1], what="arbitrary characters, one shape") for k in range(7)]
    + [lex("h_symchars", 1, k, n, reach=[1], what="arbitrary characters and ranges") for k, n in [(0, 2), (1, 3), (2, 2), (3, 2), (4, 2), (5, 2), (6, 2)]],
    "thorough": [lex("h_bounds", 9, 10, reach=[1], secs=1200), lex("h_shape", 2, 2, 4, reach=[1]), lex("h_shape", 3, 2, 3, reach=[1], secs=3600), lex("h_shape", 2, 3, 3, reach=[1], secs=1200)]
    + [lex("h_symchars", 0, k, 4, reach=[1], secs=900) for k in range(7)]
    + [lex("h_symchars", 1, k, 3, reach=[1], secs=900) for k in range(7)],
}
SUITES["C12"] = {
    "bounds": "all pairs from 10 patterns and all triples from 6 patterns, each with no or any explicit precedence 0..=65535, all strings of scalar values up to 3 characters; rule sets with arbitrary characters and ranges, strings up to 2",
    "outside": "more than three rules, other patterns, longer strings; ties are searched on one string per automaton state",
    "quick": [lex("h_prec", 2, 3, 0, reach=[2, 3], what="pairs of patterns, any precedences"),
              lex("h_prec", 3, 2, 0, reach=[2, 3], what="triples of patterns, any precedences"),
              lex("h_precsym", 0, 2, reach=[2, 3], what="literal against class, any characters"),
              lex("h_precsym", 2, 2, reach=[2, 3], what="literal and two character rules, any characters")],
    "thorough": [lex("h_prec", 2, 4, 0, reach=[2, 3]), lex("h_prec", 3, 3, 0, reach=[2, 3]), lex("h_precsym", 0, 3, reach=[2, 3], secs=900),
                 lex("h_precsym", 1, 2, reach=[2, 3], secs=900), lex("h_precsym", 2, 3, reach=[2, 3], secs=900), lex("h_prec", 2, 2, 1, reach=[2, 3], secs=1800)],
}


def parse(entry, *args, **kw):
    return job("parse", entry, *args, **kw)


LR_REACH, CONF_REACH = [1, 2, 3, 4], [1, 2]
GRAMMARS = "4095 grammars of two nonterminals with one or two alternatives each (13 and 9 right-hand sides of up to three symbols), 936 grammars of one nonterminal with up to three alternatives, 71 textbook and long grammars of up to six nonterminals, 600 (4725 in thorough) grammars of three nonterminals, EBNF rules with every operator up to depth 2 and 2 leaves (quick) or 3 leaves (thorough)"
SUITES["C20"] = {
    "bounds": "rules with EBNF trees (sequence, alternative, ?, *, +, empty, tokens, rule references) up to depth 2 with 3 leaves, or two such rules of depth 1 (2 in thorough) under one name or referring to each other; all token strings up to 3 (4) over two tokens; name declarations over three names, up to two tokens and two rules, six reference positions",
    "outside": "deeper trees, longer strings, more declarations at once, more than 65535 rules",
    "quick": [parse("h_names", 0, reach=[1, 2, 3], what="declared, undeclared and clashing names"),
              parse("h_lower", 0, 2, 3, 3, reach=[1], what="one rule, every tree of depth 2"),
              parse("h_lower", 1, 1, 2, 4, reach=[1], what="two mutually recursive rules"),
              parse("h_lower", 2, 1, 3, 3, reach=[1], what="two productions of one name"),
              parse("h_lower", 3, 1, 2, 3, reach=[1], what="two alternatives of a referenced rule")],
    "thorough": [parse("h_names", 0, reach=[1, 2, 3]), parse("h_lower", 0, 2, 3, 4, reach=[1], secs=1200), parse("h_lower", 0, 3, 2, 3, reach=[1], secs=1200),
                 parse("h_lower", 1, 2, 1, 4, reach=[1]), parse("h_lower", 1, 2, 2, 3, reach=[1], secs=2400), parse("h_lower", 2, 2, 2, 3, reach=[1], secs=2400),
                 parse("h_lower", 3, 1, 3, 4, reach=[1], secs=1200)],
}
SUITES["C21"] = {
    "bounds": GRAMMARS + "; all token strings up to 4 (6 in thorough); LR(0), LALR(1) and LR(1) tables. LR(0) tables: grammars whose symbols all derive some token string",
    "outside": "larger grammars, longer token strings",
    "quick": [parse("h_lr", 0, m, 4, reach=LR_REACH, what="two nonterminals") for m in (0, 1, 2)] + [parse("h_lr", 2, m, 4, reach=LR_REACH, what="one nonterminal") for m in (0, 1, 2)]
    + [parse("h_lr", 3, m, 5, reach=LR_REACH, what="textbook grammars") for m in (0, 1, 2)] + [parse("h_lr", 4, m, 6, reach=LR_REACH, what="more grammars") for m in (0, 1, 2)] + [parse("h_lr", 7, m, 5, reach=LR_REACH, what="long rules") for m in (0, 1, 2)]
    + [parse("h_lr", 6, m, 4, reach=LR_REACH, what="three nonterminals") for m in (0, 1, 2)] + [parse("h_lrebnf", 2, 2, m, 3, reach=LR_REACH, what="EBNF rules") for m in (0, 1, 2)],
    "thorough": [parse("h_lr", 0, m, 6, reach=LR_REACH, secs=1200) for m in (0, 1, 2)] + [parse("h_lr", 2, m, 7, reach=LR_REACH, secs=1200) for m in (0, 1, 2)]
    + [parse("h_lr", f, m, 8, reach=LR_REACH, secs=1200) for f in (3, 4, 7) for m in (0, 1, 2)] + [parse("h_lr", 5, m, 6, reach=LR_REACH, secs=1800) for m in (0, 1, 2)] + [parse("h_lrebnf", 2, 3, m, 4, reach=LR_REACH, secs=1800) for m in (0, 1, 2)],
}
SUITES["C22"] = {
    "bounds": GRAMMARS + "; LR(0), LALR(1) and LR(1), with and without permission to continue",
    "outside": "larger grammars; a state with reduce/reduce conflicts need not list its shift/reduce conflicts on the same lookahead",
    "quick": [parse("h_conf", 1, m, reach=CONF_REACH, what="two nonterminals (540 grammars)") for m in (0, 1, 2)] + [parse("h_conf", 2, 2, reach=CONF_REACH, what="one nonterminal, LR(1)")]
    + [parse("h_conf", 3, m, reach=CONF_REACH, what="textbook grammars") for m in (0, 1, 2)] + [parse("h_conf", f, m, reach=CONF_REACH, what=w) for f, w in ((4, "more grammars"), (7, "long rules")) for m in (0, 1, 2)]
    + [parse("h_conf", 6, m, reach=CONF_REACH, what="three nonterminals") for m in (0, 1, 2)] + [parse("h_confebnf", 2, 2, m, reach=CONF_REACH, what="EBNF rules") for m in (0, 1, 2)],
    "thorough": [parse("h_conf", f, m, reach=CONF_REACH, secs=1200) for f in (0, 2, 3, 4, 5, 7) for m in (0, 1, 2)] + [parse("h_confebnf", 2, 3, m, reach=CONF_REACH, secs=1800) for m in (0, 1, 2)],
}
SUITES["C23"] = {
    "bounds": GRAMMARS + "; all token strings up to 4 (6 in thorough)",
    "outside": "larger grammars, longer token strings",
    "quick": [parse("h_ll", 0, 4, reach=LR_REACH, what="two nonterminals"), parse("h_ll", 2, 4, reach=LR_REACH, what="one nonterminal"),
              parse("h_ll", 3, 5, reach=LR_REACH, what="textbook grammars"), parse("h_ll", 4, 6, reach=LR_REACH, what="more grammars"), parse("h_ll", 7, 5, reach=LR_REACH, what="long rules"),
              parse("h_ll", 5, 4, reach=LR_REACH, what="three nonterminals"), parse("h_llebnf", 2, 2, 3, reach=LR_REACH, what="EBNF rules")],
    "thorough": [parse("h_ll", 0, 6, reach=LR_REACH, secs=1200), parse("h_ll", 2, 7, reach=LR_REACH, secs=1200), parse("h_ll", 3, 8, reach=LR_REACH, secs=1200), parse("h_ll", 4, 8, reach=LR_REACH, secs=1200), parse("h_ll", 7, 8, reach=LR_REACH, secs=1200), parse("h_ll", 5, 6, reach=LR_REACH, secs=1800), parse("h_llebnf", 2, 3, 4, reach=LR_REACH, secs=1800)],
}


def inp(entry, *args, **kw):
    return job("input", entry, *args, **kw)


CRATES["input"] = {}
SUITES["C01"] = {
    "bounds": "up to 3 (4) rules of 6 kinds in any order and 4 layouts; up to 8 (14) rules of two kinds; sequences and alternatives of up to 8 (12) parts with an operator or a group of up to 5 parts anywhere; production patterns of depth 2 with 3 leaves (quick) or depth 3 with 2, each in 4 layouts; names with 2 (3) arbitrary letters or digits after 5 prefixes that include all but the last letters of the keywords, in 5 places; literals of 2 (3) arbitrary characters; 2 (3) escaped or plain characters; precedences of up to 6 digits; up to 3 arbitrary blanks in each of 24 places. Groups count up to associativity (a sequence inside a sequence is the longer sequence). The bootstrap parser on its own notation: orders of rules and pattern shapes",
    "outside": "longer texts, lines or columns above 65535, U+0000 (ends a text), patterns inside regular expressions (C05)",
    "quick": [inp("h_order", 3, 0, reach=[1], what="orders of rules"), inp("h_order", 3, 2, reach=[1], what="orders of rules, bootstrap"),
              inp("h_tree", 2, 3, 0, reach=[1], what="production patterns"), inp("h_tree", 2, 3, 2, reach=[1], what="production patterns, bootstrap"),
              inp("h_wide", 8, 0, reach=[1], what="long sequences and alternatives"), inp("h_wide", 6, 2, reach=[1], what="long sequences and alternatives, bootstrap"),
              inp("h_long", 8, 0, reach=[1], what="many rules"), inp("h_long", 6, 2, reach=[1], what="many rules, bootstrap")]
    + [inp("h_name", p, 2, 0, reach=[1], what="arbitrary names") for p in range(5)]
    + [inp("h_literal", 2, 0, 0, reach=[1], what="arbitrary literals"), inp("h_escape", 2, 0, reach=[1], what="escapes"),
       inp("h_number", 4, 0, reach=[1, 2], what="precedences"), inp("h_number", 5, 0, reach=[1, 2, 3], what="precedences"), inp("h_number", 6, 0, reach=[3], what="precedences out of range"),
       inp("h_layout", 2, 0, reach=[1], what="blanks")],
    "thorough": [inp("h_order", 4, 0, reach=[1], secs=900), inp("h_order", 5, 2, reach=[1]), inp("h_tree", 3, 2, 0, reach=[1], secs=900), inp("h_tree", 3, 3, 2, reach=[1], secs=900), inp("h_tree", 2, 4, 0, reach=[1], secs=900),
                 inp("h_wide", 12, 0, reach=[1]), inp("h_wide", 12, 2, reach=[1]), inp("h_long", 14, 0, reach=[1], secs=900), inp("h_long", 14, 2, reach=[1], secs=900)]
    + [inp("h_name", p, 3, 0, reach=[1], secs=900) for p in range(5)]
    + [inp("h_literal", 3, 0, 0, reach=[1], secs=900), inp("h_escape", 3, 0, reach=[1], secs=1800)] + [inp("h_number", k, 0, secs=900) for k in range(1, 8)] + [inp("h_layout", 4, 0, reach=[1], secs=900)],
}
SUITES["C02"] = {
    "bounds": "the texts of C01 (the generated parser; the bootstrap parser records no spans), with arbitrary characters in literals and regular expressions before another rule on the same line, escaped line breaks included",
    "outside": "longer texts, lines or columns above 65535",
    "quick": [inp("h_order", 3, 1, reach=[1], what="orders of rules and layouts"), inp("h_tree", 2, 2, 1, reach=[1], what="production patterns"),
              inp("h_long", 8, 1, reach=[1], what="many rules"), inp("h_wide", 5, 1, reach=[1], what="long sequences and alternatives"),
              inp("h_name", 0, 1, 1, reach=[1], what="names"), inp("h_name", 3, 1, 1, reach=[1], what="names"),
              inp("h_literal", 2, 0, 1, reach=[1], what="arbitrary characters in literals"), inp("h_literal", 2, 1, 1, reach=[1], what="arbitrary characters in regular expressions"),
              inp("h_escape", 2, 1, reach=[1], what="escapes"), inp("h_number", 3, 1, reach=[1], what="precedences"), inp("h_layout", 3, 1, reach=[1], what="blanks")],
    "thorough": [inp("h_order", 4, 1, reach=[1], secs=900), inp("h_tree", 3, 2, 1, reach=[1], secs=900), inp("h_long", 14, 1, reach=[1], secs=900), inp("h_wide", 12, 1, reach=[1], secs=900), inp("h_literal", 3, 0, 1, reach=[1], secs=900),
                 inp("h_literal", 3, 1, 1, reach=[1], secs=1800), inp("h_escape", 3, 1, reach=[1], secs=1800), inp("h_layout", 4, 1, reach=[1], secs=900)]
    + [inp("h_name", p, 3, 1, reach=[1], secs=900) for p in range(5)],
}
SUITES["C03"] = {
    "bounds": "9 beginnings of texts followed by 2 (3) arbitrary characters; 6 well-formed texts with one character replaced or inserted (any character; ASCII inside regular expressions), deleted, or cut off anywhere; both parsers; precedences of six digits; six families of regular expressions with everything the notation has to offer (flags, escapes of any letter, anchors and boundaries, all repetitions, set operations, groups). Whether an answer may be a rule set is decided by an independent reader of the definition language, except where it depends on the syntax of a regular expression",
    "outside": "longer texts, more than one edit, U+0000 (ends a text), lines or columns above 65535, non-ASCII edits inside regular expressions",
    "quick": [inp("h_any", 2, 0, reach=[1, 2], what="beginnings and two characters"), inp("h_any", 2, 1, reach=[1], what="bootstrap: beginnings and two characters")]
    + [inp("h_edit", t, op, 0, reach=[1] if op == 3 else [1, 2], what="one edit") for t in range(6) for op in range(4)]
    + [inp("h_edit", t, op, 1, reach=[1], what="bootstrap: one edit") for t in (0, 3) for op in range(4)]
    + [inp("h_inside", k, 0, reach=[1] if k == 2 else [1, 2], what="regular expressions of all kinds") for k in range(6)] + [inp("h_inside", k, 1, reach=[1], what="bootstrap: regular expressions of all kinds") for k in (0, 3)]
    + [inp("h_number", 6, 0, reach=[3], what="precedences out of range")],
    "thorough": [inp("h_any", 3, 0, reach=[1, 2], secs=1800), inp("h_any", 3, 1, reach=[1], secs=900)]
    + [inp("h_edit", t, op, b, secs=900) for t in range(6) for op in range(4) for b in (0, 1)] + [inp("h_inside", k, b, reach=[1]) for k in range(6) for b in (0, 1)],
}
SUITES["C05"] = {
    "bounds": "expressions of depth 2 with 2 (3) leaves over 8 kinds of leaves and 7 repetitions, empty groups and alternatives included; expressions with up to 2 arbitrary characters; escapes of punctuation, controls and \\x{hhhh}; classes of 1 (2) arbitrary characters or ranges; 34 expressions for the rest of the notation (groups, flags, set operations, named classes, long escapes) in three contexts; all strings of scalar values up to 2 or 3 characters",
    "outside": "Perl and Unicode classes (their tables are regex-syntax's), deeper expressions, longer strings; regex-syntax itself is executed, not assumed",
    "quick": [inp("h_regex", 2, 2, 3, reach=[1], what="all expressions of depth 2")] + [inp("h_regexsym", k, n, reach=[1], what="arbitrary characters") for k, n in [(0, 2), (1, 3), (2, 3), (3, 2), (4, 2), (5, 1), (6, 2)]]
    + [inp("h_class", 1, 2, reach=[1], what="classes"), inp("h_syntax", 3, reach=[1, 2], what="the rest of the notation")],
    "thorough": [inp("h_regex", 2, 3, 3, reach=[1], secs=1200), inp("h_regex", 3, 2, 2, reach=[1], secs=3600)] + [inp("h_regexsym", k, 4, reach=[1], secs=900) for k in range(7)]
    + [inp("h_class", 2, 1, reach=[1], secs=3600), inp("h_syntax", 6, reach=[1, 2])],
}
SUITES["C06"] = {
    "bounds": "texts of up to 3 (5) arbitrary characters, both positions any pair of 16-bit numbers",
    "outside": "longer texts, lines or columns above 65535",
    "quick": [inp("h_span", n, reach=[1, 2], what="any text, any span") for n in (1, 2, 3)],
    "thorough": [inp("h_span", n, reach=[1, 2], secs=1800) for n in (1, 2, 3, 4, 5)],
}

# generated code: the generators run natively over the corpus of harness/corp, what they write is executed symbolically
def rust(kind):
    """generate, and have rustc accept it together with the glue before the harness is built"""
    def f(check):
        d = check.generate(kind)
        lib = os.path.join(d, "lib.rs")
        with open(lib, "w") as o:
            o.write(RUST_STUB.get(kind, RUST_PARSER) + 'include!("%s/all.rs");\n' % d)
        try:
            check.run(["rustc", "--edition", "2021", "--crate-type", "lib", "--emit", "metadata", "-A", "warnings", "-o", os.path.join(d, "lib.rmeta"), lib])
        except check.NoAnswer as x:
            raise check.Refuted("generated code does not compile: %s" % x)
        return {"LAPEX_GEN_DIR": d}
    return f


RUST_PARSER = """pub struct Rec; impl Rec { pub fn shift(&mut self, t: u8, d: u8) {} pub fn reduce(&mut self, r: usize) {} }
pub enum Out { Accept, Unexpected(Vec<(u8, u8)>, Vec<Vec<u8>>), Refused, Other }
pub struct Case { pub index: usize, pub kind: u8, pub nts: usize, pub ts: usize, pub rules: &'static [(u8, &'static [u8])], pub run: fn(&mut Rec, &mut dyn FnMut() -> (u8, u8)) -> Out }
"""
RUST_STUB = {}
RUST_STUB["rust-lexer"] = "pub enum Lexed { Token(usize), End, Bad(u32,u32), Invalid(u32) }\n"


def cpp(kind):
    return lambda check: check.compile_cxx(check.generate(kind))


CRATES["clr"] = {"pre": [cpp("cpp-lr")]}
CRATES["cll"] = {"pre": [cpp("cpp-ll")]}
CRATES["clex"] = {"pre": [cpp("cpp-lexer")]}
CRATES["rlex"] = {"pre": [rust("rust-lexer")]}
CRATES["rlr"] = {"pre": [rust("rust-lr")]}
CRATES["rglr"] = {"pre": [rust("rust-glr")]}
PARSERS = "the corpus of 77 grammars (30 textbook grammars, 22 EBNF ones with tags and every operator, 3 with names in other styles, 21 more that are ambiguous, cyclic, long or nested, one of 289 rules over 17 tokens)"
LEXERS = "the corpus of 13 sets of token rules (keywords, operators that begin with each other, strings and comments, non-ASCII classes, counted repetitions, explicit precedences, 300 rules at once, ...)"
SUITES["C13"] = {
    "bounds": LEXERS + "; texts of up to 3 arbitrary characters other than U+0000 (4 for some of the sets; 4 for all in thorough); 3 texts of matches one after the other per set (8 in thorough), up to 12 (16) characters, with any one of them replaced by an arbitrary one (any two in thorough)",
    "outside": "other rule sets, other longer texts, U+0000",
    "quick": [job("rlex", "h_lex", 0, 3, reach=[1, 2, 3], what="every lexer, every text up to 3")] + [job("rlex", "h_lex", k, 4, reach=[1, 2]) for k in (2, 6, 8, 11, 12)] + [job("rlex", "h_lex", 13, 1, reach=[1, 2], what="300 rules"), job("rlex", "h_long", 3, 12, 0, reach=[1, 2, 3], what="longer texts")],
    "thorough": [job("rlex", "h_lex", 0, 4, reach=[1, 2, 3], secs=3000), job("rlex", "h_lex", 13, 2, reach=[1, 2], secs=900), job("rlex", "h_long", 8, 16, 0, reach=[1, 2, 3], secs=1800), job("rlex", "h_long", 3, 12, 1, reach=[1, 2, 3], secs=1800)],
}
SUITES["C14"] = {
    "cpp": True,
    "bounds": LEXERS + "; texts of up to 3 arbitrary characters other than U+0000 (4 in thorough) and of up to 3 arbitrary non-zero bytes (4 for some sets; 5 in thorough); 3 texts of matches one after the other per set (8 in thorough), up to 12 (16) characters, with any one of them replaced by an arbitrary one (any two in thorough)",
    "outside": "other rule sets, other longer texts, U+0000, streams that fail; the library's streams are replaced by small ones over memory",
    "quick": [job("clex", "h_lex", 0, 3, reach=[1, 2, 3], what="every lexer, every text up to 3"), job("clex", "h_bytes", 0, 3, reach=[1, 2, 3], what="every lexer, every string of up to 3 bytes"),
              job("clex", "h_bytes", 9, 4, reach=[1, 2, 3]), job("clex", "h_bytes", 5, 4, reach=[1, 2, 3]), job("clex", "h_lex", 13, 1, reach=[1, 2], what="300 rules"), job("clex", "h_long", 3, 12, 0, reach=[1, 2, 3], what="longer texts")],
    "thorough": [job("clex", "h_lex", 0, 4, reach=[1, 2, 3], secs=3000), job("clex", "h_bytes", 0, 5, reach=[1, 2, 3], secs=3000), job("clex", "h_lex", 13, 2, reach=[1, 2], secs=900), job("clex", "h_long", 8, 16, 0, reach=[1, 2, 3], secs=1800), job("clex", "h_long", 3, 12, 1, reach=[1, 2, 3], secs=1800)],
}
# known finding: stops only with the executor's limit on the path's length
GLR_LOOP = job("rglr", "h_parse", 2019, 1, known="glr-loop", known_kinds=("too-long",), max_insts=3000000, replay_timeout=3, what="hidden left recursion")
GLR_CYCLE = job("rglr", "h_parse", 2075, 1, known="glr-cycle", known_kinds=("too-long",), max_insts=3000000, replay_timeout=3, what="a rule that derives itself")
SUITES["C24"] = {
    "bounds": PARSERS + " as LR(0), LALR(1) and LR(1) parsers where conflict-free ; all token strings up to 4 (6 in thorough; 2 and 3 for the grammar of 289 rules); one sentence of up to 8 tokens per grammar (three of up to 12 in thorough) with two tokens anywhere replaced by arbitrary ones (by up to two)",
    "outside": "other grammars, other longer token strings, other token data than positions",
    "quick": [job("rlr", "h_parse", 0, 4, reach=[1, 2], what="every parser, every token string"), job("rlr", "h_parse", 1001, 2, reach=[1, 2], what="289 rules"), job("rlr", "h_edit", 1, 8, 0, reach=[1, 2], what="longer token strings")],
    "thorough": [job("rlr", "h_parse", 0, 6, reach=[1, 2], secs=2400), job("rlr", "h_parse", 1001, 3, reach=[1, 2], secs=900), job("rlr", "h_edit", 3, 12, 0, reach=[1, 2], secs=2400), job("rlr", "h_edit", 2, 9, 1, reach=[1, 2], secs=2400)],
}
SUITES["C25"] = {
    "bounds": PARSERS + " as GLR parsers; all token strings up to 4 (6 in thorough; 2 and 3 for the grammar of 289 rules); one sentence of up to 8 tokens per grammar (three of up to 12 in thorough) with two tokens anywhere replaced by arbitrary ones (by up to two)",
    "outside": "other grammars, other longer token strings, other token data than positions",
    "quick": [job("rglr", "h_parse", 0, 4, reach=[1, 2], what="every parser, every token string"), job("rglr", "h_parse", 1003, 2, reach=[1, 2], what="289 rules"), GLR_LOOP, GLR_CYCLE, job("rglr", "h_edit", 1, 8, 0, reach=[1, 2], what="longer token strings")],
    "thorough": [job("rglr", "h_parse", 0, 6, reach=[1, 2], secs=2400), job("rglr", "h_parse", 1003, 3, reach=[1, 2], secs=900), GLR_LOOP, GLR_CYCLE, job("rglr", "h_edit", 3, 12, 0, reach=[1, 2], secs=2400), job("rglr", "h_edit", 2, 9, 1, reach=[1, 2], secs=2400)],
}
SUITES["C26"] = {
    "cpp": True,
    "bounds": PARSERS + " as LR(0), LALR(1) and LR(1) parsers where conflict-free ; all token strings up to 4 (6 in thorough; 2 and 3 for the grammar of 289 rules); one sentence of up to 8 tokens per grammar (three of up to 12 in thorough) with two tokens anywhere replaced by arbitrary ones (by up to two)",
    "outside": "other grammars, other longer token strings, other token data than positions; the library's streams and runtime_error are replaced by small ones",
    "quick": [job("clr", "h_parse", 0, 4, reach=[1, 2], what="every parser, every token string"), job("clr", "h_parse", 1001, 2, reach=[1, 2], what="289 rules"), job("clr", "h_edit", 1, 8, 0, reach=[1, 2], what="longer token strings")],
    "thorough": [job("clr", "h_parse", 0, 6, reach=[1, 2], secs=2400), job("clr", "h_parse", 1001, 3, reach=[1, 2], secs=900), job("clr", "h_edit", 3, 12, 0, reach=[1, 2], secs=2400), job("clr", "h_edit", 2, 9, 1, reach=[1, 2], secs=2400)],
}
SUITES["C27"] = {
    "cpp": True,
    "bounds": "the LL(1) grammars of the corpus and ten more (31 generated parsers); all token strings up to 4 (6 in thorough); one sentence of up to 8 tokens per grammar (three of up to 12 in thorough) with two tokens anywhere replaced by arbitrary ones (by up to two)",
    "outside": "other grammars, other longer token strings, other token data than positions; the library's streams and runtime_error are replaced by small ones",
    "quick": [job("cll", "h_parse", 0, 4, reach=[1, 2], what="every parser, every token string"), job("cll", "h_edit", 1, 8, 0, reach=[1, 2], what="longer token strings")],
    "thorough": [job("cll", "h_parse", 0, 6, reach=[1, 2], secs=2400), job("cll", "h_edit", 3, 12, 0, reach=[1, 2], secs=2400), job("cll", "h_edit", 2, 9, 1, reach=[1, 2], secs=2400)],
}



def full(entry, *args, **kw):
    return job("full", entry, *args, **kw)


CRATES["full"] = {}
SUITES["C28"] = {
    "bounds": "5 definitions with one ASCII character replaced or inserted (any), deleted, or the text cut off anywhere, or two arbitrary bytes; 540 grammars of two nonterminals and 71 textbook and long grammars (936 of one nonterminal and 600 of three more in thorough) for LR(0), LALR(1), LR(1), GLR and LL(1); 6 grammars with every algorithm, both languages, with and without lexer and table, compared byte by byte with what the generators write; 1458 combinations of declared, undeclared and repeated names; pairs of token rules with arbitrary characters (three letters) and precedences; a definition that is missing or not UTF-8. Files are kept in the executor's memory",
    "outside": "longer definitions, more edits, a target folder that is missing or cannot be written to (the generators panic), LL(1) for Rust and GLR for C++ (not implemented: todo!())",
    "quick": [full("h_unread", 0, reach=[1], what="no definition"), full("h_unread", 1, reach=[1], what="not UTF-8")]
    + [full("h_same", a, 0, reach=[1] if a == 3 else [1, 2], what="options, Rust") for a in range(4)] + [full("h_same", a, 1, reach=[1, 2], what="options, C++") for a in (0, 1, 2, 4)]
    + [full("h_names", 1, 0, reach=[1, 2, 3, 4, 5], what="names")]
    + [full("h_tokens", k, 0, reach=[1] if k == 0 else [1, 2, 3], what="tokens that tie") for k in range(4)]
    + [full("h_grammar", 1, a, 0, reach=[1] if a == 3 else [1, 2], what="grammars of two nonterminals") for a in range(4)] + [full("h_grammar", 3, a, 1 if a == 4 else 0, reach=[1] if a == 3 else [1, 2], what="textbook grammars") for a in range(5)]
    + [full("h_grammar", f, a, 1 if a == 4 else 0, reach=[1] if a == 3 else [1, 2], what=w) for f, w in ((4, "more grammars"), (7, "long rules")) for a in range(5)]
    + [full("h_text", t, op, a, reach=[2], what="one edit") for t, a, ops in ((0, 1, (0, 1, 2, 3)), (1, 1, (0, 2, 3)), (2, 0, (0, 2, 3)), (3, 4, (2, 3)), (4, 3, (0, 2, 3))) for op in ops] + [full("h_text", 0, 4, 1, reach=[2], what="arbitrary bytes")],
    "thorough": [full("h_unread", 0), full("h_unread", 1)] + [full("h_same", a, 0) for a in range(4)] + [full("h_same", a, 1) for a in (0, 1, 2, 4)]
    + [full("h_names", a, 0, secs=900) for a in range(4)] + [full("h_names", a, 1, secs=900) for a in (0, 1, 2, 4)] + [full("h_tokens", k, l, secs=1200) for k in range(4) for l in (0, 1)]
    + [full("h_grammar", f, a, 0, secs=1200) for f in (0, 2, 3, 4, 6) for a in range(4)] + [full("h_grammar", f, a, 1, secs=1200) for f in (1, 3, 4, 6) for a in (0, 1, 2, 4)]
    + [full("h_text", t, op, a, secs=900) for t in range(5) for op in range(5) for a in (1, 3)] + [full("h_text", t, op, 4, secs=900) for t in range(5) for op in range(5)],
}
SUITES["C29"] = {
    "bounds": GRAMMARS + "; LR(0), LALR(1), LR(1) and GLR tables",
    "outside": "larger grammars, names that contain a bar (not possible in a definition)",
    "quick": [parse("h_table", f, m, reach=[1, 2] if m == 3 else [1], what=w) for f, w in ((3, "textbook grammars"), (4, "more grammars"), (7, "long rules"), (1, "two nonterminals"), (6, "three nonterminals")) for m in range(4)]
    + [parse("h_tableebnf", 2, 2, m, reach=[1, 2] if m == 3 else [1], what="EBNF rules") for m in (1, 3)],
    "thorough": [parse("h_table", f, m, reach=[1, 2] if m == 3 else [1], secs=1200) for f in (0, 2, 3, 4, 5) for m in range(4)] + [parse("h_tableebnf", 2, 3, m, reach=[1, 2] if m == 3 else [1], secs=1800) for m in range(4)],
}
SUITES["C30"] = {
    "bounds": "71 textbook and long grammars (600 of three nonterminals and 540 of two more in thorough) for LR(0), LALR(1), LR(1) and LL(1), with rules that begin at the start of a line, behind blanks and over two lines, or behind non-ASCII text on one line; three token rules with arbitrary ASCII or two non-ASCII characters on lines of their own; names of five declarations in all ways over three names",
    "outside": "other layouts, larger definitions, the wording of the messages",
    "quick": [full("h_report", f, a, reach=[1, 2, 3, 4] if a < 3 else [1, 2], what=w) for f, w in ((3, "textbook grammars"), (4, "more grammars"), (7, "long rules")) for a in (0, 1, 2, 4)]
    + [full("h_ties", k, reach=[1, 2], what="tokens that tie") for k in (0, 1)] + [full("h_twice", 0, reach=[1, 2], what="names"), full("h_twice", 1, reach=[1, 2, 3], what="names")],
    "thorough": [full("h_report", f, a, reach=[1, 2, 3, 4] if a < 3 else [1, 2], secs=1200) for f in (1, 3, 4, 6) for a in (0, 1, 2, 4)]
    + [full("h_ties", k, reach=[1, 2]) for k in (0, 1)] + [full("h_twice", 0, reach=[1, 2]), full("h_twice", 1, reach=[1, 2, 3])],
}

NOT_APPLICABLE = {}
