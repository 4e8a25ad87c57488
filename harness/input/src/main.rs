//! Symbolic harnesses over reading definition files: both input parsers, spans and regular expressions.
mod recognise;
mod text;
use lapex_input::{LapexInputParser, RuleSet, SourcePos, SourceSpan, Spanned, TokenPattern, TokenRule};
use lapex_input_bootstrap::BootstrapLapexInputParser;
use lapex_input_gen::GeneratedLapexInputParser;
use lapex_lexer::{generate_alphabet, generate_nfa};
use pat::*;
use text::*;

sym::entries! { h_span(n), h_order(n, mode), h_tree(depth, leaves, mode), h_name(pos, k, mode), h_literal(k, place, mode), h_escape(k, mode), h_number(k, mode), h_layout(k, mode), h_any(n, boot), h_edit(which, op, boot), h_regex(depth, leaves, strlen), h_regexsym(which, strlen), h_class(n, strlen), h_wide(n, mode), h_long(n, mode), h_inside(which, boot), h_syntax(strlen) }

/// C06: the substring of any span of any text of `n` characters.
fn h_span(n: u64) {
    let n = n as usize;
    let cs: Vec<u32> = (0..n).map(|_| sym::scalar(0, 0x10ffff)).collect();
    let mut t = String::new();
    let mut off = vec![0usize];
    for c in &cs {
        t.push(sym::chr(*c));
        off.push(t.len());
    }
    // line and column of each boundary
    let mut pos = vec![(1u32, 1u32)];
    for (i, c) in cs.iter().enumerate() {
        let nl = (*c == 10) as u32;
        let (l, k) = pos[i];
        pos.push((l + nl, k * (1 - nl) + 1));
    }
    let p = || SourcePos { line: sym::u16(0, 65535), col: sym::u16(0, 65535) };
    let (start, end) = (p(), p());
    let got = SourceSpan { start, end }.substring(&t);
    let at = |p: SourcePos, i: usize| ((p.line as u32 == pos[i].0) & (p.col as u32 == pos[i].1)) as u32;
    let (mut has_s, mut has_e, mut so, mut eo) = (0, 0, 0, 0);
    for i in 0..=n {
        has_s |= at(start, i);
        has_e |= at(end, i);
        so += at(start, i) * off[i] as u32;
        eo += at(end, i) * off[i] as u32;
    }
    match got {
        Some(s) => {
            sym::reach(1);
            sym::check((has_s & has_e) == 1, 10);
            sym::check((s.as_ptr() as usize - t.as_ptr() as usize) as u32 == so, 11);
            sym::check(s.len() as u32 + so == eo, 12);
            sym::observe(s.len() as u64);
        }
        None => {
            sym::reach(2);
            sym::check(((has_s & has_e) == 0) | (so > eo), 13);
            sym::observe(99);
        }
    }
}

/// C01: the rule set must be exactly what was written.
fn expect(w: &Written, r: &RuleSet) {
    let (mut t, mut p) = (0, 0);
    for i in &w.items {
        match &i.rule {
            Item::Entry(n) => sym::check(name_is(r.entry_rule.inner.name, n), 21),
            Item::Token(n, prec, pat) => {
                if t >= r.token_rules.len() { return sym::fail(22) }
                let x = &r.token_rules[t];
                t += 1;
                sym::check(name_is(x.inner.name, n), 23);
                match (prec, x.inner.precedence) { (Some(a), Some(b)) => sym::check(*a == b as u32, 24), (None, None) => {}, _ => sym::fail(25) }
                match (pat, &x.inner.pattern) {
                    (Lit(v), TokenPattern::Literal { characters }) => {
                        if v.len() != characters.len() { return sym::fail(26) }
                        let mut ok = true;
                        for (a, b) in v.iter().zip(characters) { ok &= *a == *b as u32 }
                        sym::check(ok, 27);
                    }
                    (Lit(_), _) | (_, TokenPattern::Literal { .. }) => return sym::fail(28),
                    _ => {}
                }
            }
            Item::Prod(n, tag, q) => {
                if p >= r.production_rules.len() { return sym::fail(29) }
                let x = &r.production_rules[p];
                p += 1;
                sym::check(name_is(x.inner.name, n), 30);
                match (tag, x.inner.tag) { (Some(a), Some(b)) => sym::check(name_is(b, a), 31), (None, None) => {}, _ => sym::fail(32) }
                sym::check(same(&norm(q), &norm(&of_pattern(&x.inner.pattern))), 33);
            }
        }
    }
    if t != r.token_rules.len() || p != r.production_rules.len() { sym::fail(34) }
    sym::observe(t as u64);
    sym::observe(p as u64);
}
/// C02: the span of a rule is the text of a rule, the one its name stands in.
fn own_text(w: &Written, span: SourceSpan, name: &str, code: u32) {
    let base = w.text.as_ptr() as usize;
    let s = match span.substring(&w.text) { Some(s) => s, None => return sym::fail(39) };
    let (start, end) = (s.as_ptr() as usize - base, s.as_ptr() as usize - base + s.len());
    let at = (name.as_ptr() as usize).wrapping_sub(base);
    let mut ok = false;
    for i in &w.items { ok |= (i.start == start) & (i.end == end) & (start <= at) & (at < end) }
    sym::check(ok, code);
    sym::observe(start as u64);
    sym::observe(end as u64);
}
/// mode 0: what was read; 1: where it was read; 2: what the bootstrap parser read
fn read(w: &Written, mode: u64) {
    let r = if mode == 2 { BootstrapLapexInputParser.parse_lapex(&w.text) } else { GeneratedLapexInputParser.parse_lapex(&w.text) };
    if sym::is_replay() { sym::note(&w.text); sym::note(&format!("{:?}", r)) }
    let r = match r { Ok(r) => r, Err(_) => return sym::fail(20) };
    sym::reach(1);
    if mode != 1 { return expect(w, &r) }
    own_text(w, r.entry_rule.span, r.entry_rule.inner.name, 40);
    for x in &r.token_rules { own_text(w, x.span, x.inner.name, 41) }
    for x in &r.production_rules { own_text(w, x.span, x.inner.name, 42) }
}

/// C01/C02: sequences of rules of every kind.
fn h_order(n: u64, mode: u64) {
    let boot = (mode == 2) as u64;
    let names = ["foo", "B_x", "tokens", "entryy", "pro"];
    let entry = sym::choose(n as u32) as u64;
    let layout = if boot == 1 { Layout::Boot } else { [Layout::Normal, Layout::Tight, Layout::Lines, Layout::Wide][sym::choose(4) as usize] };
    let mut w = Written::new(layout);
    for k in 0..n {
        let name = id(names[k as usize % 5]);
        if k == entry { w.item(Item::Entry(name)); continue }
        let item = match sym::choose(if boot == 1 { 3 } else { 6 }) {
            0 => Item::Token(name, None, Lit(vec![43, 97])),
            1 => Item::Token(name, None, Rep(1, None, Box::new(Ch(97)))),
            2 => Item::Prod(name, None, Q::Id(id("foo"))),
            3 => Item::Token(name, Some(k as u32 * 1000), Lit(vec![0x20ac])),
            4 => Item::Prod(name, Some(id("tag_1")), Q::Bang),
            _ => Item::Token(name, None, Seq(vec![Ch(0xe9), Ch(0x1f600)])),
        };
        w.item(item);
    }
    read(&w, mode)
}
/// C01/C02: sequences and alternatives of up to `n` parts, one of them with an operator or a group of its own.
fn h_wide(n: u64, mode: u64) {
    let boot = (mode == 2) as u64;
    let one = |k: u64| Q::Id(vec![97 + k as u32]);
    let some = |m: u64, first: u64| (first..first + m).map(one).collect::<Vec<_>>();
    let n = 2 + sym::choose(n as u32 - 1) as u64;
    let alt = sym::choose(2) == 1;
    let wrap = |alt: bool, v: Vec<Q>| if alt { Q::Alt(v) } else { Q::Seq(v) };
    let mut v = some(n, 0);
    let at = sym::choose(n as u32) as usize;
    let bx = Box::new;
    v[at] = match sym::choose(7) {
        0 => Q::Opt(bx(one(8))),
        1 => Q::Star(bx(one(8))),
        2 => Q::Plus(bx(one(8))),
        3 => if boot == 1 { one(8) } else { Q::Bang },
        4 => Q::Opt(bx(wrap(alt, some(4, 9)))),
        5 => Q::Star(bx(wrap(!alt, some(5, 9)))),
        _ => wrap(!alt, some(3, 9)),
    };
    let layout = if boot == 1 { Layout::Boot } else { Layout::Normal };
    let mut w = Written::new(layout);
    w.item(Item::Entry(id("s")));
    w.item(Item::Prod(id("s"), None, wrap(alt, v)));
    read(&w, mode)
}
/// C01/C02: texts of up to `n` rules, all but two of one kind.
fn h_long(n: u64, mode: u64) {
    let boot = (mode == 2) as u64;
    let n = 2 + sym::choose(n as u32 - 1) as usize;
    let (entry, kind) = (sym::choose(n as u32) as usize, sym::choose(2));
    let other = sym::choose(n as u32) as usize;
    let mut w = Written::new(if boot == 1 { Layout::Boot } else { [Layout::Normal, Layout::Lines][sym::choose(2) as usize] });
    for k in 0..n {
        let name = vec![97 + k as u32, 95];
        if k == entry { w.item(Item::Entry(name)) }
        else if (kind == 0) != (k == other) { w.item(Item::Token(name, None, Lit((0..k as u32 + 1).map(|i| 65 + i).collect()))) }
        else { w.item(Item::Prod(name, if boot == 1 { None } else { Some(vec![65 + k as u32]) }, Q::Id(vec![97 + k as u32]))) }
    }
    read(&w, mode)
}
/// C01: production patterns of every shape.
fn h_tree(depth: u64, leaves: u64, mode: u64) {
    let boot = (mode == 2) as u64;
    let mut l = leaves;
    let q = qtree(depth, &mut l, boot == 1);
    let layout = if boot == 1 { Layout::Boot } else { [Layout::Normal, Layout::Tight, Layout::Wide, Layout::Lines][sym::choose(4) as usize] };
    let mut w = Written::new(layout);
    w.item(Item::Entry(id("s")));
    w.item(Item::Prod(id("s"), None, q));
    w.item(Item::Prod(id("t"), None, Q::Id(id("a"))));
    read(&w, mode)
}
/// C01/C02: arbitrary names, in every place a name can stand.
fn h_name(pos: u64, k: u64, mode: u64) {
    let prefix = ["", "toke", "entr", "pro", "x"][sym::choose(5) as usize];
    let mut n = id(prefix);
    for _ in 0..k {
        let c = sym::u32(48, 122);
        let first = n.is_empty();
        sym::assume(((c >= 97) & (c <= 122)) | ((c >= 65) & (c <= 90)) | (!first & ((c == 95) | ((c >= 48) & (c <= 57)))));
        n.push(c);
    }
    for kw in ["token", "entry", "prod"] {
        if kw.len() == n.len() {
            let mut eq = true;
            for (a, b) in kw.bytes().zip(&n) { eq &= a as u32 == *b }
            sym::assume(!eq);
        }
    }
    let o = || id("other");
    let mut w = Written::new(Layout::Normal);
    w.item(Item::Entry(if pos == 0 { n.clone() } else { o() }));
    w.item(Item::Token(if pos == 1 { n.clone() } else { o() }, None, Lit(vec![97])));
    w.item(Item::Prod(if pos == 2 { n.clone() } else { o() }, if pos == 3 { Some(n.clone()) } else { None }, if pos == 4 { Q::Alt(vec![Q::Id(o()), Q::Opt(Box::new(Q::Id(n.clone())))]) } else { Q::Id(o()) }));
    read(&w, mode)
}
/// C01/C02: arbitrary characters in literals, with another rule behind on the same line.
fn h_literal(k: u64, place: u64, mode: u64) {
    let v: Vec<u32> = (0..k).map(|_| { let c = sym::scalar(1, 0x10ffff); sym::assume((c != 34) & (c != 92) & (c != 10)); c }).collect();
    let mut w = Written::new(Layout::Normal);
    match place {
        0 => { w.item(Item::Token(id("t"), Some(7), Lit(v))); w.item(Item::Entry(id("s"))); }
        _ => {
            // inside a regular expression, where only the span matters
            for c in &v { sym::assume((*c != 47) & ((*c >= 128) | (*c == 37) | (*c == 97) | (*c == 32))) }
            w.item(Item::Token(id("t"), None, Seq(v.into_iter().map(Ch).collect())));
            w.item(Item::Prod(id("s"), None, Q::Id(id("t"))));
            w.item(Item::Entry(id("s")));
        }
    }
    read(&w, mode)
}
/// C01/C02: escapes in literals: a backslash keeps the next character, n, r and t are the usual controls.
fn h_escape(k: u64, mode: u64) {
    let mut w = Written::new(Layout::Normal);
    w.item(Item::Entry(id("s")));
    let mut v = vec![];
    let mut raw = vec![];
    for _ in 0..k {
        let c = sym::scalar(1, 0x10ffff);
        if sym::choose(2) == 0 {
            sym::assume((c != 34) & (c != 92) & (c != 10));
            v.push(c);
        } else {
            raw.push(92);
            // letters other than these and digits are not used as escapes
            sym::assume((c == 110) | (c == 114) | (c == 116) | !(((c >= 97) & (c <= 122)) | ((c >= 65) & (c <= 90)) | ((c >= 48) & (c <= 57))));
            if c == 110 { v.push(10) } else if c == 114 { v.push(13) } else if c == 116 { v.push(9) } else { v.push(c) }
        }
        raw.push(c);
    }
    w.raw_literal(id("t"), raw, v);
    w.item(Item::Token(id("u"), None, Lit(vec![97])));
    read(&w, mode)
}
/// C01/C03: explicit precedences of `k` digits; what does not fit is an error.
fn h_number(k: u64, mode: u64) {
    let mut w = Written::new(Layout::Normal);
    w.item(Item::Entry(id("s")));
    let mut v = 0u32;
    let mut d = vec![];
    for i in 0..k {
        let c = sym::u32(48, 57);
        if i == 0 && k > 1 { sym::assume(c != 48) }
        v = v * 10 + (c - 48);
        d.push(c);
    }
    w.raw_precedence(id("t"), d, v);
    if v <= 65535 { sym::reach(2); read(&w, mode) } else {
        sym::reach(3);
        sym::check(GeneratedLapexInputParser.parse_lapex(&w.text).is_err(), 36);
    }
}
/// C01/C02: arbitrary whitespace between the tokens of a rule.
fn h_layout(k: u64, mode: u64) {
    let mut w = Written::new(Layout::Any(k, 1 + sym::choose(25)));
    w.item(Item::Token(id("t"), Some(3), Lit(vec![0xe9])));
    w.item(Item::Prod(id("s"), Some(id("g")), Q::Seq(vec![Q::Id(id("t")), Q::Star(Box::new(Q::Id(id("t"))))])));
    w.item(Item::Entry(id("s")));
    read(&w, mode)
}

fn answer(t: &str, boot: u64) -> bool {
    if boot == 1 { BootstrapLapexInputParser.parse_lapex(t).is_ok() } else { GeneratedLapexInputParser.parse_lapex(t).is_ok() }
}
/// C03: every text of `n` characters, with or without a beginning of a rule before it.
fn h_any(n: u64, boot: u64) {
    let start = ["", "token t = ", "token t [1", "prod s = ", "entry s; token t = \"", "entry s; token t = /", "prod s", "entry s;", "token t = \"a\";\n"][sym::choose(9) as usize];
    let mut v: Vec<u32> = id(start);
    for _ in 0..n { v.push(sym::scalar(1, 0x10ffff)) }
    // inside a regular expression only a few characters, other checks cover those
    if start.ends_with('/') { for c in &v[start.len()..] { sym::assume((*c < 128) & (*c > 31)) } }
    let mut t = String::new();
    for c in &v { t.push(sym::chr(*c)) }
    if sym::is_replay() { sym::note(&t) }
    let ok = answer(&t, boot);
    sym::reach(if ok { 2 } else { 1 });
    if boot == 0 { if let Some(want) = recognise::definition(&v) { sym::check(ok == want, 60) } }
    sym::observe(ok as u64);
}
pub const TEMPLATES: [&str; 6] = [
    "entry s;\ntoken A = \"a\";\nprod s = A;",
    "token A [1] = \"x\"; prod s [t] = (A | s)* A?; entry s;",
    "prod s = !; entry s; token Z = /z/;",
    "token A = \"\\\"\"; entry s; prod s = A+ (A A)? ((!) | s);",
    "entry a; prod a = b; prod b = a | (a a | (b)); ",
    "entry s;\n\ttoken A = /[a-c]+/;\nprod s = A;\n",
];
/// C03: one edit of a well-formed text: replace (0), insert (1), delete (2) or cut off (3).
fn h_edit(which: u64, op: u64, boot: u64) {
    let base: Vec<u32> = id(TEMPLATES[which as usize]);
    let at = sym::choose(base.len() as u32 + (op == 1) as u32) as usize;
    let mut v = base.clone();
    // between the slashes of a regular expression only ASCII: error messages quote the text, one path per printable class
    let open = base.iter().position(|c| *c == 47);
    let inside = open.is_some_and(|o| at > o && base[at..].contains(&47));
    let arbitrary = || if inside { sym::u32(1, 127) } else { sym::scalar(1, 0x10ffff) };
    match op {
        0 => v[at] = arbitrary(),
        1 => v.insert(at, arbitrary()),
        2 => { v.remove(at); }
        _ => v.truncate(at),
    }
    let mut t = String::new();
    for c in &v { t.push(sym::chr(*c)) }
    if sym::is_replay() { sym::note(&t) }
    let ok = answer(&t, boot);
    sym::reach(if ok { 2 } else { 1 });
    if boot == 0 { if let Some(want) = recognise::definition(&v) { sym::check(ok == want, 61) } }
    sym::observe(ok as u64);
}

/// C03: regular expressions with everything their syntax has to offer: an answer, never a panic.
fn h_inside(which: u64, boot: u64) {
    let c = |lo: char, hi: char| sym::u32(lo as u32, hi as u32);
    let letter = || { let x = sym::u32(65, 122); sym::assume((x <= 90) | (x >= 97)); x };
    let mut re: Vec<u32> = vec![];
    let put = |re: &mut Vec<u32>, s: &str| re.extend(s.chars().map(|c| c as u32));
    match which {
        // flags for a group
        0 => {
            put(&mut re, ["(?", "(?-", "(?i-", "(?s-u"][sym::choose(4) as usize]);
            re.push(letter());
            put(&mut re, [":a)", ":[a-c])", ":.)", ":^a$)", ":\\xff)", ")[^b]", ":\\w)", ":(a|b)*?)"][sym::choose(8) as usize]);
        }
        // escapes of letters and digits
        1 => {
            re.push(92);
            let x = sym::u32(48, 122);
            re.push(x);
            put(&mut re, ["", "a", "{a}", "{L}"][sym::choose(4) as usize]);
        }
        // anchors and boundaries in every place
        2 => {
            let look = ["^", "$", "\\b", "\\B", "\\A", "\\z", "(?m:^)", "(?m:$)", "\\b{start}", "\\b{end}", "\\b{start-half}", "(?R:$)", "(?mR:^)"][sym::choose(13) as usize];
            let (a, b) = [("", ""), ("a", ""), ("", "a"), ("a", "b"), ("(a|", ")"), ("(", ")*"), ("(?P<x>", "){2}")][sym::choose(7) as usize];
            put(&mut re, a);
            put(&mut re, look);
            put(&mut re, b);
        }
        // repetitions of all kinds
        3 => {
            put(&mut re, ["a", "(a|b)", "[a-c]", ".", "()", "(?:)"][sym::choose(6) as usize]);
            match sym::choose(4) {
                0 => { put(&mut re, "{"); re.push(c('0', '9')); put(&mut re, "}") }
                1 => { put(&mut re, "{"); re.push(c('0', '9')); put(&mut re, ",}") }
                2 => { put(&mut re, "{"); re.push(c('0', '9')); put(&mut re, ","); re.push(c('0', '9')); put(&mut re, "}") }
                _ => put(&mut re, ["*", "+", "?", "{,2}", "{2", "**", "{2}{3}"][sym::choose(7) as usize]),
            }
            put(&mut re, ["", "?", "+", "*"][sym::choose(4) as usize]);
        }
        // sets made from sets
        4 => {
            let set = || ["a", "[a-c]", "[^b]", "a-f", "[:alpha:]", "\\d", "^", "[^\\x00-\\x{10ffff}]"][sym::choose(8) as usize];
            let (x, y) = (set(), set());
            put(&mut re, "[");
            put(&mut re, x);
            put(&mut re, ["", "&&", "--", "~~"][sym::choose(4) as usize]);
            put(&mut re, y);
            put(&mut re, "]");
        }
        // groups
        _ => {
            put(&mut re, ["(", "(?:", "(?P<n>", "(?<n>", "(?<n", "(?=", "(?!", "(?<=", "(?#", "(?x) ("][sym::choose(10) as usize]);
            re.push(c('!', '~'));
            put(&mut re, [")", "", "))", "|)"][sym::choose(4) as usize]);
        }
    }
    let mut w = Written::new(if boot == 1 { Layout::Boot } else { Layout::Normal });
    w.item(Item::Entry(id("s")));
    w.raw_regex(id("t"), re);
    if sym::is_replay() { sym::note(&w.text) }
    let ok = answer(&w.text, boot);
    sym::reach(if ok { 2 } else { 1 });
    // what looks around cannot be matched by itself
    if which == 2 && boot == 0 { sym::check(!ok, 62) }
    sym::observe(ok as u64);
}

/// C05: the automaton of a token rule read from text against the matcher over the tree the text was written from.
fn check_regex(p: &P, re: Vec<u32>, strlen: u64) {
    let mut w = Written::new(Layout::Normal);
    w.item(Item::Entry(id("s")));
    w.raw_regex(id("t"), re);
    if sym::is_replay() { sym::note(&w.text) }
    let r = match GeneratedLapexInputParser.parse_lapex(&w.text) { Ok(r) => r, Err(_) => return sym::fail(70) };
    if r.token_rules.len() != 1 { return sym::fail(71) }
    let rules: &[Spanned<TokenRule>] = &r.token_rules;
    sym::fork_select(true);
    let alpha = generate_alphabet(rules);
    let (s, nfa) = generate_nfa(&alpha, rules);
    let dfa = nfa.powerset_construction(s);
    sym::fork_select(false);
    let a = flatten(&dfa, alpha.get_ranges(), |v: &Vec<&Spanned<TokenRule>>| v.iter().map(|_| 0).collect());
    sym::reach(1);
    let cs = string(strlen as usize);
    let st = run(&a, &cs);
    let want = m(p, 1, &cs);
    let k = accmask(&a, 0);
    for i in 0..=strlen as usize { sym::check(((st[i] & k) != 0) as u64 == (want >> i) & 1, 72) }
    // the rule's precedence is the least number of characters it can match
    sym::check(r.token_rules[0].inner.precedence() == prec(p), 73);
    sym::observe(a.n as u64);
}
fn rleaf(leaves: &mut u64) -> P {
    *leaves -= 1;
    match sym::choose(8) {
        0 => Ch(97),
        1 => Ch(98),
        2 => Set(vec![(97, 99)], false),
        3 => Set(vec![(97, 97)], true),
        4 => Set(vec![(10, 10)], true),
        5 => Seq(vec![]),
        6 => Ch('.' as u32),
        _ => Set(vec![(98, 99), (45, 45), (93, 93)], true),
    }
}
fn rtree(depth: u64, leaves: &mut u64) -> P {
    if depth == 0 || *leaves == 0 {
        if *leaves == 0 { *leaves = 1 }
        return rleaf(leaves);
    }
    match sym::choose(if *leaves >= 2 { 4 } else { 2 }) {
        0 => rleaf(leaves),
        1 => {
            let (a, b) = [(0, None), (1, None), (0, Some(1)), (2, None), (2, Some(2)), (1, Some(3)), (0, Some(0))][sym::choose(7) as usize];
            Rep(a, b, Box::new(rtree(depth - 1, leaves)))
        }
        k => {
            *leaves -= 1;
            let x = rtree(depth - 1, leaves);
            *leaves += 1;
            let y = rtree(depth - 1, leaves);
            if k == 2 { Seq(vec![x, y]) } else { Alt(vec![x, y]) }
        }
    }
}
fn h_regex(depth: u64, leaves: u64, strlen: u64) {
    let mut l = leaves;
    let p = rtree(depth, &mut l);
    let mut re = vec![];
    regex(&p, 0, &mut re);
    check_regex(&p, re, strlen)
}
/// C05: arbitrary characters in regular expressions.
fn h_regexsym(which: u64, strlen: u64) {
    let plain = || {
        let c = sym::scalar(1, 0x10ffff);
        // not a character with a meaning of its own in a regular expression
        for x in "\\.+*?()|[]{}^$/\n".bytes() { sym::assume(c != x as u32) }
        c
    };
    let bx = Box::new;
    let (p, re): (P, Vec<u32>) = match which {
        0 => { let c = plain(); (Ch(c), vec![c]) }
        1 => { let (a, b) = (plain(), plain()); (Seq(vec![Ch(a), Rep(0, None, bx(Ch(b)))]), vec![a, b, '*' as u32]) }
        2 => { let (a, b) = (plain(), plain()); (Alt(vec![Ch(a), Seq(vec![Ch(b), Ch(a)])]), vec![a, '|' as u32, b, a]) }
        3 => { let c = plain(); (Seq(vec![Set(vec![(10, 10)], true), Ch(c)]), vec!['.' as u32, c]) }
        4 => {
            // escaped punctuation
            let c = sym::u32(33, 126);
            sym::assume(!(((c >= 48) & (c <= 57)) | ((c >= 65) & (c <= 90)) | ((c >= 97) & (c <= 122)) | (c == 60) | (c == 62)));
            (Rep(1, None, bx(Ch(c))), vec![92, c, '+' as u32])
        }
        5 => {
            // \x{hhhh}
            let mut v = vec![92, 120, 123];
            let mut n = 0;
            for _ in 0..4 {
                let c = sym::u32(48, 102);
                sym::assume(((c >= 48) & (c <= 57)) | ((c >= 97) & (c <= 102)));
                n = n * 16 + if c <= 57 { c - 48 } else { c - 87 };
                v.push(c);
            }
            sym::assume((n < 0xd800) | (n > 0xdfff));
            v.push(125);
            (Ch(n), v)
        }
        _ => {
            let (c, d) = [('n', 10), ('t', 9), ('r', 13), ('f', 12), ('v', 11), ('a', 7)][sym::choose(6) as usize];
            (Seq(vec![Ch(d), Ch(97)]), vec![92, c as u32, 97])
        }
    };
    check_regex(&p, re, strlen)
}
/// C05: classes of up to `n` arbitrary characters or ranges, negated or not.
fn h_class(n: u64, strlen: u64) {
    let neg = sym::choose(2) == 1;
    let mut re = vec!['[' as u32];
    if neg { re.push('^' as u32) }
    let mut v = vec![];
    let c = || {
        let c = sym::scalar(1, 0x10ffff);
        for x in "\\[]^-&~/\n".bytes() { sym::assume(c != x as u32) }
        c
    };
    for _ in 0..n {
        let a = c();
        re.push(a);
        if sym::choose(2) == 1 {
            let b = c();
            sym::assume(a <= b);
            re.push('-' as u32);
            re.push(b);
            v.push((a, b));
        } else { v.push((a, a)) }
    }
    re.push(']' as u32);
    check_regex(&Set(v, neg), re, strlen)
}

/// C05: the rest of the notation: groups, flags, set operations, named classes, lazy repetitions, longer escapes.
fn h_syntax(strlen: u64) {
    let bx = Box::new;
    let r = |a: char, b: char| (a as u32, b as u32);
    let set = |v: &[(u32, u32)]| Set(v.to_vec(), false);
    let not = |v: &[(u32, u32)]| Set(v.to_vec(), true);
    let ch = |c: char| Ch(c as u32);
    let ab = || Alt(vec![Ch(97), Seq(vec![Ch(98), Ch(99)])]);
    let (re, p): (&str, P) = match sym::choose(34) {
        0 => ("(a)", ch('a')),
        1 => ("(?:a|bc)", ab()),
        2 => ("(?P<name>a|bc)", ab()),
        3 => ("(?<name>a|bc)", ab()),
        4 => ("(?i:a)", set(&[r('a', 'a'), r('A', 'A')])),
        5 => ("(?i)b", set(&[r('b', 'b'), r('B', 'B')])),
        6 => ("(?s-i:a)", ch('a')),
        7 => ("(?s:.)", not(&[])),
        8 => ("(?x: a  b )", Seq(vec![ch('a'), ch('b')])),
        9 => ("(?U:a*)", Rep(0, None, bx(ch('a')))),
        10 => ("a*?", Rep(0, None, bx(ch('a')))),
        11 => ("(?:a|bc)+?", Rep(1, None, bx(ab()))),
        12 => ("a??", Rep(0, Some(1), bx(ch('a')))),
        13 => ("a{1,2}?", Rep(1, Some(2), bx(ch('a')))),
        14 => ("a{0}", Rep(0, Some(0), bx(ch('a')))),
        15 => ("[a-f&&[c-z]]", set(&[r('c', 'f')])),
        16 => ("[a-f--[c-d]]", set(&[r('a', 'b'), r('e', 'f')])),
        17 => ("[a-d~~[c-f]]", set(&[r('a', 'b'), r('e', 'f')])),
        18 => ("[a-c[x-z]]", set(&[r('a', 'c'), r('x', 'z')])),
        19 => ("[^a-c&&b-z]", not(&[r('b', 'c')])),
        20 => ("[[:digit:]]", set(&[r('0', '9')])),
        21 => ("[[:^digit:]]", not(&[r('0', '9')])),
        22 => ("[[:alpha:]_]", set(&[r('a', 'z'), r('A', 'Z'), r('_', '_')])),
        23 => ("[[:xdigit:]]", set(&[r('a', 'f'), r('A', 'F'), r('0', '9')])),
        24 => ("[]a]", set(&[r(']', ']'), r('a', 'a')])),
        25 => ("[a-]", set(&[r('a', 'a'), r('-', '-')])),
        26 => ("[^^]", not(&[r('^', '^')])),
        27 => ("\\x61", ch('a')),
        28 => ("\\u20AC", Ch(0x20ac)),
        29 => ("\\U0001F600", Ch(0x1f600)),
        30 => ("\\x{10FFFF}", Ch(0x10ffff)),
        31 => ("[\\x00-\\x{10FFFF}]", not(&[])),
        32 => ("(?R:.)", not(&[(10, 10), (13, 13)])),
        _ => ("(|a)", Alt(vec![Seq(vec![]), ch('a')])),
    };
    let lazy = re.contains("U:") || (re.ends_with('?') && re.len() > 2);
    let (re, p) = match sym::choose(3) {
        0 => (re.to_string(), p),
        1 => (format!("(?:{})*", re), Rep(0, None, bx(p))),
        _ => (format!("(?:{}){{2}}b", re), Seq(vec![Rep(2, Some(2), bx(p)), ch('b')])),
    };
    if lazy {
        // an automaton that looks for the longest match cannot prefer the shortest
        let mut w = Written::new(Layout::Normal);
        w.item(Item::Entry(id("s")));
        w.raw_regex(id("t"), id(&re));
        if sym::is_replay() { sym::note(&w.text) }
        sym::check(GeneratedLapexInputParser.parse_lapex(&w.text).is_err(), 74);
        return sym::reach(2);
    }
    check_regex(&p, id(&re), strlen)
}
