#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe])))
LEX = ["lapex-lexer/src/alphabet.rs", "lapex-lexer/src/nfa/mod.rs", "lapex-lexer/src/lib.rs", "lapex-automaton/src/lib.rs"]
LR = ["lapex-parser/src/lr_parser/mod.rs", "lapex-parser/src/lr_parser/item.rs", "lapex-parser/src/util.rs", "lapex-parser/src/grammar.rs", "lapex-parser/src/grammar_builder.rs"]

prop("C10", "The lexer alphabet partitions all of Unicode",
 "For every set of token rules, the alphabet the generator derives is a gap-free, overlap-free, ascending list of code point ranges covering U+0000 to U+10FFFF, every character named in a rule (including both ends of a range) is told apart from its neighbours outside the rule's sets, and looking up any code point returns exactly the range that contains it.",
 ["inputs", "programs"], "All token rule sets with up to the stated number of characters (any Unicode scalar values), all code points looked up.",
 "Tests use a handful of ASCII patterns; boundary coincidences (adjacent, equal, U+0000 and U+10FFFF characters) are never sampled.",
 LEX[:1], [("range construction and lookup", "lapex-lexer/src/alphabet.rs: generate_alphabet, Alphabet::find_range")],
 "generate_alphabet, Alphabet::find_range, Alphabet::get_ranges")
prop("C11", "The lexer automaton recognises exactly the declared patterns",
 "For every set of token rules and every string of Unicode scalar values, the deterministic automaton ends in a state accepting a rule if and only if the whole string matches that rule's pattern (literal, sequence, alternative, bounded or unbounded repetition, character class, negated class). From no state do two transitions carry the same alphabet symbol, and every pattern the input format can express is converted without failing.",
 ["programs", "inputs"], "All pattern trees up to the stated depth and width with arbitrary characters and repetition bounds, and all strings up to the stated length.",
 "Existing tests check a few fixed patterns' automaton shape; language equality needs all strings and all pattern shapes.",
 LEX, [("Thompson construction", "lapex-lexer/src/nfa/mod.rs: build_nfa_from_pattern"), ("powerset construction", "lapex-automaton/src/lib.rs: powerset_construction")],
 "generate_nfa(..).powerset_construction(..)")
prop("C12", "Token precedence picks the unique winner and ties are reported",
 "Whenever a string matches several token rules, the automaton labels it with the one of highest precedence, where an explicit precedence is taken as given and the default is twice the length for a literal and the minimum number of characters for a pattern. If and only if some string has two or more matching rules tied at its highest precedence, generation fails with an error, and that error names rules that really tie (all of those tied on some string) and their precedence.",
 ["programs", "inputs"], "All pairs/triples of bounded token rules with arbitrary explicit precedences 0..65535 or none, all bounded strings.",
 "No existing test exercises precedence; the property relates every rule set to every string it can match.",
 LEX[2:3] + ["lapex-input/src/lib.rs"], [("precedence resolution", "lapex-lexer/src/lib.rs: apply_precedence_to_dfa, resolve_precedence"), ("default precedence", "lapex-input/src/lib.rs: TokenRule::precedence")],
 "apply_precedence_to_dfa")
prop("C13", "The generated Rust lexer tokenises by longest prefix and reports errors exactly",
 "For every text without U+0000, the generated Rust lexer returns the token sequence obtained by repeatedly extending the current match as long as the automaton can move and then taking that state's token, with each token's slice and span (byte offsets) equal to the exact text consumed. Slices of consecutive tokens are contiguous, the end of input is reported as the end token, and a position at which no token can be completed yields an error and not a wrong token or a panic.",
 ["inputs", "programs"], "All texts up to the stated number of arbitrary characters for each lexer definition of the corpus.",
 "No existing test runs a generated lexer.",
 ["lapex-rust-codegen/src/lexer/mod.rs"], [("lexer code generation", "lapex-rust-codegen/src/lexer/mod.rs")], "the generated module's Lexer::new, next, slice, span")
prop("C14", "The generated C++ lexer tokenises UTF-8 exactly and rejects bad bytes",
 "For every UTF-8 text without U+0000, the generated C++ lexer returns the token sequence obtained by repeatedly extending the current match as long as a rule can go on and then taking the token of highest precedence; start() and end() are the places (counted in characters) where that match begins and ends, and the end of input is reported as the end token, as often as it is asked for. A place at which no token can be completed yields the error token. For every byte string, malformed UTF-8 (truncated, overlong, surrogate, out of range) yields the error token, no token reaches into it, and the end of input is reported only if there was none. It never reads past the end of its input and never loops forever.",
 ["inputs", "programs"], "All texts up to the stated number of characters and all byte strings up to the stated length for each lexer definition of the corpus.",
 "No existing test compiles or runs generated C++.",
 ["lapex-cpp-codegen/src/lexer/mod.rs", "lapex-cpp-codegen/src/lexer/lexer.cpp.tpl"], [("C++ lexer generation", "lapex-cpp-codegen/src/lexer/mod.rs")], "the generated Lexer::next, start, end")
prop("C20", "Lowering EBNF rules to plain productions preserves the language",
 "For every rule set, the plain grammar built from it derives from each named rule exactly the token sequences the EBNF text denotes (sequence, alternatives, ?, *, +, the empty pattern, several rules of the same name), with helper symbols distinct from all declared ones. References to undeclared names, and names declared both as tokens or as token and rule, are reported as errors and never silently accepted.",
 ["programs", "inputs"], "All rule sets of the stated size with arbitrary EBNF nesting up to the stated depth, and all token strings up to the stated length.",
 "Existing tests check one small grammar; helper-symbol collisions and nesting need all shapes.",
 LR[3:], [("EBNF lowering", "lapex-parser/src/grammar_builder.rs: transform_pattern")], "Grammar::from_rule_set, Grammar::rules")
prop("C21", "LR tables drive a parse that accepts exactly the grammar's language",
 "For every conflict-free grammar whose symbols all derive some token string, driving a shift-reduce automaton with the generated LR(0), LALR(1) or LR(1) table terminates and accepts a token string if and only if the grammar derives it. Each reduction on the way pops exactly the right-hand side of its production from the stack, so the accepted parse is a real derivation of the whole input.",
 ["programs", "inputs"], "All grammars of the stated families (two rules with two alternatives over two or three tokens, plus the curated corpus) and all token strings up to the stated length.",
 "Existing tests only build tables or parse one file; acceptance must hold for every string.",
 LR, [("item set construction", "lapex-parser/src/lr_parser/mod.rs: generate_parser_graph, expand_item"), ("table construction", "lapex-parser/src/lr_parser/mod.rs: build_table")], "lr_parser::generate_table, ActionGotoTable")
prop("C22", "LR conflicts are reported exactly for grammars outside the class",
 "For every grammar, LR(1), LALR(1) and LR(0) generation reports a conflict if and only if the textbook automaton of that class has one; in particular no ambiguous grammar is accepted silently. Without permission to continue a conflicting grammar yields no table, and reported conflicts name productions of the grammar that really compete.",
 ["programs"], "All grammars of the stated families.",
 "Existing tests never provoke a conflict; exactness quantifies over all grammars.",
 LR, [("conflict detection", "lapex-parser/src/lr_parser/mod.rs: find_conflicts")], "lr_parser::generate_table -> GenerationResult")
prop("C23", "LL(1) tables and conflicts are exact",
 "For every grammar, LL(1) generation succeeds if and only if no two productions of a symbol are predicted by the same lookahead, and otherwise reports a conflict naming two competing productions. When it succeeds, the predictive parse driven by the table accepts exactly the token strings the grammar derives.",
 ["programs", "inputs"], "All grammars of the stated families, all token strings up to the stated length.",
 "There is no LL test at all.",
 ["lapex-parser/src/ll_parser/mod.rs", "lapex-parser/src/util.rs"], [("first/follow and table", "lapex-parser/src/ll_parser/mod.rs: generate_table")], "ll_parser::generate_table, LLParserTable::get_production")
prop("C24", "Generated Rust LR parsers accept the language and call the visitor faithfully",
 "For each conflict-free grammar, the generated Rust parser compiles, accepts a token sequence if and only if the grammar derives it, and reports every other sequence as an error without panicking or looping. Its visitor sees each token exactly once in input order and each reduction exactly once in bottom-up order with the parse tree's children counts, under the production's own name or tag.",
 ["inputs", "programs"], "All token sequences up to the stated length for each grammar of the corpus.",
 "Only the input-file grammar's parser is ever run.",
 ["lapex-rust-codegen/src/lr_parser/mod.rs"], [("LR code generation", "lapex-rust-codegen/src/lr_parser/mod.rs")], "generated Parser::parse and Visitor")
prop("C25", "Generated Rust GLR parsers find every token string of any grammar",
 "For each grammar of the corpus, conflicting or not, the generated Rust GLR parser compiles, accepts exactly the token sequences the grammar derives and reports all others as errors without panicking or looping, naming the first token no string of the grammar has at that place. For an accepted input its visitor sees one derivation of it, each token once in order and each reduction once bottom-up.",
 ["inputs", "programs"], "All token sequences up to the stated length for each grammar of the corpus.",
 "No existing test generates a GLR parser.",
 ["lapex-rust-codegen/src/glr_parser/mod.rs"], [("GLR code generation", "lapex-rust-codegen/src/glr_parser/mod.rs")], "generated Parser::parse and Visitor")
prop("C26", "Generated C++ LR parsers accept the language and call the visitor faithfully",
 "For each conflict-free grammar, the generated C++ LR parser compiles, accepts exactly the token sequences the grammar derives and reports all others through its error report. Its visitor sees each token exactly once in input order and each reduction exactly once, bottom-up.",
 ["inputs", "programs"], "All token sequences up to the stated length for each grammar of the corpus.",
 "No existing test compiles or runs generated C++.",
 ["lapex-cpp-codegen/src/lr_parser/mod.rs", "lapex-cpp-codegen/src/lr_parser/action_goto.rs"], [("C++ LR generation", "lapex-cpp-codegen/src/lr_parser")], "generated parser<T>::parse")
prop("C27", "Generated C++ LL parsers accept the language and call the visitor faithfully",
 "For each LL(1) grammar, the generated C++ LL parser compiles, accepts exactly the token sequences the grammar derives and reports all others as errors. Its visitor sees each token once in input order between the enter and exit calls of the rules that derive it; these nest, and what lies between enter and exit of a rule is one of its right-hand sides.",
 ["inputs", "programs"], "All token sequences up to the stated length for each grammar of the corpus.",
 "No existing test compiles or runs generated C++.",
 ["lapex-cpp-codegen/src/ll_parser/mod.rs"], [("C++ LL generation", "lapex-cpp-codegen/src/ll_parser")], "generated parser<T>::parse")
prop("C01", "Reading a definition file loses, invents and reorders nothing",
 "For every well-formed definition text, the parser returns exactly the written token rules, production rules and entry in source order, each with its written name, tag, precedence and pattern structure (grouping, ?, *, +, alternatives in order, literal characters, the empty pattern).",
 ["inputs"], "All well-formed definition texts of the stated shapes with arbitrary names, literal characters and operators up to the stated size.",
 "One fixed file is parsed in the tests.",
 ["lapex-input-gen/src/lib.rs"], [("definition parser", "lapex-input-gen/src/lib.rs"), ("definition grammar", "lapex-input-gen/src/lapex.lapex")], "GeneratedLapexInputParser::parse_lapex")
prop("C03", "Any text is answered with a rule set or an error, never a crash",
 "For every text, reading it as a definition file returns either a rule set or an error value; it never panics or loops. Texts that are not in the definition language are answered with an error.",
 ["inputs"], "All texts up to the stated length and all single edits of well-formed texts within the stated bounds.",
 "Tests only read well-formed files.",
 ["lapex-input-gen/src/lib.rs"], [("error paths", "lapex-input-gen/src/lib.rs: parse_lapex")], "GeneratedLapexInputParser::parse_lapex")
prop("C05", "Regular expressions in token rules mean what regex syntax says",
 "For every supported regular expression written in a token rule, the token matches exactly the strings the expression denotes: literals, escapes, dot, classes, negated classes and set operations, groups and flags, alternatives, and the ?, *, +, {n}, {n,} and {n,m} repetitions. What an automaton for the longest match cannot express (lazy repetitions, anchors and word boundaries) is refused with an error.",
 ["inputs", "programs"], "All expressions of the stated shapes with symbolic characters and bounds, all strings up to the stated length.",
 "One file's regexes are parsed in the tests and never matched against text.",
 ["lapex-input-gen/src/lib.rs"], [("regex conversion", "lapex-input-gen/src/lib.rs")], "parse_lapex followed by generate_nfa/powerset_construction")
prop("C06", "A source span selects exactly the text between its positions",
 "For every text and every span, taking the span's substring returns the characters from its start to its end position, lines and columns counted from 1 in characters and lines ended by a newline; a position that does not exist in the text yields nothing.",
 ["inputs"], "All texts up to the stated length over any Unicode characters, all positions.",
 "No test covers spans.",
 ["lapex-input/src/lib.rs"], [("position to offset", "lapex-input/src/lib.rs: SourcePos::offset, SourceSpan::substring")], "SourceSpan::substring")
prop("C02", "Rule spans point at the rule they describe",
 "For every well-formed definition text, the span recorded for each token rule, production rule and entry selects exactly that item's own text in the source, also after non-ASCII characters and across lines.",
 ["inputs"], "All well-formed texts of the stated shapes with arbitrary characters and layout.",
 "No test looks at spans.",
 ["lapex-input-gen/src/lib.rs"], [("span tracking", "lapex-input-gen/src/lib.rs")], "parse_lapex then Spanned::span.substring")
prop("C28", "Every definition file is answered with its files or with errors",
 "For every definition file and every choice of algorithm, language and options that is implemented, generating into an existing folder either succeeds or returns at least one error that can be displayed; it never panics. It succeeds if and only if the text is a definition whose names are all declared and declared once, whose token rules have no ties (when a lexer is asked for) and whose grammar has no conflicts for the chosen algorithm (GLR admits all). On success exactly the files asked for exist: tokens and parser, the lexer and the table only if asked for, and they hold what the chosen generator writes for the chosen kind of table. Errors about tied tokens, conflicting rules and grammar conflicts show the lines of rules that really are in conflict, and the definition itself is left as it is.",
 ["inputs", "programs"], "All definitions, options and edits within the stated bounds, with the whole of generation executed on each.",
 "No test calls generate().",
 ["lapex/src/lib.rs", "lapex/src/errors.rs", "lapex-codegen/src/lib.rs"], [("driver", "lapex/src/lib.rs: generate_lexer_and_parser"), ("errors", "lapex/src/errors.rs")], "lapex::generate")
prop("C29", "The printed parser table is the table the parser is made from",
 "For every grammar and each of the LR(0), LALR(1), LR(1) and GLR tables, the table file written on request lists every production of the grammar once with its number, and for each state shows under each token, the end of input and each rule symbol exactly the table's entry: the state shifted to, the number of the production reduced, accept, error, nothing, or that there is a conflict.",
 ["programs"], "All grammars of the stated families, every state and symbol of their tables, with the printing executed.",
 "No test prints a table.",
 ["lapex-parser/src/lr_parser/mod.rs"], [("printing", "lapex-parser/src/lr_parser/mod.rs: output_table"), ("names", "lapex-parser/src/grammar.rs: get_symbol_name, RuleDisplay")], "generate_table and output_table")
prop("C30", "Error reports show where and between what a conflict is",
 "For every definition that is refused for conflicts, tied tokens or names declared twice, each displayed report gives for every rule concerned the file, the line and column at which that rule's text begins, and the text itself; an LR report shows the completed production and, for shift/reduce, the token it really competes for; productions that compete for a reduction are shown together; an LL(1) report names symbol, token and two right-hand sides it predicts; a tie names all tied tokens; an undeclared name is given.",
 ["inputs", "programs"], "All definitions of the stated families and layouts, from the text to the displayed report.",
 "No test looks at an error's text.",
 ["lapex/src/errors.rs"], [("reports", "lapex/src/errors.rs: LapexError, write_section"), ("items", "lapex-parser/src/lr_parser/item.rs: ItemDisplay")], "lapex::generate and the Display of its errors")
os.makedirs("/verif", exist_ok=True)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in sorted(P, key=lambda p: p["id"]):
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
