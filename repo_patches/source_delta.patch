From 1aa2f274e20927ef3a78f5b48b4ed2fd346fa19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:27 +0000
Subject: [PATCH 01/17] fix: convert repetitions with equal bounds instead of
 panicking

---
 lapex-lexer/src/nfa/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 631f861..3a8f585 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -105,6 +105,9 @@ fn build_nfa_from_pattern<'rules>(
                             nfa.add_epsilon_transition(inner_end, previous);
                             nfa.add_epsilon_transition(inner_end, end);
                         }
+                        Some(max) if max == min => {
+                            nfa.add_epsilon_transition(inner_end, end);
+                        }
                         Some(max) => {
                             let additional_until_max = max - min;
                             let max_start = nfa.add_intermediate_state();
-- 
2.43.0


From f33597d8d82f55827cf78f050132669172014db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 02/17] fix: drop the empty pattern next to other symbols of a
 production

---
 lapex-parser/src/grammar.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lapex-parser/src/grammar.rs b/lapex-parser/src/grammar.rs
index 200fb97..2585514 100644
--- a/lapex-parser/src/grammar.rs
+++ b/lapex-parser/src/grammar.rs
@@ -77,6 +77,13 @@ impl<'rules> Rule<'rules> {
             Symbol::NonTerminal(i) => Some(i),
             _ => None,
         };
+        // epsilon only stands on its own, next to other symbols it derives nothing
+        let mut rhs = rhs;
+        if rhs.iter().any(|symbol| *symbol != Symbol::Epsilon) {
+            rhs.retain(|symbol| *symbol != Symbol::Epsilon);
+        } else {
+            rhs.truncate(1);
+        }
         if let Some(non_terminal_index) = non_terminal_index {
             Ok(Rule {
                 lhs: Some(non_terminal_index),
-- 
2.43.0


From 9074a775fefbfaeace5bc5e48c9ab310e3a27229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:42 +0000
Subject: [PATCH 03/17] fix: LR(0) reductions do not compete with gotos

---
 lapex-parser/src/lr_parser/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index 2162ba7..bb805fa 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -314,7 +314,7 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else {
+                    } else if let Symbol::Terminal(_) = edge.weight() {
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -494,7 +494,7 @@ fn build_table<'grammar, 'rules, const N: usize>(
             if item.symbol_after_dot().is_none() {
                 match N {
                     0 => {
-                        for symbol in grammar.symbols().chain(std::iter::once(Symbol::End)) {
+                        for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
                             table.insert_reduce(*state, symbol, item.rule())
                         }
                     }
-- 
2.43.0


From c1a3620ec4324af5a9896171370a60e3bbc9b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:44 +0000
Subject: [PATCH 04/17] fix: report LL(1) conflicts only between different
 productions

---
 lapex-parser/src/ll_parser/mod.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/lapex-parser/src/ll_parser/mod.rs b/lapex-parser/src/ll_parser/mod.rs
index 6b768c6..2716de0 100644
--- a/lapex-parser/src/ll_parser/mod.rs
+++ b/lapex-parser/src/ll_parser/mod.rs
@@ -183,8 +183,13 @@ pub fn generate_table(grammar: &Grammar) -> Result<LLParserTable, LLParserError>
     let follow_sets = compute_follow_sets(&grammar, &first_sets);
     let mut parser_table = LLParserTable::new();
     for rule in grammar.rules() {
-        let first_set_of_rhs = get_first_terminals_of_sequence(rule.rhs(), &first_sets);
-        for symbol in first_set_of_rhs.iter() {
+        // a lookahead in both sets predicts the rule once, it does not compete with itself
+        let mut predicting_symbols = get_first_terminals_of_sequence(rule.rhs(), &first_sets);
+        if predicting_symbols.contains(&Symbol::Epsilon) {
+            let follow_set_of_lhs = follow_sets.get(&rule.lhs().unwrap()).unwrap();
+            predicting_symbols.extend(follow_set_of_lhs.iter());
+        }
+        for symbol in predicting_symbols.iter() {
             match symbol {
                 Symbol::End | Symbol::Terminal(_) => {
                     parser_table.insert(rule.lhs().unwrap(), *symbol, rule.rhs().clone())?;
@@ -192,17 +197,6 @@ pub fn generate_table(grammar: &Grammar) -> Result<LLParserTable, LLParserError>
                 _ => (),
             }
         }
-        if first_set_of_rhs.contains(&Symbol::Epsilon) {
-            let follow_set_of_lhs = follow_sets.get(&rule.lhs().unwrap()).unwrap();
-            for symbol in follow_set_of_lhs.iter() {
-                match symbol {
-                    Symbol::End | Symbol::Terminal(_) => {
-                        parser_table.insert(rule.lhs().unwrap(), *symbol, rule.rhs().clone())?;
-                    }
-                    _ => (),
-                }
-            }
-        }
     }
     Ok(parser_table)
 }
-- 
2.43.0


From 4937b7b828f5d2150089db65f692018a8cb4552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:39 +0000
Subject: [PATCH 05/17] fix: accept at the end of input instead of on the first
 reduction to the entry symbol

---
 .../src/lr_parser/action_goto.rs              | 16 +--
 .../src/lr_parser/parser_impl.h.tpl           | 20 ++--
 lapex-parser/src/lr_parser/mod.rs             | 37 ++++---
 lapex-rust-codegen/src/glr_parser/mod.rs      | 99 +++++++++----------
 lapex-rust-codegen/src/lr_parser/mod.rs       | 26 +++--
 5 files changed, 94 insertions(+), 104 deletions(-)

diff --git a/lapex-cpp-codegen/src/lr_parser/action_goto.rs b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
index 1f3f884..39ea251 100644
--- a/lapex-cpp-codegen/src/lr_parser/action_goto.rs
+++ b/lapex-cpp-codegen/src/lr_parser/action_goto.rs
@@ -39,7 +39,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Accept => {
+            TableEntry::Shift { target: _ } => {
                 write!(output, "case ")?;
 
                 if let Symbol::NonTerminal(_) = symbol {
@@ -67,11 +67,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         writeln!(output, "{{")?;
         match entry {
             TableEntry::Shift { target } => {
-                writeln!(output, "Transition transition{{{}, false}};", target)?;
-                writeln!(output, "return transition;")?;
-            }
-            TableEntry::Accept => {
-                writeln!(output, "Transition transition{{0, true}};")?;
+                writeln!(output, "Transition transition{{{}}};", target)?;
                 writeln!(output, "return transition;")?;
             }
             _ => (),
@@ -137,6 +133,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 writeln!(output, "Action act{{ActionType::Reduce, {}}};", rule_index)?;
                 writeln!(output, "return act;")?;
             }
+            TableEntry::Accept => {
+                writeln!(output, "Action act{{ActionType::Accept, 0}};")?;
+                writeln!(output, "return act;")?;
+            }
             _ => (),
         }
         writeln!(output, "}}")
@@ -149,7 +149,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         symbol: Symbol,
     ) -> Result<bool, Error> {
         Ok(match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => {
                 write!(output, "case ")?;
 
                 match symbol {
diff --git a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
index 053d07b..26dd99c 100644
--- a/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/lr_parser/parser_impl.h.tpl
@@ -30,6 +30,7 @@ namespace parser
     {
         Shift,
         Reduce,
+        Accept,
     };
 
     struct Action
@@ -41,7 +42,6 @@ namespace parser
     struct Transition
     {
         uint32_t next_state;
-        bool is_accepting;
     };
 
     Action determine_action(uint32_t state, const lexer::TokenType &lookahead_tpken);
@@ -69,7 +69,7 @@ namespace parser
         Symbol entry_symbol{SymbolKind::State, static_cast<uint32_t>(/*{entry_state}*/)};
         parse_stack.push_back(entry_symbol);
 
-        while (parse_stack.size() > 0)
+        while (true)
         {
             auto next_token_and_data = lookahead.front();
             lexer::TokenType next_tk = next_token_and_data.first;
@@ -91,19 +91,15 @@ namespace parser
                 reduce_stack(action.reduced_rule, parse_stack, rev_reduced_symbols);
                 reduce_visitor(this->visitor, rev_reduced_symbols, action.reduced_rule);
             }
-            Symbol current_symbol = parse_stack.back();
-            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
-            Transition transition = retrieve_next_state(stack_state, current_symbol);
-            if (transition.is_accepting)
-            {
-                parse_stack.pop_back();
-                parse_stack.pop_back();
-            }
             else
             {
-                Symbol next_state_symbol{SymbolKind::State, transition.next_state};
-                parse_stack.push_back(next_state_symbol);
+                return;
             }
+            Symbol current_symbol = parse_stack.back();
+            uint32_t stack_state = parse_stack.at(parse_stack.size() - 2).identifier;
+            Transition transition = retrieve_next_state(stack_state, current_symbol);
+            Symbol next_state_symbol{SymbolKind::State, transition.next_state};
+            parse_stack.push_back(next_state_symbol);
         }
     }
 }
diff --git a/lapex-parser/src/lr_parser/mod.rs b/lapex-parser/src/lr_parser/mod.rs
index bb805fa..d7040a8 100644
--- a/lapex-parser/src/lr_parser/mod.rs
+++ b/lapex-parser/src/lr_parser/mod.rs
@@ -188,15 +188,13 @@ fn generate_parser_graph<'grammar: 'rules, 'rules, const N: usize>(
         for item in item_set {
             if let Some(transition_symbol) = item.symbol_after_dot() {
                 let mut target_item = item.clone();
-                if target_item.rule().lhs().is_some() {
-                    target_item.advance_dot();
-                    let target_item_set =
-                        expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
-                    let transition_set = transition_map
-                        .entry(transition_symbol)
-                        .or_insert(ItemHashSet::new());
-                    transition_set.extend(target_item_set.iter().map(|i| i.clone()));
-                }
+                target_item.advance_dot();
+                let target_item_set =
+                    expand_item(target_item, first_sets, &rules_map, &mut item_set_cache);
+                let transition_set = transition_map
+                    .entry(transition_symbol)
+                    .or_insert(ItemHashSet::new());
+                transition_set.extend(target_item_set.iter().map(|i| i.clone()));
             }
         }
         for (edge, item_set) in transition_map {
@@ -314,7 +312,10 @@ fn find_conflicts<'grammar, 'rules, const N: usize>(
                                 shift_symbol: *edge.weight(),
                             });
                         }
-                    } else if let Symbol::Terminal(_) = edge.weight() {
+                    } else if let (Symbol::Terminal(_), Some(_)) =
+                        (edge.weight(), reducing_items[0].rule().lhs())
+                    {
+                        // the entry rule is accepted at the end only, it never competes with a shift
                         conflicts.insert(Conflict::ShiftReduce {
                             state: state.index(),
                             item_to_reduce: reducing_items
@@ -491,7 +492,9 @@ fn build_table<'grammar, 'rules, const N: usize>(
     for (item_set, state) in parser_graph.state_map.iter() {
         for item in item_set {
             // we can continue after this since there can be at most one reducable (conflicts already checked)
-            if item.symbol_after_dot().is_none() {
+            if item.symbol_after_dot().is_none() && item.rule().lhs().is_none() {
+                table.insert_accept(*state, Symbol::End);
+            } else if item.symbol_after_dot().is_none() {
                 match N {
                     0 => {
                         for symbol in grammar.terminals().chain(std::iter::once(Symbol::End)) {
@@ -511,15 +514,11 @@ fn build_table<'grammar, 'rules, const N: usize>(
             .map(|e| (*e.weight(), e.target()))
             .collect();
         for symbol in grammar.symbols() {
-            if symbol == *grammar.entry_point() && state.index() == entry_state {
-                table.insert_accept(*state, symbol);
+            if let Some(target) = reachable_states.get(&symbol) {
+                table.insert_shift(*state, symbol, *target);
             } else {
-                if let Some(target) = reachable_states.get(&symbol) {
-                    table.insert_shift(*state, symbol, *target);
-                } else {
-                    if table.get_entry(state.index(), symbol).is_none() {
-                        table.insert_error(*state, symbol);
-                    }
+                if table.get_entry(state.index(), symbol).is_none() {
+                    table.insert_error(*state, symbol);
                 }
             }
         }
diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index 07e85e9..d1cbeb7 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -215,11 +215,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Some(Goto::State { state_id: #target }),
                     });
                 }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Some(Goto::Accept),
-                    });
-                }
                 _ => (),
             }
         }
@@ -302,6 +297,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: ReducedRule::#rule_name }
                         });
                     }
+                    TableEntry::Accept => {
+                        actions_for_entry.push(quote! {
+                            Action::Accept
+                        });
+                    }
                     _ => (),
                 }
             }
@@ -320,7 +320,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut BTreeSet<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.insert(Some(token_index));
                 }
@@ -433,16 +435,14 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             enum Goto {
-                Accept,
                 State { state_id: usize }
             }
 
-            type StateId = usize;
-
             #[derive(Debug)]
             pub enum ParserError<T, E: std::error::Error> {
                 UnexpectedToken {
@@ -543,52 +543,53 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let stack = root.push(Some(#entry), None);
                     let mut stacks = vec![stack];
 
-                    while !(stacks.len() == 1 && stacks[0].is_root()) {
+                    loop {
                         let (next_token, next_data) = lookahead.front().unwrap();
-                        let reduced = self
+                        let (reduced, accepted) = self
                             .apply_reduces(stacks, next_token, next_data)
                             .map_err(combine_errors)?;
+                        // an ambiguous input has several accepted stacks, visit the first
+                        if let Some(stack) = accepted.first() {
+                            self.visit_recorded(stack);
+                            return Ok(());
+                        }
 
                         let (next_token, next_data) = lookahead.pop_front().unwrap();
                         let new_symbol = StackSymbol::Terminal { token: next_token };
                         lookahead.push_back((self.token_function)().map_err(|e| ParserError::LexerError { inner: e })?);
 
-                        let mut new_stacks = if reduced.iter().any(|s| s.top().is_none()) {
-                            reduced
-                        } else {
-                            let mut new_stacks = Vec::new();
-                            for stack in reduced {
-                                let state = *stack.top().unwrap();
-                                match self.next_goto(&state, &new_symbol) {
-                                    Some(Goto::State { state_id }) => {
-                                        stack.record(RecordedVisit::Shift {
-                                            token: next_token,
-                                            data: next_data.clone(),
-                                        });
-                                        let new_node = stack.push(Some(state_id), Some(new_symbol));
-                                        new_stacks.push(new_node);
-                                    }
-                                    Some(Goto::Accept) => unreachable!(),
-                                    None => (),
+                        let mut new_stacks = Vec::new();
+                        for stack in reduced {
+                            let state = *stack.top().unwrap();
+                            match self.next_goto(&state, &new_symbol) {
+                                Some(Goto::State { state_id }) => {
+                                    stack.record(RecordedVisit::Shift {
+                                        token: next_token,
+                                        data: next_data.clone(),
+                                    });
+                                    let new_node = stack.push(Some(state_id), Some(new_symbol));
+                                    new_stacks.push(new_node);
                                 }
+                                None => (),
                             }
-                            new_stacks
-                        };
+                        }
                         if new_stacks.len() == 1 {
                             let stack = new_stacks.pop().unwrap();
-                            let recorded = stack.pop_recorded();
-                            for record in recorded {
-                                match record {
-                                    RecordedVisit::Reduce { rule } => self.do_visit(&rule),
-                                    RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
-                                }
-                            }
+                            self.visit_recorded(&stack);
                             stacks = vec![stack];
                         } else {
                             stacks = new_stacks;
                         }
                     }
-                    Ok(())
+                }
+
+                fn visit_recorded(&mut self, stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>) {
+                    for record in stack.pop_recorded() {
+                        match record {
+                            RecordedVisit::Reduce { rule } => self.do_visit(&rule),
+                            RecordedVisit::Shift { token, data } => self.visitor.shift(token, data),
+                        }
+                    }
                 }
 
                 fn apply_reduces(
@@ -596,9 +597,10 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     stacks: Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                     next_token: &TokenType,
                     next_data: &T
-                ) -> Result<Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>, Vec<ParserError<T, E>>> {
+                ) -> Result<(Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>, Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>), Vec<ParserError<T, E>>> {
                     let mut to_reduce = stacks;
                     let mut reduced = Vec::new();
+                    let mut accepted = Vec::new();
                     while !to_reduce.is_empty() {
                         let mut errors = Vec::new();
                         let all_error_count = to_reduce.len();
@@ -613,13 +615,15 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                                 self.apply_reduce(
                                                     reduced_rule,
                                                     &stack,
-                                                    &mut reduced,
                                                     &mut new_to_reduce,
                                                 );
                                             }
                                             Action::Shift => {
                                                 reduced.push(stack.clone_and_fork_record());
                                             }
+                                            Action::Accept => {
+                                                accepted.push(stack.clone_and_fork_record());
+                                            }
                                         };
                                     }
                                 }
@@ -629,19 +633,18 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             }
                         }
                         // if all reduces errored, the parser must have encountered an error
-                        if reduced.is_empty() && errors.len() == all_error_count {
+                        if reduced.is_empty() && accepted.is_empty() && errors.len() == all_error_count {
                             return Err(errors);
                         }
                         to_reduce = new_to_reduce;
                     }
-                    Ok(reduced)
+                    Ok((reduced, accepted))
                 }
 
                 fn apply_reduce(
                     &mut self,
                     reduced_rule: &ReducedRule,
                     stack: &GraphNode<usize, StackSymbol, RecordedVisit<T>>,
-                    accepted: &mut Vec<GraphNode<StateId, StackSymbol, RecordedVisit<T>>>,
                     new_to_reduce: &mut Vec<GraphNode<usize, StackSymbol, RecordedVisit<T>>>,
                 ) {
                     let (to_pop, reduced_symbol) = self.get_rule_reduction(&reduced_rule);
@@ -662,10 +665,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                                 let new_node = stack.push(Some(state_id), Some(reduced_symbol));
                                 new_to_reduce.push(new_node);
                             }
-                            Some(Goto::Accept) => {
-                                let (_edge, root) = stack.pop();
-                                accepted.push(root);
-                            }
                             None => (),
                         }
                     }
@@ -782,10 +781,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         self.recorded.borrow_mut().push(record);
                     }
 
-                    pub fn is_root(&self) -> bool {
-                        self.inner.borrow().node_value.is_none()
-                    }
-
                     pub fn push(self, value: Option<N>, edge: Option<E>) -> GraphNode<N, E, R> {
                         let mut new_node = self.new_with_same_record(value);
                         new_node.add_edge(edge, self);
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index 87cc0c8..e5c4e6e 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -162,11 +162,6 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Goto::State { state_id: #target },
                     });
                 }
-                TableEntry::Accept => {
-                    gotos.push(quote! {
-                        #condition => Goto::Accept,
-                    });
-                }
                 _ => (),
             }
         }
@@ -244,6 +239,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         #condition => Ok(Action::Reduce { rule: ReducedRule::#rule_name }),
                     });
                 }
+                TableEntry::Accept => {
+                    actions.push(quote! {
+                        #condition => Ok(Action::Accept),
+                    });
+                }
                 _ => (),
             }
         }
@@ -256,7 +256,9 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         expected_symbols: &mut Vec<Option<SymbolIdx>>,
     ) {
         match entry {
-            TableEntry::Shift { target: _ } | TableEntry::Reduce { rule: _ } => match symbol {
+            TableEntry::Shift { target: _ }
+            | TableEntry::Reduce { rule: _ }
+            | TableEntry::Accept => match symbol {
                 Symbol::Terminal(token_index) => {
                     expected_symbols.push(Some(token_index));
                 }
@@ -370,11 +372,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
 
             enum Action {
                 Shift,
-                Reduce { rule: ReducedRule }
+                Reduce { rule: ReducedRule },
+                Accept
             }
 
             enum Goto {
-                Accept,
                 State { state_id: usize }
             }
 
@@ -443,7 +445,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let mut stack = Vec::new();
                     stack.push(StackSymbol::State { state_id: #entry });
 
-                    while !stack.is_empty() {
+                    loop {
                         let (next_token, _) = lookahead.front().unwrap();
                         let state = match stack.last().unwrap() {
                             StackSymbol::State { state_id } => *state_id,
@@ -461,6 +463,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                             Action::Reduce { rule: reduced_rule } => {
                                 self.reduce_stack_and_visit(reduced_rule, &mut stack);
                             }
+                            Action::Accept => return Ok(()),
                         }
                         let current_symbol = stack.last().unwrap();
                         let state = match &stack[stack.len() - 2] {
@@ -469,16 +472,11 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                         };
                         let goto = self.next_goto(state, *current_symbol);
                         match goto {
-                            Goto::Accept => {
-                                stack.pop();
-                                stack.pop();
-                            }
                             Goto::State { state_id } => {
                                 stack.push(StackSymbol::State { state_id })
                             }
                         }
                     }
-                    Ok(())
                 }
             }
         };
-- 
2.43.0


From 0271605f67c12ea7afaed5586cf1074acc303130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 06/17] fix: convert the empty regular expression and the empty
 literal

---
 lapex-input-gen/src/lib.rs | 7 +++----
 lapex-lexer/src/nfa/mod.rs | 2 ++
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index ceadc3d..553a396 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -56,7 +56,6 @@ fn get_unescaped_chars(text: &str) -> Vec<char> {
 enum RegexConversionError {
     LazyRepetition,
     Lookaround,
-    EmptyRegex,
     RegexSyntax(regex_syntax::Error),
     Utf8Conversion(std::str::Utf8Error),
     ByteClass,
@@ -84,9 +83,9 @@ impl Display for RegexConversionError {
 
 fn make_pattern_from_hir(hir: &Hir) -> Result<Pattern, RegexConversionError> {
     Ok(match hir.kind() {
-        HirKind::Empty => {
-            return Err(RegexConversionError::EmptyRegex);
-        }
+        HirKind::Empty => Pattern::Sequence {
+            elements: Vec::new(),
+        },
         HirKind::Literal(lit) => {
             let chars = std::str::from_utf8(lit.0.as_ref())?;
             Pattern::Sequence {
diff --git a/lapex-lexer/src/nfa/mod.rs b/lapex-lexer/src/nfa/mod.rs
index 3a8f585..79ad553 100644
--- a/lapex-lexer/src/nfa/mod.rs
+++ b/lapex-lexer/src/nfa/mod.rs
@@ -62,6 +62,8 @@ fn build_nfa_from_pattern<'rules>(
         Pattern::Sequence { elements } => {
             if !elements.is_empty() {
                 chain_pattern_iterator(alphabet, nfa, elements.into_iter().peekable(), start, end);
+            } else {
+                nfa.add_epsilon_transition(start, end);
             }
         }
         Pattern::Alternative { elements } => {
-- 
2.43.0


From af943be4a0d66182c0f9475f4f5b28509a3afd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 07/17] fix: keep rules and alternatives in the order they are
 written in

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 553a396..b79233b 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -395,7 +395,7 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
         } else {
             panic!("Stack is broken")
         };
-        elements.push(pattern);
+        elements.insert(0, pattern);
         self.stack.push(Spanned::between(
             concat_span,
             alt_span,
@@ -447,7 +447,7 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
         } else {
             panic!("Stack is broken")
         };
-        rules.push(rule);
+        rules.insert(0, rule);
         self.stack.push(Spanned::zero(Ast::Rules(rules)))
     }
 
-- 
2.43.0


From a2bf68ebd86fb29777dff11a71763511a4991bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:06 +0000
Subject: [PATCH 08/17] fix: count columns of rule spans in characters instead
 of bytes

---
 lapex-input-gen/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index b79233b..910375f 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -525,7 +525,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
-                        col += lexer.slice().len() as u16;
+                        col += lexer.slice().chars().count() as u16;
                         next_tk = lexer.next().unwrap();
                     }
                     _ => break,
@@ -533,7 +533,7 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().len() as u16;
+            col += lexer.slice().chars().count() as u16;
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From 7deb754e30c88eda54c19823af0401386d9f1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 09/17] fix: answer malformed definition files with an error
 instead of a panic

---
 lapex-input-bootstrap/src/lib.rs |  3 +-
 lapex-input-gen/src/lib.rs       | 53 ++++++++++++++++++++++++++------
 2 files changed, 45 insertions(+), 11 deletions(-)

diff --git a/lapex-input-bootstrap/src/lib.rs b/lapex-input-bootstrap/src/lib.rs
index b18c40d..c7833a3 100644
--- a/lapex-input-bootstrap/src/lib.rs
+++ b/lapex-input-bootstrap/src/lib.rs
@@ -330,7 +330,8 @@ impl LapexInputParser for BootstrapLapexInputParser {
 }
 
 fn parse_lapex_file(input: &[u8]) -> Result<RuleSet, LapexParsingError> {
-    let (remaining, rules) = parse_lapex_file_raw(input).unwrap();
+    let (remaining, rules) = parse_lapex_file_raw(input)
+        .map_err(|_| LapexParsingError::IncompleteParsing(String::from_utf8_lossy(input).into()))?;
     if !remaining.is_empty() {
         return Err(LapexParsingError::IncompleteParsing(
             String::from_utf8_lossy(&remaining).to_string(),
diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 910375f..3cc0228 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -1,7 +1,7 @@
 use std::{error::Error, fmt::Display, str::Utf8Error};
 
 use lapex_input::{
-    Characters, EntryRule, LapexInputParser, Pattern, ProductionPattern, ProductionRule, RuleSet,
+    Characters, EntryRule, LapexInputParser, LapexParsingError, Pattern, ProductionPattern, ProductionRule, RuleSet,
     SourcePos, SourceSpan, Spanned, TokenPattern, TokenRule,
 };
 use parser::Parser;
@@ -43,6 +43,7 @@ enum Ast<'src> {
 
 struct LapexAstVisitor<'stack, 'src> {
     stack: &'stack mut Vec<Spanned<Ast<'src>>>,
+    errors: &'stack mut Vec<LapexParsingError>,
 }
 
 fn get_unescaped_chars(text: &str) -> Vec<char> {
@@ -303,7 +304,11 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
                 characters: get_unescaped_chars(rhs),
             },
             Some('/') => TokenPattern::Pattern {
-                pattern: get_regex_pattern(rhs).unwrap(),
+                pattern: get_regex_pattern(rhs).unwrap_or_else(|e| {
+                    self.errors
+                        .push(LapexParsingError::IncompleteParsing(e.to_string()));
+                    Pattern::from_chars(&Vec::new())
+                }),
             },
             _ => unreachable!(),
         };
@@ -462,7 +467,14 @@ impl<'stack, 'src> parser::Visitor<TokenData<'src>> for LapexAstVisitor<'stack,
     fn reduce_precedence(&mut self) {
         let end = self.stack.pop().unwrap().span;
         let precedence: u16 = if let Some(Ast::Token(digit)) = self.stack.pop().map(|s| s.inner) {
-            digit.parse().unwrap()
+            digit.parse().unwrap_or_else(|_| {
+                self.errors
+                    .push(LapexParsingError::IncompleteParsing(format!(
+                        "precedence {} is too large",
+                        digit
+                    )));
+                0
+            })
         } else {
             panic!("Stack is broken")
         };
@@ -511,22 +523,34 @@ impl LapexInputParser for GeneratedLapexInputParser {
         source: &'src str,
     ) -> Result<lapex_input::RuleSet<'src>, lapex_input::LapexParsingError> {
         let mut lexer = lexer::Lexer::new(source);
+        let mut lexer_error = None;
         let mut stack = Vec::new();
-        let visitor = LapexAstVisitor { stack: &mut stack };
+        let mut errors = Vec::new();
+        let visitor = LapexAstVisitor {
+            stack: &mut stack,
+            errors: &mut errors,
+        };
         let mut col: u16 = 1;
         let mut line: u16 = 1;
         let token_fun = || {
-            let mut next_tk = lexer.next().unwrap();
+            // a lexer error ends the input and is reported after parsing
+            let mut next_token = |lexer: &mut lexer::Lexer<'src>| {
+                lexer.next().unwrap_or_else(|e| {
+                    lexer_error.get_or_insert(e);
+                    TokenType::EndOfFile
+                })
+            };
+            let mut next_tk = next_token(&mut lexer);
             loop {
                 match next_tk {
                     TokenType::TkNewline => {
-                        next_tk = lexer.next().unwrap();
+                        next_tk = next_token(&mut lexer);
                         col = 1;
                         line += 1;
                     }
                     TokenType::TkWhitespace => {
                         col += lexer.slice().chars().count() as u16;
-                        next_tk = lexer.next().unwrap();
+                        next_tk = next_token(&mut lexer);
                     }
                     _ => break,
                 }
@@ -548,7 +572,14 @@ impl LapexInputParser for GeneratedLapexInputParser {
             return (next_tk, token_data);
         };
         let mut parser = Parser::new(token_fun, visitor);
-        parser.parse().expect("error: parsing");
+        let result = parser.parse();
+        if let Some(e) = lexer_error {
+            return Err(LapexParsingError::IncompleteParsing(e.to_string()));
+        }
+        result.map_err(|e| LapexParsingError::IncompleteParsing(e.to_string()))?;
+        if !errors.is_empty() {
+            return Err(errors.remove(0));
+        }
         assert_eq!(stack.len(), 1);
         let rules = if let Ast::Rules(rules) = stack.pop().unwrap().inner {
             rules
@@ -568,8 +599,10 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
         }
 
-        assert_eq!(entry_rules.len(), 1);
-        let entry_rule = entry_rules.pop().unwrap();
+        if entry_rules.len() > 1 {
+            return Err(LapexParsingError::TooManyEntryRules);
+        }
+        let entry_rule = entry_rules.pop().ok_or(LapexParsingError::NoEntryRule)?;
         Ok(RuleSet::new(entry_rule, token_rules, prod_rules))
     }
 }
-- 
2.43.0


From 24b36392cf1267511e9bfb70057d2d986dd21d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:20 +0000
Subject: [PATCH 10/17] fix: remove the escaping from string literals

---
 lapex-input-gen/src/lib.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 3cc0228..59d9c2a 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -47,9 +47,20 @@ struct LapexAstVisitor<'stack, 'src> {
 }
 
 fn get_unescaped_chars(text: &str) -> Vec<char> {
-    // TODO: remove quotes and escaping
-    let mut chars: Vec<char> = text.chars().skip(1).collect();
-    chars.pop();
+    let mut chars = Vec::new();
+    let mut quoted = text[1..text.len() - 1].chars();
+    while let Some(ch) = quoted.next() {
+        chars.push(match ch {
+            '\\' => match quoted.next() {
+                Some('n') => '\n',
+                Some('r') => '\r',
+                Some('t') => '\t',
+                Some(escaped) => escaped,
+                None => ch,
+            },
+            _ => ch,
+        });
+    }
     chars
 }
 
-- 
2.43.0


From 3cea03f6ad748cffd5c26ee6fc42b11e6302fb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 11/17] fix: answer a span that ends before it starts with
 nothing instead of a panic

---
 lapex-input/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-input/src/lib.rs b/lapex-input/src/lib.rs
index 0703817..4aa6d41 100644
--- a/lapex-input/src/lib.rs
+++ b/lapex-input/src/lib.rs
@@ -38,7 +38,7 @@ impl SourceSpan {
     pub fn substring<'a>(&self, text: &'a str) -> Option<&'a str> {
         let start = self.start.offset(text)?;
         let end = self.end.offset(text)?;
-        Some(&text[start..end])
+        text.get(start..end)
     }
 }
 
-- 
2.43.0


From e17ac5ae604aa2e4db5780d9e18dcd74d3e7175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 12/17] fix: follow line breaks inside of tokens

---
 lapex-input-gen/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lapex-input-gen/src/lib.rs b/lapex-input-gen/src/lib.rs
index 59d9c2a..43411c3 100644
--- a/lapex-input-gen/src/lib.rs
+++ b/lapex-input-gen/src/lib.rs
@@ -568,7 +568,14 @@ impl LapexInputParser for GeneratedLapexInputParser {
             }
             let start_line = line;
             let start_col = col;
-            col += lexer.slice().chars().count() as u16;
+            for ch in lexer.slice().chars() {
+                if ch == '\n' {
+                    line += 1;
+                    col = 1;
+                } else {
+                    col += 1;
+                }
+            }
 
             let token_data = TokenData {
                 text: lexer.slice(),
-- 
2.43.0


From e9f11e21df4146e267bfb5bc4a1ab61aff322c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 13/17] fix: tags name only the rules of their own production

---
 lapex-rust-codegen/src/glr_parser/mod.rs | 13 ++++++++++---
 lapex-rust-codegen/src/lr_parser/mod.rs  | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lapex-rust-codegen/src/glr_parser/mod.rs b/lapex-rust-codegen/src/glr_parser/mod.rs
index d1cbeb7..81fe54f 100644
--- a/lapex-rust-codegen/src/glr_parser/mod.rs
+++ b/lapex-rust-codegen/src/glr_parser/mod.rs
@@ -62,6 +62,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    /// The tag belongs to the rules of the production itself, not to the helpers of its inner patterns.
+    fn rule_tag(&self, non_terminal: &Symbol, rule: &Rule<'rules>) -> Option<&'rules str> {
+        self.grammar
+            .get_production_name(non_terminal)
+            .and(rule.rule().inner.tag)
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -72,7 +79,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -114,7 +121,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
             if rules.len() != 1 {
                 for (i, rule) in rules.iter().enumerate() {
                     let comment = format!("{}", rule.display(self.grammar));
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -365,7 +372,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
diff --git a/lapex-rust-codegen/src/lr_parser/mod.rs b/lapex-rust-codegen/src/lr_parser/mod.rs
index e5c4e6e..920713c 100644
--- a/lapex-rust-codegen/src/lr_parser/mod.rs
+++ b/lapex-rust-codegen/src/lr_parser/mod.rs
@@ -58,6 +58,13 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
         non_terminal_name
     }
 
+    /// The tag belongs to the rules of the production itself, not to the helpers of its inner patterns.
+    fn rule_tag(&self, non_terminal: &Symbol, rule: &Rule<'rules>) -> Option<&'rules str> {
+        self.grammar
+            .get_production_name(non_terminal)
+            .and(rule.rule().inner.tag)
+    }
+
     fn write_visitor(&self, output: &mut dyn Write) -> std::io::Result<()> {
         let mut reduce_functions: Vec<TokenStream> = Vec::new();
 
@@ -68,7 +75,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                     let comment: TokenStream = format!("///{}", rule.display(self.grammar))
                         .parse()
                         .unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
@@ -301,7 +308,7 @@ impl<'grammar, 'rules> CodeWriter<'grammar, 'rules> {
                 for (i, rule) in rules.iter().enumerate() {
                     let rule_index = self.rule_index_map.get(&(*rule as *const Rule)).unwrap();
                     let rule_name: TokenStream = format!("Rule{}", rule_index).parse().unwrap();
-                    let tag = rule.rule().inner.tag;
+                    let tag = self.rule_tag(non_terminal, rule);
                     let name = if let Some(tag) = tag {
                         format!("reduce_{}_{}", non_terminal_name, tag)
                     } else {
-- 
2.43.0


From 5eca89199f8d0fa3fd98fc730b3c7366f7358359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 14/17] fix: rule names with leading, trailing or doubled
 underscores panicked in the Rust generator

---
 lapex-rust-codegen/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lapex-rust-codegen/src/lib.rs b/lapex-rust-codegen/src/lib.rs
index e6c398f..4797640 100644
--- a/lapex-rust-codegen/src/lib.rs
+++ b/lapex-rust-codegen/src/lib.rs
@@ -75,6 +75,10 @@ fn get_non_terminal_enum_name(grammar: &Grammar, non_terminal: Symbol) -> String
 fn convert_snake_to_upper_camel(name: &str) -> String {
     name.split('_')
         .map(|s| {
+            if s.is_empty() {
+                // a leading, trailing or doubled underscore
+                return String::from("_");
+            }
             let (head, tail) = s.split_at(1);
             format!("{}{}", head.to_ascii_uppercase(), tail.to_ascii_lowercase())
         })
-- 
2.43.0


From 86e0f66cb8a138931862c7f6f0c5796db4f907a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:03 +0000
Subject: [PATCH 15/17] fix: the C++ LL parser did not compile, and looked up
 productions by the wrong numbers and never for the end of input

---
 lapex-cpp-codegen/src/ll_parser/mod.rs        | 25 +++++++++++--------
 .../src/ll_parser/parser_impl.h.tpl           |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/lapex-cpp-codegen/src/ll_parser/mod.rs b/lapex-cpp-codegen/src/ll_parser/mod.rs
index 665a047..f362601 100644
--- a/lapex-cpp-codegen/src/ll_parser/mod.rs
+++ b/lapex-cpp-codegen/src/ll_parser/mod.rs
@@ -150,17 +150,23 @@ impl<'parser> CodeWriter<'parser> {
         writeln!(output, "throw std::runtime_error(\"{}\");", message)
     }
 
+    fn lookahead_symbols(&self) -> impl Iterator<Item = (Symbol, &'parser str)> + '_ {
+        self.grammar
+            .terminals_with_names()
+            .chain(std::iter::once((Symbol::End, "EOF")))
+    }
+
     fn write_table_switch(&self, output: &mut dyn Write) -> Result<(), Error> {
-        writeln!(output, "switch(non_terminal.identifier) {{")?;
+        writeln!(
+            output,
+            "switch(static_cast<NonTerminalType>(non_terminal.identifier)) {{"
+        )?;
         for non_terminal in self.grammar.non_terminals() {
-            let non_terminal_index = if let Symbol::NonTerminal(i) = non_terminal {
-                i
-            } else {
-                unreachable!()
-            };
-            writeln!(output, "case {}: {{", non_terminal_index)?;
+            write!(output, "case NonTerminalType::")?;
+            self.write_non_terminal_enum_name(non_terminal, output)?;
+            writeln!(output, ": {{")?;
             writeln!(output, "switch (lookahead) {{")?;
-            for (terminal, token_name) in self.grammar.terminals_with_names() {
+            for (terminal, token_name) in self.lookahead_symbols() {
                 let entry = self.parser_table.get_production(non_terminal, &terminal);
                 if let Some(symbols) = entry {
                     writeln!(output, "case lexer::TokenType::TK_{}: {{", token_name)?;
@@ -172,8 +178,7 @@ impl<'parser> CodeWriter<'parser> {
             writeln!(output, "default:")?;
             self.write_parser_table_error(
                 self.grammar.get_production_name(&non_terminal),
-                self.grammar
-                    .terminals_with_names()
+                self.lookahead_symbols()
                     .filter(|(symbol, _)| {
                         self.parser_table
                             .get_production(non_terminal, symbol)
diff --git a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
index ee3e370..8d733c1 100644
--- a/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
+++ b/lapex-cpp-codegen/src/ll_parser/parser_impl.h.tpl
@@ -54,7 +54,7 @@ namespace parser
         std::stack<Symbol> parse_stack;
         Symbol end{SymbolKind::Terminal, static_cast<uint32_t>(lexer::TokenType::TK_EOF)};
         parse_stack.push(end);
-        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>({grammar_entry_non_terminal})};
+        Symbol entry{SymbolKind::NonTerminal, static_cast<uint32_t>(/*{grammar_entry_non_terminal}*/)};
         parse_stack.push(entry);
 
         while (parse_stack.size() > 0)
-- 
2.43.0


From cd01cfd98ed0eb970126603b5827773eed6096b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 16/17] fix: a definition without tokens and productions
 panicked in the grammar

---
 lapex-parser/src/grammar_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lapex-parser/src/grammar_builder.rs b/lapex-parser/src/grammar_builder.rs
index 17a0c07..5174118 100644
--- a/lapex-parser/src/grammar_builder.rs
+++ b/lapex-parser/src/grammar_builder.rs
@@ -68,7 +68,7 @@ impl<'rules> GrammarBuilder<'rules> {
                     Symbol::Terminal(t_index) => *t_index,
                 })
                 .max()
-                .unwrap(),
+                .unwrap_or(0),
             symbols: symbols_with_span
                 .into_iter()
                 .map(|(name, (symbol, _span))| (name, symbol))
-- 
2.43.0


From 706b71a0edc14b207bb16d2c8c2f3e3807fc5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 17/17] fix: report definitions that cannot be read, invalid
 grammars and LL(1) conflicts as errors instead of panicking

---
 lapex/src/errors.rs | 113 +++++++++++++++++++++++++++++++++++++++++++-
 lapex/src/lib.rs    |   9 ++--
 2 files changed, 117 insertions(+), 5 deletions(-)

diff --git a/lapex/src/errors.rs b/lapex/src/errors.rs
index c4cdbac..ebb9738 100644
--- a/lapex/src/errors.rs
+++ b/lapex/src/errors.rs
@@ -4,10 +4,11 @@ use std::{
     path::{Path, PathBuf},
 };
 
-use lapex_input::{SourcePos, SourceSpan};
+use lapex_input::{LapexParsingError, SourcePos, SourceSpan};
 use lapex_lexer::PrecedenceError;
 use lapex_parser::{
-    grammar::{Grammar, Symbol},
+    grammar::{Grammar, GrammarError, Symbol},
+    ll_parser::LLParserError,
     lr_parser::Conflict,
 };
 use owo_colors::OwoColorize;
@@ -66,9 +67,99 @@ enum LapexErrorType {
         file: PathBuf,
         error: std::io::Error,
     },
+    Parsing {
+        file: PathBuf,
+        reason: String,
+    },
+    Grammar {
+        file: PathBuf,
+        reason: String,
+    },
+    ConflictingRules {
+        rules: Vec<Location>,
+    },
+    LL {
+        file: PathBuf,
+        reason: String,
+    },
 }
 
 impl LapexError {
+    fn new(error: LapexErrorType) -> Vec<Self> {
+        vec![LapexError {
+            severity: Severity::Error,
+            error,
+        }]
+    }
+
+    pub fn parsing(file: &Path, error: LapexParsingError) -> Vec<Self> {
+        LapexError::new(LapexErrorType::Parsing {
+            file: file.to_path_buf(),
+            reason: match error {
+                LapexParsingError::IncompleteParsing(reason) => reason,
+                LapexParsingError::NoEntryRule => "There is no entry rule".to_string(),
+                LapexParsingError::TooManyEntryRules => {
+                    "There is more than one entry rule".to_string()
+                }
+            },
+        })
+    }
+
+    pub fn grammar(file: &Path, contents: &str, error: GrammarError) -> Vec<Self> {
+        LapexError::new(match error {
+            GrammarError::ConflictingRules { rules } => LapexErrorType::ConflictingRules {
+                rules: rules
+                    .into_iter()
+                    .map(|span| Location::from_span(span, file, contents).unwrap())
+                    .collect(),
+            },
+            GrammarError::MissingSymbol(name) => LapexErrorType::Grammar {
+                file: file.to_path_buf(),
+                reason: format!("There is no rule named {}", name),
+            },
+            error => LapexErrorType::Grammar {
+                file: file.to_path_buf(),
+                reason: error.to_string(),
+            },
+        })
+    }
+
+    pub fn ll_parser(
+        file: &Path,
+        contents: &str,
+        grammar: &Grammar,
+        error: LLParserError,
+    ) -> Vec<Self> {
+        let names = |symbols: &[Symbol]| -> String {
+            let names: Vec<String> = symbols.iter().map(|s| grammar.get_symbol_name(s)).collect();
+            names.join(" ")
+        };
+        LapexError::new(match error {
+            LLParserError::GrammarError(error) => {
+                return LapexError::grammar(file, contents, error);
+            }
+            LLParserError::ParserTableConflict {
+                non_terminal,
+                terminal,
+                production,
+                existing_production,
+            } => LapexErrorType::LL {
+                file: file.to_path_buf(),
+                reason: format!(
+                    "On token {}, {} could be parsed as\n\t{}\nor as\n\t{}",
+                    grammar.get_symbol_name(&terminal).bold(),
+                    grammar.get_symbol_name(&non_terminal).bold(),
+                    names(&existing_production).bold(),
+                    names(&production).bold()
+                ),
+            },
+            error => LapexErrorType::LL {
+                file: file.to_path_buf(),
+                reason: error.to_string(),
+            },
+        })
+    }
+
     pub fn conflicts(
         file: &Path,
         contents: &str,
@@ -155,6 +246,10 @@ impl LapexErrorType {
             LapexErrorType::ReduceReduce { .. } => "reduce-reduce conflict in grammar",
             LapexErrorType::Precedence { .. } => "conflicting token precedences in grammar",
             LapexErrorType::IO { .. } => "failed to read grammar file",
+            LapexErrorType::Parsing { .. } => "failed to parse grammar file",
+            LapexErrorType::Grammar { .. } => "invalid grammar",
+            LapexErrorType::ConflictingRules { .. } => "conflicting rules in grammar",
+            LapexErrorType::LL { .. } => "LL(1) conflict in grammar",
         }
     }
 }
@@ -210,6 +305,20 @@ impl Display for LapexErrorType {
             LapexErrorType::IO { error, file } => {
                 write!(f, "     file: {}\n     reason: {}", file.display(), error)
             }
+            LapexErrorType::Parsing { file, reason }
+            | LapexErrorType::Grammar { file, reason }
+            | LapexErrorType::LL { file, reason } => {
+                write!(f, "     file: {}\n     reason: {}", file.display(), reason)
+            }
+            LapexErrorType::ConflictingRules { rules } => {
+                for (i, location) in rules.iter().enumerate() {
+                    write_section(location, "Another rule has the same name", f)?;
+                    if i + 1 < rules.len() {
+                        writeln!(f)?;
+                    }
+                }
+                Ok(())
+            }
         }
     }
 }
diff --git a/lapex/src/lib.rs b/lapex/src/lib.rs
index 0a602eb..3d87c30 100644
--- a/lapex/src/lib.rs
+++ b/lapex/src/lib.rs
@@ -132,7 +132,7 @@ where
         .map_err(|e| LapexError::io(grammar_path.to_path_buf(), e))?;
     let rules = input_parser
         .parse_lapex(file_contents.as_str())
-        .expect("TODO");
+        .map_err(|e| LapexError::parsing(grammar_path, e))?;
     let mut gen = GeneratedCodeWriter::with_default(|name| {
         let file = std::fs::File::create(target_path.join(name))?;
         Ok(BufWriter::new(file))
@@ -148,10 +148,13 @@ where
         lexer_codegen.generate_lexer(&rules.token_rules, &alphabet.get_ranges(), &dfa, &mut gen);
     }
 
-    let grammar = Grammar::from_rule_set(&rules).expect("TODO");
+    let grammar = Grammar::from_rule_set(&rules)
+        .map_err(|e| LapexError::grammar(grammar_path, file_contents.as_str(), e))?;
     match algorithm {
         ParsingAlgorithm::LL1 => {
-            let parser_table = lapex_parser::ll_parser::generate_table(&grammar).expect("TODO");
+            let parser_table = lapex_parser::ll_parser::generate_table(&grammar).map_err(|e| {
+                LapexError::ll_parser(grammar_path, file_contents.as_str(), &grammar, e)
+            })?;
             ll_codegen.generate_code(&grammar, &parser_table, &mut gen);
         }
         ParsingAlgorithm::LR0 => {
-- 
2.43.0

