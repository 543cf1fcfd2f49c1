From 3c496dd2963761a41b647a82d1c7e0fb86359fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:46 +0000
Subject: [PATCH 01/25] fix: make the tree module public so that virtual
 machines can be implemented outside the crate

The VM trait's execute_instruction takes &mut Tree<String> and NodeId, and the trait's own
documentation imports them from henriks_parsing_project::tree, but the module was private.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From 628433706c1554dedd157073f7a63e356dfa75a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:22 +0000
Subject: [PATCH 02/25] fix: predict an alternative by everything it can begin
 with, not by its first symbol alone

---
 src/steuer_map.rs | 59 ++++++++++++++++++-----------------------------
 1 file changed, 23 insertions(+), 36 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..9809afc 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -5,7 +5,8 @@
 use std::collections::{HashMap, HashSet};
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::first_sets::first_set_of_partial;
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
@@ -29,25 +30,24 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    let rules = std::mem::take(&mut parser_data.parse_rules.rules);
+    for (rule_name, productions) in rules.into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,43 +62,30 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
-                    }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
-                }
-            }
+            // The steuer set of the whole production: everything it can begin with and, only if all
+            // of its elements can be empty, everything that can follow the rule.
+            let first_set = first_set_of_partial(el, first_sets, parser_data)?;
+            let steuer_sets =
+                get_steuer_sets(&NamedSets::from([(cur_rule_name, first_set)]), follow_sets)?;
+            let steuer_menge = steuer_sets.get(&cur_rule_name).ok_or(MissingSteuerSet {
+                index: cur_rule_name,
+            })?;
+            fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
             Ok(())
         }
         Production::Empty => {
-- 
2.43.0


From 4f20628afcbc47924b708416dcec2e468a177e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:18 +0000
Subject: [PATCH 03/25] fix: report left recursive rules instead of recursing
 without end

---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 30 ++++++++++++++++++++++++++----
 src/script_parser.rs |  2 --
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..c6fb1cb 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -104,6 +104,9 @@ pub enum GrammarError {
         reason: String,
         pos: usize,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     GraphNodeAlreadyExistsError {
         node_name: usize,
     },
@@ -133,6 +136,9 @@ impl fmt::Display for GrammarError {
             GrammarError::MissingProduction { index } => {
                 write!(f, " \"{index}\" not in productions")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::SteuerSetsNotDistinct { .. } => write!(f, "steuersets not distinct"),
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..707ac18 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,7 +47,7 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data, &mut HashSet::new())?;
     }
     Ok(first_sets)
 }
@@ -56,6 +56,7 @@ fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut HashSet<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -63,14 +64,24 @@ where
     let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
     let res = match set_maybe {
         None => {
+            // needing the set of a rule while computing it means that the rule is left recursive
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus = get_first_set_of_production(
+                    production,
+                    first_sets,
+                    parser_data,
+                    in_progress,
+                )?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -106,6 +117,7 @@ fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
+    in_progress: &mut HashSet<ElementIndex>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
@@ -114,10 +126,20 @@ where
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
             let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+                get_set_first_set_of_element(
+                    *el_ixs.first().unwrap(),
+                    first_sets,
+                    parser_data,
+                    in_progress,
+                )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set = get_set_first_set_of_element(
+                        *el_ix,
+                        first_sets,
+                        parser_data,
+                        in_progress,
+                    )?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..335a2cd 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From d75b57d7efbf5dbd863672e0e72245bbf9cc6fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 04/25] fix: refuse a script that goes on after a complete
 sentence

---
 src/script_parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 335a2cd..ec4e407 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -212,6 +212,14 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        let pos = to_parse.cur_pos();
+        if let Some(chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr: *chr,
+                pos,
+                expected: SetMember::Terminate.into(),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From 2b6fc66f0556e5da94661b0305789bd300a6ba31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:58 +0000
Subject: [PATCH 05/25] fix: start a parser made from parser data with the
 start rule that was passed in

---
 src/script_parser.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index ec4e407..9e4442d 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -58,6 +58,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// Index of the start rule, or None to use the rule named `start`
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -111,6 +113,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -139,7 +142,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
@@ -165,6 +169,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -203,10 +208,11 @@ where
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
         let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+            .start_index
+            .or_else(|| {
+                self.elements.iter().position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
             })
             .unwrap();
         let mut tree = Tree::new();
-- 
2.43.0


From e7c1a711c11642ed0b67404e4ad7457ada05aa17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:00 +0000
Subject: [PATCH 06/25] fix: let the counting machine read the whole action
 text

---
 src/vms/counting_vm.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..5866cc5 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,12 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 79725c432ee5f7da4debe089300f2a5c2f1c61e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 07/25] fix: read the file-wide ignore directive

---
 src/rule_parsing.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..95b2f34 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -50,6 +50,8 @@ where
     }
 
     pub fn parse_rules(&mut self) -> Result<&ParseRules<T>, ParserError> {
+        self.parse_whitespace();
+        self.parse_special_operation()?;
         loop {
             self.parse_whitespace();
             if self.parse_process.peek().is_none() {
@@ -62,6 +64,29 @@ where
         Ok(&self.parser_data.parse_rules)
     }
 
+    fn parse_special_operation(&mut self) -> Result<(), ParserError> {
+        if self.parse_symbol('$').is_err() {
+            return Ok(());
+        }
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(ParserError::UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let ignore = ElementVerbose::new(
+            parse_var_name(&mut self.parse_process)?,
+            ElementType::NonTerminal,
+        );
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        self.parser_data.parse_rules.ignore =
+            Some(self.parser_data.get_or_add_element_key(&ignore));
+        Ok(())
+    }
+
     fn edit_rules(&mut self) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
-- 
2.43.0


From e6088a34ce4862a482dea3b46654ff3ec2076d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:56 +0000
Subject: [PATCH 08/25] fix: looking ahead at an escape character must not
 change what is read next

---
 src/peekables.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..b71262f 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -136,6 +136,7 @@ where
         }
         let res = self.to_parse.next();
         if res.is_some() {
+            self.escape = res == self.escape_char;
             self.current_position += 1
         }
         res
@@ -162,6 +163,7 @@ where
         }
         let res = self.to_parse.next_if(func);
         if res.is_some() {
+            self.escape = res == self.escape_char;
             self.current_position += 1
         }
         res
@@ -173,6 +175,7 @@ where
         }
         let res = self.to_parse.next_if_eq(expected);
         if res.is_some() {
+            self.escape = res == self.escape_char;
             self.current_position += 1
         }
         res
@@ -188,12 +191,8 @@ where
         if let (Some(&c), Some(escape_char), Some(stop_char)) =
             (next, self.escape_char, self.stop_on)
         {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
+            if c != escape_char && c == stop_char && !self.escape {
                 return false;
-            } else {
-                self.escape = false;
             }
         }
         true
-- 
2.43.0


From 131d773a4fd15a59248fe8e2b56602fd5c6cae61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:57 +0000
Subject: [PATCH 09/25] fix: stop at the stop character of a view that has no
 escape character

---
 src/peekables.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index b71262f..659de41 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -188,10 +188,8 @@ where
 {
     fn check_allowed(&mut self) -> bool {
         let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c != escape_char && c == stop_char && !self.escape {
+        if let (Some(&c), Some(stop_char)) = (next, self.stop_on) {
+            if c == stop_char && !self.escape {
                 return false;
             }
         }
-- 
2.43.0


From 0fd0b5c6d66c4c3e5071e9a271ed9a7bf0da87ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 10/25] fix: do not show the stop character of a view to a
 mutable look ahead

---
 src/peekables.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/peekables.rs b/src/peekables.rs
index 659de41..433cb6c 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -155,6 +155,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
-- 
2.43.0


From f35f062cf3fbf09c44d7a612e900fa70a5296054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 11/25] fix: refuse action text that the machine left unread
 even if a brace follows

---
 src/rule_parsing.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 95b2f34..584e612 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -259,6 +259,14 @@ where
         let mut g =
             ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\'), cur_pos);
         let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
+        let pos = g.cur_pos();
+        if let Some(chr) = g.peek() {
+            return Err(UnexpectedCharError {
+                chr: *chr,
+                pos,
+                expected: String::from('}'),
+            });
+        }
         self.parse_symbol('}')?;
         Ok(instruction)
     }
-- 
2.43.0


From c30b11b749be2935b4ac77a8e2b8d38a1ee5471b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:24 +0000
Subject: [PATCH 12/25] fix: free the storage of a removed tree node once, not
 twice

---
 src/tree.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..0531ee3 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -241,7 +241,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 8d50c9a2ebae1fc68c38c731aef3c6ae81dd65ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 13/25] fix: recognise a removed tree node by its storage, not
 by its key

---
 src/tree.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 0531ee3..d380a64 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -196,7 +196,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +222,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
-- 
2.43.0


From 0ee071352bc1a2579712b39035bf0996f368c628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:42 +0000
Subject: [PATCH 14/25] fix: a refused insertion must not use up free storage
 of the tree

---
 src/tree.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index d380a64..9c76017 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,12 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        // A refused insertion must leave the tree as it is
+        if let Some(parent_id) = parent
+            && !self.node_exists(parent_id)
+        {
+            return Err(NodeDoesNotExist { node_id: parent_id });
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +100,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
-- 
2.43.0


From e7dbabbb326ea4e2d955f322552f60476e5ef83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 15/25] fix: do not list the children of another node for the
 handle of a removed one

---
 src/tree.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 9c76017..bc76b83 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -142,7 +142,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let Ok(node) = self.get_node(node_id) else {
+            return children;
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
-- 
2.43.0


From 3a093428f4a3df95b9b5e6bed119859a67de5537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:40 +0000
Subject: [PATCH 16/25] fix: report an index into an empty named graph instead
 of underflowing

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From 67534e9ca6b1df9fab2e347cf83a77b1209d111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 17/25] fix: let the stack machine record results that do not
 fit instead of panicking

---
 src/vms/stack_vm.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..eaa3b85 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -34,6 +34,27 @@ pub struct StackVmState {
 }
 pub struct StackVm {}
 
+/// Value of the error field if the result of an instruction does not fit.
+const RESULT_DOES_NOT_FIT: usize = 3;
+
+fn push_result(state: &mut StackVmState, res: Option<isize>) {
+    match res {
+        Some(res) => state.stack.push(res),
+        None => state.error = RESULT_DOES_NOT_FIT,
+    }
+}
+
+/// Computes `val * base ^ exp + add`, or None if the result is no integer that fits.
+fn shift_digits(val: isize, base: usize, exp: isize, add: isize) -> Option<isize> {
+    let exp = usize::try_from(exp).ok()?;
+    if val == 0 {
+        return Some(add);
+    }
+    let factor = base.checked_pow(u32::try_from(exp).unwrap_or(u32::MAX))?;
+    let res = (val as i128).checked_mul(factor as i128)?;
+    isize::try_from(res.checked_add(add as i128)?).ok()
+}
+
 impl VM for StackVm {
     type Tstate = StackVmState;
     type Tinstrution = Instruction;
@@ -98,16 +119,16 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    let res = state.reg.checked_add(var);
+                    push_result(state, res);
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    let res = var.checked_sub(state.reg);
+                    push_result(state, res);
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +188,8 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = shift_digits(val, *base, state.reg, state.reg2);
+                    push_result(state, res);
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +197,10 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = RESULT_DOES_NOT_FIT,
+                }
             }
         }
     }
-- 
2.43.0


From f603e9db405ad753037dd9231ee42e66c47ae320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:57 +0000
Subject: [PATCH 18/25] fix: let the simple stack machine record results that
 do not fit instead of panicking

---
 src/vms/simple_stack_vm.rs | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..9c84a97 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -30,6 +30,25 @@ pub enum Instruction {
 
 pub struct SimpleStackVm {}
 
+/// Value of the error field if the result of an instruction does not fit.
+const RESULT_DOES_NOT_FIT: usize = 3;
+
+fn push_result(state: &mut SimpleStackVmState, res: Option<usize>) {
+    match res {
+        Some(res) => state.stack.push(res),
+        None => state.error = RESULT_DOES_NOT_FIT,
+    }
+}
+
+/// Computes `val * base ^ exp + add`, or None if the result does not fit.
+fn shift_digits(val: usize, base: usize, exp: usize, add: usize) -> Option<usize> {
+    if val == 0 {
+        return Some(add);
+    }
+    let factor = base.checked_pow(u32::try_from(exp).unwrap_or(u32::MAX))?;
+    val.checked_mul(factor)?.checked_add(add)
+}
+
 impl VM for SimpleStackVm {
     type Tstate = SimpleStackVmState;
     type Tinstrution = Instruction;
@@ -74,16 +93,16 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    let res = state.reg.checked_add(var);
+                    push_result(state, res);
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    let res = var.checked_sub(state.reg);
+                    push_result(state, res);
                 } else {
                     state.error = 1
                 }
@@ -143,8 +162,8 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = shift_digits(val, *base, state.reg, state.reg2);
+                    push_result(state, res);
                 } else {
                     state.error = 1
                 }
@@ -152,7 +171,10 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                match state.reg.checked_add(*c) {
+                    Some(res) => state.reg = res,
+                    None => state.error = RESULT_DOES_NOT_FIT,
+                }
             }
         }
     }
-- 
2.43.0


From 46bd53339845e072c7ec113d0fce23c8564593bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:28 +0000
Subject: [PATCH 19/25] fix: refuse a constant in action code that does not fit
 instead of wrapping it

---
 src/vms/stack_vm.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index eaa3b85..44bba3e 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -44,6 +44,15 @@ fn push_result(state: &mut StackVmState, res: Option<isize>) {
     }
 }
 
+fn parse_constant<T>(to_parse: &mut ParseProcess<T>) -> Result<isize, ParserError>
+where
+    T: TPeekable<Item = char>,
+{
+    isize::try_from(parse_usize(to_parse)?).map_err(|_| ParserError::VmError {
+        message: String::from("constant does not fit"),
+    })
+}
+
 /// Computes `val * base ^ exp + add`, or None if the result is no integer that fits.
 fn shift_digits(val: isize, base: usize, exp: isize, add: isize) -> Option<isize> {
     let exp = usize::try_from(exp).ok()?;
@@ -77,8 +86,8 @@ impl VM for StackVm {
                 "Add" => instructions.push(Instruction::Add),
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    let val = parse_constant(to_parse)?;
+                    instructions.push(Instruction::RegAddConst(val));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -87,8 +96,8 @@ impl VM for StackVm {
                 "PopDiscard" => instructions.push(Instruction::PopDiscard),
                 "PushConst" => {
                     parse_whitespace(to_parse);
-                    let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    let val = parse_constant(to_parse)?;
+                    instructions.push(Instruction::PushConst(val));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From 9976e3eb2fbc9d4451b90f52bbbaac031954b87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 20/25] fix: parse scripts of any length and depth without
 overflowing the stack

---
 src/script_parser.rs | 73 +++++++++++++++++++++++++++-----------------
 1 file changed, 45 insertions(+), 28 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 9e4442d..a5e7f9e 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -5,6 +5,7 @@
 
 use std::collections::HashMap;
 use std::rc::Rc;
+use std::slice::Iter;
 use std::str::Chars;
 
 use crate::parser_data::{ElementIndex, ElementType, ElementVerbose, ParserData, Production};
@@ -263,6 +264,46 @@ where
         tree: &mut Tree<String>,
         current_node: Option<NodeId>,
     ) -> Result<(), ParserError> {
+        // rule applications that are not complete yet, the innermost one last; not
+        // recursive, because a script may be nested deeper than the stack allows
+        let mut open = vec![self.open_production(to_parse, el_index, tree, current_node)?];
+        while let Some((nt_rule, id, elements)) = open.last_mut() {
+            let id = *id;
+            if let Some(next_element_index) = elements.next() {
+                let element_next = self.elements.get(*next_element_index).unwrap().clone();
+
+                match element_next.et {
+                    ElementType::Terminal => {
+                        let _ = tree.add_node(
+                            self.parse_terminal(to_parse, element_next.name.as_str())?,
+                            Some(id),
+                        );
+                    }
+                    ElementType::NonTerminal => {
+                        open.push(self.open_production(
+                            to_parse,
+                            *next_element_index,
+                            tree,
+                            Some(id),
+                        )?);
+                    }
+                }
+            } else {
+                self.run_instructions(tree, id, &nt_rule.instruction, state);
+                open.pop();
+            }
+        }
+
+        Ok(())
+    }
+
+    fn open_production(
+        &self,
+        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
+        el_index: ElementIndex,
+        tree: &mut Tree<String>,
+        current_node: Option<NodeId>,
+    ) -> Result<(&NTRules<T>, NodeId, Iter<'_, ElementIndex>), ParserError> {
         let cur = SetMember::from(to_parse.peek());
         let nt_rule = self
             .rules_with_steuermaps
@@ -274,36 +315,12 @@ where
         let id = tree.add_node(String::from(""), current_node)?;
 
         let prod = &**fitting_production;
-        match prod {
-            Production::NotEmpty(prod_not_empty) => {
-                for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
-
-                    match element_next.et {
-                        ElementType::Terminal => {
-                            let _ = tree.add_node(
-                                self.parse_terminal(to_parse, element_next.name.as_str())?,
-                                Some(id),
-                            );
-                        }
-                        ElementType::NonTerminal => {
-                            self.parse_production(
-                                to_parse,
-                                *next_element_index,
-                                state,
-                                tree,
-                                Some(id),
-                            )?;
-                        }
-                    }
-                }
-            }
-            Production::Empty => {}
+        let elements = match prod {
+            Production::NotEmpty(prod_not_empty) => prod_not_empty.iter(),
+            Production::Empty => [].iter(),
         };
 
-        self.run_instructions(tree, id, &nt_rule.instruction, state);
-
-        Ok(())
+        Ok((nt_rule, id, elements))
     }
 
     fn run_instructions(
-- 
2.43.0


From af648abc0cf3392822ad8a8a9e5650739f4d24f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:23 +0000
Subject: [PATCH 21/25] fix: list the descendants of deep tree nodes without
 overflowing the stack

---
 src/tree.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index bc76b83..e83cbaa 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -131,11 +131,12 @@ impl<T> Tree<T> {
 
     pub fn get_descendants(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut descendants = vec![];
-        let children = self.get_children(node_id);
-        descendants.extend(&children);
-        for child in children {
-            let child_descendants = self.get_descendants(child);
-            descendants.extend(child_descendants);
+        // not recursive, because a tree may be deeper than the stack allows
+        let mut pending = vec![node_id];
+        while let Some(node_id) = pending.pop() {
+            let children = self.get_children(node_id);
+            descendants.extend(&children);
+            pending.extend(children.into_iter().rev());
         }
         descendants
     }
-- 
2.43.0


From d71e398e6547909e8b95e479ebb5ce3d49064c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:04 +0000
Subject: [PATCH 22/25] fix: look for an ignored rule in deep grammars without
 overflowing the stack

---
 src/rule_parsing.rs | 68 +++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 37 deletions(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 584e612..4b04538 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -412,48 +412,42 @@ fn _check_is_derivative<T>(
 where
     T: VM,
 {
-    if let ElementType::Terminal = element_types.get(left).unwrap() {
-        return Ok(false);
-    }
-    let prods = &parse_rules
-        .rules
-        .get(&left)
-        .ok_or(ParserError::InternalError {
-            message: format!("could not find production for index {left}"),
-        })?
-        .possible_productions;
-
-    if left == right {
-        return Ok(true);
-    }
-    if visited.contains(&left) {
-        return Ok(false);
-    }
-    visited.insert(left.clone());
-
-    let mut is_der = false;
-    for prod in prods {
-        match &**prod {
-            Production::NotEmpty(prod_ne, ..) => {
-                for el in prod_ne {
-                    if *el == right {
-                        return Ok(true);
-                    } else {
-                        is_der = is_der
-                            || _check_is_derivative(
-                                element_types,
-                                parse_rules,
-                                *el,
-                                right,
-                                visited,
-                            )?;
+    // not recursive, because a grammar may be deeper than the stack allows
+    let mut pending = vec![left];
+    while let Some(left) = pending.pop() {
+        if let ElementType::Terminal = element_types.get(left).unwrap() {
+            continue;
+        }
+        let prods = &parse_rules
+            .rules
+            .get(&left)
+            .ok_or(ParserError::InternalError {
+                message: format!("could not find production for index {left}"),
+            })?
+            .possible_productions;
+
+        if left == right {
+            return Ok(true);
+        }
+        if !visited.insert(left) {
+            continue;
+        }
+
+        for prod in prods {
+            match &**prod {
+                Production::NotEmpty(prod_ne, ..) => {
+                    for el in prod_ne {
+                        if *el == right {
+                            return Ok(true);
+                        }
+                        pending.push(*el);
                     }
                 }
+                Production::Empty => {}
             }
-            Production::Empty => {}
         }
     }
-    Ok(is_der)
+    Ok(false)
 }
 
 #[cfg(test)]
-- 
2.43.0


From b087fb0f0f17f238a05e8818b525c208bac0e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 23/25] fix: compute FIRST sets of deep grammars without
 overflowing the stack

---
 src/first_sets.rs | 138 ++++++++++++++++++++++++----------------------
 1 file changed, 71 insertions(+), 67 deletions(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index 707ac18..5178ae8 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -47,47 +47,91 @@ where
 {
     let mut first_sets: NamedSets = HashMap::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data, &mut HashSet::new())?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
     }
     Ok(first_sets)
 }
 
+/// A rule whose first set is being computed and how far its productions have been looked at.
+struct RuleInProgress {
+    el_ix: ElementIndex,
+    set: HashSet<SetMemberWithEmpty>,
+    production: usize,
+    element: usize,
+}
+
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
     parser_data: &ParserData<T>,
-    in_progress: &mut HashSet<ElementIndex>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
+) -> Result<(), GrammarError>
 where
     T: VM,
 {
-    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
-    let res = match set_maybe {
-        None => {
-            // needing the set of a rule while computing it means that the rule is left recursive
-            if !in_progress.insert(el_ix) {
-                return Err(GrammarError::LeftRecursion { index: el_ix });
+    // not recursive, because a grammar may be deeper than the stack allows
+    let mut pending: Vec<RuleInProgress> = vec![];
+    let mut in_progress: HashSet<ElementIndex> = HashSet::new();
+    let mut needed = Some(el_ix);
+    loop {
+        if let Some(el_ix) = needed.take() {
+            if get_first_set_of_element(el_ix, first_sets, parser_data)?.is_none() {
+                // needing the set of a rule while computing it means that the rule is left recursive
+                if !in_progress.insert(el_ix) {
+                    return Err(GrammarError::LeftRecursion { index: el_ix });
+                }
+                pending.push(RuleInProgress {
+                    el_ix,
+                    set: HashSet::new(),
+                    production: 0,
+                    element: 0,
+                });
             }
-            let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
-            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
-                    return Err(GrammarError::MissingProduction { index: el_ix });
-                };
-            for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(
-                    production,
-                    first_sets,
-                    parser_data,
-                    in_progress,
-                )?;
-                set.extend(&rus);
+        }
+        let Some(mut rule) = pending.pop() else {
+            return Ok(());
+        };
+        let Some(productions) = parser_data.parse_rules.rules.get(&rule.el_ix) else {
+            return Err(GrammarError::MissingProduction { index: rule.el_ix });
+        };
+        while let Some(production) = productions.possible_productions.get(rule.production) {
+            let next_element = match &**production {
+                Production::Empty => None,
+                Production::NotEmpty(el_ixs) => el_ixs.get(rule.element),
+            };
+            let has_empty = match next_element {
+                None => {
+                    // every element of the production can be empty
+                    rule.set.insert(SetMemberWithEmpty::Empty);
+                    false
+                }
+                Some(&el_ix) => {
+                    let Some(cur_set) = get_first_set_of_element(el_ix, first_sets, parser_data)?
+                    else {
+                        needed = Some(el_ix);
+                        break;
+                    };
+                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
+                    let without_empty = cur_set
+                        .into_iter()
+                        .filter(|member| *member != SetMemberWithEmpty::Empty);
+                    rule.set.extend(without_empty);
+                    has_empty
+                }
+            };
+            if has_empty {
+                rule.element += 1;
+            } else {
+                rule.production += 1;
+                rule.element = 0;
             }
-            in_progress.remove(&el_ix);
-            first_sets.insert(el_ix, set.clone());
-            Ok(set)
         }
-        Some(x) => Ok(x),
-    };
-    res
+        if needed.is_some() {
+            pending.push(rule);
+        } else {
+            in_progress.remove(&rule.el_ix);
+            first_sets.insert(rule.el_ix, rule.set);
+        }
+    }
 }
 
 fn get_first_set_of_element<T>(
@@ -113,46 +157,6 @@ where
     Ok(res)
 }
 
-fn get_first_set_of_production<T>(
-    production: &Production,
-    first_sets: &mut NamedSets,
-    parser_data: &ParserData<T>,
-    in_progress: &mut HashSet<ElementIndex>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
-where
-    T: VM,
-{
-    match production {
-        Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
-        Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(
-                    *el_ixs.first().unwrap(),
-                    first_sets,
-                    parser_data,
-                    in_progress,
-                )?;
-            if first_menge.contains(&SetMemberWithEmpty::Empty) {
-                for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(
-                        *el_ix,
-                        first_sets,
-                        parser_data,
-                        in_progress,
-                    )?;
-                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
-                    first_menge.extend(cur_set);
-                    if !has_empty {
-                        first_menge.remove(&SetMemberWithEmpty::Empty);
-                        break;
-                    }
-                }
-            }
-            Ok(first_menge)
-        }
-    }
-}
-
 #[cfg(test)]
 mod tests {
     use crate::parser_data::ElementVerbose;
-- 
2.43.0


From ee909f9c7e8ceda2927dec2ff9c220b7fe1c86a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:24 +0000
Subject: [PATCH 24/25] fix: weave the ignore production only into what the
 text being read adds

Reading a further text into the same grammar data wove the ignore
production a second time into rules of earlier texts, and rules that had
only instructions so far were not woven at all.
---
 src/rule_parsing.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 4b04538..e9c2186 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -50,6 +50,14 @@ where
     }
 
     pub fn parse_rules(&mut self) -> Result<&ParseRules<T>, ParserError> {
+        // how many productions each rule has already, before this text is read
+        let known_productions: HashMap<ElementIndex, usize> = self
+            .parser_data
+            .parse_rules
+            .rules
+            .iter()
+            .map(|(rule_key, rule)| (*rule_key, rule.possible_productions.len()))
+            .collect();
         self.parse_whitespace();
         self.parse_special_operation()?;
         loop {
@@ -58,9 +66,9 @@ where
                 break;
             }
             let (rule_name, rule) = self.parse_rule()?;
-            self.merge_rule(rule, rule_name);
+            self.merge_rule(rule, rule_name, &known_productions);
         }
-        self.edit_rules()?;
+        self.edit_rules(&known_productions)?;
         Ok(&self.parser_data.parse_rules)
     }
 
@@ -87,7 +95,10 @@ where
         Ok(())
     }
 
-    fn edit_rules(&mut self) -> Result<(), ParserError> {
+    fn edit_rules(
+        &mut self,
+        known_productions: &HashMap<ElementIndex, usize>,
+    ) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
             weave_in: bool,
@@ -123,7 +134,8 @@ where
             let mut ignore_new = rule.ignore.clone();
             if let Some(ignore) = &rule.ignore {
                 if action.weave_in {
-                    possible_productions = self.weave_in_ignorers(&rule, *ignore);
+                    let known = known_productions.get(&rule_name).copied().unwrap_or(0);
+                    possible_productions = self.weave_in_ignorers(&rule, *ignore, known);
                 } else {
                     ignore_new = None;
                     possible_productions = rule.possible_productions;
@@ -145,8 +157,18 @@ where
         Ok(())
     }
 
-    fn merge_rule(&mut self, mut rule: NonTerminalRules<T>, rule_key: ElementIndex) {
+    fn merge_rule(
+        &mut self,
+        mut rule: NonTerminalRules<T>,
+        rule_key: ElementIndex,
+        known_productions: &HashMap<ElementIndex, usize>,
+    ) {
         if let Some(rule_to_change) = self.parser_data.parse_rules.rules.get_mut(&rule_key) {
+            let known = known_productions.get(&rule_key);
+            if known == Some(&rule_to_change.possible_productions.len()) {
+                // the first statement of this text for a rule that was there before
+                rule_to_change.ignore = rule.ignore;
+            }
             rule_to_change
                 .possible_productions
                 .append(&mut rule.possible_productions)
@@ -185,9 +207,11 @@ where
         &self,
         rule: &NonTerminalRules<T>,
         ignore: ElementIndex,
+        known: usize,
     ) -> Vec<Rc<Production>> {
-        let mut weaved_productions = vec![];
-        for production in rule.possible_productions.iter() {
+        // what was there before this text was read stays as it is
+        let mut weaved_productions = rule.possible_productions[..known].to_vec();
+        for production in rule.possible_productions[known..].iter() {
             let weaved_production =
                 Rc::new(self.weave_in_ignorers_single_production(production.clone(), ignore));
             weaved_productions.push(weaved_production);
-- 
2.43.0


From c44486da0d364715c4c24345e2bba872c17899a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 25/25] fix: take file names that are not valid Unicode from
 the command line

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 8093720..b26aab1 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -2,6 +2,7 @@ extern crate core;
 
 use henriks_parsing_project::script_parser::Parser;
 use henriks_parsing_project::vms::{NullVm, VM};
+use std::ffi::OsString;
 use std::{env, fs};
 
 /// Main entry point for the command-line tool.
@@ -15,7 +16,7 @@ use std::{env, fs};
 /// It parses the script according to the grammar rules and returns the parse tree.
 
 fn main() {
-    let args: Vec<String> = env::args().collect();
+    let args: Vec<OsString> = env::args_os().collect();
     let rule_path = &args[1];
     let script_path = &args[2];
     let rules = fs::read_to_string(rule_path).expect("Unable to read rule file");
-- 
2.43.0

