From b34336478d4b1af71bb0a601590f630bd528b492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 01/18] fix: make the tree module public so that the VM trait
 can be implemented outside the crate

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index d1c2aa0..c28e426 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -60,5 +60,5 @@ pub mod simple_graph;
 pub mod steuer_map;
 pub mod steuer_sets;
 pub mod test_helpers;
-mod tree;
+pub mod tree;
 pub mod vms;
-- 
2.43.0


From e8fcea539d927844bdf0b602d3f238840b4aef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 02/18] fix: parse from the start symbol given to
 new_from_parser_data instead of the one named start

---
 src/script_parser.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index de9af83..1131510 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -60,6 +60,8 @@ where
     rules_with_steuermaps: HashMap<ElementIndex, NTRules<T>>,
     /// List of all grammar elements (terminals and non-terminals)
     elements: Vec<ElementVerbose>,
+    /// The start symbol, if one was chosen explicitly. Otherwise it is the non-terminal "start"
+    start_index: Option<ElementIndex>,
 }
 
 impl<'a, T> Parser<'a, T>
@@ -113,6 +115,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -141,7 +144,8 @@ where
         let elements_verbose = parser_data.get_elements_verbose();
         let rules_with_steuermaps = get_steuermaps(&first_dict, &follow_dict, parser_data).unwrap();
 
-        let parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        let mut parser = Parser::new(rules_with_steuermaps, elements_verbose, &vm);
+        parser.start_index = Some(start_idx);
         parser
     }
 
@@ -167,6 +171,7 @@ where
             vm,
             rules_with_steuermaps,
             elements,
+            start_index: None,
         }
     }
 
@@ -204,13 +209,14 @@ where
     ) -> Result<Tree<String>, ParserError> {
         let mut peekable = PeekableWrapper::<Chars>::new(to_parse.chars().peekable());
         let mut to_parse = ParseProcess::<PeekableWrapper<Chars>>::new(&mut peekable, None, None);
-        let start_index = self
-            .elements
-            .iter()
-            .position(|r| {
-                *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
-            })
-            .unwrap();
+        let start_index = self.start_index.unwrap_or_else(|| {
+            self.elements
+                .iter()
+                .position(|r| {
+                    *r == ElementVerbose::new(String::from("start"), ElementType::NonTerminal)
+                })
+                .unwrap()
+        });
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
-- 
2.43.0


From 4f1381a07e768f04fd8835c2cbe1ff907b6d04b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:40 +0000
Subject: [PATCH 03/18] fix: reject scripts with text left over after the start
 production

---
 src/script_parser.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 1131510..7684e5b 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -220,6 +220,13 @@ where
         let mut tree = Tree::new();
 
         self.parse_production(&mut to_parse, start_index, state, &mut tree, None)?;
+        if let Some(&chr) = to_parse.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: to_parse.cur_pos(),
+                expected: SetMember::Terminate.into(),
+            });
+        }
         Ok(tree)
     }
 
-- 
2.43.0


From ca1fb928967108c6948c13329b97a834c139683a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 04/18] fix: choose alternatives by the FIRST set of their
 whole right side

The table used the steuer set of the first element only, so an alternative starting with an
optional element claimed everything that can follow that element anywhere in the grammar, and
LL(1) grammars were rejected as not distinct. An empty terminal text made it panic.
---
 src/steuer_map.rs | 70 ++++++++++++++++++++++-------------------------
 1 file changed, 32 insertions(+), 38 deletions(-)

diff --git a/src/steuer_map.rs b/src/steuer_map.rs
index 63c1a2b..6e4be8d 100644
--- a/src/steuer_map.rs
+++ b/src/steuer_map.rs
@@ -3,16 +3,17 @@
 //! A steuer map links a lookahead symbol to a specific production. This module
 //! turns FIRST/FOLLOW/Steuer information into executable tables used by Parser.
 use std::collections::{HashMap, HashSet};
+use std::mem;
 use std::rc::Rc;
 
-use crate::parser_data::{ElementData, ElementIndex, ElementType, ParserData};
+use crate::parser_data::{ElementIndex, ParserData};
 use crate::vms::VM;
 
 use crate::errors::GrammarError;
-use crate::errors::GrammarError::{MissingFollowSet, MissingSteuerSet, SteuerSetsNotDistinct};
+use crate::errors::GrammarError::{MissingFollowSet, SteuerSetsNotDistinct};
+use crate::first_sets::first_set_of_partial;
 use crate::parser_data::Production;
-use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember};
-use crate::steuer_sets::get_steuer_sets;
+use crate::sets::{NamedSets, NamedSetsNoEmpty, SetMember, SetMemberWithEmpty};
 
 /// Forgot what NT means here. NonTerminal?
 pub struct NTRules<T>
@@ -29,25 +30,24 @@ pub type Steuermap = HashMap<SetMember, Rc<Production>>;
 pub fn get_steuermaps<T>(
     first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
-    parser_data: ParserData<T>,
+    mut parser_data: ParserData<T>,
 ) -> Result<HashMap<ElementIndex, NTRules<T>>, GrammarError>
 where
     T: VM,
 {
-    let steuer_sets = get_steuer_sets(first_sets, follow_sets)?;
     let mut steuer_maps = HashMap::new();
-    for (rule_name, productions) in parser_data.parse_rules.rules.into_iter() {
+    let rules = mem::take(&mut parser_data.parse_rules.rules);
+    for (rule_name, productions) in rules.into_iter() {
         let mut steuermap = Steuermap::new();
 
         for prod in productions.possible_productions.into_iter() {
             steuermap_of_production(
-                &steuer_sets,
+                first_sets,
                 follow_sets,
                 &mut steuermap,
                 prod,
                 rule_name,
-                &parser_data.element_types,
-                &parser_data.element_data,
+                &parser_data,
             )?;
         }
         steuer_maps.insert(
@@ -62,43 +62,37 @@ where
     Ok(steuer_maps)
 }
 
-fn steuermap_of_production(
-    steuer_sets: &NamedSetsNoEmpty,
+fn steuermap_of_production<T>(
+    first_sets: &NamedSets,
     follow_sets: &NamedSetsNoEmpty,
     steuer_map: &mut Steuermap,
     prod: Rc<Production>,
     cur_rule_name: ElementIndex,
-    el_types: &[ElementType],
-    el_data: &[ElementData],
-) -> Result<(), GrammarError> {
+    parser_data: &ParserData<T>,
+) -> Result<(), GrammarError>
+where
+    T: VM,
+{
     let prod_ref = Rc::clone(&prod);
     let prod = &*prod;
     match prod {
         Production::NotEmpty(el) => {
-            let first = el[0];
-            let et = el_types
-                .get(first)
-                .ok_or(GrammarError::MissingElementForIndex { index: first })?;
-            match et {
-                ElementType::Terminal => {
-                    let name = el_data.get(first).unwrap().name.clone();
-                    let old_key =
-                        steuer_map.insert(SetMember::Char(name.chars().next().unwrap()), prod_ref);
-                    if old_key.is_some() {
-                        return Err(SteuerSetsNotDistinct {
-                            steuer_terminal: name.clone(),
-                            steuer_char: name.chars().next().unwrap(),
-                            rule_name: cur_rule_name.to_string(),
-                        });
-                    }
-                }
-                ElementType::NonTerminal => {
-                    let steuer_menge = steuer_sets
-                        .get(&first)
-                        .ok_or(MissingSteuerSet { index: first })?;
-                    fill_with_steuer_set(steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
-                }
+            // The whole right side decides, not only its first element: if the first element can
+            // be empty, the production can be chosen by what follows that element here, but not
+            // by what follows it elsewhere.
+            let first_set = first_set_of_partial(el, first_sets, parser_data)?;
+            let mut steuer_menge = first_set
+                .iter()
+                .filter_map(|member| SetMember::try_from(*member).ok())
+                .collect::<HashSet<_>>();
+            if first_set.contains(&SetMemberWithEmpty::Empty) {
+                let follow_set = follow_sets.get(&cur_rule_name).ok_or(MissingFollowSet {
+                    index: cur_rule_name,
+                })?;
+                steuer_menge.extend(follow_set);
             }
+            fill_with_steuer_set(&steuer_menge, steuer_map, &prod_ref, cur_rule_name)?;
+
             Ok(())
         }
         Production::Empty => {
-- 
2.43.0


From 3854678341efc8b4ef507d26dbbbe4ef72d292eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:17 +0000
Subject: [PATCH 05/18] fix: report left recursive grammars instead of
 overflowing the stack

---
 src/errors.rs        |  6 ++++++
 src/first_sets.rs    | 27 ++++++++++++++++++++++-----
 src/script_parser.rs |  2 --
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 7a1a718..b9b4fef 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -104,6 +104,9 @@ pub enum GrammarError {
         reason: String,
         pos: usize,
     },
+    LeftRecursion {
+        index: ElementIndex,
+    },
     GraphNodeAlreadyExistsError {
         node_name: usize,
     },
@@ -137,6 +140,9 @@ impl fmt::Display for GrammarError {
             GrammarError::UnexpectedElementError { reason, pos } => {
                 write!(f, " \"{reason}\" at pos {pos} was not expected")
             }
+            GrammarError::LeftRecursion { index } => {
+                write!(f, " \"{index}\" is left recursive")
+            }
             GrammarError::GraphNodeAlreadyExistsError { .. } => {
                 write!(f, "graph node already exists")
             }
diff --git a/src/first_sets.rs b/src/first_sets.rs
index b12bc9f..b030293 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -46,8 +46,9 @@ where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
+    let mut in_progress = HashSet::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, &mut in_progress, parser_data)?;
     }
     Ok(first_sets)
 }
@@ -55,6 +56,7 @@ where
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -67,10 +69,15 @@ where
             let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
                     return Err(GrammarError::MissingProduction { index: el_ix });
                 };
+            if !in_progress.insert(el_ix) {
+                return Err(GrammarError::LeftRecursion { index: el_ix });
+            }
             for production in &productions.possible_productions {
-                let rus = get_first_set_of_production(production, first_sets, parser_data)?;
+                let rus =
+                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
                 set.extend(&rus);
             }
+            in_progress.remove(&el_ix);
             first_sets.insert(el_ix, set.clone());
             Ok(set)
         }
@@ -105,6 +112,7 @@ where
 fn get_first_set_of_production<T>(
     production: &Production,
     first_sets: &mut NamedSets,
+    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
@@ -113,11 +121,20 @@ where
     match production {
         Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
         Production::NotEmpty(el_ixs) => {
-            let mut first_menge =
-                get_set_first_set_of_element(*el_ixs.first().unwrap(), first_sets, parser_data)?;
+            let mut first_menge = get_set_first_set_of_element(
+                *el_ixs.first().unwrap(),
+                first_sets,
+                in_progress,
+                parser_data,
+            )?;
             if first_menge.contains(&SetMemberWithEmpty::Empty) {
                 for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(*el_ix, first_sets, parser_data)?;
+                    let cur_set = get_set_first_set_of_element(
+                        *el_ix,
+                        first_sets,
+                        in_progress,
+                        parser_data,
+                    )?;
                     let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
                     first_menge.extend(cur_set);
                     if !has_empty {
diff --git a/src/script_parser.rs b/src/script_parser.rs
index 7684e5b..6cb8287 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -21,8 +21,6 @@ use crate::rule_parsing::RuleParser;
 use crate::sets::SetMember;
 use crate::steuer_map::{NTRules, get_steuermaps};
 
-//TODO detect left recursive rules that lead to nonterminating of get_first_sets
-
 /// The Parser is the core component of the library, responsible for parsing input text
 /// according to grammar rules and executing associated VM instructions.
 ///
-- 
2.43.0


From 5e957b18187e5daf499fa9f335080301aa8d929c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:29 +0000
Subject: [PATCH 06/18] fix: read the documented $IGNORE directive in rule
 files

---
 src/rule_parsing.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 92782b2..7b90f5b 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -55,6 +55,10 @@ where
             if self.parse_process.peek().is_none() {
                 break;
             }
+            if self.parse_symbol('$').is_ok() {
+                self.parse_special_operation()?;
+                continue;
+            }
             let (rule_name, rule) = self.parse_rule()?;
             self.merge_rule(rule, rule_name);
         }
@@ -62,6 +66,24 @@ where
         Ok(&self.parser_data.parse_rules)
     }
 
+    /// Parses the rest of a special directive like `$IGNORE: production_name;`.
+    fn parse_special_operation(&mut self) -> Result<(), ParserError> {
+        let pos = self.parse_process.cur_pos();
+        let operation = parse_var_name(&mut self.parse_process)?;
+        if operation != "IGNORE" {
+            return Err(ParserError::UnknownSpecialOperation { operation, pos });
+        }
+        self.parse_whitespace();
+        self.parse_symbol(':')?;
+        self.parse_whitespace();
+        let ignored = parse_var_name(&mut self.parse_process)?;
+        self.parse_whitespace();
+        self.parse_symbol(';')?;
+        self.parser_data.parse_rules.ignore =
+            Some(self.parser_data.get_or_add_non_terminal(&ignored));
+        Ok(())
+    }
+
     fn edit_rules(&mut self) -> Result<(), ParserError> {
         let mut edited_rules = RuleMap::new();
         struct Action {
-- 
2.43.0


From 6a471880e5f18577f3cebd532b071e889911d96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:44 +0000
Subject: [PATCH 07/18] fix: make looking ahead in a ParseProcess free of side
 effects

Peeking at an escaped stop character used up the escape, so the following next() stopped there.
A stop character without an escape character was ignored, and peek_mut looked past the stop.
---
 src/peekables.rs | 46 +++++++++++++++++++++-------------------------
 1 file changed, 21 insertions(+), 25 deletions(-)

diff --git a/src/peekables.rs b/src/peekables.rs
index 401ae2d..87ac2d8 100644
--- a/src/peekables.rs
+++ b/src/peekables.rs
@@ -135,10 +135,7 @@ where
             return None;
         }
         let res = self.to_parse.next();
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_consumed(res)
     }
 }
 
@@ -154,6 +151,9 @@ where
     }
 
     fn peek_mut(&mut self) -> Option<&mut char> {
+        if !self.check_allowed() {
+            return None;
+        }
         self.to_parse.peek_mut()
     }
     fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
@@ -161,10 +161,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if(func);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_consumed(res)
     }
 
     fn next_if_eq(&mut self, expected: &char) -> Option<char> {
@@ -172,10 +169,7 @@ where
             return None;
         }
         let res = self.to_parse.next_if_eq(expected);
-        if res.is_some() {
-            self.current_position += 1
-        }
-        res
+        self.note_consumed(res)
     }
 }
 
@@ -184,19 +178,21 @@ where
     T: TPeekable<Item = char>,
 {
     fn check_allowed(&mut self) -> bool {
-        let next = self.to_parse.peek();
-        if let (Some(&c), Some(escape_char), Some(stop_char)) =
-            (next, self.escape_char, self.stop_on)
-        {
-            if c == escape_char {
-                self.escape = true;
-            } else if c == stop_char && !self.escape {
-                return false;
-            } else {
-                self.escape = false;
-            }
+        let Some(stop_char) = self.stop_on else {
+            return true;
+        };
+        match self.to_parse.peek() {
+            Some(&c) if c == stop_char => self.escape || self.escape_char == Some(c),
+            _ => true,
         }
-        true
     }
-}
 
+    /// Only consuming a character may change the escape state, looking ahead must not.
+    fn note_consumed(&mut self, consumed: Option<char>) -> Option<char> {
+        if consumed.is_some() {
+            self.current_position += 1;
+            self.escape = consumed == self.escape_char;
+        }
+        consumed
+    }
+}
-- 
2.43.0


From 884c543989e3b706bc5989b0c4b459521c7af847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 08/18] fix: keep removed tree nodes removed

Removed nodes were looked up by pk instead of slot, a removed slot was freed twice, and a refused
add_node dropped a free slot and so revived the node in it. Stale handles listed the children of
whichever node had taken over their slot.
---
 src/tree.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 02cf0d4..016462f 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -70,6 +70,11 @@ impl<T> Tree<T> {
         }
     }
     pub fn add_node(&mut self, data: T, parent: Option<NodeId>) -> Result<NodeId, TreeError> {
+        if let Some(parent_id) = parent {
+            if !self.node_exists(parent_id) {
+                return Err(NodeDoesNotExist { node_id: parent_id });
+            }
+        }
         // Get the next free index
         let mut reused_index = false;
         let next_index = match self.free_node_indexes.pop() {
@@ -94,9 +99,6 @@ impl<T> Tree<T> {
                 pk
             }
             Some(parent_id) => {
-                if !self.node_exists(parent_id) {
-                    return Err(NodeDoesNotExist { node_id: parent_id });
-                }
                 let pk = self
                     .counter
                     .fetch_add(1, std::sync::atomic::Ordering::Relaxed);
@@ -139,7 +141,9 @@ impl<T> Tree<T> {
 
     pub fn get_children(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut children = vec![];
-        let node = &self.nodes[node_id.node_ptr];
+        let Ok(node) = self.get_node(node_id) else {
+            return children;
+        };
         let mut cur_children_ix = node.first_child;
         while let Some(child_index) = cur_children_ix {
             let cur_children = &self.nodes[child_index];
@@ -196,7 +200,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return Err(NodeDoesNotExist { node_id });
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return Err(NodeWasRemoved { node_id });
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -222,7 +226,7 @@ impl<T> Tree<T> {
         if node_id.node_ptr >= self.nodes.len() {
             return false;
         }
-        if self.free_node_indexes.contains(&node_id.node_pk) {
+        if self.free_node_indexes.contains(&node_id.node_ptr) {
             return false;
         }
         let current_node = &self.nodes[node_id.node_ptr];
@@ -241,7 +245,6 @@ impl<T> Tree<T> {
             .map(|x| x.node_ptr)
             .collect::<Vec<usize>>();
         nodes_to_free.push(node_id.node_ptr);
-        nodes_to_free.push(node_id.node_ptr);
 
         let next_sibling_id = node.next_sibling;
         let previous_sibling_id = node.previous_sibling;
-- 
2.43.0


From 2c5a522aee4c50abc6b2e31fa5f30872367b9d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:07 +0000
Subject: [PATCH 09/18] fix: report a missing index of an empty named graph
 instead of panicking

---
 src/named_graph.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/named_graph.rs b/src/named_graph.rs
index a37e035..9aeb3ac 100644
--- a/src/named_graph.rs
+++ b/src/named_graph.rs
@@ -78,7 +78,7 @@ impl<Ta> GraphNamedNodes<Ta> {
     }
 
     pub fn get_node_by_index(&self, index: NodeIndex) -> Result<&NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&self.graph.nodes[index])
@@ -87,7 +87,7 @@ impl<Ta> GraphNamedNodes<Ta> {
         &mut self,
         index: NodeIndex,
     ) -> Result<&mut NodeData<Ta>, GrammarError> {
-        if index > self.graph.nodes.len() - 1 {
+        if index >= self.graph.nodes.len() {
             return Err(GrammarError::GraphIndexOutOfBounds { index });
         }
         Ok(&mut self.graph.nodes[index])
-- 
2.43.0


From aeb76af79ebf4648be542375fe3e2ab7595a2218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 10/18] fix: set the error code when a stack machine's
 arithmetic leaves its range instead of panicking

---
 src/vms/simple_stack_vm.rs | 32 +++++++++++++++++++++++++-------
 src/vms/stack_vm.rs        | 33 ++++++++++++++++++++++++++-------
 2 files changed, 51 insertions(+), 14 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index a5cc39f..2bfc594 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -74,16 +74,22 @@ impl VM for SimpleStackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
@@ -143,8 +149,16 @@ impl VM for SimpleStackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exponent| base.checked_pow(exponent))
+                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    if let Some(res) = res {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1
                 }
@@ -152,7 +166,11 @@ impl VM for SimpleStackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg = state.reg + c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Result out of range
+                }
             }
         }
     }
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 981dbe4..36a3a11 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -98,16 +98,22 @@ impl VM for StackVm {
         match instruction {
             Instruction::Add => {
                 if let Some(var) = state.stack.pop() {
-                    let res = state.reg + var;
-                    state.stack.push(res);
+                    if let Some(res) = state.reg.checked_add(var) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
             }
             Instruction::Sub => {
                 if let Some(var) = state.stack.pop() {
-                    let res = var - state.reg;
-                    state.stack.push(res);
+                    if let Some(res) = var.checked_sub(state.reg) {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -167,8 +173,17 @@ impl VM for StackVm {
             }
             Instruction::Pow(base) => {
                 if let Some(val) = state.stack.pop() {
-                    let res = val * base.pow(state.reg as u32) as isize + state.reg2;
-                    state.stack.push(res);
+                    let res = u32::try_from(state.reg)
+                        .ok()
+                        .and_then(|exponent| base.checked_pow(exponent))
+                        .and_then(|factor| isize::try_from(factor).ok())
+                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|product| product.checked_add(state.reg2));
+                    if let Some(res) = res {
+                        state.stack.push(res);
+                    } else {
+                        state.error = 3; // Result out of range
+                    }
                 } else {
                     state.error = 1;
                 }
@@ -176,7 +191,11 @@ impl VM for StackVm {
             Instruction::PushReg => state.stack.push(state.reg),
             Instruction::PushReg2 => state.stack.push(state.reg2),
             Instruction::RegAddConst(c) => {
-                state.reg += c;
+                if let Some(res) = state.reg.checked_add(*c) {
+                    state.reg = res;
+                } else {
+                    state.error = 3; // Result out of range
+                }
             }
         }
     }
-- 
2.43.0


From f15e6a2152602b408d4e180fd8ccbb1685d5d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 11/18] fix: reject stack VM constants that do not fit instead
 of wrapping them

---
 src/vms/stack_vm.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 36a3a11..9e749ba 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -34,6 +34,10 @@ pub struct StackVmState {
 }
 pub struct StackVm {}
 
+fn to_isize(val: usize) -> Result<isize, ParserError> {
+    isize::try_from(val).map_err(|_| ParserError::Impossible)
+}
+
 impl VM for StackVm {
     type Tstate = StackVmState;
     type Tinstrution = Instruction;
@@ -57,7 +61,7 @@ impl VM for StackVm {
                 "RegAddConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::RegAddConst(val as isize));
+                    instructions.push(Instruction::RegAddConst(to_isize(val)?));
                 }
                 "Sub" => instructions.push(Instruction::Sub),
                 "Digit" => instructions.push(Instruction::Digit),
@@ -67,7 +71,7 @@ impl VM for StackVm {
                 "PushConst" => {
                     parse_whitespace(to_parse);
                     let val = parse_usize(to_parse)?;
-                    instructions.push(Instruction::PushConst(val as isize));
+                    instructions.push(Instruction::PushConst(to_isize(val)?));
                 }
                 "PushFromTree" => instructions.push(Instruction::PushFromTree),
                 "PushReg" => instructions.push(Instruction::PushReg),
-- 
2.43.0


From 78893729f25039afe1f1271e04ace3de709c674a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:08 +0000
Subject: [PATCH 12/18] fix: let CountingVm consume instruction sections as
 VM::parse_instructions requires

---
 src/vms/counting_vm.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vms/counting_vm.rs b/src/vms/counting_vm.rs
index 2e3dbf5..2e1fafb 100644
--- a/src/vms/counting_vm.rs
+++ b/src/vms/counting_vm.rs
@@ -19,11 +19,13 @@ impl VM for CountingVm {
     fn parse_instructions<T>(
         &self,
         _prod_name: &str,
-        _to_parse: &mut ParseProcess<T>,
+        to_parse: &mut ParseProcess<T>,
     ) -> Result<Vec<Self::Tinstrution>, ParserError>
     where
         T: TPeekable<Item = char>,
     {
+        // The section must be consumed even if its contents don't matter
+        while to_parse.next().is_some() {}
         Ok(vec![0])
     }
 
-- 
2.43.0


From 7832effebeb6923a9950b61dfa0f62f0028ffaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:29 +0000
Subject: [PATCH 13/18] fix: reject an instruction section the VM stopped
 reading right before an escaped brace

---
 src/rule_parsing.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 7b90f5b..815f007 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -256,6 +256,14 @@ where
         let mut g =
             ParseProcess::new_nested(&mut self.parse_process, Some('}'), Some('\\'), cur_pos);
         let instruction = self.vm.parse_instructions(prod_name, &mut g)?;
+        // If the VM stopped early right before an escaped '}', that one must not end the section.
+        if let Some(&chr) = g.peek() {
+            return Err(UnexpectedCharError {
+                chr,
+                pos: g.cur_pos(),
+                expected: String::from("the end of the instruction section"),
+            });
+        }
         self.parse_symbol('}')?;
         Ok(instruction)
     }
-- 
2.43.0


From f2af6797e0f5b7ff293d7f893711d6df9c510de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:19 +0000
Subject: [PATCH 14/18] fix: zero to the left of a number is zero however large
 the power of the base is

---
 src/vms/simple_stack_vm.rs |  8 ++++++--
 src/vms/stack_vm.rs        | 10 +++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/vms/simple_stack_vm.rs b/src/vms/simple_stack_vm.rs
index 2bfc594..75d0cda 100644
--- a/src/vms/simple_stack_vm.rs
+++ b/src/vms/simple_stack_vm.rs
@@ -151,8 +151,12 @@ impl VM for SimpleStackVm {
                 if let Some(val) = state.stack.pop() {
                     let res = u32::try_from(state.reg)
                         .ok()
-                        .and_then(|exponent| base.checked_pow(exponent))
-                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|exponent| match val {
+                            0 => Some(0), // whatever the factor, which may be out of range
+                            _ => base
+                                .checked_pow(exponent)
+                                .and_then(|factor| val.checked_mul(factor)),
+                        })
                         .and_then(|product| product.checked_add(state.reg2));
                     if let Some(res) = res {
                         state.stack.push(res);
diff --git a/src/vms/stack_vm.rs b/src/vms/stack_vm.rs
index 9e749ba..c5ccebc 100644
--- a/src/vms/stack_vm.rs
+++ b/src/vms/stack_vm.rs
@@ -179,9 +179,13 @@ impl VM for StackVm {
                 if let Some(val) = state.stack.pop() {
                     let res = u32::try_from(state.reg)
                         .ok()
-                        .and_then(|exponent| base.checked_pow(exponent))
-                        .and_then(|factor| isize::try_from(factor).ok())
-                        .and_then(|factor| val.checked_mul(factor))
+                        .and_then(|exponent| match val {
+                            0 => Some(0), // whatever the factor, which may be out of range
+                            _ => base
+                                .checked_pow(exponent)
+                                .and_then(|factor| isize::try_from(factor).ok())
+                                .and_then(|factor| val.checked_mul(factor)),
+                        })
                         .and_then(|product| product.checked_add(state.reg2));
                     if let Some(res) = res {
                         state.stack.push(res);
-- 
2.43.0


From da30818ab58def49b315ad05220909c46170c6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 15/18] fix: keep the productions being matched off the call
 stack, which long scripts overflowed

---
 src/script_parser.rs | 86 ++++++++++++++++++++++++++++----------------
 1 file changed, 56 insertions(+), 30 deletions(-)

diff --git a/src/script_parser.rs b/src/script_parser.rs
index 6cb8287..89d104c 100644
--- a/src/script_parser.rs
+++ b/src/script_parser.rs
@@ -254,6 +254,10 @@ where
             Some(fp) => Ok(fp),
         }
     }
+    /// Matches the production at `el_index` and everything inside of it.
+    ///
+    /// The productions that are being matched are kept in a list instead of on the call stack,
+    /// because nothing limits how deep a script nests them.
     fn parse_production(
         &self,
         to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
@@ -262,6 +266,54 @@ where
         tree: &mut Tree<String>,
         current_node: Option<NodeId>,
     ) -> Result<(), ParserError> {
+        let mut open = vec![self.begin_production(to_parse, el_index, tree, current_node)?];
+
+        while let Some((rest, id, instructions)) = open.last_mut() {
+            let id = *id;
+            let Some(next_element_index) = rest.next() else {
+                self.run_instructions(tree, id, instructions, state);
+                open.pop();
+                continue;
+            };
+            let element_next = self.elements.get(*next_element_index).unwrap();
+
+            match element_next.et {
+                ElementType::Terminal => {
+                    let _ = tree.add_node(
+                        self.parse_terminal(to_parse, element_next.name.as_str())?,
+                        Some(id),
+                    );
+                }
+                ElementType::NonTerminal => {
+                    open.push(self.begin_production(
+                        to_parse,
+                        *next_element_index,
+                        tree,
+                        Some(id),
+                    )?);
+                }
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Adds the node of a production and decides how it goes on: the elements it consists of,
+    /// the node and the instructions to run once the elements have been matched.
+    fn begin_production(
+        &self,
+        to_parse: &mut ParseProcess<PeekableWrapper<Chars<'a>>>,
+        el_index: ElementIndex,
+        tree: &mut Tree<String>,
+        current_node: Option<NodeId>,
+    ) -> Result<
+        (
+            std::slice::Iter<'_, ElementIndex>,
+            NodeId,
+            &Vec<<T as VM>::Tinstrution>,
+        ),
+        ParserError,
+    > {
         let cur = SetMember::from(to_parse.peek());
         let nt_rule = self
             .rules_with_steuermaps
@@ -272,37 +324,11 @@ where
 
         let id = tree.add_node(String::from(""), current_node)?;
 
-        let prod = &**fitting_production;
-        match prod {
-            Production::NotEmpty(prod_not_empty) => {
-                for next_element_index in prod_not_empty {
-                    let element_next = self.elements.get(*next_element_index).unwrap().clone();
-
-                    match element_next.et {
-                        ElementType::Terminal => {
-                            let _ = tree.add_node(
-                                self.parse_terminal(to_parse, element_next.name.as_str())?,
-                                Some(id),
-                            );
-                        }
-                        ElementType::NonTerminal => {
-                            self.parse_production(
-                                to_parse,
-                                *next_element_index,
-                                state,
-                                tree,
-                                Some(id),
-                            )?;
-                        }
-                    }
-                }
-            }
-            Production::Empty => {}
+        let elements: &[ElementIndex] = match &**fitting_production {
+            Production::NotEmpty(prod_not_empty) => prod_not_empty,
+            Production::Empty => &[],
         };
-
-        self.run_instructions(tree, id, &nt_rule.instruction, state);
-
-        Ok(())
+        Ok((elements.iter(), id, &nt_rule.instruction))
     }
 
     fn run_instructions(
-- 
2.43.0


From 000a1aec01a7db5fefc7a34628bf7119ee04d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:09 +0000
Subject: [PATCH 16/18] fix: collect the descendants of deep trees without
 overflowing the stack

---
 src/tree.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/tree.rs b/src/tree.rs
index 016462f..fed5655 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -130,11 +130,11 @@ impl<T> Tree<T> {
 
     pub fn get_descendants(&self, node_id: NodeId) -> Vec<NodeId> {
         let mut descendants = vec![];
-        let children = self.get_children(node_id);
-        descendants.extend(&children);
-        for child in children {
-            let child_descendants = self.get_descendants(child);
-            descendants.extend(child_descendants);
+        let mut to_visit = vec![node_id];
+        while let Some(node) = to_visit.pop() {
+            let children = self.get_children(node);
+            descendants.extend(&children);
+            to_visit.extend(children.iter().rev());
         }
         descendants
     }
-- 
2.43.0


From f0e22f26d5b3f888b4920252fc29b8fc4d204d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:28 +0000
Subject: [PATCH 17/18] fix: compute FIRST sets of deeply nested grammars
 without overflowing the stack

---
 src/first_sets.rs | 89 ++++++++++++++++++++---------------------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/src/first_sets.rs b/src/first_sets.rs
index b030293..a625b4f 100644
--- a/src/first_sets.rs
+++ b/src/first_sets.rs
@@ -46,44 +46,41 @@ where
     T: VM,
 {
     let mut first_sets: NamedSets = HashMap::new();
-    let mut in_progress = HashSet::new();
     for &el_ix in parser_data.parse_rules.rules.keys() {
-        get_set_first_set_of_element(el_ix, &mut first_sets, &mut in_progress, parser_data)?;
+        get_set_first_set_of_element(el_ix, &mut first_sets, parser_data)?;
     }
     Ok(first_sets)
 }
 
+/// Computes the FIRST set of a production and those it depends on.
+///
+/// The productions that wait for another one are kept in a list instead of on the call stack,
+/// because nothing limits how deep a grammar nests them.
 fn get_set_first_set_of_element<T>(
     el_ix: ElementIndex,
     first_sets: &mut NamedSets,
-    in_progress: &mut HashSet<ElementIndex>,
     parser_data: &ParserData<T>,
-) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
+) -> Result<(), GrammarError>
 where
     T: VM,
 {
-    let set_maybe = get_first_set_of_element(el_ix, first_sets, parser_data)?;
-    let res = match set_maybe {
-        None => {
-            let mut set: HashSet<SetMemberWithEmpty> = HashSet::new();
-            let Some(productions) = parser_data.parse_rules.rules.get(&el_ix) else {
-                    return Err(GrammarError::MissingProduction { index: el_ix });
-                };
-            if !in_progress.insert(el_ix) {
-                return Err(GrammarError::LeftRecursion { index: el_ix });
+    let mut in_progress = vec![el_ix];
+    while let Some(&current) = in_progress.last() {
+        match get_first_set_of_alternatives(current, first_sets, parser_data) {
+            Ok(set) => {
+                first_sets.insert(current, set);
+                in_progress.pop();
             }
-            for production in &productions.possible_productions {
-                let rus =
-                    get_first_set_of_production(production, first_sets, in_progress, parser_data)?;
-                set.extend(&rus);
+            Err(GrammarError::MissingFirstSet { index }) => {
+                if in_progress.contains(&index) {
+                    return Err(GrammarError::LeftRecursion { index });
+                }
+                in_progress.push(index);
             }
-            in_progress.remove(&el_ix);
-            first_sets.insert(el_ix, set.clone());
-            Ok(set)
+            Err(error) => return Err(error),
         }
-        Some(x) => Ok(x),
-    };
-    res
+    }
+    Ok(())
 }
 
 fn get_first_set_of_element<T>(
@@ -109,43 +106,31 @@ where
     Ok(res)
 }
 
-fn get_first_set_of_production<T>(
-    production: &Production,
-    first_sets: &mut NamedSets,
-    in_progress: &mut HashSet<ElementIndex>,
+fn get_first_set_of_alternatives<T>(
+    el_ix: ElementIndex,
+    first_sets: &NamedSets,
     parser_data: &ParserData<T>,
 ) -> Result<HashSet<SetMemberWithEmpty>, GrammarError>
 where
     T: VM,
 {
-    match production {
-        Production::Empty => Ok(HashSet::from([SetMemberWithEmpty::Empty])),
-        Production::NotEmpty(el_ixs) => {
-            let mut first_menge = get_set_first_set_of_element(
-                *el_ixs.first().unwrap(),
-                first_sets,
-                in_progress,
-                parser_data,
-            )?;
-            if first_menge.contains(&SetMemberWithEmpty::Empty) {
-                for el_ix in el_ixs.iter().skip(1) {
-                    let cur_set = get_set_first_set_of_element(
-                        *el_ix,
-                        first_sets,
-                        in_progress,
-                        parser_data,
-                    )?;
-                    let has_empty = cur_set.contains(&SetMemberWithEmpty::Empty);
-                    first_menge.extend(cur_set);
-                    if !has_empty {
-                        first_menge.remove(&SetMemberWithEmpty::Empty);
-                        break;
-                    }
-                }
+    let productions = parser_data
+        .parse_rules
+        .rules
+        .get(&el_ix)
+        .ok_or(GrammarError::MissingProduction { index: el_ix })?;
+    let mut set = HashSet::new();
+    for production in &productions.possible_productions {
+        match &**production {
+            Production::Empty => {
+                set.insert(SetMemberWithEmpty::Empty);
+            }
+            Production::NotEmpty(el_ixs) => {
+                set.extend(first_set_of_partial(el_ixs, first_sets, parser_data)?);
             }
-            Ok(first_menge)
         }
     }
+    Ok(set)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 075c7faf65299018882bfd0f69168f513ab8be7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 18/18] fix: follow ignored productions of any depth without
 overflowing the stack

---
 src/rule_parsing.rs | 77 +++++++++++++++------------------------------
 1 file changed, 25 insertions(+), 52 deletions(-)

diff --git a/src/rule_parsing.rs b/src/rule_parsing.rs
index 815f007..58f34f8 100644
--- a/src/rule_parsing.rs
+++ b/src/rule_parsing.rs
@@ -396,61 +396,34 @@ fn check_is_derivative<T>(
 where
     T: VM,
 {
-    _check_is_derivative(element_types, parse_rules, left, right, &mut HashSet::new())
-}
-
-fn _check_is_derivative<T>(
-    element_types: &Vec<ElementType>,
-    parse_rules: &ParseRules<T>,
-    left: ElementIndex,
-    right: ElementIndex,
-    visited: &mut HashSet<ElementIndex>,
-) -> Result<bool, ParserError>
-where
-    T: VM,
-{
-    if let ElementType::Terminal = element_types.get(left).unwrap() {
-        return Ok(false);
-    }
-    let prods = &parse_rules
-        .rules
-        .get(&left)
-        .ok_or(ParserError::InternalError {
-            message: format!("could not find production for index {left}"),
-        })?
-        .possible_productions;
-
-    if left == right {
-        return Ok(true);
-    }
-    if visited.contains(&left) {
-        return Ok(false);
-    }
-    visited.insert(left.clone());
-
-    let mut is_der = false;
-    for prod in prods {
-        match &**prod {
-            Production::NotEmpty(prod_ne, ..) => {
-                for el in prod_ne {
-                    if *el == right {
-                        return Ok(true);
-                    } else {
-                        is_der = is_der
-                            || _check_is_derivative(
-                                element_types,
-                                parse_rules,
-                                *el,
-                                right,
-                                visited,
-                            )?;
-                    }
-                }
+    let mut visited = HashSet::new();
+    let mut to_visit = vec![left];
+    while let Some(current) = to_visit.pop() {
+        if let ElementType::Terminal = element_types.get(current).unwrap() {
+            continue;
+        }
+        let prods = &parse_rules
+            .rules
+            .get(&current)
+            .ok_or(ParserError::InternalError {
+                message: format!("could not find production for index {current}"),
+            })?
+            .possible_productions;
+
+        if current == right {
+            return Ok(true);
+        }
+        if !visited.insert(current) {
+            continue;
+        }
+        for prod in prods {
+            match &**prod {
+                Production::NotEmpty(prod_ne, ..) => to_visit.extend(prod_ne),
+                Production::Empty => {}
             }
-            Production::Empty => {}
         }
     }
-    Ok(is_der)
+    Ok(false)
 }
 
 #[cfg(test)]
-- 
2.43.0

