"""Definitions of the planted bugs (see plant.py)."""
USES = '''#![allow(dead_code, unused_imports)]
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::{NullVm, VM};
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::parser_data::*;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::first_sets::*;
use henriks_parsing_project::follow_sets::*;
use henriks_parsing_project::steuer_sets::*;
use henriks_parsing_project::steuer_map::*;
use henriks_parsing_project::sets::*;
use henriks_parsing_project::tree::*;
use henriks_parsing_project::errors::*;
use henriks_parsing_project::parse_funcs::*;

fn parses(rules: &'static str, script: &'static str) -> bool {
    let vm = NullVm::new();
    let mut state = 0;
    let mut parser = Parser::new_from_text(rules, &vm);
    parser.parse(script, &mut state).is_ok()
}
fn rules_ok(text: &str) -> bool {
    let vm = NullVm::new();
    let text: &'static str = Box::leak(text.to_string().into_boxed_str());
    let p: &'static mut PeekableWrapper<_> = Box::leak(Box::new(PeekableWrapper::from_str(text)));
    let vm: &'static NullVm = Box::leak(Box::new(vm));
    let mut r = RuleParser::new(p, vm);
    r.parse_rules().is_ok()
}
fn data(text: &str) -> ParserData<NullVm> {
    let text: &'static str = Box::leak(text.to_string().into_boxed_str());
    let p: &'static mut PeekableWrapper<_> = Box::leak(Box::new(PeekableWrapper::from_str(text)));
    let vm: &'static NullVm = Box::leak(Box::new(NullVm::new()));
    let mut r = RuleParser::new(p, vm);
    r.parse_rules().unwrap();
    r.parser_data
}
fn alternatives(d: &ParserData<NullVm>, name: &str) -> Vec<Vec<String>> {
    d.get_rule_by_element_verbose(name).unwrap().possible_productions.iter().map(|p| match &**p {
        Production::Empty => vec![],
        Production::NotEmpty(els) => els.iter().map(|e| d.get_element_verbose(*e).unwrap().name).collect(),
    }).collect()
}
'''
BUGS = {}
def bug(id, prop, edits, body, needs, what, **kw):
    BUGS[id] = dict(property=prop, edits=edits, demo=USES + body, needs=needs, what=what, **kw)

bug("case-blind", "C01", [("src/script_parser.rs", "if *char_to_parse != chr {", "if !char_to_parse.eq_ignore_ascii_case(&chr) {")],
 '''fn main() { assert!(!parses("start -> \\"print\\";", "pRint")); assert!(parses("start -> \\"print\\";", "print")); }''',
 "a script whose later characters of a terminal differ from the rule only in ASCII case",
 "scripts that are not sentences are accepted")
bug("leaf-trim", "C02", [("src/script_parser.rs", "Ok(String::from(terminal))", "Ok(String::from(terminal.trim_end()))")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> \\"a \\" \\"b\\";", &vm);
    let t = p.parse("a b", &mut state).unwrap();
    let mut it = 0..; let root = loop { let i = it.next().unwrap(); if let Some(n) = find(&t, i) { break n; } };
    let first = t.get_by_path_or_none(root, vec![0].into_iter()).unwrap().unwrap();
    assert_eq!(first.data, "a ");
}
fn find(t: &Tree<String>, i: usize) -> Option<NodeId> {
    let id = NodeId { node_ptr: i, node_pk: i };
    t.node_exists(id).then_some(id)
}''',
 "a terminal that ends in white space", "the leaf does not carry the terminal's text")
bug("empty-no-instr", "C04", [("src/script_parser.rs", "        for instruction in instructions {\n            self.vm\n", "        if tree.get_children(cur_node).is_empty() {\n            return; // nothing was matched\n        }\n        for instruction in instructions {\n            self.vm\n")],
 '''fn main() {
    let vm = CountingVm {}; let mut state = 0;
    let mut p = Parser::new_from_text("start -> x \\"a\\" x {}; x -> \\"b\\" | # {};", &vm);
    assert!(p.parse("ab", &mut state).is_ok());
    assert_eq!(state, 3);
}''',
 "a production with instructions that is matched by its empty alternative", "its instructions do not run")
bug("first-byte", "C05", [("src/first_sets.rs", "let maybe_char = el_verb.chars().next();", "let maybe_char = el_verb.bytes().next().map(char::from);")],
 '''fn main() {
    let d = data("start -> \\"\\u{e4}b\\" | \\"c\\";");
    let f = get_first_sets(&d).unwrap();
    let s = &f[&d.get_element_nt_index("start").unwrap()];
    assert!(s.contains(&SetMemberWithEmpty::Char('\\u{e4}')) && s.len() == 2);
}''',
 "a terminal that begins with a character outside of ASCII", "FIRST holds the first byte instead of the first character")
bug("follow-window", "C06", [("src/follow_sets.rs", "first_set_of_partial(&prod[i + 1..], first_sets, &parser_data)?;", "first_set_of_partial(&prod[i + 1..der_len.min(i + 3)], first_sets, &parser_data)?;")],
 '''fn main() {
    let d = data("start -> a b c \\"z\\"; a -> \\"a\\"; b -> \\"b\\" | #; c -> \\"c\\" | #;");
    let f = get_first_sets(&d).unwrap();
    let s = d.get_element_nt_index("start").unwrap();
    let fo = get_follow_sets(s, &f, &d).unwrap();
    let a = &fo[&d.get_element_nt_index("a").unwrap()];
    assert!(a.contains(&SetMember::Char('z')) && a.len() == 3, "{a:?}");
}''',
 "two productions that can be empty in a row, followed by something else", "FOLLOW misses what comes after them (and gains what follows the whole)")
bug("follow-rounds", "C06", [("src/follow_sets.rs", "    let mut changes = true;\n    while changes {\n        changes = false;\n", "    let mut changes = true;\n    let mut rounds = 0;\n    while changes && rounds < 8 {\n        changes = false;\n        rounds += 1;\n")],
 '''fn main() {
    for _ in 0..20 {
        let mut text = String::from("start -> p0 \\"z\\";");
        for i in 0..30 { text += &format!("p{} -> \\"a\\" p{};", i, i + 1); }
        text += "p30 -> \\"b\\";";
        let d = data(&text);
        let f = get_first_sets(&d).unwrap();
        let s = d.get_element_nt_index("start").unwrap();
        let fo = get_follow_sets(s, &f, &d).unwrap();
        assert!(fo[&d.get_element_nt_index("p30").unwrap()].contains(&SetMember::Char('z')));
    }
}''',
 "a chain of more than eight productions each ending in the next", "FOLLOW sets at the end of the chain are incomplete")
bug("end-conflict", "C07", [("src/steuer_map.rs", "if old_key.is_some() {", "if old_key.is_some() && *follow_char != SetMember::Terminate {")],
 '''fn main() {
    let d = data("start -> \\"a\\" x; x -> y | #; y -> \\"b\\" | #;");
    let f = get_first_sets(&d).unwrap();
    let fo = get_follow_sets(d.get_element_nt_index("start").unwrap(), &f, &d).unwrap();
    assert!(get_steuermaps(&f, &fo, d).is_err());
}''',
 "two alternatives that conflict only on the end of input", "a grammar that is not LL(1) is accepted")
bug("double-backslash", "C08", [("src/rule_parsing.rs", "if *cur_char == '\\\\' && !escape {", "if *cur_char == '\\\\' {")],
 '''fn main() {
    let d = data("start -> \\"a\\\\\\\\\\" \\"b\\";");
    assert_eq!(alternatives(&d, "start"), vec![vec!["a\\\\\\\\".to_string(), "b".to_string()]]);
}''',
 "a terminal that ends in an escaped backslash", "the closing quote is taken for an escaped one")
bug("last-semicolon", "C09", [("src/rule_parsing.rs", "        let instruction = self.parse_instruction_section(&identifier)?;\n        self.parse_whitespace();\n        self.parse_symbol(';')?;", "        let instruction = self.parse_instruction_section(&identifier)?;\n        self.parse_whitespace();\n        if self.parse_process.peek().is_some() {\n            self.parse_symbol(';')?;\n        }")],
 '''fn main() { assert!(!rules_ok("start -> \\"a\\" ")); assert!(rules_ok("start -> \\"a\\";")); }''',
 "a rule text that ends before the semicolon of its last rule", "malformed rule text is accepted")
bug("weave-dedup", "C10", [("src/rule_parsing.rs", "                weaved_production.pop();\n", "                weaved_production.pop();\n                weaved_production.dedup(); // never two ignorers next to each other\n")],
 '''fn main() {
    let d = data("$IGNORE: w; start -> \\"a\\" w \\"b\\"; $IGNORE: w; w -> \\" \\";");
    assert_eq!(alternatives(&d, "start"), vec![vec!["a", "w", "w", "w", "b"]]);
}''',
 "a production that mentions the ignored production itself", "elements that were written are dropped")
bug("section-position", "C09", [("src/rule_parsing.rs", "        self.parse_whitespace();\n        let cur_pos = self.parse_process.cur_pos();\n", "        let cur_pos = self.parse_process.cur_pos();\n        self.parse_whitespace();\n")],
 '''fn main() {
    let vm: &'static StackVm = Box::leak(Box::new(StackVm {}));
    let p: &'static mut PeekableWrapper<_> = Box::leak(Box::new(PeekableWrapper::from_str("start -> \\"a\\" {   Add, };")));
    let mut r = RuleParser::new(p, vm);
    match r.parse_rules() { Err(ParserError::UnexpectedCharError { pos, .. }) => assert_eq!(pos, 20), Err(e) => panic!("{e}"), Ok(_) => panic!() }
}''',
 "a malformed instruction section that begins with white space", "the error's position is off by the amount of white space")
bug("first-section", "C11", [("src/rule_parsing.rs", "            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions)\n", "            rule_to_change\n                .possible_productions\n                .append(&mut rule.possible_productions);\n            if !rule.instruction.is_empty() {\n                rule_to_change.instruction = rule.instruction;\n            }\n")],
 '''fn main() {
    let vm: &'static StackVm = Box::leak(Box::new(StackVm {}));
    let mut state = StackVm::create_new_state();
    let mut p = Parser::new_from_text("start -> \\"a\\" {PushConst 1;}; start -> \\"b\\" {PushConst 2;};", vm);
    p.parse("a", &mut state).unwrap();
    assert_eq!(state.stack, vec![1]);
}''',
 "a production defined twice, both times with instructions", "the instructions of the later definition replace those of the first")
bug("peek-mut-free", "C12", [("src/peekables.rs", "    fn peek_mut(&mut self) -> Option<&mut char> {\n        if !self.check_allowed() {\n            return None;\n        }\n        self.to_parse.peek_mut()", "    fn peek_mut(&mut self) -> Option<&mut char> {\n        self.to_parse.peek_mut()")],
 '''fn main() {
    let mut p = PeekableWrapper::from_str("a}b");
    let mut v = ParseProcess::new(&mut p, Some('}'), None);
    assert_eq!(v.next(), Some('a'));
    assert!(v.peek_mut().is_none());
}''',
 "looking ahead with peek_mut at the stop character", "the view shows text past its end")
bug("ascii-names", "C13", [("src/parse_funcs.rs", "if !(x.is_alphanumeric() || *x == '_') {", "if !(x.is_ascii_alphanumeric() || *x == '_') {")],
 '''fn main() {
    let mut p = PeekableWrapper::from_str("gr\\u{f6}\\u{df}e;");
    let mut v = ParseProcess::new(&mut p, None, None);
    assert_eq!(parse_var_name(&mut v).unwrap(), "gr\\u{f6}\\u{df}e");
}''',
 "a name with letters outside of ASCII after the first", "the name is cut short")
bug("exists-by-slot", "C14", [("src/tree.rs", "        let current_node = &self.nodes[node_id.node_ptr];\n        if current_node.pk != node_id.node_pk {\n            return false;\n        }\n        true", "        true")],
 '''fn main() {
    let mut t: Tree<i32> = Tree::new();
    let r = t.add_node(0, None).unwrap();
    let a = t.add_node(1, Some(r)).unwrap();
    t.remove_branch(a).unwrap();
    assert!(!t.node_exists(a));
    t.add_node(2, Some(r)).unwrap();
    assert!(!t.node_exists(a));
}''',
 "a removed node whose place was taken by a new node", "the old handle is said to exist")
bug("stale-previous", "C15", [("src/tree.rs", "        if let Some(next_sibling) = next_sibling_id {\n            let next = &mut self.nodes[next_sibling];\n            next.previous_sibling = previous_sibling_id;\n        }\n", "")],
 '''fn main() {
    let mut t: Tree<i32> = Tree::new();
    let q = t.add_node(9, None).unwrap();
    let r = t.add_node(0, None).unwrap();
    let _a = t.add_node(1, Some(r)).unwrap();
    let b = t.add_node(2, Some(r)).unwrap();
    let c = t.add_node(3, Some(r)).unwrap();
    t.remove_branch(b).unwrap();
    t.add_node(5, Some(q)).unwrap();
    t.remove_branch(c).unwrap();
    t.add_node(4, Some(r)).unwrap();
    assert_eq!(t.get_children(q).len(), 1);
    let v: Vec<i32> = t.get_children(r).iter().map(|c| t.get_node(*c).unwrap().data).collect();
    assert_eq!(v, vec![1, 4]);
}''',
 "removing a middle child, reusing its place elsewhere, removing the child after it, then adding one", "the children lose nodes")
bug("merge-offset", "C16", [("src/simple_graph.rs", "                edge.next_outgoing_edge.map(|ei| edge_offset + ei);", "                edge.next_outgoing_edge.map(|ei| node_offset + ei);")],
 '''use henriks_parsing_project::simple_graph::Graph;
fn main() {
    let mut g: Graph<i32> = Graph::new();
    let a = g.add_node(0);
    g.add_edge(a, a); g.add_edge(a, a);
    let mut h: Graph<i32> = Graph::new();
    let x = h.add_node(1); let y = h.add_node(2);
    h.add_edge(x, y); h.add_edge(x, x);
    g.add_graph_at_node(h, a, x);
    assert_eq!(g.successors(1).collect::<Vec<_>>(), vec![1, 2]);
}''',
 "merging a graph in which a node has two edges, the receiving graph having different numbers of nodes and edges", "the merged nodes' edges are mixed up")
bug("edge-count", "C16", [("src/simple_graph.rs", "            Some(index) => self.edges.get(index).unwrap().id + 1,", "            Some(_) => self.connected_edges(source).count(),"),
                          ("src/simple_graph.rs", "        let node_data = &mut self.nodes[source];\n        let last_edge_index = node_data.first_outgoing_edge;", "        let last_edge_index = self.nodes[source].first_outgoing_edge;"),
                          ("src/simple_graph.rs", "        self.edges.push(EdgeData {\n            target,\n            next_outgoing_edge: node_data.first_outgoing_edge,\n            id: new_edge_id,", "        let node_data = &mut self.nodes[source];\n        self.edges.push(EdgeData {\n            target,\n            next_outgoing_edge: node_data.first_outgoing_edge,\n            id: new_edge_id,")],
 '''use henriks_parsing_project::simple_graph::Graph;
fn main() {
    let mut g: Graph<i32> = Graph::new();
    let a = g.add_node(0); let b = g.add_node(1);
    assert!(g.try_add_edge_with_id(a, b, 1));
    g.add_edge(a, a);
    assert_eq!(g.find_node_index(a, 2), Some(a));
}''',
 "adding an edge without number to a node whose edges were given numbers with gaps", "the new edge gets a number that is in use or out of order")
bug("rename-on-refusal", "C17", [("src/named_graph.rs", "        if self.names.contains_key(&node_name) {\n            return Err(GrammarError::GraphNodeAlreadyExistsError { node_name });\n        }\n        let index = self.graph.add_node(data);\n        self.names.insert(node_name, index);\n        Ok(index)", "        let index = self.graph.add_node(data);\n        match self.names.insert(node_name, index) {\n            None => Ok(index),\n            Some(_) => Err(GrammarError::GraphNodeAlreadyExistsError { node_name }),\n        }")],
 '''use henriks_parsing_project::named_graph::GraphNamedNodes;
fn main() {
    let mut g: GraphNamedNodes<i32> = GraphNamedNodes::new();
    g.add_node(7, 1).unwrap();
    assert!(g.add_node(7, 2).is_err());
    assert_eq!(g.get_node(7).unwrap().data, 1);
}''',
 "adding a name a second time and reading it afterwards", "the refused addition replaces the node")
bug("set-drops-instr", "C18", [("src/parser_data.rs", "        let existing = self.parse_rules.rules.get_mut(&idx);\n        if let Some(rule) = existing {\n            rule.possible_productions = vec![];\n        }\n", "        self.parse_rules.rules.remove(&idx);\n")],
 '''fn main() {
    let mut d: ParserData<NullVm> = ParserData::new();
    let s = d.get_or_add_non_terminal("s"); let a = d.get_or_add_terminal("a");
    d.add_instructions(s, vec![5]);
    d.set_productions(s, vec![vec![a]]);
    assert_eq!(d.get_rule_by_key(s).unwrap().instruction, vec![5]);
}''',
 "setting a production's alternatives after its instructions", "the instructions are lost")
bug("optional-semicolon", "C19", [("src/vms/stack_vm.rs", "            parse_symbol(to_parse, ';')?;\n            parse_whitespace(to_parse);", "            if to_parse.peek().is_some() {\n                parse_symbol(to_parse, ';')?;\n            }\n            parse_whitespace(to_parse);")],
 '''fn main() {
    let mut p = PeekableWrapper::from_str("Add;Sub");
    let mut v = ParseProcess::new(&mut p, None, None);
    assert!(StackVm {}.parse_instructions("x", &mut v).is_err());
}''',
 "a section whose last instruction lacks its semicolon", "malformed text is accepted")
bug("narrow-number", "C20", [("src/vms/stack_vm.rs", "if let Ok(value) = node.data.parse::<isize>() {\n                        state.stack.push(value);", "if let Ok(value) = node.data.parse::<i32>() {\n                        state.stack.push(value as isize);")],
 '''fn main() {
    let vm = StackVm {}; let mut state = StackVm::create_new_state();
    let mut p = Parser::new_from_text("start -> \\"3000000000\\" {PushFromTree;};", &vm);
    p.parse("3000000000", &mut state).unwrap();
    assert_eq!((state.stack, state.error), (vec![3000000000], 0));
}''',
 "a number at the node that needs more than 32 bits", "it is reported as not being a number")
bug("print-narrow", "C21", [("src/vms/stack_vm.rs", "                let reg = state.reg;\n                println!(\"{reg}\");", "                let reg = state.reg as i32;\n                println!(\"{reg}\");")],
 '''use std::process::Command;
fn main() {
    if std::env::args().len() > 1 {
        let rules = std::fs::read_to_string(std::env::args().nth(1).unwrap()).unwrap();
        let vm = StackVm {}; let mut state = StackVm::create_new_state();
        let mut p = Parser::new_from_text(&rules, &vm);
        p.parse("3000000000 1 + print", &mut state).unwrap();
        return;
    }
    let out = Command::new(std::env::current_exe().unwrap()).arg(std::env::var("RULES").unwrap()).output().unwrap();
    assert_eq!(String::from_utf8(out.stdout).unwrap(), "3000000001\\n");
}''',
 "printing a value that needs more than 32 bits", "another value is printed",
 run='RULES="$crate/examples/stack_based_math.txt" timeout 60 "$tmp/target/debug/demo"\n')
bug("depth-leak", "C22", [("src/script_parser.rs", "    elements: Vec<ElementVerbose>,\n    /// The start symbol", "    elements: Vec<ElementVerbose>,\n    /// How many parses are under way\n    open: usize,\n    /// The start symbol"),
   ("src/script_parser.rs", "        Parser {\n            vm,\n            rules_with_steuermaps,\n            elements,\n            start_index: None,", "        Parser {\n            vm,\n            open: 0,\n            rules_with_steuermaps,\n            elements,\n            start_index: None,"),
   ("src/script_parser.rs", "        Parser {\n            vm,\n            rules_with_steuermaps,\n            elements,\n            start_index: None,", "        Parser {\n            vm,\n            open: 0,\n            rules_with_steuermaps,\n            elements,\n            start_index: None,"),
   ("src/script_parser.rs", "        let mut tree = Tree::new();\n", "        let mut tree = Tree::new();\n        self.open += 1;\n        if self.open > 16 {\n            return Err(ParserError::Impossible); // a VM that parses again without end\n        }\n"),
   ("src/script_parser.rs", "        Ok(tree)\n    }\n\n    fn get_fitting", "        self.open -= 1;\n        Ok(tree)\n    }\n\n    fn get_fitting")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> \\"a\\";", &vm);
    for _ in 0..200 { assert!(p.parse("b", &mut state).is_err()); }
    assert!(p.parse("a", &mut state).is_ok());
}''',
 "sixteen failed parses with the same parser", "later parses fail although the script is a sentence", first=True)
bug("tool-trim", "C23", [("src/main.rs", "    let graph = parser.parse(&script, &mut state).unwrap();", "    let graph = parser.parse(script.trim_end_matches('\\n'), &mut state).unwrap();")],
 '''use std::process::Command;
fn main() {
    let dir = std::env::current_dir().unwrap();
    std::fs::write(dir.join("r"), "start -> \\"a\\";").unwrap();
    std::fs::write(dir.join("s"), "a\\n").unwrap();
    let ok = Command::new(std::env::var("TOOL").unwrap()).arg(dir.join("r")).arg(dir.join("s")).status().unwrap().success();
    assert!(!ok);
    std::fs::write(dir.join("s"), "a").unwrap();
    let ok = Command::new(std::env::var("TOOL").unwrap()).arg(dir.join("r")).arg(dir.join("s")).status().unwrap().success();
    assert!(ok);
}''',
 "a script file that ends in a line break the grammar does not have", "exit status 0 although the script is not a sentence",
 run='(cd "$crate" && CARGO_TARGET_DIR="$tmp/tool" cargo build --offline -q --bin henriks-parsing-project 2> "$tmp/tool.log") || exit 2\ncd "$tmp" && TOOL="$tmp/tool/debug/henriks-parsing-project" timeout 60 "$tmp/target/debug/demo"\n')
