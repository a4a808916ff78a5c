"""Definitions of the second round of planted bugs (see plant.py)."""
import os, runpy
USES = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "bugs.py"))["USES"]
BUGS = {}
def bug(id, prop, edits, body, needs, what, **kw):
    BUGS[id] = dict(property=prop, edits=edits, demo=USES + body, needs=needs, what=what, **kw)
SP = "src/script_parser.rs"

bug("error-at-word", "C03", [(SP, "        for chr in terminal.chars() {\n            let pos = to_parse.cur_pos();\n", "        let pos = to_parse.cur_pos();\n        for chr in terminal.chars() {\n"),
                             (SP, "                    chr: *char_to_parse,\n                    pos: to_parse.cur_pos(),\n", "                    chr: *char_to_parse,\n                    pos,\n")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> \\"hello\\";", &vm);
    match p.parse("helxo", &mut state) { Err(ParserError::UnexpectedCharError { pos, .. }) => assert_eq!(pos, 3), _ => panic!() }
    match p.parse("hel", &mut state) { Err(ParserError::EndOfCharsError { pos }) => assert_eq!(pos, 3), _ => panic!() }
}''', "a script that departs from a terminal after its first character", "the error names the position where the terminal began")
bug("expected-word", "C26", [(SP, "                    expected: String::from(chr),", "                    expected: String::from(terminal),")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> \\"hello\\";", &vm);
    match p.parse("helxo", &mut state) { Err(ParserError::UnexpectedCharError { expected, .. }) => assert_eq!(expected, "l"), _ => panic!() }
}''', "a script that departs from a terminal of several characters", "the error claims that the whole terminal was expected there")
bug("expected-no-end", "C26", [(SP, "                    .keys()\n                    .cloned()\n", "                    .keys()\n                    .filter(|x| **x != SetMember::Terminate)\n                    .cloned()\n")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> x; x -> \\"a\\" | #;", &vm);
    match p.parse("b", &mut state) { Err(ParserError::UnexpectedCharError { expected, .. }) => assert!(expected == "a;terminate" || expected == "terminate;a", "{expected}"), _ => panic!() }
}''', "an unexpected character where the script might also have ended", "the error does not say that the end was expected")
bug("count-wraps", "C24", [("src/vms/counting_vm.rs", "        *state += 1;\n", "        *state = (*state as u32).wrapping_add(1) as usize;\n")],
 '''fn main() {
    let vm = CountingVm {}; let mut state = u32::MAX as usize - 1;
    let mut p = Parser::new_from_text("start -> x x; x -> \\"a\\" {};", &vm);
    p.parse("aa", &mut state).unwrap();
    assert_eq!(state, u32::MAX as usize + 1);
}''', "a count beyond 32 bits", "it starts again at zero")
bug("count-per-word", "C24", [("src/vms/counting_vm.rs", "        Ok(vec![0])", "        Ok(if _prod_name.ends_with('_') { vec![] } else { vec![0] }) // helper productions do not count")],
 '''fn main() {
    let vm = CountingVm {}; let mut state = 0;
    let mut p = Parser::new_from_text("start -> x_ x_; x_ -> \\"a\\" {};", &vm);
    p.parse("aa", &mut state).unwrap();
    assert_eq!(state, 2);
}''', "a production whose name ends in an underscore", "its matches are not counted")
bug("gone-node", "C25", [(SP, "        for instruction in instructions {\n            self.vm\n", "        for instruction in instructions {\n            if !tree.node_exists(cur_node) {\n                break; // an instruction has removed it\n            }\n            self.vm\n")],
 '''struct Rm {}
impl VM for Rm {
    type Tstate = usize;
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, _: &str, p: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError> where T: TPeekable<Item = char> {
        while p.next().is_some() {}
        Ok(vec![0, 1])
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur: NodeId, i: &usize, state: &mut usize) {
        if *i == 0 { tree.remove_branch(cur).unwrap(); } else { tree.add_node("new".into(), None).unwrap(); *state += 1; }
    }
    fn create_new_state() -> usize { 0 }
}
fn main() {
    let vm = Rm {}; let mut state = 0;
    let mut p = Parser::new_from_text("start -> x x; x -> \\"a\\" {do};", &vm);
    assert!(p.parse("aa", &mut state).is_ok());
    assert_eq!(state, 2);
}''', "an instruction that removes the node it runs for, with another instruction after it", "the instructions after it are skipped")
bug("empty-leaf", "C02", [(SP, "                ElementType::Terminal => {\n", "                ElementType::Terminal if element_next.name.is_empty() => {}\n                ElementType::Terminal => {\n")],
 '''fn main() {
    let vm = NullVm::new(); let mut state = 0;
    let mut p = Parser::new_from_text("start -> \\"a\\" \\"\\" \\"b\\";", &vm);
    let t = p.parse("ab", &mut state).unwrap();
    let root = NodeId { node_ptr: 0, node_pk: 0 };
    assert_eq!(t.get_children(root).len(), 3);
}''', "a terminal without characters", "the tree has no leaf for it")
bug("first-of-nothing", "C05", [("src/first_sets.rs", "                None => HashSet::from([SetMemberWithEmpty::Empty]),", "                None => HashSet::new(),")],
 '''fn main() {
    let d = data("start -> \\"\\" \\"b\\";");
    let f = get_first_sets(&d).unwrap();
    let s = &f[&d.get_element_nt_index("start").unwrap()];
    assert!(s.contains(&SetMemberWithEmpty::Char('b')) && s.len() == 1);
}''', "a terminal without characters", "FIRST misses what comes after it")
bug("follow-twice", "C06", [("src/follow_sets.rs", "            let is_last_element = i >= der_len - 1;", "            let is_last_element = prod[der_len - 1] == el_index;"), ("src/follow_sets.rs", "    for (i, &el_index) in prod.iter().enumerate() {", "    for (i, &el_index) in prod.iter().enumerate() {\n        let _ = i;")],
 '''fn main() {
    let d = data("start -> x \\"a\\" x; x -> \\"b\\";");
    let f = get_first_sets(&d).unwrap();
    let s = d.get_element_nt_index("start").unwrap();
    let fo = get_follow_sets(s, &f, &d).unwrap();
    assert_eq!(fo[&d.get_element_nt_index("x").unwrap()].len(), 2);
}''', "an alternative that ends in a production it also has before", "FOLLOW misses what comes after the earlier one")
bug("twice-empty", "C07", [("src/steuer_map.rs", "        if old_key.is_some() {", "        if old_key.is_some_and(|old| !matches!((&*old, &**prod), (Production::Empty, Production::Empty))) {")],
 '''fn main() {
    let d = data("start -> \\"a\\" x; x -> # | #;");
    let f = get_first_sets(&d).unwrap();
    let fo = get_follow_sets(d.get_element_nt_index("start").unwrap(), &f, &d).unwrap();
    assert!(get_steuermaps(&f, &fo, d).is_err());
}''', "a production with two empty alternatives", "an ambiguous grammar is accepted")
bug("ascii-element", "C08", [("src/rule_parsing.rs", "            Some(x) if x.is_alphabetic() => Ok(Some(ElementVerbose::new(", "            Some(x) if x.is_ascii_alphabetic() => Ok(Some(ElementVerbose::new(")],
 '''fn main() { assert!(rules_ok("start -> \\u{e4}b; \\u{e4}b -> \\"a\\";")); }''',
 "a reference to a production whose name begins with a letter outside of ASCII", "the rule text is refused")
bug("ignore-open", "C09", [("src/rule_parsing.rs", "        let ignored = parse_var_name(&mut self.parse_process)?;\n        self.parse_whitespace();\n        self.parse_symbol(';')?;", "        let ignored = parse_var_name(&mut self.parse_process)?;\n        self.parse_whitespace();\n        let _ = self.parse_symbol(';');")],
 '''fn main() { assert!(!rules_ok("$IGNORE: w start -> \\"a\\"; w -> \\" \\";")); }''',
 "an $IGNORE without its semicolon", "malformed rule text is accepted")
bug("ascii-space", "C13", [("src/parse_funcs.rs", "        if !x.is_whitespace() {", "        if !x.is_ascii_whitespace() {")],
 '''fn main() {
    let mut p = PeekableWrapper::from_str("\\u{a0}\\u{b}x");
    let mut v = ParseProcess::new(&mut p, None, None);
    parse_whitespace(&mut v);
    assert_eq!(v.next(), Some('x'));
}''', "white space outside of ASCII", "it is not skipped")
bug("nth-limit", "C15", [("src/tree.rs", "            current_child: node.first_child,\n        };\n        for (i, child) in children.enumerate() {\n            if i == nth {\n                return Ok(child);", "            current_child: node.first_child,\n        };\n        for (i, child) in children.enumerate().take(32) {\n            if i == nth {\n                return Ok(child);")],
 '''fn main() {
    let mut t: Tree<i32> = Tree::new();
    let r = t.add_node(0, None).unwrap();
    for i in 0..40 { t.add_node(i, Some(r)).unwrap(); }
    assert_eq!(t.get_nth_child(t.get_node(r).unwrap(), 35).unwrap().data, 35);
}''', "a node with more than 32 children", "children past the 32nd are not found")
bug("only-child", "C15", [("src/tree.rs", "            if parent.last_child == Some(node_id.node_ptr) {", "            if parent.last_child == Some(node_id.node_ptr) && previous_sibling_id.is_some() {")],
 '''fn main() {
    let mut t: Tree<i32> = Tree::new();
    let q = t.add_node(9, None).unwrap();
    let r = t.add_node(0, None).unwrap();
    let a = t.add_node(1, Some(r)).unwrap();
    t.remove_branch(a).unwrap();
    t.add_node(5, Some(q)).unwrap();
    t.add_node(2, Some(r)).unwrap();
    let v: Vec<i32> = t.get_children(q).iter().map(|c| t.get_node(*c).unwrap().data).collect();
    assert_eq!(v, vec![5]);
}''', "removing an only child, reusing its place elsewhere, then adding a child again", "another node's children gain a node")
bug("parallel-edges", "C16", [("src/simple_graph.rs", "                let edge = &self.graph.edges[edge_num];\n                self.current_edge_index = edge.next_outgoing_edge;\n                Some(edge.target)", "                let edge = &self.graph.edges[edge_num];\n                self.current_edge_index = edge.next_outgoing_edge;\n                if let Some(next) = self.current_edge_index {\n                    if self.graph.edges[next].target == edge.target {\n                        return self.next();\n                    }\n                }\n                Some(edge.target)")],
 '''use henriks_parsing_project::simple_graph::Graph;
fn main() {
    let mut g: Graph<i32> = Graph::new();
    let a = g.add_node(0); let b = g.add_node(1);
    g.add_edge(a, b); g.add_edge(a, b);
    assert_eq!(g.successors(a).collect::<Vec<_>>(), vec![b, b]);
}''', "two edges to the same node one after the other", "the successors list it once")
bug("set-nothing", "C18", [("src/parser_data.rs", "        let existing = self.parse_rules.rules.get_mut(&idx);\n        if let Some(rule) = existing {\n            rule.possible_productions = vec![];\n        }\n", "        if terms.is_empty() {\n            return; // nothing to set\n        }\n        let existing = self.parse_rules.rules.get_mut(&idx);\n        if let Some(rule) = existing {\n            rule.possible_productions = vec![];\n        }\n")],
 '''fn main() {
    let mut d: ParserData<NullVm> = ParserData::new();
    let s = d.get_or_add_non_terminal("s"); let a = d.get_or_add_terminal("a");
    d.add_production(s, vec![a]);
    d.set_productions(s, vec![]);
    assert!(d.get_rule_by_key(s).unwrap().possible_productions.is_empty());
}''', "setting a production's alternatives to none", "the old ones stay")
bug("const-default", "C19", [("src/vms/stack_vm.rs", "                \"Pow\" => {\n                    parse_whitespace(to_parse);\n                    let val = parse_usize(to_parse)?;", "                \"Pow\" => {\n                    parse_whitespace(to_parse);\n                    let val = parse_usize(to_parse).unwrap_or(10);")],
 '''fn main() {
    let mut p = PeekableWrapper::from_str("Pow;");
    let mut v = ParseProcess::new(&mut p, None, None);
    assert!(StackVm {}.parse_instructions("x", &mut v).is_err());
}''', "Pow without a number", "malformed text is accepted")
bug("discard-silent", "C20", [("src/vms/simple_stack_vm.rs", "                if let Some(res) = state.stack.pop() {\n                    _ = res;\n                } else {\n                    state.error = 1\n                }", "                if let Some(res) = state.stack.pop() {\n                    _ = res;\n                }")],
 '''use henriks_parsing_project::vms::simple_stack_vm::Instruction;
fn main() {
    let vm = SimpleStackVm {}; let mut state = SimpleStackVm::create_new_state();
    let mut t = Tree::new(); let r = t.add_node(String::new(), None).unwrap();
    vm.execute_instruction(&mut t, r, &Instruction::PopDiscard, &mut state);
    assert_eq!(state.error, 1);
}''', "discarding from an empty stack", "no error is noted")
bug("tool-bom", "C23", [("src/main.rs", "    let script = fs::read_to_string(script_path).expect(\"Unable to read script file\");", "    let script = fs::read_to_string(script_path).expect(\"Unable to read script file\");\n    let script = script.trim_start_matches('\\u{feff}');"), ("src/main.rs", "parser.parse(&script, &mut state)", "parser.parse(script, &mut state)")],
 '''use std::process::Command;
fn main() {
    let dir = std::env::current_dir().unwrap();
    let run = |script: &str| {
        std::fs::write(dir.join("r"), "start -> \\"a\\";").unwrap();
        std::fs::write(dir.join("s"), script).unwrap();
        Command::new(std::env::var("TOOL").unwrap()).arg(dir.join("r")).arg(dir.join("s")).status().unwrap().success()
    };
    assert!(!run("\\u{feff}a"));
    assert!(run("a"));
}''', "a script file that begins with a byte order mark", "exit status 0 although the script is not a sentence",
 run='(cd "$crate" && CARGO_TARGET_DIR="$tmp/tool" cargo build --offline -q --bin henriks-parsing-project 2> "$tmp/tool.log") || exit 2\ncd "$tmp" && TOOL="$tmp/tool/debug/henriks-parsing-project" timeout 60 "$tmp/target/debug/demo"\n')
bug("eight-instructions", "C04", [(SP, "        for instruction in instructions {\n            self.vm\n", "        for instruction in instructions.iter().take(8) {\n            self.vm\n")],
 '''fn main() {
    let vm = StackVm {}; let mut state = StackVm::create_new_state();
    let mut p = Parser::new_from_text("start -> \\"a\\" {PushConst 1;PushConst 1;PushConst 1;PushConst 1;PushConst 1;PushConst 1;PushConst 1;PushConst 1;PushConst 1;};", &vm);
    p.parse("a", &mut state).unwrap();
    assert_eq!(state.stack.len(), 9);
}''', "a section with more than eight instructions", "those after the eighth do not run")
