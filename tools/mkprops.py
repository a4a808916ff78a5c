#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "A script parses exactly when the whole script is a sentence of the grammar",
 "For every LL(1) grammar, parsing a script succeeds if and only if the complete script, from its first to its last character, is derivable from the start production. Text left over after a sentence, a sentence that is cut short, and a wrong character anywhere all make parsing fail, however the grammar was supplied and whichever production was chosen as start.",
 ["programs", "inputs"], "all LL(1) grammars (rule text or built in Rust, any start production) and all scripts",
 "The tests parse about ten fixed grammars with one script each, nearly all of them accepted; membership is a statement about all grammars and all strings.",
 ["src/script_parser.rs", "src/steuer_map.rs"],
 [("Parser::parse / parse_production", "src/script_parser.rs"), ("parse_terminal", "src/script_parser.rs"), ("get_fitting_production", "src/script_parser.rs")],
 [("to_parse", "cursor over the script", "src/script_parser.rs")], ["Parser::parse result"])
prop("C02", "The parse tree is the derivation tree of the script",
 "When parsing succeeds and no instruction alters the tree, the returned tree is the script's derivation tree: one node per applied production in derivation order below a single root, one leaf per matched terminal carrying exactly that terminal's text, production nodes carrying empty text, and empty alternatives having no children. Reading the leaves left to right gives back the script.",
 ["programs", "inputs"], "all LL(1) grammars and all their sentences",
 "Tests look up one or two paths in four small trees; shape, order and completeness of whole trees are never compared.",
 ["src/script_parser.rs", "src/tree.rs"],
 [("parse_production adds a node per production and per terminal", "src/script_parser.rs"), ("Tree::add_node", "src/tree.rs")],
 [("tree", "parse tree under construction", "src/script_parser.rs")], ["Tree returned by Parser::parse"])
prop("C03", "A rejected script is reported at the exact place where it goes wrong",
 "For every LL(1) grammar whose productions can all derive some text, a rejected script yields an error, never a crash, whose position is the number of characters in the longest prefix of the script that some sentence starts with. If the script has a character at that position, the error names that character.",
 ["programs", "inputs"], "all LL(1) grammars with productive productions and all non-sentences",
 "One test checks the position of one error in one grammar.",
 ["src/script_parser.rs", "src/peekables.rs", "src/errors.rs"],
 [("parse_terminal error positions", "src/script_parser.rs"), ("get_fitting_production error", "src/script_parser.rs"), ("ParseProcess::cur_pos", "src/peekables.rs")],
 observe=["ParserError returned by Parser::parse"])
prop("C04", "Instructions run once per matched production, innermost first, in written order",
 "While a script is parsed, the instructions of a production run exactly once for every time that production is matched, in the order in which they were given, after everything inside the match has been parsed and its instructions have run, and before anything to its right. Each run is given the node of its own match in a tree that holds exactly the part of the derivation parsed so far. If the script is rejected, exactly the matches completed before the error have run.",
 ["programs", "inputs", "histories"], "all LL(1) grammars with instructions on any subset of productions, all scripts, accepted or rejected",
 "One test counts that three identical instructions ran; order, node argument, nesting and failing scripts are not observed.",
 ["src/script_parser.rs", "src/vms.rs"],
 [("parse_production calls run_instructions after its elements", "src/script_parser.rs"), ("run_instructions", "src/script_parser.rs")],
 observe=["VM::execute_instruction calls"])
prop("C05", "FIRST sets are exactly what each production can start with",
 "For every grammar that defines all the productions it uses and is not left recursive, the FIRST set of each production holds exactly the characters with which a derivation from it, finished or not, can start, and the empty marker if and only if it derives the empty text. The FIRST set of any non-empty sequence of elements is likewise exact, and nothing depends on the order in which productions were defined.",
 ["programs", "schedules"], "all grammars without left recursion; all orders in which the rule map is iterated",
 "Tests compare seven hand-picked sets; nested, shared and cascading empty productions in all iteration orders are not covered.",
 ["src/first_sets.rs", "src/sets.rs"],
 [("get_first_sets (memoised recursion)", "src/first_sets.rs"), ("first_set_of_partial", "src/first_sets.rs")],
 observe=["get_first_sets", "first_set_of_partial"])
prop("C06", "FOLLOW sets are exactly what can come after each production",
 "For every grammar that defines all the productions it uses and is not left recursive, the FOLLOW set of each production is the least one such that: the start production can be followed by the end of input; whatever can start the rest of an alternative can follow the production before it; and whatever follows a production also follows each production that can end one of its alternatives. Nothing depends on the order in which productions were defined.",
 ["programs", "schedules"], "all grammars without left recursion, any start production; all orders of propagation",
 "Tests compare sets of four grammars; propagation along cycles and long chains, and iteration order, are not exercised.",
 ["src/follow_sets.rs", "src/named_graph.rs", "src/simple_graph.rs"],
 [("graph_marking_for_rightside_elements", "src/follow_sets.rs"), ("make_follow_sets_from_marked_graph fixpoint", "src/follow_sets.rs")],
 observe=["get_follow_sets"])
prop("C07", "Parser tables are built exactly for LL(1) grammars and predict exactly",
 "Building the tables of a grammar always terminates; it succeeds if and only if every used production is defined, none is left recursive, and no two alternatives of a production can apply on the same lookahead, and otherwise it reports an error instead of picking an alternative, crashing or running forever. On success, each production's table maps a lookahead (a character or the end of input) to the one alternative that can apply there and has no entry for any other lookahead, and its steuer set holds exactly the lookaheads with an entry; a reported conflict names a production and character that really are in conflict.",
 ["programs"], "all grammars, LL(1) or not, any start production",
 "Tests build tables for three LL(1) grammars and never look at them; no conflicting, left recursive or undefined grammar is tested.",
 ["src/steuer_map.rs", "src/steuer_sets.rs", "src/first_sets.rs", "src/follow_sets.rs"],
 [("steuermap_of_production / fill_with_steuer_set", "src/steuer_map.rs"), ("get_steuer_sets", "src/steuer_sets.rs"), ("left recursion detection", "src/first_sets.rs")],
 observe=["get_steuermaps", "get_steuer_sets", "Parser::new_from_text", "Parser::new_from_parser_data"])
prop("C08", "Rule text is read as exactly the grammar it spells out",
 "For every well-formed rule file, the grammar that is read has exactly the productions, alternatives and elements that were written, in the written order, with terminal texts kept character for character, equal names and kinds denoting one element, and a name used as terminal and as production denoting two. Layout (white space between symbols) never matters, and a production that is defined several times has all the alternatives of its definitions in order.",
 ["programs"], "all well-formed rule files, any layout, any Unicode text",
 "Tests read a handful of short rule texts and inspect single elements.",
 ["src/rule_parsing.rs", "src/parser_data.rs", "src/parse_funcs.rs"],
 [("parse_rules / parse_rule / parse_possible_productions / parse_production", "src/rule_parsing.rs"), ("merge_rule", "src/rule_parsing.rs"), ("parse_terminal", "src/rule_parsing.rs"), ("get_or_add_element_key", "src/parser_data.rs")],
 observe=["RuleParser::parse_rules, RuleParser::parser_data"])
prop("C09", "Malformed rule text is rejected with an error",
 "Every text that is not a well-formed rule file is rejected with an error: it never crashes the reader, makes it run forever, or yields a grammar for the part that could be read. When the error is an unexpected character or the unexpected end of the text, it gives the position where reading could not go on, and in the first case the character there.",
 ["inputs"], "all texts",
 "Two tests feed one malformed text each and only require some failure.",
 ["src/rule_parsing.rs", "src/parse_funcs.rs", "src/errors.rs"],
 [("parse_symbol, parse_var_name", "src/parse_funcs.rs"), ("parse_production, parse_element", "src/rule_parsing.rs")],
 observe=["RuleParser::parse_rules result"])
prop("C10", "An ignored production is woven in between elements, and only there",
 "In every production an ignore setting applies to, the ignored production stands exactly once between each two neighbouring elements of every alternative, and nowhere else: not at either end, not in empty alternatives, not in the ignored production or any production reachable from it. The setting is that of the latest '$IGNORE: name;' directive before the production's first definition, unless that definition overrides it with '$[IGNORE:name]' or switches it off with '$[IGNORE:#]'.",
 ["programs"], "all rule files with any mix of ignore directives and overrides",
 "The ten existing tests of the feature all fail at the pinned commit and are excluded from the baseline, so nothing passing touches it.",
 ["src/rule_parsing.rs"],
 [("parse_overrides", "src/rule_parsing.rs"), ("edit_rules / check_is_derivative / weave_in_ignorers", "src/rule_parsing.rs")],
 [("parse_rules.ignore", "the ignore directive in force", "src/parser_data.rs")], ["RuleParser::parser_data after parse_rules"])
prop("C11", "Instruction sections reach the VM verbatim and nothing else does",
 "For every rule with a section in braces, the VM is asked once, with that production's name and exactly the text up to the first closing brace that is not directly preceded by a backslash, without leading white space and with escaping backslashes kept; what it returns for the production's first definition becomes the production's instructions, and reading resumes right behind the section. A rule without a section gets no instructions, a section the VM does not read to its end or fails on makes reading fail, and no way of reading the section (peeking, conditional or unconditional steps) lets the VM see past its end or changes where it ends.",
 ["programs", "inputs", "histories"], "all section texts and all sequences of reads a VM may use",
 "One test uses an empty section; escapes, peeking VMs and unread sections are untested.",
 ["src/rule_parsing.rs", "src/peekables.rs", "src/vms.rs"],
 [("parse_instruction_section", "src/rule_parsing.rs"), ("ParseProcess::check_allowed", "src/peekables.rs"), ("VM::parse_instructions", "src/vms.rs")],
 observe=["arguments of VM::parse_instructions; RuleParser::parser_data"])
prop("C12", "A text view is bounded, looks ahead without effect and counts what it consumed",
 "For every sequence of operations on a view of a text: looking ahead any number of times changes nothing and shows the character the next step delivers; a step delivers the characters of the text in order, each once; a conditional step consumes exactly when its condition holds. A view with a stop character shows the end of text at the first stop character not directly preceded by a consumed escape character, for every operation, and its position always is its starting position plus the number of characters consumed through it, including through views nested in it.",
 ["histories", "inputs"], "all texts, stop and escape settings, nestings, and operation sequences",
 "No unit test covers the view type itself; other tests only use it unbounded with plain steps.",
 ["src/peekables.rs"],
 [("ParseProcess::check_allowed", "src/peekables.rs"), ("ParseProcess::{peek,next,next_if,next_if_eq,peek_mut,cur_pos}", "src/peekables.rs")],
 [("current_position", "characters consumed plus start offset", "src/peekables.rs"), ("escape", "last consumed character was the escape character", "src/peekables.rs")],
 ["return values of the view's operations"])
prop("C13", "Lexical readers take the longest match and say exactly where they failed",
 "On every text, the readers for white space, digits, unsigned and signed numbers, names, single symbols and quoted text consume the longest match and nothing after it, and return its exact value. When there is no match they report an error at the position and with the character where matching stopped, consuming nothing except a minus sign that no digit follows and a quoted text that is never closed (a backslash keeps the character after it from closing); a number too large for its type is an error and never a wrapped value or a crash.",
 ["inputs"], "all texts, through plain and bounded views",
 "Eleven tests sample short ASCII strings; extremes of the number range, Unicode letters and digits, and bounded views are not covered.",
 ["src/parse_funcs.rs", "src/rule_parsing.rs"],
 [("parse_whitespace, parse_digits, parse_usize, parse_isize, parse_symbol, parse_var_name", "src/parse_funcs.rs"),
  ("parse_terminal", "src/rule_parsing.rs")],
 observe=["return values and the cursor after each reader"])
prop("C14", "A node handle denotes one node for ever, and nothing once it is removed",
 "Through every sequence of additions and removals, a handle that was returned keeps giving that same node's data until the node or one of its ancestors is removed; from then on, and for handles never returned, lookup reports an error, existence is false, adding below it or removing it is refused without any effect, and it has no children or descendants. No two additions ever return the same handle.",
 ["histories"], "all sequences of tree operations, including removals followed by additions and operations on stale or invented handles",
 "Five tests perform at most one removal followed by one addition.",
 ["src/tree.rs"],
 [("free_node_indexes, counter, pk check", "src/tree.rs"), ("add_node, remove_branch, get_node, get_node_mut, node_exists", "src/tree.rs")],
 [("nodes/free_node_indexes", "slots and free list", "src/tree.rs")], ["Tree operations' results"])
prop("C15", "A tree keeps its structure through additions and removals",
 "After every sequence of operations, a node's children are exactly the nodes added below it and not removed, in the order of their addition; its descendants are exactly the nodes reachable through children, each once; lookup of the n-th child or of a path gives the node found by following those positions and reports absence otherwise. Removing a node removes exactly it and its descendants and leaves all other nodes, their data and their order unchanged.",
 ["histories"], "all sequences of tree operations",
 "Tests build trees of at most two nodes.",
 ["src/tree.rs"],
 [("sibling links in add_node and remove_branch", "src/tree.rs"), ("get_children, get_descendants, get_nth_child, get_nth_child_or_none, get_by_path_or_none", "src/tree.rs")],
 [("first_child/last_child/next_sibling/previous_sibling/parent", "links between slots", "src/tree.rs")], ["Tree read operations"])
prop("C16", "Edges keep their numbers, and a merged graph stays intact",
 "Through every sequence of operations on the numbered graph: no node has two edges with one number, adding an edge under a number in use is refused without effect, adding one without a number gives it the number after the node's largest (or 0), and lookup by number or by a path of numbers finds exactly the edge's target. A node's successors come with strictly descending edge numbers; merging another graph keeps all nodes and edges of both and adds exactly one edge from the given node to the given node of the other.",
 ["histories"], "all sequences of node, edge, lookup and merge operations on valid nodes",
 "Nine tests add at most three edges to one node; merging and paths are untested.",
 ["src/simple_graph.rs"],
 [("add_edge, try_add_edge_with_id (sorted linked list)", "src/simple_graph.rs"), ("find_node_index, find_node_index_by_path, successors, connected_edges", "src/simple_graph.rs"), ("add_graph_at_node", "src/simple_graph.rs")],
 observe=["return values; successors and connected_edges"])
prop("C17", "Named graph nodes are unique, stable and fail cleanly when missing",
 "Through every sequence of operations on the named graph: a name denotes one node from the time it is added, adding it again is refused and changes nothing, and each node's data and successors (latest edge first) are reached identically by name and by index. Operations on missing names or on indices that do not exist report an error, without effect and without crashing, also on an empty graph.",
 ["histories"], "all sequences of operations, valid and invalid names and indices",
 "The named graph has no tests of its own.",
 ["src/named_graph.rs"],
 [("names map, add_node, add_edge", "src/named_graph.rs"), ("get_node*, successors, successor_indices", "src/named_graph.rs")],
 observe=["return values"])
prop("C18", "Grammars built in Rust hold exactly what was added",
 "Through every sequence of builder calls, an element is identified by its name and kind: asking for it again gives the same index, different elements get different indices, and all lookups by name, kind and index agree. A production holds exactly the alternatives added since they were last replaced, in order (an empty list being the empty alternative), and exactly the instructions last set, whichever came first.",
 ["histories"], "all sequences of builder and lookup calls",
 "Only one example program uses the builder and no test calls it except to add elements.",
 ["src/parser_data.rs"],
 [("get_or_add_element_key", "src/parser_data.rs"), ("add_production, set_productions, add_instructions", "src/parser_data.rs")],
 [("element_types/element_data/element_verbose_map", "elements by index and by name", "src/parser_data.rs"), ("parse_rules.rules", "alternatives and instructions per production", "src/parser_data.rs")],
 ["builder return values, get_* lookups"])
prop("C19", "Stack VM instruction text means the listed instructions",
 "For every section text, the stack VM returns exactly the instructions named, in order, with their numeric arguments, each terminated by a semicolon and with white space before an argument and optionally after each semicolon; names it does not know are skipped. Any other text, and any argument that does not fit the machine's integers, is an error and never a crash, a wrong value or a partial result. The simple stack VM decides by production name alone, whatever the section says.",
 ["inputs"], "all section texts and production names",
 "No test covers instruction text at all; only an example that is not run uses it.",
 ["src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs"],
 [("StackVm::parse_instructions", "src/vms/stack_vm.rs"), ("SimpleStackVm::parse_instructions", "src/vms/simple_stack_vm.rs")],
 observe=["VM::parse_instructions result"])
prop("C20", "Stack machine instructions do exactly their documented effect and never crash",
 "For every machine state and instruction, both stack machines change exactly the parts of the state the instruction is about: pops take the top value, pushes add one, arithmetic combines the top value with the registers, and printing prints one register and changes nothing. When an instruction cannot be carried out (empty stack, no number at the node, result outside the machine's integers) it sets the error code for that cause and leaves both registers alone; no instruction sequence crashes the machine.",
 ["histories", "inputs"], "all instruction sequences from the initial state, all argument values",
 "The machines have no tests.",
 ["src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs"],
 [("execute_instruction", "src/vms/stack_vm.rs"), ("execute_instruction", "src/vms/simple_stack_vm.rs")],
 [("stack, reg, reg2, error", "machine state", "src/vms/stack_vm.rs")], ["VM state after each instruction, standard output"])
prop("C21", "The calculator languages compute postfix arithmetic",
 "For every script made of numbers, '+', '-' and 'print' separated by single blanks, the calculators shipped as examples (rule text with instruction text, rule text with name-based instructions, and the one defined in Rust) all accept it, and reject every other script. As long as no operation lacks operands or leaves the machine's integers, they leave on the stack exactly the values postfix evaluation gives and print exactly the values that each 'print' takes from the stack.",
 ["inputs"], "all scripts of the calculator language and all near misses",
 "The examples are compiled but never run by the tests.",
 ["examples/stack_based_math.txt", "examples/simple_stack_based_math.txt", "examples/rust_defined_rules.rs", "src/script_parser.rs", "src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs"],
 [("whole pipeline: rule text -> tables -> parse -> instructions -> machine", "src/script_parser.rs")],
 observe=["final machine state, standard output, Parser::parse result"])
prop("C22", "What a script does depends only on the grammar, the script and the given state",
 "Parsing a script with a parser gives the same outcome (success or failure and position, tree, instruction runs) no matter which scripts that parser has parsed before, successfully or not, whether the same grammar was given as rule text or built in Rust, in which order its productions were defined, and how often it is repeated.",
 ["histories", "programs", "schedules"], "all LL(1) grammars, all definition orders, all sequences of scripts on one parser",
 "Every test builds a fresh parser for one script; hash-map iteration order differs between runs but no test compares runs.",
 ["src/script_parser.rs", "src/parser_data.rs", "src/rule_parsing.rs"],
 [("Parser::parse takes all mutable state as argument", "src/script_parser.rs"), ("HashMap-based rule and table maps", "src/parser_data.rs")],
 observe=["Parser::parse results across calls and constructions"])
prop("C23", "The command-line tool's exit status says whether the script is in the language",
 "Run with a rule file and a script file, the tool ends with exit status 0 if and only if both files can be read, the rules form a usable LL(1) grammar with a production 'start', and the script is a sentence of it; in every other case it ends by itself with a non-zero status.",
 ["inputs", "programs"], "all rule files and script files",
 "The binary has no tests.",
 ["src/main.rs", "src/script_parser.rs"],
 [("main", "src/main.rs")], observe=["exit status of the binary"])
prop("C24", "The counting machine counts exactly the matched productions with instructions",
 "The counting machine's state rises by exactly one for every instruction of every production matched, also over several parses with the same state and when a parse fails later, and by nothing else; the null machine's state never changes. Both accept instruction sections with any content, a production with a section has exactly one instruction for the counting machine, and neither machine influences which scripts are accepted.",
 ["programs", "inputs", "histories"], "all usable grammars with sections on any productions, all scripts, all histories of parses on one state, both machines",
 "One test counts three matches of one production; sections with content, failing parses, nested productions and repeated use of a state are not tested.",
 ["src/vms/counting_vm.rs", "src/vms.rs", "src/script_parser.rs"],
 [("CountingVm::execute_instruction", "src/vms/counting_vm.rs"), ("Parser::run_instructions", "src/script_parser.rs")],
 observe=["the machine's state before and after Parser::parse"])
prop("C25", "Instructions may alter what is matched already without disturbing the parse",
 "Instructions may change the data of, remove, or add nodes below the nodes of productions that have been matched, or add nodes of their own: exactly these changes are seen by later instructions and in the resulting tree, handles they kept go on denoting the same node or none. The script is accepted or rejected as without instructions, and what is matched afterwards is added at its own place as if nothing had been changed.",
 ["programs", "inputs", "histories"], "all usable grammars, scripts and programs of instructions that set, remove, add and keep nodes",
 "No test has an instruction that changes the tree.",
 ["src/script_parser.rs", "src/tree.rs", "src/vms.rs"],
 [("Parser::parse_production", "src/script_parser.rs"), ("Tree::add_node and Tree::remove_branch", "src/tree.rs")],
 observe=["the tree each instruction is given", "the tree Parser::parse returns"])
prop("C26", "The error for an unexpected character says what would have been right",
 "An error about an unexpected character names, as expected, exactly what could have stood at that position: within a terminal its next character; where a production has to be chosen each of the characters, or the end of the script, by which one can be chosen, each once; after a complete sentence the end of the script.",
 ["inputs", "programs"], "all usable grammars and all rejected scripts",
 "Tests that look at errors ignore what was expected.",
 ["src/script_parser.rs", "src/steuer_map.rs", "src/sets.rs"],
 [("Parser::get_fitting_production and Parser::parse_terminal", "src/script_parser.rs"), ("From<SetMember> for String", "src/sets.rs")],
 observe=["the error Parser::parse returns"])
prop("C27", "A language made of a rule text and a stack machine computes what the text says",
 "For a rule text whose instruction sections are written for one of the shipped stack machines, reading it either gives a parser, exactly if text, sections and grammar are correct, or fails. With the parser, a script's acceptance, the state it leaves and the output it prints are those of running, from the state that was passed in, each matched production's instructions in the order of matching, each on the node of its production; for a rejected script these are the instructions of the productions that were matched before the error. A state that is passed on from parse to parse carries on where it was.",
 ["programs", "inputs", "histories"], "all rule texts with sections for the stack machine or the simple stack machine, all scripts, all histories of parses",
 "The tests run two calculators on a few sums; every other combination of rule text, grammar, machine and script, and in particular rejected scripts and states that live on, is unseen.",
 ["src/script_parser.rs", "src/rule_parsing.rs", "src/vms/stack_vm.rs", "src/vms/simple_stack_vm.rs", "src/tree.rs"],
 [("Parser::new_from_text", "src/script_parser.rs"), ("RuleParser::parse_instruction_section and merge_rule", "src/rule_parsing.rs"), ("VM::execute_instruction", "src/vms/stack_vm.rs")],
 [("Tstate", "stack, registers and error of the machine", "src/vms/stack_vm.rs")], ["the parser, the result of Parser::parse, the state afterwards, standard output"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
