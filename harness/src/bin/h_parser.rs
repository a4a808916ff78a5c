//! Parses scripts with script_parser::Parser and records result, tree and instruction runs.
use conform::gram::{build, sym_ix, Gram};
use conform::{codes, field, main_loop, text, J};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::first_sets::get_first_sets;
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

/// The root of a parse tree is the node that was added first; how handles are numbered is the tree's own business.
fn root(tree: &Tree<String>) -> Option<NodeId> {
    (0..4).flat_map(|p| (0..4).map(move |k| NodeId { node_ptr: p, node_pk: k })).find(|h| tree.node_exists(*h))
}

/// A VM whose instructions are labels and whose state records what it sees.
struct LogVm {}
#[derive(Default)]
struct State {
    nodes: Vec<(usize, String)>,
    runs: Vec<J>,
    shrunk: bool,
}
/// The nodes below and including id in preorder, with their depths.
fn preorder(tree: &Tree<String>, id: NodeId, depth: usize, out: &mut Vec<(NodeId, usize, String)>) {
    let mut todo = vec![(id, depth)];
    while let Some((id, depth)) = todo.pop() {
        let Ok(n) = tree.get_node(id) else { continue };
        out.push((id, depth, n.data.clone()));
        let mut kids = tree.get_children(id);
        kids.reverse();
        todo.extend(kids.into_iter().map(|k| (k, depth + 1)));
        if out.len() > 1_000_000 {
            panic!("tree without end");
        }
    }
}
impl State {
    fn see(&mut self, tree: &Tree<String>) -> Vec<NodeId> {
        let mut all = vec![];
        if let Some(r) = root(tree) {
            preorder(tree, r, 0, &mut all);
        }
        let now: Vec<_> = all.iter().map(|(_, d, t)| (*d, t.clone())).collect();
        if now.len() < self.nodes.len() || now[..self.nodes.len()] != self.nodes[..] {
            self.shrunk = true;
        }
        self.nodes = now;
        all.into_iter().map(|x| x.0).collect()
    }
}
impl VM for LogVm {
    type Tstate = State;
    type Tinstrution = String;
    fn parse_instructions<'a, T>(&'a self, _: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<String>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut all = String::new();
        while let Some(c) = to_parse.next() {
            all.push(c);
        }
        Ok(all.split(';').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect())
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur_node: NodeId, instruction: &String, state: &mut State) {
        let ids = state.see(tree);
        let at = ids.iter().position(|x| x.node_ptr == cur_node.node_ptr && x.node_pk == cur_node.node_pk).map_or(0, |k| k + 1);
        state.runs.push(J::Arr(vec![J::s(instruction), J::u(at), J::u(ids.len())]));
    }
    fn create_new_state() -> State {
        State::default()
    }
}

fn make<'a>(case: &J, n: usize, vm: &'a LogVm) -> Parser<'a, LogVm> {
    let g = Gram::of(case);
    let route = case.at("_route").str();
    if route == "text" {
        let texts = case.at("_texts").arr();
        return Parser::new_from_text(&text(&texts[n % texts.len()]), vm);
    }
    let insts = case.at("_inst").arr();
    let mut pd = build(case, n, vm, |pd, names| {
        for (k, l) in insts.iter().enumerate() {
            let l: Vec<String> = l.arr().iter().map(|x| x.str().to_string()).collect();
            if !l.is_empty() {
                let ix = pd.get_or_add_non_terminal(&names[k]);
                pd.add_instructions(ix, l);
            }
        }
    })
    .expect("readable");
    let start = sym_ix(&mut pd, &J::Arr(vec![J::s("n"), J::u(g.start)]), &g.names);
    if route == "tables" {
        let first = get_first_sets(&pd).unwrap();
        let follow = get_follow_sets(start, &first, &pd).unwrap();
        let elements = pd.get_elements_verbose();
        return Parser::new(get_steuermaps(&first, &follow, pd).unwrap(), elements, vm);
    }
    Parser::new_from_parser_data(pd, start, vm)
}

fn run(case: &J) {
    let vm = LogVm {};
    let scripts: Vec<String> = case.at("_scripts").arr().iter().map(text).collect();
    let fresh = case.at("_fresh").bool();
    let mut parser = make(case, 0, &vm);
    let mut parses = vec![];
    for (n, (s, w)) in scripts.iter().zip(case.at("_scripts").arr()).enumerate() {
        if fresh && n > 0 {
            parser = make(case, n, &vm);
        }
        let mut state = LogVm::create_new_state();
        let res = parser.parse(s, &mut state);
        let (tree, res) = match &res {
            Ok(tree) => {
                state.see(tree);
                (true, vec![("ok", J::Bool(true))])
            }
            Err(e) => {
                let mut o = vec![("ok", J::Bool(false))];
                match e {
                    ParserError::UnexpectedCharError { chr, pos, expected } => o.extend([("exp", codes(expected)), ("kind", J::s("char")), ("pos", J::u(*pos)), ("chr", J::Int(*chr as i64))]),
                    ParserError::EndOfCharsError { pos } => o.extend([("kind", J::s("end")), ("pos", J::u(*pos)), ("chr", J::Int(-1))]),
                    _ => o.extend([("kind", J::s("other")), ("pos", J::Int(-1)), ("chr", J::Int(-1))]),
                }
                (false, o)
            }
        };
        parses.push(J::obj(vec![
            ("w", w.clone()),
            ("nodes", J::Arr(state.nodes.iter().map(|(d, t)| J::Arr(vec![J::u(*d), codes(t)])).collect())),
            ("runs", J::Arr(state.runs)),
            ("growing", J::Bool(!state.shrunk)),
            ("tree", J::Bool(tree)),
            ("res", J::obj(res)),
        ]));
    }
    field("parses", J::Arr(parses));
}

fn main() {
    main_loop(run)
}
