//! Parses scripts with a machine whose instructions alter the tree, and records what they see and what comes out.
use conform::gram::{build, sym_ix, Gram};
use conform::{codes, field, main_loop, text, J};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::peekables::{ParseProcess, TPeekable};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;

/// Instructions are written "who n what d", d as characters' numbers with dots, and stand one to a line.
#[derive(Clone)]
struct Op {
    who: String,
    n: usize,
    what: String,
    d: String,
}
impl Op {
    fn of(s: &str) -> Op {
        let p: Vec<&str> = s.split_whitespace().collect();
        let d = p.get(3).map_or(String::new(), |d| d.split('.').map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect());
        Op { who: p[0].into(), n: p[1].parse().unwrap(), what: p[2].into(), d }
    }
}
#[derive(Default)]
struct State {
    root: Option<NodeId>,
    kept: Option<NodeId>,
    seen: Vec<J>,
}
struct EditVm {
    /// whether instructions do anything
    on: bool,
}

fn view(tree: &Tree<String>, at: Option<NodeId>) -> J {
    let mut out = vec![];
    let mut todo: Vec<(NodeId, usize)> = at.into_iter().map(|x| (x, 0)).collect();
    while let Some((id, depth)) = todo.pop() {
        let Ok(n) = tree.get_node(id) else { continue };
        out.push(J::Arr(vec![J::u(depth), codes(&n.data)]));
        let mut kids = tree.get_children(id);
        kids.reverse();
        todo.extend(kids.into_iter().map(|k| (k, depth + 1)));
        if out.len() > 1_000_000 {
            panic!("tree without end");
        }
    }
    J::Arr(out)
}
impl State {
    /// The root is the node that was there first.
    fn look(&mut self, tree: &Tree<String>) -> (J, J) {
        if self.root.is_none() {
            self.root = (0..4).flat_map(|p| (0..4).map(move |k| NodeId { node_ptr: p, node_pk: k })).find(|h| tree.node_exists(*h));
        }
        (view(tree, self.root), view(tree, self.kept))
    }
}
impl VM for EditVm {
    type Tstate = State;
    type Tinstrution = Op;
    fn parse_instructions<'a, T>(&'a self, _: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<Op>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let mut all = String::new();
        while let Some(c) = to_parse.next() {
            all.push(c);
        }
        Ok(all.split('\n').filter(|x| !x.trim().is_empty()).map(Op::of).collect())
    }
    fn execute_instruction(&self, tree: &mut Tree<String>, cur: NodeId, op: &Op, state: &mut State) {
        if !self.on {
            return;
        }
        let (root, kept) = state.look(tree);
        let whom = match op.who.as_str() {
            "cur" => Some(cur),
            "kid" => tree.get_children(cur).get(op.n).copied(),
            "kept" => state.kept,
            "top" => None,
            x => panic!("who is {x}"),
        };
        let did = match (op.what.as_str(), whom) {
            ("add", w) if w.is_some() || op.who == "top" => tree.add_node(op.d.clone(), w).is_ok(),
            ("addkeep", w) if w.is_some() || op.who == "top" => match tree.add_node(op.d.clone(), w) {
                Ok(h) => {
                    state.kept = Some(h);
                    true
                }
                Err(_) => false,
            },
            ("set", Some(h)) => match tree.get_node_mut(h) {
                Ok(n) => {
                    n.data = op.d.clone();
                    true
                }
                Err(_) => false,
            },
            ("rm", Some(h)) => tree.remove_branch(h).is_ok(),
            ("keep", Some(h)) => {
                let there = tree.node_exists(h);
                if there {
                    state.kept = Some(h);
                }
                there
            }
            _ => false,
        };
        state.seen.push(J::Arr(vec![root, kept, J::Bool(did)]));
    }
    fn create_new_state() -> State {
        State::default()
    }
}

fn make<'a>(case: &J, vm: &'a EditVm) -> Parser<'a, EditVm> {
    let g = Gram::of(case);
    if let Some(t) = case.get("_texts") {
        return Parser::new_from_text(&text(&t.arr()[0]), vm);
    }
    let insts = case.at("_ops").arr();
    let mut pd = build(case, 0, vm, |pd, names| {
        for (k, l) in insts.iter().enumerate() {
            let l: Vec<Op> = l.arr().iter().map(|x| Op::of(x.str())).collect();
            if !l.is_empty() {
                let ix = pd.get_or_add_non_terminal(&names[k]);
                pd.add_instructions(ix, l);
            }
        }
    })
    .expect("readable");
    let start = sym_ix(&mut pd, &J::Arr(vec![J::s("n"), J::u(g.start)]), &g.names);
    Parser::new_from_parser_data(pd, start, vm)
}

fn run(case: &J) {
    let (vm, idle) = (EditVm { on: true }, EditVm { on: false });
    let scripts: Vec<String> = case.at("_scripts").arr().iter().map(text).collect();
    let mut parser = make(case, &vm);
    let mut control = make(case, &idle);
    let mut parses = vec![];
    for (s, w) in scripts.iter().zip(case.at("_scripts").arr()) {
        let mut state = EditVm::create_new_state();
        let res = parser.parse(s, &mut state);
        let last = match &res {
            Ok(tree) => {
                let (a, b) = state.look(tree);
                J::Arr(vec![a, b])
            }
            Err(_) => J::Arr(vec![]),
        };
        let plain = control.parse(s, &mut EditVm::create_new_state());
        parses.push(J::obj(vec![
            ("w", w.clone()),
            ("ok", J::Bool(res.is_ok())),
            ("control", J::Bool(plain.is_ok())),
            ("seen", J::Arr(state.seen)),
            ("last", last),
        ]));
    }
    field("parses", J::Arr(parses));
}

fn main() {
    main_loop(run)
}
