//! Drives simple_graph::Graph ("kind":"simple", two graph objects g = 0/1) and named_graph::GraphNamedNodes
//! ("kind":"named").
use conform::{main_loop, step, J};
use henriks_parsing_project::named_graph::GraphNamedNodes;
use henriks_parsing_project::simple_graph::Graph;

fn ints(v: Vec<usize>) -> J {
    J::Arr(v.into_iter().map(J::u).collect())
}
fn opt(o: Option<J>) -> J {
    J::Arr(o.into_iter().collect())
}

/// Edge numbers from FAR on stand for numbers further up.
const FAR: usize = 1_000_000_000;
fn up(n: usize, by: usize) -> usize {
    if n < FAR { n } else { n + by }
}
fn down(n: usize, by: usize) -> usize {
    if n >= FAR + by { n - by } else if n < FAR { n } else { 999_999_999 }
}

fn dump(g: &Graph<i64>, by: usize) -> J {
    J::Arr(
        (0..g.nodes.len())
            .map(|n| {
                J::Arr(vec![
                    J::Int(g.nodes[n].data),
                    ints(g.successors(n).take(10_000).collect()),
                    J::Arr(
                        g.connected_edges(n)
                            .take(10_000)
                            .map(|e| ints(vec![down(g.edges[e].id, by), g.edges[e].target]))
                            .collect(),
                    ),
                ])
            })
            .collect(),
    )
}

fn simple(case: &J) {
    let by = case.at("_by").us();
    let mut gs: Vec<Graph<i64>> = vec![Graph::new(), Graph::default()];
    for op in case.at("ops").arr() {
        let a = op.arr();
        let name = a[0].str();
        let g = a[1].us();
        let x = |k: usize| a[k].us();
        let mut out = vec![("op", J::s(name)), ("a", J::Arr(a[1..].to_vec()))];
        match name {
            "node" => out.push(("r", J::u(gs[g].add_node(a[2].int())))),
            "edge" => {
                gs[g].add_edge(x(2), x(3));
                out.push(("r", J::Int(0)))
            }
            "eid" => out.push(("r", J::Bool(gs[g].try_add_edge_with_id(x(2), x(3), up(x(4), by))))),
            "find" => {
                out.push(("r", opt(gs[g].find_node_index(x(2), up(x(3), by)).map(J::u))));
                out.push(("d", opt(gs[g].find_node(x(2), up(x(3), by)).map(|n| J::Int(n.data)))));
            }
            "path" => {
                let p: Vec<usize> = a[3].arr().iter().map(|n| up(n.us(), by)).collect();
                out.push(("r", opt(gs[g].find_node_index_by_path(x(2), p.clone().into_iter()).map(J::u))));
                out.push(("d", opt(gs[g].find_node_by_path(x(2), p.into_iter()).map(|n| J::Int(n.data)))));
            }
            "succ" => out.push(("r", ints(gs[g].successors(x(2)).take(10_000).collect()))),
            "merge" => {
                let other = std::mem::take(&mut gs[1 - g]);
                gs[g].add_graph_at_node(other, x(2), x(3));
                out.push(("r", J::Int(0)));
            }
            "all" => out.push(("r", dump(&gs[g], by))),
            _ => panic!("unknown op"),
        }
        step(J::obj(out));
    }
}

fn named(case: &J) {
    let mut g: GraphNamedNodes<i64> = if case.at("ops").arr().len() % 2 == 0 { GraphNamedNodes::new() } else { GraphNamedNodes::default() };
    for op in case.at("ops").arr() {
        let a = op.arr();
        let name = a[0].str();
        let x = |k: usize| a[k].us();
        let mut out = vec![("op", J::s(name)), ("a", J::Arr(a[1..].to_vec()))];
        // r: [] refused, [value] done
        let r = match name {
            "node" => opt(g.add_node(x(1), a[2].int()).ok().map(J::u)),
            "edge" => opt(g.add_edge(x(1), x(2)).ok().map(|()| J::Int(0))),
            "get" => opt(g.get_node(x(1)).ok().map(|n| J::Int(n.data))),
            "getm" => opt(g.get_node_mut(x(1)).ok().map(|n| J::Int(n.data))),
            "set" => opt(g.get_node_mut(x(1)).ok().map(|n| {
                n.data = a[2].int();
                J::Int(0)
            })),
            "geti" => opt(g.get_node_by_index(x(1)).ok().map(|n| J::Int(n.data))),
            "getim" => opt(g.get_node_mut_by_index(x(1)).ok().map(|n| J::Int(n.data))),
            "seti" => opt(g.get_node_mut_by_index(x(1)).ok().map(|n| {
                n.data = a[2].int();
                J::Int(0)
            })),
            "succi" => opt(g.successor_indices(x(1)).ok().map(|s| ints(s.take(10_000).collect()))),
            "succ" => opt(g.successors(x(1)).ok().map(|s| {
                J::Arr(s.take(10_000).map(|(i, n)| J::Arr(vec![J::u(i), J::Int(n.data)])).collect())
            })),
            "name" => opt(g.names.get(&x(1)).map(|i| J::u(*i))),
            _ => panic!("unknown op"),
        };
        out.push(("r", r));
        step(J::obj(out));
    }
}

fn run(case: &J) {
    match case.at("kind").str() {
        "simple" => simple(case),
        _ => named(case),
    }
}

fn main() {
    main_loop(run)
}
