//! Drives henriks_parsing_project::tree::Tree.
//! ops: ["add",ref,data] ["rm",ref] ["set",ref,data] ["get",ref] ["has",ref] ["kids",ref] ["desc",ref]
//!      ["nth",ref,n] ["path",ref,[n..]] ["all"] ["churn",ref,n]
//! ref: -1 no parent; n>=0 the n-th handle returned so far; [ptr,pk] a made-up handle.
use std::collections::HashSet;
use conform::{main_loop, step, J};
use henriks_parsing_project::tree::{NodeId, Tree};

fn h(id: &NodeId) -> J {
    J::Arr(vec![J::u(id.node_ptr), J::u(id.node_pk)])
}
fn hs(ids: &[NodeId]) -> J {
    J::Arr(ids.iter().map(h).collect())
}
fn ok(v: J) -> J {
    J::Arr(vec![J::s("ok"), v])
}
fn err() -> J {
    J::Arr(vec![J::s("err")])
}
fn none() -> J {
    J::Arr(vec![J::s("none")])
}

fn run(case: &J) {
    let mut tree: Tree<i64> = Tree::new();
    let mut ids: Vec<NodeId> = vec![];
    let mut probes: Vec<NodeId> = vec![];
    let mut passing: HashSet<(usize, usize)> = HashSet::new();
    let key = |id: &NodeId| (id.node_ptr, id.node_pk);
    for op in case.at("ops").arr() {
        let op = op.arr();
        let name = op[0].str();
        let mut rf: Option<NodeId> = None;
        if op.len() > 1 {
            rf = match &op[1] {
                J::Int(-1) => None,
                J::Int(n) => match ids.get(*n as usize) {
                    Some(id) => Some(*id),
                    None => Some(NodeId { node_ptr: 0, node_pk: 1_000_000 + *n as usize }),
                },
                J::Arr(a) => {
                    let id = NodeId { node_ptr: a[0].us(), node_pk: a[1].us() };
                    probes.push(id);
                    Some(id)
                }
                _ => panic!(),
            };
        }
        let href = rf.as_ref().map(h).unwrap_or(J::Arr(vec![]));
        let at = |r: &str, rest: Vec<(&str, J)>| {
            let mut f = vec![("op", J::s(name)), ("h", href.clone()), ("r", J::s(r))];
            f.extend(rest);
            J::obj(f)
        };
        let outcome = |r: J, extra: Vec<(&str, J)>| {
            let a = r.arr();
            let mut f = vec![("op", J::s(name)), ("h", href.clone()), ("r", a[0].clone())];
            if a.len() > 1 {
                f.push(("v", a[1].clone()))
            }
            f.extend(extra);
            step(J::obj(f));
        };
        match name {
            "add" => {
                let r = tree.add_node(op[2].int(), rf);
                if let Ok(id) = &r {
                    ids.push(*id);
                }
                let again = r.as_ref().is_ok_and(|id| passing.contains(&key(id)));
                outcome(r.map(|id| ok(h(&id))).unwrap_or(err()), vec![("d", op[2].clone()), ("again", J::Bool(again))]);
            }
            "churn" => {
                // many short-lived nodes, one after the other: their handles, and what the others denote meanwhile
                let n = op[2].us();
                let before: Vec<_> = ids.iter().map(|id| (*id, tree.get_node(*id).map(|n| n.data).ok())).collect();
                let known: HashSet<_> = ids.iter().map(&key).collect();
                let (mut made, mut fresh, mut wrong, mut last) = (0, 0, 0, None);
                for k in 0..n {
                    let Ok(id) = tree.add_node(-7, rf) else { break };
                    made += 1;
                    if passing.insert(key(&id)) && !known.contains(&key(&id)) {
                        fresh += 1;
                    }
                    let stale = last.is_some_and(|l| tree.node_exists(l));
                    let changed = (k % 64 == 0 || k + 1 == n) && before.iter().any(|(id, d)| tree.get_node(*id).map(|n| n.data).ok() != *d);
                    let mine = tree.get_node(id).map(|n| n.data).ok() == Some(-7);
                    let gone = tree.remove_branch(id).is_ok() && !tree.node_exists(id);
                    if stale || changed || !mine || !gone {
                        wrong += 1;
                    }
                    last = Some(id);
                }
                let left = passing.iter().filter(|(p, k)| tree.node_exists(NodeId { node_ptr: *p, node_pk: *k })).count();
                step(at("ok", vec![("n", op[2].clone()), ("made", J::u(made)), ("fresh", J::u(fresh)), ("wrong", J::u(wrong)), ("left", J::u(left))]));
            }
            "rm" => {
                let r = tree.remove_branch(rf.unwrap());
                outcome(r.map(|()| J::Arr(vec![J::s("ok")])).unwrap_or(err()), vec![]);
            }
            "set" => {
                let r = tree.get_node_mut(rf.unwrap()).map(|n| n.data = op[2].int());
                outcome(r.map(|()| J::Arr(vec![J::s("ok")])).unwrap_or(err()), vec![("d", op[2].clone())]);
            }
            "get" => {
                let r = tree.get_node(rf.unwrap()).map(|n| n.data);
                outcome(r.map(|d| ok(J::Int(d))).unwrap_or(err()), vec![]);
            }
            "getm" => {
                let r = tree.get_node_mut(rf.unwrap()).map(|n| n.data);
                outcome(r.map(|d| ok(J::Int(d))).unwrap_or(err()), vec![]);
            }
            "has" => outcome(ok(J::Bool(tree.node_exists(rf.unwrap()))), vec![]),
            "kids" => outcome(ok(hs(&tree.get_children(rf.unwrap()))), vec![]),
            "desc" => outcome(ok(hs(&tree.get_descendants(rf.unwrap()))), vec![]),
            "nth" => {
                // both lookups of the n-th child, on the node the handle denotes
                let n = op[2].us();
                let (a, b) = match tree.get_node(rf.unwrap()) {
                    Err(_) => (err(), err()),
                    Ok(node) => (
                        tree.get_nth_child(node, n).map(|c| ok(J::Int(c.data))).unwrap_or(none()),
                        tree.get_nth_child_or_none(node, n).map(|c| ok(J::Int(c.data))).unwrap_or(none()),
                    ),
                };
                outcome(a, vec![("n", op[2].clone()), ("b", b)]);
            }
            "path" => {
                let p: Vec<usize> = op[2].arr().iter().map(|x| x.us()).collect();
                let r = match tree.get_by_path_or_none(rf.unwrap(), p.into_iter()) {
                    Err(_) => err(),
                    Ok(None) => none(),
                    Ok(Some(n)) => ok(J::Int(n.data)),
                };
                outcome(r, vec![("p", op[2].clone())]);
            }
            "all" => {
                let mut v = vec![];
                for id in ids.iter().chain(probes.iter()) {
                    let d = tree.get_node(*id).map(|n| n.data).unwrap_or(-1);
                    v.push(J::Arr(vec![
                        h(id),
                        J::Bool(tree.node_exists(*id)),
                        J::Int(d),
                        hs(&tree.get_children(*id)),
                        hs(&tree.get_descendants(*id)),
                    ]));
                }
                step(at("ok", vec![("v", J::Arr(v))]));
            }
            _ => panic!("unknown op"),
        }
    }
}

fn main() {
    main_loop(run)
}
