//! Drives first_sets, follow_sets, steuer_sets and steuer_map on a grammar. Each run builds the grammar anew.
use conform::gram::{build, sym_ix, sym_of, Gram};
use conform::{main_loop, step, J};
use henriks_parsing_project::errors::GrammarError;
use henriks_parsing_project::first_sets::{first_set_of_partial, get_first_sets};
use henriks_parsing_project::follow_sets::get_follow_sets;
use henriks_parsing_project::parser_data::{ElementVerbose, ParserData, Production};
use henriks_parsing_project::sets::{SetMember, SetMemberWithEmpty};
use henriks_parsing_project::steuer_map::get_steuermaps;
use henriks_parsing_project::steuer_sets::get_steuer_sets;
use henriks_parsing_project::vms::NullVm;

fn with_empty<'a>(s: impl Iterator<Item = &'a SetMemberWithEmpty>) -> J {
    J::Arr(
        s.map(|m| {
            J::Int(match m {
                SetMemberWithEmpty::Char(c) => *c as i64,
                SetMemberWithEmpty::Empty => -1,
                SetMemberWithEmpty::Terminate => -2,
            })
        })
        .collect(),
    )
}
fn la(m: &SetMember) -> J {
    J::Int(match m {
        SetMember::Char(c) => *c as i64,
        SetMember::Terminate => -2,
    })
}
fn failed(ev: &str) {
    step(J::obj(vec![("ev", J::s(ev)), ("ok", J::Bool(false))]));
}

fn one(case: &J, run: usize) {
    let vm = NullVm::new();
    let g = Gram::of(case);
    let Some(mut pd): Option<ParserData<NullVm>> = build(case, run, &vm, |_, _| {}) else {
        return failed("read");
    };
    let nts: Vec<_> = (1..=g.names.len()).map(|k| pd.get_element_nt_index(&g.names[k - 1])).collect();
    // sequences to look at; their terminals may be new to the grammar
    let partials: Vec<Vec<usize>> = case.at("partials").arr().iter().map(|q| q.arr().iter().map(|s| sym_ix(&mut pd, s, &g.names)).collect()).collect();
    let per_nt = |f: &dyn Fn(usize) -> Option<J>| {
        J::Arr(
            nts.iter()
                .map(|ix| match ix.and_then(f) {
                    Some(s) => J::Arr(vec![J::Bool(true), s]),
                    None => J::Arr(vec![J::Bool(false), J::Arr(vec![])]),
                })
                .collect(),
        )
    };
    let Ok(first) = get_first_sets(&pd) else { return failed("first") };
    step(J::obj(vec![
        ("ev", J::s("first")),
        ("ok", J::Bool(true)),
        ("sets", per_nt(&|ix| first.get(&ix).map(|s| with_empty(s.iter())))),
        ("size", J::u(first.len())),
    ]));
    for (q, ixs) in case.at("partials").arr().iter().zip(&partials) {
        let mut o = vec![("ev", J::s("partial")), ("q", q.clone())];
        match first_set_of_partial(ixs, &first, &pd) {
            Ok(s) => o.extend([("ok", J::Bool(true)), ("set", with_empty(s.iter()))]),
            Err(_) => o.push(("ok", J::Bool(false))),
        }
        step(J::obj(o));
    }
    let start = sym_ix(&mut pd, &J::Arr(vec![J::s("n"), J::u(g.start)]), &g.names);
    let Ok(follow) = get_follow_sets(start, &first, &pd) else { return failed("follow") };
    step(J::obj(vec![
        ("ev", J::s("follow")),
        ("ok", J::Bool(true)),
        ("sets", per_nt(&|ix| follow.get(&ix).map(|s| J::Arr(s.iter().map(la).collect())))),
        ("size", J::u(follow.len())),
    ]));
    let Ok(steuer) = get_steuer_sets(&first, &follow) else { return failed("steuer") };
    step(J::obj(vec![
        ("ev", J::s("steuer")),
        ("ok", J::Bool(true)),
        ("sets", per_nt(&|ix| steuer.get(&ix).map(|s| J::Arr(s.iter().map(la).collect())))),
        ("size", J::u(steuer.len())),
    ]));
    let elements: Vec<ElementVerbose> = pd.get_elements_verbose();
    let sym = |ix: &usize| sym_of(&elements, *ix, &g.names);
    match get_steuermaps(&first, &follow, pd) {
        Ok(maps) => step(J::obj(vec![
            ("ev", J::s("table")),
            ("ok", J::Bool(true)),
            (
                "sets",
                per_nt(&|ix| {
                    maps.get(&ix).map(|r| {
                        J::Arr(
                            r.steuermap
                                .iter()
                                .map(|(m, p)| {
                                    let a = match &**p {
                                        Production::Empty => vec![],
                                        Production::NotEmpty(v) => v.iter().map(sym).collect(),
                                    };
                                    J::Arr(vec![la(m), J::Arr(a)])
                                })
                                .collect(),
                        )
                    })
                }),
            ),
            ("size", J::u(maps.len())),
        ])),
        Err(e) => {
            let mut o = vec![("ev", J::s("table")), ("ok", J::Bool(false))];
            if let GrammarError::SteuerSetsNotDistinct { steuer_char, rule_name, .. } = e {
                // the production is named by its index
                let k = rule_name.parse::<usize>().ok().and_then(|ix| nts.iter().position(|x| *x == Some(ix)));
                o.push(("conflict", J::Arr(vec![J::u(k.map_or(0, |k| k + 1)), J::Int(steuer_char as i64)])));
            } else {
                o.push(("conflict", J::Arr(vec![])));
            }
            step(J::obj(o))
        }
    }
}

fn run(case: &J) {
    for r in 0..case.at("runs").us() {
        one(case, r);
        step(J::obj(vec![("ev", J::s("end")), ("ok", J::Bool(true))]));
    }
}

fn main() {
    main_loop(run)
}
