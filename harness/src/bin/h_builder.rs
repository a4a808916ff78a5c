//! Drives parser_data::ParserData (instructions are plain numbers: NullVm).
use conform::{codes, main_loop, step, text, J};
use henriks_parsing_project::parser_data::{Element, ElementType, ElementVerbose, ParserData, Production};
use henriks_parsing_project::vms::NullVm;

fn ints(v: &[usize]) -> J {
    J::Arr(v.iter().map(|x| J::u(*x)).collect())
}
fn opt(o: Option<J>) -> J {
    J::Arr(o.into_iter().collect())
}
fn kind(et: ElementType) -> J {
    J::s(match et {
        ElementType::Terminal => "t",
        ElementType::NonTerminal => "n",
    })
}
fn et(k: &J) -> ElementType {
    if k.str() == "t" {
        ElementType::Terminal
    } else {
        ElementType::NonTerminal
    }
}

macro_rules! rule {
    ($r:expr) => {
        match $r {
            // a production without alternatives and instructions is the same as none
            None => J::Arr(vec![J::Arr(vec![]), J::Arr(vec![])]),
            Some(r) => J::Arr(vec![
                J::Arr(
                    r.possible_productions
                        .iter()
                        .map(|p| match &**p {
                            Production::NotEmpty(v) => J::Arr(vec![J::s("seq"), ints(v)]),
                            Production::Empty => J::Arr(vec![J::s("empty"), J::Arr(vec![])]),
                        })
                        .collect(),
                ),
                ints(&r.instruction),
            ]),
        }
    };
}

fn run(case: &J) {
    let mut p: ParserData<NullVm> = ParserData::new();
    for op in case.at("ops").arr() {
        let a = op.arr();
        let name = a[0].str();
        let mut out = vec![("op", J::s(name)), ("a", J::Arr(a[1..].to_vec()))];
        let seq = |j: &J| -> Vec<usize> { j.arr().iter().map(|x| x.us()).collect() };
        match name {
            // three ways to ask for an element
            "key" => out.push(("r", J::u(p.get_or_add_element_key(&ElementVerbose::new(text(&a[2]), et(&a[1])))))),
            "add" => {
                let n = text(&a[2]);
                let r = if a[1].str() == "t" { p.get_or_add_terminal(&n) } else { p.get_or_add_non_terminal(&n) };
                out.push(("r", J::u(r)))
            }
            "prod" => {
                p.add_production(a[1].us(), seq(&a[2]));
                out.push(("r", J::Int(0)))
            }
            "prods" => {
                p.set_productions(a[1].us(), a[2].arr().iter().map(seq).collect());
                out.push(("r", J::Int(0)))
            }
            "inst" => {
                p.add_instructions(a[1].us(), seq(&a[2]));
                out.push(("r", J::Int(0)))
            }
            // lookups by kind and name: [index by each way]
            "find" => {
                let n = text(&a[2]);
                let k = et(&a[1]);
                let by_kind = if a[1].str() == "t" { p.get_element_t_index(&n) } else { p.get_element_nt_index(&n) };
                let v = match k {
                    ElementType::Terminal => ElementVerbose::new_t(n.clone()),
                    ElementType::NonTerminal => ElementVerbose::new_nt(n.clone()),
                };
                out.push((
                    "r",
                    J::Arr(vec![
                        opt(p.get_element_index(&ElementVerbose::new(n.clone(), k)).map(J::u)),
                        opt(by_kind.map(J::u)),
                        opt(p.get_element_index(&v).map(J::u)),
                    ]),
                ));
            }
            // lookups by index
            "at" => {
                let ix = a[1].us();
                let e = p.get_element(ix);
                let same = match e {
                    None => true,
                    Some(e) => e == match e.et {
                        ElementType::Terminal => Element::new_t(ix),
                        ElementType::NonTerminal => Element::new_nt(ix),
                    },
                };
                out.push((
                    "r",
                    J::Arr(vec![
                        opt(p.get_element_data(ix).map(|d| codes(&d.name))),
                        opt(e.map(|e| J::Arr(vec![J::u(e.ix), kind(e.et)]))),
                        opt(p.get_element_verbose(ix).map(|v| J::Arr(vec![kind(v.et), codes(&v.name)]))),
                        J::Bool(same),
                    ]),
                ));
            }
            "elems" => out.push((
                "r",
                J::Arr(p.get_elements_verbose().iter().map(|v| J::Arr(vec![kind(v.et), codes(&v.name)])).collect()),
            )),
            // the rule of a production by index, by element and by name
            "rule" => {
                let ix = a[1].us();
                let by_ix = rule!(p.get_rule_by_key(ix));
                let by_el = match p.get_element(ix) {
                    Some(e) => rule!(p.get_rule_by_element(e)),
                    None => by_ix.clone(),
                };
                let by_name = match p.get_element_verbose(ix) {
                    Some(v) if v.et == ElementType::NonTerminal => rule!(p.get_rule_by_element_verbose(&v.name)),
                    _ => by_ix.clone(),
                };
                out.push(("r", J::Arr(vec![by_ix, by_el, by_name])));
            }
            "rulen" => out.push(("r", rule!(p.get_rule_by_element_verbose(&text(&a[1]))))),
            _ => panic!("unknown op"),
        }
        step(J::obj(out));
    }
}

fn main() {
    main_loop(run)
}
