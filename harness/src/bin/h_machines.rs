//! Parses scripts with the counting and the null machine and records their states.
use conform::gram::{build, sym_ix, Gram};
use conform::{field, main_loop, text, J};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::counting_vm::CountingVm;
use henriks_parsing_project::vms::{NullVm, VM};

fn make<'a, V: VM<Tinstrution = usize>>(case: &J, vm: &'a V) -> Parser<'a, V> {
    let g = Gram::of(case);
    if case.at("_route").str() == "text" {
        return Parser::new_from_text(&text(&case.at("_texts").arr()[0]), vm);
    }
    let counts = case.at("_n").arr();
    let mut pd = build(case, 0, vm, |pd, names| {
        for (k, n) in counts.iter().enumerate() {
            if n.us() > 0 {
                let ix = pd.get_or_add_non_terminal(&names[k]);
                pd.add_instructions(ix, (0..n.us()).collect());
            }
        }
    })
    .expect("readable");
    let start = sym_ix(&mut pd, &J::Arr(vec![J::s("n"), J::u(g.start)]), &g.names);
    Parser::new_from_parser_data(pd, start, vm)
}

fn history<V: VM<Tstate = usize, Tinstrution = usize>>(case: &J, vm: &V) {
    field("fresh", J::u(V::create_new_state()));
    let scripts: Vec<String> = case.at("_scripts").arr().iter().map(text).collect();
    let mut parser = make(case, vm);
    // where counting begins does not matter: states are recorded relative to it
    let first: usize = case.at("_from").str().parse().unwrap();
    let since = |state: usize| J::Int((state as i128 - first as i128).clamp(-1_000_000_000, 1_000_000_000) as i64);
    let mut state = first;
    let mut parses = vec![];
    for (s, w) in scripts.iter().zip(case.at("_scripts").arr()) {
        let before = state;
        let ok = parser.parse(s, &mut state).is_ok();
        parses.push(J::obj(vec![("w", w.clone()), ("before", since(before)), ("after", since(state)), ("ok", J::Bool(ok))]));
    }
    field("parses", J::Arr(parses));
}

fn run(case: &J) {
    if case.at("machine").str() == "count" {
        history(case, &CountingVm {})
    } else {
        history(case, &NullVm::new())
    }
}

fn main() {
    main_loop(run)
}
