//! Runs scripts in the three calculators of /repo/examples.
use conform::{big, codes, field, main_loop, text, Printed, J};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::VM;
use std::fs::read_to_string;

#[allow(unused, non_snake_case)]
mod example {
    include!(concat!(env!("OUT_DIR"), "/calc_example.rs"));
}

fn run(case: &J) {
    let fresh = case.at("_fresh").bool();
    let mut runs = vec![];
    let mut out = Printed::open();
    macro_rules! calculator {
        ($vm:ident, $make:expr) => {{
            let vm = $vm {};
            let texts: Vec<String> = case.at("_scripts").arr().iter().map(text).collect();
            let mut parser = $make(&vm);
            for (n, w) in case.at("_scripts").arr().iter().enumerate() {
                if fresh && n > 0 {
                    parser = $make(&vm);
                }
                let mut state = $vm::create_new_state();
                out.skip();
                let ok = parser.parse(&texts[n], &mut state).is_ok();
                runs.push(J::obj(vec![
                    ("w", w.clone()),
                    ("ok", J::Bool(ok)),
                    ("stack", J::Arr(state.stack.iter().map(|x| big(*x as i128)).collect())),
                    ("out", codes(&out.take())),
                ]));
            }
        }};
    }
    match case.at("calc").str() {
        "text" => {
            let rules = read_to_string("/repo/examples/stack_based_math.txt").unwrap();
            calculator!(StackVm, |vm| Parser::new_from_text(&rules, vm))
        }
        "rust" => calculator!(StackVm, |vm| {
            let (data, start) = example::definition();
            Parser::new_from_parser_data(data, start, vm)
        }),
        _ => {
            let rules = read_to_string("/repo/examples/simple_stack_based_math.txt").unwrap();
            calculator!(SimpleStackVm, |vm| Parser::new_from_text(&rules, vm))
        }
    }
    field("parses", J::Arr(runs));
}

fn main() {
    main_loop(run)
}
