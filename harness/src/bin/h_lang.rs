//! Languages made with the library: a rule text for one of the stack machines, and scripts.
use conform::{big, codes, field, main_loop, text, Printed, J};
use henriks_parsing_project::script_parser::Parser;
use henriks_parsing_project::vms::simple_stack_vm::SimpleStackVm;
use henriks_parsing_project::vms::stack_vm::StackVm;
use henriks_parsing_project::vms::VM;
use std::panic::{catch_unwind, AssertUnwindSafe};

macro_rules! live {
    ($vm:ident, $case:expr) => {{
        let vm = $vm {};
        let rules = text($case.at("t"));
        let scripts: Vec<String> = $case.at("_scripts").arr().iter().map(|p| text(&p.arr()[0])).collect();
        let made = catch_unwind(AssertUnwindSafe(|| Parser::new_from_text(&rules, &vm)));
        field("parser", J::Bool(made.is_ok()));
        let mut runs = vec![];
        if let Ok(mut parser) = made {
            let mut out = Printed::open();
            let mut state = $vm::create_new_state();
            for (script, p) in scripts.iter().zip($case.at("_scripts").arr()) {
                let (w, fresh) = (&p.arr()[0], p.arr()[1].bool());
                if fresh {
                    state = $vm::create_new_state();
                }
                out.skip();
                let ok = parser.parse(script, &mut state).is_ok();
                let printed = out.take();
                let s = J::obj(vec![
                    ("stack", J::Arr(state.stack.iter().map(|x| big(*x as i128)).collect())),
                    ("reg", big(state.reg as i128)),
                    ("reg2", big(state.reg2 as i128)),
                    ("err", J::u(state.error)),
                ]);
                runs.push(J::obj(vec![("w", w.clone()), ("fresh", J::Bool(fresh)), ("ok", J::Bool(ok)), ("s", s), ("out", codes(&printed))]));
            }
        }
        field("parses", J::Arr(runs));
    }};
}

fn run(case: &J) {
    match case.at("vm").str() {
        "stack" => live!(StackVm, case),
        _ => live!(SimpleStackVm, case),
    }
}

fn main() {
    main_loop(run)
}
