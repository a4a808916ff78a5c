//! Drives the two stack machines: kind "text" reads instruction sections, kind "run" executes instructions.
use conform::{big, codes, field, main_loop, step, text, unbig, Printed, J};
use henriks_parsing_project::parser_data::ElementVerbose;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::simple_stack_vm::{self, SimpleStackVm};
use henriks_parsing_project::vms::stack_vm::{self, StackVm};
use henriks_parsing_project::vms::VM;
use std::cell::RefCell;

thread_local! {
    static PRINTED: RefCell<Printed> = RefCell::new(Printed::open());
}

macro_rules! machine {
    ($m:ident, $vm:ty, $md:ident, $int:ty, $state:expr, $extra:expr) => {
        mod $m {
            use super::*;
            use $md::Instruction as I;
            pub fn make(j: &J) -> I {
                let a = j.arr();
                let c = || unbig(&a[1]);
                match a[0].str() {
                    "Add" => I::Add,
                    "RegAddConst" => I::RegAddConst(c() as $int),
                    "Sub" => I::Sub,
                    "Digit" => I::Digit,
                    "PopToReg" => I::PopToReg,
                    "PopToReg2" => I::PopToReg2,
                    "PopDiscard" => I::PopDiscard,
                    "PushConst" => I::PushConst(c() as $int),
                    "PushFromTree" => I::PushFromTree,
                    "PushReg" => I::PushReg,
                    "PushReg2" => I::PushReg2,
                    "PrintReg" => I::PrintReg,
                    "PrintReg2" => I::PrintReg2,
                    "PrintError" => I::PrintError,
                    "Pow" => I::Pow(c() as usize),
                    _ => panic!("unknown instruction"),
                }
            }
            pub fn show(i: &I) -> J {
                let n = |s: &str| J::Arr(vec![J::s(s)]);
                let c = |s: &str, c: String| J::Arr(vec![J::s(s), codes(&c)]);
                match i {
                    I::Add => n("Add"),
                    I::RegAddConst(x) => c("RegAddConst", x.to_string()),
                    I::Sub => n("Sub"),
                    I::Digit => n("Digit"),
                    I::PopToReg => n("PopToReg"),
                    I::PopToReg2 => n("PopToReg2"),
                    I::PopDiscard => n("PopDiscard"),
                    I::PushConst(x) => c("PushConst", x.to_string()),
                    I::PushFromTree => n("PushFromTree"),
                    I::PushReg => n("PushReg"),
                    I::PushReg2 => n("PushReg2"),
                    I::PrintReg => n("PrintReg"),
                    I::PrintReg2 => n("PrintReg2"),
                    I::PrintError => n("PrintError"),
                    I::Pow(x) => c("Pow", x.to_string()),
                    #[allow(unreachable_patterns)]
                    _ => n("?"),
                }
            }
            pub fn run(case: &J) {
                let mut s = <$vm>::create_new_state();
                if let Some(j) = case.get("state") {
                    s.stack = j.at("stack").arr().iter().map(|x| unbig(x) as $int).collect();
                    s.reg = unbig(j.at("reg")) as $int;
                    s.reg2 = unbig(j.at("reg2")) as $int;
                    s.error = j.at("err").us();
                }
                let mut tree: Tree<String> = Tree::new();
                let mut ids: Vec<NodeId> = vec![];
                for n in case.at("nodes").arr() {
                    let n = n.arr();
                    let parent = if n[0].us() == 0 { None } else { Some(ids[n[0].us() - 1]) };
                    ids.push(tree.add_node(text(&n[1]), parent).unwrap());
                }
                for k in case.at("gone").arr() {
                    tree.remove_branch(ids[k.us() - 1]).unwrap();
                }
                let look = |t: &Tree<String>| -> Vec<Option<(String, Vec<(usize, usize)>)>> {
                    ids.iter()
                        .map(|id| t.get_node(*id).ok().map(|n| (n.data.clone(), t.get_children(*id).iter().map(|k| (k.node_ptr, k.node_pk)).collect())))
                        .collect()
                };
                let before = look(&tree);
                let vm: &$vm = &$state;
                let show = |s: &<$vm as VM>::Tstate| {
                    vec![
                        ("stack", J::Arr(s.stack.iter().map(|x| big(*x as i128)).collect())),
                        ("reg", big(s.reg as i128)),
                        ("reg2", big(s.reg2 as i128)),
                        ("err", J::u(s.error)),
                    ]
                };
                field("initial", J::obj(show(&s)));
                for op in case.at("ops").arr() {
                    PRINTED.with(|p| p.borrow_mut().skip());
                    let ins = make(op.at("i"));
                    let cur = ids[op.at("n").us() - 1];
                    vm.execute_instruction(&mut tree, cur, &ins, &mut s);
                    let out = PRINTED.with(|p| p.borrow_mut().take());
                    let extra: fn(&<$vm as VM>::Tstate) -> bool = $extra;
                    let same = look(&tree) == before && extra(&s);
                    step(J::obj(vec![("s", J::obj(show(&s))), ("out", codes(&out)), ("same", J::Bool(same))]));
                }
            }
            pub fn read(case: &J, vm: &$vm) {
                let t = text(case.at("t"));
                let name = text(case.at("name"));
                let (ok, ins) = match case.at("how").str() {
                    // as the section of a rule
                    "rule" => {
                        let rule = format!("{} -> # {{{}}};", name, t);
                        let mut chars = PeekableWrapper::from_str(&rule);
                        let mut reader = RuleParser::new(&mut chars, vm);
                        let ok = reader.parse_rules().is_ok();
                        let pd = reader.parser_data;
                        let ins = pd.get_element_index(&ElementVerbose::new_nt(name)).and_then(|ix| pd.get_rule_by_key(ix)).map(|r| r.instruction.iter().map(show).collect()).unwrap_or_default();
                        (ok, ins)
                    }
                    // as a part of a larger text
                    "part" => {
                        let larger = format!("{}}} and more;", t);
                        let mut chars = PeekableWrapper::from_str(&larger);
                        let mut outer = ParseProcess::new(&mut chars, None, None);
                        let mut view = ParseProcess::new_nested(&mut outer, Some('}'), Some('\\'), 7);
                        let r = vm.parse_instructions(&name, &mut view);
                        let left = view.peek().is_some();
                        (r.is_ok() && !left, r.map(|v| v.iter().map(show).collect()).unwrap_or_default())
                    }
                    _ => {
                        let mut chars = PeekableWrapper::from_str(&t);
                        let mut view = ParseProcess::new(&mut chars, None, None);
                        let r = vm.parse_instructions(&name, &mut view);
                        let left = view.peek().is_some();
                        (r.is_ok() && !left, r.map(|v| v.iter().map(show).collect()).unwrap_or_default())
                    }
                };
                let ins: Vec<J> = ins;
                field("ok", J::Bool(ok));
                field("ins", J::Arr(ins));
            }
        }
    };
}
machine!(stack, StackVm, stack_vm, isize, StackVm {}, |s| s.instruction_counter == 0 && s.instructions.is_empty());
machine!(simple, SimpleStackVm, simple_stack_vm, usize, SimpleStackVm {}, |_| true);

fn run(case: &J) {
    match (case.at("what").str(), case.at("vm").str()) {
        ("text", "stack") => stack::read(case, &StackVm {}),
        ("text", _) => simple::read(case, &SimpleStackVm {}),
        (_, "stack") => stack::run(case),
        _ => simple::run(case),
    }
}

fn main() {
    main_loop(run)
}
