//! Reads rule texts with rule_parsing::RuleParser and a VM that reads its sections in a prescribed way.
use conform::{codes, field, main_loop, text, J};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::parse_symbol;
use henriks_parsing_project::parser_data::{ElementType, Production};
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::tree::{NodeId, Tree};
use henriks_parsing_project::vms::VM;
use std::cell::RefCell;

struct SectionVm {
    plan: Vec<String>,
    upto: i64,
    fail: usize,
    lexical: bool,
    calls: RefCell<Vec<(String, String)>>,
    clean: RefCell<bool>,
}

impl SectionVm {
    /// One reading operation; None if it cannot deliver (more).
    fn op<T: TPeekable<Item = char>>(&self, op: &str, v: &mut ParseProcess<T>, out: &mut String, room: usize) -> bool {
        let got = |c: Option<char>, out: &mut String| match c {
            Some(c) => {
                out.push(c);
                true
            }
            None => false,
        };
        let unclean = || *self.clean.borrow_mut() = false;
        match op {
            "next" => got(v.next(), out),
            "peek" => {
                let p = v.peek().copied();
                let n = v.next();
                if p != n {
                    unclean()
                }
                got(n, out)
            }
            "peekm" => {
                let p = v.peek_mut().map(|c| *c);
                let q = v.peek().copied();
                let n = v.next();
                if p != n || q != n {
                    unclean()
                }
                got(n, out)
            }
            "nif" => got(v.next_if(|_| true), out),
            "nif0" => {
                let p = v.peek().copied();
                if v.next_if(|_| false).is_some() {
                    unclean()
                }
                p.is_some()
            }
            "neq" => match v.peek().copied() {
                Some(c) => got(v.next_if_eq(&c), out),
                None => false,
            },
            // conditional steps that mostly do not apply
            "brace" => got(v.next_if_eq(&'}'), out) || v.peek().is_some(),
            "back" => got(v.next_if_eq(&'\\'), out) || v.peek().is_some(),
            "nbrace" => got(v.next_if(|c| *c != '}'), out) || v.peek().is_some(),
            // a view of the view
            "nested" => {
                let pos = v.cur_pos();
                let mut inner = ParseProcess::new_nested(v, Some(';'), None, pos);
                let mut n = 0;
                while n < room {
                    match inner.next() {
                        Some(c) => out.push(c),
                        None => break,
                    }
                    n += 1;
                }
                v.peek().is_some()
            }
            _ => panic!("unknown op"),
        }
    }
}

impl VM for SectionVm {
    type Tstate = usize;
    type Tinstrution = usize;
    fn parse_instructions<'a, T>(&'a self, prod_name: &str, to_parse: &mut ParseProcess<T>) -> Result<Vec<usize>, ParserError>
    where
        T: TPeekable<Item = char>,
    {
        let n = self.calls.borrow().len() + 1;
        self.calls.borrow_mut().push((prod_name.to_string(), String::new()));
        let mut got = String::new();
        let mut k = n; // start at a different place of the plan in each call
        let mut idle = 0;
        loop {
            let have = got.chars().count();
            if self.upto >= 0 && have as i64 >= self.upto {
                break;
            }
            let room = if self.upto >= 0 { self.upto as usize - have } else { usize::MAX };
            let op = &self.plan[k % self.plan.len()];
            k += 1;
            if !self.op(op, to_parse, &mut got, room) {
                break;
            }
            idle = if got.chars().count() > have { 0 } else { idle + 1 };
            if idle > self.plan.len() {
                // nothing in the plan applies here
                if !self.op("next", to_parse, &mut got, 1) {
                    break;
                }
            }
        }
        if self.upto < 0 {
            // at the end nothing more comes, whatever is tried
            for op in ["next", "peek", "peekm", "nif", "neq", "brace", "back", "nbrace", "next"] {
                let mut more = String::new();
                if self.op(op, to_parse, &mut more, 1) || !more.is_empty() {
                    *self.clean.borrow_mut() = false;
                    break;
                }
            }
        } else {
            to_parse.peek();
        }
        self.calls.borrow_mut()[n - 1].1 = got;
        if n == self.fail {
            if self.lexical {
                // nothing in the texts is this character
                parse_symbol(to_parse, '\u{1}')?;
            }
            return Err(ParserError::VmError { message: "no".into() });
        }
        Ok((0..n % 3).map(|x| n * 10 + x + 1).collect())
    }
    fn execute_instruction(&self, _: &mut Tree<String>, _: NodeId, _: &usize, _: &mut usize) {}
    fn create_new_state() -> usize {
        0
    }
}

fn run(case: &J) {
    let t = text(case.at("t"));
    let v = case.at("vm");
    let vm = SectionVm {
        plan: case.at("_plan").arr().iter().map(|x| x.str().to_string()).collect(),
        upto: v.at("upto").int(),
        fail: v.at("fail").us(),
        lexical: case.get("_lexical").is_some(),
        calls: RefCell::default(),
        clean: RefCell::new(true),
    };
    let mut chars = PeekableWrapper::from_str(&t);
    let mut reader = RuleParser::new(&mut chars, &vm);
    let res = match reader.parse_rules() {
        Ok(_) => vec![("ok", J::Bool(true))],
        Err(ParserError::UnexpectedCharError { chr, pos, .. }) => vec![("ok", J::Bool(false)), ("kind", J::s("char")), ("pos", J::u(pos)), ("chr", J::Int(chr as i64))],
        Err(ParserError::EndOfCharsError { pos }) => vec![("ok", J::Bool(false)), ("kind", J::s("end")), ("pos", J::u(pos))],
        Err(_) => vec![("ok", J::Bool(false)), ("kind", J::s("other"))],
    };
    let ok = res.len() == 1;
    let pd = reader.parser_data;
    field("res", J::obj(res));
    field("calls", J::Arr(vm.calls.borrow().iter().map(|(n, t)| J::Arr(vec![codes(n), codes(t)])).collect()));
    field("clean", J::Bool(*vm.clean.borrow()));
    let sym = |ix: usize| match pd.get_element_verbose(ix) {
        Some(e) => J::Arr(vec![
            J::s(match e.et {
                ElementType::Terminal => "t",
                ElementType::NonTerminal => "n",
            }),
            codes(&e.name),
        ]),
        None => J::Arr(vec![J::s("?"), J::Arr(vec![])]),
    };
    if ok {
        field("els", J::Arr((0..pd.element_data.len()).map(sym).collect()));
        field(
            "rules",
            J::Arr(
                pd.parse_rules
                    .rules
                    .iter()
                    .map(|(ix, r)| {
                        let alts = r
                            .possible_productions
                            .iter()
                            .map(|p| {
                                J::Arr(match &**p {
                                    Production::Empty => vec![],
                                    Production::NotEmpty(v) => v.iter().map(|x| sym(*x)).collect(),
                                })
                            })
                            .collect();
                        J::Arr(vec![sym(*ix), J::Arr(alts), J::Arr(r.instruction.iter().map(|x| J::u(*x)).collect())])
                    })
                    .collect(),
            ),
        );
    }
}

fn main() {
    main_loop(run)
}
