//! Drives peekables::ParseProcess (views, nested to any depth) and parse_funcs (the readers).
use conform::{codes, main_loop, step, text, J};
use henriks_parsing_project::errors::ParserError;
use henriks_parsing_project::parse_funcs::*;
use henriks_parsing_project::peekables::{ParseProcess, PeekableWrapper, TPeekable};
use henriks_parsing_project::rule_parsing::parse_terminal;

/// A view as a trait object, so that views can be nested to a depth only known at run time.
trait Under {
    fn d_next(&mut self) -> Option<char>;
    fn d_peek(&mut self) -> Option<&char>;
    fn d_peek_mut(&mut self) -> Option<&mut char>;
    fn d_next_if(&mut self, f: &mut dyn FnMut(&char) -> bool) -> Option<char>;
    fn d_next_if_eq(&mut self, e: &char) -> Option<char>;
}
impl<T: TPeekable<Item = char>> Under for T {
    fn d_next(&mut self) -> Option<char> {
        self.next()
    }
    fn d_peek(&mut self) -> Option<&char> {
        self.peek()
    }
    fn d_peek_mut(&mut self) -> Option<&mut char> {
        self.peek_mut()
    }
    fn d_next_if(&mut self, f: &mut dyn FnMut(&char) -> bool) -> Option<char> {
        self.next_if(|c| f(c))
    }
    fn d_next_if_eq(&mut self, e: &char) -> Option<char> {
        self.next_if_eq(e)
    }
}
struct Dyn<'a>(&'a mut dyn Under);
impl Iterator for Dyn<'_> {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.d_next()
    }
}
impl TPeekable for Dyn<'_> {
    fn peek(&mut self) -> Option<&char> {
        self.0.d_peek()
    }
    fn peek_mut(&mut self) -> Option<&mut char> {
        self.0.d_peek_mut()
    }
    fn next_if(&mut self, func: impl FnOnce(&char) -> bool) -> Option<char> {
        let mut f = Some(func);
        self.0.d_next_if(&mut |c| (f.take().unwrap())(c))
    }
    fn next_if_eq(&mut self, expected: &char) -> Option<char> {
        self.0.d_next_if_eq(expected)
    }
}

fn opt_char(j: &J) -> Option<char> {
    match j.int() {
        -1 => None,
        c => char::from_u32(c as u32),
    }
}
fn r(o: Option<char>) -> J {
    J::Arr(o.into_iter().map(|c| J::Int(c as i64)).collect())
}

/// Performs ops[*k..] on the view until it is closed.
fn drive<T: TPeekable<Item = char>>(view: &mut ParseProcess<T>, ops: &[J], k: &mut usize) {
    while *k < ops.len() {
        let a = ops[*k].arr();
        *k += 1;
        let name = a[0].str();
        let mut out = vec![("op", J::s(name))];
        match name {
            "next" => out.push(("r", r(view.next()))),
            "peek" => out.push(("r", r(view.peek().copied()))),
            "peekm" => out.push(("r", r(view.peek_mut().map(|c| *c)))),
            "nif" => {
                let cs: Vec<char> = text(&a[1]).chars().collect();
                let want = a[2].bool();
                out.push(("r", r(view.next_if(|c| cs.contains(c) == want))));
                out.push(("cs", a[1].clone()));
                out.push(("want", a[2].clone()));
            }
            "neq" => {
                out.push(("r", r(view.next_if_eq(&char::from_u32(a[1].int() as u32).unwrap()))));
                out.push(("cs", J::Arr(vec![a[1].clone()])));
            }
            "open" => {
                out.extend([("stop", a[1].clone()), ("esc", a[2].clone()), ("at", a[3].clone())]);
                let plain = a[3].int() == 0;
                let pos = a[3].us();
                let mut under = Dyn(view);
                let mut inner = if plain {
                    ParseProcess::new(&mut under, opt_char(&a[1]), opt_char(&a[2]))
                } else {
                    ParseProcess::new_nested(&mut under, opt_char(&a[1]), opt_char(&a[2]), pos)
                };
                out.push(("p", J::u(inner.cur_pos())));
                step(J::obj(out));
                drive_dyn(&mut inner, ops, k);
                if *k > 0 && ops[*k - 1].arr()[0].str() == "close" {
                    step(J::obj(vec![("op", J::s("close")), ("p", J::u(view.cur_pos()))]));
                }
                continue;
            }
            "close" => return,
            _ => panic!("unknown op"),
        }
        out.push(("p", J::u(view.cur_pos())));
        step(J::obj(out));
    }
}
fn drive_dyn(view: &mut ParseProcess<Dyn>, ops: &[J], k: &mut usize) {
    drive(view, ops, k)
}

fn read<T: TPeekable<Item = char>>(view: &mut ParseProcess<T>, ops: &[J], quoted: impl Fn(&mut ParseProcess<T>) -> Result<String, ParserError>) {
    for op in ops {
        let a = op.arr();
        let name = a[0].str();
        let mut out = vec![("op", J::s(name))];
        let res: Result<String, ParserError> = match name {
            "ws" => {
                parse_whitespace(view);
                Ok(String::new())
            }
            "digits" => parse_digits(view),
            "usize" => parse_usize(view).map(|n| n.to_string()),
            "isize" => parse_isize(view).map(|n| n.to_string()),
            "name" => parse_var_name(view),
            "quoted" => quoted(view),
            "sym" => {
                out.push(("c", a[1].clone()));
                parse_symbol(view, char::from_u32(a[1].int() as u32).unwrap()).map(|()| String::new())
            }
            _ => panic!("unknown op"),
        };
        match res {
            Ok(v) => out.extend([("ok", J::Bool(true)), ("val", codes(&v)), ("err", J::Arr(vec![]))]),
            Err(e) => {
                let err = match e {
                    ParserError::UnexpectedCharError { chr, pos, .. } => vec![J::u(pos), J::Int(chr as i64)],
                    ParserError::EndOfCharsError { pos } => vec![J::u(pos)],
                    _ => vec![],
                };
                out.extend([("ok", J::Bool(false)), ("val", J::Arr(vec![])), ("err", J::Arr(err))])
            }
        }
        out.push(("p", J::u(view.cur_pos())));
        out.push(("s", r(view.peek().copied())));
        step(J::obj(out));
    }
}

fn run(case: &J) {
    let t = text(case.at("text"));
    let (stop, esc, pos) = (opt_char(case.at("stop")), opt_char(case.at("esc")), case.at("pos").us());
    let mut base = PeekableWrapper::from_str(&t);
    let ops = case.at("ops").arr();
    if case.at("kind").str() == "views" {
        let mut view = if pos == 0 { ParseProcess::new(&mut base, stop, esc) } else { ParseProcess::new_nested(&mut base, stop, esc, pos) };
        let mut k = 0;
        drive(&mut view, ops, &mut k);
    } else if case.at("nested").bool() {
        let mut outer = ParseProcess::new_nested(&mut base, None, None, pos);
        let mut view = ParseProcess::new_nested(&mut outer, stop, esc, pos);
        read(&mut view, ops, |_| panic!("quoted text is read from the text itself"));
    } else {
        let mut view = ParseProcess::new_nested(&mut base, stop, esc, pos);
        read(&mut view, ops, parse_terminal);
    }
}

fn main() {
    main_loop(run)
}
