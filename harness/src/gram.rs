//! Brings a grammar of a case into the crate's form, by rule text or by the builder.
//!
//! g: {alts, def, start}; names: the productions' names; _texts: rule text for each run, or _orders: for each run the
//! order in which alternatives are added ([production, alternative] pairs); _first: elements to register beforehand.
use crate::{text, J};
use henriks_parsing_project::parser_data::{ElementType, ElementVerbose, ParserData};
use henriks_parsing_project::peekables::PeekableWrapper;
use henriks_parsing_project::rule_parsing::RuleParser;
use henriks_parsing_project::vms::VM;

pub struct Gram {
    pub names: Vec<String>,
    pub start: usize,
}
impl Gram {
    pub fn of(case: &J) -> Gram {
        Gram { names: case.get("_names").unwrap_or_else(|| case.at("names")).arr().iter().map(text).collect(), start: case.get("_g").unwrap_or_else(|| case.at("g")).at("start").us() }
    }
}

pub fn sym_ix<T: VM>(pd: &mut ParserData<T>, s: &J, names: &[String]) -> usize {
    let a = s.arr();
    if a[0].str() == "t" {
        pd.get_or_add_terminal(&text(&a[1]))
    } else {
        pd.get_or_add_non_terminal(&names[a[1].us() - 1])
    }
}

/// The symbol an element stands for.
pub fn sym_of(elements: &[ElementVerbose], ix: usize, names: &[String]) -> J {
    match elements.get(ix) {
        None => J::Arr(vec![J::s("?"), J::u(ix)]),
        Some(e) => match e.et {
            ElementType::Terminal => J::Arr(vec![J::s("t"), crate::codes(&e.name)]),
            ElementType::NonTerminal => J::Arr(vec![J::s("n"), J::u(names.iter().position(|n| *n == e.name).map_or(0, |k| k + 1))]),
        },
    }
}

/// inst sets the instructions of the productions on the builder way; on the text way they stand in the text.
pub fn build<T: VM>(case: &J, run: usize, vm: &T, inst: impl Fn(&mut ParserData<T>, &[String])) -> Option<ParserData<T>> {
    let g = Gram::of(case);
    if let Some(texts) = case.get("_texts") {
        let t = text(&texts.arr()[run % texts.arr().len()]);
        let mut chars = PeekableWrapper::from_str(&t);
        let mut reader = RuleParser::new(&mut chars, vm);
        let ok = reader.parse_rules().is_ok();
        return if ok { Some(reader.parser_data) } else { None };
    }
    let mut pd = ParserData::<T>::new();
    for s in case.get("_first").map_or(&vec![], |x| x.arr()) {
        sym_ix(&mut pd, s, &g.names);
    }
    let orders = case.at("_orders").arr();
    let alts = case.get("_g").unwrap_or_else(|| case.at("g")).at("alts").arr();
    let early = run % 2 == 0;
    if early {
        inst(&mut pd, &g.names);
    }
    for o in orders[run % orders.len()].arr() {
        let (k, j) = (o.arr()[0].us(), o.arr()[1].us());
        let ix = pd.get_or_add_non_terminal(&g.names[k - 1]);
        let seq = alts[k - 1].arr()[j - 1].arr().iter().map(|s| sym_ix(&mut pd, s, &g.names)).collect();
        pd.add_production(ix, seq);
    }
    if !early {
        inst(&mut pd, &g.names);
    }
    Some(pd)
}
