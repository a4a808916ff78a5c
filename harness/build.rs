//! Takes the grammar definition out of /repo/examples/rust_defined_rules.rs (everything main does before it makes the
//! parser) so that h_calc can use it with other scripts than the one written there. If the example no longer has that
//! shape, the copy in calc_copy.rs is used.
use std::{env, fs, path::Path};

fn main() {
    let example = "/repo/examples/rust_defined_rules.rs";
    println!("cargo:rerun-if-changed={example}");
    println!("cargo:rerun-if-changed=calc_copy.rs");
    let out = Path::new(&env::var("OUT_DIR").unwrap()).join("calc_example.rs");
    let copy = fs::read_to_string("calc_copy.rs").unwrap();
    let source = fs::read_to_string(example).unwrap_or_default();
    fs::write(out, definition(&source).unwrap_or(copy)).unwrap();
}

fn definition(source: &str) -> Option<String> {
    let start = source.find("fn main() {")?;
    let end = source.find("let mut parser = Parser::new_from_parser_data(parser_data, start_idx")?;
    if end < start || !source[start..end].contains("let mut parser_data") {
        return None;
    }
    let uses: String = source[..start].lines().filter(|l| !l.starts_with("extern crate")).map(|l| format!("{l}\n")).collect();
    let body = &source[start + "fn main() {".len()..end];
    Some(format!("{uses}\npub fn definition() -> (ParserData<StackVm>, usize) {{\n{body}\n(parser_data, start_idx)\n}}\n"))
}
