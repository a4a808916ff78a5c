//! Shared parts of the conformance drivers: a small JSON reader/writer and the worker loop.
//!
//! A driver reads cases (one JSON object per line), performs them on the real code and writes one JSON object per
//! case with what it observed. It never judges: TLC decides from the specification whether the observation is
//! allowed. A panic of the code under test is an observation ("crash"); a death of the process is noticed by check.py.
pub mod gram;
pub mod json;
pub use json::J;

use std::cell::RefCell;
use std::fs::{File, OpenOptions};
use std::io::{BufRead, BufReader, Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// What the current case has observed so far; it survives a panic of the code under test.
#[derive(Default)]
pub struct Log {
    pub steps: Vec<J>,
    pub fields: Vec<(String, J)>,
}

thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Appends one observed step.
pub fn step(s: J) {
    LOG.with(|l| l.borrow_mut().steps.push(s));
}
/// Replaces the last step (used to complete a step that was logged before the call).
pub fn restep(s: J) {
    LOG.with(|l| {
        l.borrow_mut().steps.pop();
        l.borrow_mut().steps.push(s)
    });
}
/// Sets a field of the observation.
pub fn field(name: &str, v: J) {
    LOG.with(|l| l.borrow_mut().fields.push((name.to_string(), v)));
}

/// Text printed by the code under test: standard output is a file (set up by check.py), read back after each call.
pub struct Printed {
    file: Option<File>,
}
impl Printed {
    pub fn open() -> Printed {
        Printed { file: std::env::var("CONFORM_STDOUT").ok().map(|p| File::open(p).unwrap()) }
    }
    /// Everything printed since the last call.
    pub fn take(&mut self) -> String {
        std::io::stdout().flush().unwrap();
        let mut s = vec![];
        if let Some(f) = &mut self.file {
            f.read_to_end(&mut s).unwrap();
        }
        String::from_utf8_lossy(&s).into_owned()
    }
    pub fn skip(&mut self) {
        std::io::stdout().flush().unwrap();
        if let Some(f) = &mut self.file {
            f.seek(SeekFrom::End(0)).unwrap();
        }
    }
}

/// usage: <driver> CASES OUT FIRST_LINE
pub fn main_loop(run: fn(&J)) {
    let args: Vec<String> = std::env::args().collect();
    let first: usize = args[3].parse().unwrap();
    std::panic::set_hook(Box::new(|p| PANIC.with(|s| *s.borrow_mut() = p.to_string().chars().take(300).collect())));
    let t = std::thread::Builder::new()
        // what a thread has in Rust, or less: nothing that nests deeply may need more
        .stack_size(std::env::var("CONFORM_STACK").map_or(2 << 20, |s| s.parse().unwrap()))
        .spawn(move || {
            let input = BufReader::new(File::open(&args[1]).unwrap());
            let mut out = OpenOptions::new().create(true).append(true).open(&args[2]).unwrap();
            for (i, line) in input.lines().enumerate() {
                if i < first {
                    continue;
                }
                let case = json::parse(&line.unwrap());
                LOG.with(|l| *l.borrow_mut() = Log::default());
                let crashed = catch_unwind(AssertUnwindSafe(|| run(&case))).is_err();
                let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
                let mut obj = match case {
                    J::Obj(o) => o,
                    _ => panic!("case is not an object"),
                };
                obj.retain(|(k, _)| !k.starts_with('_'));
                if crashed {
                    obj.push(("panic".into(), J::s(&PANIC.with(|s| s.borrow().clone()))));
                }
                obj.push(("end".into(), J::s(if crashed { "crash" } else { "ok" })));
                obj.push(("steps".into(), J::Arr(log.steps)));
                obj.extend(log.fields);
                let mut text = J::Obj(obj).to_string();
                text.push('\n');
                out.write_all(text.as_bytes()).unwrap();
            }
        })
        .unwrap();
    if t.join().is_err() {
        std::process::exit(70); // the driver itself is at fault
    }
}

/// Characters travel as code points.
pub fn text(j: &J) -> String {
    j.arr().iter().map(|c| char::from_u32(c.int() as u32).unwrap()).collect()
}
pub fn codes(s: &str) -> J {
    J::Arr(s.chars().map(|c| J::Int(c as i64)).collect())
}

/// Machine integers travel as [negative, [decimal digits, the least significant first]].
pub fn big(n: i128) -> J {
    let mut m = n.unsigned_abs();
    let mut d = vec![];
    while m > 0 {
        d.push(J::u((m % 10) as usize));
        m /= 10;
    }
    J::Arr(vec![J::u((n < 0) as usize), J::Arr(d)])
}
pub fn unbig(j: &J) -> i128 {
    let a = j.arr();
    let m = a[1].arr().iter().rev().fold(0i128, |m, d| m * 10 + d.int() as i128);
    if a[0].int() == 1 {
        -m
    } else {
        m
    }
}
