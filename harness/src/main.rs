//! Conformance harness: replays the calls of a specification behaviour in the
//! real library and prints what it answered.
//!
//! stdin, one call per line:   <op> <nints> <int>... <f64 bits in hex>...
//!                             or "reset" (start of a new behaviour)
//! stdout, one line per call:  "@@ ok <v>..." | "@@ panic" | "@@ badop"
//!   <v> is "i<decimal>" or "f<f64 bits in hex>" (f32 results widened exactly).
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod arith_ops;
mod fast_ops;
mod journey_ops;
mod lab_ops;
mod linalg_ops;
mod quant_ops;
mod space_ops;
mod table_ops;
mod text_ops;
mod transfer_ops;
mod uplift_ops;
mod vspd_ops;
mod xyz_ops;

#[derive(PartialEq)]
pub enum Out {
    I(i64),
    F(f64),
}
pub type R = Option<Vec<Out>>;

pub fn f3(a: f64, b: f64, c: f64) -> R {
    Some(vec![Out::F(a), Out::F(b), Out::F(c)])
}
pub fn fs<I: IntoIterator<Item = f64>>(i: I) -> R {
    Some(i.into_iter().map(Out::F).collect())
}

#[derive(Default)]
pub struct Session {
    pub regs: [Option<colorspace::vspd::VSPD>; 4],
    pub carried: [f64; 3],
}

fn dispatch(s: &mut Session, op: &str, ints: &[i64], xs: &[f64]) -> R {
    vspd_ops::run(s, op, ints, xs)
        .or_else(|| journey_ops::run(s, op, ints, xs))
        .or_else(|| transfer_ops::run(op, ints, xs))
        .or_else(|| quant_ops::run(op, ints, xs))
        .or_else(|| arith_ops::run(op, ints, xs))
        .or_else(|| linalg_ops::run(op, ints, xs))
        .or_else(|| space_ops::run(op, ints, xs))
        .or_else(|| lab_ops::run(op, ints, xs))
        .or_else(|| table_ops::run(op, ints, xs))
        .or_else(|| text_ops::run(op, ints, xs))
        .or_else(|| xyz_ops::run(op, ints, xs))
        .or_else(|| fast_ops::run(op, ints, xs))
        .or_else(|| uplift_ops::run(op, ints, xs))
}

/// the answer to one line, as printed
fn answer(session: &mut Session, line: &str) -> Option<String> {
    let mut it = line.split_ascii_whitespace();
    let op = it.next()?.to_string();
    if op == "reset" {
        *session = Session::default();
        return None;
    }
    let ni: usize = it.next().unwrap().parse().unwrap();
    let ints: Vec<i64> = it.by_ref().take(ni).map(|t| t.parse().unwrap()).collect();
    let xs: Vec<f64> = it.map(|t| f64::from_bits(u64::from_str_radix(t, 16).unwrap())).collect();
    Some(match catch_unwind(AssertUnwindSafe(|| dispatch(session, &op, &ints, &xs))) {
        Err(_) => "@@ panic".to_string(),
        Ok(None) => "@@ badop".to_string(),
        Ok(Some(v)) => {
            let mut s = String::from("@@ ok");
            for x in v {
                match x {
                    Out::I(i) => s.push_str(&format!(" i{}", i)),
                    Out::F(f) => s.push_str(&format!(" f{:016x}", f.to_bits())),
                }
            }
            s
        }
    })
}

/// "--threads <passes>": input lines "<thread> <call>"; all threads start together and each asks
/// its calls in order, <passes> times over.  Answers come thread by thread: that of the first
/// pass or, if a later pass was answered differently, the later one.
fn threads(passes: usize) {
    let mut lists: Vec<Vec<String>> = Vec::new();
    for line in std::io::stdin().lock().lines() {
        let line = line.unwrap();
        let (th, call) = line.split_once(' ').unwrap();
        let th: usize = th.parse().unwrap();
        while lists.len() <= th {
            lists.push(Vec::new());
        }
        lists[th].push(call.to_string());
    }
    let gate = std::sync::Arc::new(std::sync::Barrier::new(lists.len()));
    let running: Vec<_> = lists
        .into_iter()
        .map(|calls| {
            let gate = gate.clone();
            std::thread::spawn(move || {
                gate.wait();
                let mut session = Session::default();
                let mut out: Vec<String> = calls.iter().filter_map(|c| answer(&mut session, c)).collect();
                for _ in 1..passes {
                    for (i, c) in calls.iter().enumerate() {
                        if let Some(a) = answer(&mut session, c) {
                            if a != out[i] {
                                out[i] = a;
                            }
                        }
                    }
                }
                out
            })
        })
        .collect();
    let all: Vec<Vec<String>> = running.into_iter().map(|t| t.join().unwrap()).collect();
    let mut o = std::io::stdout().lock();
    for a in all.iter().flatten() {
        writeln!(o, "\n{}", a).unwrap();
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 2 && args[1] == "--threads" {
        return threads(args[2].parse().unwrap());
    }
    let mut session = Session::default();
    for line in std::io::stdin().lock().lines() {
        if let Some(a) = answer(&mut session, &line.unwrap()) {
            writeln!(std::io::stdout().lock(), "\n{}", a).unwrap();
        }
    }
}
