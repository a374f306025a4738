mod expr;
mod fold;
mod gen;
mod hist;
mod newtypes;
mod real;
mod rng;
mod rules;
mod session;
mod sym;

use serde_json::{json, Value};
use std::io::{BufRead, BufWriter, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn caught<T>(f: impl FnOnce() -> T) -> Result<T, ()> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| ())
}

pub fn outcome<T>(r: &Result<prexel::Result<T>, ()>, j: impl Fn(&T) -> Value) -> Value {
    match r {
        Ok(Ok(v)) => json!({"k": "ok", "v": j(v)}),
        Ok(Err(_)) => json!({"k": "err", "v": []}),
        Err(_) => json!({"k": "panic", "v": []}),
    }
}

pub fn read_json_lines(path: &str) -> Vec<Value> {
    let f = std::io::BufReader::new(std::fs::File::open(path).expect(path));
    f.lines().map(|l| l.unwrap()).filter(|l| !l.trim().is_empty()).map(|l| {
        match serde_json::from_str(&l).expect("json") {
            Value::String(s) => serde_json::from_str(&s).expect("json in a string"), // as TLC's CSVWrite leaves it
            v => v,
        }
    }).collect()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().expect("number");
    let mut out = BufWriter::new(std::io::stdout());
    // deep expressions recurse nowhere in prexel, but the drop of a big value may
    let code = match arg(0).as_str() {
        "replay" => expr::replay(&arg(1), &arg(2)),
        "expr" => {
            let mut ctxs = BufWriter::new(std::fs::File::create(arg(5)).expect("context file"));
            expr::gen(&arg(1), num(2), num(3) as usize, num(4) as usize, &mut ctxs, &mut out);
            ctxs.flush().unwrap();
            0
        }
        "hist" => {
            hist::gen(num(1), num(2) as usize, num(3) as usize, num(4) as u32, &mut out);
            0
        }
        "histreplay" => hist::replay(&arg(1)),
        "fold" => {
            fold::run(&mut out);
            0
        }
        "real" => {
            real::run(num(1), &mut out);
            0
        }
        "session" => {
            session::run(&mut out);
            0
        }
        "texts" => {
            session::texts(&mut out);
            0
        }
        "split" => expr::split(&arg(1)),
        "rules" => rules::run(&arg(1), &arg(2), &mut out),
        c => {
            eprintln!("unknown command {}", c);
            2
        }
    };
    out.flush().unwrap();
    std::process::exit(code);
}
