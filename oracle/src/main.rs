//! What the published crate the server is built on answers to one request, alone in its own process:
//! lines {type, set: [[name, value]], text} or {type, list}.
use prexel::binary::{binary_number_splitter, Binary};
use prexel::complex::Complex;
use prexel::context::{Config, Context, DefaultContext, Grouping};
use prexel::decimal::Decimal;
use prexel::evaluator::Evaluator;
use prexel::tokenizer::Tokenizer;
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

static STARTED: AtomicU64 = AtomicU64::new(0);

fn go<N>(mut c: DefaultContext<'static, N>, splits: bool, case: &Value, parse: impl Fn(&str) -> Option<N>) -> Value
where
    N: FromStr + Clone + Display + Debug + 'static,
{
    fn al(a: Option<&[&str]>) -> Vec<String> { a.unwrap_or_default().iter().map(|s| s.to_string()).collect() }
    match case.get("list").and_then(|x| x.as_str()) {
        Some("constants") => return c.constants().iter().map(|(k, v)| json!({"name": k.to_string(), "value": v.to_string()})).collect(),
        Some("functions") => return c.functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()})).collect(),
        Some(_) => {
            return c.binary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()}))
                .chain(c.unary_functions().iter().map(|(k, f)| json!({"name": k.to_string(), "aliases": al(f.aliases()), "description": f.description()}))).collect()
        }
        None => {}
    }
    let r = catch_unwind(AssertUnwindSafe(|| {
        for p in case["set"].as_array().unwrap() {
            let v = parse(p[1].as_str().unwrap()).ok_or(())?;
            c.set_variable(p[0].as_str().unwrap(), v).map_err(|_| ())?;
        }
        let t = if splits { Tokenizer::with_splitter(binary_number_splitter()) } else { Tokenizer::new() };
        Evaluator::with_context_and_tokenizer(c, t).eval(case["text"].as_str().unwrap()).map(|v| v.to_string()).map_err(|_| ())
    }));
    match r {
        Ok(Ok(v)) => json!({"k": "ok", "v": v}),
        Ok(Err(_)) => json!({"k": "err", "v": ""}),
        Err(_) => json!({"k": "panic", "v": ""}),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let limit: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let t0 = Instant::now();
    let clock = move || t0.elapsed().as_millis() as u64 + 1;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && clock() > s + limit {
            std::process::exit(42);
        }
    });
    let mut w = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let mut c: Value = serde_json::from_str(&l.unwrap()).expect("case");
        let g = Config::default().with_grouping(Grouping::Parenthesis).with_grouping(Grouping::Bracket).with_implicit_mul(true);
        STARTED.store(clock(), Ordering::SeqCst);
        let r = {
            let c = c.clone();
            // the stack of the server's own threads
            std::thread::Builder::new().stack_size(2 << 20).spawn(move || match c["type"].as_str().unwrap() {
                "decimal" => go(DefaultContext::with_config_decimal(g), false, &c, |s| Decimal::from_str(s).ok()),
                "float" => go(DefaultContext::<f64>::with_config_checked(g), false, &c, |s| s.parse().ok()),
                "integer" => go(DefaultContext::<i128>::with_config_checked(g), false, &c, |s| s.parse().ok()),
                "complex" => go(DefaultContext::<Complex<f64>>::with_config_complex(g.with_complex_number(true)), false, &c, |s| s.parse().ok()),
                _ => go(DefaultContext::with_config_binary(g), true, &c, |s| s.parse().ok().map(Binary)),
            }).unwrap().join().unwrap()
        };
        c["res"] = r;
        c["ms"] = json!(clock() - STARTED.swap(0, Ordering::SeqCst));
        writeln!(w, "{}", c).unwrap();
        w.flush().unwrap();
    }
}
