//! The shipped contexts: runs texts, calls functions with argument lists, lists the vocabulary.
use crate::sym::chars;
use crate::caught;
use crate::newtypes::{M128, M64, M8, U64};
use num_complex::Complex;
use prexel::binary::{binary_number_splitter, Binary};
use prexel::decimal::decimal_ext::DecimalExt;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::function::{Associativity, Notation};
use prexel::num::checked::{CheckedAdd, CheckedDiv, CheckedMul, CheckedRem, CheckedSub};
use prexel::num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use prexel::ops::checked::*;
use prexel::ops::math;
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::error::Error;
use rust_decimal::Decimal;
use serde_json::{json, Value};
use std::fmt::Debug;
use std::io::{BufRead, Write};
use std::str::FromStr;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

/// The exact text of a value, as a list of its parts.
pub trait Show {
    fn show(&self) -> Value;
}
macro_rules! show { ($($t:ty),*) => { $(impl Show for $t { fn show(&self) -> Value { json!([self.to_string()]) } })* } }
show!(i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, Decimal, M8, M64, M128, U64);
impl Show for f64 {
    fn show(&self) -> Value {
        json!([format!("{:?}", self)])
    }
}
impl Show for f32 {
    fn show(&self) -> Value {
        json!([format!("{:?}", self)])
    }
}
impl Show for Complex<f64> {
    fn show(&self) -> Value {
        json!([format!("{:?}", self.re), format!("{:?}", self.im)])
    }
}
impl Show for Binary {
    fn show(&self) -> Value {
        json!([self.0.to_string(), self.to_string()])
    }
}

fn out<N: Show>(r: Result<Result<N, Error>, ()>) -> Value {
    match r {
        Ok(Ok(v)) => json!({"k": "ok", "v": v.show(), "e": ""}),
        Ok(Err(e)) => json!({"k": "err", "v": [], "e": format!("{:?}", e.kind())}),
        Err(_) => json!({"k": "panic", "v": [], "e": ""}),
    }
}

pub trait Real {
    fn eval(&self, text: &str) -> Value;
    fn set(&mut self, name: &str, value: &str) -> Value;
    fn call(&self, kind: &str, name: &str, args: &[String]) -> Value;
    fn vocab(&self) -> Value;
    /// texts: parse a number literal by the number type itself
    fn lit(&self, text: &str) -> Value;
    fn stages(&self, text: &str) -> Value;
}

struct R<N: 'static> {
    e: Evaluator<'static, N>,
    splits: bool,
}

impl<N> Real for R<N>
where
    N: Show + FromStr + Debug + Clone + 'static,
{
    fn eval(&self, text: &str) -> Value {
        out(caught(|| self.e.eval(text)))
    }
    fn set(&mut self, name: &str, value: &str) -> Value {
        match N::from_str(value) {
            Ok(v) => match caught(|| self.e.mut_context().set_variable(name, v)) {
                Ok(Ok(_)) => json!("ok"),
                Ok(Err(_)) => json!("err"),
                Err(_) => json!("panic"),
            },
            Err(_) => json!("bad"),
        }
    }
    fn call(&self, kind: &str, name: &str, args: &[String]) -> Value {
        let mut a = vec![];
        for x in args {
            match N::from_str(x) {
                Ok(v) => a.push(v),
                Err(_) => return json!({"k": "bad", "v": [], "e": ""}),
            }
        }
        let c = self.e.context();
        let missing = json!({"k": "missing", "v": [], "e": ""});
        match kind {
            "fn" => c.get_function(name).map(|f| out(caught(|| f.call(&a)))).unwrap_or(missing),
            "una" => c.get_unary_function(name).map(|f| out(caught(|| f.call(a[0].clone())))).unwrap_or(missing),
            _ => c.get_binary_function(name).map(|f| out(caught(|| f.call(a[0].clone(), a[1].clone())))).unwrap_or(missing),
        }
    }
    fn vocab(&self) -> Value {
        let c = self.e.context();
        let mut v = vec![];
        for (k, x) in c.constants().iter() {
            v.push(json!({"kind": "const", "name": k.as_str(), "v": x.show(), "own": k.as_str(), "prec": 0, "left": false, "prefix": false}));
        }
        for (k, f) in c.functions().iter() {
            v.push(json!({"kind": "fn", "name": k.as_str(), "v": [], "own": f.name(), "prec": 0, "left": false, "prefix": false}));
        }
        for (k, f) in c.unary_functions().iter() {
            v.push(json!({"kind": "una", "name": k.as_str(), "v": [], "own": f.name(), "prec": 0, "left": false, "prefix": f.notation() == Notation::Prefix}));
        }
        for (k, f) in c.binary_functions().iter() {
            v.push(json!({"kind": "bin", "name": k.as_str(), "v": [], "own": f.name(), "prec": f.precedence().0, "left": f.associativity() == Associativity::Left, "prefix": false}));
        }
        for (k, x) in c.variables().iter() {
            v.push(json!({"kind": "var", "name": k, "v": x.show(), "own": k, "prec": 0, "left": false, "prefix": false}));
        }
        json!({"vocab": v, "implicit": c.config().implicit_mul, "complex": c.config().complex_number, "custom": c.config().custom_function_call})
    }
    fn lit(&self, text: &str) -> Value {
        match caught(|| N::from_str(text)) {
            Ok(Ok(v)) => json!({"k": "ok", "v": v.show(), "e": ""}),
            Ok(Err(_)) => json!({"k": "err", "v": [], "e": ""}),
            Err(_) => json!({"k": "panic", "v": [], "e": ""}),
        }
    }
    fn stages(&self, text: &str) -> Value {
        let t = if self.splits { Tokenizer::with_splitter(binary_number_splitter()) } else { Tokenizer::new() };
        let toks = caught(|| t.tokenize(self.e.context(), text));
        match toks {
            Ok(Ok(t)) => {
                let nums: Vec<Value> = t.iter().filter_map(|x| match x {
                    Token::Number(n) => Some(n.show()),
                    _ => None,
                }).collect();
                let r = out(caught(|| self.e.eval_tokens(&t)));
                json!({"k": "ok", "nums": nums, "eval_tokens": r})
            }
            Ok(Err(_)) => json!({"k": "err", "nums": [], "eval_tokens": {"k": "none", "v": [], "e": ""}}),
            Err(_) => json!({"k": "panic", "nums": [], "eval_tokens": {"k": "none", "v": [], "e": ""}}),
        }
    }
}

pub const KINDS: [&str; 13] = ["f64", "f32", "i8", "i16", "i32", "i64", "i128", "isize", "dec", "cpx", "bin", "uf64", "ui64"];

/// The operators and functions that an unsigned type can have, registered one by one.
fn unsigned<N>(c: Config) -> DefaultContext<'static, N>
where
    N: CheckedAdd + CheckedSub + CheckedMul + CheckedDiv + CheckedRem + Zero + One + FromPrimitive + ToPrimitive + PartialOrd + Debug + Clone + 'static,
{
    let mut x = DefaultContext::with_config(c);
    x.add_binary_function(AddOperator).unwrap();
    x.add_binary_function(SubOperator).unwrap();
    x.add_binary_function(MulOperator).unwrap();
    x.add_binary_function(DivOperator).unwrap();
    x.add_binary_function(ModOperator).unwrap();
    x.add_unary_function(math::UnaryPlus).unwrap();
    x.add_unary_function(math::Factorial).unwrap();
    x.add_function(SumFunction).unwrap();
    x.add_function(ProdFunction).unwrap();
    x.add_function(AvgFunction).unwrap();
    x.add_function(math::MaxFunction).unwrap();
    x.add_function(math::MinFunction).unwrap();
    x
}

pub fn make(kind: &str, implicit: bool) -> Box<dyn Real> {
    let c = Config::new().with_implicit_mul(implicit);
    macro_rules! r { ($e:expr) => { Box::new(R { e: $e, splits: false }) } }
    match kind {
        "f64" => r!(Evaluator::<f64>::with_context(DefaultContext::with_config_checked(c))),
        "f32" => r!(Evaluator::<f32>::with_context(DefaultContext::with_config_checked(c))),
        "i8" => r!(Evaluator::<i8>::with_context(DefaultContext::with_config_checked(c))),
        "i16" => r!(Evaluator::<i16>::with_context(DefaultContext::with_config_checked(c))),
        "i32" => r!(Evaluator::<i32>::with_context(DefaultContext::with_config_checked(c))),
        "i64" => r!(Evaluator::<i64>::with_context(DefaultContext::with_config_checked(c))),
        "i128" => r!(Evaluator::<i128>::with_context(DefaultContext::with_config_checked(c))),
        "isize" => r!(Evaluator::<isize>::with_context(DefaultContext::with_config_checked(c))),
        "uf64" => r!(Evaluator::<f64>::with_context(DefaultContext::with_config_unchecked(c))),
        "ui64" => r!(Evaluator::<i64>::with_context(DefaultContext::with_config_unchecked(c))),
        "dec" => r!(Evaluator::<Decimal>::with_context(DefaultContext::with_config_decimal(c))),
        "cpx" => r!(Evaluator::<Complex<f64>>::with_context(DefaultContext::with_config_complex(c))),
        "m8" => r!(Evaluator::<M8>::with_context(DefaultContext::with_config_checked(c))),
        "m64" => r!(Evaluator::<M64>::with_context(DefaultContext::with_config_checked(c))),
        "m128" => r!(Evaluator::<M128>::with_context(DefaultContext::with_config_checked(c))),
        "um64" => r!(Evaluator::<U64>::with_context(DefaultContext::with_config_unchecked(c))),
        "u8" => r!(Evaluator::with_context(unsigned::<u8>(c))),
        "u16" => r!(Evaluator::with_context(unsigned::<u16>(c))),
        "u32" => r!(Evaluator::with_context(unsigned::<u32>(c))),
        "u64" => r!(Evaluator::with_context(unsigned::<u64>(c))),
        "u128" => r!(Evaluator::with_context(unsigned::<u128>(c))),
        "usize" => r!(Evaluator::with_context(unsigned::<usize>(c))),
        "bin" => Box::new(R {
            e: Evaluator::<Binary>::with_context_and_tokenizer(DefaultContext::with_config_binary(c), Tokenizer::with_splitter(binary_number_splitter())),
            splits: true,
        }),
        k => panic!("kind {}", k),
    }
}

/// `a op b` by the operators of the language, for the user types.
pub fn plain(kind: &str, op: &str, args: &[String]) -> Value {
    fn go<N>(op: &str, a: &[String]) -> Value
    where
        N: Show + FromStr + Copy + PartialOrd + std::ops::Add<Output = N> + std::ops::Sub<Output = N> + std::ops::Mul<Output = N> + std::ops::Div<Output = N> + std::ops::Rem<Output = N> + std::ops::Neg<Output = N> + Zero + One,
    {
        let n = |i: usize| N::from_str(&a[i]).ok().expect("number");
        out(caught(|| {
            Ok(match op {
                "+" => n(0) + n(1),
                "-" if a.len() == 2 => n(0) - n(1),
                "-" => -n(0),
                "*" => n(0) * n(1),
                "/" => n(0) / n(1),
                "mod" => n(0) % n(1),
                "max" => if n(1) > n(0) { n(1) } else { n(0) },
                "min" => if n(1) < n(0) { n(1) } else { n(0) },
                "zero" => if n(0).is_zero() && n(0) == N::zero() { N::one() } else { N::zero() },
                _ => panic!("operator {}", op),
            })
        }))
    }
    match kind {
        "m8" => go::<M8>(op, args),
        "m64" => go::<M64>(op, args),
        "m128" => go::<M128>(op, args),
        _ => go::<U64>(op, args),
    }
}

/// The methods of the decimals, and gamma, called as they are.
pub fn ext(kind: &str, name: &str, args: &[String]) -> Value {
    if kind != "dec" {
        return out(caught(|| Ok(prexel::utils::gamma::gamma(args[0].parse::<f64>().expect("number")))));
    }
    let a: Vec<Decimal> = args.iter().map(|x| Decimal::from_str(x).expect("number")).collect();
    let x = a[0];
    let y = a.get(1).copied();
    let r = caught(|| match name {
        "is_integer" => Some(if DecimalExt::is_integer(&x) { Decimal::one() } else { Decimal::zero() }),
        "to_radians" => Some(x.to_radians()),
        "to_degrees" => Some(x.to_degrees()),
        "checked_to_degrees" => x.checked_to_degrees(),
        "inv" => Some(x.inv()),
        "checked_inv" => x.checked_inv(),
        "checked_powd" => DecimalExt::checked_powd(x, y.unwrap()),
        "checked_powi" => DecimalExt::checked_powi(x, args[1].parse().expect("whole")),
        "checked_sqrt" => x.checked_sqrt(),
        "checked_cbrt" => x.checked_cbrt(),
        "checked_log" => x.checked_log(y.unwrap()),
        "checked_ln" => DecimalExt::checked_ln(x),
        "checked_exp" => DecimalExt::checked_exp(x),
        "checked_factorial" => x.checked_factorial(),
        "checked_sin" => DecimalExt::checked_sin(x),
        "checked_cos" => DecimalExt::checked_cos(x),
        "checked_tan" => DecimalExt::checked_tan(x),
        "checked_cot" => x.checked_cot(),
        "asin" => x.asin(),
        "acos" => x.acos(),
        "atan" => Some(x.atan()),
        "atan2" => Some(x.atan2(y.unwrap())),
        "sinh" => x.sinh(),
        "cosh" => x.cosh(),
        "tanh" => x.tanh(),
        "asinh" => Some(x.asinh()),
        "acosh" => x.acosh(),
        "atanh" => x.atanh(),
        _ => panic!("method {}", name),
    });
    match r {
        Ok(Some(v)) => json!({"k": "ok", "v": v.show(), "e": ""}),
        Ok(None) => json!({"k": "err", "v": [], "e": ""}),
        Err(_) => json!({"k": "panic", "v": [], "e": ""}),
    }
}

static STARTED: AtomicU64 = AtomicU64::new(0);

/// Runs the cases of stdin, one per line; a case that takes longer than the limit ends the process with
/// code 42, after `TIMEOUT <index>` on stderr.
pub fn run(limit: u64, w: &mut impl Write) {
    let t0 = Instant::now();
    let clock = move || t0.elapsed().as_millis() as u64 + 1;
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(50));
        let s = STARTED.load(Ordering::SeqCst);
        if s != 0 && clock() > s + limit * 1000 {
            eprintln!("TIMEOUT");
            std::process::exit(42);
        }
    });
    let mut cache: std::collections::HashMap<(String, bool), Box<dyn Real>> = Default::default();
    for l in std::io::BufReader::new(std::io::stdin()).lines() {
        let l = l.unwrap();
        let mut c: Value = serde_json::from_str(&l).expect("case");
        if let Value::String(s) = c {
            c = serde_json::from_str(&s).expect("case");
        }
        let kind = c["ctx"].as_str().unwrap().to_string();
        let imp = c["implicit"].as_bool().unwrap_or(false);
        let strs = |v: &Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
        STARTED.store(clock(), Ordering::SeqCst);
        let t1 = Instant::now();
        let r = if c.get("set").is_some() {
            // a fresh evaluator with these variables
            let mut e = make(&kind, imp);
            let sets: Vec<Value> = c["set"].as_array().unwrap().iter().map(|p| e.set(p[0].as_str().unwrap(), p[1].as_str().unwrap())).collect();
            c["sets"] = json!(sets);
            json!([e.eval(c["text"].as_str().unwrap())])
        } else {
            let e = cache.entry((kind.clone(), imp)).or_insert_with(|| make(&kind, imp));
            if let Some(f) = c.get("call") {
                let kind = c["as"].as_str().unwrap_or("fn").to_string();
                let f = f.as_str().unwrap().to_string();
                Value::Array(c["args"].as_array().unwrap().iter().map(|a| if kind == "ext" { ext(c["ctx"].as_str().unwrap(), &f, &strs(a)) } else if kind == "plain" { plain(c["ctx"].as_str().unwrap(), &f, &strs(a)) } else { e.call(&kind, &f, &strs(a)) }).collect())
            } else if let Some(t) = c.get("text") {
                json!([e.eval(t.as_str().unwrap())])
            } else if let Some(t) = c.get("texts") {
                Value::Array(strs(t).iter().map(|t| e.eval(t)).collect())
            } else if let Some(t) = c.get("lits") {
                Value::Array(strs(t).iter().map(|t| e.lit(t)).collect())
            } else if let Some(t) = c.get("stages") {
                Value::Array(strs(t).iter().map(|t| e.stages(t)).collect())
            } else if let Some(h) = c.get("history") {
                // one long-lived evaluator; operations [set, name, value] or [eval, text]
                let mut e = make(&kind, imp);
                Value::Array(h.as_array().unwrap().iter().map(|o| if o[0] == "set" { e.set(o[1].as_str().unwrap(), o[2].as_str().unwrap()) } else { e.eval(o[1].as_str().unwrap()) }).collect())
            } else {
                e.vocab()
            }
        };
        STARTED.store(0, Ordering::SeqCst);
        c["res"] = r;
        c["ms"] = json!(t1.elapsed().as_millis() as u64);
        writeln!(w, "{}", c).unwrap();
        w.flush().unwrap();
    }
    let _ = chars;
}
