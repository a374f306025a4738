//! The library's answers to the lines of an interactive session, in the context the program uses for a type.
use crate::caught;
use crate::sym::{chars, unchars};
use prexel::binary::binary_number_splitter;
use num_complex::Complex;
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use prexel::num_traits::Zero;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::Splitter;
use serde_json::{json, Value};
use std::fmt::{Debug, Display};
use std::io::{BufRead, Write};
use std::str::FromStr;

const SEP: char = '\u{1f}';
/// The tokens of a line are the specification's.
struct Given;
impl Splitter for Given {
    fn split_into_tokens(&self, s: &str) -> Vec<String> {
        if s.is_empty() { vec![] } else { s.split(SEP).map(String::from).collect() }
    }
}

fn go<N>(c: DefaultContext<'static, N>, ops: &[Value]) -> Value
where
    N: FromStr + Clone + Display + Debug + Zero + 'static,
{
    let mut e = Evaluator::with_context(c);
    let tk = Tokenizer::with_splitter(Given);
    let _ = e.mut_context().set_variable("$result", N::zero());
    let mut res = vec![];
    for o in ops {
        let before: Vec<Value> = e.context().variables().iter().map(|(k, v)| json!([chars(k), chars(&v.to_string())])).collect();
        let (k, v) = if o["do"] == "set" {
            match caught(|| N::from_str(&unchars(&o["arg"]))) {
                Ok(Ok(n)) => match caught(|| e.mut_context().set_variable(&unchars(&o["name"]), n.clone())) {
                    Ok(Ok(_)) => ("ok", n.to_string()),
                    Ok(Err(_)) => ("err", String::new()),
                    Err(_) => ("panic", String::new()),
                },
                Ok(Err(_)) => ("err", String::new()),
                Err(_) => ("panic", String::new()),
            }
        } else {
            let t: Vec<String> = o["arg"].as_array().unwrap().iter().map(unchars).collect();
            match caught(|| tk.tokenize(e.context(), &t.join(&SEP.to_string())).and_then(|t| e.eval_tokens(&t))) {
                Ok(Ok(n)) => {
                    let _ = e.mut_context().set_variable("$result", n.clone());
                    ("ok", n.to_string())
                }
                Ok(Err(_)) => ("err", String::new()),
                Err(_) => ("panic", String::new()),
            }
        };
        res.push(json!({"k": k, "v": chars(&v), "vars": before}));
    }
    json!({"zero": chars(&N::zero().to_string()), "lib": res})
}

fn one<N>(c: DefaultContext<'static, N>, splits: bool, texts: &[Value]) -> Value
where
    N: FromStr + Clone + Display + Debug + 'static,
{
    let consts: Vec<Value> = c.constants().iter().map(|(k, v)| json!([k.as_str(), v.to_string()])).collect();
    let t = if splits { Tokenizer::with_splitter(binary_number_splitter()) } else { Tokenizer::new() };
    let e = Evaluator::with_context_and_tokenizer(c, t);
    let lib: Vec<Value> = texts.iter().map(|t| match caught(|| e.eval(t.as_str().unwrap())) {
        Ok(Ok(n)) => json!({"k": "ok", "v": chars(&n.to_string())}),
        Ok(Err(_)) => json!({"k": "err", "v": []}),
        Err(_) => json!({"k": "panic", "v": []}),
    }).collect();
    json!({"consts": consts, "lib": lib})
}

/// `{type, texts}`: the library's answers to whole texts, and its constants.
pub fn texts(w: &mut impl Write) {
    for l in std::io::BufReader::new(std::io::stdin()).lines() {
        let mut c: Value = serde_json::from_str(&l.unwrap()).expect("case");
        let t = c["texts"].as_array().unwrap().clone();
        let g = Config::new().with_implicit_mul(true);
        c["res"] = match c["type"].as_str().unwrap() {
            "decimal" => one(DefaultContext::with_config_decimal(g), false, &t),
            "float" => one(DefaultContext::<f64>::with_config_unchecked(g), false, &t),
            "integer" => one(DefaultContext::<i128>::with_config_checked(g), false, &t),
            "complex" => one(DefaultContext::<Complex<f64>>::with_config_complex(g.with_complex_number(true)), false, &t),
            _ => one(DefaultContext::with_config_binary(g), true, &t),
        };
        writeln!(w, "{}", c).unwrap();
    }
}

pub fn run(w: &mut impl Write) {
    for l in std::io::BufReader::new(std::io::stdin()).lines() {
        let mut c: Value = serde_json::from_str(&l.unwrap()).expect("case");
        let ops = c["ops"].as_array().unwrap().clone();
        let g = Config::new().with_implicit_mul(true);
        c["res"] = match c["type"].as_str().unwrap() {
            "decimal" => go(DefaultContext::with_config_decimal(g), &ops),
            "float" => go(DefaultContext::<f64>::with_config_unchecked(g), &ops),
            "integer" => go(DefaultContext::<i128>::with_config_checked(g), &ops),
            "complex" => go(DefaultContext::<Complex<f64>>::with_config_complex(g.with_complex_number(true)), &ops),
            _ => go(DefaultContext::with_config_binary(g), &ops),
        };
        writeln!(w, "{}", c).unwrap();
    }
}
