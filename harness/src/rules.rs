//! Splitters built rule by rule through the public builders.
use crate::sym::{chars, unchars};
use crate::{caught, read_json_lines};
use prexel::binary::binary_number_splitter;
use prexel::utils::splitter::rules::{self, Outcome, SplitRule};
use prexel::utils::splitter::{DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use serde_json::{json, Value};
use std::io::Write;
use std::iter::Peekable;
use std::str::Chars;

struct Pair(Vec<char>);
impl SplitRule for Pair {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        if !self.0.contains(&c) {
            return Outcome::Continue;
        }
        Outcome::Data(std::iter::once(c).chain(rest.next()).collect())
    }
}
struct Drop(Vec<char>);
impl SplitRule for Drop {
    fn split(&self, c: char, _: &mut Peekable<Chars>) -> Outcome {
        if self.0.contains(&c) { Outcome::Skip } else { Outcome::Continue }
    }
}
/// Hands the work to any other rule.
struct Any(Box<dyn SplitRule>);
impl SplitRule for Any {
    fn split(&self, c: char, rest: &mut Peekable<Chars>) -> Outcome {
        self.0.split(c, rest)
    }
}

fn one(v: &Value) -> char {
    unchars(&json!([v])).chars().next().unwrap()
}

fn rule(v: &Value) -> Any {
    let cs: Vec<char> = unchars(&v["cs"]).chars().collect();
    Any(match v["k"].as_str().unwrap() {
        "num" => Box::new(rules::SplitNumeric),
        "id" => Box::new(rules::SplitIdentifier),
        "op" => Box::new(rules::SplitOperator),
        "bin" => Box::new(rules::SplitBinary),
        "space" => Box::new(rules::SkipWhitespace),
        "pair" => Box::new(Pair(cs)),
        "drop" => Box::new(Drop(cs)),
        "set" => {
            let mut b = match v["base"].as_str().unwrap() {
                "empty" => rules::SplitWithOperatorsBuilder::empty(),
                "new" => rules::SplitWithOperatorsBuilder::new(),
                "plain" => return Any(Box::new(rules::SplitWithOperators::new())),
                _ => rules::SplitWithOperators::builder(),
            };
            for e in v["edits"].as_array().unwrap() {
                match e[0].as_str().unwrap() {
                    "add" => {
                        b.add_operator(one(&e[1]));
                    }
                    _ => b = b.except(one(&e[1])),
                }
            }
            Box::new(b.build())
        }
        k => panic!("case rule {}", k),
    })
}

fn build(v: &Value) -> DefaultSplitter<'static> {
    let ws = match v["ws"].as_str().unwrap() {
        "none" => Some(SplitWhitespaceOption::None),
        "remove" => Some(SplitWhitespaceOption::Remove),
        _ => None,
    };
    let steps = v["steps"].as_array().unwrap();
    match v["how"].as_str().unwrap() {
        "new" => DefaultSplitter::new(ws.unwrap()),
        "default" => DefaultSplitter::default(),
        "numeric" => DefaultSplitter::with_numeric_rule(rule(&steps[0]["r"])),
        "identifier" => DefaultSplitter::with_identifier_rule(rule(&steps[0]["r"])),
        "binary" => binary_number_splitter(),
        _ => {
            let mut b = match v["from"].as_str().unwrap() {
                "new" => DefaultSplitterBuilder::new(),
                "default" => DefaultSplitterBuilder::default(),
                _ => DefaultSplitter::builder(),
            };
            let early = v["early"] == true; // the whitespace option may be given at any time
            if let (Some(o), true) = (ws, early) {
                b = b.whitespace(o);
            }
            for s in steps {
                let at = s["at"].as_i64().unwrap();
                b = if at < 0 { b.rule(rule(&s["r"])) } else { b.insert_rule(at as usize, rule(&s["r"])) };
            }
            if let (Some(o), false) = (ws, early) {
                b = b.whitespace(o);
            }
            b.build()
        }
    }
}

/// Splits the texts of the cases; compares with the tokens a case holds, or writes the tokens down.
pub fn run(builds: &str, cases: &str, out: &mut impl Write) -> i32 {
    let built: Vec<Option<DefaultSplitter>> = read_json_lines(builds).iter().map(|b| caught(|| build(b)).ok()).collect();
    let (mut n, mut bad) = (0u64, 0u64);
    for v in read_json_lines(cases) {
        n += 1;
        let (text, s) = (unchars(&v["text"]), &built[v["b"].as_u64().unwrap() as usize - 1]);
        let got = caught(|| s.as_ref().expect("a splitter").split_into_tokens(&text));
        let rules = s.as_ref().map_or(0, |s| s.rules().len());
        let k = if got.is_ok() { "ok" } else { "panic" };
        let got = Value::Array(got.unwrap_or_default().iter().map(|t| chars(t)).collect());
        if v["toks"].is_null() {
            writeln!(out, "{}", json!({"b": v["b"], "text": v["text"], "n": rules, "k": k, "got": got})).unwrap();
        } else if k != "ok" || got != v["toks"] || v["n"] != rules {
            bad += 1;
            if bad <= 20 {
                writeln!(out, "MISMATCH {}", json!({"case": v, "got": got, "k": k, "rules": rules})).unwrap();
            }
        }
    }
    writeln!(out, "REPLAYED {} {} {}", n, n, bad).unwrap();
    if bad > 0 { 1 } else { 0 }
}
