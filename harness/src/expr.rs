//! Records what the real splitter, tokenizer, conversion and evaluator do with expressions.
use crate::gen::*;
use crate::rng::Rng;
use crate::sym::*;
use crate::{caught, outcome};
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::{infix_to_rpn, Evaluator};
use prexel::function::{BinaryFunction, Function, UnaryFunction};
use prexel::token::Token;
use prexel::tokenizer::Tokenizer;
use prexel::utils::splitter::{rules, DefaultSplitter, DefaultSplitterBuilder, SplitWhitespaceOption, Splitter};
use serde_json::{json, Value};
use std::rc::Rc;

pub struct Custom(pub Vec<String>);
impl Splitter for Custom {
    fn split_into_tokens(&self, _: &str) -> Vec<String> {
        self.0.clone()
    }
}

/// A context of the caller: it does not hold more than what the trait asks for.
pub struct Own<'a, N>(pub DefaultContext<'a, N>);
impl<'a, N> Context<'a, N> for Own<'a, N> {
    fn config(&self) -> &Config {
        self.0.config()
    }
    fn add_function<F: Function<N> + 'a>(&mut self, f: F) -> prexel::Result<()> {
        self.0.add_function(f)
    }
    fn add_unary_function<F: UnaryFunction<N> + 'a>(&mut self, f: F) -> prexel::Result<()> {
        self.0.add_unary_function(f)
    }
    fn add_binary_function<F: BinaryFunction<N> + 'a>(&mut self, f: F) -> prexel::Result<()> {
        self.0.add_binary_function(f)
    }
    fn add_constant(&mut self, name: &str, value: N) -> prexel::Result<()> {
        self.0.add_constant(name, value)
    }
    fn set_variable(&mut self, name: &str, value: N) -> prexel::Result<Option<N>> {
        self.0.set_variable(name, value)
    }
    fn get_variable(&self, name: &str) -> Option<&N> {
        self.0.get_variable(name)
    }
    fn get_constant(&self, name: &str) -> Option<&N> {
        self.0.get_constant(name)
    }
    fn get_function(&self, name: &str) -> Option<&Rc<dyn Function<N> + 'a>> {
        self.0.get_function(name)
    }
    fn get_unary_function(&self, name: &str) -> Option<&Rc<dyn UnaryFunction<N> + 'a>> {
        self.0.get_unary_function(name)
    }
    fn get_binary_function(&self, name: &str) -> Option<&Rc<dyn BinaryFunction<N> + 'a>> {
        self.0.get_binary_function(name)
    }
}

fn toks_json<const C: bool>(t: &Vec<Token<Sym<C>>>) -> Value {
    Value::Array(t.iter().map(tok_json).collect())
}

fn strs(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| chars(s)).collect())
}

pub fn record_text_c<const C: bool>(def: &CtxDef, idx: usize, text: &str, alts: bool) -> Value {
    let ctx: DefaultContext<'_, Sym<C>> = def.build();
    let raws = caught(|| DefaultSplitter::default().split_into_tokens(text));
    let raws_j = match &raws {
        Ok(v) => json!({"k": "ok", "v": strs(v)}),
        Err(_) => json!({"k": "panic", "v": []}),
    };
    let toks = caught(|| Tokenizer::new().tokenize(&ctx, text));
    let toks_j = outcome(&toks, toks_json);
    let (rpn, tval) = match &toks {
        Ok(Ok(t)) => {
            let rpn = outcome(&caught(|| infix_to_rpn(t, &ctx)), toks_json);
            let ev = Evaluator::with_context(def.build::<C>());
            let tval = outcome(&caught(|| ev.eval_tokens(t)), sym_json);
            (rpn, tval)
        }
        _ => (json!({"k": "none", "v": []}), json!({"k": "none", "v": []})),
    };
    let ev = Evaluator::with_context(def.build::<C>());
    let val = outcome(&caught(|| ev.eval(text)), sym_json);
    let mut alt = vec![];
    if alts {
        if let Ok(raws) = &raws {
            // the same raw tokens given by a splitter of the caller
            let tk = Tokenizer::with_splitter(Custom(raws.clone()));
            alt.push(outcome(&caught(|| tk.tokenize(&ctx, text)), toks_json));
            // ... with the whitespace tokens a splitter may keep
            let mut sp = vec![" ".to_string()];
            for s in raws {
                sp.push(s.clone());
                sp.push(" ".into());
            }
            let tk = Tokenizer::with_splitter(Custom(sp));
            alt.push(outcome(&caught(|| tk.tokenize(&ctx, text)), toks_json));
        }
        let spaced: String = text.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
        let tk = Tokenizer::with_splitter(DefaultSplitter::new(SplitWhitespaceOption::None));
        alt.push(outcome(&caught(|| tk.tokenize(&ctx, &spaced)), toks_json));
        let tk = Tokenizer::with_splitter(DefaultSplitter::new(SplitWhitespaceOption::Remove));
        alt.push(outcome(&caught(|| tk.tokenize(&ctx, text)), toks_json));
    }
    let mut altval = vec![];
    if alts {
        let ev = Evaluator::with_context(Own(def.build::<C>()));
        altval.push(outcome(&caught(|| ev.eval(text)), sym_json));
        let tk: Tokenizer<'_, Sym<C>, Own<'_, Sym<C>>> = Tokenizer::new();
        alt.push(outcome(&caught(|| tk.tokenize(ev.context(), text)), toks_json));
        let build = || {
            DefaultSplitterBuilder::new()
                .rule(rules::SplitNumeric)
                .rule(rules::SplitIdentifier)
                .rule(rules::SplitWithOperators::new())
        };
        let ev = Evaluator::with_context_and_tokenizer(def.build::<C>(), Tokenizer::with_splitter(build().whitespace(SplitWhitespaceOption::Remove).build()));
        altval.push(outcome(&caught(|| ev.eval(text)), sym_json));
        let ev = Evaluator::with_context_and_tokenizer(def.build::<C>(), Tokenizer::new());
        altval.push(outcome(&caught(|| ev.eval(text)), sym_json));
        let ev = Evaluator::with_context_and_tokenizer(def.build::<C>(), Tokenizer::with_splitter(DefaultSplitter::with_numeric_rule(rules::SplitNumeric)));
        altval.push(outcome(&caught(|| ev.eval(text)), sym_json));
    }
    json!({"c": idx, "text": chars(text), "raws": raws_j, "toks": toks_j, "rpn": rpn, "val": val, "tval": tval, "alts": alt, "altvals": altval})
}

pub fn record_text(def: &CtxDef, idx: usize, text: &str, alts: bool) -> Value {
    if def.complex {
        record_text_c::<true>(def, idx, text, alts)
    } else {
        record_text_c::<false>(def, idx, text, alts)
    }
}

pub fn run_tokens_c<const C: bool>(def: &CtxDef, toks: &Value) -> (Value, Value) {
    let ctx: DefaultContext<'_, Sym<C>> = def.build();
    let t: Vec<Token<Sym<C>>> = toks.as_array().unwrap().iter().map(tok_from).collect();
    let rpn = outcome(&caught(|| infix_to_rpn(&t, &ctx)), toks_json);
    let ev = Evaluator::with_context(ctx);
    let val = outcome(&caught(|| ev.eval_tokens(&t)), sym_json);
    (rpn, val)
}

pub fn run_tokens(def: &CtxDef, toks: &Value) -> (Value, Value) {
    if def.complex {
        run_tokens_c::<true>(def, toks)
    } else {
        run_tokens_c::<false>(def, toks)
    }
}

fn why<T>(r: &Result<prexel::Result<T>, ()>) -> Value {
    match r {
        Ok(Ok(_)) => json!({"k": "ok", "kind": "", "text": []}),
        Ok(Err(e)) => json!({"k": "err", "kind": format!("{:?}", e.kind()), "text": chars(&e.to_string())}),
        Err(_) => json!({"k": "panic", "kind": "", "text": []}),
    }
}

/// The calls each stage makes, and the error the evaluation ends with.
fn record_calls_c<const C: bool>(def: &CtxDef, idx: usize, text: Option<&str>, given: &Value) -> Value {
    let ev = Evaluator::with_context(def.build::<C>());
    take_calls();
    let n = |v: Value| v.as_array().unwrap().len();
    let mut runs = vec![];
    let mut idle = 0;
    let toks: Option<Vec<Token<Sym<C>>>> = match text {
        Some(text) => {
            let t = caught(|| Tokenizer::new().tokenize(ev.context(), text));
            idle += n(take_calls());
            let r = caught(|| ev.eval(text));
            runs.push(json!({"calls": take_calls(), "why": why(&r)}));
            t.ok().and_then(|t| t.ok())
        }
        None => Some(given.as_array().unwrap().iter().map(tok_from).collect()),
    };
    if let Some(t) = &toks {
        let _ = caught(|| infix_to_rpn(t, ev.context()));
        idle += n(take_calls());
        let r = caught(|| ev.eval_tokens(t));
        runs.push(json!({"calls": take_calls(), "why": why(&r)}));
        let r = caught(|| prexel::evaluator::rpn_eval(t, ev.context()));
        runs.push(json!({"calls": take_calls(), "why": why(&r)}));
    }
    match text {
        Some(text) => json!({"c": idx, "text": chars(text), "idle": idle, "runs": runs}),
        None => json!({"c": idx, "given": given, "idle": idle, "runs": runs}),
    }
}

pub fn record_calls(def: &CtxDef, idx: usize, text: Option<&str>, given: &Value) -> Value {
    if def.complex {
        record_calls_c::<true>(def, idx, text, given)
    } else {
        record_calls_c::<false>(def, idx, text, given)
    }
}

/// Replays the behaviours TLC wrote (`{"c":ctx,"toks":[..],"rpn":..,"val":..}` or with `"text"`).
pub fn replay(ctxs: &str, cases: &str) -> i32 {
    let defs: Vec<CtxDef> = crate::read_json_lines(ctxs).iter().map(CtxDef::from_json).collect();
    let mut n = 0u64;
    let mut okays = 0u64;
    let mut bad = 0u64;
    for v in crate::read_json_lines(cases) {
        n += 1;
        let def = &defs[v["c"].as_u64().unwrap() as usize - 1];
        if v["val"]["k"] == "ok" {
            okays += 1;
        }
        let got = if v.get("text").is_some() {
            let text = unchars(&v["text"]);
            let r = record_text(def, 0, &text, false);
            json!({"rpn": r["rpn"], "val": r["val"], "tval": r["tval"]})
        } else {
            let (rpn, val) = run_tokens(def, &v["toks"]);
            json!({"rpn": rpn, "val": val})
        };
        let mut ok = got["val"] == v["val"];
        if v.get("text").is_some() {
            // a text may fail before it gets to the conversion
            ok = ok && (v["rpn"]["k"] != "ok" || (got["rpn"] == v["rpn"] && got["tval"] == v["val"]));
            ok = ok && (v["rpn"]["k"] == "ok" || got["rpn"]["k"] != "ok" && got["rpn"]["k"] != "panic");
        } else {
            ok = ok && got["rpn"] == v["rpn"];
        }
        let mut got = got;
        if v.get("calls").is_some() {
            let r = record_calls(def, 0, None, &v["toks"]);
            ok = ok && r["idle"] == 0;
            for run in r["runs"].as_array().unwrap() {
                ok = ok && run["calls"] == v["calls"];
                ok = ok && (v["why"]["kind"] == "" || run["why"] == v["why"]);
            }
            got["runs"] = r["runs"].clone();
        }
        if !ok {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"case": v, "got": got, "ctx": def.json()}));
            }
        }
    }
    println!("REPLAYED {} {} {}", n, okays, bad);
    if bad > 0 { 1 } else { 0 }
}

pub fn profile(name: &str) -> Profile {
    let b = Profile::base();
    match name {
        "P01" => Profile { binary: 80, maxlen: 8, unary: 4, call: 6, group: 22, mutate: 3, juxta: 3, odd: 0, ..b },
        "P02" => Profile { mutate: 70, odd: 10, ..b },
        "P03" => Profile { call: 45, nary: 5, depth: 5, mutate: 10, binary: 40, maxlen: 3, unary: 8, juxta: 8, ..b },
        "P04" => Profile { unary: 45, mutate: 15, ..b },
        "P05" => Profile { juxta: 45, mutate: 10, binary: 70, ..b },
        "P07" => Profile { recase: 60, name: 45, complex: None, mutate: 10, ..b },
        "P06" => Profile { glue: 400, mutate: 20, odd: 10, ..b },
        "P17" => Profile { call: 25, unary: 20, juxta: 12, mutate: 25, ..b },
        "P27" => Profile { call: 35, unary: 20, binary: 70, mutate: 8, fails: 14, ..b },
        _ => b,
    }
}

/// Tokens the caller makes, which need not come from any text: kinds that do not fit the names, too.
fn gen_tokens(r: &mut Rng, def: &CtxDef, text: &str) -> Value {
    fn of<const C: bool>(def: &CtxDef, text: &str) -> Value {
        let ctx: DefaultContext<'_, Sym<C>> = def.build();
        match caught(|| Tokenizer::new().tokenize(&ctx, text)) {
            Ok(Ok(t)) => toks_json(&t),
            _ => json!([]),
        }
    }
    let mut t = if def.complex { of::<true>(def, text) } else { of::<false>(def, text) };
    let t = t.as_array_mut().unwrap();
    let mut all: Vec<String> = def.vars.iter().chain(&def.consts).cloned().collect();
    all.extend(def.funcs.iter().flat_map(|f| std::iter::once(&f.name).chain(&f.aliases).cloned()));
    all.extend(def.bins.iter().flat_map(|f| std::iter::once(&f.name).chain(&f.aliases).cloned()));
    all.extend(def.unas.iter().flat_map(|f| std::iter::once(&f.name).chain(&f.aliases).cloned()));
    all.push("nope".into());
    let n = r.below(3);
    for _ in 0..n {
        let kind = *r.pick(&["var", "const", "fn", "bin", "una", "unk", "num", "comma", "argc", "open", "close"]);
        let tok = match kind {
            "num" => json!(["num", chars("7"), 0]),
            "comma" => json!(["comma", [","], 0]),
            "argc" => json!(["argc", [], r.below(4)]),
            "open" => json!(["open", [*r.pick(&["(", "[", "{"])], 0]),
            "close" => json!(["close", [*r.pick(&[")", "]", "}"])], 0]),
            k => json!([k, chars(r.pick(&all)), 0]),
        };
        let len = t.len();
        if len == 0 {
            t.push(tok);
            continue;
        }
        let i = r.below(len);
        match r.below(8) {
            0 => t.insert(i, tok),
            1 => {
                t.remove(i);
            }
            2 => {
                let j = r.below(len);
                t.swap(i, j);
            }
            3 => t[i] = tok,
            // the same name as something else
            _ => {
                let names: Vec<usize> = (0..len).filter(|i| ["var", "const", "fn", "bin", "una"].contains(&t[*i][0].as_str().unwrap())).collect();
                if names.is_empty() {
                    t[i] = tok;
                } else {
                    let i = *r.pick(&names);
                    if r.p(50) {
                        t[i][0] = json!(*r.pick(&["var", "const", "fn", "bin", "una"]));
                    } else {
                        t[i][1] = chars(r.pick(&all));
                    }
                }
            }
        }
    }
    Value::Array(t.clone())
}

/// Records `nctx` random contexts with `per` texts each.
pub fn gen(prop: &str, seed: u64, nctx: usize, per: usize, ctxs: &mut dyn std::io::Write, out: &mut dyn std::io::Write) {
    let p = profile(prop);
    let mut r = Rng::new(seed);
    for k in 0..nctx {
        let def = gen_ctx(&mut r, &p);
        writeln!(ctxs, "{}", def.json()).unwrap();
        for j in 0..per {
            // now and then a long one
            let big = Profile { maxlen: 40, binary: 97, depth: 7, ..p.clone() };
            let which = if r.p(1) { &big } else { &p };
            let text = if j == 0 && k % 8 == 3 {
                big_text(&mut r, which, &def, if prop == "P27" { 160 } else { 900 })
            } else {
                gen_text(&mut r, which, &def)
            };
            if prop == "P27" {
                writeln!(out, "{}", record_calls(&def, k + 1, Some(&text), &Value::Null)).unwrap();
                if r.p(20) {
                    let toks = gen_tokens(&mut r, &def, &text);
                    writeln!(out, "{}", record_calls(&def, k + 1, None, &toks)).unwrap();
                }
                continue;
            }
            writeln!(out, "{}", record_text(&def, k + 1, &text, prop == "P17")).unwrap();
            if r.p(if prop == "P02" { 50 } else { 10 }) {
                let toks = gen_tokens(&mut r, &def, &text);
                let (rpn, val) = run_tokens(&def, &toks);
                writeln!(out, "{}", json!({"c": k + 1, "given": toks, "rpn": rpn, "val": val})).unwrap();
            }
        }
    }
}

/// Replays the texts and tokens TLC wrote (`{"mode","text","toks"}`) in the real splitters.
pub fn split(cases: &str) -> i32 {
    let build = |bin: bool| if bin { prexel::binary::binary_number_splitter() } else { DefaultSplitter::default() };
    let (mut n, mut bad) = (0u64, 0u64);
    for v in crate::read_json_lines(cases) {
        n += 1;
        let text = unchars(&v["text"]);
        let bin = v["mode"] == "binary";
        let got = match caught(|| build(bin).split_into_tokens(&text)) {
            Ok(t) => strs(&t),
            Err(()) => json!("panic"),
        };
        if got != v["toks"] {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {}", json!({"case": v, "got": got}));
            }
        }
    }
    println!("REPLAYED {} {} {}", n, n, bad);
    if bad > 0 { 1 } else { 0 }
}
