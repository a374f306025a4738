//! The symbolic number: a value is the postorder of the evaluation that made it,
//! so a single evaluation shows which operator got which operands.
use prexel::context::{Config, Context, DefaultContext};
use prexel::error::{Error, ErrorKind};
use prexel::function::*;
use prexel::token::Token;
use serde_json::{json, Value};
use std::fmt;
use std::str::FromStr;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item(pub char, pub String, pub usize);

/// `C` = accepts an imaginary suffix (and `i` alone), as the complex numbers do.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sym<const C: bool>(pub Vec<Item>);

impl<const C: bool> fmt::Display for Sym<C> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.0)
    }
}

pub fn is_sym_number(s: &str, c: bool) -> bool {
    if c && s == "i" {
        return true;
    }
    let body = if c { s.strip_suffix('i').unwrap_or(s) } else { s };
    let mut it = body.chars();
    match it.next() {
        Some(d) if d.is_ascii_digit() => {}
        _ => return false,
    }
    let mut point = false;
    for d in it {
        if d == '.' && !point {
            point = true;
        } else if !d.is_ascii_digit() {
            return false;
        }
    }
    true
}

impl<const C: bool> FromStr for Sym<C> {
    type Err = String;
    fn from_str(s: &str) -> Result<Self, String> {
        if is_sym_number(s, C) {
            Ok(Sym(vec![Item('n', s.to_string(), 0)]))
        } else {
            Err(format!("not a number: {}", s))
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct FuncDef {
    pub id: String,
    pub name: String,
    pub aliases: Vec<String>,
    pub fails: bool,
}
#[derive(Clone, Debug, Default)]
pub struct BinDef {
    pub id: String,
    pub name: String,
    pub aliases: Vec<String>,
    pub prec: u32,
    pub left: bool,
    pub fails: bool,
}
#[derive(Clone, Debug, Default)]
pub struct UnaDef {
    pub id: String,
    pub name: String,
    pub aliases: Vec<String>,
    pub prefix: bool,
    pub fails: bool,
}
#[derive(Clone, Debug, Default)]
pub struct CtxDef {
    pub implicit: bool,
    pub complex: bool,
    pub custom: bool,
    pub vars: Vec<String>,
    pub consts: Vec<String>,
    pub funcs: Vec<FuncDef>,
    pub bins: Vec<BinDef>,
    pub unas: Vec<UnaDef>,
}

fn leak(v: &[String]) -> &'static [&'static str] {
    let v: Vec<&'static str> = v.iter().map(|s| &*Box::leak(s.clone().into_boxed_str())).collect();
    Box::leak(v.into_boxed_slice())
}

pub struct SFunc(pub FuncDef, pub &'static [&'static str]);
pub struct SBin(pub BinDef, pub &'static [&'static str]);
pub struct SUna(pub UnaDef, pub &'static [&'static str]);
impl SFunc {
    pub fn new(d: &FuncDef) -> Self {
        SFunc(d.clone(), leak(&d.aliases))
    }
}
impl SBin {
    pub fn new(d: &BinDef) -> Self {
        SBin(d.clone(), leak(&d.aliases))
    }
}
impl SUna {
    pub fn new(d: &UnaDef) -> Self {
        SUna(d.clone(), leak(&d.aliases))
    }
}

thread_local! {
    /// The calls made since the log was last taken: kind, function, number of arguments, the arguments in a row.
    static CALLS: std::cell::RefCell<Vec<Value>> = std::cell::RefCell::new(vec![]);
}
fn called(kind: char, id: &str, n: usize, args: &[Item]) {
    CALLS.with(|c| {
        let mut c = c.borrow_mut();
        if c.len() < 10_000 {
            c.push(json!([kind.to_string(), chars(id), n, args.iter().map(item_json).collect::<Vec<_>>()]))
        }
    })
}
pub fn take_calls() -> Value {
    CALLS.with(|c| Value::Array(std::mem::take(&mut *c.borrow_mut())))
}

const KINDS: [ErrorKind; 10] = [
    ErrorKind::Overflow, ErrorKind::Zero, ErrorKind::NAN, ErrorKind::InvalidInput, ErrorKind::InvalidArgumentCount,
    ErrorKind::DivisionByZero, ErrorKind::NegativeValue, ErrorKind::PositiveValue, ErrorKind::InvalidExpression, ErrorKind::Empty,
];
/// The error of a function that fails: its kind goes by the last digit of its id, its text is the id.
fn refusal(id: &str) -> Error {
    let d = id.chars().last().and_then(|c| c.to_digit(10)).unwrap_or(0) as usize;
    Error::new(KINDS[d], id.to_string())
}

impl<const C: bool> Function<Sym<C>> for SFunc {
    fn name(&self) -> &str {
        &self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.1.is_empty() { None } else { Some(self.1) }
    }
    fn call(&self, args: &[Sym<C>]) -> prexel::Result<Sym<C>> {
        let mut out = Vec::new();
        for a in args {
            out.extend(a.0.iter().cloned());
        }
        called('f', &self.0.id, args.len(), &out);
        if self.0.fails {
            return Err(refusal(&self.0.id));
        }
        out.push(Item('f', self.0.id.clone(), args.len()));
        Ok(Sym(out))
    }
}
impl<const C: bool> BinaryFunction<Sym<C>> for SBin {
    fn name(&self) -> &str {
        &self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.1.is_empty() { None } else { Some(self.1) }
    }
    fn precedence(&self) -> Precedence {
        Precedence(self.0.prec)
    }
    fn associativity(&self) -> Associativity {
        if self.0.left { Associativity::Left } else { Associativity::Right }
    }
    fn call(&self, l: Sym<C>, r: Sym<C>) -> prexel::Result<Sym<C>> {
        let mut out = l.0;
        out.extend(r.0);
        called('b', &self.0.id, 2, &out);
        if self.0.fails {
            return Err(refusal(&self.0.id));
        }
        out.push(Item('b', self.0.id.clone(), 0));
        Ok(Sym(out))
    }
}
impl<const C: bool> UnaryFunction<Sym<C>> for SUna {
    fn name(&self) -> &str {
        &self.0.name
    }
    fn aliases(&self) -> Option<&[&str]> {
        if self.1.is_empty() { None } else { Some(self.1) }
    }
    fn notation(&self) -> Notation {
        if self.0.prefix { Notation::Prefix } else { Notation::Postfix }
    }
    fn call(&self, v: Sym<C>) -> prexel::Result<Sym<C>> {
        let mut out = v.0;
        called('u', &self.0.id, 1, &out);
        if self.0.fails {
            return Err(refusal(&self.0.id));
        }
        out.push(Item('u', self.0.id.clone(), 0));
        Ok(Sym(out))
    }
}

/// A text as the specification holds it: one string per character, `U+XXXX` outside printable ASCII.
pub fn chars(s: &str) -> Value {
    Value::Array(s.chars().map(|c| Value::String(if (' '..='~').contains(&c) { c.to_string() } else { format!("U+{:04X}", c as u32) })).collect())
}
pub fn unchars(v: &Value) -> String {
    v.as_array()
        .expect("chars")
        .iter()
        .map(|c| {
            let c = c.as_str().expect("char");
            match c.strip_prefix("U+") {
                Some(h) if !h.is_empty() => char::from_u32(u32::from_str_radix(h, 16).expect("hex")).expect("char").to_string(),
                _ => c.to_string(),
            }
        })
        .collect()
}
pub fn names(v: &[String]) -> Value {
    Value::Array(v.iter().map(|s| chars(s)).collect())
}

impl CtxDef {
    pub fn json(&self) -> Value {
        json!({
            "implicit": self.implicit, "complex": self.complex, "custom": self.custom,
            "vars": names(&self.vars), "consts": names(&self.consts),
            "funcs": self.funcs.iter().map(|f| json!({"id": chars(&f.id), "name": chars(&f.name), "aliases": names(&f.aliases), "fails": f.fails})).collect::<Vec<_>>(),
            "bins": self.bins.iter().map(|f| json!({"id": chars(&f.id), "name": chars(&f.name), "aliases": names(&f.aliases), "prec": f.prec, "left": f.left, "fails": f.fails})).collect::<Vec<_>>(),
            "unas": self.unas.iter().map(|f| json!({"id": chars(&f.id), "name": chars(&f.name), "aliases": names(&f.aliases), "prefix": f.prefix, "fails": f.fails})).collect::<Vec<_>>(),
        })
    }

    pub fn from_json(v: &Value) -> CtxDef {
        let ns = |v: &Value| v.as_array().unwrap().iter().map(unchars).collect::<Vec<_>>();
        let arr = |k: &str| v[k].as_array().unwrap().clone();
        CtxDef {
            implicit: v["implicit"].as_bool().unwrap(),
            complex: v["complex"].as_bool().unwrap(),
            custom: v["custom"].as_bool().unwrap(),
            vars: ns(&v["vars"]),
            consts: ns(&v["consts"]),
            funcs: arr("funcs").iter().map(|f| FuncDef { id: unchars(&f["id"]), name: unchars(&f["name"]), aliases: ns(&f["aliases"]), fails: f["fails"].as_bool().unwrap() }).collect(),
            bins: arr("bins").iter().map(|f| BinDef { id: unchars(&f["id"]), name: unchars(&f["name"]), aliases: ns(&f["aliases"]), prec: f["prec"].as_u64().unwrap() as u32, left: f["left"].as_bool().unwrap(), fails: f["fails"].as_bool().unwrap() }).collect(),
            unas: arr("unas").iter().map(|f| UnaDef { id: unchars(&f["id"]), name: unchars(&f["name"]), aliases: ns(&f["aliases"]), prefix: f["prefix"].as_bool().unwrap(), fails: f["fails"].as_bool().unwrap() }).collect(),
        }
    }

    pub fn config(&self) -> Config {
        Config::new()
            .with_implicit_mul(self.implicit)
            .with_complex_number(self.complex)
            .with_custom_function_call(self.custom)
    }

    pub fn build<const C: bool>(&self) -> DefaultContext<'static, Sym<C>> {
        let mut c = DefaultContext::with_config(self.config());
        for n in &self.consts {
            c.add_constant(n, Sym(vec![Item('c', n.clone(), 0)])).expect("constant");
        }
        for n in &self.vars {
            c.set_variable(n, Sym(vec![Item('v', n.clone(), 0)])).expect("variable");
        }
        for f in &self.funcs {
            c.add_function(SFunc::new(f)).expect("function");
        }
        for f in &self.bins {
            c.add_binary_function(SBin::new(f)).expect("binary");
        }
        for f in &self.unas {
            c.add_unary_function(SUna::new(f)).expect("unary");
        }
        c
    }
}

pub fn item_json(i: &Item) -> Value {
    json!([i.0.to_string(), chars(&i.1), i.2])
}
pub fn sym_json<const C: bool>(s: &Sym<C>) -> Value {
    Value::Array(s.0.iter().map(item_json).collect())
}

pub fn tok_json<const C: bool>(t: &Token<Sym<C>>) -> Value {
    match t {
        Token::Number(n) => {
            if n.0.len() == 1 {
                json!(["num", chars(&n.0[0].1), 0])
            } else {
                json!(["num", [], n.0.len()])
            }
        }
        Token::Variable(s) => json!(["var", chars(s), 0]),
        Token::Constant(s) => json!(["const", chars(s), 0]),
        Token::Function(s) => json!(["fn", chars(s), 0]),
        Token::BinaryOperator(s) => json!(["bin", chars(s), 0]),
        Token::UnaryOperator(s) => json!(["una", chars(s), 0]),
        Token::ArgCount(n) => json!(["argc", [], n]),
        Token::GroupingOpen(c) => json!(["open", chars(&c.to_string()), 0]),
        Token::GroupingClose(c) => json!(["close", chars(&c.to_string()), 0]),
        Token::Unknown(s) => json!(["unk", chars(s), 0]),
        Token::Comma => json!(["comma", [","], 0]),
    }
}
pub fn tok_from<const C: bool>(v: &Value) -> Token<Sym<C>> {
    let s = unchars(&v[1]);
    let ch = || s.chars().next().unwrap();
    match v[0].as_str().unwrap() {
        "num" => Token::Number(Sym(vec![Item('n', s, 0)])),
        "var" => Token::Variable(s),
        "const" => Token::Constant(s),
        "fn" => Token::Function(s),
        "bin" => Token::BinaryOperator(s),
        "una" => Token::UnaryOperator(s),
        "argc" => Token::ArgCount(v[2].as_u64().unwrap() as usize),
        "open" => Token::GroupingOpen(ch()),
        "close" => Token::GroupingClose(ch()),
        "unk" => Token::Unknown(s),
        "comma" => Token::Comma,
        k => panic!("token kind {}", k),
    }
}
