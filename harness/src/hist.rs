//! Histories of context changes and evaluations.
use crate::gen::*;
use crate::rng::Rng;
use crate::sym::*;
use crate::{caught, outcome};
use prexel::context::{Config, Context, DefaultContext};
use prexel::evaluator::Evaluator;
use serde_json::{json, Value};
use std::io::Write;

type N = Sym<false>;
type Ev = Evaluator<'static, N>;

fn probe_fn(f: &dyn prexel::function::Function<N>) -> Value {
    f.call(&[]).map(|s| chars(&s.0.last().unwrap().1)).unwrap_or(json!(["failed"]))
}
fn probe_bin(f: &dyn prexel::function::BinaryFunction<N>) -> Value {
    f.call(Sym(vec![]), Sym(vec![])).map(|s| chars(&s.0.last().unwrap().1)).unwrap_or(json!(["failed"]))
}
fn probe_una(f: &dyn prexel::function::UnaryFunction<N>) -> Value {
    f.call(Sym(vec![])).map(|s| chars(&s.0.last().unwrap().1)).unwrap_or(json!(["failed"]))
}

pub fn dump(c: &DefaultContext<'static, N>) -> Value {
    let mut vars: Vec<Value> = c.variables().iter().map(|(k, v)| json!([chars(k), sym_json(v)])).collect();
    let mut consts: Vec<Value> = c.constants().iter().map(|(k, v)| json!([chars(k.as_str()), sym_json(v)])).collect();
    let mut fns: Vec<Value> = c.functions().iter().map(|(k, v)| json!([chars(k.as_str()), probe_fn(&**v)])).collect();
    let mut unas: Vec<Value> = c.unary_functions().iter().map(|(k, v)| json!([chars(k.as_str()), probe_una(&**v)])).collect();
    let mut bins: Vec<Value> = c.binary_functions().iter().map(|(k, v)| json!([chars(k.as_str()), probe_bin(&**v)])).collect();
    for v in [&mut vars, &mut consts, &mut fns, &mut unas, &mut bins] {
        v.sort_by_key(|x| x.to_string());
    }
    json!({"vars": vars, "consts": consts, "fns": fns, "unas": unas, "bins": bins})
}

fn query(c: &DefaultContext<'static, N>, name: &str) -> Value {
    let o = |v: Option<Value>| match v {
        Some(v) => json!([v]),
        None => json!([]),
    };
    let flags = c.is_variable(name) == c.get_variable(name).is_some()
        && c.is_constant(name) == c.get_constant(name).is_some()
        && c.is_function(name) == c.get_function(name).is_some()
        && c.is_unary_function(name) == c.get_unary_function(name).is_some()
        && c.is_binary_function(name) == c.get_binary_function(name).is_some();
    json!({
        "var": o(c.get_variable(name).map(sym_json)), "const": o(c.get_constant(name).map(sym_json)),
        "fn": o(c.get_function(name).map(|f| probe_fn(&**f))), "una": o(c.get_unary_function(name).map(|f| probe_una(&**f))),
        "bin": o(c.get_binary_function(name).map(|f| probe_bin(&**f))), "flags": flags,
    })
}

/// The contexts of one history; `1..` in the records.
pub struct World(Vec<Ev>);

pub fn fresh(cfg: &Value) -> Ev {
    let c = Config::new()
        .with_implicit_mul(cfg["implicit"].as_bool().unwrap())
        .with_custom_function_call(cfg["custom"].as_bool().unwrap());
    Evaluator::with_context(DefaultContext::with_config(c))
}

fn unit(r: Result<prexel::Result<()>, ()>) -> Value {
    outcome(&r, |_| json!([]))
}

impl World {
    pub fn new(cfg: &Value) -> World {
        World(vec![fresh(cfg)])
    }
    pub fn dumps(&self) -> Value {
        Value::Array(self.0.iter().map(|e| dump(e.context())).collect())
    }
    /// Performs an operation and returns its result.
    pub fn apply(&mut self, op: &Value) -> Value {
        let i = op["i"].as_u64().unwrap() as usize - 1;
        let name = || unchars(&op["name"]);
        let aliases = || op["aliases"].as_array().unwrap().iter().map(unchars).collect::<Vec<_>>();
        let id = || unchars(&op["id"]);
        let own = || unchars(&op["own"]);
        let val = || sym_from(&op["val"]);
        match op["op"].as_str().unwrap() {
            "setvar" => {
                let ctx = self.0[i].mut_context();
                let r = caught(|| ctx.set_variable(&name(), val()));
                outcome(&r, |old| match old {
                    Some(v) => json!([sym_json(v)]),
                    None => json!([]),
                })
            }
            "addconst" => {
                let ctx = self.0[i].mut_context();
                unit(caught(|| ctx.add_constant(&name(), val())))
            }
            "addfn" => {
                let f = SFunc::new(&FuncDef { id: id(), name: own(), aliases: aliases(), fails: false });
                let ctx = self.0[i].mut_context();
                unit(caught(|| if own() == name() { ctx.add_function(f) } else { ctx.add_function_as(f, &name()) }))
            }
            "adduna" => {
                let f = SUna::new(&UnaDef { id: id(), name: own(), aliases: aliases(), prefix: op["prefix"].as_bool().unwrap(), fails: false });
                let ctx = self.0[i].mut_context();
                unit(caught(|| if own() == name() { ctx.add_unary_function(f) } else { ctx.add_unary_function_as(f, &name()) }))
            }
            "addbin" => {
                let f = SBin::new(&BinDef { id: id(), name: own(), aliases: aliases(), prec: op["prec"].as_u64().unwrap() as u32, left: op["left"].as_bool().unwrap(), fails: false });
                let ctx = self.0[i].mut_context();
                unit(caught(|| if own() == name() { ctx.add_binary_function(f) } else { ctx.add_binary_function_as(f, &name()) }))
            }
            "clone" => {
                let c = self.0[i].context().clone();
                self.0.push(Evaluator::with_context(c));
                json!({"k": "ok", "v": []})
            }
            "eval" => {
                let text = unchars(&op["text"]);
                let e = &self.0[i];
                outcome(&caught(|| e.eval(&text)), sym_json)
            }
            "get" => json!({"k": "ok", "v": query(self.0[i].context(), &name())}),
            o => panic!("operation {}", o),
        }
    }
}

pub fn sym_from<const C: bool>(v: &Value) -> Sym<C> {
    Sym(v.as_array().unwrap().iter().map(|i| Item(i[0].as_str().unwrap().chars().next().unwrap(), unchars(&i[1]), i[2].as_u64().unwrap() as usize)).collect())
}

/// Replays the histories TLC wrote: `{"cfg","ops":[{..., "res", "after"}]}`.
pub fn replay(path: &str) -> i32 {
    let (mut n, mut steps, mut bad) = (0u64, 0u64, 0u64);
    for h in crate::read_json_lines(path) {
        n += 1;
        let mut w = World::new(&h["cfg"]);
        for op in h["ops"].as_array().unwrap() {
            steps += 1;
            let got = w.apply(op);
            let after = w.dumps();
            if !same_result(&got, &op["res"]) || !same_dumps(&after, &op["after"]) {
                bad += 1;
                if bad <= 20 {
                    println!("MISMATCH {}", json!({"case": {"history": h["ops"], "at": op}, "got": {"res": got, "after": after}}));
                }
                break;
            }
        }
    }
    println!("REPLAYED {} {} {}", n, steps, bad);
    if bad > 0 { 1 } else { 0 }
}

fn same_result(a: &Value, b: &Value) -> bool {
    a["k"] == b["k"] && (a["k"] != "ok" || a["v"] == b["v"])
}

fn lower(v: &Value) -> String {
    unchars(v).chars().flat_map(char::to_lowercase).collect()
}

/// The specification holds sets, and names that ignore case by their folded form.
fn same_dumps(a: &Value, b: &Value) -> bool {
    let norm = |v: &Value| -> Vec<Vec<(String, Vec<String>)>> {
        v.as_array()
            .unwrap()
            .iter()
            .map(|d| {
                ["vars", "consts", "fns", "unas", "bins"]
                    .iter()
                    .map(|k| {
                        let mut l: Vec<String> = d[*k].as_array().unwrap().iter().map(|p| format!("{} -> {}", if *k == "vars" { unchars(&p[0]) } else { lower(&p[0]) }, p[1])).collect();
                        l.sort();
                        (k.to_string(), l)
                    })
                    .collect()
            })
            .collect()
    };
    norm(a) == norm(b)
}

const HNAMES: &[&str] = &["x", "X", "y", "foo", "Foo", "FOO", "pi", "PI", "\u{3c0}", "\u{3a0}", "\u{e9}", "\u{c9}", "a1", "_t", "bar", "Stra\u{df}e", "max", "a_much_longer_name_1", "A_MUCH_LONGER_NAME_1", "a_much_longer_name_2", "nine_long", "NINE_LONG"];
const HOPS: &[&str] = &["+", "-", "*", "/", "^", "!", "mod", "MOD", "Mod", "plus", "Plus", "neg", "NEG", "\u{3c9}", "\u{3a9}", "&&", "shift_left_by", "SHIFT_left_by", "<<<<<<<<<<"];
const BADNAMES: &[&str] = &["", " ", "a b", "\t", "x\u{0}", "a\u{a0}", "\u{1b}", " x", "x ", "a\u{2003}b", "\u{85}", "\u{7f}q"];

fn hname(r: &mut Rng, pool: &[&str]) -> String {
    if r.p(6) { r.pick(BADNAMES).to_string() } else { r.pick(pool).to_string() }
}

fn hval(r: &mut Rng) -> Value {
    json!([["n", chars(&r.below(100).to_string()), 0]])
}

pub fn random_op(r: &mut Rng, w: &World, next_id: &mut usize, evals: u32) -> Value {
    let k = w.0.len();
    let i = 1 + r.below(k);
    let ctx = w.0[i - 1].context();
    let aliases = |r: &mut Rng, pool: &[&str]| {
        let mut a = vec![];
        while r.p(35) && a.len() < 3 {
            a.push(r.pick(pool).to_string());
        }
        a
    };
    let named = |r: &mut Rng, op: &str, id: String, pool: &[&str]| {
        let name = hname(r, pool);
        let own = if r.p(25) { r.pick(pool).to_string() } else { name.clone() };
        let al = aliases(r, pool);
        json!({"op": op, "i": i, "id": chars(&id), "name": chars(&name), "own": chars(&own), "aliases": names(&al)})
    };
    if r.p(evals) {
        // an expression over what is registered now, or nearly
        let mut d = CtxDef { implicit: ctx.config().implicit_mul, custom: ctx.config().custom_function_call, ..Default::default() };
        let keys = |it: Vec<String>| {
            let mut v = it;
            v.sort();
            v
        };
        d.vars = keys(ctx.variables().keys().cloned().collect());
        d.consts = keys(ctx.constants().keys().map(|s| s.as_str().to_string()).collect());
        d.funcs = keys(ctx.functions().keys().map(|s| s.as_str().to_string()).collect()).into_iter().map(|n| FuncDef { name: n, ..Default::default() }).collect();
        d.bins = keys(ctx.binary_functions().keys().map(|s| s.as_str().to_string()).collect()).into_iter().map(|n| BinDef { name: n, ..Default::default() }).collect();
        d.unas = keys(ctx.unary_functions().keys().map(|s| s.as_str().to_string()).collect())
            .into_iter()
            .map(|n| UnaDef { prefix: ctx.get_unary_function(&n).unwrap().notation() == prexel::function::Notation::Prefix, name: n, ..Default::default() })
            .collect();
        if d.bins.is_empty() {
            d.bins.push(BinDef { name: "+".into(), ..Default::default() });
        }
        let text = if d.funcs.is_empty() && r.p(30) { hname(r, HNAMES) } else {
            if d.funcs.is_empty() {
                d.funcs.push(FuncDef { name: "max".into(), ..Default::default() });
            }
            let p = Profile { maxlen: 4, depth: 2, mutate: 12, name: 60, recase: 25, ..Profile::base() };
            gen_text(r, &p, &d)
        };
        return json!({"op": "eval", "i": i, "text": chars(&text)});
    }
    *next_id += 1;
    match r.below(14) {
        0..=3 => json!({"op": "setvar", "i": i, "name": chars(&hname(r, HNAMES)), "val": hval(r)}),
        4..=5 => json!({"op": "addconst", "i": i, "name": chars(&hname(r, HNAMES)), "val": hval(r)}),
        6..=7 => named(r, "addfn", format!("f{}", next_id), HNAMES),
        8 => {
            let mut v = named(r, "adduna", format!("u{}", next_id), HOPS);
            v["prefix"] = json!(r.p(60));
            v
        }
        9..=10 => {
            let mut v = named(r, "addbin", format!("b{}", next_id), HOPS);
            v["prec"] = json!(r.below(4));
            v["left"] = json!(r.p(60));
            v
        }
        11 if k < 3 => json!({"op": "clone", "i": i}),
        _ => {
            let pool = if r.p(50) { HNAMES } else { HOPS };
            json!({"op": "get", "i": i, "name": chars(r.pick(pool))})
        }
    }
}

/// Registers another name, or asks for an earlier one.
fn many_op(r: &mut Rng, k: usize) -> Value {
    let old = r.p(12);
    let n = if old { r.below(k + 1) } else { k };
    let name = format!("n{}", n);
    match r.below(10) {
        0..=4 => json!({"op": "setvar", "i": 1, "name": chars(&name), "val": hval(r)}),
        5 => json!({"op": "addconst", "i": 1, "name": chars(&format!("c{}", n)), "val": hval(r)}),
        6 => json!({"op": "addfn", "i": 1, "id": chars(&format!("f7{}", k)), "name": chars(&format!("g{}", n)), "own": chars(&format!("g{}", n)), "aliases": names(&[format!("G{}_2", n)])}),
        7 => json!({"op": "addbin", "i": 1, "id": chars(&format!("b7{}", k)), "name": chars(&format!("o{}", n)), "own": chars(&format!("o{}", n)), "aliases": [], "prec": r.below(4), "left": r.p(50)}),
        8 => json!({"op": "get", "i": 1, "name": chars(&format!("{}{}", r.pick(&["n", "c", "g", "o", "N"]), r.below(k + 2)))}),
        _ => json!({"op": "eval", "i": 1, "text": chars(&format!("n{}", r.below(k + 2)))}),
    }
}

/// The text with one character (or a few) changed, most often near its end, of the same length most often; or the text
/// itself, repeated so that it is long, and then changed.
fn edited(r: &mut Rng, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    if r.p(25) && c.len() > 4 {
        let unit: String = format!("({})", t);
        let n = 2 + r.below(12);
        c = vec![unit; n].join(*r.pick(&["+", "*", "-", " plus ", ""])).chars().collect();
    }
    if c.is_empty() {
        return "1".into();
    }
    let n = c.len();
    let i = if r.p(50) { n - 1 - r.below(n.min(4)) } else { r.below(n) };
    match r.below(10) {
        0 => {
            c.remove(i);
        }
        1 => c.insert(i, ' '),
        2 => c = c.iter().flat_map(|x| if r.p(50) { x.to_uppercase().collect::<Vec<_>>() } else { x.to_lowercase().collect() }).collect(),
        3 => {}
        _ => {
            // a digit for a digit, an operator for an operator
            let x = c[i];
            c[i] = if x.is_ascii_digit() { (b'0' + r.below(10) as u8) as char } else if "+-*/^!".contains(x) { *r.pick(&['+', '-', '*', '/', '^', '!']) } else { *r.pick(&['x', 'y', '7', '+', ' ', ')']) };
        }
    }
    c.into_iter().collect()
}

pub fn gen(seed: u64, nhist: usize, len: usize, evals: u32, out: &mut dyn Write) {
    let mut r = Rng::new(seed);
    for h in 0..nhist {
        // one with many names now and then
        let large = h % 60 == 7;
        let len = if large { 300 } else { len };
        let cfg = json!({"implicit": r.p(50), "custom": r.p(30)});
        let mut w = World::new(&cfg);
        let mut id = 0;
        writeln!(out, "{}", json!({"op": "new", "i": 1, "cfg": cfg, "res": {"k": "ok", "v": []}, "after": w.dumps()})).unwrap();
        let mut past: Vec<String> = vec![];
        for k in 0..len {
            let mut op = if large && !r.p(15) { many_op(&mut r, k) } else { random_op(&mut r, &w, &mut id, if large { 30 } else { evals }) };
            if op["op"] == "eval" {
                // a text close to an earlier one, now and then
                if !past.is_empty() && r.p(if evals > 50 { 30 } else { 10 }) {
                    let t = r.pick(&past).clone();
                    op["text"] = chars(&edited(&mut r, &t));
                }
                past.push(unchars(&op["text"]));
            }
            let mut repeat = 1;
            if op["op"] == "eval" && r.p(20) {
                repeat = 2; // the very same evaluation again
            }
            for _ in 0..repeat {
                let res = w.apply(&op);
                op["res"] = res;
                op["after"] = w.dumps();
                writeln!(out, "{}", op).unwrap();
            }
        }
    }
}
