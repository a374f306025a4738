//! Random contexts and expressions.
use crate::rng::Rng;
use crate::sym::*;

#[derive(Clone)]
pub struct Profile {
    pub binary: u32,   // percent to go on with a binary operator
    pub unary: u32,    // percent for each prefix / postfix
    pub group: u32,    // weight of groups
    pub call: u32,     // weight of calls
    pub number: u32,   // weight of numbers
    pub name: u32,     // weight of variables and constants
    pub juxta: u32,    // percent of juxtaposition instead of an operator
    pub mutate: u32,   // percent of texts that are mutated
    pub recase: u32,   // percent of names written in another case / alias
    pub glue: u32,     // percent of joints without a space even where tokens may merge
    pub odd: u32,      // percent of odd raw tokens (unknown names, characters)
    pub depth: usize,
    pub maxlen: usize, // operands in a row
    pub nary: usize,   // arguments of calls
    pub implicit: Option<bool>,
    pub complex: Option<bool>,
    pub custom: Option<bool>,
    pub fails: u32,    // percent of functions that fail, half as many operators
}

impl Profile {
    pub fn base() -> Profile {
        Profile {
            binary: 60, unary: 12, group: 15, call: 15, number: 40, name: 30, juxta: 6, mutate: 15, recase: 10, glue: 30,
            odd: 1, depth: 4, maxlen: 6, nary: 4, implicit: None, complex: None, custom: None, fails: 4,
        }
    }
}

const SYMS: &[&str] = &["+", "-", "*", "/", "^", "!", "~", "%", "&&", "||", "<=", "@", "<", "=", "**", "->", "?", ":", "|", "&", "++", ".", "\\"];
const WORDS: &[&str] = &["mod", "and", "Or", "not", "xor", "plus_1", "DIV", "neg", "fact", "o", "\u{3a9}x"];
const FNAMES: &[&str] = &["f", "max", "sum2", "Sin", "g_1", "h", "AVG", "rnd", "_k", "log10", "F2", "i2"];
const VNAMES: &[&str] = &["x", "X", "y1", "_z", "abc", "aBc", "T", "long_name_2", "q"];
const CNAMES: &[&str] = &["PI", "e", "Phi", "\u{3c0}", "\u{3a3}", "tau", "C0", "\u{e9}"];

/// A random identifier, now and then a long one.
pub fn ident(r: &mut Rng) -> String {
    let n = match r.below(4) {
        0 => 1,
        1 => 1 + r.below(4),
        2 => 5 + r.below(8),
        _ => 8 + r.below(30),
    };
    let mut s = String::new();
    for i in 0..n {
        let c = match r.below(if i == 0 { 5 } else { 6 }) {
            0 => '_',
            1 => (b'A' + r.below(26) as u8) as char,
            5 => (b'0' + r.below(10) as u8) as char,
            _ => (b'a' + r.below(26) as u8) as char,
        };
        s.push(c);
    }
    s
}

/// Two long names that differ in their last character only.
fn long_names(r: &mut Rng) -> [String; 2] {
    let n = 60 + r.below(220);
    let s: String = std::iter::once('w').chain((1..n).map(|_| *r.pick(&['a', 'b', 'z', '_', '7']))).collect();
    [format!("{}p", s), format!("{}q", s)]
}

fn fold(s: &str) -> String {
    s.chars().flat_map(|c| c.to_lowercase()).collect()
}

fn take(r: &mut Rng, pool: &[&str], used: &mut Vec<String>, out: &mut Vec<String>, n: usize) {
    for _ in 0..n * 3 {
        if out.len() >= n {
            break;
        }
        let s = if r.p(12) && pool != SYMS { ident(r) } else { r.pick(pool).to_string() };
        if !used.contains(&fold(&s)) {
            used.push(fold(&s));
            out.push(s);
        }
    }
}

pub fn gen_ctx(r: &mut Rng, p: &Profile) -> CtxDef {
    let mut c = CtxDef {
        implicit: p.implicit.unwrap_or_else(|| r.p(60)),
        complex: p.complex.unwrap_or_else(|| r.p(25)),
        custom: p.custom.unwrap_or_else(|| r.p(20)),
        ..Default::default()
    };
    // constants and variables never share a name (ignoring case)
    let mut used = vec!["i".to_string()];
    let n = r.below(4);
    take(r, CNAMES, &mut used, &mut c.consts, n);
    let cu = used.clone();
    for _ in 0..if r.p(3) { 40 } else { r.below(6) } {
        let v = if r.p(20) { ident(r) } else { r.pick(VNAMES).to_string() };
        if !c.vars.contains(&v) && !cu.contains(&fold(&v)) {
            c.vars.push(v);
        }
    }
    // functions; now and then named as a variable or a constant
    let mut used = vec![];
    let mut ns = vec![];
    let n = if r.p(5) { 12 } else { 1 + r.below(5) };
    take(r, FNAMES, &mut used, &mut ns, n + 3);
    if r.p(12) && !c.vars.is_empty() {
        let v = c.vars[0].clone();
        if !used.contains(&fold(&v)) {
            used.push(fold(&v));
            ns.insert(0, v);
        }
    }
    let mut k = 0;
    while ns.len() > 0 && c.funcs.len() < n {
        let name = ns.remove(0);
        let mut f = FuncDef { id: format!("f{}", k), name, aliases: vec![], fails: r.p(p.fails) };
        k += 1;
        while r.p(30) && !ns.is_empty() {
            f.aliases.push(ns.remove(0));
        }
        c.funcs.push(f);
    }
    // binary operators, `*` nearly always
    let mut used = vec![];
    let mut ns = vec![];
    let n = if r.p(5) { 14 } else { 2 + r.below(6) };
    if !r.p(6) {
        used.push("*".into());
        ns.push("*".to_string());
    }
    take(r, SYMS, &mut used, &mut ns, n + 2);
    take(r, WORDS, &mut used, &mut ns, n + 4);
    let levels = 1 + r.below(5) as u32;
    let scale = *r.pick(&[1, 1, 1, 7, 100, 1_000_000]);
    let mut k = 0;
    while !ns.is_empty() && c.bins.len() < n {
        let j = if c.bins.is_empty() { 0 } else { r.below(ns.len()) };
        let name = ns.remove(j);
        let mut b = BinDef { id: format!("b{}", k), name, aliases: vec![], prec: r.below(levels as usize) as u32 * scale, left: r.p(65), fails: r.p(p.fails / 2) };
        k += 1;
        while r.p(20) && !ns.is_empty() {
            b.aliases.push(ns.remove(0));
        }
        c.bins.push(b);
    }
    // unary operators, often also binary
    let mut used = vec![];
    let mut ns = vec![];
    let n = 1 + r.below(4);
    if r.p(60) {
        let b = r.pick(&c.bins).name.clone();
        used.push(fold(&b));
        ns.push(b);
    }
    take(r, SYMS, &mut used, &mut ns, n + 1);
    if r.p(40) {
        take(r, WORDS, &mut used, &mut ns, n + 3);
    }
    let mut k = 0;
    while !ns.is_empty() && c.unas.len() < n {
        let name = ns.remove(0);
        let both = c.bins.iter().any(|b| fold(&b.name) == fold(&name) || b.aliases.iter().any(|a| fold(a) == fold(&name)));
        let mut u = UnaDef { id: format!("u{}", k), name, aliases: vec![], prefix: if both { r.p(90) } else { r.p(55) }, fails: r.p(p.fails / 2) };
        k += 1;
        while r.p(20) && !ns.is_empty() {
            u.aliases.push(ns.remove(0));
        }
        c.unas.push(u);
    }
    // now and then long names, and many names
    if r.p(6) {
        let [a, b] = long_names(r);
        match r.below(4) {
            0 => c.vars.extend([a, b]),
            1 => c.consts.extend([a, b]),
            2 => {
                for (k, name) in [a, b].into_iter().enumerate() {
                    c.funcs.push(FuncDef { id: format!("f9{}", k), name, aliases: vec![], fails: false });
                }
            }
            _ => {
                c.vars.push(a);
                c.consts.push(b);
            }
        }
    }
    if r.p(1) {
        let n = 200 + r.below(150);
        for k in 0..n {
            c.vars.push(format!("v{}", k));
            c.consts.push(format!("k{}", k));
            c.funcs.push(FuncDef { id: format!("f{}", 100 + k), name: format!("m{}", k), aliases: vec![], fails: false });
        }
        for k in 0..n {
            c.bins.push(BinDef { id: format!("b{}", 100 + k), name: format!("d{}", k), aliases: vec![], prec: r.below(n) as u32, left: r.p(50), fails: false });
        }
    }
    // now and then a constant or a variable named as a function or an operator, or with a mark before
    // the name of another
    while r.p(12) {
        let mut pool: Vec<String> = vec![];
        for f in &c.funcs {
            pool.push(f.name.clone());
            pool.extend(f.aliases.iter().cloned());
        }
        for (n, a) in c.bins.iter().map(|b| (&b.name, &b.aliases)).chain(c.unas.iter().map(|u| (&u.name, &u.aliases))) {
            pool.extend(std::iter::once(n).chain(a).filter(|n| n.starts_with(|c: char| c.is_alphabetic())).cloned());
        }
        for n in c.vars.iter().chain(&c.consts) {
            let mark = *r.pick(&["$", "_"]);
            pool.push(format!("{}{}", mark, n));
        }
        let n = r.pick(&pool).clone();
        let taken = |l: &Vec<String>| l.iter().any(|x| fold(x) == fold(&n));
        if taken(&c.consts) || taken(&c.vars) || fold(&n) == "i" {
            continue;
        }
        if r.p(60) {
            c.consts.push(n);
        } else {
            c.vars.push(n);
        }
    }
    c
}

fn spell(r: &mut Rng, p: &Profile, name: &str, aliases: &[String]) -> String {
    let mut s = name.to_string();
    if !aliases.is_empty() && r.p(40) {
        s = r.pick(aliases).clone();
    }
    if r.p(p.recase) {
        s = match r.below(3) {
            0 => s.to_uppercase(),
            1 => s.to_lowercase(),
            _ => s.chars().map(|c| if r.p(50) { c.to_uppercase().next().unwrap() } else { c.to_lowercase().next().unwrap() }).collect(),
        };
    }
    s
}

fn number(r: &mut Rng, complex: bool) -> Vec<String> {
    let mut s = match r.below(6) {
        0 => "0".into(),
        1 => r.below(10).to_string(),
        2 => r.below(100000).to_string(),
        3 => format!("{}.{}", r.below(100), r.below(1000)),
        4 => format!("{:03}", r.below(100)),
        _ => (1 + r.below(9)).to_string(),
    };
    if r.p(3) {
        s.push('.');
        if s.matches('.').count() > 1 {
            s.pop();
        }
    }
    if complex && r.p(30) {
        if r.p(30) { vec!["i".into()] } else { vec![s, "i".into()] }
    } else {
        vec![s]
    }
}

fn brackets(r: &mut Rng) -> (&'static str, &'static str) {
    match r.below(6) {
        0 => ("[", "]"),
        1 => ("{", "}"),
        _ => ("(", ")"),
    }
}

fn operand(r: &mut Rng, p: &Profile, c: &CtxDef, depth: usize, out: &mut Vec<String>) {
    let prefixes: Vec<_> = c.unas.iter().filter(|u| u.prefix).collect();
    let postfixes: Vec<_> = c.unas.iter().filter(|u| !u.prefix).collect();
    while !prefixes.is_empty() && r.p(p.unary) {
        let u = *r.pick(&prefixes);
        out.push(spell(r, p, &u.name, &u.aliases));
    }
    let names = c.vars.len() + c.consts.len();
    let depth = if out.len() > 150 { 0 } else { depth };
    let w = [p.number, if names > 0 { p.name } else { 0 }, if depth > 0 { p.group } else { 0 }, if depth > 0 && !c.funcs.is_empty() { p.call } else { 0 }];
    let total: u32 = w.iter().sum();
    let mut k = r.below(total as usize) as u32;
    let mut which = 0;
    while k >= w[which] {
        k -= w[which];
        which += 1;
    }
    match which {
        0 => out.extend(number(r, c.complex)),
        1 => {
            let j = r.below(names);
            if j < c.vars.len() {
                out.push(c.vars[j].clone())
            } else {
                out.push(spell(r, p, &c.consts[j - c.vars.len()], &[]))
            }
        }
        2 => {
            let (a, b) = brackets(r);
            out.push(a.into());
            expr(r, p, c, depth - 1, out);
            out.push(b.into());
        }
        _ => {
            let f = r.pick(&c.funcs);
            out.push(spell(r, p, &f.name, &f.aliases));
            let (a, b) = if c.custom { brackets(r) } else { ("(", ")") };
            out.push(a.into());
            let many = r.p(2);
            let n = if many { 5 + r.below(40) } else { r.below(p.nary + 1) };
            let depth = if many { 1 } else { depth };
            for i in 0..n {
                if i > 0 {
                    out.push(",".into());
                }
                expr(r, p, c, depth - 1, out);
            }
            out.push(b.into());
        }
    }
    while !postfixes.is_empty() && r.p(p.unary) {
        let u = *r.pick(&postfixes);
        out.push(spell(r, p, &u.name, &u.aliases));
    }
}

pub fn expr(r: &mut Rng, p: &Profile, c: &CtxDef, depth: usize, out: &mut Vec<String>) {
    operand(r, p, c, depth, out);
    let mut n = 1;
    while n < p.maxlen && out.len() < 200 && r.p(p.binary) {
        n += 1;
        if r.p(p.juxta) {
            // left for the specification to judge
        } else {
            let b = r.pick(&c.bins);
            let s = spell(r, p, &b.name, &b.aliases);
            out.push(s);
        }
        operand(r, p, c, depth.saturating_sub(1), out);
    }
}

pub fn odd_token(r: &mut Rng, c: &CtxDef) -> String {
    match r.below(10) {
        0 => "(".into(),
        1 => ")".into(),
        2 => ",".into(),
        3 => r.pick(&["[", "]", "{", "}"]).to_string(),
        4 => r.pick(&["unknown", "#", "\u{1F600}", "\u{0}", "$", "..", "1.2.3", "b101", "0x1F", "1e5", "\u{df}", "i"]).to_string(),
        5 => r.pick(&c.bins).name.clone(),
        6 => c.unas.first().map_or("-".into(), |u| u.name.clone()),
        7 => r.pick(&c.funcs).name.clone(),
        8 => c.vars.first().cloned().unwrap_or("x".into()),
        _ => r.below(100).to_string(),
    }
}

pub fn mutate(r: &mut Rng, c: &CtxDef, t: &mut Vec<String>) {
    for _ in 0..1 + r.below(2) {
        let n = t.len();
        let at: Vec<usize> = (0..n).filter(|i| "()[]{}".contains(t[*i].as_str())).collect();
        match r.below(9) {
            6..=7 if !at.is_empty() => {
                // another bracket
                let i = *r.pick(&at);
                t[i] = match (r.below(5), t[i].as_str()) {
                    (0, _) => r.pick(&["(", ")", "[", "]", "{", "}"]).to_string(),
                    (_, "(" | "[" | "{") => r.pick(&["(", "[", "{"]).to_string(),
                    _ => r.pick(&[")", "]", "}"]).to_string(),
                };
            }
            8 if !at.is_empty() => {
                let i = *r.pick(&at);
                if r.p(60) {
                    t.remove(i);
                } else {
                    let s = t[i].clone();
                    t.insert(i, s);
                }
            }
            0 if n > 0 => {
                let i = r.below(n);
                t.remove(i);
            }
            1 => {
                let i = r.below(n + 1);
                let o = odd_token(r, c);
                t.insert(i, o);
            }
            2 if n > 1 => {
                let i = r.below(n - 1);
                t.swap(i, i + 1);
            }
            3 if n > 0 => {
                let i = r.below(n);
                t[i] = odd_token(r, c);
            }
            4 if n > 0 => {
                let i = r.below(n);
                let s = t[i].clone();
                t.insert(i, s);
            }
            5 if n > 0 => {
                let i = r.below(n);
                t.truncate(i);
            }
            _ => {}
        }
    }
}

fn class(c: char) -> u8 {
    if c.is_ascii_alphanumeric() || c == '_' || c == '.' {
        1
    } else if "~`!@#$%^&*-+_:;\"'|\\?.<>/=".contains(c) {
        2
    } else {
        0
    }
}
pub fn merges(a: &str, b: &str) -> bool {
    match (a.chars().last(), b.chars().next()) {
        (Some(x), Some(y)) => (class(x) != 0 && class(x) == class(y)) || ((x == '.' || x == '_') && class(y) == 2) || ((y == '.' || y == '_') && class(x) == 2),
        _ => false,
    }
}

pub fn space(r: &mut Rng) -> String {
    let n = 1 + r.below(3);
    (0..n).map(|_| *r.pick(&[' ', ' ', ' ', ' ', '\t', '\n', '\u{a0}', '\r', '\u{2003}', '\u{3000}'])).collect()
}

pub fn join(r: &mut Rng, glue: u32, t: &[String]) -> String {
    let mut s = String::new();
    let style = r.below(4);
    for (i, x) in t.iter().enumerate() {
        if i > 0 {
            if merges(&t[i - 1], x) && !r.p(glue / 10) {
                s.push_str(&if r.p(80) { " ".to_string() } else { space(r) });
            } else {
                match style {
                    0 => {}
                    1 => s.push(' '),
                    _ => {
                        if r.p(40) {
                            s.push_str(&space(r))
                        }
                    }
                }
            }
        } else if r.p(5) {
            s.push_str(&space(r));
        }
        s.push_str(x);
    }
    if r.p(5) {
        s.push_str(&space(r));
    }
    s
}

/// Groups and calls in one another, with something before and after each.
pub fn nest(r: &mut Rng, p: &Profile, c: &CtxDef, levels: usize) -> Vec<String> {
    let mut t = vec![];
    let small = Profile { maxlen: 2, mutate: 0, ..p.clone() };
    expr(r, &small, c, 0, &mut t);
    for _ in 0..levels {
        let mut o = vec![];
        let call = r.p(60) && !c.funcs.is_empty();
        if r.p(40) {
            expr(r, &small, c, 0, &mut o);
            if !r.p(p.juxta) {
                let b = r.pick(&c.bins);
                o.push(spell(r, p, &b.name, &b.aliases));
            }
        }
        if call {
            let f = r.pick(&c.funcs);
            o.push(spell(r, p, &f.name, &f.aliases));
        }
        let (a, b) = if call && !c.custom { ("(", ")") } else { brackets(r) };
        o.push(a.into());
        for _ in 0..if call { r.below(3) } else { 0 } {
            expr(r, &small, c, 0, &mut o);
            o.push(",".into());
        }
        o.append(&mut t);
        for _ in 0..if call { r.below(3) } else { 0 } {
            o.push(",".into());
            expr(r, &small, c, 0, &mut o);
        }
        o.push(b.into());
        if r.p(30) {
            if !r.p(p.juxta) {
                let b = r.pick(&c.bins);
                o.push(spell(r, p, &b.name, &b.aliases));
            }
            expr(r, &small, c, 0, &mut o);
        }
        t = o;
    }
    t
}

/// Large texts: many operands in a row, deep groups, calls of many arguments, long runs of operators
/// before or after an operand, long lexemes. `most` bounds the operators in a row.
pub fn big_text(r: &mut Rng, p: &Profile, c: &CtxDef, most: usize) -> String {
    let small = Profile { maxlen: 2, unary: 2, nary: 2, recase: 2, juxta: 0, ..p.clone() };
    let mut t = vec![];
    let atom = |r: &mut Rng, t: &mut Vec<String>| {
        if r.p(70) {
            t.push(r.below(1000).to_string());
        } else {
            operand(r, &small, c, 0, t);
        }
    };
    let prefixes: Vec<String> = c.unas.iter().filter(|u| u.prefix).map(|u| u.name.clone()).collect();
    let postfixes: Vec<String> = c.unas.iter().filter(|u| !u.prefix).map(|u| u.name.clone()).collect();
    let one = r.pick(&c.bins).name.clone();
    let same = r.p(30);
    match r.below(9) {
        // operands in a row, the same operator or many
        0 | 1 => {
            let n = most / 8 + r.below(most);
            for i in 0..n {
                if i > 0 {
                    t.push(if same { one.clone() } else { r.pick(&c.bins).name.clone() });
                }
                atom(r, &mut t);
            }
        }
        // groups and calls in one another
        2 => {
            let n = 30 + r.below(most / 3);
            t = nest(r, &small, c, n);
        }
        // only brackets, something on one side of each
        3 => {
            let n = 60 + r.below(most / 2);
            let (left, right) = (r.p(50), r.p(50));
            let mut close = vec![];
            for _ in 0..n {
                if left {
                    atom(r, &mut t);
                    t.push(if same { one.clone() } else { r.pick(&c.bins).name.clone() });
                }
                if r.p(10) && !prefixes.is_empty() {
                    t.push(r.pick(&prefixes).clone());
                }
                if r.p(30) && !c.funcs.is_empty() {
                    t.push(r.pick(&c.funcs).name.clone());
                    t.push("(".into());
                    close.push(")");
                } else {
                    let (a, b) = brackets(r);
                    t.push(a.into());
                    close.push(b);
                }
            }
            atom(r, &mut t);
            for b in close.iter().rev() {
                t.push(b.to_string());
                if right {
                    t.push(if same { one.clone() } else { r.pick(&c.bins).name.clone() });
                    atom(r, &mut t);
                }
            }
        }
        // many arguments
        4 | 5 if !c.funcs.is_empty() => {
            let n = 60 + r.below(600);
            if r.p(30) {
                atom(r, &mut t);
                t.push(one.clone());
            }
            let around = r.p(20);
            if around {
                t.push(r.pick(&c.funcs).name.clone());
                t.push("(".into());
            }
            t.push(r.pick(&c.funcs).name.clone());
            t.push("(".into());
            for i in 0..n {
                if i > 0 {
                    t.push(",".into());
                }
                if r.p(90) {
                    atom(r, &mut t);
                } else {
                    expr(r, &small, c, 1, &mut t);
                }
            }
            t.push(")".into());
            if around {
                t.push(",".into());
                atom(r, &mut t);
                t.push(")".into());
            }
        }
        // operators before or after an operand
        6 if !prefixes.is_empty() || !postfixes.is_empty() => {
            let (n, m) = (most / 10 + r.below(most / 2), most / 10 + r.below(most / 2));
            for _ in 0..if prefixes.is_empty() || r.p(30) { 0 } else { n } {
                t.push(r.pick(&prefixes).clone());
            }
            atom(r, &mut t);
            for _ in 0..if postfixes.is_empty() || r.p(30) { 0 } else { m } {
                t.push(r.pick(&postfixes).clone());
            }
            t.push(one.clone());
            atom(r, &mut t);
        }
        // groups and calls in a row
        7 => {
            let n = most / 10 + r.below(most / 4);
            let row = c.implicit && r.p(40);
            for i in 0..n {
                if i > 0 && !row {
                    t.push(if same { one.clone() } else { r.pick(&c.bins).name.clone() });
                }
                if r.p(50) && !c.funcs.is_empty() {
                    t.push(r.pick(&c.funcs).name.clone());
                    t.push("(".into());
                    for j in 0..r.below(3) {
                        if j > 0 {
                            t.push(",".into());
                        }
                        atom(r, &mut t);
                    }
                    t.push(")".into());
                } else {
                    let (a, b) = brackets(r);
                    t.push(a.into());
                    atom(r, &mut t);
                    t.push(b.into());
                }
            }
        }
        // long lexemes
        _ => {
            for i in 0..3 {
                if i > 0 {
                    t.push(one.clone());
                }
                let n = 30 + r.below(400);
                if r.p(80) {
                    let mut s: String = (0..n).map(|_| (b'0' + r.below(10) as u8) as char).collect();
                    if r.p(50) {
                        s.insert(r.below(n) + 1, '.');
                    }
                    t.push(s);
                } else if r.p(20) {
                    t.push((0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect());
                } else {
                    operand(r, &small, c, 0, &mut t);
                }
            }
        }
    }
    if r.p(15) {
        mutate(r, c, &mut t);
    }
    join(r, 0, &t)
}

pub fn gen_text(r: &mut Rng, p: &Profile, c: &CtxDef) -> String {
    let mut t = vec![];
    if r.p(12) {
        let n = 2 + if r.p(15) { r.below(20) } else { r.below(5) };
        t = nest(r, p, c, n);
    } else {
        let d = r.below(p.depth + 1);
        expr(r, p, c, d, &mut t);
    }
    if r.p(p.odd) {
        let i = r.below(t.len() + 1);
        let o = odd_token(r, c);
        t.insert(i, o);
    }
    if r.p(p.mutate) {
        mutate(r, c, &mut t);
    }
    join(r, p.glue, &t)
}
