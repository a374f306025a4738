//! The case-insensitive keys: equality, order, hash, and tables of them.
use crate::sym::{chars, unchars};
use prexel::utils::ignore_case_str::{eq_ignore_case, IgnoreCaseStr};
use prexel::utils::ignore_case_string::IgnoreCaseString;
use serde_json::{json, Value};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use std::io::{BufRead, Write};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn run(w: &mut impl Write) {
    for l in std::io::BufReader::new(std::io::stdin()).lines() {
        let mut c: Value = serde_json::from_str(&l.unwrap()).expect("case");
        if let Value::String(s) = c {
            c = serde_json::from_str(&s).expect("case");
        }
        if c.get("words").is_some() {
            let ws: Vec<String> = c["words"].as_array().unwrap().iter().map(unchars).collect();
            let ss: Vec<IgnoreCaseString> = ws.iter().map(|s| IgnoreCaseString::from(s.as_str())).collect();
            let rs: Vec<IgnoreCaseStr> = ws.iter().map(|s| IgnoreCaseStr::new(s)).collect();
            let n = ws.len();
            let eq = |f: &dyn Fn(usize, usize) -> bool| -> Value { (0..n).map(|i| json!((0..n).filter(|j| f(i, *j)).map(|j| j + 1).collect::<Vec<_>>())).collect() };
            let cmp = |f: &dyn Fn(usize, usize) -> i32| -> Value { (0..n).map(|i| json!((0..n).map(|j| f(i, j)).collect::<Vec<_>>())).collect() };
            c["eq"] = json!([eq(&|i, j| ss[i] == ss[j]), eq(&|i, j| rs[i] == rs[j]), eq(&|i, j| eq_ignore_case(&ws[i], &ws[j])), eq(&|i, j| !(ss[i] != ss[j]))]);
            c["cmp"] = json!([cmp(&|i, j| ss[i].cmp(&ss[j]) as i32), cmp(&|i, j| rs[i].cmp(&rs[j]) as i32), cmp(&|i, j| ss[i].partial_cmp(&ss[j]).unwrap() as i32)]);
            c["hash"] = json!([eq(&|i, j| hash(&ss[i]) == hash(&ss[j])), eq(&|i, j| hash(&rs[i]) == hash(&rs[j]))]);
        } else if let Some(t) = c.get("table") {
            let mut h: HashMap<IgnoreCaseString, i64> = HashMap::new();
            let mut b: BTreeMap<IgnoreCaseString, i64> = BTreeMap::new();
            let ws: Vec<String> = t.as_array().unwrap().iter().map(|o| unchars(&o["w"])).collect();
            let mut h2: HashMap<IgnoreCaseStr, i64> = HashMap::new();
            let mut b2: BTreeMap<IgnoreCaseStr, i64> = BTreeMap::new();
            let mut r = vec![];
            let l = |x: Option<i64>| x.map(|v| vec![v]).unwrap_or_default();
            for (o, w) in t.as_array().unwrap().iter().zip(&ws) {
                let k = IgnoreCaseString::new(w.clone());
                let k2 = IgnoreCaseStr::new(w);
                let v = o["v"].as_i64().unwrap();
                let x = match o["op"].as_str().unwrap() {
                    "insert" => (h.insert(k.clone(), v), b.insert(k, v), h2.insert(k2, v), b2.insert(IgnoreCaseStr::new(w), v)),
                    "get" => (h.get(&k).copied(), b.get(&k).copied(), h2.get(&k2).copied(), b2.get(&k2).copied()),
                    _ => (h.remove(&k), b.remove(&k), h2.remove(&k2), b2.remove(&k2)),
                };
                r.push(json!([[l(x.0), h.len()], [l(x.1), b.len()], [l(x.2), h2.len()], [l(x.3), b2.len()]]));
            }
            c["res"] = json!(r);
        } else {
            // every character: the classes of the sorted characters
            let texts: Vec<String> = (0..=0x10FFFFu32).filter_map(char::from_u32).map(|c| c.to_string()).collect();
            if c["all"] == "str" {
                classes(&texts, |s| IgnoreCaseStr::new(s), w);
            } else {
                classes(&texts, |s| IgnoreCaseString::from(s.as_str()), w);
            }
            continue;
        }
        writeln!(w, "{}", c).unwrap();
    }
}

fn classes<'a, T: Ord>(texts: &'a [String], key: impl Fn(&'a String) -> T, w: &mut impl Write) {
    let mut v: Vec<(&String, T)> = texts.iter().map(|s| (s, key(s))).collect();
    v.sort_by(|a, b| a.1.cmp(&b.1));
    let mut classes: Vec<Vec<&String>> = vec![];
    for (i, x) in v.iter().enumerate() {
        if i > 0 && v[i - 1].1 == x.1 {
            classes.last_mut().unwrap().push(x.0);
        } else {
            classes.push(vec![x.0]);
        }
    }
    let single = classes.iter().filter(|c| c.len() == 1).count();
    for c in classes.iter().filter(|c| c.len() > 1) {
        let cs: Vec<Value> = c.iter().map(|s| chars(s)[0].clone()).collect();
        writeln!(w, "{}", json!({"kind": "class", "chars": cs})).unwrap();
    }
    writeln!(w, "{}", json!({"kind": "rest", "total": v.len(), "single": single})).unwrap();
}
