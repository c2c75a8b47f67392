//! C18: JSON, TOML and card data, converted and looked up in place.
use crate::cx::*;
use crate::val::*;
use card_format::{CData, Card};
use serde_json::{json, Value as J};
use std::collections::{BTreeMap, HashMap};
use templito::expr::VarPart;
use templito::prelude::{TParam, KV};
use templito::TData;
use V::*;

fn to_json(v: &V) -> J {
    match v {
        Null => J::Null,
        Bool(b) => json!(b),
        Int(i) => json!(i),
        Uint(u) => json!(u),
        Float(f) => serde_json::Number::from_f64(*f).map(J::Number).unwrap_or(J::Null),
        Str(x) => json!(x),
        List(l) => J::Array(l.iter().map(to_json).collect()),
        Map(m) => J::Object(m.iter().map(|(k, v)| (k.clone(), to_json(v))).collect()),
        _ => J::Null,
    }
}
/// the value a document of that format holds, of a general one
fn as_json(v: &V) -> V {
    match v {
        Null | Bool(_) | Int(_) | Str(_) => v.clone(),
        Uint(u) => if *u <= i64::MAX as u64 { Int(*u as i64) } else { Uint(*u) },
        Float(f) => if f.is_finite() { Float(*f) } else { Null },
        List(l) => List(l.iter().map(as_json).collect()),
        Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), as_json(v))).collect()),
        _ => Null,
    }
}
const DATE: &str = "1979-05-27T07:32:00Z";
fn to_toml(v: &V) -> toml::Value {
    match v {
        Bool(b) => toml::Value::Boolean(*b),
        Int(i) => toml::Value::Integer(*i),
        Float(f) => toml::Value::Float(*f),
        Str(x) if x == DATE => toml::Value::Datetime(DATE.parse().unwrap()),
        Str(x) => toml::Value::String(x.clone()),
        List(l) => toml::Value::Array(l.iter().map(to_toml).collect()),
        Map(m) => toml::Value::Table(m.iter().map(|(k, v)| (k.clone(), to_toml(v))).collect()),
        _ => toml::Value::Integer(0),
    }
}
fn as_toml(v: &V) -> V {
    match v {
        Bool(_) | Int(_) | Str(_) | Float(_) => v.clone(),
        List(l) => List(l.iter().map(as_toml).collect()),
        Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), as_toml(v))).collect()),
        _ => Int(0),
    }
}
fn to_cd(v: &V) -> CData {
    match v {
        Int(i) => CData::N(*i as isize),
        Str(x) => CData::S(x.clone()),
        List(l) => CData::L(l.iter().map(to_cd).collect()),
        Map(m) => CData::M(m.iter().map(|(k, v)| (k.clone(), to_cd(v))).collect()),
        _ => CData::N(0),
    }
}
fn as_cd(v: &V) -> V {
    match v {
        Int(_) | Str(_) => v.clone(),
        List(l) => List(l.iter().map(as_cd).collect()),
        Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), as_cd(v))).collect()),
        _ => Int(0),
    }
}
fn card(v: &V, name: &str, num: u64) -> (Card, V) {
    let m = match v {
        Map(m) => m.clone(),
        _ => [("only".to_string(), v.clone())].into_iter().collect::<BTreeMap<_, _>>(),
    };
    let mut e: BTreeMap<String, V> = m.iter().map(|(k, v)| (k.clone(), as_cd(v))).collect();
    e.insert("Name".to_string(), s(name));
    e.insert("Num".to_string(), Uint(num));
    let mut c = Card::new(name.to_string(), num as usize);
    c.data = m.iter().map(|(k, v)| (k.clone(), to_cd(v))).collect();
    (c, Map(e))
}
fn look<'a>(v: &'a V, p: &[VarPart]) -> Option<&'a V> {
    match (v, p.first()) {
        (_, None) => Some(v),
        (List(l), Some(VarPart::Num(n))) => look(l.get(*n)?, &p[1..]),
        (Map(m), Some(VarPart::Id(k))) => look(m.get(k)?, &p[1..]),
        _ => None,
    }
}
fn path(j: &J) -> Vec<VarPart> {
    j.as_array().unwrap().iter().map(|p| match p.as_u64() { Some(n) => VarPart::Num(n as usize), None => VarPart::Id(p.as_str().unwrap().to_string()) }).collect()
}
fn got(name: &str, exp: Option<&V>, r: Option<TData>) -> Result<(), String> {
    let r = r.as_ref().map(V::of);
    if r.as_ref() == exp { Ok(()) } else { Err(format!("{}: expected {:?}, got {:?}", name, exp.map(|v| v.js()), r.map(|v| v.js()))) }
}

/// C29: a plain host value as a parameter
fn host(c: &J) -> Result<bool, String> {
    let p = path(&c["path"]);
    let d = V::unjs(&c["doc"]);
    let say = |name: &str, exp: Option<V>, h: &dyn TParam| got(name, exp.as_ref(), h.get_v(&p).map(|x| x.into_owned()));
    let conv = |name: &str, exp: &V, r: TData| got(name, Some(exp), Some(r));
    let first = |p: &[VarPart]| match p.first() { Some(VarPart::Id(k)) => Some(k.clone()), _ => None };
    match &d {
        Str(x) => {
            say("String", Some(d.clone()), x)?;
            say("&str", Some(d.clone()), &x.as_str())?;
            conv("from String", &d, TData::from(x.clone()))?;
            conv("from &str", &d, TData::from(x.as_str()))?;
            got("str", Some(&d), <str as TParam>::get_v(x, &p).map(|x| x.into_owned()))?;
        }
        Uint(n) => {
            say("usize", Some(d.clone()), &(*n as usize))?;
            conv("from usize", &d, TData::from(*n as usize))?;
        }
        Float(f) => say("f64", Some(d.clone()), f)?,
        Bool(b) => say("bool", Some(d.clone()), b)?,
        List(l) => {
            let ts: Vec<String> = l.iter().filter_map(|v| match v { Str(x) => Some(x.clone()), _ => None }).collect();
            let rs: Vec<&str> = ts.iter().map(|t| t.as_str()).collect();
            let whole = List(ts.iter().map(|t| Str(t.clone())).collect());
            let exp = match p.first() {
                None => Some(whole.clone()),
                Some(VarPart::Num(n)) => ts.get(*n).map(|t| Str(t.clone())),
                _ => None,
            };
            say("Vec<&str>", exp, &rs)?;
            conv("from &[&str]", &whole, TData::from(&rs[..]))?;
            conv("from &[String]", &whole, TData::from(&ts[..]))?;
        }
        Map(m) => {
            let exp = look(&d, &p).cloned();
            let h: HashMap<String, TData> = m.iter().map(|(k, v)| (k.clone(), v.to_td())).collect();
            say("map by String", exp.clone(), &h)?;
            let g: HashMap<&str, TData> = m.iter().map(|(k, v)| (k.as_str(), v.to_td())).collect();
            say("map by &str", exp.clone(), &g)?;
            let texts: BTreeMap<String, V> = m.iter().filter(|(_, v)| matches!(v, Str(_))).map(|(k, v)| (k.clone(), v.clone())).collect();
            let nums: BTreeMap<String, V> = m.iter().filter(|(_, v)| matches!(v, Uint(_))).map(|(k, v)| (k.clone(), v.clone())).collect();
            let flat = |m: &BTreeMap<String, V>| match first(&p) { None if p.is_empty() => Some(Map(m.clone())), None => None, Some(k) => m.get(&k).cloned() };
            let hs: HashMap<String, String> = texts.iter().map(|(k, v)| (k.clone(), match v { Str(x) => x.clone(), _ => String::new() })).collect();
            let hr: HashMap<&str, &str> = hs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
            let hn: HashMap<String, usize> = nums.iter().map(|(k, v)| (k.clone(), v.index().unwrap_or(0) as usize)).collect();
            say("map of String", flat(&texts), &hs)?;
            say("map of &str", flat(&texts), &hr)?;
            say("map of usize", flat(&nums), &hn)?;
            // the first parameter answers, then the second
            let both = |a: Option<V>, b: Option<V>| a.or(b);
            say("pair", both(exp.clone(), flat(&texts)), &(&h, &hs))?;
            say("pair, turned", both(flat(&nums), exp.clone()), &(&hn, &g))?;
            for (k, v) in m {
                let kv = if first(&p).as_ref() == Some(k) { Some(v.clone()) } else { None };
                say("KV", kv.clone(), &KV(k.as_str(), v.to_td()))?;
                say("KV by String", kv.clone(), &KV(k.clone(), v.to_td()))?;
                say("KV before a map", both(kv.clone(), exp.clone()), &(&KV(k.clone(), v.to_td()), &h))?;
                say("a map before KV", both(flat(&texts), kv), &(&hs, &KV(k.clone(), v.to_td())))?;
            }
        }
        _ => {}
    }
    say("the value itself", look(&d, &p).cloned(), &d.to_td())?;
    say("a borrowed value", look(&d, &p).cloned(), &std::borrow::Cow::Borrowed(&d.to_td()))?;
    Ok(!p.is_empty())
}
pub fn gen_host(cx: &mut Cx) {
    let one = |cx: &mut Cx, v: &V| {
        let mut o = vec![];
        paths(v, &mut vec![], &mut o);
        for p in o {
            let c = json!({"kind":"conv","fmt":"host","doc":v.js(),"path":p});
            cx.case(&|| c.clone(), &mut || recheck(&c));
        }
    };
    for v in pool() {
        one(cx, &v);
        one(cx, &map(&[("a", v.clone()), ("Num", s("t")), ("n", Uint(3)), ("b", List(vec![v.clone(), Int(1), map(&[("x", v.clone())])]))]));
    }
    one(cx, &map(&[(" k", Int(1)), ("k ", Int(2)), ("K", Int(3)), (" ", s("blank")), ("\n", Int(4)), ("k/x", map(&[(" y ", Int(5)), ("Y", s("t"))])), ("1", List(vec![map(&[("q ", Int(6))])]))]));
    one(cx, &List((0..40).map(|i| Str(format!("t{}", i))).collect()));
    let mut r = Rng::new(cx.seed ^ 29);
    for _ in 0..cx.scale(4000, 100000) {
        let long = r.chance(1, 12);
        let n = if long { 5 + r.below(20) } else { r.below(5) };
        let v = match r.below(4) {
            0 => rnd(&mut r, 3),
            1 => List((0..n).map(|_| Str(rnd_str(&mut r, &["a", "b", "\u{e9}", " ", "1", "\n"], 5))).collect()),
            _ => Map((0..n).map(|_| {
                let k = rnd_str(&mut r, &["a", "b", "Name", "0", " ", "x", "."], 3);
                let v = match r.below(4) { 0 => Str(rnd_str(&mut r, &["a", "b"], 3)), 1 => Uint(r.next() >> r.below(64)), _ => rnd(&mut r, 2) };
                (k, v)
            }).collect()),
        };
        one(cx, &v);
    }
}

pub fn recheck(c: &J) -> Result<bool, String> {
    if c["fmt"] == "host" {
        return host(c);
    }
    let p = path(&c["path"]);
    let at = |h: &dyn TParam| h.get_v(&p).map(|x| x.into_owned());
    if c["fmt"] == "r_card" {
        let t = c["text"].as_str().unwrap();
        // card_format itself panics on some texts: C16's finding, not this property's
        let cards = match guard(|| card_format::parse_cards(t)) {
            Ok(c) => c,
            Err(_) => return Ok(false),
        };
        let r = call("r_card", &[s(t)]);
        return match (cards, r) {
            (Err(_), R::Err) => Ok(false),
            (Ok(cs), R::Ok(List(l))) => {
                let e: Vec<V> = cs.iter().map(|c| {
                    let mut m: BTreeMap<String, V> = c.data.iter().map(|(k, v)| (k.clone(), un_cd(v))).collect();
                    m.insert("Name".to_string(), Str(c.name.clone()));
                    m.insert("Num".to_string(), Uint(c.num as u64));
                    Map(m)
                }).collect();
                if e == l { Ok(!e.is_empty()) } else { Err(format!("expected {:?}, got {:?}", e, l)) }
            }
            (a, b) => Err(format!("the cards are {:?}, r_card gave {:?}", a.map(|c| c.len()).ok(), b)),
        };
    }
    let d = V::unjs(&c["doc"]);
    let e = match c["fmt"].as_str().unwrap() {
        "json" => {
            let (h, e) = (to_json(&d), as_json(&d));
            got("converted", Some(&e), Some(TData::from_json(h.clone())))?;
            got("path", look(&e, &p), at(&h))?;
            e
        }
        "toml" => {
            let (h, e) = (to_toml(&d), as_toml(&d));
            got("converted", Some(&e), Some(TData::from_toml(h.clone())))?;
            got("path", look(&e, &p), at(&h))?;
            e
        }
        "cdata" => {
            let (h, e) = (to_cd(&d), as_cd(&d));
            got("converted", Some(&e), Some(TData::from(&h)))?;
            got("path", look(&e, &p), at(&h))?;
            e
        }
        _ => {
            let (h, e) = card(&d, "a name", 7);
            got("converted", Some(&e), Some(TData::from(&h)))?;
            got("path", look(&e, &p), at(&h))?;
            e
        }
    };
    got("path in the converted data", look(&e, &p), at(&e.to_td()))?;
    Ok(p.len() > 0)
}
fn un_cd(c: &CData) -> V {
    match c {
        CData::S(x) => Str(x.clone()),
        CData::N(n) => Int(*n as i64),
        CData::L(l) => List(l.iter().map(un_cd).collect()),
        CData::M(m) => Map(m.iter().map(|(k, v)| (k.clone(), un_cd(v))).collect()),
    }
}
/// all paths of a value, and near misses
fn paths(v: &V, at: &mut Vec<J>, o: &mut Vec<J>) {
    o.push(json!(at));
    let mut miss = |at: &mut Vec<J>, j: J| {
        at.push(j);
        o.push(json!(at));
        at.pop();
    };
    for m in ["zz", "", "0", "1", "Name", "Num", "only", "a"] {
        miss(at, json!(m));
    }
    let keys: Vec<String> = match v { Map(m) => m.keys().take(3).cloned().collect(), _ => vec!["Only".into(), "only ".into()] };
    for k in keys {
        for m in [k.clone(), format!(" {}", k), format!("{} ", k), k.trim().to_string(), k.to_uppercase(), k.to_lowercase()] {
            if match v { Map(x) => !x.contains_key(&m), _ => true } {
                miss(at, json!(m));
            }
        }
    }
    let n = match v { List(l) => l.len(), Map(m) => m.len(), _ => 0 };
    for m in [0, n as u64, n as u64 + 1, u64::MAX] {
        miss(at, json!(m));
    }
    match v {
        List(l) => for (i, x) in l.iter().enumerate() {
            at.push(json!(i));
            paths(x, at, o);
            at.pop();
        },
        Map(m) => for (k, x) in m {
            at.push(json!(k));
            paths(x, at, o);
            at.pop();
        },
        _ => {}
    }
}
fn doc(cx: &mut Cx, v: &V) {
    for f in ["json", "toml", "cdata", "card"] {
        let e = match f { "json" => as_json(v), "toml" => as_toml(v), "cdata" => as_cd(v), _ => card(v, "a name", 7).1 };
        let mut o = vec![];
        paths(&e, &mut vec![], &mut o);
        for p in o {
            let c = json!({"kind":"conv","fmt":f,"doc":v.js(),"path":p});
            cx.case(&|| c.clone(), &mut || recheck(&c));
        }
    }
}
pub fn gen(cx: &mut Cx) {
    for v in pool() {
        doc(cx, &v);
        doc(cx, &map(&[("a", v.clone()), ("Num", v.clone()), ("b", List(vec![v.clone(), Int(1), v.clone()]))]));
    }
    doc(cx, &s(DATE));
    doc(cx, &map(&[(" k", Int(1)), ("k ", Int(2)), ("K", Int(3)), (" ", s("blank")), ("\n", Int(4)), ("k/x", map(&[(" y ", Int(5)), ("Y", s("t"))])), ("1", List(vec![map(&[("q ", Int(6))])]))]));
    doc(cx, &map(&[("when", s(DATE)), ("l", List(vec![s(DATE)]))]));
    doc(cx, &map(&[("", Int(3)), ("0", Int(4)), ("a.b", Int(5)), ("\u{e9}", List(vec![map(&[("x", List(vec![List(vec![Int(9)])]))])]))]));
    let mut r = Rng::new(cx.seed ^ 18);
    for _ in 0..cx.scale(1500, 40000) {
        let n = 1 + r.below(3);
        let v = if r.chance(1, 3) { rnd(&mut r, 3) } else { Map((0..n).map(|i| (["a", "b", "Name", "0", "k x"][(i + r.below(3)) % 5].to_string(), rnd(&mut r, 2))).collect()) };
        doc(cx, &v);
    }
    let parts = ["mappy:\n", "\"q r\":\n", "4 * help:\n", "0 * z:\n", ".x:5\n", ".y:\"t\"\n", ".l:[1,two,\"3\"]\n", ".m:{a:1,b:[2,{c:x}]}\n", ".g$s:hello\n", ".Name:\"other\"\n", ".Num:99\n", ".neg:-5\n", "\n", "  ", "@const k:3\n"];
    for t in ["", "-A\n", "-A\nx:5\n", "junk", "a:\n", "2 * a:\n.x:5\nb:\n.l:[1,2,{a:3}]\n.Name:\"other\"\n"] {
        let c = json!({"kind":"conv","fmt":"r_card","text":t,"path":[]});
        cx.case(&|| c.clone(), &mut || recheck(&c));
    }
    for _ in 0..cx.scale(3000, 100000) {
        let t = rnd_str(&mut r, &parts, 8);
        let c = json!({"kind":"conv","fmt":"r_card","text":t,"path":[]});
        cx.case(&|| c.clone(), &mut || recheck(&c));
    }
}
