//! The harness's own value type, independent of the crate's TData, with the
//! JSON encoding used in replay files.
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use templito::TData;

#[derive(Clone, Debug)]
pub enum V {
    Null,
    Bool(bool),
    Int(i64),
    Uint(u64),
    Float(f64),
    Str(String),
    List(Vec<V>),
    Map(BTreeMap<String, V>),
    Date(i32, u32, u32),
    Bytes(Vec<u8>),
    /// template text; only what kind of value it is matters to the oracles
    Tmpl(String),
}
use V::*;

pub fn s(x: &str) -> V {
    Str(x.to_string())
}
pub fn map(kv: &[(&str, V)]) -> V {
    Map(kv.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())
}

impl PartialEq for V {
    /// identity of representation (floats by bits, all NaN alike)
    fn eq(&self, o: &V) -> bool {
        match (self, o) {
            (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Int(a), Int(b)) => a == b,
            (Uint(a), Uint(b)) => a == b,
            (Int(a), Uint(b)) | (Uint(b), Int(a)) => *a >= 0 && *a as u64 == *b,
            (Float(a), Float(b)) => a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()),
            (Str(a), Str(b)) => a == b,
            (List(a), List(b)) => a == b,
            (Map(a), Map(b)) => a == b,
            (Date(a, b, c), Date(d, e, f)) => (a, b, c) == (d, e, f),
            (Bytes(a), Bytes(b)) => a == b,
            (Tmpl(a), Tmpl(b)) => a == b || a == "?" || b == "?",
            _ => false,
        }
    }
}

impl V {
    /// same value and the same integer kind
    pub fn same(&self, o: &V) -> bool {
        match (self, o) {
            (Int(_), Uint(_)) | (Uint(_), Int(_)) => false,
            (List(a), List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.same(y)),
            (Map(a), Map(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|((k, x), (l, y))| k == l && x.same(y))
            }
            _ => self == o,
        }
    }
    pub fn to_td(&self) -> TData {
        match self {
            Null => TData::Null,
            Bool(b) => TData::Bool(*b),
            Int(i) => TData::Int(*i as isize),
            Uint(u) => TData::UInt(*u as usize),
            Float(f) => TData::Float(*f),
            Str(x) => TData::String(x.clone()),
            List(l) => TData::List(l.iter().map(|v| v.to_td()).collect()),
            Map(m) => TData::Map(m.iter().map(|(k, v)| (k.clone(), v.to_td())).collect()),
            Date(y, m, d) => TData::Date(chrono::NaiveDate::from_ymd_opt(*y, *m, *d).unwrap()),
            Bytes(b) => TData::Bytes(b.clone()),
            Tmpl(t) => TData::Template(t.parse().unwrap()),
        }
    }
    pub fn of(t: &TData) -> V {
        use chrono::Datelike;
        match t {
            TData::Null => Null,
            TData::Bool(b) => Bool(*b),
            TData::Int(i) => Int(*i as i64),
            TData::UInt(u) => Uint(*u as u64),
            TData::Float(f) => Float(*f),
            TData::String(x) => Str(x.clone()),
            TData::List(l) => List(l.iter().map(V::of).collect()),
            TData::Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect()),
            TData::Date(d) => Date(d.year(), d.month(), d.day()),
            TData::Bytes(b) => Bytes(b.clone()),
            TData::Template(_) => Tmpl("?".to_string()),
        }
    }
    pub fn js(&self) -> J {
        match self {
            Null => J::Null,
            Bool(b) => json!(b),
            Int(i) => json!({"i": i.to_string()}),
            Uint(u) => json!({"u": u.to_string()}),
            Float(f) => json!({"f": format!("{:e}", f), "bits": format!("{:x}", f.to_bits())}),
            Str(x) => json!({ "s": x }),
            List(l) => json!({"l": l.iter().map(|v| v.js()).collect::<Vec<_>>()}),
            Map(m) => json!({"m": m.iter().map(|(k,v)| json!([k, v.js()])).collect::<Vec<_>>()}),
            Date(y, m, d) => json!({ "d": [y, m, d] }),
            Bytes(b) => json!({ "b": b }),
            Tmpl(t) => json!({ "t": t }),
        }
    }
    pub fn unjs(j: &J) -> V {
        match j {
            J::Null => Null,
            J::Bool(b) => Bool(*b),
            J::Object(o) => {
                if let Some(x) = o.get("bits") {
                    return Float(f64::from_bits(u64::from_str_radix(x.as_str().unwrap(), 16).unwrap()));
                }
                let (k, v) = o.iter().next().unwrap();
                match k.as_str() {
                    "i" => Int(v.as_str().unwrap().parse().unwrap()),
                    "u" => Uint(v.as_str().unwrap().parse().unwrap()),
                    "s" => Str(v.as_str().unwrap().to_string()),
                    "l" => List(v.as_array().unwrap().iter().map(V::unjs).collect()),
                    "m" => Map(v.as_array().unwrap().iter().map(|e| (e[0].as_str().unwrap().to_string(), V::unjs(&e[1]))).collect()),
                    "d" => Date(v[0].as_i64().unwrap() as i32, v[1].as_u64().unwrap() as u32, v[2].as_u64().unwrap() as u32),
                    "b" => Bytes(v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()),
                    "t" => Tmpl(v.as_str().unwrap().to_string()),
                    _ => panic!("bad value"),
                }
            }
            _ => panic!("bad value"),
        }
    }
    /// the text the crate itself displays for the value (the display text is a
    /// parameter of the properties, not their subject)
    pub fn disp(&self) -> String {
        match self {
            Str(x) => x.clone(),
            _ => self.to_td().to_string(),
        }
    }
    /// does displaying this depend on the iteration order of a hash map
    pub fn ordered(&self) -> bool {
        match self {
            Map(m) => m.len() < 2 && m.values().all(|v| v.ordered()),
            List(l) => l.iter().all(|v| v.ordered()),
            _ => true,
        }
    }
    pub fn truthy(&self) -> Option<bool> {
        Some(match self {
            Bool(b) => *b,
            Int(i) => *i != 0,
            Uint(u) => *u != 0,
            Float(f) => *f != 0.0,
            Str(x) => !x.is_empty(),
            List(l) => !l.is_empty(),
            Map(m) => !m.is_empty(),
            Null => false,
            _ => return None,
        })
    }
    pub fn index(&self) -> Option<u64> {
        match self {
            Int(i) if *i >= 0 => Some(*i as u64),
            Uint(u) => Some(*u),
            _ => None,
        }
    }
    pub fn int(&self) -> Option<i128> {
        match self {
            Int(i) => Some(*i as i128),
            Uint(u) => Some(*u as i128),
            _ => None,
        }
    }
    pub fn is_num(&self) -> bool {
        matches!(self, Int(_) | Uint(_) | Float(_))
    }
    pub fn as_f(&self) -> f64 {
        match self {
            Int(i) => *i as f64,
            Uint(u) => *u as f64,
            Float(f) => *f,
            _ => f64::NAN,
        }
    }
    pub fn get(&self, k: &str) -> Option<&V> {
        match self {
            Map(m) => m.get(k),
            _ => None,
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Null => "null",
            Bool(_) => "bool",
            Int(_) => "int",
            Uint(_) => "uint",
            Float(_) => "float",
            Str(_) => "string",
            List(_) => "list",
            Map(_) => "map",
            Date(..) => "date",
            Bytes(_) => "bytes",
            Tmpl(_) => "template",
        }
    }
}

// ---------------------------------------------------------------- numbers
use std::cmp::Ordering;

/// exact comparison of an integer with a float (None for NaN)
pub fn cmp_if(i: i128, f: f64) -> Option<Ordering> {
    if f.is_nan() {
        return None;
    }
    // every i64/u64 lies strictly within +-2^65
    if f >= 36893488147419103232.0 {
        return Some(Ordering::Less);
    }
    if f <= -36893488147419103232.0 {
        return Some(Ordering::Greater);
    }
    let fl = f.floor();
    match i.cmp(&(fl as i128)) {
        Ordering::Equal if f > fl => Some(Ordering::Less),
        o => Some(o),
    }
}

/// the order of two values of one class; Err if they are of different classes
pub fn class_cmp(a: &V, b: &V) -> Result<Option<Ordering>, ()> {
    if a.is_num() && b.is_num() {
        return Ok(match (a.int(), b.int()) {
            (Some(x), Some(y)) => Some(x.cmp(&y)),
            (Some(x), None) => cmp_if(x, b.as_f()),
            (None, Some(y)) => cmp_if(y, a.as_f()).map(|o| o.reverse()),
            (None, None) => a.as_f().partial_cmp(&b.as_f()),
        });
    }
    match (a, b) {
        (Str(x), Str(y)) => Ok(Some(x.chars().cmp(y.chars()))),
        (Date(..), Date(..)) => {
            let k = |v: &V| match v {
                Date(y, m, d) => (*y, *m, *d),
                _ => (0, 0, 0),
            };
            Ok(Some(k(a).cmp(&k(b))))
        }
        _ => Err(()),
    }
}

/// value equality as the properties use it: numbers by value, the rest by structure
pub fn veq(a: &V, b: &V) -> bool {
    if let Ok(o) = class_cmp(a, b) {
        return o == Some(Ordering::Equal);
    }
    match (a, b) {
        (Null, Null) => true,
        (Bool(x), Bool(y)) => x == y,
        (Bytes(x), Bytes(y)) => x == y,
        (Tmpl(x), Tmpl(y)) => x == y,
        (List(x), List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| veq(p, q)),
        (Map(x), Map(y)) => x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).map_or(false, |q| veq(p, q))),
        _ => false,
    }
}

// ---------------------------------------------------------------- random
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        let n = self.below(l.len());
        &l[n]
    }
}

pub fn ints() -> Vec<V> {
    let mut r = vec![];
    for i in [0i64, 1, 2, 3, 5, 7, 10, -1, -2, -3, -7, -10, i64::MAX, i64::MAX - 1, i64::MIN, i64::MIN + 1, 1 << 53, (1 << 53) + 1, (1 << 62), -(1 << 62), 3037000500, -3037000500] {
        r.push(Int(i));
    }
    for u in [0u64, 1, 2, 3, 5, 7, 10, u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 + 2, (1 << 53), (1 << 53) + 1, 4294967296, 6074001000] {
        r.push(Uint(u));
    }
    r
}
pub fn floats() -> Vec<V> {
    [0.0, -0.0, 1.0, -1.0, 1.5, -2.5, 2.0, 3.0, 0.1, 9007199254740992.0, 9007199254740994.0, 9223372036854775807.0, 18446744073709551616.0, -9223372036854775808.0, 1e300, -1e300, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN]
        .iter()
        .map(|f| Float(*f))
        .collect()
}
pub fn strs() -> Vec<V> {
    ["", "a", "b", "ab", "aa", "B", "\u{e9}", "z\u{301}", "\u{1F600}", "0", "10", "9", " ", "a\nb", "_", "\u{ffff}", "\u{10000}"].iter().map(|x| s(x)).collect()
}
pub fn others() -> Vec<V> {
    vec![
        Null,
        Bool(true),
        Bool(false),
        List(vec![]),
        List(vec![Int(1)]),
        List(vec![Uint(1), s("a")]),
        map(&[]),
        map(&[("a", Int(1))]),
        map(&[("a", Float(1.0))]),
        Date(2000, 1, 2),
        Date(2000, 2, 1),
        Date(1999, 12, 31),
        Date(-5, 3, 1),
        Bytes(vec![]),
        Bytes(vec![1, 2]),
        Tmpl("x".to_string()),
        Tmpl("y{{$0}}".to_string()),
    ]
}
pub fn pool() -> Vec<V> {
    let mut r = ints();
    r.extend(floats());
    r.extend(strs());
    r.extend(others());
    r
}

pub fn rnd_str(r: &mut Rng, alpha: &[&str], n: usize) -> String {
    let k = r.below(n + 1);
    (0..k).map(|_| *r.pick(alpha)).collect()
}

/// a random value; `d` bounds the nesting
pub fn rnd(r: &mut Rng, d: usize) -> V {
    match r.below(if d == 0 { 10 } else { 13 }) {
        0 | 1 => r.pick(&ints()).clone(),
        2 => Int(r.next() as i64 >> r.below(63)),
        3 => Uint(r.next() >> r.below(63)),
        4 => r.pick(&floats()).clone(),
        5 => Float(f64::from_bits(r.next())),
        6 => r.pick(&strs()).clone(),
        7 => Str(rnd_str(r, &["a", "b", "c", "\u{e9}", " ", "<", "&", "1", "/", "."], 6)),
        8 => r.pick(&others()).clone(),
        9 => Int(r.below(5) as i64 - 2),
        10 | 11 => {
            let n = r.below(4);
            List((0..n).map(|_| rnd(r, d - 1)).collect())
        }
        _ => {
            let n = r.below(4);
            Map((0..n).map(|_| (r.pick(&["a", "b", "c", "k"]).to_string(), rnd(r, d - 1))).collect())
        }
    }
}
