//! Whole templates: generated with their syntax tree, printed as text, rendered by
//! the real crate, and compared with a reference evaluator working on the tree.
use crate::cx::*;
use crate::val::{veq, Rng, V};
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::BTreeMap;
use templito::func_man::{BasicFuncs, FuncAdder};
use templito::temp_man::{BasicTemps, TempManager};
use templito::tparam::TCow;
use templito::{TData, TParam, TreeTemplate};
use V::*;

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    N(usize),
    I(String),
}
#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Lit(V),
    Var(Vec<P>),
    Cmd(String, Vec<E>),
    List(Vec<E>),
    Map(Vec<(String, E)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Pt {
    Any,
    Val(V),
    List(Vec<Pt>),
    Map(Vec<(String, Pt)>),
    Cap(String, Option<Box<Pt>>),
    Fil(E),
}
pub type Blk = Vec<I>;
#[derive(Clone, Debug, PartialEq)]
pub enum I {
    Text(String),
    Comment(String),
    Exp(E),
    Cmd(String, Vec<E>, Blk),
    If(E, Blk, Option<Blk>, bool),
    For(String, String, E, Blk),
    Def(String, Vec<String>, Blk),
    Glob(String, Vec<String>, Blk),
    Let(Vec<(String, E)>),
    Exp_(Vec<(String, E)>),
    AtLet(String, Blk),
    AtExp(String, Blk),
    Ret(E),
    Switch(E, Vec<(Vec<Pt>, Blk)>),
    As(E, Pt, Blk),
}

// ------------------------------------------------------------------ printing
fn p_lit(v: &V, o: &mut String) {
    match v {
        Null => o.push_str("null"),
        Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        Int(i) => o.push_str(&i.to_string()),
        Uint(u) => o.push_str(&u.to_string()),
        Float(f) => o.push_str(&format!("{:?}", f)),
        Str(s) => {
            o.push('"');
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c => o.push(c),
                }
            }
            o.push('"');
        }
        Date(y, m, d) => o.push_str(&format!("{}/{}/{}", d, m, y)),
        _ => panic!("no literal for {:?}", v),
    }
}
fn p_exp(e: &E, o: &mut String) {
    match e {
        E::Lit(v) => p_lit(v, o),
        E::Var(p) if *p == [P::I("@".to_string())] => o.push('@'),
        E::Var(p) => {
            o.push('$');
            for (n, x) in p.iter().enumerate() {
                if n > 0 {
                    o.push('.');
                }
                match x {
                    P::N(n) => o.push_str(&n.to_string()),
                    P::I(s) => o.push_str(s),
                }
            }
        }
        E::Cmd(..) => {
            o.push('(');
            p_top(e, o);
            o.push(')');
        }
        E::List(l) => {
            o.push('[');
            for (n, x) in l.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ");
                }
                p_exp(x, o);
            }
            o.push(']');
        }
        E::Map(m) => {
            o.push('{');
            for (n, (k, x)) in m.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ");
                }
                o.push_str(k);
                o.push(':');
                p_exp(x, o);
            }
            o.push('}');
        }
    }
}
fn p_top(e: &E, o: &mut String) {
    match e {
        E::Cmd(c, a) => {
            o.push_str(c);
            for x in a {
                o.push(' ');
                p_exp(x, o);
            }
        }
        _ => p_exp(e, o),
    }
}
fn p_pat(p: &Pt, o: &mut String) {
    match p {
        Pt::Any => o.push('_'),
        Pt::Val(v) => p_lit(v, o),
        Pt::List(l) => {
            o.push('[');
            for (n, x) in l.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ");
                }
                p_pat(x, o);
            }
            o.push(']');
        }
        Pt::Map(l) => {
            o.push('{');
            for (n, (k, x)) in l.iter().enumerate() {
                if n > 0 {
                    o.push_str(", ");
                }
                o.push_str(k);
                if *x != Pt::Cap(k.clone(), None) {
                    o.push(':');
                    p_pat(x, o);
                }
            }
            o.push('}');
        }
        Pt::Cap(k, x) => {
            o.push('<');
            o.push_str(k);
            if let Some(x) = x {
                o.push(':');
                p_pat(x, o);
            }
            o.push('>');
        }
        Pt::Fil(e) => {
            o.push_str("?(");
            p_top(e, o);
            o.push(')');
        }
    }
}
fn p_sets(w: &str, l: &[(String, E)], o: &mut String) {
    o.push_str("{{");
    o.push_str(w);
    for (n, (k, e)) in l.iter().enumerate() {
        o.push_str(if n == 0 { " " } else { "; " });
        o.push_str(k);
        o.push_str(" = ");
        p_exp(e, o);
    }
    o.push_str("}}");
}
fn p_if(c: &E, y: &Blk, n: &Option<Blk>, o: &mut String) {
    o.push(' ');
    p_exp(c, o);
    o.push_str("}}");
    p_blk(y, o);
    match n {
        None => {}
        Some(b) => {
            // an else branch that is one if is an elif, when marked so
            if let [I::If(c, y, n, true)] = &b[..] {
                o.push_str("{{elif");
                p_if(c, y, n, o);
            } else {
                o.push_str("{{else}}");
                p_blk(b, o);
            }
        }
    }
}
pub fn p_blk(b: &[I], o: &mut String) {
    for i in b {
        match i {
            I::Text(t) => o.push_str(t),
            I::Comment(t) => o.push_str(&format!("{{{{#{}#}}}}", t)),
            I::Exp(e) => {
                o.push_str("{{ ");
                p_top(e, o);
                o.push_str("}}");
            }
            I::Cmd(c, a, b) => {
                o.push_str("{{@");
                o.push_str(c);
                for x in a {
                    o.push(' ');
                    p_exp(x, o);
                }
                o.push_str("}}");
                p_blk(b, o);
                o.push_str(&format!("{{{{/{}}}}}", c));
            }
            I::If(c, y, n, _) => {
                o.push_str("{{if");
                p_if(c, y, n, o);
                o.push_str("{{/if}}");
            }
            I::For(k, v, e, b) => {
                o.push_str(&format!("{{{{for {} {} in ", k, v));
                p_exp(e, o);
                o.push_str("}}");
                p_blk(b, o);
                o.push_str("{{/for}}");
            }
            I::Def(n, p, b) | I::Glob(n, p, b) => {
                let w = if matches!(i, I::Def(..)) { "define" } else { "global" };
                o.push_str(&format!("{{{{{} {}", w, n));
                for x in p {
                    o.push(' ');
                    o.push_str(x);
                }
                o.push_str("}}");
                p_blk(b, o);
                o.push_str(&format!("{{{{/{}}}}}", w));
            }
            I::Let(l) => p_sets("let", l, o),
            I::Exp_(l) => p_sets("export", l, o),
            I::AtLet(n, b) => {
                o.push_str(&format!("{{{{@let {}}}}}", n));
                p_blk(b, o);
                o.push_str("{{/let}}");
            }
            I::AtExp(n, b) => {
                o.push_str(&format!("{{{{@export {}}}}}", n));
                p_blk(b, o);
                o.push_str("{{/export}}");
            }
            I::Ret(e) => {
                o.push_str("{{return ");
                p_exp(e, o);
                o.push_str("}}");
            }
            I::Switch(e, cs) => {
                o.push_str("{{switch ");
                p_exp(e, o);
                o.push_str("}}");
                for (ps, b) in cs {
                    o.push_str("{{case");
                    for p in ps {
                        o.push(' ');
                        p_pat(p, o);
                    }
                    o.push_str("}}");
                    p_blk(b, o);
                }
                o.push_str("{{/switch}}");
            }
            I::As(e, p, b) => {
                o.push_str("{{as ");
                p_exp(e, o);
                o.push_str(" : ");
                p_pat(p, o);
                o.push_str("}}");
                p_blk(b, o);
                o.push_str("{{/as}}");
            }
        }
    }
}

// ------------------------------------------------------------------ host functions, both sides
thread_local! {
    static LOG: RefCell<Vec<String>> = RefCell::new(vec![]);
}
/// what a host function gives on values; its name and arguments are logged
fn host(name: &str, a: &[V]) -> Result<V, ()> {
    match name {
        "log" => Ok(Str(a.iter().map(show1).collect::<Vec<_>>().join(","))),
        "idf" => a.get(0).cloned().ok_or(()),
        "lst" => Ok(List(a.to_vec())),
        "bad" => Err(()),
        "tr" => Ok(Bool(true)),
        "fa" => Ok(Bool(false)),
        "nul" => Ok(Null),
        "cnt" => Ok(Uint(a.len() as u64)),
        "is1" => Ok(Bool(a.len() == 1 && veq(&a[0], &Uint(1)))),
        "islist" => Ok(Bool(matches!(a.get(0), Some(List(_))))),
        "dup" => Ok(Str("second".into())),
        _ => Err(()),
    }
}
const HOST: [&str; 11] = ["log", "idf", "lst", "bad", "tr", "fa", "nul", "cnt", "is1", "islist", "dup"];
fn show1(v: &V) -> String {
    match v {
        Tmpl(_) => "T".to_string(),
        Map(m) => format!("m{}", m.len()),
        List(l) => format!("[{}]", l.iter().map(show1).collect::<Vec<_>>().join(" ")),
        v => v.disp(),
    }
}
fn log_line(n: &str, a: &[V]) -> String {
    format!("{}({})", n, a.iter().map(|v| anon(v).js().to_string()).collect::<Vec<_>>().join(","))
}
fn anon(v: &V) -> V {
    match v {
        Tmpl(_) => Tmpl("?".into()),
        List(l) => List(l.iter().map(anon).collect()),
        Map(m) => Map(m.iter().map(|(k, v)| (k.clone(), anon(v))).collect()),
        v => v.clone(),
    }
}
fn call_host<'a>(n: &'static str, a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    let vs: Vec<V> = a.iter().map(|x| V::of(x)).collect();
    LOG.with(|l| l.borrow_mut().push(log_line(n, &vs)));
    match n {
        // the value itself, so that templates pass through
        "idf" if a.len() > 0 => return Ok(a[0].clone()),
        "lst" => return Ok(TCow::Owned(TData::List(a.iter().map(|x| x.clone().into_owned()).collect()))),
        _ => {}
    }
    match host(n, &vs) {
        Ok(v) => Ok(TCow::Owned(v.to_td())),
        Err(()) => Err(anyhow::anyhow!("host error")),
    }
}
fn dup_fn<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    call_host("dup", a)
}
fn is1_fn<'a>(a: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
    call_host("is1", a)
}
pub fn host_man() -> BasicFuncs {
    fn first<'a>(_: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
        Ok(TCow::Owned(TData::String("first".into())))
    }
    let mut fm = BasicFuncs::new().with_fn("dup", first, "").with_fn("cnt", first, "");
    for (i, n) in HOST.iter().enumerate() {
        let n: &'static str = n;
        match n {
            "dup" => fm.add_fn("dup", dup_fn, ""),
            "is1" => fm = fm.with_fn("is1".to_string(), is1_fn, ""),
            _ if i % 2 == 0 => fm.add_func(n, Box::new(move |a| call_host(n, a)), ""),
            _ => fm = fm.with_func(n, Box::new(move |a| call_host(n, a)), ""),
        }
    }
    fm
}

// ------------------------------------------------------------------ the reference evaluator
#[derive(Clone, Debug, PartialEq)]
pub struct T {
    pub pn: Vec<String>,
    pub b: Blk,
}
/// why an evaluation has no value
#[derive(Clone, Copy, PartialEq, Debug)]
enum X {
    Err,
    /// the reference has no opinion (fuel, display of unordered maps)
    Out,
}
struct Sc {
    params: Vec<V>,
    pn: Vec<String>,
    maps: Vec<BTreeMap<String, V>>,
}
struct Ev {
    tm: Option<BTreeMap<String, T>>,
    arena: Vec<T>,
    log: Vec<String>,
    fuel: usize,
    choices: Vec<(usize, usize)>,
    pos: usize,
}
type Rs<A> = Result<A, X>;
fn look(v: &V, p: &[P]) -> Option<V> {
    match (p.first(), v) {
        (None, v) => Some(v.clone()),
        (Some(P::N(n)), List(l)) => look(l.get(*n)?, &p[1..]),
        (Some(P::I(k)), Map(m)) => look(m.get(k)?, &p[1..]),
        _ => None,
    }
}
fn has_t(v: &V) -> bool {
    match v {
        Tmpl(_) => true,
        List(l) => l.iter().any(has_t),
        Map(m) => m.values().any(has_t),
        _ => false,
    }
}
impl Sc {
    fn get(&self, p: &[P]) -> Option<V> {
        match p.first()? {
            P::N(n) => look(self.params.get(*n)?, &p[1..]),
            P::I(k) => {
                for m in self.maps.iter().rev() {
                    if let Some(v) = m.get(k) {
                        return look(v, &p[1..]);
                    }
                }
                let i = self.pn.iter().position(|x| x == k)?;
                look(self.params.get(i)?, &p[1..])
            }
        }
    }
    fn set(&mut self, k: &str, v: V) {
        self.maps.last_mut().unwrap().insert(k.to_string(), v);
    }
    fn root(&mut self, k: &str, v: V) {
        self.maps[0].insert(k.to_string(), v);
    }
}
impl Ev {
    fn tick(&mut self) -> Rs<()> {
        if self.fuel == 0 {
            return Err(X::Out);
        }
        self.fuel -= 1;
        Ok(())
    }
    fn choose(&mut self, n: usize) -> usize {
        if n < 2 {
            return 0;
        }
        if self.pos == self.choices.len() {
            self.choices.push((0, n));
        }
        self.pos += 1;
        self.choices[self.pos - 1].0
    }
    fn disp(&self, v: &V) -> Rs<String> {
        if !v.ordered() || (matches!(v, Map(_) | List(_)) && has_t(v)) {
            return Err(X::Out);
        }
        Ok(match v {
            Tmpl(_) => "TEMPLATE".to_string(),
            v => v.disp(),
        })
    }
    fn values(&mut self, c: &str, a: Vec<V>) -> Rs<V> {
        if HOST.contains(&c) {
            self.log.push(log_line(c, &a));
            return host(c, &a).map_err(|_| X::Err);
        }
        let t = match &self.tm {
            Some(m) => m.get(c).cloned().ok_or(X::Err)?,
            None => return Err(X::Err),
        };
        self.call(&t, a)
    }
    fn call(&mut self, t: &T, a: Vec<V>) -> Rs<V> {
        let (s, mut m) = self.body(t, a)?;
        Ok(m.remove("return").unwrap_or(Str(s)))
    }
    fn body(&mut self, t: &T, a: Vec<V>) -> Rs<(String, BTreeMap<String, V>)> {
        let mut sc = Sc { params: a, pn: t.pn.clone(), maps: vec![BTreeMap::new()] };
        let mut o = String::new();
        for i in &t.b {
            o.push_str(&self.item(i, &mut sc)?);
        }
        Ok((o, sc.maps.swap_remove(0)))
    }
    fn exp(&mut self, e: &E, sc: &Sc) -> Rs<V> {
        self.tick()?;
        match e {
            E::Lit(v) => Ok(v.clone()),
            E::Var(p) => sc.get(p).ok_or(X::Err),
            E::List(l) => {
                let mut r = vec![];
                for x in l {
                    r.push(self.exp(x, sc)?);
                }
                Ok(List(r))
            }
            E::Map(m) => {
                let mut r = BTreeMap::new();
                for (k, x) in m {
                    r.insert(k.clone(), self.exp(x, sc)?);
                }
                Ok(Map(r))
            }
            E::Cmd(c, a) if c == "first" => {
                for x in a {
                    match self.exp(x, sc) {
                        Err(X::Out) => return Err(X::Out),
                        Err(X::Err) | Ok(Null) => {}
                        Ok(v) => return Ok(v),
                    }
                }
                Ok(Null)
            }
            E::Cmd(c, a) if c == "select" => {
                if a.len() < 3 {
                    return Err(X::Err);
                }
                let t = self.exp(&a[0], sc)?;
                let n = match t.index() {
                    Some(n) => (n as u128) + 1,
                    None => match t.truthy() {
                        Some(true) => 1,
                        Some(false) => 2,
                        None => return Err(X::Err),
                    },
                };
                if n >= a.len() as u128 {
                    return Err(X::Err);
                }
                self.exp(&a[n as usize], sc)
            }
            E::Cmd(c, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.exp(x, sc)?);
                }
                if c == "run" {
                    if let Some(Tmpl(t)) = v.first() {
                        let n: usize = t[1..].parse().unwrap();
                        let t = self.arena[n].clone();
                        return self.call(&t, v[1..].to_vec());
                    }
                }
                self.values(c, v)
            }
        }
    }
    fn block(&mut self, b: &Blk, sc: &mut Sc) -> Rs<String> {
        sc.maps.push(BTreeMap::new());
        let mut o = String::new();
        let mut r = Ok(());
        for i in b {
            match self.item(i, sc) {
                Ok(s) => o.push_str(&s),
                Err(e) => {
                    r = Err(e);
                    break;
                }
            }
        }
        sc.maps.pop();
        r.map(|_| o)
    }
    fn store(&mut self, t: T) -> V {
        let n = self.arena.iter().position(|x| *x == t).unwrap_or_else(|| {
            self.arena.push(t);
            self.arena.len() - 1
        });
        Tmpl(format!("#{}", n))
    }
    fn item(&mut self, i: &I, sc: &mut Sc) -> Rs<String> {
        self.tick()?;
        match i {
            I::Text(t) => return Ok(t.clone()),
            I::Comment(_) => {}
            I::Exp(e) => {
                let v = self.exp(e, sc)?;
                return self.disp(&v);
            }
            I::Let(l) => {
                for (k, e) in l {
                    let v = self.exp(e, sc)?;
                    sc.set(k, v);
                }
            }
            I::Exp_(l) => {
                for (k, e) in l {
                    let v = self.exp(e, sc)?;
                    sc.root(k, v);
                }
            }
            I::Ret(e) => {
                let v = self.exp(e, sc)?;
                sc.root("return", v);
            }
            I::AtLet(k, b) => {
                let s = self.block(b, sc)?;
                sc.set(k, Str(s));
            }
            I::AtExp(k, b) => {
                let s = self.block(b, sc)?;
                sc.root(k, Str(s));
            }
            I::Def(n, p, b) => {
                let t = self.store(T { pn: p.clone(), b: b.clone() });
                sc.set(n, t);
            }
            I::Glob(n, p, b) => {
                if let Some(m) = &mut self.tm {
                    m.insert(n.clone(), T { pn: p.clone(), b: b.clone() });
                }
            }
            I::Cmd(c, a, b) => {
                let s = self.block(b, sc)?;
                let v = if a.is_empty() {
                    self.values(c, vec![Str(s)])?
                } else {
                    sc.set("@", Str(s));
                    let mut v = vec![];
                    for x in a {
                        v.push(self.exp(x, sc)?);
                    }
                    self.values(c, v)?
                };
                return self.disp(&v);
            }
            I::If(c, y, n, _) => {
                let t = match self.exp(c, sc) {
                    Err(X::Out) => return Err(X::Out),
                    Err(X::Err) => false,
                    Ok(v) => v.truthy() == Some(true),
                };
                return match (t, n) {
                    (true, _) => self.block(y, sc),
                    (false, Some(n)) => self.block(n, sc),
                    _ => Ok(String::new()),
                };
            }
            I::For(k, v, e, b) => {
                let d = self.exp(e, sc)?;
                let kv: Vec<(V, V)> = match &d {
                    List(l) => l.iter().enumerate().map(|(n, x)| (Uint(n as u64), x.clone())).collect(),
                    Uint(n) if *n < 50 => (0..*n).map(|n| (Uint(n), Uint(n))).collect(),
                    Int(n) if *n < 50 => (0..*n).map(|n| (Uint(n as u64), Int(n))).collect(),
                    Uint(_) | Int(_) => return Err(X::Out),
                    Map(m) => {
                        let mut es: Vec<(V, V)> = m.iter().map(|(k, v)| (Str(k.clone()), v.clone())).collect();
                        let mut o = vec![];
                        while !es.is_empty() {
                            let n = self.choose(es.len());
                            o.push(es.remove(n));
                        }
                        o
                    }
                    _ => return Err(X::Err),
                };
                let mut o = String::new();
                for (a, c) in kv {
                    sc.set(k, a);
                    sc.set(v, c);
                    o.push_str(&self.block(b, sc)?);
                }
                return Ok(o);
            }
            I::Switch(e, cs) => {
                let d = self.exp(e, sc)?;
                for (ps, b) in cs {
                    for p in ps {
                        sc.maps.push(BTreeMap::new());
                        let m = self.pat(p, &d, sc);
                        let r = match m {
                            Ok(true) => Some(self.block(b, sc)),
                            Ok(false) => None,
                            Err(e) => Some(Err(e)),
                        };
                        sc.maps.pop();
                        if let Some(r) = r {
                            return r;
                        }
                    }
                }
            }
            I::As(e, p, b) => {
                let d = self.exp(e, sc)?;
                sc.maps.push(BTreeMap::new());
                let r = match self.pat(p, &d, sc) {
                    Ok(true) => self.block(b, sc),
                    Ok(false) => Ok(String::new()),
                    Err(e) => Err(e),
                };
                sc.maps.pop();
                return r;
            }
        }
        Ok(String::new())
    }
    /// Err only for Out
    fn pat(&mut self, p: &Pt, d: &V, sc: &mut Sc) -> Rs<bool> {
        self.tick()?;
        Ok(match (p, d) {
            (Pt::Any, _) => true,
            (Pt::Val(v), d) => veq(v, d),
            (Pt::List(l), List(m)) => {
                for (n, q) in l.iter().enumerate() {
                    if n >= m.len() || !self.pat(q, &m[n], sc)? {
                        return Ok(false);
                    }
                }
                true
            }
            (Pt::Map(l), Map(m)) => {
                for (k, q) in l {
                    match m.get(k) {
                        Some(x) if self.pat(q, x, sc)? => {}
                        _ => return Ok(false),
                    }
                }
                true
            }
            (Pt::List(_), _) | (Pt::Map(_), _) => false,
            (Pt::Cap(k, q), d) => {
                let m = match q {
                    None => true,
                    Some(q) => self.pat(q, d, sc)?,
                };
                if m {
                    sc.set(k, d.clone());
                }
                m
            }
            (Pt::Fil(e), d) => {
                sc.maps.push(BTreeMap::new());
                sc.set("@", d.clone());
                let r = self.exp(e, sc);
                sc.maps.pop();
                match r {
                    Err(X::Out) => return Err(X::Out),
                    Ok(Bool(true)) => true,
                    _ => false,
                }
            }
        })
    }
    fn front(&mut self, t: &T) -> Rs<BTreeMap<String, V>> {
        let mut sc = Sc { params: vec![], pn: t.pn.clone(), maps: vec![BTreeMap::new()] };
        for i in &t.b {
            match i {
                I::AtExp(k, b) => match self.block(b, &mut sc) {
                    Ok(s) => sc.root(k, Str(s)),
                    Err(X::Out) => return Err(X::Out),
                    Err(X::Err) => {}
                },
                I::Exp_(l) => {
                    for (k, e) in l {
                        match self.exp(e, &sc) {
                            Ok(v) => sc.root(k, v),
                            Err(X::Out) => return Err(X::Out),
                            Err(X::Err) => {}
                        }
                    }
                }
                _ => {}
            }
        }
        Ok(sc.maps.swap_remove(0))
    }
}

// ------------------------------------------------------------------ one case
#[derive(Clone, Debug)]
pub struct Case {
    pub root: T,
    pub params: Vec<V>,
    pub tm: Vec<(String, T)>,
    pub front: bool,
}
type Outcome = Result<(String, BTreeMap<String, V>), ()>;
/// every outcome the reference allows (map orders differ), or None
fn reference(c: &Case) -> Option<Vec<(Outcome, Vec<String>)>> {
    let mut choices: Vec<(usize, usize)> = vec![];
    let mut res = vec![];
    loop {
        let mut ev = Ev {
            tm: if c.front { None } else { Some(c.tm.iter().cloned().collect()) },
            arena: vec![],
            log: vec![],
            fuel: 3000,
            choices: choices.clone(),
            pos: 0,
        };
        let o = if c.front { ev.front(&c.root).map(|m| (String::new(), m)) } else { ev.body(&c.root, c.params.clone()) };
        let o = match o {
            Err(X::Out) => return None,
            Err(X::Err) => Err(()),
            Ok((s, m)) => Ok((s, m.into_iter().map(|(k, v)| (k, anon(&v))).collect())),
        };
        res.push((o, ev.log));
        choices = ev.choices;
        while let Some(&(i, n)) = choices.last() {
            if i + 1 < n {
                choices.last_mut().unwrap().0 += 1;
                break;
            }
            choices.pop();
        }
        if choices.is_empty() {
            return Some(res);
        }
        if res.len() > 48 {
            return None;
        }
    }
}
pub fn text_of(b: &Blk) -> String {
    let mut o = String::new();
    p_blk(b, &mut o);
    o
}
fn parse_t(t: &T) -> Result<TreeTemplate, String> {
    let x = text_of(&t.b);
    let mut r: TreeTemplate = x.parse().map_err(|e| format!("the template text does not parse: {} {}", x, e))?;
    r.pnames = t.pn.clone();
    Ok(r)
}
pub fn check(c: &Case) -> Result<bool, String> {
    let want = match reference(c) {
        Some(w) => w,
        None => return Ok(false),
    };
    let root = parse_t(&c.root)?;
    let mut tm = BasicTemps::new();
    for (k, t) in &c.tm {
        tm.insert_t(k.clone(), parse_t(t)?);
    }
    let fm = host_man();
    let tds: Vec<TData> = c.params.iter().map(|v| v.to_td()).collect();
    let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
    LOG.with(|l| l.borrow_mut().clear());
    let got = guard(|| {
        if c.front {
            Ok((String::new(), root.front_matter(&fm)))
        } else {
            root.run_exp(&ps, &mut tm, &fm)
        }
    });
    let log = LOG.with(|l| std::mem::take(&mut *l.borrow_mut()));
    let got: Outcome = match got {
        Err(p) => return Err(format!("panicked: {}", p)),
        Ok(Err(_)) => Err(()),
        Ok(Ok((s, m))) => Ok((s, m.iter().map(|(k, v)| (k.clone(), V::of(v))).collect())),
    };
    let same = |a: &Outcome, b: &Outcome| match (a, b) {
        (Err(()), Err(())) => true,
        (Ok((s, m)), Ok((t, n))) => s == t && m.len() == n.len() && m.iter().zip(n).all(|((k, x), (l, y))| k == l && x == y),
        _ => false,
    };
    if want.iter().any(|(o, l)| same(o, &got) && *l == log) {
        return Ok(match &got {
            Ok((s, m)) => !s.is_empty() || !m.is_empty(),
            Err(()) => !log.is_empty(),
        });
    }
    let sh = |o: &Outcome| match o {
        Err(()) => "error".to_string(),
        Ok((s, m)) => format!("{:?} with {}", s, json!(m.iter().map(|(k, v)| (k.clone(), v.js())).collect::<BTreeMap<_, _>>())),
    };
    Err(format!("got {} after the calls {:?}; expected {} after {:?}", sh(&got), log, sh(&want[0].0), want[0].1))
}
pub fn describe(c: &Case) -> J {
    json!({"text": text_of(&c.root.b), "pnames": c.root.pn, "params": c.params.iter().map(|v| v.js()).collect::<Vec<_>>(),
        "templates": c.tm.iter().map(|(k,t)| json!([k, t.pn, text_of(&t.b)])).collect::<Vec<_>>(), "front_matter": c.front})
}

// ------------------------------------------------------------------ generation
/// relative weight of each item kind
#[derive(Clone)]
struct W {
    items: [usize; 15],
    cmd: usize,
    err: usize,
    front: usize,
}
const TEXT: usize = 0;
fn weights(p: &str) -> W {
    //        text com exp cmd if for def glob let exp atl ate ret sw as
    let items = match p {
        "C03" => [2, 0, 4, 2, 3, 3, 1, 0, 5, 1, 2, 1, 1, 2, 2],
        "C04" => [1, 0, 9, 1, 1, 2, 1, 1, 6, 0, 1, 0, 0, 1, 2],
        "C05" => [1, 0, 5, 1, 1, 1, 4, 3, 3, 1, 1, 1, 4, 0, 0],
        "C06" => [4, 2, 4, 2, 1, 5, 1, 0, 2, 1, 1, 1, 0, 1, 1],
        "C08" => [2, 0, 4, 0, 7, 1, 0, 0, 2, 1, 0, 0, 1, 1, 0],
        "C09" => [1, 0, 3, 0, 0, 1, 0, 0, 2, 0, 0, 0, 0, 6, 6],
        "C20" => [1, 0, 2, 1, 2, 2, 1, 0, 3, 6, 2, 4, 3, 1, 1],
        _ => [1, 0, 9, 3, 1, 1, 1, 2, 3, 1, 0, 0, 1, 0, 0],
    };
    W {
        items,
        cmd: match p {
            "C22" | "C05" => 6,
            "C08" => 4,
            _ => 2,
        },
        err: match p {
            "C08" | "C22" | "C03" => 3,
            _ => 1,
        },
        front: match p {
            "C20" => 40,
            "C03" => 30,
            "C09" => 15,
            _ => 0,
        },
    }
}
struct G<'a> {
    r: Rng,
    w: &'a W,
    n: usize,
    size: usize,
    tnames: Vec<String>,
}
const NAMES: [&str; 4] = ["a", "b", "c", "x"];
const RARE: [&str; 8] = ["return", "k", "item_2", "Name", "f", "log", "a_very_long_name_with_33_characters", "B"];
impl<'a> G<'a> {
    fn name(&mut self) -> String {
        if self.r.chance(1, 30) {
            return self.r.pick(&RARE).to_string();
        }
        self.r.pick(&NAMES).to_string()
    }
    /// below n, at times more
    fn many(&mut self, n: usize) -> usize {
        if self.r.chance(1, 25) {
            n + self.r.below(10)
        } else {
            self.r.below(n)
        }
    }
    fn lit(&mut self) -> V {
        if self.r.chance(1, 12) {
            if self.r.chance(1, 2) {
                return Str(self.r.pick(&["TRUE", "False", "0", "-0", "1.0", "1e3", " 1", "null", "-1", "2.5", "a.b", "@", "$a", "0.9", "10", "9", "2020-02-29", "<error>", "\u{301}e"]).to_string());
            }
            return match self.r.below(12) {
                0 => Str(" ".into()),
                1 => Str("\n".into()),
                2 => Str("a b\"<&\u{e9}\u{1F600}\\".into()),
                3 => Str("true".into()),
                4 => Float(-2.5),
                5 => Uint(u64::MAX),
                6 => Int(-9223372036854775807),
                7 => Date(2020, 2, 29),
                8 => Float(0.0),
                9 => Float(1.0),
                10 => Str("x".repeat(40)),
                _ => Uint(10 + self.r.below(90) as u64),
            };
        }
        match self.r.below(12) {
            0 => Null,
            1 => Bool(true),
            2 => Bool(false),
            3 => Str(String::new()),
            4 => Str("s".into()),
            5 => Int(-1),
            6 => Uint(0),
            7 => Uint(1),
            8 => Uint(2),
            9 => Float(1.5),
            10 => Str("1".into()),
            _ => Uint(3),
        }
    }
    fn value(&mut self, d: usize) -> V {
        if d == 0 || self.r.chance(1, 2) {
            return self.lit();
        }
        let n = self.many(4);
        if self.r.chance(1, 2) {
            List((0..n).map(|_| self.value(d - 1)).collect())
        } else {
            Map((0..n).map(|_| (self.name(), self.value(d - 1))).collect())
        }
    }
    /// as `value`, and what no literal can give
    fn hostval(&mut self, d: usize) -> V {
        match self.value(d) {
            Uint(n) if n < 1000 && self.r.chance(1, 2) => Int(n as i64),
            Int(_) if self.r.chance(1, 3) => Int(5),
            Float(_) if self.r.chance(1, 4) => Float(*self.r.pick(&[f64::NAN, f64::INFINITY, -0.0, 1e300])),
            Null if self.r.chance(1, 4) => Bytes(vec![1, 2, 255]),
            List(l) if self.r.chance(1, 3) => List(l.iter().map(|x| if let Uint(n) = x { Int(*n as i64 & 7) } else { x.clone() }).collect()),
            v => v,
        }
    }
    fn var(&mut self) -> E {
        let mut p = vec![];
        if self.r.chance(1, 30) {
            return E::Var(vec![P::I("@".to_string())]);
        }
        if self.r.chance(1, 2) {
            return E::Var(vec![P::I(self.r.pick(&["a", "a", "b", "x"]).to_string())]);
        }
        if self.r.chance(1, 3) {
            p.push(P::N(self.many(3)));
        } else {
            p.push(P::I(self.name()));
        }
        while self.r.chance(1, 3) {
            p.push(if self.r.chance(1, 2) { P::N(self.many(3)) } else { P::I(self.name()) });
        }
        E::Var(p)
    }
    fn exp(&mut self, d: usize) -> E {
        let c = self.w.cmd;
        let x = self.r.below(8 + c);
        if d == 0 || x < 2 {
            return if self.r.chance(3, 5) { self.var() } else { E::Lit(self.lit()) };
        }
        match x {
            2 | 3 | 4 => self.var(),
            5 => E::Lit(self.lit()),
            6 => {
                let n = self.many(4);
                E::List((0..n).map(|_| self.exp(d - 1)).collect())
            }
            7 => {
                let n = self.many(4);
                E::Map((0..n).map(|_| (self.name(), self.exp(d - 1))).collect())
            }
            _ => self.cmd(d),
        }
    }
    fn cmd(&mut self, d: usize) -> E {
        let name = match self.r.below(16) {
            0 | 1 => "first".to_string(),
            2 => "select".to_string(),
            3 | 4 => "run".to_string(),
            5 | 6 | 7 if !self.tnames.is_empty() => {
                let i = self.r.below(self.tnames.len());
                self.tnames[i].clone()
            }
            8 => "none".to_string(),
            9 if self.r.chance(self.w.err, 3) => "bad".to_string(),
            _ => self.r.pick(&HOST).to_string(),
        };
        let n = if name == "select" { 2 + self.many(3) } else { self.many(4) };
        let mut a: Vec<E> = (0..n).map(|_| self.exp(d - 1)).collect();
        if self.r.chance(1, 8) {
            let more = self.r.below(12);
            a.extend((0..more).map(|k| E::Lit(Uint(k as u64))));
        }
        if name == "run" && self.r.chance(4, 5) {
            let e = E::Var(vec![P::I(self.r.pick(&["f", "g"]).to_string())]);
            a.insert(0, e);
        }
        if name == "select" && self.r.chance(2, 3) {
            a[0] = E::Lit(self.r.pick(&[Uint(0), Uint(1), Uint(2), Uint(3), Uint(5), Int(1), Float(1.0), Int(-1), Bool(true), Bool(false), Str("s".into()), Null]).clone());
        }
        E::Cmd(name, a)
    }
    fn pat(&mut self, d: usize) -> Pt {
        match self.r.below(if d == 0 { 6 } else { 12 }) {
            0 => Pt::Any,
            1 | 2 => Pt::Val(self.lit()),
            3 => Pt::Cap(self.name(), None),
            4 | 5 => Pt::Fil(match self.r.below(6) {
                0 => E::Var(vec![P::I(self.name())]),
                1 => E::Lit(Bool(true)),
                2 => E::Cmd("bad".into(), vec![]),
                3 => E::Cmd("islist".into(), vec![E::Var(vec![P::I("@".to_string())])]),
                4 => E::Cmd("idf".into(), vec![self.var()]),
                _ => E::Cmd("is1".into(), vec![E::Var(vec![P::I("@".to_string())])]),
            }),
            6 | 7 => {
                let n = self.many(4);
                Pt::List((0..n).map(|_| self.pat(d - 1)).collect())
            }
            8 | 9 => {
                let n = self.r.below(3);
                Pt::Map((0..n).map(|_| {
                    let k = self.name();
                    if self.r.chance(1, 3) {
                        (k.clone(), Pt::Cap(k, None))
                    } else {
                        (k, self.pat(d - 1))
                    }
                }).collect())
            }
            _ => {
                let k = self.name();
                Pt::Cap(k, Some(Box::new(self.pat(d - 1))))
            }
        }
    }
    fn text(&mut self) -> I {
        self.n += 1;
        if self.r.chance(1, 6) {
            return I::Text(self.r.pick(&[" ", "\n", "  ", " \n\t ", "\t", "\r\n", ".", "}}", "text of several words, with a comma"]).to_string());
        }
        let t = format!("{}{}{}", self.r.pick(&["t", "u ", " v", "<w>", "\u{e9}"]), self.n, self.r.pick(&["", ".", " ", "\n", "}"]));
        I::Text(t)
    }
    fn sets(&mut self) -> Vec<(String, E)> {
        let n = 1 + self.many(3);
        (0..n)
            .map(|_| {
                let k = self.name();
                let e = self.exp(2);
                // mostly statements that succeed
                (k, if self.r.chance(1, 2) { E::Cmd("first".into(), vec![e, E::Lit(self.lit())]) } else { e })
            })
            .collect()
    }
    fn seq(&mut self, d: usize, max: usize) -> Blk {
        let n = self.r.below(max + 1);
        let mut b: Blk = vec![];
        for _ in 0..n {
            if self.size == 0 {
                break;
            }
            self.size -= 1;
            let i = self.item(d);
            // two texts in a row are one text
            if let (Some(I::Text(a)), I::Text(t)) = (b.last_mut(), &i) {
                a.push_str(t);
                continue;
            }
            b.push(i);
        }
        b
    }
    /// names and parameters of a defined template, with a body that may return
    fn tbody(&mut self, d: usize) -> (Vec<String>, Blk) {
        if self.r.chance(1, 12) {
            // many parameters, all shown by name and by number
            let n = 2 + self.r.below(10);
            let pn: Vec<String> = (0..n).map(|k| format!("p{}", k)).collect();
            let b = (0..n + 1)
                .map(|k| {
                    let v = if k < n && self.r.chance(1, 2) { P::I(format!("p{}", k)) } else { P::N(k) };
                    I::Exp(E::Cmd("first".into(), vec![E::Var(vec![v]), E::Lit(Str("-".into()))]))
                })
                .collect();
            return (pn, b);
        }
        let pn: Vec<String> = (0..self.many(3)).map(|_| self.name()).collect();
        let mut b = self.seq(d, 3);
        if self.r.chance(1, 3) {
            let e = self.exp(1);
            b.push(I::Ret(e));
        }
        (pn, b)
    }
    fn item(&mut self, d: usize) -> I {
        let tot: usize = self.w.items.iter().sum();
        let mut x = self.r.below(tot);
        let mut k = TEXT;
        while x >= self.w.items[k] {
            x -= self.w.items[k];
            k += 1;
        }
        if d == 0 && !matches!(k, 0 | 1 | 2 | 8 | 9 | 12) {
            k = if self.r.chance(1, 2) { 8 } else { 2 };
        }
        match k {
            0 => self.text(),
            1 => I::Comment(self.r.pick(&[" note ", "x", " {{$a}} "]).to_string()),
            2 => {
                let e = if self.r.chance(1, 3) { E::Cmd("first".into(), vec![self.var(), E::Lit(Str("-".into()))]) } else if self.r.chance(self.w.cmd, 8) { self.cmd(2) } else if self.r.chance(1, 2) { self.var() } else { self.exp(2) };
                I::Exp(E::Cmd("log".into(), vec![e]).either(&mut self.r))
            }
            3 => {
                let c = match self.r.below(8) {
                    0 => "bad".to_string(),
                    1 if !self.tnames.is_empty() => {
                        let i = self.r.below(self.tnames.len());
                        self.tnames[i].clone()
                    }
                    2 => "none".to_string(),
                    3 => "cnt".to_string(),
                    _ => "log".to_string(),
                };
                let n = self.many(3);
                let a = (0..n)
                    .map(|_| if self.r.chance(1, 2) { E::Var(vec![P::I("@".into())]) } else { self.exp(1) })
                    .collect();
                let b = self.seq(d - 1, 3);
                I::Cmd(c, a, b)
            }
            4 => {
                let c = self.exp(2);
                let y = self.seq(d - 1, 2);
                let n = match self.r.below(3) {
                    0 => None,
                    1 => Some(self.seq(d - 1, 2)),
                    _ => {
                        let mut n = if self.r.chance(1, 2) { Some(self.seq(d - 1, 2)) } else { None };
                        for _ in 0..1 + self.many(2) {
                            let (c, y) = (self.exp(2), self.seq(d - 1, 2));
                            n = Some(vec![I::If(c, y, n, true)]);
                        }
                        n
                    }
                };
                I::If(c, y, n, false)
            }
            5 => {
                let e = match self.r.below(5) {
                    0 if self.r.chance(1, 8) => {
                        let n = 4 + self.r.below(140);
                        if self.r.chance(1, 2) {
                            E::Lit(Uint(n as u64))
                        } else {
                            let l = self.lit();
                            E::List((0..n).map(|k| E::Lit(if k % 3 == 0 { Uint(k as u64) } else { l.clone() })).collect())
                        }
                    }
                    0 => E::Lit(Uint(self.r.below(4) as u64)),
                    1 => E::Lit(Int(-(self.r.below(3) as i64) - 1)),
                    2 => E::List((0..self.many(4)).map(|_| self.exp(1)).collect()),
                    3 => E::Map((0..self.r.below(3)).map(|_| (self.name(), self.exp(1))).collect()),
                    _ => self.exp(1),
                };
                let (k, v) = (self.name(), self.name());
                let b = self.seq(d - 1, 3);
                I::For(k, v, e, b)
            }
            6 => {
                let (p, b) = self.tbody(d - 1);
                I::Def(self.r.pick(&["f", "g", "a"]).to_string(), p, b)
            }
            7 => {
                let (p, b) = self.tbody(d - 1);
                let n = self.r.pick(&["t0", "t9", "log"]).to_string();
                I::Glob(n, p, b)
            }
            8 => I::Let(self.sets()),
            9 => I::Exp_(self.sets()),
            10 => {
                let n = self.name();
                I::AtLet(n, self.seq(d - 1, 3))
            }
            11 => {
                let n = self.name();
                I::AtExp(n, self.seq(d - 1, 3))
            }
            12 => I::Ret(self.exp(1)),
            13 => {
                let e = self.subject();
                let n = 1 + self.many(3);
                let cs = (0..n)
                    .map(|_| {
                        let k = self.many(3);
                        ((0..k).map(|_| self.pat(2)).collect(), self.seq(d - 1, 2))
                    })
                    .collect();
                I::Switch(e, cs)
            }
            _ => {
                let e = self.subject();
                let p = self.pat(2);
                I::As(e, p, self.seq(d - 1, 3))
            }
        }
    }
    /// a block with a block in it, d deep, that binds names and then fails
    fn failing(&mut self, d: usize, fail: bool) -> Blk {
        let mut b = vec![];
        if self.r.chance(1, 2) {
            b.push(self.text());
        }
        if self.r.chance(2, 3) {
            b.push(I::Let(vec![(self.name(), E::Lit(self.lit()))]));
        }
        if d == 0 {
            if fail {
                b.push(I::Exp(E::Cmd("bad".into(), vec![])));
            }
            return b;
        }
        let x = self.failing(d - 1, fail);
        let (e, n) = (E::Lit(self.lit()), self.name());
        b.push(match self.r.below(8) {
            0 => I::If(E::Lit(Bool(true)), x, None, false),
            1 => I::If(E::Lit(Bool(false)), vec![], Some(x), false),
            2 => I::For(n, self.name(), E::List(vec![e, E::Lit(Uint(1))]), x),
            3 => I::Cmd("log".into(), vec![e], x),
            4 => I::AtLet(n, x),
            5 => I::Switch(e, vec![(vec![Pt::Val(Str("nope".into())), Pt::Cap(n, None)], x)]),
            6 if self.r.chance(1, 2) => I::As(E::List(vec![e, E::Lit(Uint(1))]), Pt::List(vec![Pt::Cap(n, None), Pt::Val(Uint(1 + self.r.below(2) as u64))]), x),
            _ => I::As(e, Pt::Cap(n, None), x),
        });
        b
    }
    fn subject(&mut self) -> E {
        match self.r.below(3) {
            0 => E::List((0..self.many(4)).map(|_| self.exp(1)).collect()),
            1 => E::Map((0..self.r.below(3)).map(|_| (self.name(), self.exp(1))).collect()),
            _ => self.exp(1),
        }
    }
}
impl E {
    /// half of the time only the argument of the wrapper
    fn either(self, r: &mut Rng) -> E {
        match self {
            E::Cmd(_, a) if r.chance(1, 2) => a.into_iter().next().unwrap(),
            e => e,
        }
    }
}
pub fn make(prop: &str, seed: u64, n: u64) -> Case {
    let w = weights(prop);
    let mut g = G { r: Rng::new(seed.wrapping_mul(1000003).wrapping_add(n)), w: &w, n: 0, size: 4 + (n / 400).min(14) as usize, tnames: vec![] };
    let mut tm = vec![];
    for k in 0..g.r.below(3) {
        let (pn, b) = g.tbody(1);
        let nm = format!("t{}", k);
        tm.push((nm.clone(), T { pn, b }));
        g.tnames.push(nm);
    }
    if g.r.chance(1, 4) {
        // a template of a function's name is never reached
        tm.push(("cnt".to_string(), T { pn: vec![], b: vec![I::Text("shadowed".into())] }));
    }
    g.size = 3 + (n / 300).min(16) as usize;
    let mut b = vec![];
    for k in ["a", "b"] {
        if g.r.chance(7, 8) {
            let e = match g.value(2) {
                v @ (List(_) | Map(_)) => lit_exp(&v),
                v => E::Lit(v),
            };
            b.push(I::Let(vec![(k.to_string(), e)]));
        }
    }
    for f in ["f", "g"] {
        if g.r.chance(w.items[6] + w.items[12], 10) {
            let (p, d) = g.tbody(1);
            b.push(I::Def(f.to_string(), p, d));
        }
    }
    let deep = if g.r.chance(1, 10) { 6 } else { 3 };
    let mut more = g.seq(deep, 6);
    b.append(&mut more);
    if g.r.chance(1, 2) {
        // what is visible at the end
        for k in ["a", "b", "x"] {
            b.push(I::Exp(E::Cmd("first".into(), vec![E::Var(vec![P::I(k.into())]), E::Lit(Str("-".into()))])));
        }
    }
    let params: Vec<V> = (0..g.many(3)).map(|_| g.hostval(2)).collect();
    let pn = (0..g.many(3)).map(|_| g.name()).collect();
    let front = g.r.chance(w.front, 100);
    if front && g.r.chance(4, 5) {
        // exports that fail inside a block, between exports that look at every name
        for _ in 0..1 + g.r.below(4) {
            let n = g.name();
            let fail = g.r.chance(2, 3);
            let d = 1 + g.r.below(3);
            let x = g.failing(d, fail);
            b.push(I::AtExp(n, x));
            for (k, v) in [("c", "a"), ("d", "b"), ("e", "x"), ("h", "c"), ("i", "@")] {
                if g.r.chance(1, 2) {
                    b.push(I::Exp_(vec![(k.to_string(), E::Var(vec![P::I(v.to_string())]))]));
                }
            }
        }
    }
    Case { root: T { pn, b: merge(b) }, params, tm, front }
}
fn merge(b: Blk) -> Blk {
    let mut o: Blk = vec![];
    for i in b {
        if let (Some(I::Text(a)), I::Text(t)) = (o.last_mut(), &i) {
            a.push_str(t);
        } else {
            o.push(i);
        }
    }
    o
}
fn lit_exp(v: &V) -> E {
    match v {
        List(l) => E::List(l.iter().map(lit_exp).collect()),
        Map(m) => E::Map(m.iter().map(|(k, v)| (k.clone(), lit_exp(v))).collect()),
        v => E::Lit(v.clone()),
    }
}
pub fn gen(cx: &mut Cx) {
    let n = cx.scale(40000, 700000) as u64;
    let (prop, seed) = (cx.prop.clone(), cx.seed);
    for i in 0..n {
        let c = make(&prop, seed, i);
        cx.case(
            &|| {
                let mut j = describe(&c);
                j["kind"] = json!("tmpl");
                j["gen"] = json!([seed, i]);
                j
            },
            &mut || check(&c),
        );
        if cx.fails.len() >= 5 {
            break;
        }
    }
}
pub fn recheck(prop: &str, j: &J) -> Result<bool, String> {
    check(&make(prop, j["gen"][0].as_u64().unwrap(), j["gen"][1].as_u64().unwrap()))
}
