//! C07: flat item sequences, turned into a tree by the real crate and by a reference.
use crate::cx::*;
use crate::val::Rng;
use serde_json::{json, Value as J};
use templito::expr::Expr;
use templito::template::{FlatItem, FlatTemplate, TreeItem};
use templito::TData;

/// a token is its kind; its marker is its position
const KINDS: [&str; 28] = [
    "str", "if", "/if", "else", "elif", "for", "/for", "cmd", "/cmd", "switch", "case", "/switch", "@let", "/let", "exp", "as", "/as", "define", "/define",
    "global", "/global", "@export", "/export", "let", "comment", "return", "/bogus", "ws",
];
const SMALL: usize = 14;
/// the texts of a "ws" token, by its position
const BLANKS: [&str; 5] = [" ", "", "\n", " \t", "\r\n"];

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Leaf(&'static str, String),
    /// kind, marker, sub-blocks (None: no else branch)
    Node(&'static str, String, Vec<Option<Vec<N>>>),
    /// a switch: its cases as the sorted markers of what is inside each
    Sw(String, Vec<Vec<String>>),
}
fn lit(n: usize) -> Expr {
    Expr::Lit(TData::String(format!("m{}", n)))
}
fn flat(k: &str, n: usize) -> FlatItem {
    let m = format!("m{}", n);
    match k {
        "str" => FlatItem::String(m),
        "ws" => FlatItem::String(BLANKS[n % BLANKS.len()].into()),
        "comment" => FlatItem::Comment,
        "exp" => FlatItem::Exp(lit(n)),
        "return" => FlatItem::Return(lit(n)),
        "let" => FlatItem::Let(vec![("k".into(), lit(n))]),
        "if" => FlatItem::If(lit(n)),
        "elif" => FlatItem::Elif(lit(n)),
        "else" => FlatItem::Else,
        "for" => FlatItem::For("k".into(), "v".into(), lit(n)),
        "cmd" => FlatItem::Block("cmd".into(), vec![lit(n)]),
        "switch" => FlatItem::Switch(lit(n)),
        "case" => FlatItem::Case(vec![]),
        "as" => {
            let f: FlatTemplate = "{{as 1 : _}}".parse().unwrap();
            match f.v.into_iter().next() {
                Some(FlatItem::As(_, p)) => FlatItem::As(lit(n), p),
                _ => panic!("as"),
            }
        }
        "@let" => FlatItem::AtLet(m),
        "@export" => FlatItem::AtExport(m),
        "define" => FlatItem::Define(m, vec!["p".into()]),
        "global" => FlatItem::Global(m, vec![]),
        k => FlatItem::EndBlock(k[1..].to_string()),
    }
}

// ---- the reference
type It<'a> = std::iter::Peekable<std::vec::IntoIter<(usize, &'static str)>>;
fn mk(n: usize) -> String {
    format!("m{}", n)
}
fn until(c: &str, it: &mut It) -> Option<Vec<N>> {
    let mut r = vec![];
    while let Some((n, k)) = it.next() {
        if k == c {
            return Some(r);
        }
        r.push(one(n, k, it)?);
    }
    Some(r)
}
fn r_if(n: usize, it: &mut It) -> Option<N> {
    let mut yes = vec![];
    while let Some((m, k)) = it.next() {
        match k {
            "/if" => return Some(N::Node("if", mk(n), vec![Some(yes), None])),
            "else" => {
                let no = until("/if", it)?;
                return Some(N::Node("if", mk(n), vec![Some(yes), Some(no)]));
            }
            "elif" => {
                let no = r_if(m, it)?;
                return Some(N::Node("if", mk(n), vec![Some(yes), Some(vec![no])]));
            }
            _ => yes.push(one(m, k, it)?),
        }
    }
    None
}
fn marks(l: &[N], o: &mut Vec<String>) {
    for x in l {
        match x {
            N::Leaf("comment", _) => o.push("comment".into()),
            N::Leaf(_, m) => o.push(m.clone()),
            N::Node(_, m, bs) => {
                o.push(m.clone());
                for b in bs.iter().flatten() {
                    marks(b, o)
                }
            }
            N::Sw(m, cs) => {
                o.push(m.clone());
                cs.iter().for_each(|c| o.extend(c.iter().cloned()))
            }
        }
    }
}
fn r_switch(n: usize, it: &mut It) -> Option<N> {
    let mut cs: Vec<Vec<N>> = vec![];
    while let Some((m, k)) = it.next() {
        match (k, cs.last_mut()) {
            ("/switch", _) => break,
            ("case", _) => cs.push(vec![]),
            ("str" | "ws", None) => {}
            (_, None) => return None,
            (k, Some(_)) => {
                let x = one(m, k, it)?;
                cs.last_mut().unwrap().push(x)
            }
        }
    }
    Some(N::Sw(
        mk(n),
        cs.iter()
            .map(|c| {
                let mut o = vec![];
                marks(c, &mut o);
                o.sort();
                o
            })
            .collect(),
    ))
}
fn one(n: usize, k: &'static str, it: &mut It) -> Option<N> {
    Some(match k {
        "str" | "exp" | "return" | "let" => N::Leaf(k, mk(n)),
        "ws" => N::Leaf("str", BLANKS[n % BLANKS.len()].into()),
        "comment" => N::Leaf(k, String::new()),
        "if" => return r_if(n, it),
        "switch" => return r_switch(n, it),
        "for" | "cmd" | "as" | "define" | "global" => N::Node(k, mk(n), vec![Some(until(&format!("/{}", k), it)?)]),
        "@let" | "@export" => N::Node(k, mk(n), vec![Some(until(&format!("/{}", &k[1..]), it)?)]),
        _ => return None,
    })
}

// ---- the real tree
fn of_exp(e: &Expr) -> String {
    match e {
        Expr::Lit(TData::String(s)) => s.clone(),
        _ => "?".into(),
    }
}
fn of(b: &[TreeItem]) -> Vec<N> {
    b.iter()
        .map(|i| match i {
            TreeItem::String(s) => N::Leaf("str", s.clone()),
            TreeItem::Comment => N::Leaf("comment", String::new()),
            TreeItem::Exp(e) => N::Leaf("exp", of_exp(e)),
            TreeItem::Return(e) => N::Leaf("return", of_exp(e)),
            TreeItem::Let(l) => N::Leaf("let", l.get(0).map(|x| of_exp(&x.1)).unwrap_or_default()),
            TreeItem::Export(l) => N::Leaf("export", l.get(0).map(|x| of_exp(&x.1)).unwrap_or_default()),
            TreeItem::Block { params, block, .. } => N::Node("cmd", params.get(0).map(of_exp).unwrap_or_default(), vec![Some(of(block))]),
            TreeItem::If { cond, yes, no } => N::Node("if", of_exp(cond), vec![Some(of(yes)), no.as_ref().map(|n| of(n))]),
            TreeItem::For { p, b, .. } => N::Node("for", of_exp(p), vec![Some(of(b))]),
            TreeItem::Define(n, _, b) => N::Node("define", n.clone(), vec![Some(of(b))]),
            TreeItem::Global(n, _, b) => N::Node("global", n.clone(), vec![Some(of(b))]),
            TreeItem::AtLet(n, b) => N::Node("@let", n.clone(), vec![Some(of(b))]),
            TreeItem::AtExport(n, b) => N::Node("@export", n.clone(), vec![Some(of(b))]),
            TreeItem::As { exp, block, .. } => N::Node("as", of_exp(exp), vec![Some(of(block))]),
            TreeItem::Switch(e, cs) => N::Sw(
                of_exp(e),
                cs.iter()
                    .map(|c| {
                        let t = format!("{:?}", c);
                        let mut o: Vec<String> = vec![];
                        for w in t.split(|c: char| !c.is_alphanumeric()) {
                            if w == "Comment" {
                                o.push("comment".into());
                            } else if w.starts_with('m') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) {
                                o.push(w.to_string());
                            }
                        }
                        for b in BLANKS {
                            let w = format!("String({:?})", b);
                            o.extend(t.matches(&w).map(|_| b.to_string()));
                        }
                        o.sort();
                        o
                    })
                    .collect(),
            ),
        })
        .collect()
}
fn check(toks: &[&'static str]) -> Result<bool, String> {
    let l: Vec<(usize, &'static str)> = toks.iter().cloned().enumerate().collect();
    let mut it = l.into_iter().peekable();
    let mut want = Some(vec![]);
    while let Some((n, k)) = it.next() {
        match one(n, k, &mut it) {
            Some(x) => want.as_mut().unwrap().push(x),
            None => {
                want = None;
                break;
            }
        }
    }
    let f = FlatTemplate { v: toks.iter().enumerate().map(|(n, k)| flat(k, n)).collect() };
    let got = match guard(|| f.to_tree()) {
        Err(p) => return Err(format!("panicked: {}", p)),
        Ok(Err(_)) => None,
        Ok(Ok(t)) => Some(of(&t.v)),
    };
    if got == want {
        return Ok(got.is_some());
    }
    Err(format!("the tree is {:?}, expected {:?}", got, want))
}
fn case(cx: &mut Cx, t: &[usize]) {
    let toks: Vec<&'static str> = t.iter().map(|i| KINDS[*i]).collect();
    cx.case(&|| json!({"kind":"flat","items":toks}), &mut || check(&toks));
}
pub fn gen(cx: &mut Cx) {
    let n = if cx.thorough { 5 } else { 4 };
    for len in 0..=n {
        let mut t = vec![0usize; len];
        'l: loop {
            case(cx, &t);
            let mut k = 0;
            loop {
                if k == len {
                    break 'l;
                }
                t[k] += 1;
                if t[k] < if len < 4 { KINDS.len() } else { SMALL } {
                    break;
                }
                t[k] = 0;
                k += 1;
            }
        }
    }
    let mut r = Rng::new(cx.seed);
    for _ in 0..cx.scale(60000, 600000) {
        // mostly well nested: openers are remembered and closed
        let mut open: Vec<usize> = vec![];
        let len = 1 + r.below(16);
        let mut t = vec![];
        for _ in 0..len {
            let x = if !open.is_empty() && r.chance(1, 3) {
                let o = open[open.len() - 1];
                match (KINDS[o], r.below(4)) {
                    ("if", 0) => 3,
                    ("if", 1) => 4,
                    ("switch", 0) | ("switch", 1) => 10,
                    (k, _) => {
                        if r.chance(5, 6) {
                            open.pop();
                        }
                        let c = format!("/{}", k.trim_start_matches('@'));
                        KINDS.iter().position(|q| *q == c).unwrap()
                    }
                }
            } else if r.chance(1, 12) {
                r.below(KINDS.len())
            } else {
                *r.pick(&[0, 0, 1, 5, 7, 9, 12, 14, 15, 17, 19, 21, 23, 24, 25, 27, 27])
            };
            t.push(x);
            if matches!(KINDS[x], "if" | "for" | "cmd" | "switch" | "@let" | "as" | "define" | "global" | "@export") {
                open.push(x);
                if KINDS[x] == "switch" {
                    t.push(10);
                }
            }
        }
        case(cx, &t);
    }
    crate::interp::gen(cx);
}
pub fn recheck(j: &J) -> Result<bool, String> {
    let toks: Vec<&'static str> = j["items"].as_array().unwrap().iter().map(|x| *KINDS.iter().find(|k| **k == x.as_str().unwrap()).unwrap()).collect();
    check(&toks)
}
