//! Fills the holes of the annotated skeletons in /verif/contracts with the
//! functions and types of /repo's current source, verbatim but for the rewrite
//! rules documented in DESIGN.md, and writes one Verus crate plus a report.
//!
//! extract REPO CONTRACTS OUT.rs REPORT.tsv [--pin] [--degrade key]...
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

// ---------------------------------------------------------------- source side
struct Src {
    text: String,
    file: syn::File,
}
struct Db {
    repo: String,
    files: HashMap<String, Option<Src>>,
}
impl Db {
    fn get(&mut self, f: &str) -> Option<&Src> {
        if !self.files.contains_key(f) {
            let v = fs::read_to_string(format!("{}/{}", self.repo, f))
                .ok()
                .and_then(|text| syn::parse_file(&text).ok().map(|file| Src { text, file }));
            self.files.insert(f.to_string(), v);
        }
        self.files[f].as_ref()
    }
}

fn norm<T: quote::ToTokens>(t: &T) -> String {
    let s = t.to_token_stream().to_string();
    let s: String = s.split_whitespace().collect::<Vec<_>>().join("");
    // lifetimes carry no meaning for the lookup
    let mut out = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
            continue;
        }
        out.push(c);
    }
    out.replace("<>", "").replace("<,", "<")
}

#[derive(Clone)]
struct FnRef {
    sig: syn::Signature,
    block: Option<syn::Block>,
    lo: usize, // start of the visibility / fn keyword, after attributes
    hi: usize,
}

fn find_fn(file: &syn::File, path: &str) -> Option<FnRef> {
    fn imp(i: &syn::ImplItemFn) -> FnRef {
        let hi = i.block.span().byte_range().end;
        let lo = match &i.vis {
            syn::Visibility::Inherited => i.sig.span().byte_range().start,
            v => v.span().byte_range().start,
        };
        FnRef { sig: i.sig.clone(), block: Some(i.block.clone()), lo, hi }
    }
    if let Some((ty, name)) = path.rsplit_once("::") {
        for it in &file.items {
            match it {
                syn::Item::Impl(im) => {
                    let self_ty = norm(&im.self_ty);
                    let key = match &im.trait_ {
                        Some((_, p, _)) => format!("{}for{}", norm(p), self_ty),
                        None => self_ty,
                    };
                    if key != ty.replace(" ", "") {
                        continue;
                    }
                    for m in &im.items {
                        if let syn::ImplItem::Fn(f) = m {
                            if f.sig.ident == name {
                                return Some(imp(f));
                            }
                        }
                    }
                }
                syn::Item::Trait(tr) if tr.ident == ty => {
                    for m in &tr.items {
                        if let syn::TraitItem::Fn(f) = m {
                            if f.sig.ident == name {
                                let lo = f.sig.span().byte_range().start;
                                let hi = f.span().byte_range().end;
                                return Some(FnRef { sig: f.sig.clone(), block: f.default.clone(), lo, hi });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
        return None;
    }
    for it in &file.items {
        if let syn::Item::Fn(f) = it {
            if f.sig.ident == path {
                let hi = f.block.span().byte_range().end;
                let lo = match &f.vis {
                    syn::Visibility::Inherited => f.sig.span().byte_range().start,
                    v => v.span().byte_range().start,
                };
                return Some(FnRef { sig: f.sig.clone(), block: Some((*f.block).clone()), lo, hi });
            }
        }
    }
    None
}

/// a closure parameter that is no plain name gets one (the pattern moves into the body)
fn is_pattern(p: &str) -> bool {
    p.starts_with('(') || p.starts_with('&')
}
fn closure_param(n: usize, p: &str) -> String {
    if is_pattern(p) { format!("p{}_", n) } else { p.to_string() }
}
// ------------------------------------------------------------- function facts
#[derive(Default)]
struct Facts {
    /// short text literals: their characters are made known to the proof
    strs: std::collections::BTreeMap<String, String>,
    mut_self: bool,
    binders: Vec<String>,
    loops: Vec<LoopInfo>,
    closures: Vec<ClosInfo>,
    calls: Vec<String>,
    depth: usize,
    edits: Vec<(usize, usize, usize, String)>, // generic rewrites: replace range
    lets: BTreeSet<String>,             // names bound by match/if-let/for/let patterns
    rewrites: BTreeMap<String, usize>,
    tails: Vec<usize>,
    file_prefix_rules: Vec<(String, String)>,
    fnptr_rule: bool,
    const_map: Vec<(String, String)>,
}
struct LoopInfo {
    kind: &'static str,
    expr: Option<(usize, usize)>,
    pat: Option<(usize, usize)>,
    pat_txt: String,
    enum_recv: Option<(usize, usize)>,
    enum_pats: Option<(String, String)>,
    whole: (usize, usize),
    body: (usize, usize),
}
struct ClosInfo {
    whole: (usize, usize),
    head: (usize, usize),
    body: (usize, usize),
    is_block: bool,
    params: Vec<String>,
}

impl Facts {
    fn src_of(&self, r: (usize, usize), t: &str) -> String {
        t[r.0..r.1].to_string()
    }
}
fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

struct V<'t> {
    f: Facts,
    t: &'t str,
    collected: bool,
}
impl<'ast, 't> Visit<'ast> for V<'t> {
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.f.binders.push(n.clone());
            self.f.lets.insert(n);
        }
        visit::visit_pat_ident(self, p);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let mut enum_recv = None;
        let mut enum_pats = None;
        if let syn::Expr::MethodCall(mc) = &*l.expr {
            if mc.method == "enumerate" && mc.args.is_empty() {
                if let syn::Pat::Tuple(tp) = &*l.pat {
                    if tp.elems.len() == 2 {
                        enum_recv = Some(rng(&mc.receiver));
                        enum_pats = Some((
                            self.f.src_of(rng(&tp.elems[0]), self.t),
                            self.f.src_of(rng(&tp.elems[1]), self.t),
                        ));
                    }
                }
            }
        }
        self.f.loops.push(LoopInfo {
            kind: "for",
            expr: Some(rng(&l.expr)),
            pat: Some(rng(&l.pat)),
            pat_txt: self.f.src_of(rng(&l.pat), self.t),
            enum_recv,
            enum_pats,
            whole: rng(l),
            body: rng(&l.body),
        });
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let k = match &*l.cond {
            syn::Expr::Let(_) => "whilelet",
            _ => "while",
        };
        self.f.loops.push(LoopInfo {
            kind: k,
            expr: Some(rng(&l.cond)),
            pat: None,
            pat_txt: String::new(),
            enum_recv: None,
            enum_pats: None,
            whole: rng(l),
            body: rng(&l.body),
        });
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.f.loops.push(LoopInfo {
            kind: "loop",
            expr: None,
            pat: None,
            pat_txt: String::new(),
            enum_recv: None,
            enum_pats: None,
            whole: rng(l),
            body: rng(&l.body),
        });
        visit::visit_expr_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let lo = rng(&c.or1_token).0;
        let hi = rng(&c.or2_token).1;
        let lo = c.capture.as_ref().map_or(lo, |m| rng(m).0);
        let params = c
            .inputs
            .iter()
            .map(|p| match p {
                syn::Pat::Type(pt) => self.f.src_of(rng(&pt.pat), self.t),
                p => self.f.src_of(rng(p), self.t),
            })
            .collect();
        let hi2 = match &c.output {
            syn::ReturnType::Default => hi,
            syn::ReturnType::Type(_, t) => rng(t).1,
        };
        self.f.closures.push(ClosInfo {
            whole: rng(c),
            head: (lo, hi2),
            body: rng(&c.body),
            is_block: matches!(&*c.body, syn::Expr::Block(b) if b.label.is_none()),
            params,
        });
        visit::visit_expr_closure(self, c);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let n = norm(&p.path);
            self.f.calls.push(n.clone());
            if p.path.segments.len() == 1 && self.f.lets.contains(&n) {
                // R3: a host function held in a local is called through its contract
                let r = rng(&c.func);
                self.f.edits.push((r.0, r.1, 5, format!("{}.call_tfunc", n)));
                *self.f.rewrites.entry("R3-tfunc-call".into()).or_default() += 1;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_method_call(&mut self, c: &'ast syn::ExprMethodCall) {
        // R12: `E.filter_map(F).collect()` is one call of its specification
        if let (true, true, syn::Expr::MethodCall(m)) = (c.method == "collect", c.args.is_empty(), &*c.receiver) {
            if m.method == "filter_map" && m.args.len() == 1 {
                let (r, a, w) = (rng(&m.receiver), rng(&m.args[0]), rng(c));
                self.f.edits.push((r.0, r.0, 1, "crate::shim::iter_filter_map(".into()));
                self.f.edits.push((r.1, a.0, 5, ", ".into()));
                self.f.edits.push((a.1, w.1, 9, ")".into()));
                *self.f.rewrites.entry("R12-filter-map-collect".into()).or_default() += 1;
            }
        }
        // R12 elsewhere: the same as an iteration over the collected results
        if c.method == "filter_map" && c.args.len() == 1 && !self.collected {
            let (r, a, w) = (rng(&c.receiver), rng(&c.args[0]), rng(c));
            self.f.edits.push((r.0, r.0, 1, "crate::shim::iter_filter_map(".into()));
            self.f.edits.push((r.1, a.0, 5, ", ".into()));
            self.f.edits.push((a.1, w.1, 9, ").into_iter()".into()));
            *self.f.rewrites.entry("R12-filter-map-iter".into()).or_default() += 1;
        }
        // R16: the host function given to a registration, as the name of the function it is
        if ["with_fn", "with_f", "with_func", "add_fn", "add_func"].contains(&c.method.to_string().as_str()) && c.args.len() == 3 {
            let named = |p: &syn::ExprPath| {
                let w: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                (w.len() >= 2 && w[0] != "Box").then(|| format!("\"{}\", \"{}\"", w[..w.len() - 1].join("::"), w[w.len() - 1]))
            };
            let t = match &c.args[1] {
                syn::Expr::Path(p) => named(p).map(|n| format!("crate::caps::host_fn({})", n)),
                syn::Expr::Call(k) => match &*k.func {
                    syn::Expr::Path(p) if k.args.len() == 1 => named(p).map(|n| format!("crate::caps::host_locked({}, {})", n, self.f.src_of(rng(&k.args[0]), self.t))),
                    _ => None,
                },
                _ => None,
            };
            if let Some(t) = t {
                let r = rng(&c.args[1]);
                self.f.edits.push((r.0, r.1, 5, t));
                *self.f.rewrites.entry("R16-host-function".into()).or_default() += 1;
            }
        }
        if let ("filter", 1, syn::Expr::MethodCall(m)) = (c.method.to_string().as_str(), c.args.len(), &*c.receiver) {
            if m.method == "filter_map" {
                let (r, a, w) = (rng(&c.receiver), rng(&c.args[0]), rng(c));
                self.f.edits.push((r.0, r.0, 1, "crate::shim::iter_filter(".into()));
                self.f.edits.push((r.1, a.0, 5, ", ".into()));
                self.f.edits.push((a.1, w.1, 9, ").into_iter()".into()));
                *self.f.rewrites.entry("R12-filter-iter".into()).or_default() += 1;
            }
        }
        self.f.calls.push(format!(".{}", c.method));
        let was = std::mem::replace(&mut self.collected, c.method == "collect" && c.args.is_empty());
        self.visit_expr(&c.receiver);
        self.collected = was;
        if let Some(t) = &c.turbofish {
            self.visit_angle_bracketed_generic_arguments(t);
        }
        for a in &c.args {
            self.visit_expr(a);
        }
    }
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        // R11: `o.take().map(|x| B);`, the result dropped, is `if let Some(x) = o.take() { B; }`
        if let syn::Stmt::Expr(syn::Expr::MethodCall(m), Some(_)) = st {
            if let (true, syn::Expr::MethodCall(r), Some(syn::Expr::Closure(c))) = (m.method == "map" && m.args.len() == 1, &*m.receiver, m.args.first()) {
                if r.method == "take" && r.args.is_empty() && c.inputs.len() == 1 && c.capture.is_none() {
                    let (rr, cb, w) = (rng(&m.receiver), rng(&c.body), rng(m));
                    self.f.edits.push((rr.0, rr.0, 0, format!("if let Some({}) = ", self.f.src_of(rng(&c.inputs[0]), self.t))));
                    self.f.edits.push((rr.1, cb.0, 5, " { ".into()));
                    self.f.edits.push((cb.1, w.1, 9, "; }".into()));
                    *self.f.rewrites.entry("R11-option-map-statement".into()).or_default() += 1;
                    self.f.calls.push(".map".into());
                    self.visit_pat(&c.inputs[0]);
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        visit::visit_stmt(self, st);
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        visit::visit_local(self, l);
        // a local closure is called as it is
        if let (syn::Pat::Ident(p), Some(i)) = (&l.pat, &l.init) {
            if matches!(&*i.expr, syn::Expr::Closure(_)) {
                self.f.lets.remove(&p.ident.to_string());
            }
        }
    }
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        if l.value().len() <= 10 {
            let cs: Vec<String> = l.value().chars().map(|c| format!("{:?}", c)).collect();
            let v = if cs.is_empty() { "Seq::<char>::empty()".into() } else { format!("seq![{}]", cs.join(", ")) };
            self.f.strs.insert(self.f.src_of(rng(l), self.t), v);
        }
    }
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if norm(&c.ty) == "f64" {
            let (e, w) = (rng(&c.expr), rng(c));
            self.f.edits.push((e.0, e.0, 0, "crate::shim::ToF64::to_f64(".into()));
            self.f.edits.push((e.1, w.1, 9, ")".into()));
            *self.f.rewrites.entry("R8-float-cast".into()).or_default() += 1;
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_unary(&mut self, u: &'ast syn::ExprUnary) {
        if let syn::UnOp::Neg(n) = &u.op {
            if !matches!(&*u.expr, syn::Expr::Lit(_)) {
                let (o, w) = (rng(n), rng(u));
                self.f.edits.push((o.0, o.1, 5, "core::ops::Neg::neg(".into()));
                self.f.edits.push((w.1, w.1, 8, ")".into()));
                *self.f.rewrites.entry("R9-negation".into()).or_default() += 1;
            }
        }
        visit::visit_expr_unary(self, u);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let n = norm(p);
        if self.f.mut_self && n == "self" {
            let r = rng(p);
            self.f.edits.push((r.0, r.1, 5, "self_".into()));
        }
        for (from, to) in &self.f.file_prefix_rules.clone() {
            if n.starts_with(from.as_str()) {
                // replace the leading segments that make up `from`
                let k = from.matches("::").count();
                let segs: Vec<_> = p.segments.iter().collect();
                if segs.len() >= k {
                    let lo = rng(p).0;
                    let hi = if segs.len() > k { rng(&segs[k].ident).0 } else { rng(p).1 };
                    self.f.edits.push((lo, hi, 5, to.clone()));
                    *self.f.rewrites.entry(format!("R5-stub-path {}", from)).or_default() += 1;
                    break;
                }
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let name = norm(&m.path);
        self.f.calls.push(format!("{}!", name));
        let r = rng(m);
        match name.as_str() {
            "assert" | "assert_eq" | "debug_assert" | "debug_assert_eq" => {
                use syn::parse::Parser;
                let args = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.tokens.clone());
                if let Ok(args) = args {
                    let t = if name.ends_with("_eq") {
                        format!(
                            "crate::shim::rt_assert(({}) == ({}))",
                            self.f.src_of(rng(&args[0]), self.t),
                            self.f.src_of(rng(&args[1]), self.t)
                        )
                    } else {
                        format!("crate::shim::rt_assert({})", self.f.src_of(rng(&args[0]), self.t))
                    };
                    self.f.edits.push((r.0, r.1, 5, t));
                    *self.f.rewrites.entry("R6-assert".into()).or_default() += 1;
                }
            }
            "println" | "eprintln" | "print" | "eprint" => {
                self.f.edits.push((r.0, r.1, 5, "()".into()));
                *self.f.rewrites.entry("R7-print-dropped".into()).or_default() += 1;
            }
            "vec" => {
                // look inside for calls and closures
                use syn::parse::Parser;
                if let Ok(args) = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.tokens.clone())
                {
                    for a in &args {
                        self.visit_expr(a);
                    }
                    // V1: verus!'s vec! is not visible in every module
                }
            }
            "format" | "write" => {
                use syn::parse::Parser;
                if let Ok(args) = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated
                    .parse2(m.tokens.clone())
                {
                    // R13/R14: only `{}`, `{N}` and `{name}`: the Display texts and literals, joined in order
                    let skip = if name == "write" { 1 } else { 0 };
                    let lit = args.iter().nth(skip).and_then(|a| match a {
                        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(l), .. }) => Some(l.value()),
                        _ => None,
                    });
                    let rest: Vec<String> = args.iter().skip(skip + 1).map(|a| self.f.src_of(rng(a), self.t)).collect();
                    let named = args.iter().skip(skip + 1).any(|a| matches!(a, syn::Expr::Assign(_)));
                    let parts = lit.as_deref().filter(|_| !named).and_then(|l| fmt_parts(l, &rest));
                    match parts {
                        Some(ps) => {
                            let text = if ps.len() == 1 && ps[0].0 {
                                format!("({}).to_string()", ps[0].1)
                            } else {
                                let mut t = String::from("{ let mut vx_f = String::new(); ");
                                for (is_arg, x) in &ps {
                                    if *is_arg {
                                        t.push_str(&format!("vx_f.push_str(&({}).to_string()); ", x));
                                    } else {
                                        t.push_str(&format!("vx_f.push_str({:?}); ", x));
                                    }
                                }
                                t + "vx_f }"
                            };
                            if name == "write" {
                                let t = format!("({}).write_text({})", self.f.src_of(rng(&args[0]), self.t), text);
                                self.f.edits.push((r.0, r.1, 5, t));
                                *self.f.rewrites.entry("R13-write".into()).or_default() += 1;
                            } else {
                                self.f.edits.push((r.0, r.1, 5, text));
                                *self.f.rewrites.entry("R14-format".into()).or_default() += 1;
                            }
                        }
                        None => {
                            for a in &args {
                                self.visit_expr(a);
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// The literal pieces and arguments of a format string that uses no format options.
fn fmt_parts(l: &str, args: &[String]) -> Option<Vec<(bool, String)>> {
    let mut out: Vec<(bool, String)> = vec![];
    let mut lit = String::new();
    let mut n = 0;
    let mut it = l.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => {
                it.next();
                lit.push('{');
            }
            '}' => {
                if it.next() != Some('}') {
                    return None;
                }
                lit.push('}');
            }
            '{' => {
                let mut w = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => w.push(c),
                    }
                }
                let a = if w.is_empty() {
                    n += 1;
                    args.get(n - 1)?.clone()
                } else if let Ok(k) = w.parse::<usize>() {
                    args.get(k)?.clone()
                } else if w.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    w
                } else {
                    return None;
                };
                if !lit.is_empty() {
                    out.push((false, std::mem::take(&mut lit)));
                }
                out.push((true, a));
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        out.push((false, lit));
    }
    Some(out)
}

// ------------------------------------------------------------- contract side
#[derive(Default, Clone)]
struct Contract {
    kind: String, // fn | traitfn | lift
    file: String,
    path: String,
    name: Option<String>,
    ret: String,
    spec: String,
    attr: String,
    sig: Option<String>,
    loops: BTreeMap<usize, (Option<String>, String)>,
    wraps: BTreeMap<usize, String>,
    whiles: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    at: Vec<(String, String)>,
    substs: Vec<(String, String)>,
    trusted: bool,
    sigsubsts: Vec<(String, String)>,
}
impl Contract {
    fn key(&self) -> String {
        let k = format!("{}|{}", self.file, self.path);
        if self.kind == "lift" { format!("{}#closure", k) } else { k }
    }
}

struct Pin {
    binders: Vec<String>,
    loops: Vec<String>,
    calls: Vec<String>,
    closures: usize,
}

fn word_rename(text: &str, map: &[(String, String)]) -> String {
    if map.is_empty() {
        return text.to_string();
    }
    let m: HashMap<&str, &str> = map.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
    let mut out = String::new();
    let cs: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut prev = ' ';
    while i < cs.len() {
        let c = cs[i];
        if c.is_alphabetic() || c == '_' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_') {
                j += 1;
            }
            let w: String = cs[i..j].iter().collect();
            // not a field/method, not a macro, and not a struct field label
            let field = prev == '.' && !(i >= 2 && cs[i - 2] == '.');
            match m.get(w.as_str()) {
                Some(n) if !field => out.push_str(n),
                _ => out.push_str(&w),
            }
            prev = cs[j - 1];
            i = j;
        } else {
            out.push(c);
            prev = c;
            i += 1;
        }
    }
    out
}

struct Out {
    text: String,
    report: Vec<String>,
    pins: BTreeMap<String, Pin>,
    new_pins: BTreeMap<String, String>,
    degrade: BTreeSet<String>,
    known: BTreeSet<String>,
}

const PREFIXES: &[(&str, &str)] = &[
    ("std::fs::", "crate::sys::fs::"),
    ("std::process::", "crate::sys::process::"),
    ("std::env::", "crate::sys::env::"),
    ("std::io::", "crate::sys::io::"),
    ("std::thread::", "crate::sys::thread::"),
    ("std::path::", "crate::sys::path::"),
    ("image::", "crate::sys::image::"),
    ("imagesize::", "crate::sys::imagesize::"),
    ("regex::", "crate::stubs::regex::"),
    ("base64::", "crate::stubs::base64::"),
    ("serde_json::", "crate::stubs::serde_json::"),
    ("toml::", "crate::stubs::toml::"),
    ("chrono::", "crate::stubs::chrono::"),
    ("card_format::", "crate::stubs::card_format::"),
    ("anyhow::", "crate::stubs::anyhow::"),
    ("mdown::", "crate::stubs::mdown::"),
    ("rand::", "crate::stubs::rand::"),
];

fn facts(src: &Src, f: &FnRef, enclosing: Option<&syn::ExprClosure>) -> Facts {
    let mut v = V { f: Facts::default(), t: &src.text, collected: false };
    v.f.file_prefix_rules = PREFIXES.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    match enclosing {
        None => {
            for i in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = i {
                    v.visit_pat(&t.pat);
                    v.visit_type(&t.ty);
                }
                // R17: `mut self` as a local that holds it
                if let (syn::FnArg::Receiver(r), Some(b)) = (i, &f.block) {
                    if let (None, Some(m)) = (&r.reference, &r.mutability) {
                        v.f.mut_self = true;
                        let (lo, hi) = (rng(m).0, rng(&r.self_token).0);
                        v.f.edits.push((lo, hi, 5, String::new()));
                        let lo = rng(b).0 + 1;
                        v.f.edits.push((lo, lo, 0, " let mut self_ = self;".into()));
                        *v.f.rewrites.entry("R17-mut-self".into()).or_default() += 1;
                    }
                }
            }
            // parameters are not "bound callees"
            v.f.lets.clear();
            if let syn::ReturnType::Type(_, t) = &f.sig.output {
                v.visit_type(t);
            }
            v.visit_generics(&f.sig.generics);
            if let Some(b) = &f.block {
                v.visit_block(b);
            }
        }
        Some(c) => {
            for i in &f.sig.inputs {
                if let syn::FnArg::Typed(t) = i {
                    v.visit_pat(&t.pat);
                }
            }
            for i in &c.inputs {
                v.visit_pat(i);
            }
            v.f.lets.clear();
            v.visit_expr(&c.body);
        }
    }
    v.f.calls.sort();
    v.f
}

fn find_lift(b: &syn::Block) -> Option<syn::ExprClosure> {
    // the last expression is Box::new(move |..| ..)
    if b.stmts.len() != 1 {
        return None;
    }
    if let Some(syn::Stmt::Expr(syn::Expr::Call(c), None)) = b.stmts.last() {
        if norm(&c.func) == "Box::new" && c.args.len() == 1 {
            if let syn::Expr::Closure(cl) = &c.args[0] {
                return Some(cl.clone());
            }
        }
    }
    None
}

fn emit_fn(db: &mut Db, c: &Contract, out: &mut Out) {
    let key = c.key();
    out.known.insert(format!("{}|{}", c.file, c.path));
    let status = |out: &mut Out, st: &str, extra: &str| {
        out.report.push(format!("fn\t{}\t{}\t{}", key, st, extra));
    };
    let src = match db.get(&c.file) {
        Some(s) => s,
        None => {
            status(out, "lost", "file missing or not parseable");
            return;
        }
    };
    let f = match find_fn(&src.file, &c.path) {
        Some(f) => f,
        None => {
            status(out, "lost", "function not found");
            return;
        }
    };
    let lifted = if c.kind == "lift" {
        match f.block.as_ref().and_then(find_lift) {
            Some(x) => Some(x),
            None => {
                status(out, "lost", "closure shape changed");
                return;
            }
        }
    } else {
        None
    };
    let fx = facts(src, &f, lifted.as_ref());
    let loops: Vec<String> = fx.loops.iter().map(|l| if l.enum_recv.is_some() { "forenum".into() } else { l.kind.to_string() }).collect();
    out.new_pins.insert(
        key.clone(),
        format!("{}\t{}\t{}\t{}", fx.binders.join(","), loops.join(","), fx.calls.join(" ; "), fx.closures.len()),
    );
    let mut ren: Vec<(String, String)> = vec![];
    let mut drift = vec![];
    if let Some(p) = out.pins.get(&key) {
        if p.binders.len() == fx.binders.len() {
            // Names present on both sides keep their meaning (binders may just have been
            // reordered); the remaining ones are matched in order.
            let gone: Vec<&String> = p.binders.iter().filter(|a| !fx.binders.contains(a)).collect();
            let new: Vec<&String> = fx.binders.iter().filter(|b| !p.binders.contains(b)).collect();
            if gone.len() == new.len() {
                for (a, b) in gone.into_iter().zip(new) {
                    if !ren.iter().any(|(x, _)| x == a) {
                        ren.push((a.clone(), b.clone()));
                    }
                }
            } else {
                drift.push("binders");
            }
        } else {
            drift.push("binders");
        }
        if p.loops != loops {
            drift.push("loops");
        }
        if p.calls != fx.calls {
            drift.push("calls");
        }
        if p.closures != fx.closures.len() {
            drift.push("closures");
        }
        if !drift.is_empty() && p.loops.is_empty() && loops.is_empty() && p.closures == 0 && fx.closures.is_empty() {
            drift.push("straight-line"); // no invariant or closure contract that could have gone stale
        }
    } else {
        drift.push("unpinned");
    }
    let rn = |s: &str| word_rename(s, &ren);

    // edits as (lo, hi, text)
    let mut ed: Vec<(usize, usize, usize, String)> = vec![]; // lo, hi, prio, text
    for (a, b, q, t) in &fx.edits {
        ed.push((*a, *b, *q, t.clone()));
    }
    for i in c.loops.keys() {
        if *i >= fx.loops.len() {
            status(out, "shape", &format!("loop {} missing; drift {}", i, drift.join(",")));
            degrade_emit(src, &f, c, out, &key, &rn, lifted.as_ref());
            return;
        }
    }
    for (i, text) in &c.closures {
        let few = fx.closures.get(*i).map(|cl| (cl.params.len()..8).any(|n| text.contains(&format!("{{c{}}}", n)))).unwrap_or(true);
        if few {
            status(out, "shape", &format!("closure {} missing; drift {}", i, drift.join(",")));
            degrade_emit(src, &f, c, out, &key, &rn, lifted.as_ref());
            return;
        }
    }
    if out.degrade.contains(&key) || c.trusted {
        status(out, if c.trusted { "trusted" } else { "degraded" }, &drift.join(","));
        degrade_emit(src, &f, c, out, &key, &rn, lifted.as_ref());
        return;
    }
    for (i, l) in fx.loops.iter().enumerate() {
        let (iter, inv) = match c.loops.get(&i) {
            Some((a, b)) => (a.clone(), rn(b)),
            None => (None, String::new()),
        };
        if l.kind == "for" {
            let (elo, ehi) = l.expr.unwrap();
            let wrap = c.wraps.get(&i);
            if let (Some(n), Some((plo, phi)), None) = (c.whiles.get(&i), l.pat, l.enum_recv) {
                // R15: `for P in E {` as `let mut n = (E).into_iter(); while let Some(P) = n.next() {`
                let pat = src.text[plo..phi].to_string();
                ed.push((l.whole.0, elo, 3, format!("{{ let mut {} = (", n)));
                ed.push((ehi, ehi, 6, format!(").into_iter();\n{}\nwhile let Some({}) = {}.next()\n{}\n", rn(c.at.iter().find(|(w, _)| w == &format!("loop {} init", i)).map_or("", |x| &x.1)), pat, n, inv)));
                ed.push((l.whole.1, l.whole.1, 4, " }".to_string()));
                out.report.push(format!("rewrite\t{}\tR15-for-while", key));
            } else if let (Some(rr), Some((p0, p1))) = (l.enum_recv, &l.enum_pats) {
                // R1: `for (k, v) in E.enumerate() {` as a counter beside the iteration of E
                let it = iter.clone().map(|n| format!("{}: ", n)).unwrap_or_default();
                let semi = if src.text[..l.whole.0].trim_end().ends_with("=>") { "" } else { "; " };
                ed.push((l.whole.0, l.whole.0, 4, format!("{}{{ let mut vx_n{1}: usize = 0; ", semi, i)));
                let (plo, phi) = l.pat.unwrap();
                ed.push((plo, phi, 5, p1.clone()));
                ed.push((elo, elo, 4, it));
                ed.push((rr.1, ehi, 5, String::new()));
                ed.push((ehi, ehi, 6, format!("\n{}\n", inv)));
                ed.push((l.body.0 + 1, l.body.0 + 1, 3, format!(" let {} = vx_n{1}; vx_n{1} = vx_n{1} + 1; ", p0, i)));
                ed.push((l.whole.1, l.whole.1, 4, " }".to_string()));
                out.report.push(format!("rewrite\t{}\tR1-enumerate", key));
            } else {
                if let Some(n) = iter {
                    ed.push((elo, elo, 0, format!("{}: ", n)));
                }
                if let Some(w) = wrap {
                    ed.push((elo, elo, 5, format!("{}(", w)));
                    ed.push((ehi, ehi, 4, ")".to_string()));
                    out.report.push(format!("rewrite\t{}\tR2-wrap-iter {}", key, w));
                }
                ed.push((ehi, ehi, 6, format!("\n{}\n", inv)));
            }
        } else if let Some((_, ehi)) = l.expr {
            if !inv.is_empty() {
                ed.push((ehi, ehi, 6, format!("\n{}\n", inv)));
            }
        } else if !inv.is_empty() {
            ed.push((l.body.0, l.body.0, 6, format!("\n{}\n", inv)));
        }
    }
    for (i, text) in &c.closures {
        let cl = &fx.closures[*i];
        let mut t = rn(text);
        let mut lets = String::new();
        for (n, p) in cl.params.iter().enumerate() {
            t = t.replace(&format!("{{c{}}}", n), &closure_param(n, p));
            if is_pattern(p) {
                lets += &format!(" let {} = p{}_; ", p, n);
                out.report.push(format!("rewrite\t{}\tR18-closure-pattern", key));
            }
        }
        ed.push((cl.head.0, cl.head.1, 5, t));
        if !cl.is_block {
            ed.push((cl.body.0, cl.body.0, 1, format!(" {{ {}", lets)));
            ed.push((cl.body.1, cl.body.1, 9, " }".into()));
        } else if !lets.is_empty() {
            ed.push((cl.body.0 + 1, cl.body.0 + 1, 1, lets));
        }
    }
    let (blo, bhi) = match (&lifted, &f.block) {
        (Some(l), _) => rng(&l.body),
        (None, Some(b)) => rng(b),
        (None, None) => (f.hi, f.hi),
    };
    let tail_lo = {
        let b = match &lifted {
            Some(l) => match &*l.body {
                syn::Expr::Block(b) => Some(b.block.clone()),
                _ => None,
            },
            None => f.block.clone(),
        };
        b.and_then(|b| match b.stmts.last() {
            Some(syn::Stmt::Expr(e, _)) => Some(rng(e).0),
            _ => None,
        })
        .unwrap_or(bhi - 1)
    };
    for (wh, text) in &c.at {
        if wh.ends_with(" init") {
            continue;
        }
        let mut text = rn(text);
        let w: Vec<&str> = wh.split_whitespace().collect();
        if let ("closure", Some(cl)) = (w[0], w.get(1).and_then(|x| x.parse::<usize>().ok()).and_then(|i| fx.closures.get(i))) {
            for (n, p) in cl.params.iter().enumerate() {
                text = text.replace(&format!("{{c{}}}", n), &closure_param(n, p));
            }
        }
        let lp = |n: usize| w.get(n).and_then(|s| s.parse::<usize>().ok()).and_then(|i| fx.loops.get(i));
        let pos = match w[0] {
            "start" => Some((blo + 1, 2)),
            "closure" => w.get(1).and_then(|x| x.parse::<usize>().ok()).and_then(|i| fx.closures.get(i)).map(|cl| if cl.is_block { (cl.body.0 + 1, 2) } else { (cl.body.0, 2) }),
            "tail" => Some((tail_lo, 1)),
            "end" => Some((bhi - 1, 9)),
            "loop" => lp(1).map(|l| match w[2] {
                "start" => (l.body.0 + 1, 6),
                "end" => (l.body.1 - 1, 9),
                "before" => (l.whole.0, 2),
                _ => (l.whole.1, 8),
            }),
            _ => None,
        };
        match pos {
            Some((p, pr)) => {
                // a loop body may end in an expression of type ()
                let semi = if w.len() == 3 && w[2] == "end" { ";" } else { "" };
                ed.push((p, p, pr, format!("{}\n{}\n", semi, text)))
            }
            None => {
                status(out, "shape", &format!("anchor {} missing", wh));
                degrade_emit(src, &f, c, out, &key, &rn, lifted.as_ref());
                return;
            }
        }
    }
    let block_body = match &lifted {
        Some(l) => matches!(&*l.body, syn::Expr::Block(_)),
        None => f.block.is_some(),
    };
    if block_body && !fx.strs.is_empty() {
        let t: Vec<String> = fx.strs.iter().map(|(s, v)| format!("reveal_strlit({}); assert({}@ =~= {});", s, s, v)).collect();
        ed.push((blo + 1, blo + 1, 3, format!("\nproof {{ {} }}\n", t.join(" "))));
    }
    // signature
    let lo;
    let mut head = String::new();
    if let Some(s) = &c.sig {
        head.push_str(&rn(s));
        head.push('\n');
        head.push_str(&rn(&c.spec));
        head.push('\n');
        lo = blo;
    } else {
        lo = f.lo;
        if let syn::ReturnType::Type(_, t) = &f.sig.output {
            let r = rng(t);
            ed.push((r.0, r.0, 1, format!("({}: ", c.ret)));
            ed.push((r.1, r.1, 9, ")".into()));
        }
        if let Some(n) = &c.name {
            let r = rng(&f.sig.ident);
            ed.push((r.0, r.1, 5, n.clone()));
        }
        if f.block.is_some() {
            ed.push((blo, blo, 2, format!("\n{}\n", rn(&c.spec))));
        } else {
            ed.push((f.hi - 1, f.hi - 1, 10, format!("\n{}\n", rn(&c.spec))));
        }
    }
    let hi = if lifted.is_some() { bhi } else { f.hi };
    let body_needs_block = lifted.as_ref().map_or(false, |l| !matches!(&*l.body, syn::Expr::Block(_)));
    // `trait` declarations keep only the signature
    let mut text = apply(&src.text, lo, hi, ed, &c.substs, out, &key);
    if body_needs_block {
        text = format!("{{ {} }}", text);
    }
    let text = head + &text;
    let text = strip_attrs(&text);
    out.text.push_str(&format!("{}/*@F {}*/ {}\n/*@E {}*/\n", with_nl(&c.attr), key, text, key));
    status(out, if f.block.is_some() { "ok" } else { "decl" }, &drift.join(","));
    for (r, n) in &fx.rewrites {
        out.report.push(format!("rewrite\t{}\t{} x{}", key, r, n));
    }
    out.report.push(format!("calls\t{}\t{}", key, fx.calls.join(" ; ")));
}

fn with_nl(s: &str) -> String {
    if s.is_empty() { String::new() } else { format!("{}\n", s.trim_end()) }
}

fn strip_attrs(s: &str) -> String {
    s.to_string()
}

fn apply(
    t: &str,
    lo: usize,
    hi: usize,
    mut ed: Vec<(usize, usize, usize, String)>,
    substs: &[(String, String)],
    out: &mut Out,
    key: &str,
) -> String {
    ed.retain(|e| e.0 >= lo && e.1 <= hi);
    ed.sort_by(|a, b| (a.0, if a.0 == a.1 { 0 } else { 1 }, a.2).cmp(&(b.0, if b.0 == b.1 { 0 } else { 1 }, b.2)));
    let mut s = String::new();
    let mut pos = lo;
    for (a, b, _, x) in ed {
        if a < pos {
            if a == b { // insertion inside a replaced range is dropped
                continue;
            }
            continue;
        }
        s.push_str(&t[pos..a]);
        s.push_str(&x);
        pos = b;
    }
    s.push_str(&t[pos..hi]);
    for (a, b) in substs {
        if s.contains(a.as_str()) {
            s = s.replace(a.as_str(), b);
            out.report.push(format!("rewrite\t{}\tsubst {} => {}", key, a, b));
        }
    }
    s
}

fn degrade_emit(
    src: &Src,
    f: &FnRef,
    c: &Contract,
    out: &mut Out,
    key: &str,
    rn: &dyn Fn(&str) -> String,
    lifted: Option<&syn::ExprClosure>,
) {
    let mut ed = vec![];
    let fx = facts(src, f, None);
    for (a, b, q, t) in &fx.edits {
        ed.push((*a, *b, *q, t.clone()));
    }
    let text = if let Some(s) = &c.sig {
        let _ = lifted;
        format!("{}\n{}\n{{ unimplemented!() }}", rn(s), rn(&c.spec))
    } else {
        if let syn::ReturnType::Type(_, t) = &f.sig.output {
            let r = rng(t);
            ed.push((r.0, r.0, 1, format!("({}: ", c.ret)));
            ed.push((r.1, r.1, 9, ")".into()));
        }
        if let Some(n) = &c.name {
            let r = rng(&f.sig.ident);
            ed.push((r.0, r.1, 5, n.clone()));
        }
        let end = f.block.as_ref().map_or(f.hi, |b| rng(b).0);
        let s = apply(&src.text, f.lo, end, ed, &c.substs, out, key);
        format!("{}\n{}\n{{ unimplemented!() }}", s, rn(&c.spec))
    };
    let attr: String = c.attr.lines().filter(|l| !l.contains("verifier::")).collect::<Vec<_>>().join("\n");
    out.text.push_str(&format!(
        "{}#[verifier::external_body]\n/*@F {}*/ {}\n/*@E {}*/\n",
        with_nl(&attr), key, text, key
    ));
}

fn emit_item(db: &mut Db, file: &str, kind: &str, name: &str, out: &mut Out, substs: &[(String, String)]) {
    let key = format!("{}|{} {}", file, kind, name);
    let src = match db.get(file) {
        Some(s) => s,
        None => {
            out.report.push(format!("item\t{}\tlost", key));
            return;
        }
    };
    for it in &src.file.items {
        let (k, n, lo, hi): (&str, String, usize, usize) = match it {
            syn::Item::Enum(e) => ("enum", e.ident.to_string(), lo_vis(&e.vis, rng(&e.enum_token).0), rng(it).1),
            syn::Item::Struct(e) => ("struct", e.ident.to_string(), lo_vis(&e.vis, rng(&e.struct_token).0), rng(it).1),
            syn::Item::Type(e) => ("type", e.ident.to_string(), lo_vis(&e.vis, rng(&e.type_token).0), rng(it).1),
            syn::Item::Const(e) => ("const", e.ident.to_string(), lo_vis(&e.vis, rng(&e.const_token).0), rng(it).1),
            _ => continue,
        };
        if k == kind && n == name {
            let mut v = V { f: Facts::default(), t: &src.text, collected: false };
            v.f.file_prefix_rules = PREFIXES.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
            v.visit_item(it);
            let mut ed: Vec<(usize, usize, usize, String)> = v.f.edits.iter().map(|(a, b, q, t)| (*a, *b, *q, t.clone())).collect();
            // R10: fields become visible to the specifications
            if let (syn::Item::Struct(e), true) = (it, substs.iter().any(|(a, _)| a == "pubfields")) {
                for f in e.fields.iter() {
                    if let (syn::Visibility::Inherited, Some(id)) = (&f.vis, &f.ident) {
                        ed.push((rng(id).0, rng(id).0, 0, "pub ".to_string()));
                    }
                }
            }
            let substs: Vec<(String, String)> = substs.iter().filter(|(a, _)| a != "pubfields").cloned().collect();
            let s = apply(&src.text, lo, hi, ed, &substs, out, &key);
            let digest: String = norm(it);
            out.new_pins.insert(format!("item|{}", key), digest.clone());
            out.text.push_str(&s);
            out.text.push('\n');
            out.report.push(format!("item\t{}\tok", key));
            return;
        }
    }
    out.report.push(format!("item\t{}\tlost", key));
}
fn lo_vis(v: &syn::Visibility, d: usize) -> usize {
    match v {
        syn::Visibility::Inherited => d,
        v => rng(v).0,
    }
}

fn parse_contract(head: &str, lines: &[String]) -> Contract {
    let w: Vec<&str> = head.splitn(3, ' ').collect();
    let mut c = Contract { kind: w[0].to_string(), file: w[1].to_string(), path: w[2].trim().to_string(), ret: "r".into(), ..Default::default() };
    let mut sect = "spec".to_string();
    for l in lines {
        let t = l.trim_start();
        if let Some(d) = t.strip_prefix("//@") {
            let d = d.trim();
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "name" => c.name = Some(w[1].into()),
                "ret" => c.ret = w[1].into(),
                "trusted" => c.trusted = true,
                "while" => {
                    c.whiles.insert(w[1].parse().unwrap(), w[2].into());
                }
                "wrapiter" => {
                    c.wraps.insert(w[1].parse().unwrap(), w[2].into());
                }
                "subst" => {
                    let (a, b) = d["subst".len()..].split_once("=>").unwrap();
                    c.substs.push((a.trim().replace("\\n", "\n"), b.trim().to_string()));
                }
                "loop" => {
                    let k: usize = w[1].parse().unwrap();
                    let it = if w.len() > 3 && w[2] == "iter" { Some(w[3].to_string()) } else { None };
                    c.loops.insert(k, (it, String::new()));
                    sect = d.to_string();
                }
                "closure" => {
                    c.closures.insert(w[1].parse().unwrap(), String::new());
                    sect = d.to_string();
                }
                "at" => {
                    c.at.push((d[2..].trim().to_string(), String::new()));
                    sect = d.to_string();
                }
                "spec" | "attr" | "sig" => sect = d.to_string(),
                x => panic!("unknown directive {}", x),
            }
            continue;
        }
        let w: Vec<&str> = sect.split_whitespace().collect();
        let dst: &mut String = match w[0] {
            "spec" => &mut c.spec,
            "attr" => &mut c.attr,
            "sig" => c.sig.get_or_insert(String::new()),
            "loop" => &mut c.loops.get_mut(&w[1].parse().unwrap()).unwrap().1,
            "closure" => c.closures.get_mut(&w[1].parse().unwrap()).unwrap(),
            "at" => &mut c.at.last_mut().unwrap().1,
            _ => unreachable!(),
        };
        dst.push_str(l);
        dst.push('\n');
    }
    c
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, dir, outf, repf) = (&a[1], &a[2], &a[3], &a[4]);
    let pin = a.iter().any(|x| x == "--pin");
    let mut degrade = BTreeSet::new();
    for w in a.windows(2) {
        if w[0] == "--degrade" {
            degrade.insert(w[1].clone());
        }
    }
    let mut db = Db { repo: repo.clone(), files: HashMap::new() };
    let pinf = format!("{}/pins.tsv", dir);
    let mut pins = BTreeMap::new();
    for l in fs::read_to_string(&pinf).unwrap_or_default().lines() {
        let w: Vec<&str> = l.split('\t').collect();
        if w.len() == 5 {
            let sp = |s: &str, d: &str| -> Vec<String> { if s.is_empty() { vec![] } else { s.split(d).map(|x| x.to_string()).collect() } };
            pins.insert(w[0].to_string(), Pin { binders: sp(w[1], ","), loops: sp(w[2], ","), calls: sp(w[3], " ; "), closures: w[4].parse().unwrap() });
        }
    }
    let mut out = Out { text: String::new(), report: vec![], pins, new_pins: BTreeMap::new(), degrade, known: BTreeSet::new() };
    let order = fs::read_to_string(format!("{}/order", dir)).unwrap();
    for name in order.split_whitespace() {
        let text = fs::read_to_string(format!("{}/{}", dir, name)).unwrap();
        let mut it = text.lines();
        while let Some(l) = it.next() {
            let t = l.trim_start();
            let d = match t.strip_prefix("//@") {
                Some(d) => d.trim(),
                None => {
                    out.text.push_str(l);
                    out.text.push('\n');
                    continue;
                }
            };
            let w: Vec<&str> = d.split_whitespace().collect();
            match w[0] {
                "item" => {
                    let mut subs = vec![];
                    if d.ends_with(" pubfields") {
                        subs.push(("pubfields".to_string(), String::new()));
                    }
                    if let Some(p) = d.find(" subst ") {
                        let (a, b) = d[p + 7..].split_once("=>").unwrap();
                        subs.push((a.trim().to_string(), b.trim().to_string()));
                    }
                    emit_item(&mut db, w[1], w[2], w[3], &mut out, &subs)
                }
                "fn" | "traitfn" | "lift" => {
                    let mut ls = vec![];
                    loop {
                        match it.next() {
                            Some(l) if l.trim() == "//@end" => break,
                            Some(l) => ls.push(l.to_string()),
                            None => panic!("unterminated {}", d),
                        }
                    }
                    let c = parse_contract(d, &ls);
                    emit_fn(&mut db, &c, &mut out);
                }
                x => panic!("unknown directive {} in {}", x, name),
            }
        }
    }
    // functions of the same files that no skeleton mentions, for the evidence
    let files: Vec<String> = db.files.keys().cloned().collect();
    for fl in files {
        if let Some(Some(s)) = db.files.get(&fl) {
            for it in &s.file.items {
                match it {
                    syn::Item::Fn(f) => {
                        let k = format!("{}|{}", fl, f.sig.ident);
                        if !out.known.contains(&k) {
                            out.report.push(format!("uncontracted\t{}", k));
                        }
                    }
                    syn::Item::Impl(im) => {
                        for m in &im.items {
                            if let syn::ImplItem::Fn(f) = m {
                                let key = match &im.trait_ {
                                    Some((_, p, _)) => format!("{} for {}", norm(p), norm(&im.self_ty)),
                                    None => norm(&im.self_ty),
                                };
                                let k = format!("{}|{}::{}", fl, key, f.sig.ident);
                                let kn = |s: &str| s.replace(' ', "");
                                if !out.known.iter().any(|x| kn(x) == kn(&k)) {
                                    out.report.push(format!("uncontracted\t{}", k));
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // line ranges
    for (n, l) in out.text.lines().enumerate() {
        if let Some(p) = l.find("/*@F ") {
            let k = &l[p + 5..p + 5 + l[p + 5..].find("*/").unwrap()];
            out.report.push(format!("from\t{}\t{}", k, n + 1));
        }
        if let Some(p) = l.find("/*@E ") {
            let k = &l[p + 5..p + 5 + l[p + 5..].find("*/").unwrap()];
            out.report.push(format!("to\t{}\t{}", k, n + 1));
        }
    }
    fs::write(outf, &out.text).unwrap();
    fs::write(repf, out.report.join("\n") + "\n").unwrap();
    if pin {
        let mut s = String::new();
        for (k, v) in &out.new_pins {
            s.push_str(&format!("{}\t{}\n", k, v));
        }
        fs::write(pinf, s).unwrap();
    }
}
