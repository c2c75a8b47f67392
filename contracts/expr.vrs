pub mod func_man {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::anyhow;
use std::collections::{BTreeMap, HashMap};
use vstd::std_specs::convert::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::okv;
pub use crate::caps::{WithFuncs, FuncAdder, Fid, held, fid};
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_into};
/// a host function: `frel` is the (unknown) relation between arguments and results
#[verifier::external_body]
pub struct TFunc { _p: () }
pub uninterp spec fn frel(f: TFunc, args: Seq<TData>, r: Option<TData>) -> bool;
pub open spec fn vals<'a>(args: Seq<TCow<'a>>) -> Seq<TData> { Seq::new(args.len(), |i: int| args[i]@) }
pub broadcast proof fn lemma_vals1<'a>(c: Seq<TCow<'a>>)
    requires c.len() == 1,
    ensures #[trigger] vals(c) == seq![c[0]@],
{
    assert(vals(c) =~= seq![c[0]@]);
}
impl TFunc {
    #[verifier::external_body]
    pub fn call_tfunc<'a>(&self, args: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
        ensures frel(*self, vals(args@), okv(r)),
    { unimplemented!() }
}
pub trait FuncManager {
    spec fn fget(&self, k: Seq<char>) -> Option<TFunc>;
//@fn src/func_man.rs FuncManager::get_func
//@spec
    ensures r is Some <==> self.fget(k@) is Some, r matches Some(f) ==> *f == self.fget(k@)->0,
//@end
}
//@item src/func_man.rs struct BasicFuncs
impl FuncManager for BasicFuncs {
    closed spec fn fget(&self, k: Seq<char>) -> Option<TFunc> {
        if self.funcs@.contains_key(skey(k)) { Some(*self.funcs@[skey(k)]) } else { None }
    }
//@fn src/func_man.rs FuncManagerforBasicFuncs::get_func
//@closure 0
|{c0}: &Box<TFunc>| -> (q: &TFunc) ensures *q == **{c0}
//@end
}
impl BasicFuncs {
//@fn src/func_man.rs BasicFuncs::new
//@spec
    ensures forall|k: Seq<char>| #[trigger] r.fget(k) is None,
//@end
}
impl FuncAdder for BasicFuncs {
    open spec fn at(&self, k: Seq<char>) -> Option<Fid> { held(self.fget(k)) }
//@fn src/func_man.rs FuncAdderforBasicFuncs::add_func
//@at end
    assert forall|n: &str| <K as IntoSpec<String>>::obeys_into_spec() implies #[trigger] self.fget(n@) ==
        if n@ == (<K as IntoSpec<String>>::into_spec(k))@ { Some(*f) } else { old(self).fget(n@) } by {
        assert(skey(n@)@ == n@);
        assert(n@ == ks@ ==> skey(n@) == ks);
    }
//@end
}
}
}
pub mod temp_man {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::anyhow;
use crate::stubs::err_tools::*;
use crate::template::TreeTemplate;
use std::collections::HashMap;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str};
//@item src/temp_man.rs type BasicTemps
//@item src/temp_man.rs struct NoTemplates
/// named templates: lookups may load and keep state, so both are relations on states
pub trait TempManager: Sized {
    spec fn ins_rel(a: Self, k: Seq<char>, t: TreeTemplate, b: Self) -> bool;
    spec fn get_rel(a: Self, k: Seq<char>, b: Self, r: Option<TreeTemplate>) -> bool;
//@fn src/temp_man.rs TempManager::insert_t
//@spec
    ensures Self::ins_rel(*old(self), k@, t, *final(self)),
//@end
//@fn src/temp_man.rs TempManager::get_t
//@spec
    ensures Self::get_rel(*old(self), k@, *final(self), match r { Ok(t) => Some(*t), Err(_) => None }),
//@end
}
impl TempManager for BasicTemps {
    open spec fn ins_rel(a: Self, k: Seq<char>, t: TreeTemplate, b: Self) -> bool {
        forall|q: String| q@ == k ==> b@ == #[trigger] a@.insert(q, t)
    }
    open spec fn get_rel(a: Self, k: Seq<char>, b: Self, r: Option<TreeTemplate>) -> bool {
        a == b && r == if a@.contains_key(skey(k)) { Some(a@[skey(k)]) } else { None }
    }
//@fn src/temp_man.rs TempManagerforBasicTemps::insert_t
//@end
//@fn src/temp_man.rs TempManagerforBasicTemps::get_t
//@end
}
impl TempManager for NoTemplates {
    open spec fn ins_rel(a: Self, k: Seq<char>, t: TreeTemplate, b: Self) -> bool { a == b }
    open spec fn get_rel(a: Self, k: Seq<char>, b: Self, r: Option<TreeTemplate>) -> bool { a == b && r is None }
//@fn src/temp_man.rs TempManagerforNoTemplates::insert_t
//@end
//@fn src/temp_man.rs TempManagerforNoTemplates::get_t
//@end
}
}
}
pub mod expr {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::scope::*;
use crate::func_man::*;
use crate::temp_man::*;
use crate::template::*;
use crate::mspec::okv;
use crate::stubs::anyhow;
use crate::stubs::err_tools::*;
use std::ops::Deref;
use std::collections::HashMap;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_into, crate::shim::group_fmt, crate::tdata::group_cow, crate::tparam::lemma_dyn_push};
//@item src/expr.rs enum VarPart
//@item src/expr.rs enum Expr
impl std::fmt::Debug for VarPart {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
impl Clone for Expr {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- what evaluating an expression means: the state of the template manager goes
// from a to b, and the outcome is a value or an error. States thread left to right,
// so order, laziness and single evaluation are part of the relation.

/// Defined by structural recursion on the expression: axiom_expr is its defining
/// equation (the recursion goes to subexpressions only; a template called by name
/// is behind call_rel).
pub uninterp spec fn expr_rel<TM: TempManager, FM: FuncManager>(e: Expr, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool;
pub broadcast axiom fn axiom_expr<TM: TempManager, FM: FuncManager>(e: Expr, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>)
    ensures #[trigger] expr_rel(e, s, fm, a, b, r) == expr_step(e, s, fm, a, b, r);
/// a template called as a function: its "return" if it exported one, else its text
pub open spec fn call_val<TM: TempManager, FM: FuncManager>(t: TreeTemplate, args: Seq<TData>, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool {
    exists|o: Option<(Seq<char>, Map<String, TData>)>| #[trigger] call_rel(t, dlooks(args), fm, a, b, o) && match o {
        None => r is None,
        Some((s, m)) => if m.contains_key(skey("return"@)) { r == Some(m[skey("return"@)]) }
            else { r matches Some(TData::String(x)) && x@ == s },
    }
}
/// calling a name on values: the host function of that name, else the named template
pub open spec fn values_rel<TM: TempManager, FM: FuncManager>(c: Seq<char>, args: Seq<TData>, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool {
    match fm.fget(c) {
        Some(f) => a == b && frel(f, args, r),
        None => exists|m: TM, t: Option<TreeTemplate>| #[trigger] TM::get_rel(a, c, m, t) && match t {
            Some(tp) => call_val(tp, args, fm, m, b, r),
            None => m == b && r is None,
        },
    }
}
/// the first n expressions evaluate, in order, to vs through the states t
pub open spec fn achain<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, t: Seq<TM>, vs: Seq<TData>) -> bool
{
    vs.len() <= es.len() && t.len() == vs.len() + 1
    && forall|i: int| 0 <= i < vs.len() ==> #[trigger] expr_rel(es[i], s, fm, t[i], t[i + 1], Some(vs[i]))
}
/// all of them, or up to the first that fails
pub open spec fn args_rel<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, a: TM, b: TM, r: Option<Seq<TData>>) -> bool
{
    exists|t: Seq<TM>, vs: Seq<TData>| #[trigger] achain(es, s, fm, t, vs) && t[0] == a && match r {
        Some(w) => vs.len() == es.len() && w == vs && t.last() == b,
        None => vs.len() < es.len() && expr_rel(es[vs.len() as int], s, fm, t.last(), b, None),
    }
}
pub open spec fn null_or_err(o: Option<TData>) -> bool { o matches Some(d) ==> td_eq(d, TData::Null) }
pub open spec fn nchain<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, t: Seq<TM>, os: Seq<Option<TData>>) -> bool
{
    os.len() <= es.len() && t.len() == os.len() + 1
    && (forall|i: int| 0 <= i < os.len() ==> null_or_err(#[trigger] os[i]))
    && (forall|i: int| 0 <= i < os.len() ==> #[trigger] expr_rel(es[i], s, fm, t[i], t[i + 1], os[i]))
}
pub proof fn lemma_npush<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, t: Seq<TM>, os: Seq<Option<TData>>, b: TM, o: Option<TData>)
    requires nchain(es, s, fm, t, os), os.len() < es.len(), null_or_err(o), expr_rel(es[os.len() as int], s, fm, t.last(), b, o),
    ensures nchain(es, s, fm, t.push(b), os.push(o)),
{
    let t2 = t.push(b); let o2 = os.push(o);
    assert forall|i: int| 0 <= i < o2.len() implies #[trigger] expr_rel(es[i], s, fm, t2[i], t2[i + 1], o2[i]) by {
        if i < os.len() { assert(expr_rel(es[i], s, fm, t[i], t[i + 1], os[i])); }
    }
}
/// `first`: the first argument that evaluates to something other than null
pub open spec fn first_rel<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool
{
    exists|t: Seq<TM>, os: Seq<Option<TData>>| #[trigger] nchain(es, s, fm, t, os) && t[0] == a && (
        if os.len() == es.len() { r == Some(TData::Null) && t.last() == b }
        else { os.len() < es.len() && r is Some && !null_or_err(r) && expr_rel(es[os.len() as int], s, fm, t.last(), b, r) })
}
pub open spec fn select_idx(d: TData) -> Option<int> {
    match idx_of(d) {
        Some(n) => Some(n as int + 1),
        None => match truth(d) { Some(b) => Some(if b { 1 } else { 2 }), None => None },
    }
}
/// `select`: the test, then only the argument it picks
pub open spec fn select_rel<TM: TempManager, FM: FuncManager>(es: Seq<Expr>, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool
{
    if es.len() < 3 { a == b && r is None } else {
        exists|m: TM, o: Option<TData>| #[trigger] expr_rel(es[0], s, fm, a, m, o) && match o {
            None => m == b && r is None,
            Some(d) => match select_idx(d) {
                Some(n) => if n < es.len() { 0 < n && expr_rel(es[n], s, fm, m, b, r) } else { m == b && r is None },
                None => m == b && r is None,
            },
        }
    }
}
pub open spec fn run_rel<TM: TempManager, FM: FuncManager>(c: Seq<char>, vs: Seq<TData>, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool {
    if c == "run"@ && vs.len() > 0 && vs[0] is Template { call_val(vs[0]->Template_0, vs.skip(1), fm, a, b, r) }
    else { values_rel(c, vs, fm, a, b, r) }
}
pub open spec fn cmd_rel<TM: TempManager, FM: FuncManager>(c: Seq<char>, es: Seq<Expr>, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool
{
    if c == "first"@ { first_rel(es, s, fm, a, b, r) }
    else if c == "select"@ { select_rel(es, s, fm, a, b, r) }
    else {
        ||| r is None && args_rel(es, s, fm, a, b, None)
        ||| exists|m: TM, vs: Seq<TData>| #[trigger] args_rel(es, s, fm, a, m, Some(vs)) && run_rel(c, vs, fm, m, b, r)
    }
}
pub open spec fn mexprs(m: Seq<(String, Expr)>) -> Seq<Expr> { Seq::new(m.len(), |i: int| m[i].1) }
/// insert in order: a later key replaces an earlier one
pub open spec fn ins_all(ks: Seq<String>, vs: Seq<TData>) -> Map<String, TData>
    decreases vs.len()
{
    if vs.len() == 0 { Map::empty() } else { ins_all(ks, vs.drop_last()).insert(ks[vs.len() - 1], vs.last()) }
}
pub open spec fn mkeys(m: Seq<(String, Expr)>) -> Seq<String> { Seq::new(m.len(), |i: int| m[i].0) }
pub open spec fn mchain<TM: TempManager, FM: FuncManager>(es: Seq<(String, Expr)>, s: SView, fm: FM, t: Seq<TM>, vs: Seq<TData>) -> bool
{
    vs.len() <= es.len() && t.len() == vs.len() + 1
    && forall|i: int| 0 <= i < vs.len() ==> #[trigger] expr_rel(es[i].1, s, fm, t[i], t[i + 1], Some(vs[i]))
}
pub open spec fn expr_step<TM: TempManager, FM: FuncManager>(e: Expr, s: SView, fm: FM, a: TM, b: TM, r: Option<TData>) -> bool
{
    match e {
        Expr::Lit(v) => a == b && r == Some(v),
        Expr::Var(v) => a == b && r == var_val(s, v@),
        Expr::Command(c, es) => cmd_rel(c@, es@, s, fm, a, b, r),
        Expr::List(es) => match r {
            None => args_rel(es@, s, fm, a, b, None),
            Some(d) => d matches TData::List(l) && args_rel(es@, s, fm, a, b, Some(l@)),
        },
        Expr::Map(es) => exists|t: Seq<TM>, vs: Seq<TData>| #[trigger] mchain(es@, s, fm, t, vs) && t[0] == a && (
            if vs.len() == es@.len() { t.last() == b && (r matches Some(TData::Map(m)) && m@ == ins_all(mkeys(es@), vs)) }
            else { vs.len() < es@.len() && r is None && expr_rel(es@[vs.len() as int].1, s, fm, t.last(), b, None) }),
    }
}
impl VarPart {
//@fn src/expr.rs VarPart::as_str
//@spec
    ensures r matches Some(s) ==> (self matches VarPart::Id(t) && t@ == s@), r is Some <==> self is Id,
//@end
}
//@fn src/expr.rs run_values
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    ensures values_rel(cname@, vals(args@), *fm, *old(tm), *final(tm), okv(r)),
//@at start
    proof { lemma_dyn_empty(); }
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        v2.len() == it.index(), forall|i: int, l: Seq<VarPart>| 0 <= i < it.index() ==> #[trigger] v2@[i].look(l) == td_look(args@[i]@, l),
//@closure 0
|{c0}: &TreeTemplate| -> (q: TreeTemplate) ensures q == *{c0}
//@at loop 0 before
    let ghost m0 = *tm;
    assert(TM::get_rel(*old(tm), cname@, m0, Some(in_tp)));
//@at loop 0 start
    let ghost ov = v2@;
//@at loop 0 end
    proof { let d: &dyn TParam = a; lemma_dyn_push(ov, d); }
//@at loop 0 after
    proof { lemma_plooks(v2@, vals(args@)); }
//@end
//@fn src/expr.rs run_command
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    ensures cmd_rel(cname@, args@, scope@, *fm, *old(tm), *final(tm), okv(r)),
//@at start
    proof { lemma_dyn_empty(); reveal_strlit("run"); reveal_strlit("first"); reveal_strlit("select"); reveal_strlit("return");
        assert("run"@.len() == 3 && "first"@.len() == 5 && "select"@.len() == 6); }
    let ghost mut t0: Seq<TM> = seq![*tm];
    let ghost mut t1: Seq<TM> = seq![*tm];
    let ghost mut os: Seq<Option<TData>> = seq![];
    let ghost mut t2: Seq<TM> = seq![*tm];
    assert(achain(args@, scope@, *fm, t0, Seq::empty()));
    assert(nchain(args@, scope@, *fm, t1, os));
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        achain(args@, scope@, *fm, t0, vals(tds@)), t0[0] == *old(tm), t0.last() == *tm, tds.len() == it.index(),
//@at loop 0 start
    let ghost ov = vals(tds@);
    assert(*p == args@[it.index() as int]);
//@at loop 0 end
    proof {
        t0 = t0.push(*tm);
        assert(vals(tds@) =~= ov.push(tds@.last()@));
    }
//@loop 1 iter it
    invariant
        tds@.len() == args.len(),
        it.seq().len() == tds.len() - 1, forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == tds@[i + 1],
        v.len() == it.index(), forall|i: int, l: Seq<VarPart>| 0 <= i < it.index() ==> #[trigger] v@[i].look(l) == td_look(tds@[i + 1]@, l),
//@at loop 1 start
    let ghost ow = v@;
//@at loop 1 end
    proof { let d: &dyn TParam = p; lemma_dyn_push(ow, d); }
//@at loop 0 after
    assert(args_rel(args@, scope@, *fm, *old(tm), *tm, Some(vals(tds@))));
//@at loop 3 after
    assert(args_rel(args@, scope@, *fm, *old(tm), *tm, Some(vals(v@))));
//@at loop 1 after
    proof { assert(vals(tds@).skip(1).len() == v.len()); lemma_plooks(v@, vals(tds@).skip(1)); }
//@loop 2 iter it
    invariant
        it.seq().len() == args.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        nchain(args@, scope@, *fm, t1, os), t1[0] == *old(tm), t1.last() == *tm, os.len() == it.index(),
//@at loop 2 end
    proof {
        let o = choose|o: Option<TData>| null_or_err(o) && #[trigger] expr_rel(*p, scope@, *fm, t1.last(), *tm, o);
        lemma_npush(args@, scope@, *fm, t1, os, *tm, o);
        t1 = t1.push(*tm); os = os.push(o);
    }
//@loop 3 iter it
    invariant
        it.seq().len() == args.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        achain(args@, scope@, *fm, t2, vals(v@)), t2[0] == *old(tm), t2.last() == *tm, v.len() == it.index(),
//@at loop 2 start
    assert(*p == args@[it.index() as int]);
//@at loop 3 start
    assert(*p == args@[it.index() as int]);
    let ghost ov = vals(v@);
//@at loop 3 end
    proof {
        t2 = t2.push(*tm);
        assert(vals(v@) =~= ov.push(v@.last()@));
    }
//@end
impl Expr {
//@fn src/expr.rs Expr::run
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    ensures expr_step(*self, scope@, *fm, *old(tm), *final(tm), okv(r)), expr_rel(*self, scope@, *fm, *old(tm), *final(tm), okv(r)),
//@at start
    proof { broadcast use axiom_expr; }
    let ghost mut t: Seq<TM> = seq![*tm];
    let ghost mut u: Seq<TM> = seq![*tm];
    let ghost mut vs: Seq<TData> = seq![];
//@at loop 0 before
    assert(achain(v@, scope@, *fm, t, Seq::empty()));
//@loop 0 iter it
    invariant
        it.seq().len() == v.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == v@[i],
        achain(v@, scope@, *fm, t, res@), t[0] == *old(tm), t.last() == *tm, res.len() == it.index(),
//@at loop 0 start
    assert(*c == v@[it.index() as int]);
//@at loop 0 end
    proof { t = t.push(*tm); }
//@at loop 0 after
    assert(args_rel(v@, scope@, *fm, *old(tm), *tm, Some(res@)));
//@at loop 1 before
    assert(mchain(m@, scope@, *fm, u, vs));
//@loop 1 iter it
    invariant
        it.seq().len() == m.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == m@[i],
        mchain(m@, scope@, *fm, u, vs), u[0] == *old(tm), u.last() == *tm, vs.len() == it.index(),
        res@ == ins_all(mkeys(m@), vs),
//@at loop 1 start
    assert((*k, *v) == m@[it.index() as int]);
    let ghost ovs = vs;
//@at loop 1 end
    proof { u = u.push(*tm); vs = vs.push(r@); assert(vs.drop_last() =~= ovs); assert(mkeys(m@)[it.index() as int] == *k); }
//@end
}
}
}
