pub mod teq {
use vstd::prelude::*;
use crate::template::TreeTemplate;
verus!{
/// derived: item by item, with the values' own equality in literals
pub uninterp spec fn tmpl_eq(a: TreeTemplate, b: TreeTemplate) -> bool;
}
}
pub mod template {
pub use crate::teq::tmpl_eq;
use vstd::prelude::*;
use crate::*;
use crate::tdata::*;
use crate::expr::*;
use crate::tparam::*;
use crate::func_man::*;
use crate::temp_man::*;
use crate::pattern::*;
use crate::shim::*;
use crate::disp::*;
use crate::mspec::okv;
use crate::stubs::anyhow;
use crate::stubs::err_tools::*;
use std::collections::HashMap;
use crate::scope::*;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_into, crate::shim::group_fmt, crate::tdata::group_cow, crate::disp::group_disp, crate::pattern::lemma_frame_pop, crate::func_man::lemma_vals1};
//@item src/template.rs type Block
//@item src/template.rs struct Case pubfields
//@item src/template.rs enum TreeItem
//@item src/template.rs struct TreeTemplate
//@item src/template.rs enum FlatItem
//@item src/template.rs struct FlatTemplate
impl vstd::std_specs::cmp::PartialEqSpecImpl for TreeTemplate {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TreeTemplate) -> bool { tmpl_eq(*self, *other) }
}
impl PartialEq for TreeTemplate {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl Clone for TreeTemplate {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for TreeItem {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn tstr(x: Seq<char>) -> TData { TData::String(skey(x)) }
pub open spec fn strv(r: anyhow::Result<String>) -> Option<Seq<char>> { match r { Ok(s) => Some(s@), Err(_) => None } }
/// texts one after another
pub open spec fn catn(x: Seq<Seq<char>>) -> Seq<char>
    decreases x.len()
{
    if x.len() == 0 { Seq::empty() } else { catn(x.drop_last()) + x.last() }
}
pub proof fn lemma_catn(x: Seq<Seq<char>>, y: Seq<char>)
    ensures catn(x.push(y)) == catn(x) + y,
{
    assert(x.push(y).drop_last() =~= x);
}

// ---- what running an item means: scope s0 to s1, template manager a to b, and the
// text, or None for an error. Defined by structural recursion (axiom_item); named
// templates are behind call_rel.
pub uninterp spec fn item_rel<TM: TempManager, FM: FuncManager>(i: TreeItem, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool;
pub broadcast axiom fn axiom_item<TM: TempManager, FM: FuncManager>(i: TreeItem, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>)
    ensures #[trigger] item_rel(i, s0, s1, fm, a, b, r) == item_step(i, s0, s1, fm, a, b, r);
pub broadcast proof fn lemma_item<TM: TempManager, FM: FuncManager>(i: TreeItem, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>)
    requires #[trigger] item_step(i, s0, s1, fm, a, b, r),
    ensures item_rel(i, s0, s1, fm, a, b, r),
{
    axiom_item(i, s0, s1, fm, a, b, r);
}
pub open spec fn ichain<TM: TempManager, FM: FuncManager>(is: Seq<TreeItem>, ss: Seq<SView>, fm: FM, t: Seq<TM>, outs: Seq<Seq<char>>) -> bool {
    &&& outs.len() <= is.len() && ss.len() == outs.len() + 1 && t.len() == outs.len() + 1
    &&& forall|i: int| 0 <= i < outs.len() ==> #[trigger] item_rel(is[i], ss[i], ss[i + 1], fm, t[i], t[i + 1], Some(outs[i]))
}
/// a block: items in order up to the first error, on its own level of names, which is
/// gone at the end, error or not
pub open spec fn block_rel<TM: TempManager, FM: FuncManager>(is: Seq<TreeItem>, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    exists|ss: Seq<SView>, t: Seq<TM>, outs: Seq<Seq<char>>| #[trigger] ichain(is, ss, fm, t, outs) && ss[0] == s0.push() && t[0] == a && match r {
        Some(x) => outs.len() == is.len() && x == catn(outs) && ss.last().pop() == s1 && t.last() == b,
        None => outs.len() < is.len() && exists|s: SView| #[trigger] item_rel(is[outs.len() as int], ss.last(), s, fm, t.last(), b, None) && s1 == s.pop(),
    }
}
/// a template run on parameters: its items in order in a fresh scope of its own; the
/// text and the root names
pub open spec fn body_rel<TM: TempManager, FM: FuncManager>(tp: TreeTemplate, ps: Seq<Look>, fm: FM, a: TM, b: TM, o: Option<(Seq<char>, Map<String, TData>)>) -> bool {
    exists|ss: Seq<SView>, t: Seq<TM>, outs: Seq<Seq<char>>| #[trigger] ichain(tp.v@, ss, fm, t, outs) && ss[0] == fresh(ps, tp.pnames@) && t[0] == a && match o {
        Some((x, m)) => outs.len() == tp.v@.len() && x == catn(outs) && ss.last().maps[0] == m && t.last() == b,
        None => outs.len() < tp.v@.len() && exists|s: SView| #[trigger] item_rel(tp.v@[outs.len() as int], ss.last(), s, fm, t.last(), b, None),
    }
}
/// the least relation closed under the rule of axiom_call (templates may call each other)
pub uninterp spec fn call_rel<TM: TempManager, FM: FuncManager>(t: TreeTemplate, ps: Seq<Look>, fm: FM, a: TM, b: TM, o: Option<(Seq<char>, Map<String, TData>)>) -> bool;
pub broadcast axiom fn axiom_call<TM: TempManager, FM: FuncManager>(t: TreeTemplate, ps: Seq<Look>, fm: FM, a: TM, b: TM, o: Option<(Seq<char>, Map<String, TData>)>)
    requires #[trigger] body_rel(t, ps, fm, a, b, o),
    ensures call_rel(t, ps, fm, a, b, o);

// let / export: each name is bound before the next expression is evaluated
pub open spec fn bind(s: SView, root: bool, k: String, d: TData) -> SView { if root { s.set_root(k, d) } else { s.set(k, d) } }
pub open spec fn lchain<TM: TempManager, FM: FuncManager>(es: Seq<(String, Expr)>, root: bool, ss: Seq<SView>, fm: FM, t: Seq<TM>, vs: Seq<TData>) -> bool {
    &&& vs.len() <= es.len() && ss.len() == vs.len() + 1 && t.len() == vs.len() + 1
    &&& forall|i: int| 0 <= i < vs.len() ==> #[trigger] expr_rel(es[i].1, ss[i], fm, t[i], t[i + 1], Some(vs[i]))
    &&& forall|i: int| 0 <= i < vs.len() ==> ss[i + 1] == bind(ss[i], root, es[i].0, #[trigger] vs[i])
}
pub open spec fn let_rel<TM: TempManager, FM: FuncManager>(es: Seq<(String, Expr)>, root: bool, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    exists|ss: Seq<SView>, t: Seq<TM>, vs: Seq<TData>| #[trigger] lchain(es, root, ss, fm, t, vs) && ss[0] == s0 && t[0] == a && ss.last() == s1 && (
        if vs.len() == es.len() { r == Some(Seq::<char>::empty()) && t.last() == b }
        else { vs.len() < es.len() && r is None && expr_rel(es[vs.len() as int].1, s1, fm, t.last(), b, None) })
}
// loops
/// every entry of a map once (its order is the map's), list members by number, a count from 0
pub open spec fn for_kvs(d: TData, kvs: Seq<(TData, TData)>) -> bool {
    match d {
        TData::Map(m) => exists|o: Seq<(String, TData)>| #[trigger] map_order(m@, o) && kvs == map_kvs(o),
        TData::List(l) => kvs == Seq::new(l@.len(), |i: int| (TData::UInt(i as usize), l@[i])),
        TData::UInt(n) => kvs == Seq::new(n as nat, |i: int| (TData::UInt(i as usize), TData::UInt(i as usize))),
        TData::Int(n) => kvs == Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| (TData::UInt(i as usize), TData::Int(i as isize))),
        _ => false,
    }
}
pub open spec fn map_kvs(o: Seq<(String, TData)>) -> Seq<(TData, TData)> { Seq::new(o.len(), |i: int| (TData::String(o[i].0), o[i].1)) }
pub open spec fn loops(d: TData) -> bool { d is Map || d is List || d is UInt || d is Int }
pub open spec fn turn(s: SView, k: String, v: String, kv: (TData, TData)) -> SView { s.set(k, kv.0).set(v, kv.1) }
pub open spec fn fchain<TM: TempManager, FM: FuncManager>(kvs: Seq<(TData, TData)>, k: String, v: String, is: Seq<TreeItem>, ss: Seq<SView>, fm: FM, t: Seq<TM>, outs: Seq<Seq<char>>) -> bool {
    &&& outs.len() <= kvs.len() && ss.len() == outs.len() + 1 && t.len() == outs.len() + 1
    &&& forall|i: int| 0 <= i < outs.len() ==> #[trigger] block_rel(is, turn(ss[i], k, v, kvs[i]), ss[i + 1], fm, t[i], t[i + 1], Some(outs[i]))
}
pub open spec fn fend<TM: TempManager, FM: FuncManager>(kvs: Seq<(TData, TData)>, k: String, v: String, is: Seq<TreeItem>, ss: Seq<SView>, fm: FM, t: Seq<TM>, outs: Seq<Seq<char>>, s1: SView, b: TM, r: Option<Seq<char>>) -> bool {
    match r {
        Some(x) => outs.len() == kvs.len() && x == catn(outs) && ss.last() == s1 && t.last() == b,
        None => outs.len() < kvs.len() && block_rel(is, turn(ss.last(), k, v, kvs[outs.len() as int]), s1, fm, t.last(), b, None),
    }
}
pub open spec fn for_rel<TM: TempManager, FM: FuncManager>(d: TData, k: String, v: String, is: Seq<TreeItem>, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    exists|kvs: Seq<(TData, TData)>, ss: Seq<SView>, t: Seq<TM>, outs: Seq<Seq<char>>| #[trigger] fchain(kvs, k, v, is, ss, fm, t, outs) && for_kvs(d, kvs)
        && ss[0] == s0 && t[0] == a && fend(kvs, k, v, is, ss, fm, t, outs, s1, b, r)
}
// switch / as
pub open spec fn row(c: Case) -> Seq<(Pattern, Seq<TreeItem>)> { Seq::new(c.pats@.len(), |i: int| (c.pats@[i], c.block@)) }
/// the patterns of all cases in order, each with its block
pub open spec fn alts(cs: Seq<Case>) -> Seq<(Pattern, Seq<TreeItem>)>
    decreases cs.len()
{
    if cs.len() == 0 { Seq::empty() } else { alts(cs.drop_last()) + row(cs.last()) }
}
proof fn lemma_alts(cs: Seq<Case>, n: int, j: int)
    requires 0 <= n < cs.len(), 0 <= j < cs[n].pats@.len(),
    ensures alts(cs.take(n)).len() + j < alts(cs).len(), alts(cs)[alts(cs.take(n)).len() + j] == (cs[n].pats@[j], cs[n].block@),
    decreases cs.len()
{
    if n == cs.len() - 1 {
        assert(cs.drop_last() =~= cs.take(n));
    } else {
        lemma_alts(cs.drop_last(), n, j);
        assert(cs.drop_last().take(n) =~= cs.take(n));
    }
}
proof fn lemma_alts_len(cs: Seq<Case>, n: int)
    requires 0 <= n < cs.len(),
    ensures alts(cs.take(n + 1)).len() == alts(cs.take(n)).len() + cs[n].pats@.len(),
{
    assert(cs.take(n + 1).drop_last() =~= cs.take(n));
}
/// the alternatives that do not match; what a failed match bound is gone again
pub open spec fn falls<TM: TempManager, FM: FuncManager>(al: Seq<(Pattern, Seq<TreeItem>)>, d: TData, s0: SView, ms: Seq<SView>, fm: FM, t: Seq<TM>) -> bool {
    &&& ms.len() <= al.len() && t.len() == ms.len() + 1
    &&& forall|i: int| 0 <= i < ms.len() ==> #[trigger] match_rel(al[i].0, d, s0.push(), ms[i], fm, t[i], t[i + 1], false)
}
/// a pattern that matches, and its block, which sees what the pattern bound
pub open spec fn arm_rel<TM: TempManager, FM: FuncManager>(p: Pattern, is: Seq<TreeItem>, d: TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    exists|s: SView, m: TM, e: SView| #[trigger] match_rel(p, d, s0.push(), s, fm, a, m, true) && #[trigger] block_rel(is, s, e, fm, m, b, r) && s1 == e.pop()
}
pub open spec fn sw_rel<TM: TempManager, FM: FuncManager>(al: Seq<(Pattern, Seq<TreeItem>)>, d: TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    exists|ms: Seq<SView>, t: Seq<TM>| #[trigger] falls(al, d, s0, ms, fm, t) && t[0] == a && (
        if ms.len() == al.len() { s1 == s0 && t.last() == b && r == Some(Seq::<char>::empty()) }
        else { ms.len() < al.len() && arm_rel(al[ms.len() as int].0, al[ms.len() as int].1, d, s0, s1, fm, t.last(), b, r) })
}
/// a value computed by an expression, then the rest with it; None if it fails
pub open spec fn show(o: Option<TData>) -> Option<Seq<char>> { match o { Some(d) => Some(disp(d)), None => None } }
/// a command block's function on its (already rendered) text
pub open spec fn filter_rel<TM: TempManager, FM: FuncManager>(c: Seq<char>, ps: Seq<Expr>, x: Seq<char>, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    if ps.len() == 0 {
        s1 == s0 && exists|o: Option<TData>| #[trigger] values_rel(c, seq![tstr(x)], fm, a, b, o) && r == show(o)
    } else {
        s1 == s0.set(skey("@"@), tstr(x)) && {
            ||| r is None && args_rel(ps, s1, fm, a, b, None)
            ||| exists|m: TM, vs: Seq<TData>, o: Option<TData>| #[trigger] args_rel(ps, s1, fm, a, m, Some(vs)) && #[trigger] values_rel(c, vs, fm, m, b, o) && r == show(o)
        }
    }
}
pub open spec fn cond_rel<TM: TempManager, FM: FuncManager>(yes: bool, y: Seq<TreeItem>, n: Option<Block>, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    if yes { block_rel(y, s0, s1, fm, a, b, r) }
    else { match n { Some(l) => block_rel(l@, s0, s1, fm, a, b, r), None => s0 == s1 && a == b && r == Some(Seq::<char>::empty()) } }
}
pub open spec fn item_step<TM: TempManager, FM: FuncManager>(i: TreeItem, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>) -> bool {
    match i {
        TreeItem::String(x) => s0 == s1 && a == b && r == Some(x@),
        TreeItem::Comment => s0 == s1 && a == b && r == Some(Seq::<char>::empty()),
        TreeItem::Let(es) => let_rel(es@, false, s0, s1, fm, a, b, r),
        TreeItem::Export(es) => let_rel(es@, true, s0, s1, fm, a, b, r),
        TreeItem::Return(e) => {
            ||| r is None && s0 == s1 && expr_rel(e, s0, fm, a, b, None)
            ||| r == Some(Seq::<char>::empty()) && exists|d: TData| #[trigger] expr_rel(e, s0, fm, a, b, Some(d)) && s1 == s0.set_root(skey("return"@), d)
        },
        TreeItem::Exp(e) => s0 == s1 && exists|o: Option<TData>| #[trigger] expr_rel(e, s0, fm, a, b, o) && r == show(o),
        TreeItem::If { cond, yes, no } => exists|m: TM, o: Option<TData>| #[trigger] expr_rel(cond, s0, fm, a, m, o)
            && cond_rel(match o { Some(d) => truth(d) == Some(true), None => false }, yes@, no, s0, s1, fm, m, b, r),
        TreeItem::For { k, v, p, b: body } => {
            ||| r is None && s0 == s1 && expr_rel(p, s0, fm, a, b, None)
            ||| r is None && s0 == s1 && exists|d: TData| #[trigger] expr_rel(p, s0, fm, a, b, Some(d)) && !loops(d)
            ||| exists|d: TData, m: TM| #[trigger] expr_rel(p, s0, fm, a, m, Some(d)) && for_rel(d, k, v, body@, s0, s1, fm, m, b, r)
        },
        TreeItem::Block { command, params, block } => {
            ||| r is None && block_rel(block@, s0, s1, fm, a, b, None)
            ||| exists|s: SView, m: TM, x: Seq<char>| #[trigger] block_rel(block@, s0, s, fm, a, m, Some(x)) && filter_rel(command@, params@, x, s, s1, fm, m, b, r)
        },
        TreeItem::AtLet(k, l) => {
            ||| r is None && block_rel(l@, s0, s1, fm, a, b, None)
            ||| r == Some(Seq::<char>::empty()) && exists|s: SView, x: Seq<char>| #[trigger] block_rel(l@, s0, s, fm, a, b, Some(x)) && s1 == s.set(k, tstr(x))
        },
        TreeItem::AtExport(k, l) => {
            ||| r is None && block_rel(l@, s0, s1, fm, a, b, None)
            ||| r == Some(Seq::<char>::empty()) && exists|s: SView, x: Seq<char>| #[trigger] block_rel(l@, s0, s, fm, a, b, Some(x)) && s1 == s.set_root(k, tstr(x))
        },
        TreeItem::Define(k, ns, l) => r == Some(Seq::<char>::empty()) && a == b && s1 == s0.set(k, TData::Template(TreeTemplate { v: l, pnames: ns })),
        TreeItem::Global(k, ns, l) => r == Some(Seq::<char>::empty()) && s1 == s0 && TM::ins_rel(a, k@, TreeTemplate { v: l, pnames: ns }, b),
        TreeItem::Switch(e, cs) => {
            ||| r is None && s0 == s1 && expr_rel(e, s0, fm, a, b, None)
            ||| exists|d: TData, m: TM| #[trigger] expr_rel(e, s0, fm, a, m, Some(d)) && sw_rel(alts(cs@), d, s0, s1, fm, m, b, r)
        },
        TreeItem::As { exp, pat, block } => {
            ||| r is None && s0 == s1 && expr_rel(exp, s0, fm, a, b, None)
            ||| exists|d: TData, m: TM| #[trigger] expr_rel(exp, s0, fm, a, m, Some(d)) && {
                ||| arm_rel(pat, block@, d, s0, s1, fm, m, b, r)
                ||| s1 == s0 && r == Some(Seq::<char>::empty()) && exists|s: SView| #[trigger] match_rel(pat, d, s0.push(), s, fm, m, b, false)
            }
        },
    }
}
// ---- what running cannot touch
/// parameters and open levels stay; of the names only the root and the innermost level may change
pub open spec fn frame_item(s0: SView, s1: SView) -> bool {
    &&& s1.params == s0.params && s1.pnames == s0.pnames && s1.maps.len() == s0.maps.len()
    &&& forall|i: int| 0 < i < s0.maps.len() - 1 ==> #[trigger] s1.maps[i] == s0.maps[i]
}
/// after a block every level but the root is as it was
pub open spec fn frame_block(s0: SView, s1: SView) -> bool {
    &&& s1.params == s0.params && s1.pnames == s0.pnames && s1.maps.len() == s0.maps.len()
    &&& forall|i: int| 0 < i < s0.maps.len() ==> #[trigger] s1.maps[i] == s0.maps[i]
}
/// no export, @export or return inside: then the root names stay as well
pub open spec fn quiet(i: TreeItem) -> bool
    decreases i
{
    match i {
        TreeItem::Export(_) | TreeItem::Return(_) | TreeItem::AtExport(_, _) => false,
        TreeItem::If { cond, yes, no } => quiet_all(yes) && match no { Some(l) => quiet_all(l), None => true },
        TreeItem::For { k, v, p, b } => quiet_all(b),
        TreeItem::Block { command, params, block } => quiet_all(block),
        TreeItem::AtLet(k, l) => quiet_all(l),
        TreeItem::Switch(e, cs) => forall|j: int| 0 <= j < cs@.len() ==> quiet_all((#[trigger] cs@[j]).block),
        TreeItem::As { exp, pat, block } => quiet_all(block),
        _ => true,
    }
}
pub open spec fn quiet_all(l: Vec<TreeItem>) -> bool
    decreases l
{
    forall|j: int| 0 <= j < l@.len() ==> quiet(#[trigger] l@[j])
}
pub open spec fn same_root(s0: SView, s1: SView) -> bool { s0.maps.len() > 1 ==> s1.maps[0] == s0.maps[0] }
//@fn src/template.rs run_block
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires old(scope)@.wf(),
    ensures
        block_rel(block@, old(scope)@, final(scope)@, *fm, *old(tm), *final(tm), strv(r)),
        frame_block(old(scope)@, final(scope)@),
        quiet_all(*block) ==> final(scope)@.maps[0] == old(scope)@.maps[0],
//@at start
    hide(item_step);
    proof { broadcast use lemma_item; }
    let ghost s0 = scope@.push();
    let ghost mut t: Seq<TM> = seq![*tm];
    let ghost mut ss: Seq<SView> = seq![s0];
    let ghost mut outs: Seq<Seq<char>> = Seq::empty();
//@loop 0 iter it
    invariant
        it.seq().len() == block.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == block@[i],
        outs.len() == it.index(),
        ichain(block@, ss, *fm, t, outs), ss[0] == s0, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm, res@ == catn(outs),
        frame_item(s0, scope@), quiet_all(*block) ==> scope@.maps[0] == s0.maps[0],
//@at loop 0 start
    assert(*item == block@[it.index() as int]);
    let ghost before = res@;
//@at loop 0 end
    proof {
        let o = choose|o: Seq<char>| #[trigger] item_rel(*item, ss.last(), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@end
proof fn lemma_lchain_push<TM: TempManager, FM: FuncManager>(es: Seq<(String, Expr)>, root: bool, ss: Seq<SView>, fm: FM, t: Seq<TM>, vs: Seq<TData>, s: SView, b: TM, d: TData)
    requires lchain(es, root, ss, fm, t, vs), vs.len() < es.len(),
        expr_rel(es[vs.len() as int].1, ss.last(), fm, t.last(), b, Some(d)), s == bind(ss.last(), root, es[vs.len() as int].0, d),
    ensures lchain(es, root, ss.push(s), fm, t.push(b), vs.push(d)),
{
}
impl TreeItem {
//@fn src/template.rs TreeItem::run
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
//@spec
    requires old(scope)@.wf(),
    ensures
        item_step(*self, old(scope)@, final(scope)@, *fm, *old(tm), *final(tm), strv(r)),
        frame_item(old(scope)@, final(scope)@),
        quiet(*self) ==> same_root(old(scope)@, final(scope)@),
//@at start
    hide(block_rel); proof { assert(skey("@"@)@ == "@"@ && skey("return"@)@ == "return"@); assert(<&'static str as IntoSpec<String>>::into_spec("@")@ == "@"@); assert(<&'static str as IntoSpec<String>>::into_spec("return")@ == "return"@); }
    let ghost mut t: Seq<TM> = seq![*tm];
    let ghost mut ss: Seq<SView> = seq![scope@];
    let ghost mut vs: Seq<TData> = Seq::empty();
    let ghost mut outs: Seq<Seq<char>> = Seq::empty();
//@loop 0 iter it
    invariant
        *self == TreeItem::Let(*vec), old(scope)@.wf(),
        it.seq().len() == vec.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == vec@[i],
        lchain(vec@, false, ss, *fm, t, vs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm, vs.len() == it.index(),
        frame_item(old(scope)@, scope@), scope@.wf(), quiet(*self) ==> same_root(old(scope)@, scope@),
//@at loop 0 start
    assert((*k, *v) == vec@[it.index() as int]);
//@at loop 0 end
    proof { lemma_lchain_push(vec@, false, ss, *fm, t, vs, scope@, *tm, vsolid); t = t.push(*tm); ss = ss.push(scope@); vs = vs.push(vsolid); }
//@loop 1 iter it
    invariant
        *self == TreeItem::Export(*vec), old(scope)@.wf(),
        it.seq().len() == vec.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == vec@[i],
        lchain(vec@, true, ss, *fm, t, vs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm, vs.len() == it.index(),
        frame_item(old(scope)@, scope@), scope@.wf(), 
//@at loop 1 start
    assert((*k, *v) == vec@[it.index() as int]);
//@at loop 1 end
    proof { lemma_lchain_push(vec@, true, ss, *fm, t, vs, scope@, *tm, vsolid); t = t.push(*tm); ss = ss.push(scope@); vs = vs.push(vsolid); }
//@wrapiter 2 map_seq
//@at loop 2 before
    let ghost m0 = *tm;
    proof { t = seq![m0]; }
    let ghost mm = m@;
//@loop 2 iter it
    invariant
        *self == (TreeItem::For { k: *k, v: *v, p: *p, b: *b }), expr_rel(*p, old(scope)@, *fm, *old(tm), m0, Some(looper)), old(scope)@.wf(),
        map_order(mm, it.seq()), for_kvs(looper, map_kvs(it.seq())),
        fchain(map_kvs(it.seq()), *k, *v, b@, ss, *fm, t, outs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == m0, t.last() == *tm, res@ == catn(outs),
        outs.len() == it.index(), 
        frame_item(old(scope)@, scope@), scope@.wf(), quiet(*self) ==> same_root(old(scope)@, scope@),
//@at loop 2 start
    let ghost before = res@;
    let ghost s9 = scope@;
    assert((mapk, mapv) == it.seq()[it.index() as int]);
    assert(map_kvs(it.seq())[outs.len() as int] == (TData::String(mapk), mapv));
//@at loop 2 end
    assert(s9.set(*k, TData::String(mapk)).set(*v, mapv) == turn(s9, *k, *v, (TData::String(mapk), mapv)));
    assert(exists|o: Seq<char>| #[trigger] block_rel(b@, turn(s9, *k, *v, (TData::String(mapk), mapv)), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o);
    proof {
        assert(s9 == ss.last());
        let o = choose|o: Seq<char>| #[trigger] block_rel(b@, turn(s9, *k, *v, (TData::String(mapk), mapv)), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@at loop 3 before
    let ghost m0 = *tm;
    proof { t = seq![m0]; }
    let ghost gkv = Seq::new(l@.len(), |i: int| (TData::UInt(i as usize), l@[i]));
    let ghost kvs = gkv;
    assert(for_kvs(looper, kvs));
//@loop 3 iter it
    invariant
        *self == (TreeItem::For { k: *k, v: *v, p: *p, b: *b }), expr_rel(*p, old(scope)@, *fm, *old(tm), m0, Some(looper)), old(scope)@.wf(), kvs == Seq::new(l@.len(), |i: int| (TData::UInt(i as usize), l@[i])), for_kvs(looper, kvs),
        vx_n3 == it.index(), it.seq().len() == l.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        fchain(kvs, *k, *v, b@, ss, *fm, t, outs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == m0, t.last() == *tm, res@ == catn(outs),
        outs.len() == it.index(), it.seq().len() == kvs.len(), kvs == gkv,
        frame_item(old(scope)@, scope@), scope@.wf(), quiet(*self) ==> same_root(old(scope)@, scope@),
//@at loop 3 start
    let ghost before = res@;
    let ghost s9 = scope@;
    assert(*listv == l@[it.index() as int]);
//@at loop 3 end
    proof {
        assert(s9 == ss.last());
        let o = choose|o: Seq<char>| #[trigger] block_rel(b@, turn(s9, *k, *v, kvs[outs.len() as int]), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@at loop 4 before
    let ghost m0 = *tm;
    proof { t = seq![m0]; }
    let ghost gkv = Seq::new(n as nat, |i: int| (TData::UInt(i as usize), TData::UInt(i as usize)));
    let ghost kvs = gkv;
    assert(for_kvs(looper, kvs));
//@loop 4 iter it
    invariant
        *self == (TreeItem::For { k: *k, v: *v, p: *p, b: *b }), expr_rel(*p, old(scope)@, *fm, *old(tm), m0, Some(looper)), old(scope)@.wf(), kvs == Seq::new(n as nat, |i: int| (TData::UInt(i as usize), TData::UInt(i as usize))), for_kvs(looper, kvs),
        vx_n4 == it.index(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        fchain(kvs, *k, *v, b@, ss, *fm, t, outs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == m0, t.last() == *tm, res@ == catn(outs),
        outs.len() == it.index(), it.seq().len() == kvs.len(), kvs == gkv,
        frame_item(old(scope)@, scope@), scope@.wf(), quiet(*self) ==> same_root(old(scope)@, scope@),
//@at loop 4 start
    let ghost before = res@;
    let ghost s9 = scope@;
    
//@at loop 4 end
    proof {
        assert(s9 == ss.last());
        let o = choose|o: Seq<char>| #[trigger] block_rel(b@, turn(s9, *k, *v, kvs[outs.len() as int]), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@at loop 5 before
    let ghost m0 = *tm;
    proof { t = seq![m0]; }
    let ghost gkv = Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| (TData::UInt(i as usize), TData::Int(i as isize)));
    let ghost kvs = gkv;
    assert(for_kvs(looper, kvs));
//@loop 5 iter it
    invariant
        *self == (TreeItem::For { k: *k, v: *v, p: *p, b: *b }), expr_rel(*p, old(scope)@, *fm, *old(tm), m0, Some(looper)), old(scope)@.wf(), kvs == Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| (TData::UInt(i as usize), TData::Int(i as isize))), for_kvs(looper, kvs),
        vx_n5 == it.index(), forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        fchain(kvs, *k, *v, b@, ss, *fm, t, outs), ss[0] == old(scope)@, ss.last() == scope@, t[0] == m0, t.last() == *tm, res@ == catn(outs),
        outs.len() == it.index(), it.seq().len() == kvs.len(), kvs == gkv,
        frame_item(old(scope)@, scope@), scope@.wf(), quiet(*self) ==> same_root(old(scope)@, scope@),
//@at loop 5 start
    let ghost before = res@;
    let ghost s9 = scope@;
    
//@at loop 5 end
    proof {
        assert(s9 == ss.last());
        let o = choose|o: Seq<char>| #[trigger] block_rel(b@, turn(s9, *k, *v, kvs[outs.len() as int]), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@at loop 6 before
    let ghost mb = *tm;
    let ghost (sb, xb) = choose|s: SView, x: Seq<char>| #[trigger] block_rel(block@, old(scope)@, s, *fm, *old(tm), mb, Some(x)) && scope@ == s.set(skey("@"@), tstr(x));
    proof { t = seq![mb]; }
    assert(achain(params@, scope@, *fm, t, vals(v@)));
//@loop 6 iter it
    invariant
        *self == (TreeItem::Block { command: *command, params: *params, block: *block }), params.len() > 0, scope@ == sb.set(skey("@"@), tstr(xb)), block_rel(block@, old(scope)@, sb, *fm, *old(tm), mb, Some(xb)), frame_item(old(scope)@, scope@), quiet(*self) ==> same_root(old(scope)@, scope@), old(scope)@.wf(),
        it.seq().len() == params.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == params@[i],
        achain(params@, scope@, *fm, t, vals(v@)), t[0] == mb, t.last() == *tm, v.len() == it.index(),
//@at loop 6 start
    assert(*p == params@[it.index() as int]);
    let ghost ov = vals(v@);
//@at loop 6 end
    proof { t = t.push(*tm); assert(vals(v@) =~= ov.push(v@.last()@)); }
//@at loop 6 after
    assert(args_rel(params@, scope@, *fm, mb, *tm, Some(vals(v@))));
//@at loop 7 before
    let ghost al = alts(cases@);
    let ghost me = *tm;
    proof { t = seq![me]; ss = Seq::empty(); assert(cases@.take(0) =~= Seq::empty()); }
//@loop 7 iter it
    invariant
        *self == TreeItem::Switch(*ex, *cases), expr_rel(*ex, old(scope)@, *fm, *old(tm), me, Some(exp)), al == alts(cases@), old(scope)@.wf(),
        it.seq().len() == cases.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == cases@[i],
        falls(al, exp, old(scope)@, ss, *fm, t), t[0] == me, t.last() == *tm, scope@ == old(scope)@,
        ss.len() == alts(cases@.take(it.index() as int)).len(),
//@at loop 7 start
    let ghost ci = it.index() as int;
    assert(*c == cases@[ci]);
    proof { lemma_alts_len(cases@, ci); }
//@loop 8 iter it2
    invariant
        *self == TreeItem::Switch(*ex, *cases), expr_rel(*ex, old(scope)@, *fm, *old(tm), me, Some(exp)), al == alts(cases@), old(scope)@.wf(), 0 <= ci < cases@.len(), *c == cases@[ci], 
        it2.seq().len() == c.pats.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == c.pats@[i],
        falls(al, exp, old(scope)@, ss, *fm, t), t[0] == me, t.last() == *tm, scope@ == old(scope)@,
        ss.len() == alts(cases@.take(ci)).len() + it2.index(),
//@at loop 8 start
    assert(*p == c.pats@[it2.index() as int]);
    proof { lemma_alts(cases@, ci, it2.index() as int); }
//@at loop 8 end
    proof {
        let s = choose|s: SView| #[trigger] match_rel(*p, exp, old(scope)@.push(), s, *fm, t.last(), *tm, false);
        ss = ss.push(s); t = t.push(*tm);
    }
//@at loop 7 after
    assert(cases@.take(cases@.len() as int) =~= cases@);
//@end
}
impl TreeTemplate {
//@fn src/template.rs TreeTemplate::run_exp
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    ensures
        body_rel(*self, plooks(params@), *fm, *old(tm), *final(tm), match r { Ok((s, m)) => Some((s@, m@)), Err(_) => None }),
        call_rel(*self, plooks(params@), *fm, *old(tm), *final(tm), match r { Ok((s, m)) => Some((s@, m@)), Err(_) => None }),
//@at start
    hide(item_step);
    proof { broadcast use axiom_call; broadcast use lemma_item; }
    let ghost s0 = fresh(plooks(params@), self.pnames@);
    let ghost mut t: Seq<TM> = seq![*tm];
    let ghost mut ss: Seq<SView> = seq![s0];
    let ghost mut outs: Seq<Seq<char>> = Seq::empty();
//@at loop 0 before
    let ghost all = IteratorSpec::remaining(&it);
    assert(all.skip(0) =~= all);
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&it), all.len() == self.v.len(), outs.len() <= all.len(),
        IteratorSpec::remaining(&it) == all.skip(outs.len() as int), forall|i: int| 0 <= i < all.len() ==> *#[trigger] all[i] == self.v@[i],
        ichain(self.v@, ss, *fm, t, outs), ss[0] == s0, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm, res@ == catn(outs),
        frame_item(s0, scope@),
//@at loop 0 start
    let ghost before = res@;
    assert(IteratorSpec::remaining(&it) =~= all.skip(outs.len() as int + 1));
    assert(*item == self.v@[outs.len() as int]);
//@at loop 0 end
    proof {
        let o = choose|o: Seq<char>| #[trigger] item_rel(*item, ss.last(), scope@, *fm, t.last(), *tm, Some(o)) && res@ == before + o;
        t = t.push(*tm); ss = ss.push(scope@); lemma_catn(outs, o); outs = outs.push(o);
    }
//@end
}
// ---- front matter: the exports alone, in order, without templates; what fails is skipped
pub open spec fn fmchain<FM: FuncManager>(es: Seq<(String, Expr)>, ss: Seq<SView>, fm: FM, os: Seq<Option<TData>>) -> bool {
    &&& os.len() <= es.len() && ss.len() == os.len() + 1
    &&& forall|i: int| 0 <= i < os.len() ==> #[trigger] expr_rel(es[i].1, ss[i], fm, NoTemplates, NoTemplates, os[i])
    &&& forall|i: int| 0 <= i < os.len() ==> ss[i + 1] == match #[trigger] os[i] { Some(d) => ss[i].set_root(es[i].0, d), None => ss[i] }
}
pub open spec fn fm_step<FM: FuncManager>(i: TreeItem, s0: SView, s1: SView, fm: FM) -> bool {
    match i {
        TreeItem::AtExport(k, l) => exists|s: SView, r: Option<Seq<char>>| #[trigger] block_rel(l@, s0, s, fm, NoTemplates, NoTemplates, r)
            && s1 == match r { Some(x) => s.set_root(k, tstr(x)), None => s },
        TreeItem::Export(es) => exists|ss: Seq<SView>, os: Seq<Option<TData>>| #[trigger] fmchain(es@, ss, fm, os) && os.len() == es@.len() && ss[0] == s0 && ss.last() == s1,
        _ => s1 == s0,
    }
}
pub open spec fn front_chain<FM: FuncManager>(is: Seq<TreeItem>, ss: Seq<SView>, fm: FM) -> bool {
    &&& 1 <= ss.len() <= is.len() + 1
    &&& forall|i: int| 0 <= i < ss.len() - 1 ==> #[trigger] fm_step(is[i], ss[i], ss[i + 1], fm)
}
pub open spec fn front_rel<FM: FuncManager>(t: TreeTemplate, fm: FM, m: Map<String, TData>) -> bool {
    exists|ss: Seq<SView>| #[trigger] front_chain(t.v@, ss, fm) && ss.len() == t.v@.len() + 1 && ss[0] == fresh(Seq::empty(), t.pnames@) && m == ss.last().maps[0]
}
impl TreeTemplate {
//@fn src/template.rs TreeTemplate::front_matter
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    ensures front_rel(*self, *fm, r@),
//@at start
    hide(block_rel);
    let ghost s0 = fresh(Seq::empty(), self.pnames@);
    let ghost mut ss: Seq<SView> = seq![s0];
    let ghost mut es: Seq<SView> = Seq::empty();
    let ghost mut os: Seq<Option<TData>> = Seq::empty();
    proof { broadcast use crate::tparam::lemma_plooks0; lemma_dyn_empty(); }
//@closure 0
|{c0}: TCow<'_>| -> (q: TData) ensures q == {c0}@
//@at loop 0 before
    let ghost all = IteratorSpec::remaining(&it);
    assert(all.skip(0) =~= all);
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&it), all.len() == self.v.len(), ss.len() <= all.len() + 1,
        IteratorSpec::remaining(&it) == all.skip(ss.len() - 1), forall|i: int| 0 <= i < all.len() ==> *#[trigger] all[i] == self.v@[i],
        front_chain(self.v@, ss, *fm), ss[0] == s0, ss.last() == scope@, scope@.wf(),
//@at loop 0 start
    assert(IteratorSpec::remaining(&it) =~= all.skip(ss.len() as int));
    assert(*item == self.v@[ss.len() - 1]);
    proof { es = seq![scope@]; os = Seq::empty(); }
//@at loop 0 end
    proof { ss = ss.push(scope@); }
//@loop 1 iter it2
    invariant
        it2.seq().len() == vec.len(), forall|i: int| 0 <= i < it2.seq().len() ==> *#[trigger] it2.seq()[i] == vec@[i],
        fmchain(vec@, es, *fm, os), os.len() == it2.index(), es[0] == ss.last(), es.last() == scope@, scope@.wf(),
//@at loop 1 start
    assert((*k, *v) == vec@[it2.index() as int]);
    let ghost sb = scope@;
//@at loop 1 end
    proof {
        let o = choose|o: Option<TData>| #[trigger] expr_rel(*v, sb, *fm, NoTemplates, NoTemplates, o) && scope@ == match o { Some(d) => sb.set_root(*k, d), None => sb };
        es = es.push(scope@); os = os.push(o);
    }
//@end
}
}
}
