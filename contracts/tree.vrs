// the tree builders of template.rs: from the flat list of items to nested blocks
pub mod tree {
use vstd::prelude::*;
use crate::*;
use crate::expr::*;
use crate::pattern::*;
use crate::shim::*;
use crate::template::*;
use crate::stubs::anyhow;
use crate::stubs::err_tools::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {crate::shim::group_ext, crate::shim::group_str, crate::shim::group_fmt};
impl std::fmt::Debug for FlatItem {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
pub open spec fn less(s: Seq<FlatItem>, t: Seq<FlatItem>) -> bool { s.len() <= t.len() }
pub open spec fn pre(l: Seq<TreeItem>, o: Option<(Seq<TreeItem>, Seq<FlatItem>)>) -> Option<(Seq<TreeItem>, Seq<FlatItem>)> {
    match o { Some((x, s)) => Some((l + x, s)), None => None }
}
/// items up to (and over) the closer of that name, or to the end of the input
pub open spec fn p_until(name: Seq<char>, s: Seq<FlatItem>) -> Option<(Seq<TreeItem>, Seq<FlatItem>)>
    decreases s.len(), 0int
{
    if s.len() == 0 { Some((Seq::empty(), s)) }
    else if s[0] matches FlatItem::EndBlock(n) && n@ == name { Some((Seq::empty(), s.skip(1))) }
    else {
        match p_item(s[0], s.skip(1)) {
            None => None,
            Some((i, r)) => if r.len() < s.len() { pre(seq![i], p_until(name, r)) } else { None },
        }
    }
}
/// items to the end of the input: no closer is expected
pub open spec fn p_all(s: Seq<FlatItem>) -> Option<Seq<TreeItem>>
    decreases s.len(), 0int
{
    if s.len() == 0 { Some(Seq::empty()) }
    else {
        match p_item(s[0], s.skip(1)) {
            None => None,
            Some((i, r)) => if r.len() < s.len() { match p_all(r) { Some(x) => Some(seq![i] + x), None => None } } else { None },
        }
    }
}
pub open spec fn p_if(cond: Expr, yes: Seq<TreeItem>, s: Seq<FlatItem>) -> Option<(TreeItem, Seq<FlatItem>)>
    decreases s.len(), 0int
{
    if s.len() == 0 { None } else {
        let r = s.skip(1);
        match s[0] {
            FlatItem::Else => match p_until("if"@, r) {
                Some((no, q)) => Some((TreeItem::If { cond, yes: vec_of(yes), no: Some(vec_of(no)) }, q)),
                None => None,
            },
            FlatItem::Elif(p) => match p_if(p, Seq::empty(), r) {
                Some((i, q)) => Some((TreeItem::If { cond, yes: vec_of(yes), no: Some(vec_of(seq![i])) }, q)),
                None => None,
            },
            f => if f matches FlatItem::EndBlock(n) && n@ == "if"@ { Some((TreeItem::If { cond, yes: vec_of(yes), no: None }, r)) }
                else { match p_item(f, r) {
                    Some((i, q)) => if q.len() < s.len() { p_if(cond, yes.push(i), q) } else { None },
                    None => None,
                } },
        }
    }
}
pub open spec fn shut(cs: Seq<Case>, curr: Option<(Vec<Pattern>, Seq<TreeItem>)>) -> Seq<Case> {
    match curr { Some((p, l)) => cs.push(Case { pats: p, block: vec_of(l) }), None => cs }
}
pub open spec fn p_switch(e: Expr, cs: Seq<Case>, curr: Option<(Vec<Pattern>, Seq<TreeItem>)>, s: Seq<FlatItem>) -> Option<(TreeItem, Seq<FlatItem>)>
    decreases s.len(), 0int
{
    if s.len() == 0 { Some((TreeItem::Switch(e, vec_of(shut(cs, curr))), s)) } else {
        let r = s.skip(1);
        match s[0] {
            FlatItem::Case(pats) => p_switch(e, shut(cs, curr), Some((pats, Seq::empty())), r),
            FlatItem::String(x) => p_switch(e, cs, match curr { Some((p, l)) => Some((p, l.push(TreeItem::String(x)))), None => None }, r),
            f => if f matches FlatItem::EndBlock(n) && n@ == "switch"@ { Some((TreeItem::Switch(e, vec_of(shut(cs, curr))), r)) }
                else { match curr {
                    None => None,
                    Some((p, l)) => match p_item(f, r) {
                        Some((i, q)) => if q.len() < s.len() { p_switch(e, cs, Some((p, l.push(i))), q) } else { None },
                        None => None,
                    },
                } },
        }
    }
}
/// one item and what its block takes of the rest; a closer on its own is an error
pub open spec fn p_item(f: FlatItem, s: Seq<FlatItem>) -> Option<(TreeItem, Seq<FlatItem>)>
    decreases s.len(), 1int
{
    match f {
        FlatItem::String(x) => Some((TreeItem::String(x), s)),
        FlatItem::Exp(p) => Some((TreeItem::Exp(p), s)),
        FlatItem::Let(v) => Some((TreeItem::Let(v), s)),
        FlatItem::Export(v) => Some((TreeItem::Export(v), s)),
        FlatItem::Return(p) => Some((TreeItem::Return(p), s)),
        FlatItem::Comment => Some((TreeItem::Comment, s)),
        FlatItem::AtLet(v) => match p_until("let"@, s) { Some((l, r)) => Some((TreeItem::AtLet(v, vec_of(l)), r)), None => None },
        FlatItem::AtExport(v) => match p_until("export"@, s) { Some((l, r)) => Some((TreeItem::AtExport(v, vec_of(l)), r)), None => None },
        FlatItem::Define(v, ns) => match p_until("define"@, s) { Some((l, r)) => Some((TreeItem::Define(v, ns, vec_of(l)), r)), None => None },
        FlatItem::Global(v, ns) => match p_until("global"@, s) { Some((l, r)) => Some((TreeItem::Global(v, ns, vec_of(l)), r)), None => None },
        FlatItem::If(p) => p_if(p, Seq::empty(), s),
        FlatItem::For(k, v, p) => match p_until("for"@, s) { Some((l, r)) => Some((TreeItem::For { k, v, p, b: vec_of(l) }, r)), None => None },
        FlatItem::Block(c, ps) => match p_until(c@, s) { Some((l, r)) => Some((TreeItem::Block { command: c, params: ps, block: vec_of(l) }, r)), None => None },
        FlatItem::As(e, p) => match p_until("as"@, s) { Some((l, r)) => Some((TreeItem::As { exp: e, pat: p, block: vec_of(l) }, r)), None => None },
        FlatItem::Switch(e) => p_switch(e, Seq::empty(), None, s),
        _ => None,
    }
}
broadcast proof fn lemma_vec1(v: Vec<TreeItem>)
    requires (#[trigger] v@).len() == 1,
    ensures vec_of(seq![v@[0]]) == v,
{
    assert(seq![v@[0]] =~= v@);
}
pub open spec fn agrees<T>(r: anyhow::Result<T>, o: Option<(T, Seq<FlatItem>)>, rest: Seq<FlatItem>) -> bool {
    match o { Some((x, s)) => r == Ok::<T, anyhow::Error>(x) && rest == s, None => r is Err }
}
pub open spec fn agrees_o(r: anyhow::Result<Option<Block>>, o: Option<(Seq<TreeItem>, Seq<FlatItem>)>, rest: Seq<FlatItem>) -> bool {
    match o { Some((x, s)) => (r matches Ok(Some(l)) && l@ == x) && rest == s, None => r is Err }
}
pub open spec fn tree_of(r: anyhow::Result<TreeTemplate>, o: Option<Seq<TreeItem>>) -> bool {
    match o { Some(x) => r is Ok && r->Ok_0.v@ == x && r->Ok_0.pnames@.len() == 0, None => r is Err }
}
pub open spec fn cview(c: Option<Case>) -> Option<(Vec<Pattern>, Seq<TreeItem>)> { match c { Some(c) => Some((c.pats, c.block@)), None => None } }
pub open spec fn agrees_b(r: anyhow::Result<Block>, o: Option<(Seq<TreeItem>, Seq<FlatItem>)>, rest: Seq<FlatItem>) -> bool {
    match o { Some((x, s)) => r is Ok && r->Ok_0@ == x && rest == s, None => r is Err }
}
//@fn src/template.rs tt_basic
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(it)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(it)),
        r is Ok ==> IteratorSpec::remaining(&*final(it)).len() <= IteratorSpec::remaining(&*old(it)).len(),
        agrees(r, p_item(fi, IteratorSpec::remaining(&*old(it))), IteratorSpec::remaining(&*final(it))),
//@end
//@fn src/template.rs tt_name_block
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(i)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(i)),
        r is Ok ==> IteratorSpec::remaining(&*final(i)).len() <= IteratorSpec::remaining(&*old(i)).len(),
        agrees_b(r, p_until(name@, IteratorSpec::remaining(&*old(i))), IteratorSpec::remaining(&*final(i))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*i);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_until, 2); assert(forall|o: Option<(Seq<TreeItem>, Seq<FlatItem>)>| #[trigger] pre(Seq::empty(), o) == o); }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*i),
        cur == IteratorSpec::remaining(&*i), cur.len() <= s0.len(),
        p_until(name@, s0) == pre(res@, p_until(name@, cur)),
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*i); }
//@end
//@fn src/template.rs tt_else
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(it)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(it)),
        r is Ok ==> IteratorSpec::remaining(&*final(it)).len() <= IteratorSpec::remaining(&*old(it)).len(),
        agrees_o(r, p_until("if"@, IteratorSpec::remaining(&*old(it))), IteratorSpec::remaining(&*final(it))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*it);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_until, 2); assert(forall|o: Option<(Seq<TreeItem>, Seq<FlatItem>)>| #[trigger] pre(Seq::empty(), o) == o); }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*it),
        cur == IteratorSpec::remaining(&*it), cur.len() <= s0.len(),
        p_until("if"@, s0) == pre(no@, p_until("if"@, cur)),
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*it); }
//@end
//@fn src/template.rs tt_for
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(i)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(i)),
        r is Ok ==> IteratorSpec::remaining(&*final(i)).len() <= IteratorSpec::remaining(&*old(i)).len(),
        agrees_b(r, p_until("for"@, IteratorSpec::remaining(&*old(i))), IteratorSpec::remaining(&*final(i))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*i);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_until, 2); assert(forall|o: Option<(Seq<TreeItem>, Seq<FlatItem>)>| #[trigger] pre(Seq::empty(), o) == o); }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*i),
        cur == IteratorSpec::remaining(&*i), cur.len() <= s0.len(),
        p_until("for"@, s0) == pre(block@, p_until("for"@, cur)),
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*i); }
//@end
//@fn src/template.rs tt_if_yes
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(it)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(it)),
        r is Ok ==> IteratorSpec::remaining(&*final(it)).len() <= IteratorSpec::remaining(&*old(it)).len(),
        agrees(r, p_if(cond, Seq::empty(), IteratorSpec::remaining(&*old(it))), IteratorSpec::remaining(&*final(it))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*it);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_if, 2); broadcast use lemma_vec1; }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*it),
        cur == IteratorSpec::remaining(&*it), cur.len() <= s0.len(),
        p_if(cond, Seq::empty(), s0) == p_if(cond, yes@, cur),
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*it); }
//@end
//@fn src/template.rs tt_switch
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(it)),
    ensures
        IteratorSpec::obeys_prophetic_iter_laws(&*final(it)),
        r is Ok ==> IteratorSpec::remaining(&*final(it)).len() <= IteratorSpec::remaining(&*old(it)).len(),
        agrees(r, p_switch(params, Seq::empty(), None, IteratorSpec::remaining(&*old(it))), IteratorSpec::remaining(&*final(it))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*it);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_switch, 2); }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*it),
        cur == IteratorSpec::remaining(&*it), cur.len() <= s0.len(),
        p_switch(params, Seq::empty(), None, s0) == p_switch(params, res@, cview(curr), cur),
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*it); }
//@end
//@fn src/template.rs tt_root_block
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires IteratorSpec::obeys_prophetic_iter_laws(&*old(i)),
    ensures tree_of(r, p_all(IteratorSpec::remaining(&*old(i)))),
//@at start
    let ghost s0 = IteratorSpec::remaining(&*i);
    let ghost mut cur = s0;
    proof { reveal_with_fuel(p_all, 2); }
//@loop 0
    invariant
        IteratorSpec::obeys_prophetic_iter_laws(&*i),
        cur == IteratorSpec::remaining(&*i), cur.len() <= s0.len(),
        p_all(s0) == match p_all(cur) { Some(x) => Some(res@ + x), None => None },
//@at loop 0 end
    proof { cur = IteratorSpec::remaining(&*i); }
//@end
impl FlatTemplate {
//@fn src/template.rs FlatTemplate::to_tree
//@spec
    ensures tree_of(r, p_all(self.v@)),
//@end
}
}
}
