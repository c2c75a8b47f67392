pub mod scope {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use std::collections::HashMap;
use crate::tdata::*;
use crate::tparam::*;
use crate::expr::VarPart;
use vstd::std_specs::convert::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::tdata::group_cow, crate::shim::group_into};
//@item src/scope.rs struct Scope

/// parameters, one map of names per open block (the root first), parameter names
pub struct SView { pub params: Seq<Look>, pub maps: Seq<Map<String, TData>>, pub pnames: Seq<String> }
pub open spec fn mviews(m: Seq<HashMap<String, TData>>) -> Seq<Map<String, TData>> { Seq::new(m.len(), |i: int| m[i]@) }
impl<'a> View for Scope<'a> {
    type V = SView;
    closed spec fn view(&self) -> SView { SView { params: plooks(self.params@), maps: mviews(self.maps@), pnames: self.pnames@ } }
}
/// the innermost binding of a name
pub open spec fn find_name(maps: Seq<Map<String, TData>>, s: String) -> Option<TData>
    decreases maps.len()
{
    if maps.len() == 0 { None }
    else if maps.last().contains_key(s) { Some(maps.last()[s]) }
    else { find_name(maps.drop_last(), s) }
}
/// the position of the first parameter of that name
pub open spec fn find_pname(pn: Seq<String>, s: String) -> Option<int> {
    if exists|i: int| 0 <= i < pn.len() && pn[i]@ == s@ {
        Some(choose|i: int| 0 <= i < pn.len() && pn[i]@ == s@ && forall|j: int| 0 <= j < i ==> pn[j]@ != s@)
    } else { None }
}
/// what `$path` means: a number is a positional parameter; a name is the innermost
/// binding, else the parameter of that name
pub open spec fn var_val(s: SView, v: Seq<VarPart>) -> Option<TData> {
    if v.len() == 0 { None } else {
        match v[0] {
            VarPart::Num(n) => if n < s.params.len() { (s.params[n as int])(v.skip(1)) } else { None },
            VarPart::Id(k) => match find_name(s.maps, k) {
                Some(d) => td_look(d, v.skip(1)),
                None => match find_pname(s.pnames, k) {
                    Some(i) => if i < s.params.len() { (s.params[i])(v.skip(1)) } else { None },
                    None => None,
                },
            },
        }
    }
}
impl SView {
    pub open spec fn wf(self) -> bool { self.maps.len() > 0 }
    pub open spec fn set(self, k: String, d: TData) -> SView { SView { maps: self.maps.update(self.maps.len() - 1, self.maps.last().insert(k, d)), ..self } }
    pub open spec fn set_root(self, k: String, d: TData) -> SView { SView { maps: self.maps.update(0, self.maps[0].insert(k, d)), ..self } }
    pub open spec fn push(self) -> SView { SView { maps: self.maps.push(Map::empty()), ..self } }
    pub open spec fn pop(self) -> SView { if self.maps.len() > 1 { SView { maps: self.maps.drop_last(), ..self } } else { self } }
}
pub open spec fn fresh(params: Seq<Look>, pnames: Seq<String>) -> SView {
    SView { params, maps: seq![Map::empty()], pnames }
}
proof fn lemma_find(maps: Seq<Map<String, TData>>, s: String, n: int)
    requires 0 <= n <= maps.len(), forall|j: int| n <= j < maps.len() ==> !(#[trigger] maps[j]).contains_key(s),
    ensures find_name(maps, s) == find_name(maps.take(n), s),
    decreases maps.len() - n
{
    if n < maps.len() {
        lemma_find(maps.drop_last(), s, n);
        assert(maps.drop_last().take(n) =~= maps.take(n));
    } else { assert(maps.take(n) =~= maps); }
}
proof fn lemma_pname(pn: Seq<String>, s: String, n: int)
    requires 0 <= n < pn.len(), pn[n]@ == s@, forall|j: int| 0 <= j < n ==> (#[trigger] pn[j])@ != s@,
    ensures find_pname(pn, s) == Some(n),
{
    let c = choose|i: int| 0 <= i < pn.len() && pn[i]@ == s@ && forall|j: int| 0 <= j < i ==> pn[j]@ != s@;
    assert(c == n) by { if c < n { } else if n < c { } }
}
impl<'a> Scope<'a> {
//@fn src/scope.rs Scope::with_pnames
//@spec
    ensures r@ == fresh(plooks(params@), pnames@),
//@at start
    assert(forall|m: Seq<HashMap<String, TData>>| m.len() == 1 && m[0]@ == Map::<String, TData>::empty() ==> #[trigger] mviews(m) =~= seq![Map::empty()]);
//@end
//@fn src/scope.rs Scope::new
//@spec
    ensures r@.params == plooks(params@), r@.maps == seq![Map::<String, TData>::empty()], r@.pnames =~= Seq::<String>::empty(),
//@at start
    assert(forall|m: Seq<HashMap<String, TData>>| m.len() == 1 && m[0]@ == Map::<String, TData>::empty() ==> #[trigger] mviews(m) =~= seq![Map::empty()]);
//@end
//@fn src/scope.rs Scope::top
//@spec
    ensures self@.maps.len() > 0 ==> r@ == self@.maps[0],
//@end
//@fn src/scope.rs Scope::get
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures bopv(r) == var_val(self@, v@),
//@loop 0 iter it
    invariant
        forall|j: int| self.maps.len() - it.index() <= j < self.maps.len() ==> !(#[trigger] self@.maps[j]).contains_key(*s),
//@at loop 0 start
    assert(self@.maps[self.maps.len() - 1 - it.index()] == self.maps@[self.maps.len() - 1 - it.index()]@);
    proof { lemma_find(self@.maps, *s, self.maps.len() - it.index()); }
//@at loop 0 after
    proof { lemma_find(self@.maps, *s, 0); assert(self@.maps.take(0) =~= Seq::empty()); }
//@loop 1 iter it
    invariant
        forall|j: int| 0 <= j < it.index() ==> (#[trigger] self.pnames@[j])@ != s@,
        vx_n1 == it.index(), it.seq().len() == self.pnames.len(),
//@at loop 1 start
    assert(self.pnames@[it.index() as int] == *pn);
    proof { if pn@ == s@ { lemma_pname(self.pnames@, *s, it.index() as int); } }
//@end
//@fn src/scope.rs Scope::set
//@spec
    requires old(self)@.wf(),
    ensures <K as IntoSpec<String>>::obeys_into_spec() ==> final(self)@ == old(self)@.set(<K as IntoSpec<String>>::into_spec(k), v),
//@at end
    assert(<K as IntoSpec<String>>::obeys_into_spec() ==> self@.maps =~= old(self)@.set(<K as IntoSpec<String>>::into_spec(k), v).maps);
//@end
//@fn src/scope.rs Scope::set_root
//@spec
    requires old(self)@.wf(),
    ensures <K as IntoSpec<String>>::obeys_into_spec() ==> final(self)@ == old(self)@.set_root(<K as IntoSpec<String>>::into_spec(k), v),
//@at end
    assert(<K as IntoSpec<String>>::obeys_into_spec() ==> self@.maps =~= old(self)@.set_root(<K as IntoSpec<String>>::into_spec(k), v).maps);
//@end
//@fn src/scope.rs Scope::push
//@spec
    ensures final(self)@ == old(self)@.push(),
//@at end
    assert(self@.maps =~= old(self)@.push().maps);
//@end
//@fn src/scope.rs Scope::pop
//@spec
    ensures final(self)@ == old(self)@.pop(),
//@at end
    assert(self@.maps =~= old(self)@.pop().maps);
//@end
}
}
}
