pub mod tparam {
use crate::stubs::anyhow;
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use std::borrow::Cow;
use std::ops::Deref;
use std::collections::HashMap;
use crate::tdata::*;
use crate::expr::VarPart;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::tdata::group_cow};
//@item src/tparam.rs type TBop
//@item src/tparam.rs type TCow
//@fn src/tparam.rs b_ok
//@spec
    ensures r matches Ok(c) && c@ == d,
//@end
pub open spec fn bopv(r: TBop<'_>) -> Option<TData> { match r { Some(c) => Some(c@), None => None } }
/// what a path reaches in a value: map keys by name, list members by number
pub open spec fn td_look(d: TData, v: Seq<VarPart>) -> Option<TData>
    decreases v.len()
{
    if v.len() == 0 { Some(d) } else {
        match (d, v[0]) {
            (TData::Map(m), VarPart::Id(k)) => if m@.contains_key(k) { td_look(m@[k], v.skip(1)) } else { None },
            (TData::List(l), VarPart::Num(n)) => if n < l@.len() { td_look(l@[n as int], v.skip(1)) } else { None },
            _ => None,
        }
    }
}
/// the parameter of a template: what each path reaches in it
pub trait TParam {
    spec fn look(&self, v: Seq<VarPart>) -> Option<TData>;
//@fn src/tparam.rs TParam::get_v
//@spec
    ensures bopv(r) == self.look(s@),
//@end
}
impl TParam for TData {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { td_look(*self, v) }
//@fn src/tparam.rs TParamforTData::get_v
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@end
}
impl<'a> TParam for TCow<'a> {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { td_look(self@, v) }
//@fn src/tparam.rs TParamforTCow::get_v
//@end
}
pub type Look = spec_fn(Seq<VarPart>) -> Option<TData>;
pub open spec fn plook(p: &dyn TParam) -> Look { |v: Seq<VarPart>| p.look(v) }
pub open spec fn plooks(p: Seq<&dyn TParam>) -> Seq<Look> { Seq::new(p.len(), |i: int| plook(p[i])) }
pub open spec fn dlook(d: TData) -> Look { |v: Seq<VarPart>| td_look(d, v) }
pub open spec fn dlooks(d: Seq<TData>) -> Seq<Look> { Seq::new(d.len(), |i: int| dlook(d[i])) }
/// `[v]` as an array of parameters (array literals of unsized elements are outside the verifier's reach)
#[verifier::external_body]
pub fn one_param<'a>(v: &'a dyn TParam) -> (r: Vec<&'a dyn TParam>)
    ensures r@.len() == 1, forall|l: Seq<VarPart>| #[trigger] r@[0].look(l) == v.look(l),
{ vec![v] }
pub broadcast proof fn lemma_one_param(ps: Seq<&dyn TParam>, d: TData)
    requires ps.len() == 1, forall|l: Seq<VarPart>| #[trigger] ps[0].look(l) == td_look(d, l),
    ensures #[trigger] plooks(ps) == #[trigger] dlooks(seq![d]),
{
    lemma_plooks(ps, seq![d]);
}
/// the sequence axioms, at the unsized element type
pub broadcast proof fn lemma_dyn_push(s: Seq<&dyn TParam>, d: &dyn TParam)
    ensures
        (#[trigger] s.push(d)).len() == s.len() + 1, s.push(d)[s.len() as int] == d,
        forall|i: int| 0 <= i < s.len() ==> s.push(d)[i] == s[i],
{
    vstd::seq::lemma_seq_push_len(s, d);
    vstd::seq::lemma_seq_push_index_same(s, d, s.len() as int);
    assert forall|i: int| 0 <= i < s.len() implies s.push(d)[i] == s[i] by { vstd::seq::lemma_seq_push_index_different(s, d, i); }
}
pub proof fn lemma_dyn_empty()
    ensures Seq::<&dyn TParam>::empty().len() == 0,
{
}
pub broadcast proof fn lemma_plooks0(ps: Seq<&dyn TParam>)
    requires ps.len() == 0,
    ensures #[trigger] plooks(ps) == Seq::<Look>::empty(),
{
    assert(plooks(ps) =~= Seq::<Look>::empty());
}
pub proof fn lemma_plooks(ps: Seq<&dyn TParam>, vs: Seq<TData>)
    requires ps.len() == vs.len(), forall|i: int, l: Seq<VarPart>| 0 <= i < ps.len() ==> #[trigger] ps[i].look(l) == td_look(vs[i], l),
    ensures plooks(ps) == dlooks(vs),
{
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] plook(ps[i]) == dlook(vs[i]) by {
        assert(plook(ps[i]) =~= dlook(vs[i]));
    }
    assert(plooks(ps) =~= dlooks(vs));
}
}
}
