// Plain host values: what they become and what a path reaches in them.
pub mod host {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use std::borrow::Cow;
use std::ops::Deref;
use std::fmt::Debug;
use std::collections::HashMap;
use crate::tdata::*;
use crate::tparam::*;
use crate::expr::VarPart;
use vstd::std_specs::convert::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::shim::group_fmt, crate::shim::group_into, crate::tdata::group_cow, crate::shim::axiom_map_collect};
pub open spec fn text_td(s: Seq<char>) -> TData { TData::String(skey(s)) }
pub open spec fn texts_td(s: Seq<Seq<char>>) -> TData { TData::List(vec_of(Seq::new(s.len(), |i: int| text_td(s[i])))) }
proof fn lemma_texts(s: Seq<Seq<char>>)
    ensures forall|l: Vec<TData>| #[trigger] l@.len() == s.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == text_td(s[i])) ==> TData::List(l) == texts_td(s),
{
    let x = Seq::new(s.len(), |i: int| text_td(s[i]));
    assert forall|l: Vec<TData>| #[trigger] l@.len() == s.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == text_td(s[i])) implies TData::List(l) == texts_td(s) by {
        assert(l@ =~= x);
        assert(l.len() == l@.len());
        axiom_vec_of(x);
    }
}
impl FromSpecImpl<String> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: String) -> TData { TData::String(s) }
}
impl From<String> for TData {
//@fn src/tdata.rs From<String>forTData::from
//@end
}
impl FromSpecImpl<usize> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(u: usize) -> TData { TData::UInt(u) }
}
impl From<usize> for TData {
//@fn src/tdata.rs From<usize>forTData::from
//@end
}
impl<'x> FromSpecImpl<&'x str> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(s: &'x str) -> TData { text_td(s@) }
}
impl From<&str> for TData {
//@fn src/tdata.rs From<&str>forTData::from
//@end
}
impl<'x, 'y> FromSpecImpl<&'x [&'y str]> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x [&'y str]) -> TData { texts_td(Seq::new(v@.len(), |i: int| v@[i]@)) }
}
impl From<&[&str]> for TData {
//@fn src/tdata.rs From<&[&str]>forTData::from
//@subst .map( => .map_items(
//@closure 0
|{c0}: &&str| -> (q: TData) ensures q == text_td((*{c0})@)
//@at start
    proof { lemma_texts(Seq::new(v@.len(), |i: int| v@[i]@)); }
//@end
}
impl<'x> FromSpecImpl<&'x [String]> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: &'x [String]) -> TData { texts_td(Seq::new(v@.len(), |i: int| v@[i]@)) }
}
impl From<&[String]> for TData {
//@fn src/tdata.rs From<&[String]>forTData::from
//@subst .map( => .map_items(
//@closure 0
|{c0}: &String| -> (q: TData) ensures q == text_td((*{c0})@)
//@at start
    proof { lemma_texts(Seq::new(v@.len(), |i: int| v@[i]@)); }
//@end
}
impl TParam for str {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(text_td(self@)) }
//@fn src/tparam.rs TParamforstr::get_v
//@at start
    proof { assert(<String as FromSpec<&str>>::obeys_from_spec()); assert(<String as FromSpec<&str>>::from_spec(self)@ == self@); }
//@end
}
impl TParam for String {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(TData::String(*self)) }
//@fn src/tparam.rs TParamforString::get_v
//@end
}
impl TParam for &str {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(text_td((*self)@)) }
//@fn src/tparam.rs TParamfor&str::get_v
//@at start
    proof { let x: &str = *self; assert(<String as FromSpec<&str>>::obeys_from_spec()); assert(<String as FromSpec<&str>>::from_spec(x)@ == x@); }
//@end
}
impl TParam for usize {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(TData::UInt(*self)) }
//@fn src/tparam.rs TParamforusize::get_v
//@end
}
impl TParam for f64 {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(TData::Float(*self)) }
//@fn src/tparam.rs TParamforf64::get_v
//@end
}
impl TParam for bool {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { Some(TData::Bool(*self)) }
//@fn src/tparam.rs TParamforbool::get_v
//@end
}
impl TParam for Vec<&str> {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> {
        if v.len() == 0 { Some(texts_td(Seq::new(self@.len(), |i: int| self@[i]@))) } else {
            match v[0] {
                VarPart::Num(n) => if n < self@.len() { Some(text_td(self@[n as int]@)) } else { None },
                _ => None,
            }
        }
    }
//@fn src/tparam.rs TParamforVec<&str>::get_v
//@subst self.iter().map( => self.iter().map_items(
//@closure 0
|{c0}: &&str| -> (q: TData) ensures q == text_td((*{c0})@)
//@closure 1
|{c0}: &&str| -> (q: Cow<TData>) ensures q@ == text_td((*{c0})@)
//@at start
    proof { lemma_texts(Seq::new(self@.len(), |i: int| self@[i]@)); }
//@end
}
/// the first parameter answers, the second only where the first has nothing
impl<A: TParam, B: TParam> TParam for (&A, &B) {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> {
        match self.0.look(v) { Some(d) => Some(d), None => self.1.look(v) }
    }
//@fn src/tparam.rs TParamfor(&A,&B)::get_v
//@closure 0
|| -> (q: TBop) ensures bopv(q) == self.1.look(s@)
//@end
}
// ---- one name with its value
#[verifier::external_trait_specification]
pub trait ExAsRef<T: std::marker::PointeeSized>: std::marker::PointeeSized {
    type ExternalTraitSpecificationFor: AsRef<T>;
    fn as_ref(&self) -> &T;
}
/// the text of a host's name type
pub uninterp spec fn ref_text<S: AsRef<str>>(s: S) -> Seq<char>;
pub axiom fn axiom_ref_text<S: AsRef<str>>()
    ensures forall|a: S, b: &str| #[trigger] call_ensures(<S as AsRef<str>>::as_ref, (&a,), b) ==> b@ == ref_text(a);
//@item src/tparam.rs struct KV
impl<S: Debug + AsRef<str>, T: Into<TData> + Debug + Clone> TParam for KV<S, T> {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> {
        if v.len() > 0 { match v[0] { VarPart::Id(k) => if k@ == ref_text(self.0) { Some(<T as IntoSpec<TData>>::into_spec(self.1)) } else { None }, _ => None } } else { None }
    }
//@fn src/tparam.rs TParamforKV<S,T>::get_v
//@at start
    proof { axiom_ref_text::<S>(); axiom_host::<T>(); }
//@end
}
// ---- maps of host values
/// a host value's clone is that value, and its conversion a function of it
pub axiom fn axiom_host<T: Into<TData> + Clone>()
    ensures
        <T as IntoSpec<TData>>::obeys_into_spec(),
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b;
pub open spec fn host_map<T: Into<TData>>(m: Map<String, T>) -> Map<String, TData> { Map::new(m.dom(), |k: String| <T as IntoSpec<TData>>::into_spec(m[k])) }
proof fn lemma_host_map<T: Into<TData>>(s: Seq<(&String, &T)>, t: Seq<(String, TData)>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (*s[i].0, <T as IntoSpec<TData>>::into_spec(*s[i].1)),
    ensures seq_map(t) == host_map(ref_map(s)),
    decreases s.len()
{
    if s.len() > 0 { lemma_host_map(s.drop_last(), t.drop_last()); }
    assert(seq_map(t) =~= host_map(ref_map(s)));
}
proof fn lemma_host_all<T: Into<TData> + Clone>(m: Map<String, T>)
    ensures
        <T as IntoSpec<TData>>::obeys_into_spec(),
        forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b,
        forall|h: HashMap<String, TData>, s: Seq<(&String, &T)>, t: Seq<(String, TData)>|
            m.dom().finite() && m.len() <= usize::MAX && #[trigger] ref_map(s) == m && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (*s[i].0, <T as IntoSpec<TData>>::into_spec(*s[i].1)))
                ==> h == map_of(host_map(m)),
{
    axiom_host::<T>();
    let x = host_map(m);
    assert(x.dom() =~= m.dom());
    assert forall|h: HashMap<String, TData>, s: Seq<(&String, &T)>, t: Seq<(String, TData)>|
        m.dom().finite() && m.len() <= usize::MAX && #[trigger] ref_map(s) == m && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (*s[i].0, <T as IntoSpec<TData>>::into_spec(*s[i].1)))
            implies h == map_of(host_map(m)) by {
        lemma_host_map(s, t);
        axiom_map_of(x);
        assert(h@ =~= x);
    }
}
/// the entries of a map, in its order
#[verifier::external_body]
pub fn map_pairs<'a, T>(m: &'a HashMap<String, T>) -> (r: std::collections::hash_map::Iter<'a, String, T>)
    ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, ref_map(r.remaining()) == m@, m@.dom().finite(), m@.len() <= usize::MAX,
{ m.iter() }
impl<TP: Into<TData> + Debug + Clone + TParam> TParam for HashMap<String, TP> {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> {
        if v.len() == 0 { Some(TData::Map(map_of(host_map(self@)))) } else {
            match v[0] {
                VarPart::Id(k) => if self@.contains_key(k) { self@[k].look(v.skip(1)) } else { None },
                _ => None,
            }
        }
    }
//@fn src/tparam.rs TParamforstd::collections::HashMap<String,TP>::get_v
//@subst self.iter() => map_pairs(self)
//@subst .map( => .map_items(
//@closure 0
|{c0}: (&String, &TP)| -> (q: (String, TData)) ensures q == (*{c0}.0, <TP as IntoSpec<TData>>::into_spec(*{c0}.1))
//@at start
    proof { lemma_host_all::<TP>(self@); }
//@end
}
}
}
