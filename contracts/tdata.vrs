pub mod tdata {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::funcs::math;
use crate::expr::VarPart;
use std::cmp::Ordering;
use std::collections::HashMap;
use crate::template::{TreeTemplate, tmpl_eq};
use crate::stubs::chrono::date_ord;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl, PartialOrdSpec, PartialOrdSpecImpl};
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_float, crate::shim::group_str, crate::shim::group_str_ord, crate::shim::group_map_eq, crate::stubs::chrono::axiom_date_ext};

//@item src/tdata.rs enum TData

impl View for TData { type V = TData; open spec fn view(&self) -> TData { *self } }
impl Clone for TData {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// --- numbers by mathematical value
pub open spec fn int_of(d: TData) -> Option<int> {
    match d {
        TData::Int(n) => Some(n as int),
        TData::UInt(n) => Some(n as int),
        _ => None,
    }
}
pub open spec fn is_num(d: TData) -> bool { int_of(d) is Some || d is Float }
pub open spec fn ocmp_int(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}
pub open spec fn ocmp_real(a: real, b: real) -> Ordering {
    if a < b { Ordering::Less } else if a > b { Ordering::Greater } else { Ordering::Equal }
}
/// integer against float, by value
pub open spec fn icmp_f(i: int, f: f64) -> Option<Ordering> {
    match fcls(f) {
        FCls::Nan => None,
        FCls::NegInf => Some(Ordering::Greater),
        FCls::PosInf => Some(Ordering::Less),
        FCls::Fin => Some(ocmp_real(i as real, fval(f))),
    }
}
pub open spec fn orev(o: Option<Ordering>) -> Option<Ordering> {
    match o { Some(x) => Some(ord_rev(x)), None => None }
}
pub open spec fn num_ord(a: TData, b: TData) -> Option<Ordering> {
    match (int_of(a), int_of(b), a, b) {
        (Some(x), Some(y), _, _) => Some(ocmp_int(x, y)),
        (Some(x), None, _, TData::Float(g)) => icmp_f(x, g),
        (None, Some(y), TData::Float(f), _) => orev(icmp_f(y, f)),
        (None, None, TData::Float(f), TData::Float(g)) => fcmp(f, g),
        _ => None,
    }
}


/// the equality of values: numbers by value, containers member by member
pub open spec fn td_eq(a: TData, b: TData) -> bool
    decreases a
{
    if is_num(a) && is_num(b) { num_ord(a, b) == Some(Ordering::Equal) } else {
    match (a, b) {
        (TData::String(x), TData::String(y)) => x@ == y@,
        (TData::Bool(x), TData::Bool(y)) => x == y,
        (TData::Date(x), TData::Date(y)) => x == y,
        (TData::Null, TData::Null) => true,
        (TData::List(x), TData::List(y)) => x@.len() == y@.len()
            && forall|i: int| 0 <= i < x@.len() ==> td_eq(#[trigger] x@[i], y@[i]),
        (TData::Map(x), TData::Map(y)) => x@.dom() =~= y@.dom()
            && forall|k: String| x@.contains_key(k) ==> td_eq(#[trigger] x@[k], y@[k]),
        (TData::Template(x), TData::Template(y)) => tmpl_eq(x, y),
        (TData::Bytes(x), TData::Bytes(y)) => x@ =~= y@,
        _ => false,
    } }
}
pub open spec fn rank(d: TData) -> int {
    match d {
        TData::Null => 0, TData::Template(_) => 1, TData::Map(_) => 2, TData::List(_) => 3,
        TData::Bool(_) => 4, TData::Int(_) => 5, TData::UInt(_) => 6, TData::Float(_) => 7,
        TData::Date(_) => 8, TData::String(_) => 9, TData::Bytes(_) => 10,
    }
}
pub open spec fn td_ord(a: TData, b: TData) -> Option<Ordering> {
    if is_num(a) && is_num(b) { num_ord(a, b) } else {
    match (a, b) {
        (TData::String(x), TData::String(y)) => Some(str_ord(x@, y@)),
        (TData::Date(x), TData::Date(y)) => Some(date_ord(x, y)),
        _ => Some(ocmp_int(rank(a), rank(b))),
    } }
}
impl PartialEqSpecImpl for TData {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &TData) -> bool { td_eq(*self, *other) }
}
impl PartialEq for TData {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for TData {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &TData) -> Option<Ordering> { td_ord(*self, *other) }
}
impl PartialOrd for TData {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}

impl TData {
//@fn src/tdata.rs PartialEqforTData::eq
//@name eq_body
//@spec
    ensures r == td_eq(*self, *other),
//@end
//@fn src/tdata.rs PartialOrdforTData::partial_cmp
//@name partial_cmp_body
//@spec
    ensures r == td_ord(*self, *other),
//@end
//@fn src/tdata.rs TData::as_str
//@spec
    ensures r matches Some(s) ==> (self matches TData::String(t) && t@ == s@),
        r is Some <==> self is String,
//@end
//@fn src/tdata.rs TData::mode_rank
//@spec
    ensures r == rank(*self),
//@end
//@fn src/tdata.rs TData::as_bool
//@spec
    ensures r == truth(*self),
//@end
//@fn src/tdata.rs TData::as_usize
//@spec
    ensures r == idx_of(*self),
//@end
//@fn src/tdata.rs TData::as_float
//@spec
    ensures r == as_f(*self),
//@end
//@fn src/tdata.rs TData::get_key_str
//@spec
    ensures r is Some <==> (self matches TData::Map(m) && m@.contains_key(skey(k@)) && m@[skey(k@)] is String),
        r matches Some(s) ==> self matches TData::Map(m) && (m@[skey(k@)] matches TData::String(t) && t@ == s@),
//@end
}
pub broadcast axiom fn axiom_cow_owned(c: std::borrow::Cow<'_, TData>)
    ensures #[trigger] cow_owned(c) == c@;
pub broadcast axiom fn axiom_cow_deref<'b>(c: std::borrow::Cow<'b, TData>)
    ensures #[trigger] cow_deref(c) == c@;
pub broadcast axiom fn axiom_cow_clone<'b>(c: std::borrow::Cow<'b, TData>, d: std::borrow::Cow<'b, TData>)
    requires #[trigger] cow_clone(c, d),
    ensures c@ == d@;
pub broadcast axiom fn axiom_cow_obeys_eq()
    ensures #[trigger] <std::borrow::Cow<'_, TData> as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_cow_eq(a: std::borrow::Cow<'_, TData>, b: std::borrow::Cow<'_, TData>)
    ensures #[trigger] a.eq_spec(&b) == td_eq(a@, b@);
pub broadcast axiom fn axiom_cow_obeys_ord()
    ensures #[trigger] <std::borrow::Cow<'_, TData> as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn axiom_cow_ord(a: std::borrow::Cow<'_, TData>, b: std::borrow::Cow<'_, TData>)
    ensures #[trigger] a.partial_cmp_spec(&b) == td_ord(a@, b@);
pub broadcast group group_cow { axiom_cow_owned, axiom_cow_deref, axiom_cow_clone, axiom_cow_obeys_eq,
    axiom_cow_eq, axiom_cow_obeys_ord, axiom_cow_ord }
pub open spec fn truth(d: TData) -> Option<bool> {
    match d {
        TData::Bool(b) => Some(b),
        TData::String(s) => Some(s@.len() > 0),
        TData::UInt(u) => Some(u != 0),
        TData::Int(i) => Some(i != 0),
        TData::Float(f) => Some(fcmp(f, 0f64) != Some(Ordering::Equal)),
        TData::List(l) => Some(l@.len() > 0),
        TData::Map(m) => Some(m@.len() > 0),
        TData::Null => Some(false),
        _ => None,
    }
}
pub open spec fn idx_of(d: TData) -> Option<usize> {
    match d {
        TData::UInt(n) => Some(n),
        TData::Int(n) => if n >= 0 { Some(n as usize) } else { None },
        _ => None,
    }
}
pub open spec fn as_f(d: TData) -> Option<f64> {
    match d {
        TData::UInt(n) => Some(int_to_f64(n as int)),
        TData::Int(n) => Some(int_to_f64(n as int)),
        TData::Float(f) => Some(f),
        _ => None,
    }
}
} // verus!
}
