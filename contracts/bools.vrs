pub mod bools {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::cmp::Ordering;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_float, crate::shim::group_str, crate::tdata::group_cow, crate::disp::group_disp, crate::laws::law_eq_symmetric};

pub open spec fn is_lt(a: TData, b: TData) -> bool { td_ord(a, b) == Some(Ordering::Less) }
pub open spec fn is_gt(a: TData, b: TData) -> bool { td_ord(a, b) == Some(Ordering::Greater) }
pub open spec fn is_le(a: TData, b: TData) -> bool { td_ord(a, b) == Some(Ordering::Less) || td_ord(a, b) == Some(Ordering::Equal) }
pub open spec fn is_ge(a: TData, b: TData) -> bool { td_ord(a, b) == Some(Ordering::Greater) || td_ord(a, b) == Some(Ordering::Equal) }
pub open spec fn true_of(d: TData) -> bool { truth(d) == Some(true) }
pub open spec fn res_bool<'a>(r: anyhow::Result<TCow<'a>>, b: bool) -> bool { okv(r) == Some(TData::Bool(b)) }

//@fn src/funcs/bools.rs eq
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, forall|i: int| 1 <= i < l.len() ==> td_eq((#[trigger] l@[i])@, l@[0]@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> td_eq((#[trigger] l@[i])@, l@[0]@),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs eq_any
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, exists|i: int| 1 <= i < l.len() && td_eq((#[trigger] l@[i])@, l@[0]@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> !(td_eq((#[trigger] l@[i])@, l@[0]@)),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs neq
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, exists|i: int| 1 <= i < l.len() && !td_eq((#[trigger] l@[i])@, l@[0]@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> !(!td_eq((#[trigger] l@[i])@, l@[0]@)),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs gt
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, forall|i: int| 1 <= i < l.len() ==> is_gt(l@[0]@, (#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> is_gt(l@[0]@, (#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs lt
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, forall|i: int| 1 <= i < l.len() ==> is_lt(l@[0]@, (#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> is_lt(l@[0]@, (#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs gte
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, forall|i: int| 1 <= i < l.len() ==> is_ge(l@[0]@, (#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> is_ge(l@[0]@, (#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs lte
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, forall|i: int| 1 <= i < l.len() ==> is_le(l@[0]@, (#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        forall|i: int| 1 <= i < it.index() + 1 ==> is_le(l@[0]@, (#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index() + 1]);
//@end
//@fn src/funcs/bools.rs and
//@spec
    ensures res_bool(r, forall|i: int| 0 <= i < l.len() ==> true_of((#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        it.seq().len() == l.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        forall|i: int| 0 <= i < it.index() ==> true_of((#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index()]);
//@end
//@fn src/funcs/bools.rs nand
//@spec
    ensures res_bool(r, !(forall|i: int| 0 <= i < l.len() ==> true_of((#[trigger] l@[i])@))),
//@loop 0 iter it
    invariant
        it.seq().len() == l.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        forall|i: int| 0 <= i < it.index() ==> true_of((#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index()]);
//@end
//@fn src/funcs/bools.rs or
//@spec
    ensures res_bool(r, exists|i: int| 0 <= i < l.len() && true_of((#[trigger] l@[i])@)),
//@loop 0 iter it
    invariant
        it.seq().len() == l.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        forall|i: int| 0 <= i < it.index() ==> !true_of((#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index()]);
//@end
//@fn src/funcs/bools.rs nor
//@spec
    ensures res_bool(r, !(exists|i: int| 0 <= i < l.len() && true_of((#[trigger] l@[i])@))),
//@loop 0 iter it
    invariant
        it.seq().len() == l.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        forall|i: int| 0 <= i < it.index() ==> !true_of((#[trigger] l@[i])@),
//@at loop 0 start
    assert(*a == l@[it.index()]);
//@end
pub open spec fn kind_name(d: TData) -> Seq<char> {
    match d {
        TData::Bool(_) => "bool"@, TData::String(_) => "string"@, TData::Int(_) => "int"@, TData::UInt(_) => "uint"@,
        TData::Float(_) => "float"@, TData::List(_) => "list"@, TData::Map(_) => "map"@, TData::Template(_) => "template"@,
        TData::Null => "null"@, TData::Date(_) => "date"@, TData::Bytes(_) => "bytes"@,
    }
}
//@fn src/funcs/bools.rs _type_of
//@spec
    ensures r@ == kind_name(*td),
//@end
//@fn src/funcs/bools.rs is_null
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, l@[0]@ is Null),
//@end
//@fn src/funcs/bools.rs is_num
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() > 0 ==> res_bool(r, tdata::is_num(l@[0]@)),
//@end
//@fn src/funcs/bools.rs type_of
//@spec
    ensures
        l.len() == 0 ==> r is Err,
        l.len() == 1 ==> r is Ok && (okv(r)->0 matches TData::String(s) && s@ == kind_name(l@[0]@)),
        l.len() > 1 ==> res_bool(r, crate::disp::disp(l@[1]@) == kind_name(l@[0]@)),
//@end
} // verus!
}
