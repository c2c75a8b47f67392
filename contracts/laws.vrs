pub mod laws {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::tdata::*;
use crate::stubs::chrono::date_ord;
use std::cmp::Ordering;
verus!{
// ---- C11: the comparison functions speak of one consistent order
proof fn lemma_str_refl(a: Seq<char>, b: Seq<char>)
    ensures str_ord(a, b) == Ordering::Equal <==> a == b,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        lemma_str_refl(a.skip(1), b.skip(1));
        if a[0] == b[0] && a.skip(1) == b.skip(1) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    } else { assert(a == b <==> a.len() == 0 && b.len() == 0) by { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } } }
}
proof fn lemma_str_swap(a: Seq<char>, b: Seq<char>)
    ensures str_ord(b, a) == ord_rev(str_ord(a, b)),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_str_swap(a.skip(1), b.skip(1)); }
}
proof fn lemma_str_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires str_ord(a, b) == Ordering::Less, !(str_ord(b, c) == Ordering::Greater),
    ensures str_ord(a, c) == Ordering::Less,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_str_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
/// the derived equality of templates compares corresponding parts, values by their own equality
pub axiom fn axiom_tmpl_sym(a: crate::template::TreeTemplate, b: crate::template::TreeTemplate)
    ensures crate::template::tmpl_eq(a, b) == crate::template::tmpl_eq(b, a);
/// equality does not depend on which of the two values asks
pub broadcast proof fn law_eq_symmetric(a: TData, b: TData)
    ensures #[trigger] td_eq(a, b) == td_eq(b, a),
    decreases a
{
    if !(is_num(a) && is_num(b)) {
        match (a, b) {
            (TData::List(x), TData::List(y)) => {
                assert forall|i: int| 0 <= i < x@.len() && x@.len() == y@.len() implies td_eq(#[trigger] x@[i], y@[i]) == td_eq(y@[i], x@[i]) by { law_eq_symmetric(x@[i], y@[i]); }
                assert forall|i: int| 0 <= i < x@.len() && x@.len() == y@.len() implies td_eq(x@[i], y@[i]) == td_eq(#[trigger] y@[i], x@[i]) by { law_eq_symmetric(x@[i], y@[i]); }
            },
            (TData::Map(x), TData::Map(y)) => {
                if x@.dom() =~= y@.dom() {
                    assert forall|k: String| x@.contains_key(k) implies td_eq(#[trigger] x@[k], y@[k]) == td_eq(y@[k], x@[k]) by { law_eq_symmetric(x@[k], y@[k]); }
                    assert forall|k: String| x@.contains_key(k) implies td_eq(x@[k], y@[k]) == td_eq(#[trigger] y@[k], x@[k]) by { law_eq_symmetric(x@[k], y@[k]); }
                }
            },
            (TData::Template(x), TData::Template(y)) => { axiom_tmpl_sym(x, y); },
            _ => {},
        }
    } else { broadcast use crate::shim::group_ext, crate::shim::group_float; }
}
pub axiom fn axiom_tmpl_trans(a: crate::template::TreeTemplate, b: crate::template::TreeTemplate, c: crate::template::TreeTemplate)
    ensures crate::template::tmpl_eq(a, b) && crate::template::tmpl_eq(b, c) ==> crate::template::tmpl_eq(a, c);
/// two values equal to a third are equal to each other, however they are nested
pub proof fn law_eq_transitive(a: TData, b: TData, c: TData)
    requires td_eq(a, b), td_eq(b, c),
    ensures td_eq(a, c),
    decreases a
{
    if !(is_num(a) && is_num(b)) {
        match (a, b, c) {
            (TData::List(x), TData::List(y), TData::List(z)) => {
                assert forall|i: int| 0 <= i < x@.len() implies td_eq(#[trigger] x@[i], z@[i]) by { assert(td_eq(x@[i], y@[i]) && td_eq(y@[i], z@[i])); law_eq_transitive(x@[i], y@[i], z@[i]); }
            },
            (TData::Map(x), TData::Map(y), TData::Map(z)) => {
                assert forall|k: String| x@.contains_key(k) implies td_eq(#[trigger] x@[k], z@[k]) by { assert(td_eq(x@[k], y@[k]) && td_eq(y@[k], z@[k])); law_eq_transitive(x@[k], y@[k], z@[k]); }
            },
            (TData::Template(x), TData::Template(y), TData::Template(z)) => { axiom_tmpl_trans(x, y, z); },
            _ => {},
        }
    } else { broadcast use crate::shim::group_ext, crate::shim::group_float; }
}
pub open spec fn nan(d: TData) -> bool { d matches TData::Float(f) && fcls(f) is Nan }
/// two values of one ordered class
pub open spec fn same_class(a: TData, b: TData) -> bool {
    ||| is_num(a) && is_num(b) && !nan(a) && !nan(b)
    ||| a is String && b is String
    ||| a is Date && b is Date
}
pub proof fn law_trichotomy(a: TData, b: TData)
    requires same_class(a, b),
    ensures
        td_ord(a, b) is Some,
        td_eq(a, b) <==> td_ord(a, b) == Some(Ordering::Equal),
        td_ord(b, a) == orev(td_ord(a, b)),
{
    broadcast use crate::shim::group_ext, crate::shim::group_float, crate::stubs::chrono::axiom_date_ext;
    match (a, b) {
        (TData::String(x), TData::String(y)) => { lemma_str_refl(x@, y@); lemma_str_swap(x@, y@); },
        _ => {},
    }
}
/// numbers are ordered by value, transitively, across the three kinds
pub proof fn law_num_transitive(a: TData, b: TData, c: TData)
    requires
        is_num(a) && is_num(b) && is_num(c) && !nan(a) && !nan(b) && !nan(c),
        td_ord(a, b) == Some(Ordering::Less), td_ord(b, c) != Some(Ordering::Greater),
    ensures td_ord(a, c) == Some(Ordering::Less),
{
}
pub proof fn law_str_transitive(a: String, b: String, c: String)
    requires td_ord(TData::String(a), TData::String(b)) == Some(Ordering::Less),
        td_ord(TData::String(b), TData::String(c)) != Some(Ordering::Greater),
    ensures td_ord(TData::String(a), TData::String(c)) == Some(Ordering::Less),
{
    lemma_str_trans(a@, b@, c@);
}
}
}
