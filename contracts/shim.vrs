#![allow(unused)]
#![allow(unused_imports)]
#![feature(sized_hierarchy)]
#![feature(allocator_api)]
#![feature(const_destruct)]
use vstd::prelude::*;

// ------------------------------------------------------------------ trusted base
// Contracts of the standard library and of the dependencies, as far as the
// functions under contract use them. Everything here is assumed, and listed in
// every evidence file by the scan for external_body/assume_specification/axioms.
pub mod shim {
use vstd::prelude::*;
use std::cmp::Ordering;
use std::borrow::Cow;
use std::collections::HashMap;
use std::ops::Deref;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl, PartialOrdSpec, PartialOrdSpecImpl};
use vstd::std_specs::iter::IteratorSpec;
verus!{
#[verifier::external_trait_specification]
pub trait ExDestruct: std::marker::PointeeSized { type ExternalTraitSpecificationFor: std::marker::Destruct; }
broadcast use vstd::std_specs::hash::group_hash_axioms;

// the target is 64-bit
global size_of usize == 8;
pub broadcast proof fn lemma_neg_cast(i: isize)
    requires i < 0,
    ensures #[trigger] (i as usize) > isize::MAX,
{
    assert(i < 0isize ==> (i as usize) > 0x7fff_ffff_ffff_ffffusize) by (bit_vector);
}

pub fn rt_assert(b: bool)
    requires b,
{ }

// --- collections and strings are what their views are
// (each has a left inverse of its view: extensionality, with linear triggering)
/// the String of those characters; also what a &str key is looked up as
pub uninterp spec fn skey(k: Seq<char>) -> String;
pub broadcast axiom fn axiom_string_ext(a: String)
    ensures skey(#[trigger] a@) == a;
/// the Vec of those elements
pub uninterp spec fn vec_of<T>(s: Seq<T>) -> Vec<T>;
pub broadcast axiom fn axiom_vec_ext<T>(a: Vec<T>)
    ensures vec_of(#[trigger] a@) == a;
/// the map of those entries
pub uninterp spec fn map_of<V>(m: Map<String, V>) -> HashMap<String, V>;
pub broadcast axiom fn axiom_map_ext<V>(a: HashMap<String, V>)
    ensures map_of(#[trigger] a@) == a;
pub broadcast group group_ext { axiom_string_ext, axiom_vec_ext, axiom_map_ext }

// --- machine floats
pub enum FCls { Nan, NegInf, Fin, PosInf }
pub uninterp spec fn fcls(f: f64) -> FCls;
pub uninterp spec fn fval(f: f64) -> real;
pub open spec fn fcmp(a: f64, b: f64) -> Option<Ordering> {
    match (fcls(a), fcls(b)) {
        (FCls::Nan, _) | (_, FCls::Nan) => None,
        (FCls::NegInf, FCls::NegInf) | (FCls::PosInf, FCls::PosInf) => Some(Ordering::Equal),
        (FCls::NegInf, _) | (_, FCls::PosInf) => Some(Ordering::Less),
        (_, FCls::NegInf) | (FCls::PosInf, _) => Some(Ordering::Greater),
        (FCls::Fin, FCls::Fin) => Some(if fval(a) < fval(b) { Ordering::Less }
            else if fval(a) > fval(b) { Ordering::Greater } else { Ordering::Equal }),
    }
}
pub broadcast axiom fn axiom_f64_cmp(a: f64, b: f64, o: Option<Ordering>)
    requires #[trigger] vstd::std_specs::cmp::partial_cmp_ensures(a, b, o),
    ensures o == fcmp(a, b);
pub broadcast axiom fn axiom_f64_ne(a: f64, b: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::ne_ensures(a, b, o),
    ensures o == (fcmp(a, b) != Some(Ordering::Equal));
pub broadcast axiom fn axiom_f64_eq(a: f64, b: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::eq_ensures(a, b, o),
    ensures o == (fcmp(a, b) == Some(Ordering::Equal));
pub broadcast axiom fn axiom_f64_lt(a: f64, b: f64, o: bool)
    requires #[trigger] vstd::std_specs::cmp::lt_ensures(a, b, o),
    ensures o == (fcmp(a, b) == Some(Ordering::Less));
pub broadcast axiom fn axiom_f64_zero()
    ensures #[trigger] fcls(0f64) == FCls::Fin, fval(0f64) == 0real;
// float operators are total
pub broadcast axiom fn axiom_f64_add(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn axiom_f64_sub(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn axiom_f64_mul(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn axiom_f64_div(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn axiom_f64_rem(a: f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_req(a, b);
pub broadcast axiom fn axiom_f64_neg(a: f64)
    ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn axiom_f64_neg_ref(a: &f64)
    ensures #[trigger] vstd::std_specs::ops::NegSpec::neg_req(a);
pub broadcast axiom fn axiom_f64_neg_same<'x>(a: &'x f64)
    ensures vstd::std_specs::ops::neg_ensures(*a, #[trigger] vstd::std_specs::ops::NegSpec::neg_spec(a));
pub broadcast axiom fn axiom_f64_neg_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::NegSpec>::obeys_neg_spec();
// the operators take their operands by reference as well
pub broadcast axiom fn axiom_f64_add_l(a: &f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn axiom_f64_add_l_same<'x>(a: &'x f64, b: f64)
    ensures vstd::std_specs::ops::add_ensures(*a, b, #[trigger] vstd::std_specs::ops::AddSpec::add_spec(a, b));
pub broadcast axiom fn axiom_f64_add_l_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::AddSpec<f64>>::obeys_add_spec();
pub broadcast axiom fn axiom_f64_add_r(a: f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn axiom_f64_add_r_same<'x>(a: f64, b: &'x f64)
    ensures vstd::std_specs::ops::add_ensures(a, *b, #[trigger] vstd::std_specs::ops::AddSpec::add_spec(a, b));
pub broadcast axiom fn axiom_f64_add_r_obeys<'x>()
    ensures #[trigger] <f64 as vstd::std_specs::ops::AddSpec<&'x f64>>::obeys_add_spec();
pub broadcast axiom fn axiom_f64_add_b(a: &f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::AddSpec::add_req(a, b);
pub broadcast axiom fn axiom_f64_add_b_same<'x>(a: &'x f64, b: &'x f64)
    ensures vstd::std_specs::ops::add_ensures(*a, *b, #[trigger] vstd::std_specs::ops::AddSpec::add_spec(a, b));
pub broadcast axiom fn axiom_f64_add_b_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::AddSpec<&'x f64>>::obeys_add_spec();
pub broadcast axiom fn axiom_f64_sub_l(a: &f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn axiom_f64_sub_l_same<'x>(a: &'x f64, b: f64)
    ensures vstd::std_specs::ops::sub_ensures(*a, b, #[trigger] vstd::std_specs::ops::SubSpec::sub_spec(a, b));
pub broadcast axiom fn axiom_f64_sub_l_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::SubSpec<f64>>::obeys_sub_spec();
pub broadcast axiom fn axiom_f64_sub_r(a: f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn axiom_f64_sub_r_same<'x>(a: f64, b: &'x f64)
    ensures vstd::std_specs::ops::sub_ensures(a, *b, #[trigger] vstd::std_specs::ops::SubSpec::sub_spec(a, b));
pub broadcast axiom fn axiom_f64_sub_r_obeys<'x>()
    ensures #[trigger] <f64 as vstd::std_specs::ops::SubSpec<&'x f64>>::obeys_sub_spec();
pub broadcast axiom fn axiom_f64_sub_b(a: &f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::SubSpec::sub_req(a, b);
pub broadcast axiom fn axiom_f64_sub_b_same<'x>(a: &'x f64, b: &'x f64)
    ensures vstd::std_specs::ops::sub_ensures(*a, *b, #[trigger] vstd::std_specs::ops::SubSpec::sub_spec(a, b));
pub broadcast axiom fn axiom_f64_sub_b_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::SubSpec<&'x f64>>::obeys_sub_spec();
pub broadcast axiom fn axiom_f64_mul_l(a: &f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn axiom_f64_mul_l_same<'x>(a: &'x f64, b: f64)
    ensures vstd::std_specs::ops::mul_ensures(*a, b, #[trigger] vstd::std_specs::ops::MulSpec::mul_spec(a, b));
pub broadcast axiom fn axiom_f64_mul_l_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::MulSpec<f64>>::obeys_mul_spec();
pub broadcast axiom fn axiom_f64_mul_r(a: f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn axiom_f64_mul_r_same<'x>(a: f64, b: &'x f64)
    ensures vstd::std_specs::ops::mul_ensures(a, *b, #[trigger] vstd::std_specs::ops::MulSpec::mul_spec(a, b));
pub broadcast axiom fn axiom_f64_mul_r_obeys<'x>()
    ensures #[trigger] <f64 as vstd::std_specs::ops::MulSpec<&'x f64>>::obeys_mul_spec();
pub broadcast axiom fn axiom_f64_mul_b(a: &f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::MulSpec::mul_req(a, b);
pub broadcast axiom fn axiom_f64_mul_b_same<'x>(a: &'x f64, b: &'x f64)
    ensures vstd::std_specs::ops::mul_ensures(*a, *b, #[trigger] vstd::std_specs::ops::MulSpec::mul_spec(a, b));
pub broadcast axiom fn axiom_f64_mul_b_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::MulSpec<&'x f64>>::obeys_mul_spec();
pub broadcast axiom fn axiom_f64_div_l(a: &f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn axiom_f64_div_l_same<'x>(a: &'x f64, b: f64)
    ensures vstd::std_specs::ops::div_ensures(*a, b, #[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b));
pub broadcast axiom fn axiom_f64_div_l_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::DivSpec<f64>>::obeys_div_spec();
pub broadcast axiom fn axiom_f64_div_r(a: f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn axiom_f64_div_r_same<'x>(a: f64, b: &'x f64)
    ensures vstd::std_specs::ops::div_ensures(a, *b, #[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b));
pub broadcast axiom fn axiom_f64_div_r_obeys<'x>()
    ensures #[trigger] <f64 as vstd::std_specs::ops::DivSpec<&'x f64>>::obeys_div_spec();
pub broadcast axiom fn axiom_f64_div_b(a: &f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::DivSpec::div_req(a, b);
pub broadcast axiom fn axiom_f64_div_b_same<'x>(a: &'x f64, b: &'x f64)
    ensures vstd::std_specs::ops::div_ensures(*a, *b, #[trigger] vstd::std_specs::ops::DivSpec::div_spec(a, b));
pub broadcast axiom fn axiom_f64_div_b_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::DivSpec<&'x f64>>::obeys_div_spec();
pub broadcast axiom fn axiom_f64_rem_l(a: &f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_req(a, b);
pub broadcast axiom fn axiom_f64_rem_l_same<'x>(a: &'x f64, b: f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_spec(a, b) == vstd::std_specs::ops::RemSpec::rem_spec(*a, b);
pub broadcast axiom fn axiom_f64_rem_l_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::RemSpec<f64>>::obeys_rem_spec();
pub broadcast axiom fn axiom_f64_rem_r(a: f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_req(a, b);
pub broadcast axiom fn axiom_f64_rem_r_same<'x>(a: f64, b: &'x f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_spec(a, b) == vstd::std_specs::ops::RemSpec::rem_spec(a, *b);
pub broadcast axiom fn axiom_f64_rem_r_obeys<'x>()
    ensures #[trigger] <f64 as vstd::std_specs::ops::RemSpec<&'x f64>>::obeys_rem_spec();
pub broadcast axiom fn axiom_f64_rem_b(a: &f64, b: &f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_req(a, b);
pub broadcast axiom fn axiom_f64_rem_b_same<'x>(a: &'x f64, b: &'x f64)
    ensures #[trigger] vstd::std_specs::ops::RemSpec::rem_spec(a, b) == vstd::std_specs::ops::RemSpec::rem_spec(*a, *b);
pub broadcast axiom fn axiom_f64_rem_b_obeys<'x>()
    ensures #[trigger] <&'x f64 as vstd::std_specs::ops::RemSpec<&'x f64>>::obeys_rem_spec();
pub broadcast axiom fn axiom_f64_rem_obeys()
    ensures #[trigger] <f64 as vstd::std_specs::ops::RemSpec>::obeys_rem_spec();
pub broadcast group group_float { axiom_int_f64, axiom_f64_rem_obeys, axiom_ftrunc, axiom_f64_cast, axiom_f64_cmp, axiom_f64_lt, axiom_f64_ne, axiom_f64_eq, axiom_f64_zero,
    axiom_f64_add, axiom_f64_sub, axiom_f64_mul, axiom_f64_div, axiom_f64_rem, axiom_f64_neg, axiom_f64_neg_ref, axiom_f64_neg_same, axiom_f64_neg_obeys,
    axiom_f64_add_l, axiom_f64_add_l_same, axiom_f64_add_l_obeys, axiom_f64_add_r, axiom_f64_add_r_same, axiom_f64_add_r_obeys, axiom_f64_add_b, axiom_f64_add_b_same, axiom_f64_add_b_obeys, axiom_f64_sub_l, axiom_f64_sub_l_same, axiom_f64_sub_l_obeys, axiom_f64_sub_r, axiom_f64_sub_r_same, axiom_f64_sub_r_obeys, axiom_f64_sub_b, axiom_f64_sub_b_same, axiom_f64_sub_b_obeys, axiom_f64_mul_l, axiom_f64_mul_l_same, axiom_f64_mul_l_obeys, axiom_f64_mul_r, axiom_f64_mul_r_same, axiom_f64_mul_r_obeys, axiom_f64_mul_b, axiom_f64_mul_b_same, axiom_f64_mul_b_obeys, axiom_f64_div_l, axiom_f64_div_l_same, axiom_f64_div_l_obeys, axiom_f64_div_r, axiom_f64_div_r_same, axiom_f64_div_r_obeys, axiom_f64_div_b, axiom_f64_div_b_same, axiom_f64_div_b_obeys, axiom_f64_rem_l, axiom_f64_rem_l_same, axiom_f64_rem_l_obeys, axiom_f64_rem_r, axiom_f64_rem_r_same, axiom_f64_rem_r_obeys, axiom_f64_rem_b, axiom_f64_rem_b_same, axiom_f64_rem_b_obeys }

/// integer and fractional part, toward zero
pub uninterp spec fn ftrunc(f: f64) -> int;
pub uninterp spec fn ffrac(f: f64) -> real;
pub broadcast axiom fn axiom_ftrunc(f: f64)
    requires fcls(f) is Fin,
    ensures fval(f) == #[trigger] ftrunc(f) as real + ffrac(f), -1real < ffrac(f) < 1real,
        ftrunc(f) > 0 ==> ffrac(f) >= 0real, ftrunc(f) < 0 ==> ffrac(f) <= 0real;
pub broadcast axiom fn axiom_f64_cast(f: f64, r: i128)
    requires #[trigger] vstd::float::float_cast_spec::<f64, i128>(f, r),
    ensures
        fcls(f) is Fin && i128::MIN <= ftrunc(f) <= i128::MAX ==> r == ftrunc(f),
        fcls(f) is Fin && ftrunc(f) > i128::MAX ==> r == i128::MAX,
        fcls(f) is Fin && ftrunc(f) < i128::MIN ==> r == i128::MIN,
        fcls(f) is PosInf ==> r == i128::MAX,
        fcls(f) is NegInf ==> r == i128::MIN;
pub assume_specification [f64::is_nan] (a: f64) -> (r: bool)
    ensures r == (fcls(a) is Nan);
pub assume_specification [f64::fract] (a: f64) -> (r: f64)
    ensures fcls(a) is Fin ==> fcls(r) is Fin && fval(r) == ffrac(a);
pub uninterp spec fn fmin_ensures(a: f64, b: f64, r: f64) -> bool;
pub uninterp spec fn fmax_ensures(a: f64, b: f64, r: f64) -> bool;
pub assume_specification [f64::min] (a: f64, b: f64) -> (r: f64)
    ensures fmin_ensures(a, b, r);
pub assume_specification [f64::max] (a: f64, b: f64) -> (r: f64)
    ensures fmax_ensures(a, b, r);

/// the difference is a finite number
pub open spec fn f_gap(lo: f64, hi: f64) -> bool { exists|r: f64| #[trigger] vstd::std_specs::ops::sub_ensures(hi, lo, r) && fcls(r) is Fin }
pub assume_specification [f64::is_finite] (a: f64) -> (r: bool)
    ensures r == (fcls(a) is Fin);
/// `E as f64` for the integer kinds (R8)
pub uninterp spec fn int_to_f64(n: int) -> f64;
pub broadcast axiom fn axiom_int_f64(n: int)
    requires isize::MIN <= n <= usize::MAX,
    ensures fcls(#[trigger] int_to_f64(n)) is Fin;
pub trait ToF64: Sized {
    spec fn f64_spec(self) -> f64;
    fn to_f64(self) -> (r: f64) ensures r == self.f64_spec();
}
impl ToF64 for usize {
    open spec fn f64_spec(self) -> f64 { int_to_f64(self as int) }
    #[verifier::external_body]
    fn to_f64(self) -> (r: f64) { self as f64 }
}
impl ToF64 for isize {
    open spec fn f64_spec(self) -> f64 { int_to_f64(self as int) }
    #[verifier::external_body]
    fn to_f64(self) -> (r: f64) { self as f64 }
}
// --- Cow: owned or borrowed, the value is its view
pub uninterp spec fn cow_owned<B: ?Sized + ToOwned>(c: Cow<'_, B>) -> B::Owned;
pub uninterp spec fn cow_deref<'b, B: ?Sized + ToOwned>(c: Cow<'b, B>) -> &'b B;
pub uninterp spec fn cow_clone<'b, B: ?Sized + ToOwned>(c: Cow<'b, B>, r: Cow<'b, B>) -> bool;
pub assume_specification<'a, B> [std::borrow::Cow::<'_, B>::into_owned] (c: std::borrow::Cow<'a, B>) -> (r: <B as std::borrow::ToOwned>::Owned)
    where B: std::marker::MetaSized + std::borrow::ToOwned + ?Sized
    ensures r == cow_owned(c);
pub assume_specification<'a, 'b, B> [<std::borrow::Cow::<'a, B> as Deref>::deref] (c: &'b std::borrow::Cow<'a, B>) -> (r: &'b B)
    where B: std::marker::MetaSized + std::borrow::ToOwned + ?Sized,
    ensures r == cow_deref(*c);
pub assume_specification<'a, 'b, B> [<std::borrow::Cow::<'a, B> as Clone>::clone] (c: &'b std::borrow::Cow<'a, B>) -> (r: std::borrow::Cow<'a, B>)
    where B: std::marker::MetaSized + std::borrow::ToOwned + ?Sized,
    ensures cow_clone(*c, r);
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct
    ensures r == match a { Ok(v) => v, Err(_) => d };
pub assume_specification<T, U, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or] (o: std::option::Option<T>, d: U, f: F) -> (r: U)
    where U: std::marker::Destruct
    requires o matches Some(x) ==> f.requires((x,)),
    ensures match o { Some(x) => f.ensures((x,), r), None => r == d };
pub assume_specification<T, U, D: FnOnce() -> U + std::marker::Destruct, F: FnOnce(T) -> U + std::marker::Destruct> [std::option::Option::<T>::map_or_else] (o: std::option::Option<T>, d: D, f: F) -> (r: U)
    requires o matches Some(x) ==> f.requires((x,)), o is None ==> d.requires(()),
    ensures match o { Some(x) => f.ensures((x,), r), None => d.ensures((), r) };
pub assume_specification<T, P: FnOnce(&T) -> bool + std::marker::Destruct> [std::option::Option::<T>::filter] (o: std::option::Option<T>, p: P) -> (r: std::option::Option<T>)
    where T: std::marker::Destruct
    requires o matches Some(x) ==> p.requires((&x,)),
    ensures match o { Some(x) => if r is Some { r == Some(x) && p.ensures((&x,), true) } else { p.ensures((&x,), false) }, None => r is None };
pub assume_specification<T, F: FnOnce() -> Option<T> + std::marker::Destruct> [std::option::Option::<T>::or_else] (o: std::option::Option<T>, f: F) -> (r: std::option::Option<T>)
    where T: std::marker::Destruct
    requires o is None ==> f.requires(()),
    ensures match o { Some(x) => r == Some(x), None => f.ensures((), r) };
pub assume_specification<T> [std::option::Option::<T>::or] (o: std::option::Option<T>, p: std::option::Option<T>) -> (r: std::option::Option<T>)
    where T: std::marker::Destruct
    ensures r == if o is Some { o } else { p };
pub assume_specification<T, E, F: FnOnce(E) -> T + std::marker::Destruct> [std::result::Result::<T, E>::unwrap_or_else] (a: std::result::Result<T, E>, f: F) -> (r: T)
    requires a matches Err(e) ==> f.requires((e,)),
    ensures match a { Ok(v) => r == v, Err(e) => f.ensures((e,), r) };
pub assume_specification<T, E, U, F: FnOnce(T) -> std::result::Result<U, E> + std::marker::Destruct> [std::result::Result::<T, E>::and_then] (a: std::result::Result<T, E>, f: F) -> (r: std::result::Result<U, E>)
    requires a matches Ok(v) ==> f.requires((v,)),
    ensures match a { Ok(v) => f.ensures((v,), r), Err(e) => r == Err::<U, E>(e) };
// --- integers
pub assume_specification [i128::checked_neg] (a: i128) -> (r: Option<i128>)
    ensures r == if a == i128::MIN { None } else { Some((-a) as i128) };
pub open spec fn ord_rev(o: Ordering) -> Ordering {
    match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less }
}
pub assume_specification [std::cmp::Ordering::reverse] (o: Ordering) -> (r: Ordering)
    ensures r == ord_rev(o);

pub broadcast axiom fn axiom_bool_obeys_ord() ensures #[trigger] <bool as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec();
pub broadcast axiom fn axiom_bool_ord(a: bool, b: bool)
    ensures #[trigger] <bool as vstd::std_specs::cmp::OrdSpec>::cmp_spec(&a, &b) == (if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater });
pub broadcast group group_bool { axiom_bool_obeys_ord, axiom_bool_ord }
// --- strings
/// strings by code point
pub open spec fn str_ord(a: Seq<char>, b: Seq<char>) -> Ordering
    decreases a.len()
{
    if a.len() == 0 && b.len() == 0 { Ordering::Equal }
    else if a.len() == 0 { Ordering::Less }
    else if b.len() == 0 { Ordering::Greater }
    else if a[0] < b[0] { Ordering::Less }
    else if a[0] > b[0] { Ordering::Greater }
    else { str_ord(a.skip(1), b.skip(1)) }
}
pub broadcast axiom fn axiom_string_obeys(a: String, b: String)
    ensures #[trigger] a.partial_cmp_spec(&b) == Some(str_ord(a@, b@));
pub broadcast axiom fn axiom_string_obeys_ord()
    ensures #[trigger] <String as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast group group_str_ord { axiom_string_obeys, axiom_string_obeys_ord }
pub assume_specification [std::string::String::len] (s: &std::string::String) -> (r: usize)
    ensures r == vstd::utf8::encode_utf8(s@).len(), r >= s@.len(), r > 0 ==> s@.len() > 0;
pub broadcast axiom fn axiom_skey(k: &str)
    ensures #[trigger] skey(k@)@ == k@;
pub broadcast axiom fn axiom_str_key<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::contains_borrowed_key(m, k) <==> m.contains_key(skey(k@)), skey(k@)@ == k@;
pub broadcast axiom fn axiom_str_key_value<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] vstd::std_specs::hash::maps_borrowed_key_to_value(m, k, v) <==> m.contains_key(skey(k@)) && m[skey(k@)] == v, skey(k@)@ == k@;
pub broadcast axiom fn axiom_string_key_model()
    ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<String>();
pub broadcast axiom fn axiom_ordering_eq(a: Ordering, b: Ordering)
    ensures #[trigger] a.eq_spec(&b) == (a == b);
pub broadcast axiom fn axiom_ordering_obeys()
    ensures #[trigger] <Ordering as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq(a: String, b: String)
    ensures #[trigger] a.eq_spec(&b) == (a@ == b@);
pub broadcast axiom fn axiom_string_obeys_eq()
    ensures #[trigger] <String as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn axiom_str_string_obeys()
    ensures #[trigger] <&str as PartialEqSpec<String>>::obeys_eq_spec();
pub broadcast axiom fn axiom_str_string_eq(a: &str, b: String)
    ensures #[trigger] <&str as PartialEqSpec<String>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast axiom fn axiom_string_str_obeys()
    ensures #[trigger] <String as PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_str_eq(a: String, b: &str)
    ensures #[trigger] <String as PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast group group_str { axiom_str_string_obeys, axiom_str_string_eq, axiom_string_str_obeys, axiom_string_str_eq, axiom_string_key_model, axiom_ordering_eq, axiom_ordering_obeys, axiom_string_eq, axiom_string_obeys_eq, axiom_skey, axiom_str_key, axiom_str_key_value, axiom_str_key_removed }
// --- slices and vectors
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), #[trigger] r@[i]);
/// a permutation of 0..n
pub open spec fn is_perm(p: Seq<int>, n: nat) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
/// a comparison that is a total preorder: what a stable sort may be asked to sort by
pub open spec fn cmp_total<T, F: FnMut(&T, &T) -> Ordering>(f: F) -> bool {
    &&& forall|a: &T, b: &T| #[trigger] f.requires((a, b))
    &&& forall|a: &T, b: &T, o: Ordering, q: Ordering| #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, a), q) ==> q == ord_rev(o)
    &&& forall|a: &T, b: &T, c: &T, o: Ordering, q: Ordering, u: Ordering|
        #[trigger] f.ensures((a, b), o) && #[trigger] f.ensures((b, c), q) && #[trigger] f.ensures((a, c), u)
        && o != Ordering::Greater && q != Ordering::Greater ==> u != Ordering::Greater
}
/// b is a with its elements reordered by p, ordered by f, equal elements in their old order
pub open spec fn stable_by<T, F: FnMut(&T, &T) -> Ordering>(f: F, a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& is_perm(p, a.len())
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> cmp_le(f, #[trigger] b[i], #[trigger] b[j], p[i] < p[j])
}
pub open spec fn cmp_le<T, F: FnMut(&T, &T) -> Ordering>(f: F, x: T, y: T, before: bool) -> bool {
    exists|o: Ordering| #[trigger] f.ensures((&x, &y), o) && o != Ordering::Greater && (o == Ordering::Equal ==> before)
}
pub assume_specification<T, F: FnMut(&T, &T) -> Ordering> [<[T]>::sort_by] (s: &mut [T], f: F)
    requires cmp_total(f),
    ensures exists|p: Seq<int>| #[trigger] stable_by(f, old(s)@, final(s)@, p);
pub open spec fn probe_is<'a, T, F: FnMut(&'a T) -> Ordering>(f: F, x: &'a T, o: Ordering) -> bool { f.ensures((x,), o) }
pub open spec fn probe_ne<'a, T, F: FnMut(&'a T) -> Ordering>(f: F, x: &'a T) -> bool { exists|o: Ordering| #[trigger] probe_is(f, x, o) && o != Ordering::Equal }
/// the elements a probe calls less come first, then those it calls equal
pub open spec fn probe_mono<'a, T: 'a, F: FnMut(&'a T) -> Ordering>(f: F, s: Seq<T>) -> bool {
    forall|i: int, j: int, o: Ordering, q: Ordering| 0 <= i < j < s.len() && #[trigger] probe_is(f, &s[i], o) && #[trigger] probe_is(f, &s[j], q)
        ==> (o == Ordering::Greater ==> q == Ordering::Greater) && (q == Ordering::Less ==> o == Ordering::Less)
}
pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by] (s: &'a [T], f: F) -> (r: Result<usize, usize>)
    requires forall|a: &T| #[trigger] f.requires((a,)),
    ensures
        r matches Ok(i) ==> i < s@.len() && probe_is(f, &s@[i as int], Ordering::Equal),
        r is Err && probe_mono(f, s@) ==> forall|i: int| 0 <= i < s@.len() ==> probe_ne(f, &(#[trigger] s@[i]));
/// what an iterator still has to give (for Extend)
pub uninterp spec fn into_items<T, I: IntoIterator<Item = T>>(i: I) -> Seq<T>;
pub assume_specification<T, A: std::alloc::Allocator, I: IntoIterator<Item = T>> [<Vec<T, A> as std::iter::Extend<T>>::extend] (v: &mut Vec<T, A>, i: I)
    ensures final(v)@ == old(v)@ + into_items::<T, I>(i), drained(i);
/// all of it was taken
pub uninterp spec fn drained<I>(i: I) -> bool;
pub broadcast axiom fn axiom_items_iter<T, I: Iterator<Item = T>>(i: I)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i), drained(i),
    ensures vstd::std_specs::iter::IteratorSpec::will_return_none(&i), #[trigger] into_items::<T, I>(i) == vstd::std_specs::iter::IteratorSpec::remaining(&i);
/// a list in memory has at most isize::MAX members
pub broadcast axiom fn axiom_vec_len<T>(v: Vec<T>)
    ensures (#[trigger] v@).len() <= isize::MAX;
pub broadcast group group_vec { axiom_items_iter, axiom_vec_len }
/// E.filter_map(F).collect() (R12): the Some results in order
pub open spec fn picks<T, U, F: FnMut(T) -> Option<U>>(f: F, s: Seq<T>, o: Seq<Option<U>>) -> bool {
    o.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] o[i])
}
pub open spec fn somes<U>(o: Seq<Option<U>>) -> Seq<U> decreases o.len() {
    if o.len() == 0 { Seq::empty() } else {
        match o.last() { Some(x) => somes(o.drop_last()).push(x), None => somes(o.drop_last()) }
    }
}
#[verifier::external_body]
pub fn iter_filter_map<I: Iterator, U, F: FnMut(I::Item) -> Option<U>>(i: I, f: F) -> (r: Vec<U>)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i), forall|x: I::Item| #[trigger] f.requires((x,)),
    ensures exists|o: Seq<Option<U>>| #[trigger] picks(f, vstd::std_specs::iter::IteratorSpec::remaining(&i), o) && r@ == somes(o),
        forall|k: int| 0 <= k < r@.len() ==> exists|j: int| 0 <= j < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() && f.ensures((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[j],), Some(#[trigger] r@[k])),
{ i.filter_map(f).collect() }
/// E.filter(F) (R12): members of E, of which F holds, in order
pub open spec fn kept<T>(s: Seq<T>, keep: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if keep[s.len() - 1] { kept(s.drop_last(), keep).push(s.last()) } else { kept(s.drop_last(), keep) }
}
pub open spec fn keeps<T, F: FnMut(&T) -> bool>(f: F, s: Seq<T>, keep: Seq<bool>) -> bool {
    keep.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((&s[i],), #[trigger] keep[i])
}
#[verifier::external_body]
pub fn iter_filter<I: Iterator, F: FnMut(&I::Item) -> bool>(i: I, f: F) -> (r: Vec<I::Item>)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i), forall|x: &I::Item| #[trigger] f.requires((x,)),
    ensures
        exists|o: Seq<bool>| #[trigger] keeps(f, vstd::std_specs::iter::IteratorSpec::remaining(&i), o) && r@ == kept(vstd::std_specs::iter::IteratorSpec::remaining(&i), o),
        forall|k: int| 0 <= k < r@.len() ==> exists|j: int| 0 <= j < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() && #[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[j] == #[trigger] r@[k],
{ i.filter(f).collect() }
// --- parts of a text, by byte
pub open spec fn bytes_of(s: Seq<char>) -> Seq<u8> { vstd::utf8::encode_utf8(s) }
pub broadcast proof fn lemma_bytes_cat(p: Seq<char>, q: Seq<char>)
    ensures #[trigger] bytes_of(p + q) == bytes_of(p) + bytes_of(q),
{
    vstd::utf8::encode_utf8_concat(p, q);
}
pub proof fn lemma_bytes_pos(q: Seq<char>)
    ensures bytes_of(q).len() >= q.len(),
    decreases q.len()
{
    if q.len() > 0 { lemma_bytes_pos(q.skip(1)); }
}
pub assume_specification [String::as_bytes] (s: &String) -> (r: &[u8])
    ensures r@ == bytes_of(s@);
/// r is the text of the bytes a..b of s, none if that is no text
pub open spec fn str_part(s: Seq<char>, a: int, b: int, r: Option<Seq<char>>) -> bool {
    match r {
        Some(t) => 0 <= a <= b <= bytes_of(s).len() && exists|p: Seq<char>, q: Seq<char>| s == #[trigger] (p + t + q) && bytes_of(p).len() == a && bytes_of(p + t).len() == b,
        None => forall|p: Seq<char>, t: Seq<char>, q: Seq<char>| s == #[trigger] (p + t + q) ==> !(bytes_of(p).len() == a && bytes_of(p + t).len() == b),
    }
}
pub uninterp spec fn str_get<'a, I: std::slice::SliceIndex<str>>(s: &'a str, i: I, r: Option<&'a I::Output>) -> bool;
pub assume_specification<'a, I: std::slice::SliceIndex<str>> [str::get] (s: &'a str, i: I) -> (r: Option<&'a I::Output>)
    ensures str_get(s, i, r);
pub broadcast axiom fn axiom_str_get_range<'a>(s: &'a str, i: std::ops::Range<usize>, r: Option<&'a str>)
    ensures #[trigger] str_get(s, i, r) ==> str_part(s@, i.start as int, i.end as int, match r { Some(t) => Some(t@), None => None });
/// r is the text of the bytes from a on, none if that is no text
pub open spec fn str_from(s: Seq<char>, a: int, r: Option<Seq<char>>) -> bool {
    match r {
        Some(t) => 0 <= a <= bytes_of(s).len() && exists|p: Seq<char>| s == #[trigger] (p + t) && bytes_of(p).len() == a,
        None => forall|p: Seq<char>, t: Seq<char>| s == #[trigger] (p + t) ==> bytes_of(p).len() != a,
    }
}
pub broadcast axiom fn axiom_str_get_from<'a>(s: &'a str, i: std::ops::RangeFrom<usize>, r: Option<&'a str>)
    ensures #[trigger] str_get(s, i, r) ==> str_from(s@, i.start as int, match r { Some(t) => Some(t@), None => None });
/// a text in memory has at most isize::MAX bytes
pub broadcast axiom fn axiom_text_len(s: String)
    ensures bytes_of(#[trigger] s@).len() <= isize::MAX;
pub broadcast group group_part { axiom_str_get_range, axiom_str_get_from, axiom_text_len }
/// an iterator run to its end (for iterators without effects)
/// `.map(f)`, taken to the end at once (for a closure without effects)
pub trait MapItems: Iterator + Sized {
    fn map_items<B, F: FnMut(Self::Item) -> B>(self, f: F) -> (r: std::vec::IntoIter<B>)
        requires forall|x: Self::Item| #[trigger] f.requires((x,));
}
impl<I: Iterator> MapItems for I {
    #[verifier::external_body]
    fn map_items<B, F: FnMut(I::Item) -> B>(self, f: F) -> (r: std::vec::IntoIter<B>)
        ensures
            self.obeys_prophetic_iter_laws() && self.decrease() is Some ==>
                r.remaining().len() == self.remaining().len()
                && (forall|i: int| 0 <= i < r.remaining().len() ==> f.ensures((self.remaining()[i],), #[trigger] r.remaining()[i])),
            r.obeys_prophetic_iter_laws(), r.decrease() is Some, self.will_return_none(),
    { self.map(f).collect::<Vec<B>>().into_iter() }
}
#[verifier::external_body]
pub fn all_of<I: Iterator>(i: I) -> (r: Vec<I::Item>)
    requires vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&i),
    ensures vstd::std_specs::iter::IteratorSpec::will_return_none(&i), r@ == vstd::std_specs::iter::IteratorSpec::remaining(&i),
{ i.collect() }
/// `write!` to a text (R13): cannot fail
pub trait WriteText { fn write_text(&mut self, t: String) -> Result<(), ()>; }
impl WriteText for String {
    #[verifier::external_body]
    fn write_text(&mut self, t: String) -> (r: Result<(), ()>) ensures r is Ok, final(self)@ == old(self)@ + t@ { unimplemented!() }
}
/// `chars` as an iterator of its own: in order, each once
pub trait OwnChars: Sized {
    spec fn text(self) -> Seq<char>;
    fn own_chars(self) -> (r: std::vec::IntoIter<char>)
        ensures vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
            vstd::std_specs::iter::IteratorSpec::remaining(&r) == self.text();
}
impl OwnChars for String {
    open spec fn text(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn own_chars(self) -> (r: std::vec::IntoIter<char>) { self.chars().collect::<Vec<char>>().into_iter() }
}
impl<'a> OwnChars for &'a str {
    open spec fn text(self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn own_chars(self) -> (r: std::vec::IntoIter<char>) { self.chars().collect::<Vec<char>>().into_iter() }
}
/// an order in which a map may list its entries: each once
pub open spec fn map_order<V>(m: Map<String, V>, o: Seq<(String, V)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0
    &&& forall|i: int| 0 <= i < o.len() ==> m.contains_key((#[trigger] o[i]).0) && m[o[i].0] == o[i].1
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k
}
#[verifier::external_body]
pub fn map_seq<V>(m: HashMap<String, V>) -> (r: Vec<(String, V)>)
    ensures map_order(m@, r@),
{ m.into_iter().collect() }
// --- formatting calls Display/Debug of the arguments, which do not panic
pub broadcast axiom fn axiom_display_req<T: std::fmt::Display>(x: &T, f: &std::fmt::Formatter<'_>)
    ensures #[trigger] vstd::std_specs::fmt::DisplaySpec::fmt_req(x, f);
pub broadcast axiom fn axiom_debug_req<T: std::fmt::Debug>(x: &T, f: &std::fmt::Formatter<'_>)
    ensures #[trigger] vstd::std_specs::fmt::DebugSpec::fmt_req(x, f);
pub broadcast axiom fn axiom_string_to_string(a: String, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures(&a, r),
    ensures r == a;
pub broadcast axiom fn axiom_str_push(a: String, b: &str)
    ensures #[trigger] <String as vstd::std_specs::ops::AddAssignSpec<&str>>::add_assign_req(&a, b);
pub broadcast axiom fn axiom_str_push_obeys()
    ensures #[trigger] <String as vstd::std_specs::ops::AddAssignSpec<&str>>::obeys_add_assign_spec();
pub broadcast axiom fn axiom_str_push_val(a: String, b: &str)
    ensures (#[trigger] <String as vstd::std_specs::ops::AddAssignSpec<&str>>::add_assign_spec(&a, b))@ == a@ + b@;
pub broadcast axiom fn axiom_ref_to_string(a: &str, r: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures(&a, r),
    ensures r@ == a@;
pub broadcast group group_fmt { axiom_ref_to_string, axiom_str_push, axiom_str_push_obeys, axiom_str_push_val, axiom_string_to_string, axiom_display_req, axiom_debug_req }
pub broadcast axiom fn axiom_str_key_removed<V>(a: Map<String, V>, b: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::hash::borrowed_key_removed(a, b, k) <==> b == a.remove(skey(k@)), skey(k@)@ == k@;
// --- Into<String>
pub broadcast axiom fn axiom_into_str() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'static str>>::obeys_from_spec();
pub broadcast axiom fn axiom_into_str_val<'a>(s: &'a str) ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'a str>>::from_spec(s)@ == s@;
pub broadcast axiom fn axiom_into_string<'a>() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'a String>>::obeys_from_spec();
pub broadcast axiom fn axiom_into_string_val<'a>(s: &'a String) ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<&'a String>>::from_spec(s) == *s;
pub broadcast axiom fn axiom_into_self() ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<String>>::obeys_from_spec();
pub broadcast axiom fn axiom_into_self_val(s: String) ensures #[trigger] <String as vstd::std_specs::convert::FromSpec<String>>::from_spec(s) == s;
pub broadcast group group_into { axiom_into_str, axiom_into_str_val, axiom_into_string, axiom_into_string_val, axiom_into_self, axiom_into_self_val }
pub broadcast axiom fn axiom_map_eq<V: PartialEq>(a: HashMap<String, V>, b: HashMap<String, V>)
    ensures #[trigger] a.eq_spec(&b) == (a@.dom() =~= b@.dom() && forall|k: String| a@.contains_key(k) ==> (#[trigger] a@[k]).eq_spec(&b@[k]));
pub broadcast axiom fn axiom_map_obeys_eq<V: PartialEq>()
    ensures V::obeys_eq_spec() ==> #[trigger] <HashMap<String, V> as PartialEqSpec>::obeys_eq_spec();
pub broadcast group group_map_eq { axiom_map_eq, axiom_map_obeys_eq }
/// the map of these pairs, later keys winning
pub open spec fn seq_map<V>(s: Seq<(String, V)>) -> Map<String, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { seq_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub open spec fn ref_map<'a, V>(s: Seq<(&'a String, &'a V)>) -> Map<String, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { ref_map(s.drop_last()).insert(*s.last().0, *s.last().1) }
}
pub broadcast axiom fn axiom_map_collect<V>(s: Seq<(String, V)>, r: HashMap<String, V>)
    requires #[trigger] <HashMap<String, V> as vstd::std_specs::iter::FromIteratorSpec<(String, V)>>::from_iter_ensures(s, r),
    ensures r@ == seq_map(s);
/// a Vec holds any sequence that fits in memory, a map any such set of entries
pub axiom fn axiom_vec_of<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures vec_of(s)@ == s;
pub axiom fn axiom_map_of<V>(m: Map<String, V>) requires m.dom().finite(), m.len() <= usize::MAX ensures map_of(m)@ == m;
} // verus!
}
pub mod stubs {
pub mod anyhow {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct Error { _p: () }
impl std::fmt::Display for Error {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
pub type Result<T, E = Error> = core::result::Result<T, E>;
}
}
pub mod err_tools {
use vstd::prelude::*;
use super::anyhow;
verus!{
#[verifier::external_body]
pub fn e_str<T>(s: &'static str) -> (r: anyhow::Result<T>)
    ensures r is Err,
{ unimplemented!() }
#[verifier::external_body]
pub fn e_string<T>(s: String) -> (r: anyhow::Result<T>)
    ensures r is Err,
{ unimplemented!() }
pub trait OpError<V>: Sized {
    spec fn op_spec(self) -> Option<V>;
    fn e_str(self, s: &'static str) -> (r: anyhow::Result<V>)
        ensures self.op_spec() matches Some(v) ==> r == Ok::<V, anyhow::Error>(v), self.op_spec() is None ==> r is Err;
    fn e_string(self, s: String) -> (r: anyhow::Result<V>)
        ensures self.op_spec() matches Some(v) ==> r == Ok::<V, anyhow::Error>(v), self.op_spec() is None ==> r is Err;
}
impl<V> OpError<V> for Option<V> {
    open spec fn op_spec(self) -> Option<V> { self }
    #[verifier::external_body]
    fn e_str(self, s: &'static str) -> (r: anyhow::Result<V>) { unimplemented!() }
    #[verifier::external_body]
    fn e_string(self, s: String) -> (r: anyhow::Result<V>) { unimplemented!() }
}
impl<V, E> OpError<V> for core::result::Result<V, E> {
    open spec fn op_spec(self) -> Option<V> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn e_str(self, s: &'static str) -> (r: anyhow::Result<V>) { unimplemented!() }
    #[verifier::external_body]
    fn e_string(self, s: String) -> (r: anyhow::Result<V>) { unimplemented!() }
}
}
}
pub mod mdown {
use vstd::prelude::*;
verus!{
/// the HTML of a markdown text
pub uninterp spec fn md_html(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub struct Options { _p: () }
impl Options {
    #[verifier::external_body]
    pub fn all() -> Options { unimplemented!() }
}
#[verifier::external_body]
pub struct Parser { _p: () }
impl Parser {
    pub uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new_ext(s: &str, o: Options) -> (r: Parser) ensures r.of() == s@ { unimplemented!() }
}
pub mod html {
use vstd::prelude::*;
use super::*;
verus!{
#[verifier::external_body]
pub fn push_html(t: &mut String, p: Parser) ensures final(t)@ == old(t)@ + md_html(p.of()) { unimplemented!() }
}
}
}
}
pub mod base64 {
use vstd::prelude::*;
use super::anyhow;
verus!{
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_read(t: Seq<u8>) -> Option<Seq<u8>>;
/// the dependency's encoder and decoder are inverse
pub broadcast axiom fn axiom_b64(b: Seq<u8>)
    ensures b64_read(vstd::utf8::encode_utf8(#[trigger] b64(b))) == Some(b);
pub trait BytesLike { spec fn bv(&self) -> Seq<u8>; }
impl<T: BytesLike + ?Sized> BytesLike for &T { open spec fn bv(&self) -> Seq<u8> { (**self).bv() } }
impl BytesLike for [u8] { open spec fn bv(&self) -> Seq<u8> { self@ } }
impl BytesLike for Vec<u8> { open spec fn bv(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn encode<B: BytesLike>(b: B) -> (r: String) ensures r@ == b64(b.bv()) { unimplemented!() }
#[verifier::external_body]
pub struct DecodeError { _p: () }
impl From<DecodeError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: DecodeError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn decode<B: BytesLike>(b: B) -> (r: Result<Vec<u8>, DecodeError>)
    ensures match b64_read(b.bv()) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
{ unimplemented!() }
}
}
pub mod rand {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct ThreadRng { _p: () }
#[verifier::external_body]
pub fn thread_rng() -> ThreadRng { unimplemented!() }
/// what numbers are drawn from a range: lo <= x < hi, for a non-empty range
pub trait Ranged: Sized { spec fn nonempty(lo: Self, hi: Self) -> bool; spec fn within(lo: Self, x: Self, hi: Self) -> bool; }
impl Ranged for isize { open spec fn nonempty(lo: Self, hi: Self) -> bool { lo < hi } open spec fn within(lo: Self, x: Self, hi: Self) -> bool { lo <= x < hi } }
impl Ranged for usize { open spec fn nonempty(lo: Self, hi: Self) -> bool { lo < hi } open spec fn within(lo: Self, x: Self, hi: Self) -> bool { lo <= x < hi } }
impl Ranged for f64 { open spec fn nonempty(lo: Self, hi: Self) -> bool { crate::shim::fcmp(lo, hi) == Some(core::cmp::Ordering::Less) && crate::shim::f_gap(lo, hi) } open spec fn within(lo: Self, x: Self, hi: Self) -> bool { true } }
/// a bound given by value or by reference
pub trait Bound<T> { spec fn bv(self) -> T; }
impl<T> Bound<T> for T { open spec fn bv(self) -> T { self } }
impl<'a, T> Bound<T> for &'a T { open spec fn bv(self) -> T { *self } }
impl ThreadRng {
    #[verifier::external_body]
    pub fn gen<T>(&mut self) -> T { unimplemented!() }
    #[verifier::external_body]
    pub fn gen_range<T: Ranged, A: Bound<T>, B: Bound<T>>(&mut self, a: A, b: B) -> (r: T)
        requires T::nonempty(a.bv(), b.bv()),
        ensures T::within(a.bv(), r, b.bv()),
    { unimplemented!() }
}
}
}
pub mod serde_json {
use vstd::prelude::*;
use super::anyhow;
use vstd::std_specs::iter::IteratorSpec;
verus!{
#[verifier::external_body]
pub struct Error { _p: () }
impl From<Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn to_string<T: ?Sized>(v: &T) -> Result<String, Error> { unimplemented!() }
/// a JSON object (the crate keeps it in a BTreeMap); its members by name
pub struct Members { pub h: std::collections::HashMap<String, Value> }
pub enum Value { Null, Bool(bool), Number(Number), String(String), Array(Vec<Value>), Object(Members) }
impl View for Members { type V = Map<String, Value>; open spec fn view(&self) -> Map<String, Value> { self.h@ } }
impl Members {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures match r { Some(v) => self@.contains_key(crate::shim::skey(k@)) && *v == self@[crate::shim::skey(k@)], None => !self@.contains_key(crate::shim::skey(k@)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: std::vec::IntoIter<(String, Value)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, crate::shim::seq_map(r.remaining()) == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct Number { _p: () }
impl Number {
    pub uninterp spec fn is_float(&self) -> bool;
    pub uninterp spec fn float(&self) -> f64;
    pub uninterp spec fn int(&self) -> int;
    #[verifier::external_body]
    pub fn is_f64(&self) -> (r: bool) ensures r == self.is_float(), !r ==> i64::MIN <= self.int() <= u64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures self.is_float() ==> r == Some(self.float()) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>)
        ensures r == if !self.is_float() && i64::MIN <= self.int() <= i64::MAX { Some(self.int() as i64) } else { None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_u64(&self) -> (r: Option<u64>)
        ensures r == if !self.is_float() && 0 <= self.int() <= u64::MAX { Some(self.int() as u64) } else { None },
    { unimplemented!() }
}
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
}
}
pub mod toml {
use vstd::prelude::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
#[verifier::external_body]
pub struct Datetime { _p: () }
impl Datetime {
    /// as it is written in TOML
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
pub struct Members { pub h: std::collections::HashMap<String, Value> }
pub enum Value { String(String), Integer(i64), Float(f64), Boolean(bool), Datetime(Datetime), Array(Vec<Value>), Table(Members) }
impl View for Members { type V = Map<String, Value>; open spec fn view(&self) -> Map<String, Value> { self.h@ } }
impl Members {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&Value>)
        ensures match r { Some(v) => self@.contains_key(crate::shim::skey(k@)) && *v == self@[crate::shim::skey(k@)], None => !self@.contains_key(crate::shim::skey(k@)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: std::vec::IntoIter<(String, Value)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, crate::shim::seq_map(r.remaining()) == self@,
    { unimplemented!() }
}
impl Clone for Value {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
}
}
pub mod card_format {
use vstd::prelude::*;
use super::anyhow;
use vstd::std_specs::iter::IteratorSpec;
verus!{
/// the members of a card or of a map in one, by name
pub struct Members { pub h: std::collections::HashMap<String, CData> }
pub enum CData { S(String), N(isize), L(Vec<CData>), M(Members) }
pub struct Card { pub num: usize, pub name: String, pub data: Members }
impl View for Members { type V = Map<String, CData>; open spec fn view(&self) -> Map<String, CData> { self.h@ } }
impl Members {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&CData>)
        ensures match r { Some(v) => self@.contains_key(crate::shim::skey(k@)) && *v == self@[crate::shim::skey(k@)], None => !self@.contains_key(crate::shim::skey(k@)) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter<'a>(&'a self) -> (r: std::vec::IntoIter<(&'a String, &'a CData)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, crate::shim::ref_map(r.remaining()) == self@,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct AtErr { _p: () }
impl From<AtErr> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: AtErr) -> Self { unimplemented!() }
}
/// the cards in a text
pub uninterp spec fn cards_of(t: Seq<char>) -> Option<Seq<Card>>;
#[verifier::external_body]
pub fn parse_cards(s: &str) -> (r: Result<Vec<Card>, AtErr>)
    ensures match cards_of(s@) { Some(c) => r is Ok && r->Ok_0@ == c, None => r is Err },
{ unimplemented!() }
}
}
pub mod regex {
use vstd::prelude::*;
use super::anyhow;
verus!{
#[verifier::external_body]
pub struct Regex { _p: () }
#[verifier::external_body]
pub struct Error { _p: () }
impl From<Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
/// what the expression matches
pub uninterp spec fn rx_match(r: Regex, s: Seq<char>) -> bool;
pub uninterp spec fn rx_of(s: Seq<char>) -> Option<Regex>;
impl Regex {
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: Result<Regex, Error>)
        ensures match rx_of(s@) { Some(x) => r is Ok && r->Ok_0 == x, None => r is Err },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_match(&self, s: &str) -> (r: bool) ensures r == rx_match(*self, s@) { unimplemented!() }
}
}
}
pub mod chrono {
use vstd::prelude::*;
use std::cmp::Ordering;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl, PartialOrdSpec, PartialOrdSpecImpl};
verus!{
#[verifier::external_body]
pub struct NaiveDate { _p: () }
/// days from a fixed day: what a date denotes
pub uninterp spec fn day(d: NaiveDate) -> int;
pub broadcast axiom fn axiom_date_ext(a: NaiveDate, b: NaiveDate)
    requires #[trigger] day(a) == #[trigger] day(b),
    ensures a == b;
pub open spec fn date_ord(a: NaiveDate, b: NaiveDate) -> Ordering {
    if day(a) < day(b) { Ordering::Less } else if day(a) > day(b) { Ordering::Greater } else { Ordering::Equal }
}
impl PartialEqSpecImpl for NaiveDate {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &NaiveDate) -> bool { day(*self) == day(*other) }
}
impl PartialEq for NaiveDate {
    #[verifier::external_body]
    fn eq(&self, other: &Self) -> bool { unimplemented!() }
}
impl PartialOrdSpecImpl for NaiveDate {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, other: &NaiveDate) -> Option<Ordering> { Some(date_ord(*self, *other)) }
}
impl PartialOrd for NaiveDate {
    #[verifier::external_body]
    fn partial_cmp(&self, other: &Self) -> Option<Ordering> { unimplemented!() }
}
}
}
}
