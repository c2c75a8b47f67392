pub mod bytes {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::stubs::base64::*;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use super::strings::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow};
/// the bytes of a text or of bytes
pub open spec fn raw(d: TData) -> Option<Seq<u8>> {
    match d { TData::String(s) => Some(bytes_of(s@)), TData::Bytes(b) => Some(b@), _ => None }
}
//@fn src/funcs/bytes.rs as_base64
//@spec
    ensures if l@.len() > 0 && raw(l@[0]@) is Some { res_text(r, b64(raw(l@[0]@)->0)) } else { r is Err },
//@end
//@fn src/funcs/bytes.rs from_base64
//@spec
    ensures match if l@.len() > 0 { raw(l@[0]@) } else { None } {
        Some(b) => match b64_read(b) { Some(v) => okv(r) matches Some(TData::Bytes(x)) && x@ == v, None => r is Err },
        None => r is Err,
    },
//@end
}
}
pub mod random {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::shim::group_float, crate::tdata::group_cow};
/// a number in range, or a member of a list
pub open spec fn drawn(l: Seq<TCow<'_>>, d: TData) -> bool {
    if l.len() == 2 {
        match (l[0]@, l[1]@) {
            (TData::Int(a), TData::Int(b)) => d matches TData::Int(x) && a <= x < b,
            (TData::UInt(a), TData::UInt(b)) => d matches TData::UInt(x) && a <= x < b,
            (TData::Float(_), TData::Float(_)) => d is Float,
            _ => false,
        }
    } else if l.len() > 0 {
        match l[0]@ {
            TData::Int(n) => d matches TData::Int(x) && 0 <= x < n,
            TData::UInt(n) => d matches TData::UInt(x) && x < n,
            TData::Float(_) => d is Float,
            TData::List(m) => m@.contains(d),
            _ => false,
        }
    } else { d is Float }
}
//@fn src/funcs/random.rs get_rand
//@subst a < b && (b - a).is_finite() => *a < *b && (*b - *a).is_finite()
//@subst rg.gen::<f64>() * n => rg.gen::<f64>() * *n
//@spec
    ensures okv(r) matches Some(d) ==> drawn(args@, d),
//@end
}
}
pub mod format {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::stubs::serde_json;
use crate::stubs::card_format;
use super::strings::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow};
/// the BasicData grammar (a parser! grammar): what it reads in a text
pub uninterp spec fn data_of(t: Seq<char>) -> Option<TData>;
pub struct BasicData;
#[verifier::external_body]
pub struct PErr { _p: () }
#[verifier::external_body]
pub struct Strung { _p: () }
impl PErr {
    #[verifier::external_body]
    pub fn strung(self) -> Strung { unimplemented!() }
}
impl From<Strung> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: Strung) -> Self { unimplemented!() }
}
impl BasicData {
    #[verifier::external_body]
    pub fn parse_s(&self, s: &str) -> (r: Result<TData, PErr>)
        ensures match data_of(s@) { Some(t) => r == Ok::<TData, PErr>(t), None => r is Err },
    { unimplemented!() }
}
//@fn src/funcs/format.rs r_json
//@spec
    ensures match if l@.len() > 0 && l@[0]@ is String { data_of(l@[0]@->String_0@) } else { None } { Some(d) => okv(r) == Some(d), None => r is Err },
//@closure 0
|{c0}: TData| -> (q: TCow<'a>) ensures q@ == {c0}
//@closure 1
|{c0}: PErr| -> (q: anyhow::Error)
//@end
//@fn src/funcs/format.rs w_json
//@spec
    ensures r is Ok ==> okv(r)->0 is String, l@.len() == 0 ==> res_text(r, "[]"@),
//@closure 0
|{c0}: String| -> (q: TCow<'a>) ensures q@ == TData::String({c0})
//@closure 1
|{c0}: serde_json::Error| -> (q: anyhow::Error)
//@closure 2
|{c0}: String| -> (q: TCow<'a>) ensures q@ == TData::String({c0})
//@closure 3
|{c0}: serde_json::Error| -> (q: anyhow::Error)
//@end
}
}
