pub mod maps {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::collections::HashMap;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::tdata::group_cow};
/// the first n pairs name text keys
pub open spec fn keys_ok(a: Seq<TCow<'_>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> (#[trigger] a[2 * i])@ is String }
/// the map of the first n pairs, later keys winning
pub open spec fn pairs(a: Seq<TCow<'_>>, n: int) -> Map<String, TData>
    decreases n
{
    if n <= 0 { Map::empty() } else {
        match a[2 * n - 2]@ { TData::String(s) => pairs(a, n - 1).insert(s, a[2 * n - 1]@), _ => pairs(a, n - 1) }
    }
}
//@fn src/funcs/maps.rs map
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures
        !keys_ok(args@, args@.len() as int / 2) ==> r is Err,
        keys_ok(args@, args@.len() as int / 2) ==> (okv(r) matches Some(TData::Map(m)) && m@ == pairs(args@, args@.len() as int / 2)),
//@at start
    let ghost mut n: int = 0;
//@loop 0
    invariant
        0 <= n, 2 * n <= args.len(),
        it.obeys_prophetic_iter_laws(),
        it.remaining().len() == args.len() - 2 * n,
        forall|i: int| 0 <= i < it.remaining().len() ==> *(#[trigger] it.remaining()[i]) == args@[2 * n + i],
        keys_ok(args@, n), res@ == pairs(args@, n),
    decreases args.len() - 2 * n,
//@at loop 0 start
    assert(*k == args@[2 * n] && *v == args@[2 * n + 1]);
    assert(k@ == args@[2 * n]@);
    proof { n = n + 1; }
//@end
} // verus!
}
