// Must fail on every run: if the solver could derive false from the axioms and
// assumed contracts, every other result would be worthless.
pub mod vacuity {
use vstd::prelude::*;
use crate::template::*;
use crate::pattern::*;
use crate::expr::*;
use crate::scope::*;
use crate::func_man::*;
use crate::temp_man::*;
use crate::tparam::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_float, crate::shim::group_str, crate::shim::group_str_ord, crate::shim::group_map_eq, crate::shim::group_into, crate::shim::group_fmt, crate::shim::axiom_map_collect, crate::tdata::group_cow, crate::disp::group_disp};
#[verifier::rlimit(2)]
proof fn must_fail(a: crate::tdata::TData, b: crate::tdata::TData, f: f64, g: f64, s: String, t: String)
    ensures false,
{
    let _ = a == b;
    let _ = s@ == t@;
}
// the recursive relations of the renderer, unfolded on the items that refer to themselves
#[verifier::rlimit(2)]
proof fn must_fail_rel<TM: TempManager, FM: FuncManager>(i: TreeItem, e: Expr, p: Pattern, d: crate::tdata::TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: Option<Seq<char>>, o: Option<crate::tdata::TData>, t: TreeTemplate, ps: Seq<Look>, m: bool)
    ensures false,
{
    broadcast use {crate::expr::axiom_expr, crate::pattern::axiom_match, crate::template::axiom_item, crate::template::axiom_call};
    let _ = item_rel(i, s0, s1, fm, a, b, r);
    let _ = expr_rel(e, s0, fm, a, b, o);
    let _ = match_rel(p, d, s0, s1, fm, a, b, m);
    let _ = call_rel(t, ps, fm, a, b, None);
}
}
}
