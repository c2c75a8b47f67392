pub mod pattern {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use std::borrow::Cow;
use std::collections::HashMap;
use crate::tdata::*;
use crate::tparam::*;
use crate::scope::*;
use crate::func_man::*;
use crate::temp_man::*;
use crate::mspec::okv;
use crate::expr::*;
use crate::stubs::anyhow;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_into, crate::tdata::group_cow, crate::laws::law_eq_symmetric};
//@item src/pattern.rs enum Pattern
// ---- matching a value against a pattern: the outcome, and the names it binds
/// only the innermost block changed
pub open spec fn frame_top(s0: SView, s1: SView) -> bool {
    &&& s1.params == s0.params && s1.pnames == s0.pnames && s1.maps.len() == s0.maps.len()
    &&& forall|i: int| 0 <= i < s0.maps.len() - 1 ==> #[trigger] s1.maps[i] == s0.maps[i]
}
/// Defined by structural recursion on the pattern (see axiom_match).
pub uninterp spec fn match_rel<TM: TempManager, FM: FuncManager>(p: Pattern, d: TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: bool) -> bool;
pub broadcast axiom fn axiom_match<TM: TempManager, FM: FuncManager>(p: Pattern, d: TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: bool)
    ensures #[trigger] match_rel(p, d, s0, s1, fm, a, b, r) == match_step(p, d, s0, s1, fm, a, b, r);
/// the first ss.len()-1 member patterns match the values of `ds` at their place
pub open spec fn pchain<TM: TempManager, FM: FuncManager>(ps: Seq<Pattern>, ds: Seq<Option<TData>>, ss: Seq<SView>, fm: FM, t: Seq<TM>) -> bool {
    &&& ss.len() == t.len() && 1 <= t.len() <= ps.len() + 1 && ds.len() == ps.len()
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> (#[trigger] ds[i]) is Some
    &&& forall|i: int| 0 <= i < t.len() - 1 ==> #[trigger] match_rel(ps[i], ds[i]->0, ss[i], ss[i + 1], fm, t[i], t[i + 1], true)
}
pub open spec fn members_rel<TM: TempManager, FM: FuncManager>(ps: Seq<Pattern>, ds: Seq<Option<TData>>, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: bool) -> bool {
    exists|ss: Seq<SView>, t: Seq<TM>| #[trigger] pchain(ps, ds, ss, fm, t) && ss[0] == s0 && t[0] == a && {
        let k = t.len() - 1;
        if k == ps.len() { r && ss.last() == s1 && t.last() == b }
        else if ds[k] is None { !r && ss.last() == s1 && t.last() == b }
        else { !r && match_rel(ps[k], ds[k]->0, ss.last(), s1, fm, t.last(), b, false) }
    }
}
pub open spec fn mp_pats(m: Seq<(String, Pattern)>) -> Seq<Pattern> { Seq::new(m.len(), |i: int| m[i].1) }
/// the members a list pattern looks at: by position
pub open spec fn list_members(n: nat, l: Seq<TData>) -> Seq<Option<TData>> { Seq::new(n, |i: int| if i < l.len() { Some(l[i]) } else { None }) }
/// the members a map pattern looks at: by key
pub open spec fn map_members(m: Seq<(String, Pattern)>, d: Map<String, TData>) -> Seq<Option<TData>> {
    Seq::new(m.len(), |i: int| if d.contains_key(m[i].0) { Some(d[m[i].0]) } else { None })
}
pub open spec fn match_step<TM: TempManager, FM: FuncManager>(p: Pattern, d: TData, s0: SView, s1: SView, fm: FM, a: TM, b: TM, r: bool) -> bool {
    match p {
        Pattern::Any => s0 == s1 && a == b && r,
        Pattern::Val(v) => s0 == s1 && a == b && r == td_eq(v, d),
        Pattern::List(pl) => match d {
            TData::List(dl) => members_rel(pl@, list_members(pl@.len(), dl@), s0, s1, fm, a, b, r),
            _ => s0 == s1 && a == b && !r,
        },
        Pattern::Map(pm) => match d {
            TData::Map(dm) => members_rel(mp_pats(pm@), map_members(pm@, dm@), s0, s1, fm, a, b, r),
            _ => s0 == s1 && a == b && !r,
        },
        Pattern::Capture(id, Some(test)) =>
            exists|s: SView| #[trigger] match_rel(*test, d, s0, s, fm, a, b, r) && s1 == if r { s.set(id, d) } else { s },
        Pattern::Capture(id, None) => r && a == b && s1 == s0.set(id, d),
        Pattern::Filter(f) => s0 == s1 && exists|o: Option<TData>|
            #[trigger] expr_rel(f, s0.push().set(skey("@"@), d), fm, a, b, o) && r == (o == Some(TData::Bool(true))),
    }
}
pub broadcast proof fn lemma_frame_pop(s0: SView, s: SView)
    requires #[trigger] frame_top(s0.push(), s), s0.wf(),
    ensures s.pop() == s0,
{
    assert(s.pop().maps =~= s0.maps) by {
        assert forall|i: int| 0 <= i < s0.maps.len() implies s.maps[i] == s0.maps[i] by { assert(s.maps[i] == s0.push().maps[i]); }
    }
}
proof fn lemma_push_set_pop(s: SView, k: String, d: TData)
    requires s.wf(),
    ensures s.push().set(k, d).pop() == s,
{
    assert(s.push().set(k, d).pop().maps =~= s.maps);
}
proof fn lemma_pchain_push<TM: TempManager, FM: FuncManager>(ps: Seq<Pattern>, ds: Seq<Option<TData>>, ss: Seq<SView>, fm: FM, t: Seq<TM>, s: SView, b: TM)
    requires pchain(ps, ds, ss, fm, t), t.len() <= ps.len(), ds[t.len() - 1] is Some, match_rel(ps[t.len() - 1], ds[t.len() - 1]->0, ss.last(), s, fm, t.last(), b, true),
    ensures pchain(ps, ds, ss.push(s), fm, t.push(b)),
{
    let (s2, t2) = (ss.push(s), t.push(b));
    assert forall|i: int| 0 <= i < t2.len() - 1 implies #[trigger] match_rel(ps[i], ds[i]->0, s2[i], s2[i + 1], fm, t2[i], t2[i + 1], true) by {
        if i < t.len() - 1 { assert(match_rel(ps[i], ds[i]->0, ss[i], ss[i + 1], fm, t[i], t[i + 1], true)); }
    }
}
impl Pattern {
//@fn src/pattern.rs Pattern::match_data
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
//@spec
    requires old(scope)@.wf(),
    ensures
        match_step(*self, *d, old(scope)@, final(scope)@, *fm, *old(tm), *final(tm), r),
        match_rel(*self, *d, old(scope)@, final(scope)@, *fm, *old(tm), *final(tm), r),
        frame_top(old(scope)@, final(scope)@),
//@at start
    proof { broadcast use axiom_match; lemma_push_set_pop(scope@, skey("@"@), *d); assert(skey("@"@)@ == "@"@); }
    let ghost mut t: Seq<TM> = seq![*tm];
    let ghost mut ss: Seq<SView> = seq![scope@];
//@loop 0 iter it
    invariant
        it.seq().len() == pl.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == pl@[i],
        vx_n0 == it.index(), t.len() == it.index() + 1,
        pchain(pl@, list_members(pl@.len(), dl@), ss, *fm, t), ss[0] == old(scope)@, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm,
        frame_top(old(scope)@, scope@), scope@.wf(),
//@at loop 0 start
    assert(*v == pl@[it.index() as int]);
//@at loop 0 end
    proof { t = t.push(*tm); ss = ss.push(scope@); }
//@loop 1 iter it
    invariant
        it.seq().len() == mpat.len(), forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == mpat@[i],
        t.len() == it.index() + 1,
        pchain(mp_pats(mpat@), map_members(mpat@, mp@), ss, *fm, t), ss[0] == old(scope)@, ss.last() == scope@, t[0] == *old(tm), t.last() == *tm,
        frame_top(old(scope)@, scope@), scope@.wf(),
//@at loop 1 start
    assert((*k, *p) == mpat@[it.index() as int]);
    assert(mp_pats(mpat@)[it.index() as int] == *p);
//@at loop 1 end
    assert(mpat@[it.index() as int].0 == *k); 
    assert(mp@.contains_key(*k));
    assert(map_members(mpat@, mp@)[it.index() as int] == Some(mp@[*k]));
    proof { lemma_pchain_push(mp_pats(mpat@), map_members(mpat@, mp@), ss, *fm, t, scope@, *tm); t = t.push(*tm); ss = ss.push(scope@); }
//@end
}
}
}
