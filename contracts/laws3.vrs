pub mod laws3 {
use vstd::prelude::*;
use crate::*;
use crate::sys::*;
use crate::sys::path::*;
use crate::funcs::folder::*;
verus!{
broadcast use {crate::sys::path::group_path};
pub open spec fn names_only(c: Seq<Comp>) -> bool { forall|i: int| 0 <= i < c.len() ==> #[trigger] c[i] is Name }
proof fn lemma_names(c: Seq<Comp>)
    requires names_only(c),
    ensures resolved(c) matches Some(n) && n.len() == c.len() && forall|i: int| 0 <= i < c.len() ==> c[i] == Comp::Name(#[trigger] n[i]),
    decreases c.len()
{
    if c.len() > 0 { lemma_names(c.drop_last()); assert(c.last() is Name); }
}
/// a plain relative path is accepted, and means just those entries below the folder
proof fn law_c01_plain(p: Seq<char>, s: Seq<char>)
    requires names_only(comps(s)),
    ensures inside(p, below(p, s)), comps(below(p, s)) == comps(p) + comps(s),
{
    axiom_comps_join(p, s);
    let (cp, cs) = (comps(p), comps(s));
    assert(cs.len() > 0 ==> cs[0] is Name);
    assert((cp + cs).take(cp.len() as int) =~= cp);
    assert((cp + cs).skip(cp.len() as int) =~= cs);
    lemma_names(cs);
}
/// a leading '.' changes nothing
proof fn lemma_cur(c: Seq<Comp>)
    requires c.len() > 0, c[0] is Cur,
    ensures resolved(c) == resolved(c.skip(1)),
    decreases c.len()
{
    if c.len() == 1 {
        assert(c.skip(1).len() == 0); assert(c.drop_last().len() == 0);
        reveal_with_fuel(resolved, 2);
    } else {
        lemma_cur(c.drop_last());
        assert(c.skip(1).drop_last() =~= c.drop_last().skip(1));
        assert(c.skip(1).last() == c.last());
    }
}
/// of the relative paths, those that never climb above the folder are accepted, and no others
proof fn law_c01_relative(p: Seq<char>, s: Seq<char>)
    requires comps(s).len() > 0 ==> !(comps(s)[0] is Root),
    ensures inside(p, below(p, s)) <==> resolved(comps(s)) is Some,
{
    axiom_comps_join(p, s);
    let (cp, cs) = (comps(p), comps(s));
    if cp.len() > 0 && cs.len() > 0 && cs[0] is Cur {
        assert((cp + cs.skip(1)).take(cp.len() as int) =~= cp);
        assert((cp + cs.skip(1)).skip(cp.len() as int) =~= cs.skip(1));
        lemma_cur(cs);
    } else {
        assert((cp + cs).take(cp.len() as int) =~= cp);
        assert((cp + cs).skip(cp.len() as int) =~= cs);
    }
}
/// of the paths with a root, only those that name the folder itself are accepted
proof fn law_c01_absolute(p: Seq<char>, s: Seq<char>)
    requires comps(s).len() > 0, comps(s)[0] is Root, comps(p).len() > 0, inside(p, below(p, s)),
    ensures comps(p)[0] is Root, comps(s).take(comps(p).len() as int) == comps(p), resolved(comps(s).skip(comps(p).len() as int)) is Some,
{
    axiom_comps_join(p, s);
    assert(comps(s).take(comps(p).len() as int)[0] == comps(s)[0]);
}
}
}
