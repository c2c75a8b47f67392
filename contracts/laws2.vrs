pub mod laws2 {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::scope::*;
use crate::expr::*;
use crate::template::*;
verus!{
// ---- C03: after a block every name has the value it had, except what was exported
proof fn law_c03_names(s0: SView, s1: SView, k: String)
    requires frame_block(s0, s1), s0.wf(), s1.maps[0] == s0.maps[0],
    ensures find_name(s1.maps, k) == find_name(s0.maps, k), s1 == s0,
{
    assert(s1.maps =~= s0.maps);
}
/// an export does not reach a name that an open block shadows
proof fn law_c03_export(s: SView, k: String, d: TData, n: String)
    requires s.wf(), n != k || exists|i: int| 0 < i < s.maps.len() && (#[trigger] s.maps[i]).contains_key(n),
    ensures find_name(s.set_root(k, d).maps, n) == find_name(s.maps, n),
{
    lemma_find_upd(s.maps, s.maps[0].insert(k, d), n);
}
proof fn lemma_find_upd(maps: Seq<Map<String, TData>>, m: Map<String, TData>, n: String)
    requires maps.len() > 0, (m.contains_key(n) == maps[0].contains_key(n) && (m.contains_key(n) ==> m[n] == maps[0][n]))
        || exists|i: int| 0 < i < maps.len() && (#[trigger] maps[i]).contains_key(n),
    ensures find_name(maps.update(0, m), n) == find_name(maps, n),
    decreases maps.len()
{
    let u = maps.update(0, m);
    if maps.len() > 1 {
        assert(u.drop_last() =~= maps.drop_last().update(0, m));
        if !maps.last().contains_key(n) {
            if exists|i: int| 0 < i < maps.len() && (#[trigger] maps[i]).contains_key(n) {
                let i = choose|i: int| 0 < i < maps.len() && (#[trigger] maps[i]).contains_key(n);
                assert(maps.drop_last()[i].contains_key(n));
            }
            lemma_find_upd(maps.drop_last(), m, n);
        }
    } else {
        assert(u.drop_last() =~= Seq::empty() && maps.drop_last() =~= Seq::empty());
    }
}
/// shadowing binds the innermost level only
proof fn law_c03_shadow(s: SView, k: String, d: TData)
    requires s.wf(),
    ensures s.push().set(k, d).pop() == s,
{
    assert(s.push().set(k, d).pop().maps =~= s.maps);
}
// ---- C04: the innermost binding wins; without one the next level decides
proof fn law_c04_inner(maps: Seq<Map<String, TData>>, m: Map<String, TData>, k: String)
    ensures find_name(maps.push(m), k) == if m.contains_key(k) { Some(m[k]) } else { find_name(maps, k) },
{
    assert(maps.push(m).drop_last() =~= maps);
}
proof fn law_c04_set(s: SView, k: String, d: TData)
    requires s.wf(),
    ensures find_name(s.set(k, d).maps, k) == Some(d), forall|n: String| n != k ==> find_name(s.set(k, d).maps, n) == find_name(s.maps, n),
{
    assert(s.set(k, d).maps.drop_last() =~= s.maps.drop_last());
}
/// each part selects one member
proof fn law_c04_path(d: TData, p: Seq<VarPart>, q: Seq<VarPart>)
    ensures td_look(d, p + q) == match td_look(d, p) { Some(e) => td_look(e, q), None => None },
    decreases p.len()
{
    if p.len() == 0 {
        assert(p + q =~= q);
    } else {
        assert((p + q).skip(1) =~= p.skip(1) + q);
        match (d, p[0]) {
            (TData::Map(m), VarPart::Id(k)) => if m@.contains_key(k) { law_c04_path(m@[k], p.skip(1), q); },
            (TData::List(l), VarPart::Num(n)) => if n < l@.len() { law_c04_path(l@[n as int], p.skip(1), q); },
            _ => {}
        }
    }
}
// ---- C05: a called template starts with its parameters and no name at all
proof fn law_c05_fresh(ps: Seq<Look>, pn: Seq<String>, k: String)
    ensures find_name(fresh(ps, pn).maps, k) is None, fresh(ps, pn).maps.len() == 1,
{
    assert(fresh(ps, pn).maps.drop_last() =~= Seq::empty());
    assert(find_name(fresh(ps, pn).maps.drop_last(), k) is None);
    assert(!fresh(ps, pn).maps.last().contains_key(k));
}
// ---- C06: texts in order, nothing between, nothing lost
proof fn law_c06_cat(x: Seq<Seq<char>>, y: Seq<Seq<char>>)
    ensures catn(x + y) == catn(x) + catn(y),
    decreases y.len()
{
    if y.len() == 0 { assert(x + y =~= x); assert(catn(y) =~= Seq::<char>::empty()); assert(catn(x) + catn(y) =~= catn(x)); }
    else {
        assert((x + y).drop_last() =~= x + y.drop_last());
        law_c06_cat(x, y.drop_last());
        assert(catn(x + y) =~= catn(x) + catn(y));
    }
}
// ---- C20: the root names are the exports: the last value given to each
proof fn law_c20_root(s: SView, k: String, d: TData)
    requires s.wf(),
    ensures s.set_root(k, d).maps[0] == s.maps[0].insert(k, d), s.push().maps[0] == s.maps[0],
        s.maps.len() > 1 ==> s.pop().maps[0] == s.maps[0] && s.set(k, d).maps[0] == s.maps[0],
{
}
// ---- C22: in a map literal a later equal key wins
proof fn law_c22_later(ks: Seq<String>, vs: Seq<TData>, i: int)
    requires ks.len() >= vs.len(), 0 <= i < vs.len(), forall|j: int| i < j < vs.len() ==> ks[j] != ks[i],
    ensures ins_all(ks, vs).contains_key(ks[i]), ins_all(ks, vs)[ks[i]] == vs[i],
    decreases vs.len()
{
    if i < vs.len() - 1 { law_c22_later(ks, vs.drop_last(), i); }
}
}
}
