// what the directory functions list (C30)
pub mod scan {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::anyhow;
use crate::stubs::regex::{Regex, rx_match, rx_of};
use crate::sys::*;
use crate::sys::path::*;
use crate::sys::fs::*;
use crate::tdata::*;
use crate::func_man::*;
use crate::parse::*;
use crate::template::front_rel;
use crate::mspec::*;
use crate::disp::disp;
use crate::tparam::TCow;
verus!{
pub open spec fn hidden(e: DirEntry) -> bool { "_"@.is_prefix_of(e.name()) }
/// the entries whose name does not start with '_'
pub open spec fn vis(s: Seq<DirEntry>) -> Seq<DirEntry> decreases s.len() {
    if s.len() == 0 { s } else if hidden(s.last()) { vis(s.drop_last()) } else { vis(s.drop_last()).push(s.last()) }
}
pub broadcast proof fn lemma_vis(s: Seq<DirEntry>, keep: Seq<bool>)
    requires keep.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] keep[i] == !hidden(s[i]),
    ensures #[trigger] kept(s, keep) == vis(s),
    decreases s.len()
{
    if s.len() > 0 {
        let (a, k) = (s.drop_last(), keep.drop_last());
        lemma_vis(a, k);
        lemma_kept_prefix(s, keep, a, k);
    }
}
proof fn lemma_kept_prefix(s: Seq<DirEntry>, keep: Seq<bool>, a: Seq<DirEntry>, k: Seq<bool>)
    requires s.len() > 0, keep.len() == s.len(), a == s.drop_last(), k == keep.drop_last(),
    ensures kept(a, keep) == kept(a, k),
{ lemma_kept_same(a, keep, k); }
proof fn lemma_kept_same(a: Seq<DirEntry>, p: Seq<bool>, q: Seq<bool>)
    requires p.len() >= a.len(), q.len() >= a.len(), forall|i: int| 0 <= i < a.len() ==> p[i] == q[i],
    ensures kept(a, p) == kept(a, q),
    decreases a.len()
{
    if a.len() > 0 { lemma_kept_same(a.drop_last(), p, q); }
}
pub broadcast proof fn lemma_oks(s: Seq<crate::sys::io::Result<DirEntry>>, o: Seq<Option<DirEntry>>)
    requires o.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] o[i] == (match s[i] { Ok(x) => Some(x), Err(_) => None }),
    ensures #[trigger] somes(o) == #[trigger] oks(s),
    decreases s.len()
{
    if s.len() > 0 { lemma_oks(s.drop_last(), o.drop_last()); }
}
/// what is read of a file: all of it, or what a failed read leaves
pub open spec fn text_in(p: Seq<char>) -> Seq<char> { match fs_text(p) { Some(t) => t, None => fs_part(p) } }
pub open spec fn item_base(e: DirEntry, full: Seq<char>, short: Seq<char>) -> Map<String, TData> {
    Map::<String, TData>::empty()
        .insert(skey("item_full_path"@), TData::String(skey(path_join(full, e.name()))))
        .insert(skey("item_path"@), TData::String(skey(short)))
        .insert(skey("item_file"@), TData::String(skey(e.name())))
}
/// the map of one file: where it is, overridden by its front matter, if it is a template
pub open spec fn item_map(e: DirEntry, full: Seq<char>, short: Seq<char>, fm: BasicFuncs, m: Map<String, TData>) -> bool {
    exists|r: anyhow::Result<TreeTemplate>| #[trigger] text_tree(text_in(path_join(full, e.name())), r) && match r {
        Ok(t) => exists|x: Map<String, TData>| #[trigger] front_rel(t, fm, x) && m == item_base(e, full, short).union_prefer_right(x),
        Err(_) => m == item_base(e, full, short),
    }
}
/// what one entry adds to the list
pub open spec fn entry_adds(e: DirEntry, full: Seq<char>, short: Seq<char>, d: nat, reg: Option<&Regex>, fm: BasicFuncs, out: Seq<TData>) -> bool
    decreases d, 0nat
{
    let p = path_join(full, e.name());
    match e.kind() {
        Some(Kind::File) => if passed_over(p, reg) { out.len() == 0 } else { out.len() == 1 && out[0] is Map && item_map(e, full, short, fm, out[0]->Map_0@) },
        Some(Kind::Dir) => if d == 0 { out.len() == 0 } else { fs_list(p) matches Some(l) && adds(vis(l), p, path_join(short, e.name()), (d - 1) as nat, reg, fm, out) },
        Some(Kind::Other) => out.len() == 0,
        None => false,
    }
}
pub open spec fn passed_over(p: Seq<char>, reg: Option<&Regex>) -> bool { (reg matches Some(x) && !rx_match(*x, p)) || !fs_open(p) }
/// what these entries add, in order
pub open spec fn adds(es: Seq<DirEntry>, full: Seq<char>, short: Seq<char>, d: nat, reg: Option<&Regex>, fm: BasicFuncs, out: Seq<TData>) -> bool
    decreases d, es.len() + 1
{
    if es.len() == 0 { out.len() == 0 } else {
        exists|n: int| 0 <= n <= out.len() && adds(es.drop_last(), full, short, d, reg, fm, #[trigger] out.take(n)) && entry_adds(es.last(), full, short, d, reg, fm, out.skip(n))
    }
}
pub proof fn lemma_adds(es: Seq<DirEntry>, e: DirEntry, full: Seq<char>, short: Seq<char>, d: nat, reg: Option<&Regex>, fm: BasicFuncs, a: Seq<TData>, b: Seq<TData>, c: Seq<TData>)
    requires adds(es, full, short, d, reg, fm, a), entry_adds(e, full, short, d, reg, fm, b), c == a + b,
    ensures adds(es.push(e), full, short, d, reg, fm, c),
{
    let s = es.push(e);
    assert(s.drop_last() =~= es);
    assert(c.take(a.len() as int) =~= a);
    assert(c.skip(a.len() as int) =~= b);
    assert(adds(s.drop_last(), full, short, d, reg, fm, c.take(a.len() as int)) && entry_adds(s.last(), full, short, d, reg, fm, c.skip(a.len() as int)));
}
/// every folder met can be listed, and the kind of every entry be found out
pub open spec fn listable(es: Seq<DirEntry>, full: Seq<char>, d: nat) -> bool
    decreases d
{
    forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).kind() is Some && (es[i].kind() == Some(Kind::Dir) && d > 0 ==>
        (fs_list(path_join(full, es[i].name())) matches Some(l) && listable(vis(l), path_join(full, es[i].name()), (d - 1) as nat)))
}
pub open spec fn scan_ok(full: Seq<char>, d: nat) -> bool { fs_list(full) matches Some(l) && listable(vis(l), full, d) }
pub open spec fn scan_gives(full: Seq<char>, short: Seq<char>, d: nat, reg: Option<&Regex>, fm: BasicFuncs, out: Seq<TData>) -> bool {
    fs_list(full) matches Some(l) && adds(vis(l), full, short, d, reg, fm, out)
}
/// m with these entries put into it one after another
pub open spec fn put_all(b: Map<String, TData>, o: Seq<(String, TData)>) -> Map<String, TData> decreases o.len() {
    if o.len() == 0 { b } else { put_all(b, o.drop_last()).insert(o.last().0, o.last().1) }
}
proof fn lemma_put(b: Map<String, TData>, o: Seq<(String, TData)>)
    requires forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0,
    ensures
        forall|k: String| #[trigger] put_all(b, o).contains_key(k) <==> b.contains_key(k) || exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k,
        forall|i: int| 0 <= i < o.len() ==> put_all(b, o)[(#[trigger] o[i]).0] == o[i].1,
        forall|k: String| (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 != k) && b.contains_key(k) ==> #[trigger] put_all(b, o)[k] == b[k],
    decreases o.len()
{
    if o.len() > 0 {
        let p = o.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < p.len() implies (#[trigger] p[i]).0 != (#[trigger] p[j]).0 by { assert(o[i].0 != o[j].0); }
        lemma_put(b, p);
        assert forall|k: String| #[trigger] put_all(b, o).contains_key(k) <==> b.contains_key(k) || exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k by {
            if put_all(b, p).contains_key(k) && !b.contains_key(k) {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k;
                assert(o[i].0 == k);
            }
            if exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k {
                let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k;
                if i < p.len() { assert(p[i].0 == k); }
            }
        }
        assert forall|i: int| 0 <= i < o.len() implies put_all(b, o)[(#[trigger] o[i]).0] == o[i].1 by {
            if i < p.len() { assert(p[i] == o[i]); assert(o[i].0 != o[o.len() - 1].0); }
        }
        assert forall|k: String| (forall|i: int| 0 <= i < o.len() ==> (#[trigger] o[i]).0 != k) && b.contains_key(k) implies #[trigger] put_all(b, o)[k] == b[k] by {
            assert(o[o.len() - 1].0 != k);
            assert forall|i: int| 0 <= i < p.len() implies (#[trigger] p[i]).0 != k by { assert(p[i] == o[i]); assert(o[i].0 != k); }
            assert(put_all(b, p)[k] == b[k]);
            assert(o.last().0 != k);
        }
    }
}
pub proof fn lemma_put_all(b: Map<String, TData>, m: Map<String, TData>, o: Seq<(String, TData)>)
    requires map_order(m, o),
    ensures put_all(b, o) == b.union_prefer_right(m),
{
    lemma_put(b, o);
    let (l, r) = (put_all(b, o), b.union_prefer_right(m));
    assert forall|k: String| l.contains_key(k) == r.contains_key(k) by {
        if l.contains_key(k) && !b.contains_key(k) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k; assert(m.contains_key(o[i].0)); }
    }
    assert forall|k: String| l.contains_key(k) implies l[k] == r[k] by {
        if m.contains_key(k) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == k; assert(l[o[i].0] == o[i].1); }
        else { assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0 != k by { assert(m.contains_key(o[i].0)); } }
    }
    assert(l =~= r);
}
/// the names of these entries
pub open spec fn names_of(l: Seq<DirEntry>) -> Seq<TData> { Seq::new(l.len(), |i: int| TData::String(skey(l[i].name()))) }
/// d is the list of the names of the folder's entries
pub open spec fn dir_gives(p: Seq<char>, d: TData) -> bool { d matches TData::List(v) && fs_list(p) matches Some(l) && v@ == names_of(l) }
pub open spec fn dir_ok(p: Seq<char>) -> bool { fs_list(p) matches Some(l) && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).uni() }
/// what dir gives for these folders
pub open spec fn dirs_give(ps: Seq<Seq<char>>, d: TData) -> bool {
    if ps.len() == 1 { dir_gives(ps[0], d) }
    else { d matches TData::List(v) && v@.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> dir_gives(ps[i], #[trigger] v@[i]) }
}
/// how deep the arguments say to go
pub open spec fn depth_of<'a>(l: Seq<TCow<'a>>) -> nat { if l.len() > 1 { match idx_of(l[1]@) { Some(n) => n as nat, None => 0 } } else { 0 } }
/// r is the pattern among the arguments, if they have one that can be read
pub open spec fn pattern<'a>(l: Seq<TCow<'a>>, r: Option<&Regex>) -> bool {
    match (if l.len() > 2 { rx_of(disp(l[2]@)) } else { None }) { Some(x) => r matches Some(y) && *y == x, None => r is None }
}
/// d is what scan_dir gives for the folder and the arguments
pub open spec fn scanned<'a>(full: Seq<char>, l: Seq<TCow<'a>>, d: TData) -> bool {
    exists|fm: BasicFuncs, reg: Option<&Regex>, v: Vec<TData>| d == TData::List(v) && fm_default(fm) && pattern(l, reg) && #[trigger] scan_gives(full, Seq::empty(), depth_of(l), reg, fm, v@)
}
} // verus!
}
