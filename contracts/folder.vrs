pub mod folder {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::sys::*;
use crate::sys::path::*;
use std::collections::HashMap;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use super::scan::*;
use crate::stubs::regex::{Regex, rx_of};
use crate::sys::fs::{DirEntry, fs_list};
use crate::func_man::*;
use crate::template::{TreeTemplate, catn};
use crate::parse::*;
use crate::disp::disp;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt, crate::shim::group_into, super::scan::lemma_vis, super::scan::lemma_oks, crate::sys::fs::axiom_entry_name, crate::sys::path::group_path};
/// the path a template's text means below the folder
pub open spec fn below(p: Seq<char>, s: Seq<char>) -> Seq<char> { path_join(p, s) }
/// what a function locked to p may look at
pub open spec fn lock_look(p: Seq<char>) -> bool { forall|q: Seq<char>| inside(p, q) ==> #[trigger] may_look(q) }
pub proof fn lemma_resolved_len(c: Seq<Comp>, n: int)
    requires 0 <= n <= c.len(), resolved(c) is Some,
    ensures resolved(c.take(n)) is Some,
    decreases c.len() - n
{
    if n < c.len() {
        lemma_resolved_len(c, n + 1);
        assert(c.take(n + 1).drop_last() =~= c.take(n));
    } else { assert(c.take(n) =~= c); }
}
//@fn src/funcs/folder.rs safe_path
//@attr
#[verifier::loop_isolation(false)]
//@spec
    ensures
        r is Some <==> inside(p@, below(p@, s@)),
        r matches Some(q) ==> q@ == below(p@, s@),
//@at start
    assert forall|c: Seq<Comp>| resolved(#[trigger] c.take(0)) == Some(Seq::<Seq<char>>::empty()) by { assert(c.take(0).len() == 0); }
//@loop 0 iter it
    invariant
        it.index() <= it.seq().len() == comps(pres@).len() - comps(p@).len(),
        comps(p@).len() <= comps(pres@).len(), comps(pres@).take(comps(p@).len() as int) == comps(p@),
        forall|i: int| 0 <= i < it.seq().len() ==> comp_of(#[trigger] it.seq()[i]) == comps(pres@).skip(comps(p@).len() as int)[i],
        resolved(comps(pres@).skip(comps(p@).len() as int).take(it.index() as int)) matches Some(n) && n.len() == depth <= it.index(),
//@at loop 0 start
    let ghost cs = comps(pres@).skip(comps(p@).len() as int);
    assert(cs.take(it.index() + 1).drop_last() =~= cs.take(it.index() as int));
    assert(cs.take(it.index() + 1).last() == comp_of(c));
    proof { if resolved(cs) is Some { lemma_resolved_len(cs, it.index() + 1); } }
//@at loop 0 after
    assert(comps(pres@).skip(comps(p@).len() as int).take(comps(pres@).len() - comps(p@).len()) =~= comps(pres@).skip(comps(p@).len() as int));
//@end
//@lift src/funcs/folder.rs is_file
//@sig
pub fn is_file_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        okv(r) matches Some(d) ==> d is Bool,
        okv(r) == Some(TData::Bool(true)) ==> forall|i: int| 0 <= i < l.len() ==> { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && fs_file(q) },
        okv(r) == Some(TData::Bool(false)) ==> exists|i: int| 0 <= i < l.len() && { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && !fs_file(q) },
        r is Err ==> exists|i: int| 0 <= i < l.len() && !inside(pb@, below(pb@, #[trigger] disp(l@[i]@))),
//@loop 0 iter it
    invariant
        lock_look(pb@),
        forall|i: int| 0 <= i < it.index() ==> { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && fs_file(q) },
//@end
//@lift src/funcs/folder.rs is_dir
//@sig
pub fn is_dir_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        okv(r) matches Some(d) ==> d is Bool,
        okv(r) == Some(TData::Bool(true)) ==> forall|i: int| 0 <= i < l.len() ==> { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && fs_dir(q) },
        okv(r) == Some(TData::Bool(false)) ==> exists|i: int| 0 <= i < l.len() && { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && !fs_dir(q) },
        r is Err ==> exists|i: int| 0 <= i < l.len() && !inside(pb@, below(pb@, #[trigger] disp(l@[i]@))),
//@loop 0 iter it
    invariant
        lock_look(pb@),
        forall|i: int| 0 <= i < it.index() ==> { let q = below(pb@, #[trigger] disp(l@[i]@)); inside(pb@, q) && fs_dir(q) },
//@end

/// the texts at the paths, one after another; none if one cannot be read
pub open spec fn texts(p: Seq<Seq<char>>) -> Option<Seq<char>>
    decreases p.len()
{
    if p.len() == 0 { Some(Seq::empty()) } else {
        match (texts(p.drop_last()), fs_text(p.last())) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
pub open spec fn bytess(p: Seq<Seq<char>>) -> Option<Seq<u8>>
    decreases p.len()
{
    if p.len() == 0 { Some(Seq::empty()) } else {
        match (bytess(p.drop_last()), fs_bytes(p.last())) { (Some(a), Some(b)) => Some(a + b), _ => None }
    }
}
/// the paths the arguments mean below p
pub open spec fn belows<'a>(p: Seq<char>, l: Seq<TCow<'a>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| below(p, disp(l[i]@))) }
pub open spec fn all_inside<'a>(p: Seq<char>, l: Seq<TCow<'a>>) -> bool { forall|i: int| 0 <= i < l.len() ==> inside(p, #[trigger] belows(p, l)[i]) }
pub proof fn lemma_texts(p: Seq<Seq<char>>, n: int)
    requires 0 <= n <= p.len(), texts(p.take(n)) is None,
    ensures texts(p) is None,
    decreases p.len() - n
{
    if n < p.len() { assert(p.take(n + 1).drop_last() =~= p.take(n)); lemma_texts(p, n + 1); } else { assert(p.take(n) =~= p); }
}
pub proof fn lemma_bytess(p: Seq<Seq<char>>, n: int)
    requires 0 <= n <= p.len(), bytess(p.take(n)) is None,
    ensures bytess(p) is None,
    decreases p.len() - n
{
    if n < p.len() { assert(p.take(n + 1).drop_last() =~= p.take(n)); lemma_bytess(p, n + 1); } else { assert(p.take(n) =~= p); }
}
//@lift src/funcs/folder.rs file
//@attr
#[verifier::loop_isolation(false)]
//@sig
pub fn file_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        okv(r) matches Some(d) ==> d is String && all_inside(pb@, l@) && texts(belows(pb@, l@)) == Some(d->String_0@),
        r is Err ==> !all_inside(pb@, l@) || texts(belows(pb@, l@)) is None,
//@loop 0 iter it
    invariant
        forall|i: int| 0 <= i < it.index() ==> inside(pb@, #[trigger] belows(pb@, l@)[i]),
        texts(belows(pb@, l@).take(it.index() as int)) == Some(res@),
//@at loop 0 start
    let ghost bs = belows(pb@, l@);
    let ghost n = it.index() as int;
    assert(bs.take(n + 1).drop_last() =~= bs.take(n));
    assert(bs.take(n + 1).last() == below(pb@, disp(d@)));
    proof { if texts(bs.take(n + 1)) is None { lemma_texts(bs, n + 1); } }
    assert(bs[n] == below(pb@, disp(d@)));
//@at loop 0 after
    assert(belows(pb@, l@).take(l@.len() as int) =~= belows(pb@, l@));
//@end
//@lift src/funcs/folder.rs file_bytes
//@attr
#[verifier::loop_isolation(false)]
//@sig
pub fn file_bytes_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        okv(r) matches Some(d) ==> d is Bytes && all_inside(pb@, l@) && bytess(belows(pb@, l@)) == Some(d->Bytes_0@),
        r is Err ==> !all_inside(pb@, l@) || bytess(belows(pb@, l@)) is None,
//@loop 0 iter it
    invariant
        forall|i: int| 0 <= i < it.index() ==> inside(pb@, #[trigger] belows(pb@, l@)[i]),
        bytess(belows(pb@, l@).take(it.index() as int)) == Some(res@),
//@at loop 0 start
    let ghost bs = belows(pb@, l@);
    let ghost n = it.index() as int;
    assert(bs.take(n + 1).drop_last() =~= bs.take(n));
    assert(bs.take(n + 1).last() == below(pb@, disp(d@)));
    proof { if bytess(bs.take(n + 1)) is None { lemma_bytess(bs, n + 1); } }
    assert(bs[n] == below(pb@, disp(d@)));
//@at loop 0 after
    assert(belows(pb@, l@).take(l@.len() as int) =~= belows(pb@, l@));
//@end
//@lift src/funcs/folder.rs file_img_dimensions
//@sig
pub fn file_img_dimensions_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures r is Ok ==> l@.len() > 0 && l@[0]@ is String && inside(pb@, below(pb@, disp(l@[0]@))),
//@end
//@fn src/funcs/folder.rs do_dir
//@subst AsRef<Path> => PathLike
//@spec
    requires may_look(p.pv()),
    ensures
        okv(r) matches Some(d) ==> dir_gives(p.pv(), d), // only C30
        r is Err ==> !dir_ok(p.pv()), // only C30
//@closure 0
|{c0}: crate::sys::io::Result<crate::sys::fs::DirEntry>| -> (q: Option<crate::sys::fs::DirEntry>) ensures q == (match {c0} { Ok(x) => Some(x), Err(_) => None })
//@loop 0 iter it
    invariant
        fs_list(p.pv()) == Some(it.seq()), // only C30
        entries_of(it.seq(), p.pv()),
        res@ =~= names_of(it.seq().take(it.index() as int)), // only C30
//@at loop 0 start
    assert(it.seq()[it.index() as int] == r);
    proof { lemma_entry(p.pv(), r); }
    assert(r.dir() == p.pv()); // only C30
    assert(dir_ok(p.pv()) ==> fs_list(p.pv())->0[it.index() as int].uni()); // only C30
    assert(<String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec()); // only C30
    assert forall|x: &str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(x))@ == x@ by { } // only C30
//@at loop 0 after
    proof { assert forall|s: Seq<DirEntry>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); } }
//@end
//@lift src/funcs/folder.rs dir
//@sig
pub fn dir_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        r is Ok ==> all_inside(pb@, l@),
        okv(r) matches Some(d) ==> dirs_give(belows(pb@, l@), d), // only C30
        r is Err ==> !all_inside(pb@, l@) || exists|i: int| 0 <= i < l@.len() && !dir_ok(#[trigger] belows(pb@, l@)[i]), // only C30
//@at start
    let ghost bs = belows(pb@, l@);
    proof { if l@.len() == 1 { assert(bs[0] == below(pb@, disp(l@[0]@))); } } // only C30
//@loop 0 iter it
    invariant
        lock_look(pb@),
        bs == belows(pb@, l@),
        forall|i: int| 0 <= i < it.index() ==> inside(pb@, #[trigger] belows(pb@, l@)[i]),
        v@.len() == it.index(), // only C30
        forall|i: int| 0 <= i < it.index() ==> dir_gives(bs[i], #[trigger] v@[i]), // only C30
//@at loop 0 start
    assert(bs[it.index() as int] == below(pb@, disp(d@))); // only C30
//@end

pub proof fn lemma_resolved_cat(a: Seq<Comp>, b: Seq<Comp>)
    requires resolved(a) is Some, resolved(b) is Some,
    ensures resolved(a + b) is Some, resolved(a + b)->0.len() >= resolved(b)->0.len(),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_resolved_cat(a, b.drop_last());
    }
}
pub proof fn lemma_inside_self(p: Seq<char>)
    ensures inside(p, p),
{
    assert(comps(p).take(comps(p).len() as int) =~= comps(p));
    assert(comps(p).skip(comps(p).len() as int).len() == 0);
}
pub proof fn lemma_inside_trans(p: Seq<char>, f: Seq<char>, q: Seq<char>)
    requires inside(p, f), inside(f, q),
    ensures inside(p, q),
{
    let (cp, cf, cq) = (comps(p), comps(f), comps(q));
    lemma_resolved_cat(cf.skip(cp.len() as int), cq.skip(cf.len() as int));
    assert(cq.take(cp.len() as int) =~= cq.take(cf.len() as int).take(cp.len() as int));
    assert(cq.skip(cp.len() as int) =~= cf.skip(cp.len() as int) + cq.skip(cf.len() as int));
}
/// an entry of a directory is below it
pub proof fn lemma_entry(f: Seq<char>, e: crate::sys::fs::DirEntry)
    ensures inside(f, path_join(f, e.name())), name_of(path_join(f, e.name())) == Some(e.name()),
{
    let j = path_join(f, e.name());
    let (cf, cj) = (comps(f), comps(j));
    crate::sys::fs::axiom_entry_name(e);
    axiom_comps_join(f, e.name());
    let one = seq![Comp::Name(e.name())];
    assert(cj == cf + one);
    assert(one.drop_last() =~= Seq::<Comp>::empty());
    reveal_with_fuel(resolved, 2);
    assert(cj.take(cf.len() as int) =~= cf);
    assert(cj.skip(cf.len() as int) =~= one);
}
pub proof fn lemma_lock(p: Seq<char>, f: Seq<char>)
    requires inside(p, f), lock_look(p),
    ensures lock_look(f), may_look(f),
{
    assert forall|q: Seq<char>| inside(f, q) implies #[trigger] may_look(q) by { lemma_inside_trans(p, f, q); }
}
pub open spec fn entries_of(l: Seq<crate::sys::fs::DirEntry>, d: Seq<char>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).dir() == d }
//@fn src/funcs/folder.rs do_scan_dir
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires
        lock_look(full@),
        crate::parse::fm_default(*fm), // only C02
    ensures
        r is Ok ==> final(res_list)@.len() >= old(res_list)@.len() && final(res_list)@.take(old(res_list)@.len() as int) == old(res_list)@
            && scan_gives(full@, short@, mdepth as nat, reg, *fm, final(res_list)@.skip(old(res_list)@.len() as int)), // only C30
        r is Err ==> !scan_ok(full@, mdepth as nat), // only C30
    decreases mdepth,
//@closure 0
|{c0}: crate::sys::io::Result<crate::sys::fs::DirEntry>| -> (q: Option<crate::sys::fs::DirEntry>) ensures q == (match {c0} { Ok(x) => Some(x), Err(_) => None })
//@closure 1
|{c0}: &crate::sys::fs::DirEntry| -> (q: bool) ensures q == !hidden(*{c0}) // only C30
//@wrapiter 1 crate::shim::map_seq
//@while 0 entries
//@at start
    proof { lemma_inside_self(full@); reveal_strlit("item_full_path"); }
    let ghost n0 = res_list@.len() as int;
    let ghost dn: Seq<DirEntry> = Seq::empty();
    let ghost all = fs_list(full@)->0;
    assert(old(res_list)@.take(n0) =~= old(res_list)@); // only C30
//@at loop 0 init
    assert(entries.remaining() == vis(all)); // only C30
    assert(dn + vis(all) =~= vis(all)); // only C30
//@loop 0
    invariant
        fs_list(full@) == Some(all), // only C30
        dn + entries.remaining() == vis(all), // only C30
        n0 <= res_list@.len(), res_list@.take(n0) == old(res_list)@, // only C30
        adds(dn, full@, short@, mdepth as nat, reg, *fm, res_list@.skip(n0)), // only C30
        entries_of(entries.remaining(), full@),
        entries.obeys_prophetic_iter_laws(), entries.decrease() is Some,
    decreases entries.decrease()->0,
//@at loop 0 start
    let ghost rl = res_list@;
    let ghost pv = dn;
    let ghost path = path_join(full@, item.name());
    proof {
        lemma_entry(full@, item); lemma_lock(full@, path);
        dn = dn.push(item);
        assert(dn + entries.remaining() =~= vis(all)); // only C30
        assert(Seq::<char>::empty() + text_in(path) =~= text_in(path)); // only C30
        assert(vis(all)[pv.len() as int] == item); // only C30
        let e = Seq::<TData>::empty();
        if item.kind() == Some(Kind::Other) || (item.kind() == Some(Kind::File) && passed_over(path, reg)) || (item.kind() == Some(Kind::Dir) && mdepth == 0) {
            assert(entry_adds(item, full@, short@, mdepth as nat, reg, *fm, e)); // only C30
            lemma_adds(pv, item, full@, short@, mdepth as nat, reg, *fm, rl.skip(n0), e, rl.skip(n0) + e); // only C30
            assert(rl.skip(n0) + e =~= rl.skip(n0)); // only C30
        }
    }
//@at loop 0 end
    proof {
        let b = res_list@.skip(rl.len() as int);
        assert(res_list@.take(n0) =~= res_list@.take(rl.len() as int).take(n0)); // only C30
        assert(res_list@.skip(n0) =~= rl.skip(n0) + b); // only C30
        if item.kind() == Some(Kind::File) && !passed_over(path, reg) {
            assert(b.len() == 1 && b[0] is Map); // only C30
            assert(item_map(item, full@, short@, *fm, b[0]->Map_0@)); // only C30
        }
        if (item.kind() == Some(Kind::File) && !passed_over(path, reg)) || (item.kind() == Some(Kind::Dir) && mdepth > 0) {
            assert(entry_adds(item, full@, short@, mdepth as nat, reg, *fm, b)); // only C30
            lemma_adds(pv, item, full@, short@, mdepth as nat, reg, *fm, rl.skip(n0), b, res_list@.skip(n0)); // only C30
        }
    }
//@at loop 1 before
    let ghost exm = ex@;
    let ghost base = idata@;
    assert(base =~= item_base(item, full@, short@)); // only C30
//@loop 1 iter jt
    invariant
        map_order(exm, jt.seq()), // only C30
        idata@ == put_all(base, jt.seq().take(jt.index() as int)), // only C30
//@at loop 1 start
    proof {
        let (a, b) = (jt.seq().take(jt.index() as int), jt.seq().take(jt.index() + 1));
        assert(b.drop_last() =~= a); assert(b.last() == (k, v)); // only C30
    }
//@at loop 1 after
    proof {
        assert forall|o: Seq<(String, TData)>| #[trigger] map_order(exm, o) && idata@ == put_all(base, o.take(o.len() as int)) implies idata@ == base.union_prefer_right(exm) by { // only C30
            assert(o.take(o.len() as int) =~= o); lemma_put_all(base, exm, o); // only C30
        }
        assert(item_map(item, full@, short@, *fm, idata@)); // only C30
    }
//@end
//@lift src/funcs/folder.rs scan_dir
//@sig
pub fn scan_dir_c<'a>(pb: PathBuf, args: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_look(pb@),
    ensures
        okv(r) matches Some(d) ==> d is List && args@.len() > 0 && inside(pb@, below(pb@, disp(args@[0]@))),
        okv(r) matches Some(d) ==> scanned(below(pb@, disp(args@[0]@)), args@, d), // only C30
        r is Err ==> args@.len() == 0 || !inside(pb@, below(pb@, disp(args@[0]@))) || !scan_ok(below(pb@, disp(args@[0]@)), depth_of(args@)), // only C30
//@at start
    broadcast use crate::caps::lemma_held;
    assert forall|f: Seq<char>| inside(pb@, f) implies #[trigger] lock_look(f) by { lemma_lock(pb@, f); }
    proof { if args@.len() > 1 { assert(depth_of(args@) == (match idx_of(args@[1]@) { Some(n) => n as nat, None => 0 })); } else { assert(depth_of(args@) == 0); } } // only C30
//@closure 0
|{c0}: &TCow<'a>| -> (q: Option<usize>) ensures q == idx_of((*{c0})@) // only C30
//@closure 1
|{c0}: &TCow<'a>| -> (q: Option<Regex>) ensures q == rx_of(disp((*{c0})@)) // only C30
//@at tail
    proof {
        assert forall|s: Seq<TData>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } // only C30
    }
//@end
} // verus!
}
