pub mod free_file {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::sys::*;
use crate::sys::path::*;
use std::collections::HashMap;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use super::scan::*;
use crate::stubs::regex::{Regex, rx_of};
use crate::sys::fs::{DirEntry, fs_list};
use crate::func_man::*;
use crate::template::{TreeTemplate, catn};
use crate::parse::*;
use crate::disp::disp;
use vstd::std_specs::iter::IteratorSpec;
use super::folder::{lock_look, lemma_lock, lemma_entry, lemma_inside_self, entries_of, texts, bytess, lemma_texts, lemma_bytess};
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt, crate::shim::group_into, super::scan::lemma_vis, super::scan::lemma_oks, crate::sys::fs::axiom_entry_name, crate::sys::path::group_path};
/// the paths named by the arguments
pub open spec fn named<'a>(l: Seq<TCow<'a>>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| disp(l[i]@)) }
pub open spec fn look_named<'a>(l: Seq<TCow<'a>>) -> bool { forall|i: int| 0 <= i < l.len() ==> may_look(#[trigger] disp(l[i]@)) }
//@fn src/funcs/free_file.rs is_file
//@spec
    requires look_named(args@),
    ensures
        okv(r) matches Some(TData::Bool(b)) && (b <==> forall|i: int| 0 <= i < args.len() ==> fs_file(#[trigger] disp(args@[i]@))),
//@loop 0 iter it
    invariant
        look_named(args@),
        forall|i: int| 0 <= i < it.index() ==> fs_file(#[trigger] disp(args@[i]@)),
//@end
//@fn src/funcs/free_file.rs is_dir
//@spec
    requires look_named(args@),
    ensures
        okv(r) matches Some(TData::Bool(b)) && (b <==> forall|i: int| 0 <= i < args.len() ==> fs_dir(#[trigger] disp(args@[i]@))),
//@loop 0 iter it
    invariant
        look_named(args@),
        forall|i: int| 0 <= i < it.index() ==> fs_dir(#[trigger] disp(args@[i]@)),
//@end
//@fn src/funcs/free_file.rs do_dir
//@subst AsRef<Path> => PathLike
//@spec
    requires may_look(p.pv()),
    ensures
        okv(r) matches Some(d) ==> dir_gives(p.pv(), d), // only C30
        r is Err ==> !dir_ok(p.pv()), // only C30
//@closure 0
|{c0}: crate::sys::io::Result<crate::sys::fs::DirEntry>| -> (q: Option<crate::sys::fs::DirEntry>) ensures q == (match {c0} { Ok(x) => Some(x), Err(_) => None })
//@loop 0 iter it
    invariant
        fs_list(p.pv()) == Some(it.seq()), // only C30
        entries_of(it.seq(), p.pv()),
        res@ =~= names_of(it.seq().take(it.index() as int)), // only C30
//@at loop 0 start
    assert(it.seq()[it.index() as int] == r);
    proof { lemma_entry(p.pv(), r); }
    assert(r.dir() == p.pv()); // only C30
    assert(dir_ok(p.pv()) ==> fs_list(p.pv())->0[it.index() as int].uni()); // only C30
    assert(<String as vstd::std_specs::convert::FromSpec<&str>>::obeys_from_spec()); // only C30
    assert forall|x: &str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&str>>::from_spec(x))@ == x@ by { } // only C30
//@at loop 0 after
    proof { assert forall|s: Seq<DirEntry>| #[trigger] s.take(s.len() as int) == s by { assert(s.take(s.len() as int) =~= s); } }
//@end
//@fn src/funcs/free_file.rs dir
//@spec
    requires look_named(args@),
    ensures
        okv(r) matches Some(d) ==> dirs_give(named(args@), d), // only C30
        r is Err ==> exists|i: int| 0 <= i < args@.len() && !dir_ok(#[trigger] named(args@)[i]), // only C30
//@at start
    let ghost bs = named(args@);
    proof { if args@.len() == 1 { assert(bs[0] == disp(args@[0]@)); } } // only C30
//@loop 0 iter it
    invariant
        look_named(args@),
        bs == named(args@),
        v@.len() == it.index(), // only C30
        forall|i: int| 0 <= i < it.index() ==> dir_gives(bs[i], #[trigger] v@[i]), // only C30
//@at loop 0 start
    assert(bs[it.index() as int] == disp(d@)); // only C30
//@end
//@fn src/funcs/free_file.rs file
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires look_named(args@),
    ensures
        match texts(named(args@)) { Some(t) => okv(r) matches Some(TData::String(s)) && s@ == t, None => r is Err },
//@loop 0 iter it
    invariant
        texts(named(args@).take(it.index() as int)) == Some(res@),
//@at loop 0 start
    let ghost bs = named(args@);
    let ghost n = it.index() as int;
    assert(bs.take(n + 1).drop_last() =~= bs.take(n));
    assert(bs.take(n + 1).last() == disp(d@));
    proof { if texts(bs.take(n + 1)) is None { lemma_texts(bs, n + 1); } }
//@at loop 0 after
    assert(named(args@).take(args@.len() as int) =~= named(args@));
//@end
//@fn src/funcs/free_file.rs file_bytes
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires look_named(args@),
    ensures
        match bytess(named(args@)) { Some(t) => okv(r) matches Some(TData::Bytes(s)) && s@ == t, None => r is Err },
//@loop 0 iter it
    invariant
        bytess(named(args@).take(it.index() as int)) == Some(res@),
//@at loop 0 start
    let ghost bs = named(args@);
    let ghost n = it.index() as int;
    assert(bs.take(n + 1).drop_last() =~= bs.take(n));
    assert(bs.take(n + 1).last() == disp(d@));
    proof { if bytess(bs.take(n + 1)) is None { lemma_bytess(bs, n + 1); } }
//@at loop 0 after
    assert(named(args@).take(args@.len() as int) =~= named(args@));
//@end
//@fn src/funcs/free_file.rs file_img_dimensions
//@spec
    requires args@.len() > 0 ==> (args@[0]@ matches TData::String(s) ==> may_look(s@)),
    ensures r is Ok ==> args@.len() > 0 && args@[0]@ is String,
//@end
//@fn src/funcs/free_file.rs do_scan_dir
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires
        lock_look(full@),
        crate::parse::fm_default(*fm), // only C02
    ensures
        r is Ok ==> final(res_list)@.len() >= old(res_list)@.len() && final(res_list)@.take(old(res_list)@.len() as int) == old(res_list)@
            && scan_gives(full@, short@, mdepth as nat, reg, *fm, final(res_list)@.skip(old(res_list)@.len() as int)), // only C30
        r is Err ==> !scan_ok(full@, mdepth as nat), // only C30
    decreases mdepth,
//@closure 0
|{c0}: crate::sys::io::Result<crate::sys::fs::DirEntry>| -> (q: Option<crate::sys::fs::DirEntry>) ensures q == (match {c0} { Ok(x) => Some(x), Err(_) => None })
//@closure 1
|{c0}: &crate::sys::fs::DirEntry| -> (q: bool) ensures q == !hidden(*{c0}) // only C30
//@wrapiter 1 crate::shim::map_seq
//@while 0 entries
//@at start
    proof { lemma_inside_self(full@); reveal_strlit("item_full_path"); }
    let ghost n0 = res_list@.len() as int;
    let ghost dn: Seq<DirEntry> = Seq::empty();
    let ghost all = fs_list(full@)->0;
    assert(old(res_list)@.take(n0) =~= old(res_list)@); // only C30
//@at loop 0 init
    assert(entries.remaining() == vis(all)); // only C30
    assert(dn + vis(all) =~= vis(all)); // only C30
//@loop 0
    invariant
        fs_list(full@) == Some(all), // only C30
        dn + entries.remaining() == vis(all), // only C30
        n0 <= res_list@.len(), res_list@.take(n0) == old(res_list)@, // only C30
        adds(dn, full@, short@, mdepth as nat, reg, *fm, res_list@.skip(n0)), // only C30
        entries_of(entries.remaining(), full@),
        entries.obeys_prophetic_iter_laws(), entries.decrease() is Some,
    decreases entries.decrease()->0,
//@at loop 0 start
    let ghost rl = res_list@;
    let ghost pv = dn;
    let ghost path = path_join(full@, item.name());
    proof {
        lemma_entry(full@, item); lemma_lock(full@, path);
        dn = dn.push(item);
        assert(dn + entries.remaining() =~= vis(all)); // only C30
        assert(Seq::<char>::empty() + text_in(path) =~= text_in(path)); // only C30
        assert(vis(all)[pv.len() as int] == item); // only C30
        let e = Seq::<TData>::empty();
        if item.kind() == Some(Kind::Other) || (item.kind() == Some(Kind::File) && passed_over(path, reg)) || (item.kind() == Some(Kind::Dir) && mdepth == 0) {
            assert(entry_adds(item, full@, short@, mdepth as nat, reg, *fm, e)); // only C30
            lemma_adds(pv, item, full@, short@, mdepth as nat, reg, *fm, rl.skip(n0), e, rl.skip(n0) + e); // only C30
            assert(rl.skip(n0) + e =~= rl.skip(n0)); // only C30
        }
    }
//@at loop 0 end
    proof {
        let b = res_list@.skip(rl.len() as int);
        assert(res_list@.take(n0) =~= res_list@.take(rl.len() as int).take(n0)); // only C30
        assert(res_list@.skip(n0) =~= rl.skip(n0) + b); // only C30
        if item.kind() == Some(Kind::File) && !passed_over(path, reg) {
            assert(b.len() == 1 && b[0] is Map); // only C30
            assert(item_map(item, full@, short@, *fm, b[0]->Map_0@)); // only C30
        }
        if (item.kind() == Some(Kind::File) && !passed_over(path, reg)) || (item.kind() == Some(Kind::Dir) && mdepth > 0) {
            assert(entry_adds(item, full@, short@, mdepth as nat, reg, *fm, b)); // only C30
            lemma_adds(pv, item, full@, short@, mdepth as nat, reg, *fm, rl.skip(n0), b, res_list@.skip(n0)); // only C30
        }
    }
//@at loop 1 before
    let ghost exm = ex@;
    let ghost base = idata@;
    assert(base =~= item_base(item, full@, short@)); // only C30
//@loop 1 iter jt
    invariant
        map_order(exm, jt.seq()), // only C30
        idata@ == put_all(base, jt.seq().take(jt.index() as int)), // only C30
//@at loop 1 start
    proof {
        let (a, b) = (jt.seq().take(jt.index() as int), jt.seq().take(jt.index() + 1));
        assert(b.drop_last() =~= a); assert(b.last() == (k, v)); // only C30
    }
//@at loop 1 after
    proof {
        assert forall|o: Seq<(String, TData)>| #[trigger] map_order(exm, o) && idata@ == put_all(base, o.take(o.len() as int)) implies idata@ == base.union_prefer_right(exm) by { // only C30
            assert(o.take(o.len() as int) =~= o); lemma_put_all(base, exm, o); // only C30
        }
        assert(item_map(item, full@, short@, *fm, idata@)); // only C30
    }
//@end
//@fn src/funcs/free_file.rs scan_dir
//@spec
    requires args@.len() > 0 ==> lock_look(disp(args@[0]@)),
    ensures
        okv(r) matches Some(d) ==> d is List && args@.len() > 0,
        okv(r) matches Some(d) ==> args@.len() > 0 && scanned(disp(args@[0]@), args@, d), // only C30
        r is Err ==> args@.len() == 0 || !scan_ok(disp(args@[0]@), depth_of(args@)), // only C30
//@at start
    broadcast use crate::caps::lemma_held;
    proof { if args@.len() > 1 { assert(depth_of(args@) == (match idx_of(args@[1]@) { Some(n) => n as nat, None => 0 })); } else { assert(depth_of(args@) == 0); } } // only C30
//@closure 0
|{c0}: &TCow<'a>| -> (q: Option<usize>) ensures q == idx_of((*{c0})@) // only C30
//@closure 1
|{c0}: &TCow<'a>| -> (q: Option<Regex>) ensures q == rx_of(disp((*{c0})@)) // only C30
//@at tail
    proof {
        assert forall|s: Seq<TData>| #[trigger] s.skip(0) == s by { assert(s.skip(0) =~= s); } // only C30
    }
//@end
/// the texts of the arguments from n on, one after another
pub open spec fn from_on<'a>(l: Seq<TCow<'a>>, n: int) -> Seq<char>
    decreases l.len()
{
    if l.len() <= n || n < 0 { Seq::empty() } else { from_on(l.drop_last(), n) + disp(l.last()@) }
}
/// the free write may make the folder of the file named and have the file hold each
/// of the beginnings of the contents given
pub open spec fn free_write<'a>(l: Seq<TCow<'a>>) -> bool {
    l.len() >= 2 ==> (parent_of(disp(l[0]@)) matches Some(q) ==> may_make(q)) && (forall|n: int| 1 <= n <= l.len() ==> may_put(disp(l[0]@), #[trigger] from_on(l.take(n), 1)))
}
//@fn src/funcs/free_file.rs write
//@attr
#[verifier::loop_isolation(false)]
//@spec
    requires free_write(args@),
    ensures
        okv(r) matches Some(d) ==> args@.len() >= 2 && put_done(disp(args@[0]@), from_on(args@, 1)) && d is String && d->String_0@.len() == 0,
//@at start
    proof { if args@.len() >= 1 { assert(args@.take(1).len() == 1); assert(from_on(args@.take(1), 1) =~= Seq::<char>::empty()); } }
//@loop 0 iter it
    invariant
        it.index() <= it.seq().len() == args@.len() - 1,
        file@.path == disp(args@[0]@),
        file@.put == Some(from_on(args@.take(it.index() + 1), 1)),
        put_done(disp(args@[0]@), from_on(args@.take(it.index() + 1), 1)),
//@at loop 0 start
    let ghost n = it.index() + 1;
    assert(args@.take(n + 1).drop_last() =~= args@.take(n));
    assert(args@.take(n + 1).last() == args@[n]);
    assert(*a == args@[n]);
    assert(may_put(disp(args@[0]@), from_on(args@.take(n + 1), 1)));
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@end
}
}
pub mod exec {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::sys::process::*;
use crate::sys::env::env_of;
use vstd::utf8::encode_utf8;
use crate::sys::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::disp::disp;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt};
/// the arguments from n on, as texts
pub open spec fn argv<'a>(l: Seq<TCow<'a>>, n: int) -> Seq<Seq<char>> { Seq::new((l.len() - n) as nat, |i: int| disp(l[n + i]@)) }
/// the program and the arguments the template names
pub open spec fn is_cmd<'a>(c: CView, l: Seq<TCow<'a>>, n: int) -> bool { c.prog =~= disp(l[0]@) && c.args =~= argv(l, n) }
pub open spec fn only_run<'a>(l: Seq<TCow<'a>>, n: int) -> bool {
    forall|c: CView| is_cmd(c, l, n) ==> #[trigger] may_run(c)
}
/// that command was started, and t is what it wrote
pub open spec fn did_run<'a>(l: Seq<TCow<'a>>, n: int, t: Seq<char>) -> bool {
    exists|c: CView| is_cmd(c, l, n) && #[trigger] ran(c) && encode_utf8(t) == stdout_of(c)
}
//@fn src/funcs/exec.rs exec
//@spec
    requires args@.len() >= 1 ==> only_run(args@, 1),
    ensures
        okv(r) matches Some(d) ==> args@.len() >= 1 && d is String && did_run(args@, 1, d->String_0@),
//@closure 0
|{c0}: &TCow<'a>| -> (q: String) ensures q@ == disp({c0}@)
//@end
//@fn src/funcs/exec.rs read_all
//@spec
    ensures r matches Ok(v) ==> v@ == stdout_of(out.of()),
//@end
//@fn src/funcs/exec.rs exec_stdin
//@spec
    requires args@.len() >= 2 ==> only_run(args@, 2) && forall|t: Seq<char>| t =~= disp(args@[1]@) ==> #[trigger] may_feed(t),
    ensures
        okv(r) matches Some(d) ==> args@.len() >= 2 && d is String && did_run(args@, 2, d->String_0@) && exists|t: Seq<char>| t =~= disp(args@[1]@) && #[trigger] fed(t),
//@closure 0
|{c0}: &TCow<'a>| -> (q: String) ensures q@ == disp({c0}@)
//@closure 1
|| -> (q: crate::sys::io::Result<Vec<u8>>) ensures q matches Ok(v) ==> v@ == stdout_of(out.of())
//@end
//@fn src/funcs/exec.rs env
//@spec
    requires args@.len() > 0 ==> may_env(disp(args@[0]@)),
    ensures
        args@.len() == 0 ==> r is Err,
        args@.len() > 0 ==> match env_of(disp(args@[0]@)) {
            Some(v) => okv(r) matches Some(TData::String(s)) && s@ == v,
            None => if args@.len() > 1 { okv(r) == Some(args@[1]@) } else { r is Err },
        },
//@closure 0
|{c0}: &TCow<'a>| -> (q: TCow<'a>) ensures q@ == {c0}@
//@end
}
}
