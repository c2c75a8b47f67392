pub mod path {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::disp::disp;
use crate::txt::*;
use crate::sys::*;
use crate::sys::path::*;
use super::strings::*;
use super::svg::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt, crate::sys::path::group_path, crate::sys::path::group_names};
/// the arguments joined one after another
pub open spec fn path_cat<'a>(l: Seq<TCow<'a>>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { path_join(path_cat(l.drop_last()), disp(l.last()@)) }
}
/// l: every path from the outermost ancestor of p to p itself
pub open spec fn crumbs(l: Seq<TData>, p: Seq<char>) -> bool {
    &&& l.len() > 0
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] is String
    &&& l.last()->String_0@ == p
    &&& forall|i: int| 0 < i < l.len() ==> parent_of((#[trigger] l[i])->String_0@) == Some(l[i - 1]->String_0@)
    &&& parent_of(l[0]->String_0@) is None
}
/// the texts of the values
pub open spec fn disps(l: Seq<TData>, t: Seq<Seq<char>>) -> bool { t.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] t[i] == disp(l[i]) }
//@fn src/funcs/path.rs path_dat
//@spec
    ensures r matches TData::String(s) && s@ == p@,
//@end
//@fn src/funcs/path.rs join_args
//@spec
    ensures r@ == path_cat(args@), r.uni(),
//@loop 0 iter it
    invariant
        it.seq().len() == args@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        path@ == path_cat(args@.take(it.index())), path.uni(),
//@at loop 0 start
    proof { assert(*v == args@[it.index()]); assert(args@.take(it.index() + 1).drop_last() =~= args@.take(it.index())); }
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@end
//@fn src/funcs/path.rs parent
//@spec
    ensures is_text(r, match parent_of(path_cat(args@)) { Some(q) => q, None => Seq::empty() }),
//@at start
    proof { reveal_strlit(""); }
//@end
//@fn src/funcs/path.rs join
//@spec
    ensures is_text(r, path_cat(args@)),
//@end
//@fn src/funcs/path.rs join_with
//@subst .map(TData::to_string) => .map(|v: &TData| -> (q: String) ensures q@ == disp(*v) { v.to_string() })
//@subst .join( => .join_texts(
//@spec
    ensures if args@.len() >= 2 && args@[1]@ is List {
        okv(r) matches Some(TData::String(s)) && exists|t: Seq<Seq<char>>| disps(args@[1]@->List_0@, t) && s@ == #[trigger] joined(t, disp(args@[0]@))
    } else { r is Err },
//@end
//@fn src/funcs/path.rs bread_crumbs
//@spec
    ensures okv(r) matches Some(TData::List(l)) && crumbs(l@, path_cat(args@)),
//@at start
    let ghost p0 = path_cat(args@);
//@loop 0
    invariant
        res@.len() > 0,
        forall|i: int| 0 <= i < res@.len() ==> #[trigger] res@[i] is String,
        res@[0]->String_0@ == path@,
        res@.last()->String_0@ == p0,
        forall|i: int| 0 < i < res@.len() ==> parent_of((#[trigger] res@[i])->String_0@) == Some(res@[i - 1]->String_0@),
    ensures
        parent_of(path@) is None,
    decreases comps(path@).len(),
//@end
//@fn src/funcs/path.rs base_name
//@spec
    ensures match name_of(path_cat(args@)) { Some(n) => is_text(r, n), None => r is Err },
//@closure 0
|{c0}: &OsStr| -> (q: Option<&str>) ensures q matches Some(x) ==> x@ == {c0}@, {c0}.uni() ==> q is Some
//@closure 1
|{c0}: &str| -> (q: TCow<'a>) ensures q@ matches TData::String(x) && x@ == {c0}@
//@end
//@fn src/funcs/path.rs base_name_sure
//@spec
    ensures is_text(r, match name_of(path_cat(args@)) { Some(n) => n, None => Seq::empty() }),
//@closure 0
|{c0}: &OsStr| -> (q: Option<&str>) ensures q matches Some(x) ==> x@ == {c0}@, {c0}.uni() ==> q is Some
//@at start
    proof { reveal_strlit(""); }
//@end
//@fn src/funcs/path.rs with_ext
//@subst .contains(crate::sys::path::is_separator) => .has_text('/')
//@spec
    ensures if args@.len() >= 2 && !occurs(disp(args@[1]@), seq!['/']) { is_text(r, ext_set(disp(args@[0]@), disp(args@[1]@))) } else { r is Err },
//@end
//@fn src/funcs/path.rs stem
//@spec
    ensures match name_of(path_cat(args@)) { Some(n) => is_text(r, stem_of(n)), None => r is Err },
//@closure 0
|{c0}: &OsStr| -> (q: TCow<'a>) ensures q@ matches TData::String(x) && x@ == {c0}@
//@end
//@fn src/funcs/path.rs full_stem
//@spec
    ensures match name_of(path_cat(args@)) { Some(n) => is_text(r, name_set(path_cat(args@), stem_of(n))), None => r is Err },
//@end
}
}
