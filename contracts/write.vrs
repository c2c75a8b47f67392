pub mod write {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::sys::*;
use crate::sys::path::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::disp::disp;
use crate::mspec::okv;
use super::folder::{safe_path, below};
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt, crate::sys::path::group_path};
/// what the locked write may do: make folders inside the lock, and empty the file the
/// arguments name, inside the lock, to put the one text there
pub open spec fn lock_write<'a>(p: Seq<char>, l: Seq<TCow<'a>>) -> bool {
    &&& forall|q: Seq<char>| inside(p, q) ==> #[trigger] may_make(q)
    &&& l.len() >= 2 && inside(p, below(p, disp(l[0]@))) ==> may_put(below(p, disp(l[0]@)), Seq::empty()) && may_put(below(p, disp(l[0]@)), disp(l[1]@))
}
pub proof fn lemma_resolved_drop(c: Seq<Comp>)
    requires resolved(c) is Some, c.len() > 0,
    ensures resolved(c.drop_last()) is Some,
{}
//@lift src/funcs/write.rs write
//@sig
pub fn write_c<'a>(pb: PathBuf, l: &[TCow<'a>]) -> (r: anyhow::Result<TCow<'a>>)
//@spec
    requires lock_write(pb@, l@),
    ensures
        okv(r) matches Some(d) ==> l@.len() >= 2 && inside(pb@, below(pb@, disp(l@[0]@))) && put_done(below(pb@, disp(l@[0]@)), disp(l@[1]@)) && d is String && d->String_0@.len() == 0,
//@closure 0
|{c0}: &&Path| -> (q: bool) ensures q <==> comps(pb@).len() <= comps({c0}@).len() && comps({c0}@).take(comps(pb@).len() as int) == comps(pb@)
//@at start
    assert forall|q: Seq<char>| inside(pb@, q) && (#[trigger] parent_of(q) matches Some(s) && comps(s).len() >= comps(pb@).len()) implies inside(pb@, parent_of(q)->0) by {
        let n = comps(pb@).len() as int;
        assert(comps(q).drop_last().take(n) =~= comps(q).take(n));
        assert(comps(q).drop_last().skip(n) =~= comps(q).skip(n).drop_last());
    }
//@end
}
}
