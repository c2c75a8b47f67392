pub mod svg {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::disp::disp;
use crate::txt::*;
use super::strings::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt};
/// name="value"
pub open spec fn attr(n: Seq<char>, v: Seq<char>) -> Seq<char> { n + "=\""@ + v + "\""@ }
/// the display text of argument i
pub open spec fn arg<'a>(l: Seq<TCow<'a>>, i: int) -> Seq<char> { disp(l[i]@) }
/// the unit: argument i where there is one
pub open spec fn unit<'a>(l: Seq<TCow<'a>>, i: int) -> Seq<char> { if i < l.len() { arg(l, i) } else { Seq::empty() } }
pub open spec fn is_text<'a>(r: anyhow::Result<TCow<'a>>, t: Seq<char>) -> bool {
    okv(r) matches Some(TData::String(s)) && s@ =~= t
}
//@fn src/funcs/svg.rs units
//@spec
    ensures r@ == unit(args@, p as int),
//@at start
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
//@fn src/funcs/svg.rs xy
//@spec
    ensures if args@.len() < 2 { r is Err } else {
        is_text(r, attr("x"@, arg(args@, 0) + unit(args@, 2)) + " "@ + attr("y"@, arg(args@, 1) + unit(args@, 2)))
    },
//@at start
    proof { reveal_strlit("x"); reveal_strlit("y"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\""); reveal_strlit(""); reveal_strlit("x=\""); reveal_strlit("\" y=\""); }
//@end
//@fn src/funcs/svg.rs xywh
//@spec
    ensures if args@.len() < 4 { r is Err } else {
        is_text(r, attr("x"@, arg(args@, 0) + unit(args@, 4)) + " "@ + attr("y"@, arg(args@, 1) + unit(args@, 4)) + " "@ + attr("width"@, arg(args@, 2) + unit(args@, 4)) + " "@ + attr("height"@, arg(args@, 3) + unit(args@, 4)))
    },
//@at start
    proof { reveal_strlit("x"); reveal_strlit("y"); reveal_strlit("width"); reveal_strlit("height"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\""); reveal_strlit(""); reveal_strlit("x=\""); reveal_strlit("\" y=\""); reveal_strlit("\" width=\""); reveal_strlit("\" height=\""); }
//@end
//@fn src/funcs/svg.rs cxyrr
//@spec
    ensures if args@.len() < 4 { r is Err } else {
        is_text(r, attr("cx"@, arg(args@, 0) + unit(args@, 4)) + " "@ + attr("cy"@, arg(args@, 1) + unit(args@, 4)) + " "@ + attr("rx"@, arg(args@, 2) + unit(args@, 4)) + " "@ + attr("ry"@, arg(args@, 3) + unit(args@, 4)))
    },
//@at start
    proof { reveal_strlit("cx"); reveal_strlit("cy"); reveal_strlit("rx"); reveal_strlit("ry"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\""); reveal_strlit(""); reveal_strlit("cx=\""); reveal_strlit("\" cy=\""); reveal_strlit("\" rx=\""); reveal_strlit("\" ry=\""); }
//@end
//@fn src/funcs/svg.rs xy12
//@spec
    ensures if args@.len() < 4 { r is Err } else {
        is_text(r, attr("x"@, arg(args@, 0) + unit(args@, 4)) + " "@ + attr("y"@, arg(args@, 1) + unit(args@, 4)) + " "@ + attr("x2"@, arg(args@, 2) + unit(args@, 4)) + " "@ + attr("y2"@, arg(args@, 3) + unit(args@, 4)))
    },
//@at start
    proof { reveal_strlit("x"); reveal_strlit("y"); reveal_strlit("x2"); reveal_strlit("y2"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\""); reveal_strlit(""); reveal_strlit("x=\""); reveal_strlit("\" y=\""); reveal_strlit("\" x2=\""); reveal_strlit("\" y2=\""); }
//@end
//@fn src/funcs/svg.rs fl_stk
//@spec
    ensures if args@.len() < 3 { r is Err } else {
        is_text(r, attr("fill"@, arg(args@, 0)) + " "@ + attr("stroke"@, arg(args@, 1)) + " "@ + attr("stroke-width"@, arg(args@, 2) + unit(args@, 3)))
    },
//@at start
    proof { reveal_strlit("fill"); reveal_strlit("stroke"); reveal_strlit("stroke-width"); reveal_strlit(" "); reveal_strlit("\""); reveal_strlit("=\""); reveal_strlit(""); reveal_strlit("fill=\""); reveal_strlit("\" stroke=\""); reveal_strlit("\" stroke-width=\""); }
//@end
//@fn src/funcs/svg.rs font
//@spec
    ensures if args@.len() < 1 { r is Err } else {
        is_text(r, attr("font-size"@, arg(args@, 0) + unit(args@, 2)) + " "@ + if args@.len() > 1 { attr("font-family"@, arg(args@, 1)) + " "@ } else { Seq::empty() })
    },
//@closure 0
|{c0}: &TCow<'a>| -> (q: String) ensures q@ =~= attr("font-family"@, disp({c0}@)) + " "@
//@at closure 0 start
    proof { reveal_strlit("font-family"); reveal_strlit("font-family=\""); reveal_strlit("\" "); reveal_strlit("=\""); reveal_strlit("\""); reveal_strlit(" "); }
//@at start
    proof { reveal_strlit("font-size"); reveal_strlit("font-size=\""); reveal_strlit("\" "); reveal_strlit("=\""); reveal_strlit("\""); reveal_strlit(" "); reveal_strlit(""); }
//@end
//@fn src/funcs/svg.rs _xml_es
//@subst .chars() => .own_chars()
//@spec
    ensures escapes(r@, s@),
//@loop 0 iter it
    invariant
        it.seq() == s@,
        escapes(res@, it.seq().take(it.index())),
//@at loop 0 start
    proof { lemma_esc_push(res@, it.seq().take(it.index()), c, it.seq().take(it.index() + 1)); }
//@at loop 0 after
    assert(s@.take(s@.len() as int) =~= s@);
//@end
//@fn src/funcs/svg.rs xml_esc
//@spec
    ensures okv(r) matches Some(TData::String(s)) && escapes(s@, cat_of(args@)),
//@loop 0 iter it
    invariant
        it.seq().len() == args@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        escapes(res@, cat_of(args@.take(it.index()))),
//@at loop 0 start
    proof {
        assert(*a == args@[it.index()]); assert(args@.take(it.index() + 1).drop_last() =~= args@.take(it.index()));
        assert forall|t: Seq<char>| escapes(t, disp((*a)@)) implies escapes(res@ + t, cat_of(args@.take(it.index() + 1))) by {
            lemma_esc_cat(res@, cat_of(args@.take(it.index())), t, disp((*a)@));
        }
    }
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@end
}
}
