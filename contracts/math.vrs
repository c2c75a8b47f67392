pub mod funcs {
pub mod math {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::mspec::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::cmp::Ordering;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_float, crate::shim::group_str, crate::tdata::group_cow, crate::mspec::lemma_fold, crate::mspec::group_div};

//@item src/funcs/math.rs enum NumMatch
use NumMatch::*;

//@fn src/funcs/math.rs num_match
//@spec
    ensures
        r is Some <==> is_num(*a) && is_num(*b),
        r matches Some(U(x, y)) ==> int_of(*a) == Some(x as int) && int_of(*b) == Some(y as int),
        r matches Some(I(x, y)) ==> int_of(*a) == Some(x as int) && int_of(*b) == Some(y as int)
            && isize::MIN <= x <= usize::MAX && isize::MIN <= y <= usize::MAX,
        r matches Some(F(x, y)) ==> as_f(*a) == Some(x) && as_f(*b) == Some(y) && (a is Float || b is Float),
//@end
//@fn src/funcs/math.rs int_float_cmp
//@spec
    requires isize::MIN <= i <= usize::MAX,
    ensures r == icmp_f(i as int, f),
//@end
//@fn src/funcs/math.rs num_cmp
//@spec
    ensures r is Some <==> is_num(*a) && is_num(*b),
        r matches Some(o) ==> o == num_ord(*a, *b),
//@end
//@fn src/funcs/math.rs fold
//@spec
    requires
        forall|a: T, b: &T| #[trigger] f.requires((a, b)),
    ensures
        fold_res(f, l@, r),
//@at loop 0 before
    let ghost mut t: Seq<T> = seq![res];
//@at loop 0 start
    assert(*a == l@[t.len() as int]);
//@at loop 0 end
    proof { t = t.push(res); }
//@loop 0 iter it
    invariant
        l.len() > 0, it.seq().len() == l.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i + 1],
        fchain(f, l@, t), t.len() == it.index() + 1, t.last() == res,
        forall|a: T, b: &T| #[trigger] f.requires((a, b)),
//@end
//@fn src/funcs/math.rs uint_res
//@spec
    ensures n matches Some(v) ==> okv(r) == Some(TData::UInt(v)), n is None ==> r is Err,
//@closure 0
|{c0}: usize| -> (q: TCow<'a>) ensures q@ == TData::UInt({c0})
//@end
//@fn src/funcs/math.rs int_res
//@spec
    ensures
        n matches Some(v) ==> (if fits(v as int) { r is Ok && int_of(okv(r)->0) == Some(v as int) } else { r is Err }),
        n is None ==> r is Err,
//@end
//@fn src/funcs/math.rs add
//@spec
    ensures folds(Op::Add, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Add, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs sub
//@spec
    ensures
        l.len() != 1 ==> folds(Op::Sub, l@, r),
        l.len() == 1 ==> match int_of(l[0]@) {
            Some(n) => if fits(-n) { r is Ok && int_of(okv(r)->0) == Some(-n) } else { r is Err },
            None => match l[0]@ {
                TData::Float(f) => r is Ok && (okv(r)->0 matches TData::Float(g) && vstd::std_specs::ops::neg_ensures(f, g)),
                _ => r is Err,
            },
        },
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Sub, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs mul
//@spec
    ensures folds(Op::Mul, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Mul, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs div
//@spec
    ensures folds(Op::Div, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Div, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs modulo
//@spec
    ensures folds(Op::Rem, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Rem, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs min
//@spec
    ensures folds(Op::Min, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Min, {c0}@, {c1}@, okv(q))
//@end
//@fn src/funcs/math.rs max
//@spec
    ensures folds(Op::Max, l@, r),
//@closure 0
|{c0}: TCow<'a>, {c1}: &TCow<'a>| -> (q: anyhow::Result<TCow<'a>>) ensures step(Op::Max, {c0}@, {c1}@, okv(q))
//@end
} // verus!
}
