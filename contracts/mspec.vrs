pub mod mspec {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::tdata::*;
use crate::tparam::*;
use crate::stubs::anyhow;
verus!{
broadcast use {crate::shim::group_ext, crate::tdata::group_cow};
// ---- the arithmetic functions
pub enum Op { Add, Sub, Mul, Div, Rem, Min, Max }
/// division truncating toward zero, and its remainder (`/` and `%` on int are
/// Euclidean, so they truncate for a dividend that is not negative)
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
pub open spec fn trem(a: int, b: int) -> int { if a >= 0 { a % b } else { -((-a) % b) } }
pub broadcast proof fn lemma_div_le(a: int, b: int)
    requires a >= 0, b != 0,
    ensures -a <= #[trigger] (a / b) <= a, b > 0 ==> a / b >= 0,
{
    assert(-a <= a / b <= a && (b > 0 ==> a / b >= 0)) by (nonlinear_arith) requires a >= 0, b != 0;
}
pub broadcast proof fn lemma_rem_le(a: int, b: int)
    requires a >= 0, b != 0,
    ensures 0 <= #[trigger] (a % b) <= a,
{
    assert(0 <= a % b <= a) by (nonlinear_arith) requires a >= 0, b != 0;
}
pub broadcast group group_div { lemma_div_le, lemma_rem_le }
pub open spec fn iop(op: Op, a: int, b: int) -> Option<int> {
    match op {
        Op::Add => Some(a + b),
        Op::Sub => Some(a - b),
        Op::Mul => Some(a * b),
        Op::Div => if b == 0 { None } else { Some(tdiv(a, b)) },
        Op::Rem => if b == 0 { None } else { Some(trem(a, b)) },
        Op::Min => Some(if a <= b { a } else { b }),
        Op::Max => Some(if a >= b { a } else { b }),
    }
}
pub open spec fn fop(op: Op, a: f64, b: f64, r: f64) -> bool {
    match op {
        Op::Add => vstd::std_specs::ops::add_ensures(a, b, r),
        Op::Sub => vstd::std_specs::ops::sub_ensures(a, b, r),
        Op::Mul => vstd::std_specs::ops::mul_ensures(a, b, r),
        Op::Div => vstd::std_specs::ops::div_ensures(a, b, r),
        Op::Rem => r == vstd::std_specs::ops::RemSpec::rem_spec(a, b),
        Op::Min => fmin_ensures(a, b, r),
        Op::Max => fmax_ensures(a, b, r),
    }
}
pub open spec fn fits(n: int) -> bool { isize::MIN <= n <= usize::MAX }
/// the result of one step on two values; None is the error
pub open spec fn step(op: Op, a: TData, b: TData, r: Option<TData>) -> bool {
    match (int_of(a), int_of(b)) {
        (Some(x), Some(y)) => match iop(op, x, y) {
            Some(n) => if fits(n) { r is Some && int_of(r->0) == Some(n) } else { r is None },
            None => r is None,
        },
        _ => if is_num(a) && is_num(b) {
            r matches Some(TData::Float(f)) && fop(op, as_f(a)->0, as_f(b)->0, f)
        } else { r is None },
    }
}
pub open spec fn okv<'a>(r: anyhow::Result<TCow<'a>>) -> Option<TData> {
    match r { Ok(c) => Some(c@), Err(_) => None }
}
/// intermediate results of a left fold: t[i] is the value after taking in l[i]
pub open spec fn chain<'a>(op: Op, l: Seq<TCow<'a>>, t: Seq<TCow<'a>>) -> bool {
    &&& 1 <= t.len() <= l.len()
    &&& t[0]@ == l[0]@
    &&& forall|i: int| 1 <= i < t.len() ==> step(op, #[trigger] t[i - 1]@, l[i]@, Some(t[i]@))
}
pub open spec fn folds<'a>(op: Op, l: Seq<TCow<'a>>, r: anyhow::Result<TCow<'a>>) -> bool {
    if l.len() == 0 { r is Err } else {
        match r {
            Ok(v) => exists|t: Seq<TCow<'a>>| #[trigger] chain(op, l, t) && t.len() == l.len() && t.last()@ == v@,
            Err(_) => exists|t: Seq<TCow<'a>>| #[trigger] chain(op, l, t) && t.len() < l.len() && step(op, t.last()@, l[t.len() as int]@, None),
        }
    }
}
pub open spec fn fchain<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(f: F, l: Seq<T>, t: Seq<T>) -> bool {
    &&& 1 <= t.len() <= l.len()
    &&& call_ensures(T::clone, (&l[0],), t[0])
    &&& forall|i: int| 1 <= i < t.len() ==> #[trigger] f.ensures((t[i - 1], &l[i]), Ok(t[i]))
}
pub open spec fn fold_res<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(f: F, l: Seq<T>, r: anyhow::Result<T>) -> bool {
    if l.len() == 0 { r is Err } else {
        match r {
            Ok(v) => exists|t: Seq<T>| #[trigger] fchain(f, l, t) && t.len() == l.len() && t.last() == v,
            Err(e) => exists|t: Seq<T>, g: anyhow::Error| #[trigger] fchain(f, l, t) && t.len() < l.len() && #[trigger] f.ensures((t.last(), &l[t.len() as int]), Err(g)),
        }
    }
}
proof fn lemma_chain<'a, F: Fn(TCow<'a>, &TCow<'a>) -> anyhow::Result<TCow<'a>>>(op: Op, f: F, l: Seq<TCow<'a>>, t: Seq<TCow<'a>>)
    requires
        fchain(f, l, t),
        forall|a: TCow<'a>, b: TCow<'a>, q: anyhow::Result<TCow<'a>>| #[trigger] f.ensures((a, &b), q) ==> step(op, a@, b@, okv(q)),
    ensures chain(op, l, t),
{
    assert forall|i: int| 1 <= i < t.len() implies step(op, #[trigger] t[i - 1]@, l[i]@, Some(t[i]@)) by {
        assert(f.ensures((t[i - 1], &l[i]), Ok(t[i])));
        assert(step(op, t[i - 1]@, l[i]@, okv(Ok(t[i]))));
    }
}
pub broadcast proof fn lemma_fold<'a, F: Fn(TCow<'a>, &TCow<'a>) -> anyhow::Result<TCow<'a>>>(op: Op, f: F, l: Seq<TCow<'a>>, r: anyhow::Result<TCow<'a>>)
    requires
        #[trigger] fold_res(f, l, r),
        forall|a: TCow<'a>, b: TCow<'a>, q: anyhow::Result<TCow<'a>>| #[trigger] f.ensures((a, &b), q) ==> step(op, a@, b@, okv(q)),
    ensures #[trigger] folds(op, l, r),
{
    if l.len() > 0 {
        match r {
            Ok(v) => {
                let t = choose|t: Seq<TCow<'a>>| #[trigger] fchain(f, l, t) && t.len() == l.len() && t.last() == v;
                assert(chain(op, l, t)) by { lemma_chain(op, f, l, t); }
            },
            Err(e) => {
                let (t, g) = choose|t: Seq<TCow<'a>>, g: anyhow::Error| #[trigger] fchain(f, l, t) && t.len() < l.len() && #[trigger] f.ensures((t.last(), &l[t.len() as int]), Err(g));
                assert(chain(op, l, t)) by { lemma_chain(op, f, l, t); }
                assert(step(op, t.last()@, l[t.len() as int]@, okv(Err(g))));
            },
        }
    }
}

}
}
