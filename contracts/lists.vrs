pub mod lists {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::cmp::Ordering;
use std::ops::Deref;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::expr::{VarPart, Expr, expr_rel};
use crate::scope::*;
use crate::func_man::*;
use crate::temp_man::*;
use crate::template::*;
use crate::parse::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_float, crate::shim::group_str, crate::shim::group_vec, crate::shim::group_bool, crate::shim::group_part, crate::tdata::group_cow, crate::disp::group_disp, crate::laws::law_eq_symmetric};

// ---- the order values are sorted in
pub open spec fn nan_of(d: TData) -> bool { match as_f(d) { Some(f) => fcls(f) is Nan, None => false } }
pub open spec fn bool_ord(a: bool, b: bool) -> Ordering {
    if a == b { Ordering::Equal } else if b { Ordering::Less } else { Ordering::Greater }
}
/// td_ord made total: NaN comes after the other numbers
pub open spec fn tot(a: TData, b: TData) -> Ordering {
    match td_ord(a, b) { Some(o) => o, None => bool_ord(nan_of(a), nan_of(b)) }
}
pub open spec fn comp_ord(c: Comparator, a: TData, b: TData) -> Ordering {
    let o = match (td_look(a, c.v@), td_look(b, c.v@)) {
        (Some(x), Some(y)) => tot(x, y),
        (Some(_), None) => Ordering::Greater,
        (None, Some(_)) => Ordering::Less,
        (None, None) => tot(a, b),
    };
    if c.down { ord_rev(o) } else { o }
}
/// the criteria in turn
pub open spec fn comps_ord(cs: Seq<Comparator>, a: TData, b: TData) -> Ordering
    decreases cs.len()
{
    if cs.len() == 0 { Ordering::Equal } else {
        match comp_ord(cs[0], a, b) { Ordering::Equal => comps_ord(cs.skip(1), a, b), o => o }
    }
}
pub open spec fn is_list(d: TData) -> Option<Seq<TData>> { match d { TData::List(l) => Some(l@), _ => None } }
pub open spec fn res_list<'a>(r: anyhow::Result<TCow<'a>>, s: Seq<TData>) -> bool { okv(r) matches Some(TData::List(v)) && same_items(v@, s) }
pub open spec fn same_items(a: Seq<TData>, b: Seq<TData>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] a[i] == b[i] }
pub open spec fn res_text<'a>(r: anyhow::Result<TCow<'a>>, s: Seq<char>) -> bool { okv(r) matches Some(TData::String(v)) && v@ == s }

//@item src/funcs/lists.rs struct Comparator pubfields

//@fn src/funcs/lists.rs list
//@spec
    ensures res_list(r, crate::func_man::vals(args@)),
//@closure 0
|{c0}: &TCow<'a>| -> (q: TData) ensures q == {c0}@
//@end
/// members of lists and maps, bytes of texts, one for anything else
pub open spec fn size(d: TData) -> nat {
    match d {
        TData::List(l) => l@.len(),
        TData::Map(m) => m@.len(),
        TData::String(s) => bytes_of(s@).len(),
        _ => 1,
    }
}
pub open spec fn sizes<'a>(l: Seq<TCow<'a>>) -> nat decreases l.len() {
    if l.len() == 0 { 0 } else { sizes(l.drop_last()) + size(l.last()@) }
}
pub proof fn lemma_sizes<'a>(l: Seq<TCow<'a>>, n: int)
    requires 0 <= n <= l.len(),
    ensures sizes(l.take(n)) <= sizes(l), n > 0 ==> sizes(l.take(n)) == sizes(l.take(n - 1)) + size(l[n - 1]@),
    decreases l.len() - n
{
    if n < l.len() {
        lemma_sizes(l, n + 1);
        assert(l.take(n + 1).drop_last() =~= l.take(n));
    } else { assert(l.take(n) =~= l); }
    if n > 0 { assert(l.take(n).drop_last() =~= l.take(n - 1)); }
}
//@fn src/funcs/lists.rs len
//@spec
    requires sizes(args@) <= usize::MAX,
    ensures okv(r) == Some(TData::UInt(sizes(args@) as usize)),
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(), sizes(args@) <= usize::MAX,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        res == sizes(args@.take(it.index())),
//@at loop 0 start
    proof { assert(*a == args@[it.index()]); lemma_sizes(args@, it.index() + 1); lemma_sizes(args@, it.index()); }
//@at tail
    assert(args@.take(args@.len() as int) =~= args@);
//@end
/// the part of a value from a to b (to its end without one): members of a list, bytes of a text
pub open spec fn slice_rel(d: TData, a: int, e: Option<int>, r: Option<TData>) -> bool {
    match d {
        TData::List(l) => {
            let b = match e { Some(x) => x, None => l@.len() as int };
            if a <= b <= l@.len() { r matches Some(TData::List(v)) && same_items(v@, l@.subrange(a, b)) } else { r is None }
        },
        TData::String(s) => match r {
            Some(TData::String(t)) => match e { Some(x) => str_part(s@, a, x, Some(t@)), None => str_from(s@, a, Some(t@)) },
            Some(_) => false,
            None => match e { Some(x) => str_part(s@, a, x, None), None => str_from(s@, a, None) },
        },
        _ => r is None,
    }
}
//@fn src/funcs/lists.rs slice
//@spec
    ensures
        args.len() < 2 ==> r is Err,
        args.len() >= 2 ==> match idx_of(args@[1]@) {
            None => r is Err,
            Some(a) => if args.len() == 2 { slice_rel(args@[0]@, a as int, None, okv(r)) } else {
                match idx_of(args@[2]@) { None => r is Err, Some(e) => slice_rel(args@[0]@, a as int, Some(e as int), okv(r)) } },
        },
//@closure 0
|{c0}: &TCow<'a>| -> (q: Option<usize>) ensures q == idx_of({c0}@)
//@closure 1
|{c0}: &TData| -> (q: TData) ensures q == *{c0}
//@end
//@fn src/funcs/lists.rs index_of
//@spec
    ensures
        args.len() < 2 ==> r is Err,
        args.len() >= 2 ==> r is Ok && match is_list(args@[1]@) {
            Some(l) => match okv(r) {
                Some(TData::UInt(k)) => k < l.len() && td_eq(l[k as int], args@[0]@) && forall|i: int| 0 <= i < k ==> !td_eq(#[trigger] l[i], args@[0]@),
                Some(TData::Null) => forall|i: int| 0 <= i < l.len() ==> !td_eq(#[trigger] l[i], args@[0]@),
                _ => false,
            },
            None => okv(r) == Some(TData::Null),
        },
//@loop 0 iter it
    invariant
        it.seq().len() == l@.len(), vx_n0 == it.index(), *needle == args@[0]@,
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        forall|i: int| 0 <= i < it.index() ==> !td_eq(#[trigger] l@[i], args@[0]@),
        args.len() >= 2, is_list(args@[1]@) == Some(l@),
//@at loop 0 start
    assert(*v == l@[it.index()]);
//@end
//@fn src/funcs/lists.rs total_cmp
//@spec
    ensures r == tot(*a, *b),
//@closure 0
|{c0}: &TData| -> (q: bool) ensures q == nan_of(*{c0})
//@closure 1
|{c0}: f64| -> (q: bool) ensures q == (fcls({c0}) is Nan)
//@closure 2
|| -> (q: Ordering) ensures q == bool_ord(nan_of(*a), nan_of(*b))
//@end
//@fn src/funcs/lists.rs o_flip
//@spec
    ensures r == if b { ord_rev(o) } else { o },
//@end
// ---- the orders are total preorders
pub proof fn lemma_str_rev(a: Seq<char>, b: Seq<char>)
    ensures str_ord(b, a) == ord_rev(str_ord(a, b)),
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 { lemma_str_rev(a.skip(1), b.skip(1)); }
}
pub proof fn lemma_str_refl(a: Seq<char>)
    ensures str_ord(a, a) == Ordering::Equal,
    decreases a.len()
{
    if a.len() > 0 { lemma_str_refl(a.skip(1)); }
}
pub proof fn lemma_str_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires str_ord(a, b) != Ordering::Greater, str_ord(b, c) != Ordering::Greater,
    ensures str_ord(a, c) != Ordering::Greater, str_ord(a, c) == Ordering::Equal ==> str_ord(a, b) == Ordering::Equal && str_ord(b, c) == Ordering::Equal,
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_str_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}
pub proof fn lemma_tot_rev(a: TData, b: TData)
    ensures tot(b, a) == ord_rev(tot(a, b)), tot(a, a) == Ordering::Equal,
{
    match (a, b) { (TData::String(x), TData::String(y)) => { lemma_str_rev(x@, y@); }, _ => {} }
    match a { TData::String(x) => { lemma_str_refl(x@); }, _ => {} }
}
pub proof fn lemma_tot_trans(a: TData, b: TData, c: TData)
    requires tot(a, b) != Ordering::Greater, tot(b, c) != Ordering::Greater,
    ensures tot(a, c) != Ordering::Greater, tot(a, c) == Ordering::Equal ==> tot(a, b) == Ordering::Equal && tot(b, c) == Ordering::Equal,
{
    match (a, b, c) { (TData::String(x), TData::String(y), TData::String(z)) => { lemma_str_trans(x@, y@, z@); }, _ => {} }
}
pub proof fn lemma_comp_rev(k: Comparator, a: TData, b: TData)
    ensures comp_ord(k, b, a) == ord_rev(comp_ord(k, a, b)), comp_ord(k, a, a) == Ordering::Equal,
{
    lemma_tot_rev(a, b);
    match (td_look(a, k.v@), td_look(b, k.v@)) { (Some(x), Some(y)) => { lemma_tot_rev(x, y); }, _ => {} }
    match td_look(a, k.v@) { Some(x) => { lemma_tot_rev(x, x); }, _ => {} }
}
pub open spec fn up_ord(k: Comparator, a: TData, b: TData) -> Ordering { comp_ord(Comparator { down: false, v: k.v }, a, b) }
pub proof fn lemma_up_trans(k: Comparator, a: TData, b: TData, c: TData)
    requires up_ord(k, a, b) != Ordering::Greater, up_ord(k, b, c) != Ordering::Greater,
    ensures up_ord(k, a, c) != Ordering::Greater, up_ord(k, a, c) == Ordering::Equal ==> up_ord(k, a, b) == Ordering::Equal && up_ord(k, b, c) == Ordering::Equal,
{
    match (td_look(a, k.v@), td_look(b, k.v@), td_look(c, k.v@)) {
        (Some(x), Some(y), Some(z)) => { lemma_tot_trans(x, y, z); },
        (None, None, None) => { lemma_tot_trans(a, b, c); },
        _ => {},
    }
}
pub proof fn lemma_comp_trans(k: Comparator, a: TData, b: TData, c: TData)
    requires comp_ord(k, a, b) != Ordering::Greater, comp_ord(k, b, c) != Ordering::Greater,
    ensures comp_ord(k, a, c) != Ordering::Greater, comp_ord(k, a, c) == Ordering::Equal ==> comp_ord(k, a, b) == Ordering::Equal && comp_ord(k, b, c) == Ordering::Equal,
{
    let u = Comparator { down: false, v: k.v };
    lemma_comp_rev(u, a, b); lemma_comp_rev(u, b, c); lemma_comp_rev(u, a, c);
    if k.down { lemma_up_trans(k, c, b, a); } else { lemma_up_trans(k, a, b, c); }
}
pub broadcast proof fn lemma_comps_rev(cs: Seq<Comparator>, a: TData, b: TData)
    ensures #[trigger] comps_ord(cs, b, a) == ord_rev(comps_ord(cs, a, b)), comps_ord(cs, a, a) == Ordering::Equal,
    decreases cs.len()
{
    if cs.len() > 0 { lemma_comp_rev(cs[0], a, b); lemma_comps_rev(cs.skip(1), a, b); }
}
pub broadcast proof fn lemma_comps_trans(cs: Seq<Comparator>, a: TData, b: TData, c: TData)
    requires #[trigger] comps_ord(cs, a, b) != Ordering::Greater, #[trigger] comps_ord(cs, b, c) != Ordering::Greater,
    ensures comps_ord(cs, a, c) != Ordering::Greater, comps_ord(cs, a, c) == Ordering::Equal ==> comps_ord(cs, a, b) == Ordering::Equal && comps_ord(cs, b, c) == Ordering::Equal,
    decreases cs.len()
{
    if cs.len() > 0 {
        lemma_comp_trans(cs[0], a, b, c);
        if comps_ord(cs.skip(1), a, b) != Ordering::Greater && comps_ord(cs.skip(1), b, c) != Ordering::Greater { lemma_comps_trans(cs.skip(1), a, b, c); }
        lemma_comp_rev(cs[0], a, b); lemma_comp_rev(cs[0], b, c); lemma_comp_rev(cs[0], a, c);
        if comp_ord(cs[0], a, c) == Ordering::Equal {
            assert(comp_ord(cs[0], a, b) == Ordering::Equal && comp_ord(cs[0], b, c) == Ordering::Equal);
        }
    }
}
impl Comparator {
//@fn src/funcs/lists.rs Comparator::compare
//@spec
    ensures r == comp_ord(*self, *a, *b),
//@end
}
//@fn src/funcs/lists.rs compare
//@spec
    ensures r == comps_ord(comps@, *a, *b),
//@loop 0 iter it
    invariant
        it.seq().len() == comps.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == comps@[i],
        comps_ord(comps@, *a, *b) == comps_ord(comps@.skip(it.index()), *a, *b),
//@at loop 0 before
    assert(comps@.skip(0) =~= comps@);
//@at loop 0 start
    assert(*c == comps@[it.index()] && comps@.skip(it.index()).skip(1) =~= comps@.skip(it.index() + 1));
//@end
/// the criterion a text spells, if it spells one (the grammar is gobble's)
pub uninterp spec fn crit(s: Seq<char>) -> Option<Comparator>;
pub open spec fn crit_of(d: TData) -> Option<Comparator> { match d { TData::String(s) => crit(s@), _ => None } }
pub open spec fn crits<'a>(l: Seq<TCow<'a>>) -> Option<Seq<Comparator>> {
    if forall|i: int| 0 <= i < l.len() ==> crit_of((#[trigger] l[i])@) is Some { Some(Seq::new(l.len(), |i: int| crit_of(l[i]@)->0)) } else { None }
}
pub struct Compare;
impl Compare {
    #[verifier::external_body]
    pub fn parse_s(&self, s: &str) -> (r: Result<Comparator, ParseErr>)
        ensures r is Ok <==> crit(s@) is Some, r matches Ok(c) ==> Some(c) == crit(s@),
    { unimplemented!() }
}
//@fn src/funcs/lists.rs build_comparator
//@spec
    ensures r is Ok <==> crits(args@) is Some, r matches Ok(v) ==> crits(args@) == Some(v@),
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(), comps@.len() == it.index(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        forall|i: int| 0 <= i < comps@.len() ==> crit_of((#[trigger] args@[i])@) == Some(comps@[i]),
//@at loop 0 start
    assert(*x == args@[it.index()]);
//@at tail
    proof { assert forall|i: int| 0 <= i < args@.len() implies crit_of((#[trigger] args@[i])@) is Some by {} assert(crits(args@)->0 =~= comps@); }
//@end
pub type Ord2 = spec_fn(TData, TData) -> Ordering;
pub open spec fn tot_fn() -> Ord2 { |a: TData, b: TData| tot(a, b) }
pub open spec fn comps_fn(cs: Seq<Comparator>) -> Ord2 { |a: TData, b: TData| comps_ord(cs, a, b) }
/// b is a reordered by p into non-decreasing order, equal elements in their old order
pub open spec fn stable_ord(ord: Ord2, a: Seq<TData>, b: Seq<TData>, p: Seq<int>) -> bool {
    &&& is_perm(p, a.len())
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> in_order(ord(#[trigger] b[i], #[trigger] b[j]), p[i], p[j])
}
pub open spec fn in_order(o: Ordering, x: int, y: int) -> bool { o == Ordering::Less || o == Ordering::Equal && x < y }
pub open spec fn sorted_of(ord: Ord2, a: Seq<TData>, b: Seq<TData>) -> bool {
    exists|p: Seq<int>| #[trigger] is_perm(p, a.len()) && stable_ord(ord, a, b, p)
}
pub open spec fn follows<F: FnMut(&TData, &TData) -> Ordering>(f: F, ord: Ord2) -> bool {
    forall|x: &TData, y: &TData, o: Ordering| #[trigger] f.ensures((x, y), o) ==> o == ord(*x, *y)
}
pub broadcast proof fn lemma_stable<F: FnMut(&TData, &TData) -> Ordering>(f: F, ord: Ord2, a: Seq<TData>, b: Seq<TData>, p: Seq<int>)
    requires #[trigger] stable_by(f, a, b, p), follows(f, ord),
    ensures #[trigger] stable_ord(ord, a, b, p),
{
    assert forall|i: int, j: int| 0 <= i < j < a.len() implies in_order(ord(#[trigger] b[i], #[trigger] b[j]), p[i], p[j]) by {
        assert(cmp_le(f, b[i], b[j], p[i] < p[j]));
        assert(p[i] != p[j]);
    }
}
pub open spec fn members(d: TData) -> Seq<TData> { match d { TData::List(l) => l@, _ => Seq::empty() } }
/// the members of the lists among the arguments
pub open spec fn flat<'a>(l: Seq<TCow<'a>>) -> Seq<TData> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + members(l.last()@) }
}
pub proof fn lemma_flat<'a>(l: Seq<TCow<'a>>, n: int)
    requires 0 <= n < l.len(),
    ensures flat(l.take(n + 1)) == flat(l.take(n)) + members(l[n]@),
{
    assert(l.take(n + 1).drop_last() =~= l.take(n));
}
proof fn lemma_total_cmp()
    ensures cmp_total(total_cmp), follows(total_cmp, tot_fn()),
{
    assert forall|a: &TData, b: &TData, o: Ordering, q: Ordering| #[trigger] total_cmp.ensures((a, b), o) && #[trigger] total_cmp.ensures((b, a), q) implies q == ord_rev(o) by { lemma_tot_rev(*a, *b); }
    assert forall|a: &TData, b: &TData, c: &TData, o: Ordering, q: Ordering, u: Ordering|
        #[trigger] total_cmp.ensures((a, b), o) && #[trigger] total_cmp.ensures((b, c), q) && #[trigger] total_cmp.ensures((a, c), u)
        && o != Ordering::Greater && q != Ordering::Greater implies u != Ordering::Greater by { lemma_tot_trans(*a, *b, *c); }
}
//@fn src/funcs/lists.rs sort
//@spec
    ensures okv(r) matches Some(TData::List(v)) && sorted_of(tot_fn(), flat(args@), v@),
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        res@ == flat(args@.take(it.index())),
//@loop 1 iter jt
    invariant
        jt.seq().len() == l@.len(),
        forall|i: int| 0 <= i < jt.seq().len() ==> *#[trigger] jt.seq()[i] == l@[i],
        res@ == pre + l@.take(jt.index()),
//@at loop 0 start
    proof { assert(*a == args@[it.index()]); lemma_flat(args@, it.index()); }
    let ghost pre = res@;
//@at loop 1 before
    assert(pre + l@.take(0) =~= pre);
//@at loop 1 start
    assert(*i == l@[jt.index()] && l@.take(jt.index() + 1) =~= l@.take(jt.index()).push(*i));
//@at loop 1 after
    assert(l@.take(l@.len() as int) =~= l@);
//@at loop 0 after
    proof { lemma_total_cmp(); assert(args@.take(args@.len() as int) =~= args@); }
    let ghost before = res@;
//@at tail
    assert(sorted_of(tot_fn(), before, res@)) by {
        let p = choose|p: Seq<int>| #[trigger] stable_by(total_cmp, before, res@, p);
        lemma_stable(total_cmp, tot_fn(), before, res@, p);
        assert(is_perm(p, before.len()));
    }
//@end
pub open spec fn tail_of<'a>(l: Seq<TCow<'a>>, n: int) -> Seq<TCow<'a>> { l.subrange(n, l.len() as int) }
//@fn src/funcs/lists.rs sort_on
//@spec
    ensures
        args.len() < 2 ==> r is Err,
        args.len() >= 2 ==> match (is_list(args@[0]@), crits(tail_of(args@, 1))) {
            (Some(l), Some(cs)) => okv(r) matches Some(TData::List(v)) && sorted_of(comps_fn(cs), l, v@),
            _ => r is Err,
        },
//@closure 0
|{c0}: &TData, {c1}: &TData| -> (q: Ordering) ensures q == comps_ord(comps@, *{c0}, *{c1})
//@at start
    broadcast use {lemma_comps_rev, lemma_comps_trans, lemma_stable};
//@end
pub open spec fn sorted_by(ord: Ord2, l: Seq<TData>) -> bool {
    forall|i: int, j: int| 0 <= i < j < l.len() ==> ord(#[trigger] l[i], #[trigger] l[j]) != Ordering::Greater
}
/// a search of l for an element that every criterion calls equal to x
pub open spec fn search_rel(ord: Ord2, l: Seq<TData>, x: TData, r: Option<int>) -> bool {
    match r {
        Some(k) => 0 <= k < l.len() && ord(l[k], x) == Ordering::Equal,
        None => sorted_by(ord, l) ==> forall|i: int| 0 <= i < l.len() ==> ord(#[trigger] l[i], x) != Ordering::Equal,
    }
}
pub open spec fn mono2(o: Ordering, q: Ordering) -> bool { (o == Ordering::Greater ==> q == Ordering::Greater) && (q == Ordering::Less ==> o == Ordering::Less) }
pub proof fn lemma_probe(cs: Seq<Comparator>, l: Seq<TData>, x: TData)
    requires sorted_by(comps_fn(cs), l),
    ensures forall|i: int, j: int| 0 <= i < j < l.len() ==> mono2(comps_ord(cs, #[trigger] l[i], x), comps_ord(cs, #[trigger] l[j], x)),
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies mono2(comps_ord(cs, #[trigger] l[i], x), comps_ord(cs, #[trigger] l[j], x)) by {
        assert(comps_fn(cs)(l[i], l[j]) != Ordering::Greater);
        let (a, b) = (l[i], l[j]);
        lemma_comps_rev(cs, a, x); lemma_comps_rev(cs, b, x); lemma_comps_rev(cs, a, b);
        if comps_ord(cs, b, x) != Ordering::Greater { lemma_comps_trans(cs, a, b, x); }
    }
}
//@fn src/funcs/lists.rs bin_search
//@spec
    ensures
        args.len() < 3 ==> r is Err,
        args.len() >= 3 ==> match (is_list(args@[0]@), crits(tail_of(args@, 2))) {
            (Some(l), Some(cs)) => match okv(r) {
                Some(TData::UInt(k)) => search_rel(comps_fn(cs), l, args@[1]@, Some(k as int)),
                Some(TData::Null) => search_rel(comps_fn(cs), l, args@[1]@, None),
                _ => false,
            },
            _ => r is Err,
        },
//@closure 0
|{c0}: &TData| -> (q: Ordering) ensures q == comps_ord(comps@, *{c0}, args@[1]@)
//@closure 1
|{c0}: usize| -> (q: TCow<'a>) ensures q@ == TData::UInt({c0})
//@at start
    hide(comps_ord);
    proof { if args.len() >= 3 { match (is_list(args@[0]@), crits(tail_of(args@, 2))) {
        (Some(l), Some(cs)) => { if sorted_by(comps_fn(cs), l) { lemma_probe(cs, l, args@[1]@); } },
        _ => {},
    } } }
//@end
//@fn src/funcs/lists.rs bin_get
//@spec
    ensures
        args.len() < 3 ==> r is Err,
        args.len() >= 3 ==> match (is_list(args@[0]@), crits(tail_of(args@, 2))) {
            (Some(l), Some(cs)) => match okv(r) {
                Some(d) => (exists|k: int| 0 <= k < l.len() && #[trigger] l[k] == d && search_rel(comps_fn(cs), l, args@[1]@, Some(k)))
                    || d is Null && search_rel(comps_fn(cs), l, args@[1]@, None),
                None => false,
            },
            _ => r is Err,
        },
//@closure 0
|{c0}: &TData| -> (q: Ordering) ensures q == comps_ord(comps@, *{c0}, args@[1]@)
//@at start
    hide(comps_ord);
    proof { if args.len() >= 3 { match (is_list(args@[0]@), crits(tail_of(args@, 2))) {
        (Some(l), Some(cs)) => { if sorted_by(comps_fn(cs), l) { lemma_probe(cs, l, args@[1]@); } },
        _ => {},
    } } }
//@end
pub broadcast proof fn lemma_no_char(s: Seq<char>, a: int, t: Seq<char>)
    requires #[trigger] str_from(s, a, Some(t)), t.len() == 0,
    ensures forall|p: Seq<char>, q: Seq<char>| s == #[trigger] (p + q) && q.len() > 0 ==> bytes_of(p).len() != a,
{
    let p0 = choose|p: Seq<char>| s == #[trigger] (p + t) && bytes_of(p).len() == a;
    assert(p0 + t =~= p0);
    assert forall|p: Seq<char>, q: Seq<char>| s == #[trigger] (p + q) && q.len() > 0 implies bytes_of(p).len() != a by {
        lemma_bytes_cat(p, q); lemma_bytes_pos(q);
    }
}
/// the member at an index or key
pub open spec fn get_rel(d: TData, k: TData, r: Option<TData>) -> bool {
    match (d, k) {
        (TData::List(l), TData::UInt(_)) | (TData::List(l), TData::Int(_)) =>
            r == Some(if 0 <= int_of(k)->0 < l@.len() { l@[int_of(k)->0] } else { TData::Null }),
        (TData::Map(m), TData::String(s)) => r == Some(if m@.contains_key(s) { m@[s] } else { TData::Null }),
        (TData::String(s), TData::UInt(_)) | (TData::String(s), TData::Int(_)) => match r {
            Some(v) => v matches TData::String(t) && exists|p: Seq<char>, q: Seq<char>| s@ == #[trigger] (p + q) && bytes_of(p).len() == int_of(k)->0 && q.len() > 0 && t@.len() == 1 && t@[0] == q[0],
            None => forall|p: Seq<char>, q: Seq<char>| s@ == #[trigger] (p + q) && q.len() > 0 ==> bytes_of(p).len() != int_of(k)->0,
        },
        _ => r is None,
    }
}
//@fn src/funcs/lists.rs get
//@spec
    ensures
        args.len() != 2 ==> r is Err,
        args.len() == 2 ==> get_rel(args@[0]@, args@[1]@, okv(r)),
//@closure 0
|{c0}: &TData| -> (q: TCow<'a>) ensures q@ == *{c0}
//@closure 1
|{c0}: &str| -> (q: Option<char>) ensures q == if {c0}@.len() > 0 { Some({c0}@[0]) } else { None }
//@at start
    broadcast use {lemma_neg_cast, lemma_no_char};
//@closure 2
|{c0}: &TData| -> (q: TCow<'a>) ensures q@ == *{c0}
//@end
pub open spec fn group_size(d: TData) -> int { if idx_of(d) == Some(0usize) { 1 } else { idx_of(d)->0 as int } }
pub open spec fn group_at(l: Seq<TData>, g: int, k: int) -> Seq<TData> {
    l.subrange(k * g, if (k + 1) * g <= l.len() { (k + 1) * g } else { l.len() as int })
}
/// v holds l in consecutive runs of g, the last one possibly shorter
pub open spec fn grouped(l: Seq<TData>, g: int, v: Seq<TData>) -> bool {
    &&& if l.len() == 0 { v.len() == 0 } else { v.len() == (l.len() - 1) / g + 1 }
    &&& forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k] matches TData::List(m) && m@ =~= group_at(l, g, k))
}
pub proof fn lemma_group(n: int, g: int, k: int)
    requires n > 0, g > 0, 0 <= k <= (n - 1) / g,
    ensures 0 <= k * g < n, (k + 1) * g <= n - 1 + g, (k + 1) * g == k * g + g, k == 0 ==> (k + 1) * g == g,
{
    assert(k * g <= (n - 1) / g * g) by (nonlinear_arith) requires 0 <= k <= (n - 1) / g, g > 0;
    assert((n - 1) / g * g <= n - 1) by (nonlinear_arith) requires n > 0, g > 0;
    assert((k + 1) * g == k * g + g) by (nonlinear_arith);
    assert(k * g >= 0) by (nonlinear_arith) requires k >= 0, g > 0;
}
pub proof fn lemma_group_fits(n: int, g: int, k: int)
    requires 0 < n <= isize::MAX, 0 < g <= usize::MAX, 0 <= k <= (n - 1) / g,
    ensures (k + 1) * g <= usize::MAX, (n - 1) / g <= n - 1,
{
    lemma_group(n, g, k);
    assert((n - 1) / g <= n - 1) by (nonlinear_arith) requires n > 0, g > 0;
    if g > n - 1 { assert((n - 1) / g == 0) by (nonlinear_arith) requires 0 <= n - 1 < g; }
}
//@fn src/funcs/lists.rs groups
//@spec
    ensures
        args.len() < 2 ==> r is Err,
        args.len() >= 2 ==> match (idx_of(args@[0]@), is_list(args@[1]@)) {
            (Some(_), Some(l)) => okv(r) matches Some(TData::List(v)) && grouped(l, group_size(args@[0]@), v@),
            _ => r is Err,
        },
//@loop 0 iter it
    invariant
        l@.len() > 0, gsize > 0, res@.len() == it.index(), it.seq().len() == (l@.len() - 1) / (gsize as int) + 1,
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == i,
        forall|k: int| 0 <= k < res@.len() ==> (#[trigger] res@[k] matches TData::List(m) && m@ =~= group_at(l@, gsize as int, k)),
//@at loop 0 start
    proof { assert(g == it.index()); lemma_group(l@.len() as int, gsize as int, g as int); lemma_group_fits(l@.len() as int, gsize as int, g as int); }
//@at loop 0 before
    proof { lemma_group_fits(l@.len() as int, gsize as int, 0); }
//@end
pub open spec fn parts_of(d: TData) -> Seq<TData> { match d { TData::List(l) => l@, _ => seq![d] } }
pub open spec fn joined<'a>(l: Seq<TCow<'a>>) -> Seq<TData> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { joined(l.drop_last()) + parts_of(l.last()@) }
}
//@fn src/funcs/lists.rs append
//@spec
    ensures res_list(r, joined(args@)),
//@loop 0 iter it
    invariant
        it.seq().len() == args.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        res@ == joined(args@.take(it.index())),
//@closure 0
|{c0}: &TData| -> (q: TData) ensures q == *{c0}
//@at loop 0 start
    proof { assert(*a == args@[it.index()]); assert(args@.take(it.index() + 1).drop_last() =~= args@.take(it.index())); }
    let ghost pre = res@;
//@at loop 0 end
    assert(res@ =~= pre + parts_of(a@));
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@end
/// whether filter keeps d: the expression, on d alone and with the default functions, is truthy
pub open spec fn keeps(e: Expr, d: TData, keep: bool) -> bool {
    exists|o: Option<TData>, fm: BasicFuncs| #[trigger] expr_rel(e, fresh(dlooks(seq![d]), Seq::empty()), fm, NoTemplates, NoTemplates, o)
        && fm_default(fm) && keep == (o matches Some(x) && truth(x) == Some(true))
}
pub open spec fn pick(e: Expr, d: TData, o: Option<TData>) -> bool {
    match o { Some(x) => x == d && keeps(e, d, true), None => keeps(e, d, false) }
}
/// the members of l that o keeps, in order
pub open spec fn filtered(e: Expr, l: Seq<TData>, v: Seq<TData>) -> bool {
    exists|o: Seq<Option<TData>>| #[trigger] somes(o) == v && o.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> pick(e, l[i], #[trigger] o[i])
}
//@fn src/funcs/lists.rs filter
//@spec
    ensures
        args.len() < 2 ==> r is Err,
        args.len() >= 2 ==> match (exp_of(crate::disp::disp(args@[1]@)), is_list(args@[0]@)) {
            (Some(e), Some(l)) => okv(r) matches Some(TData::List(v)) && filtered(e, l, v@),
            _ => r is Err,
        },
//@closure 1
|{c0}: &TData| -> (q: Option<TData>) ensures pick(pp, *{c0}, q)
//@subst let params: [&dyn TParam; 1] = [v]; => let params = crate::tparam::one_param(v);
//@subst &params[..] => params.as_slice()
//@at start
    broadcast use crate::tparam::lemma_one_param;
    broadcast use crate::caps::lemma_held;
//@at closure 1 start
    assert(fm_default(fm)); // only C02
    assert(fresh(dlooks(seq![*v]), Seq::empty()).maps.len() == 1);
//@end
} // verus!
}
