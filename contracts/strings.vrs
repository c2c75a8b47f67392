pub mod strings {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::err_tools::*;
use crate::stubs::anyhow;
use std::ops::Deref;
use std::convert::TryFrom;
use crate::tdata::*;
use crate::tparam::*;
use crate::mspec::*;
use crate::disp::disp;
use crate::txt::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::disp::group_disp, crate::shim::group_fmt, crate::txt::lemma_marks_ink};
/// the display texts of the arguments, one after another
pub open spec fn cat_of<'a>(l: Seq<TCow<'a>>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { cat_of(l.drop_last()) + disp(l.last()@) }
}
/// r is that text value
pub open spec fn res_text<'a>(r: anyhow::Result<TCow<'a>>, t: Seq<char>) -> bool {
    okv(r) matches Some(TData::String(s)) && s@ == t
}
//@fn src/funcs/strings.rs cat
//@spec
    ensures res_text(r, cat_of(l@)),
//@loop 0 iter it
    invariant
        it.seq().len() == l@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        r_str@ == cat_of(l@.take(it.index())),
//@at loop 0 start
    proof { assert(*v == l@[it.index()]); assert(l@.take(it.index() + 1).drop_last() =~= l@.take(it.index())); }
//@at loop 0 after
    assert(l@.take(l@.len() as int) =~= l@);
//@end
// ---- escaping
//@fn src/funcs/strings.rs html_esc
//@subst .chars() => .own_chars()
//@spec
    ensures okv(r) matches Some(TData::String(s)) && escapes(s@, cat_of(args@)),
//@loop 0 iter it
    invariant
        it.seq().len() == args@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        escapes(res@, cat_of(args@.take(it.index()))),
//@loop 1 iter jt
    invariant
        jt.seq() == disp(args@[it.index()]@),
        escapes(res@, cat_of(args@.take(it.index())) + jt.seq().take(jt.index())),
//@at loop 0 start
    proof {
        assert(*a == args@[it.index()]); assert(args@.take(it.index() + 1).drop_last() =~= args@.take(it.index()));
    }
//@at loop 1 start
    proof { lemma_esc_push(res@, cat_of(args@.take(it.index())) + jt.seq().take(jt.index()), c, cat_of(args@.take(it.index())) + jt.seq().take(jt.index() + 1)); }
//@at loop 0 end
    assert(disp(args@[it.index()]@).take(disp(args@[it.index()]@).len() as int) =~= disp(args@[it.index()]@));
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@end
// ---- cutting and replacing
/// the splitter: the second argument where it is a text, else a line end
pub open spec fn split_of<'a>(l: Seq<TCow<'a>>) -> Seq<char> {
    if l.len() > 1 && l[1]@ is String { l[1]@->String_0@ } else { "\n"@ }
}
pub open spec fn texts_of(l: Seq<TData>, t: Seq<Seq<char>>) -> bool {
    l.len() == t.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i] matches TData::String(s) && s@ == t[i])
}
//@fn src/funcs/strings.rs split
//@spec
    ensures if l@.len() > 0 && l@[0]@ is String {
        okv(r) matches Some(TData::List(p)) && exists|t: Seq<Seq<char>>| #[trigger] cuts(l@[0]@->String_0@, split_of(l@), t) && texts_of(p@, t)
    } else { r is Err },
//@subst .split( => .split_text(
//@closure 0
|{c0}: &TCow<'a>| -> (q: Option<&str>) ensures (match q { Some(s) => {c0}@ is String && {c0}@->String_0@ == s@, None => !({c0}@ is String) })
//@closure 1
|{c0}: &str| -> (q: TCow<'a>) ensures (q@ matches TData::List(p) && exists|t: Seq<Seq<char>>| #[trigger] cuts({c0}@, splitter@, t) && texts_of(p@, t))
//@closure 2
|{c0}: &str| -> (q: TData) ensures (q matches TData::String(x) && x@ == {c0}@)
//@at tail
    assert(splitter@ == split_of(l@));
//@end
//@fn src/funcs/strings.rs contains
//@spec
    ensures if args@.len() < 2 { r is Err } else {
        okv(r) == Some(TData::Bool(exists|i: int| 1 <= i < args@.len() && occurs(disp(args@[0]@), disp(#[trigger] args@[i]@))))
    },
//@subst .contains( => .has_text(
//@wrapiter 0 crate::shim::all_of
//@closure 0
|{c0}: &TCow<'a>| -> (q: String) ensures q@ == disp({c0}@)
//@loop 0 iter it
    invariant
        it.seq().len() == args@.len() - 1,
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i]@ == disp(args@[i + 1]@),
        s@ == disp(args@[0]@), args@.len() >= 2,
        forall|i: int| 1 <= i <= it.index() ==> !occurs(s@, disp(#[trigger] args@[i]@)),
//@at loop 0 start
    let ghost k = it.index() + 1;
    assert(sub@ == disp(args@[k]@)); assert(1 <= k < args@.len());
    assert(occurs(s@, sub@) ==> (exists|i: int| 1 <= i < args@.len() && occurs(disp(args@[0]@), disp(#[trigger] args@[i]@))));
//@end
//@fn src/funcs/strings.rs replace
//@spec
    ensures if args@.len() < 3 { r is Err } else {
        okv(r) matches Some(TData::String(s)) && swapped(disp(args@[0]@), disp(args@[1]@), disp(args@[2]@), s@)
    },
//@subst .replace( => .replace_text(
//@end
//@fn src/funcs/strings.rs replace_n
//@spec
    ensures if args@.len() < 3 { r is Err } else {
        okv(r) matches Some(TData::String(s)) && swapped_n(disp(args@[0]@), disp(args@[1]@), disp(args@[2]@), if args@.len() > 3 && idx_of(args@[3]@) is Some { idx_of(args@[3]@)->0 as int } else { 1 }, s@)
    },
//@subst .replacen( => .replace_n_text(
//@closure 0
|{c0}: &TCow<'a>| -> (q: Option<usize>) ensures q == idx_of({c0}@)
//@end
// ---- wrapping
pub open spec fn full(n: usize, w: usize) -> bool { n + 1 >= w }
pub open spec fn wrapped(s: Seq<char>, w: int, l: Seq<String>) -> bool {
    exists|at: Seq<(int, int)>| #[trigger] lines_of(s, l, at, s.len() as int) && (w >= 1 ==> forall|i: int| 0 <= i < at.len() ==> (#[trigger] at[i]).1 - at[i].0 <= w)
}
//@fn src/funcs/strings.rs _word_wrap
//@subst .contains(c) => .has_text(c)
//@subst .char_indices() => .char_places()
//@subst s[index..k] => str_slice(s, index, k)
//@subst s[index..b] => str_slice(s, index, b)
//@subst s[index..] => str_rest(s, index)
//@subst .trim_matches( => .trim_by(
//@subst .replace( => .fill_by(
//@spec
    ensures wrapped(s@, len as int, r@),
//@closure 0
|{c0}: char| -> (q: bool) ensures q == is_blank({c0})
//@at closure 0 start
    proof { lemma_blank_text({c0}); }
//@closure 1
|{c0}: char| -> (q: bool) ensures q == is_blank({c0})
//@at closure 1 start
    proof { lemma_blank_text({c0}); }
//@closure 2
|{c0}: char| -> (q: bool) ensures q == is_blank({c0})
//@at closure 2 start
    proof { lemma_blank_text({c0}); }
//@at start
    let ghost s0 = s@;
    let ghost mut at: Seq<(int, int)> = Seq::empty();
    let ghost mut ii: int = 0;
    let ghost mut j: int = 0;
    let ghost mut fresh: bool = true;
    let ghost mut bi: int = -1;
    proof { lemma_cpos(s@); }
//@while 0 places_
//@loop 0
    invariant
        s@ == s0,
        forall|c: char| #[trigger] is_ws.requires((c,)), forall|c: char, b: bool| #[trigger] is_ws.ensures((c,), b) ==> b == is_blank(c),
        places_.obeys_prophetic_iter_laws(), places_.decrease() is Some,
        0 <= ii <= j <= s0.len(), places_.remaining() == places(s0).skip(j), cpos(s0, s0.len() as int) <= isize::MAX,
        index == cpos(s0, ii),
        lines_of(s0, res@, at, ii),
        len >= 1 ==> forall|i: int| 0 <= i < at.len() ==> (#[trigger] at[i]).1 - at[i].0 <= len,
        len >= 1 ==> j - ii <= len,
        count <= cpos(s0, j), j - ii <= count + 1, fresh ==> j - ii == count, !fresh ==> ii < j, len >= 1 && fresh ==> count < len,
        forall|c: int| ii <= c < j ==> #[trigger] s0[c] != '\n',
        brk is Some ==> ii <= bi < j && brk->0 == cpos(s0, bi) && is_blank(s0[bi]) && (!fresh ==> bi > ii),
    ensures
        j == s0.len(),
    decreases places_.decrease()->0,
//@at loop 0 start
    proof {
        assert(places(s0).skip(j)[0] == places(s0)[j]);
        assert(places(s0).skip(j).skip(1) =~= places(s0).skip(j + 1));
        lemma_cpos(s0);
        lemma_utf8_one(s0[j]);
        // what this step does: a line s0[ii..e] or none
        let sp = c == ' ' || c == '\t';
        let has = brk is Some || sp;
        if sp { bi = j; }
        let push = c == '\n' || full(count, len);
        if push {
            let e = if c == '\n' { j } else if has { bi } else { j };
            assert forall|x: String| x@ == s0.subrange(ii, e) || trimmed(is_ws, s0.subrange(ii, e), x@) implies lines_of(s0, #[trigger] res@.push(x), at.push((ii, e)), next_at(s0, e)) by {
                if x@ != s0.subrange(ii, e) { lemma_ink_trim(is_ws, s0.subrange(ii, e), x@); }
                lemma_line_push(s0, res@, at, ii, x, e);
            }
            at = at.push((ii, e));
            fresh = c == '\n';
            ii = next_at(s0, e);
        }
        j = j + 1;
    }
//@at loop 0 after
    proof {
        let e = s0.len() as int;
        assert(j == e);
        lemma_cpos(s0);
        assert(s0.subrange(ii, e) =~= s0.skip(ii));
        if ii < e {
            assert forall|x: String| trimmed(is_ws, s0.skip(ii), x@) implies lines_of(s0, #[trigger] res@.push(x), at.push((ii, e)), e) by {
                lemma_ink_trim(is_ws, s0.skip(ii), x@);
                lemma_line_push(s0, res@, at, ii, x, e);
            }
            at = at.push((ii, e));
        }
    }
//@at loop 1 before
    proof {
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        lemma_lines_ink(s0, res@, at, s0.len() as int);
        assert(s0.take(s0.len() as int) =~= s0);
    }
//@loop 1 iter it
    invariant
        it.seq().len() == res@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == res@[i],
        s_join@ == run_of(res@.take(it.index())),
//@at loop 1 start
    proof { assert(*s == res@[it.index()]); assert(res@.take(it.index() + 1).drop_last() =~= res@.take(it.index())); }
//@at loop 1 after
    assert(res@.take(res@.len() as int) =~= res@);
//@end
//@fn src/funcs/strings.rs word_wrap
//@spec
    ensures if l@.len() >= 2 && idx_of(l@[1]@) is Some {
        okv(r) matches Some(TData::List(p)) && exists|t: Seq<String>| #[trigger] wrapped(disp(l@[0]@), idx_of(l@[1]@)->0 as int, t) && strs_of(p@, t)
    } else { r is Err },
//@closure 0
|{c0}: String| -> (q: TData) ensures q == TData::String({c0})
//@end
pub open spec fn strs_of(l: Seq<TData>, t: Seq<String>) -> bool { l.len() == t.len() && forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == TData::String(t[i]) }
// ---- characters from numbers
pub assume_specification [char::from_u32] (n: u32) -> (r: Option<char>)
    ensures match r { Some(c) => (n < 0xd800 || 0xe000 <= n < 0x110000) && c as int == n && c == char_at(n as int), None => 0xd800 <= n < 0xe000 || n >= 0x110000 };
/// the character with this code point
pub open spec fn code_point(d: TData) -> Seq<char> {
    match idx_of(d) { Some(n) => if n < 0xd800 || 0xe000 <= n < 0x110000 { seq![char_at(n as int)] } else { Seq::empty() }, None => Seq::empty() }
}
/// the character with code point n
pub uninterp spec fn char_at(n: int) -> char;
pub open spec fn chars_of<'a>(l: Seq<TCow<'a>>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { chars_of(l.drop_last()) + code_point(l.last()@) }
}
//@fn src/funcs/strings.rs string_from_ints
//@spec
    ensures res_text(r, chars_of(args@)),
//@loop 0 iter it
    invariant
        it.seq().len() == args@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == args@[i],
        res@ == chars_of(args@.take(it.index())),
//@at loop 0 start
    proof { assert(*a == args@[it.index()]); assert(args@.take(it.index() + 1).drop_last() =~= args@.take(it.index())); }
//@at loop 0 after
    assert(args@.take(args@.len() as int) =~= args@);
//@closure 0
|{c0}: usize| -> (q: Option<u32>) ensures q == if {c0} <= u32::MAX { Some({c0} as u32) } else { None::<u32> }
//@end
//@fn src/funcs/strings.rs regex
//@spec
    ensures if l@.len() < 2 { r is Err } else { match crate::stubs::regex::rx_of(disp(l@[1]@)) {
        Some(x) => okv(r) == Some(TData::Bool(crate::stubs::regex::rx_match(x, disp(l@[0]@)))),
        None => r is Err,
    } },
//@end
//@fn src/funcs/strings.rs debug
//@spec
    ensures res_text(r, Seq::empty()),
//@end
//@fn src/funcs/strings.rs table
//@spec
    ensures if l@.len() == 0 { r is Err } else { match super::table::rows_of(disp(l@[0]@)) {
        Some(t) => res_text(r, super::table::whole(t, if l@.len() > 1 { disp(l@[1]@) } else { Seq::empty() })),
        None => r is Err,
    } },
//@closure 0
|{c0}: String| -> (q: TCow<'a>) ensures q@ == TData::String({c0})
//@end
/// the HTML of the arguments, one after another
pub open spec fn md_of<'a>(l: Seq<TCow<'a>>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { md_of(l.drop_last()) + crate::stubs::mdown::md_html(disp(l.last()@)) }
}
//@fn src/funcs/strings.rs md
//@spec
    ensures res_text(r, md_of(l@)),
//@loop 0 iter it
    invariant
        it.seq().len() == l@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == l@[i],
        r_str@ == md_of(l@.take(it.index())),
//@at loop 0 start
    proof { assert(*s == l@[it.index()]); assert(l@.take(it.index() + 1).drop_last() =~= l@.take(it.index())); }
//@at loop 0 after
    assert(l@.take(l@.len() as int) =~= l@);
//@end
}
}
