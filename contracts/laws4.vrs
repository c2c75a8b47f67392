// Laws of the text functions: what their contracts mean for a user.
pub mod laws4 {
use vstd::prelude::*;
use crate::*;
use crate::txt::*;
use crate::sys::*;
use crate::sys::path::*;
use crate::tparam::*;
use crate::funcs::path::*;
use crate::funcs::strings::*;
use crate::tdata::*;
verus!{
// ---- C15
proof fn refs()
    ensures
        forall|p: Seq<char>, c: char| #[trigger] is_ref(p, c) ==> 2 <= p.len() && p[0] == '&' && p.last() == ';'
            && (forall|i: int| 0 <= i < p.len() - 1 ==> p[i] != ';') && (forall|i: int| 1 <= i < p.len() ==> !special(#[trigger] p[i])),
        forall|p: Seq<char>, c: char, d: char| is_ref(p, c) && is_ref(p, d) ==> c == d,
{
    reveal_strlit("&amp;"); reveal_strlit("&#38;"); reveal_strlit("&lt;"); reveal_strlit("&#60;"); reveal_strlit("&gt;"); reveal_strlit("&#62;");
    reveal_strlit("&quot;"); reveal_strlit("&#34;"); reveal_strlit("&apos;"); reveal_strlit("&#39;");
    assert forall|p: Seq<char>, c: char, d: char| is_ref(p, c) && is_ref(p, d) implies c == d by {
        let _ = (p[1], p[2], p[3], p[4]);
        let a = "&amp;"@; let a2 = "&#38;"@; let l = "&lt;"@; let l2 = "&#60;"@; let g = "&gt;"@; let g2 = "&#62;"@; let q = "&quot;"@; let q2 = "&#34;"@; let s = "&apos;"@; let s2 = "&#39;"@;
        let _ = (a[1], a2[2], a2[3], l[1], l2[2], l2[3], g[1], g2[2], g2[3], q[1], q2[2], q2[3], s[1], s2[2], s2[3], a[2], s[2]);
    }
}
proof fn lemma_first_part(p: Seq<char>, c: char, q: Seq<char>, p2: Seq<char>, c2: char, q2: Seq<char>)
    requires p + q == p2 + q2, stands(p, c), stands(p2, c2),
    ensures p == p2, c == c2, q == q2,
{
    refs();
    let w = p + q;
    assert(w[0] == p[0] && w[0] == p2[0]);
    assert forall|i: int| 0 <= i < p.len() implies w[i] == p[i] by {}
    assert forall|i: int| 0 <= i < p2.len() implies w[i] == p2[i] by {}
    if special(c) {
        assert(special(c2));
        if p.len() < p2.len() { assert(p2[p.len() - 1] == p.last()); }
        if p2.len() < p.len() { assert(p[p2.len() - 1] == p2.last()); }
    } else {
        assert(!special(c2));
    }
    assert(p =~= p2);
    assert(q =~= w.skip(p.len() as int));
    assert(q2 =~= w.skip(p.len() as int));
}
/// the escaped text determines the text: decoding the references gives it back
proof fn law_c15_decode(r: Seq<char>, s: Seq<char>, t: Seq<char>)
    requires escapes(r, s), escapes(r, t),
    ensures s == t,
    decreases s.len()
{
    refs();
    if s.len() == 0 {
        if t.len() > 0 {
            let (p, q) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, t[0]) && escapes(q, t.skip(1));
            assert(p.len() > 0);
        }
        assert(s =~= t);
    } else {
        let (p, q) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, s[0]) && escapes(q, s.skip(1));
        assert(p.len() > 0);
        assert(t.len() > 0);
        let (p2, q2) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, t[0]) && escapes(q, t.skip(1));
        lemma_first_part(p, s[0], q, p2, t[0], q2);
        law_c15_decode(q, s.skip(1), t.skip(1));
        assert(s =~= seq![s[0]] + s.skip(1));
        assert(t =~= seq![t[0]] + t.skip(1));
    }
}
/// no markup character is left raw, and each & opens a complete reference
proof fn law_c15_no_markup(r: Seq<char>, s: Seq<char>)
    requires escapes(r, s),
    ensures forall|i: int| 0 <= i < r.len() && special(#[trigger] r[i]) ==> r[i] == '&' && exists|p: Seq<char>, c: char| #[trigger] is_ref(p, c) && i + p.len() <= r.len() && r.subrange(i, i + p.len()) == p,
    decreases s.len()
{
    refs();
    if s.len() > 0 {
        let (p, q) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, s[0]) && escapes(q, s.skip(1));
        law_c15_no_markup(q, s.skip(1));
        assert forall|i: int| 0 <= i < r.len() && special(#[trigger] r[i]) implies r[i] == '&' && exists|p: Seq<char>, c: char| #[trigger] is_ref(p, c) && i + p.len() <= r.len() && r.subrange(i, i + p.len()) == p by {
            if i < p.len() {
                assert(r[i] == p[i]);
                assert(r.subrange(i, i + p.len()) =~= p);
                assert(is_ref(p, s[0]));
            } else {
                let k = i - p.len();
                assert(r[i] == q[k]);
                let (p2, c2) = choose|p2: Seq<char>, c2: char| #[trigger] is_ref(p2, c2) && k + p2.len() <= q.len() && q.subrange(k, k + p2.len()) == p2;
                assert(r.subrange(i, i + p2.len()) =~= p2);
            }
        }
    }
}
/// a text without the five characters is left alone
proof fn law_c15_plain(r: Seq<char>, s: Seq<char>)
    requires escapes(r, s), forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i]),
    ensures r == s,
    decreases s.len()
{
    if s.len() > 0 {
        let (p, q) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, s[0]) && escapes(q, s.skip(1));
        assert(!special(s[0]));
        law_c15_plain(q, s.skip(1));
        assert(r =~= s);
    } else { assert(r =~= s); }
}
// ---- C17
/// every character is in exactly one line or is a newline that ends one; so every newline ends a line
proof fn law_c17_newlines(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, c: int)
    requires lines_of(s, l, at, s.len() as int), 0 <= c < s.len(), s[c] == '\n',
    ensures exists|i: int| 0 <= i < at.len() && (#[trigger] at[i]).1 == c,
{
    lemma_covers(s, l, at, s.len() as int, c, at.len() as int);
}
proof fn lemma_covers(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, n: int, c: int, k: int)
    requires lines_of(s, l, at, n), 0 <= c < s.len(), s[c] == '\n', 0 <= k <= at.len(), c < if k == 0 { 0 } else { next_at(s, at[k - 1].1) },
    ensures exists|i: int| 0 <= i < at.len() && (#[trigger] at[i]).1 == c,
    decreases k
{
    if k > 0 {
        let x = at[k - 1];
        assert(begins(s, at, k - 1));
        if x.1 == c { } else if c < x.0 { lemma_covers(s, l, at, n, c, k - 1); } else { assert(x.0 <= c < x.1); }
    }
}
/// all the text that is not white space, in order; no line holds a newline, no line is too long
proof fn law_c17_all(s: Seq<char>, w: int, l: Seq<String>)
    requires wrapped(s, w, l),
    ensures ink(run_of(l)) == ink(s), forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]@).contains('\n') && (w >= 1 ==> l[i]@.len() <= w),
{
    let at = choose|at: Seq<(int, int)>| #[trigger] lines_of(s, l, at, s.len() as int) && (w >= 1 ==> forall|i: int| 0 <= i < at.len() ==> (#[trigger] at[i]).1 - at[i].0 <= w);
    lemma_lines_ink(s, l, at, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < l.len() implies !(#[trigger] l[i]@).contains('\n') && (w >= 1 ==> l[i]@.len() <= w) by { assert(at[i].1 - at[i].0 >= l[i]@.len()); }
}
// ---- C19
/// the parts with the splitter between them are the text again, and no part but the pieces of an empty splitter holds it
proof fn law_c19_split(s: Seq<char>, sep: Seq<char>, l: Seq<Seq<char>>)
    requires cuts(s, sep, l),
    ensures joined(l, sep) == s, sep.len() > 0 ==> forall|i: int| 0 <= i < l.len() ==> !occurs(#[trigger] l[i], sep),
    decreases l.len()
{
    if sep.len() == 0 {
        lemma_glued(s, l.skip(1), sep);
        assert(l.skip(1).last() == l.last());
        assert(joined(l, sep) =~= s);
    } else if l.len() == 1 {
    } else {
        let i = choose|i: int| #[trigger] is_first(s, sep, i) && l[0] == s.take(i) && cuts(s.skip(i + sep.len()), sep, l.skip(1));
        law_c19_split(s.skip(i + sep.len()), sep, l.skip(1));
        assert(joined(l, sep) =~= s);
        assert forall|k: int| 0 <= k < l.len() implies !occurs(#[trigger] l[k], sep) by {
            if k == 0 {
                if occurs(l[0], sep) {
                    let j = choose|j: int| at_pos(l[0], sep, j);
                    assert(s.take(i).subrange(j, j + sep.len()) =~= s.subrange(j, j + sep.len()));
                    assert(at_pos(s, sep, j));
                }
            } else { assert(l[k] == l.skip(1)[k - 1]); }
        }
    }
}
proof fn lemma_glued(s: Seq<char>, l: Seq<Seq<char>>, sep: Seq<char>)
    requires sep.len() == 0, l.len() == s.len() + 1, l.last().len() == 0, forall|i: int| 0 <= i < s.len() ==> #[trigger] l[i] == seq![s[i]],
    ensures joined(l, sep) == s,
    decreases s.len()
{
    if s.len() == 0 { assert(l[0].len() == 0); assert(joined(l, sep) =~= s); } else {
        let l1 = l.skip(1);
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] l1[i] == seq![s.skip(1)[i]] by { assert(l1[i] == l[i + 1]); }
        assert(l1.last() == l.last());
        lemma_glued(s.skip(1), l1, sep);
        assert(joined(l, sep) =~= s);
    }
}
/// replacing what does not occur changes nothing, replacing a text by itself neither
proof fn law_c19_replace(s: Seq<char>, from: Seq<char>, to: Seq<char>, r: Seq<char>)
    requires swapped(s, from, to, r), from == to || (from.len() > 0 && !occurs(s, from)),
    ensures r == s,
{
    let l = choose|l: Seq<Seq<char>>| #[trigger] cuts(s, from, l) && r == joined(l, to);
    if from == to { law_c19_split(s, from, l); } else if l.len() > 1 {
        let i = choose|i: int| #[trigger] is_first(s, from, i) && l[0] == s.take(i) && cuts(s.skip(i + from.len()), from, l.skip(1));
        assert(at_pos(s, from, i));
    }
}
/// replacing none changes nothing
proof fn law_c19_replace_none(s: Seq<char>, from: Seq<char>, to: Seq<char>, r: Seq<char>)
    requires swapped_n(s, from, to, 0, r),
    ensures r == s,
{
    let l = choose|l: Seq<Seq<char>>| #[trigger] cuts(s, from, l) && r == joined_n(l, to, 0, from);
    lemma_joined_none(l, to, from);
    law_c19_split(s, from, l);
}
proof fn lemma_joined_none(l: Seq<Seq<char>>, a: Seq<char>, b: Seq<char>)
    ensures joined_n(l, a, 0, b) == joined(l, b),
    decreases l.len()
{
    if l.len() > 1 { lemma_joined_none(l.skip(1), a, b); }
}
/// cat of two lists of arguments is the two cats
proof fn law_c19_cat<'a>(a: Seq<TCow<'a>>, b: Seq<TCow<'a>>)
    ensures cat_of(a + b) == cat_of(a) + cat_of(b),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(cat_of(a) + cat_of(b) =~= cat_of(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        law_c19_cat(a, b.drop_last());
        assert(cat_of(a) + cat_of(b) =~= cat_of(a + b));
    }
}
// ---- C14: join_with of one separator is undone by splitting at it
// ---- C23
/// bread_crumbs lists every ancestor once: there are as many as the path has components below the outermost
proof fn law_c23_crumbs(l: Seq<TData>, p: Seq<char>, i: int)
    requires crumbs(l, p), 0 <= i < l.len(),
    ensures
        l.len() - 1 - i <= comps(p).len(),
        comps(l[i]->String_0@) == comps(p).take(comps(p).len() - (l.len() - 1 - i)),
    decreases l.len() - i
{
    if i < l.len() - 1 {
        law_c23_crumbs(l, p, i + 1);
        assert(parent_of(l[i + 1]->String_0@) == Some(l[i]->String_0@));
        let c = comps(l[i + 1]->String_0@);
        axiom_parent(l[i + 1]->String_0@);
        assert(comps(l[i]->String_0@) == c.drop_last());
        assert(c.len() > 0);
        assert(c.drop_last() =~= comps(p).take(comps(p).len() - (l.len() - 1 - i)));
    } else {
        assert(comps(p).take(comps(p).len() as int) =~= comps(p));
    }
}
/// and there is one for every component (the root counts as the outermost)
proof fn law_c23_crumbs_all(l: Seq<TData>, p: Seq<char>)
    requires crumbs(l, p),
    ensures l.len() == if comps(p).len() > 0 && comps(p)[0] is Root { comps(p).len() } else { comps(p).len() + 1 },
{
    law_c23_crumbs(l, p, 0);
    let q = l[0]->String_0@;
    axiom_parent(q);
    let n = comps(p).len() - (l.len() - 1);
    if n > 0 {
        assert(comps(q).last() == comps(p)[n - 1]);
        axiom_comps_wf(p, n - 1);
    } else if comps(p).len() > 0 && comps(p)[0] is Root {
        law_c23_crumbs(l, p, 1);
        assert(comps(l[1]->String_0@).last() == comps(p)[0]);
        axiom_parent(l[1]->String_0@);
        assert(parent_of(l[1]->String_0@) == Some(l[0]->String_0@));
    }
}
/// the parent of a joined plain name is what it was joined to, and the name is its base name
proof fn law_c23_join_parent(p: Seq<char>, n: Seq<char>)
    requires comps(n) == seq![Comp::Name(n)], comps(p).len() > 0,
    ensures
        name_of(path_join(p, n)) == Some(n),
        parent_of(path_join(p, n)) matches Some(q) && comps(q) == comps(p),
{
    axiom_comps_join(p, n);
    let c = comps(path_join(p, n));
    assert(c.last() == Comp::Name(n));
    axiom_parent(path_join(p, n));
    assert(c.drop_last() =~= comps(p));
}
/// with_ext leaves the folder alone and the stem too
proof fn law_c23_with_ext(p: Seq<char>, e: Seq<char>)
    requires name_of(p) is Some, proper(with_e(stem_of(name_of(p)->0), e)),
    ensures comps(ext_set(p, e)).drop_last() == comps(p).drop_last(), name_of(ext_set(p, e)) == Some(with_e(stem_of(name_of(p)->0), e)),
{
    axiom_ext_set(p, e);
    assert(comps(ext_set(p, e)).drop_last() =~= comps(p).drop_last());
}
}
}
