// What it is to escape, cut, join and replace text.
pub mod txt {
use vstd::prelude::*;
use crate::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
/// p is a complete character reference for c
pub open spec fn is_ref(p: Seq<char>, c: char) -> bool {
    ||| c == '&' && (p == "&amp;"@ || p == "&#38;"@)
    ||| c == '<' && (p == "&lt;"@ || p == "&#60;"@)
    ||| c == '>' && (p == "&gt;"@ || p == "&#62;"@)
    ||| c == '"' && (p == "&quot;"@ || p == "&#34;"@)
    ||| c == '\'' && (p == "&apos;"@ || p == "&#39;"@)
}
pub open spec fn special(c: char) -> bool { c == '&' || c == '<' || c == '>' || c == '"' || c == '\'' }
/// p stands for c
pub open spec fn stands(p: Seq<char>, c: char) -> bool { if special(c) { is_ref(p, c) } else { p == seq![c] } }
/// r is s with every character replaced by what stands for it
pub open spec fn escapes(r: Seq<char>, s: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() == 0 { r.len() == 0 } else { exists|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, s[0]) && escapes(q, s.skip(1)) }
}
pub proof fn lemma_esc_cat(r: Seq<char>, s: Seq<char>, r2: Seq<char>, s2: Seq<char>)
    requires escapes(r, s), escapes(r2, s2),
    ensures escapes(r + r2, s + s2),
    decreases s.len()
{
    if s.len() == 0 {
        assert(r + r2 =~= r2);
        assert(s + s2 =~= s2);
    } else {
        let (p, q) = choose|p: Seq<char>, q: Seq<char>| r == #[trigger] (p + q) && stands(p, s[0]) && escapes(q, s.skip(1));
        lemma_esc_cat(q, s.skip(1), r2, s2);
        assert((s + s2).skip(1) =~= s.skip(1) + s2);
        assert(r + r2 =~= p + (q + r2));
    }
}
/// whatever stands for c may be added for it
pub proof fn lemma_esc_push(r: Seq<char>, s: Seq<char>, c: char, next: Seq<char>)
    requires escapes(r, s), next =~= s.push(c),
    ensures forall|p: Seq<char>| stands(p, c) ==> escapes(#[trigger] (r + p), next), !special(c) ==> escapes(r.push(c), next),
{
    assert(next == s.push(c));
    assert forall|p: Seq<char>| stands(p, c) implies escapes(#[trigger] (r + p), s.push(c)) by {
        assert(seq![c].skip(1).len() == 0);
        assert(p + Seq::<char>::empty() =~= p);
        assert(escapes(Seq::<char>::empty(), seq![c].skip(1)));
        assert(escapes(p + Seq::<char>::empty(), seq![c]));
        lemma_esc_cat(r, s, p, seq![c]);
        assert(s + seq![c] =~= s.push(c));
    }
    assert(r + seq![c] =~= r.push(c));
}
// ---- a needle in a text
pub open spec fn at_pos(s: Seq<char>, sep: Seq<char>, i: int) -> bool { 0 <= i && i + sep.len() <= s.len() && s.subrange(i, i + sep.len()) == sep }
pub open spec fn occurs(s: Seq<char>, sep: Seq<char>) -> bool { exists|i: int| at_pos(s, sep, i) }
pub open spec fn is_first(s: Seq<char>, sep: Seq<char>, i: int) -> bool { at_pos(s, sep, i) && forall|j: int| 0 <= j < i ==> !#[trigger] at_pos(s, sep, j) }
/// l: the parts of s between the occurrences of sep, each taken as early as possible;
/// the empty separator occurs before, between and after the characters
pub open spec fn cuts(s: Seq<char>, sep: Seq<char>, l: Seq<Seq<char>>) -> bool
    decreases l.len()
{
    if sep.len() == 0 {
        l.len() == s.len() + 2 && l[0].len() == 0 && l.last().len() == 0 && forall|i: int| 0 <= i < s.len() ==> #[trigger] l[i + 1] == seq![s[i]]
    } else if l.len() == 0 {
        false
    } else if l.len() == 1 {
        l[0] == s && !occurs(s, sep)
    } else {
        exists|i: int| #[trigger] is_first(s, sep, i) && l[0] == s.take(i) && cuts(s.skip(i + sep.len()), sep, l.skip(1))
    }
}
/// the parts with sep between them
pub open spec fn joined(l: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else { l[0] + sep + joined(l.skip(1), sep) }
}
/// the parts with a between the first n+1 of them and b between the rest
pub open spec fn joined_n(l: Seq<Seq<char>>, a: Seq<char>, n: int, b: Seq<char>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else if l.len() == 1 { l[0] } else if n <= 0 { l[0] + b + joined_n(l.skip(1), a, n, b) } else { l[0] + a + joined_n(l.skip(1), a, n - 1, b) }
}
pub open spec fn swapped(s: Seq<char>, from: Seq<char>, to: Seq<char>, r: Seq<char>) -> bool {
    exists|l: Seq<Seq<char>>| #[trigger] cuts(s, from, l) && r == joined(l, to)
}
pub open spec fn swapped_n(s: Seq<char>, from: Seq<char>, to: Seq<char>, n: int, r: Seq<char>) -> bool {
    exists|l: Seq<Seq<char>>| #[trigger] cuts(s, from, l) && r == joined_n(l, to, n, from)
}
pub open spec fn views(l: Seq<&str>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
/// anything read as a text to look for
pub trait TextLike { spec fn tv(&self) -> Seq<char>; }
impl<T: TextLike + ?Sized> TextLike for &T { open spec fn tv(&self) -> Seq<char> { (**self).tv() } }
impl TextLike for String { open spec fn tv(&self) -> Seq<char> { self@ } }
impl TextLike for str { open spec fn tv(&self) -> Seq<char> { self@ } }
impl TextLike for char { open spec fn tv(&self) -> Seq<char> { seq![*self] } }
/// str::contains, split, replace, replacen
pub trait TextFns {
    spec fn tx(&self) -> Seq<char>;
    fn has_text<P: TextLike>(&self, p: P) -> (r: bool) ensures r == occurs(self.tx(), p.tv());
    fn split_text<'a, P: TextLike>(&'a self, p: P) -> (r: std::vec::IntoIter<&'a str>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, cuts(self.tx(), p.tv(), views(r.remaining()));
    fn replace_text<P: TextLike>(&self, p: P, to: &str) -> (r: String) ensures swapped(self.tx(), p.tv(), to@, r@);
    fn replace_n_text<P: TextLike>(&self, p: P, to: &str, n: usize) -> (r: String) ensures swapped_n(self.tx(), p.tv(), to@, n as int, r@);
}
impl TextFns for str {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn has_text<P: TextLike>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn split_text<'a, P: TextLike>(&'a self, p: P) -> (r: std::vec::IntoIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn replace_text<P: TextLike>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn replace_n_text<P: TextLike>(&self, p: P, to: &str, n: usize) -> (r: String) { unimplemented!() }
}
impl TextFns for String {
    open spec fn tx(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn has_text<P: TextLike>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn split_text<'a, P: TextLike>(&'a self, p: P) -> (r: std::vec::IntoIter<&'a str>) { unimplemented!() }
    #[verifier::external_body]
    fn replace_text<P: TextLike>(&self, p: P, to: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body]
    fn replace_n_text<P: TextLike>(&self, p: P, to: &str, n: usize) -> (r: String) { unimplemented!() }
}
/// iter_tools `join`
pub trait JoinTexts: Iterator<Item = String> + Sized {
    fn join_texts(self, sep: &str) -> (r: String)
        requires self.obeys_prophetic_iter_laws(),
        ensures self.will_return_none(), r@ == joined(texts(self.remaining()), sep@);
}
impl<I: Iterator<Item = String>> JoinTexts for I {
    #[verifier::external_body]
    fn join_texts(self, sep: &str) -> (r: String) { unimplemented!() }
}
pub open spec fn texts(l: Seq<String>) -> Seq<Seq<char>> { Seq::new(l.len(), |i: int| l[i]@) }
// ---- places and lines
/// white space as word_wrap sees it
pub open spec fn is_blank(c: char) -> bool { c == '\n' || c == '\t' || c == ' ' || c == '\r' }
/// the byte place of the i-th character
pub open spec fn cpos(s: Seq<char>, i: int) -> int { crate::shim::bytes_of(s.take(i)).len() as int }
pub proof fn lemma_utf8_one(c: char)
    ensures 1 <= crate::shim::bytes_of(seq![c]).len() <= 4, is_blank(c) ==> crate::shim::bytes_of(seq![c]).len() == 1,
{
    broadcast use crate::shim::lemma_bytes_cat;
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
    crate::shim::lemma_bytes_pos(seq![c]);
    reveal_with_fuel(vstd::utf8::encode_utf8, 3);
}
pub proof fn lemma_cpos(s: Seq<char>)
    ensures
        cpos(s, 0) == 0, cpos(s, s.len() as int) == crate::shim::bytes_of(s).len(),
        forall|i: int| 0 <= i < s.len() ==> #[trigger] cpos(s, i + 1) == cpos(s, i) + crate::shim::bytes_of(seq![s[i]]).len(),
        forall|i: int, j: int| 0 <= i < j <= s.len() ==> #[trigger] cpos(s, i) + (j - i) <= #[trigger] cpos(s, j),
{
    broadcast use crate::shim::lemma_bytes_cat;
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] cpos(s, i + 1) == cpos(s, i) + crate::shim::bytes_of(seq![s[i]]).len() by {
        assert(s.take(i + 1) =~= s.take(i) + seq![s[i]]);
    }
    assert forall|i: int, j: int| 0 <= i < j <= s.len() implies #[trigger] cpos(s, i) + (j - i) <= #[trigger] cpos(s, j) by {
        assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
        crate::shim::lemma_bytes_pos(s.subrange(i, j));
    }
}
/// s[a..b] with a and b at characters
#[verifier::external_body]
pub fn str_slice<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str)
    requires exists|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] cpos(s@, i) == a && #[trigger] cpos(s@, j) == b,
    ensures forall|i: int, j: int| 0 <= i <= j <= s@.len() && #[trigger] cpos(s@, i) == a && #[trigger] cpos(s@, j) == b ==> r@ == s@.subrange(i, j),
{ &s[a..b] }
/// s[a..]
#[verifier::external_body]
pub fn str_rest<'a>(s: &'a str, a: usize) -> (r: &'a str)
    requires exists|i: int| 0 <= i <= s@.len() && #[trigger] cpos(s@, i) == a,
    ensures forall|i: int| 0 <= i <= s@.len() && #[trigger] cpos(s@, i) == a ==> r@ == s@.skip(i),
{ &s[a..] }
pub open spec fn places(s: Seq<char>) -> Seq<(usize, char)> { Seq::new(s.len(), |i: int| (cpos(s, i) as usize, s[i])) }
/// r is s with the ends of which f holds taken away
pub open spec fn trimmed<F: FnMut(char) -> bool>(f: F, s: Seq<char>, r: Seq<char>) -> bool {
    exists|a: int, b: int| 0 <= a <= b <= s.len() && r == #[trigger] s.subrange(a, b)
        && (forall|i: int| 0 <= i < a ==> f.ensures((#[trigger] s[i],), true)) && (forall|i: int| b <= i < s.len() ==> f.ensures((#[trigger] s[i],), true))
        && (a < b ==> f.ensures((s[a],), false) && f.ensures((s[b - 1],), false))
}
/// r is s with the characters marked replaced by t
pub open spec fn filled(s: Seq<char>, m: Seq<bool>, t: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { filled(s.drop_last(), m.drop_last(), t) + if m.last() { t } else { seq![s.last()] } }
}
pub open spec fn marks<F: FnMut(char) -> bool>(f: F, s: Seq<char>, m: Seq<bool>) -> bool {
    m.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> f.ensures((s[i],), #[trigger] m[i])
}
pub trait PlaceFns {
    fn char_places(&self) -> (r: std::vec::IntoIter<(usize, char)>)
        ensures r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining() == places(self.pl()), crate::shim::bytes_of(self.pl()).len() <= isize::MAX;
    spec fn pl(&self) -> Seq<char>;
    fn trim_by<F: FnMut(char) -> bool>(&self, f: F) -> (r: &str)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures trimmed(f, self.pl(), r@);
    fn fill_by<F: FnMut(char) -> bool>(&self, f: F, t: &str) -> (r: String)
        requires forall|c: char| #[trigger] f.requires((c,)),
        ensures exists|m: Seq<bool>| #[trigger] marks(f, self.pl(), m) && r@ == filled(self.pl(), m, t@);
}
impl PlaceFns for str {
    open spec fn pl(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn char_places(&self) -> (r: std::vec::IntoIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body]
    fn trim_by<F: FnMut(char) -> bool>(&self, f: F) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn fill_by<F: FnMut(char) -> bool>(&self, f: F, t: &str) -> (r: String) { unimplemented!() }
}
/// `assert_eq!` on texts
#[verifier::external_body]
pub fn must_equal(a: &str, b: &str)
    requires a@ == b@,
{ }
/// the characters of s that are not white space
pub open spec fn ink(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else if is_blank(s.last()) { ink(s.drop_last()) } else { ink(s.drop_last()).push(s.last()) }
}
pub broadcast proof fn lemma_ink_cat(p: Seq<char>, q: Seq<char>)
    ensures #[trigger] ink(p + q) == ink(p) + ink(q),
    decreases q.len()
{
    if q.len() == 0 {
        assert(p + q =~= p);
        assert(ink(p) + ink(q) =~= ink(p));
    } else {
        assert((p + q).drop_last() =~= p + q.drop_last());
        lemma_ink_cat(p, q.drop_last());
        assert(ink(p) + ink(q) =~= ink(p + q));
    }
}
pub proof fn lemma_ink_blank(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> is_blank(#[trigger] s[i]),
    ensures ink(s) == Seq::<char>::empty(),
    decreases s.len()
{
    if s.len() > 0 { lemma_ink_blank(s.drop_last()); }
}
pub proof fn lemma_ink_filled(s: Seq<char>, m: Seq<bool>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] m[i] == is_blank(s[i]),
    ensures filled(s, m, Seq::empty()) == ink(s),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_ink_filled(s.drop_last(), m.drop_last());
        assert(filled(s, m, Seq::empty()) =~= ink(s));
    }
}
/// taking blanks off the ends keeps the ink
pub proof fn lemma_ink_trim<F: FnMut(char) -> bool>(f: F, s: Seq<char>, r: Seq<char>)
    requires trimmed(f, s, r), forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == is_blank(c),
    ensures ink(r) == ink(s), r.len() <= s.len(), forall|c: char| r.contains(c) ==> s.contains(c),
{
    let (a, b) = choose|a: int, b: int| 0 <= a <= b <= s.len() && r == #[trigger] s.subrange(a, b)
        && (forall|i: int| 0 <= i < a ==> f.ensures((#[trigger] s[i],), true)) && (forall|i: int| b <= i < s.len() ==> f.ensures((#[trigger] s[i],), true));
    assert(s =~= s.take(a) + r + s.skip(b));
    lemma_ink_cat(s.take(a) + r, s.skip(b));
    lemma_ink_cat(s.take(a), r);
    assert forall|i: int| 0 <= i < a implies is_blank(#[trigger] s.take(a)[i]) by { assert(f.ensures((s[i],), true)); }
    assert forall|i: int| 0 <= i < s.len() - b implies is_blank(#[trigger] s.skip(b)[i]) by { assert(f.ensures((s[b + i],), true)); }
    lemma_ink_blank(s.take(a));
    lemma_ink_blank(s.skip(b));
    assert(ink(s) =~= ink(r));
    assert forall|c: char| r.contains(c) implies s.contains(c) by {
        let k = choose|k: int| 0 <= k < r.len() && r[k] == c;
        assert(s[a + k] == c);
    }
}
/// the texts one after another
pub open spec fn run_of(l: Seq<String>) -> Seq<char>
    decreases l.len()
{
    if l.len() == 0 { Seq::empty() } else { run_of(l.drop_last()) + l.last()@ }
}
/// l are lines for the first n characters of s: the pieces between the places at,
/// cut out so that only white space is lost, no line holds a newline, every newline ends a line
pub open spec fn lines_of(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, n: int) -> bool {
    &&& at.len() == l.len()
    &&& forall|i: int| 0 <= i < l.len() ==> 0 <= (#[trigger] at[i]).0 <= at[i].1 <= n <= s.len()
        && ink(l[i]@) == ink(s.subrange(at[i].0, at[i].1)) && l[i]@.len() <= at[i].1 - at[i].0
    &&& forall|i: int, c: int| 0 <= i < l.len() && (#[trigger] at[i]).0 <= c < at[i].1 ==> #[trigger] s[c] != '\n'
    &&& forall|i: int| 0 <= i < l.len() ==> !(#[trigger] l[i]@).contains('\n')
    &&& forall|i: int| 0 <= i < l.len() ==> #[trigger] begins(s, at, i)
    &&& n == if l.len() == 0 { 0 } else { next_at(s, at.last().1) }
}
pub open spec fn begins(s: Seq<char>, at: Seq<(int, int)>, i: int) -> bool { at[i].0 == if i == 0 { 0 } else { next_at(s, at[i - 1].1) } }
/// where the next line begins when one ends at b: past a newline
pub open spec fn next_at(s: Seq<char>, b: int) -> int { if b < s.len() && s[b] == '\n' { b + 1 } else { b } }
/// one more line
pub proof fn lemma_line_push(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, n: int, x: String, b: int)
    requires
        lines_of(s, l, at, n), n <= b <= s.len(), ink(x@) == ink(s.subrange(n, b)), x@.len() <= b - n,
        forall|c: int| n <= c < b ==> #[trigger] s[c] != '\n', forall|c: char| x@.contains(c) ==> s.subrange(n, b).contains(c),
    ensures lines_of(s, l.push(x), at.push((n, b)), next_at(s, b)),
{
    let l2 = l.push(x);
    let at2 = at.push((n, b));
    assert(at2.last() == (n, b));
    assert forall|i: int| 0 <= i < l2.len() implies !(#[trigger] l2[i]@).contains('\n') by {
        if i < l.len() { assert(l2[i] == l[i]); } else if x@.contains('\n') {
            let k = choose|k: int| 0 <= k < s.subrange(n, b).len() && s.subrange(n, b)[k] == '\n';
            assert(s[n + k] == '\n');
        }
    }
    assert forall|i: int| 0 <= i < l2.len() implies 0 <= (#[trigger] at2[i]).0 <= at2[i].1 <= next_at(s, b) <= s.len()
        && ink(l2[i]@) == ink(s.subrange(at2[i].0, at2[i].1)) && l2[i]@.len() <= at2[i].1 - at2[i].0 by {
        if i < l.len() { assert(at2[i] == at[i]); }
    }
    assert forall|i: int, c: int| 0 <= i < l2.len() && (#[trigger] at2[i]).0 <= c < at2[i].1 implies #[trigger] s[c] != '\n' by {
        if i < l.len() { assert(at2[i] == at[i]); }
    }
    assert forall|i: int| 0 <= i < l2.len() implies #[trigger] begins(s, at2, i) by {
        if i < l.len() { assert(begins(s, at, i)); }
        if i < l.len() { assert(at2[i] == at[i]); if i > 0 { assert(at2[i - 1] == at[i - 1]); } } else if i > 0 { assert(at2[i - 1] == at.last()); }
    }
}
/// no ink is lost
pub proof fn lemma_lines_ink(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, n: int)
    requires lines_of(s, l, at, n),
    ensures ink(run_of(l)) == ink(s.take(n)),
    decreases l.len()
{
    if l.len() == 0 {
        assert(s.take(0) =~= Seq::<char>::empty());
    } else {
        let a = at.last().0;
        let b = at.last().1;
        let l1 = l.drop_last();
        let at1 = at.drop_last();
        assert(at.last() == at[l.len() - 1]);
        assert(begins(s, at, l.len() - 1));
        if l1.len() > 0 { assert(at1.last() == at[l.len() - 2]); }
        assert forall|i: int| 0 <= i < l1.len() implies (#[trigger] at1[i]).1 <= a by { lemma_at_mono(s, l, at, n, i, l.len() - 1); assert(at1[i] == at[i]); }
        assert(lines_of(s, l1, at1, a)) by {
            assert forall|i: int| 0 <= i < l1.len() implies 0 <= (#[trigger] at1[i]).0 <= at1[i].1 <= a <= s.len()
                && ink(l1[i]@) == ink(s.subrange(at1[i].0, at1[i].1)) && l1[i]@.len() <= at1[i].1 - at1[i].0 by { assert(at1[i] == at[i]); }
            assert forall|i: int, c: int| 0 <= i < l1.len() && (#[trigger] at1[i]).0 <= c < at1[i].1 implies #[trigger] s[c] != '\n' by { assert(at1[i] == at[i]); }
            assert forall|i: int| 0 <= i < l1.len() implies !(#[trigger] l1[i]@).contains('\n') by { assert(l1[i] == l[i]); }
            assert forall|i: int| 0 <= i < l1.len() implies #[trigger] begins(s, at1, i) by {
                assert(begins(s, at, i));
                assert(at1[i] == at[i]);
                if i > 0 { assert(at1[i - 1] == at[i - 1]); }
            }
        }
        lemma_lines_ink(s, l1, at1, a);
        lemma_ink_cat(run_of(l1), l.last()@);
        assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
        lemma_ink_cat(s.take(a), s.subrange(a, b));
        if n != b {
            assert(s.take(n) =~= s.take(b) + seq!['\n']);
            lemma_ink_cat(s.take(b), seq!['\n']);
            lemma_ink_blank(seq!['\n']);
            assert(ink(s.take(b)) + Seq::<char>::empty() =~= ink(s.take(b)));
        }
    }
}
pub proof fn lemma_at_mono(s: Seq<char>, l: Seq<String>, at: Seq<(int, int)>, n: int, i: int, j: int)
    requires lines_of(s, l, at, n), 0 <= i < j < l.len(),
    ensures at[i].1 <= at[j].0,
    decreases j - i
{
    if j > i + 1 { lemma_at_mono(s, l, at, n, i, j - 1); }
    assert(begins(s, at, j));
    assert(at[j - 1].0 <= at[j - 1].1);
}
pub proof fn lemma_blank_text(c: char)
    ensures occurs("\n\t \r"@, seq![c]) == is_blank(c),
{
    reveal_strlit("\n\t \r");
    let t = "\n\t \r"@;
    assert forall|i: int| #[trigger] at_pos(t, seq![c], i) implies is_blank(c) by { assert(t.subrange(i, i + 1)[0] == t[i]); }
    if is_blank(c) {
        let i: int = if c == '\n' { 0 } else if c == '\t' { 1 } else if c == ' ' { 2 } else { 3 };
        assert(t.subrange(i, i + 1) =~= seq![c]);
        assert(at_pos(t, seq![c], i));
    }
}
pub broadcast proof fn lemma_marks_ink<F: FnMut(char) -> bool>(f: F, s: Seq<char>, m: Seq<bool>)
    requires #[trigger] marks(f, s, m), forall|c: char, b: bool| #[trigger] f.ensures((c,), b) ==> b == is_blank(c),
    ensures filled(s, m, Seq::empty()) == ink(s),
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] m[i] == is_blank(s[i]) by { assert(f.ensures((s[i],), m[i])); }
    lemma_ink_filled(s, m);
}
}
}
