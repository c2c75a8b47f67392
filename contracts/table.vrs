pub mod table {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::anyhow;
use crate::mspec::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::shim::group_fmt};
/// the rows the table grammar reads in a text (a parser! grammar, with its action)
pub uninterp spec fn rows_of(t: Seq<char>) -> Option<Seq<char>>;
pub struct Table;
#[verifier::external_body]
pub struct PErr { _p: () }
impl PErr {
    #[verifier::external_body]
    pub fn strung(self) -> anyhow::Error { unimplemented!() }
}
impl Table {
    #[verifier::external_body]
    pub fn parse_s(&self, s: &str) -> (r: Result<String, PErr>)
        ensures match rows_of(s@) { Some(t) => r is Ok && r->Ok_0@ == t, None => r is Err },
    { unimplemented!() }
}
/// the rows in a table element with these attributes
pub open spec fn whole(t: Seq<char>, data: Seq<char>) -> Seq<char> { "<table "@ + data + ">\n"@ + t + "</table>\n"@ }
//@fn src/funcs/table.rs table
//@spec
    ensures match rows_of(s@) { Some(t) => r is Ok && r->Ok_0@ =~= whole(t, data@), None => r is Err },
//@closure 0
|{c0}: PErr| -> (q: anyhow::Error)
//@end
pub open spec fn cells(row: Seq<String>, e: Seq<char>) -> Seq<char>
    decreases row.len()
{
    if row.len() == 0 { Seq::empty() } else { cells(row.drop_last(), e) + ("<"@ + e + ">"@ + row.last()@ + "</"@ + e + ">"@) }
}
//@fn src/funcs/table.rs write_row
//@spec
    ensures final(target)@ =~= old(target)@ + "<tr>"@ + cells(row@, if head { "th"@ } else { "td"@ }) + "</tr>\n"@,
//@loop 0 iter it
    invariant
        it.seq().len() == row@.len(),
        forall|i: int| 0 <= i < it.seq().len() ==> *#[trigger] it.seq()[i] == row@[i],
        target@ =~= t0 + "<tr>"@ + cells(row@.take(it.index()), es@),
//@at start
    let ghost t0 = target@;
//@at loop 0 start
    proof { assert(*r == row@[it.index()]); assert(row@.take(it.index() + 1).drop_last() =~= row@.take(it.index())); }
//@at loop 0 after
    assert(row@.take(row@.len() as int) =~= row@);
//@end
}
}
