pub mod disp {
use vstd::prelude::*;
use crate::*;
use crate::tdata::*;
verus!{
/// the display text of a value (`to_string`)
pub uninterp spec fn disp(d: TData) -> Seq<char>;
pub broadcast axiom fn axiom_disp_string(s: String)
    ensures #[trigger] disp(TData::String(s)) == s@;
impl std::fmt::Display for TData {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
pub broadcast axiom fn axiom_tdata_to_string(d: TData, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures(&d, s),
    ensures s@ == disp(d);
pub broadcast axiom fn axiom_cow_to_string(d: std::borrow::Cow<'_, TData>, s: String)
    requires #[trigger] vstd::string::to_string_from_display_ensures(&d, s),
    ensures s@ == disp(d@);
pub broadcast group group_disp { axiom_disp_string, axiom_tdata_to_string, axiom_cow_to_string }
}
}
