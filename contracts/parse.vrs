pub mod parse {
use vstd::prelude::*;
use crate::*;
use crate::stubs::anyhow;
use crate::expr::Expr;
use crate::template::*;
use crate::tree::*;
use crate::func_man::*;
verus!{
// ---- the grammars (gobble parser! macros) are outside: what a text spells is uninterpreted
#[verifier::external_body]
pub struct ParseErr { _p: () }
impl ParseErr {
    #[verifier::external_body]
    pub fn strung(self) -> (r: ParseErr) { unimplemented!() }
}
impl From<ParseErr> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: ParseErr) -> Self { unimplemented!() }
}
/// the expression a text spells
pub uninterp spec fn exp_of(s: Seq<char>) -> Option<Expr>;
pub struct Exp;
impl Exp {
    #[verifier::external_body]
    pub fn parse_s(&self, s: &str) -> (r: Result<Expr, ParseErr>)
        ensures r is Ok <==> exp_of(s@) is Some, r matches Ok(c) ==> Some(c) == exp_of(s@),
    { unimplemented!() }
}
/// the items a text spells
pub uninterp spec fn flat_of(s: Seq<char>) -> Option<FlatTemplate>;
pub struct TFile;
impl TFile {
    #[verifier::external_body]
    pub fn parse_s(&self, s: &str) -> (r: Result<FlatTemplate, ParseErr>)
        ensures r is Ok <==> flat_of(s@) is Some, r matches Ok(c) ==> Some(c) == flat_of(s@),
    { unimplemented!() }
}
/// the template a text spells
pub open spec fn text_tree(s: Seq<char>, r: anyhow::Result<TreeTemplate>) -> bool {
    match flat_of(s) { Some(f) => tree_of(r, p_all(f.v@)), None => r is Err }
}
impl TreeTemplate {
//@fn src/template.rs std::str::FromStrforTreeTemplate::from_str
//@sig
pub fn from_str(s: &str) -> (r: anyhow::Result<TreeTemplate>)
//@spec
    ensures text_tree(s@, r),
//@end
}
/// the default function table (C02 says what is in it)
pub open spec fn fm_default(fm: BasicFuncs) -> bool {
    forall|n: &str| #[trigger] crate::caps::held(fm.fget(n@)) == crate::caps::defaults_at(n@)
}
}
}
