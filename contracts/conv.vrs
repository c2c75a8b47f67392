// Host data: what it is converted to and what a path reaches in it.
pub mod conv {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::stubs::{anyhow, serde_json, toml, card_format};
use crate::stubs::err_tools::*;
use crate::stubs::card_format::{CData, Card, cards_of};
use std::borrow::Cow;
use std::ops::Deref;
use std::collections::HashMap;
use crate::tdata::*;
use crate::tparam::*;
use crate::expr::VarPart;
use vstd::std_specs::iter::IteratorSpec;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_vec, crate::tdata::group_cow, crate::shim::axiom_map_collect};
// ---- JSON
pub open spec fn json_td(v: serde_json::Value) -> TData
    decreases v
{
    match v {
        serde_json::Value::Null => TData::Null,
        serde_json::Value::Bool(b) => TData::Bool(b),
        serde_json::Value::String(s) => TData::String(s),
        serde_json::Value::Number(n) => if n.is_float() { TData::Float(n.float()) } else if n.int() <= i64::MAX { TData::Int(n.int() as isize) } else { TData::UInt(n.int() as usize) },
        serde_json::Value::Array(a) => TData::List(vec_of(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { json_td(a@[i]) } else { TData::Null }))),
        serde_json::Value::Object(m) => TData::Map(map_of(Map::new(m@.dom(), |k: String| if m@.contains_key(k) { json_td(m@[k]) } else { TData::Null }))),
    }
}
pub open spec fn map_vals<A>(f: spec_fn(A) -> TData, m: Map<String, A>) -> Map<String, TData> { Map::new(m.dom(), |k: String| f(m[k])) }
pub broadcast proof fn lemma_seq_map<A>(f: spec_fn(A) -> TData, s: Seq<(String, A)>, t: Seq<(String, TData)>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (s[i].0, f(s[i].1)),
    ensures #[trigger] seq_map(t) == #[trigger] map_vals(f, seq_map(s)),
    decreases s.len()
{
    if s.len() > 0 {
        lemma_seq_map(f, s.drop_last(), t.drop_last());
        assert(seq_map(t) =~= map_vals(f, seq_map(s)));
    } else { assert(seq_map(t) =~= map_vals(f, seq_map(s))); }
}
pub proof fn lemma_json(v: serde_json::Value)
    ensures
        v matches serde_json::Value::Array(a) ==> forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == json_td(a@[i])) ==> TData::List(l) == json_td(v),
        v matches serde_json::Value::Object(m) ==> forall|h: HashMap<String, TData>, s: Seq<(String, serde_json::Value)>, t: Seq<(String, TData)>|
            #[trigger] seq_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (s[i].0, json_td(s[i].1))) ==> TData::Map(h) == json_td(v),
{
    if let serde_json::Value::Array(a) = v {
        let x = choose|x: Seq<TData>| json_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == json_td(a@[i]);
        assert forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == json_td(a@[i])) implies TData::List(l) == json_td(v) by {
            assert(l@ =~= x);
        }
    }
    if let serde_json::Value::Object(m) = v {
        let x = choose|x: Map<String, TData>| json_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == json_td(m@[k]);
        assert forall|h: HashMap<String, TData>, s: Seq<(String, serde_json::Value)>, t: Seq<(String, TData)>|
            #[trigger] seq_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (s[i].0, json_td(s[i].1))) implies TData::Map(h) == json_td(v) by {
            let f = |x: serde_json::Value| json_td(x);
            lemma_seq_map(f, s, t);
            assert(h@ =~= x);
        }
    }
}
impl TData {
//@fn src/tdata.rs TData::from_json
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures r == json_td(v),
//@subst .map( => .map_items(
//@closure 0
|{c0}: serde_json::Value| -> (q: TData) ensures q == json_td({c0})
//@closure 1
|{c0}: (String, serde_json::Value)| -> (q: (String, TData)) ensures q == ({c0}.0, json_td({c0}.1))
//@at start
    proof { lemma_json(v); }
//@end
}
/// what a path reaches in a JSON value: the conversion of the member there
pub open spec fn json_look(v: serde_json::Value, p: Seq<VarPart>) -> Option<TData>
    decreases p.len()
{
    if p.len() == 0 { Some(json_td(v)) } else {
        match (v, p[0]) {
            (serde_json::Value::Object(m), VarPart::Id(k)) => if m@.contains_key(k) { json_look(m@[k], p.skip(1)) } else { None },
            (serde_json::Value::Array(a), VarPart::Num(n)) => if n < a@.len() { json_look(a@[n as int], p.skip(1)) } else { None },
            _ => None,
        }
    }
}
impl TParam for serde_json::Value {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { json_look(*self, v) }
//@fn src/tparam.rs TParamforserde_json::Value::get_v
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@end
}
// ---- TOML
pub open spec fn toml_td(v: toml::Value) -> TData
    decreases v
{
    match v {
        toml::Value::String(s) => TData::String(s),
        toml::Value::Integer(n) => TData::Int(n as isize),
        toml::Value::Float(f) => TData::Float(f),
        toml::Value::Boolean(b) => TData::Bool(b),
        toml::Value::Datetime(d) => TData::String(skey(d.text())),
        toml::Value::Array(a) => TData::List(vec_of(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { toml_td(a@[i]) } else { TData::Null }))),
        toml::Value::Table(m) => TData::Map(map_of(Map::new(m@.dom(), |k: String| if m@.contains_key(k) { toml_td(m@[k]) } else { TData::Null }))),
    }
}
pub proof fn lemma_toml(v: toml::Value)
    ensures
        v matches toml::Value::Array(a) ==> forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == toml_td(a@[i])) ==> TData::List(l) == toml_td(v),
        v matches toml::Value::Table(m) ==> forall|h: HashMap<String, TData>, s: Seq<(String, toml::Value)>, t: Seq<(String, TData)>|
            #[trigger] seq_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (s[i].0, toml_td(s[i].1))) ==> TData::Map(h) == toml_td(v),
{
    if let toml::Value::Array(a) = v {
        let x = choose|x: Seq<TData>| toml_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == toml_td(a@[i]);
        assert forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == toml_td(a@[i])) implies TData::List(l) == toml_td(v) by {
            assert(l@ =~= x);
        }
    }
    if let toml::Value::Table(m) = v {
        let x = choose|x: Map<String, TData>| toml_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == toml_td(m@[k]);
        assert forall|h: HashMap<String, TData>, s: Seq<(String, toml::Value)>, t: Seq<(String, TData)>|
            #[trigger] seq_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (s[i].0, toml_td(s[i].1))) implies TData::Map(h) == toml_td(v) by {
            let f = |x: toml::Value| toml_td(x);
            lemma_seq_map(f, s, t);
            assert(h@ =~= x);
        }
    }
}
impl TData {
//@fn src/tdata.rs TData::from_toml
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures r == toml_td(v),
//@subst .map( => .map_items(
//@closure 0
|{c0}: toml::Value| -> (q: TData) ensures q == toml_td({c0})
//@closure 1
|{c0}: (String, toml::Value)| -> (q: (String, TData)) ensures q == ({c0}.0, toml_td({c0}.1))
//@at start
    proof { lemma_toml(v); }
//@end
}
pub open spec fn toml_look(v: toml::Value, p: Seq<VarPart>) -> Option<TData>
    decreases p.len()
{
    if p.len() == 0 { Some(toml_td(v)) } else {
        match (v, p[0]) {
            (toml::Value::Table(m), VarPart::Id(k)) => if m@.contains_key(k) { toml_look(m@[k], p.skip(1)) } else { None },
            (toml::Value::Array(a), VarPart::Num(n)) => if n < a@.len() { toml_look(a@[n as int], p.skip(1)) } else { None },
            _ => None,
        }
    }
}
impl TParam for toml::Value {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { toml_look(*self, v) }
//@fn src/tparam.rs TParamfortoml::Value::get_v
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@end
}
// ---- cards
pub open spec fn cd_td(v: CData) -> TData
    decreases v
{
    match v {
        CData::S(s) => TData::String(s),
        CData::N(n) => TData::Int(n),
        CData::L(a) => TData::List(vec_of(Seq::new(a@.len(), |i: int| if 0 <= i < a@.len() { cd_td(a@[i]) } else { TData::Null }))),
        CData::M(m) => TData::Map(map_of(Map::new(m@.dom(), |k: String| if m@.contains_key(k) { cd_td(m@[k]) } else { TData::Null }))),
    }
}
pub open spec fn cd_map(m: Map<String, CData>) -> Map<String, TData> { Map::new(m.dom(), |k: String| cd_td(m[k])) }
pub open spec fn card_td(c: Card) -> TData {
    TData::Map(map_of(cd_map(c.data@).insert(skey("Name"@), TData::String(c.name)).insert(skey("Num"@), TData::UInt(c.num))))
}
pub proof fn lemma_ref_map(s: Seq<(&String, &CData)>, t: Seq<(String, TData)>)
    requires s.len() == t.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == (*s[i].0, cd_td(*s[i].1)),
    ensures seq_map(t) == cd_map(ref_map(s)),
    decreases s.len()
{
    if s.len() > 0 { lemma_ref_map(s.drop_last(), t.drop_last()); }
    assert(seq_map(t) =~= cd_map(ref_map(s)));
}
pub proof fn lemma_cd(v: CData)
    ensures
        v matches CData::L(a) ==> forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == cd_td(a@[i])) ==> TData::List(l) == cd_td(v),
        v matches CData::M(m) ==> forall|h: HashMap<String, TData>, s: Seq<(&String, &CData)>, t: Seq<(String, TData)>|
            #[trigger] ref_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (*s[i].0, cd_td(*s[i].1))) ==> TData::Map(h) == cd_td(v),
{
    if let CData::L(a) = v {
        let x = choose|x: Seq<TData>| cd_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == cd_td(a@[i]);
        assert forall|l: Vec<TData>| #[trigger] l@.len() == a@.len() && (forall|i: int| 0 <= i < l@.len() ==> l@[i] == cd_td(a@[i])) implies TData::List(l) == cd_td(v) by {
            assert(l@ =~= x);
        }
    }
    if let CData::M(m) = v {
        let x = choose|x: Map<String, TData>| cd_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == cd_td(m@[k]);
        assert forall|h: HashMap<String, TData>, s: Seq<(&String, &CData)>, t: Seq<(String, TData)>|
            #[trigger] ref_map(s) == m@ && #[trigger] h@ == #[trigger] seq_map(t) && s.len() == t.len() && (forall|i: int| 0 <= i < s.len() ==> t[i] == (*s[i].0, cd_td(*s[i].1))) implies TData::Map(h) == cd_td(v) by {
            lemma_ref_map(s, t);
            assert(h@ =~= x);
        }
    }
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a CData> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: &'a CData) -> TData { cd_td(*c) }
}
impl From<&CData> for TData {
    #[verifier::external_body]
    fn from(c: &CData) -> Self { unimplemented!() }
}
impl From<&Card> for TData {
    #[verifier::external_body]
    fn from(c: &Card) -> Self { unimplemented!() }
}
impl TData {
//@fn src/tdata.rs From<&CData>forTData::from
//@name from_cdata_body
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@spec
    ensures r == cd_td(*c),
//@subst .map( => .map_items(
//@closure 0
|{c0}: &CData| -> (q: TData) ensures q == cd_td(*{c0})
//@closure 1
|{c0}: (&String, &CData)| -> (q: (String, TData)) ensures q == (*{c0}.0, cd_td(*{c0}.1))
//@at start
    proof { lemma_cd(*c); }
//@end
}
impl<'a> vstd::std_specs::convert::FromSpecImpl<&'a Card> for TData {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: &'a Card) -> TData { card_td(*c) }
}
impl TData {
//@fn src/tdata.rs From<&Card>forTData::from
//@name from_card_body
//@spec
    ensures r == card_td(*c),
//@subst &c.data => c.data.into_iter()
//@loop 0 iter it
    invariant
        ref_map(it.seq()) == c.data@,
        m@ == cd_map(ref_map(it.seq().take(it.index()))),
        it.index() == it.seq().len() ==> m@ == cd_map(c.data@),
//@at loop 0 end
    proof {
        let a = it.seq().take(it.index()); let b = it.seq().take(it.index() + 1);
        assert(b.drop_last() =~= a); assert(b.last() == (k, v));
        assert(m@ =~= cd_map(ref_map(b)));
        assert(it.index() + 1 == it.seq().len() ==> b =~= it.seq());
    }
//@at loop 0 before
    proof {
        let e = Seq::<(&String, &CData)>::empty();
        assert(m@ =~= cd_map(ref_map(e)));
        assert forall|s: Seq<(&String, &CData)>| #[trigger] ref_map(s) == c.data@ && s.len() == 0 implies m@ == cd_map(c.data@) by { assert(s =~= e); }
        assert forall|s: Seq<(&String, &CData)>| m@ == cd_map(ref_map(#[trigger] s.take(0))) by { assert(s.take(0) =~= e); }
    }
//@at loop 0 after
    proof { assert(m@ == cd_map(c.data@)); reveal_strlit("Name"); reveal_strlit("Num"); }
//@at tail
    proof { assert(m@ =~= cd_map(c.data@).insert(skey("Name"@), TData::String(c.name)).insert(skey("Num"@), TData::UInt(c.num))); }
//@end
}
pub open spec fn cd_look(v: CData, p: Seq<VarPart>) -> Option<TData>
    decreases p.len()
{
    if p.len() == 0 { Some(cd_td(v)) } else {
        match (v, p[0]) {
            (CData::M(m), VarPart::Id(k)) => if m@.contains_key(k) { cd_look(m@[k], p.skip(1)) } else { None },
            (CData::L(a), VarPart::Num(n)) => if n < a@.len() { cd_look(a@[n as int], p.skip(1)) } else { None },
            _ => None,
        }
    }
}
impl TParam for CData {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { cd_look(*self, v) }
//@fn src/tparam.rs TParamforCData::get_v
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@end
}
pub open spec fn card_look(c: Card, p: Seq<VarPart>) -> Option<TData> {
    if p.len() == 0 { Some(card_td(c)) } else {
        match p[0] {
            VarPart::Id(k) =>
                if k@ == "Name"@ { if p.len() == 1 { Some(TData::String(c.name)) } else { None } }
                else if k@ == "Num"@ { if p.len() == 1 { Some(TData::UInt(c.num)) } else { None } }
                else if c.data@.contains_key(k) { cd_look(c.data@[k], p.skip(1)) } else { None },
            _ => None,
        }
    }
}
impl TParam for Card {
    open spec fn look(&self, v: Seq<VarPart>) -> Option<TData> { card_look(*self, v) }
//@fn src/tparam.rs TParamforCard::get_v
//@end
}
// ---- the cards of a text
pub open spec fn list_td(cs: Seq<Card>, l: Seq<TData>) -> bool { l.len() == cs.len() && forall|i: int| 0 <= i < l.len() ==> l[i] == card_td(cs[i]) }
//@fn src/funcs/format.rs r_card
//@spec
    ensures
        l@.len() == 0 ==> r is Err,
        l@.len() > 0 && !(l@[0]@ is String) ==> r is Err,
        l@.len() > 0 && l@[0]@ is String ==> match cards_of(l@[0]@->String_0@) {
            Some(cs) => r matches Ok(v) && v@ matches TData::List(d) && list_td(cs, d@),
            None => r is Err,
        },
//@subst cs.iter().map( => cs.iter().map_items(
//@closure 0
|{c0}: Vec<Card>| -> (q: TCow<'a>) ensures q@ matches TData::List(d) && list_td({c0}@, d@)
//@closure 1
|{c0}: &Card| -> (q: TData) ensures q == card_td(*{c0})
//@end
// ---- laws
pub axiom fn axiom_map_fits<V>(m: HashMap<String, V>) ensures m@.dom().finite(), m@.len() <= usize::MAX;
/// a path reaches in a JSON value what it reaches in its conversion
pub proof fn law_c18_json_path(v: serde_json::Value, p: Seq<VarPart>)
    ensures json_look(v, p) == td_look(json_td(v), p),
    decreases p.len(),
{
    if p.len() > 0 {
        if let serde_json::Value::Array(a) = v {
            let x = choose|x: Seq<TData>| json_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == json_td(a@[i]);
            axiom_vec_of(x);
            if let VarPart::Num(n) = p[0] { if n < a@.len() { law_c18_json_path(a@[n as int], p.skip(1)); } }
        }
        if let serde_json::Value::Object(m) = v {
            let x = choose|x: Map<String, TData>| json_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == json_td(m@[k]);
            axiom_map_fits(m.h); axiom_map_of(x);
            if let VarPart::Id(k) = p[0] { if m@.contains_key(k) { law_c18_json_path(m@[k], p.skip(1)); } }
        }
    }
}
pub proof fn law_c18_toml_path(v: toml::Value, p: Seq<VarPart>)
    ensures toml_look(v, p) == td_look(toml_td(v), p),
    decreases p.len(),
{
    if p.len() > 0 {
        if let toml::Value::Array(a) = v {
            let x = choose|x: Seq<TData>| toml_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == toml_td(a@[i]);
            axiom_vec_of(x);
            if let VarPart::Num(n) = p[0] { if n < a@.len() { law_c18_toml_path(a@[n as int], p.skip(1)); } }
        }
        if let toml::Value::Table(m) = v {
            let x = choose|x: Map<String, TData>| toml_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == toml_td(m@[k]);
            axiom_map_fits(m.h); axiom_map_of(x);
            if let VarPart::Id(k) = p[0] { if m@.contains_key(k) { law_c18_toml_path(m@[k], p.skip(1)); } }
        }
    }
}
pub proof fn law_c18_cdata_path(v: CData, p: Seq<VarPart>)
    ensures cd_look(v, p) == td_look(cd_td(v), p),
    decreases p.len(),
{
    if p.len() > 0 {
        if let CData::L(a) = v {
            let x = choose|x: Seq<TData>| cd_td(v) == TData::List(#[trigger] vec_of(x)) && x.len() == a@.len() && forall|i: int| 0 <= i < x.len() ==> x[i] == cd_td(a@[i]);
            axiom_vec_of(x);
            if let VarPart::Num(n) = p[0] { if n < a@.len() { law_c18_cdata_path(a@[n as int], p.skip(1)); } }
        }
        if let CData::M(m) = v {
            let x = choose|x: Map<String, TData>| cd_td(v) == TData::Map(#[trigger] map_of(x)) && x.dom() == m@.dom() && forall|k: String| m@.contains_key(k) ==> x[k] == cd_td(m@[k]);
            axiom_map_fits(m.h); axiom_map_of(x);
            if let VarPart::Id(k) = p[0] { if m@.contains_key(k) { law_c18_cdata_path(m@[k], p.skip(1)); } }
        }
    }
}
/// a card is the map of its data, with its name and number
pub proof fn law_c18_card_path(c: Card, p: Seq<VarPart>, h: HashMap<String, TData>)
    requires h@ == cd_map(c.data@).insert(skey("Name"@), TData::String(c.name)).insert(skey("Num"@), TData::UInt(c.num)),
    ensures card_look(c, p) == td_look(card_td(c), p), card_td(c) == TData::Map(h),
{
    reveal_strlit("Name"); reveal_strlit("Num"); reveal_with_fuel(td_look, 3);
    assert(card_td(c) == TData::Map(h));
    if p.len() > 0 {
        if let VarPart::Id(k) = p[0] {
            if k@ == "Name"@ {
                assert(k == skey("Name"@));
                if skey("Name"@) == skey("Num"@) { assert("Name"@ == "Num"@); assert("Name"@.len() == 4); }
                assert(h@[k] == TData::String(c.name));
            } else if k@ == "Num"@ {
                assert(k == skey("Num"@));
                assert(h@[k] == TData::UInt(c.num));
            } else {
                assert(k != skey("Name"@) && k != skey("Num"@));
                if c.data@.contains_key(k) { law_c18_cdata_path(c.data@[k], p.skip(1)); }
            }
        }
    }
}
/// a JSON integer the data model can hold keeps its value, and its kind says so
pub proof fn law_c18_json_numbers(n: serde_json::Number)
    requires !n.is_float(), i64::MIN <= n.int() <= u64::MAX,
    ensures match json_td(serde_json::Value::Number(n)) { TData::Int(i) => i as int == n.int(), TData::UInt(u) => u as int == n.int(), _ => false },
{
}
}
}
