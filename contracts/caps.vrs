// What every function set holds. `fid` names the Rust function behind a host function.
pub mod caps {
use vstd::prelude::*;
use crate::*;
use crate::shim::*;
use crate::sys::path::*;
use crate::func_man::*;
use vstd::std_specs::convert::*;
verus!{
broadcast use {vstd::std_specs::hash::group_hash_axioms, crate::shim::group_ext, crate::shim::group_str, crate::shim::group_into};
/// a function of the crate; `at`: the folder it is locked to
pub struct Fid { pub module: Seq<char>, pub name: Seq<char>, pub at: Option<Seq<char>> }
pub uninterp spec fn fid(f: TFunc) -> Fid;
#[verifier::external_body]
pub fn host_fn(m: &'static str, n: &'static str) -> (r: TFunc)
    ensures fid(r) == (Fid { module: m@, name: n@, at: None }),
{ unimplemented!() }
#[verifier::external_body]
pub fn host_locked(m: &'static str, n: &'static str, p: PathBuf) -> (r: Box<TFunc>)
    ensures fid(*r) == (Fid { module: m@, name: n@, at: Some(p@) }),
{ unimplemented!() }
pub type TFn = TFunc;
pub open spec fn free(m: Seq<char>, n: Seq<char>) -> Option<Fid> { Some(Fid { module: m, name: n, at: None }) }
pub open spec fn locked(m: Seq<char>, n: Seq<char>, p: Seq<char>) -> Option<Fid> { Some(Fid { module: m, name: n, at: Some(p) }) }
pub open spec fn over(a: Option<Fid>, b: Option<Fid>) -> Option<Fid> { if a is Some { a } else { b } }
pub open spec fn held(o: Option<TFunc>) -> Option<Fid> { match o { Some(f) => Some(fid(f)), None => None } }
/// the text of a key or path given as any type that converts
pub open spec fn key_ok<K: Into<String>>() -> bool { <K as IntoSpec<String>>::obeys_into_spec() }
pub open spec fn key_of<K: Into<String>>(k: K) -> Seq<char> { (<K as IntoSpec<String>>::into_spec(k))@ }
// ---- the tables the documentation gives
pub open spec fn bytes_at(k: Seq<char>) -> Option<Fid> {
    if k == "as_base64"@ { free("bytes"@, "as_base64"@) }
    else if k == "from_base64"@ { free("bytes"@, "from_base64"@) }
    else { None }
}
pub open spec fn rand_at(k: Seq<char>) -> Option<Fid> {
    if k == "rand"@ { free("random"@, "get_rand"@) }
    else { None }
}
pub open spec fn svg_at(k: Seq<char>) -> Option<Fid> {
    if k == "xy"@ { free("svg"@, "xy"@) }
    else if k == "xywh"@ { free("svg"@, "xywh"@) }
    else if k == "cxyrr"@ { free("svg"@, "cxyrr"@) }
    else if k == "xy12"@ { free("svg"@, "xy12"@) }
    else if k == "fl_stk"@ { free("svg"@, "fl_stk"@) }
    else if k == "xml_esc"@ { free("svg"@, "xml_esc"@) }
    else if k == "font"@ { free("svg"@, "font"@) }
    else { None }
}
pub open spec fn maps_at(k: Seq<char>) -> Option<Fid> {
    if k == "map"@ { free("maps"@, "map"@) }
    else { None }
}
pub open spec fn format_at(k: Seq<char>) -> Option<Fid> {
    if k == "r_json"@ { free("format"@, "r_json"@) }
    else if k == "r_card"@ { free("format"@, "r_card"@) }
    else if k == "w_json"@ { free("format"@, "w_json"@) }
    else { None }
}
pub open spec fn lists_at(k: Seq<char>) -> Option<Fid> {
    if k == "list"@ { free("lists"@, "list"@) }
    else if k == "sort"@ { free("lists"@, "sort"@) }
    else if k == "append"@ { free("lists"@, "append"@) }
    else if k == "sort_on"@ { free("lists"@, "sort_on"@) }
    else if k == "bin_search"@ { free("lists"@, "bin_search"@) }
    else if k == "bin_get"@ { free("lists"@, "bin_get"@) }
    else if k == "index_of"@ { free("lists"@, "index_of"@) }
    else if k == "get"@ { free("lists"@, "get"@) }
    else if k == "filter"@ { free("lists"@, "filter"@) }
    else if k == "len"@ { free("lists"@, "len"@) }
    else if k == "slice"@ { free("lists"@, "slice"@) }
    else if k == "groups"@ { free("lists"@, "groups"@) }
    else { None }
}
pub open spec fn strings_at(k: Seq<char>) -> Option<Fid> {
    if k == "cat"@ { free("strings"@, "cat"@) }
    else if k == "md"@ { free("strings"@, "md"@) }
    else if k == "table"@ { free("strings"@, "table"@) }
    else if k == "split"@ { free("strings"@, "split"@) }
    else if k == "string_from_ints"@ { free("strings"@, "string_from_ints"@) }
    else if k == "str_contains"@ { free("strings"@, "contains"@) }
    else if k == "str_replace"@ { free("strings"@, "replace"@) }
    else if k == "str_replace_n"@ { free("strings"@, "replace_n"@) }
    else if k == "html_esc"@ { free("strings"@, "html_esc"@) }
    else if k == "regex"@ { free("strings"@, "regex"@) }
    else if k == "word_wrap"@ { free("strings"@, "word_wrap"@) }
    else if k == "debug"@ { free("strings"@, "debug"@) }
    else { None }
}
pub open spec fn math_at(k: Seq<char>) -> Option<Fid> {
    if k == "add"@ { free("math"@, "add"@) }
    else if k == "sub"@ { free("math"@, "sub"@) }
    else if k == "mul"@ { free("math"@, "mul"@) }
    else if k == "div"@ { free("math"@, "div"@) }
    else if k == "mod"@ { free("math"@, "modulo"@) }
    else if k == "min"@ { free("math"@, "min"@) }
    else if k == "max"@ { free("math"@, "max"@) }
    else { None }
}
pub open spec fn bools_at(k: Seq<char>) -> Option<Fid> {
    if k == "eq"@ { free("bools"@, "eq"@) }
    else if k == "neq"@ { free("bools"@, "neq"@) }
    else if k == "eq_any"@ { free("bools"@, "eq_any"@) }
    else if k == "gt"@ { free("bools"@, "gt"@) }
    else if k == "gte"@ { free("bools"@, "gte"@) }
    else if k == "lt"@ { free("bools"@, "lt"@) }
    else if k == "lte"@ { free("bools"@, "lte"@) }
    else if k == "and"@ { free("bools"@, "and"@) }
    else if k == "nand"@ { free("bools"@, "nand"@) }
    else if k == "or"@ { free("bools"@, "or"@) }
    else if k == "nor"@ { free("bools"@, "nor"@) }
    else if k == "type_of"@ { free("bools"@, "type_of"@) }
    else if k == "is_null"@ { free("bools"@, "is_null"@) }
    else if k == "is_num"@ { free("bools"@, "is_num"@) }
    else { None }
}
pub open spec fn path_at(k: Seq<char>) -> Option<Fid> {
    if k == "parent"@ { free("path"@, "parent"@) }
    else if k == "join"@ { free("path"@, "join"@) }
    else if k == "bread_crumbs"@ { free("path"@, "bread_crumbs"@) }
    else if k == "base_name"@ { free("path"@, "base_name"@) }
    else if k == "base_name_sure"@ { free("path"@, "base_name_sure"@) }
    else if k == "join_with"@ { free("path"@, "join_with"@) }
    else if k == "with_ext"@ { free("path"@, "with_ext"@) }
    else if k == "stem"@ { free("path"@, "stem"@) }
    else if k == "full_stem"@ { free("path"@, "full_stem"@) }
    else { None }
}
pub open spec fn folder_lock_at(k: Seq<char>, p: Seq<char>) -> Option<Fid> {
    if k == "dir"@ { locked("folder"@, "dir"@, p) }
    else if k == "file"@ { locked("folder"@, "file"@, p) }
    else if k == "file_bytes"@ { locked("folder"@, "file_bytes"@, p) }
    else if k == "is_file"@ { locked("folder"@, "is_file"@, p) }
    else if k == "is_dir"@ { locked("folder"@, "is_dir"@, p) }
    else if k == "scan_dir"@ { locked("folder"@, "scan_dir"@, p) }
    else if k == "file_img_dimensions"@ { locked("folder"@, "file_img_dimensions"@, p) }
    else { None }
}
pub open spec fn free_files_at(k: Seq<char>) -> Option<Fid> {
    if k == "dir"@ { free("free_file"@, "dir"@) }
    else if k == "file"@ { free("free_file"@, "file"@) }
    else if k == "file_bytes"@ { free("free_file"@, "file_bytes"@) }
    else if k == "is_file"@ { free("free_file"@, "is_file"@) }
    else if k == "is_dir"@ { free("free_file"@, "is_dir"@) }
    else if k == "scan_dir"@ { free("free_file"@, "scan_dir"@) }
    else if k == "file_img_dimensions"@ { free("free_file"@, "file_img_dimensions"@) }
    else if k == "write"@ { free("free_file"@, "write"@) }
    else { None }
}
pub open spec fn exec_at(k: Seq<char>) -> Option<Fid> {
    if k == "exec"@ { free("exec"@, "exec"@) }
    else if k == "exec_stdin"@ { free("exec"@, "exec_stdin"@) }
    else if k == "env"@ { free("exec"@, "env"@) }
    else { None }
}
pub open spec fn write_lock_at(k: Seq<char>, p: Seq<char>) -> Option<Fid> {
    if k == "write"@ { locked("write"@, "write"@, p) }
    else { None }
}
/// the default set
pub open spec fn defaults_at(k: Seq<char>) -> Option<Fid> {
    over(svg_at(k), over(bytes_at(k), over(rand_at(k), over(format_at(k), over(maps_at(k), over(lists_at(k), over(path_at(k), over(math_at(k), over(strings_at(k), bools_at(k))))))))))
}
pub trait FuncAdder: Sized {
    spec fn at(&self, k: Seq<char>) -> Option<Fid>;
//@fn src/func_man.rs FuncAdder::add_func
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] final(self).at(n@) == if n@ == key_of(k) { Some(fid(*f)) } else { old(self).at(n@) },
//@end
//@fn src/func_man.rs FuncAdder::add_fn
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] final(self).at(n@) == if n@ == key_of(k) { Some(fid(f)) } else { old(self).at(n@) },
//@end
//@fn src/func_man.rs FuncAdder::with_func
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] r.at(n@) == if n@ == key_of(k) { Some(fid(*f)) } else { self.at(n@) },
//@end
//@fn src/func_man.rs FuncAdder::with_fn
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] r.at(n@) == if n@ == key_of(k) { Some(fid(f)) } else { self.at(n@) },
//@end
}
pub trait WithFuncs: Sized {
    spec fn at(&self, k: Seq<char>) -> Option<Fid>;
//@fn src/funcs/mod.rs WithFuncs::with_f
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] r.at(n@) == if n@ == key_of(k) { Some(fid(*f)) } else { self.at(n@) },
//@end
//@fn src/funcs/mod.rs WithFuncs::with_fn
//@spec
    ensures key_ok::<K>() ==> forall|n: &str| #[trigger] r.at(n@) == if n@ == key_of(k) { Some(fid(f)) } else { self.at(n@) },
//@end
//@fn src/funcs/mod.rs WithFuncs::with_defaults
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(defaults_at(n@), self.at(n@)),
//@end
//@fn src/funcs/mod.rs WithFuncs::with_bytes
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(bytes_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_rand
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(rand_at(n@), self.at(n@)),
//@end
//@fn src/funcs/mod.rs WithFuncs::with_svg
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(svg_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_maps
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(maps_at(n@), self.at(n@)),
//@end
//@fn src/funcs/mod.rs WithFuncs::with_format
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(format_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_lists
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(lists_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_strings
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(strings_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_math
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(math_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_bools
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(bools_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_path
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(path_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_folder_lock
//@spec
    ensures <P as IntoSpec<PathBuf>>::obeys_into_spec() ==> forall|n: &str| #[trigger] r.at(n@) == over(folder_lock_at(n@, (<P as IntoSpec<PathBuf>>::into_spec(pb))@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_free_files
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(free_files_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_exec
//@spec
    ensures forall|n: &str| #[trigger] r.at(n@) == over(exec_at(n@), self.at(n@)),
//@at start
    proof { lit_facts(); }
//@end
//@fn src/funcs/mod.rs WithFuncs::with_write_lock
//@spec
    ensures <P as IntoSpec<PathBuf>>::obeys_into_spec() ==> forall|n: &str| #[trigger] r.at(n@) == over(write_lock_at(n@, (<P as IntoSpec<PathBuf>>::into_spec(pb))@), self.at(n@)),
//@end
}
impl<FA: FuncAdder> WithFuncs for FA {
    open spec fn at(&self, k: Seq<char>) -> Option<Fid> { FuncAdder::at(self, k) }
//@fn src/funcs/mod.rs WithFuncsforFA::with_f
//@end
}
/// what a set holds is what a lookup finds
pub broadcast proof fn lemma_held(b: BasicFuncs, k: Seq<char>)
    ensures #[trigger] held(b.fget(k)) == WithFuncs::at(&b, k),
{}
//@fn src/func_man.rs default_func_man
//@at start
    broadcast use crate::caps::lemma_held;
//@spec
    ensures forall|n: &str| #[trigger] held(r.fget(n@)) == defaults_at(n@),
//@end
//@fn src/func_man.rs func_man_folders
//@at start
    broadcast use crate::caps::lemma_held;
//@spec
    ensures <P as IntoSpec<PathBuf>>::obeys_into_spec() ==> forall|n: &str| #[trigger] held(r.fget(n@)) == over(folder_lock_at(n@, (<P as IntoSpec<PathBuf>>::into_spec(p))@), defaults_at(n@)),
//@end
/// the names as characters: no two of them are the same
proof fn lit_facts()
    ensures
        "add"@.len() == 3 && "add"@[0] == 'a' && "add"@[1] == 'd' && "add"@[2] == 'd',
        "and"@.len() == 3 && "and"@[0] == 'a' && "and"@[1] == 'n' && "and"@[2] == 'd',
        "append"@.len() == 6 && "append"@[0] == 'a' && "append"@[1] == 'p' && "append"@[2] == 'p' && "append"@[3] == 'e' && "append"@[4] == 'n' && "append"@[5] == 'd',
        "as_base64"@.len() == 9 && "as_base64"@[0] == 'a' && "as_base64"@[1] == 's' && "as_base64"@[2] == '_' && "as_base64"@[3] == 'b' && "as_base64"@[4] == 'a' && "as_base64"@[5] == 's' && "as_base64"@[6] == 'e' && "as_base64"@[7] == '6' && "as_base64"@[8] == '4',
        "base_name"@.len() == 9 && "base_name"@[0] == 'b' && "base_name"@[1] == 'a' && "base_name"@[2] == 's' && "base_name"@[3] == 'e' && "base_name"@[4] == '_' && "base_name"@[5] == 'n' && "base_name"@[6] == 'a' && "base_name"@[7] == 'm' && "base_name"@[8] == 'e',
        "base_name_sure"@.len() == 14 && "base_name_sure"@[0] == 'b' && "base_name_sure"@[1] == 'a' && "base_name_sure"@[2] == 's' && "base_name_sure"@[3] == 'e' && "base_name_sure"@[4] == '_' && "base_name_sure"@[5] == 'n' && "base_name_sure"@[6] == 'a' && "base_name_sure"@[7] == 'm' && "base_name_sure"@[8] == 'e' && "base_name_sure"@[9] == '_' && "base_name_sure"@[10] == 's' && "base_name_sure"@[11] == 'u' && "base_name_sure"@[12] == 'r' && "base_name_sure"@[13] == 'e',
        "bin_get"@.len() == 7 && "bin_get"@[0] == 'b' && "bin_get"@[1] == 'i' && "bin_get"@[2] == 'n' && "bin_get"@[3] == '_' && "bin_get"@[4] == 'g' && "bin_get"@[5] == 'e' && "bin_get"@[6] == 't',
        "bin_search"@.len() == 10 && "bin_search"@[0] == 'b' && "bin_search"@[1] == 'i' && "bin_search"@[2] == 'n' && "bin_search"@[3] == '_' && "bin_search"@[4] == 's' && "bin_search"@[5] == 'e' && "bin_search"@[6] == 'a' && "bin_search"@[7] == 'r' && "bin_search"@[8] == 'c' && "bin_search"@[9] == 'h',
        "bools"@.len() == 5 && "bools"@[0] == 'b' && "bools"@[1] == 'o' && "bools"@[2] == 'o' && "bools"@[3] == 'l' && "bools"@[4] == 's',
        "bread_crumbs"@.len() == 12 && "bread_crumbs"@[0] == 'b' && "bread_crumbs"@[1] == 'r' && "bread_crumbs"@[2] == 'e' && "bread_crumbs"@[3] == 'a' && "bread_crumbs"@[4] == 'd' && "bread_crumbs"@[5] == '_' && "bread_crumbs"@[6] == 'c' && "bread_crumbs"@[7] == 'r' && "bread_crumbs"@[8] == 'u' && "bread_crumbs"@[9] == 'm' && "bread_crumbs"@[10] == 'b' && "bread_crumbs"@[11] == 's',
        "bytes"@.len() == 5 && "bytes"@[0] == 'b' && "bytes"@[1] == 'y' && "bytes"@[2] == 't' && "bytes"@[3] == 'e' && "bytes"@[4] == 's',
        "cat"@.len() == 3 && "cat"@[0] == 'c' && "cat"@[1] == 'a' && "cat"@[2] == 't',
        "cxyrr"@.len() == 5 && "cxyrr"@[0] == 'c' && "cxyrr"@[1] == 'x' && "cxyrr"@[2] == 'y' && "cxyrr"@[3] == 'r' && "cxyrr"@[4] == 'r',
        "debug"@.len() == 5 && "debug"@[0] == 'd' && "debug"@[1] == 'e' && "debug"@[2] == 'b' && "debug"@[3] == 'u' && "debug"@[4] == 'g',
        "dir"@.len() == 3 && "dir"@[0] == 'd' && "dir"@[1] == 'i' && "dir"@[2] == 'r',
        "div"@.len() == 3 && "div"@[0] == 'd' && "div"@[1] == 'i' && "div"@[2] == 'v',
        "env"@.len() == 3 && "env"@[0] == 'e' && "env"@[1] == 'n' && "env"@[2] == 'v',
        "eq"@.len() == 2 && "eq"@[0] == 'e' && "eq"@[1] == 'q',
        "eq_any"@.len() == 6 && "eq_any"@[0] == 'e' && "eq_any"@[1] == 'q' && "eq_any"@[2] == '_' && "eq_any"@[3] == 'a' && "eq_any"@[4] == 'n' && "eq_any"@[5] == 'y',
        "exec"@.len() == 4 && "exec"@[0] == 'e' && "exec"@[1] == 'x' && "exec"@[2] == 'e' && "exec"@[3] == 'c',
        "exec_stdin"@.len() == 10 && "exec_stdin"@[0] == 'e' && "exec_stdin"@[1] == 'x' && "exec_stdin"@[2] == 'e' && "exec_stdin"@[3] == 'c' && "exec_stdin"@[4] == '_' && "exec_stdin"@[5] == 's' && "exec_stdin"@[6] == 't' && "exec_stdin"@[7] == 'd' && "exec_stdin"@[8] == 'i' && "exec_stdin"@[9] == 'n',
        "file"@.len() == 4 && "file"@[0] == 'f' && "file"@[1] == 'i' && "file"@[2] == 'l' && "file"@[3] == 'e',
        "file_bytes"@.len() == 10 && "file_bytes"@[0] == 'f' && "file_bytes"@[1] == 'i' && "file_bytes"@[2] == 'l' && "file_bytes"@[3] == 'e' && "file_bytes"@[4] == '_' && "file_bytes"@[5] == 'b' && "file_bytes"@[6] == 'y' && "file_bytes"@[7] == 't' && "file_bytes"@[8] == 'e' && "file_bytes"@[9] == 's',
        "file_img_dimensions"@.len() == 19 && "file_img_dimensions"@[0] == 'f' && "file_img_dimensions"@[1] == 'i' && "file_img_dimensions"@[2] == 'l' && "file_img_dimensions"@[3] == 'e' && "file_img_dimensions"@[4] == '_' && "file_img_dimensions"@[5] == 'i' && "file_img_dimensions"@[6] == 'm' && "file_img_dimensions"@[7] == 'g' && "file_img_dimensions"@[8] == '_' && "file_img_dimensions"@[9] == 'd' && "file_img_dimensions"@[10] == 'i' && "file_img_dimensions"@[11] == 'm' && "file_img_dimensions"@[12] == 'e' && "file_img_dimensions"@[13] == 'n' && "file_img_dimensions"@[14] == 's' && "file_img_dimensions"@[15] == 'i' && "file_img_dimensions"@[16] == 'o' && "file_img_dimensions"@[17] == 'n' && "file_img_dimensions"@[18] == 's',
        "filter"@.len() == 6 && "filter"@[0] == 'f' && "filter"@[1] == 'i' && "filter"@[2] == 'l' && "filter"@[3] == 't' && "filter"@[4] == 'e' && "filter"@[5] == 'r',
        "fl_stk"@.len() == 6 && "fl_stk"@[0] == 'f' && "fl_stk"@[1] == 'l' && "fl_stk"@[2] == '_' && "fl_stk"@[3] == 's' && "fl_stk"@[4] == 't' && "fl_stk"@[5] == 'k',
        "folder"@.len() == 6 && "folder"@[0] == 'f' && "folder"@[1] == 'o' && "folder"@[2] == 'l' && "folder"@[3] == 'd' && "folder"@[4] == 'e' && "folder"@[5] == 'r',
        "font"@.len() == 4 && "font"@[0] == 'f' && "font"@[1] == 'o' && "font"@[2] == 'n' && "font"@[3] == 't',
        "format"@.len() == 6 && "format"@[0] == 'f' && "format"@[1] == 'o' && "format"@[2] == 'r' && "format"@[3] == 'm' && "format"@[4] == 'a' && "format"@[5] == 't',
        "free_file"@.len() == 9 && "free_file"@[0] == 'f' && "free_file"@[1] == 'r' && "free_file"@[2] == 'e' && "free_file"@[3] == 'e' && "free_file"@[4] == '_' && "free_file"@[5] == 'f' && "free_file"@[6] == 'i' && "free_file"@[7] == 'l' && "free_file"@[8] == 'e',
        "from_base64"@.len() == 11 && "from_base64"@[0] == 'f' && "from_base64"@[1] == 'r' && "from_base64"@[2] == 'o' && "from_base64"@[3] == 'm' && "from_base64"@[4] == '_' && "from_base64"@[5] == 'b' && "from_base64"@[6] == 'a' && "from_base64"@[7] == 's' && "from_base64"@[8] == 'e' && "from_base64"@[9] == '6' && "from_base64"@[10] == '4',
        "full_stem"@.len() == 9 && "full_stem"@[0] == 'f' && "full_stem"@[1] == 'u' && "full_stem"@[2] == 'l' && "full_stem"@[3] == 'l' && "full_stem"@[4] == '_' && "full_stem"@[5] == 's' && "full_stem"@[6] == 't' && "full_stem"@[7] == 'e' && "full_stem"@[8] == 'm',
        "get"@.len() == 3 && "get"@[0] == 'g' && "get"@[1] == 'e' && "get"@[2] == 't',
        "groups"@.len() == 6 && "groups"@[0] == 'g' && "groups"@[1] == 'r' && "groups"@[2] == 'o' && "groups"@[3] == 'u' && "groups"@[4] == 'p' && "groups"@[5] == 's',
        "gt"@.len() == 2 && "gt"@[0] == 'g' && "gt"@[1] == 't',
        "gte"@.len() == 3 && "gte"@[0] == 'g' && "gte"@[1] == 't' && "gte"@[2] == 'e',
        "html_esc"@.len() == 8 && "html_esc"@[0] == 'h' && "html_esc"@[1] == 't' && "html_esc"@[2] == 'm' && "html_esc"@[3] == 'l' && "html_esc"@[4] == '_' && "html_esc"@[5] == 'e' && "html_esc"@[6] == 's' && "html_esc"@[7] == 'c',
        "index_of"@.len() == 8 && "index_of"@[0] == 'i' && "index_of"@[1] == 'n' && "index_of"@[2] == 'd' && "index_of"@[3] == 'e' && "index_of"@[4] == 'x' && "index_of"@[5] == '_' && "index_of"@[6] == 'o' && "index_of"@[7] == 'f',
        "is_dir"@.len() == 6 && "is_dir"@[0] == 'i' && "is_dir"@[1] == 's' && "is_dir"@[2] == '_' && "is_dir"@[3] == 'd' && "is_dir"@[4] == 'i' && "is_dir"@[5] == 'r',
        "is_file"@.len() == 7 && "is_file"@[0] == 'i' && "is_file"@[1] == 's' && "is_file"@[2] == '_' && "is_file"@[3] == 'f' && "is_file"@[4] == 'i' && "is_file"@[5] == 'l' && "is_file"@[6] == 'e',
        "is_null"@.len() == 7 && "is_null"@[0] == 'i' && "is_null"@[1] == 's' && "is_null"@[2] == '_' && "is_null"@[3] == 'n' && "is_null"@[4] == 'u' && "is_null"@[5] == 'l' && "is_null"@[6] == 'l',
        "is_num"@.len() == 6 && "is_num"@[0] == 'i' && "is_num"@[1] == 's' && "is_num"@[2] == '_' && "is_num"@[3] == 'n' && "is_num"@[4] == 'u' && "is_num"@[5] == 'm',
        "join"@.len() == 4 && "join"@[0] == 'j' && "join"@[1] == 'o' && "join"@[2] == 'i' && "join"@[3] == 'n',
        "join_with"@.len() == 9 && "join_with"@[0] == 'j' && "join_with"@[1] == 'o' && "join_with"@[2] == 'i' && "join_with"@[3] == 'n' && "join_with"@[4] == '_' && "join_with"@[5] == 'w' && "join_with"@[6] == 'i' && "join_with"@[7] == 't' && "join_with"@[8] == 'h',
        "len"@.len() == 3 && "len"@[0] == 'l' && "len"@[1] == 'e' && "len"@[2] == 'n',
        "list"@.len() == 4 && "list"@[0] == 'l' && "list"@[1] == 'i' && "list"@[2] == 's' && "list"@[3] == 't',
        "lists"@.len() == 5 && "lists"@[0] == 'l' && "lists"@[1] == 'i' && "lists"@[2] == 's' && "lists"@[3] == 't' && "lists"@[4] == 's',
        "lt"@.len() == 2 && "lt"@[0] == 'l' && "lt"@[1] == 't',
        "lte"@.len() == 3 && "lte"@[0] == 'l' && "lte"@[1] == 't' && "lte"@[2] == 'e',
        "map"@.len() == 3 && "map"@[0] == 'm' && "map"@[1] == 'a' && "map"@[2] == 'p',
        "maps"@.len() == 4 && "maps"@[0] == 'm' && "maps"@[1] == 'a' && "maps"@[2] == 'p' && "maps"@[3] == 's',
        "math"@.len() == 4 && "math"@[0] == 'm' && "math"@[1] == 'a' && "math"@[2] == 't' && "math"@[3] == 'h',
        "max"@.len() == 3 && "max"@[0] == 'm' && "max"@[1] == 'a' && "max"@[2] == 'x',
        "md"@.len() == 2 && "md"@[0] == 'm' && "md"@[1] == 'd',
        "min"@.len() == 3 && "min"@[0] == 'm' && "min"@[1] == 'i' && "min"@[2] == 'n',
        "mod"@.len() == 3 && "mod"@[0] == 'm' && "mod"@[1] == 'o' && "mod"@[2] == 'd',
        "mul"@.len() == 3 && "mul"@[0] == 'm' && "mul"@[1] == 'u' && "mul"@[2] == 'l',
        "nand"@.len() == 4 && "nand"@[0] == 'n' && "nand"@[1] == 'a' && "nand"@[2] == 'n' && "nand"@[3] == 'd',
        "neq"@.len() == 3 && "neq"@[0] == 'n' && "neq"@[1] == 'e' && "neq"@[2] == 'q',
        "nor"@.len() == 3 && "nor"@[0] == 'n' && "nor"@[1] == 'o' && "nor"@[2] == 'r',
        "or"@.len() == 2 && "or"@[0] == 'o' && "or"@[1] == 'r',
        "parent"@.len() == 6 && "parent"@[0] == 'p' && "parent"@[1] == 'a' && "parent"@[2] == 'r' && "parent"@[3] == 'e' && "parent"@[4] == 'n' && "parent"@[5] == 't',
        "path"@.len() == 4 && "path"@[0] == 'p' && "path"@[1] == 'a' && "path"@[2] == 't' && "path"@[3] == 'h',
        "r_card"@.len() == 6 && "r_card"@[0] == 'r' && "r_card"@[1] == '_' && "r_card"@[2] == 'c' && "r_card"@[3] == 'a' && "r_card"@[4] == 'r' && "r_card"@[5] == 'd',
        "r_json"@.len() == 6 && "r_json"@[0] == 'r' && "r_json"@[1] == '_' && "r_json"@[2] == 'j' && "r_json"@[3] == 's' && "r_json"@[4] == 'o' && "r_json"@[5] == 'n',
        "rand"@.len() == 4 && "rand"@[0] == 'r' && "rand"@[1] == 'a' && "rand"@[2] == 'n' && "rand"@[3] == 'd',
        "random"@.len() == 6 && "random"@[0] == 'r' && "random"@[1] == 'a' && "random"@[2] == 'n' && "random"@[3] == 'd' && "random"@[4] == 'o' && "random"@[5] == 'm',
        "regex"@.len() == 5 && "regex"@[0] == 'r' && "regex"@[1] == 'e' && "regex"@[2] == 'g' && "regex"@[3] == 'e' && "regex"@[4] == 'x',
        "scan_dir"@.len() == 8 && "scan_dir"@[0] == 's' && "scan_dir"@[1] == 'c' && "scan_dir"@[2] == 'a' && "scan_dir"@[3] == 'n' && "scan_dir"@[4] == '_' && "scan_dir"@[5] == 'd' && "scan_dir"@[6] == 'i' && "scan_dir"@[7] == 'r',
        "slice"@.len() == 5 && "slice"@[0] == 's' && "slice"@[1] == 'l' && "slice"@[2] == 'i' && "slice"@[3] == 'c' && "slice"@[4] == 'e',
        "sort"@.len() == 4 && "sort"@[0] == 's' && "sort"@[1] == 'o' && "sort"@[2] == 'r' && "sort"@[3] == 't',
        "sort_on"@.len() == 7 && "sort_on"@[0] == 's' && "sort_on"@[1] == 'o' && "sort_on"@[2] == 'r' && "sort_on"@[3] == 't' && "sort_on"@[4] == '_' && "sort_on"@[5] == 'o' && "sort_on"@[6] == 'n',
        "split"@.len() == 5 && "split"@[0] == 's' && "split"@[1] == 'p' && "split"@[2] == 'l' && "split"@[3] == 'i' && "split"@[4] == 't',
        "stem"@.len() == 4 && "stem"@[0] == 's' && "stem"@[1] == 't' && "stem"@[2] == 'e' && "stem"@[3] == 'm',
        "str_contains"@.len() == 12 && "str_contains"@[0] == 's' && "str_contains"@[1] == 't' && "str_contains"@[2] == 'r' && "str_contains"@[3] == '_' && "str_contains"@[4] == 'c' && "str_contains"@[5] == 'o' && "str_contains"@[6] == 'n' && "str_contains"@[7] == 't' && "str_contains"@[8] == 'a' && "str_contains"@[9] == 'i' && "str_contains"@[10] == 'n' && "str_contains"@[11] == 's',
        "str_replace"@.len() == 11 && "str_replace"@[0] == 's' && "str_replace"@[1] == 't' && "str_replace"@[2] == 'r' && "str_replace"@[3] == '_' && "str_replace"@[4] == 'r' && "str_replace"@[5] == 'e' && "str_replace"@[6] == 'p' && "str_replace"@[7] == 'l' && "str_replace"@[8] == 'a' && "str_replace"@[9] == 'c' && "str_replace"@[10] == 'e',
        "str_replace_n"@.len() == 13 && "str_replace_n"@[0] == 's' && "str_replace_n"@[1] == 't' && "str_replace_n"@[2] == 'r' && "str_replace_n"@[3] == '_' && "str_replace_n"@[4] == 'r' && "str_replace_n"@[5] == 'e' && "str_replace_n"@[6] == 'p' && "str_replace_n"@[7] == 'l' && "str_replace_n"@[8] == 'a' && "str_replace_n"@[9] == 'c' && "str_replace_n"@[10] == 'e' && "str_replace_n"@[11] == '_' && "str_replace_n"@[12] == 'n',
        "string_from_ints"@.len() == 16 && "string_from_ints"@[0] == 's' && "string_from_ints"@[1] == 't' && "string_from_ints"@[2] == 'r' && "string_from_ints"@[3] == 'i' && "string_from_ints"@[4] == 'n' && "string_from_ints"@[5] == 'g' && "string_from_ints"@[6] == '_' && "string_from_ints"@[7] == 'f' && "string_from_ints"@[8] == 'r' && "string_from_ints"@[9] == 'o' && "string_from_ints"@[10] == 'm' && "string_from_ints"@[11] == '_' && "string_from_ints"@[12] == 'i' && "string_from_ints"@[13] == 'n' && "string_from_ints"@[14] == 't' && "string_from_ints"@[15] == 's',
        "strings"@.len() == 7 && "strings"@[0] == 's' && "strings"@[1] == 't' && "strings"@[2] == 'r' && "strings"@[3] == 'i' && "strings"@[4] == 'n' && "strings"@[5] == 'g' && "strings"@[6] == 's',
        "sub"@.len() == 3 && "sub"@[0] == 's' && "sub"@[1] == 'u' && "sub"@[2] == 'b',
        "svg"@.len() == 3 && "svg"@[0] == 's' && "svg"@[1] == 'v' && "svg"@[2] == 'g',
        "table"@.len() == 5 && "table"@[0] == 't' && "table"@[1] == 'a' && "table"@[2] == 'b' && "table"@[3] == 'l' && "table"@[4] == 'e',
        "type_of"@.len() == 7 && "type_of"@[0] == 't' && "type_of"@[1] == 'y' && "type_of"@[2] == 'p' && "type_of"@[3] == 'e' && "type_of"@[4] == '_' && "type_of"@[5] == 'o' && "type_of"@[6] == 'f',
        "w_json"@.len() == 6 && "w_json"@[0] == 'w' && "w_json"@[1] == '_' && "w_json"@[2] == 'j' && "w_json"@[3] == 's' && "w_json"@[4] == 'o' && "w_json"@[5] == 'n',
        "with_ext"@.len() == 8 && "with_ext"@[0] == 'w' && "with_ext"@[1] == 'i' && "with_ext"@[2] == 't' && "with_ext"@[3] == 'h' && "with_ext"@[4] == '_' && "with_ext"@[5] == 'e' && "with_ext"@[6] == 'x' && "with_ext"@[7] == 't',
        "word_wrap"@.len() == 9 && "word_wrap"@[0] == 'w' && "word_wrap"@[1] == 'o' && "word_wrap"@[2] == 'r' && "word_wrap"@[3] == 'd' && "word_wrap"@[4] == '_' && "word_wrap"@[5] == 'w' && "word_wrap"@[6] == 'r' && "word_wrap"@[7] == 'a' && "word_wrap"@[8] == 'p',
        "write"@.len() == 5 && "write"@[0] == 'w' && "write"@[1] == 'r' && "write"@[2] == 'i' && "write"@[3] == 't' && "write"@[4] == 'e',
        "xml_esc"@.len() == 7 && "xml_esc"@[0] == 'x' && "xml_esc"@[1] == 'm' && "xml_esc"@[2] == 'l' && "xml_esc"@[3] == '_' && "xml_esc"@[4] == 'e' && "xml_esc"@[5] == 's' && "xml_esc"@[6] == 'c',
        "xy"@.len() == 2 && "xy"@[0] == 'x' && "xy"@[1] == 'y',
        "xy12"@.len() == 4 && "xy12"@[0] == 'x' && "xy12"@[1] == 'y' && "xy12"@[2] == '1' && "xy12"@[3] == '2',
        "xywh"@.len() == 4 && "xywh"@[0] == 'x' && "xywh"@[1] == 'y' && "xywh"@[2] == 'w' && "xywh"@[3] == 'h',
{
    reveal_strlit("add"); reveal_strlit("and"); reveal_strlit("append"); reveal_strlit("as_base64"); reveal_strlit("base_name"); reveal_strlit("base_name_sure"); reveal_strlit("bin_get"); reveal_strlit("bin_search"); reveal_strlit("bools"); reveal_strlit("bread_crumbs"); reveal_strlit("bytes"); reveal_strlit("cat"); reveal_strlit("cxyrr"); reveal_strlit("debug"); reveal_strlit("dir"); reveal_strlit("div"); reveal_strlit("env"); reveal_strlit("eq"); reveal_strlit("eq_any"); reveal_strlit("exec"); reveal_strlit("exec_stdin"); reveal_strlit("file"); reveal_strlit("file_bytes"); reveal_strlit("file_img_dimensions"); reveal_strlit("filter"); reveal_strlit("fl_stk"); reveal_strlit("folder"); reveal_strlit("font"); reveal_strlit("format"); reveal_strlit("free_file"); reveal_strlit("from_base64"); reveal_strlit("full_stem"); reveal_strlit("get"); reveal_strlit("groups"); reveal_strlit("gt"); reveal_strlit("gte"); reveal_strlit("html_esc"); reveal_strlit("index_of"); reveal_strlit("is_dir"); reveal_strlit("is_file"); reveal_strlit("is_null"); reveal_strlit("is_num"); reveal_strlit("join"); reveal_strlit("join_with"); reveal_strlit("len"); reveal_strlit("list"); reveal_strlit("lists"); reveal_strlit("lt"); reveal_strlit("lte"); reveal_strlit("map"); reveal_strlit("maps"); reveal_strlit("math"); reveal_strlit("max"); reveal_strlit("md"); reveal_strlit("min"); reveal_strlit("mod"); reveal_strlit("mul"); reveal_strlit("nand"); reveal_strlit("neq"); reveal_strlit("nor"); reveal_strlit("or"); reveal_strlit("parent"); reveal_strlit("path"); reveal_strlit("r_card"); reveal_strlit("r_json"); reveal_strlit("rand"); reveal_strlit("random"); reveal_strlit("regex"); reveal_strlit("scan_dir"); reveal_strlit("slice"); reveal_strlit("sort"); reveal_strlit("sort_on"); reveal_strlit("split"); reveal_strlit("stem"); reveal_strlit("str_contains"); reveal_strlit("str_replace"); reveal_strlit("str_replace_n"); reveal_strlit("string_from_ints"); reveal_strlit("strings"); reveal_strlit("sub"); reveal_strlit("svg"); reveal_strlit("table"); reveal_strlit("type_of"); reveal_strlit("w_json"); reveal_strlit("with_ext"); reveal_strlit("word_wrap"); reveal_strlit("write"); reveal_strlit("xml_esc"); reveal_strlit("xy"); reveal_strlit("xy12"); reveal_strlit("xywh");
}
/// no name of the default set is bound to a function of a module with effects
pub open spec fn effect_module(m: Seq<char>) -> bool { m == "folder"@ || m == "free_file"@ || m == "exec"@ || m == "write"@ }
proof fn law_c02_default(k: Seq<char>)
    ensures defaults_at(k) matches Some(f) ==> !effect_module(f.module) && f.at is None,
{
    lit_facts();
}
/// the effectful names are in no default set
proof fn law_c02_absent(k: Seq<char>)
    requires k == "dir"@ || k == "file"@ || k == "file_bytes"@ || k == "is_file"@ || k == "is_dir"@ || k == "scan_dir"@ || k == "file_img_dimensions"@ || k == "write"@ || k == "exec"@ || k == "exec_stdin"@ || k == "env"@,
    ensures defaults_at(k) is None,
{
    lit_facts();
}
}
}
