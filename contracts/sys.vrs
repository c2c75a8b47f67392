// The operating system as the host functions see it. Every operation asks for a
// permission in its precondition (may_*); a function under contract has only the
// permissions its own precondition grants, so an operation outside them is a failed
// obligation. Contents are uninterpreted functions of the path.
pub mod sys {
use vstd::prelude::*;
use crate::stubs::anyhow;
verus!{
/// a lexical component of a path
pub enum Comp { Root, Cur, Parent, Name(Seq<char>) }
/// the components of the text of a path
pub uninterp spec fn comps(t: Seq<char>) -> Seq<Comp>;
pub open spec fn is_abs(t: Seq<char>) -> bool { t.len() > 0 && t[0] == '/' }
/// `Path::join` on the texts (Unix)
pub open spec fn path_join(p: Seq<char>, s: Seq<char>) -> Seq<char> {
    if is_abs(s) { s } else if p.len() == 0 || p.last() == '/' { p + s } else { p.push('/') + s }
}
/// what joining does to the components
pub open spec fn join_comps(p: Seq<Comp>, s: Seq<Comp>) -> Seq<Comp> {
    if s.len() > 0 && s[0] is Root { s }
    else if p.len() > 0 && s.len() > 0 && s[0] is Cur { p + s.skip(1) }
    else { p + s }
}
pub broadcast axiom fn axiom_comps_join(p: Seq<char>, s: Seq<char>)
    ensures comps(#[trigger] path_join(p, s)) == join_comps(comps(p), comps(s));
/// a root and a leading '.' come first, if at all
pub broadcast axiom fn axiom_comps_wf(t: Seq<char>, i: int)
    ensures 0 < i < comps(t).len() ==> !(#[trigger] comps(t)[i] is Root) && !(comps(t)[i] is Cur);
pub broadcast axiom fn axiom_comps_len(t: Seq<char>)
    ensures #[trigger] comps(t).len() <= isize::MAX;
/// the names below the start a relative path ends at, every '..' taken back;
/// none if it climbs above the start or is no relative path
pub open spec fn resolved(c: Seq<Comp>) -> Option<Seq<Seq<char>>>
    decreases c.len()
{
    if c.len() == 0 { Some(Seq::empty()) } else {
        match (resolved(c.drop_last()), c.last()) {
            (Some(n), Comp::Name(x)) => Some(n.push(x)),
            (Some(n), Comp::Parent) => if n.len() > 0 { Some(n.drop_last()) } else { None },
            (Some(n), Comp::Cur) => Some(n),
            _ => None,
        }
    }
}
/// r lies, lexically, in p
pub open spec fn inside(p: Seq<char>, r: Seq<char>) -> bool {
    comps(p).len() <= comps(r).len() && comps(r).take(comps(p).len() as int) == comps(p)
        && resolved(comps(r).skip(comps(p).len() as int)) is Some
}
// ---- the permissions
/// look at a path: metadata, listing, reading
pub uninterp spec fn may_look(p: Seq<char>) -> bool;
/// make the directory and those above it
pub uninterp spec fn may_make(p: Seq<char>) -> bool;
/// open for writing so that it holds this text
pub uninterp spec fn may_put(p: Seq<char>, text: Seq<char>) -> bool;
/// start this program with these arguments
pub struct CView { pub prog: Seq<char>, pub args: Seq<Seq<char>> }
pub uninterp spec fn may_run(c: CView) -> bool;
/// write to its standard input
pub uninterp spec fn may_feed(text: Seq<char>) -> bool;
pub uninterp spec fn may_env(n: Seq<char>) -> bool;
// ---- the contents
pub uninterp spec fn fs_file(p: Seq<char>) -> bool;
pub uninterp spec fn fs_dir(p: Seq<char>) -> bool;
pub uninterp spec fn fs_text(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn fs_bytes(p: Seq<char>) -> Option<Seq<u8>>;
/// it can be opened for reading
pub uninterp spec fn fs_open(p: Seq<char>) -> bool;
/// what a read of it as text leaves in the buffer when it fails
pub uninterp spec fn fs_part(p: Seq<char>) -> Seq<char>;
/// what an entry of a directory is; not followed if it is a link
pub enum Kind { File, Dir, Other }
/// at some time p held exactly this text, written by this call
pub uninterp spec fn put_done(p: Seq<char>, text: Seq<char>) -> bool;
} // verus!
pub mod io {
use vstd::prelude::*;
use crate::stubs::anyhow;
verus!{
#[verifier::external_body]
pub struct Error { _p: () }
pub type Result<T> = core::result::Result<T, Error>;
impl From<Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: Error) -> Self { unimplemented!() }
}
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExFromUtf8Error(std::string::FromUtf8Error);
impl From<std::string::FromUtf8Error> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: std::string::FromUtf8Error) -> Self { unimplemented!() }
}
pub assume_specification [std::string::String::from_utf8] (v: Vec<u8>) -> (r: core::result::Result<String, std::string::FromUtf8Error>)
    ensures match r { Ok(s) => vstd::utf8::encode_utf8(s@) == v@, Err(_) => !vstd::utf8::valid_utf8(v@) };
}
}
pub mod path {
use vstd::prelude::*;
use crate::sys::*;
use vstd::std_specs::iter::IteratorSpec;
verus!{
/// `Path` and `PathBuf` are one type here; its view is the text
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub type Path = PathBuf;
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl View for PathBuf { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
/// likewise for OsStr and OsString
#[verifier::external_body]
pub struct OsString { _p: () }
pub type OsStr = OsString;
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct Shown { _p: () }
impl View for Shown { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl Shown {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, s: &str) -> (r: bool) ensures r == s@.is_prefix_of(self@) { unimplemented!() }
}
impl OsString {
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Shown) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures r matches Some(s) ==> s@ == self@, unicode(*self) ==> r is Some { unimplemented!() }
}
/// what is looked up as a path: its text, and whether it is valid Unicode
pub trait PathLike { spec fn pv(&self) -> Seq<char>; spec fn uni(&self) -> bool; }
impl<T: PathLike + ?Sized> PathLike for &T { open spec fn pv(&self) -> Seq<char> { (**self).pv() } open spec fn uni(&self) -> bool { (**self).uni() } }
impl PathLike for PathBuf { open spec fn pv(&self) -> Seq<char> { self@ } uninterp spec fn uni(&self) -> bool; }
impl PathLike for OsString { open spec fn pv(&self) -> Seq<char> { self@ } open spec fn uni(&self) -> bool { unicode(*self) } }
impl PathLike for String { open spec fn pv(&self) -> Seq<char> { self@ } open spec fn uni(&self) -> bool { true } }
impl PathLike for str { open spec fn pv(&self) -> Seq<char> { self@ } open spec fn uni(&self) -> bool { true } }
pub uninterp spec fn unicode(s: OsString) -> bool;
#[verifier::external_body]
pub struct StripPrefixError { _p: () }
pub enum Component<'a> { Prefix(&'a OsStr), RootDir, CurDir, ParentDir, Normal(&'a OsStr) }
pub open spec fn comp_of(c: Component<'_>) -> Comp {
    match c {
        Component::RootDir | Component::Prefix(_) => Comp::Root,
        Component::CurDir => Comp::Cur,
        Component::ParentDir => Comp::Parent,
        Component::Normal(s) => Comp::Name(s@),
    }
}
impl PathBuf {
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@ == Seq::<char>::empty(), r.uni() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<P: PathLike>(p: P) -> (r: PathBuf) ensures r@ == p.pv(), r.uni() == p.uni() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<P: PathLike>(&self, p: P) -> (r: PathBuf) ensures r@ == path_join(self@, p.pv()), self.uni() && p.uni() ==> r.uni() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: PathLike>(&mut self, p: P) ensures final(self)@ == path_join(old(self)@, p.pv()), old(self).uni() && p.uni() ==> final(self).uni() { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<'a>(&'a self, p: &Path) -> (r: Result<&'a Path, StripPrefixError>)
        ensures
            r is Ok <==> comps(p@).len() <= comps(self@).len() && comps(self@).take(comps(p@).len() as int) == comps(p@),
            r matches Ok(q) ==> comps(q@) == comps(self@).skip(comps(p@).len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with(&self, p: &Path) -> (r: bool)
        ensures r <==> comps(p@).len() <= comps(self@).len() && comps(self@).take(comps(p@).len() as int) == comps(p@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn components<'a>(&'a self) -> (r: std::vec::IntoIter<Component<'a>>)
        ensures
            r.obeys_prophetic_iter_laws(), r.decrease() is Some, r.remaining().len() == comps(self@).len(),
            forall|i: int| 0 <= i < comps(self@).len() ==> comp_of(#[trigger] r.remaining()[i]) == comps(self@)[i],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures match parent_of(self@) { Some(q) => r is Some && r->0@ == q && (self.uni() ==> r->0.uni()), None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures match name_of(self@) { Some(q) => r is Some && r->0@ == q && (self.uni() ==> r->0.uni()), None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Option<&OsStr>)
        ensures match name_of(self@) { Some(q) => r is Some && r->0@ == stem_of(q) && (self.uni() ==> r->0.uni()), None => r is None },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<P: PathLike>(&self, e: P) -> (r: PathBuf) ensures r@ == ext_set(self@, e.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn with_file_name<P: PathLike>(&self, n: P) -> (r: PathBuf) ensures r@ == name_set(self@, n.pv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: Shown) ensures r@ == self@ { unimplemented!() }
}
/// the path without its last component
pub uninterp spec fn parent_of(t: Seq<char>) -> Option<Seq<char>>;
pub broadcast axiom fn axiom_parent(t: Seq<char>)
    ensures match #[trigger] parent_of(t) {
        Some(q) => comps(t).len() > 0 && !(comps(t).last() is Root) && comps(q) == comps(t).drop_last(),
        None => comps(t).len() == 0 || comps(t).last() is Root,
    };
/// the last component, if it is a name
pub open spec fn name_of(t: Seq<char>) -> Option<Seq<char>> {
    if comps(t).len() > 0 { match comps(t).last() { Comp::Name(n) => Some(n), _ => None } } else { None }
}
/// a name without its extension: up to the last '.', unless that is the first character
pub open spec fn stem_of(n: Seq<char>) -> Seq<char> {
    if last_dot(n) > 0 && n != seq!['.', '.'] { n.take(last_dot(n)) } else { n }
}
pub open spec fn last_dot(n: Seq<char>) -> int
    decreases n.len()
{
    if n.len() == 0 { -1 } else if n.last() == '.' { n.len() - 1 } else { last_dot(n.drop_last()) }
}
pub uninterp spec fn ext_set(t: Seq<char>, e: Seq<char>) -> Seq<char>;
pub uninterp spec fn name_set(t: Seq<char>, n: Seq<char>) -> Seq<char>;
/// a text that is one name in a path
pub open spec fn proper(n: Seq<char>) -> bool { n.len() > 0 && n != seq!['.'] && n != seq!['.', '.'] && !n.contains('/') }
/// a name with the extension e (none if e is empty)
pub open spec fn with_e(stem: Seq<char>, e: Seq<char>) -> Seq<char> { if e.len() == 0 { stem } else { stem + seq!['.'] + e } }
pub broadcast axiom fn axiom_ext_set(t: Seq<char>, e: Seq<char>)
    ensures
        name_of(t) is None ==> #[trigger] ext_set(t, e) == t,
        name_of(t) is Some && proper(with_e(stem_of(name_of(t)->0), e)) ==> comps(ext_set(t, e)) == comps(t).drop_last().push(Comp::Name(with_e(stem_of(name_of(t)->0), e)));
pub broadcast axiom fn axiom_name_set(t: Seq<char>, n: Seq<char>)
    ensures name_of(t) is Some && proper(n) ==> comps(#[trigger] name_set(t, n)) == comps(t).drop_last().push(Comp::Name(n));
pub broadcast axiom fn axiom_name_proper(t: Seq<char>, i: int)
    ensures 0 <= i < comps(t).len() ==> (#[trigger] comps(t)[i] matches Comp::Name(n) ==> proper(n));
pub broadcast group group_names { axiom_ext_set, axiom_name_set, axiom_name_proper }
pub broadcast group group_path { axiom_comps_join, axiom_comps_wf, axiom_comps_len, axiom_parent }
}
}
pub mod fs {
use vstd::prelude::*;
use crate::sys::*;
use crate::sys::path::*;
use crate::sys::io::Result;
use vstd::std_specs::iter::IteratorSpec;
verus!{
#[verifier::external_body]
pub struct Metadata { _p: () }
impl Metadata {
    pub uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == fs_file(self.of()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == fs_dir(self.of()) { unimplemented!() }
}
#[verifier::external_body]
pub fn metadata<P: PathLike>(p: P) -> (r: Result<Metadata>)
    requires may_look(p.pv()),
    ensures r matches Ok(m) ==> m.of() == p.pv(), r is Err ==> !fs_file(p.pv()) && !fs_dir(p.pv()),
{ unimplemented!() }
#[verifier::external_body]
pub struct File { _p: () }
pub struct FView { pub path: Seq<char>, pub put: Option<Seq<char>> }
impl View for File { type V = FView; uninterp spec fn view(&self) -> FView; }
impl File {
    #[verifier::external_body]
    pub fn open<P: PathLike>(p: P) -> (r: Result<File>)
        requires may_look(p.pv()),
        ensures
            r matches Ok(f) ==> f@ == (FView { path: p.pv(), put: None }),
            r is Err ==> fs_text(p.pv()) is None && fs_bytes(p.pv()) is None,
            r is Ok <==> fs_open(p.pv()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn create<P: PathLike>(p: P) -> (r: Result<File>)
        requires may_put(p.pv(), Seq::empty()),
        ensures r matches Ok(f) ==> f@ == (FView { path: p.pv(), put: Some(Seq::empty()) }) && put_done(p.pv(), Seq::empty()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, s: &mut String) -> (r: Result<usize>)
        ensures
            final(self)@ == old(self)@,
            match fs_text(old(self)@.path) { Some(t) => r is Ok && final(s)@ == old(s)@ + t, None => r is Err && final(s)@ == old(s)@ + fs_part(old(self)@.path) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, s: &mut Vec<u8>) -> (r: Result<usize>)
        ensures
            final(self)@ == old(self)@,
            match fs_bytes(old(self)@.path) { Some(t) => r is Ok && final(s)@ == old(s)@ + t, None => r is Err },
    { unimplemented!() }
    /// write!(file, ..)
    #[verifier::external_body]
    pub fn write_text(&mut self, s: String) -> (r: Result<()>)
        requires old(self)@.put matches Some(x) ==> may_put(old(self)@.path, x + s@),
        ensures
            final(self)@.path == old(self)@.path,
            r is Ok ==> old(self)@.put is Some && final(self)@.put == Some(old(self)@.put->0 + s@) && put_done(old(self)@.path, old(self)@.put->0 + s@),
    { unimplemented!() }
}
pub struct OpenOptions { pub read: bool, pub write: bool, pub create: bool, pub truncate: bool, pub append: bool }
impl OpenOptions {
    pub fn new() -> (r: OpenOptions) ensures r == (OpenOptions { read: false, write: false, create: false, truncate: false, append: false }) { OpenOptions { read: false, write: false, create: false, truncate: false, append: false } }
    pub fn read(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { read: b, ..self }) { OpenOptions { read: b, ..self } }
    pub fn write(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { write: b, ..self }) { OpenOptions { write: b, ..self } }
    pub fn create(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { create: b, ..self }) { OpenOptions { create: b, ..self } }
    pub fn truncate(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { truncate: b, ..self }) { OpenOptions { truncate: b, ..self } }
    pub fn append(self, b: bool) -> (r: OpenOptions) ensures r == (OpenOptions { append: b, ..self }) { OpenOptions { append: b, ..self } }
    /// only an emptied file has known contents
    #[verifier::external_body]
    pub fn open<P: PathLike>(self, p: P) -> (r: Result<File>)
        requires
            self.write ==> self.truncate && self.create && !self.append && may_put(p.pv(), Seq::empty()),
            !self.append,
            !self.write ==> may_look(p.pv()),
        ensures
            r matches Ok(f) ==> f@ == (FView { path: p.pv(), put: if self.write { Some(Seq::empty()) } else { None } }),
            r is Ok && self.write ==> put_done(p.pv(), Seq::empty()),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn create_dir_all<P: PathLike>(p: P) -> (r: Result<()>)
    requires may_make(p.pv()),
{ unimplemented!() }
/// an entry found in a directory
#[verifier::external_body]
pub struct DirEntry { _p: () }
#[verifier::external_body]
pub struct FileType { _p: () }
impl FileType {
    pub uninterp spec fn kind(&self) -> Kind;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == (self.kind() is File) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == (self.kind() is Dir) { unimplemented!() }
}
impl DirEntry {
    pub uninterp spec fn dir(&self) -> Seq<char>;
    pub uninterp spec fn name(&self) -> Seq<char>;
    pub uninterp spec fn kind(&self) -> Option<Kind>;
    /// its path is valid Unicode
    pub uninterp spec fn uni(&self) -> bool;
    #[verifier::external_body]
    pub fn path(&self) -> (r: PathBuf) ensures r@ == path_join(self.dir(), self.name()), self.uni() ==> r.uni() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: OsString) ensures r@ == self.name() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: Result<FileType>) ensures match self.kind() { Some(k) => r is Ok && r->Ok_0.kind() == k, None => r is Err } { unimplemented!() }
}
/// the entries of a directory that can be read, in the order they are listed; None if it cannot be
pub uninterp spec fn fs_list(p: Seq<char>) -> Option<Seq<DirEntry>>;
pub open spec fn oks(s: Seq<Result<DirEntry>>) -> Seq<DirEntry> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { match s.last() { Ok(e) => oks(s.drop_last()).push(e), Err(_) => oks(s.drop_last()) } }
}
/// the name of a directory entry is one plain component
pub broadcast axiom fn axiom_entry_name(e: DirEntry)
    ensures comps(#[trigger] e.name()) == seq![Comp::Name(e.name())];
#[verifier::external_body]
pub fn read_dir<P: PathLike>(p: P) -> (r: Result<std::vec::IntoIter<Result<DirEntry>>>)
    requires may_look(p.pv()),
    ensures
        r matches Ok(i) ==> i.obeys_prophetic_iter_laws() && i.decrease() is Some && fs_list(p.pv()) == Some(oks(i.remaining()))
            && forall|k: int| 0 <= k < i.remaining().len() ==> match #[trigger] i.remaining()[k] { Ok(e) => e.dir() == p.pv(), Err(_) => true },
        r is Err ==> fs_list(p.pv()) is None,
{ unimplemented!() }
}
}
pub mod process {
use vstd::prelude::*;
use crate::sys::*;
use crate::sys::io::Result;
use vstd::std_specs::iter::IteratorSpec;
verus!{
#[verifier::external_body]
pub struct Stdio { _p: () }
impl Stdio {
    #[verifier::external_body]
    pub fn piped() -> Stdio { unimplemented!() }
}
#[verifier::external_body]
pub struct Command { _p: () }
impl View for Command { type V = CView; uninterp spec fn view(&self) -> CView; }
#[verifier::external_body]
pub struct ChildStdin { _p: () }
pub struct Output { pub stdout: Vec<u8>, pub stderr: Vec<u8> }
#[verifier::external_body]
pub struct ChildStdout { _p: () }
pub struct Child { pub stdin: Option<ChildStdin>, pub stdout: Option<ChildStdout>, pub of: Ghost<CView> }
/// what it wrote to its standard output
pub uninterp spec fn stdout_of(c: CView) -> Seq<u8>;
/// a program was started
pub uninterp spec fn ran(c: CView) -> bool;
impl Command {
    #[verifier::external_body]
    pub fn new(p: String) -> (r: Command) ensures r@ == (CView { prog: p@, args: Seq::empty() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg(self, a: String) -> (r: Command) ensures r@ == (CView { prog: self@.prog, args: self@.args.push(a@) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn args<I: Iterator<Item = String>>(self, i: I) -> (r: Command)
        requires i.obeys_prophetic_iter_laws(),
        ensures i.will_return_none(), r@ == (CView { prog: self@.prog, args: self@.args + Seq::new(i.remaining().len(), |k: int| i.remaining()[k]@) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(self, s: Stdio) -> (r: Command) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(self, s: Stdio) -> (r: Command) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn output(self) -> (r: Result<Output>)
        requires may_run(self@),
        ensures r matches Ok(o) ==> ran(self@) && o.stdout@ == stdout_of(self@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(self) -> (r: Result<Child>)
        requires may_run(self@),
        ensures r matches Ok(c) ==> ran(self@) && c.of@ == self@ && (c.stdin matches Some(i) ==> i.so_far() == Seq::<char>::empty()) && (c.stdout matches Some(o) ==> o.of() == self@),
    { unimplemented!() }
}
/// a program was fed this text
pub uninterp spec fn fed(text: Seq<char>) -> bool;
impl ChildStdin {
    pub uninterp spec fn so_far(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_text(&mut self, s: String) -> (r: Result<()>)
        requires may_feed(old(self).so_far() + s@),
        ensures r is Ok ==> fed(old(self).so_far() + s@) && final(self).so_far() == old(self).so_far() + s@,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures final(self).so_far() == old(self).so_far() { unimplemented!() }
}
impl ChildStdout {
    /// the command whose output this is, nothing of it read yet
    pub uninterp spec fn of(&self) -> CView;
    #[verifier::external_body]
    pub fn read_to_end(&mut self, v: &mut Vec<u8>) -> (r: Result<usize>)
        ensures r is Ok ==> final(v)@ == old(v)@ + stdout_of(old(self).of()),
    { unimplemented!() }
}
#[verifier::external_body]
pub struct ExitStatus { _p: () }
impl Child {
    #[verifier::external_body]
    pub fn wait(&mut self) -> (r: Result<ExitStatus>) { unimplemented!() }
    #[verifier::external_body]
    pub fn wait_with_output(self) -> (r: Result<Output>) ensures r matches Ok(o) ==> o.stdout@ == stdout_of(self.of@) { unimplemented!() }
}
}
}
pub mod thread {
use vstd::prelude::*;
verus!{
#[verifier::external_body]
pub struct ThreadError { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct JoinHandle<T> { _p: std::marker::PhantomData<T> }
impl<T> JoinHandle<T> {
    pub uninterp spec fn gives(&self, r: T) -> bool;
    #[verifier::external_body]
    pub fn join(self) -> (r: Result<T, ThreadError>) ensures r matches Ok(x) ==> self.gives(x) { unimplemented!() }
}
#[verifier::external_body]
pub fn spawn<F: FnOnce() -> T, T>(f: F) -> (h: JoinHandle<T>)
    requires f.requires(()),
    ensures forall|r: T| #[trigger] h.gives(r) ==> f.ensures((), r),
{ unimplemented!() }
}
}
pub mod env {
use vstd::prelude::*;
use crate::sys::*;
verus!{
#[verifier::external_body]
pub struct VarError { _p: () }
pub uninterp spec fn env_of(n: Seq<char>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn var(n: &String) -> (r: Result<String, VarError>)
    requires may_env(n@),
    ensures match env_of(n@) { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err },
{ unimplemented!() }
}
}
pub mod image {
use vstd::prelude::*;
use crate::sys::*;
use crate::sys::path::PathLike;
use crate::stubs::anyhow;
verus!{
#[verifier::external_body]
pub struct ImageError { _p: () }
impl From<ImageError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: ImageError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct DynamicImage { _p: () }
impl DynamicImage {
    #[verifier::external_body]
    pub fn width(&self) -> u32 { unimplemented!() }
    #[verifier::external_body]
    pub fn height(&self) -> u32 { unimplemented!() }
}
#[verifier::external_body]
pub fn open<P: PathLike>(p: P) -> Result<DynamicImage, ImageError>
    requires may_look(p.pv()),
{ unimplemented!() }
}
}
pub mod imagesize {
use vstd::prelude::*;
use crate::sys::*;
use crate::sys::path::PathLike;
use crate::stubs::anyhow;
verus!{
#[verifier::external_body]
pub struct ImageError { _p: () }
impl From<ImageError> for anyhow::Error {
    #[verifier::external_body]
    fn from(e: ImageError) -> Self { unimplemented!() }
}
pub struct ImageSize { pub width: usize, pub height: usize }
#[verifier::external_body]
pub fn size<P: PathLike>(p: P) -> Result<ImageSize, ImageError>
    requires may_look(p.pv()),
{ unimplemented!() }
}
}
}
