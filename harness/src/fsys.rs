//! C01, C02, C24, C25, C30: functions with effects, run inside a scratch directory.
//!
//! Every path a case can name climbs at most six levels above the locked folder, or
//! starts at the scratch directory, so that even without any lock the functions reach
//! only scratch files; the searching thread also drops its file-system user id.
use crate::cx::*;
use crate::val::{Rng, V, V::*};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use templito::func_man::{BasicFuncs, FuncManager, WithFuncs};

const PNG: &[u8] = &[
    0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a, 0, 0, 0, 0x0d, 0x49, 0x48, 0x44, 0x52, 0, 0, 0, 1, 0, 0, 0, 1, 8, 6, 0, 0, 0, 0x1f, 0x15, 0xc4, 0x89, 0, 0, 0, 0x0d, 0x49, 0x44,
    0x41, 0x54, 0x78, 0x9c, 0x63, 0x60, 0x60, 0x60, 0xf8, 0x0f, 0, 1, 4, 1, 0, 0x5f, 0xe5, 0xc3, 0x4b, 0, 0, 0, 0, 0x49, 0x45, 0x4e, 0x44, 0xae, 0x42, 0x60, 0x82,
];
const FILES: &[(&str, &[u8])] = &[
    ("lock/f.txt", b"in f"),
    ("lock/a/g.txt", b"in a/g"),
    ("lock/a/b/h.txt", b"deep h\n"),
    ("lock/a/_skip.txt", b"skipped"),
    ("lock/_hid.txt", b"hidden"),
    ("lock/empty.txt", b""),
    ("lock/..dots/k", b"dots k"),
    ("lock/sp ace.txt", "sp \u{e9}".as_bytes()),
    ("lock/bytes.bin", &[0, 159, 146, 150, 255]),
    ("lock/img.png", PNG),
    ("lock/deep/b/c/d/e.txt", b"deeper\n"),
    ("lock/a/.hid", b"dot"),
    ("lock/ pre", b"space before"),
    ("lock/pre", b"none before"),
    ("lock/post ", b"space after"),
    ("lock/post", b"none after"),
    ("lock/A/G.txt", b"capitals"),
    ("lock/nl\nx", b"\r\nline ends\r\n\r\n"),
    ("lock/bom.txt", b"\xef\xbb\xbfmarked"),
    ("lock/two.dots.txt", b"two"),
    ("f.txt", b"SECRET f"),
    ("img.png", PNG),
    ("a/g.txt", b"SECRET a/g"),
    ("lockdown/f.txt", b"SECRET lockdown"),
    ("lock.txt", b"SECRET lock.txt"),
];
pub struct Fx {
    /// the scratch tree; holds `lock`
    s: PathBuf,
    lock: PathBuf,
}
impl Fx {
    pub fn new(dir: &Path) -> Fx {
        let s = dir.join("u1/u2/u3/u4/u5/u6/s");
        let fx = Fx { lock: s.join("lock"), s };
        fx.fill();
        fx
    }
    fn fill(&self) {
        assert!(self.s.ends_with("u6/s"));
        let _ = std::fs::remove_dir_all(&self.s);
        for (p, c) in FILES {
            let p = self.s.join(p);
            std::fs::create_dir_all(p.parent().unwrap()).unwrap();
            std::fs::write(p, c).unwrap();
        }
        std::fs::create_dir_all(self.s.join("lock/none")).unwrap();
        // neither a file nor a folder, and nothing can be read from it
        let _ = std::os::unix::net::UnixListener::bind(self.s.join("lock/sock"));
    }
    /// the folder a set is locked to; `@new`: one that is not there yet
    fn lock_of(&self, set: &str) -> PathBuf {
        if set.ends_with("@new") { self.s.join("fresh/l") } else { self.lock.clone() }
    }
    fn text(&self, t: &str) -> String {
        t.replace("$S", self.s.to_str().unwrap())
    }
    fn v(&self, a: &V) -> V {
        match a {
            Str(t) => Str(self.text(t)),
            List(l) => List(l.iter().map(|x| self.v(x)).collect()),
            x => x.clone(),
        }
    }
    /// everything in the scratch tree, and above it up to the scratch directory
    fn snap(&self) -> BTreeMap<PathBuf, Option<Vec<u8>>> {
        let mut m = BTreeMap::new();
        let top = self.s.ancestors().nth(7).unwrap().to_path_buf();
        let mut todo = vec![top.join("u1")];
        if let Ok(l) = std::fs::read_dir(&top) {
            for e in l.flatten() {
                m.insert(e.path(), None);
            }
        }
        while let Some(d) = todo.pop() {
            for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
                if e.file_type().map(|t| t.is_dir()).unwrap_or(false) {
                    m.insert(e.path(), None);
                    todo.push(e.path());
                } else if e.file_type().map(|t| t.is_symlink()).unwrap_or(false) {
                    m.insert(e.path(), Some(vec![]));
                } else {
                    m.insert(e.path(), Some(std::fs::read(e.path()).unwrap_or_default()));
                }
            }
        }
        m
    }
}

fn parts(t: &str) -> Vec<&str> {
    t.split('/').filter(|x| !x.is_empty() && *x != ".").collect()
}
#[derive(PartialEq, Debug)]
enum Place {
    /// names only: must be accepted
    Plain,
    /// never climbs out
    In,
    /// ends inside after having climbed out
    Back,
    Out,
}
fn place(lock: &str, t: &str) -> Place {
    let lp = parts(lock);
    if t.starts_with('/') {
        let tp = parts(t);
        if tp.len() >= lp.len() && tp[..lp.len()] == lp[..] && never_out(&tp[lp.len()..]) {
            return Place::In;
        }
        return if ends_in(&lp, &tp) { Place::Back } else { Place::Out };
    }
    let tp = parts(t);
    if never_out(&tp) {
        return if t.is_empty() || t.split('/').any(|x| x == "." || x == ".." || x.is_empty()) { Place::In } else { Place::Plain };
    }
    let mut all = lp.clone();
    all.extend(tp);
    if ends_in(&lp, &all) {
        Place::Back
    } else {
        Place::Out
    }
}
fn never_out(p: &[&str]) -> bool {
    let mut n = 0i32;
    for x in p {
        n += if *x == ".." { -1 } else { 1 };
        if n < 0 {
            return false;
        }
    }
    true
}
fn ends_in(lp: &[&str], p: &[&str]) -> bool {
    let mut o: Vec<&str> = vec![];
    for x in p {
        if *x == ".." {
            o.pop();
        } else {
            o.push(x);
        }
    }
    o.len() >= lp.len() && o[..lp.len()] == lp[..]
}

pub fn set_of(fx: &Fx, set: &str) -> BasicFuncs {
    let b = BasicFuncs::new();
    match set {
        "default" => b.with_defaults(),
        "lock" => b.with_defaults().with_folder_lock(&fx.lock),
        "wlock" => b.with_defaults().with_write_lock(&fx.lock),
        "wlock@new" => b.with_defaults().with_write_lock(fx.lock_of(set)),
        "both" => b.with_folder_lock(&fx.lock).with_write_lock(&fx.lock),
        "free" => b.with_defaults().with_free_files(),
        "exec" => b.with_defaults().with_exec(),
        "folders" => templito::func_man::func_man_folders(&fx.lock),
        // the later addition grants
        "relock" => b.with_free_files().with_defaults().with_folder_lock(&fx.lock).with_write_lock(&fx.lock),
        "refree" => b.with_folder_lock(&fx.lock).with_write_lock(&fx.lock).with_defaults().with_free_files(),
        "all" => b.with_defaults().with_free_files().with_exec(),
        _ => panic!("no set {}", set),
    }
}
fn sorted(v: &V) -> V {
    match v {
        List(l) => {
            let mut l: Vec<V> = l.iter().map(sorted).collect();
            l.sort_by_key(|x| x.js().to_string());
            List(l)
        }
        x => x.clone(),
    }
}
fn names(p: &Path) -> Option<V> {
    let mut l = vec![];
    for e in std::fs::read_dir(p).ok()? {
        l.push(Str(e.ok()?.file_name().to_str()?.to_string()));
    }
    Some(List(l))
}
fn walk(full: &Path, short: &str, depth: u64, out: &mut Vec<V>) -> Option<()> {
    for e in std::fs::read_dir(full).ok()? {
        let e = e.ok()?;
        let n = e.file_name().to_string_lossy().to_string();
        if n.starts_with('_') {
            continue;
        }
        let ft = e.file_type().ok()?;
        if ft.is_file() {
            if std::fs::File::open(e.path()).is_err() {
                continue;
            }
            out.push(List(vec![Str(e.path().display().to_string()), Str(short.to_string()), Str(n)]));
        } else if ft.is_dir() && depth > 0 {
            let sh = if short.is_empty() { n.clone() } else { format!("{}/{}", short, n) };
            walk(&full.join(&n), &sh, depth - 1, out)?;
        }
    }
    Some(())
}
/// contents of a scanned file, and what its front matter says
fn contents(k: usize) -> (Vec<u8>, Vec<(&'static str, V)>) {
    let t = |x: &str| x.as_bytes().to_vec();
    let s = |x: &str| Str(x.to_string());
    match k {
        0 => (t(""), vec![]),
        1 => (t("plain text\n"), vec![]),
        2 => (t("{{export title = \"One\"; n = 3}}body"), vec![("title", s("One")), ("n", Uint(3))]),
        3 => (t("head {{export item_path = \"mine\"; item_file = \"f\"; item_full_path = \"p\"}}"), vec![("item_path", s("mine")), ("item_file", s("f")), ("item_full_path", s("p"))]),
        4 => (t("{{export a=\"x\"}}{{@export b}}<{{$a}}>{{/export}}"), vec![("a", s("x")), ("b", s("<x>"))]),
        5 => (t("{{export a = $nope; b = 2}}{{let c=3}}"), vec![("b", Uint(2))]),
        6 => (t("{{export a=1}}{{export a=2}}"), vec![("a", Uint(2))]),
        7 => (t("{{export a=1}} {{if}"), vec![]),
        8 => (vec![0xff, 0xfe, b'x'], vec![]),
        9 => (t("{{if true}}{{export a=1}}{{/if}}"), vec![]),
        10 => (t("{{export a=\"1\"}}\u{e9}{{export b=$a}}"), vec![("a", s("1")), ("b", s("1"))]),
        _ => ("{{export a=1}}".bytes().chain([0xff]).collect(), vec![]),
    }
}
const CONTENTS: usize = 12;
/// name patterns, and which paths they match
const PATTERNS: &[(&str, fn(&str) -> bool)] = &[
    ("txt$", |p| p.ends_with("txt")),
    ("g", |p| p.contains('g')),
    ("/a/", |p| p.contains("/a/")),
    ("^/", |p| p.starts_with('/')),
    ("^$", |_| false),
    ("", |_| true),
    ("(", |_| true),
    ("x[0-9]", |p| p.as_bytes().windows(2).any(|w| w[0] == b'x' && w[1].is_ascii_digit())),
];
/// one scan of, or listing in, a tree made for it: [path, what it is]
pub fn check_scan(fx: &Fx, set: &str, op: &str, a0: &[V], tree: &J) -> Result<bool, String> {
    let root = fx.lock.join("rt");
    assert!(root.ends_with("u6/s/lock/rt"));
    let _ = std::fs::remove_dir_all(&root);
    std::fs::create_dir_all(&root).unwrap();
    let mut fm = BTreeMap::new();
    for n in tree.as_array().unwrap() {
        let (p, k) = (root.join(n[0].as_str().unwrap()), n[1].as_str().unwrap_or(""));
        let through_link = p.ancestors().skip(1).take_while(|q| *q != root).any(|q| q.is_symlink());
        if p.symlink_metadata().is_ok() || p.strip_prefix(&root).is_err() || through_link {
            continue;
        }
        if std::fs::create_dir_all(p.parent().unwrap()).is_err() {
            continue;
        }
        match k {
            "dir" => std::fs::create_dir_all(&p).unwrap(),
            "sock" => drop(std::os::unix::net::UnixListener::bind(&p)),
            "link" => drop(std::os::unix::fs::symlink(fx.lock.join("f.txt"), &p)),
            "dirlink" => drop(std::os::unix::fs::symlink(fx.lock.join("a"), &p)),
            "hard" => drop(std::fs::hard_link(fx.lock.join("f.txt"), &p)),
            "badname" => {
                use std::os::unix::ffi::OsStrExt;
                let mut b = p.as_os_str().as_bytes().to_vec();
                b.push(0xff);
                let _ = std::fs::write(std::ffi::OsStr::from_bytes(&b), b"");
            }
            _ => {
                let c = contents(n[1].as_u64().unwrap_or(0) as usize);
                std::fs::write(&p, &c.0).unwrap();
                fm.insert(p.clone(), c.1);
                if k == "" && n[2].as_bool() == Some(true) {
                    use std::os::unix::fs::PermissionsExt;
                    let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0));
                }
            }
        }
    }
    let a: Vec<V> = a0.iter().map(|x| fx.v(x)).collect();
    let at = |v: &V| if set.ends_with("free") { PathBuf::from(v.disp()) } else { fx.lock.join(v.disp()) };
    let want = if op == "dir" {
        let t: Vec<PathBuf> = a.iter().map(at).collect();
        expect("dir", &t, &a)
    } else {
        let pat = a.get(2).map(|v| v.disp());
        let ok: fn(&str) -> bool = pat.and_then(|p| PATTERNS.iter().find(|x| x.0 == p)).map(|x| x.1).unwrap_or(|_| true);
        let mut o = vec![];
        a.first().and_then(|p| walk(&at(p), "", a.get(1).and_then(|v| v.index()).unwrap_or(0), &mut o)).map(|_| {
            let mut r = vec![];
            for e in o {
                let List(e) = e else { unreachable!() };
                let Str(p) = &e[0] else { unreachable!() };
                if !ok(p) {
                    continue;
                }
                let mut m: BTreeMap<&str, V> = [("item_full_path", e[0].clone()), ("item_path", e[1].clone()), ("item_file", e[2].clone())].into();
                m.extend(fm.get(Path::new(p)).cloned().unwrap_or_default());
                r.push(crate::val::map(&m.into_iter().collect::<Vec<_>>()));
            }
            List(r)
        })
    };
    let r = call_in(&set_of(fx, set), op, &a, false);
    let _ = std::fs::remove_dir_all(&root);
    match (&want, &r) {
        (None, R::Err) => Ok(!a.is_empty()),
        (Some(w), R::Ok(g)) if (if op == "dir" && a.len() != 1 { listed(w).same(&listed(g)) } else { sorted(w).same(&sorted(g)) }) => Ok(!matches!(w, List(l) if l.is_empty())),
        (w, r) => Err(format!("{} of {:?} gave {}, not {}", op, a, r.js(), w.as_ref().map(|w| w.js()).unwrap_or(json!("error")))),
    }
}
/// lists of names, one for each folder in order
fn listed(v: &V) -> V {
    match v {
        List(l) => List(l.iter().map(sorted).collect()),
        x => x.clone(),
    }
}
/// what a reading function must give for these targets
fn expect(op: &str, t: &[PathBuf], a: &[V]) -> Option<V> {
    match op {
        "is_file" => Some(Bool(t.iter().all(|p| p.is_file()))),
        "is_dir" => Some(Bool(t.iter().all(|p| p.is_dir()))),
        "file" => t.iter().map(|p| std::fs::read_to_string(p).ok()).collect::<Option<String>>().map(Str),
        "file_bytes" => {
            let mut r = vec![];
            for p in t {
                r.extend(std::fs::read(p).ok()?);
            }
            Some(Bytes(r))
        }
        "dir" if t.len() == 1 => names(&t[0]),
        "dir" => t.iter().map(|p| names(p)).collect::<Option<Vec<_>>>().map(List),
        "file_img_dimensions" => {
            if !matches!(a.first()?, Str(_)) || std::fs::read(t.first()?).ok()? != PNG {
                return None;
            }
            Some(crate::val::map(&[("w", Uint(1)), ("h", Uint(1))]))
        }
        "scan_dir" => {
            let d = a.get(1).and_then(|v| v.index()).unwrap_or(0);
            let mut o = vec![];
            walk(t.first()?, "", d, &mut o)?;
            Some(List(o))
        }
        _ => None,
    }
}
fn scan_view(v: &V) -> V {
    match v {
        List(l) => List(
            l.iter()
                .map(|m| List(["item_full_path", "item_path", "item_file"].iter().map(|k| m.get(k).cloned().unwrap_or(Null)).collect()))
                .collect(),
        ),
        x => x.clone(),
    }
}
fn same(op: &str, w: &V, g: &V) -> bool {
    let g2 = if op == "scan_dir" { scan_view(g) } else { g.clone() };
    sorted(w).same(&sorted(&g2))
}

/// one call of a file function
pub fn check_fs(fx: &Fx, prop: &str, set: &str, op: &str, a0: &[V]) -> Result<bool, String> {
    let a: Vec<V> = a0.iter().map(|x| fx.v(x)).collect();
    let fm = set_of(fx, set);
    let locked = !set.ends_with("free");
    let lockp = fx.lock_of(set);
    let lock = lockp.to_str().unwrap();
    let tgt = |v: &V| if locked { lockp.join(v.disp()) } else { PathBuf::from(v.disp()) };
    if op == "write" {
        return check_write(fx, prop, &fm, set, &a);
    }
    let n = if matches!(op, "scan_dir" | "file_img_dimensions") { a.len().min(1) } else { a.len() };
    let t: Vec<PathBuf> = a[..n].iter().map(tgt).collect();
    let pl: Vec<Place> = a[..n].iter().map(|v| if locked { place(lock, &v.disp()) } else { Place::Plain }).collect();
    let r = call_in(&fm, op, &a, false);
    if let R::Panic(p) = &r {
        return Err(format!("{} panicked: {}", op, p));
    }
    // the free and locked forms of the predicates stop at the first argument that is none
    let used = match op {
        "is_file" => t.iter().position(|p| !p.is_file()).map(|i| i + 1).unwrap_or(n),
        "is_dir" => t.iter().position(|p| !p.is_dir()).map(|i| i + 1).unwrap_or(n),
        _ => n,
    };
    let out = pl.iter().position(|p| *p == Place::Out);
    if let Some(i) = out {
        return match r {
            R::Err => Ok(true),
            // it stopped before the argument outside
            R::Ok(Bool(false)) if used <= i && op.starts_with("is_") => Ok(true),
            R::Ok(v) => Err(format!("{} gave {} for the path {:?}, which lies outside the folder", op, v.js(), t[i])),
            R::Panic(_) => unreachable!(),
        };
    }
    let w = expect(op, &t, &a);
    match (&w, &r) {
        (None, R::Err) => Ok(n > 0),
        (Some(_), R::Err) if pl.iter().any(|p| *p != Place::Plain) => Ok(false),
        (Some(w), R::Ok(g)) if same(op, w, g) => Ok(true),
        (w, r) => Err(format!("{} of {:?} gave {}, not {}", op, t, r.js(), w.as_ref().map(|w| w.js()).unwrap_or(json!("error")))),
    }
}
fn check_write(fx: &Fx, prop: &str, fm: &BasicFuncs, set: &str, a: &[V]) -> Result<bool, String> {
    let locked = !set.ends_with("free");
    let lockp = &fx.lock_of(set);
    let before = fx.snap();
    let r = call_in(fm, "write", a, false);
    let after = fx.snap();
    if before != after {
        fx.fill();
    }
    if let R::Panic(p) = &r {
        return Err(format!("write panicked: {}", p));
    }
    let changed: Vec<&PathBuf> = after.iter().filter(|(k, v)| before.get(*k) != Some(v)).map(|(k, _)| k).chain(before.keys().filter(|k| !after.contains_key(*k))).collect();
    if a.len() < 2 {
        return if changed.is_empty() && matches!(r, R::Err) { Ok(false) } else { Err(format!("write with {} arguments gave {} and changed {:?}", a.len(), r.js(), changed)) };
    }
    let lock = lockp.to_str().unwrap();
    let arg = a[0].disp();
    let pl = if locked { place(lock, &arg) } else { Place::Plain };
    if locked {
        // the folder itself may come to be, with those it lies in
        let inside = pl != Place::Out && after.get(lockp) == Some(&None);
        if let Some(c) = changed.iter().find(|c| if lockp.starts_with(c) { !inside || before.contains_key(**c) } else { !c.starts_with(lockp) }) {
            return Err(format!("write({:?}) changed {:?}, outside the folder", arg, c));
        }
        if pl == Place::Out {
            return if matches!(r, R::Err) && changed.is_empty() { Ok(true) } else { Err(format!("write({:?}) outside the folder gave {} and changed {:?}", arg, r.js(), changed)) };
        }
    }
    let t = if locked { lockp.join(&arg) } else { PathBuf::from(&arg) };
    let want: String = if locked { a[1].disp() } else { a[1..].iter().map(|v| v.disp()).collect() };
    // the target, with every '..' resolved: no fixture is a link
    let mut real = PathBuf::new();
    for c in t.components() {
        match c {
            std::path::Component::ParentDir => {
                real.pop();
            }
            c => real.push(c),
        }
    }
    match r {
        R::Ok(_) => {
            if after.get(&real) != Some(&Some(want.clone().into_bytes())) {
                return Err(format!("after write({:?}) the file holds {:?}, not {:?}", arg, after.get(&real).cloned().flatten().map(|b| String::from_utf8_lossy(&b).to_string()), want));
            }
            // besides the file only folders on the way may be new
            if let Some(c) = changed.iter().find(|c| ***c != real && !(after.get(**c) == Some(&None) && c.components().last().map(|n| t.components().any(|x| x == n)).unwrap_or(false))) {
                return Err(format!("write({:?}) also changed {:?}", arg, c));
            }
            Ok(true)
        }
        _ => {
            // a path through a file, or to a folder, cannot be written
            let blocked = arg.contains('\0') || real.ends_with("sock") || before.get(&real) == Some(&None) || real == *lockp || real.ancestors().skip(1).any(|p| matches!(before.get(p), Some(Some(_)))) || arg.ends_with('/') || arg.is_empty();
            if pl == Place::Plain && !blocked && prop != "C02" {
                return Err(format!("write({:?}) gave an error", arg));
            }
            Ok(false)
        }
    }
}

pub const CAPS: &[(&str, &[&str])] = &[
    ("default", &[]),
    ("lock", &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"]),
    ("folders", &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions"]),
    ("wlock", &["write"]),
    ("both", &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write"]),
    ("free", &["dir", "file", "file_bytes", "is_file", "is_dir", "scan_dir", "file_img_dimensions", "write"]),
    ("exec", &["exec", "exec_stdin", "env"]),
];
const DEFAULTS: &[&str] = &[
    "as_base64", "from_base64", "rand", "xy", "xywh", "cxyrr", "xy12", "fl_stk", "xml_esc", "font", "map", "r_json", "r_card", "w_json", "list", "sort", "append", "sort_on", "bin_search",
    "bin_get", "index_of", "get", "filter", "len", "slice", "groups", "cat", "md", "table", "split", "string_from_ints", "str_contains", "str_replace", "str_replace_n", "html_esc", "regex",
    "word_wrap", "debug", "add", "sub", "mul", "div", "mod", "min", "max", "eq", "neq", "eq_any", "gt", "gte", "lt", "lte", "and", "nand", "or", "nor", "type_of", "is_null", "is_num",
    "parent", "join", "bread_crumbs", "base_name", "base_name_sure", "join_with", "with_ext", "stem", "full_stem",
];
/// a set has just the effectful names its additions grant
pub fn check_caps(fx: &Fx, set: &str) -> Result<bool, String> {
    let fm = set_of(fx, set);
    let grant = CAPS.iter().find(|c| c.0 == set).unwrap().1;
    for (_, l) in CAPS {
        for n in *l {
            if fm.get_func(n).is_some() != grant.contains(n) {
                return Err(format!("the function set {:?} {} a function {:?}", set, if grant.contains(n) { "lacks" } else { "has" }, n));
            }
        }
    }
    if set != "both" {
        for n in DEFAULTS {
            if fm.get_func(n).is_none() {
                return Err(format!("the function set {:?} lacks {:?}", set, n));
            }
        }
    }
    Ok(true)
}
/// a call of a default function that names files, programs and variables: no effect, and
/// nothing of the files, folders or variables comes back
pub fn check_pure(fx: &Fx, name: &str, a0: &[V]) -> Result<bool, String> {
    let a: Vec<V> = a0.iter().map(|x| fx.v(x)).collect();
    std::env::set_var("HARNESS_SECRET", "SECRET-in-env");
    let fm = set_of(fx, "default");
    let before = fx.snap();
    let r = call_in(&fm, name, &a, false);
    let after = fx.snap();
    if before != after {
        fx.fill();
        return Err(format!("{} changed files", name));
    }
    match r {
        R::Ok(v) => {
            let t = v.js().to_string();
            let given = V::List(a.clone()).js().to_string();
            for w in ["SECRET f", "in a/g", "h.txt", "empty.txt", "SECRET-in-env", "ran-a-program", "iVBORw"] {
                if t.contains(w) && !given.contains(w) {
                    return Err(format!("{} gave {}", name, t));
                }
            }
            if let Bytes(b) = &v {
                if b.windows(8).any(|w| w == b"SECRET f") || b.windows(6).any(|w| w == b"in a/g") {
                    return Err(format!("{} read a file", name));
                }
            }
            Ok(true)
        }
        _ => Ok(false),
    }
}
/// the name in the default set does what the documentation says, on a telling example
pub fn check_bind(fx: &Fx, set: &str, name: &str, a0: &[V], want: &V) -> Result<bool, String> {
    let a: Vec<V> = a0.iter().map(|x| fx.v(x)).collect();
    let r = call_in(&set_of(fx, set), name, &a, false);
    match (&r, want) {
        (R::Err, Str(e)) if e == "<error>" => Ok(true),
        (R::Ok(v), w) if sorted(v).same(&sorted(&fx.v(w))) => Ok(true),
        _ => Err(format!("{} of {} gave {}, not {}", name, V::List(a).js(), r.js(), want.js())),
    }
}

/// expressions that hold if an effectful function is there, whatever it answers
fn reach() -> Vec<String> {
    let mut l = vec![];
    for t in ["$S/f.txt", "f.txt", "$S/a", "a", "$S/img.png", "img.png"] {
        for f in ["file", "file_bytes", "dir", "is_file", "is_dir", "scan_dir", "file_img_dimensions"] {
            l.push(format!("neq (type_of ({} \"{}\")) \"zz\"", f, t));
        }
    }
    for t in ["$S/zzz.txt", "zzz.txt"] {
        l.push(format!("neq (type_of (write \"{}\" \"c\")) \"zz\"", t));
    }
    for e in ["exec \"echo\" \"a\"", "exec_stdin \"cat\" \"a\"", "env \"HARNESS_SECRET\""] {
        l.push(format!("neq (type_of ({})) \"zz\"", e));
    }
    l
}
/// what runs an expression of its own (filter, the front matter a scan reads) has the default
/// functions for it and no other
pub fn check_inner(fx: &Fx, set: &str, op: &str) -> Result<bool, String> {
    std::env::set_var("HARNESS_SECRET", "SECRET-in-env");
    let fm = set_of(fx, set);
    let mut es = vec!["eq 1 1".to_string(), "neq (type_of 1) \"zz\"".to_string(), "neq (type_of (parent \"a/b\")) \"zz\"".to_string()];
    let pure = es.len();
    es.extend(reach().iter().map(|e| fx.text(e)));
    if op == "filter" {
        for (i, e) in es.iter().enumerate() {
            let r = call_in(&fm, "filter", &[List(vec![Int(1), Str("k".into())]), Str(e.clone())], false);
            let n = match &r {
                R::Ok(List(l)) => l.len(),
                _ => return Err(format!("filter by {} in {:?} gave {}", e, set, r.js())),
            };
            if n != if i < pure { 2 } else { 0 } {
                return Err(format!("filter by {} in {:?} kept {} of 2 items", e, set, n));
            }
        }
        return Ok(true);
    }
    let d = fx.s.join("lock/fm");
    std::fs::create_dir_all(&d).map_err(|e| format!("fixture: {}", e))?;
    for (i, e) in es.iter().enumerate() {
        std::fs::write(d.join(format!("{}.txt", i)), format!("{{{{export v=({})}}}}", e)).map_err(|e| format!("fixture: {}", e))?;
    }
    let at = if set == "free" { d.to_str().unwrap().to_string() } else { "fm".to_string() };
    let r = call_in(&fm, "scan_dir", &[Str(at)], false);
    let _ = std::fs::remove_dir_all(&d);
    let l = match &r {
        R::Ok(List(l)) if l.len() == es.len() => l,
        _ => return Err(format!("scan_dir in {:?} gave {}", set, r.js())),
    };
    for m in l {
        let i: usize = m.get("item_file").map(|f| f.disp()).and_then(|f| f.trim_end_matches(".txt").parse().ok()).ok_or("no item_file")?;
        match m.get("v") {
            Some(v) if i >= pure => return Err(format!("front matter {} of a scan in {:?} gave {}", es[i], set, v.js())),
            None if i < pure => return Err(format!("front matter {} of a scan in {:?} gave nothing", es[i], set)),
            _ => {}
        }
    }
    Ok(true)
}

/// exec and exec_stdin
pub fn check_exec(fx: &Fx, op: &str, a0: &[V], times: usize) -> Result<bool, String> {
    let bin = fx.s.join("bin");
    std::fs::create_dir_all(&bin).ok();
    for n in ["argdump", "arg dump;x", "arg$HOME", "argflood", "argpad", "arglatin", "argfail", "argerr", "argquiet"] {
        let l = bin.join(n);
        if !l.exists() {
            std::os::unix::fs::symlink(std::env::current_exe().unwrap(), &l).map_err(|e| format!("fixture: {}", e))?;
        }
    }
    let mut a: Vec<V> = a0.iter().map(|x| fx.v(x)).collect();
    if times > 1 {
        let t = a[1].disp().repeat(times);
        a[1] = Str(t);
    }
    let fm = set_of(fx, "exec");
    let before = fx.snap();
    let r = call_in(&fm, op, &a, false);
    let after = fx.snap();
    if before != after {
        fx.fill();
        return Err(format!("{} changed files", op));
    }
    let min = if op == "exec" { 1 } else { 2 };
    if let R::Panic(p) = &r {
        return Err(format!("{} panicked: {}", op, p));
    }
    if a.len() < min {
        return if matches!(r, R::Err) { Ok(true) } else { Err(format!("{} of {} arguments gave {}", op, a.len(), r.js())) };
    }
    let prog = a[0].disp();
    let has = Path::new(&prog).starts_with(&bin) && Path::new(&prog).exists() && Path::new(&prog) != bin;
    let argv: Vec<String> = a[min..].iter().map(|v| v.disp()).collect();
    let nul = argv.iter().any(|x| x.contains('\0')) || prog.contains('\0');
    if !has || nul {
        return match &r {
            R::Err => Ok(true),
            r => Err(format!("{} of {:?} gave {}", op, prog, r.js())),
        };
    }
    let stdin = if op == "exec" { None } else { Some(a[1].disp()) };
    let flood = if prog.ends_with("argflood") { "f".repeat(FLOOD) } else { String::new() };
    let mut want = flood + &json!({"prog": prog, "args": argv, "stdin": stdin}).to_string();
    if prog.ends_with("argpad") {
        want = format!(" \n\t{} \r\n\n\0", want);
    }
    if prog.ends_with("argquiet") {
        want = String::new();
    }
    if prog.ends_with("arglatin") {
        // the output is not text: it may not be turned into another
        return match &r {
            R::Err => Ok(true),
            R::Ok(Bytes(b)) if *b == [want.as_bytes(), LATIN].concat() => Ok(true),
            r => Err(format!("{} of a program whose output is not UTF-8 gave {:.3000}", op, r.js().to_string())),
        };
    }
    match &r {
        R::Ok(Str(t)) if *t == want => Ok(true),
        r => Err(format!("{} gave {:.3000}, not {:.3000}", op, r.js().to_string(), want)),
    }
}
const LATIN: &[u8] = &[b'x', 0xe9, b'y', 0xff];
/// more than the pipes hold
const FLOOD: usize = 300_000;
/// what the harness does when it is started as the program
pub fn argdump(a: &[String]) -> i32 {
    let mut s = vec![];
    if a[0].ends_with("argflood") {
        print!("{}", "f".repeat(FLOOD));
    }
    // only a piped standard input is of interest
    let piped = std::fs::metadata("/proc/self/fd/0").map(|m| std::os::unix::fs::FileTypeExt::is_fifo(&m.file_type())).unwrap_or(false);
    if piped {
        std::io::Read::read_to_end(&mut std::io::stdin(), &mut s).ok();
    }
    let si = if piped { json!(String::from_utf8_lossy(&s)) } else { J::Null };
    let t = json!({"prog": a[0], "args": &a[1..], "stdin": si});
    let is = |n: &str| a[0].ends_with(n);
    if is("argpad") {
        print!(" \n\t{} \r\n\n\0", t);
    } else if !is("argquiet") {
        print!("{}", t);
    }
    if is("arglatin") {
        std::io::Write::write_all(&mut std::io::stdout(), LATIN).ok();
    }
    if is("argerr") {
        eprintln!("on standard error");
    }
    if is("argfail") { 3 } else { 0 }
}
pub fn check_env(fx: &Fx, value: Option<&str>, a: &[V]) -> Result<bool, String> {
    let name = a.first().map(|v| v.disp()).unwrap_or_default();
    let odd = name.is_empty() || name.contains('=') || name.contains('\0');
    if !odd {
        match value {
            Some(v) => std::env::set_var(&name, v),
            None => std::env::remove_var(&name),
        }
    }
    let r = call_in(&set_of(fx, "exec"), "env", a, false);
    if !odd {
        std::env::remove_var(&name);
    }
    let want = if a.is_empty() {
        None
    } else if let (Some(v), false) = (value, odd) {
        Some(Str(v.to_string()))
    } else {
        a.get(1).cloned()
    };
    match (&want, &r) {
        (None, R::Err) => Ok(!a.is_empty()),
        (Some(w), R::Ok(g)) if w.same(g) => Ok(true),
        (w, r) => Err(format!("env gave {}, not {}", r.js(), w.as_ref().map(|w| w.js()).unwrap_or(json!("error")))),
    }
}

pub fn recheck(fx: &Fx, prop: &str, c: &J) -> Result<bool, String> {
    let a: Vec<V> = c["args"].as_array().map(|l| l.iter().map(V::unjs).collect()).unwrap_or_default();
    let t = |k: &str| c[k].as_str().unwrap_or("");
    match t("what") {
        "file" => check_fs(fx, prop, t("set"), t("op"), &a),
        "scan" => check_scan(fx, t("set"), t("op"), &a, &c["tree"]),
        "caps" => check_caps(fx, t("set")),
        "inner" => check_inner(fx, t("set"), t("op")),
        "pure" => check_pure(fx, t("op"), &a),
        "bind" => check_bind(fx, t("set"), t("op"), &a, &V::unjs(&c["want"])),
        "exec" => check_exec(fx, t("op"), &a, c["times"].as_u64().unwrap_or(1) as usize),
        "env" => check_env(fx, c["value"].as_str(), &a),
        k => Err(format!("unknown kind of case {}", k)),
    }
}
/// leave the file-system rights behind, for this thread; false if that does not work here
fn drop_rights(dir: &Path) -> bool {
    const NOBODY: u32 = 65534;
    if std::os::unix::fs::chown(dir, Some(NOBODY), Some(NOBODY)).is_err() {
        return false;
    }
    unsafe {
        libc::syscall(libc::SYS_setfsuid, NOBODY);
    }
    let p = dir.join("probe");
    let ok = std::fs::create_dir(&p).is_ok() && std::fs::remove_dir(&p).is_ok();
    if !ok {
        unsafe {
            libc::syscall(libc::SYS_setfsuid, 0u32);
        }
    }
    ok
}
pub fn prepare(prop: &str, dir: &Path) -> Fx {
    let d = dir.join("fs");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).unwrap();
    let d = d.canonicalize().unwrap();
    if prop != "C24" {
        drop_rights(&d);
    }
    Fx::new(&d)
}
fn cases(cx: &mut Cx, fx: &Fx, js: J) {
    let prop = cx.prop.clone();
    cx.case(&|| js.clone(), &mut || recheck(fx, &prop, &js));
}
fn file_case(cx: &mut Cx, fx: &Fx, set: &str, op: &str, a: &[V]) {
    cases(cx, fx, json!({"kind":"fs","what":"file","set":set,"op":op,"args":a.iter().map(|v| v.js()).collect::<Vec<_>>()}));
}
const READS: &[&str] = &["file", "is_file", "is_dir", "dir", "file_bytes", "file_img_dimensions", "scan_dir"];
fn lock_paths(cx: &Cx) -> Vec<String> {
    let comp = ["a", "f.txt", "..", ".", "", "b", "nope", "lock", "img.png"];
    let mut v = vec![];
    for pre in ["", "$S/", "$S/lock/", "$S/lock", "$S/lockdown/", "/", "./", "//"] {
        let mut lv: Vec<Vec<&str>> = vec![vec![]];
        let n = if pre == "/" || pre == "//" { 1 } else if pre.is_empty() { cx.scale(4, 5) } else { cx.scale(2, 3) };
        for _ in 0..=n {
            for c in &lv {
                let t = format!("{}{}", pre, c.join("/"));
                v.push(t);
            }
            lv = lv.iter().flat_map(|c| comp.iter().map(move |x| c.iter().copied().chain([*x]).collect::<Vec<_>>())).collect();
            if lv.len() > 8000 {
                lv.retain(|c| c.contains(&".."));
                lv.truncate(8000);
            }
        }
    }
    for t in ["..dots/k", "..dots", "...", "sp ace.txt", "\u{2024}\u{2024}/f.txt", "..\\f.txt", "a\\..\\f.txt", "%2e%2e/f.txt", "f.txt\0", "\0", "~", "~/f.txt", "$HOME", "a/..dots/../../../f.txt", "..dots/../../f.txt", "../lock/f.txt", "../lockdown/f.txt", " pre", "pre", "post ", "post", "A/G.txt", "a/G.txt", "nl\nx", "bom.txt", "two.dots.txt", "sock", "deep/b/c/d/e.txt", "a/.hid", " ", " /f.txt", "a /../../f.txt", "x y z/../../f.txt", "sp ace.txt/../../f.txt", " ../f.txt", "../ f.txt", ".. /f.txt", "a/../../lock/f.txt", "a/b/../../../f.txt", "a/./../..", "nope/../f.txt", "nope/../../f.txt", "f.txt/../../f.txt", "a//../..//f.txt", "img.png", "../img.png"] {
        v.push(t.to_string());
    }
    v.sort();
    v.dedup();
    v
}
pub fn gen_c01(cx: &mut Cx, fx: &Fx) {
    let p = lock_paths(cx);
    for t in &p {
        for op in READS {
            if *op == "scan_dir" && t.len() > 14 && !cx.thorough {
                continue;
            }
            file_case(cx, fx, "lock", op, &[Str(t.clone())]);
        }
    }
    for d in [0u64, 1, 2, 9] {
        for t in ["", "a", ".", "..", "../a", "a/..", "$S", "$S/lock", "a/../.."] {
            file_case(cx, fx, "lock", "scan_dir", &[Str(t.into()), Uint(d)]);
        }
    }
    // several paths, one of them outside, in every place
    for op in &READS[..5] {
        for ins in ["f.txt", "a", "a/g.txt"] {
            for out in ["../f.txt", "..", "$S/f.txt", "a/../../f.txt", "../a", "../a/g.txt", "../lockdown"] {
                for k in 0..3 {
                    let mut a = vec![Str(ins.into()); 3];
                    a[k] = Str(out.into());
                    file_case(cx, fx, "lock", op, &a);
                    file_case(cx, fx, "both", op, &a[..=k]);
                }
            }
        }
    }
    let mut n = 0;
    for t in &p {
        if t.len() > cx.scale(14, 40) || t.starts_with("//") || (t.starts_with('/') && !t.starts_with("$S")) {
            continue;
        }
        n += 1;
        file_case(cx, fx, if n % 2 == 0 { "wlock" } else { "both" }, "write", &[Str(t.clone()), Str("w".into())]);
        if t.len() <= 12 && !t.starts_with("$S") {
            file_case(cx, fx, "wlock@new", "write", &[Str(t.clone()), Str("w".into())]);
        }
    }
    for a in [Uint(7), Bool(true), Float(1.5), List(vec![]), Null] {
        for op in READS {
            file_case(cx, fx, "lock", op, &[a.clone()]);
        }
        file_case(cx, fx, "wlock", "write", &[a.clone(), Int(-4)]);
    }
    let mut r = Rng::new(cx.seed);
    let comp = ["a", "f.txt", "..", ".", "", "b", "nope", "..dots", "lock", "g.txt", "...", "..", " pre", "x y", ".hid", "two.dots.txt", "\u{e9}"];
    for _ in 0..cx.scale(3000, 40000) {
        let k = 1 + r.below(6);
        let t: Vec<&str> = (0..k).map(|_| *r.pick(&comp)).collect();
        let mut t = t.join("/");
        if t.starts_with('/') {
            t = format!("$S{}", t);
        }
        if r.chance(1, 8) {
            t = format!("$S/lock/{}", t);
        }
        if r.chance(1, 12) && !t.starts_with('/') {
            file_case(cx, fx, "wlock", "write", &[Str(t), Str("x".into())]);
        } else {
            let op = *r.pick(READS);
            file_case(cx, fx, "lock", op, &[Str(t)]);
        }
    }
}
pub fn gen_c25(cx: &mut Cx, fx: &Fx) {
    let paths = ["f.txt", "a/g.txt", "a", "empty.txt", "bytes.bin", "sock", "nope", "a/b/h.txt", "none", "sp ace.txt", "img.png"];
    for set in ["free", "lock"] {
        let full = |p: &str| if set == "free" { Str(format!("$S/lock/{}", p)) } else { Str(p.to_string()) };
        for op in READS {
            if *op == "file_img_dimensions" && set == "free" {
                // reads the head of the file only
                file_case(cx, fx, set, op, &[full("img.png")]);
                continue;
            }
            file_case(cx, fx, set, op, &[]);
            for p in paths {
                file_case(cx, fx, set, op, &[full(p)]);
                for q in paths {
                    file_case(cx, fx, set, op, &[full(p), full(q)]);
                    for z in &paths[..if *op == "scan_dir" { 0 } else { 5 }] {
                        file_case(cx, fx, set, op, &[full(p), full(q), full(z)]);
                    }
                }
            }
        }
        for p in [" pre", "pre", "post ", "post", "A/G.txt", "nl\nx", "bom.txt", "two.dots.txt", "deep/b/c/d/e.txt", "a/.hid", "deep/b/c"] {
            for op in READS {
                if *op == "file_img_dimensions" && set == "free" {
                    continue;
                }
                file_case(cx, fx, set, op, &[full(p)]);
                file_case(cx, fx, set, op, &[full(p), full("f.txt"), full(p), full(p)]);
            }
        }
        for d in 0..6u64 {
            for p in ["", "a", "none", "f.txt", "nope", "a/b"] {
                file_case(cx, fx, set, "scan_dir", &[full(p), Uint(d)]);
            }
        }
    }
    let conts = [Str("".into()), Str("x".into()), Str("longer than before \u{1F600}\n".into()), Int(-5), List(vec![Int(1), Null]), Bool(false), Float(0.5), Bytes(vec![1, 2]), Null, crate::val::map(&[("k", Uint(3))]), Str(" padded\r\n\n".into()), Str("y".repeat(20000))];
    let wp = ["f.txt", "new.txt", "n1/n2/n3/new.txt", "a/g.txt", "a/new", "none/x", "empty.txt", "a/b", "f.txt/x", "bytes.bin"];
    for set in ["free", "wlock"] {
        for p in wp {
            let f = if set == "free" { Str(format!("$S/lock/{}", p)) } else { Str(p.to_string()) };
            file_case(cx, fx, set, "write", &[f.clone()]);
            for c in &conts {
                file_case(cx, fx, set, "write", &[f.clone(), c.clone()]);
                for d in &conts[..6] {
                    file_case(cx, fx, set, "write", &[f.clone(), c.clone(), d.clone()]);
                    file_case(cx, fx, set, "write", &[f.clone(), d.clone(), c.clone(), Str("end".into())]);
                }
            }
        }
        file_case(cx, fx, set, "write", &[]);
        let mut r = Rng::new(cx.seed);
        for _ in 0..cx.scale(150, 3000) {
            let p = *r.pick(&wp);
            let mut a = vec![if set == "free" { Str(format!("$S/lock/{}", p)) } else { Str(p.to_string()) }];
            for _ in 0..r.below(9) {
                a.push(if r.chance(1, 3) { r.pick(&crate::val::pool()).clone() } else { r.pick(&conts).clone() });
            }
            if a.iter().all(|v| v.ordered()) {
                file_case(cx, fx, set, "write", &a);
            }
        }
    }
}
pub fn gen_c30(cx: &mut Cx, fx: &Fx) {
    let case = |cx: &mut Cx, set: &str, op: &str, a: &[V], tree: &J| {
        cases(cx, fx, json!({"kind":"fs","what":"scan","set":set,"op":op,"args":a.iter().map(|v| v.js()).collect::<Vec<_>>(),"tree":tree}));
    };
    let full = |set: &str, p: &str| if set == "free" { Str(format!("$S/lock/rt{}", p)) } else { Str(format!("rt{}", p)) };
    let fixed = [
        json!([]),
        json!([["x1.txt", 2]]),
        json!([["one", 2], ["two", 3], ["a/one", 4], ["a/a/one", 5], ["a/a/a/one", 6], ["b", "dir"], ["_h/in", 2], ["_f", 2], ["a/_g", 2], ["b/c/d/e/f.txt", 10]]),
        json!([["l", "link"], ["dl", "dirlink"], ["s", "sock"], ["h.txt", "hard"], ["a/l.txt", "link"], ["a/dl", "dirlink"], ["a/x2.txt", 2]]),
        json!([["0", 0], ["1", 1], ["2", 2], ["3", 3], ["4", 4], ["5", 5], ["6", 6], ["7", 7], ["8", 8], ["9", 9], ["10", 10], ["11", 11], ["12", 11]]),
        json!([["g.txt", 2, true], ["n", 2]]),
        json!([["g1", 0, true], ["g2", 0, true], ["n1", 2], ["n2", 2], ["a/g1", 2, true], ["a/n1", 2], ["a/n2", 2], ["x1", 2], ["q", 2], ["g3", 2, true], ["n3", 0]]),
        json!([["a", "badname"], ["b.txt", 2]]),
        json!([["a/b", "badname"], ["b.txt", 2]]),
        json!([["-_x", 2], [" _y", 2], ["__", 2], ["a_b", 2], [".hid", 2], [".d/in", 2], ["sp ace/fi le", 2], ["..x/y", 2], ["\u{e9}/\u{e9}", 2], ["nl\nx", 3]]),
        json!([["a/one", 2], ["b/one", 3], ["c/one", 4], ["a/x/one", 2], ["b/x/one", 2]]),
    ];
    let dirs = ["", "/a", "/b", "/a/a", "/nope", "/one", "/_h", "/.", "/dl"];
    for set in ["free", "lock"] {
        for t in &fixed {
            for op in ["dir", "scan_dir"] {
                case(cx, set, op, &[], t);
                for p in dirs {
                    case(cx, set, op, &[full(set, p)], t);
                }
            }
            for p in dirs {
                for q in dirs {
                    case(cx, set, "dir", &[full(set, p), full(set, q)], t);
                }
                case(cx, set, "dir", &[full(set, ""), full(set, p), full(set, "/a")], t);
            }
            for d in [Uint(0), Uint(1), Uint(2), Uint(3), Uint(9), Int(2), Int(-1), Null, Str("2".into())] {
                for p in dirs {
                    case(cx, set, "scan_dir", &[full(set, p), d.clone()], t);
                }
                for (re, _) in PATTERNS {
                    case(cx, set, "scan_dir", &[full(set, ""), d.clone(), Str(re.to_string())], t);
                    case(cx, set, "scan_dir", &[full(set, "/a"), d.clone(), Str(re.to_string())], t);
                }
            }
        }
    }
    let mut r = Rng::new(cx.seed);
    let comp = ["a", "b", "_a", "x1", "g.txt", "txt", ".h", "x_", "q q"];
    let kinds = ["dir", "sock", "link", "dirlink", "hard"];
    for _ in 0..cx.scale(500, 8000) {
        let mut t = vec![];
        for _ in 0..r.below(12) {
            let p: Vec<&str> = (0..=r.below(4)).map(|_| *r.pick(&comp)).collect();
            let k = if r.chance(1, 4) { json!(*r.pick(&kinds)) } else { json!(r.below(CONTENTS as _) as u64) };
            t.push(json!([p.join("/"), k, r.chance(1, 12)]));
        }
        let t = J::Array(t);
        let set = if r.chance(1, 2) { "free" } else { "lock" };
        let mut a = vec![full(set, *r.pick(&["", "", "/a", "/b", "/x1", "/a/b"]))];
        if r.chance(1, 4) {
            for _ in 0..r.below(3) {
                a.push(full(set, *r.pick(&["", "/a", "/b", "/x1"])));
            }
            case(cx, set, "dir", &a, &t);
        } else {
            a.push(Uint(r.below(6) as _));
            if r.chance(1, 3) {
                a.push(Str(r.pick(PATTERNS).0.to_string()));
            }
            case(cx, set, "scan_dir", &a, &t);
        }
    }
}
pub fn gen_c24(cx: &mut Cx, fx: &Fx) {
    let args = ["", "a", "a b", "$HOME", "*", "; echo ran-a-program", "'q'", "\"d\"", "`id`", "$(id)", "-n", "--", "\n", "a\nb", "\\", "\u{e9}\u{1F600}", "|cat", "&", ">x", "a\0b", "%s", "~"];
    let progs = ["$S/bin/argdump", "$S/bin/argpad", "$S/bin/arglatin", "$S/bin/argfail", "$S/bin/argerr", "$S/bin/argquiet", "$S/bin/arg dump;x", "$S/bin/arg$HOME", "$S/bin/nope", "", "$S/bin/argdump -x", "$S/bin/argdump;ls"];
    let go = |cx: &mut Cx, op: &str, a: Vec<V>| cases(cx, fx, json!({"kind":"fs","what":"exec","op":op,"args":a.iter().map(|v| v.js()).collect::<Vec<_>>()}));
    for op in ["exec", "exec_stdin"] {
        go(cx, op, vec![]);
        for p in progs {
            let p = Str(p.to_string());
            go(cx, op, vec![p.clone()]);
            for x in args {
                let x = Str(x.into());
                go(cx, op, vec![p.clone(), x.clone()]);
                go(cx, op, vec![p.clone(), x.clone(), Str("z".into())]);
                go(cx, op, vec![p.clone(), Str("z".into()), x.clone()]);
            }
        }
        let p = Str(progs[0].to_string());
        for v in crate::val::pool() {
            if !v.ordered() {
                continue;
            }
            go(cx, op, vec![p.clone(), v.clone(), Int(1), v]);
        }
        go(cx, op, vec![p.clone(), Str("s".repeat(3000)), Str("t".into())]);
        go(cx, op, vec![Str("$S/bin/argflood".into()), Str("s".into()), Str("t".into())]);
        if op == "exec_stdin" {
            for q in ["argdump", "argflood"] {
                cases(cx, fx, json!({"kind":"fs","what":"exec","op":op,"args":[Str(format!("$S/bin/{}", q)).js(), Str("s\u{e9}".into()).js()],"times":100_000}));
            }
        }
        let mut r = Rng::new(cx.seed);
        for _ in 0..cx.scale(150, 3000) {
            let n = r.below(7);
            let a = std::iter::once(p.clone()).chain((0..n).map(|_| Str(r.pick(&args).to_string()))).collect();
            go(cx, op, a);
        }
    }
    let go = |cx: &mut Cx, v: Option<&str>, a: Vec<V>| cases(cx, fx, json!({"kind":"fs","what":"env","value":v,"args":a.iter().map(|v| v.js()).collect::<Vec<_>>()}));
    go(cx, None, vec![]);
    for n in ["HARNESS_A", "HARNESS_B", "", "HARNESS X", "A=B", "harness_a"] {
        for v in [None, Some(""), Some("v"), Some("a b\n$HOME"), Some("0"), Some("\u{e9}"), Some(" padded\t\n"), Some("\"q\"")] {
            for d in [vec![], vec![Str("d".into())], vec![Str("".into())], vec![Null], vec![Int(4), Str("more".into())], vec![List(vec![Int(1)])]] {
                let mut a = vec![Str(n.into())];
                a.extend(d);
                go(cx, v, a);
            }
        }
    }
}
pub fn gen_c02(cx: &mut Cx, fx: &Fx) {
    for (set, _) in CAPS {
        cases(cx, fx, json!({"kind":"fs","what":"caps","set":set}));
    }
    for (set, _) in CAPS.iter().chain(&[("all", &[][..])]) {
        if *set != "both" {
            cases(cx, fx, json!({"kind":"fs","what":"inner","set":set,"op":"filter"}));
        }
        if ["lock", "folders", "both", "free"].contains(set) {
            cases(cx, fx, json!({"kind":"fs","what":"inner","set":set,"op":"scan_dir"}));
        }
    }
    // nothing in the default set reaches a file, a program or a variable
    let names = crate::funcs::default_names();
    let args = ["$S/f.txt", "$S/lock/a/g.txt", "$S/lock", "$S/lock/a/b", "echo ran-a-program", "HARNESS_SECRET", "$HARNESS_SECRET", "$S/lock/img.png", "$S/new.txt"];
    for n in &names {
        for a in args {
            for rest in [vec![], vec![Str("ran-a-program".into())], vec![Str("$S/f.txt".into()), Str("w".into())], vec![Int(3)], vec![List(vec![Str("$S/f.txt".into())])]] {
                let mut l = vec![Str(a.to_string())];
                l.extend(rest);
                cases(cx, fx, json!({"kind":"fs","what":"pure","op":n,"args":l.iter().map(|v| v.js()).collect::<Vec<_>>()}));
            }
        }
    }
    // each name does what its description says, in its variant
    let st = |x: &str| Str(x.into());
    let l = |v: Vec<V>| List(v);
    let b: Vec<(&str, Vec<V>, V)> = vec![
        ("as_base64", vec![st("ab")], st("YWI=")),
        ("from_base64", vec![st("YWI=")], Bytes(b"ab".to_vec())),
        ("eq", vec![Int(1), Int(2)], Bool(false)),
        ("eq", vec![Int(2), Int(2)], Bool(true)),
        ("neq", vec![Int(1), Int(2)], Bool(true)),
        ("eq_any", vec![Int(1), Int(2), Int(1)], Bool(true)),
        ("eq", vec![Int(1), Int(2), Int(1)], Bool(false)),
        ("gt", vec![Int(3), Int(2)], Bool(true)),
        ("gt", vec![Int(2), Int(2)], Bool(false)),
        ("gte", vec![Int(2), Int(2)], Bool(true)),
        ("gte", vec![Int(3), Int(2)], Bool(true)),
        ("lt", vec![Int(2), Int(2)], Bool(false)),
        ("lt", vec![Int(1), Int(2)], Bool(true)),
        ("lte", vec![Int(2), Int(2)], Bool(true)),
        ("lte", vec![Int(1), Int(2)], Bool(true)),
        ("and", vec![Bool(true), Bool(false)], Bool(false)),
        ("nand", vec![Bool(true), Bool(false)], Bool(true)),
        ("or", vec![Bool(true), Bool(false)], Bool(true)),
        ("nor", vec![Bool(true), Bool(false)], Bool(false)),
        ("or", vec![Bool(false), Bool(false)], Bool(false)),
        ("nor", vec![Bool(false), Bool(false)], Bool(true)),
        ("nand", vec![Bool(false), Bool(false)], Bool(true)),
        ("and", vec![Bool(true), Bool(true)], Bool(true)),
        ("is_null", vec![Null], Bool(true)),
        ("is_null", vec![Int(1)], Bool(false)),
        ("is_num", vec![Int(1)], Bool(true)),
        ("add", vec![Int(7), Int(2)], Int(9)),
        ("sub", vec![Int(7), Int(2)], Int(5)),
        ("mul", vec![Int(7), Int(2)], Int(14)),
        ("div", vec![Int(7), Int(2)], Int(3)),
        ("mod", vec![Int(7), Int(2)], Int(1)),
        ("min", vec![Int(7), Int(2)], Int(2)),
        ("max", vec![Int(7), Int(2)], Int(7)),
        ("cat", vec![st("a"), st("b")], st("ab")),
        ("split", vec![st("a,b"), st(",")], l(vec![st("a"), st("b")])),
        ("string_from_ints", vec![Uint(65), Uint(66)], st("AB")),
        ("str_contains", vec![st("abc"), st("bc")], Bool(true)),
        ("str_replace", vec![st("aXbX"), st("X"), st("-")], st("a-b-")),
        ("str_replace_n", vec![st("aXbX"), st("X"), st("-")], st("a-bX")),
        ("html_esc", vec![st("<")], st("&lt;")),
        ("regex", vec![st("abc"), st("^a.c$")], Bool(true)),
        ("word_wrap", vec![st("aa bb"), Uint(9)], l(vec![st("aa bb")])),
        ("md", vec![st("**b**")], st("<p><strong>b</strong></p>\n")),
        ("list", vec![Int(1), Int(2)], l(vec![Int(1), Int(2)])),
        ("append", vec![l(vec![Int(1)]), l(vec![Int(2)])], l(vec![Int(1), Int(2)])),
        ("get", vec![l(vec![Int(5), Int(6)]), Uint(1)], Int(6)),
        ("len", vec![l(vec![Int(5), Int(6)])], Uint(2)),
        ("slice", vec![st("abc"), Uint(1)], st("bc")),
        ("map", vec![st("k"), Int(1)], crate::val::map(&[("k", Int(1))])),
        ("r_json", vec![st("{\"k\":true}")], crate::val::map(&[("k", Bool(true))])),
        ("w_json", vec![l(vec![Bool(true)])], st("[true]")),
        ("parent", vec![st("a/b.c")], st("a")),
        ("join", vec![st("a"), st("b")], st("a/b")),
        ("base_name", vec![st("a/b.c")], st("b.c")),
        ("base_name_sure", vec![st("a/b.c")], st("b.c")),
        ("base_name_sure", vec![st("")], st("")),
        ("base_name", vec![st("")], st("<error>")),
        ("stem", vec![st("a/b.c")], st("b")),
        ("full_stem", vec![st("a/b.c")], st("a/b")),
        ("with_ext", vec![st("a/b.c"), st("d")], st("a/b.d")),
        ("join_with", vec![st("-"), l(vec![st("x"), st("y")])], st("x-y")),
        ("xml_esc", vec![st("<")], st("&lt;")),
    ];
    let mut go = |set: &str, n: &str, a: &[V], w: &V| cases(cx, fx, json!({"kind":"fs","what":"bind","set":set,"op":n,"args":a.iter().map(|v| v.js()).collect::<Vec<_>>(),"want":w.js()}));
    for (n, a, w) in &b {
        for set in ["default", "lock", "all", "exec", "wlock"] {
            go(set, n, a, w);
        }
    }
    let err = st("<error>");
    for (set, p, e, out) in [("free", "$S/f.txt", st("SECRET f"), st("SECRET f")), ("lock", "f.txt", st("in f"), err.clone()), ("folders", "f.txt", st("in f"), err.clone()), ("both", "f.txt", st("in f"), err.clone()), ("relock", "f.txt", st("in f"), err.clone()), ("refree", "$S/f.txt", st("SECRET f"), st("SECRET f"))] {
        let free = set.ends_with("free");
        let t = |y: bool| if free { Bool(y) } else { err.clone() };
        go(set, "file", &[st(p)], &e);
        go(set, "file", &[st("$S/f.txt")], &out);
        go(set, "is_file", &[st(p)], &Bool(true));
        go(set, "is_dir", &[st(p)], &Bool(false));
        go(set, "is_file", &[st("$S/f.txt")], &t(true));
        go(set, "is_dir", &[st("$S/a")], &t(true));
        go(set, "is_file", &[st("$S/a")], &t(false));
        go(set, "dir", &[st("$S/a")], &if free { l(vec![st("g.txt")]) } else { err.clone() });
        go(set, "file_bytes", &[st("$S/f.txt")], &if free { Bytes(b"SECRET f".to_vec()) } else { err.clone() });
        if !free {
            go(set, "dir", &[st("a/b")], &l(vec![st("h.txt")]));
            go(set, "file_bytes", &[st("f.txt")], &Bytes(b"in f".to_vec()));
            go(set, "is_dir", &[st("a")], &Bool(true));
        }
    }
    for op in READS {
        for set in ["free", "lock", "both", "relock", "refree"] {
            let free = set.ends_with("free");
            let p = if free { "$S/lock/" } else { "" };
            for x in ["f.txt", "a", "img.png", "nope"] {
                file_case(cx, fx, set, op, &[Str(format!("{}{}", p, x))]);
            }
            if !free {
                for x in ["../f.txt", "../a", "$S/f.txt", "../img.png", "$S/a"] {
                    file_case(cx, fx, set, op, &[st(x)]);
                }
            }
        }
    }
    for (set, p) in [("free", "$S/nw.txt"), ("wlock", "nw.txt"), ("both", "nw.txt"), ("wlock", "../nw.txt"), ("wlock", "$S/nw.txt"), ("both", "../nw.txt"), ("relock", "nw.txt"), ("relock", "../nw.txt"), ("refree", "$S/nw.txt")] {
        file_case(cx, fx, set, "write", &[st(p), st("c"), st("d")]);
    }
}
pub fn gen(cx: &mut Cx) {
    let fx = prepare(&cx.prop, &cx.dir);
    match cx.prop.as_str() {
        "C01" => gen_c01(cx, &fx),
        "C02" => gen_c02(cx, &fx),
        "C24" => gen_c24(cx, &fx),
        "C30" => gen_c30(cx, &fx),
        _ => gen_c25(cx, &fx),
    }
    let _ = std::fs::remove_dir_all(fx.s.ancestors().nth(6).unwrap());
}
