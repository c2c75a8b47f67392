//! Running cases against the real crate and recording what happened.
use crate::val::V;
use serde_json::{json, Value as J};
use std::collections::HashSet;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use templito::func_man::{BasicFuncs, FuncManager};
use templito::tparam::TCow;

pub static CLOCK: AtomicU64 = AtomicU64::new(0);
pub static TICK: AtomicU64 = AtomicU64::new(0);

/// What a call did.
#[derive(Clone, Debug)]
pub enum R {
    Ok(V),
    Err,
    Panic(String),
}
impl R {
    pub fn js(&self) -> J {
        match self {
            R::Ok(v) => json!({ "ok": v.js() }),
            R::Err => json!("error"),
            R::Panic(m) => json!({ "panic": m }),
        }
    }
    pub fn ok(&self) -> Option<&V> {
        match self {
            R::Ok(v) => Some(v),
            _ => None,
        }
    }
}

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    TICK.fetch_add(1, Ordering::Relaxed);
    CLOCK.store(0, Ordering::Relaxed);
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or("panic".to_string())
    })
}

thread_local! {
    static FM: BasicFuncs = templito::func_man::default_func_man();
}

/// call a function of the default set with owned arguments; when `lent`, the
/// arguments are passed as borrowed values instead
pub fn call_as(name: &str, args: &[V], lent: bool) -> R {
    FM.with(|fm| call_in(fm, name, args, lent))
}
pub fn call_in(fm: &BasicFuncs, name: &str, args: &[V], lent: bool) -> R {
    let tds: Vec<templito::TData> = args.iter().map(|a| a.to_td()).collect();
    let cows: Vec<TCow> = tds.iter().map(|t| if lent { TCow::Borrowed(t) } else { TCow::Owned(t.clone()) }).collect();
    let f = match fm.get_func(name) {
        Some(f) => f,
        None => return R::Panic(format!("no function is registered as {}", name)),
    };
    match guard(|| f(&cows).map(|v| V::of(&v))) {
        Ok(Ok(v)) => R::Ok(v),
        Ok(Err(_)) => R::Err,
        Err(p) => R::Panic(p),
    }
}
pub fn call(name: &str, args: &[V]) -> R {
    call_as(name, args, false)
}

pub struct Cx {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub evals: u64,
    pub seen: HashSet<u64>,
    pub trivial: u64,
    pub samples: Vec<J>,
    pub fails: Vec<(J, String)>,
    pub known: Vec<String>,
    pub known_hit: Vec<String>,
    pub trace: Option<std::fs::File>,
    pub dir: std::path::PathBuf,
}

fn hash(t: &str) -> u64 {
    t.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

impl Cx {
    /// Runs one case: `js` describes it, `ck` runs the real code and compares.
    /// `ck` gives Ok(true) for a non-trivial case, Ok(false) for a trivial one.
    pub fn case(&mut self, js: &dyn Fn() -> J, ck: &mut dyn FnMut() -> Result<bool, String>) -> bool {
        if self.fails.len() >= 5 {
            return false;
        }
        if let Some(f) = &mut self.trace {
            writeln!(f, "{}", js()).ok();
            f.flush().ok();
        }
        self.evals += 1;
        let r = match guard(|| ck()) {
            Ok(r) => r,
            Err(p) => Err(format!("the call panicked: {}", p)),
        };
        match r {
            Ok(nt) => {
                if nt {
                    if self.evals % 64 == 1 || self.seen.len() < 200000 {
                        let t = js().to_string();
                        if self.seen.insert(hash(&t)) {
                            let n = self.seen.len();
                            if n == 1 || n == 50 || n == 500 || n == 5000 {
                                self.samples.push(js());
                            }
                        }
                    }
                } else {
                    self.trivial += 1;
                }
                true
            }
            Err(m) => {
                let j = js();
                let key = j.to_string();
                if let Some(k) = self.known.iter().find(|k| **k == key) {
                    if !self.known_hit.contains(k) {
                        self.known_hit.push(k.clone());
                    }
                } else {
                    self.fails.push((j, m));
                }
                false
            }
        }
    }
    /// a call of a default function, checked by `oracle(args, result)`
    pub fn func(&mut self, name: &str, args: &[V]) {
        let prop = self.prop.clone();
        self.case(&|| json!({"kind":"func","name":name,"args":args.iter().map(|a| a.js()).collect::<Vec<_>>()}), &mut || {
            crate::check_func(&prop, name, args)
        });
    }
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    /// all tuples of length n over the pool
    pub fn tuples(&mut self, name: &str, pool: &[V], n: usize) {
        let mut idx = vec![0usize; n];
        if pool.is_empty() && n > 0 {
            return;
        }
        loop {
            let args: Vec<V> = idx.iter().map(|i| pool[*i].clone()).collect();
            self.func(name, &args);
            let mut k = 0;
            while k < n {
                idx[k] += 1;
                if idx[k] < pool.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == n {
                return;
            }
        }
    }
}
