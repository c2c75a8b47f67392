//! Searches for inputs on which the real crate breaks a property, and replays them.
//!   harness run PROP --seed N [--thorough] [--known FILE] [--trace FILE] [--dir SCRATCH]
//!   harness replay FILE
mod conv;
mod cx;
mod flat;
mod fsys;
mod funcs;
mod interp;
mod val;
use cx::*;
use serde_json::{json, Value as J};
use std::sync::atomic::Ordering;
use val::*;

pub fn check_func(prop: &str, name: &str, a: &[V]) -> Result<bool, String> {
    funcs::check_func(prop, name, a)
}

fn generate(cx: &mut Cx) -> bool {
    match cx.prop.as_str() {
        "C01" | "C02" | "C24" | "C25" | "C30" => fsys::gen(cx),
        "C03" | "C04" | "C05" | "C06" | "C08" | "C09" | "C20" | "C22" => interp::gen(cx),
        "C07" => flat::gen(cx),
        "C10" => funcs::gen_c10(cx),
        "C11" => funcs::gen_c11(cx),
        "C12" => funcs::gen_c12(cx),
        "C13" => funcs::gen_c13(cx),
        "C14" => funcs::gen_c14(cx),
        "C15" => funcs::gen_c15(cx),
        "C16" => funcs::gen_c16(cx),
        "C17" => funcs::gen_c17(cx),
        "C18" => conv::gen(cx),
        "C29" => conv::gen_host(cx),
        "C19" => funcs::gen_c19(cx),
        "C21" => funcs::gen_c21(cx),
        "C23" => funcs::gen_c23(cx),
        _ => return false,
    }
    true
}

fn recheck(prop: &str, c: &J) -> Result<bool, String> {
    let vals = |k: &str| c[k].as_array().map(|l| l.iter().map(V::unjs).collect::<Vec<_>>()).unwrap_or_default();
    match c["kind"].as_str().unwrap_or("") {
        "func" => check_func(prop, c["name"].as_str().unwrap(), &vals("args")),
        "text" => funcs::check_text(c["text"].as_str().unwrap(), &vals("params")),
        "conv" => conv::recheck(c),
        "flat" => flat::recheck(c),
        "fs" => {
            let d = std::env::temp_dir().join(format!("harness-{}", std::process::id()));
            let r = fsys::recheck(&fsys::prepare(prop, &d), prop, c);
            let _ = std::fs::remove_dir_all(&d);
            r
        }
        "tmpl" => interp::recheck(prop, c),
        k => Err(format!("unknown kind of case {}", k)),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if std::path::Path::new(&a[0]).parent().map(|p| p.ends_with("s/bin")).unwrap_or(false) {
        std::process::exit(fsys::argdump(&a));
    }
    std::panic::set_hook(Box::new(|_| {}));
    // a deep stack: nesting of the inputs is not the subject
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || body(a)).unwrap();
    match h.join() {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            eprintln!("harness failure: {}", m);
            std::process::exit(4)
        }
    }
}

fn body(a: Vec<String>) -> i32 {
    let opt = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|x| x.as_str()) == Some("replay") {
        let j: J = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
        let prop = j["property"].as_str().unwrap();
        let mut bad = 0;
        for c in j["cases"].as_array().unwrap() {
            let r = guard(|| recheck(prop, &c["case"])).unwrap_or_else(|p| Err(format!("panicked: {}", p)));
            match r {
                Ok(_) => println!("holds: {}", c["case"]),
                Err(m) => {
                    bad = 1;
                    println!("fails: {}\n  {}", c["case"], m)
                }
            }
        }
        return bad;
    }
    let prop = a[2].clone();
    std::thread::spawn(|| {
        let mut last = u64::MAX;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let t = TICK.load(Ordering::Relaxed);
            if t == last {
                if CLOCK.fetch_add(1, Ordering::Relaxed) >= 20 {
                    // one case has run for 20 s
                    std::process::exit(3);
                }
            }
            last = t;
        }
    });
    let known = opt("--known")
        .and_then(|f| std::fs::read_to_string(f).ok())
        .map(|t| {
            t.lines()
                .filter_map(|l| l.strip_prefix(&format!("open: property={} case=", prop)))
                .map(|l| l.split(" :: ").next().unwrap().to_string())
                .collect()
        })
        .unwrap_or_default();
    let mut cx = Cx {
        prop: prop.clone(),
        seed: opt("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: a.iter().any(|x| x == "--thorough"),
        evals: 0,
        seen: Default::default(),
        trivial: 0,
        samples: vec![],
        fails: vec![],
        known,
        known_hit: vec![],
        trace: opt("--trace").map(|f| std::fs::File::create(f).unwrap()),
        dir: opt("--dir").map(|d| d.into()).unwrap_or_default(),
    };
    if !generate(&mut cx) {
        println!("{}", json!({"none":true}));
        return 0;
    }
    println!(
        "{}",
        json!({"evaluations":cx.evals,"distinct_nontrivial":cx.seen.len(),"trivial":cx.trivial,"samples":cx.samples,
               "known":cx.known_hit,
               "fails":cx.fails.iter().map(|(c,m)| json!({"case":c,"why":m})).collect::<Vec<_>>()})
    );
    0
}
