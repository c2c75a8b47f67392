//! Oracles and generators for the properties of single functions.
use crate::cx::*;
use crate::val::*;
use std::cmp::Ordering;
use V::*;

fn bad<T>(what: &str, r: &R) -> Result<T, String> {
    Err(format!("{}; got {}", what, r.js()))
}
fn want(exp: &V, r: &R) -> Result<bool, String> {
    match r {
        R::Ok(v) if v == exp => Ok(true),
        _ => bad(&format!("expected {}", exp.js()), r),
    }
}
fn want_err(r: &R) -> Result<bool, String> {
    match r {
        R::Err => Ok(true),
        _ => bad("expected an error", r),
    }
}
fn no_panic(r: &R) -> Result<bool, String> {
    match r {
        R::Panic(_) => bad("expected a value or an error", r),
        R::Ok(_) => Ok(true),
        R::Err => Ok(false),
    }
}

/// calls the function with owned and with borrowed arguments; both must do the same
fn both(name: &str, a: &[V]) -> Result<R, String> {
    let r = call_as(name, a, false);
    if name != "rand" && name != "debug" {
        let q = call_as(name, a, true);
        let same = match (&r, &q) {
            (R::Ok(x), R::Ok(y)) => x.same(y) || !x.ordered() || !a.iter().all(|v| v.ordered()),
            (R::Err, R::Err) => true,
            (R::Panic(_), R::Panic(_)) => true,
            _ => false,
        };
        if !same {
            return Err(format!("owned arguments give {} and borrowed ones {}", r.js(), q.js()));
        }
    }
    Ok(r)
}

pub fn check_func(prop: &str, name: &str, a: &[V]) -> Result<bool, String> {
    let r = both(name, a)?;
    match prop {
        "C10" => c10(name, a, &r),
        "C11" => c11(name, a, &r),
        "C12" => c12(name, a, &r),
        "C13" => c13(name, a, &r),
        "C14" => c14(name, a, &r),
        "C15" => c15(name, a, &r),
        "C16" => no_panic(&r),
        "C17" => c17(name, a, &r),
        "C19" => c19(name, a, &r),
        "C21" => c21(name, a, &r),
        "C23" => c23(name, a, &r),
        "C24" => c24(name, a, &r),
        _ => Err("no oracle".to_string()),
    }
}

// ------------------------------------------------------------------ C10
enum Step {
    Val(V),
    Fail,
}
fn step(op: &str, a: &V, b: &V) -> Step {
    if !a.is_num() || !b.is_num() {
        return Step::Fail;
    }
    let fit = |n: Option<i128>| match n {
        Some(n) if n >= i64::MIN as i128 && n <= i64::MAX as i128 => Step::Val(Int(n as i64)),
        Some(n) if n > 0 && n <= u64::MAX as i128 => Step::Val(Uint(n as u64)),
        _ => Step::Fail,
    };
    if let (Some(x), Some(y)) = (a.int(), b.int()) {
        let q = |x: i128, y: i128| {
            let m = x.unsigned_abs() / y.unsigned_abs();
            if (x < 0) != (y < 0) { -(m as i128) } else { m as i128 }
        };
        return match op {
            "add" => fit(Some(x + y)),
            "sub" => fit(Some(x - y)),
            "mul" => fit(x.checked_mul(y)),
            "div" if y == 0 => Step::Fail,
            "div" => fit(Some(q(x, y))),
            "mod" if y == 0 => Step::Fail,
            "mod" => fit(Some(x - q(x, y) * y)),
            "min" => fit(Some(if x < y { x } else { y })),
            _ => fit(Some(if x > y { x } else { y })),
        };
    }
    let (x, y) = (a.as_f(), b.as_f());
    Step::Val(Float(match op {
        "add" => x + y,
        "sub" => x - y,
        "mul" => x * y,
        "div" => x / y,
        "mod" => x % y,
        "min" => x.min(y),
        _ => x.max(y),
    }))
}
fn feq(a: &V, b: &V) -> bool {
    match (a, b) {
        // min and max may pick either zero
        (Float(x), Float(y)) => x == y || (x.is_nan() && y.is_nan()),
        _ => a == b,
    }
}
fn c10(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    if a.is_empty() {
        return no_panic(r).map(|_| false);
    }
    if a.len() == 1 && name != "sub" {
        return if a[0].is_num() { want(&a[0], r) } else { no_panic(r).map(|_| false) };
    }
    let mut acc = if a.len() == 1 {
        match (&a[0], a[0].int()) {
            (Float(f), _) => Float(-f),
            (_, Some(_)) => match step("sub", &Int(0), &a[0]) {
                Step::Val(v) => v,
                Step::Fail => return want_err(r),
            },
            _ => return want_err(r),
        }
    } else {
        a[0].clone()
    };
    for b in a.iter().skip(1) {
        match step(name, &acc, b) {
            Step::Val(v) => acc = v,
            Step::Fail => return want_err(r),
        }
    }
    match r {
        R::Ok(v) if feq(v, &acc) => Ok(true),
        _ => bad(&format!("expected {}", acc.js()), r),
    }
}
pub fn gen_c10(cx: &mut Cx) {
    let ops = ["add", "sub", "mul", "div", "mod", "min", "max"];
    let mut nums = ints();
    nums.extend(floats());
    let mut all = nums.clone();
    all.extend(vec![Null, Bool(true), s("1"), List(vec![Int(1)]), Date(2000, 1, 1)]);
    let small: Vec<V> = nums.iter().filter(|v| matches!(v, Int(-3..=3) | Uint(0..=3)) || v.as_f().abs() > 1e18).cloned().collect();
    for op in ops {
        cx.func(op, &[]);
        cx.tuples(op, &all, 1);
        cx.tuples(op, &all, 2);
        cx.tuples(op, &small, 3);
    }
    let mut r = Rng::new(cx.seed);
    for _ in 0..cx.scale(200000, 3000000) {
        let long = r.chance(1, 8);
        let n = if long { 6 + r.below(20) } else { 1 + r.below(5) };
        let a: Vec<V> = (0..n)
            .map(|_| match r.below(12) {
                // long sums of values that do not run out of range
                _ if long && !r.chance(1, 40) => match r.below(3) {
                    0 => Int(r.below(200) as i64 - 100),
                    1 => Uint(r.below(100) as u64),
                    _ => Float(r.below(100) as f64 / 4.0),
                },
                0 => rnd(&mut r, 1),
                1 | 2 => r.pick(&floats()).clone(),
                3 => Float((r.next() as i64 >> r.below(63)) as f64 / 4.0),
                4..=6 => r.pick(&ints()).clone(),
                7..=9 => Int(r.next() as i64 >> r.below(64)),
                _ => Uint(r.next() >> r.below(64)),
            })
            .collect();
        let op = *r.pick(&ops);
        cx.func(op, &a);
    }
}

// ------------------------------------------------------------------ C11
fn has_nan(v: &V) -> bool {
    match v {
        Float(f) => f.is_nan(),
        List(l) => l.iter().any(has_nan),
        Map(m) => m.values().any(has_nan),
        _ => false,
    }
}
fn c11(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    // NaN is ordered with nothing and equal to nothing; inside a container it is not judged
    if a.is_empty() || a.iter().any(|v| !v.is_num() && has_nan(v)) {
        return no_panic(r).map(|_| false);
    }
    let rest = &a[1..];
    if matches!(name, "eq" | "eq_any" | "neq") {
        if name == "neq" && a.len() != 2 {
            return no_panic(r).map(|_| false);
        }
        let q: Vec<bool> = rest.iter().map(|b| veq(&a[0], b)).collect();
        return want(
            &Bool(match name {
                "eq" => q.iter().all(|x| *x),
                "neq" => !q[0],
                _ => q.iter().any(|x| *x),
            }),
            r,
        );
    }
    let mut all = true;
    for b in rest {
        let o = match class_cmp(&a[0], b) {
            Ok(Some(o)) => o,
            Ok(None) => {
                all = false;
                continue;
            }
            _ => return no_panic(r).map(|_| false),
        };
        all &= match name {
            "lt" => o == Ordering::Less,
            "lte" => o != Ordering::Greater,
            "gt" => o == Ordering::Greater,
            _ => o != Ordering::Less,
        };
    }
    want(&Bool(all), r)
}
/// v with one part of it changed, or as it is
fn varied(r: &mut Rng, v: &V) -> V {
    match v {
        _ if r.chance(1, 8) => v.clone(),
        Bytes(b) if !b.is_empty() => {
            let mut b = b.clone();
            let i = r.below(b.len());
            match r.below(4) {
                0 => b[i] ^= 1,
                1 => drop(b.remove(i)),
                2 => b.insert(i, 0),
                _ => b.reverse(),
            }
            Bytes(b)
        }
        List(l) if !l.is_empty() => {
            let mut l = l.clone();
            let (i, j) = (r.below(l.len()), r.below(l.len()));
            match r.below(5) {
                0 => l[i] = varied(r, &l[i].clone()),
                1 => drop(l.remove(i)),
                2 => l[i] = l[j].clone(),
                3 => l.swap(i, j),
                _ => l.push(l[i].clone()),
            }
            List(l)
        }
        Map(m) if !m.is_empty() => {
            let mut m = m.clone();
            let ks: Vec<String> = m.keys().cloned().collect();
            let (i, j) = (r.pick(&ks).clone(), r.pick(&ks).clone());
            match r.below(5) {
                0 => {
                    let x = varied(r, &m[&i]);
                    m.insert(i, x);
                }
                1 => drop(m.remove(&i)),
                2 => {
                    let x = m[&j].clone();
                    m.insert(i, x);
                }
                3 => {
                    let (x, y) = (m[&i].clone(), m[&j].clone());
                    m.insert(i, y);
                    m.insert(j, x);
                }
                _ => {
                    let x = m.remove(&i).unwrap();
                    m.insert(format!("{}_", i), x);
                }
            }
            Map(m)
        }
        Int(i) => Int(i.wrapping_add(1)),
        Uint(i) => Uint(i ^ 1),
        Str(s) => Str(format!("{}x", s)),
        Bool(b) => Bool(!b),
        _ => Null,
    }
}
pub fn gen_c11(cx: &mut Cx) {
    let ops = ["eq", "neq", "eq_any", "gt", "gte", "lt", "lte"];
    let p = pool();
    for op in ops {
        cx.func(op, &[]);
        cx.tuples(op, &p, 1);
        cx.tuples(op, &p, 2);
    }
    let tri: Vec<V> = vec![Int(-1), Int(1), Uint(1), Uint(2), Float(1.0), Float(1.5), s("a"), s("b"), Date(2000, 1, 2), Date(2000, 2, 1)];
    for op in ops {
        cx.tuples(op, &tri, 3);
        if cx.thorough {
            cx.tuples(op, &tri, 4);
        }
    }
    let mut r = Rng::new(cx.seed);
    for _ in 0..cx.scale(200000, 2000000) {
        let long = r.chance(1, 6);
        let n = if long { 5 + r.below(16) } else { 2 + r.below(3) };
        let k = r.below(6);
        let base = r.next() as i64 >> r.below(64);
        let most = if r.chance(1, 4) { 40 } else { 6 };
        let stem = rnd_str(&mut r, &["a", "b", "c", "\u{e9}", " "], most);
        let mut a: Vec<V> = vec![];
        for i in 0..n {
            if long && i > 0 && r.chance(4, 5) {
                // the first against many that stand in the same relation to it
                let x = match &a[0] {
                    Int(v) if k == 3 => Int(v.saturating_sub(1 + r.below(4) as i64)),
                    Int(v) if k == 4 => Int(v.saturating_add(1 + r.below(4) as i64)),
                    Uint(v) if k == 3 => Uint(v.saturating_sub(1 + r.below(4) as u64)),
                    Uint(v) if k == 4 => Uint(v.saturating_add(1 + r.below(4) as u64)),
                    v => v.clone(),
                };
                a.push(x);
                continue;
            }
            a.push(match k {
                5 => Str(format!("{}{}", stem, rnd_str(&mut r, &["a", "b", "\u{e9}"], 3))),
                0 => Str(rnd_str(&mut r, &["a", "b", "\u{e9}", "Z", "\u{ffff}", "\u{10000}"], 3)),
                1 => Date(1990 + r.below(3) as i32, 1 + r.below(3) as u32, 1 + r.below(3) as u32),
                2 => rnd(&mut r, 2),
                _ => match r.below(4) {
                    0 => Int(base.wrapping_add(r.below(3) as i64)),
                    1 => Uint(base as u64),
                    2 => Float(base as f64),
                    _ => Float(base as f64 + 0.5),
                },
            });
        }
        if r.chance(1, 4) {
            let c = a[0].clone();
            a.push(c);
        }
        let op = *r.pick(&ops);
        cx.func(op, &a);
    }
    // large values that are equal but for one part
    for _ in 0..cx.scale(6000, 60000) {
        let n = 1 + r.below(9);
        let v = match r.below(3) {
            0 => Bytes((0..n * 3).map(|_| r.below(3) as u8).collect()),
            1 => List((0..n).map(|_| if r.chance(1, 3) { rnd(&mut r, 2) } else { Int(r.below(3) as i64) }).collect()),
            _ => Map((0..n).map(|i| (format!("k{}", i), if r.chance(1, 3) { rnd(&mut r, 2) } else { Int(r.below(3) as i64) })).collect()),
        };
        let w = varied(&mut r, &v);
        cx.func(*r.pick(&["eq", "neq", "eq_any"]), &[v.clone(), w.clone()]);
        cx.func(*r.pick(&["eq", "neq", "eq_any"]), &[List(vec![v.clone(), w.clone()]), List(vec![w.clone(), v.clone()])]);
        cx.func("eq_any", &[v.clone(), w.clone(), varied(&mut r, &w), varied(&mut r, &v)]);
    }
}

// ------------------------------------------------------------------ C12 / C13
fn part<'a>(v: &'a V, path: &[&str]) -> Option<&'a V> {
    match path.split_first() {
        None => Some(v),
        Some((k, rest)) => match (v, k.parse::<usize>()) {
            (List(l), Ok(n)) => l.get(n).and_then(|x| part(x, rest)),
            (Map(m), Err(_)) => m.get(*k).and_then(|x| part(x, rest)),
            _ => None,
        },
    }
}
/// the order the property fixes: None where it says nothing
fn on_crit(a: &V, b: &V, crits: &[V]) -> Option<Ordering> {
    for c in crits {
        let c = match c {
            Str(x) => x.as_str(),
            _ => return None,
        };
        let (down, c) = match c.strip_prefix('-') {
            Some(r) => (true, r),
            None => (false, c),
        };
        let path: Vec<&str> = c.split('.').collect();
        let o = match (part(a, &path), part(b, &path)) {
            (Some(x), Some(y)) => class_cmp(x, y).ok().flatten()?,
            (Some(_), None) => Ordering::Greater,
            (None, Some(_)) => Ordering::Less,
            (None, None) => {
                if matches!((a, b), (Map(_), Map(_))) {
                    Ordering::Equal
                } else {
                    return None;
                }
            }
        };
        let o = if down { o.reverse() } else { o };
        if o != Ordering::Equal {
            return Some(o);
        }
    }
    Some(Ordering::Equal)
}
fn group(v: &V) -> usize {
    match v {
        Int(_) | Uint(_) | Float(_) => 100,
        _ => v.kind().len() * 7 + v.kind().as_bytes()[0] as usize,
    }
}
fn c12(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    let (inp, crits): (Vec<V>, &[V]) = if name == "sort" {
        (a.iter().flat_map(|v| match v { List(l) => l.clone(), _ => vec![] }).collect(), &[])
    } else {
        match a.first() {
            Some(List(l)) if a.len() >= 2 => {
                if a[1..].iter().any(|c| !matches!(c, Str(_))) {
                    return no_panic(r).map(|_| false);
                }
                (l.clone(), &a[1..])
            }
            _ => return no_panic(r).map(|_| false),
        }
    };
    let out = match r {
        R::Ok(List(o)) => o,
        R::Err if name == "sort_on" && crits.iter().any(|c| matches!(c, Str(x) if x.is_empty() || !x.chars().all(|c| c.is_alphanumeric() || "-._".contains(c)))) => return Ok(false),
        _ => return bad("expected a list", r),
    };
    // exactly the input elements
    if out.len() != inp.len() {
        return bad(&format!("the result has {} elements, the input {}", out.len(), inp.len()), r);
    }
    let mut used = vec![false; inp.len()];
    let mut pos = vec![];
    for o in out {
        match (0..inp.len()).find(|i| !used[*i] && inp[*i].same(o)) {
            Some(i) => {
                used[i] = true;
                pos.push(i)
            }
            None => return bad(&format!("the result holds {}, the input does not, or not that often", o.js()), r),
        }
    }
    for i in 0..out.len() {
        for j in i + 1..out.len() {
            let (x, y) = (&out[i], &out[j]);
            let o = if name == "sort" { class_cmp(x, y).ok().flatten() } else { on_crit(x, y, crits) };
            match o {
                Some(Ordering::Greater) => return bad(&format!("{} comes before {}", x.js(), y.js()), r),
                Some(Ordering::Equal) if pos[i] > pos[j] && !x.same(y) => return bad(&format!("equal elements {} and {} changed places", x.js(), y.js()), r),
                _ => {}
            }
        }
    }
    if name == "sort" {
        // the kinds are kept apart: one consistent order over mixed lists
        let g: Vec<usize> = out.iter().map(group).collect();
        for i in 1..g.len() {
            if g[i] != g[i - 1] && g[..i - 1].contains(&g[i]) {
                return bad(&format!("kinds are interleaved at {}", i), r);
            }
        }
    }
    if let (1, Some(Str(c))) = (crits.len(), crits.first()) {
        // so they are among the values one criterion looks at
        let c = c.strip_prefix('-').unwrap_or(c);
        let path: Vec<&str> = c.split('.').collect();
        if out.iter().all(|v| matches!(v, Map(_))) {
            let g: Vec<usize> = out.iter().map(|v| part(v, &path).map_or(0, group)).collect();
            for i in 1..g.len() {
                if g[i] != g[i - 1] && g[..i - 1].contains(&g[i]) {
                    return bad(&format!("kinds are interleaved at {}", i), r);
                }
            }
        }
    }
    Ok(inp.len() > 1)
}
fn keyed(r: &mut Rng, id: i64) -> V {
    let mut m = std::collections::BTreeMap::new();
    m.insert("id".to_string(), Int(id));
    let mode = r.below(4);
    for k in ["a", "b"] {
        if r.chance(5, 6) {
            let v = match if mode == 3 { r.below(3) } else { mode } {
                0 => match r.below(3) {
                    0 => Int(r.below(4) as i64 - 1),
                    1 => Uint(r.below(3) as u64),
                    _ if r.chance(1, 15) => Float(f64::NAN),
                    _ => Float(r.below(4) as f64 / 2.0),
                },
                1 if r.chance(1, 12) => r.pick(&[Null, Bool(true), Date(2000, 1, 1), List(vec![]), Bytes(vec![1])]).clone(),
                1 => Str(rnd_str(r, &["a", "b"], 2)),
                _ => Int(r.below(3) as i64),
            };
            m.insert(k.to_string(), v);
        }
    }
    if r.chance(1, 2) {
        m.insert("c".to_string(), List(vec![Int(r.below(2) as i64), map(&[("x", Uint(r.below(2) as u64))])]));
    }
    Map(m)
}
const CRITS: [&str; 13] = ["a", "-a", "b", "-b", "c.0", "-c.1.x", "c.1.x", "zz", "-zz", "-c.0", "id", "-id", "c"];
pub fn gen_c12(cx: &mut Cx) {
    let tiny = vec![Int(1), Uint(1), Float(1.0), Float(f64::NAN), Int(-1), s("a"), Date(2000, 1, 1), Null];
    // every list of up to four small values
    for n in 0..cx.scale(5, 6) {
        let mut idx = vec![0usize; n];
        'outer: loop {
            let l: Vec<V> = idx.iter().map(|i| tiny[*i].clone()).collect();
            cx.func("sort", &[List(l)]);
            let mut k = 0;
            loop {
                if k == n {
                    break 'outer;
                }
                idx[k] += 1;
                if idx[k] < tiny.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
    }
    let mut r = Rng::new(cx.seed);
    for _ in 0..cx.scale(10000, 200000) {
        let n = *r.pick(&[2, 3, 5, 8, 21, 40, 60, 140]);
        let mix = r.below(4);
        let l: Vec<V> = (0..n)
            .map(|_| match mix {
                0 => rnd(&mut r, 1),
                1 => match r.below(3) {
                    0 => Int(r.below(9) as i64 - 4),
                    1 => Uint(r.below(5) as u64),
                    _ => Float(r.below(10) as f64 / 2.0 - 2.0),
                },
                2 => Str(rnd_str(&mut r, &["a", "b", "\u{e9}"], 3)),
                _ => match r.below(6) {
                    0 => Float(f64::NAN),
                    1 => Date(2000, 1, 1 + r.below(20) as u32),
                    2 => Float(r.below(30) as f64),
                    3 => Str(rnd_str(&mut r, &["a", "b"], 2)),
                    _ => Int(r.below(30) as i64),
                },
            })
            .collect();
        let k = r.below(l.len() + 1);
        if r.chance(1, 3) {
            cx.func("sort", &[List(l[..k].to_vec()), Int(4), List(l[k..].to_vec())]);
        } else {
            cx.func("sort", &[List(l)]);
        }
    }
    for _ in 0..cx.scale(15000, 300000) {
        let n = *r.pick(&[0, 1, 2, 3, 5, 9, 22, 45, 90]);
        let l: Vec<V> = if r.chance(1, 10) { (0..n).map(|_| rnd(&mut r, 2)).collect() } else { (0..n).map(|i| keyed(&mut r, i as i64)).collect() };
        let mut a = vec![List(l)];
        let most = if r.chance(1, 4) { 8 } else { 3 };
        for _ in 0..1 + r.below(most) {
            a.push(s(*r.pick(&CRITS)));
        }
        cx.func("sort_on", &a);
    }
}
fn c13(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    let l = match a.first() {
        Some(List(l)) if a.len() >= 3 => l,
        _ => return no_panic(r).map(|_| false),
    };
    let crits = &a[2..];
    let sorted = (1..l.len()).all(|i| matches!(on_crit(&l[i - 1], &l[i], crits), Some(Ordering::Less | Ordering::Equal)))
        && l.iter().all(|x| on_crit(x, &a[1], crits).is_some() && l.iter().all(|y| on_crit(x, y, crits).is_some()));
    if let R::Panic(_) = r {
        return bad("expected a value or an error", r);
    }
    let v = match r {
        R::Ok(v) => v,
        _ => {
            return if sorted && crits.iter().all(|c| matches!(c, Str(x) if CRITS.contains(&x.as_str()))) { bad("expected a result", r) } else { Ok(false) };
        }
    };
    let any = l.iter().any(|x| on_crit(x, &a[1], crits) == Some(Ordering::Equal));
    if name == "bin_search" {
        match v {
            Null if sorted && any => bad("an equal element exists but was not found", r),
            Null => Ok(sorted),
            _ => {
                let i = v.index().ok_or("not an index".to_string())? as usize;
                if i >= l.len() {
                    return bad("the index is out of range", r);
                }
                if sorted && on_crit(&l[i], &a[1], crits) != Some(Ordering::Equal) {
                    return bad("the element at that index is not equal to the item", r);
                }
                Ok(sorted)
            }
        }
    } else {
        match v {
            Null if sorted && any => bad("an equal element exists but was not found", r),
            Null => Ok(sorted),
            _ => {
                if !l.iter().any(|x| x.same(v) && (!sorted || on_crit(x, &a[1], crits) == Some(Ordering::Equal))) {
                    return bad("not an element of the list equal to the item", r);
                }
                Ok(sorted)
            }
        }
    }
}
pub fn gen_c13(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed ^ 13);
    for name in ["bin_search", "bin_get"] {
        for n in 0..=3 {
            cx.tuples(name, &[List(vec![]), List(vec![Int(1)]), s("a"), Null], n);
        }
        // every ascending run of small keys, every item
        for bits in 0..256u32 {
            let l: Vec<V> = (0..8).filter(|i| bits >> i & 1 == 1).map(|i| map(&[("a", Int(i)), ("id", Int(i * 10))])).collect();
            let mut d = l.clone();
            d.reverse();
            for q in -1..9 {
                let item = map(&[("a", if q % 2 == 0 && q >= 0 { Uint(q as u64) } else { Int(q) })]);
                cx.func(name, &[List(l.clone()), item.clone(), s("a")]);
                cx.func(name, &[List(d.clone()), item, s("-a")]);
            }
        }
    }
    for _ in 0..cx.scale(40000, 500000) {
        let n = if r.chance(1, 12) { 24 + r.below(120) } else { r.below(24) };
        let mode = r.below(6);
        let mut l: Vec<V> = (0..n).map(|i| if mode == 5 { rnd(&mut r, 2) } else { keyed(&mut r, i as i64) }).collect();
        let most = if r.chance(1, 4) { 7 } else { 3 };
        let crits: Vec<V> = (0..1 + r.below(most)).map(|_| s(*r.pick(&CRITS))).collect();
        let item = if r.chance(1, 2) && n > 0 { r.pick(&l).clone() } else { keyed(&mut r, 99) };
        if mode != 5 && r.chance(9, 10) {
            // insertion sort by the criteria, dropping what they do not order
            let mut o: Vec<V> = vec![];
            for x in l {
                if o.iter().chain([&item]).any(|y| on_crit(&x, y, &crits).is_none()) {
                    continue;
                }
                let p = o.iter().position(|y| on_crit(&x, y, &crits) == Some(Ordering::Less)).unwrap_or(o.len());
                o.insert(p, x);
            }
            l = o;
        }
        let mut a = vec![List(l), item];
        a.extend(crits);
        let name = if r.chance(1, 2) { "bin_search" } else { "bin_get" };
        cx.func(name, &a);
    }
}

// ------------------------------------------------------------------ C14
fn sub_str(x: &str, st: u64, en: Option<u64>) -> Option<String> {
    let b = x.as_bytes();
    let e = en.unwrap_or(b.len() as u64);
    if st > e || e > b.len() as u64 {
        return None;
    }
    std::str::from_utf8(&b[st as usize..e as usize]).ok().filter(|_| x.is_char_boundary(st as usize)).map(|x| x.to_string())
}
pub const FILTERS: [&str; 10] = ["$0", "gt $0 1", ".a", "eq .a 1", "no_such_function $0", "is_null $0", "$1", "true", ".a.0", "and $0 (is_num $0)"];
fn filter_pred(e: &str, v: &V) -> Option<bool> {
    let t = |v: Option<&V>| v.and_then(|v| v.truthy()).unwrap_or(false);
    Some(match e {
        "$0" => t(Some(v)),
        "gt $0 1" => match class_cmp(v, &Uint(1)) {
            Ok(Some(o)) => o == Ordering::Greater,
            _ => return None,
        },
        ".a" => t(v.get("a")),
        "eq .a 1" => v.get("a").map_or(false, |x| veq(x, &Uint(1))),
        "is_null $0" => matches!(v, Null),
        "no_such_function $0" | "$1" => false,
        "true" => true,
        ".a.0" => t(part(v, &["a", "0"])),
        "and $0 (is_num $0)" => v.is_num() && t(Some(v)),
        _ => return None,
    })
}
fn c14(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    if let R::Panic(_) = r {
        return bad("expected a value or an error", r);
    }
    match name {
        "list" => want(&List(a.to_vec()), r),
        "append" => want(&List(a.iter().flat_map(|v| match v { List(l) => l.clone(), v => vec![v.clone()] }).collect()), r),
        "len" => {
            let n: u64 = a.iter().map(|v| match v {
                List(l) => l.len(),
                Map(m) => m.len(),
                Str(x) => x.len(),
                _ => 1,
            } as u64).sum();
            want(&Uint(n), r)
        }
        "slice" => {
            if a.len() < 2 {
                return want_err(r);
            }
            let st = match a[1].index() {
                Some(n) => n,
                None => return want_err(r),
            };
            let en = match a.get(2) {
                None => None,
                Some(v) => match v.index() {
                    Some(n) => Some(n),
                    None => return want_err(r),
                },
            };
            match &a[0] {
                List(l) => {
                    let e = en.unwrap_or(l.len() as u64);
                    if st > e || e > l.len() as u64 {
                        want_err(r)
                    } else {
                        want(&List(l.iter().enumerate().filter(|(i, _)| *i as u64 >= st && (*i as u64) < e).map(|(_, v)| v.clone()).collect()), r)
                    }
                }
                Str(x) => match sub_str(x, st, en) {
                    Some(t) => want(&Str(t), r),
                    None => want_err(r),
                },
                _ => want_err(r),
            }
        }
        "get" => {
            if a.len() != 2 {
                return want_err(r);
            }
            match (&a[0], &a[1]) {
                (List(l), k) if k.int().is_some() => match k.index().and_then(|n| l.iter().enumerate().find(|(i, _)| *i as u64 == n)) {
                    Some((_, v)) => want(v, r),
                    None => match r {
                        R::Ok(Null) => Ok(true),
                        _ => bad("expected null", r),
                    },
                },
                (Map(m), Str(k)) => want(m.get(k).unwrap_or(&Null), r),
                (Str(x), k) if k.int().is_some() => {
                    let c = x.char_indices().find(|(i, _)| Some(*i as u64) == k.index());
                    match c {
                        Some((_, c)) => want(&Str(c.to_string()), r),
                        None => want_err(r),
                    }
                }
                _ => want_err(r),
            }
        }
        "index_of" => {
            if a.len() < 2 {
                return want_err(r);
            }
            match &a[1] {
                List(l) => match l.iter().position(|v| veq(v, &a[0])) {
                    Some(i) => want(&Uint(i as u64), r),
                    None => want(&Null, r),
                },
                _ => match r {
                    R::Err | R::Ok(Null) => Ok(true),
                    _ => bad("expected an error or null", r),
                },
            }
        }
        "groups" => {
            let (n, l) = match (a.first().and_then(|v| v.index()), a.get(1)) {
                (Some(n), Some(List(l))) => (n, l),
                _ => return want_err(r),
            };
            let o = match r {
                R::Ok(List(o)) => o,
                _ => return bad("expected a list", r),
            };
            let mut cat = vec![];
            for (i, g) in o.iter().enumerate() {
                match g {
                    List(g) => {
                        if g.is_empty() || (n > 0 && (g.len() as u64 > n || (i + 1 < o.len() && g.len() as u64 != n))) {
                            return bad("a group has the wrong size", r);
                        }
                        cat.extend(g.clone())
                    }
                    _ => return bad("a group is not a list", r),
                }
            }
            if cat == *l { Ok(true) } else { bad("the groups do not join up to the input", r) }
        }
        "filter" => {
            let (l, e) = match (a.first(), a.get(1)) {
                (Some(List(l)), Some(Str(e))) => (l, e),
                _ => return no_panic(r).map(|_| false),
            };
            if l.is_empty() && !FILTERS.contains(&e.as_str()) {
                return no_panic(r).map(|_| false);
            }
            let mut exp = vec![];
            for v in l {
                match filter_pred(e, v) {
                    Some(true) => exp.push(v.clone()),
                    Some(false) => {}
                    None => return no_panic(r).map(|_| false),
                }
            }
            want(&List(exp), r)
        }
        "map" => {
            let mut m = std::collections::BTreeMap::new();
            for kv in a.chunks(2) {
                if kv.len() < 2 {
                    break;
                }
                match &kv[0] {
                    Str(k) => m.insert(k.clone(), kv[1].clone()),
                    _ => return want_err(r),
                };
            }
            if a.len() % 2 == 1 {
                // a key without a value: an error or left out
                if let R::Err = r {
                    return Ok(false);
                }
            }
            want(&Map(m), r)
        }
        "join_with" => match (a.first(), a.get(1)) {
            (Some(sep), Some(List(l))) => {
                if !sep.ordered() || !a[1].ordered() {
                    return Ok(false);
                }
                let mut o = String::new();
                for (i, v) in l.iter().enumerate() {
                    if i > 0 {
                        o.push_str(&sep.disp());
                    }
                    o.push_str(&v.disp());
                }
                want(&Str(o), r)
            }
            _ => want_err(r),
        },
        _ => Err("no oracle".to_string()),
    }
}
pub fn gen_c14(cx: &mut Cx) {
    let mut r = Rng::new(cx.seed ^ 14);
    let names = ["list", "append", "slice", "get", "len", "index_of", "groups", "filter", "map", "join_with"];
    let l4 = List(vec![Int(1), s("b"), List(vec![Uint(2)]), Null]);
    let p: Vec<V> = vec![l4.clone(), List(vec![]), s("a\u{e9}\u{1F600}z"), s(""), s("a"), map(&[("a", Int(1)), ("b", Null)]), Int(-1), Int(0), Int(1), Uint(2), Int(3), Uint(4), Uint(5), Int(i64::MAX), Uint(u64::MAX), Int(i64::MIN), Float(1.0), Null, Bool(true), Bytes(vec![1]), Date(2000, 1, 1)];
    for n in names {
        for k in 0..=3 {
            cx.tuples(n, &p, k);
        }
        // two-argument forms over everything
        cx.tuples(n, &pool(), 2);
    }
    // filter over every expression
    for e in FILTERS {
        for v in pool() {
            cx.func("filter", &[List(vec![v.clone(), Int(2), v.clone(), map(&[("a", v)])]), s(e)]);
        }
    }
    for _ in 0..cx.scale(90000, 1000000) {
        // now and then a list longer than anything written by hand
        let long = r.chance(1, 12);
        let n = if long { 10 + r.below(130) } else { r.below(9) };
        let l: Vec<V> = (0..n).map(|_| rnd(&mut r, if long { 1 } else { 2 })).collect();
        let top = if long && r.chance(3, 4) { n + 3 } else { 11 };
        let num = |r: &mut Rng| if r.chance(1, 2) { Int(r.below(top + 1) as i64 - 1) } else { Uint(r.below(top) as u64) };
        let name = *r.pick(&names);
        let a: Vec<V> = match name {
            "slice" => {
                let h = if r.chance(1, 2) { List(l) } else { Str(rnd_str(&mut r, &["a", "\u{e9}", "\u{1F600}", "b"], if long { n } else { 5 })) };
                let mut a = vec![h, num(&mut r)];
                if r.chance(2, 3) {
                    a.push(num(&mut r));
                }
                a
            }
            "get" => match r.below(3) {
                0 => vec![List(l), num(&mut r)],
                1 => vec![Str(rnd_str(&mut r, &["a", "\u{e9}", "\u{1F600}"], if long { n } else { 5 })), num(&mut r)],
                _ => vec![rnd(&mut r, 2), s(*r.pick(&["a", "b", "q"]))],
            },
            "index_of" => {
                let x = if n > 0 && r.chance(1, 2) { r.pick(&l).clone() } else { rnd(&mut r, 1) };
                vec![x, List(l)]
            }
            "groups" => vec![num(&mut r), List(l)],
            "filter" => vec![List(l), s(*r.pick(&FILTERS))],
            "map" => (0..n).map(|i| if i % 2 == 0 { if long { Str(rnd_str(&mut r, &["a", "b", "c"], 4)) } else { s(*r.pick(&["a", "b", "c"])) } } else { l[i].clone() }).collect(),
            "join_with" => vec![if r.chance(1, 2) { s(", ") } else { rnd(&mut r, 0) }, List(l)],
            _ => l,
        };
        cx.func(name, &a);
    }
}

// ------------------------------------------------------------------ C15
fn decode(t: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = t;
    while let Some(c) = rest.chars().next() {
        if "<>\"'".contains(c) {
            return Err(format!("raw {:?} in the output", c));
        }
        if c != '&' {
            o.push(c);
            rest = &rest[c.len_utf8()..];
            continue;
        }
        let e = rest.find(';').ok_or("unterminated character reference")?;
        let name = &rest[1..e];
        let ch = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = name.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else { name.strip_prefix('#').and_then(|d| d.parse().ok()) };
                n.and_then(char::from_u32).ok_or(format!("unknown reference &{};", name))?
            }
        };
        if !"&<>\"'".contains(ch) {
            return Err(format!("{:?} was escaped", ch));
        }
        o.push(ch);
        rest = &rest[e + 1..];
    }
    Ok(o)
}
fn c15(_name: &str, a: &[V], r: &R) -> Result<bool, String> {
    if !a.iter().all(|v| v.ordered()) {
        return no_panic(r).map(|_| false);
    }
    let exp: String = a.iter().map(|v| v.disp()).collect();
    match r {
        R::Ok(Str(o)) => match decode(o) {
            Ok(d) if d == exp => Ok(exp.contains(|c| "&<>\"'".contains(c))),
            Ok(d) => bad(&format!("decodes to {:?}, the input is {:?}", d, exp), r),
            Err(m) => bad(&m, r),
        },
        _ => bad("expected text", r),
    }
}
pub fn gen_c15(cx: &mut Cx) {
    let al = ["&", "<", ">", "\"", "'", "a", ";", "#", "\u{e9}", "\u{1F600}", "&amp;", "&lt", "`", "\n", "\0", "39"];
    let marks = ["<!--", "-->", "--", "]]>", "<![CDATA[", "</", "/>", "<?", "?>", "&&", "<<", ">>", "''", "\"\"", "&nbsp;", "&#38;", "&#x26;", "&quot;", "<br>", "script", "=", "\\", " ", "\t", "\r\n", "-", "x", "\u{2028}"];
    for name in ["html_esc", "xml_esc"] {
        cx.tuples(name, &pool(), 1);
        cx.tuples(name, &[s("&"), s("<a"), s("'"), Int(-1), Null, List(vec![s("<"), s("\"")])], 2);
        // every text over the alphabet up to length three
        for i in 0..al.len() {
            for j in 0..al.len() {
                for k in 0..al.len() {
                    cx.func(name, &[Str(format!("{}{}{}", al[i], al[j], al[k]))]);
                }
            }
        }
        for c in 0..cx.scale(0x3000, 0x110000) {
            if let Some(c) = char::from_u32(c as u32) {
                cx.func(name, &[Str(format!("x{}y", c))]);
            }
        }
    }
    let mut r = Rng::new(cx.seed ^ 15);
    for _ in 0..cx.scale(70000, 600000) {
        let n = if r.chance(1, 10) { 4 + r.below(12) } else { r.below(4) };
        let a: Vec<V> = (0..n).map(|_| if r.chance(1, 5) { rnd(&mut r, 2) } else { if r.chance(1, 3) { Str((0..r.below(12)).map(|_| if r.chance(1, 2) { *r.pick(&marks) } else { *r.pick(&al) }).collect()) } else { let m = if r.chance(1, 12) { 200 } else { 12 }; Str(rnd_str(&mut r, &al, m)) } }).collect();
        let name = *r.pick(&["html_esc", "xml_esc"]);
        cx.func(name, &a);
    }
}

// ------------------------------------------------------------------ C17
fn c17(_n: &str, a: &[V], r: &R) -> Result<bool, String> {
    if a.len() < 2 || a[1].index().is_none() || !a[0].ordered() {
        return no_panic(r).map(|_| false);
    }
    let text = a[0].disp();
    let w = a[1].index().unwrap();
    let lines: Vec<&str> = match r {
        R::Ok(List(l)) => {
            let mut o = vec![];
            for x in l {
                match x {
                    Str(x) => o.push(x.as_str()),
                    _ => return bad("a line is not text", r),
                }
            }
            o
        }
        _ => return bad("expected a list of lines", r),
    };
    let bare = |x: &str| x.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    for l in &lines {
        if l.contains('\n') {
            return bad(&format!("line {:?} holds a newline", l), r);
        }
        if w >= 1 && l.trim().chars().count() as u64 > w {
            return bad(&format!("line {:?} is wider than {}", l, w), r);
        }
    }
    if bare(&lines.concat()) != bare(&text) {
        return bad("the lines do not hold exactly the text", r);
    }
    // can the lines be dealt out to the newline-terminated segments
    let segs: Vec<&str> = text.split('\n').collect();
    let mut at: std::collections::BTreeSet<usize> = [0].into_iter().collect();
    for (i, sg) in segs.iter().enumerate() {
        let b = bare(sg);
        let last = i + 1 == segs.len();
        let mut next = std::collections::BTreeSet::new();
        for st in at {
            let mut acc = String::new();
            if last && b.is_empty() {
                next.insert(st);
            }
            for en in st + 1..=lines.len() {
                acc.push_str(&bare(lines[en - 1]));
                if acc.len() > b.len() {
                    break;
                }
                if acc == b {
                    next.insert(en);
                }
            }
        }
        at = next;
    }
    if !at.contains(&lines.len()) {
        return bad("a newline of the text does not end a line", r);
    }
    Ok(text.len() > 1)
}
pub fn gen_c17(cx: &mut Cx) {
    let al = ["a", " ", "\n", "\t", "\u{e9}", "\r", "\u{a0}", "b"];
    for w in 0..4u64 {
        for n in 0..cx.scale(5, 6) {
            let mut idx = vec![0usize; n];
            'o: loop {
                let t: String = idx.iter().map(|i| al[*i]).collect();
                cx.func("word_wrap", &[Str(t), Uint(w)]);
                let mut k = 0;
                loop {
                    if k == n {
                        break 'o;
                    }
                    idx[k] += 1;
                    if idx[k] < al.len() - 1 {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
            }
        }
    }
    let mut r = Rng::new(cx.seed ^ 17);
    for _ in 0..cx.scale(90000, 1000000) {
        let n = *r.pick(&[6, 12, 30, 80, 80, 300]);
        let t = rnd_str(&mut r, &["a", "b", "c", "d", "e", "word", "longerword", " ", " ", "  ", "\n", "\n", "\t", "\u{e9}", "\u{1F600}", "\u{2003}", "\u{b}", "\u{85}"], n);
        let w = if r.chance(1, 20) { u64::MAX } else { r.below(if n > 50 { 90 } else { 24 }) as u64 };
        cx.func("word_wrap", &[Str(t), if r.chance(1, 2) && w < 100 { Int(w as i64) } else { Uint(w) }]);
    }
    cx.tuples("word_wrap", &pool(), 2);
}

// ------------------------------------------------------------------ C19
fn find(h: &[char], n: &[char], from: usize) -> Option<usize> {
    (from..=h.len().checked_sub(n.len())?).find(|i| h[*i..*i + n.len()] == *n)
}
fn repl(h: &str, n: &str, w: &str, mut k: u64) -> String {
    let (h, n): (Vec<char>, Vec<char>) = (h.chars().collect(), n.chars().collect());
    let mut o = String::new();
    let mut i = 0;
    while k > 0 {
        match find(&h, &n, i) {
            Some(p) => {
                o.extend(&h[i..p]);
                o.push_str(w);
                i = p + n.len();
                k -= 1;
            }
            None => break,
        }
    }
    o.extend(&h[i..]);
    o
}
fn b64(b: &[u8]) -> String {
    const T: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { T[(n >> (18 - 6 * i) & 63) as usize] as char } else { '=' });
        }
    }
    o
}
fn c19(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    if let R::Panic(_) = r {
        return bad("expected a value or an error", r);
    }
    if name == "string_from_ints" {
        let o: String = a.iter().filter_map(|v| v.index()).filter_map(|n| if n < 0xd800 || (n >= 0xe000 && n < 0x110000) { char::from_u32(n as u32) } else { None }).collect();
        return want(&Str(o), r);
    }
    if !a.iter().all(|v| v.ordered()) {
        return Ok(false);
    }
    let d: Vec<String> = a.iter().map(|v| v.disp()).collect();
    match name {
        "cat" => want(&Str(d.concat()), r),
        "split" => {
            let t = match a.first() {
                Some(Str(t)) => t,
                _ => return want_err(r),
            };
            let sp = match a.get(1) {
                None => "\n",
                Some(Str(x)) => x.as_str(),
                _ => return Ok(false),
            };
            let parts: Vec<String> = match r {
                R::Ok(List(l)) => l.iter().map(|v| v.disp()).collect(),
                _ => return bad("expected a list", r),
            };
            if parts.join(sp) != *t {
                return bad("joining the parts does not give the text back", r);
            }
            if !sp.is_empty() && parts.iter().any(|p| p.contains(sp)) {
                return bad("a part holds the splitter", r);
            }
            Ok(parts.len() > 1)
        }
        "str_contains" => {
            if a.len() < 2 {
                return want_err(r);
            }
            let h: Vec<char> = d[0].chars().collect();
            want(&Bool(d[1..].iter().any(|n| find(&h, &n.chars().collect::<Vec<_>>(), 0).is_some())), r)
        }
        "str_replace" | "str_replace_n" => {
            if a.len() < 3 {
                return want_err(r);
            }
            if d[1].is_empty() {
                return Ok(false);
            }
            let n = if name == "str_replace" {
                u64::MAX
            } else {
                match a.get(3) {
                    None => 1,
                    Some(v) => match v.index() {
                        Some(n) => n,
                        None => return Ok(false),
                    },
                }
            };
            want(&Str(repl(&d[0], &d[1], &d[2], n)), r)
        }
        "as_base64" => {
            let b = match a.first() {
                Some(Str(x)) => x.as_bytes(),
                Some(Bytes(b)) => b,
                _ => return want_err(r),
            };
            want(&Str(b64(b)), r)?;
            want(&Bytes(b.to_vec()), &call("from_base64", &[r.ok().unwrap().clone()]))
        }
        "from_base64" => match r {
            R::Ok(Bytes(b)) => {
                let back = call("as_base64", &[Bytes(b.clone())]);
                match (a.first(), &back) {
                    (Some(v), R::Ok(Str(t))) => {
                        let inp = match v {
                            Str(x) => x.as_bytes().to_vec(),
                            Bytes(x) => x.clone(),
                            _ => return bad("expected an error", r),
                        };
                        if inp == t.as_bytes() { Ok(true) } else { bad(&format!("encoding the result gives {:?}", t), r) }
                    }
                    _ => bad("encoding the result fails", &back),
                }
            }
            R::Err => Ok(false),
            _ => bad("expected bytes or an error", r),
        },
        _ => Err("no oracle".to_string()),
    }
}
pub fn gen_c19(cx: &mut Cx) {
    let names = ["cat", "split", "str_contains", "str_replace", "str_replace_n", "string_from_ints", "as_base64", "from_base64"];
    let p = pool();
    for n in names {
        cx.func(n, &[]);
        cx.tuples(n, &p, 1);
        cx.tuples(n, &p, 2);
    }
    let al = ["a", "b", "aa", "ab", "\u{e9}", "\u{1F600}", ",", "\n", ""];
    for n in ["split", "str_contains", "str_replace", "str_replace_n", "cat"] {
        let pool: Vec<V> = al.iter().map(|x| s(x)).chain([s("aab"), s("abab"), s("a,b,,c"), s(",a,"), s("aaaa")]).collect();
        cx.tuples(n, &pool, 3);
    }
    for c in 0..cx.scale(0x2000, 0x120000) {
        cx.func("string_from_ints", &[Uint(c as u64), Int(65)]);
    }
    for c in [0xd7ff, 0xd800, 0xdbff, 0xdfff, 0xe000, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0xffffffff, 0x100000000, 0x100000041, u64::MAX] {
        cx.func("string_from_ints", &[Uint(c), Uint(0x41)]);
        cx.func("string_from_ints", &[Int(c as i64), Uint(0x41)]);
    }
    let mut r = Rng::new(cx.seed ^ 19);
    for _ in 0..cx.scale(90000, 1000000) {
        let name = *r.pick(&names);
        let long = r.chance(1, 8);
        let al2 = ["a", "b", "ab", "ba", "\u{e9}", ",", "\n", " "];
        let a: Vec<V> = match name {
            "cat" => (0..if r.chance(1, 8) { 5 + r.below(14) } else { r.below(5) }).map(|_| rnd(&mut r, 2)).collect(),
            "string_from_ints" => (0..if r.chance(1, 8) { 5 + r.below(60) } else { r.below(5) }).map(|_| if r.chance(1, 5) { rnd(&mut r, 1) } else { Uint(r.below(0x11000) as u64) }).collect(),
            "as_base64" => vec![Bytes((0..if r.chance(1, 8) { r.below(300) } else { r.below(20) }).map(|_| r.next() as u8).collect())],
            "from_base64" => {
                let b: Vec<u8> = (0..if r.chance(1, 8) { r.below(300) } else { r.below(12) }).map(|_| r.next() as u8).collect();
                let mut t = b64(&b);
                if r.chance(1, 3) {
                    t.push_str(*r.pick(&["=", "A", "!"]));
                }
                vec![Str(t)]
            }
            "split" => vec![Str(rnd_str(&mut r, &al2, if long { 120 } else { 10 })), Str(rnd_str(&mut r, &al2, 2))],
            "str_contains" if long => (0..6 + r.below(12)).map(|i| Str(if i == 0 { rnd_str(&mut r, &al2, 30) } else { rnd_str(&mut r, &["x", "y", "aaa", "bbb", ",,"], 3) + if r.chance(1, 10) { "" } else { "?" } })).collect(),
            "str_contains" => (0..2 + r.below(3)).map(|i| Str(rnd_str(&mut r, &al2, if i == 0 { 8 } else { 2 }))).collect(),
            _ => {
                let mut a = vec![Str(rnd_str(&mut r, &al2, if long { 120 } else { 10 })), Str(rnd_str(&mut r, &al2, 2)), Str(rnd_str(&mut r, &al2, 3))];
                let top = if long { 40 } else { 5 };
                if r.chance(1, 2) {
                    a.push(if r.chance(1, 2) { Uint(r.below(top) as u64) } else { Int(r.below(top) as i64) });
                }
                a
            }
        };
        cx.func(name, &a);
    }
}

// ------------------------------------------------------------------ C21
fn c21(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    let t: Vec<bool> = a.iter().map(|v| v.truthy() == Some(true)).collect();
    let b = match name {
        "and" => t.iter().all(|x| *x),
        "nand" => !t.iter().all(|x| *x),
        "or" => t.iter().any(|x| *x),
        "nor" => !t.iter().any(|x| *x),
        _ => {
            if a.is_empty() {
                return want_err(r);
            }
            match name {
                "is_null" => matches!(a[0], Null),
                "is_num" => a[0].is_num(),
                _ => {
                    if a.len() > 1 {
                        return if a[1].ordered() { want(&Bool(a[0].kind() == a[1].disp()), r) } else { Ok(false) };
                    }
                    return want(&s(a[0].kind()), r);
                }
            }
        }
    };
    want(&Bool(b), r)
}
pub fn gen_c21(cx: &mut Cx) {
    let mut p = pool();
    for k in ["bool", "string", "int", "uint", "float", "list", "map", "template", "null", "date", "bytes", "num"] {
        p.push(s(k));
    }
    p.push(Float(f64::MIN_POSITIVE));
    p.push(List(vec![Null]));
    p.push(map(&[("", Null)]));
    for n in ["and", "nand", "or", "nor", "is_null", "is_num", "type_of"] {
        for k in 0..=2 {
            cx.tuples(n, &p, k);
        }
        let q = [Bool(true), Bool(false), Null, Int(0), Int(-1), Uint(1), s(""), s("x"), Date(2000, 1, 1), Bytes(vec![1]), Float(0.0), List(vec![])];
        cx.tuples(n, &q, 3);
        if cx.thorough {
            cx.tuples(n, &q, 4);
        }
    }
    let mut r = Rng::new(cx.seed ^ 21);
    for _ in 0..cx.scale(70000, 500000) {
        let tilt = r.below(3);
        let a: Vec<V> = (0..if tilt == 0 { r.below(7) } else { r.below(20) })
            .map(|_| match tilt {
                1 if !r.chance(1, 20) => r.pick(&[Bool(true), Int(-1), Uint(1), s("x"), Float(0.5), List(vec![Null]), map(&[("a", Null)])]).clone(),
                2 if !r.chance(1, 20) => r.pick(&[Bool(false), Int(0), Uint(0), s(""), Float(-0.0), List(vec![]), Null, map(&[])]).clone(),
                _ => rnd(&mut r, 2),
            })
            .collect();
        let n = *r.pick(&["and", "nand", "or", "nor", "is_null", "is_num", "type_of"]);
        cx.func(n, &a);
    }
}

// ------------------------------------------------------------------ C23
/// (is absolute, components) of joining texts that each are clean paths
fn comps(a: &[String]) -> Option<(bool, Vec<String>)> {
    let mut abs = false;
    let mut c: Vec<String> = vec![];
    for t in a {
        let mut rest = t.as_str();
        if rest.starts_with('/') {
            abs = true;
            c.clear();
            rest = &rest[1..];
        }
        if rest.is_empty() {
            continue;
        }
        for x in rest.split('/') {
            if x.is_empty() || x == "." || x == ".." || x.contains('\0') {
                return None;
            }
            c.push(x.to_string());
        }
    }
    Some((abs, c))
}
fn show(abs: bool, c: &[String]) -> String {
    format!("{}{}", if abs { "/" } else { "" }, c.join("/"))
}
fn split_ext(n: &str) -> (&str, Option<&str>) {
    match n.rfind('.') {
        Some(i) if i > 0 => (&n[..i], Some(&n[i + 1..])),
        _ => (n, None),
    }
}
fn c23(name: &str, a: &[V], r: &R) -> Result<bool, String> {
    if let R::Panic(_) = r {
        return bad("expected a value or an error", r);
    }
    if !a.iter().all(|v| v.ordered()) {
        return Ok(false);
    }
    let d: Vec<String> = a.iter().map(|v| v.disp()).collect();
    if name == "with_ext" {
        if a.len() < 2 {
            return want_err(r);
        }
        if d[1].contains('/') {
            return want_err(r);
        }
        let (abs, mut c) = match comps(&d[..1]) {
            Some(x) => x,
            None => return Ok(false),
        };
        return match c.pop() {
            None => Ok(false),
            Some(n) => {
                let st = split_ext(&n).0;
                if st == "." {
                    // "..x": the standard library takes the stem for the current folder
                    return Ok(false);
                }
                c.push(if d[1].is_empty() { st.to_string() } else { format!("{}.{}", st, d[1]) });
                want(&Str(show(abs, &c)), r)
            }
        };
    }
    let (abs, mut c) = match comps(&d) {
        Some(x) => x,
        None => return Ok(false),
    };
    // an empty last part leaves a closing separator; the rest sees the same path
    let tail = d.last().map_or(false, |t| t.is_empty()) && !c.is_empty();
    match name {
        "join" => want(&Str(format!("{}{}", show(abs, &c), if tail { "/" } else { "" })), r),
        "parent" => {
            if c.pop().is_none() {
                return want(&s(""), r);
            }
            want(&Str(show(abs, &c)), r)
        }
        "base_name" => match c.last() {
            Some(n) => want(&s(n), r),
            None => want_err(r),
        },
        "base_name_sure" => want(&s(c.last().map_or("", |x| x.as_str())), r),
        "stem" => match c.last() {
            Some(n) => want(&s(split_ext(n).0), r),
            None => want_err(r),
        },
        "full_stem" => match c.pop() {
            Some(n) if split_ext(&n).0 == "." => no_panic(r).map(|_| n.is_empty()),
            Some(n) => {
                c.push(split_ext(&n).0.to_string());
                want(&Str(show(abs, &c)), r)
            }
            None => want_err(r),
        },
        "bread_crumbs" => {
            let lo = if abs || c.is_empty() { 0 } else { 0 };
            let mut exp: Vec<V> = (lo..=c.len()).map(|k| Str(show(abs, &c[..k]))).collect();
            if tail {
                let k = exp.len() - 1;
                exp[k] = Str(show(abs, &c) + "/");
            }
            want(&List(exp), r)
        }
        _ => Err("no oracle".to_string()),
    }
}
pub fn gen_c23(cx: &mut Cx) {
    let names = ["join", "parent", "base_name", "base_name_sure", "stem", "full_stem", "with_ext", "bread_crumbs"];
    let p: Vec<V> = ["", "/", "a", "b.c", "a/b", "/a", "/x.y/z.t.u", "a.b/c", ".hid", ".h.x", "a.", "\u{e9}.\u{fc}", "..", ".", "a//b", "a/", "a/../b", "tar.gz", "x y"].iter().map(|x| s(x)).chain([Int(-1), Null, Float(1.5)]).collect();
    for n in names {
        for k in 0..=3 {
            cx.tuples(n, &p, k);
        }
    }
    let mut r = Rng::new(cx.seed ^ 23);
    for _ in 0..cx.scale(90000, 800000) {
        let n = if r.chance(1, 8) { 5 + r.below(16) } else { 1 + r.below(4) };
        let a: Vec<V> = (0..n)
            .map(|i| {
                if r.chance(1, 40) {
                    return r.pick(&[s(""), Uint(7), Int(-3), Bool(true), Null]).clone();
                }
                let k = if r.chance(1, 10) { 5 + r.below(12) } else { 1 + r.below(4) };
                let most = if r.chance(1, 20) { 60 } else { 5 };
                let c: Vec<String> = (0..k).map(|_| loop {
                    let t = rnd_str(&mut r, &["a", "b", ".", "c", "\u{e9}", " ", "-", "Z", "\t", "\n", "\\", "_", "~", "0", "\u{1F600}"], most);
                    if !t.is_empty() && t != "." && t != ".." {
                        break t;
                    }
                }).collect();
                Str(format!("{}{}", if r.chance(1, if i == 0 { 3 } else { 10 }) { "/" } else { "" }, c.join("/")))
            })
            .collect();
        let name = *r.pick(&names);
        if name == "with_ext" {
            let e = rnd_str(&mut r, &["h", "t", "m", ".", "x", " ", "\t", "H", "\u{e9}", "-", "0"], 6);
            let mut b = vec![a[0].clone(), Str(e)];
            if r.chance(1, 6) {
                b.extend(a.iter().skip(1).take(3).cloned());
            }
            cx.func(name, &b);
        } else {
            cx.func(name, &a);
        }
    }
}

// ------------------------------------------------------------------ C16
pub const DEFAULTS: [&str; 0] = [];
fn strings16(r: &mut Rng) -> V {
    let al = ["a", "1", "-", "/", ".", "[", "]", "{", "}", "\"", "\\", "\\u", "d800", "(", ")", "*", "+", "?", "|", "\n", " ", "\t", ":", ",", "&", "<", "#", "_", "`", "$0", "e", "9999999999", "jan", "null", "\u{e9}", "\u{1F600}", "r#\"", "\"#", "=", "%", "~", "!", "^", "\0"];
    Str(rnd_str(r, &al, 8))
}
pub fn gen_c16(cx: &mut Cx) {
    let names = default_names();
    let mut small = pool();
    small.truncate(200);
    let few = vec![Int(0), Int(-1), Uint(3), Int(i64::MIN), Uint(u64::MAX), Float(f64::NAN), Float(-1e300), s(""), s("a\u{e9}b"), List(vec![]), List(vec![Int(1), s("x"), Float(f64::NAN)]), map(&[("a", Int(1))]), Null, Bool(true), Date(2000, 1, 1), Bytes(vec![0, 255]), Tmpl("x".into())];
    let md_like = |n: &str| matches!(n, "md" | "table" | "regex" | "r_card");
    for n in &names {
        if n == "debug" {
            continue;
        }
        cx.func(n, &[]);
        cx.tuples(n, &small, 1);
        if !md_like(n) {
            cx.tuples(n, &small, 2);
        } else {
            cx.tuples(n, &few, 2);
        }
        cx.tuples(n, &few, 3);
    }
    // a member given twice: card_format 0.2.2 panics (a known finding)
    cx.func("r_card", &[s("a:\n.l:[1]\n.l:[2]\n")]);
    let mut r = Rng::new(cx.seed ^ 16);
    for _ in 0..cx.scale(200000, 3000000) {
        let name = r.pick(&names).clone();
        if name == "debug" {
            continue;
        }
        let n = if r.chance(1, 12) { 6 + r.below(12) } else { r.below(6) };
        let a: Vec<V> = (0..n)
            .map(|i| match r.below(4) {
                0 if r.chance(1, 6) => Str((0..r.below(9)).map(|_| match strings16(&mut r) { Str(x) => x, _ => String::new() }).collect()),
                0 => strings16(&mut r),
                1 if i == 0 => List((0..r.below(30)).map(|_| rnd(&mut r, 1)).collect()),
                _ => rnd(&mut r, 2),
            })
            .collect();
        cx.func(&name, &a);
    }
    // the special forms, through templates
    let forms = ["run", "first", "select"];
    let exprs = ["", "$0", "$1", "$2", "$3", "1", "0", "-1", "true", "null", "\"\"", "$nope", "(nofunc 1)", "18446744073709551615", "$0 $1", "1 2", "0 $0 $1", "true $0 $1", "1.5 $0 $1", "[] $0 1", "9223372036854775807 1 2", "-1 1 2", "2 1 2", "1 1 2"];
    for f in forms {
        for e1 in exprs {
            for e2 in exprs {
                let t = format!("{{{{{} {} {}}}}}", f, e1, e2);
                for p in [vec![], vec![Tmpl("{{$0}}".into()), Int(1)], vec![Int(5), Int(6), Int(7)], vec![Float(f64::NAN), Null, Bool(true)], vec![List(vec![]), Date(2000, 1, 1), Bytes(vec![])]] {
                    cx.text_case(&t, &p);
                }
            }
        }
    }
}
pub fn default_names() -> Vec<String> {
    use templito::func_man::FuncManager;
    let fm = templito::func_man::default_func_man();
    let v = std::cell::RefCell::new(vec![]);
    fm.for_each(|k, _| v.borrow_mut().push(k.clone()));
    let r = v.borrow().clone();
    r
}
impl Cx {
    /// a template that must render or fail, never crash
    pub fn text_case(&mut self, t: &str, p: &[V]) {
        self.case(&|| serde_json::json!({"kind":"text","text":t,"params":p.iter().map(|a| a.js()).collect::<Vec<_>>()}), &mut || check_text(t, p));
    }
}
pub fn check_text(t: &str, p: &[V]) -> Result<bool, String> {
    use templito::TParam;
    let tt: templito::TreeTemplate = match guard(|| t.parse()) {
        Ok(Ok(x)) => x,
        Ok(Err(_)) => return Ok(false),
        Err(p) => return Err(format!("parsing panicked: {}", p)),
    };
    let tds: Vec<templito::TData> = p.iter().map(|v| v.to_td()).collect();
    let ps: Vec<&dyn TParam> = tds.iter().map(|t| t as &dyn TParam).collect();
    let fm = templito::func_man::default_func_man();
    match guard(|| tt.run(&ps, &mut templito::temp_man::BasicTemps::new(), &fm)) {
        Ok(r) => Ok(r.is_ok()),
        Err(p) => Err(format!("running panicked: {}", p)),
    }
}

// ------------------------------------------------------------------ C24 (env part; the rest lives in fsys.rs)
fn c24(_n: &str, _a: &[V], r: &R) -> Result<bool, String> {
    no_panic(r)
}
