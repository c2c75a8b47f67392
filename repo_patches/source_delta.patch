From 4a650b0189a3607e50fe21550bcfbf274cf48ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 01/25] fix: folder lock let ".." and a root path leave the
 locked folder

---
 src/funcs/folder.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/funcs/folder.rs b/src/funcs/folder.rs
index 97cc55b..d7a321c 100644
--- a/src/funcs/folder.rs
+++ b/src/funcs/folder.rs
@@ -6,16 +6,23 @@ use image::GenericImageView;
 use std::collections::HashMap;
 use std::io::Read;
 use std::ops::Deref;
-use std::path::{Path, PathBuf};
+use std::path::{Component, Path, PathBuf};
 use std::str::FromStr;
 use tparam::*;
 
 pub fn safe_path(p: &Path, s: &str) -> Option<PathBuf> {
     let pres = p.join(s);
-    if pres.starts_with(p) {
-        return Some(pres);
+    //Below p, ".." must never climb back out of it
+    let mut depth: usize = 0;
+    for c in pres.strip_prefix(p).ok()?.components() {
+        match c {
+            Component::Normal(_) => depth += 1,
+            Component::ParentDir => depth = depth.checked_sub(1)?,
+            Component::CurDir => {}
+            _ => return None,
+        }
     }
-    None
+    Some(pres)
 }
 
 fn do_dir<'a, P: AsRef<Path>>(p: P) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From e1118f5a183aabae4fcb71ba54ece625c4fef347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 02/25] fix: run without arguments panicked

---
 src/expr.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index d904ce6..d5b4fa8 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -66,13 +66,13 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         for p in args {
             tds.push(p.run(scope, tm, fm)?);
         }
-        //Convert TParams to pointers to call the Template
-        let mut v: Vec<&dyn TParam> = Vec::new();
-        for p in &tds[1..] {
-            v.push(p);
-        }
         if let Some(tp) = tds.get(0) {
             if let TData::Template(t) = tp.deref() {
+                //Convert TParams to pointers to call the Template
+                let mut v: Vec<&dyn TParam> = Vec::new();
+                for p in &tds[1..] {
+                    v.push(p);
+                }
                 let (s, mut mp) = t.run_exp(&v, tm, fm)?;
                 if let Some(v) = mp.remove("return") {
                     return Ok(TCow::Owned(v));
-- 
2.43.0


From c3549e3a085b55fc02f8561353886637bb76aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 03/25] fix: run on a non template evaluated its arguments
 twice

---
 src/expr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr.rs b/src/expr.rs
index d5b4fa8..e91fe89 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -80,6 +80,7 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
                 return Ok(TCow::Owned(TData::String(s)));
             }
         }
+        return run_values(cname, &tds, tm, fm);
     }
     if cname == "first" {
         for p in args {
-- 
2.43.0


From 1f27b3b6bbc6d9636771601d8b9a4e8f1ad5ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 04/25] fix: select panicked when its index was out of range

---
 src/expr.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/expr.rs b/src/expr.rs
index e91fe89..684f56b 100644
--- a/src/expr.rs
+++ b/src/expr.rs
@@ -98,14 +98,14 @@ pub fn run_command<'a, TM: TempManager, FM: FuncManager>(
         }
         let bval = args[0].run(scope, tm, fm)?;
         let bval = if let Some(n) = bval.as_usize() {
-            n + 1
+            n.saturating_add(1)
         } else if let Some(b) = bval.as_bool() {
             2 - (b as usize)
         } else {
             return e_string(format!("As Bool failed on {}", bval.deref()));
         };
 
-        if bval > args.len() {
+        if bval >= args.len() {
             return e_str("'select' first param must choose return a value less than the length of the rest of the args");
         }
 
-- 
2.43.0


From 085f5c2d990e108bb0910c521fb547679beae040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 05/25] fix: get with fewer than two arguments panicked

---
 src/funcs/lists.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 88d4086..29ef723 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -190,6 +190,9 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 pub fn get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
+    if args.len() < 2 {
+        return e_str("Get requires List and Number");
+    }
     let pos = match args[1].deref() {
         TData::Int(i) => TData::UInt(*i as usize),
         v => v.clone(),
-- 
2.43.0


From 8e0b746caffd3c3470f17d844c6264aa3a7bd12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 06/25] fix: bin_get returned one of its arguments instead of
 the list element

---
 src/funcs/lists.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 29ef723..0deffea 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -184,7 +184,7 @@ pub fn bin_get<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let comps = build_comparator(&args[2..])?;
     let n = list.binary_search_by(|v| compare(&comps, v, args[1].deref()));
     match n {
-        Ok(n) => Ok(args[n].clone()),
+        Ok(n) => Ok(TCow::Owned(list[n].clone())),
         Err(_) => Ok(TCow::Owned(TData::Null)),
     }
 }
-- 
2.43.0


From ca0f5d82c3b55030839405b684ebc0bfe95b9c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 07/25] fix: html_esc left the references for quotes
 unterminated

---
 src/funcs/strings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index e90dcd3..93d62c2 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -97,8 +97,8 @@ pub fn html_esc<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
                 '&' => res.push_str("&amp;"),
                 '<' => res.push_str("&lt;"),
                 '>' => res.push_str("&gt;"),
-                '"' => res.push_str("&quot"),
-                '\'' => res.push_str("&#39"),
+                '"' => res.push_str("&quot;"),
+                '\'' => res.push_str("&#39;"),
                 c => res.push(c),
             }
         }
-- 
2.43.0


From ff0a7f8f9de3a1c242ae1dd2987614e4b50f8543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 08/25] fix: as left its scope open when the pattern or the
 block failed

---
 src/template.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/template.rs b/src/template.rs
index 62e5115..8dadd30 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -262,13 +262,14 @@ impl TreeItem {
                 return Ok(String::new());
             }
             TreeItem::As { exp, pat, block } => {
-                scope.push();
                 let val = exp.run(scope, tm, fm)?.into_owned();
+                scope.push();
                 if pat.match_data(&val, scope, tm, fm) {
-                    let r = run_block(block, scope, tm, fm)?;
+                    let r = run_block(block, scope, tm, fm);
                     scope.pop();
-                    return Ok(r);
+                    return r;
                 }
+                scope.pop();
                 return Ok(String::new());
             }
         }
-- 
2.43.0


From 6e86df96ac1500e90ea624df200742f9b937a962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 09/25] fix: a block ending in an error left its scope open for
 front_matter

---
 src/template.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/template.rs b/src/template.rs
index 8dadd30..d4d9d3e 100644
--- a/src/template.rs
+++ b/src/template.rs
@@ -99,7 +99,13 @@ pub fn run_block<TM: TempManager, FM: FuncManager>(
     let mut res = String::new();
     scope.push();
     for item in block {
-        res.push_str(&item.run(scope, tm, fm)?);
+        match item.run(scope, tm, fm) {
+            Ok(s) => res.push_str(&s),
+            Err(e) => {
+                scope.pop();
+                return Err(e);
+            }
+        }
     }
     scope.pop();
     Ok(res)
-- 
2.43.0


From 28e6bd0fcc9956f1d411c022276691229b823dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 10/25] fix: table panicked when a continued row had more cells

---
 src/funcs/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/funcs/table.rs b/src/funcs/table.rs
index e523f93..d167e18 100644
--- a/src/funcs/table.rs
+++ b/src/funcs/table.rs
@@ -40,7 +40,7 @@ parser! {(Table->String)
             match curr {
                 Some(ref mut v)=>{
                     for (n,s) in row[1..r_len-1].iter().enumerate(){
-                        if n >v.len() {
+                        if n >= v.len() {
                             v.push(s.to_string());
                         }else{
                             write!(v[n]," {}",s).ok();
-- 
2.43.0


From 00b24064e82abf4af16f82280fc2f9006a4a4b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 11/25] fix: word_wrap panicked on text with other white space,
 such as U+00A0

---
 src/funcs/strings.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 93d62c2..76bb72b 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -126,6 +126,7 @@ pub fn regex<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 }
 
 fn _word_wrap(s: &str, len: usize) -> Vec<String> {
+    let is_ws = |c| "\n\t \r".contains(c);
     let mut res = Vec::new();
     let mut index = 0;
     let mut count = 0;
@@ -145,13 +146,13 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         if count >= len {
             match brk {
                 Some(b) => {
-                    res.push(s[index..b].trim().to_string());
+                    res.push(s[index..b].trim_matches(is_ws).to_string());
                     index = b;
                     count = k - b;
                     brk = None;
                 }
                 None => {
-                    res.push(s[index..k].trim().to_string());
+                    res.push(s[index..k].trim_matches(is_ws).to_string());
                     index = k;
                     count = 0;
                     brk = None;
@@ -160,7 +161,7 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
         }
     }
     if index < s.len() {
-        res.push(s[index..].trim().to_string());
+        res.push(s[index..].trim_matches(is_ws).to_string());
     }
     //Assert the wrap has all the chars
     let mut s_join = String::new();
-- 
2.43.0


From 45c2e0aa4928c3db94c673270b112a250c70729f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 12/25] fix: word_wrap kept the newline at the start of the
 following line

---
 src/funcs/strings.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 76bb72b..795e9b7 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -138,8 +138,9 @@ fn _word_wrap(s: &str, len: usize) -> Vec<String> {
             '\n' => {
                 res.push(s[index..k].to_string());
                 count = 0;
-                index = k;
+                index = k + 1;
                 brk = None;
+                continue;
             }
             _ => {}
         }
-- 
2.43.0


From 5a2c0e1e129de333aa8c016ffe8d17f22faba5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 13/25] fix: from_json panicked on integers above i64::MAX

---
 src/tdata.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 6e3c6b8..5fb5ecc 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -186,7 +186,10 @@ impl TData {
                 if n.is_f64() {
                     Self::Float(n.as_f64().unwrap())
                 } else {
-                    Self::Int(n.as_i64().unwrap() as isize)
+                    match n.as_i64() {
+                        Some(i) => Self::Int(i as isize),
+                        None => Self::UInt(n.as_u64().unwrap() as usize),
+                    }
                 }
             }
             SV::Null => Self::Null,
-- 
2.43.0


From fe908251f819f14722450117ad7222fffadbe9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 14/25] fix: with_ext panicked when the extension held a path
 separator

---
 src/funcs/path.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/funcs/path.rs b/src/funcs/path.rs
index 62b8487..9a923e6 100644
--- a/src/funcs/path.rs
+++ b/src/funcs/path.rs
@@ -77,7 +77,11 @@ pub fn with_ext<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         return e_str("'with_ext' requires a filenae then an extension");
     }
     let p = PathBuf::from(args[0].to_string());
-    let pe = p.with_extension(args[1].to_string());
+    let ext = args[1].to_string();
+    if ext.contains(std::path::is_separator) {
+        return e_str("'with_ext' the extension must not contain a path separator");
+    }
+    let pe = p.with_extension(ext);
     b_ok(path_dat(&pe))
 }
 
-- 
2.43.0


From 3e05c2a8e19a1687f2dbd0776758d9a38976ba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 15/25] fix: string_from_ints truncated numbers above 32 bits
 to other characters

---
 src/funcs/strings.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/funcs/strings.rs b/src/funcs/strings.rs
index 795e9b7..21e3643 100644
--- a/src/funcs/strings.rs
+++ b/src/funcs/strings.rs
@@ -1,6 +1,7 @@
 use crate::*;
 use err_tools::*;
 use pulldown_cmark as mdown;
+use std::convert::TryFrom;
 use std::ops::Deref;
 use tparam::*;
 
@@ -48,8 +49,11 @@ pub fn contains<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn string_from_ints<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = String::new();
     for a in args {
-        let c = a.as_usize().map(|n| n as u32).map(char::from_u32);
-        if let Some(Some(ch)) = c {
+        let c = a
+            .as_usize()
+            .and_then(|n| u32::try_from(n).ok())
+            .and_then(char::from_u32);
+        if let Some(ch) = c {
             res.push(ch)
         }
     }
-- 
2.43.0


From 0d715b0b60691f9294ccf41ff4ea3e70c49ff042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 16/25] fix: a card read as a whole lost its Name or Num to a
 data member of that name

---
 src/tdata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tdata.rs b/src/tdata.rs
index 5fb5ecc..33050b7 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -274,11 +274,11 @@ use card_format::{CData, Card};
 impl From<&Card> for TData {
     fn from(c: &Card) -> Self {
         let mut m = std::collections::HashMap::new();
-        m.insert("Name".to_string(), TData::String(c.name.clone()));
-        m.insert("Num".to_string(), TData::UInt(c.num));
         for (k, v) in &c.data {
             m.insert(k.clone(), v.into());
         }
+        m.insert("Name".to_string(), TData::String(c.name.clone()));
+        m.insert("Num".to_string(), TData::UInt(c.num));
         TData::Map(m)
     }
 }
-- 
2.43.0


From e3035af2b837ccb5ceb12417125d07db749b9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 17/25] fix: rand panicked on an empty range

---
 src/funcs/random.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/funcs/random.rs b/src/funcs/random.rs
index 14fea6d..e4c542a 100644
--- a/src/funcs/random.rs
+++ b/src/funcs/random.rs
@@ -13,16 +13,18 @@ pub fn get_rand<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 
     if args.len() == 2 {
         return match (args[0].deref(), args[1].deref()) {
-            (TData::Int(a), TData::Int(b)) => b_ok(TData::Int(rg.gen_range(a, b))),
-            (TData::UInt(a), TData::UInt(b)) => b_ok(TData::UInt(rg.gen_range(a, b))),
-            (TData::Float(a), TData::Float(b)) => b_ok(TData::Float(rg.gen_range(a, b))),
+            (TData::Int(a), TData::Int(b)) if a < b => b_ok(TData::Int(rg.gen_range(a, b))),
+            (TData::UInt(a), TData::UInt(b)) if a < b => b_ok(TData::UInt(rg.gen_range(a, b))),
+            (TData::Float(a), TData::Float(b)) if a < b && (b - a).is_finite() => {
+                b_ok(TData::Float(rg.gen_range(a, b)))
+            }
             _ => e_str("Could not gen random"),
         };
     }
 
     match args[0].deref() {
-        TData::Int(n) => b_ok(TData::Int(rg.gen_range(0, n))),
-        TData::UInt(n) => b_ok(TData::UInt(rg.gen_range(0, n))),
+        TData::Int(n) if *n > 0 => b_ok(TData::Int(rg.gen_range(0, n))),
+        TData::UInt(n) if *n > 0 => b_ok(TData::UInt(rg.gen_range(0, n))),
         TData::Float(n) => b_ok(TData::Float(rg.gen::<f64>() * n)),
         TData::List(l) => {
             if l.len() == 0 {
-- 
2.43.0


From deabd0bd805c919a2a96ca2c1567af57446d4678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:37 +0000
Subject: [PATCH 18/25] fix: integer arithmetic and comparison wrapped or
 panicked at the limits of Int and UInt

---
 src/funcs/math.rs | 52 +++++++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 18 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index 2fb67a8..faad58f 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -17,7 +17,7 @@ pub fn fold<T: Clone, F: Fn(T, &T) -> anyhow::Result<T>>(l: &[T], f: F) -> anyho
 
 pub enum NumMatch {
     U(usize, usize),
-    I(isize, isize),
+    I(i128, i128),
     F(f64, f64),
 }
 use NumMatch::*;
@@ -25,10 +25,10 @@ use NumMatch::*;
 pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     Some(match (a, b) {
         (TData::UInt(a), TData::UInt(b)) => U(*a, *b),
-        (TData::UInt(a), TData::Int(b)) => I(*a as isize, *b),
+        (TData::UInt(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::UInt(a), TData::Float(b)) => F(*a as f64, *b),
-        (TData::Int(a), TData::UInt(b)) => I(*a, *b as isize),
-        (TData::Int(a), TData::Int(b)) => I(*a, *b),
+        (TData::Int(a), TData::UInt(b)) => I(*a as i128, *b as i128),
+        (TData::Int(a), TData::Int(b)) => I(*a as i128, *b as i128),
         (TData::Int(a), TData::Float(b)) => F(*a as f64, *b),
         (TData::Float(a), TData::UInt(b)) => F(*a, *b as f64),
         (TData::Float(a), TData::Int(b)) => F(*a, *b as f64),
@@ -37,11 +37,27 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+fn uint_res<'a>(n: Option<usize>) -> anyhow::Result<TCow<'a>> {
+    n.map(|n| TCow::Owned(TData::UInt(n)))
+        .e_str("No integer result, either too big or divided by zero")
+}
+
+/// Int where it fits, otherwise UInt
+fn int_res<'a>(n: Option<i128>) -> anyhow::Result<TCow<'a>> {
+    match n {
+        Some(n) if n >= isize::MIN as i128 && n <= isize::MAX as i128 => {
+            Ok(TCow::Owned(TData::Int(n as isize)))
+        }
+        Some(n) if n >= 0 && n <= usize::MAX as i128 => Ok(TCow::Owned(TData::UInt(n as usize))),
+        _ => e_str("No integer result, either too big or divided by zero"),
+    }
+}
+
 pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a + b))),
+        Some(U(a, b)) => uint_res(a.checked_add(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a + b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a + b))),
+        Some(I(a, b)) => int_res(a.checked_add(b)),
         _ => e_str("Cannot add non numeric values"),
     })
 }
@@ -49,9 +65,9 @@ pub fn add<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
 pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     if l.len() == 1 {
         match l[0].deref() {
-            TData::UInt(n) => return b_ok(TData::Int(-(*n as isize))),
+            TData::UInt(n) => return int_res((*n as i128).checked_neg()),
             TData::Float(f) => return b_ok(TData::Float(-*f)),
-            TData::Int(n) => return b_ok(TData::Int(-*n)),
+            TData::Int(n) => return int_res((*n as i128).checked_neg()),
             _ => return e_str("sub only works on numbers"),
         }
     }
@@ -60,38 +76,38 @@ pub fn sub<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             if a >= b {
                 Ok(TCow::Owned(TData::UInt(a - b)))
             } else {
-                Ok(TCow::Owned(TData::Int(a as isize - b as isize)))
+                int_res((a as i128).checked_sub(b as i128))
             }
         }
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a - b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a - b))),
+        Some(I(a, b)) => int_res(a.checked_sub(b)),
         _ => e_str("Cannot sub non numeric values"),
     })
 }
 
 pub fn mul<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a * b))),
+        Some(U(a, b)) => uint_res(a.checked_mul(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a * b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a * b))),
+        Some(I(a, b)) => int_res(a.checked_mul(b)),
         _ => e_str("Cannot multiply non numeric values"),
     })
 }
 
 pub fn div<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a / b))),
+        Some(U(a, b)) => uint_res(a.checked_div(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a / b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a / b))),
+        Some(I(a, b)) => int_res(a.checked_div(b)),
         _ => e_str("Cannot divide non numeric values"),
     })
 }
 
 pub fn modulo<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
-        Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a % b))),
+        Some(U(a, b)) => uint_res(a.checked_rem(b)),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a % b))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a % b))),
+        Some(I(a, b)) => int_res(a.checked_rem(b)),
         _ => e_str("Cannot take modulus non numeric values"),
     })
 }
@@ -100,7 +116,7 @@ pub fn min<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.min(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.min(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.min(b)))),
+        Some(I(a, b)) => int_res(Some(a.min(b))),
         _ => e_str("Can only min numbers"),
     })
 }
@@ -108,7 +124,7 @@ pub fn max<'a>(l: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     fold(l, |a, b| match num_match(&a, b) {
         Some(U(a, b)) => Ok(TCow::Owned(TData::UInt(a.max(b)))),
         Some(F(a, b)) => Ok(TCow::Owned(TData::Float(a.max(b)))),
-        Some(I(a, b)) => Ok(TCow::Owned(TData::Int(a.max(b)))),
+        Some(I(a, b)) => int_res(Some(a.max(b))),
         _ => e_str("Can only max numbers"),
     })
 }
-- 
2.43.0


From c7f0088cbc701ce86932fea0ddaf873720f6561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 19/25] fix: sort order was not total for mixes of numbers with
 dates or NaN

---
 src/funcs/lists.rs | 13 ++++++++++---
 src/tdata.rs       |  4 ++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 0deffea..79c15e7 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -71,6 +71,13 @@ pub fn index_of<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     return b_ok(TData::Null)
 }
 
+//NaN compares to no number, a total order needs it somewhere: after the other numbers
+fn total_cmp(a: &TData, b: &TData) -> Ordering {
+    let is_nan = |d: &TData| d.as_float().map_or(false, |f| f.is_nan());
+    a.partial_cmp(b)
+        .unwrap_or_else(|| is_nan(a).cmp(&is_nan(b)))
+}
+
 pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     let mut res = Vec::new();
     for a in args {
@@ -80,7 +87,7 @@ pub fn sort<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
             }
         }
     }
-    res.sort_by(|a, b| a.partial_cmp(b).unwrap_or(Ordering::Equal));
+    res.sort_by(total_cmp);
     b_ok(TData::List(res))
 }
 
@@ -102,10 +109,10 @@ impl Comparator {
     fn compare(&self, a: &TData, b: &TData) -> Ordering {
         o_flip(
             match (a.get_v(&self.v), b.get_v(&self.v)) {
-                (Some(ba), Some(bb)) => ba.partial_cmp(&bb).unwrap_or(Ordering::Equal),
+                (Some(ba), Some(bb)) => total_cmp(&ba, &bb),
                 (Some(_), None) => Ordering::Greater,
                 (None, Some(_)) => Ordering::Less,
-                _ => a.partial_cmp(b).unwrap_or(Ordering::Equal),
+                _ => total_cmp(a, b),
             },
             self.down,
         )
diff --git a/src/tdata.rs b/src/tdata.rs
index 33050b7..8c4ec9e 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -171,8 +171,8 @@ impl TData {
             Bool(_) => 4,
             Int(_) => 5,
             UInt(_) => 6,
-            Date(_) => 7,
-            Float(_) => 8,
+            Float(_) => 7,
+            Date(_) => 8,
             String(_) => 9,
             Bytes(_) => 10,
         }
-- 
2.43.0


From f5e057504881670989567cbd15157fdbaa78dfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 20/25] fix: large integers and floats compared as equal to
 several different integers

---
 src/funcs/math.rs | 33 +++++++++++++++++++++++++++++++++
 src/tdata.rs      | 16 ++++------------
 2 files changed, 37 insertions(+), 12 deletions(-)

diff --git a/src/funcs/math.rs b/src/funcs/math.rs
index faad58f..69bcb81 100644
--- a/src/funcs/math.rs
+++ b/src/funcs/math.rs
@@ -1,5 +1,6 @@
 use crate::*;
 use err_tools::*;
+use std::cmp::Ordering;
 use std::ops::Deref;
 use tdata::*;
 use tparam::*;
@@ -37,6 +38,38 @@ pub fn num_match(a: &TData, b: &TData) -> Option<NumMatch> {
     })
 }
 
+/// The order of two numbers by exact value, Some(None) where one is NaN,
+/// None if they are not both numbers
+pub fn num_cmp(a: &TData, b: &TData) -> Option<Option<Ordering>> {
+    match (a, b) {
+        (TData::UInt(a), TData::Float(b)) => Some(int_float_cmp(*a as i128, *b)),
+        (TData::Int(a), TData::Float(b)) => Some(int_float_cmp(*a as i128, *b)),
+        (TData::Float(a), TData::UInt(b)) => {
+            Some(int_float_cmp(*b as i128, *a).map(Ordering::reverse))
+        }
+        (TData::Float(a), TData::Int(b)) => {
+            Some(int_float_cmp(*b as i128, *a).map(Ordering::reverse))
+        }
+        _ => match num_match(a, b) {
+            Some(U(a, b)) => Some(a.partial_cmp(&b)),
+            Some(I(a, b)) => Some(a.partial_cmp(&b)),
+            Some(F(a, b)) => Some(a.partial_cmp(&b)),
+            None => None,
+        },
+    }
+}
+
+fn int_float_cmp(i: i128, f: f64) -> Option<Ordering> {
+    if f.is_nan() {
+        return None;
+    }
+    //The cast truncates toward zero
+    match i.cmp(&(f as i128)) {
+        Ordering::Equal => (0.).partial_cmp(&f.fract()),
+        o => Some(o),
+    }
+}
+
 fn uint_res<'a>(n: Option<usize>) -> anyhow::Result<TCow<'a>> {
     n.map(|n| TCow::Owned(TData::UInt(n)))
         .e_str("No integer result, either too big or divided by zero")
diff --git a/src/tdata.rs b/src/tdata.rs
index 8c4ec9e..dd5499a 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -23,13 +23,9 @@ pub enum TData {
 
 impl PartialOrd for TData {
     fn partial_cmp(&self, other: &Self) -> Option<Ordering> {
-        use math::NumMatch::*;
         use TData::*;
-        match math::num_match(self, other) {
-            Some(I(a, b)) => return a.partial_cmp(&b),
-            Some(U(a, b)) => return a.partial_cmp(&b),
-            Some(F(a, b)) => return a.partial_cmp(&b),
-            None => {}
+        if let Some(ord) = math::num_cmp(self, other) {
+            return ord;
         }
         match (self, other) {
             (String(a), String(b)) => return a.partial_cmp(b),
@@ -42,13 +38,9 @@ impl PartialOrd for TData {
 
 impl PartialEq for TData {
     fn eq(&self, other: &Self) -> bool {
-        use math::NumMatch::*;
         use TData::*;
-        match math::num_match(self, other) {
-            Some(I(a, b)) => return a == b,
-            Some(U(a, b)) => return a == b,
-            Some(F(a, b)) => return a == b,
-            None => {}
+        if let Some(ord) = math::num_cmp(self, other) {
+            return ord == Some(Ordering::Equal);
         }
         match (self, other) {
             (String(a), String(b)) => a == b,
-- 
2.43.0


From 580ee6ff7891ca64482367217f6fbe54e98b9cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:37 +0000
Subject: [PATCH 21/25] fix: lists, maps, templates and bytes were not equal to
 themselves

---
 src/tdata.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tdata.rs b/src/tdata.rs
index dd5499a..8901961 100644
--- a/src/tdata.rs
+++ b/src/tdata.rs
@@ -47,6 +47,10 @@ impl PartialEq for TData {
             (Bool(a), Bool(b)) => a == b,
             (Date(a), Date(b)) => a == b,
             (Null, Null) => true,
+            (List(a), List(b)) => a == b,
+            (Map(a), Map(b)) => a == b,
+            (Template(a), Template(b)) => a == b,
+            (Bytes(a), Bytes(b)) => a == b,
             _ => false,
         }
     }
-- 
2.43.0


From 8243f4a06264d746dffe1cf4689d3ff06cff86e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:38 +0000
Subject: [PATCH 22/25] fix: slice refuses an end that is no index instead of
 ignoring it

---
 src/funcs/lists.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/funcs/lists.rs b/src/funcs/lists.rs
index 79c15e7..b336ec3 100644
--- a/src/funcs/lists.rs
+++ b/src/funcs/lists.rs
@@ -34,7 +34,10 @@ pub fn slice<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
         .and_then(|v| v.deref().as_usize())
         .e_str("slice: no start point?")?;
 
-    let end = args.get(2).and_then(|v| v.deref().as_usize());
+    let end = match args.get(2) {
+        Some(v) => Some(v.deref().as_usize().e_str("slice: end is not an index")?),
+        None => None,
+    };
 
     let s = match (args[0].deref(), end) {
         (TData::List(l), Some(e)) => l.get(start..e).e_str("slice out of range")?,
-- 
2.43.0


From c6510dd908655e87424a9ed21b9ce00c1b9b1111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 23/25] fix: locked write with an empty path created the parent
 of the locked folder

---
 src/funcs/write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/funcs/write.rs b/src/funcs/write.rs
index 6c1adc9..c853e1d 100644
--- a/src/funcs/write.rs
+++ b/src/funcs/write.rs
@@ -16,7 +16,8 @@ pub fn write(pb: PathBuf) -> Box<TFunc> {
         //get safe path
         let sp = safe_path(&pb, &l[0].to_string()).e_str("Broken File path")?;
         //Make directory
-        std::fs::create_dir_all(sp.parent().e_str("No Parent folder")?)?;
+        let parent = sp.parent().filter(|p| p.starts_with(&pb));
+        std::fs::create_dir_all(parent.e_str("No Parent folder")?)?;
         let mut file = std::fs::OpenOptions::new()
             .write(true)
             .create(true)
-- 
2.43.0


From 14f418fa8dc040ee2be38303edf971dea19fb064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:13 +0000
Subject: [PATCH 24/25] fix: exec_stdin hung when the program wrote more than a
 pipe holds before reading all its input

---
 src/funcs/exec.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/funcs/exec.rs b/src/funcs/exec.rs
index 3366e27..34b0a52 100644
--- a/src/funcs/exec.rs
+++ b/src/funcs/exec.rs
@@ -1,7 +1,7 @@
 use crate::*;
 use err_tools::*;
-use std::io::Write;
-use std::process::{Command, Stdio};
+use std::io::{Read, Write};
+use std::process::{ChildStdout, Command, Stdio};
 use tparam::*;
 
 pub fn exec<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
@@ -15,6 +15,12 @@ pub fn exec<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
     b_ok(TData::String(String::from_utf8(c.stdout)?))
 }
 
+fn read_all(mut out: ChildStdout) -> std::io::Result<Vec<u8>> {
+    let mut res = Vec::new();
+    out.read_to_end(&mut res)?;
+    Ok(res)
+}
+
 pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
     if args.len() <= 1 {
         e_str("Must have something to exec and an arg for stdin")?;
@@ -25,6 +31,9 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         .stdin(Stdio::piped())
         .stdout(Stdio::piped())
         .spawn()?;
+    //Read while writing, the program may fill its output before it has read all its input
+    let out = c.stdout.take().e_str("Stdout not available")?;
+    let reader = std::thread::spawn(move || read_all(out));
     match c.stdin {
         Some(ref mut i) => {
             write!(i, "{}", args[1])?;
@@ -32,9 +41,10 @@ pub fn exec_stdin<'a>(args: &[TCow<'a>]) -> Result<TCow<'a>, anyhow::Error> {
         }
         None => return e_str("Stdin not available"),
     }
-    let op = c.wait_with_output()?;
+    c.wait()?;
+    let res = reader.join().ok().e_str("Stdout could not be read")??;
 
-    b_ok(TData::String(String::from_utf8(op.stdout)?))
+    b_ok(TData::String(String::from_utf8(res)?))
 }
 
 pub fn env<'a>(args: &[TCow<'a>]) -> anyhow::Result<TCow<'a>> {
-- 
2.43.0


From ff5eac92424aa700a082916b6ae0112013444f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 25/25] fix: a path below the Name or Num of a card reached the
 Name or Num itself

---
 src/tparam.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tparam.rs b/src/tparam.rs
index 3b6ff3b..65e889a 100644
--- a/src/tparam.rs
+++ b/src/tparam.rs
@@ -162,6 +162,9 @@ impl TParam for Card {
             return Some(Cow::Owned(self.into()));
         }
         let id = s[0].as_str()?;
+        if s.len() > 1 && (id == "Name" || id == "Num") {
+            return None;
+        }
         if id == "Name" {
             return Some(Cow::Owned(TData::String(self.name.clone())));
         }
-- 
2.43.0

