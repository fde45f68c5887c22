From 85487f79c3b39e1ac110a8de35fa273cac352f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/69] fix: release a string overwritten when pushing to the
 neck of a link

---
 src/link.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/link.rs b/src/link.rs
index 9761962..caef1a6 100644
--- a/src/link.rs
+++ b/src/link.rs
@@ -49,6 +49,10 @@ impl Block {
 
         let i = k / 32;
         let j = k - i * 32;
+        if self.tys[i] >> (j * 2) & 0x3 == STR {
+            // Release the string that is overwritten, e.g. when pushing to a neck.
+            unsafe { drop(transmute::<usize, Arc<String>>(self.data[k] as usize)) }
+        }
         match *var {
             Variable::Bool(val, _) => {
                 // Reset bits.
-- 
2.43.0


From ee1a224547aaadea96fc68fb8401b00842cf8a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:33 +0000
Subject: [PATCH 02/69] fix: read numbers in Dyon data exactly

---
 src/dyon_std/data.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index 11f5822..efa8e01 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -108,12 +108,12 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     }
     // Number.
     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match number(read, range, data) {
             Ok(val) => {
                 *read = read.consume(range.length);
                 return Ok(Variable::f64(val));
             }
-            Err(err) => return Err(error(range, &format!("{}", err), data)),
+            Err(err) => return Err(err),
         }
     }
     // Boolean.
@@ -145,6 +145,14 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
     Err(error(read.start(), "Reached end of file", data))
 }
 
+/// Parses a number such that every finite number is read back exactly as it was written.
+fn number(read: &ReadToken, range: Range, data: &str) -> Result<f64, String> {
+    read.raw_string(range.length)
+        .replace('_', "")
+        .parse::<f64>()
+        .map_err(|err| error(range, &format!("{}", err), data))
+}
+
 fn object(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Variable, String> {
     use std::collections::HashMap;
 
@@ -266,47 +274,47 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match number(read, range, data) {
             Ok(x) => {
                 *read = read.consume(range.length);
                 x
             }
-            Err(err) => return Err(error(range, &format!("{}", err), data)),
+            Err(err) => return Err(err),
         }
     } else {
         return Err(error(read.start(), "Expected x component", data));
     };
     comma(read);
     let y = if let Some(range) = read.number(&NUMBER_SETTINGS) {
-        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+        match number(read, range, data) {
             Ok(y) => {
                 *read = read.consume(range.length);
                 y
             }
-            Err(err) => return Err(error(range, &format!("{}", err), data)),
+            Err(err) => return Err(err),
         }
     } else {
         return Err(error(read.start(), "Expected y component", data));
     };
     let (z, w) = if comma(read) {
         if let Some(range) = read.number(&NUMBER_SETTINGS) {
-            match read.parse_number(&NUMBER_SETTINGS, range.length) {
+            match number(read, range, data) {
                 Ok(z) => {
                     *read = read.consume(range.length);
                     comma(read);
                     if let Some(range) = read.number(&NUMBER_SETTINGS) {
-                        match read.parse_number(&NUMBER_SETTINGS, range.length) {
+                        match number(read, range, data) {
                             Ok(w) => {
                                 *read = read.consume(range.length);
                                 (z, w)
                             }
-                            Err(err) => return Err(error(range, &format!("{}", err), data)),
+                            Err(err) => return Err(err),
                         }
                     } else {
                         (z, 0.0)
                     }
                 }
-                Err(err) => return Err(error(range, &format!("{}", err), data)),
+                Err(err) => return Err(err),
             }
         } else {
             (0.0, 0.0)
-- 
2.43.0


From 31febe22208f7b1a7c4c5fc786d76bd7196de386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:00 +0000
Subject: [PATCH 03/69] fix: consume the text of a color in Dyon data

---
 src/dyon_std/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index efa8e01..cb3ebc8 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -69,6 +69,7 @@ fn expr(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
         let (range, _) = read.until_any_or_whitespace(SEPS);
         let val = read.raw_string(range.length);
         if let Some((rgb, a)) = rgb_maybe_a(&mut val.chars()) {
+            *read = read.consume(range.length);
             let v = [
                 f32::from(rgb[0]) / 255.0,
                 f32::from(rgb[1]) / 255.0,
-- 
2.43.0


From 8d23171af0e18d6b21fae87a8f7a8688532f8c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:29 +0000
Subject: [PATCH 04/69] fix: allow whitespace before the first component of a
 vec4 in Dyon data

---
 src/dyon_std/data.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dyon_std/data.rs b/src/dyon_std/data.rs
index cb3ebc8..93ffee4 100644
--- a/src/dyon_std/data.rs
+++ b/src/dyon_std/data.rs
@@ -274,6 +274,7 @@ fn link(read: &mut ReadToken, strings: &mut Strings, data: &str) -> Result<Varia
 }
 
 fn vec4(read: &mut ReadToken, data: &str) -> Result<Variable, String> {
+    opt_w(read);
     let x = if let Some(range) = read.number(&NUMBER_SETTINGS) {
         match number(read, range, data) {
             Ok(x) => {
-- 
2.43.0


From f1ef14f36d9c2c99747e0eed42e1694cb22c8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:57 +0000
Subject: [PATCH 05/69] fix: quote an empty object key when writing a variable

---
 src/write.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/write.rs b/src/write.rs
index 16b3c97..d4562dd 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -99,7 +99,7 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
-- 
2.43.0


From 48af31bf9150b44f8bc5c7df1babaea6e7c2a6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:24 +0000
Subject: [PATCH 06/69] fix: report a failure to flush when saving Dyon data

---
 src/dyon_std/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 6b78d42..9316df6 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1944,7 +1944,7 @@ pub(crate) fn args_os(_rt: &mut Runtime) -> Result<Variable, String> {
 #[cfg(feature = "file")]
 pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
     use std::fs::File;
-    use std::io::BufWriter;
+    use std::io::{BufWriter, Write};
     use write::{write_variable, EscapeString};
 
     let file = rt.stack.pop().expect(TINVOTS);
@@ -1963,7 +1963,9 @@ pub(crate) fn save__data_file(rt: &mut Runtime) -> Result<Variable, String> {
             })
         }
     };
-    let res = match write_variable(&mut f, rt, &data, EscapeString::Json, 0) {
+    let written =
+        write_variable(&mut f, rt, &data, EscapeString::Json, 0).and_then(|()| f.flush());
+    let res = match written {
         Ok(()) => Ok(Box::new(Variable::Str(file))),
         Err(err) => Err(Box::new(Error {
             message: Variable::Str(Arc::new(format!(
-- 
2.43.0


From e3b320b85e08bf6ecd019d52e1419dba923a8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:49 +0000
Subject: [PATCH 07/69] fix: return the column from `cv`

---
 src/dyon_std/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 9316df6..49c02c9 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -426,7 +426,7 @@ pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
         return Err(format!("Index out of bounds `{}`", ind));
     };
     let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
-    Ok(Variable::Mat4(Box::new(m)))
+    Ok(Variable::Vec4(m[ind]))
 }
 
 pub(crate) fn clone(rt: &mut Runtime) -> Result<Variable, String> {
-- 
2.43.0


From 11318aed288a6b0b494713bdc0b68542b9508e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:10 +0000
Subject: [PATCH 08/69] fix: compare with `>` and `>=` correctly when a number
 is NaN

---
 src/dyon_std/mod.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 49c02c9..161d144 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -57,22 +57,22 @@ pub(crate) fn less_or_equal(a: &Variable, b: &Variable) -> Result<Variable, Stri
 }
 
 pub(crate) fn greater(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less_or_equal(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a > b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a > b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
 pub(crate) fn greater_or_equal(a: &Variable, b: &Variable) -> Result<Variable, String> {
-    less(a, b).map(|v| {
-        if let Variable::Bool(a, sec) = v {
-            Variable::Bool(!a, sec)
-        } else {
-            panic!("Expected equal to return `bool`")
-        }
+    use Variable::*;
+
+    Ok(match (a, b) {
+        (&F64(a, ref sec), &F64(b, _)) => Bool(a >= b, sec.clone()),
+        (&Str(ref a), &Str(ref b)) => Variable::bool(a >= b),
+        _ => return Err("Expected `f64` or `str`".into()),
     })
 }
 
-- 
2.43.0


From db4c840811df5123f27c59d096057f6607a9389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:32 +0000
Subject: [PATCH 09/69] fix: report an unsupported assignment operator instead
 of panicking

---
 src/runtime/mod.rs | 51 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index a79786c..30d5a19 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2101,7 +2101,12 @@ impl Runtime {
                         Variable::Bool(ref mut n, ref mut n_sec) => {
                             match op {
                                 Set => *n = b,
-                                _ => unimplemented!(),
+                                _ => {
+                                    return self.err(
+                                        left.source_range(),
+                                        "Can not use this assignment operator with `bool`",
+                                    )
+                                }
                             };
                             *n_sec = sec.clone();
                         }
@@ -2131,7 +2136,12 @@ impl Runtime {
                         Variable::Str(ref mut n) => match op {
                             Set => *n = b.clone(),
                             Add => Arc::make_mut(n).push_str(b),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `str`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2160,7 +2170,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Object(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2179,7 +2192,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Array(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `array`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2198,7 +2214,12 @@ impl Runtime {
                             Set => *n = b.clone(),
                             Add => **n = n.add(b),
                             Sub => **n = b.add(n),
-                            _ => unimplemented!(),
+                            _ => {
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `link`",
+                                )
+                            }
                         },
                         Variable::Return => {
                             if let Set = op {
@@ -2216,7 +2237,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Option(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `option`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2235,7 +2259,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Result(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `result`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2254,7 +2281,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::RustObject(b.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `rust_object`",
+                                );
                             }
                         }
                         Variable::Return => {
@@ -2276,7 +2306,10 @@ impl Runtime {
                             if let Set = op {
                                 *r.0 = Variable::Closure(b.clone(), env.clone())
                             } else {
-                                unimplemented!()
+                                return self.err(
+                                    left.source_range(),
+                                    "Can not use this assignment operator with `closure`",
+                                );
                             }
                         }
                         Variable::Return => {
-- 
2.43.0


From 468875d8bf3ebf1f7d7aa91059239326ed94c2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 10/69] fix: report a wrong argument type of `s`, `rv` and `cv`
 instead of panicking

---
 src/dyon_std/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 161d144..e65503a 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -326,12 +326,12 @@ pub(crate) fn norm(v: &Variable) -> Result<Variable, String> {
 }
 
 pub(crate) fn s(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let v: [f32; 4] = rt.pop_vec4().expect(TINVOTS);
+    let v: [f32; 4] = rt.pop_vec4()?;
     Ok(Variable::f64(f64::from(v[ind])))
 }
 
@@ -405,12 +405,12 @@ dyon_fn! {fn rz(m: Mat4) -> Vec4 {Vec4([m.0[0][2], m.0[1][2], m.0[2][2], m.0[3][
 dyon_fn! {fn rw(m: Mat4) -> Vec4 {Vec4([m.0[0][3], m.0[1][3], m.0[2][3], m.0[3][3]])}}
 
 pub(crate) fn rv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4([m[0][ind], m[1][ind], m[2][ind], m[3][ind]]))
 }
 
@@ -420,12 +420,12 @@ dyon_fn! {fn cz(m: Mat4) -> Vec4 {Vec4(m.0[2])}}
 dyon_fn! {fn cw(m: Mat4) -> Vec4 {Vec4(m.0[3])}}
 
 pub(crate) fn cv(rt: &mut Runtime) -> Result<Variable, String> {
-    let ind: f64 = rt.pop().expect(TINVOTS);
+    let ind: f64 = rt.pop()?;
     let ind = ind as usize;
     if ind >= 4 {
         return Err(format!("Index out of bounds `{}`", ind));
     };
-    let m: [[f32; 4]; 4] = rt.pop_mat4().expect(TINVOTS);
+    let m: [[f32; 4]; 4] = rt.pop_mat4()?;
     Ok(Variable::Vec4(m[ind]))
 }
 
-- 
2.43.0


From 300a691d5da72b2e6543c980d04cecd3d7893e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:18 +0000
Subject: [PATCH 11/69] fix: report an index out of bounds in `swap` instead of
 panicking

---
 src/dyon_std/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index e65503a..1552e8f 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -898,6 +898,11 @@ pub(crate) fn swap(rt: &mut Runtime) -> Result<(), String> {
     let v = rt.stack.pop().expect(TINVOTS);
     if let Variable::Ref(ind) = v {
         let ok = if let Variable::Array(ref mut arr) = rt.stack[ind] {
+            for k in [i, j] {
+                if k as usize >= arr.len() {
+                    return Err(format!("Index out of bounds `{}`", k));
+                }
+            }
             Arc::make_mut(arr).swap(i as usize, j as usize);
             true
         } else {
-- 
2.43.0


From d29c0837fb6d8d31c6e5c6f9d56c9fadcdd9e0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:39 +0000
Subject: [PATCH 12/69] fix: accept a variable as condition of a for loop

---
 src/runtime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 30d5a19..47a7694 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2808,7 +2808,7 @@ impl Runtime {
                     )
                 }
             };
-            let val = match val {
+            let val = match *self.get(&val) {
                 Variable::Bool(val, _) => val,
                 _ => return self.err(for_expr.cond.source_range(), "Expected bool"),
             };
-- 
2.43.0


From 37fdecc9873f93eda72287e4e57287c92e2592bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:01 +0000
Subject: [PATCH 13/69] fix: end the scope of a current object declared by a
 for loop

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 47a7694..e4ee279 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2782,6 +2782,7 @@ impl Runtime {
     fn for_expr(&mut self, for_expr: &ast::For) -> FlowResult {
         let prev_st = self.stack.len();
         let prev_lc = self.local_stack.len();
+        let prev_cu = self.current_stack.len();
         match self.expression(&for_expr.init, Side::Right)? {
             (None, Flow::Continue) => {}
             (x, Flow::Return) => {
@@ -2871,6 +2872,7 @@ impl Runtime {
         }
         self.stack.truncate(prev_st);
         self.local_stack.truncate(prev_lc);
+        self.current_stack.truncate(prev_cu);
         Ok((None, flow))
     }
     fn vec4(&mut self, vec4: &ast::Vec4, side: Side) -> FlowResult {
-- 
2.43.0


From d993103a9bc25f00846ee686c5fb9c1d98a89894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:24 +0000
Subject: [PATCH 14/69] fix: give the value of an empty loop over a channel

---
 src/runtime/for_in.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/runtime/for_in.rs b/src/runtime/for_in.rs
index 10e389e..4b6166c 100644
--- a/src/runtime/for_in.rs
+++ b/src/runtime/for_in.rs
@@ -18,11 +18,11 @@ macro_rules! iter(
 );
 
 macro_rules! iter_val(
-    ($iter:ident, $rt:ident, $for_in_expr:ident) => {
+    ($iter:ident, $rt:ident, $for_in_expr:ident, $empty:expr) => {
         match $iter.lock() {
             Ok(x) => match x.try_recv() {
                 Ok(x) => x,
-                Err(_) => return Ok((None, Flow::Continue)),
+                Err(_) => return Ok(($empty, Flow::Continue)),
             },
             Err(err) => {
                 return Err($rt.module.error($for_in_expr.source_range,
@@ -86,7 +86,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, None);
 
         // Initialize counter.
         self.local_stack
@@ -123,7 +123,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(0.0)));
 
         let mut sum = 0.0;
 
@@ -174,7 +174,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(1.0)));
 
         let mut prod = 1.0;
 
@@ -225,7 +225,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut min = ::std::f64::NAN;
         let mut sec = None;
@@ -293,7 +293,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::f64(::std::f64::NAN)));
 
         let mut max = ::std::f64::NAN;
         let mut sec = None;
@@ -361,7 +361,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(false)));
 
         let mut any = false;
         let mut sec = None;
@@ -431,7 +431,7 @@ impl Runtime {
         let prev_lc = self.local_stack.len();
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::bool(true)));
 
         let mut all = true;
         let mut sec = None;
@@ -508,7 +508,7 @@ impl Runtime {
             let prev_lc = rt.local_stack.len();
 
             let iter = iter!(rt, for_in_expr);
-            let iter_val = iter_val!(iter, rt, for_in_expr);
+            let iter_val = iter_val!(iter, rt, for_in_expr, None);
 
             // Initialize counter.
             rt.local_stack
@@ -636,7 +636,7 @@ impl Runtime {
         let mut res: Vec<Variable> = vec![];
 
         let iter = iter!(self, for_in_expr);
-        let iter_val = iter_val!(iter, self, for_in_expr);
+        let iter_val = iter_val!(iter, self, for_in_expr, Some(Variable::Array(Arc::new(vec![]))));
 
         // Initialize counter.
         self.local_stack
-- 
2.43.0


From 51691832b15ddde029b2c5c49241d7697c78b7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:48 +0000
Subject: [PATCH 15/69] fix: restore the stack when a lazy invariant decides a
 call

---
 src/runtime/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e4ee279..c1fae67 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1395,6 +1395,7 @@ impl Runtime {
         lazy_inv: crate::LazyInvariant,
         info: &ast::CallInfo,
     ) -> FlowResult {
+        let st = self.stack.len();
         for (i, arg) in args.iter().enumerate() {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => {
@@ -1405,22 +1406,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
@@ -1474,6 +1482,7 @@ impl Runtime {
         // Copy the module to avoid problems with borrow checker.
         let mod_copy = self.module.clone();
         let f = &mod_copy.functions[new_index];
+        let prev_st = self.stack.len();
         // Arguments must be computed.
         if f.returns() {
             // Add return value before arguments on the stack.
@@ -1494,22 +1503,29 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        self.stack.truncate(prev_st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapOk => {
                                     if let Variable::Result(Ok(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapErr => {
                                     if let Variable::Result(Err(x)) = self.get(&x) {
-                                        return Ok((Some(x.message.clone()), Flow::Continue));
+                                        let x = x.message.clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                                 Lazy::UnwrapSome => {
                                     if let Variable::Option(Some(x)) = self.get(&x) {
-                                        return Ok((Some((**x).clone()), Flow::Continue));
+                                        let x = (**x).clone();
+                                        self.stack.truncate(prev_st);
+                                        return Ok((Some(x), Flow::Continue));
                                     }
                                 }
                             }
-- 
2.43.0


From aa33738707a5a7f845bf129e9dc820206c3f408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:12 +0000
Subject: [PATCH 16/69] fix: restore the runtime after a call that failed

---
 src/runtime/mod.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c1fae67..f6b5917 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -906,12 +906,21 @@ impl Runtime {
                     ));
                 }
                 let loader = false;
+                let call_stack_len = self.call_stack.len();
+                let st = self.stack.len();
+                let lc = self.local_stack.len();
+                let cu = self.current_stack.len();
                 match self.call_internal(&call, loader) {
                     Ok(_) => {
                         self.module = old_module;
                         Ok(())
                     }
                     Err(x) => {
+                        // Restore call state.
+                        self.call_stack.truncate(call_stack_len);
+                        self.stack.truncate(st);
+                        self.local_stack.truncate(lc);
+                        self.current_stack.truncate(cu);
                         self.module = old_module;
                         Err(x)
                     }
@@ -1220,9 +1229,17 @@ impl Runtime {
         // Keep track of the call state,
         // since `call` might be called from an external function.
         let call_stack_len = self.call_stack.len();
+        let st = self.stack.len();
+        let lc = self.local_stack.len();
+        let cu = self.current_stack.len();
         let res = self.call_internal(call, true);
         // Restore call state.
         self.call_stack.truncate(call_stack_len);
+        if res.is_err() {
+            self.stack.truncate(st);
+            self.local_stack.truncate(lc);
+            self.current_stack.truncate(cu);
+        }
         self.module = old_module;
         res
     }
-- 
2.43.0


From 31108c75f6c5275d2e478c3a72b71540f5ee2e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 17/69] fix: leave an item unchanged when unwrapping it with
 `?`

---
 src/runtime/mod.rs | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index f6b5917..e9e5cd4 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2599,6 +2599,8 @@ impl Runtime {
             Side::LeftInsert(insert) => insert,
         };
 
+        // Keeps values unwrapped by `?` alive while looking up the rest.
+        let mut unwrapped: Vec<Box<Variable>> = vec![];
         let v = {
             let item_len = item.ids.len();
             // Get the first variable (a.x).y
@@ -2617,7 +2619,10 @@ impl Runtime {
             if !item.try_ids.is_empty() && item.try_ids[try_id_ind] == 0 {
                 // Check for error on `?` for first id.
                 let v = unsafe {
-                    match Runtime::try_msg(&*var) {
+                    match Runtime::try_msg(match *var {
+                        Variable::Ref(id) => &stack[id],
+                        ref x => x,
+                    }) {
                         Some(v) => v,
                         None => {
                             return Err(self.module.error_fnindex(
@@ -2632,10 +2637,16 @@ impl Runtime {
                     }
                 };
                 match v {
-                    Ok(ref ok) => unsafe {
-                        *var = (**ok).clone();
+                    Ok(ok) => {
+                        if let Side::Right = side {
+                            // Do not change the item when reading.
+                            unwrapped.push(ok);
+                            var = &mut **unwrapped.last_mut().unwrap();
+                        } else {
+                            unsafe { *var = *ok };
+                        }
                         try_id_ind += 1;
-                    },
+                    }
                     Err(ref err) => {
                         let call = call_stack.last().expect(CSIE);
                         if call.stack_len == 0 {
@@ -2693,7 +2704,10 @@ impl Runtime {
                 if item.try_ids.len() > try_id_ind && item.try_ids[try_id_ind] == i + 1 {
                     // Check for error on `?` for rest of ids.
                     let v = unsafe {
-                        match Runtime::try_msg(&*var) {
+                        match Runtime::try_msg(match *var {
+                            Variable::Ref(id) => &stack[id],
+                            ref x => x,
+                        }) {
                             Some(v) => v,
                             None => {
                                 return Err(self.module.error_fnindex(
@@ -2708,10 +2722,16 @@ impl Runtime {
                         }
                     };
                     match v {
-                        Ok(ref ok) => unsafe {
-                            *var = (**ok).clone();
+                        Ok(ok) => {
+                            if let Side::Right = side {
+                                // Do not change the item when reading.
+                                unwrapped.push(ok);
+                                var = &mut **unwrapped.last_mut().unwrap();
+                            } else {
+                                unsafe { *var = *ok };
+                            }
                             try_id_ind += 1;
-                        },
+                        }
                         Err(ref err) => {
                             let call = call_stack.last().expect(CSIE);
                             if call.stack_len == 0 {
-- 
2.43.0


From d9d87a962cee23df95905694efc4cd7a92d700d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:22 +0000
Subject: [PATCH 18/69] fix: let `?` leave a function that has assigned to
 `return`

---
 src/runtime/mod.rs | 65 ++++++++--------------------------------------
 1 file changed, 11 insertions(+), 54 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e9e5cd4..2d83ed2 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -60,6 +60,8 @@ pub struct Call {
     // was .2
     local_len: usize,
     current_len: usize,
+    // Whether the function returns a value.
+    returns: bool,
 }
 
 lazy_static! {
@@ -519,6 +521,7 @@ impl Runtime {
         st: usize,
         lc: usize,
         cu: usize,
+        returns: bool,
     ) {
         self.call_stack.push(Call {
             fn_name: name,
@@ -527,6 +530,7 @@ impl Runtime {
             stack_len: st,
             local_len: lc,
             current_len: cu,
+            returns,
         });
     }
     fn pop_fn(&mut self, name: Arc<String>) {
@@ -841,19 +845,7 @@ impl Runtime {
             Ok(ok) => Ok((Some(*ok), Flow::Continue)),
             Err(mut err) => {
                 let call = self.call_stack.last().expect(CSIE);
-                if call.stack_len == 0 {
-                    return Err(self.module.error(
-                        expr.source_range(),
-                        &format!(
-                            "{}\nRequires `->` on function `{}`",
-                            self.stack_trace(),
-                            &call.fn_name
-                        ),
-                        self,
-                    ));
-                }
-                if let Variable::Return = self.stack[call.stack_len - 1] {
-                } else {
+                if !call.returns {
                     return Err(self.module.error(
                         expr.source_range(),
                         &format!(
@@ -1016,6 +1008,7 @@ impl Runtime {
                 stack_len: 0,
                 local_len: 0,
                 current_len: 0,
+                returns: false,
             }],
             rng: self.rng.clone(),
             arg_err_index: Cell::new(None),
@@ -1131,6 +1124,7 @@ impl Runtime {
             st,
             lc,
             cu,
+            f.returns(),
         );
         if f.returns() {
             // Use return type because it has the same name.
@@ -1628,6 +1622,7 @@ impl Runtime {
             st,
             lc,
             cu,
+            f.returns(),
         );
         if f.returns() {
             // Use return type because it has same name.
@@ -2423,7 +2418,6 @@ impl Runtime {
 
         #[inline(always)]
         fn try_fun(
-            stack: &mut Vec<Variable>,
             call_stack: &[Call],
             v: Result<Box<Variable>, Box<Error>>,
             source_range: Range,
@@ -2433,19 +2427,7 @@ impl Runtime {
                 Ok(ok) => Ok((Some(*ok), Flow::Continue)),
                 Err(mut err) => {
                     let call = call_stack.last().expect(CSIE);
-                    if call.stack_len == 0 {
-                        return Err(module.error_fnindex(
-                            source_range,
-                            &format!(
-                                "{}\nRequires `->` on function `{}`",
-                                stack_trace(call_stack),
-                                &call.fn_name
-                            ),
-                            call.index,
-                        ));
-                    }
-                    if let Variable::Return = stack[call.stack_len - 1] {
-                    } else {
+                    if !call.returns {
                         return Err(module.error_fnindex(
                             source_range,
                             &format!(
@@ -2566,7 +2548,6 @@ impl Runtime {
                     }
                 };
                 return try_fun(
-                    &mut self.stack,
                     &self.call_stack,
                     v,
                     item.source_range,
@@ -2649,19 +2630,7 @@ impl Runtime {
                     }
                     Err(ref err) => {
                         let call = call_stack.last().expect(CSIE);
-                        if call.stack_len == 0 {
-                            return Err(self.module.error_fnindex(
-                                item.ids[0].source_range(),
-                                &format!(
-                                    "{}\nRequires `->` on function `{}`",
-                                    stack_trace(call_stack),
-                                    &call.fn_name
-                                ),
-                                call.index,
-                            ));
-                        }
-                        if let Variable::Return = stack[call.stack_len - 1] {
-                        } else {
+                        if !call.returns {
                             return Err(self.module.error_fnindex(
                                 item.ids[0].source_range(),
                                 &format!(
@@ -2734,19 +2703,7 @@ impl Runtime {
                         }
                         Err(ref err) => {
                             let call = call_stack.last().expect(CSIE);
-                            if call.stack_len == 0 {
-                                return Err(self.module.error_fnindex(
-                                    prop.source_range(),
-                                    &format!(
-                                        "{}\nRequires `->` on function `{}`",
-                                        stack_trace(call_stack),
-                                        &call.fn_name
-                                    ),
-                                    call.index,
-                                ));
-                            }
-                            if let Variable::Return = stack[call.stack_len - 1] {
-                            } else {
+                            if !call.returns {
                                 return Err(self.module.error_fnindex(
                                     prop.source_range(),
                                     &format!(
-- 
2.43.0


From e0a5d4f1015eba13866883bb38a234289d932435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:16 +0000
Subject: [PATCH 19/69] fix: copy the value of a successful `try` expression

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 2d83ed2..77bbb46 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -717,6 +717,8 @@ impl Runtime {
         let cu = self.current_stack.len();
         match self.expression(&try_expr.expr, Side::Right) {
             Ok((Some(x), Flow::Continue)) => {
+                // Use a deep clone, such that `ok(x)` does not contain references.
+                let x = x.deep_clone(&self.stack);
                 Ok((Some(Variable::Result(Ok(Box::new(x)))), Flow::Continue))
             }
             Ok((None, Flow::Continue)) => self.err(try_expr.source_range, "Expected something"),
-- 
2.43.0


From abc49425f904cfa5e9e0973f58fed071ef459eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:11 +0000
Subject: [PATCH 20/69] fix: copy the argument that decides a lazy call, which
 might be a reference to a local

---
 src/runtime/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 77bbb46..cd68bbb 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1419,6 +1419,9 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Return the value, since a reference
+                                        // might not outlive the caller.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
@@ -1516,6 +1519,9 @@ impl Runtime {
                             match *lazy {
                                 Lazy::Variable(ref val) => {
                                     if self.get(&x) == val {
+                                        // Return the value, since a reference
+                                        // might not outlive the caller.
+                                        let x = self.get(&x).clone();
                                         self.stack.truncate(prev_st);
                                         return Ok((Some(x), Flow::Continue));
                                     }
-- 
2.43.0


From 83db8626716083a685aa6e536ecfb05b597ea2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:45 +0000
Subject: [PATCH 21/69] fix: refine a call by the type an argument has after
 unwrapping it with `?`

---
 src/lifetime/typecheck/refine.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lifetime/typecheck/refine.rs b/src/lifetime/typecheck/refine.rs
index 2bbf92f..a07b7c0 100644
--- a/src/lifetime/typecheck/refine.rs
+++ b/src/lifetime/typecheck/refine.rs
@@ -65,11 +65,11 @@ pub(crate) fn declaration(
         count += 1;
         let mut all = true;
         let mut ty_vars: Vec<Option<Arc<String>>> = vec![None; nodes[ty].names.len()];
-        for (arg_expr, &ty_arg) in nodes[i]
+        for ((arg, arg_expr), &ty_arg) in nodes[i]
             .children
             .iter()
             .filter(|&&arg| nodes[arg].kind == Kind::CallArg && !nodes[arg].children.is_empty())
-            .map(|&arg| nodes[arg].children[0])
+            .map(|&arg| (arg, nodes[arg].children[0]))
             .zip(
                 nodes[ty]
                     .children
@@ -83,6 +83,7 @@ pub(crate) fn declaration(
             }
             let found_arg =
                 if let (&Some(ref a), &Some(ref b)) = (&nodes[arg_expr].ty, &nodes[ty_arg].ty) {
+                    let a = &nodes[arg].inner_type(a);
                     let b = b
                         .bind_ty_vars(a, &nodes[ty].names, &mut ty_vars)
                         .map_err(|err| nodes[arg_expr].source.wrap(err))?;
@@ -142,11 +143,11 @@ pub(crate) fn prelude(
     'outer: for ty in &f.ext {
         let mut all = true;
         let mut ty_vars: Vec<Option<Arc<String>>> = vec![None; ty.0.len()];
-        for (arg_expr, ty_arg) in nodes[i]
+        for ((arg, arg_expr), ty_arg) in nodes[i]
             .children
             .iter()
             .filter(|&&arg| nodes[arg].kind == Kind::CallArg && !nodes[arg].children.is_empty())
-            .map(|&arg| nodes[arg].children[0])
+            .map(|&arg| (arg, nodes[arg].children[0]))
             .zip(ty.1.iter())
         {
             if nodes[arg_expr].ty.is_none() {
@@ -154,6 +155,7 @@ pub(crate) fn prelude(
                 break 'outer;
             }
             let found_arg = if let Some(ref a) = nodes[arg_expr].ty {
+                let a = &nodes[arg].inner_type(a);
                 let ty_arg = ty_arg
                     .bind_ty_vars(a, &ty.0, &mut ty_vars)
                     .map_err(|err| nodes[arg_expr].source.wrap(err))?;
-- 
2.43.0


From 7c44d3a8a0ca3b80f32e4003c36c39eaa8ae2647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:13 +0000
Subject: [PATCH 22/69] fix: check the type of a literal operand of a unary
 operator

---
 src/lifetime/typecheck/refine.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lifetime/typecheck/refine.rs b/src/lifetime/typecheck/refine.rs
index a07b7c0..bb52e3b 100644
--- a/src/lifetime/typecheck/refine.rs
+++ b/src/lifetime/typecheck/refine.rs
@@ -3,6 +3,13 @@ use crate::Dfn;
 
 use std::sync::Arc;
 
+/// Gets the node with the type of an argument.
+///
+/// A literal operand of a unary operator has no node of its own.
+fn arg_expr(arg: usize, nodes: &[Node]) -> usize {
+    nodes[arg].children.first().cloned().unwrap_or(arg)
+}
+
 fn report(
     i: usize,
     found: bool,
@@ -23,8 +30,8 @@ fn report(
             for (i, arg) in nodes[i]
                 .children
                 .iter()
-                .filter(|&&arg| nodes[arg].kind == Kind::CallArg && !nodes[arg].children.is_empty())
-                .map(|&arg| nodes[arg].children[0])
+                .filter(|&&arg| nodes[arg].kind == Kind::CallArg)
+                .map(|&arg| arg_expr(arg, nodes))
                 .enumerate()
             {
                 if let Some(ref arg_ty) = nodes[arg].ty {
@@ -68,8 +75,8 @@ pub(crate) fn declaration(
         for ((arg, arg_expr), &ty_arg) in nodes[i]
             .children
             .iter()
-            .filter(|&&arg| nodes[arg].kind == Kind::CallArg && !nodes[arg].children.is_empty())
-            .map(|&arg| (arg, nodes[arg].children[0]))
+            .filter(|&&arg| nodes[arg].kind == Kind::CallArg)
+            .map(|&arg| (arg, arg_expr(arg, nodes)))
             .zip(
                 nodes[ty]
                     .children
@@ -146,8 +153,8 @@ pub(crate) fn prelude(
         for ((arg, arg_expr), ty_arg) in nodes[i]
             .children
             .iter()
-            .filter(|&&arg| nodes[arg].kind == Kind::CallArg && !nodes[arg].children.is_empty())
-            .map(|&arg| (arg, nodes[arg].children[0]))
+            .filter(|&&arg| nodes[arg].kind == Kind::CallArg)
+            .map(|&arg| (arg, arg_expr(arg, nodes)))
             .zip(ty.1.iter())
         {
             if nodes[arg_expr].ty.is_none() {
-- 
2.43.0


From 2a07c68bf1579e6d94d7125aa5db937caae64533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:05 +0000
Subject: [PATCH 23/69] fix: let closures grab the variable of a vec4 unpack
 loop

---
 src/ast/replace.rs | 171 +++++++++++++++++++++++++--------------------
 1 file changed, 96 insertions(+), 75 deletions(-)

diff --git a/src/ast/replace.rs b/src/ast/replace.rs
index ec5505b..5f91706 100644
--- a/src/ast/replace.rs
+++ b/src/ast/replace.rs
@@ -1,7 +1,7 @@
 use std::sync::Arc;
 
 use super::{
-    Array, ArrayFill, Assign, Block, Call, CallClosure, Expression, For, ForN, Grab,
+    Array, ArrayFill, Assign, Block, Call, CallClosure, Closure, Expression, For, ForN, Grab,
     Id, If, Item, Link, Mat4, Object, Swizzle, TryExpr, Vec4,
 };
 #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
@@ -13,13 +13,20 @@ use crate::Variable;
 /// Returns `(false, cloned_expression)` if there was no item with same name.
 /// The flag is used to just clone the rest of expressions in a block.
 pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
+    number_at(expr, name, val, 0)
+}
+
+/// Replaces an item with a number inside a number of nested closures.
+///
+/// Inside a closure only grabbed expressions refer to items outside the closure.
+fn number_at(expr: &Expression, name: &Arc<String>, val: f64, level: u16) -> Expression {
     use super::Expression as E;
 
     match *expr {
         E::Link(ref link_expr) => {
             let mut new_items: Vec<Expression> = vec![];
             for item in &link_expr.items {
-                new_items.push(number(item, name, val));
+                new_items.push(number_at(item, name, val, level));
             }
             E::Link(Box::new(Link {
                 items: new_items,
@@ -27,13 +34,13 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
             }))
         }
         E::Item(ref item) => {
-            if &item.name == name {
+            if level == 0 && &item.name == name {
                 E::Variable(Box::new((item.source_range, Variable::f64(val))))
             } else {
                 let mut new_ids: Vec<Id> = vec![];
                 for id in &item.ids {
                     if let Id::Expression(ref expr) = *id {
-                        new_ids.push(Id::Expression(number(expr, name, val)));
+                        new_ids.push(Id::Expression(number_at(expr, name, val, level)));
                     } else {
                         new_ids.push(id.clone());
                     }
@@ -50,24 +57,24 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
                 }))
             }
         }
-        E::Block(ref block) => E::Block(Box::new(number_block(block, name, val))),
+        E::Block(ref block) => E::Block(Box::new(number_block(block, name, val, level))),
         E::Assign(ref assign_expr) => E::Assign(Box::new(Assign {
             op: assign_expr.op,
-            left: number(&assign_expr.left, name, val),
-            right: number(&assign_expr.right, name, val),
+            left: number_at(&assign_expr.left, name, val, level),
+            right: number_at(&assign_expr.right, name, val, level),
             source_range: assign_expr.source_range,
         })),
         E::Object(ref obj_expr) => {
             let mut new_key_values: Vec<(Arc<String>, Expression)> = vec![];
             for key_value in &obj_expr.key_values {
-                new_key_values.push((key_value.0.clone(), number(&key_value.1, name, val)));
+                new_key_values.push((key_value.0.clone(), number_at(&key_value.1, name, val, level)));
             }
             E::Object(Box::new(Object {
                 key_values: new_key_values,
                 source_range: obj_expr.source_range,
             }))
         }
-        E::Call(ref call_expr) => E::Call(Box::new(number_call(call_expr, name, val))),
+        E::Call(ref call_expr) => E::Call(Box::new(number_call(call_expr, name, val, level))),
         E::CallVoid(_) => unimplemented!("`CallVoid` is transformed from `Call` later"),
         E::CallReturn(_) => unimplemented!("`CallVoid` is transformed from `Call` later"),
         E::CallLazy(_) => unimplemented!("`CallLazy` is transformed from `Call` later"),
@@ -77,7 +84,7 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
         E::Array(ref array_expr) => {
             let mut new_items: Vec<Expression> = vec![];
             for item in &array_expr.items {
-                new_items.push(number(item, name, val));
+                new_items.push(number_at(item, name, val, level));
             }
             E::Array(Box::new(Array {
                 items: new_items,
@@ -85,17 +92,17 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
             }))
         }
         E::ArrayFill(ref array_fill_expr) => E::ArrayFill(Box::new(ArrayFill {
-            fill: number(&array_fill_expr.fill, name, val),
-            n: number(&array_fill_expr.n, name, val),
+            fill: number_at(&array_fill_expr.fill, name, val, level),
+            n: number_at(&array_fill_expr.n, name, val, level),
             source_range: array_fill_expr.source_range,
         })),
-        E::Return(ref ret_expr) => E::Return(Box::new(number(ret_expr, name, val))),
+        E::Return(ref ret_expr) => E::Return(Box::new(number_at(ret_expr, name, val, level))),
         E::ReturnVoid(_) => expr.clone(),
         E::Break(_) => expr.clone(),
         E::Continue(_) => expr.clone(),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::Go(ref go) => E::Go(Box::new(Go {
-            call: number_call(&go.call, name, val),
+            call: number_call(&go.call, name, val, level),
             source_range: go.source_range,
         })),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
@@ -103,7 +110,7 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
         E::Vec4(ref vec4_expr) => {
             let mut new_args: Vec<Expression> = vec![];
             for arg in &vec4_expr.args {
-                new_args.push(number(arg, name, val));
+                new_args.push(number_at(arg, name, val, level));
             }
             E::Vec4(Box::new(Vec4 {
                 args: new_args,
@@ -113,7 +120,7 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
         E::Mat4(ref mat4_expr) => {
             let mut new_args: Vec<Expression> = vec![];
             for arg in &mat4_expr.args {
-                new_args.push(number(arg, name, val));
+                new_args.push(number_at(arg, name, val, level));
             }
             E::Mat4(Box::new(Mat4 {
                 args: new_args,
@@ -125,11 +132,11 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
             if let Expression::Assign(ref assign_expr) = for_expr.init {
                 // Check for declaration of same name.
                 if let Expression::Item(ref item) = assign_expr.left {
-                    if &item.name == name {
+                    if level == 0 && &item.name == name {
                         init = Some(Expression::Assign(Box::new(Assign {
                             op: assign_expr.op,
                             left: assign_expr.left.clone(),
-                            right: number(&assign_expr.right, name, val),
+                            right: number_at(&assign_expr.right, name, val, level),
                             source_range: assign_expr.source_range,
                         })));
                     }
@@ -147,10 +154,10 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
             } else {
                 E::For(Box::new(For {
                     label: for_expr.label.clone(),
-                    init: number(&for_expr.init, name, val),
-                    cond: number(&for_expr.cond, name, val),
-                    step: number(&for_expr.step, name, val),
-                    block: number_block(&for_expr.block, name, val),
+                    init: number_at(&for_expr.init, name, val, level),
+                    cond: number_at(&for_expr.cond, name, val, level),
+                    step: number_at(&for_expr.step, name, val, level),
+                    block: number_block(&for_expr.block, name, val, level),
                     source_range: for_expr.source_range,
                 }))
             }
@@ -159,8 +166,8 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
         E::ForIn(ref for_in_expr) => E::ForIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
@@ -177,129 +184,143 @@ pub fn number(expr: &Expression, name: &Arc<String>, val: f64) -> Expression {
         E::SumIn(ref for_in_expr) => E::SumIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ProdIn(ref for_in_expr) => E::ProdIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MinIn(ref for_in_expr) => E::MinIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MaxIn(ref for_in_expr) => E::MaxIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AnyIn(ref for_in_expr) => E::AnyIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AllIn(ref for_in_expr) => E::AllIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SiftIn(ref for_in_expr) => E::SiftIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::LinkIn(ref for_in_expr) => E::LinkIn(Box::new(ForIn {
             label: for_in_expr.label.clone(),
             name: for_in_expr.name.clone(),
-            iter: number(&for_in_expr.iter, name, val),
-            block: number_block(&for_in_expr.block, name, val),
+            iter: number_at(&for_in_expr.iter, name, val, level),
+            block: number_block(&for_in_expr.block, name, val, level),
             source_range: for_in_expr.source_range,
         })),
-        E::ForN(ref for_n_expr) => E::ForN(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Sum(ref for_n_expr) => E::Sum(Box::new(number_for_n(for_n_expr, name, val))),
-        E::SumVec4(ref for_n_expr) => E::SumVec4(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Prod(ref for_n_expr) => E::Prod(Box::new(number_for_n(for_n_expr, name, val))),
-        E::ProdVec4(ref for_n_expr) => E::ProdVec4(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Min(ref for_n_expr) => E::Min(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Max(ref for_n_expr) => E::Max(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Sift(ref for_n_expr) => E::Sift(Box::new(number_for_n(for_n_expr, name, val))),
-        E::Any(ref for_n_expr) => E::Any(Box::new(number_for_n(for_n_expr, name, val))),
-        E::All(ref for_n_expr) => E::All(Box::new(number_for_n(for_n_expr, name, val))),
-        E::LinkFor(ref for_n_expr) => E::LinkFor(Box::new(number_for_n(for_n_expr, name, val))),
+        E::ForN(ref for_n_expr) => E::ForN(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Sum(ref for_n_expr) => E::Sum(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::SumVec4(ref for_n_expr) => E::SumVec4(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Prod(ref for_n_expr) => E::Prod(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::ProdVec4(ref for_n_expr) => E::ProdVec4(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Min(ref for_n_expr) => E::Min(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Max(ref for_n_expr) => E::Max(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Sift(ref for_n_expr) => E::Sift(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::Any(ref for_n_expr) => E::Any(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::All(ref for_n_expr) => E::All(Box::new(number_for_n(for_n_expr, name, val, level))),
+        E::LinkFor(ref for_n_expr) => E::LinkFor(Box::new(number_for_n(for_n_expr, name, val, level))),
         E::If(ref if_expr) => {
             let mut new_else_if_conds: Vec<Expression> = vec![];
             for else_if_cond in &if_expr.else_if_conds {
-                new_else_if_conds.push(number(else_if_cond, name, val));
+                new_else_if_conds.push(number_at(else_if_cond, name, val, level));
             }
             let mut new_else_if_blocks: Vec<Block> = vec![];
             for else_if_block in &if_expr.else_if_blocks {
-                new_else_if_blocks.push(number_block(else_if_block, name, val));
+                new_else_if_blocks.push(number_block(else_if_block, name, val, level));
             }
             E::If(Box::new(If {
-                cond: number(&if_expr.cond, name, val),
-                true_block: number_block(&if_expr.true_block, name, val),
+                cond: number_at(&if_expr.cond, name, val, level),
+                true_block: number_block(&if_expr.true_block, name, val, level),
                 else_if_conds: new_else_if_conds,
                 else_if_blocks: new_else_if_blocks,
                 else_block: if_expr
                     .else_block
                     .as_ref()
-                    .map(|else_block| number_block(else_block, name, val)),
+                    .map(|else_block| number_block(else_block, name, val, level)),
                 source_range: if_expr.source_range,
             }))
         }
         E::Variable(_) => expr.clone(),
-        E::Try(ref expr) => E::Try(Box::new(number(expr, name, val))),
+        E::Try(ref expr) => E::Try(Box::new(number_at(expr, name, val, level))),
         E::Swizzle(ref swizzle_expr) => E::Swizzle(Box::new(Swizzle {
             sw0: swizzle_expr.sw0,
             sw1: swizzle_expr.sw1,
             sw2: swizzle_expr.sw2,
             sw3: swizzle_expr.sw3,
-            expr: number(&swizzle_expr.expr, name, val),
+            expr: number_at(&swizzle_expr.expr, name, val, level),
             source_range: swizzle_expr.source_range,
         })),
-        E::Closure(_) => expr.clone(),
+        E::Closure(ref closure) => E::Closure(Arc::new(Closure {
+            file: closure.file.clone(),
+            source: closure.source.clone(),
+            args: closure.args.clone(),
+            currents: closure.currents.clone(),
+            expr: number_at(&closure.expr, name, val, level + 1),
+            ret: closure.ret.clone(),
+            source_range: closure.source_range,
+        })),
         E::CallClosure(ref call_expr) => {
-            E::CallClosure(Box::new(number_call_closure(call_expr, name, val)))
+            E::CallClosure(Box::new(number_call_closure(call_expr, name, val, level)))
         }
         E::Grab(ref grab_expr) => E::Grab(Box::new(Grab {
             level: grab_expr.level,
-            expr: number(&grab_expr.expr, name, val),
+            // Grabbed expressions of this level are evaluated outside the closure.
+            expr: number_at(
+                &grab_expr.expr,
+                name,
+                val,
+                if grab_expr.level == level { 0 } else { level },
+            ),
             source_range: grab_expr.source_range,
         })),
         E::TryExpr(ref try_expr) => E::TryExpr(Box::new(TryExpr {
-            expr: number(&try_expr.expr, name, val),
+            expr: number_at(&try_expr.expr, name, val, level),
             source_range: try_expr.source_range,
         })),
         E::In(_) => expr.clone(),
     }
 }
 
-fn number_call(call_expr: &Call, name: &Arc<String>, val: f64) -> Call {
+fn number_call(call_expr: &Call, name: &Arc<String>, val: f64, level: u16) -> Call {
     let mut new_args: Vec<Expression> = vec![];
     for arg in &call_expr.args {
-        new_args.push(number(arg, name, val));
+        new_args.push(number_at(arg, name, val, level));
     }
     Call {
         args: new_args,
@@ -309,10 +330,10 @@ fn number_call(call_expr: &Call, name: &Arc<String>, val: f64) -> Call {
     }
 }
 
-fn number_call_closure(call_expr: &CallClosure, name: &Arc<String>, val: f64) -> CallClosure {
+fn number_call_closure(call_expr: &CallClosure, name: &Arc<String>, val: f64, level: u16) -> CallClosure {
     let mut new_args: Vec<Expression> = vec![];
     for arg in &call_expr.args {
-        new_args.push(number(arg, name, val));
+        new_args.push(number_at(arg, name, val, level));
     }
     CallClosure {
         item: call_expr.item.clone(),
@@ -321,7 +342,7 @@ fn number_call_closure(call_expr: &CallClosure, name: &Arc<String>, val: f64) ->
     }
 }
 
-fn number_block(block: &Block, name: &Arc<String>, val: f64) -> Block {
+fn number_block(block: &Block, name: &Arc<String>, val: f64, level: u16) -> Block {
     let mut new_expressions: Vec<Expression> = vec![];
     let mut just_clone = false;
     for expr in &block.expressions {
@@ -331,11 +352,11 @@ fn number_block(block: &Block, name: &Arc<String>, val: f64) -> Block {
             if let Expression::Assign(ref assign_expr) = *expr {
                 // Check for declaration of same name.
                 if let Expression::Item(ref item) = assign_expr.left {
-                    if &item.name == name {
+                    if level == 0 && &item.name == name {
                         new_expressions.push(Expression::Assign(Box::new(Assign {
                             op: assign_expr.op,
                             left: assign_expr.left.clone(),
-                            right: number(&assign_expr.right, name, val),
+                            right: number_at(&assign_expr.right, name, val, level),
                             source_range: assign_expr.source_range,
                         })));
                         just_clone = true;
@@ -343,7 +364,7 @@ fn number_block(block: &Block, name: &Arc<String>, val: f64) -> Block {
                     }
                 }
             }
-            new_expressions.push(number(expr, name, val));
+            new_expressions.push(number_at(expr, name, val, level));
         }
     }
     Block {
@@ -352,8 +373,8 @@ fn number_block(block: &Block, name: &Arc<String>, val: f64) -> Block {
     }
 }
 
-fn number_for_n(for_n_expr: &ForN, name: &Arc<String>, val: f64) -> ForN {
-    if &for_n_expr.name == name {
+fn number_for_n(for_n_expr: &ForN, name: &Arc<String>, val: f64, level: u16) -> ForN {
+    if level == 0 && &for_n_expr.name == name {
         for_n_expr.clone()
     } else {
         ForN {
@@ -362,9 +383,9 @@ fn number_for_n(for_n_expr: &ForN, name: &Arc<String>, val: f64) -> ForN {
             start: for_n_expr
                 .start
                 .as_ref()
-                .map(|start| number(start, name, val)),
-            end: number(&for_n_expr.end, name, val),
-            block: number_block(&for_n_expr.block, name, val),
+                .map(|start| number_at(start, name, val, level)),
+            end: number_at(&for_n_expr.end, name, val, level),
+            block: number_block(&for_n_expr.block, name, val, level),
             source_range: for_n_expr.source_range,
         }
     }
-- 
2.43.0


From e9a94d627a33c3b9aae4900d2e7eba6640566bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:03 +0000
Subject: [PATCH 24/69] fix: replace the variable of a vec4 unpack loop in loop
 ranges and called closures

---
 src/ast/replace.rs | 158 ++++++++++++++++++---------------------------
 1 file changed, 62 insertions(+), 96 deletions(-)

diff --git a/src/ast/replace.rs b/src/ast/replace.rs
index 5f91706..2a6cfb1 100644
--- a/src/ast/replace.rs
+++ b/src/ast/replace.rs
@@ -37,24 +37,7 @@ fn number_at(expr: &Expression, name: &Arc<String>, val: f64, level: u16) -> Exp
             if level == 0 && &item.name == name {
                 E::Variable(Box::new((item.source_range, Variable::f64(val))))
             } else {
-                let mut new_ids: Vec<Id> = vec![];
-                for id in &item.ids {
-                    if let Id::Expression(ref expr) = *id {
-                        new_ids.push(Id::Expression(number_at(expr, name, val, level)));
-                    } else {
-                        new_ids.push(id.clone());
-                    }
-                }
-                E::Item(Box::new(Item {
-                    name: item.name.clone(),
-                    current: item.current,
-                    stack_id: item.stack_id.clone(),
-                    static_stack_id: item.static_stack_id.clone(),
-                    try_flag: item.try_flag,
-                    ids: new_ids,
-                    try_ids: item.try_ids.clone(),
-                    source_range: item.source_range,
-                }))
+                E::Item(Box::new(number_item(item, name, val, level)))
             }
         }
         E::Block(ref block) => E::Block(Box::new(number_block(block, name, val, level))),
@@ -163,13 +146,7 @@ fn number_at(expr: &Expression, name: &Arc<String>, val: f64, level: u16) -> Exp
             }
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::ForIn(ref for_in_expr) => E::ForIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::ForIn(ref for_in_expr) => E::ForIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::ForIn(ref for_in_expr) |
         E::SumIn(ref for_in_expr) |
@@ -181,69 +158,21 @@ fn number_at(expr: &Expression, name: &Arc<String>, val: f64, level: u16) -> Exp
         E::AllIn(ref for_in_expr) |
         E::LinkIn(ref for_in_expr) => match **for_in_expr {},
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::SumIn(ref for_in_expr) => E::SumIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::SumIn(ref for_in_expr) => E::SumIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::ProdIn(ref for_in_expr) => E::ProdIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::ProdIn(ref for_in_expr) => E::ProdIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::MinIn(ref for_in_expr) => E::MinIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::MinIn(ref for_in_expr) => E::MinIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::MaxIn(ref for_in_expr) => E::MaxIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::MaxIn(ref for_in_expr) => E::MaxIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::AnyIn(ref for_in_expr) => E::AnyIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::AnyIn(ref for_in_expr) => E::AnyIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::AllIn(ref for_in_expr) => E::AllIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::AllIn(ref for_in_expr) => E::AllIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::SiftIn(ref for_in_expr) => E::SiftIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::SiftIn(ref for_in_expr) => E::SiftIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-        E::LinkIn(ref for_in_expr) => E::LinkIn(Box::new(ForIn {
-            label: for_in_expr.label.clone(),
-            name: for_in_expr.name.clone(),
-            iter: number_at(&for_in_expr.iter, name, val, level),
-            block: number_block(&for_in_expr.block, name, val, level),
-            source_range: for_in_expr.source_range,
-        })),
+        E::LinkIn(ref for_in_expr) => E::LinkIn(Box::new(number_for_in(for_in_expr, name, val, level))),
         E::ForN(ref for_n_expr) => E::ForN(Box::new(number_for_n(for_n_expr, name, val, level))),
         E::Sum(ref for_n_expr) => E::Sum(Box::new(number_for_n(for_n_expr, name, val, level))),
         E::SumVec4(ref for_n_expr) => E::SumVec4(Box::new(number_for_n(for_n_expr, name, val, level))),
@@ -317,6 +246,27 @@ fn number_at(expr: &Expression, name: &Arc<String>, val: f64, level: u16) -> Exp
     }
 }
 
+fn number_item(item: &Item, name: &Arc<String>, val: f64, level: u16) -> Item {
+    let mut new_ids: Vec<Id> = vec![];
+    for id in &item.ids {
+        if let Id::Expression(ref expr) = *id {
+            new_ids.push(Id::Expression(number_at(expr, name, val, level)));
+        } else {
+            new_ids.push(id.clone());
+        }
+    }
+    Item {
+        name: item.name.clone(),
+        current: item.current,
+        stack_id: item.stack_id.clone(),
+        static_stack_id: item.static_stack_id.clone(),
+        try_flag: item.try_flag,
+        ids: new_ids,
+        try_ids: item.try_ids.clone(),
+        source_range: item.source_range,
+    }
+}
+
 fn number_call(call_expr: &Call, name: &Arc<String>, val: f64, level: u16) -> Call {
     let mut new_args: Vec<Expression> = vec![];
     for arg in &call_expr.args {
@@ -336,7 +286,7 @@ fn number_call_closure(call_expr: &CallClosure, name: &Arc<String>, val: f64, le
         new_args.push(number_at(arg, name, val, level));
     }
     CallClosure {
-        item: call_expr.item.clone(),
+        item: number_item(&call_expr.item, name, val, level),
         args: new_args,
         source_range: call_expr.source_range,
     }
@@ -374,19 +324,35 @@ fn number_block(block: &Block, name: &Arc<String>, val: f64, level: u16) -> Bloc
 }
 
 fn number_for_n(for_n_expr: &ForN, name: &Arc<String>, val: f64, level: u16) -> ForN {
-    if level == 0 && &for_n_expr.name == name {
-        for_n_expr.clone()
-    } else {
-        ForN {
-            label: for_n_expr.label.clone(),
-            name: for_n_expr.name.clone(),
-            start: for_n_expr
-                .start
-                .as_ref()
-                .map(|start| number_at(start, name, val, level)),
-            end: number_at(&for_n_expr.end, name, val, level),
-            block: number_block(&for_n_expr.block, name, val, level),
-            source_range: for_n_expr.source_range,
-        }
+    ForN {
+        label: for_n_expr.label.clone(),
+        name: for_n_expr.name.clone(),
+        start: for_n_expr
+            .start
+            .as_ref()
+            .map(|start| number_at(start, name, val, level)),
+        end: number_at(&for_n_expr.end, name, val, level),
+        // The range is evaluated before the loop declares its variable.
+        block: if level == 0 && &for_n_expr.name == name {
+            for_n_expr.block.clone()
+        } else {
+            number_block(&for_n_expr.block, name, val, level)
+        },
+        source_range: for_n_expr.source_range,
+    }
+}
+
+#[cfg(all(not(target_family = "wasm"), feature = "threading"))]
+fn number_for_in(for_in_expr: &ForIn, name: &Arc<String>, val: f64, level: u16) -> ForIn {
+    ForIn {
+        label: for_in_expr.label.clone(),
+        name: for_in_expr.name.clone(),
+        iter: number_at(&for_in_expr.iter, name, val, level),
+        block: if level == 0 && &for_in_expr.name == name {
+            for_in_expr.block.clone()
+        } else {
+            number_block(&for_in_expr.block, name, val, level)
+        },
+        source_range: for_in_expr.source_range,
     }
 }
-- 
2.43.0


From b719cf8f3abb3b20356b0aabe63f49c319f2993d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:41 +0000
Subject: [PATCH 25/69] fix: read a block comment after an operand as a
 comment, not a division

---
 assets/syntax.txt | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/assets/syntax.txt b/assets/syntax.txt
index 61c422d..ba9659e 100644
--- a/assets/syntax.txt
+++ b/assets/syntax.txt
@@ -238,7 +238,7 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
         "*":"*" "&&":"&&" "∧":"*"
     } ?w]
 }
-203 / = [?wn "/":"/" !"/" ?w]
+203 / = [?wn "/":"/" !"/" !"*" ?w]
 204 % = [?wn "%":"%" ?w]
 205 pow = [lexpr:"expr" {[?wn "^":"^"] [?wn "⊻":"^"] [wn "xor":"^" w]} ?w lexpr:"expr"]
 206 mul = .s!({* / %} {unop_neg:"neg" pow:"pow" lexpr:"expr"})
-- 
2.43.0


From b89e563bc11c8fa8ea0e709fb5bdacdd38bd54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:23 +0000
Subject: [PATCH 26/69] fix: keep the value of a return that leaves a swizzle

---
 src/runtime/mod.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index cd68bbb..85ed705 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -664,10 +664,7 @@ impl Runtime {
             If(ref if_expr) => self.if_expr(if_expr),
             Variable(ref range_var) => Ok((Some(range_var.1.clone()), Flow::Continue)),
             Try(ref expr) => self.try_fun(expr, side),
-            Swizzle(ref sw) => {
-                let flow = self.swizzle(sw)?;
-                Ok((None, flow))
-            }
+            Swizzle(ref sw) => self.swizzle(sw),
             Closure(ref closure) => self.closure(closure),
             CallClosure(ref call) => self.call_closure(call),
             Grab(ref g) => self.err(
@@ -1834,11 +1831,11 @@ impl Runtime {
         }
     }
 
-    fn swizzle(&mut self, sw: &ast::Swizzle) -> Result<Flow, String> {
+    fn swizzle(&mut self, sw: &ast::Swizzle) -> FlowResult {
         let v = match self.expression(&sw.expr, Side::Right)? {
             (Some(x), Flow::Continue) => x,
-            (_, Flow::Return) => {
-                return Ok(Flow::Return);
+            (x, Flow::Return) => {
+                return Ok((x, Flow::Return));
             }
             _ => {
                 return Err(self.module.error(
@@ -1864,7 +1861,7 @@ impl Runtime {
         if let Some(ind) = sw.sw3 {
             self.stack.push(Variable::f64(f64::from(v[ind])));
         }
-        Ok(Flow::Continue)
+        Ok((None, Flow::Continue))
     }
 
     fn link(&mut self, link: &ast::Link) -> FlowResult {
-- 
2.43.0


From a5a4b86624cada5d2bdff5376f863ae7d2fac5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:27 +0000
Subject: [PATCH 27/69] fix: report a missing return value of a function called
 by the host instead of panicking

---
 src/runtime/mod.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 85ed705..15a330f 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1672,18 +1672,14 @@ impl Runtime {
             (true, None) => {
                 match self.stack.pop().expect(TINVOTS) {
                     Variable::Return => {
-                        let source = custom_source.as_ref().unwrap_or(
-                            &self.module.functions[self.call_stack.last()
-                                .expect(CSIE).index].source,
-                        );
-                        Err(self.module.error_source(
+                        Err(self.error_call(
                             info.source_range,
                             &format!(
                                 "{}\nFunction `{}` did not return a value",
                                 self.stack_trace(),
                                 f.name
                             ),
-                            source,
+                            custom_source,
                         ))
                     }
                     x => {
@@ -1694,28 +1690,20 @@ impl Runtime {
                 }
             }
             (false, Some(_)) => {
-                let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
-                );
-                Err(self.module.error_source(
+                Err(self.error_call(
                     info.source_range,
                     &format!(
                         "{}\nFunction `{}` should not return a value",
                         self.stack_trace(),
                         f.name
                     ),
-                    source,
+                    custom_source,
                 ))
             }
             (true, Some(Variable::Return)) => {
                 // TODO: Could return the last value on the stack.
                 //       Requires .pop_fn delayed after.
-                let source = custom_source.as_ref().unwrap_or(
-                    &self.module.functions[self.call_stack.last()
-                        .expect(CSIE).index].source,
-                );
-                Err(self.module.error_source(
+                Err(self.error_call(
                     info.source_range,
                     &format!(
                         "{}\nFunction `{}` did not return a value. \
@@ -1723,7 +1711,7 @@ impl Runtime {
                         self.stack_trace(),
                         f.name
                     ),
-                    source,
+                    custom_source,
                 ))
             }
             (returns, b) => {
@@ -1831,6 +1819,14 @@ impl Runtime {
         }
     }
 
+    /// Reports an error of a call, using the source of the caller unless there is a custom source.
+    fn error_call(&self, range: Range, msg: &str, custom_source: &Option<Arc<String>>) -> String {
+        match custom_source {
+            Some(source) => self.module.error_source(range, msg, source),
+            None => self.module.error(range, msg, self),
+        }
+    }
+
     fn swizzle(&mut self, sw: &ast::Swizzle) -> FlowResult {
         let v = match self.expression(&sw.expr, Side::Right)? {
             (Some(x), Flow::Continue) => x,
-- 
2.43.0


From f8827b85db925f0985a966981bde87e68d672658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:01 +0000
Subject: [PATCH 28/69] fix: follow references and count the index when looking
 up with an array of indices

---
 src/runtime/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 15a330f..937cebc 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -225,13 +225,14 @@ fn item_lookup(
                     } else {
                         id
                     };
-                    let (prev_stack, stack) = stack.split_at_mut(id);
-                    match stack[0] {
+                    match stack[id] {
                         F64(id, _) => {
                             *expr_j += 1;
                             id
                         }
                         Array(ref indices) => {
+                            let indices = indices.clone();
+                            *expr_j += 1;
                             // Use indices in array.
                             //
                             // This uses an unsafe pointer safely, because an array lookup
@@ -249,7 +250,7 @@ fn item_lookup(
                                 let id: f64 = match ind {
                                     F64(id, _) => *id,
                                     Ref(x) => {
-                                        if let F64(id, _) = prev_stack[*x] {
+                                        if let F64(id, _) = stack[*x] {
                                             id
                                         } else {
                                             break;
@@ -281,7 +282,7 @@ fn item_lookup(
                                         if last {
                                             Ok(v)
                                         } else {
-                                            Ok(&mut prev_stack[id])
+                                            Ok(&mut stack[id])
                                         }
                                     } else {
                                         Ok(v)
@@ -292,7 +293,7 @@ fn item_lookup(
                                         arr = Arc::make_mut(new_arr);
                                     }
                                     Ref(x) => {
-                                        if let Array(ref mut new_arr) = prev_stack[x]
+                                        if let Array(ref mut new_arr) = stack[x]
                                         {
                                             arr = Arc::make_mut(new_arr);
                                         } else {
-- 
2.43.0


From c4548ccf6de7f10c72cf975118d479fe3945b605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:27 +0000
Subject: [PATCH 29/69] fix: drop the components a swizzle pushes past the
 fourth in a vec4

---
 src/runtime/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 937cebc..1ece396 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2901,6 +2901,8 @@ impl Runtime {
                 break;
             }
         }
+        // Ignore components that swizzling pushed past the last one.
+        self.stack.truncate(st + 4);
         let w = self.stack.pop().expect(TINVOTS);
         let w = match self.get(&w) {
             &Variable::F64(val, _) => val,
-- 
2.43.0


From 24973cf26061649dd7de159ea0f66a1c0816076a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:37 +0000
Subject: [PATCH 30/69] fix: report an array that is too short for a fixed-size
 host value instead of panicking

---
 src/embed.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/embed.rs b/src/embed.rs
index 172e775..54e8390 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -168,6 +168,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for Result<T, U> {
 impl<T: PopVariable> PopVariable for [T; 2] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -181,6 +184,9 @@ impl<T: PopVariable> PopVariable for [T; 2] {
 impl<T: PopVariable> PopVariable for [T; 3] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -195,6 +201,9 @@ impl<T: PopVariable> PopVariable for [T; 3] {
 impl<T: PopVariable> PopVariable for [T; 4] {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok([
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -210,6 +219,9 @@ impl<T: PopVariable> PopVariable for [T; 4] {
 impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 2 {
+                return Err(rt.expected(var, "[_; 2]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -223,6 +235,9 @@ impl<T: PopVariable, U: PopVariable> PopVariable for (T, U) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 3 {
+                return Err(rt.expected(var, "[_; 3]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
@@ -237,6 +252,9 @@ impl<T: PopVariable, U: PopVariable, V: PopVariable> PopVariable for (T, U, V) {
 impl<T: PopVariable, U: PopVariable, V: PopVariable, W: PopVariable> PopVariable for (T, U, V, W) {
     fn pop_var(rt: &Runtime, var: &Variable) -> Result<Self, String> {
         if let Variable::Array(ref arr) = *var {
+            if arr.len() < 4 {
+                return Err(rt.expected(var, "[_; 4]"));
+            }
             Ok((
                 PopVariable::pop_var(rt, rt.get(&arr[0]))?,
                 PopVariable::pop_var(rt, rt.get(&arr[1]))?,
-- 
2.43.0


From 451c3f23c75bab1dc27654ef26b495a1b7b5027a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:01 +0000
Subject: [PATCH 31/69] fix: follow a reference held by an object field when
 popping it

---
 src/embed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/embed.rs b/src/embed.rs
index 54e8390..8cf99b1 100644
--- a/src/embed.rs
+++ b/src/embed.rs
@@ -21,7 +21,7 @@ pub fn obj_field<T: PopVariable>(rt: &Runtime, obj: &Object, name: &str) -> Resu
     let var = obj
         .get(&Arc::new(name.into()))
         .ok_or_else(|| format!("Object has no key `{}`", name))?;
-    PopVariable::pop_var(rt, var)
+    PopVariable::pop_var(rt, rt.get(var))
 }
 
 /// Implemented by types that can be popped from the runtime stack.
-- 
2.43.0


From a9ef2f284eeebcfab01e9a0bd2ad01bb5f70a54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:54 +0000
Subject: [PATCH 32/69] fix: read number literals exactly

---
 src/ast/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index c8438d5..d56ecab 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -1238,7 +1238,14 @@ impl Expression {
                     Variable::Str(val),
                 ))));
             } else if let Ok((range, val)) = convert.meta_f64("num") {
-                convert.update(range);
+                let before = convert;
+                convert.update(range);
+                // Read the literal again, because the parser accumulates rounding errors.
+                let val = convert
+                    .source(before)
+                    .and_then(|range| source.get(range.offset..range.next_offset()))
+                    .and_then(|text| text.replace('_', "").parse().ok())
+                    .unwrap_or(val);
                 result = Some(Expression::Variable(Box::new((
                     convert.source(start).unwrap(),
                     Variable::f64(val),
-- 
2.43.0


From 37fcb22b9678944f7ff1fe671d7d395b18424253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:34 +0000
Subject: [PATCH 33/69] fix: type a packed sift loop as nested arrays

---
 src/lifetime/typecheck.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 25ccec8..db955f0 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -527,7 +527,12 @@ pub(crate) fn run(
                         continue 'node;
                     };
                     if let Some(ref ty) = nodes[ch].ty {
-                        this_ty = Some(Type::Array(Box::new(ty.clone())));
+                        // Packed indices are nested loops, so each adds a level of arrays.
+                        let mut ty = ty.clone();
+                        for _ in &nodes[i].names {
+                            ty = Type::Array(Box::new(ty));
+                        }
+                        this_ty = Some(ty);
                     }
                 }
                 Kind::X | Kind::Y | Kind::Z | Kind::W | Kind::N => {
-- 
2.43.0


From 8964ec5104363e8e16de3707560f37d30ae0ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:06 +0000
Subject: [PATCH 34/69] fix: write closures as source that reads back as the
 same closure

---
 src/write.rs | 568 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 402 insertions(+), 166 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index d4562dd..b0d1bf5 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -1,4 +1,5 @@
 use piston_meta::json;
+use std::fmt;
 use std::io;
 use crate::{ast, Runtime, Variable};
 
@@ -8,6 +9,41 @@ use std::sync::Arc;
 pub(crate) enum EscapeString {
     Json,
     None,
+    /// Text that is read back as source, used when writing expressions.
+    Source,
+}
+
+impl EscapeString {
+    /// The way to escape what is inside arrays, objects etc.
+    fn nested(self) -> EscapeString {
+        match self {
+            EscapeString::Source => EscapeString::Source,
+            _ => EscapeString::Json,
+        }
+    }
+}
+
+/// Writes number as source.
+fn write_num_source<W, T>(w: &mut W, x: T) -> Result<(), io::Error>
+where
+    W: io::Write,
+    T: Copy + Into<f64> + fmt::Display + fmt::LowerExp,
+{
+    let val: f64 = x.into();
+    if val.is_nan() {
+        write!(w, "(0 / 0)")
+    } else if val.is_infinite() {
+        write!(w, "({} / 0)", if val < 0.0 { -1 } else { 1 })
+    } else if val.abs() >= 1e15 || (val != 0.0 && val.abs() < 1e-15) {
+        write!(w, "{:e}", x)
+    } else {
+        write!(w, "{}", x)
+    }
+}
+
+/// Returns `true` if the text can be used as a key without quotes.
+fn is_plain_key(key: &str) -> bool {
+    !key.is_empty() && key.chars().all(|c| c.is_alphanumeric() || c == '_')
 }
 
 pub(crate) fn write_variable<W>(
@@ -22,15 +58,31 @@ where
 {
     match *v {
         Variable::Str(ref t) => match escape_string {
-            EscapeString::Json => {
+            EscapeString::Json | EscapeString::Source => {
                 json::write_string(w, t)?;
             }
             EscapeString::None => write!(w, "{}", t)?,
         },
-        Variable::F64(x, _) => {
-            write!(w, "{}", x)?;
-        }
+        Variable::F64(x, _) => match escape_string {
+            EscapeString::Source => write_num_source(w, x)?,
+            _ => write!(w, "{}", x)?,
+        },
         Variable::Vec4(v) => {
+            if let EscapeString::Source = escape_string {
+                // Leave out trailing components that are zero.
+                let mut n = 4;
+                while n > 2 && v[n - 1].to_bits() == 0 {
+                    n -= 1;
+                }
+                write!(w, "(")?;
+                for (i, &x) in v[0..n].iter().enumerate() {
+                    if i > 0 {
+                        write!(w, ", ")?;
+                    }
+                    write_num_source(w, x)?;
+                }
+                return write!(w, ")");
+            }
             write!(w, "({}, {}", v[0], v[1])?;
             if v[2] != 0.0 || v[3] != 0.0 {
                 write!(w, ", {}", v[2])?;
@@ -44,26 +96,22 @@ where
             }
         }
         Variable::Mat4(ref m) => {
-            write!(
-                w,
-                "mat4 {{{},{},{},{}; {},{},{},{}; {},{},{},{}; {},{},{},{}}}",
-                m[0][0],
-                m[1][0],
-                m[2][0],
-                m[3][0],
-                m[0][1],
-                m[1][1],
-                m[2][1],
-                m[3][1],
-                m[0][2],
-                m[1][2],
-                m[2][2],
-                m[3][2],
-                m[0][3],
-                m[1][3],
-                m[2][3],
-                m[3][3]
-            )?;
+            write!(w, "mat4 {{")?;
+            for i in 0..4 {
+                if i > 0 {
+                    write!(w, "; ")?;
+                }
+                for j in 0..4 {
+                    if j > 0 {
+                        write!(w, ",")?;
+                    }
+                    match escape_string {
+                        EscapeString::Source => write_num_source(w, m[j][i])?,
+                        _ => write!(w, "{}", m[j][i])?,
+                    }
+                }
+            }
+            write!(w, "}}")?;
         }
         Variable::Bool(x, _) => {
             write!(w, "{}", x)?;
@@ -73,13 +121,21 @@ where
         }
         Variable::Link(ref link) => {
             match escape_string {
-                EscapeString::Json => {
+                EscapeString::Json | EscapeString::Source => {
                     // Write link items.
                     write!(w, "link {{ ")?;
                     for slice in &link.slices {
                         for i in slice.start..slice.end {
                             let v = slice.block.var(i);
-                            write_variable(w, rt, &v, EscapeString::Json, tabs)?;
+                            // A new line keeps a number that starts with `-` or `(`
+                            // from continuing the previous item.
+                            match v {
+                                Variable::F64(x, _) if x.is_sign_negative() || !x.is_finite() => {
+                                    writeln!(w)?
+                                }
+                                _ => {}
+                            }
+                            write_variable(w, rt, &v, escape_string, tabs)?;
                             write!(w, " ")?;
                         }
                     }
@@ -99,13 +155,13 @@ where
             write!(w, "{{")?;
             let n = obj.len();
             for (i, (k, v)) in obj.iter().enumerate() {
-                if !k.is_empty() && k.chars().all(|c| c.is_alphanumeric() || c == '_') {
+                if is_plain_key(k) {
                     write!(w, "{}: ", k)?;
                 } else {
                     json::write_string(w, k)?;
                     write!(w, ": ")?;
                 }
-                write_variable(w, rt, v, EscapeString::Json, tabs)?;
+                write_variable(w, rt, v, escape_string.nested(), tabs)?;
                 if i + 1 < n {
                     write!(w, ", ")?;
                 }
@@ -116,7 +172,7 @@ where
             write!(w, "[")?;
             let n = arr.len();
             for (i, v) in arr.iter().enumerate() {
-                write_variable(w, rt, v, EscapeString::Json, tabs)?;
+                write_variable(w, rt, v, escape_string.nested(), tabs)?;
                 if i + 1 < n {
                     write!(w, ", ")?;
                 }
@@ -127,19 +183,19 @@ where
             None => write!(w, "none()")?,
             Some(ref v) => {
                 write!(w, "some(")?;
-                write_variable(w, rt, v, EscapeString::Json, tabs)?;
+                write_variable(w, rt, v, escape_string.nested(), tabs)?;
                 write!(w, ")")?;
             }
         },
         Variable::Result(ref res) => match *res {
             Err(ref err) => {
                 write!(w, "err(")?;
-                write_variable(w, rt, &err.message, EscapeString::Json, tabs)?;
+                write_variable(w, rt, &err.message, escape_string.nested(), tabs)?;
                 write!(w, ")")?;
             }
             Ok(ref ok) => {
                 write!(w, "ok(")?;
-                write_variable(w, rt, ok, EscapeString::Json, tabs)?;
+                write_variable(w, rt, ok, escape_string.nested(), tabs)?;
                 write!(w, ")")?;
             }
         },
@@ -186,7 +242,18 @@ fn write_closure<W: io::Write>(
             write!(w, ", ")?;
         }
     }
-    write!(w, ") = ")?;
+    write!(w, ") ")?;
+    for (i, current) in closure.currents.iter().enumerate() {
+        write!(w, "{}", if i == 0 { "~ " } else { ", " })?;
+        if current.mutable {
+            write!(w, "mut ")?;
+        }
+        write!(w, "{}", current.name)?;
+        if i + 1 == closure.currents.len() {
+            write!(w, " ")?;
+        }
+    }
+    write!(w, "= ")?;
     write_expr(w, rt, &closure.expr, tabs)?;
     Ok(())
 }
@@ -206,28 +273,33 @@ fn write_expr<W: io::Write>(
     match *expr {
         E::Item(ref item) => write_item(w, rt, item, tabs)?,
         E::Variable(ref range_var) => {
-            write_variable(w, rt, &range_var.1, EscapeString::Json, tabs)?
+            write_variable(w, rt, &range_var.1, EscapeString::Source, tabs)?
         }
         E::Link(ref link) => write_link(w, rt, link, tabs)?,
         E::Object(ref obj) => write_obj(w, rt, obj, tabs)?,
         E::Array(ref arr) => write_arr(w, rt, arr, tabs)?,
         E::ArrayFill(ref arr_fill) => write_arr_fill(w, rt, arr_fill, tabs)?,
-        E::Call(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallVoid(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallReturn(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::Call(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallVoid(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallReturn(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
         E::CallBinOp(ref call) => write_call(
             w,
             rt,
-            &call.info.name,
+            &call.info,
             &[call.left.clone(), call.right.clone()],
             tabs,
         )?,
-        E::CallUnOp(ref call) => write_call(w, rt, &call.info.name, &[call.arg.clone()], tabs)?,
-        E::CallLazy(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
-        E::CallLoaded(ref call) => write_call(w, rt, &call.info.name, &call.args, tabs)?,
+        E::CallUnOp(ref call) => write_call(w, rt, &call.info, &[call.arg.clone()], tabs)?,
+        E::CallLazy(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
+        E::CallLoaded(ref call) => write_call(w, rt, &call.info, &call.args, tabs)?,
         E::Return(ref expr) => {
             write!(w, "return ")?;
-            write_expr(w, rt, expr, tabs)?;
+            // A comparison after `return (..)` is read as comparing with a call.
+            let parens = match binop(expr) {
+                Some(op) => op.precedence() == ast::BINOP_PREC_EQ,
+                None => false,
+            };
+            write_parens(w, rt, expr, parens, tabs)?;
         }
         E::ReturnVoid(_) => write!(w, "return")?,
         E::Break(ref br) => {
@@ -248,7 +320,7 @@ fn write_expr<W: io::Write>(
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::Go(ref go) => {
             write!(w, "go ")?;
-            write_call(w, rt, &go.call.info.name, &go.call.args, tabs)?;
+            write_call(w, rt, &go.call.info, &go.call.args, tabs)?;
         }
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::Go(ref go) => match **go {},
@@ -257,12 +329,12 @@ fn write_expr<W: io::Write>(
         E::Mat4(ref mat4) => write_mat4(w, rt, mat4, tabs)?,
         E::For(ref f) => write_for(w, rt, f, tabs)?,
         E::ForN(ref for_n) => {
-            write!(w, "for ")?;
+            write_loop(w, &for_n.label, "for")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ForIn(ref for_in) => {
-            write!(w, "for ")?;
+            write_loop(w, &for_in.label, "for")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
@@ -276,88 +348,91 @@ fn write_expr<W: io::Write>(
         E::AllIn(ref for_in) |
         E::LinkIn(ref for_in) => match **for_in {},
         E::Sum(ref for_n) => {
-            write!(w, "sum ")?;
+            write_loop(w, &for_n.label, "sum")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SumIn(ref for_in) => {
-            write!(w, "sum ")?;
+            write_loop(w, &for_in.label, "sum")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::SumVec4(ref for_n) => {
-            write!(w, "sum_vec4 ")?;
+            write_loop(w, &for_n.label, "sum_vec4")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         E::Prod(ref for_n) => {
-            write!(w, "prod ")?;
+            write_loop(w, &for_n.label, "prod")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::ProdIn(ref for_in) => {
-            write!(w, "prod ")?;
+            write_loop(w, &for_in.label, "prod")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::ProdVec4(ref for_n) => {
-            write!(w, "prod_vec4 ")?;
+            write_loop(w, &for_n.label, "prod_vec4")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         E::Min(ref for_n) => {
-            write!(w, "min ")?;
+            write_loop(w, &for_n.label, "min")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MinIn(ref for_in) => {
-            write!(w, "min ")?;
+            write_loop(w, &for_in.label, "min")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Max(ref for_n) => {
-            write!(w, "max ")?;
+            write_loop(w, &for_n.label, "max")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::MaxIn(ref for_in) => {
-            write!(w, "max ")?;
+            write_loop(w, &for_in.label, "max")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Sift(ref for_n) => {
-            write!(w, "sift ")?;
+            write_loop(w, &for_n.label, "sift")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::SiftIn(ref for_in) => {
-            write!(w, "sift ")?;
+            write_loop(w, &for_in.label, "sift")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::Any(ref for_n) => {
-            write!(w, "any ")?;
+            write_loop(w, &for_n.label, "any")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AnyIn(ref for_in) => {
-            write!(w, "any ")?;
+            write_loop(w, &for_in.label, "any")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::All(ref for_n) => {
-            write!(w, "all ")?;
+            write_loop(w, &for_n.label, "all")?;
             write_for_n(w, rt, for_n, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::AllIn(ref for_in) => {
-            write!(w, "all ")?;
+            write_loop(w, &for_in.label, "all")?;
             write_for_in(w, rt, for_in, tabs)?;
         }
         E::LinkFor(ref for_n) => {
-            write!(w, "link ")?;
-            write_for_n(w, rt, for_n, tabs)?;
+            write_loop(w, &for_n.label, "link")?;
+            write_for_n_head(w, rt, for_n, tabs)?;
+            write_link_block(w, rt, &for_n.block, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::LinkIn(ref for_in) => {
-            write!(w, "link ")?;
-            write_for_in(w, rt, for_in, tabs)?;
+            write_loop(w, &for_in.label, "link")?;
+            write_for_in_head(w, rt, for_in, tabs)?;
+            write_link_block(w, rt, &for_in.block, tabs)?;
         }
         E::If(ref if_expr) => write_if(w, rt, if_expr, tabs)?,
         E::Try(ref expr) => {
-            write_expr(w, rt, expr, tabs)?;
+            let parens = is_operator_call(expr, "not") || !is_operand(expr);
+            write_parens(w, rt, expr, parens, tabs)?;
             write!(w, "?")?;
         }
         E::Swizzle(ref swizzle) => write_swizzle(w, rt, swizzle, tabs)?,
@@ -367,7 +442,11 @@ fn write_expr<W: io::Write>(
         E::CallClosure(ref call) => write_call_closure(w, rt, call, tabs)?,
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
         E::In(ref in_expr) => {
-            write!(w, "in {}", in_expr.name)?;
+            write!(w, "in ")?;
+            if let Some(ref alias) = in_expr.alias {
+                write!(w, "{}::", alias)?;
+            }
+            write!(w, "{}", in_expr.name)?;
         } // x => panic!("Unimplemented `{:#?}`", x),
         #[cfg(not(all(not(target_family = "wasm"), feature = "threading")))]
         E::In(ref in_expr) => match **in_expr {},
@@ -381,8 +460,18 @@ fn write_norm<W: io::Write>(
     expr: &ast::Expression,
     tabs: u32,
 ) -> Result<(), io::Error> {
+    let mut buf = vec![];
+    write_expr(&mut buf, rt, expr, tabs)?;
+    // Put parentheses around an expression that could end the norm.
+    let parens = buf.contains(&b'|');
     write!(w, "|")?;
-    write_expr(w, rt, expr, tabs)?;
+    if parens {
+        write!(w, "(")?;
+    }
+    w.write_all(&buf)?;
+    if parens {
+        write!(w, ")")?;
+    }
     write!(w, "|")?;
     Ok(())
 }
@@ -416,29 +505,71 @@ fn write_block<W: io::Write>(
     Ok(())
 }
 
-fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bool {
+/// Returns the name and arguments of a call.
+fn call_info(expr: &ast::Expression) -> Option<(&ast::CallInfo, usize)> {
     use ast::Expression as E;
 
-    let binop: ast::BinOp = match *expr {
-        E::Call(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallBinOp(ref call) => match standard_binop(&call.info.name,
-            &[call.left.clone(), call.right.clone()])
-        {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallLazy(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
-        }
-        E::CallReturn(ref call) => match standard_binop(&call.info.name, &call.args) {
-            Some(x) => x,
-            None => return false,
+    Some(match *expr {
+        E::Call(ref call) => (&call.info, call.args.len()),
+        E::CallVoid(ref call) => (&call.info, call.args.len()),
+        E::CallReturn(ref call) => (&call.info, call.args.len()),
+        E::CallLazy(ref call) => (&call.info, call.args.len()),
+        E::CallLoaded(ref call) => (&call.info, call.args.len()),
+        E::CallBinOp(ref call) => (&call.info, 2),
+        E::CallUnOp(ref call) => (&call.info, 1),
+        _ => return None,
+    })
+}
+
+/// Returns the binary operator when the expression is written as one.
+fn binop(expr: &ast::Expression) -> Option<ast::BinOp> {
+    call_info(expr).and_then(|(info, n)| standard_binop(info, n))
+}
+
+/// Returns `true` if the expression is written as an unary operator.
+fn is_operator_call(expr: &ast::Expression, name: &str) -> bool {
+    match call_info(expr) {
+        Some((info, 1)) => info.alias.is_none() && &**info.name == name,
+        _ => false,
+    }
+}
+
+/// Returns `true` if the expression can be used next to an operator without parentheses.
+fn is_operand(expr: &ast::Expression) -> bool {
+    use ast::Expression as E;
+
+    match *expr {
+        E::Item(_) | E::Link(_) | E::Vec4(_) | E::Mat4(_) | E::Grab(_) | E::TryExpr(_)
+        | E::CallClosure(_) | E::Try(_) | E::Sum(_) | E::SumIn(_) | E::SumVec4(_) | E::Prod(_)
+        | E::ProdIn(_) | E::ProdVec4(_) | E::Min(_) | E::MinIn(_) | E::Max(_) | E::MaxIn(_)
+        | E::Sift(_) | E::SiftIn(_) | E::Any(_) | E::AnyIn(_) | E::All(_) | E::AllIn(_)
+        | E::LinkFor(_) | E::LinkIn(_) => true,
+        E::Variable(ref range_var) => match range_var.1 {
+            Variable::F64(x, _) => !x.is_finite() || x.is_sign_positive(),
+            Variable::Array(_) | Variable::Object(_) | Variable::Closure(_, _) => false,
+            _ => true,
+        },
+        _ => {
+            call_info(expr).is_some() && binop(expr).is_none() && !is_operator_call(expr, "neg")
         }
-        _ => return false
+    }
+}
+
+/// Returns `true` if the expression can be used as argument without parentheses.
+fn is_argument(expr: &ast::Expression) -> bool {
+    use ast::Expression as E;
+
+    match *expr {
+        E::Assign(_) | E::For(_) | E::ForN(_) | E::ForIn(_) | E::Return(_) | E::ReturnVoid(_)
+        | E::Break(_) | E::Continue(_) => false,
+        _ => true,
+    }
+}
+
+fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bool {
+    let binop: ast::BinOp = match binop(expr) {
+        Some(x) => x,
+        None => return !is_operand(expr),
     };
     match (op.precedence(), binop.precedence()) {
         (ast::BINOP_PREC_POW, _) => true,
@@ -446,39 +577,53 @@ fn binop_needs_parens(op: ast::BinOp, expr: &ast::Expression, right: bool) -> bo
         (ast::BINOP_PREC_MUL, ast::BINOP_PREC_MUL) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_ADD) if right => true,
         (ast::BINOP_PREC_ADD, ast::BINOP_PREC_EQ) => true,
+        (ast::BINOP_PREC_EQ, _) if !right => true,
         _ => false,
     }
 }
 
-fn write_binop<W: io::Write>(
+fn write_parens<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
-    op: ast::BinOp,
-    left: &ast::Expression,
-    right: &ast::Expression,
+    expr: &ast::Expression,
+    parens: bool,
     tabs: u32,
 ) -> Result<(), io::Error> {
-    let left_needs_parens = binop_needs_parens(op, left, false);
-    let right_needs_parens = binop_needs_parens(op, right, true);
-
-    if left_needs_parens {
-        write!(w, "(")?;
-    }
-    write_expr(w, rt, left, tabs)?;
-    if left_needs_parens {
-        write!(w, ")")?;
-    }
-    write!(w, " {} ", op.symbol())?;
-    if right_needs_parens {
+    if parens {
         write!(w, "(")?;
     }
-    write_expr(w, rt, right, tabs)?;
-    if right_needs_parens {
+    write_expr(w, rt, expr, tabs)?;
+    if parens {
         write!(w, ")")?;
     }
     Ok(())
 }
 
+/// Writes an expression that is followed by a block.
+fn write_before_block<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    expr: &ast::Expression,
+    tabs: u32,
+) -> Result<(), io::Error> {
+    let parens = !is_operand(expr) && binop(expr).is_none();
+    write_parens(w, rt, expr, parens, tabs)?;
+    write!(w, " ")
+}
+
+fn write_binop<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    op: ast::BinOp,
+    left: &ast::Expression,
+    right: &ast::Expression,
+    tabs: u32,
+) -> Result<(), io::Error> {
+    write_parens(w, rt, left, binop_needs_parens(op, left, false), tabs)?;
+    write!(w, " {} ", op.symbol())?;
+    write_parens(w, rt, right, binop_needs_parens(op, right, true), tabs)
+}
+
 fn write_not<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
@@ -486,7 +631,7 @@ fn write_not<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "!")?;
-    write_expr(w, rt, expr, tabs)
+    write_parens(w, rt, expr, !is_operand(expr), tabs)
 }
 
 fn write_neg<W: io::Write>(
@@ -496,7 +641,7 @@ fn write_neg<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "-")?;
-    write_expr(w, rt, expr, tabs)
+    write_parens(w, rt, expr, !is_operand(expr), tabs)
 }
 
 fn write_item<W: io::Write>(
@@ -511,13 +656,26 @@ fn write_item<W: io::Write>(
         write!(w, "~ ")?;
     }
     write!(w, "{}", item.name)?;
+    if item.try_flag {
+        write!(w, "?")?;
+    }
     for (i, id) in item.ids.iter().enumerate() {
         match *id {
-            Id::String(_, ref prop) => write!(w, ".{}", prop)?,
+            Id::String(_, ref prop) if is_plain_key(prop) => write!(w, ".{}", prop)?,
+            Id::String(_, ref prop) => {
+                write!(w, "[")?;
+                json::write_string(w, prop)?;
+                write!(w, "]")?;
+            }
             Id::F64(_, ind) => write!(w, "[{}]", ind)?,
             Id::Expression(ref expr) => {
+                // An expression can not start with a number or text.
+                let parens = match *expr {
+                    ast::Expression::Item(_) => false,
+                    _ => true,
+                };
                 write!(w, "[")?;
-                write_expr(w, rt, expr, tabs)?;
+                write_parens(w, rt, expr, parens, tabs)?;
                 write!(w, "]")?;
             }
         }
@@ -534,12 +692,35 @@ fn write_link<W: io::Write>(
     link: &ast::Link,
     tabs: u32,
 ) -> Result<(), io::Error> {
-    write!(w, "link {{ ")?;
-    for item in &link.items {
-        write_expr(w, rt, item, tabs)?;
-        write!(w, " ")?;
+    write!(w, "link ")?;
+    write_link_body(w, rt, &link.items, tabs)
+}
+
+fn write_link_body<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    items: &[ast::Expression],
+    tabs: u32,
+) -> Result<(), io::Error> {
+    match items.len() {
+        0 => write!(w, "{{}}")?,
+        1 => {
+            write!(w, "{{ ")?;
+            write_expr(w, rt, &items[0], tabs)?;
+            write!(w, " }}")?;
+        }
+        _ => {
+            // Use one line per item, such that one item does not continue the previous.
+            writeln!(w, "{{")?;
+            for item in items {
+                write_tabs(w, tabs + 1)?;
+                write_expr(w, rt, item, tabs + 1)?;
+                writeln!(w)?;
+            }
+            write_tabs(w, tabs)?;
+            write!(w, "}}")?;
+        }
     }
-    write!(w, "}}")?;
     Ok(())
 }
 
@@ -551,7 +732,7 @@ fn write_obj<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "{{")?;
     for (i, key_value) in obj.key_values.iter().enumerate() {
-        if key_value.0.chars().all(|c| c.is_alphanumeric()) {
+        if is_plain_key(&key_value.0) {
             write!(w, "{}: ", key_value.0)?;
         } else {
             json::write_string(w, &key_value.0)?;
@@ -566,31 +747,55 @@ fn write_obj<W: io::Write>(
     Ok(())
 }
 
+fn write_args<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    args: &[ast::Expression],
+    mutable: &[bool],
+    tabs: u32,
+) -> Result<(), io::Error> {
+    write!(w, "(")?;
+    for (i, arg) in args.iter().enumerate() {
+        if i > 0 {
+            write!(w, ", ")?;
+        }
+        if mutable.get(i) == Some(&true) {
+            write!(w, "mut ")?;
+        }
+        write_parens(w, rt, arg, !is_argument(arg), tabs)?;
+    }
+    write!(w, ")")
+}
+
 fn write_call<W: io::Write>(
     w: &mut W,
     rt: &Runtime,
-    name: &Arc<String>,
+    info: &ast::CallInfo,
     args: &[ast::Expression],
     tabs: u32,
 ) -> Result<(), io::Error> {
-    if &**name == "norm" && args.len() == 1 {
-        write_norm(w, rt, &args[0], tabs)
-    } else if &**name == "not" && args.len() == 1 {
-        write_not(w, rt, &args[0], tabs)
-    } else if &**name == "neg" && args.len() == 1 {
-        write_neg(w, rt, &args[0], tabs)
-    } else if let Some(op) = standard_binop(name, args) {
-        write_binop(w, rt, op, &args[0], &args[1], tabs)
-    } else {
-        write!(w, "{}(", name)?;
-        for (i, arg) in args.iter().enumerate() {
-            write_expr(w, rt, arg, tabs)?;
-            if i + 1 < args.len() {
-                write!(w, ", ")?;
+    if let Some(op) = standard_binop(info, args.len()) {
+        return write_binop(w, rt, op, &args[0], &args[1], tabs);
+    }
+    match (&info.alias, &**info.name, args) {
+        (None, "norm", [arg]) => write_norm(w, rt, arg, tabs),
+        (None, "not", [arg]) => write_not(w, rt, arg, tabs),
+        (None, "neg", [arg]) => write_neg(w, rt, arg, tabs),
+        (alias, name, _) => {
+            if let Some(alias) = alias {
+                write!(w, "{}::", alias)?;
             }
+            // The mutability of arguments is part of the name, e.g. `foo(mut,_)`.
+            let (name, mutable): (&str, Vec<bool>) = match name.find('(') {
+                Some(pos) => (
+                    &name[..pos],
+                    name[pos + 1..].split(',').map(|x| x.starts_with("mut")).collect(),
+                ),
+                None => (name, vec![]),
+            };
+            write!(w, "{}", name)?;
+            write_args(w, rt, args, &mutable, tabs)
         }
-        write!(w, ")")?;
-        Ok(())
     }
 }
 
@@ -602,15 +807,7 @@ fn write_call_closure<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "\\")?;
     write_item(w, rt, &call.item, tabs)?;
-    write!(w, "(")?;
-    for (i, arg) in call.args.iter().enumerate() {
-        write_expr(w, rt, arg, tabs + 1)?;
-        if i + 1 < call.args.len() {
-            write!(w, ", ")?;
-        }
-    }
-    write!(w, ")")?;
-    Ok(())
+    write_args(w, rt, &call.args, &[], tabs + 1)
 }
 
 fn write_arr<W: io::Write>(
@@ -638,7 +835,7 @@ fn write_arr_fill<W: io::Write>(
 ) -> Result<(), io::Error> {
     write!(w, "[")?;
     write_expr(w, rt, &arr_fill.fill, tabs + 1)?;
-    write!(w, ", ")?;
+    write!(w, "; ")?;
     write_expr(w, rt, &arr_fill.n, tabs + 1)?;
     write!(w, "]")?;
     Ok(())
@@ -663,10 +860,10 @@ fn write_vec4<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     let mut n = vec4.args.len();
-    for expr in vec4.args.iter().rev() {
+    for expr in vec4.args.iter().skip(1).rev() {
         if let ast::Expression::Variable(ref range_var) = *expr {
             if let (_, Variable::F64(num, _)) = **range_var {
-                if num == 0.0 {
+                if num.to_bits() == 0 {
                     n -= 1;
                     continue;
                 }
@@ -676,7 +873,7 @@ fn write_vec4<W: io::Write>(
     }
     write!(w, "(")?;
     for (i, expr) in vec4.args[0..n].iter().enumerate() {
-        write_expr(w, rt, expr, tabs)?;
+        write_parens(w, rt, expr, !is_argument(expr), tabs)?;
         if i + 1 < n {
             write!(w, ", ")?;
         }
@@ -697,7 +894,7 @@ fn write_mat4<W: io::Write>(
     let n = mat4.args.len();
     write!(w, "mat4 {{")?;
     for (i, expr) in mat4.args[0..n].iter().enumerate() {
-        write_expr(w, rt, expr, tabs)?;
+        write_parens(w, rt, expr, !is_argument(expr), tabs)?;
         if i + 1 < n {
             write!(w, "; ")?;
         }
@@ -748,7 +945,7 @@ fn write_for<W: io::Write>(
                     if b {
                         if let ast::Expression::Block(ref b) = f.step {
                             if b.expressions.is_empty() {
-                                write!(w, "loop ")?;
+                                write_loop(w, &f.label, "loop")?;
                                 write_block(w, rt, &f.block, tabs + 1)?;
                                 return Ok(());
                             }
@@ -759,7 +956,7 @@ fn write_for<W: io::Write>(
         }
     }
 
-    write!(w, "for ")?;
+    write_loop(w, &f.label, "for")?;
     write_expr(w, rt, &f.init, tabs)?;
     write!(w, "; ")?;
     write_expr(w, rt, &f.cond, tabs)?;
@@ -770,15 +967,26 @@ fn write_for<W: io::Write>(
     Ok(())
 }
 
-fn standard_binop(name: &Arc<String>, args: &[ast::Expression]) -> Option<ast::BinOp> {
+/// Writes the start of a loop with label.
+fn write_loop<W: io::Write>(
+    w: &mut W,
+    label: &Option<Arc<String>>,
+    name: &str,
+) -> Result<(), io::Error> {
+    if let Some(ref label) = *label {
+        write!(w, "'{}: ", label)?;
+    }
+    write!(w, "{} ", name)
+}
+
+fn standard_binop(info: &ast::CallInfo, n: usize) -> Option<ast::BinOp> {
     use crate::ast::BinOp::*;
 
-    if args.len() != 2 {
+    if n != 2 || info.alias.is_some() {
         return None;
     };
 
-    let name: &str = &**name;
-    Some(match name {
+    Some(match &**info.name {
         "dot" => Dot,
         "cross" => Cross,
         "add" => Add,
@@ -804,6 +1012,16 @@ fn write_for_n<W: io::Write>(
     rt: &Runtime,
     for_n: &ast::ForN,
     tabs: u32,
+) -> Result<(), io::Error> {
+    write_for_n_head(w, rt, for_n, tabs)?;
+    write_block(w, rt, &for_n.block, tabs + 1)
+}
+
+fn write_for_n_head<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    for_n: &ast::ForN,
+    tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "{} ", for_n.name)?;
     if let Some(ref start) = for_n.start {
@@ -811,13 +1029,10 @@ fn write_for_n<W: io::Write>(
         write_expr(w, rt, start, tabs)?;
         write!(w, ", ")?;
         write_expr(w, rt, &for_n.end, tabs)?;
-        write!(w, ") ")?;
+        write!(w, ") ")
     } else {
-        write_expr(w, rt, &for_n.end, tabs)?;
-        write!(w, " ")?;
+        write_before_block(w, rt, &for_n.end, tabs)
     }
-    write_block(w, rt, &for_n.block, tabs + 1)?;
-    Ok(())
 }
 
 #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
@@ -826,12 +1041,35 @@ fn write_for_in<W: io::Write>(
     rt: &Runtime,
     for_in: &ast::ForIn,
     tabs: u32,
+) -> Result<(), io::Error> {
+    write_for_in_head(w, rt, for_in, tabs)?;
+    write_block(w, rt, &for_in.block, tabs + 1)
+}
+
+#[cfg(all(not(target_family = "wasm"), feature = "threading"))]
+fn write_for_in_head<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    for_in: &ast::ForIn,
+    tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "{} in ", for_in.name)?;
-    write_expr(w, rt, &for_in.iter, tabs)?;
-    write!(w, " ")?;
-    write_block(w, rt, &for_in.block, tabs + 1)?;
-    Ok(())
+    write_before_block(w, rt, &for_in.iter, tabs)
+}
+
+/// Writes the body of a link loop, which is a list of link items.
+fn write_link_block<W: io::Write>(
+    w: &mut W,
+    rt: &Runtime,
+    block: &ast::Block,
+    tabs: u32,
+) -> Result<(), io::Error> {
+    match block.expressions.first() {
+        Some(ast::Expression::Link(link)) if block.expressions.len() == 1 => {
+            write_link_body(w, rt, &link.items, tabs + 1)
+        }
+        _ => write_link_body(w, rt, &block.expressions, tabs + 1),
+    }
 }
 
 fn write_if<W: io::Write>(
@@ -841,8 +1079,7 @@ fn write_if<W: io::Write>(
     tabs: u32,
 ) -> Result<(), io::Error> {
     write!(w, "if ")?;
-    write_expr(w, rt, &if_expr.cond, tabs)?;
-    write!(w, " ")?;
+    write_before_block(w, rt, &if_expr.cond, tabs)?;
     write_block(w, rt, &if_expr.true_block, tabs)?;
     for (else_if_cond, else_if_block) in if_expr
         .else_if_conds
@@ -850,8 +1087,7 @@ fn write_if<W: io::Write>(
         .zip(if_expr.else_if_blocks.iter())
     {
         write!(w, " else if ")?;
-        write_expr(w, rt, else_if_cond, tabs)?;
-        write!(w, " ")?;
+        write_before_block(w, rt, else_if_cond, tabs)?;
         write_block(w, rt, else_if_block, tabs)?;
     }
     if let Some(ref else_block) = if_expr.else_block {
-- 
2.43.0


From 84606af208d480bb5ad4609bb923ead5ddafe567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:44 +0000
Subject: [PATCH 35/69] fix: compare the branches of an if with the type of the
 if, not the other way around

---
 src/lifetime/typecheck.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index db955f0..13a7db0 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -888,7 +888,7 @@ fn check_if(n: usize, nodes: &[Node]) -> Result<(), Range<String>> {
             }
         } else if let Kind::ElseIfBlock = nodes[ch].kind {
             if let Some(ref else_if_type) = nodes[ch].ty {
-                if !else_if_type.goes_with(true_type) {
+                if !true_type.goes_with(else_if_type) {
                     return Err(nodes[ch].source.wrap(format!(
                         "Type mismatch (#1600):\nExpected `{}`, found `{}`",
                         true_type.description(),
@@ -901,7 +901,7 @@ fn check_if(n: usize, nodes: &[Node]) -> Result<(), Range<String>> {
 
     if let Some(eb) = nodes[n].find_child_by_kind(nodes, Kind::ElseBlock) {
         if let Some(ref else_type) = nodes[eb].ty {
-            if !else_type.goes_with(true_type) {
+            if !true_type.goes_with(else_type) {
                 return Err(nodes[eb].source.wrap(format!(
                     "Type mismatch (#1700):\nExpected `{}`, found `{}`",
                     true_type.description(),
-- 
2.43.0


From f6e8f61b438bf859de6f2a6576d658a9fa2f10ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:38:09 +0000
Subject: [PATCH 36/69] fix: report an unused result in the blocks of an if

---
 src/lifetime/typecheck.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 13a7db0..7b26174 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -740,7 +740,7 @@ pub(crate) fn run(
                     _ => {}
                 }
             }
-            Kind::Block => {
+            Kind::Block | Kind::TrueBlock | Kind::ElseIfBlock | Kind::ElseBlock => {
                 // Make sure all results are used.
                 // TODO: If the block is the body of a for loop,
                 // then the last child node should be checked too.
-- 
2.43.0


From eefcf6e561fc0dd6d412249c30715fd8f0cbbce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:28 +0000
Subject: [PATCH 37/69] fix: give swizzled arguments to external functions and
 check their number instead of panicking

---
 src/ast/mod.rs     |  7 +++++--
 src/runtime/mod.rs | 29 ++++++++++++++++++++++++++---
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index d56ecab..6ab24b6 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -1596,7 +1596,7 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
-                    FnIndex::BinOp(f) => {
+                    FnIndex::BinOp(f) if call.args.len() == 2 => {
                         *self = Expression::CallBinOp(Box::new(self::CallBinOp {
                             left: call.args[0].clone(),
                             right: call.args[1].clone(),
@@ -1604,7 +1604,7 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
-                    FnIndex::UnOp(f) => {
+                    FnIndex::UnOp(f) if call.args.len() == 1 => {
                         *self = Expression::CallUnOp(Box::new(self::CallUnOp {
                             arg: call.args[0].clone(),
                             fun: f,
@@ -1627,6 +1627,9 @@ impl Expression {
                             info: call.info.clone(),
                         }))
                     }
+                    // The number of arguments is checked with lifetimes,
+                    // and swizzling might give several arguments.
+                    FnIndex::BinOp(_) | FnIndex::UnOp(_) => {}
                     FnIndex::None => {}
                 }
             }
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 1ece396..286eb90 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1247,6 +1247,8 @@ impl Runtime {
         for arg in args {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => self.stack.push(x),
+                // Swizzling pushes the arguments on the stack.
+                (None, Flow::Continue) if matches!(*arg, ast::Expression::Swizzle(_)) => {}
                 (x, Flow::Return) => {
                     return Ok((x, Flow::Return));
                 }
@@ -1262,7 +1264,7 @@ impl Runtime {
         (fun.0)(self).map_err(|err| {
             let range = if let Some(ind) = self.arg_err_index.get() {
                 self.arg_err_index.set(None);
-                args[ind].source_range()
+                args.get(ind).map_or(info.source_range, |arg| arg.source_range())
             } else {
                 info.source_range
             };
@@ -1280,6 +1282,8 @@ impl Runtime {
         for arg in args {
             match self.expression(arg, Side::Right)? {
                 (Some(x), Flow::Continue) => self.stack.push(x),
+                // Swizzling pushes the arguments on the stack.
+                (None, Flow::Continue) if matches!(*arg, ast::Expression::Swizzle(_)) => {}
                 (x, Flow::Return) => {
                     return Ok((x, Flow::Return));
                 }
@@ -1296,7 +1300,7 @@ impl Runtime {
             Some((fun.0)(self).map_err(|err| {
                 let range = if let Some(ind) = self.arg_err_index.get() {
                     self.arg_err_index.set(None);
-                    args[ind].source_range()
+                    args.get(ind).map_or(info.source_range, |arg| arg.source_range())
                 } else {
                     info.source_range
                 };
@@ -1734,7 +1738,26 @@ impl Runtime {
             FnIndex::Void(f) => self.call_void(&call.args, f, &call.info),
             FnIndex::Return(f) => self.call_return(&call.args, f, &call.info),
             FnIndex::Lazy(f, lazy_inv) => self.call_lazy(&call.args, f, lazy_inv, &call.info),
-            FnIndex::BinOp(f) => self.call_binop(&call.args[0], &call.args[1], f, &call.info),
+            FnIndex::BinOp(f) if call.args.len() == 2 => {
+                self.call_binop(&call.args[0], &call.args[1], f, &call.info)
+            }
+            FnIndex::BinOp(f) => {
+                // Swizzling pushes both arguments on the stack.
+                for arg in &call.args {
+                    if let (x, Flow::Return) = self.expression(arg, Side::Right)? {
+                        return Ok((x, Flow::Return));
+                    }
+                }
+                let right = self.stack.pop().expect(TINVOTS);
+                let left = self.stack.pop().expect(TINVOTS);
+                Ok((
+                    Some((f.0)(&left, &right).map_err(|err| {
+                        self.arg_err_index.set(None);
+                        self.module.error(call.info.source_range, &err, self)
+                    })?),
+                    Flow::Continue,
+                ))
+            }
             FnIndex::UnOp(f) => self.call_unop(&call.args[0], f, &call.info),
             FnIndex::Loaded(f_index) => {
                 self.call_loaded(&call.args, f_index, &call.info, &call.custom_source, loader)
-- 
2.43.0


From 2c54a42043b29ff5c9c09d858ad901ac4ae13b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 38/69] fix: check the number of arguments of a call with alias

---
 src/lifetime/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 34bb68f..997fb5a 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -666,6 +666,15 @@ pub(crate) fn check_core(
                 use_lookup.aliases.get(alias).and_then(|map| map.get(&name))
             {
                 node.lts = prelude.list[i].lts.clone();
+                if node.lts.len() != n {
+                    return Err(node.source.wrap(format!(
+                        "{}::{}: Expected {} arguments, found {}",
+                        alias,
+                        name,
+                        node.lts.len(),
+                        n
+                    )));
+                }
                 continue;
             } else {
                 return Err(node
-- 
2.43.0


From 9b851a0d9977db7b8eebe6ece200227e52ad7e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:01 +0000
Subject: [PATCH 39/69] fix: check every argument for cyclic lifetimes

---
 src/lifetime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 997fb5a..e153972 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -791,7 +791,7 @@ pub(crate) fn check_core(
         {
             if let Some(ref lt) = nodes[c].lifetime {
                 if &**lt == "return" {
-                    break;
+                    continue;
                 }
                 // Reset visit flags.
                 for it in &mut visited {
-- 
2.43.0


From 0e25141e7d796f4454e6bc09e4cb23878a7a43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:52 +0000
Subject: [PATCH 40/69] fix: give an aggregate the shortest lifetime of its
 parts, not the longest

---
 src/lifetime/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 191095b..f6eed0f 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -380,7 +380,7 @@ impl Node {
             };
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Less)) => Some(lifetime),
+                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
                 Some(None) => return Err(LifetimeError::FailedToUnify),
                 _ => min,
             };
-- 
2.43.0


From 541be0bcba3ec7f4d4d6b51f3637668a1aae6de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:38 +0000
Subject: [PATCH 41/69] fix: let a local variable decide the lifetime of an
 aggregate whose other parts do not unify

---
 src/lifetime/node.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index f6eed0f..b5a9f52 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -252,6 +252,7 @@ impl Node {
 
         // Pick the smallest lifetime among children.
         let mut min: Option<Lifetime> = None;
+        let mut failed_to_unify = false;
         // TODO: Filter by kind of children.
         let mut call_arg_ind = 0;
         for &c in &self.children {
@@ -376,15 +377,27 @@ impl Node {
             let lifetime = match nodes[c].lifetime(nodes, arg_names) {
                 Ok(lifetime) => lifetime,
                 Err(LifetimeError::None) => continue,
-                Err(LifetimeError::FailedToUnify) => return Err(LifetimeError::FailedToUnify),
+                Err(LifetimeError::FailedToUnify) => {
+                    failed_to_unify = true;
+                    continue;
+                }
             };
             min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
                 None => Some(lifetime),
                 Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
-                Some(None) => return Err(LifetimeError::FailedToUnify),
+                Some(None) => {
+                    failed_to_unify = true;
+                    min
+                }
                 _ => min,
             };
         }
+        match min {
+            // A local variable has a smaller lifetime than those that can not be unified.
+            Some(Lifetime::Local(_)) => {}
+            _ if failed_to_unify => return Err(LifetimeError::FailedToUnify),
+            _ => {}
+        }
         min.ok_or(LifetimeError::None)
     }
 }
-- 
2.43.0


From 8ae19160ae9ddffa1347b74806872ad10960547e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:01 +0000
Subject: [PATCH 42/69] fix: check the lifetime of a value inserted into an
 argument or current object

---
 src/lifetime/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index e153972..ace2dc1 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -851,7 +851,11 @@ pub(crate) fn check_core(
     for &(a, i) in &assigned_locals {
         if let Some(j) = nodes[i].declaration {
             let right = nodes[a].children[1];
-            let lifetime_left = &Ok(Lifetime::Local(j));
+            // An argument or current object outlives the local variables.
+            let lifetime_left = &match nodes[j].kind {
+                Kind::Arg | Kind::Current => nodes[i].lifetime(nodes, &arg_names),
+                _ => Ok(Lifetime::Local(j)),
+            };
             let lifetime_right = &nodes[right].lifetime(nodes, &arg_names);
             compare_lifetimes(lifetime_left, lifetime_right, nodes)
                 .map_err(|err| nodes[right].source.wrap(err))?;
-- 
2.43.0


From 67bdbff2b65a0eaf44b3bc7b67cc67cb121bb055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:25 +0000
Subject: [PATCH 43/69] fix: require `mut` to insert a value into an argument
 or current object

---
 src/lifetime/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index ace2dc1..40cdbdb 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1104,7 +1104,7 @@ pub(crate) fn check_core(
     }
 
     // Check that mutable locals are not immutable arguments.
-    for &(_, i) in &mutated_locals {
+    for &(_, i) in mutated_locals.iter().chain(&assigned_locals) {
         if let Some(decl) = nodes[i].declaration {
             if (nodes[decl].kind == Kind::Arg || nodes[decl].kind == Kind::Current)
                 && !nodes[decl].mutable
-- 
2.43.0


From 3d20c4ec2ee42bdf53423d1fdce202cddd66a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:24:26 +0000
Subject: [PATCH 44/69] fix: require a variable, not a computed value, for an
 argument with a lifetime

---
 src/lifetime/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 40cdbdb..a89047f 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1009,11 +1009,12 @@ pub(crate) fn check_core(
                 let node: &Node = &nodes[n];
                 match node.kind {
                     Kind::Item => break,
-                    Kind::Call => {
+                    Kind::CallArg | Kind::Expr | Kind::Add | Kind::Mul | Kind::Val => {}
+                    _ => {
+                        // The value is computed, for example by a call, an array or an object.
                         can_be_item = false;
                         break;
                     }
-                    _ => {}
                 }
                 if node.children.is_empty() {
                     can_be_item = false;
@@ -1024,6 +1025,12 @@ pub(crate) fn check_core(
             if can_be_item && nodes[n].kind != Kind::Item {
                 can_be_item = false;
             }
+            // The content of an item is copied, unless it is passed as mutable.
+            if can_be_item
+                && (nodes[n].item_ids() && !nodes[call.children[i]].mutable || nodes[n].try_flag)
+            {
+                can_be_item = false;
+            }
             can_be_item
         };
 
-- 
2.43.0


From 3b0782dab9e81c83c6d9ef2816b57a7612f6b806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:14 +0000
Subject: [PATCH 45/69] fix: count swizzled arguments when comparing the
 lifetimes of two arguments

---
 src/lifetime/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index a89047f..c2d417d 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1064,7 +1064,7 @@ pub(crate) fn check_core(
                         let (_, ind) = *arg_names
                             .get(&(declaration, lt.clone()))
                             .expect("Expected argument name");
-                        let left = call.children[ind];
+                        let left = call.children[map_arg_call_arg_index(ind)];
                         let right = call.children[i];
                         let lifetime_left = &nodes[left].lifetime(nodes, &arg_names);
                         let lifetime_right = &nodes[right].lifetime(nodes, &arg_names);
@@ -1098,7 +1098,7 @@ pub(crate) fn check_core(
                                 .wrap("Requires reference to variable".to_string()));
                         }
 
-                        let left = call.children[ind];
+                        let left = call.children[map_arg_call_arg_index(ind)];
                         let right = call.children[i];
                         let lifetime_left = &nodes[left].lifetime(nodes, &arg_names);
                         let lifetime_right = &nodes[right].lifetime(nodes, &arg_names);
-- 
2.43.0


From 862630da28db5af6e93c2e6ec67e29109b09afa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:52 +0000
Subject: [PATCH 46/69] fix: an argument outlives another only if its declared
 lifetime says so

---
 src/lifetime/lt.rs   | 39 +++++++++++++++++++++++++++++----------
 src/lifetime/node.rs | 19 +++++++++++--------
 2 files changed, 40 insertions(+), 18 deletions(-)

diff --git a/src/lifetime/lt.rs b/src/lifetime/lt.rs
index ac80852..3b6cb84 100644
--- a/src/lifetime/lt.rs
+++ b/src/lifetime/lt.rs
@@ -54,19 +54,38 @@ impl PartialOrd for Lifetime {
     }
 }
 
-/// Takes two lists of arguments.
-/// If they have any argument in common, the longer list outlives the shorter.
-/// If they have no argument in common, it is not known whether one outlives
-/// the other.
+/// Takes two lists of arguments, each an argument followed by those it outlives.
+/// An argument outlives another if the other is among those it outlives.
+/// Otherwise it is not known whether one outlives the other.
 fn compare_argument_outlives(a: &[usize], b: &[usize]) -> Option<Ordering> {
-    for &i in a {
-        for &j in b {
-            if i == j {
-                return Some(a.len().cmp(&b.len()));
-            }
+    if a[0] == b[0] {
+        Some(Ordering::Equal)
+    } else if a[1..].contains(&b[0]) {
+        Some(Ordering::Greater)
+    } else if b[1..].contains(&a[0]) {
+        Some(Ordering::Less)
+    } else {
+        None
+    }
+}
+
+/// Finds the lifetime of something that refers to two arguments of unknown order,
+/// which outlives the arguments that both of them outlive.
+pub(crate) fn unify_arguments(a: &Lifetime, b: &Lifetime) -> Option<Lifetime> {
+    let both = |a: &[usize], b: &[usize]| {
+        let mut args = vec![a[0]];
+        args.extend(a[1..].iter().filter(|i| b[1..].contains(i)));
+        if args.len() > 1 {
+            Some(args)
+        } else {
+            None
         }
+    };
+    match (a, b) {
+        (Lifetime::Return(a), Lifetime::Return(b)) => both(a, b).map(Lifetime::Return),
+        (Lifetime::Argument(a), Lifetime::Argument(b)) => both(a, b).map(Lifetime::Argument),
+        _ => None,
     }
-    None
 }
 
 /// Gets the lifetime of a function argument.
diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index b5a9f52..e475e54 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -1,5 +1,5 @@
 use super::kind::Kind;
-use super::lt::{arg_lifetime, Lifetime, LifetimeResult, LifetimeError};
+use super::lt::{arg_lifetime, unify_arguments, Lifetime, LifetimeResult, LifetimeError};
 use super::piston_meta::bootstrap::Convert;
 use super::piston_meta::MetaData;
 use super::ArgNames;
@@ -382,14 +382,17 @@ impl Node {
                     continue;
                 }
             };
-            min = match min.as_ref().map(|l| l.partial_cmp(&lifetime)) {
+            min = match min {
                 None => Some(lifetime),
-                Some(Some(std::cmp::Ordering::Greater)) => Some(lifetime),
-                Some(None) => {
-                    failed_to_unify = true;
-                    min
-                }
-                _ => min,
+                Some(min) => match min.partial_cmp(&lifetime) {
+                    Some(std::cmp::Ordering::Greater) => Some(lifetime),
+                    None => {
+                        let unified = unify_arguments(&min, &lifetime);
+                        failed_to_unify |= unified.is_none();
+                        Some(unified.unwrap_or(min))
+                    }
+                    _ => Some(min),
+                },
             };
         }
         match min {
-- 
2.43.0


From 15b51d766dab13833a8f85419045275ce1a8f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:25 +0000
Subject: [PATCH 47/69] fix: start a thread with the function the call resolves
 to, not the last one of that name

---
 src/ast/mod.rs     | 28 +++++++++++++++++-----------
 src/runtime/mod.rs |  3 +--
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 6ab24b6..d5e1047 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2563,6 +2563,7 @@ impl Go {
         module: &Module,
         use_lookup: &UseLookup,
     ) {
+        self.call.f_index = self.call.resolve(relative, module, use_lookup);
         let st = stack.len();
         for arg in &mut self.call.args {
             let st = stack.len();
@@ -2840,14 +2841,8 @@ impl Call {
         ))
     }
 
-    fn get_locals(
-        &mut self,
-        relative: usize,
-        stack: &mut Vec<Option<Arc<String>>>,
-        closure_stack: &mut Vec<usize>,
-        module: &Module,
-        use_lookup: &UseLookup,
-    ) {
+    /// Finds the function to call.
+    fn resolve(&self, relative: usize, module: &Module, use_lookup: &UseLookup) -> FnIndex {
         use crate::{
             FnBinOpRef,
             FnExt,
@@ -2856,8 +2851,7 @@ impl Call {
             FnVoidRef,
         };
 
-        let st = stack.len();
-        let f_index = if let Some(ref alias) = self.info.alias {
+        if let Some(ref alias) = self.info.alias {
             if let Some(&i) = use_lookup
                 .aliases
                 .get(alias)
@@ -2880,7 +2874,19 @@ impl Call {
             }
         } else {
             module.find_function(&self.info.name, relative)
-        };
+        }
+    }
+
+    fn get_locals(
+        &mut self,
+        relative: usize,
+        stack: &mut Vec<Option<Arc<String>>>,
+        closure_stack: &mut Vec<usize>,
+        module: &Module,
+        use_lookup: &UseLookup,
+    ) {
+        let st = stack.len();
+        let f_index = self.resolve(relative, module, use_lookup);
         self.f_index = f_index;
         match f_index {
             FnIndex::Loaded(f_index) => {
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 286eb90..e693106 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -961,9 +961,8 @@ impl Runtime {
 
         let n = go.call.args.len();
         let mut stack = vec![];
-        let relative = self.call_stack.last().map(|c| c.index).expect(CSIE);
         let mut fake_call = ast::Call {
-            f_index: self.module.find_function(&go.call.info.name, relative),
+            f_index: go.call.f_index,
             args: Vec::with_capacity(n),
             custom_source: None,
             info: go.call.info.clone(),
-- 
2.43.0


From e9ecba0dfdff8f20038458aeaa7882da813b10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:29 +0000
Subject: [PATCH 48/69] fix: do not store the looked up stack id in the
 expression, which threads share

---
 src/ast/mod.rs     |  11 +----
 src/ast/replace.rs |   1 -
 src/grab.rs        |   1 -
 src/runtime/mod.rs | 100 ++++++++++++++++++---------------------------
 4 files changed, 41 insertions(+), 72 deletions(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index d5e1047..13925a0 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2324,14 +2324,10 @@ impl Id {
 pub struct Item {
     /// The name of item.
     pub name: Arc<String>,
-    /// Dynamical looked up stack id.
-    ///
-    /// This is checked against the static stack id when
-    /// the Cargo feature "debug_lookup" is enabled.
-    pub stack_id: Cell<Option<usize>>,
     /// Statical looked up stack id.
     ///
-    /// This is used when the Cargo feature "debug_lookup" is disabled.
+    /// This is checked against the dynamical looked up stack id when
+    /// the Cargo feature "debug_lookup" is enabled.
     pub static_stack_id: Cell<Option<usize>>,
     /// Whether the item is a current object.
     pub current: bool,
@@ -2351,7 +2347,6 @@ impl Item {
         Item {
             name,
             current: false,
-            stack_id: Cell::new(None),
             static_stack_id: Cell::new(None),
             try_flag: false,
             ids: vec![],
@@ -2365,7 +2360,6 @@ impl Item {
         Item {
             name: self.name.clone(),
             current: self.current,
-            stack_id: Cell::new(None),
             static_stack_id: Cell::new(None),
             try_flag: self.try_flag,
             ids: self.ids.iter().take(n).cloned().collect(),
@@ -2447,7 +2441,6 @@ impl Item {
             convert.subtract(start),
             Item {
                 name,
-                stack_id: Cell::new(None),
                 static_stack_id: Cell::new(None),
                 current,
                 try_flag,
diff --git a/src/ast/replace.rs b/src/ast/replace.rs
index 2a6cfb1..f354dc3 100644
--- a/src/ast/replace.rs
+++ b/src/ast/replace.rs
@@ -258,7 +258,6 @@ fn number_item(item: &Item, name: &Arc<String>, val: f64, level: u16) -> Item {
     Item {
         name: item.name.clone(),
         current: item.current,
-        stack_id: item.stack_id.clone(),
         static_stack_id: item.static_stack_id.clone(),
         try_flag: item.try_flag,
         ids: new_ids,
diff --git a/src/grab.rs b/src/grab.rs
index f19654e..072f8c6 100644
--- a/src/grab.rs
+++ b/src/grab.rs
@@ -726,7 +726,6 @@ fn grab_item(
     Ok((
         Grabbed::Item(ast::Item {
             name: item.name.clone(),
-            stack_id: item.stack_id.clone(),
             static_stack_id: item.static_stack_id.clone(),
             current: item.current,
             try_flag: item.try_flag,
diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index e693106..eabc14d 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -2483,76 +2483,54 @@ impl Runtime {
             if cfg!(not(feature = "debug_lookup")) {
                 self.stack.len() - item.static_stack_id.get().unwrap()
             } else {
-                match item.stack_id.get() {
-                    Some(val) => self.stack.len() - val,
-                    None => {
-                        let name: &str = &**item.name;
-                        let mut found = false;
-                        for &(ref n, id) in self.local_stack.iter().rev().take(locals) {
-                            if **n == name {
-                                let new_val = Some(self.stack.len() - id);
-                                item.stack_id.set(new_val);
-
-                                let static_stack_id = item.static_stack_id.get();
-                                if new_val != static_stack_id {
-                                    return Err(self.module.error(item.source_range,
-                                        &format!(
-                                            "DEBUG: lookup not same for {} `{:?}` vs static `{:?}`",
-                                            name,
-                                            new_val,
-                                            static_stack_id
-                                        ), self));
-                                }
-
-                                found = true;
-                                break;
-                            }
-                        }
-                        if found {
-                            self.stack.len() - item.stack_id.get().unwrap()
-                        } else if name == "return" {
-                            return Err(self.module.error(
-                                item.source_range,
-                                &format!(
-                                    "{}\nRequires `->` on function `{}`",
-                                    self.stack_trace(),
-                                    &self.call_stack.last().expect(CSIE).fn_name
-                                ),
-                                self,
-                            ));
-                        } else {
-                            return Err(self.module.error(
-                                item.source_range,
-                                &format!(
-                                    "{}\nCould not find local or current variable `{}`",
-                                    self.stack_trace(),
-                                    name
-                                ),
-                                self,
-                            ));
-                        }
-                    }
-                }
-            }
-        };
-
-        if cfg!(feature = "debug_lookup") {
-            for &(ref n, id) in self.local_stack.iter().rev().take(locals) {
-                if **n == **item.name {
-                    if stack_id != id {
+                // Look up the variable every time and compare with the static one.
+                // The expression might be evaluated by many threads at the same time,
+                // so the result can not be stored in the item.
+                let name: &str = &**item.name;
+                let found = self
+                    .local_stack
+                    .iter()
+                    .rev()
+                    .take(locals)
+                    .find(|&&(ref n, _)| **n == name)
+                    .map(|&(_, id)| id);
+                if let Some(id) = found {
+                    let new_val = Some(self.stack.len() - id);
+                    let static_stack_id = item.static_stack_id.get();
+                    if new_val != static_stack_id {
                         return Err(self.module.error(
                             item.source_range,
                             &format!(
-                                "DEBUG: Not same for {} stack_id `{:?}` vs id `{:?}`",
-                                item.name, stack_id, id
+                                "DEBUG: lookup not same for {} `{:?}` vs static `{:?}`",
+                                name, new_val, static_stack_id
                             ),
                             self,
                         ));
                     }
-                    break;
+                    id
+                } else if name == "return" {
+                    return Err(self.module.error(
+                        item.source_range,
+                        &format!(
+                            "{}\nRequires `->` on function `{}`",
+                            self.stack_trace(),
+                            &self.call_stack.last().expect(CSIE).fn_name
+                        ),
+                        self,
+                    ));
+                } else {
+                    return Err(self.module.error(
+                        item.source_range,
+                        &format!(
+                            "{}\nCould not find local or current variable `{}`",
+                            self.stack_trace(),
+                            name
+                        ),
+                        self,
+                    ));
                 }
             }
-        }
+        };
 
         let stack_id = if let Variable::Ref(ref_id) = self.stack[stack_id] {
             ref_id
-- 
2.43.0


From 88055c4d9c54a611b698979ace6bfec1e443a5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:18 +0000
Subject: [PATCH 49/69] fix: let a renamed external function with mutable
 arguments be called through its alias

---
 src/ast/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index 13925a0..effbc23 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -160,7 +160,7 @@ impl UseLookup {
                         // A function with mutable information.
                         let mut name: Arc<String> = use_fn.1.as_ref().unwrap_or(&use_fn.0).clone();
                         Arc::make_mut(&mut name).push_str(&f.name.as_str()[use_fn.0.len()..]);
-                        fns.insert(f.name.clone(), FnAlias::External(i));
+                        fns.insert(name, FnAlias::External(i));
                     }
                 }
             }
-- 
2.43.0


From 5e07efc8c76c0e8f4d9e5535d3a65873f3b46c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:56 +0000
Subject: [PATCH 50/69] fix: keep the lazy invariants of an external function
 called through an alias

---
 src/ast/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ast/mod.rs b/src/ast/mod.rs
index effbc23..24337af 100644
--- a/src/ast/mod.rs
+++ b/src/ast/mod.rs
@@ -2856,7 +2856,13 @@ impl Call {
                         let f = &module.ext_prelude[i];
                         match f.f {
                             FnExt::Void(ff) => FnIndex::Void(FnVoidRef(ff)),
-                            FnExt::Return(ff) => FnIndex::Return(FnReturnRef(ff)),
+                            FnExt::Return(ff) => {
+                                if f.p.lazy == crate::LAZY_NO {
+                                    FnIndex::Return(FnReturnRef(ff))
+                                } else {
+                                    FnIndex::Lazy(FnReturnRef(ff), f.p.lazy)
+                                }
+                            }
                             FnExt::BinOp(ff) => FnIndex::BinOp(FnBinOpRef(ff)),
                             FnExt::UnOp(ff) => FnIndex::UnOp(FnUnOpRef(ff)),
                         }
-- 
2.43.0


From db5fb10e1e5bb8ff0d5cab184abc3d8fefb2a313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:49 +0000
Subject: [PATCH 51/69] fix: check the number of arguments of a function called
 by name from the host

---
 src/runtime/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index eabc14d..af95f5c 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -363,6 +363,22 @@ fn item_lookup(
     }
 }
 
+/// Checks the number of arguments when calling a function by name from the outside.
+fn check_arg_len(module: &Module, name: &Arc<String>, found: usize) -> Result<(), String> {
+    let expected = match module.find_function(name, 0) {
+        FnIndex::Loaded(f_index) => module.functions[f_index as usize].args.len(),
+        _ => match module.ext_prelude.iter().rev().find(|f| &f.name == name) {
+            Some(f) => f.p.tys.len(),
+            None => return Ok(()),
+        },
+    };
+    if expected == found {
+        Ok(())
+    } else {
+        Err(format!("Expected `{}` arguments, found `{}`", expected, found))
+    }
+}
+
 impl Runtime {
     /// Creates a new Runtime.
     pub fn new() -> Runtime {
@@ -1783,6 +1799,7 @@ impl Runtime {
         let name: Arc<String> = Arc::new(function.into());
         match module.find_function(&name, 0) {
             FnIndex::Loaded(f_index) => {
+                check_arg_len(module, &name, args.len())?;
                 let call = ast::Call {
                     f_index: FnIndex::Loaded(f_index),
                     args: args
@@ -1818,6 +1835,7 @@ impl Runtime {
             return Err(format!("Could not find function `{}`", function));
         }
 
+        check_arg_len(module, &name, args.len())?;
         let call = ast::Call {
             f_index: fn_index,
             args: args
-- 
2.43.0


From 0a240b731ef6197e6ce36909f351582f00d352cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:24 +0000
Subject: [PATCH 52/69] fix: report an array fill length beyond memory as an
 error

---
 src/runtime/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index af95f5c..3dac00b 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1988,7 +1988,18 @@ impl Runtime {
             _ => return self.err(array_fill.n.source_range(), "Expected something"),
         };
         let v = match (self.get(&fill), self.get(&n)) {
-            (x, &Variable::F64(n, _)) => Variable::Array(Arc::new(vec![x.clone(); n as usize])),
+            (x, &Variable::F64(n, _)) => {
+                let n = n as usize;
+                let mut arr: Vec<Variable> = vec![];
+                if arr.try_reserve_exact(n).is_err() {
+                    return self.err(
+                        array_fill.n.source_range(),
+                        "Not enough memory for length in `[value; length]`",
+                    );
+                }
+                arr.resize(n, x.clone());
+                Variable::Array(Arc::new(arr))
+            }
             _ => {
                 return self.err(
                     array_fill.n.source_range(),
-- 
2.43.0


From 34724d76ef6c636e1e84d80538764d98932db409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:51 +0000
Subject: [PATCH 53/69] fix: report a wrong argument type of read_number and
 the transitive module functions as an error

---
 src/dyon_std/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 1552e8f..d9afcbe 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -944,7 +944,7 @@ pub(crate) fn read_line(_rt: &mut Runtime) -> Result<Variable, String> {
 pub(crate) fn read_number(rt: &mut Runtime) -> Result<Variable, String> {
     use std::io::{self, Write};
 
-    let err: Arc<String> = rt.pop().expect(TINVOTS);
+    let err: Arc<String> = rt.pop()?;
     let stdin = io::stdin();
     let mut stdout = io::stdout();
     let mut input = String::new();
@@ -1167,8 +1167,8 @@ pub(crate) fn load__source_imports(rt: &mut Runtime) -> Result<Variable, String>
 pub(crate) fn load__source_imports_tr_usetr(rt: &mut Runtime) -> Result<Variable, String> {
     use crate::load;
 
-    let usetr: bool = rt.pop().expect(TINVOTS);
-    let tr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
+    let tr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let mut new_module = Module::empty();
@@ -1264,8 +1264,8 @@ pub(crate) fn module__in_string_imports(rt: &mut Runtime) -> Result<Variable, St
 }
 
 pub(crate) fn module__in_string_imports_tr_usetr(rt: &mut Runtime) -> Result<Variable, String> {
-    let usetr: bool = rt.pop().expect(TINVOTS);
-    let tr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
+    let tr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let source = match rt.get(&source) {
@@ -1364,7 +1364,7 @@ pub(crate) fn check__in_string_imports(rt: &mut Runtime) -> Result<Variable, Str
 }
 
 pub(crate) fn check__in_string_imports_usetr(rt: &mut Runtime) -> Result<Variable, String> {
-    let usetr: bool = rt.pop().expect(TINVOTS);
+    let usetr: bool = rt.pop()?;
     let modules = rt.stack.pop().expect(TINVOTS);
     let source = rt.stack.pop().expect(TINVOTS);
     let source = match rt.get(&source) {
-- 
2.43.0


From 53575e3d871cc3df0018fa6919a2463e1905eb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:11 +0000
Subject: [PATCH 54/69] fix: reject an assignment to a non-item and an operator
 without right operand at load time

---
 src/lifetime/mod.rs  | 9 +++++++++
 src/lifetime/node.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index c2d417d..8219cff 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -39,6 +39,15 @@ pub(crate) fn check_core(
 ) -> Result<HashMap<Arc<String>, Type>, Range<String>> {
     convert_meta_data(nodes, data)?;
 
+    // Check that there is an item on the left side of assignments.
+    for n in nodes.iter().filter(|n| n.op.is_some()) {
+        let left = n.children.first().map(|&j| &nodes[j]);
+        let item = left.and_then(|left| left.children.first());
+        if item.map(|&j| nodes[j].kind) != Some(Kind::Item) {
+            return Err(left.unwrap_or(n).source.wrap("Expected item".into()));
+        }
+    }
+
     // Rewrite multiple binary operators into nested ones.
     for i in 0..nodes.len() {
         if nodes[i].binops.len() <= 1 {
diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index e475e54..8eb5f1c 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -498,6 +498,11 @@ pub(crate) fn convert_meta_data(
                     let node = &mut nodes[ind];
                     node.source = d.range();
                     node.end = i + 1;
+                    if matches!(node.kind, Kind::Add | Kind::Mul)
+                        && node.binops.len() >= node.children.len()
+                    {
+                        return Err(node.source.wrap("Expected something after operator".into()));
+                    }
                 }
                 if let Some(&parent) = parents.last() {
                     nodes[parent].children.push(ind);
-- 
2.43.0


From 52fcbbecfe093599af34f9a6b19337cab8378fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:50 +0000
Subject: [PATCH 55/69] fix: do not require a right side when `+=` or `-=` is
 followed by a bare `return`

---
 src/lifetime/typecheck.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lifetime/typecheck.rs b/src/lifetime/typecheck.rs
index 7b26174..0fc005b 100644
--- a/src/lifetime/typecheck.rs
+++ b/src/lifetime/typecheck.rs
@@ -722,10 +722,11 @@ pub(crate) fn run(
 
                 match nodes[i].op {
                     Some(AssignOp::Add) | Some(AssignOp::Sub) => {
-                        let left = nodes[i].find_child_by_kind(nodes, Kind::Left).unwrap();
-                        let right = nodes[i].find_child_by_kind(nodes, Kind::Right).unwrap();
-                        if let Some(ref left_ty) = nodes[left].ty {
-                            if let Some(ref right_ty) = nodes[right].ty {
+                        let left = nodes[i].find_child_by_kind(nodes, Kind::Left);
+                        // There is no right node when returning without a value.
+                        let right = nodes[i].find_child_by_kind(nodes, Kind::Right);
+                        if let Some(left_ty) = left.and_then(|j| nodes[j].ty.as_ref()) {
+                            if let Some(right_ty) = right.and_then(|j| nodes[j].ty.as_ref()) {
                                 if !left_ty.add_assign(right_ty) {
                                     return Err(nodes[i].source.wrap(format!(
                                         "Type mismatch (#1000):\n\
-- 
2.43.0


From ac83cb47ed6ea48d84f0b0af5337f0828cc7943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:26 +0000
Subject: [PATCH 56/69] fix: report malformed meta data as an error when
 generating JSON

---
 src/dyon_std/meta.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index bee0504..6379e08 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -211,6 +211,20 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
     use std::cmp::{max, min};
     use std::io::Write;
 
+    fn invalid(msg: &str) -> io::Error {
+        io::Error::new(io::ErrorKind::InvalidData, msg)
+    }
+
+    // Check that there is enough data to look up kind, name and value.
+    for d in data {
+        if let Variable::Array(ref arr) = *d {
+            let n = if arr.len() > 2 && (is_start_node(d) || is_end_node(d)) { 4 } else { 5 };
+            if arr.len() < n {
+                return Err(invalid("Expected meta data `[offset, length, kind, name, value]`"));
+            }
+        }
+    }
+
     let indent_offset = 0;
     let mut w: Vec<u8> = vec![];
 
@@ -221,7 +235,9 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
     let mut first = true;
     for (i, d) in data.iter().enumerate() {
         let is_end = if is_end_node(d) {
-            indent -= 1;
+            indent = indent
+                .checked_sub(1)
+                .ok_or_else(|| invalid("Expected start of node before end of node"))?;
             true
         } else {
             false
-- 
2.43.0


From bc0ea66ccee68117e33acba562b6dd2488c71502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:57 +0000
Subject: [PATCH 57/69] fix: search for suggestions with names of multi-byte
 characters

---
 src/lifetime/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 8219cff..1991c39 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -1190,9 +1190,8 @@ fn suggestions(
     function_lookup: &HashMap<Arc<String>, usize>,
     prelude: &Prelude,
 ) -> String {
-    let search_name = if let Some((mut_pos, _)) = name.chars().enumerate().find(|&(_, c)| c == '(')
-    {
-        &name[..mut_pos - 1]
+    let search_name = if let Some(mut_pos) = name.find('(') {
+        &name[..mut_pos]
     } else {
         name
     };
-- 
2.43.0


From 8523e8bec8d31ef9e15b694c3f5318384d0e5062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:58 +0000
Subject: [PATCH 58/69] fix: allow the host to call `call` and `call_ret`
 directly

---
 src/dyon_std/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index d9afcbe..943978c 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1414,9 +1414,11 @@ pub(crate) fn check__in_string_imports_usetr(rt: &mut Runtime) -> Result<Variabl
 
 pub(crate) fn _call(rt: &mut Runtime) -> Result<(), String> {
     // Use the source from calling function.
-    let source = rt.module.functions[rt.call_stack.last().unwrap().index]
-        .source
-        .clone();
+    // There is none when called directly from the host.
+    let source = rt
+        .call_stack
+        .last()
+        .map(|call| rt.module.functions[call.index].source.clone());
     let args = rt.stack.pop().expect(TINVOTS);
     let fn_name = rt.stack.pop().expect(TINVOTS);
     let call_module = rt.stack.pop().expect(TINVOTS);
@@ -1470,7 +1472,7 @@ pub(crate) fn _call(rt: &mut Runtime) -> Result<(), String> {
                     .iter()
                     .map(|arg| ast::Expression::Variable(Box::new((call_range, arg.clone()))))
                     .collect(),
-                custom_source: Some(source),
+                custom_source: source,
                 info: Box::new(ast::CallInfo {
                     alias: None,
                     name: fn_name,
@@ -1487,9 +1489,11 @@ pub(crate) fn _call(rt: &mut Runtime) -> Result<(), String> {
 
 pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
     // Use the source from calling function.
-    let source = rt.module.functions[rt.call_stack.last().unwrap().index]
-        .source
-        .clone();
+    // There is none when called directly from the host.
+    let source = rt
+        .call_stack
+        .last()
+        .map(|call| rt.module.functions[call.index].source.clone());
     let args = rt.stack.pop().expect(TINVOTS);
     let fn_name = rt.stack.pop().expect(TINVOTS);
     let call_module = rt.stack.pop().expect(TINVOTS);
@@ -1543,7 +1547,7 @@ pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
                     .iter()
                     .map(|arg| ast::Expression::Variable(Box::new((call_range, arg.clone()))))
                     .collect(),
-                custom_source: Some(source),
+                custom_source: source,
                 info: Box::new(ast::CallInfo {
                     source_range: call_range,
                     alias: None,
-- 
2.43.0


From 4c6f942119a935d854e02c6d9ab4726ffb08afe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:59 +0000
Subject: [PATCH 59/69] fix: accept names that start with `mut`

---
 assets/syntax.txt | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/assets/syntax.txt b/assets/syntax.txt
index ba9659e..5557bc3 100644
--- a/assets/syntax.txt
+++ b/assets/syntax.txt
@@ -26,7 +26,7 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
 }
 5 ty_var = ["all" ?w .s?.(, .._seps!:"ty_var") ?w "{" ?w ty ?w "}"]
 4 args = .s?.(, arg:"arg")
-5 arg = [?"mut":"mut" ?w .._seps!:"name" ?[?w ":" ?w
+5 arg = [?["mut":"mut" !.._seps! ?w] .._seps!:"name" ?[?w ":" ?w
          ?["'" ?w .._seps!:"lifetime"] ?w ?type:"type"]
          ?[?w "=>" ?w .s!.([?w "|" ?w] {
             "ok(_)":"ok(_)" "err(_)":"err(_)" "some(_)":"some(_)" lazy:"grab"})]]
@@ -39,7 +39,7 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
 9 named_call_closure = ["\\" item:"item" ?w "(" ?w
     .s?.(, [.._seps!:"word" ?w ":" ?w arg_expr:"call_arg" ?w]) ")"]
 10 currents = ["~" ?w .s!.(, current:"current")]
-11 current = [?"mut":"mut" ?w .._seps!:"name" ?[?w ":" ?w type:"type"]]
+11 current = [?["mut":"mut" !.._seps! ?w] .._seps!:"name" ?[?w ":" ?w type:"type"]]
 // Support both multi-line expressions and single line.
 12 block = ["{" ?w {.l([?w expr:"expr" ?w]) [?w expr:"expr"]} ?w "}"]
 13 expr = [{
@@ -66,7 +66,7 @@ _seps: "(){}[],.:;=<>*·+-/%^?~|&∧∨!¬∑∃∀\n\"\\"
 } try]
 // Interprets "return" as variable, does not expect loops or assignment.
 14 arg_expr = {
-    ["mut":"mut" ?w item:"item"]
+    ["mut":"mut" !.._seps! ?w item:"item"]
     swizzle:"swizzle"
     [{
         in:"in"
-- 
2.43.0


From c3bcd10e438b208db89277a9457eadf12629a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:33 +0000
Subject: [PATCH 60/69] fix: read numbers in meta data exactly

---
 src/dyon_std/meta.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index 6379e08..24e295c 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -39,6 +39,11 @@ pub fn parse_syntax_data(rules: &Syntax, file: &str, d: &str) -> Result<Vec<Vari
                 data.push(Variable::Str(val.clone()));
             }
             MetaData::F64(ref name, val) => {
+                // Read the number again, because the parser accumulates rounding errors.
+                let val = d
+                    .get(range_token.offset..range_token.offset + range_token.length)
+                    .and_then(|text| text.replace('_', "").parse().ok())
+                    .unwrap_or(val);
                 data.push(Variable::Str(n.clone()));
                 data.push(Variable::Str(name.clone()));
                 data.push(Variable::f64(val));
-- 
2.43.0


From d3dcad2bbb7d7f234d02d1f12390ca973a680741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:03 +0000
Subject: [PATCH 61/69] fix: escape control characters in JSON

---
 src/dyon_std/meta.rs |  2 +-
 src/write.rs         | 22 ++++++++++++++++++++--
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index 24e295c..f683b7f 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -212,7 +212,7 @@ pub fn json_from_meta_data(data: &[Variable]) -> Result<String, io::Error> {
         }
     }
 
-    use piston_meta::json::write_string;
+    use crate::write::write_json_string as write_string;
     use std::cmp::{max, min};
     use std::io::Write;
 
diff --git a/src/write.rs b/src/write.rs
index b0d1bf5..e2436fe 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -41,6 +41,24 @@ where
     }
 }
 
+/// Writes text as a JSON string.
+pub(crate) fn write_json_string<W>(w: &mut W, text: &str) -> Result<(), io::Error>
+where
+    W: io::Write,
+{
+    let mut buf: Vec<u8> = vec![];
+    json::write_string(&mut buf, text)?;
+    for b in buf {
+        // Control characters without a short form must be escaped too.
+        if b < 0x20 {
+            write!(w, "\\u{:04x}", b)?;
+        } else {
+            w.write_all(&[b])?;
+        }
+    }
+    Ok(())
+}
+
 /// Returns `true` if the text can be used as a key without quotes.
 fn is_plain_key(key: &str) -> bool {
     !key.is_empty() && key.chars().all(|c| c.is_alphanumeric() || c == '_')
@@ -59,7 +77,7 @@ where
     match *v {
         Variable::Str(ref t) => match escape_string {
             EscapeString::Json | EscapeString::Source => {
-                json::write_string(w, t)?;
+                write_json_string(w, t)?;
             }
             EscapeString::None => write!(w, "{}", t)?,
         },
@@ -158,7 +176,7 @@ where
                 if is_plain_key(k) {
                     write!(w, "{}: ", k)?;
                 } else {
-                    json::write_string(w, k)?;
+                    write_json_string(w, k)?;
                     write!(w, ": ")?;
                 }
                 write_variable(w, rt, v, escape_string.nested(), tabs)?;
-- 
2.43.0


From 2710d048f645d28726aae47dadcf73fc4e987de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:58 +0000
Subject: [PATCH 62/69] fix: report text left over after multi-byte characters

---
 src/dyon_std/meta.rs |  4 ++--
 src/lib.rs           | 46 +++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 47 insertions(+), 3 deletions(-)

diff --git a/src/dyon_std/meta.rs b/src/dyon_std/meta.rs
index f683b7f..510fdac 100644
--- a/src/dyon_std/meta.rs
+++ b/src/dyon_std/meta.rs
@@ -1,6 +1,6 @@
 #[cfg(feature = "file")]
 use super::io::io_error;
-use piston_meta::{parse_errstr, MetaData, Syntax};
+use piston_meta::{MetaData, Syntax};
 #[cfg(feature = "file")]
 use piston_meta::syntax_errstr;
 #[cfg(feature = "file")]
@@ -10,7 +10,7 @@ use std::io;
 use std::io::Read;
 use std::sync::Arc;
 
-use crate::Variable;
+use crate::{parse_errstr, Variable};
 
 pub fn parse_syntax_data(rules: &Syntax, file: &str, d: &str) -> Result<Vec<Variable>, String> {
     let mut tokens = vec![];
diff --git a/src/lib.rs b/src/lib.rs
index 5d84a00..86f96c7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -11,7 +11,7 @@ extern crate lazy_static;
 extern crate tree_mem_sort;
 extern crate vecmath;
 
-use piston_meta::{parse_errstr, syntax_errstr, MetaData, Syntax};
+use piston_meta::{syntax_errstr, MetaData, Syntax};
 use range::Range;
 use std::any::Any;
 use std::collections::HashMap;
@@ -582,6 +582,50 @@ lazy_static! {
     };
 }
 
+/// Parses text with rules, formatting the error as a `String`.
+///
+/// Reports an error unless the whole text is read.
+/// The end of the text is measured in bytes, like the ranges of tokens are.
+pub(crate) fn parse_errstr(
+    rules: &Syntax,
+    text: &str,
+    tokens: &mut Vec<range::Range<MetaData>>,
+) -> Result<(), String> {
+    use piston_meta::meta_rules::IndentSettings;
+    use piston_meta::tokenizer::TokenizerState;
+    use piston_meta::{ParseError, ParseErrorHandler};
+    use range::Range;
+    use read_token::ReadToken;
+
+    let rule = match rules.rules.last() {
+        None => return piston_meta::parse_errstr(rules, text, tokens),
+        Some(rule) => rule,
+    };
+    let err = match rule.parse(
+        tokens,
+        &TokenizerState(tokens.len()),
+        &ReadToken::new(text, 0),
+        &rules.rules,
+        &mut IndentSettings::default(),
+    ) {
+        Ok((range, state, opt_err)) => {
+            let end = range.next_offset();
+            if end >= text.len() {
+                tokens.truncate(state.0);
+                return Ok(());
+            }
+            match opt_err {
+                Some(err) if err.next_offset() > end => err,
+                _ => Range::empty(end).wrap(ParseError::ExpectedEnd),
+            }
+        }
+        Err(err) => err,
+    };
+    let mut w: Vec<u8> = vec![];
+    ParseErrorHandler::new(text).write(&mut w, err).unwrap();
+    Err(String::from_utf8(w).unwrap())
+}
+
 /// Generates graph of nodes after lifetime and type check.
 ///
 /// Ignores errors generated during lifetime or type check.
-- 
2.43.0


From 923a5d20099ec0b7625ea19eb8ed37d25f581d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:03 +0000
Subject: [PATCH 63/69] fix: lifetime of calls of imported functions and calls
 with swizzles

---
 src/lifetime/node.rs | 50 +++++++++++++++++++++-----------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/src/lifetime/node.rs b/src/lifetime/node.rs
index 8eb5f1c..feccdf7 100644
--- a/src/lifetime/node.rs
+++ b/src/lifetime/node.rs
@@ -198,6 +198,17 @@ impl Node {
         }
     }
 
+    /// Returns `true` if argument of intrinsic or imported function outlives the return value.
+    fn outlives_return(&self, mut arg: usize) -> bool {
+        loop {
+            match self.lts[arg] {
+                Lt::Default => return false,
+                Lt::Return => return true,
+                Lt::Arg(x) => arg = x,
+            }
+        }
+    }
+
     /// Returns the lifetime of a node.
     pub fn lifetime(
         &self,
@@ -221,26 +232,7 @@ impl Node {
         } else {
             // Intrinsic functions copies argument constraints to the call.
             if self.kind == Kind::Call && !self.lts.is_empty() {
-                let mut returns_static = true;
-                'args: for lt in self.lts.iter() {
-                    let mut lt = *lt;
-                    loop {
-                        match lt {
-                            Lt::Default => {
-                                continue 'args;
-                            }
-                            Lt::Return => {
-                                returns_static = false;
-                                break 'args;
-                            }
-                            Lt::Arg(x) => {
-                                lt = self.lts[x];
-                                continue;
-                            }
-                        }
-                    }
-                }
-
+                let returns_static = !(0..self.lts.len()).any(|i| self.outlives_return(i));
                 if returns_static {
                     return Err(LifetimeError::None);
                 }
@@ -350,23 +342,29 @@ impl Node {
                     // If there is no return lifetime on the declared argument,
                     // there is no need to check it, because the computed value
                     // does not depend on the lifetime of that argument.
+                    let ind = call_arg_ind;
+                    // A swizzle covers one argument per component.
+                    call_arg_ind += match nodes[c].find_child_by_kind(nodes, Kind::Swizzle) {
+                        Some(sw) => nodes[sw].children.iter().filter(|&&i| {
+                            matches!(nodes[i].kind, Kind::Sw0 | Kind::Sw1 | Kind::Sw2 | Kind::Sw3)
+                        }).count(),
+                        None => 1,
+                    };
                     if let Some(declaration) = self.declaration {
                         if let Some(&arg) = nodes[declaration]
                             .children
                             .iter()
                             .filter(|&&i| nodes[i].kind == Kind::Arg)
-                            .nth(call_arg_ind)
+                            .nth(ind)
                         {
                             match arg_lifetime(arg, &nodes[arg], nodes, arg_names) {
                                 Ok(Lifetime::Return(_)) => {}
-                                _ => {
-                                    call_arg_ind += 1;
-                                    continue;
-                                }
+                                _ => continue,
                             }
                         }
+                    } else if ind < self.lts.len() && !self.outlives_return(ind) {
+                        continue;
                     }
-                    call_arg_ind += 1;
                 }
                 x => panic!(
                     "Unimplemented `{:?}`. \
-- 
2.43.0


From db99227d9c2ec7222b86fc89f5ea1a94f4c89d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:07 +0000
Subject: [PATCH 64/69] fix: go with a swizzle and an argument that has a
 lifetime

---
 src/lifetime/mod.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/lifetime/mod.rs b/src/lifetime/mod.rs
index 1991c39..ed8c9eb 100644
--- a/src/lifetime/mod.rs
+++ b/src/lifetime/mod.rs
@@ -949,17 +949,25 @@ pub(crate) fn check_core(
         if call.parent.is_none() {
             continue;
         }
+        // A swizzle covers several arguments, so there might be fewer call arguments.
+        let go_arg_source = |i: usize| {
+            call.children
+                .iter()
+                .filter(|&&n| nodes[n].kind == Kind::CallArg)
+                .nth(i)
+                .map_or(call.source, |&n| nodes[n].source)
+        };
         if let Some(declaration) = call.declaration {
             let function = &nodes[declaration];
             for (i, &a) in function
                 .children
                 .iter()
+                .filter(|&&i| nodes[i].kind == Kind::Arg)
                 .enumerate()
-                .filter(|&(_, &i)| nodes[i].kind == Kind::Arg)
             {
                 let arg = &nodes[a];
                 if arg.lifetime.is_some() {
-                    return Err(nodes[call.children[i]].source.wrap(
+                    return Err(go_arg_source(i).wrap(
                         "Can not use `go` because this argument has a lifetime constraint"
                             .to_string(),
                     ));
@@ -967,15 +975,11 @@ pub(crate) fn check_core(
             }
         } else {
             // Check that call to intrinsic satisfy the declared constraints.
-            for ((i, &lt), _) in call.lts.iter().enumerate().zip(
-                call.children
-                    .iter()
-                    .filter(|&&n| nodes[n].kind == Kind::CallArg),
-            ) {
+            for (i, &lt) in call.lts.iter().enumerate() {
                 match lt {
                     Lt::Default => {}
                     _ => {
-                        return Err(nodes[call.children[i]].source.wrap(
+                        return Err(go_arg_source(i).wrap(
                             "Can not use `go` because this argument has a lifetime constraint"
                                 .to_string(),
                         ));
-- 
2.43.0


From fd599a9d6795e1172a1805efe2c588d80d021d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:26 +0000
Subject: [PATCH 65/69] fix: ad-hoc names in the return type of a quantified
 signature

---
 src/ty.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ty.rs b/src/ty.rs
index c82956f..b2c8b53 100644
--- a/src/ty.rs
+++ b/src/ty.rs
@@ -269,9 +269,11 @@ impl Type {
     /// Inserts a none ad-hoc variable.
     pub fn insert_none_var(&mut self, name: &Arc<String>) {
         match *self {
-            Type::AdHoc(_, ref mut inner_ty) => {
+            Type::AdHoc(ref n, ref mut inner_ty) => {
                 inner_ty.insert_none_var(name);
-                *self = (**inner_ty).clone();
+                if n == name {
+                    *self = (**inner_ty).clone();
+                }
             }
             _ => {}
         }
-- 
2.43.0


From 63a7b1d105dc51134cdf735e51d09cc4cee82ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:11 +0000
Subject: [PATCH 66/69] fix: index of a nested loop hides the outer variable
 when inferring a range

---
 src/ast/infer_len.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ast/infer_len.rs b/src/ast/infer_len.rs
index 6c4ff41..65ab5cf 100644
--- a/src/ast/infer_len.rs
+++ b/src/ast/infer_len.rs
@@ -357,6 +357,7 @@ fn infer_call_closure(
 }
 
 fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> Option<Item> {
+    let st = decls.len();
     // Check for declaration of same name.
     if &**for_n_expr.name == name {
         return None;
@@ -380,7 +381,6 @@ fn infer_for_n(for_n_expr: &ForN, name: &str, decls: &mut Vec<Arc<String>>) -> O
         }
         None
     };
-    let st = decls.len();
     let res = { f(decls) };
     decls.truncate(st);
     res
-- 
2.43.0


From 6eb5f9dc8e5f6d3a8c01d59c5d416fe0260f1792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:18 +0000
Subject: [PATCH 67/69] fix: text of a link loop over several indices

---
 src/write.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/write.rs b/src/write.rs
index e2436fe..64b4080 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -438,7 +438,14 @@ fn write_expr<W: io::Write>(
         }
         E::LinkFor(ref for_n) => {
             write_loop(w, &for_n.label, "link")?;
+            let mut for_n = for_n;
             write_for_n_head(w, rt, for_n, tabs)?;
+            // A packed loop shares its link, which a nested loop does not.
+            while let Some(E::LinkFor(inner)) = for_n.block.expressions.first() {
+                write!(w, ", ")?;
+                for_n = inner;
+                write_for_n_head(w, rt, for_n, tabs)?;
+            }
             write_link_block(w, rt, &for_n.block, tabs)?;
         }
         #[cfg(all(not(target_family = "wasm"), feature = "threading"))]
-- 
2.43.0


From d301cd6283435e2b7de8e98b8cef1e2609041801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:10 +0000
Subject: [PATCH 68/69] fix: references in the result of a dynamic call

---
 src/dyon_std/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dyon_std/mod.rs b/src/dyon_std/mod.rs
index 943978c..9cf33f7 100644
--- a/src/dyon_std/mod.rs
+++ b/src/dyon_std/mod.rs
@@ -1556,7 +1556,9 @@ pub(crate) fn call_ret(rt: &mut Runtime) -> Result<Variable, String> {
             };
 
             if let Some(v) = rt.call(&call, m)?.0 {
-                v
+                // The lifetime of the result is not checked where the call is made,
+                // so it must not refer to any variable.
+                v.deep_clone(&rt.stack)
             } else {
                 return Err(format!("Expected some return value `{}`", fn_name));
             }
-- 
2.43.0


From 29a5b26a54f1701e7fedcee2dfbeffb21a208c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:34 +0000
Subject: [PATCH 69/69] fix: references in the result of a call from the host

---
 src/runtime/mod.rs | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index 3dac00b..dd577be 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -1836,11 +1836,29 @@ impl Runtime {
         }
 
         check_arg_len(module, &name, args.len())?;
+        // The returned value may refer to the arguments,
+        // so they must be kept until it is cloned.
+        let refs = match fn_index {
+            FnIndex::Loaded(f_index) => module.functions[f_index as usize]
+                .args
+                .iter()
+                .any(|arg| arg.lifetime.is_some()),
+            _ => false,
+        };
+        let st = self.stack.len();
         let call = ast::Call {
             f_index: fn_index,
             args: args
                 .iter()
-                .map(|arg| ast::Expression::Variable(Box::new((Range::empty(0), arg.clone()))))
+                .map(|arg| match *arg {
+                    Variable::Ref(_) => arg.clone(),
+                    _ if refs => {
+                        self.stack.push(arg.clone());
+                        Variable::Ref(self.stack.len() - 1)
+                    }
+                    _ => arg.clone(),
+                })
+                .map(|arg| ast::Expression::Variable(Box::new((Range::empty(0), arg))))
                 .collect(),
             custom_source: None,
             info: Box::new(ast::CallInfo {
@@ -1849,7 +1867,13 @@ impl Runtime {
                 source_range: Range::empty(0),
             }),
         };
-        match self.call(&call, module) {
+        let res = self.call(&call, module);
+        let res = match res {
+            Ok((Some(val), flow)) if refs => Ok((Some(val.deep_clone(&self.stack)), flow)),
+            res => res,
+        };
+        self.stack.truncate(st);
+        match res {
             Ok((Some(val), Flow::Continue)) => Ok(val),
             Err(err) => Err(err),
             _ => Err(module.error(
-- 
2.43.0

