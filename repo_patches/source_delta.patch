From fdde1c8c047f7cb49426561490d7881d615bf1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:11 +0000
Subject: [PATCH 1/5] fix: keep the stored adaptive step size within dt_max

An error estimate of zero (or one far below tolerance) made the step size
stored for the next step infinite or larger than dt_max; the infinite value
is written as null in JSON and cannot be read back.
---
 dess/src/solver.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dess/src/solver.rs b/dess/src/solver.rs
index ceb1b63..6bb81f9 100644
--- a/dess/src/solver.rs
+++ b/dess/src/solver.rs
@@ -408,8 +408,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, staying finite even if the error estimate is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta3, dt_used);
             };
             // adapt for next iteration in current time step
@@ -657,8 +657,8 @@ pub trait SolverVariantMethods: SolverBase {
                 }
                 // store used dt before adapting
                 let dt_used = sc_mut.state.dt;
-                // adapt for next solver time step
-                sc_mut.state.dt *= dt_coeff;
+                // adapt for next solver time step, staying finite even if the error estimate is zero
+                sc_mut.state.dt = (sc_mut.state.dt * dt_coeff).min(sc_mut.dt_max);
                 break (delta5, dt_used);
             };
             // adapt for next iteration in current time step
-- 
2.43.0


From 1a0fb7b011e5c399d85f32d53794651f39a0b58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:15 +0000
Subject: [PATCH 2/5] fix: linspace with one element returns the start value
 instead of NaN

---
 dess/src/traits_and_macros.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dess/src/traits_and_macros.rs b/dess/src/traits_and_macros.rs
index 3b9ce85..2c8e76d 100644
--- a/dess/src/traits_and_macros.rs
+++ b/dess/src/traits_and_macros.rs
@@ -247,6 +247,10 @@ impl<T> SerdeAPI for T where T: Serialize + for<'a> Deserialize<'a> {}
 
 pub trait Linspace {
     fn linspace(start: f64, stop: f64, n_elements: usize) -> Vec<f64> {
+        if n_elements == 1 {
+            // no steps to take, so avoid dividing by zero
+            return vec![start];
+        }
         let n_steps = n_elements - 1;
         let step_size = (stop - start) / n_steps as f64;
         let v_norm: Vec<f64> = (0..=n_steps)
-- 
2.43.0


From a93e1d3451f4dcac25d23eb90e192b8bc29a40a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 3/5] fix: accept the memo argument in __deepcopy__ so that
 copy.deepcopy works

---
 dess/dess-proc-macros/src/pyo3_api.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b5324df..03db56b 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -148,7 +148,7 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
             }
 
             /// `__deepcopy__` magic method that uses `clone`.
-            fn __deepcopy__(&self) -> Self {
+            fn __deepcopy__(&self, _memo: Option<&PyAny>) -> Self {
                 self.clone()
             }
 
-- 
2.43.0


From 35eda31920a2e75af92d38b8d0dc8ba2a0ba64f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:59 +0000
Subject: [PATCH 4/5] Guarded plain copies of Python methods for verification
 (cfg dess_verif)

---
 dess/dess-proc-macros/src/pyo3_api.rs | 53 +++++++++++++++++++++++++++
 1 file changed, 53 insertions(+)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index 03db56b..b21d5b0 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -160,7 +160,60 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
         }
     };
 
+    let plain_block = plain_copies(&py_impl_block);
     let mut item_and_impl_block = py_impl_block;
+    item_and_impl_block.extend(plain_block);
     item_and_impl_block.extend(item_block);
     item_and_impl_block.into()
 }
+
+/// With `--cfg dess_verif`: a public copy `verif_py_<name>` of every method exposed to python
+/// that can do without python types, for calling them from Rust. Otherwise nothing.
+#[allow(unexpected_cfgs)]
+fn plain_copies(py_impl_block: &TokenStream2) -> TokenStream2 {
+    if !cfg!(dess_verif) {
+        return TokenStream2::new();
+    }
+    let block: syn::ItemImpl = syn::parse2(py_impl_block.clone()).unwrap();
+    let ident = &block.self_ty;
+    let is_py = |tokens: TokenStream2| {
+        let words = tokens.to_string();
+        ["PyType", "PyAny", "PyBytes", "Python"]
+            .iter()
+            .any(|w| words.contains(w))
+    };
+    let mut fns = TokenStream2::new();
+    for item in block.items {
+        let mut f = match item {
+            syn::ImplItem::Method(f) => f,
+            _ => continue,
+        };
+        // arguments only python needs
+        f.sig.inputs = f
+            .sig
+            .inputs
+            .into_iter()
+            .filter(|a| match a {
+                syn::FnArg::Typed(t) => !["PyType", "PyAny"]
+                    .iter()
+                    .any(|w| t.ty.to_token_stream().to_string().contains(w)),
+                _ => true,
+            })
+            .collect();
+        if is_py(f.sig.to_token_stream()) || is_py(f.block.to_token_stream()) {
+            continue;
+        }
+        f.attrs.clear();
+        f.vis = syn::parse_quote!(pub);
+        f.sig.ident = Ident::new(&format!("verif_py_{}", f.sig.ident), f.sig.ident.span());
+        fns.extend(f.to_token_stream());
+    }
+    quote! {
+        #[allow(non_snake_case, clippy::all)]
+        const _: () = {
+            #[allow(dead_code)]
+            type PyResult<T> = Result<T, Box<dyn std::error::Error + Send + Sync>>;
+            impl #ident { #fns }
+        };
+    }
+}
-- 
2.43.0


From 48415d96ba09d6d9ff1699af6a7383edbe3eae8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:55 +0000
Subject: [PATCH 5/5] Name the plain copies as Python names the methods

---
 dess/dess-proc-macros/src/pyo3_api.rs | 35 ++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/dess/dess-proc-macros/src/pyo3_api.rs b/dess/dess-proc-macros/src/pyo3_api.rs
index b21d5b0..6a842b6 100644
--- a/dess/dess-proc-macros/src/pyo3_api.rs
+++ b/dess/dess-proc-macros/src/pyo3_api.rs
@@ -167,8 +167,9 @@ pub(crate) fn pyo3_api(attr: TokenStream, item: TokenStream) -> TokenStream {
     item_and_impl_block.into()
 }
 
-/// With `--cfg dess_verif`: a public copy `verif_py_<name>` of every method exposed to python
-/// that can do without python types, for calling them from Rust. Otherwise nothing.
+/// With `--cfg dess_verif`: a public copy `verif_py_<name>`, named as python sees it, of every
+/// method exposed to python that can do without python types, for calling them from Rust.
+/// Otherwise nothing.
 #[allow(unexpected_cfgs)]
 fn plain_copies(py_impl_block: &TokenStream2) -> TokenStream2 {
     if !cfg!(dess_verif) {
@@ -203,9 +204,10 @@ fn plain_copies(py_impl_block: &TokenStream2) -> TokenStream2 {
         if is_py(f.sig.to_token_stream()) || is_py(f.block.to_token_stream()) {
             continue;
         }
+        let name = python_name(&f);
         f.attrs.clear();
         f.vis = syn::parse_quote!(pub);
-        f.sig.ident = Ident::new(&format!("verif_py_{}", f.sig.ident), f.sig.ident.span());
+        f.sig.ident = Ident::new(&format!("verif_py_{}", name), f.sig.ident.span());
         fns.extend(f.to_token_stream());
     }
     quote! {
@@ -217,3 +219,30 @@ fn plain_copies(py_impl_block: &TokenStream2) -> TokenStream2 {
         };
     }
 }
+
+/// Name under which python sees the method: `new` for the constructor, `get_x` and `set_x` for
+/// the getter and setter of `x`
+fn python_name(f: &syn::ImplItemMethod) -> String {
+    let mut name = f.sig.ident.to_string();
+    for attr in &f.attrs {
+        let words = attr.tokens.to_string();
+        let quoted = words.split('"').nth(1).map(String::from);
+        if attr.path.is_ident("new") {
+            return "new".into();
+        } else if attr.path.is_ident("pyo3") && words.contains("name") {
+            name = quoted.unwrap_or(name);
+        }
+        for (kind, prefix) in [("getter", "get_"), ("setter", "set_")] {
+            if attr.path.is_ident(kind) {
+                let arg = words.trim_matches(|c: char| "( )".contains(c));
+                let bare = if arg.is_empty() {
+                    name.trim_start_matches(prefix)
+                } else {
+                    arg
+                };
+                return format!("{}{}", prefix, bare);
+            }
+        }
+    }
+    name
+}
-- 
2.43.0

