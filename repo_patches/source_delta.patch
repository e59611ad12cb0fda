From 8ede24febf0407109491f9044a3f033804d7205c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:00 +0000
Subject: [PATCH 01/56] fix: restore Python output streams after failed and
 overlapping parses, and mute them with a real stream

The muted stream was an uncalled lambda, so any write() raised AttributeError, which made
printing submodules disappear. Streams were not restored when parsing failed, and stayed muted
forever when two threads parsed concurrently.
---
 pyo3_bindgen_engine/src/utils/io.rs | 93 +++++++++++++++++++++--------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/pyo3_bindgen_engine/src/utils/io.rs b/pyo3_bindgen_engine/src/utils/io.rs
index a00b1b4..601d6e3 100644
--- a/pyo3_bindgen_engine/src/utils/io.rs
+++ b/pyo3_bindgen_engine/src/utils/io.rs
@@ -1,5 +1,6 @@
 use crate::Result;
-use pyo3::prelude::*;
+use pyo3::{prelude::*, sync::GILProtected};
+use std::cell::RefCell;
 
 pub fn with_suppressed_python_output<T>(
     py: pyo3::Python,
@@ -7,38 +8,80 @@ pub fn with_suppressed_python_output<T>(
     suppress_stderr: bool,
     f: impl FnOnce() -> Result<T>,
 ) -> Result<T> {
-    // If both stdout and stderr are suppressed, there's no need to do anything
+    // If neither stdout nor stderr is suppressed, there's no need to do anything
     if !suppress_stdout && !suppress_stderr {
         return f();
     }
 
-    let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
-    let stdout_ident = pyo3::intern!(py, "stdout");
-    let stderr_ident = pyo3::intern!(py, "stderr");
+    // Suppress the output (the original streams are restored once the guards are dropped)
+    let suppressed_output = py.eval_bound(
+        r"(lambda io: io.TextIOWrapper(type('SuppressedOutput', (io.RawIOBase,), {'writable': lambda self: True, 'write': lambda self, x: len(x)})(), encoding='utf-8', errors='replace', write_through=True))(__import__('io'))",
+        None,
+        None,
+    )?;
+    let _stdout_guard = suppress_stdout
+        .then(|| SuppressionGuard::new(py, &STDOUT, &suppressed_output))
+        .transpose()?;
+    let _stderr_guard = suppress_stderr
+        .then(|| SuppressionGuard::new(py, &STDERR, &suppressed_output))
+        .transpose()?;
 
-    // Record the original stdout and stderr
-    let original_stdout = sys.getattr(stdout_ident)?;
-    let original_stderr = sys.getattr(stderr_ident)?;
+    // Run the function
+    f()
+}
 
-    // Suppress the output
-    let supressed_output = py.eval_bound(r"lambda: type('SupressedOutput', (), {'write': lambda self, x: None, 'flush': lambda self: None})", None, None)?;
-    if suppress_stdout {
-        sys.setattr(stdout_ident, &supressed_output)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, &supressed_output)?;
-    }
+/// Standard stream of the Python interpreter. It is shared by all threads, so the calls that currently
+/// suppress it are counted, and the original stream is kept until the last of them is done.
+struct Stream {
+    name: &'static str,
+    state: GILProtected<RefCell<(usize, Option<PyObject>)>>,
+}
 
-    // Run the function
-    let ret = f()?;
+static STDOUT: Stream = Stream {
+    name: "stdout",
+    state: GILProtected::new(RefCell::new((0, None))),
+};
+static STDERR: Stream = Stream {
+    name: "stderr",
+    state: GILProtected::new(RefCell::new((0, None))),
+};
 
-    // Restore the original stdout and stderr
-    if suppress_stdout {
-        sys.setattr(stdout_ident, original_stdout)?;
-    }
-    if suppress_stderr {
-        sys.setattr(stderr_ident, original_stderr)?;
+struct SuppressionGuard<'py> {
+    py: pyo3::Python<'py>,
+    stream: &'static Stream,
+}
+
+impl<'py> SuppressionGuard<'py> {
+    fn new(
+        py: pyo3::Python<'py>,
+        stream: &'static Stream,
+        suppressed_output: &pyo3::Bound<'py, pyo3::PyAny>,
+    ) -> Result<Self> {
+        let sys = py.import_bound(pyo3::intern!(py, "sys"))?;
+        let is_suppressed = stream.state.get(py).borrow().0 > 0;
+        if !is_suppressed {
+            let original_output = sys.getattr(stream.name)?;
+            sys.setattr(stream.name, suppressed_output)?;
+            stream.state.get(py).borrow_mut().1 = Some(original_output.unbind());
+        }
+        stream.state.get(py).borrow_mut().0 += 1;
+        Ok(Self { py, stream })
     }
+}
 
-    Ok(ret)
+impl Drop for SuppressionGuard<'_> {
+    fn drop(&mut self) {
+        let original_output = {
+            let mut state = self.stream.state.get(self.py).borrow_mut();
+            state.0 -= 1;
+            (state.0 == 0).then(|| state.1.take()).flatten()
+        };
+        if let Some(original_output) = original_output {
+            // Note: Setting an attribute of the `sys` module cannot fail
+            let _ = self
+                .py
+                .import_bound(pyo3::intern!(self.py, "sys"))
+                .and_then(|sys| sys.setattr(self.stream.name, original_output));
+        }
+    }
 }
-- 
2.43.0


From 44df375a11ea89219f645dcca6e465974c521c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 02/56] fix: mute Python output also while the requested module
 is being imported

Importing a module that prints polluted the bindings printed to STDOUT by the CLI.
---
 pyo3_bindgen_engine/src/codegen.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 32bf8e0..712e9b9 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -78,7 +78,12 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = py.import_bound(module_name)?;
+            let module = crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || Ok(py.import_bound(module_name)?),
+            )?;
             self.module(&module)
         })
     }
@@ -99,11 +104,18 @@ impl Codegen {
         #[cfg(not(PyPy))]
         pyo3::prepare_freethreaded_python();
         pyo3::Python::with_gil(|py| {
-            let module = pyo3::types::PyModule::from_code_bound(
+            let module = crate::io_utils::with_suppressed_python_output(
                 py,
-                source_code,
-                &format!("{module_name}/__init__.py"),
-                module_name,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || {
+                    Ok(pyo3::types::PyModule::from_code_bound(
+                        py,
+                        source_code,
+                        &format!("{module_name}/__init__.py"),
+                        module_name,
+                    )?)
+                },
             )?;
             self.module(&module)
         })
-- 
2.43.0


From 611f8a48d47c9f2f66153f52a5f85a87f495e76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:01 +0000
Subject: [PATCH 03/56] fix: import the full path of nested modules in the
 generated bindings

The longest importable prefix was searched without the full path, so bindings of submodules were
looked up as attributes of their parent, which fails unless the submodule was already imported.
---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 789a005..71bf8ce 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -197,7 +197,7 @@ impl Path {
     pub fn import_quote(&self, py: pyo3::Python) -> proc_macro2::TokenStream {
         // Find the last package and import it via py.import, then get the rest of the path via getattr()
         let mut package_path = self.root().unwrap_or_else(|| unreachable!());
-        for i in (1..self.len()).rev() {
+        for i in (1..=self.len()).rev() {
             let module_name = Self::from(&self[..i]);
             if py.import_bound(module_name.to_py().as_str()).is_ok() {
                 package_path = module_name;
-- 
2.43.0


From 5bbcd627f4fc67ef2cab6c9535b6822563ad3ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:40 +0000
Subject: [PATCH 04/56] fix: look up instance methods without parameters in
 their class

They are turned into static methods, whose class path was set to the path of the method itself.
---
 pyo3_bindgen_engine/src/syntax/function.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index bf046c3..7fd0f91 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -231,8 +231,8 @@ impl Function {
             // Hack: Reassign InstanceMethod with no parameter to StaticMethod
             // This should not be necessary as every InstanceMethod should have at least one parameter (self), but it does for certain complex Python modules
             if let FunctionType::Method {
+                class_path,
                 typ: MethodType::InstanceMethod,
-                ..
             } = &typ
             {
                 if parameters.is_empty() {
@@ -240,7 +240,7 @@ impl Function {
                             "WARN: Method '{name}' is marked as an instance method, but has no parameters. Changed to static method.",
                         );
                     typ = FunctionType::Method {
-                        class_path: name.clone(),
+                        class_path: class_path.clone(),
                         typ: MethodType::StaticMethod,
                     };
                 }
-- 
2.43.0


From c0b13dc704122118fa0a9cb6878ca647544d4bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:41 +0000
Subject: [PATCH 05/56] fix: do not panic on constructors and call operators
 without parameters

---
 pyo3_bindgen_engine/src/syntax/function.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 7fd0f91..9958c70 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -252,7 +252,10 @@ impl Function {
                 ..
             } = typ
             {
-                parameters.remove(0);
+                // Note: There is nothing to skip if a decorator (e.g. `@staticmethod`) already removed it
+                if !parameters.is_empty() {
+                    parameters.remove(0);
+                }
             };
 
             // If any of the parameters is still called 'self', do not handle the parameters
-- 
2.43.0


From 95d4ede4ac9e237de5fba9b5d0ccc5e1cb641ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 06/56] fix: keep parameters named '_' because dropping them
 shifts the remaining arguments

---
 pyo3_bindgen_engine/src/syntax/function.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 9958c70..539048a 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -102,8 +102,13 @@ impl Function {
                 })
                 .collect::<Result<Vec<_>>>()?;
 
-            // Retain only used parameters (discard unused `_` parameters)
-            parameters.retain(|param| param.name.as_rs() != "r#_");
+            // Retain only used parameters (discard unused variadic `_` parameters)
+            // Note: All other parameters are needed to call the function, no matter their name
+            parameters.retain(|param| {
+                param.name.as_rs() != "r#_"
+                    || ![ParameterKind::VarPositional, ParameterKind::VarKeyword]
+                        .contains(&param.kind)
+            });
 
             // Extract the return annotation of the function
             let return_annotation = {
-- 
2.43.0


From ec573bc54e352f702eea7da472d530ab0091617b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:44 +0000
Subject: [PATCH 07/56] fix: do not add keyword-only arguments to the
 dictionary of the caller

---
 pyo3_bindgen_engine/src/syntax/function.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 539048a..62e2cc3 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -590,9 +590,9 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = #var_keyword_args_ident;
+                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
                         #(
-                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                         )*
                         __internal__kwargs
                     }
@@ -607,7 +607,7 @@ impl Function {
                 {
                     let __internal__kwargs = ::pyo3::types::PyDict::new_bound(py);
                     #(
-                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
+                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
                     )*
                     __internal__kwargs
                 }
-- 
2.43.0


From 9c8a90976133e2283e2516aceb48d60918394197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:45 +0000
Subject: [PATCH 08/56] fix: type property setters by the annotation of the
 setter

---
 pyo3_bindgen_engine/src/syntax/property.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 3f89eff..363d04d 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -315,11 +315,11 @@ impl Property {
             }
         };
         let param_name = self.name.name().as_py();
-        let param_preprocessing = self.annotation.preprocess_borrowed(
+        let param_preprocessing = self.setter_annotation.preprocess_borrowed(
             &syn::Ident::new("p_value", proc_macro2::Span::call_site()),
             local_types,
         );
-        let param_type = self.annotation.clone().into_rs_borrowed(local_types);
+        let param_type = self.setter_annotation.clone().into_rs_borrowed(local_types);
         match &self.owner {
             PropertyOwner::Module => {
                 let import = pyo3::Python::with_gil(|py| {
-- 
2.43.0


From 283adaa9351855acec9809b32fbcd2a8648c400d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:46 +0000
Subject: [PATCH 09/56] fix: do not panic on property setters with fewer than
 two parameters

---
 pyo3_bindgen_engine/src/syntax/property.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 363d04d..8a5663f 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -90,19 +90,22 @@ impl Property {
 
                         // Extract the annotation from the parameter of the function (if available)
                         if let Ok(function_signature) = signature.call1((&setter,)) {
-                            setter_annotation = {
-                                let param = function_signature
-                                    .getattr(pyo3::intern!(py, "parameters"))?
-                                    .call_method0(pyo3::intern!(py, "values"))?
-                                    .iter()?
-                                    .nth(1)
-                                    .unwrap()?;
+                            // Note: The value has no parameter of its own if the setter is variadic
+                            setter_annotation = if let Some(param) = function_signature
+                                .getattr(pyo3::intern!(py, "parameters"))?
+                                .call_method0(pyo3::intern!(py, "values"))?
+                                .iter()?
+                                .nth(1)
+                            {
+                                let param = param?;
                                 let annotation = param.getattr(pyo3::intern!(py, "annotation"))?;
                                 if annotation.is(&param.getattr(pyo3::intern!(py, "empty"))?) {
                                     Type::Unknown
                                 } else {
                                     annotation.try_into()?
                                 }
+                            } else {
+                                Type::Unknown
                             };
                         } else {
                             setter_annotation = Type::Unknown;
-- 
2.43.0


From d2961e6c974c12c6af53593167299ab604803c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 10/56] fix: merge all elements of nested annotations and
 accept unbalanced brackets

Elements after the first repaired one were left in pieces, and more closing than opening brackets
caused a panic due to arithmetic overflow.
---
 pyo3_bindgen_engine/src/typing/from_py.rs | 38 ++++++-----------------
 1 file changed, 10 insertions(+), 28 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 50d259b..30c04c3 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -485,35 +485,17 @@ fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
     //     merged_sequence.matches('[').count() == merged_sequence.matches(']').count()
     // });
 
-    let mut traversed_all_elements = false;
-    let mut start_index = 0;
-    'outer: while !traversed_all_elements {
-        traversed_all_elements = true;
-        'inner: for i in start_index..(sequence.len() - 1) {
-            let mut n_scopes = sequence[i].matches('[').count() - sequence[i].matches(']').count();
-            if n_scopes == 0 {
-                continue;
-            }
-            for j in (i + 1)..sequence.len() {
-                n_scopes += sequence[j].matches('[').count();
-                n_scopes -= sequence[j].matches(']').count();
-                if n_scopes == 0 {
-                    let mut new_element = sequence[i].clone();
-                    for relevant_element in sequence.iter().take(j + 1).skip(i + 1) {
-                        new_element = format!("{new_element}{separator}{relevant_element}");
-                    }
-                    sequence[i] = new_element;
-                    sequence.drain((i + 1)..=j);
-                    if j < sequence.len() - 1 {
-                        traversed_all_elements = false;
-                        start_index = i;
-                        break 'inner;
-                    } else {
-                        break 'outer;
-                    }
-                }
-            }
+    let mut i = 0;
+    while i < sequence.len() {
+        // Merge the element with the following ones until all scopes opened by it are closed
+        // Note: Annotations can be arbitrary strings, so the brackets are not necessarily balanced
+        while sequence[i].matches('[').count() > sequence[i].matches(']').count()
+            && i + 1 < sequence.len()
+        {
+            let relevant_element = sequence.remove(i + 1);
+            sequence[i] = format!("{}{separator}{relevant_element}", sequence[i]);
         }
+        i += 1;
     }
 }
 
-- 
2.43.0


From a3fbf097384bc2c14d02db588b23e322d2d7590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:36 +0000
Subject: [PATCH 11/56] fix: parse '|' inside of the brackets of an annotation
 as part of the inner type

For example, 'dict[str, int | None]' was parsed as an optional 'dict[str, int'.
---
 pyo3_bindgen_engine/src/typing/from_py.rs | 45 +++++++++++------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 30c04c3..2ee3fee 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -224,29 +224,21 @@ impl std::str::FromStr for Type {
             "str" => Self::PyString,
 
             // Enums
-            optional
-                if optional.matches('|').count() == 1 && optional.matches("None").count() == 1 =>
-            {
-                let inner_type = Self::from_str(
-                    optional
-                        .split('|')
-                        .map(str::trim)
-                        .find(|x| *x != "None")
-                        .unwrap_or_else(|| unreachable!()),
-                )?;
-                Self::Optional(Box::new(inner_type))
-            }
-            r#union if r#union.contains('|') => {
-                let mut inner_types = r#union
-                    .split('|')
-                    .map(|x| x.trim().to_owned())
-                    .collect_vec();
-                repair_complex_sequence(&mut inner_types, ',');
-                let inner_types = inner_types
-                    .iter()
-                    .map(|x| Self::from_str(x))
-                    .collect::<Result<_>>()?;
-                Self::Union(inner_types)
+            r#union if split_union(r#union).len() > 1 => {
+                let inner_types = split_union(r#union);
+                match inner_types.as_slice() {
+                    [inner_type, none] | [none, inner_type]
+                        if none == "None" && inner_type != "None" =>
+                    {
+                        Self::Optional(Box::new(Self::from_str(inner_type)?))
+                    }
+                    _ => Self::Union(
+                        inner_types
+                            .iter()
+                            .map(|x| Self::from_str(x))
+                            .collect::<Result<_>>()?,
+                    ),
+                }
             }
             "Union" => Self::Union(vec![Self::Unknown]),
             "" | "None" | "NoneType" => Self::PyNone,
@@ -476,6 +468,13 @@ impl std::str::FromStr for Type {
     }
 }
 
+/// Splits the members of a union that are not enclosed in the brackets of another type.
+fn split_union(value: &str) -> Vec<String> {
+    let mut inner_types = value.split('|').map(|x| x.trim().to_owned()).collect_vec();
+    repair_complex_sequence(&mut inner_types, '|');
+    inner_types
+}
+
 // TODO: Refactor `repair_complex_sequence()` into something more sensible
 /// Repairs complex wrapped sequences.
 fn repair_complex_sequence(sequence: &mut Vec<String>, separator: char) {
-- 
2.43.0


From 57f07ebb0b455b9108ba4dfe8181fb4f5cd5cddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:37 +0000
Subject: [PATCH 12/56] fix: do not panic on dictionaries annotated with a
 single type (e.g. typing.Counter[str])

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 2ee3fee..9fa5e20 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -157,7 +157,9 @@ impl Type {
                             // debug_assert_eq!(inner_types.len(), 2);
                             Self::PyDict {
                                 key_type: Box::new(inner_types[0].clone()),
-                                value_type: Box::new(inner_types[1].clone()),
+                                value_type: Box::new(
+                                    inner_types.get(1).cloned().unwrap_or(Self::Unknown),
+                                ),
                             }
                         }
                         Self::PyFrozenSet(..) => {
@@ -261,7 +263,7 @@ impl std::str::FromStr for Type {
                     .collect::<Result<Vec<_>>>()?;
                 Self::PyDict {
                     key_type: Box::new(inner_types[0].clone()),
-                    value_type: Box::new(inner_types[1].clone()),
+                    value_type: Box::new(inner_types.get(1).cloned().unwrap_or(Self::Unknown)),
                 }
             }
             "dict" | "Dict" | "Mapping" => Self::PyDict {
-- 
2.43.0


From e7c669c5fe313c642a630b31044d67994555df8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:38 +0000
Subject: [PATCH 13/56] fix: map type[T] to a Python type object, and
 Annotated[T] to T

'type[int]' was mapped to an integer instead of the class, and 'Annotated[List[int], ..]' to a
nested list.
---
 pyo3_bindgen_engine/src/typing/from_py.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index 9fa5e20..ace8915 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -123,6 +123,10 @@ impl Type {
 
         if let Ok(wrapping_type) = value.getattr(pyo3::intern!(py, "__origin__")) {
             let wrapping_type = Self::try_from(wrapping_type)?;
+            // The origin of `Annotated` is the full annotated type
+            if value.hasattr(pyo3::intern!(py, "__metadata__"))? {
+                return Ok(wrapping_type);
+            }
             Ok(
                 if let Ok(inner_types) =
                     value
@@ -190,10 +194,6 @@ impl Type {
                                 ),
                             }
                         }
-                        Self::PyType => {
-                            // debug_assert_eq!(inner_types.len(), 1);
-                            inner_types[0].clone()
-                        }
                         _ => {
                             // TODO: Handle other types with inner types if useful (e.g. Generator)
                             wrapping_type
@@ -416,12 +416,8 @@ impl std::str::FromStr for Type {
             #[cfg(not(PyPy))]
             "super" => Self::PySuper,
             "traceback" => Self::PyTraceback,
-            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::from_str(
-                typ.strip_prefix("type[")
-                    .unwrap_or_else(|| unreachable!())
-                    .strip_suffix(']')
-                    .unwrap_or_else(|| unreachable!()),
-            )?,
+            typ if typ.starts_with("type[") && typ.ends_with(']') => Self::PyType,
+            "type" => Self::PyType,
 
             // classes
             class if class.starts_with("<class '") && class.ends_with("'>") => Self::from_str(
-- 
2.43.0


From 90dbff57b8ac3797f546d08527e900bc40b38855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:39 +0000
Subject: [PATCH 14/56] fix: map datetime, and the names of bare sets, like
 their other spellings

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index ace8915..b2686b8 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -76,10 +76,10 @@ impl TryFrom<pyo3::Bound<'_, pyo3::types::PyType>> for Type {
 
             // Additional types - datetime
             #[cfg(not(Py_LIMITED_API))]
-            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
-            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDateTime>()? => Self::PyDateTime,
             #[cfg(not(Py_LIMITED_API))]
+            t if t.is_subclass_of::<pyo3::types::PyDate>()? => Self::PyDate,
+            #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyDelta>()? => Self::PyDelta,
             #[cfg(not(Py_LIMITED_API))]
             t if t.is_subclass_of::<pyo3::types::PyTime>()? => Self::PyTime,
@@ -289,6 +289,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PyList(Box::new(inner_type))
             }
+            "frozenset" => Self::PyFrozenSet(Box::new(Self::Unknown)),
             "list" => Self::PyList(Box::new(Self::Unknown)),
             sequence if sequence.starts_with("Sequence[") && sequence.ends_with(']') => {
                 let inner_type = Self::from_str(
@@ -330,6 +331,7 @@ impl std::str::FromStr for Type {
                 )?;
                 Self::PySet(Box::new(inner_type))
             }
+            "set" => Self::PySet(Box::new(Self::Unknown)),
             tuple if tuple.starts_with("tuple[") && tuple.ends_with(']') => {
                 let mut inner_types = tuple
                     .strip_prefix("tuple[")
-- 
2.43.0


From 5d1341b341bfcb0796ab165ce0328ca1614afb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 15/56] fix: generate only hashable keys for Rust collections,
 and existing types for IP addresses

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 6 ++++--
 pyo3_bindgen_engine/src/typing/mod.rs     | 4 ----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index d9f27f1..b5312bc 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -202,8 +202,10 @@ impl Type {
             }
 
             // Additional types - std
-            Self::IpV4Addr => OutputType::new_identical(quote!(::std::net::IpV4Addr)),
-            Self::IpV6Addr => OutputType::new_identical(quote!(::std::net::IpV6Addr)),
+            Self::IpV4Addr | Self::IpV6Addr => {
+                // Note: `FromPyObject` is implemented only for the enum that covers both versions
+                OutputType::new_identical(quote!(::std::net::IpAddr))
+            }
             Self::Path => OutputType::new(quote!(::std::path::PathBuf), quote!(&::std::path::Path)),
             // TODO: Map `PySlice` to `std::ops::Range` if possible
             Self::PySlice => OutputType::new(
diff --git a/pyo3_bindgen_engine/src/typing/mod.rs b/pyo3_bindgen_engine/src/typing/mod.rs
index c5ec710..192b765 100644
--- a/pyo3_bindgen_engine/src/typing/mod.rs
+++ b/pyo3_bindgen_engine/src/typing/mod.rs
@@ -79,11 +79,7 @@ impl Type {
                 | Self::IpV4Addr
                 | Self::IpV6Addr
                 | Self::Path
-                | Self::PyDelta
-                | Self::PyDict { .. }
-                | Self::PyFrozenSet(..)
                 | Self::PyLong
-                | Self::PySet(..)
                 | Self::PyString
         )
     }
-- 
2.43.0


From 3ca5c9711e19356882df7bb52f0bcf5cde0221a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:09 +0000
Subject: [PATCH 16/56] fix: pass bytes, bytearray, frozenset and variadic
 tuples as such to Python

They arrived in Python as lists and sets.
---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index b5312bc..cee6444 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,6 +37,29 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
+            // Collections that would otherwise be converted to a different Python type (list, set)
+            Self::PyByteArray => {
+                quote! {
+                    let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
+                }
+            }
+            Self::PyBytes => {
+                quote! {
+                    let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
+                }
+            }
+            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
+                quote! {
+                    let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
+                }
+            }
+            Self::PyTuple(inner_types)
+                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
+            {
+                quote! {
+                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
+                }
+            }
             Self::PyTuple(inner_types) if inner_types.len() < 2 => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
-- 
2.43.0


From 9e9273530ed4281668127799fc42e8feab7e9b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:10 +0000
Subject: [PATCH 17/56] fix: pass paths to Python as pathlib.Path

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index cee6444..ed30c6e 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -60,6 +60,18 @@ impl Type {
                     let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
                 }
             }
+            // Paths would otherwise be converted to strings
+            Self::Path => {
+                quote! {
+                    let #ident = ::pyo3::types::PyAnyMethods::call1(
+                        &::pyo3::types::PyAnyMethods::getattr(
+                            py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
+                            ::pyo3::intern!(py, "Path"),
+                        )?,
+                        (#ident,),
+                    )?;
+                }
+            }
             Self::PyTuple(inner_types) if inner_types.len() < 2 => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
-- 
2.43.0


From 42d59ada933aef3d248ac4c1adc3689877b136e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 18/56] fix: pass None for optional dictionaries that are None
 instead of an empty dictionary

---
 pyo3_bindgen_engine/src/syntax/function.rs | 16 +++++++++++++---
 pyo3_bindgen_engine/src/typing/into_rs.rs  | 22 ----------------------
 2 files changed, 13 insertions(+), 25 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 62e2cc3..03af089 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -384,9 +384,19 @@ impl Function {
             .iter()
             .zip(param_idents.iter())
             .map(|(param, param_ident)| {
-                param
-                    .annotation
-                    .preprocess_borrowed(param_ident, local_types)
+                if param.kind == ParameterKind::VarKeyword {
+                    quote::quote! {
+                        let #param_ident = if let Some(#param_ident) = #param_ident {
+                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#param_ident, py)
+                        } else {
+                            ::pyo3::types::PyDict::new_bound(py)
+                        };
+                    }
+                } else {
+                    param
+                        .annotation
+                        .preprocess_borrowed(param_ident, local_types)
+                }
             })
             .collect();
         let param_types: Vec<proc_macro2::TokenStream> = self
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ed30c6e..c45e9b9 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -105,28 +105,6 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
-            Self::Optional(inner_type) => match inner_type.as_ref() {
-                Self::PyDict {
-                    key_type,
-                    value_type,
-                } if !key_type.is_hashable()
-                    || value_type
-                        .clone()
-                        .into_rs(local_types)
-                        .owned
-                        .to_string()
-                        .contains("PyAny") =>
-                {
-                    quote! {
-                        let #ident = if let Some(#ident) = #ident {
-                            ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py)
-                        } else {
-                            ::pyo3::types::PyDict::new_bound(py)
-                        };
-                    }
-                }
-                _ => proc_macro2::TokenStream::new(),
-            },
             _ => proc_macro2::TokenStream::new(),
         }
     }
-- 
2.43.0


From 5417f2a4c97c292b5799c1c2832ce181e5430f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:12 +0000
Subject: [PATCH 19/56] fix: do not panic on annotations that name a class
 without a valid Rust identifier

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index c45e9b9..ad1eac8 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -98,7 +98,7 @@ impl Type {
             }
             Self::Other(type_name)
                 if Self::try_map_external_type(type_name).is_none()
-                    && !local_types.contains_key(&Path::from_py(type_name)) =>
+                    && Self::try_map_local_type(type_name, local_types).is_none() =>
             {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyAny>>::into_py(#ident, py);
@@ -331,10 +331,7 @@ impl Type {
         }
 
         // Try to map the local types
-        let type_name_without_delimiters =
-            type_name.split_once('[').map(|s| s.0).unwrap_or(&type_name);
-        if let Some(relative_path) = local_types.get(&Path::from_py(type_name_without_delimiters)) {
-            let relative_path: syn::Path = relative_path.try_into().unwrap();
+        if let Some(relative_path) = Self::try_map_local_type(&type_name, local_types) {
             return OutputType::new(
                 quote!(::pyo3::Bound<'py, #relative_path>),
                 quote!(&::pyo3::Bound<'py, #relative_path>),
@@ -348,6 +345,18 @@ impl Type {
         )
     }
 
+    fn try_map_local_type(
+        type_name: &str,
+        local_types: &HashMap<Path, Path>,
+    ) -> Option<syn::Path> {
+        let type_name_without_delimiters =
+            type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
+        local_types
+            .get(&Path::from_py(type_name_without_delimiters))
+            // Types whose names are not valid identifiers are renamed, so they cannot be referred to
+            .and_then(|relative_path| relative_path.try_into().ok())
+    }
+
     fn try_map_external_type(type_name: &str) -> Option<OutputType> {
         // TODO: Handle types from other packages with Rust bindings here
         match type_name {
-- 
2.43.0


From d9e069810789c02c339b1f159531539361f455c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 20/56] fix: accept '::' in string annotations and 'super' as a
 Python name

Annotations are arbitrary strings, so a debug assertion is not applicable to them. A Python name
that equals the Rust keyword was mistaken for the parent of a relative path.
---
 pyo3_bindgen_engine/src/syntax/common/path.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/path.rs b/pyo3_bindgen_engine/src/syntax/common/path.rs
index 71bf8ce..b304525 100644
--- a/pyo3_bindgen_engine/src/syntax/common/path.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/path.rs
@@ -27,7 +27,6 @@ impl Path {
         if value.is_empty() {
             return Self::default();
         }
-        debug_assert!(!value.contains("::"), "Invalid Python path: {value}");
         Self {
             leading_colon: false,
             segments: std::iter::repeat(Ident::from_rs("super"))
@@ -61,8 +60,10 @@ impl Path {
     pub fn to_py(&self) -> String {
         self.segments
             .iter()
-            .map(Ident::as_py)
-            .map(|s| if s == "super" { "" } else { s })
+            .map(|ident| match ident.as_rs() {
+                "super" => "",
+                _ => ident.as_py(),
+            })
             .collect_vec()
             .join(".")
     }
-- 
2.43.0


From 050b0a803a7a248f416a036229295c00511e42cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:06 +0000
Subject: [PATCH 21/56] fix: sanitize the names of modules, type variables and
 properties that are not valid identifiers

A single one of them (e.g. a script with a dash in a package, or a type variable named 'Self')
made the generation of all bindings fail.
---
 pyo3_bindgen_engine/src/syntax/common/ident.rs | 11 +++++++++++
 pyo3_bindgen_engine/src/syntax/module.rs       |  2 +-
 pyo3_bindgen_engine/src/syntax/property.rs     | 15 ++++++++++++---
 pyo3_bindgen_engine/src/syntax/type_var.rs     |  2 +-
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index b6fda6a..5ac7a1a 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -25,6 +25,17 @@ impl Ident {
         Self::rs_as_py(&self.0)
     }
 
+    /// Convert to a Rust identifier, which is sanitized and prefixed if the name is not a valid one.
+    pub fn to_syn_sanitized(&self, prefix: &str) -> Result<syn::Ident, syn::Error> {
+        self.try_into().or_else(|_| {
+            Self::from_py(&format!(
+                "{prefix}_{}",
+                self.as_py().replace(|c: char| !c.is_alphanumeric(), "_")
+            ))
+            .try_into()
+        })
+    }
+
     fn rs_as_py(value: &str) -> &str {
         value.strip_prefix("r#").unwrap_or(value)
     }
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 31fc78e..9a84d4a 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -504,7 +504,7 @@ impl Module {
         };
 
         // Finalize the module with its content
-        let module_ident: syn::Ident = self.name.name().try_into().map_err(|err| {
+        let module_ident: syn::Ident = self.name.name().to_syn_sanitized("m").map_err(|err| {
             crate::PyBindgenError::CodegenError(format!(
                 "Failed to convert module name `{}` to identifier: {}",
                 self.name.name(),
diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index 8a5663f..c5cde47 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -222,7 +222,7 @@ impl Property {
                 if scoped_function_idents.contains(&name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&name.as_py())
                 {
-                    let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
+                    let getter_name = Self::accessor_name("get", name);
                     if scoped_function_idents.contains(&&getter_name)
                         || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                     {
@@ -234,7 +234,7 @@ impl Property {
                     ident
                 }
             } else {
-                let getter_name = Ident::from_py(&format!("get_{}", name.as_py()));
+                let getter_name = Self::accessor_name("get", name);
                 if scoped_function_idents.contains(&&getter_name)
                     || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&getter_name.as_py())
                 {
@@ -287,6 +287,15 @@ impl Property {
         Ok(TraitMethod { trait_fn, impl_fn })
     }
 
+    /// Name of the getter or setter (sanitized because attributes can have any name)
+    fn accessor_name(prefix: &str, name: &Ident) -> Ident {
+        Ident::from_py(&format!(
+            "{prefix}_{}",
+            name.as_py()
+                .replace(|c: char| !c.is_alphanumeric() && c != '_', "_")
+        ))
+    }
+
     pub fn generate_setter(
         &self,
         cfg: &Config,
@@ -308,7 +317,7 @@ impl Property {
 
         // Function
         let function_ident: syn::Ident = {
-            let setter_name = Ident::from_py(&format!("set_{}", self.name.name().as_py()));
+            let setter_name = Self::accessor_name("set", self.name.name());
             if scoped_function_idents.contains(&&setter_name)
                 || crate::config::FORBIDDEN_FUNCTION_NAMES.contains(&setter_name.as_py())
             {
diff --git a/pyo3_bindgen_engine/src/syntax/type_var.rs b/pyo3_bindgen_engine/src/syntax/type_var.rs
index 7813c58..c206d62 100644
--- a/pyo3_bindgen_engine/src/syntax/type_var.rs
+++ b/pyo3_bindgen_engine/src/syntax/type_var.rs
@@ -12,7 +12,7 @@ impl TypeVar {
     }
 
     pub fn generate(&self, _cfg: &Config) -> Result<proc_macro2::TokenStream> {
-        let typevar_ident: syn::Ident = self.name.name().try_into()?;
+        let typevar_ident = self.name.name().to_syn_sanitized("t")?;
         Ok(quote::quote! {
             pub type #typevar_ident = ::pyo3::types::PyAny;
         })
-- 
2.43.0


From ae1df1effa6e56d2acea0d6c8c190a16625dd05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:07 +0000
Subject: [PATCH 22/56] fix: do not drop the whole prelude because of a single
 invalid identifier

---
 pyo3_bindgen_engine/src/syntax/module.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 9a84d4a..a04b1e1 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -635,13 +635,14 @@ impl Module {
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
             .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            // Attributes that are renamed because of their invalid identifiers cannot be re-exported
+            .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
-                let ident: syn::Ident = ident.try_into()?;
-                Ok(quote::quote! {
+                quote::quote! {
                     #ident,
-                })
+                }
             })
-            .collect::<Result<proc_macro2::TokenStream>>()?;
+            .collect::<proc_macro2::TokenStream>();
 
         // Return empty prelude if there are no exports
         if exports.is_empty() {
-- 
2.43.0


From 2970edb5855bf1d110e4ca87060c2eaf3a09f532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:00 +0000
Subject: [PATCH 23/56] fix: do not generate a setter or getter whose name is
 taken by another attribute

For example, attributes 'x' and 'set_x' resulted in two functions named 'set_x'.
---
 pyo3_bindgen_engine/src/syntax/class.rs  | 15 ++++++++++-
 pyo3_bindgen_engine/src/syntax/module.rs | 32 ++++++++++++++++++------
 2 files changed, 39 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e54f538..e24350f 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -257,7 +257,20 @@ impl Class {
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
                 .iter()
-                .map(|property| property.generate(cfg, &scoped_function_idents, local_types))
+                .map(|property| {
+                    // Getters and setters must not clash with any other property of the class either
+                    let scoped_idents = scoped_function_idents
+                        .iter()
+                        .copied()
+                        .chain(
+                            self.properties
+                                .iter()
+                                .map(|property| property.name.name())
+                                .filter(|&name| name != property.name.name()),
+                        )
+                        .collect::<Vec<_>>();
+                    property.generate(cfg, &scoped_idents, local_types)
+                })
                 .try_for_each(|def| {
                     match def? {
                         FunctionImplementation::Function(impl_fn) => {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index a04b1e1..4190304 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -392,15 +392,20 @@ impl Module {
         // Generate the module content
         let mut module_content = proc_macro2::TokenStream::new();
         // Imports
+        let imports = self
+            .imports
+            .iter()
+            .filter(|import| {
+                cfg.generate_imports
+                    && top_level_modules
+                        .iter()
+                        .any(|module| module.check_path_exists_recursive(&import.origin, false))
+            })
+            .collect::<Vec<_>>();
         if cfg.generate_imports {
             module_content.extend(
-                self.imports
+                imports
                     .iter()
-                    .filter(|import| {
-                        top_level_modules
-                            .iter()
-                            .any(|module| module.check_path_exists_recursive(&import.origin, false))
-                    })
                     .map(|import| import.generate(cfg))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
@@ -452,8 +457,21 @@ impl Module {
                 self.properties
                     .iter()
                     .map(|property| {
+                        // Getters and setters must not clash with any other item of the module either
+                        let scoped_idents = scoped_function_idents
+                            .iter()
+                            .copied()
+                            .chain(self.classes.iter().map(|class| class.name.name()))
+                            .chain(imports.iter().map(|import| import.target.name()))
+                            .chain(
+                                self.properties
+                                    .iter()
+                                    .map(|property| property.name.name())
+                                    .filter(|&name| name != property.name.name()),
+                            )
+                            .collect::<Vec<_>>();
                         property
-                            .generate(cfg, &scoped_function_idents, &local_types)
+                            .generate(cfg, &scoped_idents, &local_types)
                             .map(|def| {
                                 if let FunctionImplementation::Function(impl_fn) = def {
                                     impl_fn
-- 
2.43.0


From 329e4f8f731f2d5963d542df11e9c008008731e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:01 +0000
Subject: [PATCH 24/56] fix: name the methods trait of a class differently if
 another type has that name

---
 pyo3_bindgen_engine/src/syntax/class.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index e24350f..f0e4cce 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -294,8 +294,26 @@ impl Class {
         });
 
         // Add the trait and implementation block for bounded struct
-        let trait_ident: syn::Ident =
-            Ident::from_py(&format!("{struct_ident}Methods")).try_into()?;
+        let trait_ident: syn::Ident = {
+            let mut i = 0;
+            loop {
+                let ident = Ident::from_py(&format!(
+                    "{struct_ident}Methods{}",
+                    (i > 0).then(|| i.to_string()).unwrap_or_default()
+                ));
+                // Avoid name clashes with other types of the module
+                let path = self
+                    .name
+                    .parent()
+                    .unwrap_or_default()
+                    .join(&ident.clone().into());
+                if !local_types.contains_key(&path) {
+                    break ident;
+                }
+                i += 1;
+            }
+        }
+        .try_into()?;
         let struct_ident_str = struct_ident.to_string();
         output.extend(quote::quote! {
             /// These methods are defined for the `Bound<'py, T>` smart pointer, so to use
-- 
2.43.0


From 7068be78ea90e21f3f4bcf11a165ea9e6a79c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 25/56] fix: do not refer to items of categories whose
 generation is disabled

Preludes, re-exports and type annotations still referred to them, so the bindings did not compile.
---
 pyo3_bindgen_engine/src/codegen.rs       | 24 +++++---
 pyo3_bindgen_engine/src/syntax/module.rs | 77 +++++++++++++++---------
 2 files changed, 62 insertions(+), 39 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 712e9b9..f794aad 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -388,22 +388,26 @@ impl Codegen {
     }
 
     fn get_all_types(&self) -> Vec<Path> {
-        fn get_types_recursive(input: &[Module]) -> Vec<Path> {
+        fn get_types_recursive(cfg: &Config, input: &[Module]) -> Vec<Path> {
             let mut types = Vec::new();
             for module in input {
-                types.extend(module.classes.iter().map(|class| class.name.clone()));
-                types.extend(
-                    module
-                        .type_vars
-                        .iter()
-                        .map(|type_var| type_var.name.clone()),
-                );
-                types.extend(get_types_recursive(&module.submodules));
+                if cfg.generate_classes {
+                    types.extend(module.classes.iter().map(|class| class.name.clone()));
+                }
+                if cfg.generate_type_vars {
+                    types.extend(
+                        module
+                            .type_vars
+                            .iter()
+                            .map(|type_var| type_var.name.clone()),
+                    );
+                }
+                types.extend(get_types_recursive(cfg, &module.submodules));
             }
             types
         }
 
-        get_types_recursive(&self.modules)
+        get_types_recursive(&self.cfg, &self.modules)
             .into_iter()
             .unique()
             .collect()
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 4190304..30c6f58 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -399,7 +399,7 @@ impl Module {
                 cfg.generate_imports
                     && top_level_modules
                         .iter()
-                        .any(|module| module.check_path_exists_recursive(&import.origin, false))
+                        .any(|module| module.check_path_exists_recursive(cfg, &import.origin, false))
             })
             .collect::<Vec<_>>();
         if cfg.generate_imports {
@@ -412,7 +412,7 @@ impl Module {
         }
         // Prelude
         if cfg.generate_preludes {
-            module_content.extend(self.generate_prelude());
+            module_content.extend(self.generate_prelude(cfg));
         }
         // Type variables
         if cfg.generate_type_vars {
@@ -641,7 +641,7 @@ impl Module {
         index_attr_names
     }
 
-    fn generate_prelude(&self) -> Result<proc_macro2::TokenStream> {
+    fn generate_prelude(&self, cfg: &Config) -> Result<proc_macro2::TokenStream> {
         // Skip if the prelude is empty
         if self.prelude.is_empty() {
             return Ok(proc_macro2::TokenStream::new());
@@ -652,7 +652,7 @@ impl Module {
             .prelude
             .iter()
             // Retain only attributes that are within self.modules, self.classes, self.functions, self.type_vars, self.properties
-            .filter(|&ident| self.check_ident_exists_immediate(ident, false))
+            .filter(|&ident| self.check_ident_exists_immediate(cfg, ident, false))
             // Attributes that are renamed because of their invalid identifiers cannot be re-exported
             .filter_map(|ident| syn::Ident::try_from(ident).ok())
             .map(|ident| {
@@ -675,7 +675,7 @@ impl Module {
                     "call{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                if !self.check_ident_exists_immediate(&ident, true) {
+                if !self.check_ident_exists_immediate(cfg, &ident, true) {
                     break ident;
                 }
                 i += 1;
@@ -689,24 +689,40 @@ impl Module {
         })
     }
 
-    fn check_path_exists_recursive(&self, path: &Path, consider_imports: bool) -> bool {
-        (consider_imports && self.imports.iter().any(|import| import.target == *path))
+    fn check_path_exists_recursive(
+        &self,
+        cfg: &Config,
+        path: &Path,
+        consider_imports: bool,
+    ) -> bool {
+        (consider_imports
+            && cfg.generate_imports
+            && self.imports.iter().any(|import| import.target == *path))
             || self.submodules.iter().any(|module| module.name == *path)
-            || self.classes.iter().any(|class| class.name == *path)
-            || self.functions.iter().any(|function| function.name == *path)
-            || self.type_vars.iter().any(|type_var| type_var.name == *path)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name == *path)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name == *path))
+            || (cfg.generate_functions
+                && self.functions.iter().any(|function| function.name == *path))
+            || (cfg.generate_type_vars
+                && self.type_vars.iter().any(|type_var| type_var.name == *path))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name == *path))
             || self
                 .submodules
                 .iter()
-                .any(|module| module.check_path_exists_recursive(path, consider_imports))
+                .any(|module| module.check_path_exists_recursive(cfg, path, consider_imports))
     }
 
-    fn check_ident_exists_immediate(&self, ident: &Ident, consider_imports: bool) -> bool {
+    fn check_ident_exists_immediate(
+        &self,
+        cfg: &Config,
+        ident: &Ident,
+        consider_imports: bool,
+    ) -> bool {
         (consider_imports
+            && cfg.generate_imports
             && self
                 .imports
                 .iter()
@@ -715,18 +731,21 @@ impl Module {
                 .submodules
                 .iter()
                 .any(|module| module.name.name() == ident)
-            || self.classes.iter().any(|class| class.name.name() == ident)
-            || self
-                .functions
-                .iter()
-                .any(|function| function.name.name() == ident)
-            || self
-                .type_vars
-                .iter()
-                .any(|type_var| type_var.name.name() == ident)
-            || self
-                .properties
-                .iter()
-                .any(|property| property.name.name() == ident)
+            || (cfg.generate_classes && self.classes.iter().any(|class| class.name.name() == ident))
+            || (cfg.generate_functions
+                && self
+                    .functions
+                    .iter()
+                    .any(|function| function.name.name() == ident))
+            || (cfg.generate_type_vars
+                && self
+                    .type_vars
+                    .iter()
+                    .any(|type_var| type_var.name.name() == ident))
+            || (cfg.generate_properties
+                && self
+                    .properties
+                    .iter()
+                    .any(|property| property.name.name() == ident))
     }
 }
-- 
2.43.0


From b6bbb09aeafa1423323bcbda5d36c0359e572f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:04 +0000
Subject: [PATCH 26/56] fix: keep the requested submodules if traversal of
 submodules is disabled

---
 pyo3_bindgen_engine/src/syntax/module.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 30c6f58..4b37973 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -483,15 +483,13 @@ impl Module {
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-        // Submodules
-        if cfg.traverse_submodules {
-            module_content.extend(
-                self.submodules
-                    .iter()
-                    .map(|module| module.generate(cfg, top_level_modules, all_types))
-                    .collect::<Result<proc_macro2::TokenStream>>()?,
-            );
-        }
+        // Submodules (also required for modules that were added by their full path)
+        module_content.extend(
+            self.submodules
+                .iter()
+                .map(|module| module.generate(cfg, top_level_modules, all_types))
+                .collect::<Result<proc_macro2::TokenStream>>()?,
+        );
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-- 
2.43.0


From dbf3d18d211adcaea61f4b63c137050a51817322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:05 +0000
Subject: [PATCH 27/56] fix: do not panic on modules without a name or an
 importable parent

---
 pyo3_bindgen_engine/src/syntax/module.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 4b37973..973f153 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -24,16 +24,17 @@ pub struct Module {
 
 impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
-        let module = py.import_bound(name.to_py().as_str())?;
-
         // Extract the docstring of the module
-        let docstring = {
+        // Note: The parents of modules parsed from source code do not have to exist
+        let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
             let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
             if docstring.is_empty() || docstring == "None" {
                 None
             } else {
                 Some(docstring)
             }
+        } else {
+            None
         };
 
         Ok(Self {
@@ -55,7 +56,7 @@ impl Module {
         let py = module.py();
 
         // Extract the name of the module
-        let name = Path::from_py(&module.name().unwrap().to_string());
+        let name = Path::from_py(&module.name()?.to_string());
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
@@ -552,7 +553,7 @@ impl Module {
             .collect::<Result<Vec<_>>>()?;
 
         // Extract the names of all submodules via `pkgutil.iter_modules`
-        let module_name = Path::from_py(&module.name().unwrap().to_string());
+        let module_name = Path::from_py(&module.name()?.to_string());
         pkgutil
             .call_method1(pyo3::intern!(py, "iter_modules"), (module_paths,))?
             .iter()?
-- 
2.43.0


From 24b9c341e523fb62f78af3052c661f84d7f94a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:06 +0000
Subject: [PATCH 28/56] fix: embed the source code of modules with dotted and
 keyword names

---
 pyo3_bindgen_engine/src/codegen.rs       | 15 ++++++++++-----
 pyo3_bindgen_engine/src/syntax/module.rs |  2 +-
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index f794aad..b9f1b24 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -161,11 +161,7 @@ impl Codegen {
         self.canonicalize();
 
         // Embed the source code of the modules
-        self.modules.iter_mut().for_each(|module| {
-            if let Some(source_code) = self.embedded_source_code.get(&module.name.to_rs()) {
-                module.source_code = Some(source_code.clone());
-            }
-        });
+        Self::embed_source_code(&mut self.modules, &self.embedded_source_code);
 
         // Generate the bindings for all modules
         self.modules
@@ -180,6 +176,15 @@ impl Codegen {
         Ok(std::fs::write(output_path, self.generate()?.to_string())?)
     }
 
+    fn embed_source_code(modules: &mut [Module], embedded_source_code: &HashMap<String, String>) {
+        modules.iter_mut().for_each(|module| {
+            if let Some(source_code) = embedded_source_code.get(&module.name.to_py()) {
+                module.source_code = Some(source_code.clone());
+            }
+            Self::embed_source_code(&mut module.submodules, embedded_source_code);
+        });
+    }
+
     fn parse_dependencies(&mut self) -> Result<()> {
         fn get_imports_recursive(input: &[Module]) -> Vec<Import> {
             let mut imports = Vec::new();
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 973f153..ef9a2c0 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -494,7 +494,7 @@ impl Module {
 
         // Embed the source code if the module was parsed directly from source code
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
-            let module_name = self.name.to_rs();
+            let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
-- 
2.43.0


From 997d4d93680c4f1f90d3f1e53b009e04ec8902e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 29/56] fix: skip dependencies that cannot be imported instead
 of panicking

---
 pyo3_bindgen_engine/src/codegen.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index b9f1b24..cbd52e9 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -214,7 +214,8 @@ impl Codegen {
             external_imports
                 .iter()
                 // Get the last valid module within the path of the import
-                .map(|import| {
+                // Note: Objects can claim to originate from modules that cannot be imported
+                .filter_map(|import| {
                     let mut last_module = py
                         .import_bound(
                             import
@@ -223,7 +224,7 @@ impl Codegen {
                                 .to_py()
                                 .as_str(),
                         )
-                        .unwrap();
+                        .ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
@@ -235,7 +236,7 @@ impl Codegen {
                             break;
                         }
                     }
-                    last_module
+                    Some(last_module)
                 })
                 // Parse the module and add it to the module tree
                 .unique_by(|module| module.name().unwrap().to_string())
-- 
2.43.0


From 13d09e18c1757fa5fbf95909ad91c4bae445b414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:43 +0000
Subject: [PATCH 30/56] fix: return an error instead of panicking if __dir__
 raises an exception

---
 pyo3_bindgen_engine/src/syntax/class.rs  |  3 +--
 pyo3_bindgen_engine/src/syntax/module.rs |  7 +++----
 pyo3_bindgen_engine/src/utils/mod.rs     | 13 +++++++++++++
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index f0e4cce..314035d 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -30,8 +30,7 @@ impl Class {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        class
-            .dir()
+        crate::utils::dir(class)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ef9a2c0..aba1899 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -84,8 +84,7 @@ impl Module {
         let mut properties = Vec::new();
 
         // Extract the list of all attribute names in the module
-        module
-            .dir()
+        crate::utils::dir(module)?
             .iter()
             // Convert each attribute name to an identifier
             .map(|attr_name| Ident::from_py(&attr_name.to_string()))
@@ -594,8 +593,8 @@ impl Module {
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
         {
-            let public_attr_names_set: HashSet<_> = module
-                .dir()
+            let public_attr_names_set: HashSet<_> = crate::utils::dir(module)
+                .unwrap_or_else(|_| pyo3::types::PyList::empty_bound(module.py()))
                 .iter()
                 .map(|attr_name| Ident::from_py(&attr_name.to_string()))
                 .filter(|attr_name| !attr_name.as_py().starts_with('_'))
diff --git a/pyo3_bindgen_engine/src/utils/mod.rs b/pyo3_bindgen_engine/src/utils/mod.rs
index 2620963..d0a7bce 100644
--- a/pyo3_bindgen_engine/src/utils/mod.rs
+++ b/pyo3_bindgen_engine/src/utils/mod.rs
@@ -4,3 +4,16 @@ pub mod error;
 pub(crate) mod io;
 pub mod result;
 pub(crate) mod text;
+
+/// List the attributes of a Python object (`PyAnyMethods::dir()` panics if `__dir__` raises an exception).
+pub(crate) fn dir<'py>(
+    object: &pyo3::Bound<'py, pyo3::PyAny>,
+) -> crate::Result<pyo3::Bound<'py, pyo3::types::PyList>> {
+    use pyo3::types::PyAnyMethods;
+    let py = object.py();
+    Ok(py
+        .import_bound(pyo3::intern!(py, "builtins"))?
+        .call_method1(pyo3::intern!(py, "dir"), (object,))?
+        .downcast_into()
+        .map_err(pyo3::PyErr::from)?)
+}
-- 
2.43.0


From 7aa0064e68a151e13f1e9ca36b8801cb06c9e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:04 +0000
Subject: [PATCH 31/56] fix: bind partial functions as functions

---
 .../src/syntax/common/attribute_variant.rs                | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 80317fb..90f9202 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -27,7 +27,13 @@ impl AttributeVariant {
         let inspect = py.import_bound("inspect")?;
 
         // Get the name and module of the attribute type
-        let attr_type_name = Ident::from_py(&attr_type.name().unwrap_or_default());
+        // Note: `PyType::name()` is qualified with the module for some types, e.g. `functools.partial`
+        let attr_type_name = Ident::from_py(
+            &attr_type
+                .getattr(pyo3::intern!(py, "__name__"))
+                .map(|a| a.to_string())
+                .unwrap_or_default(),
+        );
         let attr_type_module = Path::from_py(
             &attr_type
                 .getattr(pyo3::intern!(py, "__module__"))
-- 
2.43.0


From f963ecd17329de72d3cfc05496bd655ca5f5e48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 32/56] fix: resolve types that are referenced through an
 imported module

---
 pyo3_bindgen_engine/src/syntax/module.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index aba1899..18f85bc 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -375,10 +375,9 @@ impl Module {
                                 .to_py()
                                 .strip_prefix(&format!("{}.", import.origin.to_py()))
                             {
-                                let mut path = Path::from_py(stripped_path);
-                                // Overwrite the first segment with the target name to support aliasing
-                                import.target.name().clone_into(&mut path[0]);
-                                path
+                                // The imported object is known by its target name, which supports aliasing
+                                Path::from(import.target.name().to_owned())
+                                    .join(&Path::from_py(stripped_path))
                             } else {
                                 import.target.name().to_owned().into()
                             }
-- 
2.43.0


From 9e07124388f45f3f91929bb214491d3f43a71d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:38 +0000
Subject: [PATCH 33/56] fix: omit getters and setters of modules whose names
 are taken

---
 pyo3_bindgen_engine/src/syntax/property.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/property.rs b/pyo3_bindgen_engine/src/syntax/property.rs
index c5cde47..e73ce3b 100644
--- a/pyo3_bindgen_engine/src/syntax/property.rs
+++ b/pyo3_bindgen_engine/src/syntax/property.rs
@@ -163,14 +163,19 @@ impl Property {
                 let impl_fn = self
                     .generate_getter(cfg, scoped_function_idents, local_types)?
                     .impl_fn;
-                functions.extend(quote::quote! { pub #impl_fn });
+                // Note: The accessors are omitted if their names are already taken
+                if !impl_fn.is_empty() {
+                    functions.extend(quote::quote! { pub #impl_fn });
+                }
 
                 // Setter (if mutable)
                 if self.is_mutable {
                     let impl_fn = self
                         .generate_setter(cfg, scoped_function_idents, local_types)?
                         .impl_fn;
-                    functions.extend(quote::quote! { pub #impl_fn });
+                    if !impl_fn.is_empty() {
+                        functions.extend(quote::quote! { pub #impl_fn });
+                    }
                 }
 
                 FunctionImplementation::Function(functions)
-- 
2.43.0


From 9ac8436742c5782eedd4fc0dcd14e3590cd0aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:57 +0000
Subject: [PATCH 34/56] fix: do not modify the index of modules and support
 tuples

---
 pyo3_bindgen_engine/src/syntax/module.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 18f85bc..fd05fc0 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -579,15 +579,19 @@ impl Module {
         module_name: &Path,
     ) -> Vec<Ident> {
         // Extract the index (__all__) of the module if it exists
-        let mut index_attr_names = if let Ok(index) = module.index() {
-            index
-                .iter()
-                .map(|x| Ident::from_py(&x.to_string()))
-                .unique()
-                .collect()
-        } else {
-            Vec::default()
-        };
+        // Note: `PyModule::index()` would add an empty index to the module that does not have one and reject tuples
+        let mut index_attr_names: Vec<Ident> = module
+            .getattr(pyo3::intern!(module.py(), "__all__"))
+            .and_then(|index| {
+                index
+                    .iter()?
+                    .map(|x| Ok(Ident::from_py(&x?.to_string())))
+                    .collect::<PyResult<Vec<_>>>()
+            })
+            .unwrap_or_default()
+            .into_iter()
+            .unique()
+            .collect();
 
         // Compare the index with public attrs of the module
         // Return an empty vector if they are identical (no need to generate a prelude)
-- 
2.43.0


From 9512cbf3aa7ba0e9f9392b1dcbca572f7f9c3b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 35/56] fix: do not panic if the name of an attribute is empty

---
 pyo3_bindgen_engine/src/syntax/common/ident.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/ident.rs b/pyo3_bindgen_engine/src/syntax/common/ident.rs
index 5ac7a1a..1e1c86d 100644
--- a/pyo3_bindgen_engine/src/syntax/common/ident.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/ident.rs
@@ -9,7 +9,6 @@ impl Ident {
     }
 
     pub fn from_py(value: &str) -> Self {
-        debug_assert!(!value.is_empty());
         Self(Self::py_to_rs(value))
     }
 
-- 
2.43.0


From d308155ae3dd4e0fd66c24b56b5af4e0bf2b6608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 36/56] fix: do not panic if an annotation has no type
 arguments

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index b2686b8..c58430a 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -140,6 +140,8 @@ impl Type {
                         .map(Self::try_from)
                         .collect::<Result<Vec<_>>>()?;
                     match wrapping_type {
+                        Self::PyTuple(..) => Self::PyTuple(inner_types),
+                        _ if inner_types.is_empty() => wrapping_type,
                         Self::Union(..) => {
                             if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
                                 Self::Optional(Box::new(
@@ -178,7 +180,6 @@ impl Type {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::PySet(Box::new(inner_types[0].clone()))
                         }
-                        Self::PyTuple(..) => Self::PyTuple(inner_types),
                         Self::PyFunction { .. } => {
                             // debug_assert!(!inner_types.is_empty());
                             Self::PyFunction {
-- 
2.43.0


From 7b049e7a4f95cd3e5eae2a6e7de669dd3509266c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 37/56] fix: return an error instead of panicking if a module
 has no name

---
 pyo3_bindgen_engine/src/codegen.rs       | 10 ++--------
 pyo3_bindgen_engine/src/syntax/module.rs |  5 +++++
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index cbd52e9..6ea3a28 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -217,13 +217,7 @@ impl Codegen {
                 // Note: Objects can claim to originate from modules that cannot be imported
                 .filter_map(|import| {
                     let mut last_module = py
-                        .import_bound(
-                            import
-                                .root()
-                                .unwrap_or_else(|| unreachable!())
-                                .to_py()
-                                .as_str(),
-                        )
+                        .import_bound(import.root()?.to_py().as_str())
                         .ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
@@ -236,7 +230,7 @@ impl Codegen {
                             break;
                         }
                     }
-                    Some(last_module)
+                    last_module.name().is_ok().then_some(last_module)
                 })
                 // Parse the module and add it to the module tree
                 .unique_by(|module| module.name().unwrap().to_string())
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index fd05fc0..4b12a1b 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -57,6 +57,11 @@ impl Module {
 
         // Extract the name of the module
         let name = Path::from_py(&module.name()?.to_string());
+        if name.is_empty() {
+            return Err(crate::PyBindgenError::CodegenError(
+                "Bindings cannot be generated for a module without a name".to_string(),
+            ));
+        }
 
         // Extract the index of the module as prelude (if enabled)
         let prelude = if cfg.generate_preludes {
-- 
2.43.0


From 2d2258ca25c1b57522d5b120bafba79ac709fa0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:35 +0000
Subject: [PATCH 38/56] fix: format

---
 pyo3_bindgen_engine/src/codegen.rs        | 4 +---
 pyo3_bindgen_engine/src/syntax/module.rs  | 6 +++---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 5 +----
 3 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 6ea3a28..a4240fd 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -216,9 +216,7 @@ impl Codegen {
                 // Get the last valid module within the path of the import
                 // Note: Objects can claim to originate from modules that cannot be imported
                 .filter_map(|import| {
-                    let mut last_module = py
-                        .import_bound(import.root()?.to_py().as_str())
-                        .ok()?;
+                    let mut last_module = py.import_bound(import.root()?.to_py().as_str()).ok()?;
                     for path in &import[1..] {
                         if let Ok(attr) = last_module.getattr(path.as_py()) {
                             if let Ok(module) = attr.downcast_into::<pyo3::types::PyModule>() {
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 4b12a1b..ed91a2d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -401,9 +401,9 @@ impl Module {
             .iter()
             .filter(|import| {
                 cfg.generate_imports
-                    && top_level_modules
-                        .iter()
-                        .any(|module| module.check_path_exists_recursive(cfg, &import.origin, false))
+                    && top_level_modules.iter().any(|module| {
+                        module.check_path_exists_recursive(cfg, &import.origin, false)
+                    })
             })
             .collect::<Vec<_>>();
         if cfg.generate_imports {
diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index ad1eac8..3552b14 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -345,10 +345,7 @@ impl Type {
         )
     }
 
-    fn try_map_local_type(
-        type_name: &str,
-        local_types: &HashMap<Path, Path>,
-    ) -> Option<syn::Path> {
+    fn try_map_local_type(type_name: &str, local_types: &HashMap<Path, Path>) -> Option<syn::Path> {
         let type_name_without_delimiters =
             type_name.split_once('[').map(|s| s.0).unwrap_or(type_name);
         local_types
-- 
2.43.0


From 77a155803d96d90d6ba4c254d2604a0da2a14464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:27 +0000
Subject: [PATCH 39/56] fix: revert the needless copy of keyword arguments
 (into_py_dict_bound already makes a new dictionary)

This reverts commit ec573bc54e352f702eea7da472d530ab0091617b.
---
 pyo3_bindgen_engine/src/syntax/function.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 03af089..46cdd89 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -600,9 +600,9 @@ impl Function {
             } else {
                 quote::quote! {
                     {
-                        let __internal__kwargs = ::pyo3::types::PyDictMethods::copy(&#var_keyword_args_ident)?;
+                        let __internal__kwargs = #var_keyword_args_ident;
                         #(
-                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
+                            ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
                         )*
                         __internal__kwargs
                     }
@@ -617,7 +617,7 @@ impl Function {
                 {
                     let __internal__kwargs = ::pyo3::types::PyDict::new_bound(py);
                     #(
-                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents)?;
+                        ::pyo3::types::PyDictMethods::set_item(&__internal__kwargs, ::pyo3::intern!(py, #keyword_args_names), #keyword_args_idents);
                     )*
                     __internal__kwargs
                 }
-- 
2.43.0


From 889e7a54835e42174298fd0ff5d0d84b42560249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 40/56] fix: convert nested bytes, paths, frozen sets and
 tuples to the annotated Python type

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 146 ++++++++++++++++------
 1 file changed, 111 insertions(+), 35 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 3552b14..98ba701 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,41 +37,6 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            // Collections that would otherwise be converted to a different Python type (list, set)
-            Self::PyByteArray => {
-                quote! {
-                    let #ident = ::pyo3::types::PyByteArray::new_bound(py, #ident);
-                }
-            }
-            Self::PyBytes => {
-                quote! {
-                    let #ident = ::pyo3::types::PyBytes::new_bound(py, #ident);
-                }
-            }
-            Self::PyFrozenSet(inner_type) if inner_type.is_hashable() => {
-                quote! {
-                    let #ident = ::pyo3::types::PyFrozenSet::new_bound(py, #ident)?;
-                }
-            }
-            Self::PyTuple(inner_types)
-                if inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis =>
-            {
-                quote! {
-                    let #ident = ::pyo3::types::PyTuple::new_bound(py, #ident);
-                }
-            }
-            // Paths would otherwise be converted to strings
-            Self::Path => {
-                quote! {
-                    let #ident = ::pyo3::types::PyAnyMethods::call1(
-                        &::pyo3::types::PyAnyMethods::getattr(
-                            py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
-                            ::pyo3::intern!(py, "Path"),
-                        )?,
-                        (#ident,),
-                    )?;
-                }
-            }
             Self::PyTuple(inner_types) if inner_types.len() < 2 => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
@@ -105,10 +70,121 @@ impl Type {
                     let #ident = #ident.bind(py);
                 }
             }
+            Self::Optional(..) | Self::PyTuple(..) if self.needs_conversion() => {
+                let converted = self.convert_to_object(&quote!(&#ident));
+                quote! {
+                    let #ident = #converted;
+                }
+            }
+            _ if self.needs_conversion() => {
+                let converted = self.convert_to_object(&quote!(#ident));
+                quote! {
+                    let #ident = #converted;
+                }
+            }
             _ => proc_macro2::TokenStream::new(),
         }
     }
 
+    /// Rust counterpart of this type (or of a type nested in it) would be converted to
+    /// a different Python type (list, set, str).
+    fn needs_conversion(&self) -> bool {
+        match self {
+            Self::PyByteArray | Self::PyBytes | Self::Path => true,
+            Self::PyFrozenSet(inner_type) => inner_type.is_hashable(),
+            Self::PySet(inner_type) => inner_type.is_hashable() && inner_type.needs_conversion(),
+            Self::Optional(inner_type) | Self::PyList(inner_type) => inner_type.needs_conversion(),
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => {
+                key_type.is_hashable()
+                    && (key_type.needs_conversion() || value_type.needs_conversion())
+            }
+            Self::PyTuple(inner_types) => {
+                (inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis)
+                    || (inner_types.len() > 1 && inner_types.iter().any(Self::needs_conversion))
+            }
+            _ => false,
+        }
+    }
+
+    /// Expression that converts a reference to a value of this type to the Python object.
+    fn convert_to_object(&self, value: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+        let object = match self {
+            _ if !self.needs_conversion() => quote!(#value),
+            Self::PyByteArray => quote!(&::pyo3::types::PyByteArray::new_bound(py, #value)),
+            Self::PyBytes => quote!(&::pyo3::types::PyBytes::new_bound(py, #value)),
+            Self::Path => quote! {
+                &::pyo3::types::PyAnyMethods::call1(
+                    &::pyo3::types::PyAnyMethods::getattr(
+                        py.import_bound(::pyo3::intern!(py, "pathlib"))?.as_any(),
+                        ::pyo3::intern!(py, "Path"),
+                    )?,
+                    (#value,),
+                )?
+            },
+            Self::Optional(inner_type) => {
+                let item = inner_type.convert_to_object(&quote!(item));
+                quote!(&match #value {
+                    Some(item) => #item,
+                    None => py.None(),
+                })
+            }
+            Self::PyFrozenSet(inner_type) | Self::PySet(inner_type) | Self::PyList(inner_type) => {
+                let items = inner_type.convert_items(value);
+                match self {
+                    Self::PyFrozenSet(..) => {
+                        quote!(&::pyo3::types::PyFrozenSet::new_bound(py, &#items)?)
+                    }
+                    Self::PySet(..) => quote!(&::pyo3::types::PySet::new_bound(py, &#items)?),
+                    _ => quote!(&::pyo3::types::PyList::new_bound(py, #items)),
+                }
+            }
+            Self::PyDict {
+                key_type,
+                value_type,
+            } => {
+                let key = key_type.convert_to_object(&quote!(key));
+                let item = value_type.convert_to_object(&quote!(item));
+                return quote!({
+                    let dict = ::pyo3::types::PyDict::new_bound(py);
+                    for (key, item) in #value {
+                        ::pyo3::types::PyDictMethods::set_item(&dict, #key, #item)?;
+                    }
+                    ::pyo3::ToPyObject::to_object(&dict, py)
+                });
+            }
+            Self::PyTuple(inner_types) if inner_types[1] == Self::PyEllipsis => {
+                let items = inner_types[0].convert_items(value);
+                quote!(&::pyo3::types::PyTuple::new_bound(py, #items))
+            }
+            Self::PyTuple(inner_types) => {
+                let items = inner_types.iter().enumerate().map(|(i, inner_type)| {
+                    let i = syn::Index::from(i);
+                    inner_type.convert_to_object(&quote!(&item.#i))
+                });
+                return quote!({
+                    let item = #value;
+                    let items = ::pyo3::types::PyTuple::new_bound(py, [#(#items),*]);
+                    ::pyo3::ToPyObject::to_object(&items, py)
+                });
+            }
+            _ => unreachable!(),
+        };
+        quote!(::pyo3::ToPyObject::to_object(#object, py))
+    }
+
+    fn convert_items(&self, values: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
+        let item = self.convert_to_object(&quote!(item));
+        quote! {
+            #values
+                .iter()
+                .map(|item| -> ::pyo3::PyResult<::pyo3::PyObject> { Ok(#item) })
+                .collect::<::pyo3::PyResult<Vec<_>>>()?
+        }
+    }
+
     fn into_rs(self, local_types: &HashMap<Path, Path>) -> OutputType {
         match self {
             Self::PyAny | Self::Unknown => OutputType::new(
-- 
2.43.0


From ee20d49b58c45fef49d3a3b1b2b1b7967c1cc9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:28 +0000
Subject: [PATCH 41/56] fix: make embedded modules with dotted names importable
 (create missing parents)

---
 pyo3_bindgen_engine/src/syntax/module.rs | 54 ++++++++++++++++++------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index ed91a2d..919905b 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -499,24 +499,52 @@ impl Module {
         let embed_source_code_fn = if let Some(source_code) = &self.source_code {
             let module_name = self.name.to_py();
             let file_name = format!("{module_name}/__init__.py");
+            let embed = quote::quote! {
+                pyo3::types::PyAnyMethods::set_item(
+                    &pyo3::types::PyAnyMethods::getattr(
+                        py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
+                        pyo3::intern!(py, "modules"),
+                    )?,
+                    #module_name,
+                    pyo3::types::PyModule::from_code_bound(
+                        py,
+                        SOURCE_CODE,
+                        #file_name,
+                        #module_name,
+                    )?,
+                )
+            };
+            // The module is an attribute of its parent, which might not exist outside of the embedded source code
+            let embed = module_name.rmatch_indices('.').fold(embed, |acc, (i, _)| {
+                let parent_name = &module_name[..i];
+                let attr_name = module_name[i + 1..].split('.').next();
+                let name = &module_name[..i + 1 + attr_name.map_or(0, str::len)];
+                quote::quote! {
+                    #acc?;
+                    let modules = pyo3::types::PyAnyMethods::getattr(
+                        py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
+                        pyo3::intern!(py, "modules"),
+                    )?;
+                    if py.import_bound(pyo3::intern!(py, #parent_name)).is_err() {
+                        pyo3::types::PyAnyMethods::set_item(
+                            &modules,
+                            #parent_name,
+                            pyo3::types::PyModule::new_bound(py, #parent_name)?,
+                        )?;
+                    }
+                    pyo3::types::PyAnyMethods::setattr(
+                        &pyo3::types::PyAnyMethods::get_item(&modules, #parent_name)?,
+                        #attr_name,
+                        pyo3::types::PyAnyMethods::get_item(&modules, #name)?,
+                    )
+                }
+            });
             quote::quote! {
                 /// Embed the Python source code of the module into the Python interpreter
                 /// in order to enable the use of the generated Rust bindings.
                 pub fn pyo3_embed_python_source_code<'py>(py: ::pyo3::marker::Python<'py>) -> ::pyo3::PyResult<()> {
                     const SOURCE_CODE: &str = #source_code;
-                    pyo3::types::PyAnyMethods::set_item(
-                        &pyo3::types::PyAnyMethods::getattr(
-                            py.import_bound(pyo3::intern!(py, "sys"))?.as_any(),
-                            pyo3::intern!(py, "modules"),
-                        )?,
-                        #module_name,
-                        pyo3::types::PyModule::from_code_bound(
-                            py,
-                            SOURCE_CODE,
-                            #file_name,
-                            #module_name,
-                        )?,
-                    )
+                    #embed
                 }
             }
         } else {
-- 
2.43.0


From 2a282cd331f65b9a6b3b657e5eeac999ade3be69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:41 +0000
Subject: [PATCH 42/56] fix: Convert nested containers in generated bindings by
 their references

---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 98ba701..774f042 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -149,7 +149,7 @@ impl Type {
                 let item = value_type.convert_to_object(&quote!(item));
                 return quote!({
                     let dict = ::pyo3::types::PyDict::new_bound(py);
-                    for (key, item) in #value {
+                    for (key, item) in (#value) {
                         ::pyo3::types::PyDictMethods::set_item(&dict, #key, #item)?;
                     }
                     ::pyo3::ToPyObject::to_object(&dict, py)
@@ -178,7 +178,7 @@ impl Type {
     fn convert_items(&self, values: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
         let item = self.convert_to_object(&quote!(item));
         quote! {
-            #values
+            (#values)
                 .iter()
                 .map(|item| -> ::pyo3::PyResult<::pyo3::PyObject> { Ok(#item) })
                 .collect::<::pyo3::PyResult<Vec<_>>>()?
-- 
2.43.0


From 53cc2626b11380f5f68d7a26afb470c431a3684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 43/56] fix: map tuples of more than 12 elements to PyTuple

pyo3 implements the conversions of Rust tuples only for up to 12 elements.
---
 pyo3_bindgen_engine/src/typing/into_rs.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/into_rs.rs b/pyo3_bindgen_engine/src/typing/into_rs.rs
index 774f042..342265e 100644
--- a/pyo3_bindgen_engine/src/typing/into_rs.rs
+++ b/pyo3_bindgen_engine/src/typing/into_rs.rs
@@ -37,7 +37,7 @@ impl Type {
                     let #ident = ::pyo3::types::IntoPyDict::into_py_dict_bound(#ident, py);
                 }
             }
-            Self::PyTuple(inner_types) if inner_types.len() < 2 => {
+            Self::PyTuple(inner_types) if !Self::is_rust_tuple(inner_types) => {
                 quote! {
                     let #ident = ::pyo3::IntoPy::<::pyo3::Py<::pyo3::types::PyTuple>>::into_py(#ident, py);
                     let #ident = #ident.bind(py);
@@ -103,12 +103,18 @@ impl Type {
             }
             Self::PyTuple(inner_types) => {
                 (inner_types.len() == 2 && inner_types[1] == Self::PyEllipsis)
-                    || (inner_types.len() > 1 && inner_types.iter().any(Self::needs_conversion))
+                    || (Self::is_rust_tuple(inner_types)
+                        && inner_types.iter().any(Self::needs_conversion))
             }
             _ => false,
         }
     }
 
+    /// Conversions are implemented only for Rust tuples of up to 12 elements.
+    fn is_rust_tuple(inner_types: &[Self]) -> bool {
+        (2..=12).contains(&inner_types.len())
+    }
+
     /// Expression that converts a reference to a value of this type to the Python object.
     fn convert_to_object(&self, value: &proc_macro2::TokenStream) -> proc_macro2::TokenStream {
         let object = match self {
@@ -272,7 +278,7 @@ impl Type {
                 }
             }
             Self::PyTuple(inner_types) => {
-                if inner_types.len() < 2 {
+                if !Self::is_rust_tuple(&inner_types) {
                     OutputType::new(
                         quote!(::pyo3::Bound<'py, ::pyo3::types::PyTuple>),
                         quote!(impl ::pyo3::IntoPy<::pyo3::Py<::pyo3::types::PyTuple>>),
-- 
2.43.0


From f7eecb3759d44cd6b79dd59ee11c2691e67c265e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:01 +0000
Subject: [PATCH 44/56] fix: leave out imports whose name is no Rust identifier

`from pkg.a import f as self` made the generation of the whole crate fail.
---
 pyo3_bindgen_engine/src/syntax/import.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/import.rs b/pyo3_bindgen_engine/src/syntax/import.rs
index a3e3b5b..4155937 100644
--- a/pyo3_bindgen_engine/src/syntax/import.rs
+++ b/pyo3_bindgen_engine/src/syntax/import.rs
@@ -53,7 +53,13 @@ impl Import {
             let maybe_alias = if self.origin.name() == self.target.name() {
                 proc_macro2::TokenStream::new()
             } else {
-                let alias: syn::Ident = self.target.name().try_into()?;
+                let Ok(alias) = syn::Ident::try_from(self.target.name()) else {
+                    eprintln!(
+                        "WARN: Import '{}' is an invalid Rust ident. Bindings will not be generated.",
+                        self.target
+                    );
+                    return Ok(proc_macro2::TokenStream::new());
+                };
                 quote::quote! { as #alias }
             };
 
-- 
2.43.0


From 86de0358aa93decce2fea32cd1353b5ae3a7d258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 45/56] fix: let a class or type variable overwrite the
 submodule of the same name

Both were generated under one name, which does not compile. Imports already overwrite submodules.
---
 pyo3_bindgen_engine/src/syntax/module.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 919905b..2449fdd 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -178,10 +178,18 @@ impl Module {
                             Class::parse(cfg, attr.downcast().unwrap_or_else(|_| unreachable!(
                                 "The attribute is known to be a class at this point"
                             )), attr_name_full)?;
+                        if cfg.generate_classes {
+                            // The class overwrites a submodule of the same name
+                            submodules_to_process.remove(&attr_name);
+                        }
                         classes.push(class);
                     }
                     AttributeVariant::TypeVar => {
                         let type_var = TypeVar::new(attr_name_full);
+                        if cfg.generate_type_vars {
+                            // The type variable overwrites a submodule of the same name
+                            submodules_to_process.remove(&attr_name);
+                        }
                         type_vars.push(type_var);
                     }
                     AttributeVariant::Function => {
-- 
2.43.0


From 06ed25bf2fa3e7b3378af8ea5936b7b1278e3185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:55 +0000
Subject: [PATCH 46/56] fix: name the methods trait of a class differently if
 an import or submodule has that name

---
 pyo3_bindgen_engine/src/syntax/class.rs  | 5 +++--
 pyo3_bindgen_engine/src/syntax/module.rs | 7 ++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index 314035d..bde0cdb 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -144,6 +144,7 @@ impl Class {
     pub fn generate(
         &self,
         cfg: &Config,
+        sibling_idents: &[&Ident],
         local_types: &HashMap<Path, Path>,
     ) -> Result<proc_macro2::TokenStream> {
         let mut output = proc_macro2::TokenStream::new();
@@ -300,13 +301,13 @@ impl Class {
                     "{struct_ident}Methods{}",
                     (i > 0).then(|| i.to_string()).unwrap_or_default()
                 ));
-                // Avoid name clashes with other types of the module
+                // Avoid name clashes with other types, imports and submodules of the module
                 let path = self
                     .name
                     .parent()
                     .unwrap_or_default()
                     .join(&ident.clone().into());
-                if !local_types.contains_key(&path) {
+                if !local_types.contains_key(&path) && !sibling_idents.contains(&&ident) {
                     break ident;
                 }
                 i += 1;
diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 2449fdd..62b754a 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -437,10 +437,15 @@ impl Module {
         }
         // Classes
         if cfg.generate_classes {
+            let sibling_idents = imports
+                .iter()
+                .map(|import| import.target.name())
+                .chain(self.submodules.iter().map(|module| module.name.name()))
+                .collect::<Vec<_>>();
             module_content.extend(
                 self.classes
                     .iter()
-                    .map(|class| class.generate(cfg, &local_types))
+                    .map(|class| class.generate(cfg, &sibling_idents, &local_types))
                     .collect::<Result<proc_macro2::TokenStream>>()?,
             );
         }
-- 
2.43.0


From b5bd5ce0ac2cf46fbd42d9131d47e34bc9831b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 47/56] fix: do not bind a property under the number of a
 constructor or call whose name is taken

---
 pyo3_bindgen_engine/src/syntax/class.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/class.rs b/pyo3_bindgen_engine/src/syntax/class.rs
index bde0cdb..e01c514 100644
--- a/pyo3_bindgen_engine/src/syntax/class.rs
+++ b/pyo3_bindgen_engine/src/syntax/class.rs
@@ -254,6 +254,15 @@ impl Class {
             }) {
                 scoped_function_idents_extra.push(Ident::from_py("call"));
             }
+            // The constructor and the call are numbered if a method has the same name
+            for ident in &mut scoped_function_idents_extra {
+                let name = ident.clone();
+                let mut i = 0;
+                while scoped_function_idents.contains(&&*ident) {
+                    i += 1;
+                    *ident = Ident::from_py(&format!("{}{i}", name.as_py()));
+                }
+            }
             scoped_function_idents.extend(scoped_function_idents_extra.iter());
             self.properties
                 .iter()
-- 
2.43.0


From 22a95c22c53cbd14c25f5d2bf711d3753df1d80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 48/56] fix: bind values of types.SimpleNamespace as properties

---
 pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
index 90f9202..6143f82 100644
--- a/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
+++ b/pyo3_bindgen_engine/src/syntax/common/attribute_variant.rs
@@ -59,7 +59,12 @@ impl AttributeVariant {
             .is_truthy()?;
         let is_closure =
             attr_type_module.to_py().as_str() == "functools" && attr_type_name.as_py() == "partial";
-        let is_type = ["typing", "types"].contains(&attr_type_module.to_py().as_str());
+        // Note: Not everything from the `types` module describes a type, e.g. `types.SimpleNamespace`
+        let is_type = match attr_type_module.to_py().as_str() {
+            "typing" => true,
+            "types" => ["GenericAlias", "UnionType"].contains(&attr_type_name.as_py()),
+            _ => false,
+        };
 
         // Some decorators might make a class look external, but they tend to include "<locals>" in their name
         let is_in_locals = attr.to_string().contains("<locals>");
-- 
2.43.0


From 30febd147056bb5bb728616bc3d9b6cc8780b769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:29 +0000
Subject: [PATCH 49/56] fix: do not panic on a union of None and an annotated
 None

---
 pyo3_bindgen_engine/src/typing/from_py.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/pyo3_bindgen_engine/src/typing/from_py.rs b/pyo3_bindgen_engine/src/typing/from_py.rs
index c58430a..fae2d80 100644
--- a/pyo3_bindgen_engine/src/typing/from_py.rs
+++ b/pyo3_bindgen_engine/src/typing/from_py.rs
@@ -142,19 +142,14 @@ impl Type {
                     match wrapping_type {
                         Self::PyTuple(..) => Self::PyTuple(inner_types),
                         _ if inner_types.is_empty() => wrapping_type,
-                        Self::Union(..) => {
-                            if inner_types.len() == 2 && inner_types.contains(&Self::PyNone) {
-                                Self::Optional(Box::new(
-                                    inner_types
-                                        .iter()
-                                        .find(|x| **x != Self::PyNone)
-                                        .unwrap_or_else(|| unreachable!())
-                                        .to_owned(),
-                                ))
-                            } else {
-                                Self::Union(inner_types)
+                        Self::Union(..) => match inner_types.as_slice() {
+                            [inner_type, Self::PyNone] | [Self::PyNone, inner_type]
+                                if *inner_type != Self::PyNone =>
+                            {
+                                Self::Optional(Box::new(inner_type.to_owned()))
                             }
-                        }
+                            _ => Self::Union(inner_types),
+                        },
                         Self::Optional(..) => {
                             // debug_assert_eq!(inner_types.len(), 1);
                             Self::Optional(Box::new(inner_types[0].clone()))
-- 
2.43.0


From 2b659940af3aaeeb93e3842640f43de3788a647c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 50/56] fix: let classes and type variables overwrite modules
 that were added by name

---
 pyo3_bindgen_engine/src/codegen.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index a4240fd..6bdb77e 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -283,6 +283,26 @@ impl Codegen {
 
         // Merge duplicate modules in the tree
         self.merge_duplicate_modules();
+
+        // Let classes and type variables overwrite the submodules of the same name
+        Self::overwrite_submodules(&self.cfg, &mut self.modules);
+    }
+
+    /// Types and modules share a namespace in Rust, so a module that was added by its name
+    /// (e.g. `mod.name`) must make way for a class or type variable `name` of its parent `mod`.
+    fn overwrite_submodules(cfg: &Config, modules: &mut [Module]) {
+        for module in modules {
+            let classes = module.classes.iter().map(|class| &class.name);
+            let type_vars = module.type_vars.iter().map(|type_var| &type_var.name);
+            let types: HashSet<_> = classes
+                .filter(|_| cfg.generate_classes)
+                .chain(type_vars.filter(|_| cfg.generate_type_vars))
+                .collect();
+            module
+                .submodules
+                .retain(|submodule| !types.contains(&submodule.name));
+            Self::overwrite_submodules(cfg, &mut module.submodules);
+        }
     }
 
     fn merge_duplicate_modules(&mut self) {
-- 
2.43.0


From 55037df1d9e97294072295261425c6719a3b20d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:02 +0000
Subject: [PATCH 51/56] fix: leave out submodules that are not modules

---
 pyo3_bindgen_engine/src/syntax/module.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index 62b754a..efd0917 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -235,12 +235,12 @@ impl Module {
                     {
                         if let Ok(submodule) = py
                             .import_bound(full_submodule_name.to_py().as_str())
-                            .map_err(crate::PyBindgenError::from)
-                            .map(|attr| {
-                                <pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
-                                    .downcast_into::<pyo3::types::PyModule>()
-                                    .unwrap()
+                            // Note: Modules can replace themselves with any object while they are imported
+                            .and_then(|attr| {
+                                Ok(<pyo3::Bound<'_, PyAny> as Clone>::clone(&attr)
+                                    .downcast_into::<pyo3::types::PyModule>()?)
                             })
+                            .map_err(crate::PyBindgenError::from)
                             .and_then(|module| Self::parse(cfg, &module))
                         {
                             // It could be any attribute, so all of them need to be checked
@@ -296,6 +296,8 @@ impl Module {
                                 .and_then(|attr| Ok(attr.downcast_into::<pyo3::types::PyModule>()?))
                         })
                         .ok()
+                        // Note: Modules can replace themselves with any object while they are imported
+                        .filter(|submodule| submodule.is_instance_of::<pyo3::types::PyModule>())
                 })
                 .map(|submodule| Self::parse(cfg, &submodule))
                 .collect::<Result<_>>()?
-- 
2.43.0


From 956a5e16cf314d067638912b33f2ae539e648a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:04 +0000
Subject: [PATCH 52/56] fix: do not panic if the docstring of a parent package
 cannot be read

---
 pyo3_bindgen_engine/src/syntax/module.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index efd0917..c29a608 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -26,8 +26,11 @@ impl Module {
     pub fn empty(py: pyo3::Python, name: Path) -> Result<Self> {
         // Extract the docstring of the module
         // Note: The parents of modules parsed from source code do not have to exist
-        let docstring = if let Ok(module) = py.import_bound(name.to_py().as_str()) {
-            let docstring = module.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
+        let docstring = if let Ok(docstring) = py
+            .import_bound(name.to_py().as_str())
+            .and_then(|module| module.getattr(pyo3::intern!(py, "__doc__")))
+        {
+            let docstring = docstring.to_string();
             if docstring.is_empty() || docstring == "None" {
                 None
             } else {
-- 
2.43.0


From 645743253f2cb2257ae02d1a8a831b2b0ffc4eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:01 +0000
Subject: [PATCH 53/56] fix: mute Python output while bindings are generated

---
 pyo3_bindgen_engine/src/codegen.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/pyo3_bindgen_engine/src/codegen.rs b/pyo3_bindgen_engine/src/codegen.rs
index 6bdb77e..e894dad 100644
--- a/pyo3_bindgen_engine/src/codegen.rs
+++ b/pyo3_bindgen_engine/src/codegen.rs
@@ -145,13 +145,25 @@ impl Codegen {
     }
 
     /// Generate the Rust FFI bindings for all modules added to the engine.
-    pub fn generate(mut self) -> Result<proc_macro2::TokenStream> {
+    pub fn generate(self) -> Result<proc_macro2::TokenStream> {
         if self.modules.is_empty() {
             return Err(PyBindgenError::CodegenError(
                 "There are no modules for which to generate bindings".to_string(),
             ));
         }
 
+        // Note: Dependencies and parent packages might be imported for the first time during the generation
+        pyo3::Python::with_gil(|py| {
+            crate::io_utils::with_suppressed_python_output(
+                py,
+                self.cfg.suppress_python_stdout,
+                self.cfg.suppress_python_stderr,
+                || self.generate_bindings(),
+            )
+        })
+    }
+
+    fn generate_bindings(mut self) -> Result<proc_macro2::TokenStream> {
         // Parse external modules (if enabled)
         if self.cfg.generate_dependencies {
             self.parse_dependencies()?;
-- 
2.43.0


From 17b1e67f757b43d56e72f626152dfe6d6b2bec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:15 +0000
Subject: [PATCH 54/56] fix: do not document partial functions with the
 docstring of functools.partial

---
 pyo3_bindgen_engine/src/syntax/function.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index 46cdd89..e0333ff 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -41,9 +41,15 @@ impl Function {
         let py = function.py();
 
         // Extract the docstring of the function
+        // Note: Partial functions without a docstring of their own show the one of `functools.partial`
         let docstring = {
-            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?.to_string();
-            if docstring.is_empty() || docstring == "None" {
+            let docstring = function.getattr(pyo3::intern!(py, "__doc__"))?;
+            let is_inherited = function
+                .get_type()
+                .getattr(pyo3::intern!(py, "__doc__"))
+                .is_ok_and(|type_docstring| docstring.is(&type_docstring));
+            let docstring = docstring.to_string();
+            if is_inherited || docstring.is_empty() || docstring == "None" {
                 None
             } else {
                 Some(docstring)
-- 
2.43.0


From f7a1cd9671f83075f1813a1636dcdd45513b450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:00 +0000
Subject: [PATCH 55/56] fix: leave out submodules that go by another name

---
 pyo3_bindgen_engine/src/syntax/module.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyo3_bindgen_engine/src/syntax/module.rs b/pyo3_bindgen_engine/src/syntax/module.rs
index c29a608..1fab80d 100644
--- a/pyo3_bindgen_engine/src/syntax/module.rs
+++ b/pyo3_bindgen_engine/src/syntax/module.rs
@@ -301,6 +301,12 @@ impl Module {
                         .ok()
                         // Note: Modules can replace themselves with any object while they are imported
                         .filter(|submodule| submodule.is_instance_of::<pyo3::types::PyModule>())
+                        // Note: Other names of a module would result in its bindings being generated multiple times
+                        .filter(|submodule| {
+                            submodule.name().is_ok_and(|submodule_name| {
+                                Path::from_py(&submodule_name.to_string()) == full_submodule_name
+                            })
+                        })
                 })
                 .map(|submodule| Self::parse(cfg, &submodule))
                 .collect::<Result<_>>()?
-- 
2.43.0


From 8c3828191303d0911d6e86462d05bab44bf38f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:53 +0000
Subject: [PATCH 56/56] fix: determine the kind of methods if another attribute
 has the name of their module

---
 pyo3_bindgen_engine/src/syntax/function.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/pyo3_bindgen_engine/src/syntax/function.rs b/pyo3_bindgen_engine/src/syntax/function.rs
index e0333ff..b567839 100644
--- a/pyo3_bindgen_engine/src/syntax/function.rs
+++ b/pyo3_bindgen_engine/src/syntax/function.rs
@@ -133,21 +133,17 @@ impl Function {
                     class_path,
                     typ: method_typ,
                 } if *method_typ == MethodType::Unknown => {
-                    // Get the class object from its class path
+                    // Get the class object from its module
+                    // Note: The module might not be accessible as an attribute of its parent package (overwritten by another attribute)
                     let class = py
                         .import_bound(
                             class_path
-                                .root()
+                                .parent()
                                 .unwrap_or_else(|| unreachable!())
                                 .to_py()
                                 .as_str(),
                         )
-                        .and_then(|root_module| {
-                            class_path.iter().skip(1).try_fold(
-                                root_module.extract::<&pyo3::types::PyAny>()?,
-                                |module, name| module.getattr(name.as_py()),
-                            )
-                        });
+                        .and_then(|module| module.getattr(class_path.name().as_py()));
 
                     // Try to get the static object of the method (from __dict__), which still contains information about what kind of method it is
                     if let Ok(static_fn_obj) = class.and_then(|class| {
-- 
2.43.0

