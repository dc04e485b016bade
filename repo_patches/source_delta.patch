From 5894243702b8d03bdb2346cb4b3ed01d5a5ffcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:36:51 +0000
Subject: [PATCH 01/27] fix: paths: do not report a self-referencing item as
 its own child

The item was only added to the set of seen items after its children had been
filtered, so a self edge passed the filter and, when the recursive call
returned, removed the item from the set while it was still on the path.
---
 analyze/analyses/paths/mod.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 70b84e0..2b2dd80 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -109,6 +109,11 @@ fn create_entry(
     let name = item.name().to_string();
     let size = item.size();
 
+    // Temporarily add the current item to the set of discovered nodes. This
+    // happens before we look at the neighbors, so that an item that references
+    // itself is not considered its own child.
+    seen.insert(id);
+
     // Collect the `ir::Id` values of this entry's children, depending on
     // whether we are ascending or descending the IR-tree.
     let children_ids: Vec<ir::Id> = if opts.descending() {
@@ -127,9 +132,8 @@ fn create_entry(
             .collect()
     };
 
-    // Temporarily add the current item to the set of discovered nodes, and
-    // create an entry for each child. Collect these into a `children` vector.
-    seen.insert(id);
+    // Create an entry for each child, and collect these into a `children`
+    // vector.
     let children = children_ids
         .into_iter()
         .map(|id| create_entry(id, items, opts, seen))
-- 
2.43.0


From 1cf02da153336b56d5cf3cb7856c4e20fa40216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:16 +0000
Subject: [PATCH 02/27] fix: monos: count every instantiation, even with equal
 name and size

Collecting the instantiations in a set merged the ones that share a name and
a size, so totals, bloat and row counts missed them.
---
 analyze/analyses/monos/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index b6c1a3a..6e74aae 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -1,5 +1,5 @@
 use std::cmp;
-use std::collections::{BTreeMap, BTreeSet};
+use std::collections::BTreeMap;
 
 use regex;
 use twiggy_ir as ir;
@@ -29,7 +29,7 @@ fn collect_monomorphizations<'a>(
     let using_regexps = opts.using_regexps();
     let regexps = regex::RegexSet::new(opts.functions())?;
 
-    let unsorted_monos: BTreeMap<&'a str, BTreeSet<(String, u32)>> = items
+    let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
         .filter_map(|item| {
             if let Some(generic) = item.monomorphization_of() {
@@ -46,15 +46,14 @@ fn collect_monomorphizations<'a>(
         .fold(BTreeMap::new(), |mut monos, (generic, inst)| {
             monos
                 .entry(generic)
-                .or_insert_with(BTreeSet::new)
-                .insert((inst.name().to_string(), inst.size()));
+                .or_insert_with(Vec::new)
+                .push((inst.name().to_string(), inst.size()));
             monos
         });
 
     Ok(unsorted_monos
         .into_iter()
-        .map(|(generic, inst_set)| {
-            let mut insts = inst_set.into_iter().collect::<Vec<_>>();
+        .map(|(generic, mut insts)| {
             insts.sort_by(|(a_name, a_size), (b_name, b_size)| {
                 b_size.cmp(a_size).then(a_name.cmp(b_name))
             });
-- 
2.43.0


From d0aa30e877057b4ac4c876f2f0fa8b9c6518a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:22 +0000
Subject: [PATCH 03/27] fix: monos: only compile the given names as regexes
 with --regex

An exact generic name that is not a valid regex, such as `operator[]` with an
unbalanced bracket or a lone parenthesis, was rejected.
---
 analyze/analyses/monos/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/monos/mod.rs b/analyze/analyses/monos/mod.rs
index 6e74aae..11a8103 100644
--- a/analyze/analyses/monos/mod.rs
+++ b/analyze/analyses/monos/mod.rs
@@ -27,7 +27,11 @@ fn collect_monomorphizations<'a>(
 ) -> anyhow::Result<MonosMap<'a>> {
     let args_given = !opts.functions().is_empty();
     let using_regexps = opts.using_regexps();
-    let regexps = regex::RegexSet::new(opts.functions())?;
+    let regexps = if using_regexps {
+        regex::RegexSet::new(opts.functions())?
+    } else {
+        regex::RegexSet::empty()
+    };
 
     let unsorted_monos: BTreeMap<&'a str, Vec<(String, u32)>> = items
         .iter()
-- 
2.43.0


From 4e5187fe951e0edf54280c9023ded1f2f6205fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:29 +0000
Subject: [PATCH 04/27] fix: dominators: display at most -r rows

The row limit was off by one, ignored for the items given as arguments, and
rows hidden by the depth limit were counted.
---
 analyze/analyses/dominators/emit.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 28b53d5..69735fe 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -36,19 +36,19 @@ impl traits::Emit for DominatorTree {
         ) {
             assert_eq!(id == items.meta_root(), depth == 0);
 
-            if *row > opts.max_rows() || depth > opts.max_depth() {
+            if *row >= opts.max_rows() || depth > opts.max_depth() {
                 return;
             }
 
             if depth > 0 {
                 add_text_item(items, depth, id, table);
+                *row += 1;
             }
 
             if let Some(children) = dominator_tree.get(&id) {
                 let mut children = children.to_vec();
                 children.sort_by(|a, b| items.retained_size(*b).cmp(&items.retained_size(*a)));
                 for child in children {
-                    *row += 1;
                     recursive_add_rows(
                         table,
                         items,
-- 
2.43.0


From 7bc1bc4f005e1e1609f99ccf50f359fd79c515ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:35 +0000
Subject: [PATCH 05/27] fix: dominators: restrict CSV output to the given
 items, like text and JSON

---
 analyze/analyses/dominators/emit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/analyze/analyses/dominators/emit.rs b/analyze/analyses/dominators/emit.rs
index 69735fe..085c948 100644
--- a/analyze/analyses/dominators/emit.rs
+++ b/analyze/analyses/dominators/emit.rs
@@ -165,7 +165,9 @@ impl traits::Emit for DominatorTree {
         }
 
         let mut wtr = csv::Writer::from_writer(dest);
-        recursive_add_children(items, &self.opts, &self.tree, items.meta_root(), &mut wtr)?;
+        for id in &self.items {
+            recursive_add_children(items, &self.opts, &self.tree, *id, &mut wtr)?;
+        }
 
         if let Some(UnreachableItemsSummary {
             count,
-- 
2.43.0


From 3ea97e50ab7cefe791a327ba0d969bfddc6699a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:42 +0000
Subject: [PATCH 06/27] fix: wasm: treat constant load addresses as unsigned

A negative i32.const was sign extended, and adding the memarg offset to it
overflowed: a panic in debug builds, the wrong address otherwise.
---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index dee5313..cfef52f 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -609,7 +609,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     | Operator::F32Load { memarg }
                     | Operator::F64Load { memarg } => {
                         if let Some(Operator::I32Const { value }) = prev {
-                            if let Some(data_id) = items.get_data(value as u64 + memarg.offset) {
+                            // Addresses are unsigned, so do not sign extend.
+                            let addr = u64::from(value as u32) + memarg.offset;
+                            if let Some(data_id) = items.get_data(addr) {
                                 edges.push((body_id, data_id));
                             }
                         }
-- 
2.43.0


From 6305e7a1d3ee78ee1f2b11af01465a065c8a807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:37:48 +0000
Subject: [PATCH 07/27] fix: wasm: add edges for return_call and ref.func

Functions only referenced by a tail call or a ref.func were reported as
garbage.
---
 parser/wasm_parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index cfef52f..d8341de 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -579,7 +579,9 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
             for op in body.get_operators_reader()? {
                 let prev = cache.take();
                 match op? {
-                    Operator::Call { function_index } => {
+                    Operator::Call { function_index }
+                    | Operator::ReturnCall { function_index }
+                    | Operator::RefFunc { function_index } => {
                         let f_id = indices.functions[function_index as usize];
                         edges.push((body_id, f_id));
                     }
-- 
2.43.0


From 4b318cf3d1e434adb66eba2ef1a1ffb9e681a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:14 +0000
Subject: [PATCH 08/27] fix: wasm: treat constant data segment offsets as
 unsigned

Segments at or above 2 GiB have a negative i32.const offset and were never
considered by the lookup of constant load addresses.
---
 parser/wasm_parse/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index d8341de..de4f1b6 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -976,7 +976,7 @@ impl<'a> Parse<'a> for wasmparser::DataSectionReader<'a> {
             if let wasmparser::DataKind::Active { init_expr, .. } = d.kind {
                 let mut iter = init_expr.get_operators_reader();
                 let offset = match iter.read()? {
-                    Operator::I32Const { value } => Some(i64::from(value)),
+                    Operator::I32Const { value } => Some(i64::from(value as u32)),
                     Operator::I64Const { value } => Some(value),
                     _ => None,
                 };
-- 
2.43.0


From 4fe46717fa8dbd8ccae92d64083297305e4975fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:14 +0000
Subject: [PATCH 09/27] fix: diff: do not drop items that share a name

Only the last item of each name was compared, so the changes of the others
were missing from the diff and from its totals.
---
 analyze/analyses/diff.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/diff.rs b/analyze/analyses/diff.rs
index d7613f7..7ea84c3 100644
--- a/analyze/analyses/diff.rs
+++ b/analyze/analyses/diff.rs
@@ -101,11 +101,12 @@ pub fn diff(
     let max_items = opts.max_items() as usize;
 
     // Given a set of items, create a HashMap of the items' names and sizes.
+    // Different items may share a name, in which case their sizes are summed.
     fn get_names_and_sizes(items: &ir::Items) -> HashMap<&str, i64> {
-        items
-            .iter()
-            .map(|item| (item.name(), i64::from(item.size())))
-            .collect()
+        items.iter().fold(HashMap::new(), |mut sizes, item| {
+            *sizes.entry(item.name()).or_insert(0) += i64::from(item.size());
+            sizes
+        })
     }
 
     // Collect the names and sizes of the items in the old and new collections.
-- 
2.43.0


From fc6e88d81b6c21c95238d03ac6e8557f252ef4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:35 +0000
Subject: [PATCH 10/27] fix: json: escape backslashes and control characters in
 strings

They were emitted raw, which is not valid JSON.
---
 analyze/formats/json.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/analyze/formats/json.rs b/analyze/formats/json.rs
index c7b5ead..6b32231 100644
--- a/analyze/formats/json.rs
+++ b/analyze/formats/json.rs
@@ -14,8 +14,9 @@ impl<'a> JsonPrimitive for &'a str {
         for c in self.chars() {
             match c {
                 '"' => write!(w, "\\\"")?,
-                '\\' => write!(w, "\\")?,
-                '\n' => writeln!(w,)?,
+                '\\' => write!(w, "\\\\")?,
+                '\n' => write!(w, "\\n")?,
+                c if c < ' ' => write!(w, "\\u{:04x}", c as u32)?,
                 c => write!(w, "{}", c)?,
             }
         }
-- 
2.43.0


From aa5efdce40f1174e32b048223db608cc20e04c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:38:35 +0000
Subject: [PATCH 11/27] fix: report errors that occur while flushing the output
 file

The BufWriter of `-o FILE` was dropped without flushing it, so a failed write
(a full disk, for example) went unnoticed and twiggy exited successfully.
---
 twiggy/twiggy.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/twiggy/twiggy.rs b/twiggy/twiggy.rs
index e1119cf..345f802 100644
--- a/twiggy/twiggy.rs
+++ b/twiggy/twiggy.rs
@@ -3,6 +3,7 @@
 #![deny(missing_docs)]
 #![deny(missing_debug_implementations)]
 
+use std::io::Write;
 use std::process;
 use structopt::StructOpt;
 use twiggy_analyze as analyze;
@@ -34,5 +35,9 @@ fn run(opts: &opt::Options) -> anyhow::Result<()> {
 
     let mut dest = opts.output_destination().open()?;
 
-    data.emit(&items, &mut *dest, opts.output_format())
+    data.emit(&items, &mut *dest, opts.output_format())?;
+
+    // The destination is buffered, and dropping it ignores write errors.
+    dest.flush()?;
+    Ok(())
 }
-- 
2.43.0


From f305fa9f8910ff1b768bd4393d91c9372932e681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:39:11 +0000
Subject: [PATCH 12/27] fix: garbage: implement CSV output instead of panicking

---
 analyze/analyses/garbage.rs | 44 +++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/garbage.rs b/analyze/analyses/garbage.rs
index 77fce23..420ba40 100644
--- a/analyze/analyses/garbage.rs
+++ b/analyze/analyses/garbage.rs
@@ -1,7 +1,9 @@
 use std::collections::BTreeSet;
 use std::io;
 
+use csv;
 use petgraph::visit::Walker;
+use serde_derive::Serialize;
 
 use crate::formats::json;
 use crate::formats::table::{Align, Table};
@@ -137,8 +139,46 @@ impl traits::Emit for Garbage {
     }
 
     #[cfg(feature = "emit_csv")]
-    fn emit_csv(&self, _items: &ir::Items, _dest: &mut dyn io::Write) -> anyhow::Result<()> {
-        unimplemented!();
+    fn emit_csv(&self, items: &ir::Items, dest: &mut dyn io::Write) -> anyhow::Result<()> {
+        #[derive(Serialize, Debug)]
+        #[serde(rename_all = "PascalCase")]
+        struct CsvRecord {
+            name: String,
+            bytes: u32,
+            size_percent: f64,
+        }
+
+        let mut wtr = csv::Writer::from_writer(dest);
+        let mut add_record = |name: String, bytes: u32| -> anyhow::Result<()> {
+            wtr.serialize(CsvRecord {
+                name,
+                bytes,
+                size_percent: f64::from(bytes) / f64::from(items.size()) * 100.0,
+            })?;
+            wtr.flush()?;
+            Ok(())
+        };
+        let total_size = |ids: &[ir::Id]| -> u32 { ids.iter().map(|&id| items[id].size()).sum() };
+
+        let (shown, remaining) = self.items.split_at(self.limit.min(self.items.len()));
+        for &id in shown {
+            add_record(items[id].name().to_string(), items[id].size())?;
+        }
+        if !remaining.is_empty() {
+            let name = format!("... and {} more", remaining.len());
+            add_record(name, total_size(remaining))?;
+        }
+        let name = format!("Σ [{} Total Rows]", self.items.len());
+        add_record(name, total_size(&self.items))?;
+        if !self.data_segments.is_empty() {
+            let name = format!(
+                "{} potential false-positive data segments",
+                self.data_segments.len()
+            );
+            add_record(name, total_size(&self.data_segments))?;
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From c42874bd5669acfc99968f0656ffc2b0fc687951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:00 +0000
Subject: [PATCH 13/27] fix: wasm: return an error for out of bounds indices
 instead of panicking

---
 parser/wasm_parse/mod.rs | 46 ++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index de4f1b6..2e2d7cc 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -7,7 +7,7 @@ use wasmparser::{self, Operator, SectionReader, Type};
 
 #[derive(Default)]
 pub struct SectionIndices {
-    type_: Option<usize>,
+    types: Option<Vec<Option<Id>>>,
     code: Option<usize>,
     functions: Vec<Id>,
     tables: Vec<Id>,
@@ -15,6 +15,14 @@ pub struct SectionIndices {
     globals: Vec<Id>,
 }
 
+/// Look up the item with the given index in one of the module's index spaces.
+fn lookup(space: &[Id], kind: &str, index: u32) -> anyhow::Result<Id> {
+    space
+        .get(index as usize)
+        .copied()
+        .ok_or_else(|| anyhow!("{} index {} is out of bounds", kind, index))
+}
+
 struct IndexedSection<'a>(usize, wasmparser::Payload<'a>);
 
 struct CodeSection<'a> {
@@ -256,8 +264,15 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
         let mut indices = SectionIndices::default();
         for IndexedSection(idx, section) in sections.iter() {
             match section {
-                wasmparser::Payload::TypeSection(_reader) => {
-                    indices.type_ = Some(*idx);
+                wasmparser::Payload::TypeSection(reader) => {
+                    let mut types = Vec::new();
+                    for (i, ty) in reader.clone().into_iter().enumerate() {
+                        types.push(match ty? {
+                            wasmparser::TypeDef::Func(_) => Some(Id::entry(*idx, i)),
+                            _ => None,
+                        });
+                    }
+                    indices.types = Some(types);
                 }
                 wasmparser::Payload::ImportSection(reader) => {
                     for (i, import) in reader.clone().into_iter().enumerate() {
@@ -561,8 +576,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         // Function section reader parsing.
         for (func_i, type_ref) in iterate_with_size(&mut function_section.reader).enumerate() {
             let (type_ref, _) = type_ref?;
-            if let Some(type_idx) = indices.type_ {
-                let type_id = Id::entry(type_idx, type_ref as usize);
+            if let Some(types) = indices.types.as_ref() {
+                let type_id = types
+                    .get(type_ref as usize)
+                    .and_then(|id| *id)
+                    .ok_or_else(|| anyhow!("type index {} is out of bounds", type_ref))?;
                 if let Some(code_idx) = indices.code {
                     let body_id = Id::entry(code_idx, func_i);
                     edges.push((body_id, type_id));
@@ -582,7 +600,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::Call { function_index }
                     | Operator::ReturnCall { function_index }
                     | Operator::RefFunc { function_index } => {
-                        let f_id = indices.functions[function_index as usize];
+                        let f_id = lookup(&indices.functions, "function", function_index)?;
                         edges.push((body_id, f_id));
                     }
 
@@ -592,7 +610,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
                     Operator::CallIndirect { .. } => continue,
 
                     Operator::GlobalGet { global_index } | Operator::GlobalSet { global_index } => {
-                        let g_id = indices.globals[global_index as usize];
+                        let g_id = lookup(&indices.globals, "global", global_index)?;
                         edges.push((body_id, g_id));
                     }
 
@@ -859,16 +877,16 @@ impl<'a> Parse<'a> for wasmparser::ExportSectionReader<'a> {
             let exp_id = Id::entry(idx, i);
             match exp.kind {
                 wasmparser::ExternalKind::Function => {
-                    items.add_edge(exp_id, indices.functions[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.functions, "function", exp.index)?);
                 }
                 wasmparser::ExternalKind::Table => {
-                    items.add_edge(exp_id, indices.tables[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.tables, "table", exp.index)?);
                 }
                 wasmparser::ExternalKind::Memory => {
-                    items.add_edge(exp_id, indices.memories[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.memories, "memory", exp.index)?);
                 }
                 wasmparser::ExternalKind::Global => {
-                    items.add_edge(exp_id, indices.globals[exp.index as usize]);
+                    items.add_edge(exp_id, lookup(&indices.globals, "global", exp.index)?);
                 }
                 wasmparser::ExternalKind::Tag
                 | wasmparser::ExternalKind::Type
@@ -902,7 +920,7 @@ impl<'a> Parse<'a> for StartSection<'a> {
     ) -> anyhow::Result<()> {
         items.add_edge(
             Id::section(idx),
-            indices.functions[self.function_index as usize],
+            lookup(&indices.functions, "function", self.function_index)?,
         );
         Ok(())
     }
@@ -934,7 +952,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
 
             match elem.kind {
                 wasmparser::ElementKind::Active { table_index, .. } => {
-                    items.add_edge(indices.tables[table_index as usize], elem_id);
+                    items.add_edge(lookup(&indices.tables, "table", table_index)?, elem_id);
                 }
                 wasmparser::ElementKind::Declared => {}
                 wasmparser::ElementKind::Passive => {}
@@ -943,7 +961,7 @@ impl<'a> Parse<'a> for wasmparser::ElementSectionReader<'a> {
                 let element_item = element_item?;
                 match element_item {
                     wasmparser::ElementItem::Func(func_idx) => {
-                        items.add_edge(elem_id, indices.functions[func_idx as usize]);
+                        items.add_edge(elem_id, lookup(&indices.functions, "function", func_idx)?);
                     }
                     wasmparser::ElementItem::Null(_ty) => {}
                 }
-- 
2.43.0


From c95c867a82989d1fecb45e9ef951e72e93b305bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:18 +0000
Subject: [PATCH 14/27] fix: wasm: return an error for inconsistent sections
 instead of panicking

---
 parser/wasm_parse/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 2e2d7cc..6b58afd 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -1,5 +1,5 @@
 use super::Parse;
-use anyhow::anyhow;
+use anyhow::{anyhow, ensure};
 use std::collections::HashMap;
 use twiggy_ir::{self as ir, Id};
 use wasmparser::SectionWithLimitedItems;
@@ -78,12 +78,13 @@ impl<'a> ModuleReader<'a> {
         start_offset: usize,
         byte_range: wasmparser::Range,
     ) -> anyhow::Result<CodeSection<'a>> {
+        let data = self
+            .data
+            .get(byte_range.start..byte_range.end)
+            .ok_or_else(|| anyhow!("code section extends past the end of the wasm binary"))?;
         Ok(CodeSection {
             index: index,
-            reader: wasmparser::CodeSectionReader::new(
-                &self.data[byte_range.start..byte_range.end],
-                byte_range.start,
-            )?,
+            reader: wasmparser::CodeSectionReader::new(data, byte_range.start)?,
             byte_size: byte_range.end - start_offset,
         })
     }
@@ -222,7 +223,7 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let size = sizes
                 .get(&idx)
                 .ok_or_else(|| anyhow!("Could not find section size"))?;
-            assert!(added <= *size);
+            ensure!(added <= *size, "items are bigger than their section");
             items.add_root(ir::Item::new(id, name, size - added, ir::Misc::new()));
         }
 
@@ -515,6 +516,11 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
     ) -> anyhow::Result<()> {
         let (func_section, code_section) = self;
 
+        ensure!(
+            func_section.reader.get_count() == code_section.reader.get_count(),
+            "function and code sections have inconsistent lengths"
+        );
+
         let func_section_index = func_section.index;
         let func_items: Vec<ir::Item> = iterate_with_size(&mut func_section.reader)
             .enumerate()
@@ -554,7 +560,7 @@ impl<'a> Parse<'a> for (FunctionSection<'a>, CodeSection<'a>) {
         let func_section_size = func_section.byte_size as u32;
         let size = code_section_size + func_section_size;
 
-        assert!(added <= size);
+        ensure!(added <= size, "items are bigger than their section");
         items.add_root(ir::Item::new(id, name, size - added, ir::Misc::new()));
 
         Ok(())
-- 
2.43.0


From 88c651683c5dd39815ec74819e85154732382c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:40:24 +0000
Subject: [PATCH 15/27] fix: dwarf: return an error if high_pc is lower than
 low_pc

The subtraction overflowed: a panic in debug builds, a bogus size otherwise.
---
 parser/object_parse/die_parse/location_attrs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index d66bfba..c290229 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -53,7 +53,10 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
             (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                Ok(Some(high_pc - low_pc))
+                match high_pc.checked_sub(low_pc) {
+                    Some(size) => Ok(Some(size)),
+                    None => Err(anyhow!("DW_AT_high_pc is lower than DW_AT_low_pc")),
+                }
             }
             // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
             // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
-- 
2.43.0


From 3fd1c2d5c6723c0402087cd890a32e38e94c647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 16/27] fix: wasm: reject duplicate function and code sections

---
 parser/wasm_parse/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 6b58afd..69bf890 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -120,9 +120,11 @@ impl<'a> Parse<'a> for ModuleReader<'a> {
             let indexed_section = IndexedSection(idx, section);
             match indexed_section.1 {
                 wasmparser::Payload::CodeSectionStart { range, .. } => {
+                    ensure!(code_section.is_none(), "duplicate code section");
                     code_section = Some(self.new_code_section(idx, start, range)?);
                 }
                 wasmparser::Payload::FunctionSection(reader) => {
+                    ensure!(function_section.is_none(), "duplicate function section");
                     function_section = Some(FunctionSection {
                         index: idx,
                         byte_size: reader.range().end - start,
-- 
2.43.0


From 42e82188bfcf6d260a9ac58cc3b3288fde274e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 17/27] fix: wasm: reject trailing bytes in sections without
 items

---
 parser/wasm_parse/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/wasm_parse/mod.rs b/parser/wasm_parse/mod.rs
index 69bf890..4ff6fa4 100644
--- a/parser/wasm_parse/mod.rs
+++ b/parser/wasm_parse/mod.rs
@@ -1027,7 +1027,13 @@ fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
     s: &'a mut S,
 ) -> impl Iterator<Item = anyhow::Result<(S::Item, u32)>> + 'a {
     let count = s.get_count();
-    (0..count).map(move |i| {
+    // An empty section has no last item to check this after.
+    let trailing = if count == 0 {
+        s.ensure_end().err()
+    } else {
+        None
+    };
+    let items = (0..count).map(move |i| {
         let start = s.original_position();
         let item = s.read()?;
         let size = (s.original_position() - start) as u32;
@@ -1035,7 +1041,8 @@ fn iterate_with_size<'a, S: SectionWithLimitedItems + SectionReader>(
             s.ensure_end()?;
         }
         Ok((item, size))
-    })
+    });
+    trailing.into_iter().map(|e| Err(e.into())).chain(items)
 }
 
 fn ty2str(t: Type) -> &'static str {
-- 
2.43.0


From 6217b7db752c0adee722a484f1625bd93ed87a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:41 +0000
Subject: [PATCH 18/27] fix: ir: link data segments that end at the top of the
 address space

---
 ir/ir.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 5cb3d22..8c4229f 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -79,7 +79,9 @@ impl ItemsBuilder {
 
     /// Add a range of static data and the `Id` that defines it.
     pub fn link_data(&mut self, offset: i64, len: usize, id: Id) {
-        if offset >= 0 && offset <= i64::from(u32::MAX) && offset as usize + len < u32::MAX as usize
+        if offset >= 0
+            && offset <= i64::from(u32::MAX)
+            && offset as u64 + len as u64 <= u64::from(u32::MAX) + 1
         {
             self.data.insert(offset as u64, (id, len as u64));
         }
-- 
2.43.0


From f10f8e1d209fd4fbca414755247750ecdae5bd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:11 +0000
Subject: [PATCH 19/27] fix: paths: do not build the paths beyond the maximum
 depth

---
 analyze/analyses/paths/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/analyze/analyses/paths/mod.rs b/analyze/analyses/paths/mod.rs
index 2b2dd80..852953b 100644
--- a/analyze/analyses/paths/mod.rs
+++ b/analyze/analyses/paths/mod.rs
@@ -29,7 +29,7 @@ pub fn paths(items: &mut ir::Items, opts: &opt::Paths) -> anyhow::Result<Box<dyn
     let opts = opts.clone();
     let entries = get_starting_positions(items, &opts)?
         .iter()
-        .map(|id| create_entry(*id, items, &opts, &mut BTreeSet::new()))
+        .map(|id| create_entry(*id, items, &opts, 0, &mut BTreeSet::new()))
         .collect();
 
     let paths = Paths { opts, entries };
@@ -102,6 +102,7 @@ fn create_entry(
     id: ir::Id,
     items: &ir::Items,
     opts: &opt::Paths,
+    depth: u32,
     seen: &mut BTreeSet<ir::Id>,
 ) -> PathsEntry {
     // Determine the item's name and size.
@@ -115,8 +116,11 @@ fn create_entry(
     seen.insert(id);
 
     // Collect the `ir::Id` values of this entry's children, depending on
-    // whether we are ascending or descending the IR-tree.
-    let children_ids: Vec<ir::Id> = if opts.descending() {
+    // whether we are ascending or descending the IR-tree. There are none beyond
+    // the maximum depth, as the number of paths is exponential in the depth.
+    let children_ids: Vec<ir::Id> = if depth > opts.max_depth() {
+        Vec::new()
+    } else if opts.descending() {
         items
             .neighbors(id)
             .map(|id| id as ir::Id)
@@ -136,7 +140,7 @@ fn create_entry(
     // vector.
     let children = children_ids
         .into_iter()
-        .map(|id| create_entry(id, items, opts, seen))
+        .map(|id| create_entry(id, items, opts, depth.saturating_add(1), seen))
         .collect();
     seen.remove(&id);
 
-- 
2.43.0


From 58d9833279c633d7f71cb5c965b423561beb07b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:09 +0000
Subject: [PATCH 20/27] fix: top: sum sizes in 64 bits

The sum of the retained sizes of nested items exceeds 32 bits long before
any single size does.
---
 analyze/analyses/top.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/analyze/analyses/top.rs b/analyze/analyses/top.rs
index 65d7f04..71af0eb 100644
--- a/analyze/analyses/top.rs
+++ b/analyze/analyses/top.rs
@@ -45,7 +45,7 @@ impl traits::Emit for Top {
         // Helper function used to summnarize a sequence of table rows. This is
         // used to generate the remaining summary and total rows. Returns a tuple
         // containing the total size, total size percentage, and number of items.
-        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u32, f64, u32) {
+        fn summarize_rows(rows: impl Iterator<Item = TableRow>) -> (u64, f64, u32) {
             rows.fold(
                 (0, 0.0, 0),
                 |(total_size, total_percent, remaining_count),
@@ -53,7 +53,7 @@ impl traits::Emit for Top {
                      size, size_percent, ..
                  }| {
                     (
-                        total_size + size,
+                        total_size + u64::from(size),
                         total_percent + size_percent,
                         remaining_count + 1,
                     )
-- 
2.43.0


From d6534a3c903be8a598b45c77a126945f29bc1ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:06 +0000
Subject: [PATCH 21/27] fix: dwarf: resolve indexed forms of addresses and
 range lists

DWARF 5 allows DW_AT_low_pc, DW_AT_high_pc and DW_AT_ranges to be given as
indices into .debug_addr and .debug_rnglists. Such files were rejected.
---
 .../object_parse/die_parse/location_attrs.rs  | 57 ++++++++++++-------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index c290229..2bc02a1 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -36,7 +36,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(size) = self.contiguous_entity_size()? {
+        if let Some(size) = self.contiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
         } else if let Some(size) = self.noncontiguous_entity_size(dwarf, unit)? {
             Ok(Some(size))
@@ -47,22 +47,26 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
 
     /// Compute the size of an entity occupying a contiguous range of machine
     /// code addresses in the binary.
-    fn contiguous_entity_size(&self) -> FallilbleOption<u64> {
-        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc()?;
+    fn contiguous_entity_size(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
+        let dw_at_low_pc: Option<u64> = self.dw_at_low_pc(dwarf, unit)?;
         match (dw_at_low_pc, &self.dw_at_high_pc) {
+            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
+            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
+            (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
             // If DW_AT_high_pc is encoded as an address, return the difference
             // between that value and the DW_AT_low_pc address.
-            (Some(low_pc), Some(gimli::AttributeValue::Addr(high_pc))) => {
-                match high_pc.checked_sub(low_pc) {
+            (Some(low_pc), Some(high_pc)) => match dwarf.attr_address(unit, high_pc.clone())? {
+                Some(high_pc) => match high_pc.checked_sub(low_pc) {
                     Some(size) => Ok(Some(size)),
                     None => Err(anyhow!("DW_AT_high_pc is lower than DW_AT_low_pc")),
-                }
-            }
-            // DWARF 4 allows the DW_AT_high_pc to be encoded as an offset from the
-            // address in DW_AT_low_pc. If so, return the offset as the contiguous size.
-            (Some(_), Some(gimli::AttributeValue::Udata(offset))) => Ok(Some(*offset)),
-            // Return an error if DW_AT_high_pc is not encoded as expected.
-            (Some(_), Some(_)) => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
+                },
+                // Return an error if DW_AT_high_pc is not encoded as expected.
+                None => Err(anyhow!("Unexpected DW_AT_high_pc attribute value")),
+            },
             // If none of the above conditions were met, this is either a
             // noncontiguous entity, or the DIE does not represent a definition.
             _ => Ok(None),
@@ -76,8 +80,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
         dwarf: &gimli::Dwarf<R>,
         unit: &gimli::Unit<R>,
     ) -> FallilbleOption<u64> {
-        if let Some(raw_offset) = self.dw_at_ranges()? {
-            let offset = dwarf.ranges_offset_from_raw(unit, raw_offset);
+        if let Some(offset) = self.dw_at_ranges(dwarf, unit)? {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
@@ -89,22 +92,32 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
     }
 
     /// Return the DW_AT_low_pc attribute as a u64 value representing an address.
-    fn dw_at_low_pc(&self) -> FallilbleOption<u64> {
+    fn dw_at_low_pc(
+        &self,
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<u64> {
         match &self.dw_at_low_pc {
-            Some(gimli::AttributeValue::Addr(address)) => Ok(Some(*address)),
-            Some(_) => Err(anyhow!("Unexpected base address attribute value",)),
+            Some(attr) => match dwarf.attr_address(unit, attr.clone())? {
+                Some(address) => Ok(Some(address)),
+                None => Err(anyhow!("Unexpected base address attribute value",)),
+            },
             None => Ok(None),
         }
     }
 
-    /// Return the DW_AT_ranges attribute as a u64 value representing an offset
-    /// into the `.debug_ranges` section of the file.
+    /// Return the DW_AT_ranges attribute as an offset into the `.debug_ranges`
+    /// or `.debug_rnglists` section of the file.
     fn dw_at_ranges(
         &self,
-    ) -> FallilbleOption<gimli::RawRangeListsOffset<<R as gimli::Reader>::Offset>> {
+        dwarf: &gimli::Dwarf<R>,
+        unit: &gimli::Unit<R>,
+    ) -> FallilbleOption<gimli::RangeListsOffset<<R as gimli::Reader>::Offset>> {
         match &self.dw_at_ranges {
-            Some(gimli::AttributeValue::RangeListsRef(offset)) => Ok(Some(*offset)),
-            Some(_) => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            Some(attr) => match dwarf.attr_ranges_offset(unit, attr.clone())? {
+                Some(offset) => Ok(Some(offset)),
+                None => Err(anyhow!("Unexpected DW_AT_ranges value")),
+            },
             None => Ok(None),
         }
     }
-- 
2.43.0


From e63a3a4d25d2358b6941bb4bcd0124692e4c3334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:44 +0000
Subject: [PATCH 22/27] fix: dwarf: return an error for sizes that are out of
 range

The size of a function was silently truncated to 32 bits, and sums of range
sizes or of item sizes could overflow.
---
 parser/object_parse/die_parse/location_attrs.rs | 2 +-
 parser/object_parse/die_parse/mod.rs            | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/parser/object_parse/die_parse/location_attrs.rs b/parser/object_parse/die_parse/location_attrs.rs
index 2bc02a1..d3a47fd 100644
--- a/parser/object_parse/die_parse/location_attrs.rs
+++ b/parser/object_parse/die_parse/location_attrs.rs
@@ -84,7 +84,7 @@ impl<R: gimli::Reader> DieLocationAttributes<R> {
             let ranges = dwarf.ranges(unit, offset)?;
             let size = ranges
                 .map(|r| Ok(r.end - r.begin))
-                .fold(0, |res, size| Ok(res + size))?;
+                .fold(0u64, |res, size| Ok(res.saturating_add(size)))?;
             Ok(Some(size))
         } else {
             Ok(None)
diff --git a/parser/object_parse/die_parse/mod.rs b/parser/object_parse/die_parse/mod.rs
index ef40092..56ea9b5 100644
--- a/parser/object_parse/die_parse/mod.rs
+++ b/parser/object_parse/die_parse/mod.rs
@@ -1,4 +1,6 @@
+use anyhow::anyhow;
 use gimli;
+use std::convert::TryFrom;
 use twiggy_ir as ir;
 mod item_name;
 mod location_attrs;
@@ -21,11 +23,16 @@ pub(super) fn parse_items<R: gimli::Reader>(
     let item: ir::Item = match entry.tag() {
         gimli::DW_TAG_subprogram => {
             if let Some(size) = DieLocationAttributes::try_from(entry)?.entity_size(dwarf, unit)? {
+                // The sizes of all items together have to fit in 32 bits.
+                let size = u32::try_from(size)
+                    .ok()
+                    .filter(|size| items.size_added().checked_add(*size).is_some())
+                    .ok_or_else(|| anyhow!("Subroutine size is out of range: {}", size))?;
                 let id = ir::Id::entry(unit_id, entry_id);
                 let name = item_name(entry, dwarf, unit)?
                     .unwrap_or_else(|| format!("Subroutine[{}][{}]", unit_id, entry_id));
                 let kind: ir::ItemKind = ir::Code::new(&name).into();
-                ir::Item::new(id, &name, size as u32, kind)
+                ir::Item::new(id, &name, size, kind)
             } else {
                 return Ok(());
             }
-- 
2.43.0


From b6f3b95b5c911bc55ec907e1ce8535188bb57645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:32 +0000
Subject: [PATCH 23/27] fix: dwarf: return an error for sections that are not
 inside the file

Reading the data of such a section panicked.
---
 parser/object_parse/mod.rs | 47 ++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 96800f1..2ae794d 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -1,7 +1,7 @@
 use anyhow::anyhow;
 use fallible_iterator::FallibleIterator;
 use gimli;
-use object::{self, Object};
+use object::{self, Object, ObjectSection};
 use std::borrow::{Borrow, Cow};
 use twiggy_ir as ir;
 use typed_arena::Arena;
@@ -13,19 +13,35 @@ mod die_parse;
 fn load_section<'a, 'file, 'input, Sect, Endian>(
     arena: &'a Arena<Cow<'file, [u8]>>,
     file: &'file object::File<'input>,
+    file_size: usize,
     endian: Endian,
-) -> Sect
+) -> anyhow::Result<Sect>
 where
     Sect: gimli::Section<gimli::EndianSlice<'a, Endian>>,
     Endian: gimli::Endianity,
     'file: 'input,
     'a: 'file,
 {
-    let data = file
-        .section_data_by_name(Sect::section_name())
-        .unwrap_or(Cow::Borrowed(&[]));
+    let data = match file.section_by_name(Sect::section_name()) {
+        Some(section) => {
+            // Reading the data of a section panics if it is not inside the file.
+            if let Some((offset, size)) = section.file_range() {
+                match offset.checked_add(size) {
+                    Some(end) if end <= file_size as u64 => {}
+                    _ => {
+                        return Err(anyhow!(
+                            "Section {} is not inside the file",
+                            Sect::section_name()
+                        ))
+                    }
+                }
+            }
+            section.uncompressed_data()
+        }
+        None => Cow::Borrowed(&[][..]),
+    };
     let data_ref = (*arena.alloc(data)).borrow();
-    Sect::from(gimli::EndianSlice::new(data_ref, endian))
+    Ok(Sect::from(gimli::EndianSlice::new(data_ref, endian)))
 }
 
 pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
@@ -41,15 +57,16 @@ pub fn parse(items: &mut ir::ItemsBuilder, data: &[u8]) -> anyhow::Result<()> {
     };
 
     // Load the sections of the file containing debugging information.
-    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, endian);
-    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, endian);
-    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, endian);
-    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, endian);
-    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, endian);
-    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, endian);
-    let debug_str_offsets: gimli::DebugStrOffsets<_> = load_section(&arena, &file, endian);
-    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, endian);
-    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, endian);
+    let debug_abbrev: gimli::DebugAbbrev<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_addr: gimli::DebugAddr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_info: gimli::DebugInfo<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line: gimli::DebugLine<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_line_str: gimli::DebugLineStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str: gimli::DebugStr<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_str_offsets: gimli::DebugStrOffsets<_> =
+        load_section(&arena, &file, data.len(), endian)?;
+    let debug_ranges: gimli::DebugRanges<_> = load_section(&arena, &file, data.len(), endian)?;
+    let debug_rnglists: gimli::DebugRngLists<_> = load_section(&arena, &file, data.len(), endian)?;
     let ranges = gimli::RangeLists::new(debug_ranges, debug_rnglists);
     let dwarf = gimli::Dwarf {
         debug_abbrev,
-- 
2.43.0


From 7ecf2671c634ddbed2d51788685ba90c9dfa709c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:09 +0000
Subject: [PATCH 24/27] fix: dwarf: return an error for unsupported address
 sizes

---
 parser/object_parse/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/object_parse/mod.rs b/parser/object_parse/mod.rs
index 2ae794d..74bb1bd 100644
--- a/parser/object_parse/mod.rs
+++ b/parser/object_parse/mod.rs
@@ -92,6 +92,11 @@ fn parse_items<R: gimli::Reader>(
     // Parse the items in each compilation unit.
     let mut headers = dwarf.units().enumerate();
     while let Some((unit_id, header)) = headers.next()? {
+        // Computing with the addresses of a unit overflows for other sizes.
+        match header.address_size() {
+            1 | 2 | 4 | 8 => {}
+            size => return Err(anyhow!("Unsupported address size: {}", size)),
+        }
         let unit = dwarf.unit(header)?;
         compilation_unit_parse::parse_items(items, dwarf, &unit, unit_id)?
     }
-- 
2.43.0


From 2839202c4a0fc68ca2c825a458e3005b00fadcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:19 +0000
Subject: [PATCH 25/27] fix: ir: only take hashes for the hash of a Rust symbol

---
 ir/ir.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 8c4229f..d979dbd 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -643,7 +643,11 @@ impl Code {
         if let Some(idx) = demangled.rfind("::h") {
             let idx2 = demangled.rfind("::").unwrap();
             assert!(idx2 >= idx);
-            if idx2 == idx {
+            // Anything else is just a name that happens to start with an 'h'.
+            // Compilers may have added suffixes such as ".llvm.123" to it.
+            let hash = demangled[idx + 3..].split('.').next().unwrap_or("");
+            let is_hash = !hash.is_empty() && hash.bytes().all(|b| b.is_ascii_hexdigit());
+            if idx2 == idx && is_hash {
                 let generic = demangled[..idx].to_string();
                 return Some(generic);
             }
-- 
2.43.0


From 211b3f19420f7d18ceb974b94ecda3c53aab5b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:41 +0000
Subject: [PATCH 26/27] fix: ir: keep names whose demangled form cannot be
 displayed or is empty

---
 ir/ir.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index d979dbd..1f5efd5 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -9,6 +9,7 @@ use frozen::Frozen;
 use std::cmp;
 use std::collections::btree_map;
 use std::collections::{BTreeMap, BTreeSet};
+use std::fmt::Write;
 use std::ops;
 use std::slice;
 use std::u32;
@@ -594,7 +595,13 @@ impl Code {
 
     fn demangle(s: &str) -> Option<String> {
         if let Ok(sym) = rustc_demangle::try_demangle(s) {
-            return Some(sym.to_string());
+            // Some symbols have no components at all.
+            let demangled = sym.to_string();
+            return if demangled.is_empty() {
+                None
+            } else {
+                Some(demangled)
+            };
         }
 
         // If the Rust demangle failed, we'll try C or C++.  C++
@@ -619,7 +626,12 @@ impl Code {
         }
 
         if let Ok(sym) = cpp_demangle::Symbol::new(s) {
-            return Some(sym.to_string());
+            // Not every symbol that can be parsed can be displayed as well,
+            // and `to_string` panics on those that cannot.
+            let mut demangled = String::new();
+            if write!(demangled, "{}", sym).is_ok() && !demangled.is_empty() {
+                return Some(demangled);
+            }
         }
 
         None
-- 
2.43.0


From 886c1355eac49a61d87456b048d1418b4c912e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 27/27] fix: ir: limit the length of demangled C++ names

---
 ir/ir.rs | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/ir/ir.rs b/ir/ir.rs
index 1f5efd5..d9cd62d 100644
--- a/ir/ir.rs
+++ b/ir/ir.rs
@@ -570,6 +570,24 @@ pub struct Code {
     monomorphization_of: Option<String>,
 }
 
+/// Collects a demangled name. Repeated references to its own parts can make a
+/// short symbol stand for an exponentially long name, so there is a limit.
+struct DemangledName(String);
+
+impl DemangledName {
+    const MAX_LEN: usize = 1_000_000;
+}
+
+impl Write for DemangledName {
+    fn write_str(&mut self, s: &str) -> std::fmt::Result {
+        if self.0.len() + s.len() > Self::MAX_LEN {
+            return Err(std::fmt::Error);
+        }
+        self.0.push_str(s);
+        Ok(())
+    }
+}
+
 impl Code {
     /// Construct a new IR item for executable code.
     pub fn new(name: &str) -> Code {
@@ -628,9 +646,11 @@ impl Code {
         if let Ok(sym) = cpp_demangle::Symbol::new(s) {
             // Not every symbol that can be parsed can be displayed as well,
             // and `to_string` panics on those that cannot.
-            let mut demangled = String::new();
-            if write!(demangled, "{}", sym).is_ok() && !demangled.is_empty() {
-                return Some(demangled);
+            let mut demangled = DemangledName(String::new());
+            let options = cpp_demangle::DemangleOptions::default();
+            let res = sym.structured_demangle(&mut demangled, &options);
+            if res.is_ok() && !demangled.0.is_empty() {
+                return Some(demangled.0);
             }
         }
 
-- 
2.43.0

