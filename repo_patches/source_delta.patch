From 77057ef5b46d3d2de94495a573754e3e5886abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 01/12] fix: load special tokens that need escaping in JSON

Special tokens were deserialized as borrowed strings, so a tokenizer with a
special token containing a quote, a backslash or a control character could be
saved but not loaded again.
---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..81a576e 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -393,7 +393,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From 1499fe01b3e1bdf379af737348b48cf257fea4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 02/12] fix: do not merge a pair into a token the vocabulary
 already has

The same value can be reached through different pairs, or be in the vocabulary
already. Adding it again left two ids for one token.
---
 src/merge.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..90631ce 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -104,6 +104,7 @@ impl ModelVocabularyMerger {
 
                 if token.len() > self.max_token_length
                     || !self.allow.is_match(&String::from_utf8_lossy(&token.value))
+                    || model.token_to_id(&token.value).is_some()
                 {
                     if !ignore.contains(&pair) {
                         log::debug!(
-- 
2.43.0


From 69096bb227374bbe1db39a9180cad1c24fbf1aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 03/12] fix: stop merging when no admissible pair is left

With fewer merges remaining than the step size, the test for a step without
any merge never held and merging did not terminate.
---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 90631ce..2361f54 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -126,7 +127,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From 242938160428cc1f3b4228b9a01c65cb0e248461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 04/12] fix: stop pruning when the tokens left cannot be pruned

When the tokens to keep and those without an alternative outnumbered the
target size, every candidate was kept as well and pruning did not terminate.
---
 src/prune.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..277b173 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let previous_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() == previous_vocab_size {
+                log::warn!(
+                    "The {} tokens left are all kept or have no alternative, stopping",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
@@ -307,7 +317,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From 0c7cedce69fb19a6d29da29948bfd56e42ba62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 05/12] fix: ignore empty special tokens

An empty special token matches everywhere without advancing, so encoding any
text did not terminate.
---
 src/tokenizer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 81a576e..f5d826d 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -34,15 +34,15 @@ impl Tokenizer {
 
     /// Add special tokens to this tokenizer. Special tokens are encoded before
     /// the rest of the tokenization pipeline. They are assigned IDs starting
-    /// from the end of the vocabulary. If a special token already exists, it is
-    /// ignored.
+    /// from the end of the vocabulary. If a special token already exists, or is
+    /// empty, it is ignored.
     pub fn add_special_tokens<I>(&mut self, tokens: I)
     where
         I: IntoIterator,
         I::Item: AsRef<str> + ToString,
     {
         for token in tokens {
-            if self.special_tokens_map.contains_key(token.as_ref()) {
+            if token.as_ref().is_empty() || self.special_tokens_map.contains_key(token.as_ref()) {
                 continue;
             }
 
-- 
2.43.0


From a932a265b524bf774ab85a37afddd619eb43fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 06/12] fix: raise an error when saving a tokenizer fails in
 Python

The exception was set and then fetched and dropped, so a save that failed
looked like one that succeeded.
---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From faf36ec5b772b6fb8790850fa010bd2cd4b1528f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 07/12] fix: make tokenizers unpicklable in Python

Unpickling called a constructor that did not exist.
---
 bindings/python/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de145a9..79274d7 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -38,6 +38,16 @@ impl From<PyTokenGeeXError> for PyErr {
 
 #[pymethods]
 impl PyTokenizer {
+    /// Create an empty tokenizer. Used to unpickle, before the state is set.
+    #[new]
+    fn new() -> Self {
+        PyTokenizer::from(tokengeex::Tokenizer::new(
+            tokengeex::Model::default(),
+            Vec::<tokengeex::ProcessorWrapper>::new(),
+            Vec::<String>::new(),
+        ))
+    }
+
     fn encode(&self, text: &str, dropout: f64) -> Result<Vec<TokenID>, PyTokenGeeXError> {
         self.tokenizer.encode(text, dropout).map_err(|e| e.into())
     }
-- 
2.43.0


From e893b8a78bc744d026792bb8204bbb061a987bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:29 +0000
Subject: [PATCH 08/12] fix: export TokenGeeXError from the Python module

It is documented as the exception to catch but could not be imported.
---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 79274d7..033757d 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -228,9 +228,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From 44b61fafbd22b48e9bad8c34226185274834affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 09/12] fix: generate Chinese Markdown into both splits

Without the comma, the two names were one, and opening either file failed.
---
 scripts/datagen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/datagen.py b/scripts/datagen.py
index 1e1574a..3639ed3 100644
--- a/scripts/datagen.py
+++ b/scripts/datagen.py
@@ -179,12 +179,12 @@ def generate_chinese_markdown(args):
         "rojas-diego/chinese-markdown", split="train", streaming=True
     )
 
-    for split in ["train" "test"]:
+    for split in ["train", "test"]:
         os.makedirs(f"{args.output}/{split}", exist_ok=True)
 
     files = {
         split: open(f"{args.output}/{split}/chinese-markdown.bin", "wb")
-        for split in ["train" "test"]
+        for split in ["train", "test"]
     }
 
     written = 0
-- 
2.43.0


From b376ccfd547dfd965b27060cd47225216684c58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:23 +0000
Subject: [PATCH 10/12] fix: fail dataset generation when a language fails

An error in the thread of a language (a broken stream, a full disk) was
printed, but the script went on with an incomplete file and exited with
status 0.
---
 scripts/datagen.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/scripts/datagen.py b/scripts/datagen.py
index 3639ed3..d51a9f0 100644
--- a/scripts/datagen.py
+++ b/scripts/datagen.py
@@ -8,7 +8,7 @@ import glob
 import os
 import random
 import re
-import threading
+from concurrent.futures import ThreadPoolExecutor
 
 import datasets
 
@@ -316,17 +316,15 @@ if __name__ == "__main__":
             for lang, (train_mb, test_mb) in the_stack_quotas
         }
 
-        threads = []
-
-        for lang, quota in the_stack_quotas.items():
-            thread = threading.Thread(
-                target=generate_the_stack, args=(args, lang, quota)
-            )
-            threads.append(thread)
-            thread.start()
+        with ThreadPoolExecutor(max_workers=len(the_stack_quotas)) as executor:
+            futures = [
+                executor.submit(generate_the_stack, args, lang, quota)
+                for lang, quota in the_stack_quotas.items()
+            ]
 
-        for thread in threads:
-            thread.join()
+        # Raise the error of any language that failed.
+        for future in futures:
+            future.result()
 
     if args.chinese_markdown_quota:
         generate_chinese_markdown(args)
-- 
2.43.0


From 21e792adced840802304b8603eae0c0127e02b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 11/12] fix: evaluate on the text as it is in the files

Newlines were translated while reading, so that the tokens and characters of
other samples than those in the file were counted.
---
 scripts/evaluate.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/evaluate.py b/scripts/evaluate.py
index c049cc4..5fe3882 100644
--- a/scripts/evaluate.py
+++ b/scripts/evaluate.py
@@ -149,8 +149,9 @@ if __name__ == "__main__":
 
     for file in glob.glob(args.i):
         filename_base = file.split("/")[-1].split(".")[0]
-        samples = open(file).read()
-        samples = samples.split("\0")
+        # Do not translate newlines, they are part of the samples.
+        with open(file, encoding="utf-8", newline="") as f:
+            samples = f.read().split("\0")
         num_tokens = 0
         num_chars = 0
 
-- 
2.43.0


From 2c1470a9f1e4e3fec50271766b450a55bb055537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:39 +0000
Subject: [PATCH 12/12] fix: do not leave a partial log when an evaluation is
 interrupted

---
 scripts/evaluate.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/evaluate.py b/scripts/evaluate.py
index 5fe3882..8ac872b 100644
--- a/scripts/evaluate.py
+++ b/scripts/evaluate.py
@@ -7,6 +7,7 @@ import argparse
 import base64
 import glob
 import json
+import os
 
 import numpy as np
 
@@ -183,5 +184,9 @@ if __name__ == "__main__":
             frequency_buckets[i * bucket_size : (i + 1) * bucket_size]
         ).item()
 
-    with open(args.o, "w") as f:
+    # Move the complete log into place at once: an interrupted evaluation must not
+    # leave a partial log, which `evaluate.sh` would take for a complete one.
+    tmp = f"{args.o}.tmp"
+    with open(tmp, "w") as f:
         json.dump(out, f, indent=4)
+    os.replace(tmp, args.o)
-- 
2.43.0

