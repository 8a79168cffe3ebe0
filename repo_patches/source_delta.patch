From f6ebfe96a7d932e33d8623d466832f4be59b3ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:56 +0000
Subject: [PATCH 01/21] fix: an empty special token no longer makes encode loop
 forever

---
 src/tokenizer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 198eee8..1eb978a 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -326,7 +326,9 @@ impl<'a> Iterator for SpecialTokenSplitter<'a> {
             let suffix = &input[i..];
 
             for special_token in self.special_tokens {
-                if suffix.starts_with(special_token) {
+                // An empty special token would match everywhere without
+                // ever advancing the cursor.
+                if !special_token.is_empty() && suffix.starts_with(special_token) {
                     if i > 0 {
                         self.cursor += i;
                         return Some((&input[..i], false));
-- 
2.43.0


From 8224106c658cf18ce5a494dcd03f73516c7bb5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 02/21] fix: load special tokens that are escaped in the saved
 JSON

---
 src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tokenizer.rs b/src/tokenizer.rs
index 1eb978a..28ce27b 100644
--- a/src/tokenizer.rs
+++ b/src/tokenizer.rs
@@ -395,7 +395,7 @@ impl<'de> Visitor<'de> for TokenizerVisitor {
         A: serde::de::MapAccess<'de>,
     {
         let mut version: Option<String> = None;
-        let mut special_tokens: Vec<&str> = Vec::new();
+        let mut special_tokens: Vec<String> = Vec::new();
         let mut vocab: Vec<ScoredToken> = Vec::new();
         let mut processors: Vec<ProcessorWrapper> = Vec::new();
 
-- 
2.43.0


From 2d7ac5ed4033b9b3e4a2814a1ae11d9fd3e4fe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 03/21] fix: viterbi no longer returns the end-of-sentence
 sentinel as a token

---
 src/lattice.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 4252a66..7a53efa 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -138,7 +138,10 @@ impl<'a> Lattice<'a> {
         }
 
         let mut results = Vec::with_capacity(sentence_len / 4);
-        let mut node_idx = self.begin_nodes[sentence_len][0];
+        let mut node_idx = match self.nodes[self.eos_idx].prev {
+            Some(node_idx) => node_idx,
+            None => return vec![],
+        };
         while let Some(prev_node_idx) = self.nodes[node_idx].prev {
             let node = self.nodes[node_idx].clone();
             results.push(node.clone());
-- 
2.43.0


From cf164a8094f1526402c5d24978ae2b1dc5ba3246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:15 +0000
Subject: [PATCH 04/21] fix: viterbi and nbest find the best path when some
 positions are dead ends

---
 src/lattice.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 7a53efa..05f3001 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -109,6 +109,12 @@ impl<'a> Lattice<'a> {
         self.nodes.push(Node::new(pos, token_id, token_len, score));
     }
 
+    /// Whether a path from the beginning of the sentence leads to the node.
+    /// Only meaningful once `viterbi` has visited the node.
+    fn is_reachable(&self, node_idx: usize) -> bool {
+        node_idx == self.bos_idx || self.nodes[node_idx].prev.is_some()
+    }
+
     pub fn viterbi(&mut self) -> Vec<Node> {
         let sentence_len = self.sentence.len();
 
@@ -120,6 +126,10 @@ impl<'a> Lattice<'a> {
                 let mut best_node = None;
 
                 for &lnode_idx in &self.end_nodes[pos] {
+                    if !self.is_reachable(lnode_idx) {
+                        continue;
+                    }
+
                     let score = self.nodes[lnode_idx].backtrack_score + self.nodes[rnode_idx].score;
 
                     if best_node.is_none() || score > best_score {
@@ -128,10 +138,6 @@ impl<'a> Lattice<'a> {
                     }
                 }
 
-                if best_node.is_none() {
-                    return vec![];
-                }
-
                 self.nodes[rnode_idx].prev = best_node;
                 self.nodes[rnode_idx].backtrack_score = best_score;
             }
@@ -210,6 +216,10 @@ impl<'a> Lattice<'a> {
                         }
                     } else {
                         for &lnode in &self.end_nodes[node_pos] {
+                            if !self.is_reachable(lnode) {
+                                continue;
+                            }
+
                             let top_gx = top.borrow().gx;
                             let fx = self.nodes[lnode].backtrack_score + top_gx;
                             let gx = self.nodes[lnode].score + top_gx;
-- 
2.43.0


From 13acd4aba5565b7c515db914d0a56fbe083eefee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:34 +0000
Subject: [PATCH 05/21] fix: marginals count only segmentations that exist when
 some positions are dead ends

---
 src/lattice.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 05f3001..522792f 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -265,8 +265,11 @@ impl<'a> Lattice<'a> {
         // (beta) of the lattice.
         // - alpha[i] is the log probability of reaching node i from the bos
         // - beta[i] is the log probability of reaching the eos from node i
-        let mut alpha = vec![0.0; num_nodes];
-        let mut beta = vec![0.0; num_nodes];
+        // Nodes that cannot be reached have a log probability of -inf.
+        let mut alpha = vec![f64::NEG_INFINITY; num_nodes];
+        let mut beta = vec![f64::NEG_INFINITY; num_nodes];
+        alpha[self.bos_idx] = 0.0;
+        beta[self.eos_idx] = 0.0;
 
         // Calculate forward probabilities (alpha)
         for pos in 0..=len {
@@ -303,6 +306,11 @@ impl<'a> Lattice<'a> {
         let eos_idx = self.eos_idx;
         let z = alpha[eos_idx];
 
+        // No segmentation of the sentence exists.
+        if z == f64::NEG_INFINITY {
+            return z;
+        }
+
         // Update the expected frequencies for each node based on its marginal
         // probability
         for pos in 0..len {
@@ -337,7 +345,7 @@ fn log_sum_exp(x: f64, y: f64, init_mode: bool) -> f64 {
     } else {
         let (vmin, vmax) = if x > y { (y, x) } else { (x, y) };
         let k_minus_log_epsilon = 50.0;
-        if vmax > vmin + k_minus_log_epsilon {
+        if vmax > vmin + k_minus_log_epsilon || vmin == f64::NEG_INFINITY {
             vmax
         } else {
             vmax + ((vmin - vmax).exp() + 1.0).ln()
-- 
2.43.0


From 4cce1df2478422bcacc129b3d14774afa3060bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 06/21] fix: merge ends when the last, smaller step finds
 nothing to merge

---
 src/merge.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/merge.rs b/src/merge.rs
index 22ebcaa..9bbf7a1 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -83,10 +83,11 @@ impl ModelVocabularyMerger {
 
             pairs.sort_unstable_by(|a, b| b.1.cmp(&a.1));
 
-            let mut merges = std::cmp::min(
+            let max_merges = std::cmp::min(
                 self.step,
                 self.num_merges - (model.vocab_size() - start_vocab_size),
             );
+            let mut merges = max_merges;
             for ((a, b), freq) in pairs.iter().copied() {
                 if merges == 0 {
                     break;
@@ -125,7 +126,7 @@ impl ModelVocabularyMerger {
                 log::info!("Merged a={} b={} freq={} into={}", a, b, freq, token);
             }
 
-            if merges == self.step {
+            if merges == max_merges {
                 log::warn!(
                     "No more merges possible after {} merges, consider increasing the number of merges",
                     model.vocab_size() - start_vocab_size
-- 
2.43.0


From dc81e46a8d81b1a411f03bf2af4c8a11692e9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 07/21] fix: merge does not add a token the vocabulary already
 has

---
 src/merge.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/merge.rs b/src/merge.rs
index 9bbf7a1..3530f6b 100644
--- a/src/merge.rs
+++ b/src/merge.rs
@@ -119,6 +119,11 @@ impl ModelVocabularyMerger {
                     continue;
                 }
 
+                if model.token_to_id(&token.value).is_some() {
+                    log::debug!("Token already in the vocabulary: {}", token);
+                    continue;
+                }
+
                 model.add_tokens([token.clone()]);
 
                 merges -= 1;
-- 
2.43.0


From 943fcf7109cb06f210b6668ceb9848ebafd4d6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 08/21] fix: prune ends when a round removes nothing

---
 src/prune.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/prune.rs b/src/prune.rs
index 4013caf..179a8c7 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -22,6 +22,8 @@ impl ModelVocabularyPruner {
 
     pub fn prune(&self, model: &mut Model, samples: &[&str]) -> Result<()> {
         while model.vocab_size() > self.vocab_size {
+            let start_vocab_size = model.vocab_size();
+
             for subiter in 0..self.em_subiters {
                 log::info!("EM subiter {}/{}", subiter + 1, self.em_subiters);
 
@@ -51,6 +53,14 @@ impl ModelVocabularyPruner {
             // Prune the vocabulary.
             let vocab = self.prune_vocab(model, samples)?;
             *model = Model::from(vocab);
+
+            if model.vocab_size() >= start_vocab_size {
+                log::warn!(
+                    "No more tokens can be pruned, stopping at vocab_size={}",
+                    model.vocab_size()
+                );
+                break;
+            }
         }
 
         Ok(())
-- 
2.43.0


From 594ba53acf27c97393cf06bf09a88a6af043cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 09/21] fix: prune accepts a token whose removal costs exactly
 nothing

---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 179a8c7..6333673 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -298,7 +298,7 @@ impl ModelVocabularyPruner {
 
                 // The difference in likelihood after removing the token.
                 let loss = (freq / samples.len() as f64) * (logprob - alt_logprob);
-                if !loss.is_normal() {
+                if !loss.is_finite() {
                     panic!(
                         "loss is f64::NaN (loss={}, freq={}, logprob={}, alt_logprob={})",
                         loss, freq, logprob, alt_logprob
-- 
2.43.0


From f11f1760ae26a265cba127a5c4f9270767741058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 10/21] fix: generated vocabularies include byte 255

---
 src/generate.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generate.rs b/src/generate.rs
index 5761095..072f2e5 100644
--- a/src/generate.rs
+++ b/src/generate.rs
@@ -161,7 +161,7 @@ impl VocabularyGenerator {
             .map(|(_, freq)| *freq)
             .copied()
             .unwrap_or(1);
-        let mut vocab: Vec<ScoredToken> = (0..255_u8)
+        let mut vocab: Vec<ScoredToken> = (0..=255_u8)
             .map(|b| {
                 seen.insert(vec![b]);
                 ScoredToken::from_u8(b, highest_freq as f64, true)
-- 
2.43.0


From c7c1f52e86c7af07651ddcec0ec97875b951d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:41 +0000
Subject: [PATCH 11/21] fix: filter keeps tokens whose score equals the minimum
 score

---
 src/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/filter.rs b/src/filter.rs
index 2e7d487..a8548c6 100644
--- a/src/filter.rs
+++ b/src/filter.rs
@@ -33,7 +33,7 @@ impl VocabularyFilter {
         for token in vocab.iter() {
             let should_keep = num_tokens_removed >= num_tokens_to_remove
                 || (token.keep && !self.force)
-                || token.score > self.min_score.unwrap_or(f64::NEG_INFINITY);
+                || token.score >= self.min_score.unwrap_or(f64::NEG_INFINITY);
 
             if should_keep {
                 new_vocab.push(token.clone());
-- 
2.43.0


From dd2a0935b0bea400acf51b084928f29b2fd74f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:37 +0000
Subject: [PATCH 12/21] fix: prune drops candidates when the tokens it must
 keep exceed the round's size

---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index 6333673..d8394ec 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -317,7 +317,7 @@ impl ModelVocabularyPruner {
 
         candidates.sort_unstable_by(|(_, a), (_, b)| b.partial_cmp(a).unwrap());
         for (id, _) in candidates {
-            if pruned_vocab.len() == pruned_size {
+            if pruned_vocab.len() >= pruned_size {
                 break;
             }
             pruned_vocab.push(model.vocab()[id].clone());
-- 
2.43.0


From 5164bd39699aa18df9daaf0a5d0fba6f695f2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 13/21] fix: Python save raises an error when the file cannot
 be written

---
 bindings/python/src/lib.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index 6c38d90..de145a9 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -148,17 +148,10 @@ impl PyTokenizer {
         self.tokenizer.special_vocab_size()
     }
 
-    fn save(&self, filename: &str) {
-        match self.tokenizer.save(filename) {
-            Ok(_) => {}
-            Err(e) => {
-                Python::with_gil(|py| {
-                    PyIOError::new_err(e.to_string()).restore(py);
-                    assert!(PyErr::occurred(py));
-                    drop(PyErr::fetch(py));
-                });
-            }
-        }
+    fn save(&self, filename: &str) -> PyResult<()> {
+        self.tokenizer
+            .save(filename)
+            .map_err(|e| PyIOError::new_err(e.to_string()))
     }
 
     fn common_prefix_search(&self, text: &str) -> Vec<TokenID> {
-- 
2.43.0


From ead9572e02eae56244831bec8756d4036a57746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:28 +0000
Subject: [PATCH 14/21] fix: a pickled Python tokenizer can be unpickled

---
 bindings/python/src/lib.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index de145a9..a2b7012 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -38,6 +38,17 @@ impl From<PyTokenGeeXError> for PyErr {
 
 #[pymethods]
 impl PyTokenizer {
+    /// An empty tokenizer. Unpickling creates one and fills it in through
+    /// `__setstate__`.
+    #[new]
+    fn new() -> PyTokenizer {
+        PyTokenizer::from(tokengeex::Tokenizer::new(
+            tokengeex::Model::from(Vec::new()),
+            Vec::<tokengeex::ProcessorWrapper>::new(),
+            Vec::<String>::new(),
+        ))
+    }
+
     fn encode(&self, text: &str, dropout: f64) -> Result<Vec<TokenID>, PyTokenGeeXError> {
         self.tokenizer.encode(text, dropout).map_err(|e| e.into())
     }
-- 
2.43.0


From 28946f97c0b33dc0dc2134f86c94b7b482add190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:29 +0000
Subject: [PATCH 15/21] fix: the Python module exports the exception it raises

---
 bindings/python/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/lib.rs b/bindings/python/src/lib.rs
index a2b7012..3b84c10 100644
--- a/bindings/python/src/lib.rs
+++ b/bindings/python/src/lib.rs
@@ -229,9 +229,10 @@ impl PyTokenizer {
 
 #[pymodule]
 #[pyo3(name = "tokengeex")]
-fn tokengeex_module(_: Python, m: &PyModule) -> PyResult<()> {
+fn tokengeex_module(py: Python, m: &PyModule) -> PyResult<()> {
     // Module: TokenGeeX
     m.add_class::<PyTokenizer>()?;
+    m.add("TokenGeeXError", py.get_type::<TokenGeeXError>())?;
 
     Ok(())
 }
-- 
2.43.0


From e2893aee568fc5e12c9b4dda2b3e9ef152886b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:10 +0000
Subject: [PATCH 16/21] fix: keep at least n entries when nbest shortens its
 agenda

---
 src/lattice.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lattice.rs b/src/lattice.rs
index 522792f..3edb00d 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -2,7 +2,7 @@
 // License: https://github.com/huggingface/tokenizers/blob/4a8105c36671ef46738d6e2799c55198139b87b2/LICENSE
 
 use std::cell::RefCell;
-use std::cmp::{min, Ordering};
+use std::cmp::{max, min, Ordering};
 use std::collections::BinaryHeap;
 use std::rc::Rc;
 
@@ -228,9 +228,10 @@ impl<'a> Lattice<'a> {
                         }
                         // When the input is too long or contains duplicated phrases,
                         // `agenda` will get extremely big. Here we avoid this case by
-                        // dynamically shrinking the agenda.
-                        let k_max_agenda_size = 100_000;
-                        let k_min_agenda_size = 512;
+                        // dynamically shrinking the agenda. The best `n` entries
+                        // have to stay: each of them leads to a result.
+                        let k_min_agenda_size = max(512, n);
+                        let k_max_agenda_size = max(100_000, k_min_agenda_size * 2);
                         if agenda.len() > k_max_agenda_size {
                             let mut new_agenda = BinaryHeap::new();
                             let len = min(k_min_agenda_size, n * 10);
-- 
2.43.0


From b623ba7145bdaf491fc20487b1e041733a5ca792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 17/21] fix: pruning accepts samples whose total probability is
 one

The log of the total weight is then zero, which is_normal() rejects; the
run stopped with a message about NaN (for instance when only one token is
left, whose score is zero).
---
 src/prune.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune.rs b/src/prune.rs
index d8394ec..79aad14 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -97,7 +97,7 @@ impl ModelVocabularyPruner {
                     model.populate_nodes(&mut lattice, self.dropout);
 
                     let z = lattice.populate_marginal(&mut expected_frequencies);
-                    if !z.is_normal() {
+                    if !z.is_finite() {
                         panic!(
                             "normalization constant is f64::NaN (z={}, len={})",
                             z,
-- 
2.43.0


From abf49e861b4a1354ff313bc8d84b854fb1c1052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:31 +0000
Subject: [PATCH 18/21] fix: pruning reports samples that cannot be encoded
 during re-estimation

prune() returns an error for such samples without re-estimation, but
panicked about a NaN normalization constant with it (the default).
---
 src/prune.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/prune.rs b/src/prune.rs
index 79aad14..2815292 100644
--- a/src/prune.rs
+++ b/src/prune.rs
@@ -30,7 +30,7 @@ impl ModelVocabularyPruner {
                 // Compute the expected frequencies of each token. That is, how
                 // much we expect to see each token in the dataset given our
                 // current model.
-                let expected_frequencies = self.run_e_step(model, samples);
+                let expected_frequencies = self.run_e_step(model, samples)?;
                 log::info!(
                     "E-step completed subiter={} vocab_size={}",
                     subiter,
@@ -71,7 +71,7 @@ impl ModelVocabularyPruner {
     /// frequency for each token is calculated by considering all possible
     /// segmentations of each sample into tokens, weighted by the probability
     /// of each segmentation.
-    fn run_e_step(&self, model: &Model, samples: &[&str]) -> Vec<f64> {
+    fn run_e_step(&self, model: &Model, samples: &[&str]) -> Result<Vec<f64>> {
         let acc_expected_frequencies = RwLock::new(vec![0.0; model.vocab_size()]);
         let chunk_size = par_chunk_size(samples.len(), 8);
 
@@ -79,7 +79,7 @@ impl ModelVocabularyPruner {
 
         task.start();
 
-        samples.par_chunks(chunk_size).for_each(|chunk| {
+        samples.par_chunks(chunk_size).try_for_each(|chunk| {
             // For each sample, we iterate over snippets of max
             // `MAX_SAMPLE_LENGTH` bytes.
             const MAX_SAMPLE_LENGTH: usize = 8192 * 10;
@@ -97,6 +97,9 @@ impl ModelVocabularyPruner {
                     model.populate_nodes(&mut lattice, self.dropout);
 
                     let z = lattice.populate_marginal(&mut expected_frequencies);
+                    if z == f64::NEG_INFINITY {
+                        return Err(Error::NoPath(snippet.len(), snippet.len()));
+                    }
                     if !z.is_finite() {
                         panic!(
                             "normalization constant is f64::NaN (z={}, len={})",
@@ -122,11 +125,13 @@ impl ModelVocabularyPruner {
             }
 
             ltask.finish();
-        });
+
+            Ok(())
+        })?;
 
         task.finish();
 
-        acc_expected_frequencies.into_inner().unwrap()
+        Ok(acc_expected_frequencies.into_inner().unwrap())
     }
 
     /// Runs the M-step of the EM algorithm for the Unigram model. It computes
-- 
2.43.0


From 125cc172b7a64f0ede68bef89171e5d2bb9b3471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 19/21] fix: long tokens overflow the stack when a trie is
 cloned or dropped

---
 src/trie.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/trie.rs b/src/trie.rs
index c68ac71..50421b1 100644
--- a/src/trie.rs
+++ b/src/trie.rs
@@ -5,18 +5,26 @@ use std::collections::HashMap;
 
 #[derive(Clone)]
 pub struct Trie<Data> {
-    root: Node<Data>,
+    /// The root comes first. Nodes refer to each other by index: a tree of
+    /// owned nodes would be cloned and dropped recursively, overflowing the
+    /// stack on long elements.
+    nodes: Vec<Node<Data>>,
 }
 
 impl<Data: Clone> Trie<Data> {
     pub fn push(&mut self, element: &[u8], data: Data) {
-        let mut node = &mut self.root;
+        let mut node = 0;
 
         for b in element.iter() {
-            node = node.children.entry(*b).or_default();
+            let next = self.nodes.len();
+            node = *self.nodes[node].children.entry(*b).or_insert(next);
+
+            if node == next {
+                self.nodes.push(Node::default());
+            }
         }
 
-        node.data = Some(data);
+        self.nodes[node].data = Some(data);
     }
 
     pub fn common_prefix_search<'a, T>(
@@ -28,7 +36,8 @@ impl<Data: Clone> Trie<Data> {
         T: Iterator<Item = u8>,
     {
         TrieIterator {
-            node: &self.root,
+            nodes: &self.nodes,
+            node: &self.nodes[0],
             prefix,
             iterator,
         }
@@ -36,6 +45,7 @@ impl<Data: Clone> Trie<Data> {
 }
 
 pub struct TrieIterator<'a, 'b, Data, T> {
+    nodes: &'a [Node<Data>],
     node: &'a Node<Data>,
     prefix: &'b mut Vec<u8>,
     iterator: T,
@@ -53,7 +63,7 @@ where
             let b = self.iterator.next()?;
             self.prefix.push(b);
             self.node = match self.node.children.get(&b) {
-                Some(child) => child,
+                Some(&child) => &self.nodes[child],
                 None => return None,
             };
             if let Some(data) = &self.node.data {
@@ -66,7 +76,7 @@ where
 impl<Data> Default for Trie<Data> {
     fn default() -> Self {
         Self {
-            root: Node::default(),
+            nodes: vec![Node::default()],
         }
     }
 }
@@ -74,7 +84,7 @@ impl<Data> Default for Trie<Data> {
 #[derive(Clone)]
 struct Node<Data> {
     data: Option<Data>,
-    children: HashMap<u8, Node<Data>, fnv::FnvBuildHasher>,
+    children: HashMap<u8, usize, fnv::FnvBuildHasher>,
 }
 
 impl<Data> Default for Node<Data> {
-- 
2.43.0


From 94059879a5937aa98617900fc5d9423321a4de6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:54 +0000
Subject: [PATCH 20/21] fix: n-best search of a long sentence overflows the
 stack

---
 src/lattice.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lattice.rs b/src/lattice.rs
index 3edb00d..f8a2f81 100644
--- a/src/lattice.rs
+++ b/src/lattice.rs
@@ -375,6 +375,21 @@ impl Hypothesis {
     }
 }
 
+/// Hypotheses form chains as long as the sentence: releasing them recursively
+/// would overflow the stack.
+impl Drop for Hypothesis {
+    fn drop(&mut self) {
+        let mut next = self.next.take();
+
+        while let Some(hypothesis) = next {
+            next = match Rc::try_unwrap(hypothesis) {
+                Ok(hypothesis) => hypothesis.into_inner().next.take(),
+                Err(_) => break,
+            };
+        }
+    }
+}
+
 impl PartialEq for Hypothesis {
     fn eq(&self, other: &Self) -> bool {
         self.fx == other.fx
-- 
2.43.0


From 045a1d5943671be4a01e01fe1569de88b934e7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:50 +0000
Subject: [PATCH 21/21] fix: patterns that end in a comment can be combined
 with others

---
 src/regex.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/regex.rs b/src/regex.rs
index 3d215a6..47fb4ff 100644
--- a/src/regex.rs
+++ b/src/regex.rs
@@ -410,6 +410,18 @@ pub const PATTERNS: &[(&str, RegexFnPtr, &[&str], &[&str])] = &[
     ),
 ];
 
+/// Wraps a pattern in a group. In verbose mode a pattern may end in a comment,
+/// which has to be closed by a line end for the parenthesis not to be part of it.
+fn group(regex: &Regex) -> String {
+    let group = format!("(?:{})", regex.as_str());
+
+    if regex.as_str().contains('#') && Regex::new(&group).is_err() {
+        return format!("(?:{}\n)", regex.as_str());
+    }
+
+    group
+}
+
 pub fn build_allow_regex<I>(regexes: I) -> Regex
 where
     I: IntoIterator<Item = Regex>,
@@ -417,7 +429,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
-            .map(|r| format!("^(?:{})$", r.as_str()))
+            .map(|r| format!("^{}$", group(&r)))
             .collect::<Vec<String>>()
             .join("|"),
     )
@@ -431,7 +443,7 @@ where
     Regex::new(
         &regexes
             .into_iter()
-            .map(|r| format!("(?:{})", r.as_str()))
+            .map(|r| group(&r))
             .collect::<Vec<String>>()
             .join("|"),
     )
-- 
2.43.0

