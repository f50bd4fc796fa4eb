From 019701ad72673cf88a630d48738f0bfc6432e48b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:46 +0000
Subject: [PATCH 1/9] fix: keep both sibling leaves when rehashing a parent
 with a remembered leaf

---
 src/pollard.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index d72444a..955dcaa 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -731,6 +731,15 @@ void Pollard::Node::ReHash()
     }
 
     Accumulator::ParentHash(m_node->m_hash, m_sibling->m_nieces[0]->m_hash, m_sibling->m_nieces[1]->m_hash);
+
+    // The remember marker of a leaf is stored on its sibling, so as long as one of two sibling
+    // leaves carries a marker both of them have to be kept (see MergeRoot).
+    bool children_are_leaves = ForestState(m_num_leaves).DetectRow(m_position) == 1;
+    if (children_are_leaves &&
+        (!m_sibling->m_nieces[0]->DeadEnd() || !m_sibling->m_nieces[1]->DeadEnd())) {
+        return;
+    }
+
     m_sibling->Prune();
 }
 
-- 
2.43.0


From a1a61ece2d82307365377ea363cbddc3083ce6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 2/9] fix: forget the leaf positions when pruning a pollard

---
 src/pollard.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 955dcaa..3868905 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -353,6 +353,9 @@ void Pollard::Prune()
         INTERNAL_NODE(root)->Chop();
     }
     assert(m_remember.use_count() == 1);
+
+    // Nothing is cached anymore, so there are no leaves left to prove.
+    m_posmap.clear();
 }
 
 uint64_t Pollard::CountNodes(const NodePtr<Pollard::InternalNode>& node) const
-- 
2.43.0


From 4f73b74de12a0ab2b79d67b30d77273671d0026b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 3/9] fix: do not remember the targets of a rejected proof

---
 src/pollard.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 3868905..06d9a0f 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -551,6 +551,9 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
     bool verification_success = true;
     auto target_hash = target_hashes.begin();
 
+    // The nodes of the targets that will be remembered if the verification succeeds.
+    std::vector<NodePtr<Pollard::Node>> target_nodes;
+
     while (proof_tree.size() > 0 && verification_success) {
         std::vector<NodePtr<Pollard::Node>> next_proof_tree;
 
@@ -602,7 +605,7 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
                     proof_node->m_node->m_hash = *target_hash;
                 }
 
-                proof_node->m_sibling->m_nieces[0] = m_remember;
+                target_nodes.push_back(proof_node);
 
                 ++target_hash;
                 continue;
@@ -637,6 +640,13 @@ bool Pollard::VerifyProofTree(std::vector<NodePtr<Pollard::Node>> proof_tree,
     verification_success = verification_success &&
                            target_hash >= target_hashes.end();
 
+    // Only mark the targets as remembered if the proof was valid.
+    if (verification_success) {
+        for (NodePtr<Pollard::Node>& target_node : target_nodes) {
+            target_node->m_sibling->m_nieces[0] = m_remember;
+        }
+    }
+
     return verification_success;
 }
 
-- 
2.43.0


From 77a6e9de1dd29a4286b317fba549d63c251420f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 4/9] fix: never consume a proof hash past the end of the proof

---
 src/pollard.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pollard.cpp b/src/pollard.cpp
index 06d9a0f..1b0484d 100644
--- a/src/pollard.cpp
+++ b/src/pollard.cpp
@@ -511,11 +511,9 @@ bool Pollard::CreateProofTree(std::vector<NodePtr<Pollard::Node>>& proof_tree_ou
                 // Populate the proof hashses.
                 bool consume = true;
                 if (node->IsCached()) {
-                    Hash null_hash;
-                    null_hash.fill(0);
-                    const Hash& hash = proof_hash < proof.GetHashes().crend() ? *proof_hash : null_hash;
                     // If provided proof hash matches the cached hash, we consume the hash.
-                    consume = node->m_node->m_hash == hash;
+                    consume = proof_hash < proof.GetHashes().crend() &&
+                              node->m_node->m_hash == *proof_hash;
                 } else {
                     // This proof was not cached.
                     // We populate with the provided proof hash.
-- 
2.43.0


From 35a829416fcd882a9466871ce02e426853a3c06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:06 +0000
Subject: [PATCH 5/9] fix: reset the sorted targets when unserializing a batch
 proof

---
 src/batchproof.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 18718b2..42c0926 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -67,6 +67,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
     }
 
     m_targets.clear();
+    m_sorted_targets.clear();
     m_proof.clear();
     m_targets.reserve(num_targets);
     m_sorted_targets.reserve(num_targets);
-- 
2.43.0


From 3e1d4076f729db15711c2de5418029659a7a23ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:12 +0000
Subject: [PATCH 6/9] fix: check the size of a serialized undo batch without
 overflow

---
 src/batchproof.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index 42c0926..e789242 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -169,7 +169,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
     data_offset += 4;
 
-    if (bytes.size() != 4 + 4 + 4 * num_targets + 32 * num_targets) {
+    if (bytes.size() != 8ULL + num_targets * 4ULL + num_targets * 32ULL) {
         return false;
     }
 
-- 
2.43.0


From 1c2b43399d69692c0e44628a8c8128449ca5b5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:20 +0000
Subject: [PATCH 7/9] fix: handle leaves missing in the other position map when
 comparing

---
 src/accumulator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/accumulator.cpp b/src/accumulator.cpp
index ea15b74..f1b7fc8 100644
--- a/src/accumulator.cpp
+++ b/src/accumulator.cpp
@@ -71,7 +71,7 @@ bool Accumulator::ComparePositionMap(Accumulator& other) const
 {
     for (auto [hash, pos] : m_posmap) {
         auto it_other = other.m_posmap.find(hash);
-        if (it_other->second != pos) {
+        if (it_other == other.m_posmap.end() || it_other->second != pos) {
             return false;
         }
     }
-- 
2.43.0


From d188cb16ac3574265e93c353248b41a71a542c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:58 +0000
Subject: [PATCH 8/9] fix: allocate missing rows when undoing in a restored
 forest

---
 src/ram_forest.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ram_forest.cpp b/src/ram_forest.cpp
index 3927eef..ced9adb 100644
--- a/src/ram_forest.cpp
+++ b/src/ram_forest.cpp
@@ -448,6 +448,9 @@ bool RamForest::Undo(const UndoBatch& undo)
         dirt.push_back(Accumulator::MakeNodePtr<RamForest::Node>(this, m_num_leaves, parent_pos));
     }
 
+    // A restored forest only holds the rows of its current state, the previous state might have more.
+    if (m_data.size() <= prev_state.NumRows()) m_data.resize(prev_state.NumRows() + 1);
+
     for (uint8_t r = 1; r <= prev_state.NumRows(); ++r) {
         m_data[r].resize(m_num_leaves >> r);
         std::vector<NodePtr<RamForest::Node>> next_dirt;
-- 
2.43.0


From bebd7d3ac72f7f2d481af30971781b198ec82504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:01 +0000
Subject: [PATCH 9/9] fix: count serialized bytes in a size_t offset

---
 src/batchproof.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/batchproof.cpp b/src/batchproof.cpp
index e789242..399d6a4 100644
--- a/src/batchproof.cpp
+++ b/src/batchproof.cpp
@@ -32,7 +32,7 @@ void BatchProof::Serialize(std::vector<uint8_t>& bytes) const
     // Proof hashes:           32 bytes each
     bytes.resize(4 + 4 + m_targets.size() * 4 + m_proof.size() * 32);
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_targets.size()));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_proof.size()));
@@ -56,7 +56,7 @@ bool BatchProof::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     uint32_t num_targets = ReadBE32(bytes.data());
     data_offset += 4;
     uint32_t num_hashes = ReadBE32(bytes.data() + data_offset);
@@ -139,7 +139,7 @@ void UndoBatch::Serialize(std::vector<uint8_t>& bytes) const
     // del hashes: 32bytes * num dels
     bytes.resize(4 + 4 + 4 * m_deleted_positions.size() + 32 * m_deleted_hashes.size());
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     WriteBE32(bytes.data(), uint32_t(m_num_additions));
     data_offset += 4;
     WriteBE32(bytes.data() + data_offset, uint32_t(m_deleted_positions.size()));
@@ -163,7 +163,7 @@ bool UndoBatch::Unserialize(const std::vector<uint8_t>& bytes)
         return false;
     }
 
-    int data_offset = 0;
+    size_t data_offset = 0;
     m_num_additions = static_cast<uint64_t>(ReadBE32(bytes.data()));
     data_offset += 4;
     uint32_t num_targets = ReadBE32(bytes.data() + data_offset);
-- 
2.43.0

