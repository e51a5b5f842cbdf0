From 1ab2682267f631209416f3c4fc3a4133710912b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:04 +0000
Subject: [PATCH 01/10] fix: packing a packed tree is a noop

Rewriting the unsealed part produced a different root every time, and for a
tree consisting of a single sealed leaf the root became the link of the leaf,
which can not be loaded as a tree.
---
 banyan/src/tree.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 13dc0b4..8b0db44 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -531,6 +531,9 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
     /// ![packing illustration](https://ipfs.io/ipfs/QmaEDTjHSdCKyGQ3cFMCf73kE67NvffLA5agquLW5qSEVn/packing.jpg)
     pub fn pack<V: BanyanValue>(&mut self, tree: &mut StreamBuilder<T, V>) -> Result<()> {
         let initial = tree.snapshot();
+        if self.is_packed(&initial)? {
+            return Ok(());
+        }
         let roots = self.roots(tree)?;
         self.tree_from_roots(roots, tree)?;
         let remainder: Vec<_> = self
-- 
2.43.0


From 0d88b86e747d4b24ac8d5b4cec7eb3946aa726cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:06 +0000
Subject: [PATCH 02/10] fix: pack an unpacked tree before extending it

extend and push on a tree that is not packed could panic in extend_branch or
new_branch.
---
 banyan/src/tree.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/banyan/src/tree.rs b/banyan/src/tree.rs
index 8b0db44..1e4e62e 100644
--- a/banyan/src/tree.rs
+++ b/banyan/src/tree.rs
@@ -569,6 +569,12 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             // nothing to do
             return Ok(());
         }
+        // leave the tree alone if packing or extending it fails
+        let mut tree = tree.transaction();
+        // only a packed tree can be extended in place
+        if !self.is_packed(&tree.snapshot())? {
+            self.pack(&mut tree)?;
+        }
         let index = tree.as_index_ref().cloned();
         let index = self.extend_above(
             index.as_ref(),
@@ -577,6 +583,7 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>, W: BlockWriter<T::Link>> Transacti
             tree.state_mut(),
         )?;
         tree.set_index(Some(index));
+        tree.commit();
         Ok(())
     }
 
-- 
2.43.0


From 5f2b8207891d849e5ed1b7ca8b129fa7a2e8853d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:06 +0000
Subject: [PATCH 03/10] fix: reject a branch block without children instead of
 panicking

---
 banyan/src/index.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/banyan/src/index.rs b/banyan/src/index.rs
index 987eded..6a85c62 100644
--- a/banyan/src/index.rs
+++ b/banyan/src/index.rs
@@ -446,6 +446,7 @@ pub(crate) fn deserialize_compressed<T: TreeTypes>(
 ) -> Result<(Vec<Index<T>>, Range<u64>)> {
     let (seq, byte_range) = ZstdDagCborSeq::decrypt(ipld, key, nonce)?;
     let seq = seq.items_ipld::<Index<T>>()?;
+    anyhow::ensure!(!seq.is_empty(), "branch without children");
     Ok((seq, byte_range))
 }
 
-- 
2.43.0


From 2e49bcdffdc3e9ba45b44a1aa0a57c55d8383a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:06 +0000
Subject: [PATCH 04/10] fix: end index iteration after an error

The iterator returned the same error again and again.
---
 banyan/src/forest/index_iter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/banyan/src/forest/index_iter.rs b/banyan/src/forest/index_iter.rs
index f04f28e..8eed675 100644
--- a/banyan/src/forest/index_iter.rs
+++ b/banyan/src/forest/index_iter.rs
@@ -129,7 +129,11 @@ where
                 NodeInfo::Branch(index, branch) => {
                     let branch = match branch.load_cached() {
                         Ok(branch) => branch,
-                        Err(cause) => return Some(Err(cause)),
+                        Err(cause) => {
+                            // ensure we are done after the error
+                            self.stack.clear();
+                            return Some(Err(cause));
+                        }
                     };
                     if head.filter.is_empty() {
                         // we hit this branch node for the first time. Apply the
-- 
2.43.0


From c5e5624d60aa58e17f5484b9a585b1feebc20908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:06 +0000
Subject: [PATCH 05/10] fix: remove all redundant conjunctions from a Dnf

Adding x to x&y | x&z left x&y in, so equivalent expressions could end up with
different disjunctive normal forms.
---
 banyan-utils/src/tag_index.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bc815f6..bdeddf0 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -340,7 +340,7 @@ impl Dnf {
 }
 
 fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
-    let mut to_remove = None;
+    let mut to_remove = Vec::new();
     for a in aa.iter() {
         if a.is_subset(&b) {
             // a is larger than b. E.g. x | x&y
@@ -349,10 +349,10 @@ fn insert_unless_redundant(aa: &mut BTreeSet<TagSet>, b: TagSet) {
         } else if a.is_superset(&b) {
             // a is smaller than b, E.g. x&y | x
             // remove a, keep b
-            to_remove = Some(a.clone());
+            to_remove.push(a.clone());
         }
     }
-    if let Some(r) = to_remove {
+    for r in to_remove {
         aa.remove(&r);
     }
     aa.insert(b);
-- 
2.43.0


From 4da23cc2fb61d3eb130090fdd29ee3bff3fe4271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:12 +0000
Subject: [PATCH 06/10] fix: a tag query with a tag that does not occur matches
 the rest of the query

A single tag missing from the string table of a node made the entire query
match nothing.
---
 banyan-utils/src/tags.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/banyan-utils/src/tags.rs b/banyan-utils/src/tags.rs
index 3084e05..55e034d 100644
--- a/banyan-utils/src/tags.rs
+++ b/banyan-utils/src/tags.rs
@@ -1,4 +1,4 @@
-use crate::{tag_index::map_to_index_set, tag_index::TagIndex, tag_index::TagSet};
+use crate::{tag_index::TagIndex, tag_index::TagSet};
 use banyan::query::Query;
 use banyan::{index::*, TreeTypes};
 use libipld::{
@@ -202,14 +202,17 @@ impl DnfQuery {
             query: self
                 .0
                 .iter()
-                .map(|key| {
-                    map_to_index_set(&keyseq.tags.tags, &key.tags).map(|index_set| TranslatedKey {
-                        index_set,
-                        time: key.time,
-                    })
+                .map(|key| TranslatedKey {
+                    // tags that are not in the string table do not occur in any element
+                    index_set: key
+                        .tags
+                        .iter()
+                        .filter_map(|t| keyseq.tags.tags.as_ref().binary_search(t).ok())
+                        .map(|i| i as u32)
+                        .collect(),
+                    time: key.time,
                 })
-                .collect::<Option<Vec<_>>>()
-                .unwrap_or_default(),
+                .collect(),
             seq: keyseq,
         }
     }
-- 
2.43.0


From d1d905ba450ba09eede6a33f1c321802581ab2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:10 +0000
Subject: [PATCH 07/10] fix: repair forgets leaves whose data can not be
 decompressed

---
 banyan/src/forest/read.rs  | 11 ++++++++++-
 banyan/src/forest/write.rs |  2 +-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/read.rs b/banyan/src/forest/read.rs
index ed22241..0715b97 100644
--- a/banyan/src/forest/read.rs
+++ b/banyan/src/forest/read.rs
@@ -11,7 +11,7 @@ use crate::{
     store::{BanyanValue, ReadOnlyStore},
     util::{nonce, BoolSliceExt, IterExt},
 };
-use anyhow::{anyhow, Result};
+use anyhow::{anyhow, ensure, Result};
 use cbor_data::codec::ReadCbor;
 use futures::{prelude::*, stream::BoxStream};
 use smallvec::{smallvec, SmallVec};
@@ -369,6 +369,15 @@ where
         })
     }
 
+    /// check that the data of a leaf can be loaded, decompressed and has one item for each key
+    pub(crate) fn check_leaf(&self, stream: &Secrets, index: &LeafIndex<T>) -> Result<()> {
+        if let Some(leaf) = self.load_leaf(stream, index)? {
+            let count = leaf.as_ref().count()?;
+            ensure!(count == index.keys.count(), "wrong number of items");
+        }
+        Ok(())
+    }
+
     /// load a leaf given a leaf index
     pub(crate) fn load_leaf_from_link(&self, stream: &Secrets, link: &T::Link) -> Result<Leaf> {
         #[cfg(feature = "metrics")]
diff --git a/banyan/src/forest/write.rs b/banyan/src/forest/write.rs
index 49ce165..67fdea5 100644
--- a/banyan/src/forest/write.rs
+++ b/banyan/src/forest/write.rs
@@ -480,7 +480,7 @@ where
             Index::Leaf(index) => {
                 let mut index = index.as_ref().clone();
                 // important not to hit the cache here!
-                if let Err(cause) = self.load_leaf(stream.secrets(), &index) {
+                if let Err(cause) = self.check_leaf(stream.secrets(), &index) {
                     let link_txt = index.link.map(|x| x.to_string()).unwrap_or_default();
                     report.push(format!("forgetting leaf {} due to {}", link_txt, cause));
                     if !index.sealed {
-- 
2.43.0


From 28138b1161d9c054cea951469005692da2011217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:07:11 +0000
Subject: [PATCH 08/10] fix: refuse to write blocks that are too large to be
 decompressed

A branch whose children come to more than 16 MiB could be written, but not
be read again.
---
 banyan/src/store/thread_local_zstd.rs | 4 ++--
 banyan/src/store/zstd_dag_cbor_seq.rs | 9 ++++++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/banyan/src/store/thread_local_zstd.rs b/banyan/src/store/thread_local_zstd.rs
index 968b1a9..7f28c0b 100644
--- a/banyan/src/store/thread_local_zstd.rs
+++ b/banyan/src/store/thread_local_zstd.rs
@@ -5,8 +5,8 @@ use zstd::block::Decompressor;
 /// The size of the thread local buffer
 const MIN_CAPACITY: usize = 1024 * 1024 * 4;
 
-/// Max capacity we are going to allocate.
-const MAX_CAPACITY: usize = 1024 * 1024 * 16;
+/// Max capacity we are going to allocate. Larger blocks can not be decompressed.
+pub(crate) const MAX_CAPACITY: usize = 1024 * 1024 * 16;
 
 /// thread-local decompression state
 pub(crate) struct DecompressionState {
diff --git a/banyan/src/store/zstd_dag_cbor_seq.rs b/banyan/src/store/zstd_dag_cbor_seq.rs
index baaf07d..375d991 100644
--- a/banyan/src/store/zstd_dag_cbor_seq.rs
+++ b/banyan/src/store/zstd_dag_cbor_seq.rs
@@ -45,7 +45,10 @@ use std::{
     time::Instant,
 };
 
-use crate::{store::decompress_and_transform, stream_builder::CipherOffset};
+use crate::{
+    store::{decompress_and_transform, thread_local_zstd::MAX_CAPACITY},
+    stream_builder::CipherOffset,
+};
 
 #[derive(Clone, PartialEq, Eq)]
 pub struct ZstdDagCborSeq {
@@ -78,6 +81,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // anything larger can not be decompressed again
+        anyhow::ensure!(size <= MAX_CAPACITY, "sequence too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
@@ -106,6 +111,8 @@ impl ZstdDagCborSeq {
             scrape_links(encoded.as_ref(), &mut links)?;
             encoder.write_all(encoded.as_ref())?;
         }
+        // anything larger can not be decompressed again
+        anyhow::ensure!(size <= MAX_CAPACITY, "sequence too large!");
         // call finish to write the zstd frame
         let data = encoder.finish()?;
         tracing::trace!(
-- 
2.43.0


From 4993af5322cb4e3ffbd6157293dd7838829192a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:01 +0000
Subject: [PATCH 09/10] fix: and/or of nothing has a normal form

dnf() of an empty conjunction or disjunction, and expression() of an empty
normal form, panicked. An empty disjunction matches nothing, an empty
conjunction everything.
---
 banyan-utils/src/tag_index.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/banyan-utils/src/tag_index.rs b/banyan-utils/src/tag_index.rs
index bdeddf0..58a68ee 100644
--- a/banyan-utils/src/tag_index.rs
+++ b/banyan-utils/src/tag_index.rs
@@ -294,10 +294,14 @@ impl Expression {
         match self {
             Expression::Literal(x) => Dnf::literal(x),
             Expression::Or(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor).unwrap()
+                // no alternative: matches nothing
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitor)
+                    .unwrap_or_else(|| Dnf(BTreeSet::new()))
             }
             Expression::And(es) => {
-                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand).unwrap()
+                // no condition: matches everything
+                Reduce::reduce(es.into_iter().map(|x| x.dnf()), Dnf::bitand)
+                    .unwrap_or_else(|| Dnf(btreeset![TagSet::default()]))
             }
         }
     }
@@ -331,11 +335,13 @@ impl Dnf {
 
     /// converts the disjunctive normal form back to an expression
     pub fn expression(self) -> Expression {
-        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor).unwrap()
+        Reduce::reduce(self.0.into_iter().map(Dnf::and_expr), Expression::bitor)
+            .unwrap_or_else(|| Expression::Or(Vec::new()))
     }
 
     fn and_expr(v: TagSet) -> Expression {
-        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand).unwrap()
+        Reduce::reduce(v.into_iter().map(Expression::literal), Expression::bitand)
+            .unwrap_or_else(|| Expression::And(Vec::new()))
     }
 }
 
-- 
2.43.0


From 8c62ee3a4cf9b713dadfb7e97232c43ef87d773c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:24 +0000
Subject: [PATCH 10/10] fix: reverse streaming delivers no event twice after a
 failed tree

stream_trees_chunked_reverse passed the start of the last chunk on as the inclusive end of the range for the next tree, so that the event at that offset was delivered again when a tree could be read only in part.
---
 banyan/src/forest/stream.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/banyan/src/forest/stream.rs b/banyan/src/forest/stream.rs
index ea22974..8d9807f 100644
--- a/banyan/src/forest/stream.rs
+++ b/banyan/src/forest/stream.rs
@@ -172,8 +172,10 @@ impl<T: TreeTypes, R: ReadOnlyStore<T::Link>> Forest<T, R> {
                     .stream_filtered_chunked_reverse0(&secrets, query, index, mk_extra)
                     .take_while(move |result| {
                         if let Ok(chunk) = result {
-                            // update the end offset from the start of what we got
-                            end_offset_ref.fetch_min(chunk.range.start, Ordering::SeqCst);
+                            // update the end offset from the start of what we got.
+                            // it is inclusive, so the next tree continues just below this chunk
+                            let below = chunk.range.start.saturating_sub(1);
+                            end_offset_ref.fetch_min(below, Ordering::SeqCst);
                         }
                         // abort at the first non-ok offset
                         future::ready(result.is_ok())
-- 
2.43.0

