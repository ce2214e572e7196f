From a2d14ce8ee7ee258720bde4ecf475f0d2bc4cd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:09 +0000
Subject: [PATCH 01/40] fix: don't lose wakeups in WriteBack::borrow

Credit repayed after a borrower undid its failed loan, but before it set the
sleepers flag, awakened nobody.  If that was the last outstanding credit, then
the borrower would sleep forever.
---
 bfffs-core/src/writeback/writeback.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/writeback/writeback.rs b/bfffs-core/src/writeback/writeback.rs
index 938b7e7..fe68fe1 100644
--- a/bfffs-core/src/writeback/writeback.rs
+++ b/bfffs-core/src/writeback/writeback.rs
@@ -253,6 +253,11 @@ impl WriteBack {
                     let sleeper = Sleeper { tx, wants: iwants };
                     guard.push_back(sleeper);
                     self.supply.fetch_or(1, Release);
+                    drop(guard);
+                    // Credit that was repayed before we set the sleepers flag
+                    // did not awaken anybody.  We must check for it again, or
+                    // else we might sleep forever.
+                    self.awaken();
                     break rx.map(move |_| Credit(AtomicIsize::new(iwants)));
                 }
             } else {
-- 
2.43.0


From af37fea171e2f250e1293b78ec084c81fcd15ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 02/40] fix: integer overflow in PRIME-S layouts with many
 disks

A repetition has n * (n - 1) stripes and k * (n - 1) rows, which does not fit
in an i16 for layouts with more than 181 disks.  And the intermediate product
stripe * data_columns overflows (panicking in debug builds) for even fewer
disks.
---
 bfffs-core/src/raid/prime_s.rs | 43 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/bfffs-core/src/raid/prime_s.rs b/bfffs-core/src/raid/prime_s.rs
index b9edf3d..633a96f 100644
--- a/bfffs-core/src/raid/prime_s.rs
+++ b/bfffs-core/src/raid/prime_s.rs
@@ -81,7 +81,7 @@ struct ChunklocInt {
     /// Repetition of the layout
     r: u64,
     /// Stripe within its repetition.  Valid range is [0, n * (n-1))
-    s: i16,
+    s: i32,
     /// Stride.  Valid range is [0, n]
     y: i16,
     /// Iteration.  Valid range is is [0, n-1)
@@ -151,7 +151,7 @@ pub struct PrimeS {
     /// Number of stripes in one repetition.  Valid range is [1, 46010]
     stripes: u16,
     /// Number of rows in a single repetition.  Valid range is [1, 46010]
-    depth: i16
+    depth: i32
 }
 
 impl PrimeS {
@@ -170,7 +170,7 @@ impl PrimeS {
         assert!(num_disks <= 215);
         assert!(disks_per_stripe > 1 && disks_per_stripe <= num_disks);
         assert!(redundancy > 0 && redundancy < disks_per_stripe);
-        let depth = disks_per_stripe * (num_disks - 1);
+        let depth = i32::from(disks_per_stripe) * i32::from(num_disks - 1);
         let disks_per_stripe = disks_per_stripe as u8;
         let redundancy = redundancy as u8;
         let m = disks_per_stripe - redundancy;
@@ -192,10 +192,9 @@ impl PrimeS {
         let (r, z) = self.id2rep_and_iter(chunkid);
         // The stripe
         let s = a / i32::from(self.m);
-        debug_assert!(s <= i32::from(i16::MAX));
         // The stride
         let y = (z.rem_euclid(i16::from(self.n - 1))) + 1;
-        ChunklocInt{a, r, s: s as i16, y, z}
+        ChunklocInt{a, r, s, y, z}
     }
 
     /// Return the repetition and iteration numbers where a given Chunk is
@@ -222,7 +221,7 @@ impl PrimeS {
                                disk: i16) -> i32 {
         // We must loop to calculate the offset.  That's PRIME-S's disadvantage
         // vis-a-vis PRIME
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let y_inv = i32::from(invmod(cli.y, i16::from(self.n)));
         // Contribution to offset from data chunks in this repetition
         let o0 = (s * i32::from(self.m) + b) / i32::from(self.n);
@@ -246,10 +245,10 @@ impl PrimeS {
     /// - `a`:      Index of data chunk within its repetition
     /// - `s`:      Stripe within its repetition
     /// - `m`:      Number of data disks per stripe
-    fn offset_within_stripe(id: ChunkId, a: i32, s: i16, m: u8) -> u8
+    fn offset_within_stripe(id: ChunkId, a: i32, s: i32, m: u8) -> u8
     {
         let b = match id {
-            ChunkId::Data(_) => a - i32::from(s * i16::from(m)),
+            ChunkId::Data(_) => a - s * i32::from(m),
             ChunkId::Parity(_, i) => i32::from(m) + i32::from(i)
         };
         debug_assert!(b < i32::from(u8::MAX));
@@ -279,7 +278,7 @@ impl Locator for PrimeS {
         let b = PrimeS::offset_within_stripe(chunkid, cli.a, cli.s, self.m);
         let b = i32::from(b);
         debug_assert!(b < i32::from(self.k));
-        let s = i32::from(cli.s);
+        let s = cli.s;
         let m = i32::from(self.m);
         let y = i32::from(cli.y);
         let disk = ((s * m + b) * y).rem_euclid(i32::from(self.n));
@@ -326,9 +325,9 @@ impl Locator for PrimeS {
         // stripe
         let s = stripes.ones()
             .nth(offset_in_iter as usize)
-            .unwrap() as i16 + i16::from(self.n) * z;
+            .unwrap() as i32 + i32::from(self.n) * i32::from(z);
         // position of stripe unit within stripe
-        let b = (disk * y_inv - i32::from(s) * i32::from(self.m))
+        let b = (disk * y_inv - s * i32::from(self.m))
             .rem_euclid(i32::from(self.n)) as u8;
         // number of data chunks preceding this repetition
         let o = r * self.datachunks();
@@ -365,14 +364,14 @@ impl Locator for PrimeS {
 pub struct PrimeSIter {
     a: i32,             // Index of a data chunk within its repetition
     f: u8,              // Number of parity disks per stripe
-    depth: i16,         // Number of rows in a single repetition
+    depth: i32,         // Number of rows in a single repetition
     end: ChunkId,       // Id of the first chunk beyond the end
     id: ChunkId,        // Id of next chunk
     m: u8,              // Number of data chunks per stripe
     n: u8,              // Number of disks in the layout
-    o: Vec<i16>,        // Offsets within an iteration for each disk
+    o: Vec<i32>,        // Offsets within an iteration for each disk
     r: u64,             // Repetition number
-    stripe: i16,        // Stripe within its repetition
+    stripe: i32,        // Stripe within its repetition
     stripe_iter: u8,    // Stripe within its iteration
     y: u8,              // Stride
     z: u8,              // Iteration number
@@ -387,14 +386,14 @@ impl PrimeSIter {
     /// iterator should return.
     fn new(layout: &PrimeS, start: ChunkId, end: ChunkId) -> Self {
         let cli = layout.id2loc_int(&start);
-        let s_z = cli.s.rem_euclid(i16::from(layout.stripes_per_iteration()));
+        let s_z = cli.s.rem_euclid(i32::from(layout.stripes_per_iteration()));
         let b = PrimeS::offset_within_stripe(start, cli.a, cli.s, layout.m);
         debug_assert!(b < layout.k);
         // Start with offset contributions from previous iterations
-        let o0 = i16::from(layout.k) * cli.z;
-        let mut o: Vec<i16> = vec![o0; layout.n as usize];
-        for s in 0..=i32::from(s_z) {
-            let end = if s == i32::from(s_z) { b } else { layout.k };
+        let o0 = i32::from(layout.k) * i32::from(cli.z);
+        let mut o: Vec<i32> = vec![o0; layout.n as usize];
+        for s in 0..=s_z {
+            let end = if s == s_z { b } else { layout.k };
             // Add contributions from other chunks in this iteration
             for b in 0..end {
                 let disk = ((s * i32::from(layout.m) + i32::from(b))
@@ -421,7 +420,7 @@ impl PrimeSIter {
     fn next_elem(&self) -> (i16, u64) {
         let b = PrimeS::offset_within_stripe(self.id, self.a, self.stripe,
                                              self.m);
-        let disk = ((i32::from(self.stripe) * i32::from(self.m) + i32::from(b))
+        let disk = ((self.stripe * i32::from(self.m) + i32::from(b))
                     * i32::from(self.y)).rem_euclid(i32::from(self.n));
         let disk = disk as i16;
         let o3 = self.r * self.depth as u64;
@@ -462,11 +461,11 @@ impl Iterator for PrimeSIter {
         self.id = match self.id {
         ChunkId::Data(i) => {
             self.o[disk as usize] += 1;
-            if self.a < i32::from(self.stripe + 1) * i32::from(self.m) - 1 {
+            if self.a < (self.stripe + 1) * i32::from(self.m) - 1 {
                 self.a += 1;
                 ChunkId::Data(i + 1)
             } else {
-                self.a = i32::from(self.stripe) * i32::from(self.m);
+                self.a = self.stripe * i32::from(self.m);
                 ChunkId::Parity(i - u64::from(self.m - 1), 0)
             }
         },
-- 
2.43.0


From aa5d82a93c584af99e14ad85e3825989a0c24134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 03/40] fix: accept recordsize=1048576

A typo in the table of record sizes rejected it, though that's how the property
is printed.
---
 bfffs-core/src/property.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 1c695c9..77bd5ea 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -180,7 +180,8 @@ impl FromStr for Property {
                         131_072 => Ok(Property::RecordSize(17)),
                         262_144 => Ok(Property::RecordSize(18)),
                         524_288 => Ok(Property::RecordSize(19)),
-                        1_048_776 => Ok(Property::RecordSize(20)),
+                        // 1_048_776 is accepted for backwards-compatibility
+                        1_048_576 | 1_048_776 => Ok(Property::RecordSize(20)),
                         _ => Err(ParsePropertyError::Value(propval.to_string()))
                     }
                 } else {
-- 
2.43.0


From db216d5d4e118a5bc5f5569d44638d390021279a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:00 +0000
Subject: [PATCH 04/40] fix: display PropertySource::None as "none"

---
 bfffs-core/src/property.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bfffs-core/src/property.rs b/bfffs-core/src/property.rs
index 77bd5ea..5a60e02 100644
--- a/bfffs-core/src/property.rs
+++ b/bfffs-core/src/property.rs
@@ -285,6 +285,7 @@ impl PropertySource {
 impl fmt::Display for PropertySource {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match *self {
+            Self::None => "none".fmt(f),
             Self::Default => "default".fmt(f),
             Self::LOCAL => "local".fmt(f),
             _ => "inherited".fmt(f)
-- 
2.43.0


From 82c6a39f207bb8a8354c9f67030b549b2454a807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 05/40] fix: don't wait forever for a cache insertion that
 failed

A read that failed, or whose future was dropped, left its key in
Cache::pending_insertions, so that every later read of the same record
would wait forever.  Also, a waiter would panic if the record got evicted
before the waiter was polled, and the reader would panic if a waiter had
been dropped.
---
 bfffs-core/src/cache/mod.rs | 61 ++++++++++++++++++++++++++++---------
 1 file changed, 47 insertions(+), 14 deletions(-)

diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index 4875f5f..e900f5f 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -8,6 +8,7 @@ use std::{
     borrow::Borrow,
     collections::HashMap,
     fmt::Debug,
+    sync::{Arc, Mutex}
 };
 
 mod lru;
@@ -124,7 +125,7 @@ impl Borrow<dyn CacheRef> for DivBuf {
 pub struct Cache{
     cache:self::lru::LruCache,
     #[doc(hidden)]
-    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<()>>>,
+    pub pending_insertions: HashMap<Key, Vec<oneshot::Sender<Box<dyn CacheRef>>>>,
 }
 
 impl Cache {
@@ -188,6 +189,45 @@ impl Cache {
     }
 }
 
+/// A promise to insert a block into the cache, once it has been read from disk.
+///
+/// If it gets dropped without being completed, either because the read failed or
+/// was cancelled, then nobody will wait for it any longer.
+#[doc(hidden)]
+pub struct PendingInsertion {
+    cache: Arc<Mutex<Cache>>,
+    key: Key,
+    completed: bool
+}
+
+impl PendingInsertion {
+    /// Insert the block into the cache, and give it to everybody who's waiting
+    pub fn complete(mut self, cacheable: Box<dyn Cacheable>) {
+        self.completed = true;
+        let mut guard = self.cache.lock().unwrap();
+        for s in guard.pending_insertions.remove(&self.key).into_iter().flatten()
+        {
+            // Ignore errors.  They mean that the receiver lost interest.
+            let _ = s.send(cacheable.make_ref());
+        }
+        guard.insert(self.key, cacheable);
+    }
+
+    pub fn new(cache: Arc<Mutex<Cache>>, key: Key) -> Self {
+        PendingInsertion{cache, key, completed: false}
+    }
+}
+
+impl Drop for PendingInsertion {
+    fn drop(&mut self) {
+        if !self.completed {
+            if let Ok(mut guard) = self.cache.lock() {
+                guard.pending_insertions.remove(&self.key);
+            }
+        }
+    }
+}
+
 /// Get a read-only reference to a cached block, or if not present read it from
 /// disk and update cache.
 ///
@@ -219,28 +259,21 @@ macro_rules! get_or_insert {
                 let (tx, rx) = ::futures::channel::oneshot::channel();
                 v.push(tx);
                 drop(guard);
-                let cache2 = $amself.clone();
                 return async move {
-                    rx.await.unwrap();
-                    let t = cache2.lock().unwrap().get::<$R>(&$key)
-                        .expect("Other task did not insert to cache as promised?");
-                    Ok(t)
+                    // The sender gets dropped if the other task fails
+                    let r = rx.await.map_err(|_| $crate::types::Error::EIO)?;
+                    Ok(r.downcast::<$R>().unwrap())
                 }.boxed();
             } else {
                 guard.pending_insertions.insert($key, Vec::new());
                 drop(guard);
             }
 
-            let cache2 = $amself.clone();
+            let pending = $crate::cache::PendingInsertion::new($amself.clone(),
+                $key);
             $f.map_ok(move |cacheable: Box<$C>| {
                 let r = cacheable.make_ref();
-                let mut guard = cache2.lock().unwrap();
-                guard.insert($key, cacheable);
-                if let Some(v) = guard.pending_insertions.remove(&$key) {
-                    for s in v.into_iter() {
-                        s.send(()).unwrap();
-                    }
-                }
+                pending.complete(cacheable);
                 r.downcast::<$R>().unwrap()
             }).boxed()
         }
-- 
2.43.0


From 99f2b4ca8b8e788076581f5b06126a649fec2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:08 +0000
Subject: [PATCH 06/40] fix: report out-of-range numbers in "pool create" as
 parse errors

---
 bfffs/src/pool_create_parser.lalrpop | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs/src/pool_create_parser.lalrpop b/bfffs/src/pool_create_parser.lalrpop
index 27e1701..fcb2c24 100644
--- a/bfffs/src/pool_create_parser.lalrpop
+++ b/bfffs/src/pool_create_parser.lalrpop
@@ -1,11 +1,13 @@
 // vim: filetype=rust
 
 use std::str::FromStr;
+use lalrpop_util::ParseError;
 use crate::pool_create_ast::{Disk, Mirror, Raid, RaidChild, Tlv, Pool};
 
 grammar;
 
-Num: i16 = r"[0-9]+" => i16::from_str(<>).unwrap();
+Num: i16 = r"[0-9]+" =>? i16::from_str(<>)
+    .map_err(|_| ParseError::User{error: "Number out of range"});
 
 Disk: Disk<'input> = {
     r"[/a-zA-Z][^ \t\n]*" => Disk(<>)
-- 
2.43.0


From 00ae92b701eeba1c1639a555fcc98cdfddfeb150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:04 +0000
Subject: [PATCH 07/40] fix: a range that excludes both of its equal bounds is
 empty

---
 bfffs-core/src/util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/util.rs b/bfffs-core/src/util.rs
index 5278279..4637630 100644
--- a/bfffs-core/src/util.rs
+++ b/bfffs-core/src/util.rs
@@ -158,7 +158,7 @@ pub trait RangeBoundsExt<T>: RangeBounds<T>
             (Bound::Included(s), Bound::Included(e)) => s > e,
             (Bound::Included(s), Bound::Excluded(e)) => s >= e,
             (Bound::Excluded(s), Bound::Included(e)) => s >= e,
-            (Bound::Excluded(s), Bound::Excluded(e)) => s > e,
+            (Bound::Excluded(s), Bound::Excluded(e)) => s >= e,
             _ => false
         }
     }
-- 
2.43.0


From 7cac5dce714082a86eab891f1afda04e482739f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 08/40] fix: link must not overwrite a directory entry whose
 name's hash collides

---
 bfffs-core/src/fs.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index ab17c27..3ac0060 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1433,10 +1433,9 @@ impl Fs {
             let ifut = ds.insert(inode_key, FSValue::inode(iv));
 
             let dirent_objkey = ObjKey::dir_entry(&name);
-            let dirent = Dirent { ino, dtype, name };
+            let dirent = Dirent { ino, dtype, name: name.clone() };
             let dirent_key = FSKey::new(parent_ino, dirent_objkey);
-            let dirent_value = FSValue::DirEntry(dirent);
-            let dfut = ds.insert(dirent_key, dirent_value);
+            let dfut = htable::insert(ds.clone(), dirent_key, dirent, name);
 
             let now = Timespec::now();
             let parent_attr = SetAttr {
-- 
2.43.0


From 89e67e5157342f1f1c1b6db0f659cd0821cf0d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:46 +0000
Subject: [PATCH 09/40] fix: resume readdir correctly in a bucket of three or
 more colliding names

---
 bfffs-core/src/fs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 3ac0060..6ccf710 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1933,7 +1933,8 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            for _ in 0..self.bucket_idx {
+                            let returned = self.bucket_idx;
+                            for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
                                 let _ = bucket.pop();
@@ -1943,7 +1944,7 @@ impl Fs {
                                 self.bucketing = Some(Bucketing {
                                     bucket,
                                     kofs: k.offset(),
-                                    returned: 0
+                                    returned
                                 });
                                 Poll::Ready(Some(Ok(self.pop_bucket())))
                             } else {
-- 
2.43.0


From 57eb4101edff050a3249b46ffca15583ad6cf1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:39 +0000
Subject: [PATCH 10/40] fix: readdir must not skip entries of a later bucket
 when the one it stopped in is gone

---
 bfffs-core/src/fs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 6ccf710..845c756 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -1886,6 +1886,8 @@ impl Fs {
         }
 
         struct ReaddirStream {
+            /// Key offset of the first bucket
+            offset: u64,
             /// Number of entries to skip from the first bucket
             bucket_idx: u8,
             rq: RangeQuery<FSKey, FSKey, FSValue>,
@@ -1933,7 +1935,13 @@ impl Fs {
                             Poll::Ready(Some(Ok(de)))
                         },
                         FSValue::DirEntries(mut bucket) => {
-                            let returned = self.bucket_idx;
+                            let returned = if k.offset() == self.offset {
+                                self.bucket_idx
+                            } else {
+                                // The bucket that bucket_idx referred to is
+                                // gone
+                                0
+                            };
                             for _ in 0..returned {
                                 // Ignore errors.  They indicate that the bucket
                                 // has shrunk since the Cursor was created
@@ -1967,7 +1975,7 @@ impl Fs {
             let rq = dataset.range(FSKey::dirent_range(ino, offs));
             let bucketing = None;
             let bucket_idx = cursor.bucket_idx();
-            ReaddirStream{bucket_idx, bucketing, rq}
+            ReaddirStream{offset: offs, bucket_idx, bucketing, rq}
         }).map_err(Error::into)
     }
 
-- 
2.43.0


From 12b9337d555759c686e8a145f9b5fa7a93fc949e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:49 +0000
Subject: [PATCH 11/40] fix: don't panic when flushing an extent that a reader
 still refers to

---
 bfffs-core/src/fs_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7f8667c..7750a41 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -1062,7 +1062,10 @@ impl InlineExtent {
     {
         let lsize = self.len();
         assert!(lsize > BLOB_THRESHOLD);
-        let dbs = Arc::try_unwrap(self.buf).unwrap();
+        // A concurrent reader may still be holding a reference to the buffer.
+        let dbs = Arc::try_unwrap(self.buf).unwrap_or_else(|buf| {
+            DivBufShared::from(buf.try_const().unwrap()[..].to_vec())
+        });
         let gfut = dml.put(dbs, Compression::None, txg);
         let g_type_id = gfut.type_id();
         let cfut: Pin<Box<dyn Future<Output=Result<RID>> + Send>> = unsafe {
-- 
2.43.0


From 90ec5ecc8aaac0700654bc246aa05f7270e01228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 12/40] fix: don't lose an xattr that is flushed while its hash
 bucket is being built

---
 bfffs-core/src/fs.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 845c756..1a25c5b 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -147,8 +147,11 @@ mod htable {
                         future::ok::<Option<T>, Error>(Some(old)).boxed()
                     } else {
                         // We had a hash collision setting an unrelated
-                        // item. Get the old value back, and pack them together.
-                        dataset.as_ref().get(key)
+                        // item. Take the new value back, and pack them
+                        // together.  Don't merely get it: if it has already
+                        // been flushed then we would store its record twice,
+                        // and overwriting the first would free the record.
+                        dataset.as_ref().remove(key)
                         .and_then(move |r| {
                             let v = r.unwrap();
                             let new = T::try_from(v).unwrap();
@@ -161,9 +164,9 @@ mod htable {
                     }
                 },
                 HTValue::Bucket(mut old) => {
-                    // There was previously a hash collision.  Get the new value
-                    // back, then pack them together.
-                    dataset.as_ref().get(key)
+                    // There was previously a hash collision.  Take the new
+                    // value back, then pack them together.
+                    dataset.as_ref().remove(key)
                     .and_then(move |r| {
                         let v = r.unwrap();
                         let new = T::try_from(v).unwrap();
-- 
2.43.0


From ac6b4d8ea0d2fff6ff5ac3e3585d0b060cee3c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:07 +0000
Subject: [PATCH 13/40] fix: don't panic when flushing an xattr that a reader
 still refers to

---
 bfffs-core/src/fs_tree.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index 7750a41..a355375 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -574,7 +574,10 @@ impl InlineExtAttr {
         debug_assert!(lsize > BLOB_THRESHOLD);
         let namespace = self.namespace;
         let name = self.name;
-        let dbs = Arc::try_unwrap(self.extent.buf).unwrap();
+        // A concurrent reader may still be holding a reference to the buffer.
+        let dbs = Arc::try_unwrap(self.extent.buf).unwrap_or_else(|buf| {
+            DivBufShared::from(buf.try_const().unwrap()[..].to_vec())
+        });
         dml.put(dbs, Compression::None, txg)
         .map_ok(move |rid: D::Addr| {
             let rid_a = checked_transmute(rid);
-- 
2.43.0


From 9f26fc4af783c03cb9b8c9409e74232026577aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 14/40] fix: don't panic when writing to a record that a reader
 still refers to

---
 bfffs-core/src/fs.rs      | 15 ++++++++++-----
 bfffs-core/src/fs_tree.rs | 12 ++++++++++++
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/fs.rs b/bfffs-core/src/fs.rs
index 1a25c5b..fdf5a63 100644
--- a/bfffs-core/src/fs.rs
+++ b/bfffs-core/src/fs.rs
@@ -889,7 +889,8 @@ impl Fs {
                     future::ok(0)
                 }.boxed(),
                 Some(FSValue::InlineExtent(ile)) => async move {
-                    let mut b = ile.buf.try_mut().unwrap();
+                    let buf = ile.into_exclusive();
+                    let mut b = buf.try_mut().unwrap();
                     let r = if recofs > b.len() as u64 {
                         // Nothing to do.  The truncation happens in a part of
                         // the record that is already sparse.
@@ -906,7 +907,8 @@ impl Fs {
                         }
                         0
                     };
-                    let extent = InlineExtent::new(ile.buf);
+                    drop(b);
+                    let extent = InlineExtent::new(buf);
                     let v = FSValue::InlineExtent(extent);
                     dataset.insert(k, v).await?;
                     Ok(r)
@@ -956,12 +958,14 @@ impl Fs {
                         future::ok(0).boxed()
                     },
                     Some(FSValue::InlineExtent(ile)) => async move {
-                        let mut b = ile.buf.try_mut().unwrap();
+                        let buf = ile.into_exclusive();
+                        let mut b = buf.try_mut().unwrap();
                         if len < b.len() as u64 {
                             for i in 0..len {
                                 b[i as usize] = 0;
                             }
-                            let extent = InlineExtent::new(ile.buf);
+                            drop(b);
+                            let extent = InlineExtent::new(buf);
                             let v = FSValue::InlineExtent(extent);
                             dataset4.insert(k, v).await?;
                             Ok(0)
@@ -2531,7 +2535,7 @@ impl Fs {
                 },
                 Some(FSValue::InlineExtent(ile)) => {
                     let old_len = ile.len() as i64;
-                    (ile.buf, old_len)
+                    (ile.into_exclusive(), old_len)
                 },
                 // Some(FSValue::BlobExtent(be)) should never happen, because
                 // FSValue::dpop will change it to an inline extent.
@@ -2548,6 +2552,7 @@ impl Fs {
 
             // Overwrite with new data
             base[r].copy_from_slice(&overlay[..]);
+            drop(base);
             let extent = InlineExtent::new(dbs);
             let new_len = extent.len() as i64;
             let new_v = FSValue::InlineExtent(extent);
diff --git a/bfffs-core/src/fs_tree.rs b/bfffs-core/src/fs_tree.rs
index a355375..e859e65 100644
--- a/bfffs-core/src/fs_tree.rs
+++ b/bfffs-core/src/fs_tree.rs
@@ -1079,6 +1079,18 @@ impl InlineExtent {
         InlineExtentFlush{k, inner: cfut, lsize: lsize as u32}
     }
 
+    /// Get a buffer that may be modified in place.
+    ///
+    /// That is this extent's own buffer, unless a reader still refers to it.
+    pub fn into_exclusive(self) -> Arc<DivBufShared> {
+        if Arc::strong_count(&self.buf) == 1 && self.buf.try_mut().is_ok() {
+            self.buf
+        } else {
+            let copy = self.buf.try_const().unwrap()[..].to_vec();
+            Arc::new(DivBufShared::from(copy))
+        }
+    }
+
     pub fn len(&self) -> usize {
         self.buf.len()
     }
-- 
2.43.0


From 82b660f3a02d3f32daf96fc39acebd7a4db37687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 15/40] fix: don't reuse the last transaction's number after
 importing a pool

The labels hold the number of the last transaction that was synced.  Transactions
after the import used it again, so that labels and zones written by different
transactions could not be told apart.
---
 bfffs-core/src/idml/idml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 0c5fcc6..ed07638 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -348,7 +348,7 @@ impl<'a> IDML {
         let l: Label = label_reader.deserialize().unwrap();
         let alloct = Arc::new(DTree::open(ddml.clone(), true, l.alloct));
         let ridt = Arc::new(DTree::open(ddml.clone(), true, l.ridt));
-        let transaction = RwLock::new(l.txg);
+        let transaction = RwLock::new(l.txg + 1);
         let next_rid = AtomicU64::new(l.next_rid);
         let writeback = WriteBack::with_capacity(writeback_size);
         let idml = IDML{
-- 
2.43.0


From a923994e5c82844594c1186d2ab770c4e78ff8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:44 +0000
Subject: [PATCH 16/40] fix: keep the space maps consistent with the labels
 across power failures

Import always used the first space map, even though it's overwritten before the
first label is, and nothing but the first flush after a zone changed was ever
written to the second.  After a power failure in between, the space map was newer
than the trees: used space was wrong, freeing a block could panic, and zones that
the trees still use might be taken for free.

Write both space maps completely, use the one that belongs to the most recent
label of any of the pool's disks, and don't overwrite the second one until the first
label is stable.
---
 bfffs-core/src/cluster.rs    | 83 +++++++++++++++++++++++++++++++-----
 bfffs-core/src/label.rs      | 20 ++++++++-
 bfffs-core/src/mirror.rs     |  6 ++-
 bfffs-core/src/pool.rs       | 18 ++++++--
 bfffs-core/src/raid/mod.rs   |  6 ++-
 bfffs-core/src/vdev_block.rs | 37 ++++++++--------
 6 files changed, 132 insertions(+), 38 deletions(-)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index baeaec1..0a0b116 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -151,6 +151,10 @@ struct FreeSpaceMap {
     /// Cluster::flush?
     dirty: FixedBitSet,
 
+    /// Blocks which were written to the first space map since they were last
+    /// written to the second.
+    unmirrored: FixedBitSet,
+
     /// Stores the set of empty or dead zones with id less than zones.len().
     /// All zones with id greater than or equal to zones.len() are implicitly
     /// empty.  A zone here listed is dead if its end txg > 0, empty otherwise.
@@ -431,6 +435,7 @@ impl<'a> FreeSpaceMap {
         // them to be written out when formatting a new disk.
         dirty.insert_range(..);
         FreeSpaceMap{
+            unmirrored: FixedBitSet::with_capacity(spacemap_blocks as usize),
             dirty,
             empty_zones: BTreeSet::new(),
             open_zones: BTreeMap::new(),
@@ -491,8 +496,16 @@ impl<'a> FreeSpaceMap {
         }
     }
 
-    /// Open a FreeSpaceMap from an already-formatted `VdevRaid`.
+    /// Open the first FreeSpaceMap from an already-formatted `VdevRaid`.
+    #[cfg(test)]
     async fn open(vdev: RaidImpl) -> Result<(Self, RaidImpl)>
+    {
+        Self::open_spacemap(vdev, 0).await
+    }
+
+    /// Open the FreeSpaceMap with index `idx` from an already-formatted
+    /// `VdevRaid`.
+    async fn open_spacemap(vdev: RaidImpl, idx: u32) -> Result<(Self, RaidImpl)>
     {
         let total_zones = vdev.zones();
         // NB: it would be slightly faster to created it with the correct
@@ -500,11 +513,20 @@ impl<'a> FreeSpaceMap {
         let blocks = (total_zones as usize).div_ceil(SPACEMAP_ZONES_PER_LBA);
         let dbs = DivBufShared::from(vec![0u8; blocks * BYTES_PER_LBA]);
         let dbm = dbs.try_mut().unwrap();
-        vdev.read_spacemap(dbm, 0)
-        .and_then(move |_| {
-            FreeSpaceMap::deserialize(vdev, dbs.try_const().unwrap(),
-                                      total_zones)
-        }).await
+        vdev.read_spacemap(dbm, idx).await?;
+        if idx > 0 && !SpacemapOnDisk::all_valid(dbs.try_const().unwrap()) {
+            // Older software did not write the second space map.
+            let dbm = dbs.try_mut().unwrap();
+            vdev.read_spacemap(dbm, 0).await?;
+        }
+        let (mut fsm, vdev) = FreeSpaceMap::deserialize(vdev,
+            dbs.try_const().unwrap(), total_zones).await?;
+        // The other space map might be out of date.
+        fsm.unmirrored.insert_range(..);
+        if idx > 0 {
+            fsm.dirty.insert_range(..);
+        }
+        Ok((fsm, vdev))
     }
 
     /// Return an iterator over the zone IDs of all open zones
@@ -774,6 +796,15 @@ struct SpacemapOnDisk {
 }
 
 impl SpacemapOnDisk {
+    /// Can every block of this serialized space map be deserialized?
+    fn all_valid(buf: DivBuf) -> bool {
+        buf.into_chunks(BYTES_PER_LBA)
+            .enumerate()
+            .all(|(i, db)| {
+                matches!(SpacemapOnDisk::deserialize(i as u64, &db), Ok(Ok(_)))
+            })
+    }
+
     fn deserialize(block: LbaT, buf: &DivBuf)
         -> std::result::Result<Result<Self>, speedy::Error>
     {
@@ -958,6 +989,17 @@ impl Cluster {
             self.allocated_space.fetch_add(gap, Ordering::Relaxed);
             fut
         }).collect::<FuturesUnordered<BoxVdevFut>>();
+        // Each block must be written to both space maps
+        let mut still_dirty = None;
+        if idx == 0 {
+            let FreeSpaceMap{dirty, unmirrored, ..} = &mut *fsm;
+            unmirrored.union_with(dirty);
+        } else {
+            let FreeSpaceMap{dirty, unmirrored, ..} = &mut *fsm;
+            still_dirty = Some(dirty.clone());
+            dirty.union_with(unmirrored);
+            unmirrored.clear();
+        }
         // Since FreeSpaceMap::waste_space is synchronous, we can serialize the
         // FSM here; we don't need to copy it into a Future's continuation.
         let sm_futs = fsm.serialize()
@@ -977,9 +1019,19 @@ impl Cluster {
             self.vdev.write_spacemap(sglist, idx, block)
         });
         futs.extend(sm_futs);
-        let fut = futs.try_collect::<Vec<_>>()
+        // The second space map may not be overwritten until the first label,
+        // which no longer needs it, is stable.
+        let sync_fut = if idx > 0 {
+            self.vdev.sync_all(None)
+        } else {
+            Box::pin(future::ok(())) as BoxVdevFut
+        };
+        let fut = sync_fut.and_then(move |_| futs.try_collect::<Vec<_>>())
         .map_ok(drop);
         fsm.clear_dirty_zones();
+        if let Some(dirty) = still_dirty {
+            fsm.dirty = dirty;
+        }
         drop(fsm);
         fut
     }
@@ -1032,9 +1084,11 @@ impl Cluster {
     ///
     /// Returns a new `Cluster` and a `LabelReader` that may be used to
     /// construct other vdevs stacked on top.
-    pub async fn open(vdev_raid: RaidImpl) -> Result<Self>
+    ///
+    /// `smidx` is the index of the space map to use.
+    pub async fn open(vdev_raid: RaidImpl, smidx: u32) -> Result<Self>
     {
-        FreeSpaceMap::open(vdev_raid).await
+        FreeSpaceMap::open_spacemap(vdev_raid, smidx).await
             .map(Cluster::new)
     }
 
@@ -1314,9 +1368,18 @@ impl Manager {
     #[cfg(not(test))]
     pub fn import(&mut self, uuid: Uuid)
         -> impl Future<Output=Result<(Cluster, LabelReader)>>
+    {
+        self.import_spacemap(uuid, 0)
+    }
+
+    /// Import a Cluster that is already known to exist, using the space map
+    /// with index `smidx`.
+    #[cfg(not(test))]
+    pub fn import_spacemap(&mut self, uuid: Uuid, smidx: u32)
+        -> impl Future<Output=Result<(Cluster, LabelReader)>>
     {
         self.0.import(uuid)
-            .and_then(|(vra, lr)| Cluster::open(vra)
+            .and_then(move |(vra, lr)| Cluster::open(vra, smidx)
                 .map_ok(|cluster| (cluster, lr))
             )
     }
diff --git a/bfffs-core/src/label.rs b/bfffs-core/src/label.rs
index f6c3b3c..cb10693 100644
--- a/bfffs-core/src/label.rs
+++ b/bfffs-core/src/label.rs
@@ -53,7 +53,8 @@ pub fn spacemap_space(nzones: u64) -> LbaT {
 
 /// Used to read successive structs out of the label
 pub struct LabelReader {
-    cursor: io::Cursor<Vec<u8>>
+    cursor: io::Cursor<Vec<u8>>,
+    generation: (TxgT, u32)
 }
 
 impl LabelReader {
@@ -66,6 +67,21 @@ impl LabelReader {
         T::read_from_stream_unbuffered(&mut self.cursor)
     }
 
+    /// The transaction group at which the label was written, and the label's
+    /// index.
+    ///
+    /// A greater generation is more recent.  The space map with the same index
+    /// as the most recent label of any disk of the pool is the one that belongs
+    /// to that label.
+    pub fn generation(&self) -> (TxgT, u32) {
+        self.generation
+    }
+
+    /// Record the label's generation.
+    pub fn set_generation(&mut self, generation: (TxgT, u32)) {
+        self.generation = generation;
+    }
+
     /// Construct a `LabelReader` using the raw buffer read from disk
     pub fn new(buffer: Vec<u8>) -> Result<Self> {
         if buffer.len() < MAGIC_LEN + CHECKSUM_LEN + LENGTH_LEN {
@@ -104,7 +120,7 @@ impl LabelReader {
         // Seek past header
         cursor.seek(SeekFrom::Start(contents_start as u64))
             .expect("IoVec too short");
-        Ok(LabelReader { cursor })
+        Ok(LabelReader { cursor, generation: (TxgT::from(0), 0) })
     }
 
     /// Get the offset of the `label`th label.
diff --git a/bfffs-core/src/mirror.rs b/bfffs-core/src/mirror.rs
index ee5b818..7128754 100644
--- a/bfffs-core/src/mirror.rs
+++ b/bfffs-core/src/mirror.rs
@@ -498,7 +498,7 @@ impl Mirror {
     fn open(uuid: Option<Uuid>, combined: Vec<(VdevBlock, LabelReader)>)
         -> Result<(Self, LabelReader)>
     {
-        let mut label_pair = None;
+        let mut label_pair: Option<(Label, LabelReader)> = None;
         let highest_txg = combined.iter()
             .map(|(vb, _)| vb.txg())
             .max()
@@ -510,7 +510,9 @@ impl Mirror {
                     assert_eq!(u, label.uuid,
                                "Opening disk from wrong mirror");
                 }
-                if label_pair.is_none() && vdev_block.txg() == highest_txg {
+                if vdev_block.txg() == highest_txg && label_pair.as_ref()
+                    .is_none_or(|lp| lp.1.generation() < label_reader.generation())
+                {
                     label_pair = Some((label, label_reader));
                 }
                 (vdev_block.uuid(), vdev_block)
diff --git a/bfffs-core/src/pool.rs b/bfffs-core/src/pool.rs
index 957d92d..fa70366 100644
--- a/bfffs-core/src/pool.rs
+++ b/bfffs-core/src/pool.rs
@@ -74,6 +74,8 @@ pub struct Label {
 #[derive(Default)]
 pub struct Manager {
     cm: crate::cluster::Manager,
+    /// The generation of each pool's most recent label on any disk.
+    generations: BTreeMap<Uuid, (TxgT, u32)>,
     pools: BTreeMap<Uuid, Label>,
 }
 
@@ -86,9 +88,14 @@ impl Manager {
             Some(l) => l,
             None => return Err(Error::ENOENT)
         };
+        // All clusters must use the space map of the same generation, even if
+        // we lost power before some of them wrote their labels.
+        let smidx = self.generations.remove(&uuid).map_or(0, |g| g.1);
         let mut cc = Vec::with_capacity(pl.children.len());
         let results = pl.children.into_iter()
-            .map(move |child_uuid| self.cm.import(child_uuid))
+            .map(move |child_uuid| {
+                self.cm.import_spacemap(child_uuid, smidx)
+            })
             .collect::<FuturesUnordered<_>>()
             .collect::<Vec<_>>().await;
         // XXX Can't use StreamExt::try_collect, because that will drop
@@ -118,6 +125,9 @@ impl Manager {
     pub async fn taste<P: AsRef<Path>>(&mut self, p: P) -> Result<()> {
         let mut reader = self.cm.taste(p).await?;
         let pl: Label = reader.deserialize().unwrap();
+        let generation = self.generations.entry(pl.uuid)
+            .or_insert(reader.generation());
+        *generation = reader.generation().max(*generation);
         self.pools.insert(pl.uuid, pl);
         Ok(())
     }
@@ -383,14 +393,16 @@ impl Pool {
     pub fn open(uuid: Option<Uuid>, combined: Vec<(Cluster, LabelReader)>)
         -> (Self, LabelReader)
     {
-        let mut label_pair = None;
+        let mut label_pair: Option<(Label, LabelReader)> = None;
         let mut all_clusters = combined.into_iter()
             .map(|(cluster, mut label_reader)| {
             let label: Label = label_reader.deserialize().unwrap();
             if let Some(u) = uuid {
                 assert_eq!(u, label.uuid, "Opening cluster from wrong pool");
             }
-            if label_pair.is_none() {
+            if label_pair.as_ref()
+                .is_none_or(|lp| lp.1.generation() < label_reader.generation())
+            {
                 label_pair = Some((label, label_reader));
             }
             (cluster.uuid(), cluster)
diff --git a/bfffs-core/src/raid/mod.rs b/bfffs-core/src/raid/mod.rs
index 4a3ba54..af41498 100644
--- a/bfffs-core/src/raid/mod.rs
+++ b/bfffs-core/src/raid/mod.rs
@@ -201,14 +201,16 @@ pub fn create(chunksize: Option<NonZeroU64>, disks_per_stripe: i16,
 fn open(uuid: Option<Uuid>, combined: Vec<(Mirror, LabelReader)>)
     -> (RaidImpl, LabelReader)
 {
-    let mut label_pair = None;
+    let mut label_pair: Option<(Label, LabelReader)> = None;
     let all_mirrors = combined.into_iter()
     .map(|(mirror, mut label_reader)| {
         let label: Label = label_reader.deserialize().unwrap();
         if let Some(u) = uuid {
             assert_eq!(u, label.uuid(), "Opening disk from wrong cluster");
         }
-        if label_pair.is_none() {
+        if label_pair.as_ref()
+            .is_none_or(|lp| lp.1.generation() < label_reader.generation())
+        {
             label_pair = Some((label, label_reader));
         }
         (mirror.uuid(), mirror)
diff --git a/bfffs-core/src/vdev_block.rs b/bfffs-core/src/vdev_block.rs
index cc9ec41..8d8e02d 100644
--- a/bfffs-core/src/vdev_block.rs
+++ b/bfffs-core/src/vdev_block.rs
@@ -1211,33 +1211,32 @@ impl Manager {
             })
     }
 
-    /// Read just one of a vdev's labels
+    /// Read the most recent of a vdev's labels
     async fn read_label(f: &fs::File) -> Result<LabelReader>
     {
-        let mut r = Err(Error::EDOOFUS);    // Will get overridden
+        let mut r: Result<LabelReader> = Err(Error::EDOOFUS);
 
         for label in 0..2 {
             let lba = LabelReader::lba(label);
             let offset = lba * BYTES_PER_LBA as u64;
             // TODO: figure out how to use mem::MaybeUninit with File::read_at
             let mut rbuf = vec![0; LABEL_SIZE];
-            match f.read_at(&mut rbuf[..], offset).unwrap().await {
-                Ok(_aio_result) => {
-                    match LabelReader::new(rbuf) {
-                        Ok(lr) => {
-                            r = Ok(lr);
-                            break
-                        }
-                        Err(e) => {
-                            // If this is the first label, try the second.
-                            r = Err(e);
-                        }
-                    }
-                },
-                Err(e) => {
-                    r = Err(Error::from(e));
-                }
-            }
+            let lr = match f.read_at(&mut rbuf[..], offset).unwrap().await {
+                Ok(_aio_result) => LabelReader::new(rbuf.clone())
+                    .and_then(|mut lr| {
+                        let l: Label = lr.deserialize().unwrap();
+                        // The caller will want to read it from the beginning
+                        let mut lr = LabelReader::new(rbuf)?;
+                        lr.set_generation((l.txg, label));
+                        Ok(lr)
+                    }),
+                Err(e) => Err(Error::from(e))
+            };
+            r = match (r, lr) {
+                (Ok(l0), Ok(l1)) if l0.generation() > l1.generation() => Ok(l0),
+                (Ok(l0), Err(_)) => Ok(l0),
+                (_, lr) => lr
+            };
         }
         r
     }
-- 
2.43.0


From 850f062054b4dee2f8620e8ac4e7c6739b37b9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:40 +0000
Subject: [PATCH 17/40] fix: after recovering from a power failure, don't
 overwrite the newest label's space map first

If power failed after the first label was complete but before the second, then
the next sync overwrote the first space map, even though the first label was the
newest.  A second power failure then left a label whose space map didn't match.
---
 bfffs-core/src/database/database.rs | 40 +++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 4f59d57..0543aca 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -34,7 +34,7 @@ use std::{
     io,
     path::Path,
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicBool, AtomicU32, Ordering},
         Arc,
     },
 };
@@ -156,6 +156,9 @@ struct Inner {
     // TreeID>) or by (<parent name>, <name>) or by <parent TreeID, hash(name)>?
     forest: Forest,
     idml: Arc<IDML>,
+    /// Index of the most recently written label, if it was written completely.
+    /// It and its space map must stay intact until the other label is complete.
+    newest_label: AtomicU32,
 }
 
 impl Inner {
@@ -194,11 +197,12 @@ impl Inner {
         itree.range_delete(.., *txg, credit).await
     }
 
-    fn new(idml: Arc<IDML>, forest: Forest) -> Self
+    fn new(idml: Arc<IDML>, forest: Forest, newest_label: u32) -> Self
     {
         let dirty = AtomicBool::new(true);
         let fs_trees = RwLock::new(BTreeMap::new());
-        Inner{dirty, fs_trees, idml, forest}
+        let newest_label = AtomicU32::new(newest_label);
+        Inner{dirty, fs_trees, idml, forest, newest_label}
     }
 
     fn new_filesystem(
@@ -384,7 +388,7 @@ impl Database {
     pub fn create(idml: Arc<IDML>) -> Self
     {
         let forest = Forest::create(idml.clone());
-        Database::new(idml, forest)
+        Database::new(idml, forest, 1)
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -651,10 +655,10 @@ impl Database {
             })
     }
 
-    fn new(idml: Arc<IDML>, forest: Forest) -> Self
+    fn new(idml: Arc<IDML>, forest: Forest, newest_label: u32) -> Self
     {
         let cleaner = Cleaner::new(idml.clone(), None);
-        let inner = Arc::new(Inner::new(idml, forest));
+        let inner = Arc::new(Inner::new(idml, forest, newest_label));
         let syncer = Syncer::new(inner.clone());
         Database{cleaner, inner, syncer}
     }
@@ -670,7 +674,7 @@ impl Database {
     {
         let l: Label = label_reader.deserialize().unwrap();
         let forest = Forest::open(idml.clone(), l.forest);
-        Database::new(idml, forest)
+        Database::new(idml, forest, label_reader.generation().1)
     }
 
     pub fn pool_name(&self) -> &str {
@@ -749,12 +753,25 @@ impl Database {
                 drop(guard);
                 forest_futs.try_collect::<Vec<_>>().await?;
                 inner2.forest.flush(txg).await?;
-                inner2.idml.clone().flush(Some(0), txg).await?;
+                // Usually we write the first label first.  But if that's the
+                // only one that's up to date because we previously lost power
+                // before writing the second, then write the second one first.
+                // Don't touch the newest label or its space map until the other
+                // is complete.
+                let first = 1 - inner2.newest_label.load(Ordering::Relaxed);
+                let second = 1 - first;
+                inner2.idml.clone().flush(Some(first), txg).await?;
                 inner2.idml.sync_all(txg).await?;
                 let forest = inner2.forest.serialize();
                 let label = Label {forest};
-                inner2.write_label(&label, 0, txg).await?;
-                inner2.idml.clone().flush(Some(1), txg).await?;
+                inner2.write_label(&label, first, txg).await?;
+                inner2.newest_label.store(first, Ordering::Relaxed);
+                if second == 0 {
+                    // Flushing the second space map implies a sync, but
+                    // flushing the first one doesn't.
+                    inner2.idml.sync_all(txg).await?;
+                }
+                inner2.idml.clone().flush(Some(second), txg).await?;
                 // The only time we need to read the second label is if we lose
                 // power while writing the first.  The fact that we reached this
                 // point means that that won't happen, at least not until the
@@ -762,7 +779,8 @@ impl Database {
                 // sync_all between inner2.idml.clone().flush(1, ...) and
                 // inner2.idml.sync_all(...).
                 inner2.idml.sync_all(txg).await?;
-                inner2.write_label(&label, 1, txg).await?;
+                inner2.write_label(&label, second, txg).await?;
+                inner2.newest_label.store(1, Ordering::Relaxed);
                 inner2.idml.sync_all(txg).await
             })
         }
-- 
2.43.0


From f4d77b40a59f82b805e52ce1bdb86ed8620b0c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 18/40] fix: reclaim zones whose data was all freed before they
 were closed

Cluster::free only kills a zone that's already closed.  If everything in it was
freed while it was still open then it was never killed, and its space wasn't
available until the next import.  Cleaning it failed an assertion in debug mode.
---
 bfffs-core/src/cluster.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfffs-core/src/cluster.rs b/bfffs-core/src/cluster.rs
index 0a0b116..48a8dd4 100644
--- a/bfffs-core/src/cluster.rs
+++ b/bfffs-core/src/cluster.rs
@@ -929,6 +929,11 @@ impl Cluster {
         nearly_full_zones.iter().map(|&zone_id| {
             let blocks = wg.finish_zone(zone_id, txg);
             self.allocated_space.fetch_add(blocks, Ordering::Relaxed);
+            // Kill the zone if all of its data was already freed
+            if wg.in_use(zone_id) == 0 {
+                let blocks = wg.kill_zone(zone_id);
+                self.allocated_space.fetch_sub(blocks, Ordering::Relaxed);
+            }
             self.vdev.finish_zone(zone_id)
         }).collect::<FuturesUnordered<BoxVdevFut>>()
     }
-- 
2.43.0


From ef2b848a1da004c03889bd4425bb51c0ccbff17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:05 +0000
Subject: [PATCH 19/40] fix: sync_transaction must not return before earlier
 transactions are stable

---
 bfffs-core/src/database/database.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 0543aca..5fb1c38 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -141,6 +141,11 @@ struct Label {
 struct Inner {
     /// Has any part of the database been modified since the last transaction
     /// sync?
+    ///
+    /// Transactions must set it while holding the txg lock, and it must only be
+    /// cleared while holding that lock exclusively, after everything has been
+    /// written.  Otherwise a sync could return before all preceding
+    /// transactions are stable.
     // NB: This is likely to be highly contended and very slow.  Better to
     // replace it with a per-cpu counter.
     dirty: AtomicBool,
@@ -173,12 +178,12 @@ impl Inner {
         // from disk.  Ensure that it does not remain in the cache, too.  Do
         // this all in a single transaction.
         let tname = name.split('/').next_back().unwrap();
-        inner.dirty.store(true, Ordering::Relaxed);
 
         // First check that the tree exists ane ensure it is cached.
         Inner::open_filesystem(&inner, tree_id).await?;
 
         let txg = inner.idml.txg().await;
+        inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
@@ -255,7 +260,6 @@ impl Inner {
         where F: FnOnce(ReadWriteFilesystem) -> B,
               B: Future<Output=Result<R>>,
     {
-        inner.dirty.store(true, Ordering::Relaxed);
         Inner::open_filesystem(&inner, tree_id)
         .and_then(move |itree| async move {
             let cr = itree.credit_requirements();
@@ -267,6 +271,7 @@ impl Inner {
             ).await;
             let idml2 = inner.idml.clone();
             let txg = inner.idml.txg().await;
+            inner.dirty.store(true, Ordering::Relaxed);
             let ds = ReadWriteFilesystem::new(idml2, itree, *txg, credit);
             let r = f(ds).await;
             drop(txg);
@@ -496,7 +501,6 @@ impl Database {
         -> Result<TreeID>
         where S: Into<String> + Debug + 'static
     {
-        self.inner.dirty.store(true, Ordering::Relaxed);
         let idml2 = self.inner.idml.clone();
         let idml3 = self.inner.idml.clone();
         let inner3 = self.inner.clone();
@@ -508,6 +512,7 @@ impl Database {
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
         let txg_guard = idml3.txg().await;
+        inner3.dirty.store(true, Ordering::Relaxed);
         fs.clone().flush(*txg_guard).await?;
 
         // Write the new Tree to the Forest, the source-of-truth for trees
@@ -733,7 +738,7 @@ impl Database {
         // 5) Write the second label
         // 6) Sync the pool again, in case we're about to physically pull the
         //    disk or power off.
-        if !inner.dirty.swap(false, Ordering::Relaxed) {
+        if !inner.dirty.load(Ordering::Relaxed) {
             future::ok(())
         } else {
             let inner2 = inner.clone();
@@ -781,7 +786,9 @@ impl Database {
                 inner2.idml.sync_all(txg).await?;
                 inner2.write_label(&label, second, txg).await?;
                 inner2.newest_label.store(1, Ordering::Relaxed);
-                inner2.idml.sync_all(txg).await
+                inner2.idml.sync_all(txg).await?;
+                inner2.dirty.store(false, Ordering::Relaxed);
+                Ok(())
             })
         }
     }
-- 
2.43.0


From e5c7334f684938eb7214c40efeea9893891674d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:40 +0000
Subject: [PATCH 20/40] fix: hold the transaction lock while cleaning a zone

---
 bfffs-core/src/cleaner.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/cleaner.rs b/bfffs-core/src/cleaner.rs
index 9526ce9..1ebf818 100644
--- a/bfffs-core/src/cleaner.rs
+++ b/bfffs-core/src/cleaner.rs
@@ -47,9 +47,10 @@ impl SyncCleaner {
             .try_for_each(move |zone| {
                 let idml3 = idml2.clone();
                 idml2.txg()
-                .then(move |txg_guard| 
-                    idml3.clean_zone(zone, *txg_guard)
-                )
+                .then(move |txg_guard| async move {
+                    // Hold the guard until the zone is clean.
+                    idml3.clean_zone(zone, *txg_guard).await
+                })
             })
         })
     }
-- 
2.43.0


From 389aace3a68e05e77e92e5a33425dd478fd22a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:33 +0000
Subject: [PATCH 21/40] fix: don't move records that are being deleted

---
 bfffs-core/src/idml/idml.rs | 75 +++++++++++++++++++++++++++++++------
 1 file changed, 63 insertions(+), 12 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index ed07638..cf6cfc3 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -13,7 +13,7 @@ use divbuf::DivBufShared;
 use futures::{
     Future, FutureExt, Stream, StreamExt, TryFutureExt, TryStreamExt, future
 };
-use futures_locks::{RwLock, RwLockReadFut};
+use futures_locks::{RwLock, RwLockReadFut, RwLockWriteFut};
 #[cfg(test)] use mockall::mock;
 use speedy::{Readable, Writable};
 use std::{
@@ -29,12 +29,39 @@ use tracing::instrument;
 use tracing_futures::Instrument;
 use super::{DTree, RidtEntry};
 
+/// Prevents the cleaner from moving an indirect record while somebody else
+/// deletes it.
+///
+/// Unlike the transaction lock, it's only held for one record at a time.
+#[derive(Clone)]
+struct MoveLocks(Arc<[RwLock<()>]>);
+
+impl MoveLocks {
+    const COUNT: u64 = 64;
+
+    fn new() -> Self {
+        MoveLocks((0..Self::COUNT).map(|_| RwLock::new(())).collect())
+    }
+
+    /// Lock a record for deletion
+    fn read(&self, rid: RID) -> RwLockReadFut<()> {
+        self.0[(rid.0 % Self::COUNT) as usize].read()
+    }
+
+    /// Lock a record for moving
+    fn write(&self, rid: RID) -> RwLockWriteFut<()> {
+        self.0[(rid.0 % Self::COUNT) as usize].write()
+    }
+}
+
 /// Indirect Data Management Layer for a single `Pool`
 pub struct IDML {
     cache: Arc<Mutex<Cache>>,
 
     ddml: Arc<DDML>,
 
+    move_locks: MoveLocks,
+
     /// Holds the next RID to allocate.  They are never reused.
     next_rid: AtomicU64,
 
@@ -203,6 +230,7 @@ impl<'a> IDML {
         let ridt2 = self.ridt.clone();
         let ridt3 = self.ridt.clone();
         let ddml2 = self.ddml.clone();
+        let move_locks2 = self.move_locks.clone();
         #[cfg(debug_assertions)]
         let ddml3 = self.ddml.clone();
         #[cfg(debug_assertions)]
@@ -213,14 +241,25 @@ impl<'a> IDML {
         // 1, so as not to interfere too much with foreground tasks
         self.list_indirect_records(&zone)
         .try_for_each(move |record| {
-            IDML::move_record(&cache2, ridt2.clone(), alloct2.clone(), &ddml2,
-                record, txg)
-            .map_ok(move |drp| {
+            let cache4 = cache2.clone();
+            let ridt4 = ridt2.clone();
+            let alloct4 = alloct2.clone();
+            let ddml4 = ddml2.clone();
+            let lock_fut = move_locks2.write(record);
+            async move {
+                let _guard = lock_fut.await;
+                if ridt4.get(record).await?.is_none() {
+                    // The record was deleted since we listed the zone
+                    return Ok(());
+                }
+                let drp = IDML::move_record(&cache4, ridt4, alloct4, &ddml4,
+                                            record, txg).await?;
                 // We shouldn't have moved the record into the same zone
                 debug_assert!(drp.pba().cluster != pba.cluster ||
                               drp.pba().lba < pba.lba ||
                               drp.pba().lba >= pba.lba + total_blocks);
-            })
+                Ok(())
+            }
         }).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
@@ -256,7 +295,9 @@ impl<'a> IDML {
         let transaction = RwLock::new(TxgT::from(0));
         // TODO: apply configurable writeback size
         let writeback = WriteBack::limitless();
-        IDML{cache, ddml, next_rid, transaction, alloct, ridt, writeback}
+        let move_locks = MoveLocks::new();
+        IDML{cache, ddml, move_locks, next_rid, transaction, alloct, ridt,
+             writeback}
     }
 
     /// Drop all data from the cache, for testing or benchmarking purposes
@@ -354,6 +395,7 @@ impl<'a> IDML {
         let idml = IDML{
             cache,
             ddml,
+            move_locks: MoveLocks::new(),
             next_rid,
             transaction,
             alloct,
@@ -524,9 +566,13 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
+        let ridt3 = self.ridt.clone();
         let rid = *ridp;
-        let fut = self.ridt.get(rid)
-            .and_then(move |oentry| {
+        let fut = self.move_locks.read(rid)
+            .then(move |guard| {
+                ridt3.get(rid)
+                .map_ok(move |oentry| (guard, oentry))
+            }).and_then(move |(guard, oentry)| {
                 let mut entry = match oentry {
                     Some(e) => e,
                     None => panic!("Double delete detected for {rid:?}.")
@@ -540,13 +586,17 @@ impl DML for IDML {
                     let ridt_fut = ridt2.remove(rid, txg, Credit::null());
                     Box::pin(
                         future::try_join3(ddml_fut, alloct_fut, ridt_fut)
-                         .map_ok(|(_, old_rid, _old_ridt_entry)| {
+                         .map_ok(move |(_, old_rid, _old_ridt_entry)| {
+                             drop(guard);
                              assert!(old_rid.is_some());
                          })
                      )
                 } else {
                     let ridt_fut = ridt2.insert(rid, entry, txg, Credit::null())
-                        .map_ok(|old| assert!(old.is_some()));
+                        .map_ok(move |old| {
+                            drop(guard);
+                            assert!(old.is_some());
+                        });
                     ridt_fut.boxed()
                 }
             });
@@ -587,9 +637,10 @@ impl DML for IDML {
         let ddml2 = self.ddml.clone();
         let alloct2 = self.alloct.clone();
         let ridt2 = self.ridt.clone();
-        let efut = self.ridt.get(rid);
+        let lock_fut = self.move_locks.read(rid);
         async move {
-            let mut entry = efut.await?
+            let _guard = lock_fut.await;
+            let mut entry = ridt2.get(rid).await?
                 .ok_or(Error::ENOENT)?;
             entry.refcount -= 1;
             if entry.refcount == 0 {
-- 
2.43.0


From 2a9ed93f372b023fec02a2b0b4410e94bc53600b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 22/40] fix: assert the length of the buffer being written, not
 of its backing store

Borrow<[u8]> for DivBuf returns the whole backing store.  So in debug builds,
writing the first stripe of a serialized or compressed record that is not a
multiple of the LBA size would panic.
---
 bfffs-core/src/vdev_file.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/vdev_file.rs b/bfffs-core/src/vdev_file.rs
index f2ed8f7..50fe8e3 100644
--- a/bfffs-core/src/vdev_file.rs
+++ b/bfffs-core/src/vdev_file.rs
@@ -19,7 +19,6 @@ use futures::{
 use nix::libc::{c_int, off_t};
 use pin_project::pin_project;
 use std::{
-    borrow::Borrow,
     fs,
     io::{self, IoSlice, IoSliceMut},
     mem::{self, MaybeUninit},
@@ -475,10 +474,9 @@ impl<'fd> VdevFile<'fd> {
     fn write_at_unchecked(&'fd self, buf: IoVec, lba: LbaT) -> VdevFileFut<'fd>
     {
         let off = lba * (BYTES_PER_LBA as u64);
-        {
-            let b: &[u8] = buf.borrow();
-            debug_assert!(b.len().is_multiple_of(BYTES_PER_LBA));
-        }
+        // NB: Borrow<[u8]> would return the entire backing store, which need not
+        // be a multiple of the LBA size if buf is just a slice of it.
+        debug_assert!(buf.len().is_multiple_of(BYTES_PER_LBA));
 
         // Safe because fut's lifetime is equal to buf's (or rather, it will
         // be once we move it into the WriteAt struct
-- 
2.43.0


From e0f71503aa1d905507d87bbd3ab4af85e4d8e6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 23/40] fix: don't read stripes from disk that are still being
 written

A write to VdevRaid may complete as soon as its data is in the stripe buffer.
But once the stripe buffer fills up or gets flushed, and until the stripe was
written, reads would go to disk and return garbage.
---
 bfffs-core/src/raid/vdev_raid.rs | 63 ++++++++++++++++++++++++++------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/bfffs-core/src/raid/vdev_raid.rs b/bfffs-core/src/raid/vdev_raid.rs
index 46b9b39..df484ce 100644
--- a/bfffs-core/src/raid/vdev_raid.rs
+++ b/bfffs-core/src/raid/vdev_raid.rs
@@ -32,7 +32,7 @@ use std::{
     path::Path,
     pin::Pin,
     ptr,
-    sync::{Arc, RwLock}
+    sync::{Arc, Mutex, RwLock}
 };
 use super::{
     LocatorImpl,
@@ -524,6 +524,11 @@ pub struct VdevRaid {
     /// stripes uses fewer resources than only cacheing the parity information.
     stripe_buffers: RwLock<BTreeMap<ZoneT, StripeBuffer>>,
 
+    /// Stripes that have been removed from `stripe_buffers`, but aren't yet on
+    /// disk.  Some of their data may belong to `write_at` calls that have
+    /// already completed, so `read_at` must be able to find it.
+    inflight_stripes: InflightStripes,
+
     uuid: Uuid,
 
     inner: Arc<Inner>,
@@ -698,6 +703,7 @@ impl VdevRaid {
             optimum_queue_depth,
             size,
             stripe_buffers: RwLock::new(BTreeMap::new()),
+            inflight_stripes: InflightStripes::default(),
             uuid,
             inner
         }
@@ -1921,6 +1927,16 @@ impl VdevRaid {
             })
         )
     }
+
+    /// Write a full stripe that was removed from a `StripeBuffer`.
+    ///
+    /// The caller must not drop the `stripe_buffers` lock in between.
+    fn write_stripe(&self, sglist: SGList, lba: LbaT) -> BoxVdevFut {
+        let fut = self.writev_at_one(&sglist, lba);
+        self.inflight_stripes.lock().unwrap().insert(lba, sglist);
+        let guard = InflightGuard{stripes: self.inflight_stripes.clone(), lba};
+        Box::pin(fut.inspect(move |_| drop(guard)))
+    }
 }
 
 /// Helper function that returns both the minimum and the maximum element of the
@@ -1936,6 +1952,21 @@ fn min_max<I>(iterable: I) -> Option<(I::Item, I::Item)>
     })
 }
 
+/// Stripes that are currently being written, indexed by their first LBA
+type InflightStripes = Arc<Mutex<BTreeMap<LbaT, SGList>>>;
+
+/// Forgets an inflight stripe when it's dropped
+struct InflightGuard {
+    stripes: InflightStripes,
+    lba: LbaT
+}
+
+impl Drop for InflightGuard {
+    fn drop(&mut self) {
+        self.stripes.lock().unwrap().remove(&self.lba);
+    }
+}
+
 impl Vdev for VdevRaid {
     fn lba2zone(&self, lba: LbaT) -> Option<ZoneT> {
         let loc = self.inner.locator.id2loc(ChunkId::Data(lba / self.chunksize));
@@ -2115,7 +2146,7 @@ impl VdevRaidApi for VdevRaid {
             sb.pad();
             let lba = sb.lba();
             let sgl = sb.pop();
-            futs.push(self.writev_at_one(&sgl, lba))
+            futs.push(self.write_stripe(sgl, lba))
         }
         futs.extend(
             self.inner.children.iter()
@@ -2150,8 +2181,7 @@ impl VdevRaidApi for VdevRaid {
                     let pad_lbas = sb.pad();
                     let lba = sb.lba();
                     let sgl = sb.pop();
-                    drop(sb_ref);
-                    (pad_lbas, Box::pin(self.writev_at_one(&sgl, lba)))
+                    (pad_lbas, self.write_stripe(sgl, lba))
                 }
             }
         }
@@ -2180,18 +2210,27 @@ impl VdevRaidApi for VdevRaid {
                     !stripe_buffer.is_empty() &&
                     lba < stripe_buffer.next_lba() &&
                     end_lba >= stripe_buffer.lba()
+                }).map(|sb| (sb.lba(), sb.peek().clone()))
+                // Stripes that are still being written must not be read from
+                // disk, either.
+                .or_else(|| {
+                    self.inflight_stripes.lock().unwrap()
+                        .range(..=end_lba)
+                        .next_back()
+                        .filter(|(slba, _)| lba < **slba + self.chunksize * m)
+                        .map(|(slba, sglist)| (*slba, sglist.clone()))
                 });
 
             match stripe_buffer {
-                Some(sb) if !sb.is_empty() && end_lba >= sb.lba() => {
+                Some((sb_lba, sglist)) => {
                     // We need to service part of the read from the StripeBuffer
-                    let mut cursor = SGCursor::from(sb.peek());
-                    let direct_len = if sb.lba() > lba {
-                        (sb.lba() - lba) as usize * BYTES_PER_LBA
+                    let mut cursor = SGCursor::from(&sglist);
+                    let direct_len = if sb_lba > lba {
+                        (sb_lba - lba) as usize * BYTES_PER_LBA
                     } else {
                         // Seek to the LBA of interest
                         let mut skipped = 0;
-                        let to_skip = (lba - sb.lba()) as usize * BYTES_PER_LBA;
+                        let to_skip = (lba - sb_lba) as usize * BYTES_PER_LBA;
                         while skipped < to_skip {
                             let iovec = cursor.next(to_skip - skipped);
                             skipped += iovec.unwrap().len();
@@ -2212,7 +2251,7 @@ impl VdevRaidApi for VdevRaid {
                         justreturn = true;
                     } else {
                         // Service the first part of the read from the disks
-                        end_lba = sb.lba() - 1;
+                        end_lba = sb_lba - 1;
                     }
                     buf
                 },
@@ -2429,7 +2468,7 @@ impl VdevRaidApi for VdevRaid {
                     let stripe_lba = stripe_buffer.lba();
                     let sglist = stripe_buffer.pop();
                     lba += ((buflen - buf2.len()) / BYTES_PER_LBA) as LbaT;
-                    futs.push(self.writev_at_one(&sglist, stripe_lba));
+                    futs.push(self.write_stripe(sglist, stripe_lba));
                 }
                 buf2
             } else {
@@ -2447,7 +2486,7 @@ impl VdevRaidApi for VdevRaid {
                         // completing a stripe
                         let slba = stripe_buffer.lba();
                         let sglist = stripe_buffer.pop();
-                        futs.push(self.writev_at_one(&sglist, slba));
+                        futs.push(self.write_stripe(sglist, slba));
                     }
                     debug_assert!(!stripe_buffer.is_full());
                     debug_assert!(buf4.is_empty());
-- 
2.43.0


From 1d63ad9d7fb345757001464275be2d58145f5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:13 +0000
Subject: [PATCH 24/40] fix: when cleaning a zone, wait for concurrent puts and
 pops

A zone may be closed, and then cleaned, before the allocation table learns about
every record in it.  Those records would be left behind, but their allocation
table entries might get removed.
---
 bfffs-core/src/idml/idml.rs | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index cf6cfc3..2ef4afd 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -43,7 +43,14 @@ impl MoveLocks {
         MoveLocks((0..Self::COUNT).map(|_| RwLock::new(())).collect())
     }
 
-    /// Lock a record for deletion
+    /// Wait for every operation that was already underway.
+    async fn quiesce(self) {
+        for lock in self.0.iter() {
+            drop(lock.write().await);
+        }
+    }
+
+    /// Lock a record for anything but moving it
     fn read(&self, rid: RID) -> RwLockReadFut<()> {
         self.0[(rid.0 % Self::COUNT) as usize].read()
     }
@@ -237,10 +244,15 @@ impl<'a> IDML {
         let zid = zone.zid;
         let pba = zone.pba;
         let total_blocks = zone.total_blocks;
+        let records = self.list_indirect_records(&zone);
+        #[cfg(debug_assertions)]
+        let move_locks3 = self.move_locks.clone();
+        // The zone is closed, so no new records can be written to it.  But wait
+        // until all of those that already were are in the Allocation Table.
+        self.move_locks.clone().quiesce()
         // Cleaning normally happens in the background, so limit concurrency to
         // 1, so as not to interfere too much with foreground tasks
-        self.list_indirect_records(&zone)
-        .try_for_each(move |record| {
+        .then(move |_| records.try_for_each(move |record| {
             let cache4 = cache2.clone();
             let ridt4 = ridt2.clone();
             let alloct4 = alloct2.clone();
@@ -260,7 +272,7 @@ impl<'a> IDML {
                               drp.pba().lba >= pba.lba + total_blocks);
                 Ok(())
             }
-        }).and_then(move |_| {
+        })).and_then(move |_| {
             let txgs2 = zone.txgs.clone();
             let pba_range = pba..end;
             let czfut = ridt3.clean_zone(pba_range.clone(), txgs2, txg);
@@ -276,8 +288,11 @@ impl<'a> IDML {
         }).and_then(move |_| {
             #[cfg(debug_assertions)]
             {
-                ddml3.assert_clean_zone(pba.cluster, zid, txg)
-                    .map(Ok)
+                // Records that were concurrently popped may not be freed yet
+                move_locks3.quiesce()
+                    .then(move |_| {
+                        ddml3.assert_clean_zone(pba.cluster, zid, txg)
+                    }).map(Ok)
             }
             #[cfg(not(debug_assertions))]
             future::ok(())
@@ -695,14 +710,17 @@ impl DML for IDML {
         let ridt2 = self.ridt.clone();
         let rid = RID(self.next_rid.fetch_add(1, Ordering::Relaxed));
 
-        let fut = self.ddml.put_direct(&cacheable.make_ref(), compression, txg)
-        .and_then(move|drp| {
+        let fut = self.ddml.put_direct(&cacheable.make_ref(), compression, txg);
+        let fut = self.move_locks.read(rid)
+        .then(move |guard| fut.map_ok(move |drp| (guard, drp)))
+        .and_then(move |(guard, drp)| {
             let alloct_fut = alloct2.insert(drp.pba(), rid, txg,
                                             Credit::null());
             let rid_entry = RidtEntry::new(drp);
             let ridt_fut = ridt2.insert(rid, rid_entry, txg, Credit::null());
             future::try_join(ridt_fut, alloct_fut)
             .map_ok(move |(old_rid_entry, old_alloc_entry)| {
+                drop(guard);
                 assert!(old_rid_entry.is_none(), "RID was not unique");
                 assert!(old_alloc_entry.is_none(), concat!(
                     "Double allocate without free.  ",
-- 
2.43.0


From 088d89b3051ba8afc94629bffaa0a726bf75270b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:38 +0000
Subject: [PATCH 25/40] fix: don't move records that are being read

After a record is moved its old zone may get erased and reused, even though
IDML::get may not yet have finished reading from it.
---
 bfffs-core/src/idml/idml.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index 2ef4afd..e027eea 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -631,13 +631,20 @@ impl DML for IDML {
         cache::get_or_insert!(T, R, &self.cache, Key::Rid(rid),
             {
                 let ddml2 = self.ddml.clone();
-                self.ridt.get(rid)
-                    .map(|r| match r {
-                        Ok(None) => Err(Error::ENOENT),
-                        Ok(Some(entry)) => Ok(entry),
+                let ridt2 = self.ridt.clone();
+                // Lock the record until we've read it, lest the cleaner move it
+                // and its zone be erased in the meantime.
+                self.move_locks.read(rid)
+                    .then(move |guard| {
+                        ridt2.get(rid)
+                            .map_ok(move |oentry| (guard, oentry))
+                    }).map(|r| match r {
+                        Ok((_, None)) => Err(Error::ENOENT),
+                        Ok((guard, Some(entry))) => Ok((guard, entry)),
                         Err(e) => Err(e)
-                    }).and_then(move |entry| {
+                    }).and_then(move |(guard, entry)| {
                         ddml2.get_direct::<T>(&entry.drp)
+                            .inspect(move |_| drop(guard))
                     }).in_current_span()
             }
         )
-- 
2.43.0


From 0daa7228988fe41a89a39775e318fba61186f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 26/40] fix: don't try to borrow more credit than the
 writeback's capacity

Large writes to a file system with small records would want so much credit that
they would sleep forever.
---
 bfffs-core/src/idml/idml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/idml/idml.rs b/bfffs-core/src/idml/idml.rs
index e027eea..b06fc74 100644
--- a/bfffs-core/src/idml/idml.rs
+++ b/bfffs-core/src/idml/idml.rs
@@ -101,7 +101,9 @@ impl<'a> IDML {
     pub fn borrow_credit(&self, size: usize)
         -> impl Future<Output=Credit> + Send
     {
-        self.writeback.borrow(size)
+        // The writeback can't ever supply more than its capacity.  An operation
+        // that wants more than that must make do with all of it.
+        self.writeback.borrow(size.min(self.writeback.capacity()))
     }
 
     /// Get the maximum size of bytes in the cache
-- 
2.43.0


From ec1f2f5a0759212c7cf5ff92bafdf9dd735bbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 27/40] fix: don't open a file system's tree twice

If two tasks opened the same file system for the first time at the same time,
one of them would use a tree that nobody else could see and that would never be
flushed.
---
 bfffs-core/src/database/database.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 5fb1c38..27ec32f 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -219,13 +219,11 @@ impl Inner {
         let idml2 = inner.idml.clone();
         let tree = ITree::<FSKey, FSValue>::open(idml2, false, tod);
         let atree = Arc::new(tree);
-        let atree2 = atree.clone();
         inner.fs_trees.with_write(move |mut wguard| {
-            wguard.entry(tree_id).or_insert(atree2);
-            future::ready(())
-        }).map(|_| {
-            Ok(atree)
-        })
+            // If somebody else opened the same file system at the same time,
+            // then we must use his tree.  There can be only one.
+            future::ready(wguard.entry(tree_id).or_insert(atree).clone())
+        }).map(Ok)
     }
 
     // Must be called from within a Tokio executor context
-- 
2.43.0


From 84efb11a9ed6cecc5fd63d8a0f8291a8c4960a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:51 +0000
Subject: [PATCH 28/40] fix: don't wait for credit while holding the
 transaction lock

create_fs and destroy_fs would do that.  But the syncer would wait for the
transaction lock, and so nobody would flush anything and repay any credit.
---
 bfffs-core/src/database/database.rs | 49 +++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 13 deletions(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index 27ec32f..e60c1c9 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -180,20 +180,27 @@ impl Inner {
         let tname = name.split('/').next_back().unwrap();
 
         // First check that the tree exists ane ensure it is cached.
-        Inner::open_filesystem(&inner, tree_id).await?;
+        let itree = Inner::open_filesystem(&inner, tree_id).await?;
+
+        // Borrow credit before locking the transaction and removing the tree
+        // from fs_trees.  Afterwards, its dirty nodes can't be flushed.
+        let cr = itree.credit_requirements();
+        let credit = inner.idml.borrow_credit(cr.range_delete).await;
 
         let txg = inner.idml.txg().await;
         inner.dirty.store(true, Ordering::Relaxed);
         // Delete it from the forest while locking fs_trees
         let itree = {
             let mut wg = inner.fs_trees.write().await;
-            inner.forest.unlink(parent, tree_id, tname, *txg).await?;
+            let r = inner.forest.unlink(parent, tree_id, tname, *txg).await;
+            if let Err(e) = r {
+                inner.idml.repay(credit);
+                return Err(e);
+            }
             wg.remove(&tree_id).unwrap()
         };
 
         // Finally delete its contents
-        let cr = itree.credit_requirements();
-        let credit = inner.idml.borrow_credit(cr.range_delete).await;
         // XXX range_delete is effective, but it prevents any transactions from
         // syncing, and it holds all of the affected metadata in RAM at the same
         // time.  TODO: for better efficiency, create a restartable
@@ -509,18 +516,34 @@ impl Database {
         let fs = Arc::new(
             ITree::<FSKey, FSValue>::create(idml2, false, 9.00, 1.61)
         );
+        // Borrow credit before locking the transaction.  Otherwise, a sync could
+        // wait for us while we wait for somebody to flush.
+        let credit = idml3.borrow_credit(3 * fs.credit_requirements().insert)
+            .await;
         let txg_guard = idml3.txg().await;
         inner3.dirty.store(true, Ordering::Relaxed);
-        fs.clone().flush(*txg_guard).await?;
-
-        // Write the new Tree to the Forest, the source-of-truth for trees
-        let tod = fs.serialize().unwrap();
-        let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
-            *txg_guard).await?;
+        let r = async {
+            fs.clone().flush(*txg_guard).await?;
+
+            // Write the new Tree to the Forest, the source-of-truth for trees
+            let tod = fs.serialize().unwrap();
+            let tree_id = inner3.forest.insert_tree(parent, name.into(), tod,
+                *txg_guard).await?;
+            let itree = Inner::open_filesystem(&inner3, tree_id).await?;
+            Ok((tree_id, itree))
+        }.await;
+        let (tree_id, itree) = match r {
+            Ok(x) => x,
+            Err(e) => {
+                idml3.repay(credit);
+                return Err(e);
+            }
+        };
 
         // Create the filesystem's root directory
-        Inner::fswrite(inner3, tree_id, 3, 0, 0, 0, move |dataset|
         {
+            let dataset = ReadWriteFilesystem::new(idml3.clone(), itree,
+                *txg_guard, credit);
             let ino = 1;    // FUSE requires root dir to have inode 1
             let inode_key = FSKey::new(ino, ObjKey::Inode);
             let now = Timespec::now();
@@ -574,8 +597,8 @@ impl Database {
                 dataset.insert(dotdot_key, dotdot_value).map_ok(drop)
                 .boxed()
             );
-            futs.try_collect::<Vec<_>>()
-        }).await?;
+            futs.try_collect::<Vec<_>>().await?;
+        }
         Ok(tree_id)
     }
 
-- 
2.43.0


From 447927f3653d1198030010067df9f7a25001d07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:03 +0000
Subject: [PATCH 29/40] fix: don't evict records that are in use from the cache

As CacheRef's documentation says.  A tree's nodes are locked in memory, so if
one that's being read gets evicted then somebody else may read another copy of
it, and modify that one in the meantime.
---
 bfffs-core/src/cache/lru.rs | 35 +++++++++++++++++++++--------------
 bfffs-core/src/cache/mod.rs | 16 ++++++++++++++--
 bfffs-core/src/tree/node.rs |  4 ++++
 3 files changed, 39 insertions(+), 16 deletions(-)

diff --git a/bfffs-core/src/cache/lru.rs b/bfffs-core/src/cache/lru.rs
index 132dbf6..4ef5895 100644
--- a/bfffs-core/src/cache/lru.rs
+++ b/bfffs-core/src/cache/lru.rs
@@ -44,19 +44,28 @@ impl LruCache {
     }
 
     pub fn drop_cache(&mut self) {
-        self.store = HashMap::with_hasher(MetroBuildHasher::default());
-        self.lru = None;
-        self.mru = None;
-        self.size = 0;
+        let mut next = self.lru;
+        while let Some(key) = next {
+            next = self.store[&key].mru;
+            if !self.store[&key].buf.in_use() {
+                self.remove(&key);
+            }
+        }
     }
 
-    fn expire(&mut self) {
-        let key = self.lru;
-        assert!(key.is_some(),
-            "Can't find an entry to expire. \
-            capacity={:?} size={:?} entries={:?}",
-            self.capacity, self.size, self.store.len());
-        self.remove(&key.unwrap());
+    /// Evict the least recently used entry that isn't in use.  Returns false if
+    /// there isn't any.
+    fn expire(&mut self) -> bool {
+        let mut next = self.lru;
+        while let Some(key) = next {
+            let entry = &self.store[&key];
+            if !entry.buf.in_use() {
+                self.remove(&key);
+                return true;
+            }
+            next = entry.mru;
+        }
+        false
     }
 
     pub fn get<T: CacheRef>(&mut self, key: &Key) -> Option<Box<T>> {
@@ -97,9 +106,7 @@ impl LruCache {
     pub fn insert(&mut self, key: Key, buf: Box<dyn Cacheable>) {
         let cache_space = buf.cache_space();
         assert!(cache_space <= self.capacity);
-        while self.size + cache_space > self.capacity {
-            self.expire();
-        }
+        while self.size + cache_space > self.capacity && self.expire() {}
         let entry = LruEntry { buf, mru: None, lru: self.mru};
         if let Some(old_entry) = self.store.insert(key, entry) {
             // Inserting two different values with the same key is a bug, but
diff --git a/bfffs-core/src/cache/mod.rs b/bfffs-core/src/cache/mod.rs
index e900f5f..68a6354 100644
--- a/bfffs-core/src/cache/mod.rs
+++ b/bfffs-core/src/cache/mod.rs
@@ -35,6 +35,11 @@ pub trait Cacheable: Any + Debug + Send + Sync {
     /// How much space does this object use in the Cache?
     fn cache_space(&self) -> usize;
 
+    /// Is there any live handle to this object?
+    fn in_use(&self) -> bool {
+        false
+    }
+
     /// Return a read-only handle to this object.
     ///
     /// As long as this handle is alive, the object will not be evicted from
@@ -86,6 +91,10 @@ impl Cacheable for DivBufShared {
         self.len()
     }
 
+    fn in_use(&self) -> bool {
+        self.try_mut().is_err()
+    }
+
     fn make_ref(&self) -> Box<dyn CacheRef> {
         Box::new(self.try_const().unwrap())
     }
@@ -134,7 +143,8 @@ impl Cache {
         self.cache.capacity()
     }
 
-    /// Drop all data from the cache, for testing or benchmarking purposes
+    /// Drop all data that isn't in use from the cache, for testing or
+    /// benchmarking purposes
     // NB: this should be called "drop", but that conflicts with
     // "std::Drop::drop"
     pub fn drop_cache(&mut self) {
@@ -159,7 +169,9 @@ impl Cache {
 
     /// Add a new block to the cache.
     ///
-    /// The block will be marked as the most recently used.
+    /// The block will be marked as the most recently used.  If need be, other
+    /// blocks will be evicted to make room for it, but none that are in use.  So
+    /// the cache may temporarily exceed its capacity.
     #[tracing::instrument(skip(self, buf))]
     pub fn insert(&mut self, key: Key, buf: Box<dyn Cacheable>) {
         self.cache.insert(key, buf)
diff --git a/bfffs-core/src/tree/node.rs b/bfffs-core/src/tree/node.rs
index 6a647c1..0f0b558 100644
--- a/bfffs-core/src/tree/node.rs
+++ b/bfffs-core/src/tree/node.rs
@@ -1476,6 +1476,10 @@ impl<A, K, V> Cacheable for Arc<Node<A, K, V>>
         }
     }
 
+    fn in_use(&self) -> bool {
+        Arc::strong_count(self) > 1
+    }
+
     fn make_ref(&self) -> Box<dyn CacheRef> {
         Box::new(self.clone())
     }
-- 
2.43.0


From 84397a353c8b01c99441c2c035ae0f7f1cea782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 30/40] fix: range_delete must wait for whoever still holds a
 leaf

A concurrent remove may still be deleting a blob from the leaf, even though
range_delete has already locked its parent.
---
 bfffs-core/src/tree/tree/mod.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 9c47a46..b817ed4 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2056,17 +2056,22 @@ impl<A, D, K, V> Tree<A, D, K, V>
                         }
                     },
                     TreePtr::Mem(node) => {
-                        let child_guard = node.0.try_unwrap().unwrap();
-                        let mut leaf = child_guard.into_leaf();
-                        if V::NEEDS_FLUSH {
-                            // Must recurse into the leaves.
-                            leaf.range_delete(dml.as_ref(), txg, ..).boxed()
-                        } else {
-                            // Simply repay credit and drop in-memory leaves
-                            future::ok(Credit::null()).boxed()
-                        }.map_ok(move |mut credit| {
-                            credit.extend(leaf.forget());
-                            dml2.repay(credit);
+                        // Somebody may still be busy with the leaf, if he
+                        // locked it before we locked its parent.
+                        node.xlock().then(move |mut child_guard| {
+                            if V::NEEDS_FLUSH {
+                                // Must recurse into the leaves.
+                                child_guard.as_leaf_mut()
+                                    .range_delete(dml2.as_ref(), txg, ..)
+                                    .boxed()
+                            } else {
+                                // Simply repay credit and drop in-memory leaves
+                                future::ok(Credit::null()).boxed()
+                            }.map_ok(move |mut credit| {
+                                credit.extend(child_guard.as_leaf_mut()
+                                              .take_credit());
+                                dml2.repay(credit);
+                            })
                         }).boxed()
                     },
                     TreePtr::None => unreachable!()// LCOV_EXCL_LINE unreachable
-- 
2.43.0


From 73585a496a1c6fa8b3035f39880b6d6aa9b6cb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:29 +0000
Subject: [PATCH 31/40] fix: clean_zone must tolerate a concurrently shrinking
 tree

---
 bfffs-core/src/tree/tree/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index b817ed4..080a69c 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2398,7 +2398,11 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
     {
         let tree_guard = self.read().await;
         let h = tree_guard.height;
-        if h == params.echelon + 1 {
+        if h <= params.echelon {
+            // The tree has shrunk in the meantime.  That's one level we don't
+            // have to clean any more.
+            Ok((VecDeque::new(), None))
+        } else if h == params.echelon + 1 {
             // Clean the tree root
             let dirty = if tree_guard.elem.ptr.is_addr() &&
                 tree_guard.elem.ptr.as_addr().pba() >= params.pbas.start &&
@@ -2481,7 +2485,10 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
         .then(move |mut guard| {
             let h = guard.height;
             let dml2 = self.dml.clone();
-            if h == node.height + 1 {
+            if h <= node.height {
+                // The tree has shrunk in the meantime, and the node is gone.
+                future::ok(()).boxed()
+            } else if h == node.height + 1 {
                 // Clean the root node
                 if guard.elem.ptr.is_mem() {
                     // Another thread has already dirtied the root.  Nothing to
-- 
2.43.0


From 3d470ae3e0102524a141b05e70be34df2603b0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:24 +0000
Subject: [PATCH 32/40] fix: clean_zone must tolerate nodes merged with their
 left siblings

The assertion expected nodes to move only rightwards between its two passes.
---
 bfffs-core/src/tree/tree/mod.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/bfffs-core/src/tree/tree/mod.rs b/bfffs-core/src/tree/tree/mod.rs
index 080a69c..066d731 100644
--- a/bfffs-core/src/tree/tree/mod.rs
+++ b/bfffs-core/src/tree/tree/mod.rs
@@ -2536,12 +2536,6 @@ impl<D, K, V> Tree<ddml::DRP, D, K, V>
                                 Arc<Node<ddml::DRP, K, V>>>(
                         guard.as_int().children[child_idx].ptr.as_addr(), txg)
                 .and_then(move |arc| {
-                    #[cfg(debug_assertions)]
-                    {
-                        if let Ok(guard) = arc.0.try_read() {
-                            assert!(node.key <= *guard.key());
-                        }   // LCOV_EXCL_LINE   grcov false negative
-                    }
                     dml2.put(*arc, Compression::None, txg)
                 }).map_ok(move |addr| {
                     let new = TreePtr::Addr(addr);
-- 
2.43.0


From 878f2af3fed497f25dcea20e68ec0729d87454ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 33/40] fix: names that begin with the pool's name needn't be
 in the pool

With a pool named "foo", "foobar" meant the dataset "foo/bar".
---
 bfffs-core/src/controller.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index a10bbd1..5070a1f 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -420,8 +420,10 @@ impl Controller {
     // Strip the pool name.  For now, only one pool is supported.
     fn strip_pool_name<'a>(&self, name: &'a str) -> Result<&'a str> {
         match name.strip_prefix(self.db.pool_name()) {
-            Some(s) => Ok(s.strip_prefix('/').unwrap_or(s)),
-            None => {
+            Some("") => Ok(""),
+            // Beware of names that merely begin with the pool's name
+            Some(s) if s.starts_with('/') => Ok(&s[1..]),
+            _ => {
                 tracing::debug!("pool name not provided");
                 Err(Error::ENOENT)
             },
-- 
2.43.0


From 17d0fb8f6590801acd2e06be513c45982af0a1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 34/40] fix: don't create a pool's root file system twice

The second one could never be found again.
---
 bfffs-core/src/controller.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 5070a1f..a64071e 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -100,6 +100,9 @@ impl Controller {
             self.db.create_fs(parent, dsname.to_owned())
         } else if fsname.is_empty() {
             // Creating the pool's root file system
+            if self.db.lookup_fs(fsname).await?.1.is_some() {
+                return Err(Error::EEXIST);
+            }
             self.db.create_fs(None, fsname.to_owned())
         } else {
             // Creating a child of the root file system
-- 
2.43.0


From c528178495f3a59f7566ea8539a141dcc267888e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 35/40] fix: don't create a child of a root file system that
 doesn't exist

It would get the root's id and be its own parent.
---
 bfffs-core/src/controller.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index a64071e..736bae8 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -106,7 +106,11 @@ impl Controller {
             self.db.create_fs(None, fsname.to_owned())
         } else {
             // Creating a child of the root file system
-            self.db.create_fs(Some(database::TreeID(0)), fsname.to_owned())
+            let (_, parent) = self.db.lookup_fs("").await?;
+            if parent.is_none() {
+                return Err(Error::ENOENT);
+            }
+            self.db.create_fs(parent, fsname.to_owned())
         }.await
     }
 
-- 
2.43.0


From b89a2da896c4fb6b3ca8268421693f3a71423f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 36/40] fix: don't create file systems without a name

Creating "pool/foo/" made a dataset with an empty name, which couldn't be
destroyed.
---
 bfffs-core/src/controller.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 736bae8..d9d0051 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -91,6 +91,9 @@ impl Controller {
         -> Result<TreeID>
     {
         let fsname = self.strip_pool_name(name)?;
+        if !fsname.is_empty() && fsname.split('/').any(str::is_empty) {
+            return Err(Error::EINVAL);
+        }
         let r = fsname.rsplit_once('/');
         if let Some((parent_name, dsname)) = r {
             let (_, parent) = self.db.lookup_fs(parent_name).await?;
-- 
2.43.0


From 63b7f7a8a7bc89744d1ed67b9834255162beb074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 37/40] fix: allow destroying file systems that umount(8)
 unmounted

They stayed busy for as long as the daemon ran.
---
 bfffs-core/src/controller.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index d9d0051..2d7949c 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -130,7 +130,8 @@ impl Controller {
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
-                if let Some(_fs) = guard.get(&id) {
+                // It may have been unmounted without our help
+                if guard.get(&id).is_some_and(|fs| fs.strong_count() > 0) {
                     Err(Error::EBUSY)
                 } else {
                     self.db.destroy_fs(parent, id, dsname).await
-- 
2.43.0


From f3f018dbec85865e2167486f0a24a5b233862f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 38/40] fix: end the list of datasets after an error

The stream panicked if it was polled again.
---
 bfffs-core/src/controller.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 2d7949c..86e4765 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -293,9 +293,16 @@ impl Controller {
                     LookupOrList::Lookup(lookup_fut) => {
                         match lookup_fut.as_mut().poll(cx) {
                             Poll::Pending => Poll::Pending,
-                            Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                            Poll::Ready(Ok((_, None))) =>
-                                Poll::Ready(Some(Err(Error::ENOENT))),
+                            Poll::Ready(Err(e)) => {
+                                self.lol = LookupOrList::List(
+                                    Box::pin(stream::empty()));
+                                Poll::Ready(Some(Err(e)))
+                            }
+                            Poll::Ready(Ok((_, None))) => {
+                                self.lol = LookupOrList::List(
+                                    Box::pin(stream::empty()));
+                                Poll::Ready(Some(Err(Error::ENOENT)))
+                            }
                             Poll::Ready(Ok((_, Some(tree_id)))) => {
                                 let offs = self.offs.unwrap_or(0);
                                 let mut s = self.db.readdir(tree_id, offs);
-- 
2.43.0


From 93b1b33b1fb9450913f434b2e267233d4adce7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:25 +0000
Subject: [PATCH 39/40] fix: races between creating and destroying file systems

Two at once could get the same id, a child could be created in a parent that
was just being destroyed, and properties could be set on it.
---
 bfffs-core/src/controller.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bfffs-core/src/controller.rs b/bfffs-core/src/controller.rs
index 86e4765..de97138 100644
--- a/bfffs-core/src/controller.rs
+++ b/bfffs-core/src/controller.rs
@@ -94,6 +94,8 @@ impl Controller {
         if !fsname.is_empty() && fsname.split('/').any(str::is_empty) {
             return Err(Error::EINVAL);
         }
+        // No other file system may be created or destroyed at the same time
+        let _guard = self.filesystems.write().await;
         let r = fsname.rsplit_once('/');
         if let Some((parent_name, dsname)) = r {
             let (_, parent) = self.db.lookup_fs(parent_name).await?;
@@ -126,7 +128,8 @@ impl Controller {
     pub async fn destroy_fs(&self, name: &str) -> Result<()>
     {
         let dsname = self.strip_pool_name(name)?;
-        let guard = self.filesystems.read().await;
+        // Nobody may create a child nor use the file system meanwhile
+        let guard = self.filesystems.write().await;
         let (parent, tree_id) = self.db.lookup_fs(dsname).await?;
         match tree_id {
             Some(id) => {
@@ -422,11 +425,11 @@ impl Controller {
     {
         let prop = prop.inheritable();
         let dsname = self.strip_pool_name(dataset)?;
+        let guard = self.filesystems.read().await;
         let tree_id = match self.db.lookup_fs(dsname).await? {
             (_parent, Some(tree_id)) => tree_id,
             (_, None) => return Err(Error::ENOENT)
         };
-        let guard = self.filesystems.read().await;
         if let Some(weak) = guard.get(&tree_id) {
             if let Some(fs) = weak.upgrade() {
                 return fs.set_prop(prop).await;
-- 
2.43.0


From 341bd6eb3f24bc06f0ecc4570b3b870ff1736bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:56 +0000
Subject: [PATCH 40/40] fix: delete the new tree if a file system couldn't be
 created

---
 bfffs-core/src/database/database.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bfffs-core/src/database/database.rs b/bfffs-core/src/database/database.rs
index e60c1c9..91eb617 100644
--- a/bfffs-core/src/database/database.rs
+++ b/bfffs-core/src/database/database.rs
@@ -535,7 +535,8 @@ impl Database {
         let (tree_id, itree) = match r {
             Ok(x) => x,
             Err(e) => {
-                idml3.repay(credit);
+                // The new tree may already be on disk.  Delete it.
+                fs.range_delete(.., *txg_guard, credit).await?;
                 return Err(e);
             }
         };
-- 
2.43.0

