From 88c64d6b6256b60b84dc0e3e35e48ae6612c7294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 01/48] fix: run the batch's OnClose callbacks on Close

Close ran the OnCommitted callbacks a second time (and for a batch that was
never committed) and the OnClose callbacks never.
---
 batch.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index eb73032..15376cf 100644
--- a/batch.go
+++ b/batch.go
@@ -202,7 +202,7 @@ func (b *_batch) notifyOnError(err error) {
 }
 
 func (b *_batch) notifyOnClose() {
-	for _, f := range b.onCommittedCallbacks {
+	for _, f := range b.onClose {
 		f(b)
 	}
 }
-- 
2.43.0


From 5082ed77a96f03abfa6cd2db4551b99a40162e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 02/48] fix: do not report a failed Batch.Apply as committed

---
 batch.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/batch.go b/batch.go
index 15376cf..3f78517 100644
--- a/batch.go
+++ b/batch.go
@@ -121,13 +121,14 @@ func (b *_batch) Apply(batch Batch, opt WriteOptions) error {
 	if err != nil {
 		return err
 	}
-	defer innerBatch.notifyOnCommitted()
 
 	err = b.Batch.Apply(innerBatch.Batch, pebbleWriteOptions(opt))
 	if err != nil {
 		innerBatch.notifyOnError(err)
 		return err
 	}
+
+	innerBatch.notifyOnCommitted()
 	return nil
 }
 
-- 
2.43.0


From 23442b013da3abecbc022bc6c22f446444186edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 03/48] fix: release the table lock when AddIndex rejects a
 duplicate index

---
 table.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/table.go b/table.go
index 2a25b0a..e34dd51 100644
--- a/table.go
+++ b/table.go
@@ -250,6 +250,7 @@ func (t *_table[T]) AddIndex(idxs []*Index[T], reIndex ...bool) error {
 	for _, idx := range idxs {
 		_, ok := t.secondaryIndexes[idx.IndexID]
 		if ok {
+			t.mutex.Unlock()
 			return fmt.Errorf("found duplicate IndexID %d", idx.IndexID)
 		}
 		t.secondaryIndexes[idx.IndexID] = idx
-- 
2.43.0


From b84a3eece70be5cc3e295279f56d75a7e91f24b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:42 +0000
Subject: [PATCH 04/48] fix: release SyncBatch's lock when the callback panics

---
 sync.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sync.go b/sync.go
index 0627966..b5b633d 100644
--- a/sync.go
+++ b/sync.go
@@ -19,7 +19,6 @@ func NewSyncBatch(batch Batch) *SyncBatch {
 
 func (s *SyncBatch) WithSync(f func(batch Batch) error) error {
 	s.mu.Lock()
-	err := f(s.batch)
-	s.mu.Unlock()
-	return err
+	defer s.mu.Unlock()
+	return f(s.batch)
 }
-- 
2.43.0


From 1f77049f21067c6bc298bd93aedbaea155eac035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 05/48] fix: keep the caller's order among rows with equal
 primary keys

Update and Upsert apply duplicates of a key in order (the last one wins), which
an unstable sort does not give them.
---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index e34dd51..da776d1 100644
--- a/table.go
+++ b/table.go
@@ -1196,7 +1196,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 func (t *_table[T]) sortKeys(keys [][]byte) []int {
 	keyOrder := utils.ArrayN(len(keys))
-	sort.Sort(&utils.SortShim{
+	sort.Stable(&utils.SortShim{
 		Length: len(keys),
 		SwapFn: func(i, j int) {
 			keys[i], keys[j] = keys[j], keys[i]
-- 
2.43.0


From 37f6464132294c481ab8168ba2c0347074149033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 06/48] fix: merge the right rows when Upsert is given
 duplicates

The rows were looked up in the caller's order with an index into the sorted
order, and the stored row was overwritten, so its index entry stayed behind.
---
 table.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table.go b/table.go
index da776d1..7947d81 100644
--- a/table.go
+++ b/table.go
@@ -730,9 +730,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// apply conficts recursively if duplicate exist
 			for i < len(keys)-1 && t.keyDuplicate(i+1, keys) {
-				oldTr = tr
 				i++
-				tr = onConflict(oldTr, trs[i])
+				tr = onConflict(tr, trs[keyOrder[i]])
 				continue
 			}
 
-- 
2.43.0


From 80c9191c9c96340fd15f489c6ec244d1f3a7932f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 07/48] fix: decode every stored row into a fresh value in
 Update and Upsert

Serializers that leave absent fields alone carried fields of the previous row
over, and the wrong index entry was deleted.
---
 table.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/table.go b/table.go
index 7947d81..329b7ab 100644
--- a/table.go
+++ b/table.go
@@ -495,9 +495,6 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -531,6 +528,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
+			var oldTr T
 			err := t.serializer.Deserialize(iter.Value(), &oldTr)
 			if err != nil {
 				return err
@@ -680,9 +678,6 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 		serialize = sw.SerializeFuncWithBuffer(valueBuffer)
 	}
 
-	// reusable object
-	var oldTr T
-
 	err := batched[T](trs, persistentBatchSize, func(trs []T) error {
 		// keys
 		keys := t.keysExternal(trs, keysBuffer)
@@ -712,6 +707,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 
 			// old record
 			var (
+				oldTr    T
 				isUpdate bool
 				err      error
 			)
-- 
2.43.0


From 156b3c21316a11eb5e87b7f708a835b653dd7d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 08/48] fix: let a write see the rows of its own previous
 chunks

Duplicates of a primary key that fell into different chunks of one call were
not seen: Insert overwrote the row, Update and Upsert left its index entry.
---
 table.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index 329b7ab..1e2fe50 100644
--- a/table.go
+++ b/table.go
@@ -351,7 +351,7 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -465,7 +465,7 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -648,7 +648,7 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 	if externalBatch {
 		batch = optBatch[0]
 	} else {
-		batch = t.db.Batch(BatchTypeWriteOnly)
+		batch = t.db.Batch(internalBatchType(len(trs)))
 		defer batch.Close()
 	}
 
@@ -1292,6 +1292,16 @@ func batched[T any](items []T, batchSize int, f func(batch []T) error) error {
 	return nil
 }
 
+// internalBatchType returns the type of the batch that a write of rows rows
+// needs: if it spans several chunks, a chunk has to see the rows of the
+// previous ones.
+func internalBatchType(rows int) BatchType {
+	if rows > persistentBatchSize {
+		return BatchTypeReadWrite
+	}
+	return BatchTypeWriteOnly
+}
+
 func minInt(a, b int) int {
 	if a < b {
 		return a
-- 
2.43.0


From 7a4a2bd586edc824b87b1515c6aeb4bbea80c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 09/48] fix: compute the immediate successor of a key prefix
 that ends in 0xFF

The bytes after the incremented one were kept, so the range reached into the
next index values.
---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index 1e2fe50..9b94006 100644
--- a/table.go
+++ b/table.go
@@ -1265,7 +1265,7 @@ func keySuccessor(src, dst []byte) []byte {
 	for i := len(src) - 1; i >= 0; i-- {
 		if dst[i] != 0xFF {
 			dst[i]++
-			return dst
+			return dst[:i+1]
 		}
 	}
 	return dst
-- 
2.43.0


From f64ee50144ecf2c50302b74646d521f06065f75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 10/48] fix: delete the index entries of the stored row

Delete is documented with rows that carry the primary key only; the entries of
the stored row stayed in the indexes, and scans over them failed.
---
 table.go | 40 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 38 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 9b94006..ab3f76a 100644
--- a/table.go
+++ b/table.go
@@ -3,6 +3,7 @@ package bond
 import (
 	"bytes"
 	"context"
+	"errors"
 	"fmt"
 	"reflect"
 	"sort"
@@ -580,8 +581,9 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 	t.mutex.RUnlock()
 
 	var (
-		batch         Batch
-		externalBatch = len(optBatch) > 0 && optBatch[0] != nil
+		batch          Batch
+		batchReadWrite Batch
+		externalBatch  = len(optBatch) > 0 && optBatch[0] != nil
 	)
 
 	if externalBatch {
@@ -591,6 +593,10 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		defer batch.Close()
 	}
 
+	if batch.Type() == BatchTypeReadWrite {
+		batchReadWrite = batch
+	}
+
 	var (
 		keyBuffer      = t.db.getKeyBufferPool().Get()[:0]
 		indexKeyBuffer = t.db.getKeyBufferPool().Get()[:0]
@@ -608,6 +614,18 @@ func (t *_table[T]) Delete(ctx context.Context, trs []T, optBatch ...Batch) erro
 		// data key
 		var key = t.key(tr, keyBuffer[:0])
 
+		// the index entries to delete are those of the stored row
+		if len(indexes) > 0 {
+			var stored T
+			found, err := t.stored(key, &stored, batchReadWrite)
+			if err != nil {
+				return err
+			}
+			if found {
+				tr = stored
+			}
+		}
+
 		// delete
 		err := batch.Delete(key, Sync)
 		if err != nil {
@@ -829,6 +847,24 @@ func (t *_table[T]) exist(key []byte, batch Batch, iter Iterator) bool {
 	return iter.SeekGE(key) && bytes.Equal(iter.Key(), key)
 }
 
+// stored reads the row stored under key into tr.
+func (t *_table[T]) stored(key []byte, tr *T, batch Batch) (bool, error) {
+	data, closer, err := t.db.Get(key, batch)
+	if errors.Is(err, pebble.ErrNotFound) {
+		return false, nil
+	}
+	if err != nil {
+		return false, err
+	}
+	defer closer.Close()
+
+	err = t.serializer.Deserialize(data, tr)
+	if err != nil {
+		return false, fmt.Errorf("failed to deserialize: %w", err)
+	}
+	return true, nil
+}
+
 func (t *_table[T]) GetPoint(ctx context.Context, in T, optBatch ...Batch) (T, error) {
 	var tr T
 	trs, err := t.Get(ctx, NewSelectorPoint(in), optBatch...)
-- 
2.43.0


From b5a74cdac340a2e586b80299214b10459e8700d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 11/48] fix: close UnsafeUpdate's own batch on every path, and
 never the caller's

---
 table_unsafe.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/table_unsafe.go b/table_unsafe.go
index e6ba916..9b37ca6 100644
--- a/table_unsafe.go
+++ b/table_unsafe.go
@@ -33,6 +33,7 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		batch = optBatch[0]
 	} else {
 		batch = t.db.Batch(BatchTypeWriteOnly)
+		defer batch.Close()
 	}
 
 	// key
@@ -78,7 +79,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 		// update entry
 		err = batch.Set(key, data, Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 
@@ -94,7 +94,6 @@ func (t *_table[T]) UnsafeUpdate(ctx context.Context, trs []T, oldTrs []T, optBa
 	if !externalBatch {
 		err := batch.Commit(Sync)
 		if err != nil {
-			_ = batch.Close()
 			return err
 		}
 	}
-- 
2.43.0


From 7c477d2b3b80bc686b93bb756ca9adc558190bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 12/48] fix: clear the entries of index 255 when reindexing

The end of the range overflowed to the start of the table's keys.
---
 table.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/table.go b/table.go
index ab3f76a..a1868a3 100644
--- a/table.go
+++ b/table.go
@@ -270,7 +270,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 		idxsMap[idx.IndexID] = idx
 		err := t.db.DeleteRange(
 			[]byte{byte(t.id), byte(idx.IndexID)},
-			[]byte{byte(t.id), byte(idx.IndexID + 1)}, Sync)
+			[]byte{byte(t.id), byte(idx.IndexID), 0xFF}, Sync)
 		if err != nil {
 			return fmt.Errorf("failed to delete index: %w", err)
 		}
-- 
2.43.0


From 7563a89884a2823cfae8bf34465fef387beea209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 13/48] fix: report a failed scan from ReIndex, and release
 what it opened

---
 table.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/table.go b/table.go
index a1868a3..c663306 100644
--- a/table.go
+++ b/table.go
@@ -287,6 +287,7 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 			UpperBound: prefixSuccessor,
 		},
 	})
+	defer iter.Close()
 
 	batch := t.db.Batch(BatchTypeWriteOnly)
 	defer func() {
@@ -323,16 +324,20 @@ func (t *_table[T]) ReIndex(idxs []*Index[T]) error {
 				return fmt.Errorf("failed to commit reindex batch: %w", err)
 			}
 
+			_ = batch.Close()
 			batch = t.db.Batch(BatchTypeWriteOnly)
 		}
 	}
 
-	err := batch.Commit(Sync)
+	err := iter.Error()
 	if err != nil {
-		return fmt.Errorf("failed to commit reindex batch: %w", err)
+		return fmt.Errorf("failed to iterate during reindexing: %w", err)
 	}
 
-	_ = iter.Close()
+	err = batch.Commit(Sync)
+	if err != nil {
+		return fmt.Errorf("failed to commit reindex batch: %w", err)
+	}
 
 	return nil
 }
-- 
2.43.0


From 9fb215cef753f0e41718aac587282374e3e4e285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:07 +0000
Subject: [PATCH 14/48] fix: report read errors instead of treating them as
 absent rows

An iterator that stops on an error, and a Get that fails, were taken for the
end of the range and for a missing row.
---
 index.go |  8 ++++++--
 iter.go  | 12 +++++++++---
 table.go | 16 +++++++++++++++-
 3 files changed, 30 insertions(+), 6 deletions(-)

diff --git a/index.go b/index.go
index e4d2f52..f394ac6 100644
--- a/index.go
+++ b/index.go
@@ -367,7 +367,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 
 		intersectKeysMap[utils.BytesToString(KeyBytes(it.Key()).ToDataKeyBytes([]byte{}))] = struct{}{}
 	}
-	_ = it.Close()
+	if err := it.Close(); err != nil {
+		return nil, err
+	}
 
 	for i, idx2 := range indexes {
 		it = idx2.Iter(table, sels[i], optBatch...)
@@ -384,7 +386,9 @@ func (idx *Index[T]) Intersect(ctx context.Context, table Table[T], sel Selector
 				tempKeysMap[key] = struct{}{}
 			}
 		}
-		_ = it.Close()
+		if err := it.Close(); err != nil {
+			return nil, err
+		}
 
 		intersectKeysMap = tempKeysMap
 		tempKeysMap = map[string]struct{}{}
diff --git a/iter.go b/iter.go
index d6ded27..045c575 100644
--- a/iter.go
+++ b/iter.go
@@ -95,6 +95,9 @@ func (it *_iteratorMulti) First() bool {
 		if it.iterator.First() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
@@ -108,13 +111,16 @@ func (it *_iteratorMulti) Last() bool {
 		if it.iterator.Last() {
 			return true
 		}
+		if it.iterator.Error() != nil {
+			return false
+		}
 	}
 	return false
 }
 
 func (it *_iteratorMulti) Prev() bool {
 	for !it.iterator.Prev() {
-		if it.iteratorOptionsIndex == 0 {
+		if it.iteratorOptionsIndex == 0 || it.iterator.Error() != nil {
 			return false
 		}
 
@@ -131,7 +137,7 @@ func (it *_iteratorMulti) Prev() bool {
 
 func (it *_iteratorMulti) Next() bool {
 	for !it.iterator.Next() {
-		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 {
+		if it.iteratorOptionsIndex == len(it.iteratorOptions)-1 || it.iterator.Error() != nil {
 			return false
 		}
 
@@ -248,7 +254,7 @@ func (e errIterator) Value() []byte {
 }
 
 func (e errIterator) Close() error {
-	return nil
+	return e.err
 }
 
 var _ Iterator = (*errIterator)(nil)
diff --git a/table.go b/table.go
index c663306..3673e38 100644
--- a/table.go
+++ b/table.go
@@ -413,6 +413,9 @@ func (t *_table[T]) Insert(ctx context.Context, trs []T, optBatch ...Batch) erro
 			if t.keyDuplicate(i, keys) || t.exist(key, batch, iter) {
 				return fmt.Errorf("record: %x already exist", key[_KeyPrefixSplitIndex(key):])
 			}
+			if err := iter.Error(); err != nil {
+				return err
+			}
 
 			// serialize
 			tr := trs[keyOrder[i]]
@@ -531,6 +534,9 @@ func (t *_table[T]) Update(ctx context.Context, trs []T, optBatch ...Batch) erro
 			}
 
 			if !iter.SeekGE(key) || !bytes.Equal(iter.Key(), key) {
+				if err := iter.Error(); err != nil {
+					return err
+				}
 				return fmt.Errorf("record: %x not found", key[_KeyPrefixSplitIndex(key):])
 			}
 
@@ -740,6 +746,8 @@ func (t *_table[T]) Upsert(ctx context.Context, trs []T, onConflict func(old, ne
 					return err
 				}
 				isUpdate = true
+			} else if err := iter.Error(); err != nil {
+				return err
 			}
 
 			// handle upsert
@@ -906,9 +914,12 @@ func (t *_table[T]) Get(ctx context.Context, sel Selector[T], optBatch ...Batch)
 		}
 
 		record, closer, err := t.db.Get(key, batch)
-		if err != nil {
+		if errors.Is(err, pebble.ErrNotFound) {
 			return nil, ErrNotFound
 		}
+		if err != nil {
+			return nil, err
+		}
 		defer closer.Close()
 
 		var rtr T
@@ -1002,6 +1013,9 @@ func (t *_table[T]) get(keys [][]byte, batch Batch, values [][]byte, errorOnNotE
 		}
 
 		if !iter.SeekGE(keys[i]) || !bytes.Equal(iter.Key(), keys[i]) {
+			if err := iter.Error(); err != nil {
+				return nil, err
+			}
 			if errorOnNotExist {
 				return nil, ErrNotFound
 			} else {
-- 
2.43.0


From 917636bf9a0bdb269103f760cd88b597404d6420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 15/48] fix: advance a secondary index scan once per callback

The scan advanced with the callback's calls of Lazy.Get: without one it never
ended, with two it skipped a row.
---
 table.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/table.go b/table.go
index 3673e38..b3535e0 100644
--- a/table.go
+++ b/table.go
@@ -1172,11 +1172,15 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 			return t.valueNil, fmt.Errorf("get failed to deserialize: %w", err)
 		}
 
-		prefetchedValuesIndex++
 		return rtr, nil
 	}
 
 	prefetchAndGetValue := func() (T, error) {
+		// the row is prefetched already
+		if len(prefetchedValues) > 0 {
+			return getPrefetchedValue()
+		}
+
 		// prefetch the required data keys.
 		nextBuff := multiKeyBuffer
 		for it.Valid() {
@@ -1221,7 +1225,7 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		}
 
 		// iterate from prefetched entire if exists.
-		for prefetchedValuesIndex < len(prefetchedValues) {
+		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From 286003160b19046eb5d2ae644f497452aa21edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 16/48] fix: accept a nil batch in Index.Iter, as everywhere
 else

---
 index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.go b/index.go
index f394ac6..f77787c 100644
--- a/index.go
+++ b/index.go
@@ -175,7 +175,7 @@ func (idx *Index[T]) Name() string {
 // Iter returns an iterator for the index.
 func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batch) Iterator {
 	var iterConstructor Iterationer = table.DB()
-	if len(optBatch) > 0 {
+	if len(optBatch) > 0 && optBatch[0] != nil {
 		iterConstructor = optBatch[0]
 	}
 
-- 
2.43.0


From 5127c44b4cbfec1895a56d0ecb9e46d34ad2dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 17/48] fix: iterate over nothing for an empty points or ranges
 selector

Also reached by a query whose After row lies behind its last point.
---
 iter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iter.go b/iter.go
index 045c575..0dcf77b 100644
--- a/iter.go
+++ b/iter.go
@@ -77,7 +77,11 @@ type _iteratorMulti struct {
 	iterator           Iterator
 }
 
-func newIteratorMulti(itc Iterationer, opts []*IterOptions) *_iteratorMulti {
+func newIteratorMulti(itc Iterationer, opts []*IterOptions) Iterator {
+	if len(opts) == 0 {
+		return errIterator{}
+	}
+
 	return &_iteratorMulti{
 		iteratorOptions:      opts,
 		iteratorOptionsIndex: 0,
-- 
2.43.0


From ffdfa704b08ff40b79b8963db60b54fc16baa849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 18/48] fix: read the rows of an intersection through the given
 batch

---
 query.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/query.go b/query.go
index 4ebdf88..f43cebd 100644
--- a/query.go
+++ b/query.go
@@ -324,7 +324,11 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	}
 
 	// get data
-	values, err := q.table.get(keys, nil, make([][]byte, len(keys)), true)
+	var batch Batch
+	if len(optBatch) > 0 {
+		batch = optBatch[0]
+	}
+	values, err := q.table.get(keys, batch, make([][]byte, len(keys)), true)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 1c65dec87a4814e177ce6901c7490efed58a269d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 19/48] fix: apply offset and limit to an intersection with
 After

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index f43cebd..dd17d77 100644
--- a/query.go
+++ b/query.go
@@ -371,7 +371,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		}
 	}
 
-	if hasFilter || hasSort {
+	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
 			if int(q.offset) >= len(records) {
-- 
2.43.0


From 0cb28647e36e6911d733e8063db4cf16d6e0de8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 20/48] fix: do not share intersections between queries built
 from the same base

---
 query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/query.go b/query.go
index dd17d77..91041ec 100644
--- a/query.go
+++ b/query.go
@@ -148,7 +148,7 @@ func (q Query[T]) Execute(ctx context.Context, r *[]T, optBatch ...Batch) error
 }
 
 func (q Query[T]) Intersects(queries ...Query[T]) Query[T] {
-	q.intersects = append(q.intersects, queries...)
+	q.intersects = append(q.intersects[:len(q.intersects):len(q.intersects)], queries...)
 	return q
 }
 
-- 
2.43.0


From dfe78cb74baa77a3266ebfa0bf548ce998304ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 21/48] fix: reject nested intersections instead of dropping
 them

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index 91041ec..6a29947 100644
--- a/query.go
+++ b/query.go
@@ -411,6 +411,9 @@ func (q Query[T]) checkIntersectQueries() error {
 		if q1.limit != 0 {
 			return fmt.Errorf("queries passed to Intersect do not support limit")
 		}
+		if len(q1.intersects) != 0 {
+			return fmt.Errorf("queries passed to Intersect do not support intersects")
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 093fde100f5f3257f1d52b6f9cd55b98cd5b3888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 22/48] fix: honour Reverse in a query with intersections

---
 query.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/query.go b/query.go
index 6a29947..80987d5 100644
--- a/query.go
+++ b/query.go
@@ -302,6 +302,12 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		return nil, err
 	}
 
+	if q.reverse {
+		for i, j := 0, len(keys)-1; i < j; i, j = i+1, j-1 {
+			keys[i], keys[j] = keys[j], keys[i]
+		}
+	}
+
 	// apply offset & limit early
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
-- 
2.43.0


From 49791419ae8ca20affd2c431471bbb5df9c6bfc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 23/48] fix: accept every offset and limit

Their sum overflowed, and large ones were negative as int: such queries
returned one row or panicked.
---
 query.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/query.go b/query.go
index 80987d5..d0acf9e 100644
--- a/query.go
+++ b/query.go
@@ -226,7 +226,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 		// check if we need to iterate further
 		if !hasSort && hasLimit {
 			limitApplied = true
-			next = count < q.offset+q.limit
+			next = count < q.offset || count-q.offset < q.limit
 		}
 
 		return next, nil
@@ -260,7 +260,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 
 	// offset
 	if hasOffset && !offsetApplied {
-		if int(q.offset) >= len(records) {
+		if q.offset >= uint64(len(records)) {
 			records = make([]T, 0)
 		} else {
 			records = records[q.offset:]
@@ -270,7 +270,7 @@ func (q Query[T]) executeQuery(ctx context.Context, optBatch ...Batch) ([]T, err
 	// limit
 	if hasLimit && !limitApplied {
 		lastIndex := q.limit
-		if int(lastIndex) >= len(records) {
+		if lastIndex >= uint64(len(records)) {
 			lastIndex = uint64(len(records))
 		}
 		records = records[:lastIndex]
@@ -312,7 +312,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if !hasFilter && !hasSort && !hasAfter {
 		if hasOffset {
 			offsetApplied = true
-			if int(q.offset) >= len(keys) {
+			if q.offset >= uint64(len(keys)) {
 				return make([]T, 0), nil
 			} else {
 				keys = keys[q.offset:]
@@ -322,7 +322,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		if hasLimit {
 			limitApplied = true
 			lastIndex := q.limit
-			if int(lastIndex) >= len(keys) {
+			if lastIndex >= uint64(len(keys)) {
 				lastIndex = uint64(len(keys))
 			}
 			keys = keys[:lastIndex]
@@ -380,7 +380,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 	if hasFilter || hasSort || hasAfter {
 		// offset
 		if hasOffset && !offsetApplied {
-			if int(q.offset) >= len(records) {
+			if q.offset >= uint64(len(records)) {
 				records = make([]T, 0)
 			} else {
 				records = records[q.offset:]
@@ -390,7 +390,7 @@ func (q Query[T]) executeIntersect(ctx context.Context, optBatch ...Batch) ([]T,
 		// limit
 		if hasLimit && !limitApplied {
 			lastIndex := q.limit
-			if int(lastIndex) >= len(records) {
+			if lastIndex >= uint64(len(records)) {
 				lastIndex = uint64(len(records))
 			}
 			records = records[:lastIndex]
-- 
2.43.0


From ab53f807aa3b4034b5503665afa996a4321707e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 24/48] fix: do not invert the caller's bytes in OrderBytes

---
 index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/index.go b/index.go
index f77787c..8c2efe6 100644
--- a/index.go
+++ b/index.go
@@ -91,6 +91,7 @@ func (o IndexOrder) OrderByte(b byte, orderType IndexOrderType) IndexOrder {
 
 func (o IndexOrder) OrderBytes(b []byte, orderType IndexOrderType) IndexOrder {
 	if orderType == IndexOrderTypeDESC {
+		b = append([]byte{}, b...)
 		for i := 0; i < len(b); i++ {
 			b[i] = ^b[i]
 		}
-- 
2.43.0


From ce3e802cdab081148cec4f25cc1fb3e7416acf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 25/48] fix: keep number sequences increasing when the clock
 goes back

---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 33b980f..5b27d84 100644
--- a/helpers.go
+++ b/helpers.go
@@ -27,7 +27,7 @@ func (n *NumberSequence) Next() (uint64, error) {
 	defer n.mutex.Unlock()
 
 	nextId := uint64(time.Now().Unix() << NumberSequenceBitShift)
-	if n.lastId&NumberSequenceTimestampMask == nextId&NumberSequenceTimestampMask {
+	if n.lastId&NumberSequenceTimestampMask >= nextId&NumberSequenceTimestampMask {
 		if n.lastId&NumberSequenceSequenceNumberMask == NumberSequenceSequenceNumberMask {
 			return math.MaxUint64, fmt.Errorf("sequence number overflow")
 		}
-- 
2.43.0


From 45164fcae13bd436f468edb6eac4d7cf212390e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:31 +0000
Subject: [PATCH 26/48] fix: pass the batch through TableAnyScanner's callback
 scans

---
 table_utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/table_utils.go b/table_utils.go
index 2f7cfa1..0571551 100644
--- a/table_utils.go
+++ b/table_utils.go
@@ -81,7 +81,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 		scanIndexForEach: func(ctx context.Context, i *Index[any], s Selector[any], f func(keyBytes KeyBytes, t Lazy[any]) (bool, error), reverse bool, optBatch ...Batch) error {
 			iAny := NewIndex[T](IndexOptions[T]{
@@ -110,7 +110,7 @@ func TableAnyScanner[T any](scanner TableScanner[T]) TableScanner[any] {
 						return l.Get()
 					},
 				})
-			}, reverse)
+			}, reverse, optBatch...)
 		},
 	}
 }
-- 
2.43.0


From 5bdf6b73e93619f78b312a53258acc566cbbe6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 27/48] fix: restore the requested tables only

The tables were searched in the whole path of a file: table_1 matched table_10,
and a backup directory with index in its name held no data files.
---
 bond.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index 7e49f6f..525862e 100644
--- a/bond.go
+++ b/bond.go
@@ -464,6 +464,9 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 	// ingest the required sst file.
 	ssts := []string{}
 	err = filepath.Walk(path, func(path string, info fs.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			return nil
 		}
@@ -472,8 +475,10 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 		}
 		// filter only relevant tables.
 		filter := true
+		dir := filepath.Base(filepath.Dir(path))
 		for _, table := range tables {
-			if strings.Contains(path, fmt.Sprintf("table_%d", table)) {
+			tableDir := fmt.Sprintf("table_%d", table)
+			if dir == tableDir || strings.HasPrefix(dir, tableDir+"_index_") {
 				filter = false
 				break
 			}
@@ -483,7 +488,7 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 			return nil
 		}
 
-		if !strings.Contains(path, "index") {
+		if !strings.Contains(dir, "index") {
 			ssts = append(ssts, path)
 			return nil
 		}
-- 
2.43.0


From e840729f0a9213b6b9eb10e0f2022b476b4cd900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 28/48] fix: close the iterator that looks up a table's indexes

Closing the database after a Dump failed with leaked iterators.
---
 bond.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bond.go b/bond.go
index 525862e..5b0fcff 100644
--- a/bond.go
+++ b/bond.go
@@ -508,6 +508,8 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 	indexIDS := []IndexID{}
 
 	itr := db.Iter(&IterOptions{})
+	defer itr.Close()
+
 	for {
 		if !itr.SeekGE(prefix) {
 			break
-- 
2.43.0


From 66ae4e553eb56c5e896c09f9e9dc7a339db015d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 29/48] fix: close the storage when Open rejects the database

It stayed locked for the life of the process.
---
 bond.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bond.go b/bond.go
index 5b0fcff..e75fe24 100644
--- a/bond.go
+++ b/bond.go
@@ -203,6 +203,13 @@ func Open(dirname string, opts *Options) (DB, error) {
 		serializer = &serializers.JsonSerializer{}
 	}
 
+	opened := false
+	defer func() {
+		if !opened {
+			_ = pdb.Close()
+		}
+	}()
+
 	db := &_db{
 		pebble:     pdb,
 		serializer: serializer,
@@ -228,6 +235,7 @@ func Open(dirname string, opts *Options) (DB, error) {
 		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
 	}
 
+	opened = true
 	return db, nil
 }
 
-- 
2.43.0


From 95ccb0aa9a5bc6d06b2d6ff0e8afe90927b1d2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:53 +0000
Subject: [PATCH 30/48] fix: fail a Dump whose scan fails, and wait for its
 writers

An iterator error was taken for the end of the table; on an early return the
writers went on over a closed snapshot.
---
 bond.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/bond.go b/bond.go
index e75fe24..491666b 100644
--- a/bond.go
+++ b/bond.go
@@ -397,6 +397,9 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 	defer snapshot.Close()
 
 	grp := new(errgroup.Group)
+	// the writers use the snapshot: wait for them on every path
+	defer grp.Wait()
+
 	// write all the table data to the sst file.
 	for _, tableID := range tables {
 		tablePath := filepath.Join(path, fmt.Sprintf("table_%d", tableID))
@@ -550,6 +553,11 @@ func iteratorToSST(itr Iterator, path string) error {
 		TableFormat: sstable.TableFormatPebblev2, Parallelism: true, Comparer: DefaultKeyComparer(),
 	}
 	writer := sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
+	defer func() {
+		if writer != nil {
+			_ = writer.Close()
+		}
+	}()
 
 	for itr.First(); itr.Valid(); itr.Next() {
 		if err := writer.Set(itr.Key(), itr.Value()); err != nil {
@@ -558,7 +566,9 @@ func iteratorToSST(itr Iterator, path string) error {
 
 		// Replace the old writer with new writer after the old writer reaches it's capacity.
 		if writer.EstimatedSize() > exportFileSize {
-			if err := writer.Close(); err != nil {
+			err := writer.Close()
+			writer = nil
+			if err != nil {
 				return err
 			}
 			currentFileID++
@@ -569,7 +579,13 @@ func iteratorToSST(itr Iterator, path string) error {
 			writer = sstable.NewWriter(objstorageprovider.NewFileWritable(file), opts)
 		}
 	}
-	return writer.Close()
+	if err := itr.Error(); err != nil {
+		return err
+	}
+
+	err = writer.Close()
+	writer = nil
+	return err
 }
 
 func pebbleWriteOptions(opt WriteOptions) *pebble.WriteOptions {
-- 
2.43.0


From 794d1e7e8f292769c2d9cbb09015e488ac0084d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 31/48] fix: look up the indexes to dump in the dump's snapshot

An index emptied between the snapshot and the look-up was left out of the dump
while its rows were not, and a failed look-up was ignored.
---
 bond.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bond.go b/bond.go
index 491666b..8a0ee96 100644
--- a/bond.go
+++ b/bond.go
@@ -425,7 +425,14 @@ func (db *_db) Dump(_ context.Context, path string, tables []TableID, withIndex
 			continue
 		}
 		// write all the index data to sst file.
-		indexes := db.getIndexIDS(tableID)
+		itr, err = snapshot.NewIter(nil)
+		if err != nil {
+			return err
+		}
+		indexes, err := tableIndexIDs(itr, tableID)
+		if err != nil {
+			return err
+		}
 		for _, index := range indexes {
 			indexPath := filepath.Join(path, fmt.Sprintf("table_%d_index_%d", tableID, index))
 			if err := os.Mkdir(indexPath, 0755); err != nil {
@@ -515,10 +522,15 @@ func (db *_db) Restore(_ context.Context, path string, tables []TableID, withInd
 }
 
 func (db *_db) getIndexIDS(tableID TableID) []IndexID {
+	indexIDS, _ := tableIndexIDs(db.Iter(&IterOptions{}), tableID)
+	return indexIDS
+}
+
+// tableIndexIDs returns the indexes the table has entries in, and closes itr.
+func tableIndexIDs(itr Iterator, tableID TableID) ([]IndexID, error) {
 	prefix := []byte{byte(tableID), 1}
 	indexIDS := []IndexID{}
 
-	itr := db.Iter(&IterOptions{})
 	defer itr.Close()
 
 	for {
@@ -536,7 +548,7 @@ func (db *_db) getIndexIDS(tableID TableID) []IndexID {
 		}
 		prefix[1] = indexID + 1
 	}
-	return indexIDS
+	return indexIDS, itr.Error()
 }
 
 // write all the key/value of iterator to the SST file.
-- 
2.43.0


From 5613633e3ecc763cc9a719d3c29c2e3b82c70679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 32/48] fix: do not overwrite a database version that cannot be
 read

A failed read and an unknown format were taken for a database without version.
---
 bond.go    | 10 +++++++---
 version.go | 19 ++++++++++++++++---
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/bond.go b/bond.go
index 8a0ee96..d4a810b 100644
--- a/bond.go
+++ b/bond.go
@@ -227,12 +227,16 @@ func Open(dirname string, opts *Options) (DB, error) {
 		}, DefaultNumberOfPreAllocBytesArrays),
 	}
 
-	if db.Version() == 0 {
+	dataVersion, err := db.readVersion()
+	if err != nil {
+		return nil, err
+	}
+	if dataVersion == 0 {
 		if err := db.initVersion(); err != nil {
 			return nil, err
 		}
-	} else if db.Version() != BOND_DB_DATA_VERSION {
-		return nil, fmt.Errorf("bond db version is %d but expecting %d", db.Version(), BOND_DB_DATA_VERSION)
+	} else if dataVersion != BOND_DB_DATA_VERSION {
+		return nil, fmt.Errorf("bond db version is %d but expecting %d", dataVersion, BOND_DB_DATA_VERSION)
 	}
 
 	opened = true
diff --git a/version.go b/version.go
index f8f4db1..976910d 100644
--- a/version.go
+++ b/version.go
@@ -1,6 +1,7 @@
 package bond
 
 import (
+	"errors"
 	"fmt"
 	"strconv"
 
@@ -13,14 +14,26 @@ const (
 )
 
 func (db *_db) Version() int {
+	ver, _ := db.readVersion()
+	return ver
+}
+
+// readVersion returns the recorded version, 0 if none is recorded.
+func (db *_db) readVersion() (int, error) {
 	value, closer, err := db.pebble.Get(bondDataVersionKey())
+	if errors.Is(err, pebble.ErrNotFound) {
+		return 0, nil
+	}
 	if err != nil {
-		return 0
+		return 0, err
 	}
 	defer func() { _ = closer.Close() }()
 
-	ver, _ := strconv.ParseInt(string(value), 10, 32)
-	return int(ver)
+	ver, err := strconv.ParseInt(string(value), 10, 32)
+	if err != nil {
+		return 0, fmt.Errorf("invalid bond db version: %w", err)
+	}
+	return int(ver), nil
 }
 
 func (db *_db) initVersion() error {
-- 
2.43.0


From 942573e3b98fe66dbde17ba36f8fb5da9148ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:41 +0000
Subject: [PATCH 33/48] fix: replace the pebble format version file atomically

A crash between truncating and writing it left a database that Open and
PebbleFormatVersion refuse.
---
 bond.go | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/bond.go b/bond.go
index d4a810b..c2b70d4 100644
--- a/bond.go
+++ b/bond.go
@@ -172,9 +172,8 @@ func Open(dirname string, opts *Options) (DB, error) {
 	if err != nil && os.IsNotExist(err) {
 		// create version for to check invariant in the
 		// next open.
-		if err := os.WriteFile(pebbelVersionPath,
-			[]byte(fmt.Sprintf("%d", opts.PebbleOptions.FormatMajorVersion)),
-			os.ModePerm); err != nil {
+		if err := writePebbleFormatVersion(pebbelVersionPath,
+			uint64(opts.PebbleOptions.FormatMajorVersion)); err != nil {
 			return nil, err
 		}
 	} else {
@@ -644,12 +643,27 @@ func MigratePebbleFormatVersion(dir string, upgradeVersion uint64) error {
 	}
 	defer db.Close()
 
-	versionFile, err := os.OpenFile(filepath.Join(dir, "bond", PebbleFormatFile), os.O_RDWR|os.O_CREATE|os.O_TRUNC, os.ModePerm)
+	return writePebbleFormatVersion(filepath.Join(dir, "bond", PebbleFormatFile), upgradeVersion)
+}
+
+// writePebbleFormatVersion replaces the version file in one step, so that a
+// crash leaves the previous version or the new one, never a partial file.
+func writePebbleFormatVersion(path string, version uint64) error {
+	tmpPath := path + ".tmp"
+	file, err := os.OpenFile(tmpPath, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, os.ModePerm)
 	if err != nil {
 		return err
 	}
 
-	defer versionFile.Close()
-	_, err = versionFile.Write([]byte(fmt.Sprintf("%d", upgradeVersion)))
-	return err
+	_, err = file.Write([]byte(fmt.Sprintf("%d", version)))
+	if err == nil {
+		err = file.Sync()
+	}
+	if closeErr := file.Close(); err == nil {
+		err = closeErr
+	}
+	if err != nil {
+		return err
+	}
+	return os.Rename(tmpPath, path)
 }
-- 
2.43.0


From 432b8d248708e6311f89ddfa8fad282ed8419a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 34/48] fix: lock the bloom filter's bucket while adding to it

Concurrent additions to a bucket lost bits: the filter denied stored keys.
---
 bloom/bloom_filter.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 9993299..a5dd0b6 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -81,13 +81,21 @@ func (b *BloomFilter) Add(_ context.Context, key []byte) {
 	defer b.mutex.RUnlock()
 
 	bucket := b.buckets[b.hash(key)]
+	bucket.mutex.Lock()
+	defer bucket.mutex.Unlock()
+
 	bucket.hasChanges = !bucket.filter.TestOrAdd(key) || bucket.hasChanges
 }
 
 func (b *BloomFilter) MayContain(_ context.Context, key []byte) bool {
 	b.mutex.RLock()
 	defer b.mutex.RUnlock()
-	return b.buckets[b.hash(key)].filter.Test(key)
+
+	bucket := b.buckets[b.hash(key)]
+	bucket.mutex.RLock()
+	defer bucket.mutex.RUnlock()
+
+	return bucket.filter.Test(key)
 }
 
 func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
-- 
2.43.0


From 9464899c227acf9ac926dc9c0dc3e67de9a0ff3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 35/48] fix: release what BloomFilter.Load reads, and reject a
 short bucket count

---
 bloom/bloom_filter.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index a5dd0b6..0e0738a 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -105,10 +105,12 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 	var keyBuff [1024]byte
 
 	bucketNum, bucketNumCloser, err := store.Get(buildBucketNumKey(keyBuff[:0], b.keyPrefix))
-	if err != nil || (err == nil && binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets)) {
-		if err == nil {
-			_ = bucketNumCloser.Close()
-		}
+	if err != nil {
+		return fmt.Errorf("configuration changed")
+	}
+	defer bucketNumCloser.Close()
+
+	if len(bucketNum) != 8 || binary.BigEndian.Uint64(bucketNum) != uint64(b.numOfBuckets) {
 		return fmt.Errorf("configuration changed")
 	}
 
@@ -121,17 +123,17 @@ func (b *BloomFilter) Load(_ context.Context, store bond.FilterStorer) error {
 		filter := bloom.New(0, 0)
 		zr, err := zstd.NewReader(bytes.NewBuffer(data))
 		if err != nil {
+			_ = closer.Close()
 			return err
 		}
 
 		_, err = filter.ReadFrom(zr)
+		zr.Close()
+		_ = closer.Close()
 		if err != nil {
 			return err
 		}
 
-		zr.Close()
-		_ = closer.Close()
-
 		err = bucket.filter.Merge(filter)
 		if err != nil {
 			return fmt.Errorf("configuration changed: %w", err)
-- 
2.43.0


From 0edc3a931c4bd265efee6e728be2030239733b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 36/48] fix: empty the msgpack serializers' pooled buffers
 before use

A row was serialized behind the one the buffer was used for before.
---
 serializers/msgp.go     | 4 +++-
 serializers/msgp_gen.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/serializers/msgp.go b/serializers/msgp.go
index 0921dd7..fa0d73e 100644
--- a/serializers/msgp.go
+++ b/serializers/msgp.go
@@ -67,7 +67,9 @@ func (m *MsgpackSerializer) Deserialize(b []byte, i interface{}) error {
 
 func (m *MsgpackSerializer) getBuffer() bytes.Buffer {
 	if m.Buffer != nil {
-		return m.Buffer.Get()
+		buffer := m.Buffer.Get()
+		buffer.Reset()
+		return buffer
 	} else {
 		return bytes.Buffer{}
 	}
diff --git a/serializers/msgp_gen.go b/serializers/msgp_gen.go
index a7cca1d..068f01d 100644
--- a/serializers/msgp_gen.go
+++ b/serializers/msgp_gen.go
@@ -80,7 +80,9 @@ func (m *MsgpackGenSerializer) Deserialize(b []byte, i interface{}) error {
 
 func (m *MsgpackGenSerializer) getBuffer() bytes.Buffer {
 	if m.Buffer != nil {
-		return m.Buffer.Get()
+		buffer := m.Buffer.Get()
+		buffer.Reset()
+		return buffer
 	} else {
 		return bytes.Buffer{}
 	}
-- 
2.43.0


From afda82e7eee5228116cc77219d040bb4c4931d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 37/48] fix: cancel a remote inspect query with its context

---
 inspect/inspect_handler_client.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inspect/inspect_handler_client.go b/inspect/inspect_handler_client.go
index fb5db8c..3dc603b 100644
--- a/inspect/inspect_handler_client.go
+++ b/inspect/inspect_handler_client.go
@@ -150,6 +150,7 @@ func (i *inspectClient) Query(ctx context.Context, table string, index string, i
 	}
 
 	resp, err := i.client.R().
+		SetContext(ctx).
 		SetHeaders(i.headers).
 		SetBody(rqData).
 		Post(i.queryURL)
-- 
2.43.0


From 0261ca8380b9185465fea68e63bbc197336c3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 38/48] fix: do not panic on null and named types in inspect
 queries

---
 inspect/inspect.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index 65db218..da56970 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -113,6 +113,10 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 				fv := reflect.ValueOf(filterInterface)
 				if rowInterface, ok := row[filterField]; ok {
 					rv := reflect.ValueOf(rowInterface)
+					if !fv.IsValid() {
+						ret = false
+						break
+					}
 					if fv.Kind() != rv.Kind() {
 						if fv.CanConvert(rv.Type()) {
 							filterInterface = fv.Convert(rv.Type()).Interface()
@@ -216,7 +220,10 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 			vt := reflect.ValueOf(valueToSetInterface)
 			vv := val.FieldByName(fieldNameToSet)
 
-			if vt.Kind() != vv.Kind() {
+			if !vt.IsValid() {
+				return fmt.Errorf("field '%s' can not be null", fieldNameToSet)
+			}
+			if vt.Type() != vv.Type() {
 				if vt.CanConvert(vv.Type()) {
 					vt = vt.Convert(vv.Type())
 				} else {
-- 
2.43.0


From 57149250c87caec785a50d4e3a25558fd1ce432e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 39/48] fix: exit non-zero when a bond-cli command fails

---
 cmd/bond-cli/bond-cli.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmd/bond-cli/bond-cli.go b/cmd/bond-cli/bond-cli.go
index 39bf89a..148a2d3 100644
--- a/cmd/bond-cli/bond-cli.go
+++ b/cmd/bond-cli/bond-cli.go
@@ -21,5 +21,6 @@ func main() {
 
 	if err := app.Run(os.Args); err != nil {
 		_, _ = fmt.Fprintf(os.Stderr, "[Error] %s\n", err.Error())
+		os.Exit(1)
 	}
 }
-- 
2.43.0


From 725a19405d063494dd12ea5e2bab73ae3d2dc11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:12 +0000
Subject: [PATCH 40/48] fix: close the database after bond-cli dump and restore

---
 cmd/bond-cli/dump.go    | 2 ++
 cmd/bond-cli/restore.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 03c27f2..55719bc 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -46,6 +46,8 @@ func init() {
 			if err != nil {
 				return err
 			}
+			defer db.Close()
+
 			var tables []bond.TableID
 			for _, id := range ctx.IntSlice("tables") {
 				tables = append(tables, bond.TableID(id))
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 77283b9..67a6763 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -22,6 +22,8 @@ func init() {
 			if err != nil {
 				return err
 			}
+			defer db.Close()
+
 			var tables []bond.TableID
 			for _, id := range ctx.IntSlice("tables") {
 				tables = append(tables, bond.TableID(id))
-- 
2.43.0


From 552a9e8491c39468dcba2dcb017a7394d402689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 41/48] fix: look at the context before each prefetched row of
 a scan

---
 table.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/table.go b/table.go
index b3535e0..e278ae7 100644
--- a/table.go
+++ b/table.go
@@ -1226,6 +1226,13 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 
 		// iterate from prefetched entire if exists.
 		for prefetchedValuesIndex = 1; prefetchedValuesIndex < len(prefetchedValues); prefetchedValuesIndex++ {
+			select {
+			case <-ctx.Done():
+				_ = it.Close()
+				return fmt.Errorf("context done: %w", ctx.Err())
+			default:
+			}
+
 			cont, err = f(indexKeys[prefetchedValuesIndex], Lazy[T]{GetFunc: getPrefetchedValue})
 			if !cont || err != nil {
 				_ = it.Close()
-- 
2.43.0


From 4973c0cbf173ad8601a6c7121bfb499f600524bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:51 +0000
Subject: [PATCH 42/48] fix: keep a scan callback's key valid while its row is
 read

---
 table.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/table.go b/table.go
index e278ae7..f666b88 100644
--- a/table.go
+++ b/table.go
@@ -1148,10 +1148,12 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 	keys := t.db.getBytesArrayPool().Get()[:0]
 	indexKeys := t.db.getBytesArrayPool().Get()[:0]
 	multiKeyBuffer := t.db.getMultiKeyBufferPool().Get()[:0]
+	indexKeyBuffer := t.db.getKeyBufferPool().Get()[:0]
 	valuesBuffer := t.db.getValueArray(t.scanPrefetchSize)
 	defer t.db.getBytesArrayPool().Put(keys[:0])
 	defer t.db.getBytesArrayPool().Put(indexKeys[:0])
 	defer t.db.getMultiKeyBufferPool().Put(multiKeyBuffer[:0])
+	defer t.db.getKeyBufferPool().Put(indexKeyBuffer[:0])
 	defer t.db.putValueArray(valuesBuffer)
 
 	var prefetchedValues [][]byte
@@ -1218,7 +1220,10 @@ func (t *_table[T]) scanForEachSecondaryIndex(ctx context.Context, idx *Index[T]
 		default:
 		}
 
-		cont, err := f(it.Key(), Lazy[T]{GetFunc: prefetchAndGetValue})
+		// the prefetch moves the iterator, which invalidates its key
+		indexKey := append(indexKeyBuffer[:0], it.Key()...)
+
+		cont, err := f(indexKey, Lazy[T]{GetFunc: prefetchAndGetValue})
 		if !cont || err != nil {
 			_ = it.Close()
 			return err
-- 
2.43.0


From d4171139ebea100a5b63dce1cedddc526eb2d23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:34 +0000
Subject: [PATCH 43/48] fix: start a scan of a table at its first row

---
 index.go    |  3 +++
 query.go    |  2 +-
 selector.go | 10 ++++++++++
 table.go    |  4 ++--
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/index.go b/index.go
index 8c2efe6..7390f65 100644
--- a/index.go
+++ b/index.go
@@ -187,6 +187,9 @@ func (idx *Index[T]) Iter(table Table[T], selector Selector[T], optBatch ...Batc
 		sel := selector.(SelectorPoint[T])
 
 		lowerBound := encodeIndexKey(table, sel.Point(), idx, keyBufferPool.Get()[:0])
+		if _, ok := selector.(*selectorAll[T]); ok {
+			lowerBound = lowerBound[:_KeyPrefixSplitIndex(lowerBound)]
+		}
 		upperBound := keySuccessor(lowerBound[0:_KeyPrefixSplitIndex(lowerBound)], keyBufferPool.Get()[:0])
 
 		releaseBuffers := func() {
diff --git a/query.go b/query.go
index d0acf9e..5f6c530 100644
--- a/query.go
+++ b/query.go
@@ -44,7 +44,7 @@ func newQuery[T any](t *_table[T], i *Index[T]) Query[T] {
 	return Query[T]{
 		table:         t,
 		index:         i,
-		indexSelector: NewSelectorPoint[T](utils.MakeNew[T]()),
+		indexSelector: newSelectorAll[T](utils.MakeNew[T]()),
 		afterSelector: utils.MakeNew[T](),
 		filterFunc:    nil,
 		orderLessFunc: nil,
diff --git a/selector.go b/selector.go
index f05fe5c..599a6e5 100644
--- a/selector.go
+++ b/selector.go
@@ -53,6 +53,16 @@ type selectorPoint[T any] struct {
 	point T
 }
 
+// selectorAll is a point selector that starts at the first row, whichever
+// way the rows compare to the zero value.
+type selectorAll[T any] struct {
+	selectorPoint[T]
+}
+
+func newSelectorAll[T any](point T) SelectorPoint[T] {
+	return &selectorAll[T]{selectorPoint[T]{point: point}}
+}
+
 // NewSelectorPoint creates a new point selector.
 func NewSelectorPoint[T any](point T) SelectorPoint[T] {
 	return &selectorPoint[T]{point: point}
diff --git a/table.go b/table.go
index f666b88..1c92dc8 100644
--- a/table.go
+++ b/table.go
@@ -1049,7 +1049,7 @@ func (t *_table[T]) Query() Query[T] {
 }
 
 func (t *_table[T]) Scan(ctx context.Context, tr *[]T, reverse bool, optBatch ...Batch) error {
-	return t.ScanIndex(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), tr, reverse, optBatch...)
+	return t.ScanIndex(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), tr, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], tr *[]T, reverse bool, optBatch ...Batch) error {
@@ -1064,7 +1064,7 @@ func (t *_table[T]) ScanIndex(ctx context.Context, i *Index[T], s Selector[T], t
 }
 
 func (t *_table[T]) ScanForEach(ctx context.Context, f func(keyBytes KeyBytes, l Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-	return t.ScanIndexForEach(ctx, t.primaryIndex, NewSelectorPoint(t.valueEmpty), f, reverse, optBatch...)
+	return t.ScanIndexForEach(ctx, t.primaryIndex, newSelectorAll(t.valueEmpty), f, reverse, optBatch...)
 }
 
 func (t *_table[T]) ScanIndexForEach(ctx context.Context, idx *Index[T], s Selector[T], f func(keyBytes KeyBytes, t Lazy[T]) (bool, error), reverse bool, optBatch ...Batch) error {
-- 
2.43.0


From e55c5039785696cc6d87609f6cdd7432ca2b1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:03 +0000
Subject: [PATCH 44/48] fix: inspect: query an index, or after an entry, of a
 table of struct values

The entries were made as pointers, and the reflective calls of SetPoint and
After panicked when the table's type is not a pointer.
---
 inspect/inspect.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index da56970..bb78f96 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -91,7 +91,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 
 	if indexInfo.Name() != bond.PrimaryIndexName {
 		indexValue := reflect.ValueOf(indexInfo)
-		indexSelectorValue := utils.MakeValue(tableInfo.EntryType())
+		indexSelectorValue := makeEntry(tableInfo.EntryType())
 		err = setFields(indexSelectorValue, indexSelector)
 		if err != nil {
 			return nil, err
@@ -148,7 +148,7 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 	}
 
 	if after != nil {
-		afterValue := utils.MakeValue(tableInfo.EntryType())
+		afterValue := makeEntry(tableInfo.EntryType())
 		err = setFields(afterValue, after)
 		if err != nil {
 			return nil, err
@@ -209,6 +209,14 @@ func (in *inspect) findTableAndIndexInfo(table string, index string) (bond.Table
 	return tableInfo, indexInfo, nil
 }
 
+// makeEntry makes a new entry of the type, whose fields can be set.
+func makeEntry(entryType reflect.Type) reflect.Value {
+	if entryType.Kind() == reflect.Ptr {
+		return utils.MakeValue(entryType)
+	}
+	return reflect.New(entryType).Elem()
+}
+
 func setFields(val reflect.Value, toSet map[string]interface{}) error {
 	if val.Kind() == reflect.Ptr {
 		val = val.Elem()
-- 
2.43.0


From fbd77d34e38288ba96fcd19d57e7401258bef977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:12 +0000
Subject: [PATCH 45/48] fix: inspect: convert values of filters and entries
 exactly

A filter of 1.5 matched the integer 1, 300 the uint8 44 and -1 the largest
uint64, an integer was taken for the code of a character, and a field of a
named type never matched a value of its underlying type.
---
 inspect/inspect.go | 51 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 15 deletions(-)

diff --git a/inspect/inspect.go b/inspect/inspect.go
index bb78f96..ce8ee89 100644
--- a/inspect/inspect.go
+++ b/inspect/inspect.go
@@ -113,18 +113,16 @@ func (in *inspect) Query(ctx context.Context, table string, index string, indexS
 				fv := reflect.ValueOf(filterInterface)
 				if rowInterface, ok := row[filterField]; ok {
 					rv := reflect.ValueOf(rowInterface)
-					if !fv.IsValid() {
+					if !fv.IsValid() || !rv.IsValid() {
 						ret = false
 						break
 					}
-					if fv.Kind() != rv.Kind() {
-						if fv.CanConvert(rv.Type()) {
-							filterInterface = fv.Convert(rv.Type()).Interface()
-						} else {
-							ret = false
-							break
-						}
+					fv, ok = convert(fv, rv.Type())
+					if !ok {
+						ret = false
+						break
 					}
+					filterInterface = fv.Interface()
 
 					if !reflect.DeepEqual(filterInterface, rowInterface) {
 						ret = false
@@ -224,19 +222,17 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 
 	for fieldNameToSet, valueToSetInterface := range toSet {
 		fields := structs.Map(val.Interface())
-		if _, ok := fields[fieldNameToSet]; ok {
+		_, ok := fields[fieldNameToSet]
+		if ok {
 			vt := reflect.ValueOf(valueToSetInterface)
 			vv := val.FieldByName(fieldNameToSet)
 
 			if !vt.IsValid() {
 				return fmt.Errorf("field '%s' can not be null", fieldNameToSet)
 			}
-			if vt.Type() != vv.Type() {
-				if vt.CanConvert(vv.Type()) {
-					vt = vt.Convert(vv.Type())
-				} else {
-					return fmt.Errorf("field type mismatch %s != %s", vt.Kind().String(), vv.Kind().String())
-				}
+			vt, ok = convert(vt, vv.Type())
+			if !ok {
+				return fmt.Errorf("field type mismatch %v != %s", valueToSetInterface, vv.Kind().String())
 			}
 
 			vv.Set(vt)
@@ -247,3 +243,28 @@ func setFields(val reflect.Value, toSet map[string]interface{}) error {
 
 	return nil
 }
+
+// convert converts the value to the type, if the type can represent it: an
+// integer neither overflows nor loses a fraction, and it is not taken for the
+// code of a character.
+func convert(v reflect.Value, typ reflect.Type) (reflect.Value, bool) {
+	if v.Type() == typ {
+		return v, true
+	}
+	if !v.CanConvert(typ) {
+		return v, false
+	}
+
+	converted := v.Convert(typ)
+	if v.CanFloat() && converted.CanFloat() {
+		return converted, true
+	}
+	if v.CanInt() && v.Int() < 0 && converted.CanUint() ||
+		v.CanUint() && converted.CanInt() && converted.Int() < 0 {
+		return v, false
+	}
+	if !converted.CanConvert(v.Type()) {
+		return v, false
+	}
+	return converted, reflect.DeepEqual(converted.Convert(v.Type()).Interface(), v.Interface())
+}
-- 
2.43.0


From 3be9b1b22b5d15b6f74f6980aae25d463d41b338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 46/48] fix: FilterFSStorer.DeleteRange deleted what is behind
 the range's end

It took every file from start on, files of other filters included, and gave
up at the first directory.
---
 filters/filter_fs_storer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/filters/filter_fs_storer.go b/filters/filter_fs_storer.go
index ca8f547..26e843b 100644
--- a/filters/filter_fs_storer.go
+++ b/filters/filter_fs_storer.go
@@ -43,9 +43,26 @@ func (f *FilterFSStorer) Set(key []byte, value []byte, opt bond.WriteOptions, ba
 func (f *FilterFSStorer) DeleteRange(start []byte, end []byte, opt bond.WriteOptions, batch ...bond.Batch) error {
 	startFile := []byte(f.prepareFilePath("", string(start)))
 
+	// the character that ends the range may be one that file names do not have,
+	// such as the one behind '_' or 'z': it is compared as given
+	same := 0
+	for same < len(start) && same < len(end) && start[same] == end[same] {
+		same++
+	}
+	endFile := append([]byte(f.prepareFilePath("", string(end[:same]))), end[same:]...)
+
 	dirFS := os.DirFS(f.path)
 	err := fs.WalkDir(dirFS, ".", func(filePath string, d fs.DirEntry, err error) error {
-		if bytes.Compare([]byte(filePath), startFile) >= 0 {
+		if err != nil {
+			return err
+		}
+		if d.IsDir() {
+			if filePath == "." {
+				return nil
+			}
+			return fs.SkipDir
+		}
+		if bytes.Compare([]byte(filePath), startFile) >= 0 && bytes.Compare([]byte(filePath), endFile) < 0 {
 			return os.Remove(path.Join(f.path, filePath))
 		}
 		return nil
-- 
2.43.0


From 07e32a5c224dbbaf4c86abb2670e36b91df3677b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 47/48] fix: BloomFilter.Clear removed nothing for key prefixes
 that end in 0xff

The last byte of the end wrapped around; an empty prefix panicked.
---
 bloom/bloom_filter.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bloom/bloom_filter.go b/bloom/bloom_filter.go
index 0e0738a..dd6f3ba 100644
--- a/bloom/bloom_filter.go
+++ b/bloom/bloom_filter.go
@@ -197,9 +197,10 @@ func (b *BloomFilter) Save(_ context.Context, store bond.FilterStorer) error {
 }
 
 func (b *BloomFilter) Clear(_ context.Context, store bond.FilterStorer) error {
-	end := make([]byte, len(b.keyPrefix))
+	// a number or "bn" follows the prefix
+	end := make([]byte, len(b.keyPrefix)+1)
 	copy(end, b.keyPrefix)
-	end[len(end)-1]++
+	end[len(end)-1] = 0xff
 	return store.DeleteRange(b.keyPrefix, end, bond.Sync)
 }
 
-- 
2.43.0


From e112d77bbfbdcbbf2eb45c426a36bb0c42ffb88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:49 +0000
Subject: [PATCH 48/48] fix: bond-cli: ids of tables outside of 0 to 255 named
 other tables

dump --tables 256 exported the table 0.
---
 cmd/bond-cli/dump.go    | 24 ++++++++++++++++++++----
 cmd/bond-cli/restore.go |  9 +++++----
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/cmd/bond-cli/dump.go b/cmd/bond-cli/dump.go
index 55719bc..a43322a 100644
--- a/cmd/bond-cli/dump.go
+++ b/cmd/bond-cli/dump.go
@@ -1,6 +1,9 @@
 package main
 
 import (
+	"fmt"
+	"math"
+
 	"github.com/go-bond/bond"
 	"github.com/urfave/cli/v2"
 )
@@ -42,17 +45,30 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
+			tables, err := tableIDs(ctx.IntSlice("tables"))
+			if err != nil {
+				return err
+			}
+
 			db, err := bond.Open(ctx.String("bond-dir"), nil)
 			if err != nil {
 				return err
 			}
 			defer db.Close()
 
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
-			}
 			return db.Dump(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
 	}
 }
+
+// tableIDs converts the ids given on the command line.
+func tableIDs(ids []int) ([]bond.TableID, error) {
+	var tables []bond.TableID
+	for _, id := range ids {
+		if id < 0 || id > math.MaxUint8 {
+			return nil, fmt.Errorf("invalid table id: %d", id)
+		}
+		tables = append(tables, bond.TableID(id))
+	}
+	return tables, nil
+}
diff --git a/cmd/bond-cli/restore.go b/cmd/bond-cli/restore.go
index 67a6763..8d62e79 100644
--- a/cmd/bond-cli/restore.go
+++ b/cmd/bond-cli/restore.go
@@ -18,16 +18,17 @@ func init() {
 			_FlagExportTables,
 		},
 		Action: func(ctx *cli.Context) error {
+			tables, err := tableIDs(ctx.IntSlice("tables"))
+			if err != nil {
+				return err
+			}
+
 			db, err := bond.Open(ctx.String("bond-dir"), nil)
 			if err != nil {
 				return err
 			}
 			defer db.Close()
 
-			var tables []bond.TableID
-			for _, id := range ctx.IntSlice("tables") {
-				tables = append(tables, bond.TableID(id))
-			}
 			return db.Restore(ctx.Context, ctx.String("dir"), tables, ctx.Bool("with-index"))
 		},
 	}
-- 
2.43.0

