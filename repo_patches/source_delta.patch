From 2490d2285eb87d83a091c5f82d5e35d127948a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:08 +0000
Subject: [PATCH 01/41] fix: hash: initialise the anchor tables of unused
 blocks too

InitConsistent left K, L and W zero for the blocks beyond the initial size, so
adding a block and removing another one corrupted the anchor and FindBlock
looped for ever.
---
 hash/consistent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hash/consistent.go b/hash/consistent.go
index fa3299f..c2a624b 100644
--- a/hash/consistent.go
+++ b/hash/consistent.go
@@ -41,7 +41,7 @@ func InitConsistent(blocks, used int) *Consistent {
 		R: make([]uint16, blocks-used, blocks),
 		N: uint16(used),
 	}
-	for b := uint16(0); b < uint16(used); b++ {
+	for b := uint16(0); b < uint16(blocks); b++ {
 		c.K[b], c.W[b], c.L[b] = b, b, b
 	}
 	for b, r := uint16(blocks)-1, 0; b >= uint16(used); b, r = b-1, r+1 {
-- 
2.43.0


From 396c7150c9d9d82c87eca6268deef942cf2fce7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:46 +0000
Subject: [PATCH 02/41] fix: window: never place a topic's block at offset 0,
 which means no block

The first window block was written at offset 0 and the next sync took offset 0
for 'no block yet' and started a new, unlinked block: messages synced earlier
were no longer found.
---
 time_window_writer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/time_window_writer.go b/time_window_writer.go
index d836dc0..99015ad 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -35,7 +35,8 @@ type _WindowWriter struct {
 }
 
 func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
-	w := &_WindowWriter{windowIdx: -1, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
+	// The first window block is not used, so that the offset zero always means that a topic has no block.
+	w := &_WindowWriter{windowIdx: 0, winBlocks: make(map[int32]_WinBlock), winLeases: make(map[int32][]uint64), fs: fs, buffer: buf}
 	winFile, err := fs.getFile(_FileDesc{fileType: typeTimeWindow})
 	if err != nil {
 		return nil, err
@@ -43,7 +44,7 @@ func newWindowWriter(fs *_FileSet, buf *bpool.Buffer) (*_WindowWriter, error) {
 	w.winFile = winFile
 	w.offset = winFile.currSize()
 	if w.offset > 0 {
-		w.windowIdx = int32(w.offset / int64(blockSize))
+		w.windowIdx = int32((w.offset - 1) / int64(blockSize))
 	}
 
 	return w, nil
-- 
2.43.0


From 6baff4e22009462bb3165943aaefb870cb942535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:23 +0000
Subject: [PATCH 03/41] fix: memdb: keep a block for the current time when
 recovered entries of that time are freed

---
 memdb/db_internal.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index c86d10f..2edc918 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -327,9 +327,15 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 		}
 	}
 
+	current := timeID == db.timeID()
+
 	db.mu.Lock()
 	defer db.mu.Unlock()
 	delete(db.timeBlocks, _TimeID(timeID))
+	if current {
+		// entries recovered from the WAL can share the time ID of the current log, it still needs a block.
+		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
+	}
 	db.internal.timeMark.timeUnref(timeID)
 
 	db.internal.buffer.Put(block.data)
-- 
2.43.0


From 457cdfbbeb30a2eb0e4602f3a2a6f5684da64895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:23 +0000
Subject: [PATCH 04/41] fix: db: on open, take the newest window block of a
 topic as its first one

---
 db_internal.go        | 4 ++++
 time_window_reader.go | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/db_internal.go b/db_internal.go
index 8b59f82..0ebf80b 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -168,6 +168,10 @@ func (db *DB) close() error {
 func (db *DB) loadTrie() error {
 	r := newWindowReader(db.fs)
 	err := r.blockIterator(func(startSeq, topicHash uint64, off int64) (bool, error) {
+		// blocks of a topic are linked from its most recent block, that is the last one in the file.
+		if ok := db.internal.trie.setOffset(newTopic(topicHash, off)); ok {
+			return false, nil
+		}
 		e, err := db.internal.reader.readEntry(startSeq)
 		if err != nil {
 			return true, err
diff --git a/time_window_reader.go b/time_window_reader.go
index cfe3ca2..c5c2823 100644
--- a/time_window_reader.go
+++ b/time_window_reader.go
@@ -68,7 +68,7 @@ func (r *_WindowReader) blockIterator(f func(startSeq, topicHash uint64, off int
 			return err
 		}
 		windowIdx++
-		if b.entryIdx == 0 || b.next != 0 {
+		if b.entryIdx == 0 {
 			continue
 		}
 		// fmt.Println("timeWindow.blockIterator: topicHash, seq ", b.topicHash, b.entries[0].sequence)
-- 
2.43.0


From 92a71ab5b4179cbf8f0966d546e7283ceb784e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:04 +0000
Subject: [PATCH 05/41] fix: recovery: continue the sequence after the entries
 recovered from the log

---
 recovery.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/recovery.go b/recovery.go
index 1da08d5..ad8b26f 100644
--- a/recovery.go
+++ b/recovery.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"sort"
+	"sync/atomic"
 
 	"github.com/unit-io/unitdb/message"
 	// _ "net/http/pprof"
@@ -50,6 +51,12 @@ func (db *_SyncHandle) startRecovery() error {
 		db.internal.closeW.Done()
 	}()
 	fmt.Println("db.recoverLog: start recovery")
+	// sequence is persisted on sync, entries in the log can be ahead of it.
+	for _, seq := range db.internal.mem.Keys() {
+		if seq > db.seq() {
+			atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)
+		}
+	}
 	if ok := db.startSync(); !ok {
 		return nil
 	}
-- 
2.43.0


From 58a3b03129e2e4ac5748be1ce51c6244844c7a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:13 +0000
Subject: [PATCH 06/41] fix: recovery: do not add entries to the window file
 twice after a crash during sync

---
 recovery.go    | 28 ++++++++++++++++++++++++++++
 time_window.go |  9 +++++++++
 2 files changed, 37 insertions(+)

diff --git a/recovery.go b/recovery.go
index ad8b26f..03c44ce 100644
--- a/recovery.go
+++ b/recovery.go
@@ -26,12 +26,40 @@ import (
 	// _ "net/http/pprof"
 )
 
+// pendingWindowEntries leaves out entries that are in the window blocks of the topic already,
+// window blocks are written ahead of the index and data so a crash can leave those behind.
+func (db *_SyncHandle) pendingWindowEntries(topicHash uint64, off int64, wEntries _WindowEntries) _WindowEntries {
+	for off != 0 && len(wEntries) != 0 {
+		r := _WindowReader{winFile: db.windowWriter.winFile, offset: off}
+		b, err := r.readWindowBlock()
+		if err != nil || b.topicHash != topicHash {
+			break
+		}
+		var pending _WindowEntries
+		for _, we := range wEntries {
+			if !b.contains(we.sequence) {
+				pending = append(pending, we)
+			}
+		}
+		if len(pending) == len(wEntries) {
+			break
+		}
+		wEntries = pending
+		off = b.next
+	}
+	return wEntries
+}
+
 func (db *_SyncHandle) recoverWindowBlocks(windowEntries map[uint64]_WindowEntries) error {
 	for h, wEntries := range windowEntries {
 		topicOff, ok := db.internal.trie.getOffset(h)
 		if !ok {
 			return fmt.Errorf("recovery.recoverWindowBlocks: timeWindow sync error, unable to get topic offset from trie %d", h)
 		}
+		wEntries = db.pendingWindowEntries(h, topicOff, wEntries)
+		if len(wEntries) == 0 {
+			continue
+		}
 		wOff, err := db.windowWriter.append(h, topicOff, wEntries)
 		if err != nil {
 			return err
diff --git a/time_window.go b/time_window.go
index a7eeb4c..72a8466 100644
--- a/time_window.go
+++ b/time_window.go
@@ -64,6 +64,15 @@ func (e _WinEntry) isExpired() bool {
 	return e.expiresAt != 0 && e.expiresAt <= uint32(time.Now().Unix())
 }
 
+func (b *_WinBlock) contains(seq uint64) bool {
+	for i := 0; i < int(b.entryIdx); i++ {
+		if b.entries[i].sequence == seq {
+			return true
+		}
+	}
+	return false
+}
+
 func (b _WinBlock) cutoff(cutoff int64) bool {
 	return b.cutoffTime != 0 && b.cutoffTime < cutoff
 }
-- 
2.43.0


From 833f4622679510a1d966548c6e455cb030761d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 07/41] fix: file: flush the database files on sync, it flushed
 none of them

---
 db_sync.go |  2 +-
 file.go    | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/db_sync.go b/db_sync.go
index 8515c7f..dd2ef2a 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -166,7 +166,7 @@ func (db *DB) sync() error {
 		return err
 	}
 	if err := db.fs.sync(); err != nil {
-		return nil
+		return err
 	}
 
 	return nil
diff --git a/file.go b/file.go
index 3dc7103..7cf6b8b 100644
--- a/file.go
+++ b/file.go
@@ -230,9 +230,11 @@ func (fs *_FileSet) getFile(fd _FileDesc) (*_File, error) {
 func (fs *_FileSet) sync() error {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
-	for _, f := range fs.fileMap {
-		if err := f.Sync(); err != nil {
-			return err
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			if err := f.Sync(); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
@@ -242,8 +244,10 @@ func (fs *_FileSet) size() (int64, error) {
 	fs.mu.RLock()
 	defer fs.mu.RUnlock()
 	size := int64(0)
-	for _, f := range fs.fileMap {
-		size += f.currSize()
+	for _, files := range fs.list {
+		for _, f := range files.fileMap {
+			size += f.currSize()
+		}
 	}
 	return size, nil
 }
-- 
2.43.0


From 7e9666dd20e46bd60e8d16de3889e73ef2b8df72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:54 +0000
Subject: [PATCH 08/41] fix: memdb: do not read entries from a time block that
 is released and its buffer reused

---
 memdb/db.go          | 78 +++++---------------------------------------
 memdb/db_internal.go | 47 ++++++++------------------
 memdb/query.go       | 26 ---------------
 3 files changed, 23 insertions(+), 128 deletions(-)
 delete mode 100644 memdb/query.go

diff --git a/memdb/db.go b/memdb/db.go
index 3bffcce..2d01c7f 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -97,9 +97,6 @@ func Open(opts ...Options) (*DB, error) {
 		}
 	}
 
-	// Query manager
-	db.newQueryManager()
-
 	// Log Manager
 	db.newLogManager(&_TinyLogOptions{poolCapacity: nPoolSize, writeInterval: options.logInterval, blockDuration: options.timeBlockDuration})
 
@@ -181,78 +178,21 @@ func (db *DB) Get(key uint64) ([]byte, error) {
 		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	blockKey := db.blockKey(key)
-	db.mu.RUnlock()
-
-	// first execute query plan
-	if len(db.internal.queryManager.timeFilters[blockKey].timeRecords) == 0 {
-		if err := db.seek(key, 0); err != nil {
-			return nil, err
-		}
-	}
-
-	// Lookup key first for the current timeRecord.
-	block, ok := db.internal.queryManager.timeBlocks[db.internal.queryManager.timeRcord]
-	if ok {
-		block.RLock()
-		off, ok := block.records[iKey(false, key)]
-		block.RUnlock()
-		if ok {
-			block.RLock()
-			defer block.RUnlock()
-
-			db.internal.meter.Gets.Inc(1)
-
-			return block.get(off)
-		}
+	block, err := db.seek(key)
+	if err != nil {
+		return nil, err
 	}
 
-	db.mu.RLock()
-	// Get time block
-	r, ok := db.internal.queryManager.timeFilters[blockKey]
-	db.mu.RUnlock()
+	block.RLock()
+	defer block.RUnlock()
+	off, ok := block.records[iKey(false, key)]
 	if !ok {
+		// block is released or entry is deleted.
 		return nil, errEntryDoesNotExist
 	}
+	db.internal.meter.Gets.Inc(1)
 
-	var timeIDs []_TimeID
-	r.RLock()
-	for timeID := range r.timeRecords {
-		timeIDs = append(timeIDs, timeID)
-	}
-	r.RUnlock()
-	sort.Slice(timeIDs[:], func(i, j int) bool {
-		return timeIDs[i] > timeIDs[j]
-	})
-	for _, timeID := range timeIDs {
-		block, ok := db.internal.queryManager.timeBlocks[timeID]
-		if ok {
-			block.RLock()
-			off, ok := block.records[iKey(false, key)]
-			block.RUnlock()
-			if ok {
-				block.RLock()
-				defer block.RUnlock()
-				db.internal.meter.Gets.Inc(1)
-				db.internal.queryManager.timeRcord = timeID
-
-				return block.get(off)
-			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				break
-			}
-		}
-	}
-
-	// reset timeBlock and start over
-	db.internal.queryManager.timeFilters[blockKey] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-
-	return db.Get(key)
+	return block.get(off)
 }
 
 // BlockIterator iterates all time blocks from DB committed to the WAL.
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 2edc918..09ff3b2 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -73,9 +73,6 @@ type _DB struct {
 	// Write ahead log
 	wal *wal.WAL
 
-	// query
-	queryManager *_QueryManager
-
 	// close
 	closed uint32
 	closer io.Closer
@@ -172,28 +169,15 @@ func (db *DB) addTimeFilter(timeID _TimeID, key uint64) error {
 	return nil
 }
 
-func (db *DB) newQueryManager() {
-	queryManager := &_QueryManager{timeBlocks: make(map[_TimeID]*_Block), timeFilters: make(map[_BlockKey]*_TimeFilter)}
-	for i := 0; i < nBlocks; i++ {
-		queryManager.timeFilters[_BlockKey(i)] = &_TimeFilter{timeRecords: make(map[_TimeID]*filter.Block), filter: filter.NewFilterGenerator()}
-	}
-
-	db.internal.queryManager = queryManager
-}
-
-// seek finds timeRecords and timeBlock for the provided key and cutoff duration and caches those for query.
-func (db *DB) seek(key uint64, cutoff int64) error {
-	if err := db.ok(); err != nil {
-		return err
-	}
-
+// seek finds most recent timeBlock for the provided key.
+func (db *DB) seek(key uint64) (*_Block, error) {
 	db.mu.RLock()
 	// Get time block
 	blockKey := db.blockKey(key)
 	r, ok := db.timeFilters[blockKey]
 	db.mu.RUnlock()
 	if !ok {
-		return errEntryDoesNotExist
+		return nil, errEntryDoesNotExist
 	}
 
 	var timeIDs []_TimeID
@@ -214,26 +198,18 @@ func (db *DB) seek(key uint64, cutoff int64) error {
 			_, ok := block.records[iKey(false, key)]
 			block.RUnlock()
 			if ok {
-				b, ok := db.internal.queryManager.timeFilters[blockKey]
-				if ok {
-					b.timeRecords[timeID] = filter.NewFilterBlock(r.filter.Bytes())
-				}
-				db.internal.queryManager.timeBlocks[timeID] = block
-				if cutoff != 0 {
-					db.internal.queryManager.cutoff = _TimeID(cutoff)
-				}
-				return nil
+				return block, nil
 			}
 			r.RLock()
 			fltr := r.timeRecords[timeID]
 			r.RUnlock()
 			if !fltr.Test(key) {
-				return errEntryDoesNotExist
+				return nil, errEntryDoesNotExist
 			}
 		}
 	}
 
-	return errEntryDoesNotExist
+	return nil, errEntryDoesNotExist
 }
 
 // move moves the entry to the new block
@@ -320,8 +296,9 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	}
 
 	block.RLock()
-	defer block.RUnlock()
-	for _, timeRef := range block.timeRefs {
+	timeRefs := block.timeRefs
+	block.RUnlock()
+	for _, timeRef := range timeRefs {
 		if err := db.internal.wal.SignalLogApplied(int64(timeRef)); err != nil {
 			return err
 		}
@@ -330,14 +307,18 @@ func (db *DB) releaseLog(timeID _TimeID) error {
 	current := timeID == db.timeID()
 
 	db.mu.Lock()
-	defer db.mu.Unlock()
 	delete(db.timeBlocks, _TimeID(timeID))
 	if current {
 		// entries recovered from the WAL can share the time ID of the current log, it still needs a block.
 		db.timeBlocks[timeID] = &_Block{data: db.internal.buffer.Get(), records: make(map[_Key]int64)}
 	}
 	db.internal.timeMark.timeUnref(timeID)
+	db.mu.Unlock()
 
+	// the buffer is reused, a reader that still has the block must not find an entry in it.
+	block.Lock()
+	defer block.Unlock()
+	block.records = make(map[_Key]int64)
 	db.internal.buffer.Put(block.data)
 
 	return nil
diff --git a/memdb/query.go b/memdb/query.go
deleted file mode 100644
index 9538895..0000000
--- a/memdb/query.go
+++ /dev/null
@@ -1,26 +0,0 @@
-/*
- * Copyright 2020 Saffat Technologies, Ltd.
- *
- * Licensed under the Apache License, Version 2.0 (the "License");
- * you may not use this file except in compliance with the License.
- * You may obtain a copy of the License at
- *
- *     http://www.apache.org/licenses/LICENSE-2.0
- *
- * Unless required by applicable law or agreed to in writing, software
- * distributed under the License is distributed on an "AS IS" BASIS,
- * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
- * See the License for the specific language governing permissions and
- * limitations under the License.
- */
-
-package memdb
-
-type _QueryManager struct {
-	timeRcord   _TimeID
-	timeFilters map[_BlockKey]*_TimeFilter
-	timeBlocks  _TimeBlocks
-
-	cutoff _TimeID
-	limit  int
-}
-- 
2.43.0


From 8c496aaf09ad3bc94d9104a0b7b8ea3200b13aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:27 +0000
Subject: [PATCH 09/41] fix: delete: make a delete permanent and keep the other
 messages of the topic readable

A delete of a synced message only changed a copy of its index block and freed
offset -1. A delete of a message that is not synced yet left its window entry
behind, which made Get of the topic fail, freed offset 0 and decreased the count.
The topic was stored with its first message only, so the topic was lost with it.
---
 block.go        |  6 ++++++
 block_reader.go |  5 +++--
 block_writer.go | 18 ++++++++++++++----
 db.go           |  4 ++++
 db_internal.go  | 29 ++++++++++++++++++++++-------
 entry.go        |  1 +
 time_window.go  | 19 +++++++++++++++++++
 7 files changed, 69 insertions(+), 13 deletions(-)

diff --git a/block.go b/block.go
index 4946422..abab503 100644
--- a/block.go
+++ b/block.go
@@ -59,6 +59,12 @@ func (e _IndexEntry) mSize() uint32 {
 	return idSize + uint32(e.topicSize) + e.valueSize
 }
 
+// isDeleted tells whether an entry is deleted. Message offset of deleted entry is negated (bitwise),
+// as message with the topic is still needed to load the topic from disk.
+func (e _IndexEntry) isDeleted() bool {
+	return e.msgOffset < 0
+}
+
 func (b _IndexBlock) validation(blockIdx int32) error {
 	bIdx := blockIndex(b.entries[0].seq)
 	if bIdx != blockIdx {
diff --git a/block_reader.go b/block_reader.go
index aa9085c..cc14e85 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -64,8 +64,9 @@ func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	for i := 0; i < entriesPerIndexBlock; i++ {
 		e := b.entries[i]
 		if e.seq == seq { //topic exist in db
-			if e.msgOffset == -1 {
-				return _IndexEntry{}, errMsgIDDeleted
+			if e.isDeleted() {
+				e.msgOffset = ^e.msgOffset
+				return e, errMsgIDDeleted
 			}
 			entryIdx = i
 			break
diff --git a/block_writer.go b/block_writer.go
index 8dd0d99..6a522b8 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -82,7 +82,7 @@ func (w *_BlockWriter) extend(upperSeq uint64) (int64, error) {
 func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 	var delEntry _IndexEntry
 	bIdx := blockIndex(seq)
-	if bIdx > w.blockIdx {
+	if bIdx >= w.blockIdx {
 		return delEntry, nil // no entry in db to delete
 	}
 	r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(bIdx)}
@@ -98,18 +98,28 @@ func (w *_BlockWriter) del(seq uint64) (_IndexEntry, error) {
 			break
 		}
 	}
-	if entryIdx == -1 {
+	if entryIdx == -1 || b.entries[entryIdx].isDeleted() {
 		return delEntry, nil // no entry in db to delete
 	}
 	delEntry = b.entries[entryIdx]
-	delEntry.msgOffset = -1
-	b.entries[entryIdx] = delEntry
+	b.entries[entryIdx].msgOffset = ^delEntry.msgOffset
 	b.dirty = true
 	w.indexBlocks[bIdx] = b
 
 	return delEntry, nil
 }
 
+// writeBlock writes index block of the sequence.
+func (w *_BlockWriter) writeBlock(seq uint64) error {
+	bIdx := blockIndex(seq)
+	b, ok := w.indexBlocks[bIdx]
+	if !ok {
+		return errEntryInvalid
+	}
+	_, err := w.indexFile.WriteAt(b.marshalBinary(), blockOffset(bIdx))
+	return err
+}
+
 func (w *_BlockWriter) append(e _IndexEntry) (err error) {
 	var b _IndexBlock
 	var ok bool
diff --git a/db.go b/db.go
index 59bc810..7ff6cd2 100644
--- a/db.go
+++ b/db.go
@@ -397,6 +397,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
+	if err := db.ok(); err != nil {
+		return err
+	}
+
 	switch {
 	case db.opts.flags.immutable:
 		return errImmutable
diff --git a/db_internal.go b/db_internal.go
index 0ebf80b..c8731d7 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -173,7 +173,7 @@ func (db *DB) loadTrie() error {
 			return false, nil
 		}
 		e, err := db.internal.reader.readEntry(startSeq)
-		if err != nil {
+		if err != nil && err != errMsgIDDeleted {
 			return true, err
 		}
 		if e.topicSize == 0 {
@@ -272,13 +272,14 @@ func (db *DB) setEntry(e *Entry) error {
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
-		// topic is packed if it is new topic entry
-		if _, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok {
-			rawTopic = t.Marshal()
-			e.entry.topicSize = uint16(len(rawTopic))
-		}
+		e.entry.topic = t.Marshal()
 		e.entry.parsed = true
 	}
+	// topic is packed if it is new topic entry, earlier entries of the topic can be deleted before it is synced to disk.
+	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
+		rawTopic = e.entry.topic
+		e.entry.topicSize = uint16(len(rawTopic))
+	}
 	if e.ID != nil {
 		id = message.ID(e.ID)
 		seq = id.Sequence()
@@ -324,12 +325,18 @@ func (db *DB) delete(topicHash, seq uint64) error {
 
 	db.internal.meter.Dels.Inc(1)
 	db.internal.mem.Delete(seq)
+	db.internal.timeWindow.del(topicHash, seq)
 
 	// Test filter block for the message id presence.
 	if !db.internal.filter.Test(seq) {
 		return nil
 	}
 
+	// index block is written by sync too.
+	db.internal.syncLockC <- struct{}{}
+	defer func() {
+		<-db.internal.syncLockC
+	}()
 	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
 	if err != nil {
 		return err
@@ -338,7 +345,15 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	if err != nil {
 		return err
 	}
-	db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
+	if e.seq == 0 {
+		return nil // no entry in db to delete
+	}
+	if err := w.writeBlock(seq); err != nil {
+		return err
+	}
+	if e.topicSize == 0 {
+		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
+	}
 	db.decount(1)
 	if db.internal.syncWrites {
 		return db.sync()
diff --git a/entry.go b/entry.go
index 1eac420..82083d5 100644
--- a/entry.go
+++ b/entry.go
@@ -35,6 +35,7 @@ type (
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
 		parsed    bool
+		topic     []byte // raw topic, it is packed with the entry if topic is not on disk yet.
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
 	}
diff --git a/time_window.go b/time_window.go
index 72a8466..243eafd 100644
--- a/time_window.go
+++ b/time_window.go
@@ -194,6 +194,25 @@ func (tw *_TimeWindowBucket) add(timeID int64, topicHash uint64, e _WinEntry) (o
 	}
 	return true
 }
+
+// del deletes an entry that is not sync to DB yet.
+func (tw *_TimeWindowBucket) del(topicHash, seq uint64) {
+	b := tw.windowBlocks.getWindowBlock(topicHash)
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	for key, wEntries := range b.entries {
+		if key.topicHash != topicHash {
+			continue
+		}
+		for i, we := range wEntries {
+			if we.seq() == seq {
+				b.entries[key] = append(append(_WindowEntries{}, wEntries[:i]...), wEntries[i+1:]...)
+				return
+			}
+		}
+	}
+}
+
 func (tw *_TimeWindowBucket) release() func(timeID int64) error {
 	releasedKeys := make(map[int64][]_Key)
 	for i := 0; i < nShards; i++ {
-- 
2.43.0


From 680cd44927f5dc0366c9a054db0d7e79ae51606e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:06 +0000
Subject: [PATCH 10/41] fix: memdb: do not bring back deleted entries or reuse
 their keys after a crash

Recovery took only keys of live entries to continue the sequence, so the key of a
deleted entry was used again and its delete then removed the new message. Deletes
are now applied in the order of the log. A time block that held deletes was released
from the log while entries those delete were still in it.
---
 memdb/db.go          | 31 ++++++++++++-----------------
 memdb/db_internal.go | 19 ++++++++++++++++--
 memdb/recovery.go    | 47 ++++++++------------------------------------
 recovery.go          |  6 ++----
 wal/file.go          | 13 +++++-------
 5 files changed, 45 insertions(+), 71 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index 2d01c7f..5545115 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -138,6 +138,11 @@ func (db *DB) Keys() []uint64 {
 	return keys
 }
 
+// LastKey gets largest key found in the WAL on open, deleted keys included.
+func (db *DB) LastKey() uint64 {
+	return db.internal.lastKey
+}
+
 // Lookup gets data for the provided key and timeID.
 func (db *DB) Lookup(timeID int64, key uint64) ([]byte, error) {
 	if err := db.ok(); err != nil {
@@ -227,7 +232,7 @@ func (db *DB) BlockIterator(f func(timeID int64, keys []uint64) (bool, error)) (
 
 // Delete deletes entry from the DB.
 // It writes deleted key into new time block to persist record into the WAL.
-// If all entries are deleted from a time block then the time block is released from the WAL.
+// A time block that has all its entries deleted is released from the WAL along with the next time block that is freed.
 func (db *DB) Delete(key uint64) error {
 	if err := db.ok(); err != nil {
 		return err
@@ -277,23 +282,6 @@ func (db *DB) Delete(key uint64) error {
 			block.Lock()
 			block.delete(key)
 			db.internal.meter.Dels.Inc(1)
-			if block.count == 0 {
-				// all entries are deleted from the block,
-				// now check if timeIDs for deleted entries are released.
-				for ikey, timeID := range block.records {
-					db.mu.RLock()
-					if _, ok := db.timeBlocks[_TimeID(timeID)]; ok {
-						db.move(_TimeID(timeID), ikey.key)
-					}
-					db.mu.RUnlock()
-					delete(block.records, ikey)
-				}
-				// released timeblock from the WAL if all records are deleted.
-				if len(block.records) == 0 && timeID < db.timeID() {
-					block.Unlock()
-					return db.releaseLog(timeID)
-				}
-			}
 			block.Unlock()
 
 			return db.move(timeID, key)
@@ -358,7 +346,14 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 }
 
 // Free frees time block from DB for a provided time ID and releases block from WAL.
+// The deletes in the time block are released with it, so older blocks that have all entries deleted are released first.
 func (db *DB) Free(timeID int64) error {
+	for _, ID := range db.deletedBlocks(_TimeID(timeID)) {
+		if err := db.releaseLog(ID); err != nil {
+			return err
+		}
+	}
+
 	return db.releaseLog(_TimeID(timeID))
 }
 
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 09ff3b2..71178f4 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -71,7 +71,8 @@ type _DB struct {
 	buffer *bpool.BufferPool
 
 	// Write ahead log
-	wal *wal.WAL
+	wal     *wal.WAL
+	lastKey uint64 // largest key recovered from the WAL
 
 	// close
 	closed uint32
@@ -227,7 +228,6 @@ func (db *DB) move(timeID _TimeID, key uint64) error {
 	rawTimeID := make([]byte, 8)
 	binary.LittleEndian.PutUint64(rawTimeID[:8], uint64(timeID))
 
-	newBlock.records[dkey] = int64(newTimeID)
 	return newBlock.put(dkey, rawTimeID)
 }
 
@@ -287,6 +287,21 @@ func (db *DB) tinyCommit(tinyLog *_TinyLog) error {
 	return nil
 }
 
+// deletedBlocks gets the blocks logged before timeID that have no entries left.
+func (db *DB) deletedBlocks(timeID _TimeID) (timeIDs []_TimeID) {
+	for _, ID := range db.internal.timeMark.timeRefs(timeID) {
+		if block, ok := db.timeBlock(ID); ok {
+			block.RLock()
+			if block.count == 0 {
+				timeIDs = append(timeIDs, ID)
+			}
+			block.RUnlock()
+		}
+	}
+
+	return timeIDs
+}
+
 func (db *DB) releaseLog(timeID _TimeID) error {
 	db.mu.RLock()
 	block, ok := db.timeBlocks[timeID]
diff --git a/memdb/recovery.go b/memdb/recovery.go
index f5fbbe8..a87f839 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -60,14 +60,9 @@ func (db *DB) delete(key uint64) error {
 				continue
 			}
 			block.Lock()
-			ikey := iKey(false, key)
-			delete(block.records, ikey)
+			delete(block.records, iKey(false, key))
 			block.count--
 			db.internal.meter.Dels.Inc(1)
-			if len(block.records) == 0 {
-				delete(db.timeBlocks, _TimeID(timeID))
-				db.internal.buffer.Put(block.data)
-			}
 			block.Unlock()
 
 			return nil
@@ -88,7 +83,6 @@ func (db *DB) startRecovery() error {
 		return err
 	}
 
-	delKeys := make(map[_TimeID][]uint64)
 	err = r.Iterator(func(ID int64) (ok bool, err error) {
 		log := make(map[uint64][]byte)
 		l := r.Count()
@@ -110,12 +104,15 @@ func (db *DB) startRecovery() error {
 				key := binary.LittleEndian.Uint64(data[1:9])
 				val := data[9:]
 				off += dataLen
+				if key > db.internal.lastKey {
+					db.internal.lastKey = key
+				}
 				if dBit == 1 {
-					timeRefID := _TimeID(binary.LittleEndian.Uint64(val[:8]))
-					if _, ok := delKeys[timeRefID]; ok {
-						delKeys[timeRefID] = append(delKeys[timeRefID], key)
+					// entry is in this log or in a log written earlier.
+					if _, ok := log[key]; ok {
+						delete(log, key)
 					} else {
-						delKeys[timeRefID] = []uint64{key}
+						db.delete(key)
 					}
 				} else {
 					log[key] = val
@@ -153,34 +150,6 @@ func (db *DB) startRecovery() error {
 		return false, nil
 	})
 
-	for timeID, keys := range delKeys {
-		if block, exists := db.timeBlocks[timeID]; exists {
-			for _, key := range keys {
-				ikey := iKey(false, key)
-				block.RLock()
-				_, ok := block.records[ikey]
-				block.RUnlock()
-				if !ok {
-					// errEntryDoesNotExist
-					continue
-				}
-				block.Lock()
-				delete(block.records, ikey)
-				block.count--
-				db.internal.meter.Dels.Inc(1)
-				if len(block.records) == 0 {
-					delete(db.timeBlocks, _TimeID(timeID))
-					db.internal.buffer.Put(block.data)
-				}
-				block.Unlock()
-			}
-		} else {
-			for _, key := range keys {
-				db.delete(key)
-			}
-		}
-	}
-
 	return nil
 }
 
diff --git a/recovery.go b/recovery.go
index 03c44ce..f630736 100644
--- a/recovery.go
+++ b/recovery.go
@@ -80,10 +80,8 @@ func (db *_SyncHandle) startRecovery() error {
 	}()
 	fmt.Println("db.recoverLog: start recovery")
 	// sequence is persisted on sync, entries in the log can be ahead of it.
-	for _, seq := range db.internal.mem.Keys() {
-		if seq > db.seq() {
-			atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)
-		}
+	if seq := db.internal.mem.LastKey(); seq > db.seq() {
+		atomic.StoreUint64(&db.internal.dbInfo.sequence, seq)
 	}
 	if ok := db.startSync(); !ok {
 		return nil
diff --git a/wal/file.go b/wal/file.go
index a2a8ab9..3d08edd 100644
--- a/wal/file.go
+++ b/wal/file.go
@@ -173,14 +173,6 @@ func (fs *_FileStore) all() []int64 {
 		return nil
 	}
 
-	// sort.Slice(files[:], func(i, j int) bool {
-	// 	return files[i].Name() < files[j].Name()
-	// })
-
-	sort.Slice(files[:], func(i, j int) bool {
-		return files[i].ModTime().Before(files[j].ModTime())
-	})
-
 	for _, f := range files {
 		name := f.Name()
 		if name[len(name)-4:] != logExt {
@@ -192,6 +184,11 @@ func (fs *_FileStore) all() []int64 {
 		timeIDs = append(timeIDs, timeID)
 	}
 
+	// logs are applied in the order those are written, modification time of a file is too coarse to tell.
+	sort.Slice(timeIDs[:], func(i, j int) bool {
+		return timeIDs[i] < timeIDs[j]
+	})
+
 	return timeIDs
 }
 
-- 
2.43.0


From a9b2fa2fb140e01d31a019b1d1ebc338deae7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 11/41] fix: query: apply the limit to the most recent messages

The limit cut unsynced entries of time blocks in map order, the remaining limit was
miscounted for window blocks, and entries of deleted messages took the place of
others. A query that was used again returned entries of its earlier use too.
---
 db.go          | 35 +++++++++-----------------------
 db_internal.go | 19 ++++++++---------
 time_window.go | 55 +++++++++++++++-----------------------------------
 3 files changed, 35 insertions(+), 74 deletions(-)

diff --git a/db.go b/db.go
index 7ff6cd2..631f8db 100644
--- a/db.go
+++ b/db.go
@@ -22,7 +22,6 @@ import (
 	"fmt"
 	"math/rand"
 	"os"
-	"sort"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -238,22 +237,14 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
-	db.lookup(q)
-	if len(q.internal.winEntries) == 0 {
-		return
-	}
-	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
-		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
-	})
-	start := 0
 	limit := q.Limit
-	if len(q.internal.winEntries) < int(q.Limit) {
-		limit = len(q.internal.winEntries)
-	}
-
 	for {
-		invalidCount := 0
-		for _, query := range q.internal.winEntries[start:limit] {
+		more := db.lookup(q, limit)
+		items = items[:0]
+		for _, query := range q.internal.winEntries {
+			if len(items) >= q.Limit {
+				break
+			}
 			err = func() error {
 				if query.seq == 0 {
 					return nil
@@ -261,7 +252,6 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 				s, err := db.readEntry(query)
 				if err != nil {
 					if err == errMsgIDDeleted {
-						invalidCount++
 						return nil
 					}
 					logger.Error().Err(err).Str("context", "db.readEntry")
@@ -274,7 +264,6 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 				}
 				msgID := message.ID(id)
 				if !msgID.EvalPrefix(q.Contract, q.internal.cutoff) {
-					invalidCount++
 					return nil
 				}
 
@@ -301,17 +290,11 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 			}
 		}
 
-		if invalidCount == 0 || len(items) == int(q.Limit) || len(q.internal.winEntries) == limit {
+		if len(items) >= q.Limit || !more {
 			break
 		}
-
-		if len(q.internal.winEntries) <= int(q.Limit+invalidCount) {
-			start = limit
-			limit = len(q.internal.winEntries)
-		} else {
-			start = limit
-			limit = limit + invalidCount
-		}
+		// some entries are deleted or not in the query range, look further.
+		limit *= 2
 	}
 	db.internal.meter.Gets.Inc(int64(len(items)))
 	db.internal.meter.OutMsgs.Inc(int64(len(items)))
diff --git a/db_internal.go b/db_internal.go
index c8731d7..ff2395d 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -218,23 +218,24 @@ func (db *DB) readEntry(q _Query) (_IndexEntry, error) {
 // lookups are performed in following order
 // ilookup lookups in memory entries from timeWindow
 // lookup lookups persisted entries from timeWindow file.
-func (db *DB) lookup(q *Query) error {
+// It returns true if topics can have further entries beyond the limit.
+func (db *DB) lookup(q *Query, limit int) (more bool) {
+	q.internal.winEntries = q.internal.winEntries[:0]
 	topics := db.internal.trie.lookup(q.internal.parts, q.internal.depth, q.internal.topicType)
-	sort.Slice(topics[:], func(i, j int) bool {
-		return topics[i].offset > topics[j].offset
-	})
 	for _, topic := range topics {
-		if len(q.internal.winEntries) > q.Limit {
-			break
-		}
-		limit := q.Limit - len(q.internal.winEntries)
 		wEntries := db.internal.timeWindow.lookup(db.fs, topic.hash, topic.offset, q.internal.cutoff, limit)
+		if len(wEntries) >= limit {
+			more = true
+		}
 		for _, we := range wEntries {
 			q.internal.winEntries = append(q.internal.winEntries, _Query{topicHash: topic.hash, seq: we.seq()})
 		}
 	}
+	sort.Slice(q.internal.winEntries[:], func(i, j int) bool {
+		return q.internal.winEntries[i].seq > q.internal.winEntries[j].seq
+	})
 
-	return nil
+	return more
 }
 
 func (db *DB) parseTopic(contract uint32, topic []byte) (*message.Topic, uint32, error) {
diff --git a/time_window.go b/time_window.go
index 243eafd..a046b7a 100644
--- a/time_window.go
+++ b/time_window.go
@@ -19,6 +19,7 @@ package unitdb
 import (
 	"encoding/binary"
 	"fmt"
+	"sort"
 	"sync"
 	"time"
 
@@ -251,33 +252,29 @@ func (tw *_TimeWindowBucket) ilookup(topicHash uint64, limit int) (winEntries _W
 	b := tw.windowBlocks.getWindowBlock(topicHash)
 	b.mu.RLock()
 	defer b.mu.RUnlock()
-	var l int
-	var expiryCount int
 
 	for key := range b.entries {
 		if key.topicHash != topicHash {
 			continue
 		}
-		wEntries := b.entries[key]
-		if len(wEntries) > 0 {
-			l = limit + expiryCount - l
-			if len(wEntries) < l {
-				l = len(wEntries)
-			}
-			for i := len(wEntries) - 1; i >= len(wEntries)-l; i-- {
-				we := wEntries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
+		for _, we := range b.entries[key] {
+			if we.isExpired() {
+				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
+					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 				}
-				winEntries = append(winEntries, we)
+				// if id is expired it does not return an error but continue the iteration.
+				continue
 			}
+			winEntries = append(winEntries, we)
 		}
 	}
+	// entries are in several time blocks, limit applies to the most recent ones.
+	sort.Slice(winEntries[:], func(i, j int) bool {
+		return winEntries[i].seq() > winEntries[j].seq()
+	})
+	if len(winEntries) > limit {
+		winEntries = winEntries[:limit]
+	}
 	return winEntries
 }
 
@@ -308,35 +305,15 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			blockOff = b.next
 		}
 	}
-	expiryCount := 0
 	err = next(off, func(curb _WinBlock) (bool, error) {
 		b := &curb
 		if b.topicHash != topicHash {
 			return true, nil
 		}
-		if len(winEntries) > limit-int(b.entryIdx) {
-			limit = limit - len(winEntries)
-			for i := len(b.entries[:b.entryIdx]) - 1; i >= len(b.entries[:b.entryIdx])-limit; i-- {
-				we := b.entries[i]
-				if we.isExpired() {
-					if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-						expiryCount++
-						logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
-					}
-					// if id is expired it does not return an error but continue the iteration.
-					continue
-				}
-				winEntries = append(winEntries, we)
-			}
-			if len(winEntries) >= limit {
-				return true, nil
-			}
-		}
 		for i := len(b.entries[:b.entryIdx]) - 1; i >= 0; i-- {
 			we := b.entries[i]
 			if we.isExpired() {
 				if err := tw.expiryWindowBucket.addExpiry(we); err != nil {
-					expiryCount++
 					logger.Error().Err(err).Str("context", "timeWindow.addExpiry")
 				}
 				// if id is expired it does not return an error but continue the iteration.
@@ -345,7 +322,7 @@ func (tw *_TimeWindowBucket) lookup(fs *_FileSet, topicHash uint64, off, cutoff
 			winEntries = append(winEntries, we)
 
 		}
-		if b.cutoff(cutoff) {
+		if len(winEntries) >= limit || b.cutoff(cutoff) {
 			return true, nil
 		}
 		return false, nil
-- 
2.43.0


From 7f823d4d9ca3799ee24d38ea06f8a55fede4764c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:04 +0000
Subject: [PATCH 12/41] fix: topic: keep topics with the same parts in
 different order apart

The topic hash was the xor of its parts, so messages of b.a were stored as those of
a.b and could not be read, and repeated parts cancelled each other.
---
 message/topic.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 78d122e..3c4caff 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -74,16 +74,18 @@ func (t *Topic) AddContract(contract uint32) {
 	t.Parts = append(parts, t.Parts...)
 }
 
-// GetHash combines the parts into a single hash.
+// GetHash combines the parts into a single hash. Order of the parts and its wildcards count,
+// as topics such as "a.b" and "b.a" are different topics.
 func (t *Topic) GetHash(contract uint32) uint64 {
 	if len(t.Parts) == 1 {
 		return uint64(contract)
 	}
-	h := t.Parts[0].Hash
-	for _, i := range t.Parts[1:] {
-		h ^= i.Hash
+	h := uint64(14695981039346656037)
+	for _, p := range t.Parts {
+		h = (h ^ uint64(p.Hash)) * 1099511628211
+		h = (h ^ uint64(p.Wildchars)) * 1099511628211
 	}
-	return uint64(h)<<32 + uint64((contract<<8)|uint32(t.Depth))
+	return (h ^ uint64(t.Depth)) * 1099511628211
 }
 
 // _SplitFunc various split function to split topic using delimeter.
-- 
2.43.0


From 29559cc13c4ca7478bec37a103a7a35342e80c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:53 +0000
Subject: [PATCH 13/41] fix: topic: wildcards match the levels they stand for
 and nothing else

A wildcard at the start of a topic, several wildcards in a row, wildcards
before "...", and topics with "*" alone were stored under the wrong
levels, so their messages were missed by topics that match or returned for
topics that do not. Store one part per level.
---
 message/topic.go | 51 ++++++++++++++++--------------------------------
 trie.go          | 24 ++++++++++++-----------
 2 files changed, 30 insertions(+), 45 deletions(-)

diff --git a/message/topic.go b/message/topic.go
index 3c4caff..e1be481 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -244,52 +244,35 @@ func parseWildcardTopic(contract uint32, topic *Topic) (ok bool) {
 		return false
 	}
 
-	depth := uint8(0)
-	q := []byte(TopicMultiWildcardSymbol)
-	if bytes.HasSuffix(topic.Topic, q) {
-		depth++
+	multiWildcard := bytes.HasSuffix(topic.Topic, []byte(TopicMultiWildcardSymbol))
+	if multiWildcard {
 		topic.Topic = bytes.TrimRight(topic.Topic, string(TopicMultiWildcardSymbol))
 		topic.TopicType = TopicWildcard
-		topic.Depth = TopicMaxDepth
 	}
 
 	parts := bytes.FieldsFunc(topic.Topic, fn.splitTopic)
-	q = []byte{TopicWildcardSymbol}
-	part = Part{}
-	wildchars := uint8(0)
-	wildcharcount := 0
-	for idx, p := range parts {
-		depth++
+	q := []byte{TopicWildcardSymbol}
+	for _, p := range parts {
+		part = Part{}
 		if bytes.HasSuffix(p, q) {
+			// wildcard part matches one level of the topic.
 			topic.TopicType = TopicWildcard
-			if idx == 0 {
-				part.Hash = hash.WithSalt(p, contract)
-				topic.Parts = append(topic.Parts, part)
-			}
-			wildchars++
-			wildcharcount++
-			continue
+			part.Hash = Wildcard
+			part.Wildchars = 1
+		} else {
+			part.Hash = hash.WithSalt(p, contract)
 		}
-		part.Hash = hash.WithSalt(p, contract)
 		topic.Parts = append(topic.Parts, part)
-		if wildchars > 0 {
-			if idx-wildcharcount-1 >= 0 {
-				topic.Parts[idx-wildcharcount-1].Wildchars = wildchars
-			} else {
-				topic.Parts[0].Wildchars = wildchars
-			}
-			wildchars = 0
-		}
 	}
-
-	if wildchars > 0 {
-		topic.Parts[len(topic.Parts)-1:][0].Wildchars = wildchars
+	if multiWildcard {
+		// wildcard part without wildchars matches all remaining levels of the topic.
+		topic.Parts = append(topic.Parts, Part{Hash: Wildcard})
 	}
-	if topic.Depth == TopicMaxDepth {
-		part.Hash = Wildcard
-		topic.Parts = append(topic.Parts, part)
+	if len(topic.Parts) > TopicMaxDepth {
+		topic.TopicType = TopicInvalid
+		return false
 	}
-	topic.Depth = depth
+	topic.Depth = uint8(len(topic.Parts))
 
 	if topic.TopicType != TopicWildcard {
 		topic.TopicType = TopicStatic
diff --git a/trie.go b/trie.go
index fe63f31..6950b15 100644
--- a/trie.go
+++ b/trie.go
@@ -161,28 +161,30 @@ func (t *_Trie) lookup(query []message.Part, depth, topicType uint8) (tops _Topi
 }
 
 func (t *_Trie) ilookup(query []message.Part, depth, topicType uint8, tops *_Topics, currNode *_Node) {
-	// Add topics from the current branch.
-	if currNode.depth == depth || (topicType == message.TopicStatic && currNode.part.hash == message.Wildcard) {
+	// If done then add topics from the current branch and stop.
+	if len(query) == 0 {
 		for _, topic := range currNode.topics {
 			tops.addUnique(topic)
 		}
-	}
-
-	// If done then stop.
-	if len(query) == 0 {
 		return
 	}
 
 	q := query[0]
-	// Go through the wildcard match branch.
 	for part, n := range currNode.children {
 		switch {
-		case part.hash == q.Hash && q.Wildchars == part.wildchars:
+		case part.hash == q.Hash && part.wildchars == q.Wildchars:
 			t.ilookup(query[1:], depth, topicType, tops, n)
-		case part.hash == q.Hash && uint8(len(query)) >= part.wildchars+1:
+		case topicType != message.TopicStatic:
+			// wildcard query gets messages of that topic only.
+		case part.hash == q.Hash && len(query) > int(part.wildchars):
 			t.ilookup(query[part.wildchars+1:], depth, topicType, tops, n)
-		case part.hash == message.Wildcard:
-			t.ilookup(query[:], depth, topicType, tops, n)
+		case part.hash == message.Wildcard && part.wildchars == 0:
+			// matches all remaining levels.
+			for _, topic := range n.topics {
+				tops.addUnique(topic)
+			}
+		case part.hash == message.Wildcard && len(query) >= int(part.wildchars):
+			t.ilookup(query[part.wildchars:], depth, topicType, tops, n)
 		}
 	}
 }
-- 
2.43.0


From 7b8e97dd55e6db0ee11a8714adef235c5f3e4963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 14/41] fix: leasing: drop merged free blocks on defrag

Blocks that were merged into another one stayed on the list, so after a
reopen their space was handed out twice and messages overwrote each other.
---
 leasing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/leasing.go b/leasing.go
index 6a429d8..4cf58c0 100644
--- a/leasing.go
+++ b/leasing.go
@@ -147,7 +147,7 @@ func (b *_FreeBlocks) defrag() {
 	sort.Slice(merged, func(i, j int) bool {
 		return merged[i].size < merged[j].size
 	})
-	copy(b.fb[:l], merged)
+	b.fb = merged
 }
 
 func (l *_Lease) defrag() {
-- 
2.43.0


From 6b837feb9fef85ee81222bff4fad830798588583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 15/41] fix: leasing: do not use free blocks again after a
 crash

The list of free blocks is written on close and read on open. It stayed on
disk, so after a crash blocks that were used meanwhile were free again and
new messages overwrote those stored there.
---
 leasing.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/leasing.go b/leasing.go
index 4cf58c0..f28a549 100644
--- a/leasing.go
+++ b/leasing.go
@@ -227,7 +227,8 @@ func (l *_Lease) read() error {
 		l.freeBlock(b.offset, b.size)
 	}
 
-	return nil
+	// free blocks are written on close. Blocks used from now on must not be free again if DB is not closed.
+	return l.file.Truncate(0)
 }
 
 func (l *_Lease) write() error {
-- 
2.43.0


From 7f3d646356a51e3b52987e54cbb264c45587617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:46 +0000
Subject: [PATCH 16/41] fix: crypto: encrypt messages shorter than 4 bytes,
 keep the message on decrypt

Encrypt panicked for messages of less than 4 bytes, as the one of a payload
of one byte and the one of every delete in a batch. Decrypt overwrote the
encrypted message with the start of the decrypted one.
---
 crypto/mac.go | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/crypto/mac.go b/crypto/mac.go
index c70d0f6..dc5270b 100644
--- a/crypto/mac.go
+++ b/crypto/mac.go
@@ -82,12 +82,19 @@ func Signature(value uint32) []byte {
 // Encrypt encrypts src and appends to dst, returning the
 // resulting byte slice
 func (m *MAC) Encrypt(dst, src []byte) []byte {
+	// A message shorter than the epoch is padded, its size is authenticated.
+	var size []byte
+	h := hash.New(src)
+	if len(src) < EpochSize {
+		size = []byte{byte(len(src))}
+		src = append(append(make([]byte, 0, EpochSize), src...), make([]byte, EpochSize-len(src))...)
+	}
 	//Copy first 4 bytes epoch from source
+	off := len(dst)
 	dst = append(dst, src[:EpochSize]...)
-	h := hash.New(src)
 	dst = append(dst, Signature(h)...)
-	nonce := append(m.salt, dst[:MessageOffset]...)
-	return m.parent.Seal(dst, nonce, src[EpochSize:], nil)
+	nonce := append(m.salt, dst[off:off+MessageOffset]...)
+	return m.parent.Seal(dst, nonce, src[EpochSize:], size)
 }
 
 // Decrypt decrypts src and appends to dst, returning the
@@ -100,11 +107,18 @@ func (m *MAC) Decrypt(dst, src []byte) ([]byte, error) {
 	}
 
 	nonce := append(m.salt, src[:MessageOffset]...)
-	dst, err := m.parent.Open(dst, nonce, src[MessageOffset:], nil)
+	msg, err := m.parent.Open(nil, nonce, src[MessageOffset:], nil)
 	if err != nil {
+		if len(src) == MessageOffset+m.parent.Overhead() {
+			for size := 0; size < EpochSize; size++ {
+				if _, err := m.parent.Open(nil, nonce, src[MessageOffset:], []byte{byte(size)}); err == nil {
+					return append(dst, src[:size]...), nil
+				}
+			}
+		}
 		return dst, errors.New("Authentication failed.")
 	}
 	// Append epoch to dst at the beginning
-	dst = append(src[:EpochSize], dst...)
-	return dst, nil
+	dst = append(dst, src[:EpochSize]...)
+	return append(dst, msg...), nil
 }
-- 
2.43.0


From 14738ec4f7626472fcc77c1da96377a4e4057d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:12 +0000
Subject: [PATCH 17/41] fix: batch: roll back batches that fail, keep entries
 around batches readable

Batch panicked when its function returned an error, entries written by it
stayed in the time window, errors on write were ignored, an entry put after
a batch could not be found, and deletes of entries of a batch were undone by
a crash.
---
 batch.go             | 30 ++++++++++++++++++++++++------
 db.go                |  1 +
 memdb/batch.go       |  2 ++
 memdb/db.go          |  7 +------
 memdb/db_internal.go |  7 +------
 memdb/recovery.go    |  6 ------
 memdb/tiny_log.go    | 16 ++++++++++++++++
 7 files changed, 45 insertions(+), 24 deletions(-)

diff --git a/batch.go b/batch.go
index d592255..303b7e7 100644
--- a/batch.go
+++ b/batch.go
@@ -40,6 +40,10 @@ type (
 		delFlag bool
 		offset  int64
 	}
+	_BatchEntry struct {
+		topicHash uint64
+		seq       uint64
+	}
 
 	Batch struct {
 		db         *DB
@@ -49,6 +53,9 @@ type (
 		writeLockC chan struct{}
 
 		index  []_BatchIndex
+		// written are entries written to DB, those are rolled back if batch is not committed.
+		written []_BatchEntry
+
 		buffer *bpool.Buffer
 		size   int64
 
@@ -170,9 +177,11 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 		if index.delFlag && e.seq != 0 {
 			/// Test filter block for presence.
 			if !b.db.internal.filter.Test(e.seq) {
-				return nil
+				continue
+			}
+			if err := b.db.delete(e.topicHash, e.seq); err != nil {
+				return err
 			}
-			b.db.delete(e.topicHash, e.seq)
 			continue
 		}
 
@@ -203,8 +212,7 @@ func (b *Batch) Write() error {
 	}
 	topics := make(map[uint64]*message.Topic)
 	timeID := b.mem.TimeID()
-	var seqs []uint64
-	b.writeInternal(func(i int, e _Entry, data []byte) error {
+	err := b.writeInternal(func(i int, e _Entry, data []byte) error {
 		if e.topicSize != 0 {
 			t, ok := topics[e.topicHash]
 			if !ok {
@@ -221,11 +229,16 @@ func (b *Batch) Write() error {
 		if ok := b.db.internal.timeWindow.add(timeID, e.topicHash, newWinEntry(e.seq, e.expiresAt)); !ok {
 			return errForbidden
 		}
-		seqs = append(seqs, e.seq)
+		b.written = append(b.written, _BatchEntry{topicHash: e.topicHash, seq: e.seq})
 		return nil
 	})
+	if err != nil {
+		return err
+	}
 
-	b.mem.Write()
+	if err := b.mem.Write(); err != nil {
+		return err
+	}
 	b.reset()
 
 	return nil
@@ -252,6 +265,7 @@ func (b *Batch) Commit() error {
 	if err := b.mem.Commit(); err != nil {
 		return err
 	}
+	b.written = nil
 
 	return nil
 }
@@ -267,6 +281,10 @@ func (b *Batch) Abort() {
 	_assert(!b.managed, "managed batch abort not allowed")
 
 	b.reset()
+	for _, e := range b.written {
+		b.db.internal.timeWindow.del(e.topicHash, e.seq)
+	}
+	b.written = nil
 	b.mem.Abort()
 	b.db.internal.bufPool.Put(b.buffer)
 	b.db = nil
diff --git a/db.go b/db.go
index 631f8db..b87d085 100644
--- a/db.go
+++ b/db.go
@@ -425,6 +425,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/batch.go b/memdb/batch.go
index 7290373..737910f 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -87,6 +87,8 @@ func (b *Batch) Write() error {
 	}()
 	b.batchGroup = append(b.batchGroup, b.tinyLog.timeID())
 	b.db.internal.logManager.writeWait(b.tinyLog)
+	// an entry of the batch is deleted in a later time block, else the delete is released from the WAL before the entry.
+	b.db.internal.logManager.newTimeBlock()
 	b.newTinyLog()
 
 	return nil
diff --git a/memdb/db.go b/memdb/db.go
index 5545115..d2a008a 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -266,12 +266,6 @@ func (db *DB) Delete(key uint64) error {
 			_, ok := block.records[ikey]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 
@@ -336,6 +330,7 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 	b.setManaged()
 	// If an error is returned from the function then rollback and return error.
 	if err := fn(b, b.commitComplete); err != nil {
+		b.unsetManaged()
 		b.Abort()
 		close(b.commitComplete)
 		return err
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index 71178f4..ea8ceb3 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -201,12 +201,7 @@ func (db *DB) seek(key uint64) (*_Block, error) {
 			if ok {
 				return block, nil
 			}
-			r.RLock()
-			fltr := r.timeRecords[timeID]
-			r.RUnlock()
-			if !fltr.Test(key) {
-				return nil, errEntryDoesNotExist
-			}
+			// older block can have the entry, entries are added to the current block after a newer one is written by a batch.
 		}
 	}
 
diff --git a/memdb/recovery.go b/memdb/recovery.go
index a87f839..799e22e 100644
--- a/memdb/recovery.go
+++ b/memdb/recovery.go
@@ -51,12 +51,6 @@ func (db *DB) delete(key uint64) error {
 			_, ok := block.records[iKey(false, key)]
 			block.RUnlock()
 			if !ok {
-				r.RLock()
-				fltr := r.timeRecords[timeID]
-				r.RUnlock()
-				if !fltr.Test(key) {
-					return errEntryDoesNotExist
-				}
 				continue
 			}
 			block.Lock()
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index a7c2fd1..1bc8a67 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -122,6 +122,13 @@ func (src *_TinyLogOptions) withDefaultOptions() *_TinyLogOptions {
 func (p *_TinyLogManager) newTinyLog() {
 	timeNow := time.Now().UTC()
 	timeID := _TimeID(timeNow.Truncate(p.opts.blockDuration).UnixNano())
+	if last := p.tinyLog.timeID(); timeID < last {
+		timeID = last
+	}
+	p.addTinyLog(timeNow, timeID)
+}
+
+func (p *_TinyLogManager) addTinyLog(timeNow time.Time, timeID _TimeID) {
 	p.db.addTimeBlock(timeID)
 	p.db.internal.timeMark.add(timeID)
 	p.tinyLog = &_TinyLog{id: _TimeID(timeNow.UnixNano()), _TimeID: timeID, managed: false, doneChan: make(chan struct{})}
@@ -189,6 +196,15 @@ func (p *_TinyLogManager) write() {
 	}
 }
 
+// newTimeBlock starts a new time block, so that entries put and deleted from now on follow the entries of existing blocks.
+func (p *_TinyLogManager) newTimeBlock() {
+	p.mu.Lock()
+	defer p.mu.Unlock()
+	p.write()
+	timeNow := time.Now().UTC()
+	p.addTinyLog(timeNow, _TimeID(timeNow.UnixNano()))
+}
+
 // writeWait enqueues the log and waits for it to be executed.
 func (p *_TinyLogManager) writeWait(tinyLog *_TinyLog) {
 	if tinyLog == nil {
-- 
2.43.0


From f5a6e7f2355cd5bd9d2d4445ac921cb2a3bb046d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:20 +0000
Subject: [PATCH 18/41] fix: delete: use the master contract to find the topic
 if none is given

The topic was hashed without a contract, so a deleted message that was not
synced stayed in the time window and Get on its topic failed.
---
 db.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/db.go b/db.go
index b87d085..b892b54 100644
--- a/db.go
+++ b/db.go
@@ -395,13 +395,13 @@ func (db *DB) DeleteEntry(e *Entry) error {
 		return errTopicTooLarge
 	}
 	id := message.ID(e.ID)
+	if e.Contract == 0 {
+		e.Contract = message.MasterContract
+	}
 	topic, _, err := db.parseTopic(e.Contract, e.Topic)
 	if err != nil {
 		return err
 	}
-	if e.Contract == 0 {
-		e.Contract = message.MasterContract
-	}
 	topic.AddContract(e.Contract)
 
 	if err := db.delete(topic.GetHash(e.Contract), message.ID(id).Sequence()); err != nil {
-- 
2.43.0


From edd31ba55e8f9fe4b61970aacd6a026c49a0294b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:56 +0000
Subject: [PATCH 19/41] fix: batch: use the contract of the batch for entries
 without one

As documented, PutEntry in a batch with a contract stores to the topic of
that contract. It stored to the master contract.
---
 batch.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/batch.go b/batch.go
index 303b7e7..8e46470 100644
--- a/batch.go
+++ b/batch.go
@@ -86,6 +86,9 @@ func (b *Batch) PutEntry(e *Entry) error {
 	case len(e.Payload) > maxValueLength:
 		return errValueTooLarge
 	}
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
+	}
 	e.Encryption = e.Encryption || b.opts.batchOptions.encryption
 	if err := b.db.setEntry(e); err != nil {
 		return err
@@ -130,6 +133,9 @@ func (b *Batch) DeleteEntry(e *Entry) error {
 	case len(e.Topic) > maxTopicLength:
 		return errTopicTooLarge
 	}
+	if e.Contract == 0 {
+		e.Contract = b.opts.batchOptions.contract
+	}
 
 	if err := b.db.setEntry(e); err != nil {
 		return err
-- 
2.43.0


From 92ce53d1882648fa132eb2fc1e80edcac22dfb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:14 +0000
Subject: [PATCH 20/41] fix: expiry: mark expired entries as deleted before
 their space is used again

---
 db_internal.go | 15 ++++++++++++---
 db_sync.go     |  6 ++----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index ff2395d..c27c501 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -338,6 +338,17 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	defer func() {
 		<-db.internal.syncLockC
 	}()
+	if err := db.deleteEntry(seq); err != nil {
+		return err
+	}
+	if db.internal.syncWrites {
+		return db.sync()
+	}
+	return nil
+}
+
+// deleteEntry marks the entry as deleted in the index and frees its space. It must not run along with sync.
+func (db *DB) deleteEntry(seq uint64) error {
 	w, err := newBlockWriter(db.fs, db.internal.freeList, nil)
 	if err != nil {
 		return err
@@ -356,9 +367,7 @@ func (db *DB) delete(topicHash, seq uint64) error {
 		db.internal.freeList.freeBlock(e.msgOffset, e.mSize())
 	}
 	db.decount(1)
-	if db.internal.syncWrites {
-		return db.sync()
-	}
+
 	return nil
 }
 
diff --git a/db_sync.go b/db_sync.go
index dd2ef2a..f15a6b4 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -316,12 +316,10 @@ func (db *DB) expireEntries() error {
 		if !db.internal.filter.Test(we.seq()) {
 			continue
 		}
-		e, err := db.internal.reader.readEntry(we.seq())
-		if err != nil {
+		// entry is marked as deleted, so that its space is not freed again once it is in use for another entry.
+		if err := db.deleteEntry(we.seq()); err != nil {
 			return err
 		}
-		db.internal.freeList.free(e.seq, e.msgOffset, e.mSize())
-		db.decount(1)
 	}
 
 	return nil
-- 
2.43.0


From ef5b15db9caff7a26135cc42ac7ac22b87ace988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:14 +0000
Subject: [PATCH 21/41] fix: ttl: a plain number is seconds, ttl of a topic
 starts at each put

---
 db_internal.go   | 10 ++++++----
 entry.go         |  1 +
 message/topic.go |  2 +-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/db_internal.go b/db_internal.go
index c27c501..0dd9593 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -260,6 +260,7 @@ func (db *DB) setEntry(e *Entry) error {
 	var eBit uint8
 	var seq uint64
 	var rawTopic []byte
+	expiresAt := e.ExpiresAt
 	if !e.entry.parsed {
 		if e.Contract == 0 {
 			e.Contract = message.MasterContract
@@ -268,13 +269,14 @@ func (db *DB) setEntry(e *Entry) error {
 		if err != nil {
 			return err
 		}
-		if e.ExpiresAt == 0 && ttl > 0 {
-			e.ExpiresAt = ttl
+		if expiresAt == 0 && ttl > 0 {
+			expiresAt = ttl
 		}
 		t.AddContract(e.Contract)
 		e.entry.topicHash = t.GetHash(e.Contract)
 		e.entry.topic = t.Marshal()
-		e.entry.parsed = true
+		// topic with a ttl is parsed each time, as the ttl starts when the entry is put.
+		e.entry.parsed = ttl == 0
 	}
 	// topic is packed if it is new topic entry, earlier entries of the topic can be deleted before it is synced to disk.
 	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
@@ -294,7 +296,7 @@ func (db *DB) setEntry(e *Entry) error {
 
 	id.SetContract(e.Contract)
 	e.entry.seq = seq
-	e.entry.expiresAt = e.ExpiresAt
+	e.entry.expiresAt = expiresAt
 	val := snappy.Encode(nil, e.Payload)
 	if db.internal.dbInfo.encryption == 1 || e.Encryption {
 		eBit = 1
diff --git a/entry.go b/entry.go
index 82083d5..4e66689 100644
--- a/entry.go
+++ b/entry.go
@@ -82,6 +82,7 @@ func (e *Entry) WithTTL(ttl string) *Entry {
 	val, err := strconv.ParseInt(ttl, 10, 64)
 	if err == nil {
 		e.ExpiresAt = uint32(time.Now().Add(time.Duration(int(val)) * time.Second).Unix())
+		return e
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
diff --git a/message/topic.go b/message/topic.go
index e1be481..33be2ae 100644
--- a/message/topic.go
+++ b/message/topic.go
@@ -110,7 +110,7 @@ func (_SplitFunc) splitOpsKeyValue(c rune) bool {
 func (t *Topic) TTL() (uint32, bool) {
 	ttl, sec, ok := t.getOption("ttl")
 	if sec > 0 {
-		return uint32(time.Duration(sec) * time.Second), ok
+		return uint32(time.Now().Add(time.Duration(sec) * time.Second).Unix()), ok
 	}
 	var duration time.Duration
 	duration, _ = time.ParseDuration(ttl)
-- 
2.43.0


From cad4b32ac4f53ec1b6121df6e9a2408cfc5d0558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 22/41] fix: blocks: compute block offsets in 64 bits

---
 block.go              |  4 ++--
 block_writer.go       |  2 +-
 time_window.go        |  2 +-
 time_window_writer.go | 10 +++++-----
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/block.go b/block.go
index abab503..a93c0d6 100644
--- a/block.go
+++ b/block.go
@@ -45,14 +45,14 @@ type (
 )
 
 func blockIndex(seq uint64) int32 {
-	return int32(float64(seq-1) / float64(entriesPerIndexBlock))
+	return int32((seq - 1) / entriesPerIndexBlock)
 }
 
 func blockOffset(idx int32) int64 {
 	if idx == -1 {
 		return int64(0)
 	}
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 func (e _IndexEntry) mSize() uint32 {
diff --git a/block_writer.go b/block_writer.go
index 6a522b8..c159ac1 100644
--- a/block_writer.go
+++ b/block_writer.go
@@ -51,7 +51,7 @@ func newBlockWriter(fs *_FileSet, lease *_Lease, buf *bpool.Buffer) (*_BlockWrit
 	if w.indexOffset > 0 {
 		w.blockIdx = int32(w.indexOffset / int64(blockSize))
 		// read final block from index file.
-		if w.indexOffset > int64(w.blockIdx*blockSize) {
+		if w.indexOffset > blockOffset(w.blockIdx) {
 			r := _BlockReader{indexFile: w.indexFile, offset: blockOffset(w.blockIdx)}
 			b, err := r.readIndexBlock()
 			if err != nil {
diff --git a/time_window.go b/time_window.go
index a046b7a..e19fb10 100644
--- a/time_window.go
+++ b/time_window.go
@@ -111,7 +111,7 @@ func (b *_WinBlock) unmarshalBinary(data []byte) error {
 }
 
 func winBlockOffset(idx int32) int64 {
-	return int64(blockSize * idx)
+	return int64(blockSize) * int64(idx)
 }
 
 type (
diff --git a/time_window_writer.go b/time_window_writer.go
index 99015ad..aa60ef7 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -110,7 +110,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 		}
 		if b.entryIdx == entriesPerWindowBlock {
 			topicHash := b.topicHash
-			next := int64(blockSize * wIdx)
+			next := winBlockOffset(wIdx)
 			// set approximate cutoff on winBlock.
 			b.cutoffTime = time.Now().Unix()
 			w.winBlocks[wIdx] = b
@@ -127,7 +127,7 @@ func (w *_WindowWriter) append(topicHash uint64, off int64, wEntries _WindowEntr
 	}
 	w.winBlocks[wIdx] = b
 
-	return int64(blockSize * wIdx), nil
+	return winBlockOffset(wIdx), nil
 }
 
 func (w *_WindowWriter) write() error {
@@ -135,7 +135,7 @@ func (w *_WindowWriter) write() error {
 		if !b.leased || !b.dirty {
 			continue
 		}
-		off := int64(blockSize * bIdx)
+		off := winBlockOffset(bIdx)
 		if _, err := w.winFile.WriteAt(b.marshalBinary(), off); err != nil {
 			return err
 		}
@@ -163,7 +163,7 @@ func (w *_WindowWriter) write() error {
 	for _, blocks := range winBlocks {
 		if len(blocks) == 1 {
 			bIdx := blocks[0]
-			off := int64(blockSize * bIdx)
+			off := winBlockOffset(bIdx)
 			b := w.winBlocks[bIdx]
 			buf := b.marshalBinary()
 			if _, err := w.winFile.WriteAt(buf, off); err != nil {
@@ -174,7 +174,7 @@ func (w *_WindowWriter) write() error {
 			// fmt.Println("timeWindow.write: topicHash, seq ", b.topicHash, b.entries[0])
 			continue
 		}
-		blockOff := int64(blockSize * blocks[0])
+		blockOff := winBlockOffset(blocks[0])
 		for bIdx := blocks[0]; bIdx <= blocks[1]; bIdx++ {
 			b := w.winBlocks[bIdx]
 			w.buffer.Write(b.marshalBinary())
-- 
2.43.0


From 42393c2b3d497f3648547aa735fd28ce72772f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 23/41] fix: db info: keep the encryption flag of the database
 apart from its version and sequence

---
 db_info.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db_info.go b/db_info.go
index ba56ab4..32ee9f0 100644
--- a/db_info.go
+++ b/db_info.go
@@ -43,7 +43,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 	buf := make([]byte, fixed)
 	copy(buf[:7], inf.header.signature[:])
 	binary.LittleEndian.PutUint32(buf[7:11], inf.header.version)
-	buf[12] = uint8(inf.encryption)
+	buf[11] = uint8(inf.encryption)
 	binary.LittleEndian.PutUint64(buf[12:20], inf.sequence)
 	binary.LittleEndian.PutUint64(buf[20:28], inf.count)
 
@@ -54,7 +54,7 @@ func (inf _DBInfo) MarshalBinary() ([]byte, error) {
 func (inf *_DBInfo) UnmarshalBinary(data []byte) error {
 	copy(inf.header.signature[:], data[:7])
 	inf.header.version = binary.LittleEndian.Uint32(data[7:11])
-	inf.encryption = int8(data[7])
+	inf.encryption = int8(data[11])
 	inf.sequence = binary.LittleEndian.Uint64(data[12:20])
 	inf.count = binary.LittleEndian.Uint64(data[20:28])
 
-- 
2.43.0


From c94d5f2f995c444c5f1a26772d795178d4951c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 24/41] fix: memdb: count a key that is put twice in a block
 once

---
 memdb/block.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/memdb/block.go b/memdb/block.go
index 59ee26b..f9ebdc1 100644
--- a/memdb/block.go
+++ b/memdb/block.go
@@ -101,7 +101,7 @@ func (b *_Block) put(ikey _Key, data []byte) error {
 	if _, err := b.data.WriteAt(data, off+8+1+4); err != nil {
 		return err
 	}
-	if ikey.delFlag == 0 {
+	if _, ok := b.records[ikey]; !ok && ikey.delFlag == 0 {
 		b.count++
 	}
 	b.records[ikey] = off
-- 
2.43.0


From 76f59e636ae187d80067967c487543455cd13306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 25/41] fix: memdb batch: drop the entries of an aborted batch
 that are not written yet

---
 memdb/batch.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memdb/batch.go b/memdb/batch.go
index 737910f..0e07d98 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -121,7 +121,12 @@ func (b *Batch) Commit() error {
 //Abort aborts batch or perform cleanup operation on batch complete.
 func (b *Batch) Abort() error {
 	_assert(!b.managed, "managed batch abort not allowed")
-	for _, ID := range b.batchGroup {
+	if b.db == nil {
+		// already committed or aborted.
+		return nil
+	}
+	// release entries that are not written as well.
+	for _, ID := range append(b.batchGroup, b.tinyLog.timeID()) {
 		if err := b.db.releaseLog(ID); err != nil {
 			return err
 		}
-- 
2.43.0


From f98215141f5bf0b451e97c254c53cdc3af041e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:17 +0000
Subject: [PATCH 26/41] fix: memdb: put and delete in a time block later than
 those recovered from the log

---
 memdb/tiny_log.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 1bc8a67..9c76526 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -145,6 +145,12 @@ func (db *DB) newLogManager(opts *_TinyLogOptions) {
 		stop:       make(chan struct{}),
 	}
 
+	// time blocks recovered from the WAL are older than the blocks of entries put or deleted from now on.
+	for timeID := range db.timeBlocks {
+		if timeID >= logManager.tinyLog._TimeID {
+			logManager.tinyLog._TimeID = timeID + 1
+		}
+	}
 	logManager.newTinyLog()
 
 	// start the write loop
-- 
2.43.0


From e5bf3ff695e1b28ae9ab2995a58a9699b398f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 27/41] fix: memdb batch: never share a time block between two
 writes of a batch

---
 memdb/batch.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/memdb/batch.go b/memdb/batch.go
index 0e07d98..c696885 100644
--- a/memdb/batch.go
+++ b/memdb/batch.go
@@ -38,6 +38,10 @@ type Batch struct {
 
 func (b *Batch) newTinyLog() {
 	timeID := _TimeID(time.Now().UTC().UnixNano())
+	if b.tinyLog != nil && timeID <= b.tinyLog.timeID() {
+		// the clock has not moved since the last log of the batch, it still needs its own block.
+		timeID = b.tinyLog.timeID() + 1
+	}
 	b.db.addTimeBlock(timeID)
 	b.tinyLog = &_TinyLog{id: timeID, _TimeID: timeID, managed: true, doneChan: make(chan struct{})}
 }
-- 
2.43.0


From 5a91bea5de9be1be51d7a6d530f410b767bddac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 28/41] fix: net: read the body of ping and disconnect
 messages, and ping acknowledgements as such

---
 server/internal/net/message.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 5c38aa7..419ece1 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -40,16 +40,11 @@ func Read(r io.Reader) (MessagePack, error) {
 	}
 
 	// Check for empty Messages
-	switch fh.MessageType {
-	case 0:
+	if fh.MessageType == 0 {
 		// TODO fixe zero length message issue.
 		// return &utp.Pingreq{}, nil
 		fmt.Println("message::Read: Invalid zero-length packet type ", fh.MessageType)
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
-	case utp.PINGREQ:
-		return &utp.Pingreq{}, nil
-	case utp.DISCONNECT:
-		return &utp.Disconnect{}, nil
 	}
 
 	rawMsg := make([]byte, fh.MessageLength)
@@ -76,6 +71,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		pack = &utp.Subscribe{}
 	case utp.UNSUBSCRIBE:
 		pack = &utp.Unsubscribe{}
+	case utp.PINGREQ:
+		pack = &utp.Pingreq{}
+	case utp.DISCONNECT:
+		pack = &utp.Disconnect{}
 	default:
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
-- 
2.43.0


From 757ef63eb7a621093fff6b3a7a1318da7e81a8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 29/41] fix: net: refuse a message with a negative length
 instead of panicking

---
 server/internal/net/message.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server/internal/net/message.go b/server/internal/net/message.go
index 419ece1..bf49f0b 100644
--- a/server/internal/net/message.go
+++ b/server/internal/net/message.go
@@ -47,6 +47,10 @@ func Read(r io.Reader) (MessagePack, error) {
 		return nil, fmt.Errorf("message::Read: Invalid zero-length packet type %d", fh.MessageType)
 	}
 
+	if fh.MessageLength < 0 {
+		return nil, fmt.Errorf("message::Read: Invalid message length %d", fh.MessageLength)
+	}
+
 	rawMsg := make([]byte, fh.MessageLength)
 	_, err := io.ReadFull(r, rawMsg)
 	if err != nil {
-- 
2.43.0


From c1a54431d8f79f68cab556857293e8f77b6c106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 30/41] fix: security: refuse a topic without text, and keep
 options out of a topic without key

---
 server/internal/message/security/key.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/server/internal/message/security/key.go b/server/internal/message/security/key.go
index 6e081c7..109c252 100644
--- a/server/internal/message/security/key.go
+++ b/server/internal/message/security/key.go
@@ -102,14 +102,16 @@ func ParseKey(text string) (topic *Topic) {
 
 	parts := strings.FieldsFunc(text, fn.splitKey)
 	if parts == nil || len(parts) < 2 {
-		// topic.TopicType = TopicInvalid
+		if len(parts) == 0 {
+			topic.TopicType = TopicInvalid
+			return topic
+		}
 		topic.Topic = parts[0]
-		topic.Size = len(parts[0])
-		return topic
+	} else {
+		topic.Key = parts[0]
+		topic.Topic = parts[1]
 	}
-	topic.Key = parts[0]
-	topic.Topic = parts[1]
-	parts = strings.FieldsFunc(parts[1], fn.options)
+	parts = strings.FieldsFunc(topic.Topic, fn.options)
 	l := len(parts)
 	if parts == nil || l < 1 {
 		topic.TopicType = TopicInvalid
-- 
2.43.0


From 4b09ecf62d66076e13a94d25f53c9b2fc1e8c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 31/41] fix: message ids: skip resumed ids without deadlock,
 and stay within 16 bits

---
 server/internal/message/messageids.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/server/internal/message/messageids.go b/server/internal/message/messageids.go
index efd508b..974f1be 100644
--- a/server/internal/message/messageids.go
+++ b/server/internal/message/messageids.go
@@ -17,6 +17,7 @@
 package message
 
 import (
+	"math"
 	"sync"
 
 	"github.com/unit-io/unitdb/server/utp"
@@ -60,9 +61,15 @@ func (mids *MessageIds) FreeID(id MID) {
 func (mids *MessageIds) NextID(pktType utp.MessageType) MID {
 	mids.Lock()
 	defer mids.Unlock()
-	mids.id++
-	if _, ok := mids.resume[mids.id]; ok {
-		mids.NextID(pktType)
+	for {
+		mids.id++
+		if mids.id > math.MaxUint16 {
+			// message identifiers are 16-bit on the wire, and zero means no identifier.
+			mids.id = 1
+		}
+		if _, ok := mids.resume[mids.id]; !ok {
+			break
+		}
 	}
 	mids.index[mids.id] = pktType
 	return mids.id
-- 
2.43.0


From a010281fd51a8f1f72ef8f080686e3e7925d617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 32/41] fix: common: reading into an empty slice must not lose
 a message

---
 server/common/conn.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/common/conn.go b/server/common/conn.go
index 78fb682..6e2036c 100644
--- a/server/common/conn.go
+++ b/server/common/conn.go
@@ -76,6 +76,11 @@ func (c *Conn) Read(p []byte) (n int, err error) {
 	c.readLock.Lock()
 	defer c.readLock.Unlock()
 
+	if len(p) == 0 {
+		// nothing is read, a message received now would be lost.
+		return 0, nil
+	}
+
 	// Attempt to read a value only if we're not still decoding a
 	// partial read value from the last result.
 	if c.readOffset == 0 {
-- 
2.43.0


From 01d748d533f133cb6e8112849a5679205bf1d90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:24 +0000
Subject: [PATCH 33/41] fix: trie: add a topic under one lock, so that
 concurrent adds keep each other's branches

---
 trie.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/trie.go b/trie.go
index 6950b15..a32c20a 100644
--- a/trie.go
+++ b/trie.go
@@ -115,10 +115,8 @@ func (t *_Trie) Count() int {
 
 // add adds a topic to trie.
 func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool) {
-	// Get mutex
-	mu := t.mutex.getMutex(topic.hash)
-	mu.Lock()
-	defer mu.Unlock()
+	t.Lock()
+	defer t.Unlock()
 	if _, ok := t.topicTrie.summary[topic.hash]; ok {
 		return false
 	}
@@ -128,25 +126,19 @@ func (t *_Trie) add(topic _Topic, parts []message.Part, depth uint8) (added bool
 			hash:      p.Hash,
 			wildchars: p.Wildchars,
 		}
-		t.RLock()
 		child, ok := curr.children[newPart]
-		t.RUnlock()
 		if !ok {
 			child = &_Node{
 				part:     newPart,
 				parent:   curr,
 				children: make(map[_Part]*_Node),
 			}
-			t.Lock()
 			curr.children[newPart] = child
-			t.Unlock()
 		}
 		curr = child
 	}
-	t.Lock()
 	curr.topics.addUnique(topic)
 	t.topicTrie.summary[topic.hash] = curr
-	t.Unlock()
 	added = true
 	curr.depth = depth
 	return
-- 
2.43.0


From 8f7286ce58bc506c851935c3025d36795198a97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 34/41] fix: memdb: an entry goes to the log of its time block
 also if a new block starts meanwhile

---
 memdb/db.go          | 4 +++-
 memdb/db_internal.go | 3 ++-
 memdb/tiny_log.go    | 6 ++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index d2a008a..a66c5d6 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -291,7 +291,9 @@ func (db *DB) Put(key uint64, data []byte) (int64, error) {
 		return 0, err
 	}
 
-	timeID := db.timeID()
+	// the log of the time block is written with the entry, even if a new time block starts meanwhile.
+	timeID, done := db.internal.logManager.hold()
+	defer done()
 	db.mu.RLock()
 	block, ok := db.timeBlocks[timeID]
 	db.mu.RUnlock()
diff --git a/memdb/db_internal.go b/memdb/db_internal.go
index ea8ceb3..0716a3d 100644
--- a/memdb/db_internal.go
+++ b/memdb/db_internal.go
@@ -210,7 +210,8 @@ func (db *DB) seek(key uint64) (*_Block, error) {
 
 // move moves the entry to the new block
 func (db *DB) move(timeID _TimeID, key uint64) error {
-	newTimeID := db.timeID()
+	newTimeID, done := db.internal.logManager.hold()
+	defer done()
 	// add deleted key to new time block to persist deleted entry to the WAL.
 	dkey := iKey(true, key)
 	newBlock, ok := db.timeBlock(newTimeID)
diff --git a/memdb/tiny_log.go b/memdb/tiny_log.go
index 9c76526..f3121c3 100644
--- a/memdb/tiny_log.go
+++ b/memdb/tiny_log.go
@@ -176,6 +176,12 @@ func (p *_TinyLogManager) timeID() _TimeID {
 	return p.tinyLog.timeID()
 }
 
+// hold returns tinyLog timeID, a new time block does not start until done is called.
+func (p *_TinyLogManager) hold() (timeID _TimeID, done func()) {
+	p.mu.RLock()
+	return p.tinyLog.timeID(), p.mu.RUnlock
+}
+
 // size returns maximum number of concurrent jobs.
 func (p *_TinyLogManager) size() int {
 	return p.opts.poolCapacity
-- 
2.43.0


From f3e2be0b2033fc6d28057f2045db60ca7cbe4987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 35/41] fix: window: delete an entry within the window block's
 size

---
 time_window_writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/time_window_writer.go b/time_window_writer.go
index aa60ef7..2f03e39 100644
--- a/time_window_writer.go
+++ b/time_window_writer.go
@@ -71,7 +71,7 @@ func (w *_WindowWriter) del(seq uint64, winIdx int32) error {
 	b.entryIdx--
 
 	i := entryIdx
-	for ; i < entriesPerIndexBlock-1; i++ {
+	for ; i < entriesPerWindowBlock-1; i++ {
 		b.entries[i] = b.entries[i+1]
 	}
 	b.entries[i] = _WinEntry{}
-- 
2.43.0


From e5f301d75754160ef33dc671ee41d66d192518e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:00 +0000
Subject: [PATCH 36/41] fix: sync waits for entries that are not in the time
 window yet, so that they are not there twice

---
 db.go          | 3 +++
 db_internal.go | 3 +++
 db_sync.go     | 8 +++++++-
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/db.go b/db.go
index b892b54..b6d875a 100644
--- a/db.go
+++ b/db.go
@@ -346,6 +346,9 @@ func (db *DB) PutEntry(e *Entry) error {
 		return err
 	}
 
+	// sync waits for the entry to be in the time window.
+	db.internal.putLock.RLock()
+	defer db.internal.putLock.RUnlock()
 	timeID, err := db.internal.mem.Put(e.entry.seq, e.entry.cache)
 	if err != nil {
 		return err
diff --git a/db_internal.go b/db_internal.go
index 0dd9593..90fef80 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -92,6 +92,9 @@ type (
 		// Block reader
 		reader *_BlockReader
 
+		// putLock is held while an entry is added to memdb and to the time window.
+		putLock sync.RWMutex
+
 		// sync handler
 		syncLockC  chan struct{}
 		syncWrites bool
diff --git a/db_sync.go b/db_sync.go
index f15a6b4..08af66b 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -213,8 +213,14 @@ func (db *_SyncHandle) Sync() error {
 	// // CPU profiling by default
 	// defer profile.Start().Stop()
 	var err1 error
-	timeRelease := db.internal.timeWindow.release()
+	var timeRelease func(timeID int64) error
 	err := db.internal.mem.BlockIterator(func(timeID int64, seqs []uint64) (bool, error) {
+		if timeRelease == nil {
+			// wait for entries of the time blocks that are not in the time window yet.
+			db.internal.putLock.Lock()
+			timeRelease = db.internal.timeWindow.release()
+			db.internal.putLock.Unlock()
+		}
 		winEntries := make(map[uint64]_WindowEntries)
 		sort.Slice(seqs[:], func(i, j int) bool {
 			return seqs[i] < seqs[j]
-- 
2.43.0


From f0817659715dcd28bc49d220c70a41e037b1b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:08 +0000
Subject: [PATCH 37/41] fix: memdb: delete an entry only if it is still in its
 block once the block is locked

---
 memdb/db.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/memdb/db.go b/memdb/db.go
index a66c5d6..b80deb7 100644
--- a/memdb/db.go
+++ b/memdb/db.go
@@ -262,18 +262,18 @@ func (db *DB) Delete(key uint64) error {
 		block, ok := db.timeBlocks[timeID]
 		db.mu.RUnlock()
 		if ok {
-			block.RLock()
+			timeLock := db.timeLock()
+			timeLock.RLock()
+
+			block.Lock()
 			_, ok := block.records[ikey]
-			block.RUnlock()
 			if !ok {
+				// the entry is not in the block, or it is deleted or the block is released meanwhile.
+				block.Unlock()
+				timeLock.RUnlock()
 				continue
 			}
-
-			timeLock := db.timeLock()
-			timeLock.RLock()
 			defer timeLock.RUnlock()
-
-			block.Lock()
 			block.delete(key)
 			db.internal.meter.Dels.Inc(1)
 			block.Unlock()
-- 
2.43.0


From d30c7b5bccda0696395c3685bb11c04b35cfbbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:08 +0000
Subject: [PATCH 38/41] fix: gets do not share the position in the index file

---
 block_reader.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/block_reader.go b/block_reader.go
index cc14e85..efb0281 100644
--- a/block_reader.go
+++ b/block_reader.go
@@ -55,8 +55,9 @@ func (r *_BlockReader) readIndexBlock() (_IndexBlock, error) {
 
 func (r *_BlockReader) readEntry(seq uint64) (_IndexEntry, error) {
 	bIdx := blockIndex(seq)
-	r.offset = blockOffset(bIdx)
-	b, err := r.readIndexBlock()
+	// the reader is shared by concurrent gets.
+	br := _BlockReader{indexFile: r.indexFile, offset: blockOffset(bIdx)}
+	b, err := br.readIndexBlock()
 	if err != nil {
 		return _IndexEntry{}, err
 	}
-- 
2.43.0


From 726a329a696cb061c93a1ab0038bc889c3e9576f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:17 +0000
Subject: [PATCH 39/41] fix: get does not run while sync moves entries from
 memory to files, or while an entry is deleted from memory

---
 db.go          | 2 ++
 db_internal.go | 6 ++++++
 db_sync.go     | 3 +++
 3 files changed, 11 insertions(+)

diff --git a/db.go b/db.go
index b6d875a..9740996 100644
--- a/db.go
+++ b/db.go
@@ -237,6 +237,8 @@ func (db *DB) Get(q *Query) (items [][]byte, err error) {
 	mu := db.internal.mutex.getMutex(q.internal.prefix)
 	mu.RLock()
 	defer mu.RUnlock()
+	db.internal.syncLock.RLock()
+	defer db.internal.syncLock.RUnlock()
 	limit := q.Limit
 	for {
 		more := db.lookup(q, limit)
diff --git a/db_internal.go b/db_internal.go
index 90fef80..1163425 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -95,6 +95,10 @@ type (
 		// putLock is held while an entry is added to memdb and to the time window.
 		putLock sync.RWMutex
 
+		// syncLock is held while sync moves entries from memory to files and while an entry is deleted from memory,
+		// get holds it shared.
+		syncLock sync.RWMutex
+
 		// sync handler
 		syncLockC  chan struct{}
 		syncWrites bool
@@ -330,8 +334,10 @@ func (db *DB) delete(topicHash, seq uint64) error {
 	}
 
 	db.internal.meter.Dels.Inc(1)
+	db.internal.syncLock.Lock()
 	db.internal.mem.Delete(seq)
 	db.internal.timeWindow.del(topicHash, seq)
+	db.internal.syncLock.Unlock()
 
 	// Test filter block for the message id presence.
 	if !db.internal.filter.Test(seq) {
diff --git a/db_sync.go b/db_sync.go
index 08af66b..bab8e7d 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -212,6 +212,9 @@ func (db *_SyncHandle) sync(recovery bool) error {
 func (db *_SyncHandle) Sync() error {
 	// // CPU profiling by default
 	// defer profile.Start().Stop()
+	// entries are in memory or in files to get and delete, not in between.
+	db.internal.syncLock.Lock()
+	defer db.internal.syncLock.Unlock()
 	var err1 error
 	var timeRelease func(timeID int64) error
 	err := db.internal.mem.BlockIterator(func(timeID int64, seqs []uint64) (bool, error) {
-- 
2.43.0


From 29f23fff52b3784677e6416ec48c3ccb5b098916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 40/41] fix: close waits for operations in progress, and sync
 and delete do not hang on a closed DB

---
 batch.go       | 20 +++++++++++++++++---
 db.go          | 13 ++++++++++---
 db_internal.go | 28 ++++++++++++++++++++++++----
 db_sync.go     |  7 +++++++
 4 files changed, 58 insertions(+), 10 deletions(-)

diff --git a/batch.go b/batch.go
index 8e46470..128ef22 100644
--- a/batch.go
+++ b/batch.go
@@ -208,6 +208,15 @@ func (b *Batch) writeInternal(fn func(i int, e _Entry, data []byte) error) error
 
 // Write starts writing entries into DB. It returns an error if batch write fails.
 func (b *Batch) Write() error {
+	if err := b.db.begin(); err != nil {
+		return err
+	}
+	defer b.db.end()
+
+	return b.write()
+}
+
+func (b *Batch) write() error {
 	// write happens synchronously
 	b.writeLockC <- struct{}{}
 	defer func() {
@@ -255,15 +264,20 @@ func (b *Batch) Write() error {
 func (b *Batch) Commit() error {
 	_assert(!b.managed, "managed batch commit not allowed")
 
-	b.db.internal.closeW.Add(1)
+	db := b.db
+	if err := db.begin(); err != nil {
+		close(b.commitComplete)
+		b.Abort()
+		return err
+	}
 	defer func() {
 		close(b.commitComplete)
-		b.db.internal.closeW.Done()
 		b.Abort()
+		db.end()
 	}()
 
 	// Write if any pending entries in batch.
-	if err := b.Write(); err != nil {
+	if err := b.write(); err != nil {
 		return err
 	}
 
diff --git a/db.go b/db.go
index 9740996..4f702ae 100644
--- a/db.go
+++ b/db.go
@@ -219,9 +219,10 @@ func (db *DB) Close() error {
 
 // Get return items matching the query paramater.
 func (db *DB) Get(q *Query) (items [][]byte, err error) {
-	if err := db.ok(); err != nil {
+	if err := db.begin(); err != nil {
 		return nil, err
 	}
+	defer db.end()
 	switch {
 	case len(q.Topic) == 0:
 		return nil, errTopicEmpty
@@ -329,9 +330,10 @@ func (db *DB) Put(topic, payload []byte) error {
 // It is safe to modify the contents of the argument after PutEntry returns but not
 // before.
 func (db *DB) PutEntry(e *Entry) error {
-	if err := db.ok(); err != nil {
+	if err := db.begin(); err != nil {
 		return err
 	}
+	defer db.end()
 
 	switch {
 	case len(e.Topic) == 0:
@@ -385,9 +387,10 @@ func (db *DB) Delete(id, topic []byte) error {
 // It is safe to modify the contents of the argument after Delete returns but
 // not before.
 func (db *DB) DeleteEntry(e *Entry) error {
-	if err := db.ok(); err != nil {
+	if err := db.begin(); err != nil {
 		return err
 	}
+	defer db.end()
 
 	switch {
 	case db.opts.flags.immutable:
@@ -443,6 +446,10 @@ func (db *DB) Batch(fn func(*Batch, <-chan struct{}) error) error {
 // Sync write window entries into summary file and write index, and data to respective index and data files.
 // In case of any error during sync operation recovery is performed on log file (write ahead log).
 func (db *DB) Sync() error {
+	if err := db.begin(); err != nil {
+		return err
+	}
+	defer db.end()
 	// start := time.Now()
 	if ok := db.internal.syncHandle.status(); ok {
 		// sync is in-progress.
diff --git a/db_internal.go b/db_internal.go
index 1163425..cb72c36 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -105,10 +105,11 @@ type (
 		syncHandle _SyncHandle
 
 		// Close.
-		closeW sync.WaitGroup
-		closeC chan struct{}
-		closed uint32
-		closer io.Closer
+		closeLock sync.RWMutex // is held shared by operations in progress.
+		closeW    sync.WaitGroup
+		closeC    chan struct{}
+		closed    uint32
+		closer    io.Closer
 	}
 )
 
@@ -135,6 +136,10 @@ func (db *DB) close() error {
 	// Signal all goroutines.
 	close(db.internal.closeC)
 
+	// Wait for operations in progress, those that start from now on are refused.
+	db.internal.closeLock.Lock()
+	db.internal.closeLock.Unlock()
+
 	// Acquire lock.
 	db.internal.syncLockC <- struct{}{}
 
@@ -421,6 +426,21 @@ func (db *DB) isClosed() bool {
 	return atomic.LoadUint32(&db.internal.closed) != 0
 }
 
+// begin starts an operation that close waits for. It returns an error if DB is closed.
+func (db *DB) begin() error {
+	db.internal.closeLock.RLock()
+	if err := db.ok(); err != nil {
+		db.internal.closeLock.RUnlock()
+		return err
+	}
+	return nil
+}
+
+// end ends an operation that close waits for.
+func (db *DB) end() {
+	db.internal.closeLock.RUnlock()
+}
+
 // ok checks read ok status.
 func (db *DB) ok() error {
 	if db.isClosed() {
diff --git a/db_sync.go b/db_sync.go
index bab8e7d..614eb95 100644
--- a/db_sync.go
+++ b/db_sync.go
@@ -137,6 +137,9 @@ func (db *DB) startSyncer(interval time.Duration) {
 				return
 			case <-syncTicker.C:
 				if err := db.Sync(); err != nil {
+					if db.isClosed() {
+						return
+					}
 					logger.Error().Err(err).Str("context", "startSyncer").Msg("Error syncing to db")
 					panic(err)
 				}
@@ -313,6 +316,10 @@ func (db *_SyncHandle) Sync() error {
 
 // expireEntries run expirer to delete entries from db if ttl was set on entries and that has expired.
 func (db *DB) expireEntries() error {
+	if err := db.begin(); err != nil {
+		return err
+	}
+	defer db.end()
 	// sync happens synchronously.
 	db.internal.syncLockC <- struct{}{}
 	defer func() {
-- 
2.43.0


From c27a3f4c4701834d72da036cd26f7791fe2935be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:02 +0000
Subject: [PATCH 41/41] fix: an entry that is put again goes to the topic and
 contract it has now

---
 db_internal.go | 5 ++++-
 entry.go       | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/db_internal.go b/db_internal.go
index cb72c36..9039aa3 100644
--- a/db_internal.go
+++ b/db_internal.go
@@ -273,7 +273,8 @@ func (db *DB) setEntry(e *Entry) error {
 	var seq uint64
 	var rawTopic []byte
 	expiresAt := e.ExpiresAt
-	if !e.entry.parsed {
+	// entry is put again under the topic and the contract it has now.
+	if !e.entry.parsed || e.entry.contract != e.Contract || e.entry.name != string(e.Topic) {
 		if e.Contract == 0 {
 			e.Contract = message.MasterContract
 		}
@@ -289,6 +290,8 @@ func (db *DB) setEntry(e *Entry) error {
 		e.entry.topic = t.Marshal()
 		// topic with a ttl is parsed each time, as the ttl starts when the entry is put.
 		e.entry.parsed = ttl == 0
+		e.entry.contract = e.Contract
+		e.entry.name = string(e.Topic)
 	}
 	// topic is packed if it is new topic entry, earlier entries of the topic can be deleted before it is synced to disk.
 	if off, ok := db.internal.trie.getOffset(e.entry.topicHash); !ok || off == 0 {
diff --git a/entry.go b/entry.go
index 4e66689..13bc282 100644
--- a/entry.go
+++ b/entry.go
@@ -35,6 +35,8 @@ type (
 		expiresAt uint32 // expiresAt for recovery from log and not persisted to index file but persisted to the time window file.
 
 		parsed    bool
+		contract  uint32 // contract and
+		name      string // topic the entry was parsed for.
 		topic     []byte // raw topic, it is packed with the entry if topic is not on disk yet.
 		topicHash uint64 // topicHash for recovery from log and not persisted to the DB.
 		cache     []byte // entry from memdb if it exist.
-- 
2.43.0

