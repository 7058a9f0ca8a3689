From 0920b58f891007b74768d728c8d0f953a5e60cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:02 +0000
Subject: [PATCH 01/62] fix: in-memory store leaves nothing behind when a batch
 is rejected

A batch rejected because of an unmatched aggregate, a cancelled context or an
event that cannot be serialized kept its earlier events, was rolled back from
the wrong stream, or left a gap in the global sequence numbers.
---
 provider/inmemorystore/inmemory_store.go | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5f7f5fe..5d2ded2 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -237,11 +237,13 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	s.mux.Lock()
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
 		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
@@ -251,6 +253,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 
 		select {
 		case <-ctx.Done():
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, context.Canceled
 
@@ -268,7 +271,7 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			eventRecord.Metadata,
 		)
 		if err != nil {
-			s.removeRecentEvents(createdGlobalSequenceNumbers, eventRecord.Event.AggregateType(), eventRecord.Event.AggregateID())
+			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, err
 		}
@@ -312,8 +315,7 @@ func (s *inMemoryStore) saveEvent(
 		}
 	}
 
-	s.globalSequenceNumber++
-	globalSequenceNumber := s.globalSequenceNumber
+	globalSequenceNumber := s.globalSequenceNumber + 1
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -333,6 +335,7 @@ func (s *inMemoryStore) saveEvent(
 		return nil, nil, err
 	}
 
+	s.globalSequenceNumber = globalSequenceNumber
 	s.records = append(s.records, globalSequenceNumber)
 	s.recordData[globalSequenceNumber] = data
 	s.streams[streamName] = append(s.streams[streamName], globalSequenceNumber)
@@ -341,19 +344,24 @@ func (s *inMemoryStore) saveEvent(
 	return data, record, nil
 }
 
-func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, aggregateType, aggregateID string) {
-	stream := rangedb.GetStream(aggregateType, aggregateID)
+func (s *inMemoryStore) removeRecentEvents(globalSequenceNumbers []uint64, streamName, aggregateType string) {
+	total := len(globalSequenceNumbers)
+	if total == 0 {
+		return
+	}
 
 	for _, globalSequenceNumber := range globalSequenceNumbers {
 		delete(s.recordData, globalSequenceNumber)
 	}
 
-	total := len(globalSequenceNumbers)
-
 	s.globalSequenceNumber -= uint64(total)
 	s.records = rTrimFromUint64Slice(s.records, total)
-	s.streams[stream] = rTrimFromUint64Slice(s.streams[stream], total)
+	s.streams[streamName] = rTrimFromUint64Slice(s.streams[streamName], total)
 	s.aggregateTypes[aggregateType] = rTrimFromUint64Slice(s.aggregateTypes[aggregateType], total)
+
+	if len(s.streams[streamName]) == 0 {
+		delete(s.streams, streamName)
+	}
 }
 
 func rTrimFromUint64Slice(slice []uint64, total int) []uint64 {
-- 
2.43.0


From f6b30b2084b512da0b6b98d722ff27857559f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 02/62] fix: LevelDB store discards its transaction when a
 write fails

A rejected OptimisticDeleteStream, or a failed commit, left the transaction
open, so that the next write blocked forever. The iterator used to look up the
last sequence number was never released.
---
 provider/leveldbstore/leveldb_store.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 031a4bf..5082044 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -145,6 +145,8 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	if err != nil {
 		return err
 	}
+	// Discarding is a no-op once the transaction is committed.
+	defer transaction.Discard()
 
 	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
 	defer iter.Release()
@@ -215,6 +217,8 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	if err != nil {
 		return 0, err
 	}
+	// Discarding is a no-op once the transaction is committed.
+	defer transaction.Discard()
 
 	for _, eventRecord := range eventRecords {
 		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
@@ -510,6 +514,7 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
+	defer iter.Release()
 	iter.Last()
 
 	keySize := len(key)
-- 
2.43.0


From 8f3744432a3d71fe20211ce0d67f252383e96eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:16 +0000
Subject: [PATCH 03/62] fix: LevelDB store keeps streams and aggregate types
 with look-alike names apart

A stream named "a$!b" shares the key prefix of the stream "a", so its events
were read, counted and deleted with those of "a".
---
 provider/leveldbstore/leveldb_store.go | 31 +++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 5082044..ff611f3 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -32,6 +32,7 @@ const (
 	streamPrefix            = "$s$"
 	aggregateTypePrefix     = "$at$"
 	globalSequenceNumberKey = "$gsn$"
+	sequenceNumberSize      = 8
 )
 
 type levelDbStore struct {
@@ -148,12 +149,17 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 	// Discarding is a no-op once the transaction is committed.
 	defer transaction.Discard()
 
-	iter := s.db.NewIterator(util.BytesPrefix([]byte(getStreamKeyPrefix(streamName))), nil)
+	streamKeyPrefix := getStreamKeyPrefix(streamName)
+	iter := s.db.NewIterator(util.BytesPrefix([]byte(streamKeyPrefix)), nil)
 	defer iter.Release()
 
 	cnt := uint64(0)
 	batch := new(leveldb.Batch)
 	for iter.Next() {
+		if !isNumberedKey(iter.Key(), streamKeyPrefix) {
+			continue
+		}
+
 		cnt++
 		record, err := s.getRecordByValue(iter.Value())
 		if err != nil {
@@ -381,6 +387,10 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 		cnt := 0
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), prefix) {
+				continue
+			}
+
 			cnt++
 
 			record, err := s.getRecordByValue(iter.Value())
@@ -429,6 +439,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 		}
 
 		for iter.Next() {
+			if !isNumberedKey(iter.Key(), key) {
+				continue
+			}
+
 			targetKey := iter.Value()
 
 			record, err := s.getRecordByLookup(targetKey, iter)
@@ -515,13 +529,20 @@ func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream st
 func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
-	iter.Last()
 
 	keySize := len(key)
-	if len(iter.Key()) > keySize {
-		lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-		return lastSequenceNumber
+	for ok := iter.Last(); ok; ok = iter.Prev() {
+		if isNumberedKey(iter.Key(), key) {
+			lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
+			return lastSequenceNumber
+		}
 	}
 
 	return 0
 }
+
+// isNumberedKey returns true when key is exactly the prefix followed by a number. Other keys starting with
+// the same prefix belong to a stream, or aggregate type, with a longer name.
+func isNumberedKey(key []byte, prefix string) bool {
+	return len(key) == len(prefix)+sequenceNumberSize
+}
-- 
2.43.0


From c5e5b01ec25e2fc76358a010c51f42dea1bbfc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:42 +0000
Subject: [PATCH 04/62] fix: a cancelled read ends with an error, and never
 keeps the store locked

A reader slower than the publish timeout saw a cancelled read end like a
complete one, errors were published to an abandoned iterator forever with the
store's read lock held, and LevelDB iteration errors were ignored.
---
 provider/inmemorystore/inmemory_store.go |  6 ++--
 provider/leveldbstore/leveldb_store.go   | 26 ++++++++++-----
 provider/remotestore/remote_store.go     | 10 +++---
 publish_record.go                        | 42 +++++++++++++++++++-----
 4 files changed, 59 insertions(+), 25 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 5d2ded2..7372649 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -133,7 +133,7 @@ func (s *inMemoryStore) EventsByStream(ctx context.Context, streamSequenceNumber
 }
 
 func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare func(record *rangedb.Record) bool) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer s.mux.RUnlock()
@@ -142,7 +142,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 		for _, id := range ids {
 			recordData, exists := s.recordData[id]
 			if !exists {
-				resultRecords <- rangedb.ResultRecord{Err: fmt.Errorf("record missing")}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("record missing"), time.Second)
 				return
 			}
 
@@ -150,7 +150,7 @@ func (s *inMemoryStore) recordsByIDs(ctx context.Context, ids []uint64, compare
 			if err != nil {
 				deserializeErr := fmt.Errorf("failed to deserialize record: %v", err)
 				s.logger.Printf(deserializeErr.Error())
-				resultRecords <- rangedb.ResultRecord{Err: deserializeErr}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, deserializeErr, time.Second)
 				return
 			}
 
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index ff611f3..2a1c15a 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -174,6 +174,10 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		batch.Delete(allEventsKey)
 	}
 
+	if err := iter.Error(); err != nil {
+		return err
+	}
+
 	if cnt == 0 {
 		return rangedb.ErrStreamNotFound
 	}
@@ -185,8 +189,6 @@ func (s *levelDbStore) OptimisticDeleteStream(ctx context.Context, expectedStrea
 		}
 	}
 
-	_ = iter.Error()
-
 	err = transaction.Write(batch, nil)
 	if err != nil {
 		return err
@@ -374,7 +376,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 	s.mux.RLock()
 
 	go func() {
@@ -395,7 +397,7 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 
 			record, err := s.getRecordByValue(iter.Value())
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -408,19 +410,21 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 			}
 		}
 
-		if cnt == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+		if err := iter.Error(); err != nil {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return
 		}
 
-		_ = iter.Error()
+		if cnt == 0 {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 	s.mux.RLock()
 
 	go func() {
@@ -447,7 +451,7 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 
 			record, err := s.getRecordByLookup(targetKey, iter)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
@@ -459,6 +463,10 @@ func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, global
 				return
 			}
 		}
+
+		if err := iter.Error(); err != nil {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 4292b69..5bb4c72 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -303,7 +303,7 @@ func (s *remoteStore) TotalEventsInStream(ctx context.Context, streamName string
 }
 
 func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord)
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
 		defer close(resultRecords)
@@ -316,24 +316,24 @@ func (s *remoteStore) readRecords(ctx context.Context, events PbRecordReceiver)
 				}
 
 				if strings.Contains(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{Err: context.Canceled}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, context.Canceled, time.Second)
 					return
 				}
 
 				if strings.Contains(err.Error(), rpcErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+					rangedb.PublishErrorOrCancel(ctx, resultRecords, rangedb.ErrStreamNotFound, time.Second)
 					return
 				}
 
 				log.Printf("failed to get record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
 			record, err := rangedbpb.ToRecord(pbRecord, s.serializer)
 			if err != nil {
 				log.Printf("failed converting to record: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: err}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 				return
 			}
 
diff --git a/publish_record.go b/publish_record.go
index 140811d..e7b51f6 100644
--- a/publish_record.go
+++ b/publish_record.go
@@ -6,13 +6,12 @@ import (
 )
 
 // PublishRecordOrCancel publishes a Record to a ResultRecord channel, or times out.
+//
+// When the timeout expires the error can only be left for a reader that resumes later in a buffered channel.
 func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord, record *Record, timeout time.Duration) bool {
 	select {
 	case <-ctx.Done():
-		select {
-		case <-time.After(timeout):
-		case resultRecords <- ResultRecord{Err: ctx.Err()}:
-		}
+		publishCanceled(ctx, resultRecords, timeout)
 		return false
 
 	default:
@@ -20,10 +19,7 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	select {
 	case <-ctx.Done():
-		select {
-		case <-time.After(timeout):
-		case resultRecords <- ResultRecord{Err: ctx.Err()}:
-		}
+		publishCanceled(ctx, resultRecords, timeout)
 		return false
 
 	case resultRecords <- ResultRecord{Record: record}:
@@ -31,3 +27,33 @@ func PublishRecordOrCancel(ctx context.Context, resultRecords chan ResultRecord,
 
 	return true
 }
+
+// PublishErrorOrCancel publishes an error to a ResultRecord channel, or times out once the context is canceled.
+func PublishErrorOrCancel(ctx context.Context, resultRecords chan ResultRecord, err error, timeout time.Duration) {
+	select {
+	case <-ctx.Done():
+		publishCanceled(ctx, resultRecords, timeout)
+
+	case resultRecords <- ResultRecord{Err: err}:
+	}
+}
+
+func publishCanceled(ctx context.Context, resultRecords chan ResultRecord, timeout time.Duration) {
+	select {
+	case <-time.After(timeout):
+	case resultRecords <- ResultRecord{Err: ctx.Err()}:
+		return
+	}
+
+	// The reader is gone, or busy with a previous record. Replace the record it has not read yet, so that it is not
+	// mistaken for the last one.
+	select {
+	case <-resultRecords:
+	default:
+	}
+
+	select {
+	case resultRecords <- ResultRecord{Err: ctx.Err()}:
+	default:
+	}
+}
-- 
2.43.0


From 1fd7efb92d20a190b5432020b753df71ae3163e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 05/62] fix: merged record iterators report the errors of their
 sources

---
 merge_record_iterators.go | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 3113ebb..7f6e743 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -15,7 +15,7 @@ func (p *pipe) ReadNext() bool {
 		Record: p.recordIterator.Record(),
 		Err:    p.recordIterator.Err(),
 	}
-	return p.currentResultRecord.Record != nil
+	return p.currentResultRecord.Record != nil && p.currentResultRecord.Err == nil
 }
 
 func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
@@ -34,6 +34,9 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			pipe := newPipe(recordIterator)
 			if pipe.ReadNext() {
 				pipes = append(pipes, pipe)
+			} else if pipe.currentResultRecord.Err != nil {
+				publishMergeError(resultRecords, recordIterators, pipe.currentResultRecord.Err)
+				return
 			}
 		}
 
@@ -47,6 +50,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 			currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 			if !pipes[i].ReadNext() {
+				if err := pipes[i].currentResultRecord.Err; err != nil {
+					publishMergeError(resultRecords, recordIterators, err)
+					return
+				}
 				pipes = remove(pipes, i)
 				continue
 			}
@@ -57,6 +64,10 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 				currentPosition = pipes[i].currentResultRecord.Record.GlobalSequenceNumber
 
 				if !pipes[i].ReadNext() {
+					if err := pipes[i].currentResultRecord.Err; err != nil {
+						publishMergeError(resultRecords, recordIterators, err)
+						return
+					}
 					pipes = remove(pipes, i)
 					break
 				}
@@ -67,6 +78,17 @@ func MergeRecordIteratorsInOrder(recordIterators []RecordIterator) RecordIterato
 	return NewRecordIterator(resultRecords)
 }
 
+// publishMergeError ends a merge that cannot continue, after reading the iterators to their end so that none of them
+// is left waiting for a reader.
+func publishMergeError(resultRecords chan<- ResultRecord, recordIterators []RecordIterator, err error) {
+	for _, recordIterator := range recordIterators {
+		for recordIterator.Next() {
+		}
+	}
+
+	resultRecords <- ResultRecord{Err: err}
+}
+
 func remove(s []*pipe, i int) []*pipe {
 	s[i] = s[len(s)-1]
 	return s[:len(s)-1]
-- 
2.43.0


From 67dd7c94b68d4725c5469954bf286010d8f235e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:22 +0000
Subject: [PATCH 06/62] fix: reading several aggregate types takes a single
 read lock

Taking the read lock once per type deadlocks with a writer that waits in
between, and a type given twice returned each of its events twice.
---
 provider/inmemorystore/inmemory_store.go | 16 ++++++++++-----
 provider/leveldbstore/leveldb_store.go   | 26 +++++++++++++++++++++---
 2 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 7372649..400e358 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io/ioutil"
 	"log"
+	"sort"
 	"sync"
 	"time"
 
@@ -99,18 +100,23 @@ func (s *inMemoryStore) Events(ctx context.Context, globalSequenceNumber uint64)
 }
 
 func (s *inMemoryStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
+	s.mux.RLock()
+
 	if len(aggregateTypes) == 1 {
-		s.mux.RLock()
 		return s.recordsByIDs(ctx, s.aggregateTypes[aggregateTypes[0]], compareByGlobalSequenceNumber(globalSequenceNumber))
 	}
 
-	var recordIterators []rangedb.RecordIterator
+	var ids []uint64
+	seen := make(map[string]bool)
 	for _, aggregateType := range aggregateTypes {
-		s.mux.RLock()
-		recordIterators = append(recordIterators, s.recordsByIDs(ctx, s.aggregateTypes[aggregateType], compareByGlobalSequenceNumber(globalSequenceNumber)))
+		if !seen[aggregateType] {
+			seen[aggregateType] = true
+			ids = append(ids, s.aggregateTypes[aggregateType]...)
+		}
 	}
+	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
 
-	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
+	return s.recordsByIDs(ctx, ids, compareByGlobalSequenceNumber(globalSequenceNumber))
 }
 
 func compareByGlobalSequenceNumber(globalSequenceNumber uint64) func(record *rangedb.Record) bool {
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 2a1c15a..a8f9a4e 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -119,11 +119,26 @@ func (s *levelDbStore) EventsByAggregateTypes(ctx context.Context, globalSequenc
 		return s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateTypes[0]), globalSequenceNumber)
 	}
 
+	// A single read lock is shared by all iterators. Taking one for each deadlocks with a writer waiting in between.
+	s.mux.RLock()
+	var readers sync.WaitGroup
+	seen := make(map[string]bool)
+
 	var recordIterators []rangedb.RecordIterator
 	for _, aggregateType := range aggregateTypes {
-		recordIterators = append(recordIterators, s.getEventsByLookup(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber))
+		if seen[aggregateType] {
+			continue
+		}
+		seen[aggregateType] = true
+		readers.Add(1)
+		recordIterators = append(recordIterators, s.lookupEvents(ctx, getAggregateTypeKeyPrefix(aggregateType), globalSequenceNumber, readers.Done))
 	}
 
+	go func() {
+		readers.Wait()
+		s.mux.RUnlock()
+	}()
+
 	return rangedb.MergeRecordIteratorsInOrder(recordIterators)
 }
 
@@ -424,11 +439,16 @@ func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, str
 }
 
 func (s *levelDbStore) getEventsByLookup(ctx context.Context, key string, globalSequenceNumber uint64) rangedb.RecordIterator {
-	resultRecords := make(chan rangedb.ResultRecord, 1)
 	s.mux.RLock()
+	return s.lookupEvents(ctx, key, globalSequenceNumber, s.mux.RUnlock)
+}
+
+// lookupEvents reads events while the caller's read lock is held, until done is called.
+func (s *levelDbStore) lookupEvents(ctx context.Context, key string, globalSequenceNumber uint64, done func()) rangedb.RecordIterator {
+	resultRecords := make(chan rangedb.ResultRecord, 1)
 
 	go func() {
-		defer s.mux.RUnlock()
+		defer done()
 		defer close(resultRecords)
 
 		iter := s.db.NewIterator(util.BytesPrefix([]byte(key)), nil)
-- 
2.43.0


From 4f229791a28af9bf1c019f4bd8575b7d6393fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 07/62] fix: in-memory store broadcasts records in the order
 they were saved

Two concurrent saves could broadcast their records in the opposite order, and
subscribers discard a record older than the last one they received.
---
 provider/inmemorystore/inmemory_store.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index 400e358..fc7211c 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -292,7 +292,8 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 			*expectedStreamSequenceNumber++
 		}
 	}
-	s.mux.Unlock()
+	// Broadcast before unlocking, so that records are broadcast in the order they were saved.
+	defer s.mux.Unlock()
 
 	for _, data := range pendingEventsData {
 		deSerializedRecord, err := s.serializer.Deserialize(data)
-- 
2.43.0


From 07303a7803a35603baeb9633ac0832a2d9cf46d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 08/62] fix: a subscriber dropped for one aggregate type
 receives no others

---
 pkg/broadcast/broadcaster.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 462a41f..8af79b6 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -140,7 +140,9 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 	for subscriber := range b.aggregateTypeSubscribers[record.AggregateType] {
 		select {
 		case <-time.After(b.timeout):
-			delete(b.aggregateTypeSubscribers[record.AggregateType], subscriber)
+			for _, subscribers := range b.aggregateTypeSubscribers {
+				delete(subscribers, subscriber)
+			}
 			subscriber.Stop()
 
 		case subscriber.Receiver() <- record:
-- 
2.43.0


From 36d35d53b0b8c8492c3cce303a48467a8ddc9c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 09/62] fix: record subscriber delivers every record exactly
 once or stops

StartFrom skipped a live record numbered like its starting position, took a
failed read for the end of the store, and a subscriber stopped by the
broadcaster could still consume records following the dropped one. Done is
closed when a record cannot be consumed.
---
 pkg/recordsubscriber/record_subscriber.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index cb43a02..65d5071 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -55,7 +55,10 @@ func (s *recordSubscriber) Receiver() broadcast.SendRecordChan {
 }
 
 func (s *recordSubscriber) StartFrom(globalSequenceNumber uint64) error {
-	s.lastGlobalSequenceNumber = globalSequenceNumber
+	if globalSequenceNumber > 0 {
+		s.lastGlobalSequenceNumber = globalSequenceNumber - 1
+	}
+
 	err := s.writeRecords(globalSequenceNumber)
 	if err != nil {
 		return err
@@ -101,6 +104,11 @@ func (s *recordSubscriber) work() {
 			return
 
 		case record := <-s.bufferedRecords:
+			if s.ctx.Err() != nil {
+				// Records following a dropped one may be buffered after the subscription is stopped.
+				continue
+			}
+
 			if s.recordHasAlreadyBeenSent(record) {
 				continue
 			}
@@ -108,6 +116,7 @@ func (s *recordSubscriber) work() {
 			err := s.writeRecord(record)
 			if err != nil {
 				s.unsubscribe(s)
+				close(s.finishChan)
 				return
 			}
 		}
@@ -135,7 +144,7 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 		}
 	}
 
-	return nil
+	return iter.Err()
 }
 
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
-- 
2.43.0


From ad5db3b374619a240d0fef73ab99e1a71bcb3406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:54 +0000
Subject: [PATCH 10/62] fix: raw event data is kept by the MessagePack
 serializer

---
 store.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/store.go b/store.go
index 8dbeacb..ee6b3c4 100644
--- a/store.go
+++ b/store.go
@@ -5,6 +5,8 @@ import (
 	"encoding/json"
 	"fmt"
 	"strings"
+
+	"github.com/vmihailenco/msgpack/v4"
 )
 
 // Version for RangeDB.
@@ -194,4 +196,9 @@ func (e rawEvent) MarshalJSON() ([]byte, error) {
 	return json.Marshal(e.data)
 }
 
+// EncodeMsgpack encodes the event data, as MarshalJSON does.
+func (e rawEvent) EncodeMsgpack(encoder *msgpack.Encoder) error {
+	return encoder.Encode(e.data)
+}
+
 var ErrStreamNotFound = fmt.Errorf("stream not found")
-- 
2.43.0


From 8f346f3d69d409ed42f1c79eeec944e68a436f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:23 +0000
Subject: [PATCH 11/62] fix: a batch may not mix an aggregate with an empty
 type or ID with another

---
 provider/inmemorystore/inmemory_store.go | 6 +++---
 provider/leveldbstore/leveldb_store.go   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/provider/inmemorystore/inmemory_store.go b/provider/inmemorystore/inmemory_store.go
index fc7211c..52fbd84 100644
--- a/provider/inmemorystore/inmemory_store.go
+++ b/provider/inmemorystore/inmemory_store.go
@@ -241,14 +241,14 @@ func (s *inMemoryStore) saveEvents(ctx context.Context, expectedStreamSequenceNu
 	var createdGlobalSequenceNumbers []uint64
 
 	s.mux.Lock()
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			s.removeRecentEvents(createdGlobalSequenceNumbers, streamName, aggregateType)
 			s.mux.Unlock()
 			return 0, fmt.Errorf("unmatched aggregate ID")
diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index a8f9a4e..3f07895 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -243,13 +243,13 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	// Discarding is a no-op once the transaction is committed.
 	defer transaction.Discard()
 
-	for _, eventRecord := range eventRecords {
-		if aggregateType != "" && aggregateType != eventRecord.Event.AggregateType() {
+	for i, eventRecord := range eventRecords {
+		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate type")
 		}
 
-		if aggregateID != "" && aggregateID != eventRecord.Event.AggregateID() {
+		if i > 0 && aggregateID != eventRecord.Event.AggregateID() {
 			transaction.Discard()
 			return 0, fmt.Errorf("unmatched aggregate ID")
 		}
-- 
2.43.0


From fda043c5e63ccb7d30a9bb8c697bf0a393db8a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:54 +0000
Subject: [PATCH 12/62] fix: aggregate types are subscribed to at once

A subscriber dropped for one type while it was being subscribed to the
others was subscribed to those after it had been stopped.
---
 pkg/broadcast/broadcaster.go | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 8af79b6..45a3543 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -37,7 +37,7 @@ type Broadcaster interface {
 type broadcaster struct {
 	subscribeAllEvents        chan RecordSubscriber
 	unsubscribeAllEvents      chan RecordSubscriber
-	subscribeAggregateTypes   chan AggregateTypeSubscription
+	subscribeAggregateTypes   chan []AggregateTypeSubscription
 	unsubscribeAggregateTypes chan AggregateTypeSubscription
 	bufferedRecords           chan *rangedb.Record
 	stopChan                  chan struct{}
@@ -51,7 +51,7 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 	broadcaster := &broadcaster{
 		subscribeAllEvents:        make(chan RecordSubscriber),
 		unsubscribeAllEvents:      make(chan RecordSubscriber),
-		subscribeAggregateTypes:   make(chan AggregateTypeSubscription),
+		subscribeAggregateTypes:   make(chan []AggregateTypeSubscription),
 		unsubscribeAggregateTypes: make(chan AggregateTypeSubscription),
 		bufferedRecords:           make(chan *rangedb.Record, bufferSize),
 		stopChan:                  make(chan struct{}),
@@ -80,13 +80,17 @@ func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	}
 }
 
+// SubscribeAggregateTypes subscribes to all aggregate types at once, so that a subscriber dropped for one type is not
+// subscribed to the remaining ones afterwards.
 func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
+	var subscriptions []AggregateTypeSubscription
 	for _, aggregateType := range aggregateTypes {
-		b.subscribeAggregateTypes <- AggregateTypeSubscription{
+		subscriptions = append(subscriptions, AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
-		}
+		})
 	}
+	b.subscribeAggregateTypes <- subscriptions
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
@@ -107,11 +111,13 @@ func (b *broadcaster) start() {
 		case subscriber := <-b.unsubscribeAllEvents:
 			delete(b.allEventsSubscribers, subscriber)
 
-		case subscription := <-b.subscribeAggregateTypes:
-			if _, ok := b.aggregateTypeSubscribers[subscription.AggregateType]; !ok {
-				b.aggregateTypeSubscribers[subscription.AggregateType] = make(map[RecordSubscriber]struct{})
+		case subscriptions := <-b.subscribeAggregateTypes:
+			for _, subscription := range subscriptions {
+				if _, ok := b.aggregateTypeSubscribers[subscription.AggregateType]; !ok {
+					b.aggregateTypeSubscribers[subscription.AggregateType] = make(map[RecordSubscriber]struct{})
+				}
+				b.aggregateTypeSubscribers[subscription.AggregateType][subscription.Subscriber] = struct{}{}
 			}
-			b.aggregateTypeSubscribers[subscription.AggregateType][subscription.Subscriber] = struct{}{}
 
 		case subscription := <-b.unsubscribeAggregateTypes:
 			delete(b.aggregateTypeSubscribers[subscription.AggregateType], subscription.Subscriber)
-- 
2.43.0


From d435aeeae561d08a869b382a84542a6ab1e559ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:47 +0000
Subject: [PATCH 13/62] fix: a record subscriber stopped while catching up
 delivers nothing more

It went on to the end of the history. Reads that end early are also
drained, so that they do not keep the store locked.
---
 pkg/recordsubscriber/record_subscriber.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 65d5071..7bc2039 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -138,8 +138,14 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 			return iter.Err()
 		}
 
+		if s.ctx.Err() != nil {
+			drain(iter)
+			return context.Canceled
+		}
+
 		err := s.writeRecord(iter.Record())
 		if err != nil {
+			drain(iter)
 			return err
 		}
 	}
@@ -147,6 +153,12 @@ func (s *recordSubscriber) writeRecords(globalSequenceNumber uint64) error {
 	return iter.Err()
 }
 
+// drain reads an iterator to its end, so that nothing is kept open for the remaining records.
+func drain(iter rangedb.RecordIterator) {
+	for iter.Next() {
+	}
+}
+
 func (s *recordSubscriber) writeRecord(record *rangedb.Record) error {
 	s.lastGlobalSequenceNumber = record.GlobalSequenceNumber
 	return s.consumeRecord(record)
-- 
2.43.0


From 48400269c29547cf2d08d11858c24db56d218b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 14/62] fix: a record without data is refused when it is saved,
 not when it is read

With the JSON serializer one event without data made every later read
that contained it fail.
---
 .../json_record_serializer.go                 | 31 +++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 15c3b28..7dee232 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -25,8 +25,21 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 	s.eventIdentifier.Bind(events...)
 }
 
+// Serialize encodes a record. A record without data is refused, because Deserialize refuses it.
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
-	data, err := json.Marshal(record)
+	eventData, err := json.Marshal(record.Data)
+	if err != nil {
+		return nil, fmt.Errorf("failed marshalling record: %v", err)
+	}
+
+	if string(eventData) == "null" {
+		return nil, fmt.Errorf("failed marshalling record: missing event data")
+	}
+
+	newRecord := *record
+	newRecord.Data = json.RawMessage(eventData)
+
+	data, err := json.Marshal(&newRecord)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
 	}
@@ -38,7 +51,16 @@ func (s *jsonSerializer) Deserialize(serializedData []byte) (*rangedb.Record, er
 	decoder := json.NewDecoder(bytes.NewReader(serializedData))
 	decoder.UseNumber()
 
-	return UnmarshalRecord(decoder, s.eventIdentifier)
+	record, err := UnmarshalRecord(decoder, s.eventIdentifier)
+	if err != nil {
+		return nil, err
+	}
+
+	if record.Data == nil {
+		return nil, fmt.Errorf("failed unmarshalling event within record: %v", io.EOF)
+	}
+
+	return record, nil
 }
 
 func (s *jsonSerializer) EventTypeLookup(eventTypeName string) (reflect.Type, bool) {
@@ -58,6 +80,11 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 		return nil, fmt.Errorf("failed unmarshalling record: %v", err)
 	}
 
+	if record.Data == nil {
+		// The record was saved without data.
+		return &record, nil
+	}
+
 	data, err := DecodeJsonData(record.EventType, bytes.NewReader(rawEvent), eventTypeIdentifier)
 	if err != nil {
 		return nil, fmt.Errorf("failed unmarshalling event within record: %v", err)
-- 
2.43.0


From 23d14ce0622c7fa94eabe87eed4f069a5ec2544b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:41 +0000
Subject: [PATCH 15/62] fix: the MessagePack serializer refuses damaged records

It panicked on some, and took a record cut short at certain places for
the end of the input.
---
 .../msgpack_record_serializer.go              | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/provider/msgpackrecordserializer/msgpack_record_serializer.go b/provider/msgpackrecordserializer/msgpack_record_serializer.go
index 353cde1..06282f0 100644
--- a/provider/msgpackrecordserializer/msgpack_record_serializer.go
+++ b/provider/msgpackrecordserializer/msgpack_record_serializer.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"errors"
 	"fmt"
+	"io"
 	"reflect"
 
 	"github.com/vmihailenco/msgpack/v4"
@@ -71,19 +72,24 @@ func MarshalRecord(record *rangedb.Record) ([]byte, error) {
 //
 // The record, excluding data, is decoded first. Then, event data is decoded.
 // Event data will be parsed into a struct if supplied by getEventType.
-func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (*rangedb.Record, error) {
-	record := rangedb.Record{}
-
-	decodeErr := decoder.Decode(&record)
-	if decodeErr != nil {
-		var err error
-		if decodeErr.Error() == "EOF" {
-			err = ErrorEOF
-		} else {
-			err = fmt.Errorf("failed decoding record: %v", decodeErr)
+//
+// ErrorEOF is returned only when there is no record to decode. The decoder panics on some invalid input.
+func UnmarshalRecord(decoder *msgpack.Decoder, eventTypeIdentifier rangedb.EventTypeIdentifier) (_ *rangedb.Record, err error) {
+	defer func() {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("failed decoding record: %v", r)
 		}
+	}()
+
+	if _, err := decoder.PeekCode(); err == io.EOF {
+		return nil, ErrorEOF
+	}
+
+	record := rangedb.Record{}
 
-		return nil, err
+	err = decoder.Decode(&record)
+	if err != nil {
+		return nil, fmt.Errorf("failed decoding record: %v", err)
 	}
 
 	eventType, ok := eventTypeIdentifier.EventTypeLookup(record.EventType)
-- 
2.43.0


From 3e5b1705275ed7d1c337c461a4bd304e3ad60053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 16/62] fix: merging record iterators stops where Next says
 there is no next record

---
 merge_record_iterators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/merge_record_iterators.go b/merge_record_iterators.go
index 7f6e743..1684bcd 100644
--- a/merge_record_iterators.go
+++ b/merge_record_iterators.go
@@ -10,12 +10,12 @@ func newPipe(recordIterator RecordIterator) *pipe {
 }
 
 func (p *pipe) ReadNext() bool {
-	p.recordIterator.Next()
+	hasNext := p.recordIterator.Next()
 	p.currentResultRecord = ResultRecord{
 		Record: p.recordIterator.Record(),
 		Err:    p.recordIterator.Err(),
 	}
-	return p.currentResultRecord.Record != nil && p.currentResultRecord.Err == nil
+	return hasNext && p.currentResultRecord.Record != nil && p.currentResultRecord.Err == nil
 }
 
 func (p *pipe) IsNextGlobalSequenceNumber(currentPosition uint64) bool {
-- 
2.43.0


From 2614d697bdfb7c32ae2290576bcc2588386245c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:51 +0000
Subject: [PATCH 17/62] fix: record streams report every failure of their
 source, input and output

---
 .../json_record_io_stream.go                  | 51 +++++++++++++++++--
 .../json_record_serializer.go                 |  2 +-
 .../msgpack_record_io_stream.go               | 10 +++-
 .../ndjson_record_io_stream.go                | 21 ++++++--
 4 files changed, 74 insertions(+), 10 deletions(-)

diff --git a/provider/jsonrecordiostream/json_record_io_stream.go b/provider/jsonrecordiostream/json_record_io_stream.go
index 16c0e4b..c80078c 100644
--- a/provider/jsonrecordiostream/json_record_io_stream.go
+++ b/provider/jsonrecordiostream/json_record_io_stream.go
@@ -27,7 +27,10 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 	go func() {
 		defer close(errors)
 
-		_, _ = fmt.Fprint(writer, "[")
+		if _, err := fmt.Fprint(writer, "["); err != nil {
+			errors <- fmt.Errorf("failed writing events: %v", err)
+			return
+		}
 
 		totalSaved := 0
 		for recordIterator.Next() {
@@ -43,14 +46,28 @@ func (s *jsonRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Reco
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, ",")
+				if _, err := fmt.Fprint(writer, ","); err != nil {
+					errors <- fmt.Errorf("failed writing event: %v", err)
+					return
+				}
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			if _, err := fmt.Fprintf(writer, "%s", data); err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
-		_, _ = fmt.Fprint(writer, "]")
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+			return
+		}
+
+		if _, err := fmt.Fprint(writer, "]"); err != nil {
+			errors <- fmt.Errorf("failed writing events: %v", err)
+		}
 	}()
 
 	return errors
@@ -65,7 +82,7 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		_, err := decoder.Token()
+		err := readDelim(decoder, '[')
 		if err != nil {
 			if err == io.EOF {
 				return
@@ -93,11 +110,35 @@ func (s *jsonRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 				Err:    nil,
 			}
 		}
+
+		err = readDelim(decoder, ']')
+		if err != nil {
+			if err == io.EOF {
+				err = io.ErrUnexpectedEOF
+			}
+			resultRecords <- rangedb.ResultRecord{
+				Record: nil,
+				Err:    fmt.Errorf("failed reading end of events: %v", err),
+			}
+		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+func readDelim(decoder *json.Decoder, expected json.Delim) error {
+	token, err := decoder.Token()
+	if err != nil {
+		return err
+	}
+
+	if token != expected {
+		return fmt.Errorf("unexpected %v, expected %v", token, expected)
+	}
+
+	return nil
+}
+
 func (s *jsonRecordIoStream) Bind(events ...rangedb.Event) {
 	s.eventIdentifier.Bind(events...)
 }
diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index 7dee232..eb44040 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -77,7 +77,7 @@ func UnmarshalRecord(decoder *json.Decoder, eventTypeIdentifier rangedb.EventTyp
 	}
 	err := decoder.Decode(&record)
 	if err != nil {
-		return nil, fmt.Errorf("failed unmarshalling record: %v", err)
+		return nil, fmt.Errorf("failed unmarshalling record: %w", err)
 	}
 
 	if record.Data == nil {
diff --git a/provider/msgpackrecordiostream/msgpack_record_io_stream.go b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
index a6ccd27..dc43c64 100644
--- a/provider/msgpackrecordiostream/msgpack_record_io_stream.go
+++ b/provider/msgpackrecordiostream/msgpack_record_io_stream.go
@@ -1,6 +1,7 @@
 package msgpackrecordiostream
 
 import (
+	"fmt"
 	"io"
 	"reflect"
 
@@ -43,7 +44,14 @@ func (s *msgpackRecordIoStream) Write(writer io.Writer, recordIterator rangedb.R
 				return
 			}
 
-			_, _ = writer.Write(serializedRecord)
+			if _, err := writer.Write(serializedRecord); err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				return
+			}
+		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
 		}
 	}()
 
diff --git a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
index 383a6b2..c9ba94c 100644
--- a/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
+++ b/provider/ndjsonrecordiostream/ndjson_record_io_stream.go
@@ -2,6 +2,7 @@ package ndjsonrecordiostream
 
 import (
 	"encoding/json"
+	"errors"
 	"fmt"
 	"io"
 	"reflect"
@@ -35,7 +36,10 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 			}
 
 			if totalSaved > 0 {
-				_, _ = fmt.Fprint(writer, "\n")
+				if _, err := fmt.Fprint(writer, "\n"); err != nil {
+					errors <- fmt.Errorf("failed writing event: %v", err)
+					return
+				}
 			}
 
 			data, err := json.Marshal(recordIterator.Record())
@@ -44,10 +48,17 @@ func (s *ndJSONRecordIoStream) Write(writer io.Writer, recordIterator rangedb.Re
 				return
 			}
 
-			_, _ = fmt.Fprintf(writer, "%s", data)
+			if _, err := fmt.Fprintf(writer, "%s", data); err != nil {
+				errors <- fmt.Errorf("failed writing event: %v", err)
+				return
+			}
 
 			totalSaved++
 		}
+
+		if recordIterator.Err() != nil {
+			errors <- recordIterator.Err()
+		}
 	}()
 
 	return errors
@@ -62,9 +73,13 @@ func (s *ndJSONRecordIoStream) Read(reader io.Reader) rangedb.RecordIterator {
 		decoder := json.NewDecoder(reader)
 		decoder.UseNumber()
 
-		for decoder.More() {
+		for {
 			record, err := jsonrecordserializer.UnmarshalRecord(decoder, s)
 			if err != nil {
+				if errors.Is(err, io.EOF) {
+					return
+				}
+
 				resultRecords <- rangedb.ResultRecord{
 					Record: nil,
 					Err:    err,
-- 
2.43.0


From d872daa2b249f80995f56c5c4c61f7b59b1ba5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:44 +0000
Subject: [PATCH 18/62] fix: record metadata and stream names survive their
 conversions

---
 pkg/grpc/rangedbpb/translate.go | 5 ++++-
 store.go                        | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/pkg/grpc/rangedbpb/translate.go b/pkg/grpc/rangedbpb/translate.go
index 03043ad..ff073b0 100644
--- a/pkg/grpc/rangedbpb/translate.go
+++ b/pkg/grpc/rangedbpb/translate.go
@@ -48,7 +48,10 @@ func ToRecord(pbRecord *Record, eventTypeIdentifier rangedb.EventTypeIdentifier)
 
 	var metadata interface{}
 	if pbRecord.Metadata != "null" {
-		err = json.Unmarshal([]byte(pbRecord.Metadata), &metadata)
+		metadataDecoder := json.NewDecoder(strings.NewReader(pbRecord.Metadata))
+		metadataDecoder.UseNumber()
+
+		err = metadataDecoder.Decode(&metadata)
 		if err != nil {
 			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
diff --git a/store.go b/store.go
index ee6b3c4..50f9dc2 100644
--- a/store.go
+++ b/store.go
@@ -134,7 +134,11 @@ func GetStream(aggregateType, aggregateID string) string {
 
 // ParseStream returns the aggregateType and aggregateID for a stream name.
 func ParseStream(streamName string) (aggregateType, aggregateID string) {
-	pieces := strings.Split(streamName, "!")
+	pieces := strings.SplitN(streamName, "!", 2)
+	if len(pieces) < 2 {
+		return pieces[0], ""
+	}
+
 	return pieces[0], pieces[1]
 }
 
-- 
2.43.0


From 442e9f3a8ee61ef3dd682f21fec87c25d0eb784a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:07 +0000
Subject: [PATCH 19/62] fix: a closed broadcaster stops its subscribers and
 blocks nobody

---
 pkg/broadcast/broadcaster.go | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index 45a3543..e519ed3 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -66,17 +66,28 @@ func New(bufferSize int, timeout time.Duration) *broadcaster {
 }
 
 func (b *broadcaster) Accept(record *rangedb.Record) {
-	b.bufferedRecords <- record
+	select {
+	case b.bufferedRecords <- record:
+	case <-b.stopChan:
+	}
 }
 
 func (b *broadcaster) SubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.subscribeAllEvents <- subscriber
+		select {
+		case b.subscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+			subscriber.Stop()
+		}
 	}
 }
+
 func (b *broadcaster) UnsubscribeAllEvents(subscribers ...RecordSubscriber) {
 	for _, subscriber := range subscribers {
-		b.unsubscribeAllEvents <- subscriber
+		select {
+		case b.unsubscribeAllEvents <- subscriber:
+		case <-b.stopChan:
+		}
 	}
 }
 
@@ -90,15 +101,25 @@ func (b *broadcaster) SubscribeAggregateTypes(subscriber RecordSubscriber, aggre
 			Subscriber:    subscriber,
 		})
 	}
-	b.subscribeAggregateTypes <- subscriptions
+
+	select {
+	case b.subscribeAggregateTypes <- subscriptions:
+	case <-b.stopChan:
+		subscriber.Stop()
+	}
 }
 
 func (b *broadcaster) UnsubscribeAggregateTypes(subscriber RecordSubscriber, aggregateTypes ...string) {
 	for _, aggregateType := range aggregateTypes {
-		b.unsubscribeAggregateTypes <- AggregateTypeSubscription{
+		subscription := AggregateTypeSubscription{
 			AggregateType: aggregateType,
 			Subscriber:    subscriber,
 		}
+
+		select {
+		case b.unsubscribeAggregateTypes <- subscription:
+		case <-b.stopChan:
+		}
 	}
 }
 
-- 
2.43.0


From 7a0d7c629825e08dce2d95bff185a36f73a5be92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:15 +0000
Subject: [PATCH 20/62] fix: gRPC server reports failing reads and keeps
 integers exact

---
 pkg/grpc/rangedbserver/server.go | 16 ++++-----
 pkg/jsontools/json_tools.go      | 56 ++++++++++++++++++++++++++++++++
 2 files changed, 63 insertions(+), 9 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index d5269bd..0757cf6 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -2,7 +2,6 @@ package rangedbserver
 
 import (
 	"context"
-	"encoding/json"
 	"fmt"
 	"log"
 
@@ -12,6 +11,7 @@ import (
 	"github.com/inklabs/rangedb"
 	"github.com/inklabs/rangedb/pkg/broadcast"
 	"github.com/inklabs/rangedb/pkg/grpc/rangedbpb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/recordsubscriber"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
 )
@@ -97,7 +97,7 @@ func (s *rangeDBServer) Events(req *rangedbpb.EventsRequest, stream rangedbpb.Ra
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) EventsByStream(req *rangedbpb.EventsByStreamRequest, stream rangedbpb.RangeDB_EventsByStreamServer) error {
@@ -144,7 +144,7 @@ func (s *rangeDBServer) EventsByAggregateType(req *rangedbpb.EventsByAggregateTy
 		}
 	}
 
-	return nil
+	return recordIterator.Err()
 }
 
 func (s *rangeDBServer) OptimisticDeleteStream(ctx context.Context, req *rangedbpb.OptimisticDeleteStreamRequest) (*rangedbpb.OptimisticDeleteStreamResponse, error) {
@@ -162,8 +162,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := jsontools.UnmarshalExact([]byte(event.Data))
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -175,7 +174,7 @@ func (s *rangeDBServer) OptimisticSave(ctx context.Context, req *rangedbpb.Optim
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = jsontools.UnmarshalExact([]byte(event.Metadata))
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
@@ -217,8 +216,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 	var eventRecords []*rangedb.EventRecord
 
 	for _, event := range req.Events {
-		var data interface{}
-		err := json.Unmarshal([]byte(event.Data), &data)
+		data, err := jsontools.UnmarshalExact([]byte(event.Data))
 		if err != nil {
 			message := fmt.Sprintf("unable to read event data: %v", err)
 			st := status.New(codes.InvalidArgument, message)
@@ -230,7 +228,7 @@ func (s *rangeDBServer) Save(ctx context.Context, req *rangedbpb.SaveRequest) (*
 
 		var metadata interface{}
 		if event.Metadata != "" {
-			err = json.Unmarshal([]byte(event.Metadata), &metadata)
+			metadata, err = jsontools.UnmarshalExact([]byte(event.Metadata))
 			if err != nil {
 				message := fmt.Sprintf("unable to read event metadata: %v", err)
 				st := status.New(codes.InvalidArgument, message)
diff --git a/pkg/jsontools/json_tools.go b/pkg/jsontools/json_tools.go
index d5d3035..f4cfd98 100644
--- a/pkg/jsontools/json_tools.go
+++ b/pkg/jsontools/json_tools.go
@@ -3,9 +3,65 @@ package jsontools
 import (
 	"bytes"
 	"encoding/json"
+	"fmt"
+	"io"
+	"strconv"
 	"strings"
 )
 
+// UnmarshalExact decodes a JSON value like json.Unmarshal into an interface{}, except that integers keep their exact
+// value instead of being rounded to a float64.
+func UnmarshalExact(input []byte) (interface{}, error) {
+	decoder := json.NewDecoder(bytes.NewReader(input))
+	decoder.UseNumber()
+
+	var value interface{}
+	err := decoder.Decode(&value)
+	if err != nil {
+		return nil, err
+	}
+
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("invalid data after top-level value")
+	}
+
+	return withExactNumbers(value), nil
+}
+
+func withExactNumbers(value interface{}) interface{} {
+	switch v := value.(type) {
+	case json.Number:
+		if i, err := strconv.ParseInt(v.String(), 10, 64); err == nil {
+			return i
+		}
+
+		if u, err := strconv.ParseUint(v.String(), 10, 64); err == nil {
+			return u
+		}
+
+		if f, err := v.Float64(); err == nil && !isInteger(v) {
+			return f
+		}
+
+	case []interface{}:
+		for i := range v {
+			v[i] = withExactNumbers(v[i])
+		}
+
+	case map[string]interface{}:
+		for key := range v {
+			v[key] = withExactNumbers(v[key])
+		}
+	}
+
+	return value
+}
+
+func isInteger(number json.Number) bool {
+	return !strings.ContainsAny(number.String(), ".eE")
+}
+
 // PrettyJSONString returns a human readable JSON formatted string.
 func PrettyJSONString(input string) string {
 	return PrettyJSON([]byte(input))
-- 
2.43.0


From 218a92fb23b4ee23cb269b037afa9662190a56e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:45 +0000
Subject: [PATCH 21/62] fix: remote subscriptions miss no event after they
 start, and end when they cannot continue

---
 pkg/grpc/rangedbserver/server.go          | 28 +++++++++++++++++------
 pkg/recordsubscriber/record_subscriber.go |  6 +++++
 provider/remotestore/remote_store.go      | 15 ++++++++----
 3 files changed, 38 insertions(+), 11 deletions(-)

diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 0757cf6..1866747 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -6,6 +6,7 @@ import (
 	"log"
 
 	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/metadata"
 	"google.golang.org/grpc/status"
 
 	"github.com/inklabs/rangedb"
@@ -280,9 +281,11 @@ func (s *rangeDBServer) SubscribeToLiveEvents(_ *rangedbpb.SubscribeToLiveEvents
 		return err
 	}
 
-	<-stream.Context().Done()
+	// The header tells the client that it will receive every event saved from now on. Sending it fails when it has
+	// already been sent along with the first event.
+	_ = stream.SendHeader(metadata.MD{})
 
-	return nil
+	return waitForSubscriber(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsRequest, stream rangedbpb.RangeDB_SubscribeToEventsServer) error {
@@ -301,9 +304,7 @@ func (s *rangeDBServer) SubscribeToEvents(req *rangedbpb.SubscribeToEventsReques
 		return err
 	}
 
-	<-stream.Context().Done()
-
-	return nil
+	return waitForSubscriber(stream.Context(), subscriber)
 }
 
 func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.SubscribeToEventsByAggregateTypeRequest, stream rangedbpb.RangeDB_SubscribeToEventsByAggregateTypeServer) error {
@@ -323,9 +324,22 @@ func (s *rangeDBServer) SubscribeToEventsByAggregateType(req *rangedbpb.Subscrib
 		return err
 	}
 
-	<-stream.Context().Done()
+	return waitForSubscriber(stream.Context(), subscriber)
+}
 
-	return nil
+type doneNotifier interface {
+	Done() <-chan struct{}
+}
+
+// waitForSubscriber blocks until the subscriber is done, and returns an error unless the client is.
+func waitForSubscriber(ctx context.Context, subscriber doneNotifier) error {
+	<-subscriber.Done()
+
+	if ctx.Err() != nil {
+		return nil
+	}
+
+	return status.Error(codes.Aborted, "subscription stopped")
 }
 
 func (s *rangeDBServer) TotalEventsInStream(ctx context.Context, request *rangedbpb.TotalEventsInStreamRequest) (*rangedbpb.TotalEventsInStreamResponse, error) {
diff --git a/pkg/recordsubscriber/record_subscriber.go b/pkg/recordsubscriber/record_subscriber.go
index 7bc2039..89100fa 100644
--- a/pkg/recordsubscriber/record_subscriber.go
+++ b/pkg/recordsubscriber/record_subscriber.go
@@ -86,6 +86,12 @@ func (s *recordSubscriber) Start() error {
 	}
 
 	s.subscribe(s)
+
+	if s.ctx.Err() != nil {
+		s.unsubscribe(s)
+		return context.Canceled
+	}
+
 	go s.work()
 	return nil
 }
diff --git a/provider/remotestore/remote_store.go b/provider/remotestore/remote_store.go
index 5bb4c72..aac6393 100644
--- a/provider/remotestore/remote_store.go
+++ b/provider/remotestore/remote_store.go
@@ -356,13 +356,20 @@ func (s *remoteStore) listenForEvents() error {
 		return err
 	}
 
+	// The header is sent once the server is subscribed.
+	_, err = events.Header()
+	if err != nil {
+		err = fmt.Errorf("failed to subscribe: %v", err)
+		log.Print(err)
+		return err
+	}
+
 	go func() {
+		// No further events will be received, so all subscriptions end.
+		defer s.broadcaster.Close()
+
 		recordIterator := s.readRecords(ctx, events)
 		for recordIterator.Next() {
-			if recordIterator.Err() != nil {
-				continue
-			}
-
 			s.broadcaster.Accept(recordIterator.Record())
 		}
 	}()
-- 
2.43.0


From a5d5ccf58b57118c26ba3e5d4fbcffd76a3ea627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:03 +0000
Subject: [PATCH 22/62] fix: the HTTP API keeps integers exact, refuses
 trailing input and reports failing reads

---
 pkg/rangedbapi/api.go | 92 ++++++++++++++++++++++++++++++++++++-------
 1 file changed, 77 insertions(+), 15 deletions(-)

diff --git a/pkg/rangedbapi/api.go b/pkg/rangedbapi/api.go
index d23b6e4..561ef0e 100644
--- a/pkg/rangedbapi/api.go
+++ b/pkg/rangedbapi/api.go
@@ -5,6 +5,7 @@ import (
 	"encoding/base64"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -15,6 +16,7 @@ import (
 	"github.com/gorilla/mux"
 
 	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/jsontools"
 	"github.com/inklabs/rangedb/pkg/projection"
 	"github.com/inklabs/rangedb/pkg/rangedberror"
 	"github.com/inklabs/rangedb/provider/inmemorystore"
@@ -259,28 +261,45 @@ func writeFailedResponse(w http.ResponseWriter, message string, statusCode int)
 
 func getEventRecords(r *http.Request) ([]*rangedb.EventRecord, error) {
 	var events []struct {
-		AggregateType string      `json:"aggregateType"`
-		AggregateID   string      `json:"aggregateID"`
-		EventType     string      `json:"eventType"`
-		Data          interface{} `json:"data"`
-		Metadata      interface{} `json:"metadata"`
+		AggregateType string     `json:"aggregateType"`
+		AggregateID   string     `json:"aggregateID"`
+		EventType     string     `json:"eventType"`
+		Data          exactValue `json:"data"`
+		Metadata      exactValue `json:"metadata"`
 	}
-	err := json.NewDecoder(r.Body).Decode(&events)
+	decoder := json.NewDecoder(r.Body)
+	err := decoder.Decode(&events)
 	if err != nil {
 		return nil, fmt.Errorf("invalid json request body: %v", err)
 	}
 
+	_, err = decoder.Token()
+	if err != io.EOF {
+		return nil, fmt.Errorf("invalid json request body: invalid data after events")
+	}
+
 	var eventRecords []*rangedb.EventRecord
 	for _, event := range events {
 		eventRecords = append(eventRecords, &rangedb.EventRecord{
-			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, event.Data),
-			Metadata: event.Metadata,
+			Event:    rangedb.NewRawEvent(event.AggregateType, event.AggregateID, event.EventType, event.Data.value),
+			Metadata: event.Metadata.value,
 		})
 	}
 
 	return eventRecords, nil
 }
 
+// exactValue is any JSON value, without rounding its integers to a float64.
+type exactValue struct {
+	value interface{}
+}
+
+func (e *exactValue) UnmarshalJSON(input []byte) error {
+	value, err := jsontools.UnmarshalExact(input)
+	e.value = value
+	return err
+}
+
 func (a *api) AggregateTypeStatsProjection() *projection.AggregateTypeStats {
 	return a.projections.aggregateTypeStats
 }
@@ -316,27 +335,70 @@ func (a *api) listAggregateTypes(w http.ResponseWriter, _ *http.Request) {
 }
 
 func (a *api) writeEvents(w http.ResponseWriter, recordIterator rangedb.RecordIterator, extension string) {
+	events := &startedIterator{
+		RecordIterator: recordIterator,
+		hasFirst:       recordIterator.Next(),
+	}
+
+	if err := recordIterator.Err(); err != nil {
+		w.Header().Set("Content-Type", "application/json")
+
+		if err == rangedb.ErrStreamNotFound {
+			writeFailedResponse(w, err.Error(), http.StatusNotFound)
+			return
+		}
+
+		a.logger.Printf("unable to read events: %v", err)
+		writeFailedResponse(w, "internal server error", http.StatusInternalServerError)
+		return
+	}
+
+	var err error
 	switch extension {
 	case "json":
 		w.Header().Set(`Content-Type`, `application/json`)
-		errors := a.jsonRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.jsonRecordIoStream.Write(w, events)
 
 	case "ndjson":
 		w.Header().Set(`Content-Type`, `application/json; boundary=LF`)
-		errors := a.ndJSONRecordIoStream.Write(w, recordIterator)
-		<-errors
+		err = <-a.ndJSONRecordIoStream.Write(w, events)
 
 	case "msgpack":
 		w.Header().Set(`Content-Type`, `application/msgpack`)
 		base64Writer := base64.NewEncoder(base64.RawStdEncoding, w)
-		errors := a.msgpackRecordIoStream.Write(base64Writer, recordIterator)
-		<-errors
-		_ = base64Writer.Close()
+		err = <-a.msgpackRecordIoStream.Write(base64Writer, events)
+		if closeErr := base64Writer.Close(); err == nil {
+			err = closeErr
+		}
+	}
 
+	if err != nil {
+		a.logger.Printf("unable to write events: %v", err)
+		// The status has been sent: only a broken connection tells the client that events are missing.
+		panic(http.ErrAbortHandler)
 	}
 }
 
+// startedIterator is a RecordIterator that has already been advanced to its first record.
+type startedIterator struct {
+	rangedb.RecordIterator
+	hasFirst bool
+	isPast   bool
+}
+
+func (i *startedIterator) Next() bool {
+	return i.NextContext(context.Background())
+}
+
+func (i *startedIterator) NextContext(ctx context.Context) bool {
+	if !i.isPast {
+		i.isPast = true
+		return i.hasFirst
+	}
+
+	return i.RecordIterator.NextContext(ctx)
+}
+
 type invalidInput struct {
 	err error
 }
-- 
2.43.0


From ede62b7ac9d421b18c54cedf8b46d0298f5673ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:53 +0000
Subject: [PATCH 23/62] fix: slow subscribers of the gRPC and WebSocket servers
 do not end the feeds of all others

---
 pkg/broadcast/broadcaster.go     |  6 ++-
 pkg/broadcast/follow.go          | 78 ++++++++++++++++++++++++++++++++
 pkg/grpc/rangedbserver/server.go | 17 ++++---
 pkg/rangedbws/websocket_api.go   | 23 +++++-----
 4 files changed, 102 insertions(+), 22 deletions(-)
 create mode 100644 pkg/broadcast/follow.go

diff --git a/pkg/broadcast/broadcaster.go b/pkg/broadcast/broadcaster.go
index e519ed3..b6fa4a9 100644
--- a/pkg/broadcast/broadcaster.go
+++ b/pkg/broadcast/broadcaster.go
@@ -1,6 +1,7 @@
 package broadcast
 
 import (
+	"sync"
 	"time"
 
 	"github.com/inklabs/rangedb"
@@ -44,6 +45,7 @@ type broadcaster struct {
 	allEventsSubscribers      map[RecordSubscriber]struct{}
 	aggregateTypeSubscribers  map[string]map[RecordSubscriber]struct{}
 	timeout                   time.Duration
+	closeOnce                 sync.Once
 }
 
 // New constructs a broadcaster.
@@ -178,7 +180,9 @@ func (b *broadcaster) broadcastRecord(record *rangedb.Record) {
 }
 
 func (b *broadcaster) Close() {
-	close(b.stopChan)
+	b.closeOnce.Do(func() {
+		close(b.stopChan)
+	})
 }
 
 func (b *broadcaster) closeAllSubscribers() {
diff --git a/pkg/broadcast/follow.go b/pkg/broadcast/follow.go
new file mode 100644
index 0000000..76a0429
--- /dev/null
+++ b/pkg/broadcast/follow.go
@@ -0,0 +1,78 @@
+package broadcast
+
+import (
+	"context"
+	"sync"
+
+	"github.com/inklabs/rangedb"
+)
+
+// Follow broadcasts every new event of the store until the context is done. Events are queued while subscribers of the
+// broadcaster are slow, because the store would drop a subscription that does not keep up. When the subscription ends
+// nevertheless, the broadcaster is closed so that its subscribers do not wait for events in vain.
+func Follow(ctx context.Context, store rangedb.Store, bufferSize int, broadcaster Broadcaster) error {
+	queue := &recordQueue{added: make(chan struct{}, 1)}
+
+	subscription := store.AllEventsSubscription(ctx, bufferSize, queue)
+	err := subscription.Start()
+	if err != nil {
+		return err
+	}
+
+	var subscriptionDone <-chan struct{}
+	if notifier, ok := subscription.(doneNotifier); ok {
+		subscriptionDone = notifier.Done()
+	}
+
+	go func() {
+		for {
+			select {
+			case <-queue.added:
+				queue.broadcastAll(broadcaster)
+
+			case <-subscriptionDone:
+				queue.broadcastAll(broadcaster)
+				broadcaster.Close()
+				return
+
+			case <-ctx.Done():
+				return
+			}
+		}
+	}()
+
+	return nil
+}
+
+type doneNotifier interface {
+	Done() <-chan struct{}
+}
+
+type recordQueue struct {
+	mux     sync.Mutex
+	records []*rangedb.Record
+	added   chan struct{}
+}
+
+// Accept receives a Record.
+func (q *recordQueue) Accept(record *rangedb.Record) {
+	q.mux.Lock()
+	q.records = append(q.records, record)
+	q.mux.Unlock()
+
+	select {
+	case q.added <- struct{}{}:
+	default:
+	}
+}
+
+func (q *recordQueue) broadcastAll(broadcaster Broadcaster) {
+	q.mux.Lock()
+	records := q.records
+	q.records = nil
+	q.mux.Unlock()
+
+	for _, record := range records {
+		broadcaster.Accept(record)
+	}
+}
diff --git a/pkg/grpc/rangedbserver/server.go b/pkg/grpc/rangedbserver/server.go
index 1866747..9bc7dda 100644
--- a/pkg/grpc/rangedbserver/server.go
+++ b/pkg/grpc/rangedbserver/server.go
@@ -30,9 +30,10 @@ type streamSender interface {
 
 type rangeDBServer struct {
 	rangedbpb.UnimplementedRangeDBServer
-	store       rangedb.Store
-	broadcaster broadcast.Broadcaster
-	stopChan    chan void
+	store         rangedb.Store
+	broadcaster   broadcast.Broadcaster
+	stopChan      chan void
+	stopFollowing context.CancelFunc
 }
 
 // Option defines functional option parameters for rangeDBServer.
@@ -66,15 +67,13 @@ func New(options ...Option) (*rangeDBServer, error) {
 }
 
 func (s *rangeDBServer) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := s.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		s.broadcaster,
-	)
-	return subscription.Start()
+	ctx, cancel := context.WithCancel(context.Background())
+	s.stopFollowing = cancel
+	return broadcast.Follow(ctx, s.store, subscriberRecordBuffSize, s.broadcaster)
 }
 
 func (s *rangeDBServer) Stop() error {
+	s.stopFollowing()
 	s.broadcaster.Close()
 	close(s.stopChan)
 	return nil
diff --git a/pkg/rangedbws/websocket_api.go b/pkg/rangedbws/websocket_api.go
index 64bca09..d2fb8b5 100644
--- a/pkg/rangedbws/websocket_api.go
+++ b/pkg/rangedbws/websocket_api.go
@@ -28,12 +28,13 @@ const (
 type void struct{}
 
 type websocketAPI struct {
-	store       rangedb.Store
-	handler     http.Handler
-	upgrader    *websocket.Upgrader
-	logger      *log.Logger
-	broadcaster broadcast.Broadcaster
-	stopChan    chan void
+	store         rangedb.Store
+	handler       http.Handler
+	upgrader      *websocket.Upgrader
+	logger        *log.Logger
+	broadcaster   broadcast.Broadcaster
+	stopChan      chan void
+	stopFollowing context.CancelFunc
 }
 
 // Option defines functional option parameters for websocketAPI.
@@ -87,15 +88,13 @@ func (a *websocketAPI) initRoutes() {
 }
 
 func (a *websocketAPI) initBroadcaster() error {
-	ctx := context.Background()
-	subscription := a.store.AllEventsSubscription(ctx,
-		subscriberRecordBuffSize,
-		a.broadcaster,
-	)
-	return subscription.Start()
+	ctx, cancel := context.WithCancel(context.Background())
+	a.stopFollowing = cancel
+	return broadcast.Follow(ctx, a.store, subscriberRecordBuffSize, a.broadcaster)
 }
 
 func (a *websocketAPI) Stop() {
+	a.stopFollowing()
 	a.broadcaster.Close()
 	close(a.stopChan)
 }
-- 
2.43.0


From d8549836a4a1f6f4a4869f31f30add3474b8fd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:51 +0000
Subject: [PATCH 24/62] fix: web UI links lead to streams with any name, and
 failing reads and dropped feeds are not hidden

---
 pkg/paging/paging.go                          | 13 ++-
 pkg/rangedbui/functions.go                    |  2 +
 .../templates/aggregate-type-live.gohtml      |  6 +-
 pkg/rangedbui/templates/aggregate-type.gohtml |  2 +-
 .../templates/aggregate-types-live.gohtml     |  2 +-
 .../templates/aggregate-types.gohtml          |  2 +-
 pkg/rangedbui/templates/layout/records.gohtml |  4 +-
 pkg/rangedbui/ui.go                           | 90 +++++++++++++++----
 8 files changed, 94 insertions(+), 27 deletions(-)

diff --git a/pkg/paging/paging.go b/pkg/paging/paging.go
index 85611f1..dd9211d 100644
--- a/pkg/paging/paging.go
+++ b/pkg/paging/paging.go
@@ -84,7 +84,7 @@ func (p Pagination) Links(baseURI string, nextIndex uint64) Links {
 	nextURI := ""
 
 	if len(p.PreviousIndices) > 0 {
-		u, _ := url.Parse(baseURI)
+		u := parseURI(baseURI)
 
 		q := url.Values{}
 		q.Add("itemsPerPage", strconv.FormatUint(p.ItemsPerPage, 10))
@@ -103,7 +103,7 @@ func (p Pagination) Links(baseURI string, nextIndex uint64) Links {
 	}
 
 	if nextIndex > p.CurrentIndex {
-		u, _ := url.Parse(baseURI)
+		u := parseURI(baseURI)
 
 		q := url.Values{}
 		q.Add("itemsPerPage", strconv.FormatUint(p.ItemsPerPage, 10))
@@ -123,3 +123,12 @@ func (p Pagination) Links(baseURI string, nextIndex uint64) Links {
 		Next:     nextURI,
 	}
 }
+
+func parseURI(uri string) *url.URL {
+	u, err := url.Parse(uri)
+	if err != nil {
+		return &url.URL{Path: uri}
+	}
+
+	return u
+}
diff --git a/pkg/rangedbui/functions.go b/pkg/rangedbui/functions.go
index 8ff1359..85d669c 100644
--- a/pkg/rangedbui/functions.go
+++ b/pkg/rangedbui/functions.go
@@ -3,6 +3,7 @@ package rangedbui
 import (
 	"encoding/json"
 	"html/template"
+	"net/url"
 	"time"
 
 	"github.com/dustin/go-humanize"
@@ -15,6 +16,7 @@ var FuncMap = template.FuncMap{
 	"formatDate":   formatDate,
 	"formatJson":   formatJson,
 	"formatUint64": formatUint64,
+	"pathEscape":   url.PathEscape,
 	"rangeDBVersion": func() string {
 		return rangedb.Version
 	},
diff --git a/pkg/rangedbui/templates/aggregate-type-live.gohtml b/pkg/rangedbui/templates/aggregate-type-live.gohtml
index 5acdef8..35f49dc 100644
--- a/pkg/rangedbui/templates/aggregate-type-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type-live.gohtml
@@ -13,7 +13,7 @@
             <nav aria-label="You are here:" role="navigation">
                 <ul class="breadcrumbs">
                     <li><a href="/aggregate-types/live">Aggregate</a></li>
-                    <li><a href="/a/{{.AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
+                    <li><a href="/a/{{pathEscape .AggregateTypeInfo.Name}}">{{.AggregateTypeInfo.Name}}</a></li>
                     <li>
                         Realtime (${ Number(totalEvents).toLocaleString() })
                     </li>
@@ -37,8 +37,8 @@
                     <td>${record.globalSequenceNumber}</td>
                     <td>${record.streamSequenceNumber}</td>
                     <td>${record.eventType}</td>
-                    <td><a :href="'/a/' + record.aggregateType + '/live'">${record.aggregateType}</a></td>
-                    <td><a :href="'/s/' + record.streamName">${record.streamName}</a></td>
+                    <td><a :href="'/a/' + encodeURIComponent(record.aggregateType) + '/live'">${record.aggregateType}</a></td>
+                    <td><a :href="'/s/' + encodeURIComponent(record.streamName)">${record.streamName}</a></td>
                     <td class="date">${formatDate(record.insertTimestamp)}</td>
                     <td class="event-data">${record.data}</td>
                 </tr>
diff --git a/pkg/rangedbui/templates/aggregate-type.gohtml b/pkg/rangedbui/templates/aggregate-type.gohtml
index 1f350ba..bcb964d 100644
--- a/pkg/rangedbui/templates/aggregate-type.gohtml
+++ b/pkg/rangedbui/templates/aggregate-type.gohtml
@@ -14,7 +14,7 @@
                             {{.AggregateTypeInfo.Name}} ({{.AggregateTypeInfo.TotalEvents | formatUint64}})
                         </li>
                         <li>
-                            <a href="/a/{{.AggregateTypeInfo.Name}}/live">Realtime</a>
+                            <a href="/a/{{pathEscape .AggregateTypeInfo.Name}}/live">Realtime</a>
                         </li>
                     </ul>
                 </nav>
diff --git a/pkg/rangedbui/templates/aggregate-types-live.gohtml b/pkg/rangedbui/templates/aggregate-types-live.gohtml
index e383d91..12bb34c 100644
--- a/pkg/rangedbui/templates/aggregate-types-live.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types-live.gohtml
@@ -29,7 +29,7 @@
                     </thead>
                     <tbody>
                     <tr v-for="aggregateType in aggregateTypes" :key="aggregateType.Name">
-                        <td><a :href="'/a/' + aggregateType.Name + '/live'">${aggregateType.Name}</a></td>
+                        <td><a :href="'/a/' + encodeURIComponent(aggregateType.Name) + '/live'">${aggregateType.Name}</a></td>
                         <td>${ Number(aggregateType.TotalEvents).toLocaleString() }</td>
                     </tr>
                     </tbody>
diff --git a/pkg/rangedbui/templates/aggregate-types.gohtml b/pkg/rangedbui/templates/aggregate-types.gohtml
index 613975b..978d0aa 100644
--- a/pkg/rangedbui/templates/aggregate-types.gohtml
+++ b/pkg/rangedbui/templates/aggregate-types.gohtml
@@ -27,7 +27,7 @@
                     <tbody>
                     {{range .AggregateTypes}}
                     <tr>
-                        <td><a href="/a/{{.Name}}">{{.Name}}</a></td>
+                        <td><a href="/a/{{pathEscape .Name}}">{{.Name}}</a></td>
                         <td>{{.TotalEvents | formatUint64}}</td>
                     </tr>
                     {{end}}
diff --git a/pkg/rangedbui/templates/layout/records.gohtml b/pkg/rangedbui/templates/layout/records.gohtml
index cd4ac2c..049bb23 100644
--- a/pkg/rangedbui/templates/layout/records.gohtml
+++ b/pkg/rangedbui/templates/layout/records.gohtml
@@ -19,8 +19,8 @@
             <td>{{.GlobalSequenceNumber}}</td>
             <td>{{.StreamSequenceNumber}}</td>
             <td>{{.EventType}}</td>
-            <td><a href="/a/{{.AggregateType}}">{{.AggregateType}}</a></td>
-            <td><a href="/s/{{.StreamName}}">{{.StreamName}}</a></td>
+            <td><a href="/a/{{pathEscape .AggregateType}}">{{.AggregateType}}</a></td>
+            <td><a href="/s/{{pathEscape .StreamName}}">{{.StreamName}}</a></td>
             <td class="date">{{formatDate .InsertTimestamp "Jan 02, 2006 15:04:05 UTC"}}</td>
             <td class="event-data">{{formatJson .Data}}</td>
         </tr>
diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 071a175..9349f32 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -10,6 +10,7 @@ import (
 	"io/fs"
 	"log"
 	"net/http"
+	"net/url"
 	"time"
 
 	"github.com/gorilla/handlers"
@@ -173,13 +174,17 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	globalSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
+	records, err := readRecords(
+		r.Context(),
 		pagination.ItemsPerPage+1,
-		func() (rangedb.RecordIterator, context.CancelFunc) {
-			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName), done
+		func(ctx context.Context) rangedb.RecordIterator {
+			return a.store.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypeName)
 		},
 	)
+	if err != nil {
+		writeReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -189,7 +194,7 @@ func (a *webUI) aggregateType(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/a/%s", aggregateTypeName)
+	baseURI := "/a/" + url.PathEscape(aggregateTypeName)
 	totalRecords := a.aggregateTypeStats.TotalEventsByAggregateType(aggregateTypeName)
 
 	a.renderWithValues(w, "aggregate-type.gohtml", aggregateTypeTemplateVars{
@@ -213,13 +218,17 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	pagination := paging.NewPaginationFromQuery(r.URL.Query())
 
 	streamSequenceNumber := pagination.CurrentIndex
-	records := rangedb.ReadNRecords(
+	records, err := readRecords(
+		r.Context(),
 		pagination.ItemsPerPage+1,
-		func() (rangedb.RecordIterator, context.CancelFunc) {
-			ctx, done := context.WithCancel(r.Context())
-			return a.store.EventsByStream(ctx, streamSequenceNumber, streamName), done
+		func(ctx context.Context) rangedb.RecordIterator {
+			return a.store.EventsByStream(ctx, streamSequenceNumber, streamName)
 		},
 	)
+	if err != nil {
+		writeReadError(w, err)
+		return
+	}
 
 	nextIndex := pagination.CurrentIndex
 	if len(records) > int(pagination.ItemsPerPage) {
@@ -229,15 +238,10 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 		records = records[:len(records)-1]
 	}
 
-	baseURI := fmt.Sprintf("/s/%s", streamName)
+	baseURI := "/s/" + url.PathEscape(streamName)
 	totalRecords, err := a.store.TotalEventsInStream(r.Context(), streamName)
 	if err != nil {
-		if errors.Is(err, context.Canceled) {
-			http.Error(w, "Request Timeout", http.StatusRequestTimeout)
-			return
-		}
-
-		http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+		writeReadError(w, err)
 		return
 	}
 
@@ -251,6 +255,33 @@ func (a *webUI) stream(w http.ResponseWriter, r *http.Request) {
 	})
 }
 
+// readRecords reads up to n records. A stream without records is empty.
+func readRecords(ctx context.Context, n uint64, events func(context.Context) rangedb.RecordIterator) ([]*rangedb.Record, error) {
+	var recordIterator rangedb.RecordIterator
+
+	records := rangedb.ReadNRecords(n, func() (rangedb.RecordIterator, context.CancelFunc) {
+		ctx, done := context.WithCancel(ctx)
+		recordIterator = events(ctx)
+		return recordIterator, done
+	})
+
+	err := recordIterator.Err()
+	if err == nil || uint64(len(records)) == n || errors.Is(err, rangedb.ErrStreamNotFound) {
+		return records, nil
+	}
+
+	return nil, err
+}
+
+func writeReadError(w http.ResponseWriter, err error) {
+	if errors.Is(err, context.Canceled) {
+		http.Error(w, "Request Timeout", http.StatusRequestTimeout)
+		return
+	}
+
+	http.Error(w, "500 Internal Server Error", http.StatusInternalServerError)
+}
+
 func (a *webUI) aggregateTypeLive(w http.ResponseWriter, r *http.Request) {
 	aggregateTypeName := mux.Vars(r)["aggregateType"]
 
@@ -335,9 +366,21 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 		return
 	}
 
+	if notifier, ok := subscription.(doneNotifier); ok {
+		go func() {
+			// A client that does not keep up is disconnected instead of missing events.
+			<-notifier.Done()
+			_ = conn.Close()
+		}()
+	}
+
 	_, _, _ = conn.ReadMessage()
 }
 
+type doneNotifier interface {
+	Done() <-chan struct{}
+}
+
 func (a *webUI) realtimeAggregateTypes(w http.ResponseWriter, r *http.Request) {
 	conn, err := a.upgrader.Upgrade(w, r, nil)
 	if err != nil {
@@ -348,10 +391,23 @@ func (a *webUI) realtimeAggregateTypes(w http.ResponseWriter, r *http.Request) {
 
 	// keepAlive(conn, 1*time.Minute)
 
+	clientLeft := make(chan struct{})
+	go func() {
+		_, _, _ = conn.ReadMessage()
+		close(clientLeft)
+	}()
+
+	ticker := time.NewTicker(100 * time.Millisecond)
+	defer ticker.Stop()
+
 	latestGlobalSequenceNumber := uint64(0)
 
 	for {
-		time.Sleep(100 * time.Millisecond)
+		select {
+		case <-clientLeft:
+			return
+		case <-ticker.C:
+		}
 
 		if a.aggregateTypeStats.LatestGlobalSequenceNumber() <= latestGlobalSequenceNumber {
 			continue
-- 
2.43.0


From 05404c703e2a8719bfd2bf4d6c2e64860c167274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:00 +0000
Subject: [PATCH 25/62] fix: AES/CBC and XChaCha20-Poly1305 refuse malformed
 cipher text instead of panicking

---
 pkg/crypto/aes/cbc_pkcs5_padding.go           | 23 +++++++++++++++----
 .../xchacha20poly1305/xchacha20poly1305.go    |  4 ++++
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/pkg/crypto/aes/cbc_pkcs5_padding.go b/pkg/crypto/aes/cbc_pkcs5_padding.go
index d382268..ddcf29c 100644
--- a/pkg/crypto/aes/cbc_pkcs5_padding.go
+++ b/pkg/crypto/aes/cbc_pkcs5_padding.go
@@ -85,6 +85,10 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 		return nil, err
 	}
 
+	if len(cipherText) < 2*aes.BlockSize || len(cipherText)%aes.BlockSize != 0 {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	buf := bytes.NewReader(cipherText)
 	initializationVector := make([]byte, aes.BlockSize)
 	if _, err := io.ReadFull(buf, initializationVector); err != nil {
@@ -95,7 +99,7 @@ func (e *cbcPKCS5Padding) decrypt(key, cipherText []byte) ([]byte, error) {
 	decrypted := make([]byte, len(cipherText)-aes.BlockSize)
 	ecb.CryptBlocks(decrypted, cipherText[aes.BlockSize:])
 
-	return pkcs5Trimming(decrypted), nil
+	return pkcs5Trimming(decrypted, cipherBlock.BlockSize())
 }
 
 func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
@@ -104,7 +108,18 @@ func pkcs5Padding(ciphertext []byte, blockSize int) []byte {
 	return append(ciphertext, padText...)
 }
 
-func pkcs5Trimming(value []byte) []byte {
-	padding := value[len(value)-1]
-	return value[:len(value)-int(padding)]
+func pkcs5Trimming(value []byte, blockSize int) ([]byte, error) {
+	padding := int(value[len(value)-1])
+	if padding < 1 || padding > blockSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
+	valueLength := len(value) - padding
+	for _, b := range value[valueLength:] {
+		if int(b) != padding {
+			return nil, crypto.ErrInvalidCipherText
+		}
+	}
+
+	return value[:valueLength], nil
 }
diff --git a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
index 9dfa3aa..f86e635 100644
--- a/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
+++ b/pkg/crypto/xchacha20poly1305/xchacha20poly1305.go
@@ -75,6 +75,10 @@ func (x *xChaCha20Poly1305) decrypt(key, sealedCipherText []byte) ([]byte, error
 	}
 
 	nonceSize := aead.NonceSize()
+	if len(sealedCipherText) < nonceSize {
+		return nil, crypto.ErrInvalidCipherText
+	}
+
 	nonce, cipherText := sealedCipherText[:nonceSize], sealedCipherText[nonceSize:]
 
 	plaintext, err := aead.Open(nil, nonce, cipherText, nil)
-- 
2.43.0


From dd90ce35245585c2b2459d37d0ab76f3b11378a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:15 +0000
Subject: [PATCH 26/62] fix: the Vault key store never replaces a key, and
 refuses subjects whose requests would address another

A Set that raced with another one, or that followed an unreadable answer,
wrote a second version of the key, losing what was encrypted with the first.
Subject IDs like "a?x" or "x/../a" were sent as requests for subject "a".
---
 .../vaultkeystore/hashicorp_vault_keystore.go | 72 ++++++++++++++-----
 1 file changed, 56 insertions(+), 16 deletions(-)

diff --git a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
index 8fb9bb6..83eb57d 100644
--- a/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
+++ b/pkg/crypto/provider/vaultkeystore/hashicorp_vault_keystore.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/json"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"log"
 	"net/http"
@@ -13,7 +14,15 @@ import (
 	"github.com/inklabs/rangedb/pkg/crypto"
 )
 
-const deleteAllHashiVersionsJSON = `{"versions":[1,2]}`
+const (
+	dataPath    = "/v1/secret/data/"
+	destroyPath = "/v1/secret/destroy/"
+
+	deleteAllHashiVersionsJSON = `{"versions":[1,2]}`
+
+	// onlyFirstVersion makes a write fail when any version exists, or existed.
+	onlyFirstVersion = 0
+)
 
 type hashicorpVaultKeyStore struct {
 	config     Config
@@ -35,16 +44,16 @@ func New(config Config) (*hashicorpVaultKeyStore, error) {
 }
 
 func (h *hashicorpVaultKeyStore) Get(subjectID string) (string, error) {
-	request, err := http.NewRequest(http.MethodGet, h.getPath(subjectID), nil)
+	request, err := h.newRequest(http.MethodGet, dataPath, subjectID, nil)
 	if err != nil {
 		return "", err
 	}
-	request.Header.Set("X-Vault-Token", h.config.Token)
 
 	response, err := h.httpClient.Do(request)
 	if err != nil {
 		return "", err
 	}
+	defer response.Body.Close()
 
 	var resp secretResponse
 	err = json.NewDecoder(response.Body).Decode(&resp)
@@ -75,31 +84,38 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 	}
 
 	_, err := h.Get(subjectID)
-	if err == nil {
+	if err == nil || err == crypto.ErrKeyWasDeleted {
 		return crypto.ErrKeyExistsForSubjectID
 	}
 
-	payload := dataPayload{Data: map[string]string{
-		"key": key,
-	}}
+	payload := dataPayload{
+		Data: map[string]string{
+			"key": key,
+		},
+		Options: dataOptions{CheckAndSet: onlyFirstVersion},
+	}
 	jsonString, err := json.Marshal(payload)
 	if err != nil {
 		return err
 	}
 
-	request, err := http.NewRequest(http.MethodPost, h.getPath(subjectID), bytes.NewReader(jsonString))
+	request, err := h.newRequest(http.MethodPost, dataPath, subjectID, bytes.NewReader(jsonString))
 	if err != nil {
 		return err
 	}
-	request.Header.Set("X-Vault-Token", h.config.Token)
 
 	response, err := h.httpClient.Do(request)
 	if err != nil {
 		return err
 	}
+	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusOK {
 		body, _ := ioutil.ReadAll(response.Body)
+		if response.StatusCode == http.StatusBadRequest && bytes.Contains(body, []byte("check-and-set")) {
+			return crypto.ErrKeyExistsForSubjectID
+		}
+
 		log.Printf("%d: %s", response.StatusCode, body)
 
 		return fmt.Errorf("unable to save")
@@ -109,16 +125,16 @@ func (h *hashicorpVaultKeyStore) Set(subjectID, key string) error {
 }
 
 func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
-	request, err := http.NewRequest(http.MethodPost, h.getDestroyPath(subjectID), strings.NewReader(deleteAllHashiVersionsJSON))
+	request, err := h.newRequest(http.MethodPost, destroyPath, subjectID, strings.NewReader(deleteAllHashiVersionsJSON))
 	if err != nil {
 		return err
 	}
-	request.Header.Set("X-Vault-Token", h.config.Token)
 
 	response, err := h.httpClient.Do(request)
 	if err != nil {
 		return err
 	}
+	defer response.Body.Close()
 
 	if response.StatusCode != http.StatusNoContent {
 		body, _ := ioutil.ReadAll(response.Body)
@@ -131,7 +147,12 @@ func (h *hashicorpVaultKeyStore) Delete(subjectID string) error {
 }
 
 type dataPayload struct {
-	Data map[string]string `json:"data"`
+	Data    map[string]string `json:"data"`
+	Options dataOptions       `json:"options"`
+}
+
+type dataOptions struct {
+	CheckAndSet int `json:"cas"`
 }
 
 type secretResponse struct {
@@ -155,12 +176,31 @@ type secretResponse struct {
 	Auth     interface{} `json:"auth"`
 }
 
-func (h *hashicorpVaultKeyStore) getPath(subjectID string) string {
-	return fmt.Sprintf("%s/v1/secret/data/%s", h.config.Address, subjectID)
+func (h *hashicorpVaultKeyStore) newRequest(method, path, subjectID string, body io.Reader) (*http.Request, error) {
+	request, err := http.NewRequest(method, fmt.Sprintf("%s%s%s", h.config.Address, path, subjectID), body)
+	if err != nil {
+		return nil, err
+	}
+
+	if !isPathSegments(subjectID) || !strings.HasSuffix(request.URL.Path, path+subjectID) {
+		// The request would address another subject.
+		return nil, fmt.Errorf("invalid subjectID: %q", subjectID)
+	}
+
+	request.Header.Set("X-Vault-Token", h.config.Token)
+
+	return request, nil
 }
 
-func (h *hashicorpVaultKeyStore) getDestroyPath(subjectID string) string {
-	return fmt.Sprintf("%s/v1/secret/destroy/%s", h.config.Address, subjectID)
+// isPathSegments returns false when the path would be cleaned by the server.
+func isPathSegments(subjectID string) bool {
+	for _, segment := range strings.Split(subjectID, "/") {
+		if segment == "" || segment == "." || segment == ".." {
+			return false
+		}
+	}
+
+	return true
 }
 
 func (h *hashicorpVaultKeyStore) SetTimeout(duration time.Duration) {
-- 
2.43.0


From a26284a807342319466e5c0872737f053685cdee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:20 +0000
Subject: [PATCH 27/62] fix: the cache key store returns a key it found even
 when it cannot cache it

Two callers reading the same key for the first time, or a cache that fails,
got an error along with a key that is stored. A deletion that failed halfway
left the key in the cache.
---
 .../provider/cachekeystore/cache_keystore.go  | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/crypto/provider/cachekeystore/cache_keystore.go b/pkg/crypto/provider/cachekeystore/cache_keystore.go
index d850f67..d3117ea 100644
--- a/pkg/crypto/provider/cachekeystore/cache_keystore.go
+++ b/pkg/crypto/provider/cachekeystore/cache_keystore.go
@@ -21,10 +21,17 @@ func (c *cacheKeyStore) Get(subjectID string) (string, error) {
 	if err != nil {
 		secondKey, secondErr := c.second.Get(subjectID)
 		if secondErr != nil {
+			if secondErr == crypto.ErrKeyWasDeleted {
+				// A deletion that failed halfway must not leave the key in the first store.
+				_ = c.first.Delete(subjectID)
+			}
+
 			return "", secondErr
 		}
 
-		return secondKey, c.first.Set(subjectID, secondKey)
+		c.saveToFirst(subjectID, secondKey)
+
+		return secondKey, nil
 	}
 
 	return key, nil
@@ -36,7 +43,15 @@ func (c *cacheKeyStore) Set(subjectID, key string) error {
 		return err
 	}
 
-	return c.first.Set(subjectID, key)
+	c.saveToFirst(subjectID, key)
+
+	return nil
+}
+
+// saveToFirst ignores errors, because a key missing in the first store is found in the second one, and a concurrent
+// caller may have saved it already.
+func (c *cacheKeyStore) saveToFirst(subjectID, key string) {
+	_ = c.first.Set(subjectID, key)
 }
 
 func (c *cacheKeyStore) Delete(subjectID string) error {
-- 
2.43.0


From 8f488f0ff39cf23be8769dcb5077da18a7a32589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:25 +0000
Subject: [PATCH 28/62] fix: the DynamoDB key store reads consistently, so that
 a deleted key is not returned

---
 pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
index 11fd14d..c08306b 100644
--- a/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
+++ b/pkg/crypto/provider/dynamodbkeystore/dynamodb_keystore.go
@@ -41,6 +41,8 @@ func (d *dynamoDBKeyStore) Get(subjectID string) (string, error) {
 			},
 		},
 		TableName: aws.String(d.config.TableName),
+		// A stale read returns a key that was deleted, or misses one that was set.
+		ConsistentRead: aws.Bool(true),
 		AttributesToGet: []*string{
 			aws.String("EncryptionKey"),
 			aws.String("DeletedAtTimestamp"),
-- 
2.43.0


From db4254285514e4e6a3e691894bffdc2d89e43261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:29 +0000
Subject: [PATCH 29/62] fix: encrypting concurrently for the same new subject
 succeeds for every caller

---
 pkg/crypto/eventencryptor/event_encryptor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/crypto/eventencryptor/event_encryptor.go b/pkg/crypto/eventencryptor/event_encryptor.go
index 5ab1705..7b03c5a 100644
--- a/pkg/crypto/eventencryptor/event_encryptor.go
+++ b/pkg/crypto/eventencryptor/event_encryptor.go
@@ -62,6 +62,10 @@ func (e *engine) Encrypt(subjectID, data string) (string, error) {
 		}
 
 		err = e.keyStore.Set(subjectID, base64Key)
+		if err == crypto.ErrKeyExistsForSubjectID {
+			// Another caller has set the key of the same new subject in the meantime.
+			base64Key, err = e.keyStore.Get(subjectID)
+		}
 	}
 
 	if err != nil {
-- 
2.43.0


From 252d92a3507e57e2eb4f6ee7bd40f78ff6334cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:17 +0000
Subject: [PATCH 30/62] fix: the encrypted store works on copies, and reads
 past events of deleted subjects

Saving encrypted the events of the caller in place, so that retrying a save
that failed encrypted them twice, and events passed by value were saved in
clear. Subscribers decrypted records they share with other subscribers.
Asking for a record twice decrypted it twice, reading ended at the first event
whose key was deleted, and a read that could not decrypt an event blocked
writes to the store for good.
---
 provider/encryptedstore/copy_event.go         | 52 ++++++++++++++++
 .../decrypting_record_iterator.go             | 61 +++++++++++++++----
 provider/encryptedstore/encrypted_store.go    | 59 ++++++++++++------
 3 files changed, 142 insertions(+), 30 deletions(-)
 create mode 100644 provider/encryptedstore/copy_event.go

diff --git a/provider/encryptedstore/copy_event.go b/provider/encryptedstore/copy_event.go
new file mode 100644
index 0000000..1d24e6d
--- /dev/null
+++ b/provider/encryptedstore/copy_event.go
@@ -0,0 +1,52 @@
+package encryptedstore
+
+import (
+	"reflect"
+
+	"github.com/inklabs/rangedb"
+	"github.com/inklabs/rangedb/pkg/crypto"
+)
+
+// copyEvent returns a shallow copy that can be encrypted/decrypted without changing the original event. An event
+// passed by value is copied to a pointer when only its pointer can encrypt itself.
+func copyEvent(event rangedb.Event) rangedb.Event {
+	value := reflect.ValueOf(event)
+	isPointer := value.Kind() == reflect.Ptr
+
+	if isPointer {
+		if value.IsNil() {
+			return event
+		}
+
+		value = value.Elem()
+	} else if !value.IsValid() {
+		return event
+	}
+
+	eventCopy := reflect.New(value.Type())
+	eventCopy.Elem().Set(value)
+
+	rangedbEvent, ok := eventCopy.Interface().(rangedb.Event)
+	if !ok {
+		return event
+	}
+
+	if _, ok := rangedbEvent.(crypto.SelfEncryptor); !ok && !isPointer {
+		return event
+	}
+
+	return rangedbEvent
+}
+
+// recordCopyingSubscriber gives the parent its own copy of every record, because subscribers share them.
+func recordCopyingSubscriber(parent rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	return rangedb.RecordSubscriberFunc(func(record *rangedb.Record) {
+		recordCopy := *record
+
+		if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
+			recordCopy.Data = copyEvent(rangedbEvent)
+		}
+
+		parent.Accept(&recordCopy)
+	})
+}
diff --git a/provider/encryptedstore/decrypting_record_iterator.go b/provider/encryptedstore/decrypting_record_iterator.go
index 0f75894..d4956aa 100644
--- a/provider/encryptedstore/decrypting_record_iterator.go
+++ b/provider/encryptedstore/decrypting_record_iterator.go
@@ -10,7 +10,9 @@ import (
 type decryptingRecordIterator struct {
 	parent         rangedb.RecordIterator
 	eventEncryptor crypto.EventEncryptor
+	currentRecord  *rangedb.Record
 	currentErr     error
+	cancel         context.CancelFunc
 }
 
 // NewDecryptingRecordIterator constructs a new rangedb.Record iterator that decrypts events
@@ -18,15 +20,25 @@ func NewDecryptingRecordIterator(parent rangedb.RecordIterator, eventEncryptor c
 	return &decryptingRecordIterator{
 		parent:         parent,
 		eventEncryptor: eventEncryptor,
+		cancel:         func() {},
 	}
 }
 
+// newCancelingIterator ends reading from the parent when the iteration ends, because an unfinished read can block
+// writes to the parent store.
+func newCancelingIterator(parent rangedb.RecordIterator, eventEncryptor crypto.EventEncryptor, cancel context.CancelFunc) *decryptingRecordIterator {
+	iterator := NewDecryptingRecordIterator(parent, eventEncryptor)
+	iterator.cancel = cancel
+
+	return iterator
+}
+
 func (i *decryptingRecordIterator) Next() bool {
 	if i.currentErr != nil {
 		return false
 	}
 
-	return i.parent.Next()
+	return i.decryptCurrent(i.parent.Next())
 }
 
 func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
@@ -34,31 +46,54 @@ func (i *decryptingRecordIterator) NextContext(ctx context.Context) bool {
 		return false
 	}
 
-	return i.parent.NextContext(ctx)
+	hasNext := i.parent.NextContext(ctx)
+
+	if !hasNext && ctx.Err() != nil {
+		i.currentRecord = nil
+		return false
+	}
+
+	return i.decryptCurrent(hasNext)
 }
 
 func (i *decryptingRecordIterator) Record() *rangedb.Record {
+	return i.currentRecord
+}
+
+func (i *decryptingRecordIterator) Err() error {
+	if i.currentErr != nil {
+		return i.currentErr
+	}
+
+	return i.parent.Err()
+}
+
+// decryptCurrent decrypts each record once. Events whose encryption key was deleted have redacted their personal
+// data, and do not end the iteration.
+func (i *decryptingRecordIterator) decryptCurrent(hasNext bool) bool {
+	i.currentRecord = nil
+
+	if !hasNext {
+		i.cancel()
+		return false
+	}
+
 	record := i.parent.Record()
 
 	if record == nil {
-		return nil
+		return true
 	}
 
 	if rangedbEvent, ok := record.Data.(rangedb.Event); ok {
 		err := i.eventEncryptor.Decrypt(rangedbEvent)
-		if err != nil {
+		if err != nil && err != crypto.ErrKeyWasDeleted {
 			i.currentErr = err
-			return nil
+			i.cancel()
+			return true
 		}
 	}
 
-	return record
-}
+	i.currentRecord = record
 
-func (i *decryptingRecordIterator) Err() error {
-	if i.currentErr != nil {
-		return i.currentErr
-	}
-
-	return i.parent.Err()
+	return true
 }
diff --git a/provider/encryptedstore/encrypted_store.go b/provider/encryptedstore/encrypted_store.go
index 73fc69d..2afaff5 100644
--- a/provider/encryptedstore/encrypted_store.go
+++ b/provider/encryptedstore/encrypted_store.go
@@ -25,15 +25,21 @@ func (e *encryptedStore) Bind(events ...rangedb.Event) {
 }
 
 func (e *encryptedStore) Events(ctx context.Context, globalSequenceNumber uint64) rangedb.RecordIterator {
-	return NewDecryptingRecordIterator(e.parent.Events(ctx, globalSequenceNumber), e.eventEncryptor)
+	ctx, cancel := context.WithCancel(ctx)
+
+	return newCancelingIterator(e.parent.Events(ctx, globalSequenceNumber), e.eventEncryptor, cancel)
 }
 
 func (e *encryptedStore) EventsByAggregateTypes(ctx context.Context, globalSequenceNumber uint64, aggregateTypes ...string) rangedb.RecordIterator {
-	return NewDecryptingRecordIterator(e.parent.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypes...), e.eventEncryptor)
+	ctx, cancel := context.WithCancel(ctx)
+
+	return newCancelingIterator(e.parent.EventsByAggregateTypes(ctx, globalSequenceNumber, aggregateTypes...), e.eventEncryptor, cancel)
 }
 
 func (e *encryptedStore) EventsByStream(ctx context.Context, streamSequenceNumber uint64, streamName string) rangedb.RecordIterator {
-	return NewDecryptingRecordIterator(e.parent.EventsByStream(ctx, streamSequenceNumber, streamName), e.eventEncryptor)
+	ctx, cancel := context.WithCancel(ctx)
+
+	return newCancelingIterator(e.parent.EventsByStream(ctx, streamSequenceNumber, streamName), e.eventEncryptor, cancel)
 }
 
 func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
@@ -41,35 +47,54 @@ func (e *encryptedStore) OptimisticDeleteStream(ctx context.Context, expectedStr
 }
 
 func (e *encryptedStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedRecords, err := e.encrypt(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, eventRecords...)
+	return e.parent.OptimisticSave(ctx, expectedStreamSequenceNumber, streamName, encryptedRecords...)
 }
 
 func (e *encryptedStore) Save(ctx context.Context, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-	for _, record := range eventRecords {
-		err := e.eventEncryptor.Encrypt(record.Event)
-		if err != nil {
-			return 0, err
-		}
+	encryptedRecords, err := e.encrypt(eventRecords)
+	if err != nil {
+		return 0, err
 	}
 
-	return e.parent.Save(ctx, streamName, eventRecords...)
+	return e.parent.Save(ctx, streamName, encryptedRecords...)
 }
 
 func (e *encryptedStore) AllEventsSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber) rangedb.RecordSubscription {
-	return e.parent.AllEventsSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+	return e.parent.AllEventsSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber))
 }
 
 func (e *encryptedStore) AggregateTypesSubscription(ctx context.Context, bufferSize int, subscriber rangedb.RecordSubscriber, aggregateTypes ...string) rangedb.RecordSubscription {
-	return e.parent.AggregateTypesSubscription(ctx, bufferSize, NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor), aggregateTypes...)
+	return e.parent.AggregateTypesSubscription(ctx, bufferSize, e.decryptingSubscriber(subscriber), aggregateTypes...)
 }
 
 func (e *encryptedStore) TotalEventsInStream(ctx context.Context, streamName string) (uint64, error) {
 	return e.parent.TotalEventsInStream(ctx, streamName)
 }
+
+// encrypt returns encrypted copies, leaving the events of the caller as they are.
+func (e *encryptedStore) encrypt(eventRecords []*rangedb.EventRecord) ([]*rangedb.EventRecord, error) {
+	encryptedRecords := make([]*rangedb.EventRecord, len(eventRecords))
+
+	for i, record := range eventRecords {
+		recordCopy := *record
+		recordCopy.Event = copyEvent(record.Event)
+
+		err := e.eventEncryptor.Encrypt(recordCopy.Event)
+		if err != nil {
+			return nil, err
+		}
+
+		encryptedRecords[i] = &recordCopy
+	}
+
+	return encryptedRecords, nil
+}
+
+func (e *encryptedStore) decryptingSubscriber(subscriber rangedb.RecordSubscriber) rangedb.RecordSubscriber {
+	return recordCopyingSubscriber(NewDecryptingRecordSubscriber(subscriber, e.eventEncryptor))
+}
-- 
2.43.0


From 71537d4d8d789e187ae1466bc3018a65b2df54d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:33 +0000
Subject: [PATCH 31/62] fix: aggregate type statistics are read under their
 lock, and accept events after loading an empty snapshot

---
 pkg/projection/aggregate_type_stats.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/projection/aggregate_type_stats.go b/pkg/projection/aggregate_type_stats.go
index 3712e7e..f8b3506 100644
--- a/pkg/projection/aggregate_type_stats.go
+++ b/pkg/projection/aggregate_type_stats.go
@@ -60,6 +60,8 @@ func (a *AggregateTypeStats) TotalEventsByAggregateType(aggregateType string) ui
 
 // TotalEvents returns the total number of received events.
 func (a *AggregateTypeStats) TotalEvents() uint64 {
+	a.mux.RLock()
+	defer a.mux.RUnlock()
 	return a.data.TotalEvents
 }
 
@@ -91,6 +93,10 @@ func (a *AggregateTypeStats) LoadFromSnapshot(r io.Reader) error {
 		return err
 	}
 
+	if data.TotalEventsByAggregateType == nil {
+		data.TotalEventsByAggregateType = make(map[string]uint64)
+	}
+
 	a.mux.Lock()
 	a.data.TotalEventsByAggregateType = data.TotalEventsByAggregateType
 	a.data.LatestGlobalSequenceNumber = data.LatestGlobalSequenceNumber
-- 
2.43.0


From 325fcc21d823d69639a887c7d73a3f42592ff73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 32/62] fix: a disk snapshot is replaced only once the new one
 is complete

A save that failed or was interrupted destroyed the previous snapshot, and
could leave a partial one in its place.
---
 pkg/projection/disk_snapshot_store.go | 41 ++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/pkg/projection/disk_snapshot_store.go b/pkg/projection/disk_snapshot_store.go
index c0fb327..d505978 100644
--- a/pkg/projection/disk_snapshot_store.go
+++ b/pkg/projection/disk_snapshot_store.go
@@ -3,10 +3,12 @@ package projection
 import (
 	"fmt"
 	"os"
+	"sync"
 )
 
 type diskSnapshotStore struct {
 	basePath string
+	saveMux  sync.Mutex
 }
 
 // NewDiskSnapshotStore constructs a snapshot store that persists to disk.
@@ -32,24 +34,55 @@ func (d *diskSnapshotStore) Load(projection SnapshotProjection) error {
 	return nil
 }
 
-// Save persists the projection to a file.
+// Save persists the projection to a file. The previous snapshot is replaced only once the new one is complete.
 func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
-	file, err := os.Create(d.SnapshotPath(projection))
+	d.saveMux.Lock()
+	defer d.saveMux.Unlock()
+
+	path := d.SnapshotPath(projection)
+	temporaryPath := d.temporaryPath(path)
+
+	file, err := os.Create(temporaryPath)
 	if err != nil {
+		if pathError, ok := err.(*os.PathError); ok {
+			pathError.Path = path
+		}
+
 		return fmt.Errorf("unable to create/open snapshot file: %v", err)
 	}
-	defer file.Close()
+	defer func() {
+		_ = file.Close()
+		_ = os.Remove(temporaryPath)
+	}()
 
 	err = projection.SaveSnapshot(file)
 	if err != nil {
 		return fmt.Errorf("unable to save snapshot: %v", err)
 	}
 
-	_ = file.Sync()
+	err = file.Sync()
+	if err != nil {
+		return fmt.Errorf("unable to save snapshot: %v", err)
+	}
+
+	err = file.Close()
+	if err != nil {
+		return fmt.Errorf("unable to save snapshot: %v", err)
+	}
+
+	err = os.Rename(temporaryPath, path)
+	if err != nil {
+		return fmt.Errorf("unable to save snapshot: %v", err)
+	}
 
 	return nil
 }
 
+// temporaryPath does not end like the path of a snapshot, which could be the one of another projection.
+func (d *diskSnapshotStore) temporaryPath(path string) string {
+	return path + ".tmp"
+}
+
 // SnapshotPath returns the file path for the snapshot.
 func (d *diskSnapshotStore) SnapshotPath(projection SnapshotProjection) string {
 	return fmt.Sprintf("%s/%s.snap", d.basePath, projection.SnapshotName())
-- 
2.43.0


From f901293025a453dae4de8792c7db2be0bd2b2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:42 +0000
Subject: [PATCH 33/62] fix: commands dispatched at the same time are handled
 one after the other

They loaded and handled with the same aggregate at once, mixing up streams and
deciding on the same history. An aggregate that does not read its whole stream
no longer blocks the store.
---
 pkg/cqrs/cqrs.go | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/pkg/cqrs/cqrs.go b/pkg/cqrs/cqrs.go
index db0e473..79cff3d 100644
--- a/pkg/cqrs/cqrs.go
+++ b/pkg/cqrs/cqrs.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"io/ioutil"
 	"log"
+	"sync"
 
 	"github.com/inklabs/rangedb"
 )
@@ -28,10 +29,16 @@ type Aggregate interface {
 
 type cqrs struct {
 	store      rangedb.Store
-	aggregates map[string]Aggregate
+	aggregates map[string]*aggregateHandler
 	logger     *log.Logger
 }
 
+// aggregateHandler has the aggregate handle one command at a time, because all commands share its state.
+type aggregateHandler struct {
+	Aggregate
+	mux sync.Mutex
+}
+
 // Option defines functional option parameters for App.
 type Option func(*cqrs)
 
@@ -46,8 +53,9 @@ func WithLogger(logger *log.Logger) Option {
 func WithAggregates(aggregates ...Aggregate) Option {
 	return func(c *cqrs) {
 		for _, aggregate := range aggregates {
+			handler := &aggregateHandler{Aggregate: aggregate}
 			for _, commandType := range aggregate.CommandTypes() {
-				c.aggregates[commandType] = aggregate
+				c.aggregates[commandType] = handler
 			}
 		}
 	}
@@ -58,7 +66,7 @@ func New(store rangedb.Store, options ...Option) *cqrs {
 	cqrs := &cqrs{
 		store:      store,
 		logger:     log.New(ioutil.Discard, "", 0),
-		aggregates: make(map[string]Aggregate),
+		aggregates: make(map[string]*aggregateHandler),
 	}
 
 	for _, option := range options {
@@ -77,16 +85,28 @@ func (c *cqrs) Dispatch(command Command) []rangedb.Event {
 		return preHandlerEvents
 	}
 
+	commandHandler.mux.Lock()
+	defer commandHandler.mux.Unlock()
+
 	ctx := context.Background()
-	streamName := rangedb.GetEventStream(command)
-	eventStream := c.store.EventsByStream(ctx, 0, streamName)
-	commandHandler.Load(eventStream)
-	handlerEvents := commandHandler.Handle(command)
+	handlerEvents := c.loadAndHandle(ctx, commandHandler, command)
 
 	events := append(preHandlerEvents, handlerEvents...)
 	return c.saveEvents(ctx, events)
 }
 
+// loadAndHandle ends reading the stream, because an unfinished read can block writes to the store.
+func (c *cqrs) loadAndHandle(ctx context.Context, aggregate Aggregate, command Command) []rangedb.Event {
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
+	streamName := rangedb.GetEventStream(command)
+	eventStream := c.store.EventsByStream(ctx, 0, streamName)
+	aggregate.Load(eventStream)
+
+	return aggregate.Handle(command)
+}
+
 func (c *cqrs) saveEvents(ctx context.Context, events []rangedb.Event) []rangedb.Event {
 	var savedEvents []rangedb.Event
 	for _, event := range events {
-- 
2.43.0


From cf35109d333c77f1a90bd6a04ec8d9725a213708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:27 +0000
Subject: [PATCH 34/62] fix: LevelDB reads are right after a large batch of
 events is refused

---
 provider/leveldbstore/leveldb_store.go | 30 +++++++++++++++-----------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index 3f07895..ee08bcf 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -243,6 +243,12 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	// Discarding is a no-op once the transaction is committed.
 	defer transaction.Discard()
 
+	// The transaction is written to once every event is known to be valid. Discarding one that was already flushed to
+	// a table file, as happens while a large batch is written, leaves stale blocks of that file in the cache.
+	batch := new(leveldb.Batch)
+	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
+	globalSequenceNumber := s.getGlobalSequenceNumber(transaction)
+
 	for i, eventRecord := range eventRecords {
 		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
 			transaction.Discard()
@@ -261,7 +267,9 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 		var err error
 		data, lastStreamSequenceNumber, err = s.saveEvent(
 			ctx,
-			transaction,
+			batch,
+			streamSequenceNumber+uint64(i),
+			globalSequenceNumber+uint64(i),
 			streamName,
 			aggregateType,
 			aggregateID,
@@ -282,6 +290,12 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 			*expectedStreamSequenceNumber++
 		}
 	}
+
+	err = transaction.Write(batch, nil)
+	if err != nil {
+		return 0, err
+	}
+
 	err = transaction.Commit()
 	if err != nil {
 		return 0, err
@@ -299,8 +313,8 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	return lastStreamSequenceNumber, nil
 }
 
-// saveEvent persists a single event without locking the mutex, or notifying subscribers.
-func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Transaction, streamName, aggregateType, aggregateID, eventType, eventID string, expectedStreamSequenceNumber *uint64, event, metadata interface{}) ([]byte, uint64, error) {
+// saveEvent adds a single event to the batch without locking the mutex, or notifying subscribers.
+func (s *levelDbStore) saveEvent(ctx context.Context, batch *leveldb.Batch, streamSequenceNumber, globalSequenceNumber uint64, streamName, aggregateType, aggregateID, eventType, eventID string, expectedStreamSequenceNumber *uint64, event, metadata interface{}) ([]byte, uint64, error) {
 
 	select {
 	case <-ctx.Done():
@@ -309,8 +323,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	default:
 	}
 
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
-
 	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber != streamSequenceNumber {
 		return nil, 0, &rangedberror.UnexpectedSequenceNumber{
 			Expected:             *expectedStreamSequenceNumber,
@@ -318,7 +330,7 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		}
 	}
 
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction) + 1
+	globalSequenceNumber++
 
 	record := &rangedb.Record{
 		StreamName:           streamName,
@@ -338,7 +350,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 		return nil, 0, err
 	}
 
-	batch := new(leveldb.Batch)
 	batch.Put([]byte(globalSequenceNumberKey), uint64ToBytes(globalSequenceNumber))
 
 	streamKey := getKeyWithNumber(getStreamKeyPrefix(streamName), record.StreamSequenceNumber)
@@ -350,11 +361,6 @@ func (s *levelDbStore) saveEvent(ctx context.Context, transaction *leveldb.Trans
 	allEventsKey := getKeyWithNumber(allEventsPrefix, record.GlobalSequenceNumber)
 	batch.Put(allEventsKey, streamKey)
 
-	err = transaction.Write(batch, nil)
-	if err != nil {
-		return nil, 0, err
-	}
-
 	return data, record.StreamSequenceNumber, nil
 }
 
-- 
2.43.0


From eb19c5472a57a70bfd6efe80e4bfd939e9f535a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:38 +0000
Subject: [PATCH 35/62] fix: a failing read of a sequence number no longer
 restarts the numbering of a LevelDB store

---
 provider/leveldbstore/leveldb_store.go | 32 ++++++++++++++++----------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/provider/leveldbstore/leveldb_store.go b/provider/leveldbstore/leveldb_store.go
index ee08bcf..42f44fd 100644
--- a/provider/leveldbstore/leveldb_store.go
+++ b/provider/leveldbstore/leveldb_store.go
@@ -246,8 +246,14 @@ func (s *levelDbStore) saveEvents(ctx context.Context, expectedStreamSequenceNum
 	// The transaction is written to once every event is known to be valid. Discarding one that was already flushed to
 	// a table file, as happens while a large batch is written, leaves stale blocks of that file in the cache.
 	batch := new(leveldb.Batch)
-	streamSequenceNumber := s.getStreamSequenceNumber(transaction, streamName)
-	globalSequenceNumber := s.getGlobalSequenceNumber(transaction)
+	streamSequenceNumber, err := s.getStreamSequenceNumber(transaction, streamName)
+	if err != nil {
+		return 0, err
+	}
+	globalSequenceNumber, err := s.getGlobalSequenceNumber(transaction)
+	if err != nil {
+		return 0, err
+	}
 
 	for i, eventRecord := range eventRecords {
 		if i > 0 && aggregateType != eventRecord.Event.AggregateType() {
@@ -393,7 +399,7 @@ func (s *levelDbStore) TotalEventsInStream(ctx context.Context, streamName strin
 	default:
 	}
 
-	return s.getStreamSequenceNumber(s.db, streamName), nil
+	return s.getStreamSequenceNumber(s.db, streamName)
 }
 
 func (s *levelDbStore) getEventsByPrefix(ctx context.Context, prefix string, streamSequenceNumber uint64) rangedb.RecordIterator {
@@ -546,21 +552,23 @@ type dbNewIterable interface {
 	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
 }
 
-func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) uint64 {
-	var globalSequenceNumber uint64
+func (s *levelDbStore) getGlobalSequenceNumber(transaction *leveldb.Transaction) (uint64, error) {
 	globalSequenceNumberBytes, err := transaction.Get([]byte(globalSequenceNumberKey), nil)
-	if err == nil {
-		globalSequenceNumber = bytesToUint64(globalSequenceNumberBytes)
+	if err == leveldb.ErrNotFound {
+		return 0, nil
+	}
+	if err != nil {
+		return 0, err
 	}
 
-	return globalSequenceNumber
+	return bytesToUint64(globalSequenceNumberBytes), nil
 }
 
-func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) uint64 {
+func (s *levelDbStore) getStreamSequenceNumber(iterable dbNewIterable, stream string) (uint64, error) {
 	return s.getSequenceNumber(iterable, getStreamKeyPrefix(stream))
 }
 
-func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uint64 {
+func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) (uint64, error) {
 	iter := iterable.NewIterator(util.BytesPrefix([]byte(key)), nil)
 	defer iter.Release()
 
@@ -568,11 +576,11 @@ func (s *levelDbStore) getSequenceNumber(iterable dbNewIterable, key string) uin
 	for ok := iter.Last(); ok; ok = iter.Prev() {
 		if isNumberedKey(iter.Key(), key) {
 			lastSequenceNumber := bytesToUint64(iter.Key()[keySize:])
-			return lastSequenceNumber
+			return lastSequenceNumber, nil
 		}
 	}
 
-	return 0
+	return 0, iter.Error()
 }
 
 // isNumberedKey returns true when key is exactly the prefix followed by a number. Other keys starting with
-- 
2.43.0


From ca69459645c8380c646b8b33b8fd36633d13df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:01 +0000
Subject: [PATCH 36/62] fix: the event generator encrypts every declared field,
 and refuses personal data it cannot encrypt

---
 pkg/eventparser/event_parser.go | 53 +++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 19 deletions(-)

diff --git a/pkg/eventparser/event_parser.go b/pkg/eventparser/event_parser.go
index 6a254ea..5d438b8 100644
--- a/pkg/eventparser/event_parser.go
+++ b/pkg/eventparser/event_parser.go
@@ -6,7 +6,7 @@ import (
 	"go/parser"
 	"go/token"
 	"io"
-	"strings"
+	"strconv"
 
 	"github.com/fatih/structtag"
 )
@@ -56,8 +56,11 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				fieldName := field.Names[0].String()
-				tagString := strings.Replace(field.Tag.Value, "`", "", 2)
+				tagString, err := strconv.Unquote(field.Tag.Value)
+				if err != nil {
+					continue
+				}
+
 				tags, err := structtag.Parse(tagString)
 				if err != nil {
 					continue
@@ -68,19 +71,26 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				switch encryptTag.Value() {
-				case "subject-id":
-					subjectID = fieldName
-
-				case "personal-data":
-					serializedTag, err := tags.Get("serialized")
-					if err != nil {
-						personalDataFields = append(personalDataFields, fieldName)
-					} else {
-						if serializedFields == nil {
-							serializedFields = make(map[string]string)
+				for _, name := range field.Names {
+					fieldName := name.String()
+
+					switch encryptTag.Value() {
+					case "subject-id":
+						subjectID = fieldName
+
+					case "personal-data":
+						serializedTag, err := tags.Get("serialized")
+						if err != nil {
+							personalDataFields = append(personalDataFields, fieldName)
+						} else {
+							if serializedFields == nil {
+								serializedFields = make(map[string]string)
+							}
+							if _, ok := serializedFields[serializedTag.Name]; ok {
+								v.err = fmt.Errorf("%s is the target of more than one serialized field", serializedTag.Name)
+							}
+							serializedFields[serializedTag.Name] = fieldName
 						}
-						serializedFields[serializedTag.Name] = fieldName
 					}
 				}
 			}
@@ -90,14 +100,19 @@ func (v *structVisitor) Visit(node ast.Node) (w ast.Visitor) {
 					continue
 				}
 
-				fieldName := field.Names[0].String()
-				if _, ok := serializedFields[fieldName]; ok {
-					if fmt.Sprintf("%s", field.Type) != "string" {
-						v.err = fmt.Errorf("no string target for serialized personal data")
+				for _, name := range field.Names {
+					if _, ok := serializedFields[name.String()]; ok {
+						if fmt.Sprintf("%s", field.Type) != "string" {
+							v.err = fmt.Errorf("no string target for serialized personal data")
+						}
 					}
 				}
 			}
 
+			if subjectID == "" && len(personalDataFields)+len(serializedFields) > 0 {
+				v.err = fmt.Errorf("no subject-id for personal data in %s", n.Name)
+			}
+
 			var parsedEvent ParsedEvent
 			if subjectID != "" {
 				parsedEvent = ParsedEvent{
-- 
2.43.0


From 803b272478153c7cbc32b40ca11722d671169f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:06 +0000
Subject: [PATCH 37/62] fix: generated code compiles for fields named like
 keywords or with non-ASCII first letters

---
 pkg/aggregategenerator/write_aggregate.go |  3 +-
 pkg/eventparser/event_writer.go           | 42 +++++++++++++++++------
 2 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/pkg/aggregategenerator/write_aggregate.go b/pkg/aggregategenerator/write_aggregate.go
index bee0cfc..2c69fd2 100644
--- a/pkg/aggregategenerator/write_aggregate.go
+++ b/pkg/aggregategenerator/write_aggregate.go
@@ -6,6 +6,7 @@ import (
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -35,7 +36,7 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
diff --git a/pkg/eventparser/event_writer.go b/pkg/eventparser/event_writer.go
index c551511..250d7c8 100644
--- a/pkg/eventparser/event_writer.go
+++ b/pkg/eventparser/event_writer.go
@@ -2,10 +2,14 @@ package eventparser
 
 import (
 	"fmt"
+	"go/token"
+	"go/types"
 	"io"
+	"strings"
 	"text/template"
 	"time"
 	"unicode"
+	"unicode/utf8"
 )
 
 var NowFunc = time.Now
@@ -49,13 +53,31 @@ type templateData struct {
 
 func lcFirst(str string) string {
 	for i, v := range str {
-		return string(unicode.ToLower(v)) + str[i+1:]
+		return string(unicode.ToLower(v)) + str[i+utf8.RuneLen(v):]
 	}
 	return ""
 }
 
+// reservedNames are used by the generated methods.
+var reservedNames = map[string]bool{
+	"e": true, "err": true, "encryptor": true, "redactTo": true, "crypto": true, "strconv": true,
+}
+
+// varName returns a name for the local variable holding the value of a field.
+func varName(fieldName string) string {
+	name := lcFirst(fieldName)
+
+	ownPrefix := strings.HasPrefix(name, "string") || strings.HasPrefix(name, "decrypted")
+	predeclared := token.Lookup(name).IsKeyword() || types.Universe.Lookup(name) != nil
+	if ownPrefix || predeclared || reservedNames[name] {
+		return name + "Value"
+	}
+
+	return name
+}
+
 var funcMap = template.FuncMap{
-	"LcFirst": lcFirst,
+	"VarName": varName,
 }
 
 var fileTemplate = template.Must(template.New("").Funcs(funcMap).Parse(`// Code generated by go generate; DO NOT EDIT.
@@ -83,7 +105,7 @@ func (e {{ .Name }}) EventType() string     { return "{{ .Name }}" }
 {{- $event := . }}
 func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 {{- range $event.PersonalData.Fields }}
-	{{ . | LcFirst }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
+	{{ . | VarName }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -93,7 +115,7 @@ func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 {{ end }}
 {{- range $key, $value := $event.PersonalData.SerializedFields }}
 	string{{ $value }} := strconv.Itoa(e.{{ $value }})
-	{{ $key | LcFirst }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, string{{ $value }})
+	{{ $key | VarName }}, err := encryptor.Encrypt(e.{{ $event.PersonalData.SubjectID }}, string{{ $value }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -102,19 +124,19 @@ func (e *{{ .Name }}) Encrypt(encryptor crypto.Encryptor) error {
 	}
 {{ end }}
 	{{- range $event.PersonalData.Fields }}
-	e.{{ . }} = {{ . | LcFirst }}
+	e.{{ . }} = {{ . | VarName }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
 	e.{{ $v }} = 0
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
-	e.{{ $k }} = {{ $k | LcFirst }}
+	e.{{ $k }} = {{ $k | VarName }}
 	{{- end }}
 	return nil
 }
 func (e *{{ .Name }}) Decrypt(encryptor crypto.Encryptor) error {
 {{- range $event.PersonalData.Fields }}
-	{{ . | LcFirst }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
+	{{ . | VarName }}, err := encryptor.Decrypt(e.{{ $event.PersonalData.SubjectID }}, e.{{ . }})
 	if err != nil {
 		if err == crypto.ErrKeyWasDeleted {
 			e.redactPersonalData("")
@@ -130,16 +152,16 @@ func (e *{{ .Name }}) Decrypt(encryptor crypto.Encryptor) error {
 		}
 		return err
 	}
-	{{ $value | LcFirst }}, err := strconv.Atoi(decrypted{{ $value }})
+	{{ $value | VarName }}, err := strconv.Atoi(decrypted{{ $value }})
 	if err != nil {
 		return err
 	}
 {{ end }}
 	{{- range $event.PersonalData.Fields }}
-	e.{{ . }} = {{ . | LcFirst }}
+	e.{{ . }} = {{ . | VarName }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
-	e.{{ $v }} = {{ $v | LcFirst }}
+	e.{{ $v }} = {{ $v | VarName }}
 	{{- end }}
 	{{- range $k, $v := $event.PersonalData.SerializedFields }}
 	e.{{ $k }} = ""
-- 
2.43.0


From 5c8367f938a6f6d03e4ddba27d34fcd82fbb9696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:04 +0000
Subject: [PATCH 38/62] fix: the JSON record serializer refuses names that it
 would alter

---
 .../jsonrecordserializer/json_record_serializer.go     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/provider/jsonrecordserializer/json_record_serializer.go b/provider/jsonrecordserializer/json_record_serializer.go
index eb44040..20eec6f 100644
--- a/provider/jsonrecordserializer/json_record_serializer.go
+++ b/provider/jsonrecordserializer/json_record_serializer.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"reflect"
+	"unicode/utf8"
 
 	"github.com/inklabs/rangedb"
 )
@@ -25,8 +26,15 @@ func (s *jsonSerializer) Bind(events ...rangedb.Event) {
 	s.eventIdentifier.Bind(events...)
 }
 
-// Serialize encodes a record. A record without data is refused, because Deserialize refuses it.
+// Serialize encodes a record. A record without data is refused, because Deserialize refuses it. So is one named by
+// bytes that are not UTF-8, because JSON replaces them: the record would be read back as one of another stream or type.
 func (s *jsonSerializer) Serialize(record *rangedb.Record) ([]byte, error) {
+	for _, name := range []string{record.StreamName, record.AggregateType, record.AggregateID, record.EventType} {
+		if !utf8.ValidString(name) {
+			return nil, fmt.Errorf("failed marshalling record: name is not valid UTF-8: %q", name)
+		}
+	}
+
 	eventData, err := json.Marshal(record.Data)
 	if err != nil {
 		return nil, fmt.Errorf("failed marshalling record: %v", err)
-- 
2.43.0


From 000bd5486c6de513d20bc2d258cadbaa7387219d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:44 +0000
Subject: [PATCH 39/62] fix: the PostgreSQL store generates event IDs without
 being given a generator

---
 provider/postgresstore/postgres_store.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index d3139f9..0962723 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -83,10 +83,11 @@ func WithPgNotify() Option {
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
 	s := &postgresStore{
-		config:      config,
-		clock:       systemclock.New(),
-		serializer:  jsonrecordserializer.New(),
-		broadcaster: broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		config:        config,
+		clock:         systemclock.New(),
+		uuidGenerator: shortuuid.NewUUIDGenerator(),
+		serializer:    jsonrecordserializer.New(),
+		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
 	}
 
 	for _, option := range options {
-- 
2.43.0


From bcd2b6a86aab4350c2d1238a57eb197ee87efca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 40/62] fix: the PostgreSQL store reads and broadcasts events
 with metadata

---
 provider/postgresstore/postgres_store.go | 46 +++++++++++++-----------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 0962723..3a6b8c4 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -403,12 +403,9 @@ func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
 			return fmt.Errorf("unable to decode data: %v", err)
 		}
 
-		var metadata interface{}
-		if batchRecord.Metadata != "null" {
-			err = json.Unmarshal([]byte(batchRecord.Metadata), metadata)
-			if err != nil {
-				return fmt.Errorf("unable to unmarshal metadata: %v", err)
-			}
+		metadata, err := decodeMetadata(batchRecord.Metadata)
+		if err != nil {
+			return fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
 
 		record.Data = deSerializedData
@@ -643,14 +640,11 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			return 0, decodeErr
 		}
 
-		var metadata interface{}
-		if serializedMetadata != "null" {
-			err = json.Unmarshal([]byte(serializedMetadata), metadata)
-			if err != nil {
-				unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-				resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
-				return 0, unmarshalErr
-			}
+		metadata, err := decodeMetadata(serializedMetadata)
+		if err != nil {
+			unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
+			resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+			return 0, unmarshalErr
 		}
 
 		record := &rangedb.Record{
@@ -682,6 +676,19 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 	return recordsRead, nil
 }
 
+func decodeMetadata(serializedMetadata string) (interface{}, error) {
+	decoder := json.NewDecoder(strings.NewReader(serializedMetadata))
+	decoder.UseNumber()
+
+	var metadata interface{}
+	err := decoder.Decode(&metadata)
+	if err != nil {
+		return nil, err
+	}
+
+	return metadata, nil
+}
+
 func (s *postgresStore) connectToDB() error {
 	db, err := sql.Open("postgres", s.config.DataSourceName())
 	if err != nil {
@@ -751,13 +758,10 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 				return
 			}
 
-			var metadata interface{}
-			if jsonRecord.Metadata != "null" {
-				err = json.Unmarshal([]byte(jsonRecord.Metadata), metadata)
-				if err != nil {
-					log.Printf("unable to unmarshal metadata: %v", err)
-					return
-				}
+			metadata, err := decodeMetadata(jsonRecord.Metadata)
+			if err != nil {
+				log.Printf("unable to unmarshal metadata: %v", err)
+				return
 			}
 
 			record := &rangedb.Record{
-- 
2.43.0


From 9683eb1f35c20c0aa215ae5608ef66a4dfeb80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:24 +0000
Subject: [PATCH 41/62] fix: reading past the end of a PostgreSQL stream does
 not report it as missing

---
 provider/postgresstore/postgres_store.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 3a6b8c4..bd9bad5 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -215,8 +215,16 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		defer ignoreClose(rows)
 
 		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
-		if err == nil && recordsRead == 0 {
-			resultRecords <- rangedb.ResultRecord{Err: rangedb.ErrStreamNotFound}
+		if err != nil || recordsRead > 0 {
+			return
+		}
+
+		totalEvents, err := s.TotalEventsInStream(ctx, streamName)
+		if err == nil && totalEvents == 0 {
+			err = rangedb.ErrStreamNotFound
+		}
+		if err != nil {
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		}
 	}()
 
-- 
2.43.0


From 4f339ca76fd398caee2e026635a1edd127571908 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 42/62] fix: deleting a PostgreSQL stream excludes other
 writers and always ends its transaction

---
 provider/postgresstore/postgres_store.go | 27 ++++++++++++++----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index bd9bad5..a650a21 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -237,6 +237,21 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 		return err
 	}
 
+	err = s.deleteStream(ctx, transaction, expectedStreamSequenceNumber, streamName)
+	if err != nil {
+		_ = transaction.Rollback()
+		return err
+	}
+
+	return transaction.Commit()
+}
+
+func (s *postgresStore) deleteStream(ctx context.Context, transaction *sql.Tx, expectedStreamSequenceNumber uint64, streamName string) error {
+	err := s.lockStream(ctx, transaction, streamName)
+	if err != nil {
+		return err
+	}
+
 	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, transaction, streamName)
 	if err != nil {
 		return err
@@ -254,17 +269,7 @@ func (s *postgresStore) OptimisticDeleteStream(ctx context.Context, expectedStre
 	}
 
 	_, err = transaction.ExecContext(ctx, `DELETE FROM record WHERE StreamName = $1`, streamName)
-	if err != nil {
-		_ = transaction.Rollback()
-		return err
-	}
-
-	err = transaction.Commit()
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return err
 }
 
 func (s *postgresStore) OptimisticSave(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
-- 
2.43.0


From d68913db772cde2288cf6d2c0a77736a4e3990c7 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 43/62] fix: PostgreSQL reads give up their connection when
 nobody takes their error, and see a stream created while they start

---
 provider/postgresstore/postgres_store.go | 71 ++++++++++++------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index a650a21..2289440 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -138,14 +138,7 @@ func (s *postgresStore) Events(ctx context.Context, globalSequenceNumber uint64)
 		FROM record
 		WHERE GlobalSequenceNumber >= $1
 		ORDER BY GlobalSequenceNumber`
-		rows, err := s.db.QueryContext(ctx, query,
-			globalSequenceNumber)
-		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
-			return
-		}
-		defer ignoreClose(rows)
-		_, _ = s.readResultRecords(ctx, rows, resultRecords)
+		_, _ = s.queryResultRecords(ctx, resultRecords, query, globalSequenceNumber)
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -174,14 +167,7 @@ func (s *postgresStore) EventsByAggregateTypes(ctx context.Context, globalSequen
 		FROM record
 		WHERE AggregateType = ANY($1) AND GlobalSequenceNumber >= $2
 		ORDER BY GlobalSequenceNumber`
-		rows, err := s.db.QueryContext(ctx, query,
-			pq.Array(aggregateTypes), globalSequenceNumber)
-		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
-			return
-		}
-		defer ignoreClose(rows)
-		_, _ = s.readResultRecords(ctx, rows, resultRecords)
+		_, _ = s.queryResultRecords(ctx, resultRecords, query, pq.Array(aggregateTypes), globalSequenceNumber)
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
@@ -206,25 +192,25 @@ func (s *postgresStore) EventsByStream(ctx context.Context, streamSequenceNumber
 		FROM record
 		WHERE StreamName = $1 AND StreamSequenceNumber >= $2 
 		ORDER BY GlobalSequenceNumber`
-		rows, err := s.db.QueryContext(ctx, query,
-			streamName, streamSequenceNumber)
-		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
-			return
-		}
-		defer ignoreClose(rows)
 
-		recordsRead, err := s.readResultRecords(ctx, rows, resultRecords)
-		if err != nil || recordsRead > 0 {
-			return
-		}
+		for {
+			recordsRead, err := s.queryResultRecords(ctx, resultRecords, query, streamName, streamSequenceNumber)
+			if err != nil || recordsRead > 0 {
+				return
+			}
 
-		totalEvents, err := s.TotalEventsInStream(ctx, streamName)
-		if err == nil && totalEvents == 0 {
-			err = rangedb.ErrStreamNotFound
-		}
-		if err != nil {
-			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+			totalEvents, err := s.TotalEventsInStream(ctx, streamName)
+			if err == nil && totalEvents == 0 {
+				err = rangedb.ErrStreamNotFound
+			}
+			if err != nil {
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+				return
+			}
+			if totalEvents < streamSequenceNumber {
+				return
+			}
+			// Events to read were saved in between.
 		}
 	}()
 
@@ -610,6 +596,17 @@ func (s *postgresStore) getStreamSequenceNumber(ctx context.Context, queryable d
 	return lastStreamSequenceNumber, nil
 }
 
+func (s *postgresStore) queryResultRecords(ctx context.Context, resultRecords chan rangedb.ResultRecord, query string, args ...interface{}) (int, error) {
+	rows, err := s.db.QueryContext(ctx, query, args...)
+	if err != nil {
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
+		return 0, err
+	}
+	defer ignoreClose(rows)
+
+	return s.readResultRecords(ctx, rows, resultRecords)
+}
+
 func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, resultRecords chan rangedb.ResultRecord) (int, error) {
 	recordsRead := 0
 	for rows.Next() {
@@ -638,7 +635,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 			&serializedMetadata,
 		)
 		if err != nil {
-			resultRecords <- rangedb.ResultRecord{Err: err}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 			return 0, err
 		}
 
@@ -649,14 +646,14 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 		)
 		if err != nil {
 			decodeErr := fmt.Errorf("unable to decode data: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: decodeErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, decodeErr, time.Second)
 			return 0, decodeErr
 		}
 
 		metadata, err := decodeMetadata(serializedMetadata)
 		if err != nil {
 			unmarshalErr := fmt.Errorf("unable to unmarshal metadata: %v", err)
-			resultRecords <- rangedb.ResultRecord{Err: unmarshalErr}
+			rangedb.PublishErrorOrCancel(ctx, resultRecords, unmarshalErr, time.Second)
 			return 0, unmarshalErr
 		}
 
@@ -682,7 +679,7 @@ func (s *postgresStore) readResultRecords(ctx context.Context, rows *sql.Rows, r
 
 	err := rows.Err()
 	if err != nil {
-		resultRecords <- rangedb.ResultRecord{Err: err}
+		rangedb.PublishErrorOrCancel(ctx, resultRecords, err, time.Second)
 		return 0, err
 	}
 
-- 
2.43.0


From 77f86c2aca1ab29ecb47d00e7c4ce119442c0c5d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:19:36 +0000
Subject: [PATCH 44/62] fix: PostgreSQL events become visible and are broadcast
 in the order of their global sequence numbers

---
 provider/postgresstore/postgres_store.go | 56 +++++++++++++++++++++++-
 1 file changed, 55 insertions(+), 1 deletion(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 2289440..f360554 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -26,6 +26,7 @@ import (
 const (
 	broadcastRecordBuffSize   = 100
 	streamAdvisoryLockTimeout = 2 * time.Second
+	logAdvisoryLockKey        = -1 // unlike any stream lock key
 )
 
 type batchSQLRecord struct {
@@ -53,6 +54,7 @@ type postgresStore struct {
 	uuidGenerator     shortuuid.Generator
 	serializer        JsonSerializer
 	broadcaster       broadcast.Broadcaster
+	broadcastTurn     chan struct{}
 	pgNotifyIsEnabled bool
 }
 
@@ -88,6 +90,7 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 		uuidGenerator: shortuuid.NewUUIDGenerator(),
 		serializer:    jsonrecordserializer.New(),
 		broadcaster:   broadcast.New(broadcastRecordBuffSize, broadcast.DefaultTimeout),
+		broadcastTurn: make(chan struct{}, 1),
 	}
 
 	for _, option := range options {
@@ -278,7 +281,10 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 		return 0, err
 	}
 
-	saveResult, err := s.saveEvents(ctx, transaction, expectedStreamSequenceNumber, streamName, eventRecords)
+	turn := &broadcastTurn{store: s}
+	defer turn.end()
+
+	saveResult, err := s.saveEvents(ctx, turn, transaction, expectedStreamSequenceNumber, streamName, eventRecords)
 	if err != nil {
 		_ = transaction.Rollback()
 		return 0, err
@@ -299,8 +305,36 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 	return saveResult.LastStreamSequenceNumber, nil
 }
 
+// broadcastTurn is held by a save from its insert until its events are broadcast, so that
+// they are broadcast in the order of their global sequence numbers.
+type broadcastTurn struct {
+	store *postgresStore
+	held  bool
+}
+
+func (t *broadcastTurn) begin(ctx context.Context) error {
+	if t.store.pgNotifyIsEnabled {
+		return nil
+	}
+
+	select {
+	case <-ctx.Done():
+		return ctx.Err()
+	case t.store.broadcastTurn <- struct{}{}:
+		t.held = true
+		return nil
+	}
+}
+
+func (t *broadcastTurn) end() {
+	if t.held {
+		<-t.store.broadcastTurn
+	}
+}
+
 func (s *postgresStore) saveEvents(
 	ctx context.Context,
+	turn *broadcastTurn,
 	transaction *sql.Tx,
 	expectedStreamSequenceNumber *uint64,
 	streamName string,
@@ -325,6 +359,16 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	err = turn.begin(ctx)
+	if err != nil {
+		return nil, err
+	}
+
+	err = s.lockLog(ctx, transaction)
+	if err != nil {
+		return nil, err
+	}
+
 	globalSequenceNumbers, lastStreamSequenceNumber, err := s.batchInsert(ctx, transaction, batchRecords)
 	if err != nil {
 		return nil, err
@@ -528,6 +572,16 @@ func (s *postgresStore) lockStream(ctx context.Context, transaction dbExecAble,
 	return nil
 }
 
+// lockLog excludes other inserts until the transaction ends. Otherwise, events could become visible after others
+// with higher global sequence numbers, and be missed by readers that continue from the last one they have seen.
+func (s *postgresStore) lockLog(ctx context.Context, transaction dbExecAble) error {
+	_, err := transaction.ExecContext(ctx, `SELECT pg_advisory_xact_lock($1)`, logAdvisoryLockKey)
+	if err != nil {
+		return fmt.Errorf("unable to obtain lock: %v", err)
+	}
+	return nil
+}
+
 func (s *postgresStore) InitDB() error {
 	sqlStatements := []string{
 		`CREATE TABLE IF NOT EXISTS record (
-- 
2.43.0


From 4aa09ac4aea03e1069b34b19f509224b20596215 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 45/62] fix: a PostgreSQL save is refused before it is
 committed when its events cannot be read back

---
 provider/postgresstore/postgres_store.go | 62 +++++++++++++-----------
 1 file changed, 34 insertions(+), 28 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index f360554..c0f5499 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -271,8 +271,7 @@ func (s *postgresStore) Save(ctx context.Context, streamName string, eventRecord
 
 type saveResults struct {
 	LastStreamSequenceNumber uint64
-	GlobalSequenceNumbers    []uint64
-	BatchRecords             []*batchSQLRecord
+	Records                  []*rangedb.Record
 }
 
 func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStreamSequenceNumber *uint64, streamName string, eventRecords ...*rangedb.EventRecord) (uint64, error) {
@@ -296,9 +295,8 @@ func (s *postgresStore) transactionalSaveEvents(ctx context.Context, expectedStr
 	}
 
 	if !s.pgNotifyIsEnabled {
-		err = s.batchNotifySubscribers(saveResult)
-		if err != nil {
-			return 0, err
+		for _, record := range saveResult.Records {
+			s.broadcaster.Accept(record)
 		}
 	}
 
@@ -359,6 +357,11 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	records, err := s.batchRecordsToRecords(batchRecords)
+	if err != nil {
+		return nil, err
+	}
+
 	err = turn.begin(ctx)
 	if err != nil {
 		return nil, err
@@ -374,10 +377,15 @@ func (s *postgresStore) saveEvents(
 		return nil, err
 	}
 
+	if !s.pgNotifyIsEnabled {
+		for i, globalSequenceNumber := range globalSequenceNumbers {
+			records[i].GlobalSequenceNumber = globalSequenceNumber
+		}
+	}
+
 	return &saveResults{
 		LastStreamSequenceNumber: lastStreamSequenceNumber,
-		GlobalSequenceNumbers:    globalSequenceNumbers,
-		BatchRecords:             batchRecords,
+		Records:                  records,
 	}, nil
 }
 
@@ -422,41 +430,39 @@ func (s *postgresStore) validateStreamSequenceNumber(ctx context.Context, querya
 	return streamSequenceNumber, nil
 }
 
-func (s *postgresStore) batchNotifySubscribers(saveResult *saveResults) error {
-	for i, batchRecord := range saveResult.BatchRecords {
-		record := &rangedb.Record{
-			StreamName:           batchRecord.StreamName,
-			AggregateType:        batchRecord.AggregateType,
-			AggregateID:          batchRecord.AggregateID,
-			GlobalSequenceNumber: saveResult.GlobalSequenceNumbers[i],
-			StreamSequenceNumber: batchRecord.StreamSequenceNumber,
-			EventType:            batchRecord.EventType,
-			EventID:              batchRecord.EventID,
-			InsertTimestamp:      batchRecord.InsertTimestamp,
-			Data:                 batchRecord.Data,
-			Metadata:             batchRecord.Metadata,
-		}
+// batchRecordsToRecords returns the records that will be read back, without their global sequence numbers.
+func (s *postgresStore) batchRecordsToRecords(batchRecords []*batchSQLRecord) ([]*rangedb.Record, error) {
+	var records []*rangedb.Record
 
-		deSerializedData, err := jsonrecordserializer.DecodeJsonData(
+	for _, batchRecord := range batchRecords {
+		data, err := jsonrecordserializer.DecodeJsonData(
 			batchRecord.EventType,
 			strings.NewReader(batchRecord.Data),
 			s.serializer,
 		)
 		if err != nil {
-			return fmt.Errorf("unable to decode data: %v", err)
+			return nil, fmt.Errorf("unable to decode data: %v", err)
 		}
 
 		metadata, err := decodeMetadata(batchRecord.Metadata)
 		if err != nil {
-			return fmt.Errorf("unable to unmarshal metadata: %v", err)
+			return nil, fmt.Errorf("unable to unmarshal metadata: %v", err)
 		}
 
-		record.Data = deSerializedData
-		record.Metadata = metadata
-		s.broadcaster.Accept(record)
+		records = append(records, &rangedb.Record{
+			StreamName:           batchRecord.StreamName,
+			AggregateType:        batchRecord.AggregateType,
+			AggregateID:          batchRecord.AggregateID,
+			StreamSequenceNumber: batchRecord.StreamSequenceNumber,
+			EventType:            batchRecord.EventType,
+			EventID:              batchRecord.EventID,
+			InsertTimestamp:      batchRecord.InsertTimestamp,
+			Data:                 data,
+			Metadata:             metadata,
+		})
 	}
 
-	return nil
+	return records, nil
 }
 
 func (s *postgresStore) eventRecordsToBatchRecords(eventRecords []*rangedb.EventRecord, streamName string, streamSequenceNumber uint64) ([]*batchSQLRecord, error) {
-- 
2.43.0


From a969c4bbc151779ba2bb90d2903300a2a7042627 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:20:25 +0000
Subject: [PATCH 46/62] fix: PostgreSQL subscribers get the events saved while
 the notification connection was lost

---
 provider/postgresstore/postgres_store.go | 92 +++++++++++++++++++++---
 1 file changed, 83 insertions(+), 9 deletions(-)

diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index c0f5499..50ec489 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"hash/fnv"
 	"io"
@@ -49,6 +50,9 @@ type JsonSerializer interface {
 
 type postgresStore struct {
 	config            *Config
+	ctx               context.Context
+	cancel            context.CancelFunc
+	listener          *pq.Listener
 	db                *sql.DB
 	clock             clock.Clock
 	uuidGenerator     shortuuid.Generator
@@ -84,7 +88,10 @@ func WithPgNotify() Option {
 
 // New constructs an postgresStore.
 func New(config *Config, options ...Option) (*postgresStore, error) {
+	ctx, cancel := context.WithCancel(context.Background())
 	s := &postgresStore{
+		ctx:           ctx,
+		cancel:        cancel,
 		config:        config,
 		clock:         systemclock.New(),
 		uuidGenerator: shortuuid.NewUUIDGenerator(),
@@ -105,6 +112,7 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 	if s.pgNotifyIsEnabled {
 		err = s.startPQListener()
 		if err != nil {
+			_ = s.CloseDB()
 			return nil, err
 		}
 	}
@@ -114,6 +122,11 @@ func New(config *Config, options ...Option) (*postgresStore, error) {
 
 // CloseDB closes the postgres DB connection.
 func (s *postgresStore) CloseDB() error {
+	s.cancel()
+	if s.listener != nil {
+		_ = s.listener.Close()
+	}
+
 	return s.db.Close()
 }
 
@@ -777,22 +790,41 @@ func (s *postgresStore) connectToDB() error {
 
 func (s *postgresStore) startPQListener() error {
 	reportProblem := func(ev pq.ListenerEventType, err error) {
-		if err != nil {
+		if err != nil && s.ctx.Err() == nil {
 			fmt.Println(err.Error())
 		}
 	}
 
-	listener := pq.NewListener(s.config.DataSourceName(), 10*time.Second, time.Minute, reportProblem)
-	err := listener.Listen("records")
+	s.listener = pq.NewListener(s.config.DataSourceName(), 10*time.Second, time.Minute, reportProblem)
+	err := s.listener.Listen("records")
 	if err != nil {
 		return err
 	}
 
-	go s.listen(listener)
+	lastGlobalSequenceNumber, err := s.lastGlobalSequenceNumber(s.ctx)
+	if err != nil {
+		return err
+	}
+
+	go s.listen(s.listener, lastGlobalSequenceNumber)
 
 	return nil
 }
 
+// lastGlobalSequenceNumber returns 0 when there are no events, or no table yet.
+func (s *postgresStore) lastGlobalSequenceNumber(ctx context.Context) (uint64, error) {
+	var lastGlobalSequenceNumber sql.NullInt64
+
+	err := s.db.QueryRowContext(ctx, `SELECT MAX(GlobalSequenceNumber) FROM record`).Scan(&lastGlobalSequenceNumber)
+
+	var pqError *pq.Error
+	if errors.As(err, &pqError) && pqError.Code.Name() == "undefined_table" {
+		return 0, nil
+	}
+
+	return uint64(lastGlobalSequenceNumber.Int64), err
+}
+
 // PostgresJsonRecord holds a JSON record sent via pg_notify.
 type PostgresJsonRecord struct {
 	StreamName           string `json:"streamname"`
@@ -807,17 +839,36 @@ type PostgresJsonRecord struct {
 	Metadata             string `json:"metadata"`
 }
 
-func (s *postgresStore) listen(listener *pq.Listener) {
+// listen broadcasts the events that come as notifications. A nil notification says that the connection was lost and
+// found again: the events saved in between are then read.
+func (s *postgresStore) listen(listener *pq.Listener, lastGlobalSequenceNumber uint64) {
+	var caughtUpTo uint64
+
 	for {
 		select {
-		case n := <-listener.Notify:
+		case n, ok := <-listener.Notify:
+			if !ok {
+				return
+			}
+
+			if n == nil {
+				lastGlobalSequenceNumber = s.broadcastMissedEvents(lastGlobalSequenceNumber)
+				caughtUpTo = lastGlobalSequenceNumber
+				continue
+			}
+
 			var jsonRecord PostgresJsonRecord
 			err := json.Unmarshal([]byte(n.Extra), &jsonRecord)
 			if err != nil {
 				log.Printf("invalid json request body: %v", err)
-				return
+				continue
 			}
 
+			if jsonRecord.GlobalSequenceNumber <= caughtUpTo {
+				continue
+			}
+			lastGlobalSequenceNumber = jsonRecord.GlobalSequenceNumber
+
 			data, err := jsonrecordserializer.DecodeJsonData(
 				jsonRecord.EventType,
 				strings.NewReader(jsonRecord.Data),
@@ -825,13 +876,13 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 			)
 			if err != nil {
 				log.Printf("unable to decode data: %v", err)
-				return
+				continue
 			}
 
 			metadata, err := decodeMetadata(jsonRecord.Metadata)
 			if err != nil {
 				log.Printf("unable to unmarshal metadata: %v", err)
-				return
+				continue
 			}
 
 			record := &rangedb.Record{
@@ -860,6 +911,29 @@ func (s *postgresStore) listen(listener *pq.Listener) {
 	}
 }
 
+// broadcastMissedEvents broadcasts the events after a global sequence number, and returns that of the last one.
+func (s *postgresStore) broadcastMissedEvents(lastGlobalSequenceNumber uint64) uint64 {
+	for {
+		iter := s.Events(s.ctx, lastGlobalSequenceNumber+1)
+		for iter.Next() {
+			record := iter.Record()
+			lastGlobalSequenceNumber = record.GlobalSequenceNumber
+			s.broadcaster.Accept(record)
+		}
+		if iter.Err() == nil {
+			return lastGlobalSequenceNumber
+		}
+
+		log.Printf("unable to read missed events: %v", iter.Err())
+
+		select {
+		case <-s.ctx.Done():
+			return lastGlobalSequenceNumber
+		case <-time.After(time.Second):
+		}
+	}
+}
+
 type dbQueryable interface {
 	QueryContext(ctx context.Context, query string, args ...interface{}) (*sql.Rows, error)
 }
-- 
2.43.0


From 4c93a2a72f933bde80a5b6d0300ad39d1f4e4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:12 +0000
Subject: [PATCH 47/62] fix: PostgreSQL encryption keys of more than one
 subject can be deleted

---
 pkg/crypto/provider/postgreskeystore/postgres_keystore.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
index 41b5521..af68ef5 100644
--- a/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
+++ b/pkg/crypto/provider/postgreskeystore/postgres_keystore.go
@@ -43,7 +43,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 	row := p.db.QueryRow("SELECT EncryptionKey, DeletedAtTimestamp FROM vault WHERE SubjectID = $1",
 		subjectID)
 
-	var encryptionKey string
+	var encryptionKey sql.NullString
 	var deletedAtTimestamp *uint64
 	err := row.Scan(&encryptionKey, &deletedAtTimestamp)
 	if err != nil {
@@ -58,7 +58,7 @@ func (p *postgresKeyStore) Get(subjectID string) (string, error) {
 		return "", crypto.ErrKeyWasDeleted
 	}
 
-	return encryptionKey, nil
+	return encryptionKey.String, nil
 }
 
 func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
@@ -87,7 +87,8 @@ func (p *postgresKeyStore) Set(subjectID, encryptionKey string) error {
 }
 
 func (p *postgresKeyStore) Delete(subjectID string) error {
-	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = '' WHERE SubjectID = $2",
+	// Encryption keys are unique, except for NULL.
+	_, err := p.db.Exec("UPDATE vault SET DeletedAtTimestamp = $1, EncryptionKey = NULL WHERE SubjectID = $2",
 		time.Now().Unix(),
 		subjectID)
 	if err != nil {
-- 
2.43.0


From 98bef0d71d010ebbcaf3ed6d0c09ff2d9a7ba523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 48/62] fix: EventStoreDB reads tell their end from failures,
 and end when nobody takes their events

---
 provider/eventstore/eventstore.go | 235 ++++++++----------------------
 1 file changed, 57 insertions(+), 178 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 8796f09..3ceae4d 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -30,6 +30,7 @@ import (
 const (
 	rpcErrContextCanceled   = "Canceled desc = context canceled"
 	broadcastRecordBuffSize = 100
+	publishTimeout          = time.Second
 )
 
 type RangeDBMetadata struct {
@@ -193,59 +194,18 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 		}
 		readStream, err := s.client.ReadAll(ctx, readAllOptions, ^uint64(0))
 		if err != nil {
-			if errors.Is(err, io.EOF) {
-				return
-			}
-
-			if errors.Is(err, esdb.ErrStreamNotFound) {
-				return
-			}
-
-			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
-				return
-			}
-
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStreamEvents: %w", err),
-			}
+			publishReadAllError(ctx, resultRecords, fmt.Errorf("unexpected failure ReadStreamEvents: %w", err))
 			return
 		}
+		defer readStream.Close()
 
 		for {
 			resolvedEvent, err := readStream.Recv()
 			if err != nil {
-				if errors.Is(err, io.EOF) {
-					return
-				}
-
-				if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    context.Canceled,
-					}
-					return
-				}
-
-				if errors.Is(err, esdb.ErrStreamNotFound) {
-					return
-				}
-
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				publishReadAllError(ctx, resultRecords, fmt.Errorf("unable to receive event: %w", err))
 				return
 			}
 
-			if resolvedEvent.Event == nil {
-				continue
-			}
-
 			if s.isInternalESDBEvent(resolvedEvent) {
 				continue
 			}
@@ -260,26 +220,12 @@ func (s *eventStore) Events(ctx context.Context, globalSequenceNumber uint64) ra
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), publishTimeout)
 				return
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, publishTimeout) {
 				return
-
-			default:
-				resultRecords <- rangedb.ResultRecord{
-					Record: record,
-					Err:    nil,
-				}
 			}
 		}
 	}()
@@ -303,35 +249,14 @@ func (s *eventStore) EventsByAggregateTypes(ctx context.Context, globalSequenceN
 		}
 		readStream, err := s.client.ReadAll(ctx, readAllOptions, ^uint64(0))
 		if err != nil {
-			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
-				return
-			}
-
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStreamEvents: %w", err),
-			}
+			publishReadAllError(ctx, resultRecords, fmt.Errorf("unexpected failure ReadStreamEvents: %w", err))
 			return
 		}
+		defer readStream.Close()
 		for {
 			resolvedEvent, err := readStream.Recv()
 			if err != nil {
-				if err == io.EOF {
-					return
-				}
-
-				if errors.Is(err, esdb.ErrStreamNotFound) {
-					return
-				}
-
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				publishReadAllError(ctx, resultRecords, fmt.Errorf("unable to receive event: %w", err))
 				return
 			}
 
@@ -349,34 +274,20 @@ func (s *eventStore) EventsByAggregateTypes(ctx context.Context, globalSequenceN
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), publishTimeout)
 				return
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
-				return
-
-			default:
-				if _, ok := aggregateTypesMap[record.AggregateType]; !ok {
-					continue
-				}
+			if _, ok := aggregateTypesMap[record.AggregateType]; !ok {
+				continue
+			}
 
-				if record.GlobalSequenceNumber < globalSequenceNumber {
-					continue
-				}
+			if record.GlobalSequenceNumber < globalSequenceNumber {
+				continue
+			}
 
-				resultRecords <- rangedb.ResultRecord{
-					Record: record,
-					Err:    nil,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, publishTimeout) {
+				return
 			}
 		}
 	}()
@@ -396,66 +307,16 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 		}
 		readStream, err := s.client.ReadStream(ctx, s.streamName(streamName), readStreamOptions, ^uint64(0))
 		if err != nil {
-			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
-				return
-			}
-
-			var streamDeletedError *esdb.StreamDeletedError
-			if errors.Is(err, esdb.ErrStreamNotFound) || errors.As(err, &streamDeletedError) {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    rangedb.ErrStreamNotFound,
-				}
-				return
-			}
-
-			resultRecords <- rangedb.ResultRecord{
-				Record: nil,
-				Err:    fmt.Errorf("unexpected failure ReadStream: %w", err),
-			}
+			publishReadStreamError(ctx, resultRecords, zeroBasedSequenceNumber(streamSequenceNumber), fmt.Errorf("unexpected failure ReadStream: %w", err))
 			return
 		}
+		defer readStream.Close()
 
-		totalRecords := 0
+		totalRecords := uint64(0)
 		for {
 			resolvedEvent, err := readStream.Recv()
 			if err != nil {
-				if errors.Is(err, io.EOF) {
-					if totalRecords == 0 {
-						resultRecords <- rangedb.ResultRecord{
-							Record: nil,
-							Err:    rangedb.ErrStreamNotFound,
-						}
-						return
-					}
-
-					return
-				}
-
-				if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    context.Canceled,
-					}
-					return
-				}
-
-				if errors.Is(err, esdb.ErrStreamNotFound) {
-					resultRecords <- rangedb.ResultRecord{
-						Record: nil,
-						Err:    rangedb.ErrStreamNotFound,
-					}
-					return
-				}
-
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to receive event: %w", err),
-				}
+				publishReadStreamError(ctx, resultRecords, zeroBasedSequenceNumber(streamSequenceNumber)+totalRecords, fmt.Errorf("unable to receive event: %w", err))
 				return
 			}
 
@@ -469,10 +330,7 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 
 			record, err := s.recordFromLinkedEvent(resolvedEvent)
 			if err != nil {
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    fmt.Errorf("unable to deserialize resolved event: %w", err),
-				}
+				rangedb.PublishErrorOrCancel(ctx, resultRecords, fmt.Errorf("unable to deserialize resolved event: %w", err), publishTimeout)
 				return
 			}
 
@@ -484,26 +342,47 @@ func (s *eventStore) EventsByStream(ctx context.Context, streamSequenceNumber ui
 				continue
 			}
 
-			select {
-			case <-ctx.Done():
-				resultRecords <- rangedb.ResultRecord{
-					Record: nil,
-					Err:    context.Canceled,
-				}
+			if !rangedb.PublishRecordOrCancel(ctx, resultRecords, record, publishTimeout) {
 				return
-
-			case resultRecords <- rangedb.ResultRecord{
-				Record: record,
-				Err:    nil,
-			}:
-				totalRecords++
 			}
+			totalRecords++
 		}
 	}()
 
 	return rangedb.NewRecordIterator(resultRecords)
 }
 
+// publishReadAllError publishes why reading all events ended, unless there are no more.
+func publishReadAllError(ctx context.Context, resultRecords chan rangedb.ResultRecord, err error) {
+	if errors.Is(err, io.EOF) || errors.Is(err, esdb.ErrStreamNotFound) {
+		return
+	}
+
+	publishReadError(ctx, resultRecords, err)
+}
+
+// publishReadStreamError publishes why reading a stream ended, unless there are no more events after the first ones.
+func publishReadStreamError(ctx context.Context, resultRecords chan rangedb.ResultRecord, precedingEvents uint64, err error) {
+	if errors.Is(err, io.EOF) && precedingEvents > 0 {
+		return
+	}
+
+	var streamDeletedError *esdb.StreamDeletedError
+	if errors.Is(err, io.EOF) || errors.Is(err, esdb.ErrStreamNotFound) || errors.As(err, &streamDeletedError) {
+		err = rangedb.ErrStreamNotFound
+	}
+
+	publishReadError(ctx, resultRecords, err)
+}
+
+func publishReadError(ctx context.Context, resultRecords chan rangedb.ResultRecord, err error) {
+	if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
+		err = context.Canceled
+	}
+
+	rangedb.PublishErrorOrCancel(ctx, resultRecords, err, publishTimeout)
+}
+
 func zeroBasedSequenceNumber(sequenceNumber uint64) uint64 {
 	if sequenceNumber < 1 {
 		return 0
@@ -709,7 +588,7 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 }
 
 func (s *eventStore) isInternalESDBEvent(event *esdb.ResolvedEvent) bool {
-	return strings.HasPrefix(event.Event.EventType, "$")
+	return event.Event != nil && strings.HasPrefix(event.Event.EventType, "$")
 }
 
 func (s *eventStore) inCurrentVersion(event *esdb.ResolvedEvent) bool {
-- 
2.43.0


From 56b16be6fd72929563997650f6c3bcfd92dd8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 49/62] fix: counting the events of an EventStoreDB stream
 reports a failing read

---
 provider/eventstore/eventstore.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 3ceae4d..6c9e371 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -482,11 +482,11 @@ func (s *eventStore) TotalEventsInStream(ctx context.Context, streamName string)
 	iter := s.EventsByStream(ctx, 0, streamName)
 	total := uint64(0)
 	for iter.Next() {
-		if iter.Err() != nil {
-			break
-		}
 		total++
 	}
+	if iter.Err() != nil && !errors.Is(iter.Err(), rangedb.ErrStreamNotFound) {
+		return 0, iter.Err()
+	}
 	return total, nil
 }
 
-- 
2.43.0


From b5df545e86c2a4ed229b14ea0e0da918e9fd9cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:39 +0000
Subject: [PATCH 50/62] fix: an EventStoreDB save that is refused, raced or
 cannot read its stream neither succeeds nor panics

---
 provider/eventstore/eventstore.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 6c9e371..5632289 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -499,7 +499,10 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	aggregateID := eventRecords[0].Event.AggregateID()
 
 	if expectedStreamSequenceNumber != nil {
-		streamSequenceNumber, _ := s.getStreamSequenceNumber(ctx, streamName)
+		streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, streamName)
+		if err != nil && !errors.Is(err, rangedb.ErrStreamNotFound) {
+			return 0, err
+		}
 		if *expectedStreamSequenceNumber != streamSequenceNumber {
 			return 0, &rangedberror.UnexpectedSequenceNumber{
 				Expected:             *expectedStreamSequenceNumber,
@@ -559,8 +562,11 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	}
 
 	var streamRevision esdb.ExpectedRevision
-	if expectedStreamSequenceNumber != nil && *expectedStreamSequenceNumber > 0 {
-		streamRevision = esdb.Revision(zeroBasedSequenceNumber(*expectedStreamSequenceNumber))
+	if expectedStreamSequenceNumber != nil {
+		streamRevision = esdb.NoStream{}
+		if *expectedStreamSequenceNumber > 0 {
+			streamRevision = esdb.Revision(zeroBasedSequenceNumber(*expectedStreamSequenceNumber))
+		}
 	}
 
 	appendToStreamRevisionOptions := esdb.AppendToStreamOptions{
@@ -568,10 +574,13 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 	}
 	result, err := s.client.AppendToStream(ctx, s.streamName(streamName), appendToStreamRevisionOptions, proposedEvents...)
 	if err != nil {
-		if errors.Is(err, esdb.ErrWrongExpectedStreamRevision) {
-			return 0, &rangedberror.UnexpectedSequenceNumber{
-				Expected:             *expectedStreamSequenceNumber,
-				ActualSequenceNumber: 0,
+		if errors.Is(err, esdb.ErrWrongExpectedStreamRevision) && expectedStreamSequenceNumber != nil {
+			actualSequenceNumber, readErr := s.getStreamSequenceNumber(ctx, streamName)
+			if readErr == nil && actualSequenceNumber != *expectedStreamSequenceNumber {
+				return 0, &rangedberror.UnexpectedSequenceNumber{
+					Expected:             *expectedStreamSequenceNumber,
+					ActualSequenceNumber: actualSequenceNumber,
+				}
 			}
 		}
 
-- 
2.43.0


From 8342f867925a3f5b5091fd5342646020d1a6c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:04 +0000
Subject: [PATCH 51/62] fix: deleting an EventStoreDB stream of one event
 expecting none is refused

---
 provider/eventstore/eventstore.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 5632289..996abed 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -396,13 +396,24 @@ func oneBasedSequenceNumber(sequenceNumber uint64) uint64 {
 }
 
 func (s *eventStore) OptimisticDeleteStream(ctx context.Context, expectedStreamSequenceNumber uint64, streamName string) error {
+	streamSequenceNumber, err := s.getStreamSequenceNumber(ctx, streamName)
+	if err != nil {
+		return err
+	}
+	if expectedStreamSequenceNumber != streamSequenceNumber {
+		return &rangedberror.UnexpectedSequenceNumber{
+			Expected:             expectedStreamSequenceNumber,
+			ActualSequenceNumber: streamSequenceNumber,
+		}
+	}
+
 	versionedStreamName := s.streamName(streamName)
 	tombstoneStreamOptions := esdb.TombstoneStreamOptions{
 		ExpectedRevision: esdb.Revision(zeroBasedSequenceNumber(expectedStreamSequenceNumber)),
 		Authenticated:    nil,
 	}
 
-	_, err := s.client.TombstoneStream(ctx, versionedStreamName, tombstoneStreamOptions)
+	_, err = s.client.TombstoneStream(ctx, versionedStreamName, tombstoneStreamOptions)
 	if err != nil {
 		var streamDeletedError *esdb.StreamDeletedError
 		if errors.Is(err, esdb.ErrStreamNotFound) || errors.As(err, &streamDeletedError) {
-- 
2.43.0


From 969b462e62c35a42aa08f27001aed6e0f0269fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:04 +0000
Subject: [PATCH 52/62] fix: an EventStoreDB save is refused when its events
 cannot be read back

---
 provider/eventstore/eventstore.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 996abed..221dc98 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -560,6 +560,11 @@ func (s *eventStore) saveEvents(ctx context.Context, expectedStreamSequenceNumbe
 			return 0, err
 		}
 
+		_, err = jsonrecordserializer.DecodeJsonData(eventRecord.Event.EventType(), bytes.NewReader(eventData), s.eventTypeIdentifier)
+		if err != nil {
+			return 0, err
+		}
+
 		eventUUID, _ := uuid.FromString(eventID)
 		proposedEvent := esdb.EventData{
 			EventID:     eventUUID,
-- 
2.43.0


From a9e60d37f91f4ad24691538498c4dab9923df241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:43 +0000
Subject: [PATCH 53/62] fix: EventStoreDB subscribers get each new event once,
 also after a dropped subscription, until the store is closed

---
 provider/eventstore/eventstore.go | 121 ++++++++++++++++++++----------
 1 file changed, 82 insertions(+), 39 deletions(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 221dc98..133bb85 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -31,6 +31,8 @@ const (
 	rpcErrContextCanceled   = "Canceled desc = context canceled"
 	broadcastRecordBuffSize = 100
 	publishTimeout          = time.Second
+	subscribeTimeout        = 5 * time.Second
+	resubscribeDelay        = 100 * time.Millisecond
 )
 
 type RangeDBMetadata struct {
@@ -86,6 +88,8 @@ type eventStore struct {
 	broadcaster         broadcast.Broadcaster
 	eventTypeIdentifier rangedb.EventTypeIdentifier
 	config              Config
+	ctx                 context.Context
+	cancel              context.CancelFunc
 
 	recordDeletedStreams bool
 	mu                   sync.RWMutex
@@ -134,6 +138,7 @@ func New(config Config, options ...Option) (*eventStore, error) {
 		config:              config,
 		deletedStreams:      make(map[string]struct{}),
 	}
+	s.ctx, s.cancel = context.WithCancel(context.Background())
 
 	for _, option := range options {
 		option(s)
@@ -144,12 +149,19 @@ func New(config Config, options ...Option) (*eventStore, error) {
 		return nil, err
 	}
 
-	go s.startSubscription()
+	subscribed := make(chan struct{})
+	go s.startSubscription(subscribed)
+
+	select {
+	case <-subscribed:
+	case <-time.After(subscribeTimeout):
+	}
 
 	return s, nil
 }
 
 func (s *eventStore) Close() error {
+	s.cancel()
 	return s.client.Close()
 }
 
@@ -697,72 +709,103 @@ func (s *eventStore) recordFromLinkedEvent(resolvedEvent *esdb.ResolvedEvent) (*
 	return record, nil
 }
 
-func (s *eventStore) startSubscription() {
-	ctx := context.Background()
-	opts := esdb.SubscribeToAllOptions{
-		From: esdb.Start{},
+// startSubscription broadcasts the events saved from now on, until the store is closed. A dropped subscription is
+// continued from the last event received. It closes subscribed once it has tried to subscribe.
+func (s *eventStore) startSubscription(subscribed chan<- struct{}) {
+	var once sync.Once
+	tried := func() {
+		once.Do(func() { close(subscribed) })
+	}
+
+	var position esdb.AllPosition
+	for s.ctx.Err() == nil {
+		if position == nil {
+			position = s.lastPosition()
+		}
+
+		if position != nil {
+			position = s.broadcastEventsAfter(position, tried)
+		}
+
+		tried()
+
+		select {
+		case <-s.ctx.Done():
+		case <-time.After(resubscribeDelay):
+		}
+	}
+}
+
+// lastPosition returns the position of the last event, or nil when it cannot be read.
+func (s *eventStore) lastPosition() esdb.AllPosition {
+	readAllOptions := esdb.ReadAllOptions{
+		Direction: esdb.Backwards,
+		From:      esdb.End{},
+	}
+	readStream, err := s.client.ReadAll(s.ctx, readAllOptions, 1)
+	if err == nil {
+		defer readStream.Close()
+
+		var resolvedEvent *esdb.ResolvedEvent
+		resolvedEvent, err = readStream.Recv()
+		if err == nil {
+			return resolvedEvent.OriginalEvent().Position
+		}
+	}
+
+	if errors.Is(err, io.EOF) || errors.Is(err, esdb.ErrStreamNotFound) {
+		return esdb.Start{}
 	}
-	subscription, err := s.client.SubscribeToAll(ctx, opts)
+
+	log.Printf("subscription: unable to read last position: %v", err)
+	return nil
+}
+
+// broadcastEventsAfter broadcasts events until the subscription is dropped, and returns the position of the last one.
+func (s *eventStore) broadcastEventsAfter(position esdb.AllPosition, subscribed func()) esdb.AllPosition {
+	subscription, err := s.client.SubscribeToAll(s.ctx, esdb.SubscribeToAllOptions{From: position})
 	if err != nil {
-		return
+		log.Printf("subscription: unable to subscribe: %v", err)
+		return position
 	}
 
 	defer func() {
 		err := subscription.Close()
 		if err != nil {
 			log.Printf("subscription: unable to close")
-			return
 		}
 	}()
 
+	subscribed()
+
 	for {
 		subscriptionEvent := subscription.Recv()
-		if err != nil {
-			if err == io.EOF {
-				log.Printf("subscription: io.EOF")
-				return
-			}
-
-			if strings.HasSuffix(err.Error(), rpcErrContextCanceled) {
-				log.Printf("subscription: context canceled")
-				return
-			}
-
-			if errors.Is(err, esdb.ErrStreamNotFound) {
-				log.Printf("subscription: stream not found")
-				return
-			}
-
-			log.Printf("subscription: unable to receive event: %v", err)
-			return
+		if subscriptionEvent.SubscriptionDropped != nil {
+			return position
 		}
 
-		if subscriptionEvent.EventAppeared == nil || subscriptionEvent.EventAppeared.Event == nil {
+		resolvedEvent := subscriptionEvent.EventAppeared
+		if resolvedEvent == nil || resolvedEvent.Event == nil {
 			continue
 		}
 
-		if s.isInternalESDBEvent(subscriptionEvent.EventAppeared) {
+		position = resolvedEvent.OriginalEvent().Position
+
+		if s.isInternalESDBEvent(resolvedEvent) {
 			continue
 		}
 
-		if !s.inCurrentVersion(subscriptionEvent.EventAppeared) {
+		if !s.inCurrentVersion(resolvedEvent) {
 			continue
 		}
 
-		record, err := s.recordFromLinkedEvent(subscriptionEvent.EventAppeared)
+		record, err := s.recordFromLinkedEvent(resolvedEvent)
 		if err != nil {
 			log.Printf("subscription: unable to deserialize resolved event: %v", err)
-			return
+			continue
 		}
 
-		select {
-		case <-ctx.Done():
-			log.Printf("subscription: context canceled")
-			return
-
-		default:
-			s.broadcaster.Accept(record)
-		}
+		s.broadcaster.Accept(record)
 	}
 }
 
-- 
2.43.0


From 2087a175d8d2ac6b120af10bf24ebe2d28590f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:00 +0000
Subject: [PATCH 54/62] fix: EventStoreDB metadata keeps integers exact

---
 provider/eventstore/eventstore.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/provider/eventstore/eventstore.go b/provider/eventstore/eventstore.go
index 133bb85..5a7bff7 100644
--- a/provider/eventstore/eventstore.go
+++ b/provider/eventstore/eventstore.go
@@ -677,7 +677,9 @@ func (s *eventStore) recordFromLinkedEvent(resolvedEvent *esdb.ResolvedEvent) (*
 	}
 
 	var eventStoreDBMetadata ESDBMetadata
-	err := json.Unmarshal(resolvedEvent.Event.UserMetadata, &eventStoreDBMetadata)
+	metadataDecoder := json.NewDecoder(bytes.NewReader(resolvedEvent.Event.UserMetadata))
+	metadataDecoder.UseNumber()
+	err := metadataDecoder.Decode(&eventStoreDBMetadata)
 	if err != nil {
 		return nil, fmt.Errorf("unable to unmarshal ESDBMetadata err: %w", err)
 	}
-- 
2.43.0


From 977f39f6441223d26e6de9b927777650bbd7d019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:58 +0000
Subject: [PATCH 55/62] fix: disk snapshot stores with the same base path do
 not write to each other's temporary file, and names may be as long as before

---
 pkg/projection/disk_snapshot_store.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pkg/projection/disk_snapshot_store.go b/pkg/projection/disk_snapshot_store.go
index d505978..d16b429 100644
--- a/pkg/projection/disk_snapshot_store.go
+++ b/pkg/projection/disk_snapshot_store.go
@@ -4,8 +4,11 @@ import (
 	"fmt"
 	"os"
 	"sync"
+	"sync/atomic"
 )
 
+var temporaryFiles uint64
+
 type diskSnapshotStore struct {
 	basePath string
 	saveMux  sync.Mutex
@@ -40,7 +43,7 @@ func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
 	defer d.saveMux.Unlock()
 
 	path := d.SnapshotPath(projection)
-	temporaryPath := d.temporaryPath(path)
+	temporaryPath := d.temporaryPath()
 
 	file, err := os.Create(temporaryPath)
 	if err != nil {
@@ -78,9 +81,10 @@ func (d *diskSnapshotStore) Save(projection SnapshotProjection) error {
 	return nil
 }
 
-// temporaryPath does not end like the path of a snapshot, which could be the one of another projection.
-func (d *diskSnapshotStore) temporaryPath(path string) string {
-	return path + ".tmp"
+// temporaryPath is not shared by stores with the same base path, and does not end like the path of a snapshot, which
+// could be the one of another projection.
+func (d *diskSnapshotStore) temporaryPath() string {
+	return fmt.Sprintf("%s/%d-%d.tmp", d.basePath, os.Getpid(), atomic.AddUint64(&temporaryFiles, 1))
 }
 
 // SnapshotPath returns the file path for the snapshot.
-- 
2.43.0


From 459533e5a6f29c41d19817ddfc85331fe28a21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:14 +0000
Subject: [PATCH 56/62] fix: an interrupt lets the rangedb server finish the
 requests under way and close its store

---
 cmd/rangedb/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 43d2a07..b0c14fd 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -206,7 +206,7 @@ func nilFunc() error {
 func serveHTTP(srv *http.Server, listener net.Listener) {
 	fmt.Printf("Listening: http://%s\n", listener.Addr().String())
 	err := srv.Serve(listener)
-	if err != nil {
+	if err != nil && err != http.ErrServerClosed {
 		log.Fatal(err)
 	}
 }
-- 
2.43.0


From a163619604c890cb19c7ebae19bdc809d9007aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:33 +0000
Subject: [PATCH 57/62] fix: rangedb servers with the same relative LevelDB
 path do not share snapshots

---
 cmd/rangedb/main.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index b0c14fd..3904d65 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -190,8 +190,13 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 			log.Fatalf("Unable to load db (%s): %v", levelDBPath, err)
 		}
 
+		absolutePath, err := filepath.Abs(levelDBPath)
+		if err != nil {
+			log.Fatalf("unable to get absolute path (%s): %v", levelDBPath, err)
+		}
+
 		fmt.Println("Using LevelDB Store")
-		return levelDBStore, levelDBPath, levelDBStore.Stop, nil
+		return levelDBStore, absolutePath, levelDBStore.Stop, nil
 	}
 
 	inMemoryStore := inmemorystore.New(inmemorystore.WithLogger(logger))
-- 
2.43.0


From 2f9f7e3cacae4ad456f2d21dcb9e294e9d402a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:38 +0000
Subject: [PATCH 58/62] fix: a BDD test case fails when the events raised
 cannot be read

---
 rangedbtest/bdd/bdd.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rangedbtest/bdd/bdd.go b/rangedbtest/bdd/bdd.go
index 50d5f9a..b1ff8b2 100644
--- a/rangedbtest/bdd/bdd.go
+++ b/rangedbtest/bdd/bdd.go
@@ -108,7 +108,10 @@ func (c *TestCase) ThenInspectEvents(f func(t *testing.T, events []rangedb.Event
 		c.dispatch(c.command)
 
 		var events []rangedb.Event
-		for _, stream := range getStreamsFromStore(c.store) {
+		streams, err := getStreamsFromStore(c.store)
+		require.NoError(t, err)
+
+		for _, stream := range streams {
 			streamSequenceNumber := streamPreviousEventCounts[stream] + 1
 			actualEvents, err := recordIteratorToSlice(c.store.EventsByStream(ctx, streamSequenceNumber, stream))
 			require.NoError(t, err)
@@ -120,22 +123,26 @@ func (c *TestCase) ThenInspectEvents(f func(t *testing.T, events []rangedb.Event
 	}
 }
 
-func getStreamsFromStore(store rangedb.Store) []string {
+func getStreamsFromStore(store rangedb.Store) ([]string, error) {
 	streams := make(map[string]struct{})
 	recordIterator := store.Events(context.Background(), 0)
 	for recordIterator.Next() {
 		if recordIterator.Err() != nil {
-			break
+			return nil, recordIterator.Err()
 		}
 		stream := rangedb.GetStream(recordIterator.Record().AggregateType, recordIterator.Record().AggregateID)
 		streams[stream] = struct{}{}
 	}
 
+	if recordIterator.Err() != nil {
+		return nil, recordIterator.Err()
+	}
+
 	keys := make([]string, 0, len(streams))
 	for k := range streams {
 		keys = append(keys, k)
 	}
-	return keys
+	return keys, nil
 }
 
 func recordIteratorToSlice(recordIterator rangedb.RecordIterator) ([]rangedb.Event, error) {
@@ -153,6 +160,10 @@ func recordIteratorToSlice(recordIterator rangedb.RecordIterator) ([]rangedb.Eve
 		events = append(events, value)
 	}
 
+	if recordIterator.Err() != nil {
+		return nil, recordIterator.Err()
+	}
+
 	return events, nil
 }
 
-- 
2.43.0


From 30d5be943e1f6d4b83fd3eaa614cf4c7ce7a5e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:28 +0000
Subject: [PATCH 59/62] fix: gen-random-events generates the total number of
 events asked for

---
 cmd/gen-random-events/main.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cmd/gen-random-events/main.go b/cmd/gen-random-events/main.go
index fd99185..63135e2 100644
--- a/cmd/gen-random-events/main.go
+++ b/cmd/gen-random-events/main.go
@@ -61,8 +61,12 @@ func main() {
 	go func() {
 		total := uint64(0)
 		ctx := context.Background()
-		for {
+		for total < *totalEvents {
 			eventsPerStream := rand.Intn(*maxEventsPerStream) + 1
+			if remaining := *totalEvents - total; uint64(eventsPerStream) > remaining {
+				eventsPerStream = int(remaining)
+			}
+
 			eventRecords := getNEvents(eventsPerStream, shortuuid.New().String(), *eventType)
 			streamName := rangedb.GetEventStream(eventRecords[0].Event)
 			_, err := store.Save(ctx, streamName, eventRecords...)
@@ -76,12 +80,9 @@ func main() {
 			}
 			total += uint64(eventsPerStream)
 			fmt.Printf("\rSaved %d events", total)
-
-			if total >= *totalEvents {
-				close(stop)
-				return
-			}
 		}
+
+		close(stop)
 	}()
 
 	<-stop
-- 
2.43.0


From 86bf9ffc2a6600e55e29316e5d95aacdd8d8e27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:33 +0000
Subject: [PATCH 60/62] fix: grpc-event-subscriber does not print the last
 event again when it reconnects

---
 cmd/grpc-event-subscriber/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/grpc-event-subscriber/main.go b/cmd/grpc-event-subscriber/main.go
index fb6da0c..e1a8b21 100644
--- a/cmd/grpc-event-subscriber/main.go
+++ b/cmd/grpc-event-subscriber/main.go
@@ -48,7 +48,7 @@ func main() {
 type grpcEventSubscriber struct {
 	host                 string
 	aggregateTypes       []string
-	globalSequenceNumber uint64
+	globalSequenceNumber uint64 // of the next event to receive
 }
 
 func NewGRPCEventSubscriber(host string, aggregateTypes ...string) *grpcEventSubscriber {
@@ -104,7 +104,7 @@ func (s *grpcEventSubscriber) connectAndListen(ctx context.Context) {
 			log.Printf("error received: %v", err)
 			return
 		}
-		s.globalSequenceNumber = record.GlobalSequenceNumber
+		s.globalSequenceNumber = record.GlobalSequenceNumber + 1
 		fmt.Println(record)
 	}
 }
-- 
2.43.0


From 740ed1f09c52ae2623499e68c728b86f5c675469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:38 +0000
Subject: [PATCH 61/62] fix: a live page that cannot show an event is
 disconnected instead of skipping it

---
 pkg/rangedbui/ui.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/rangedbui/ui.go b/pkg/rangedbui/ui.go
index 9349f32..aba8006 100644
--- a/pkg/rangedbui/ui.go
+++ b/pkg/rangedbui/ui.go
@@ -348,6 +348,7 @@ func (a *webUI) realtimeEventsByAggregateType(w http.ResponseWriter, r *http.Req
 		message, err := json.Marshal(envelope)
 		if err != nil {
 			log.Printf("unable to marshal record: %v", err)
+			cancel()
 			return
 		}
 
-- 
2.43.0


From c365285f6988d6b362e7023145f61fbfb5bad74f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:56:18 +0000
Subject: [PATCH 62/62] fix: the rangedb program prepares a new PostgreSQL
 database

On a database without the tables every request failed, and with it the
program, which keeps statistics of all events. Preparing a database is one
transaction, so that running servers do not miss events meanwhile.
---
 cmd/rangedb/main.go                      |  7 ++++++-
 provider/postgresstore/postgres_store.go | 19 +++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/cmd/rangedb/main.go b/cmd/rangedb/main.go
index 3904d65..be84b3c 100644
--- a/cmd/rangedb/main.go
+++ b/cmd/rangedb/main.go
@@ -169,8 +169,13 @@ func getStore(levelDBPath string, logger *log.Logger) (rangedb.Store, string, fu
 			log.Fatal(err)
 		}
 
+		err = postgresStore.InitDB()
+		if err != nil {
+			log.Fatalf("unable to prepare PostgreSQL database: %v", err)
+		}
+
 		fmt.Println("Using PostgreSQL Store")
-		return postgresStore, postgreSQLConfig.DataSourceName(), nilFunc, nil
+		return postgresStore, postgreSQLConfig.DataSourceName(), postgresStore.CloseDB, nil
 	}
 
 	esdbConfig, err := eventstore.NewConfigFromEnvironment()
diff --git a/provider/postgresstore/postgres_store.go b/provider/postgresstore/postgres_store.go
index 50ec489..a3fffbd 100644
--- a/provider/postgresstore/postgres_store.go
+++ b/provider/postgresstore/postgres_store.go
@@ -28,6 +28,7 @@ const (
 	broadcastRecordBuffSize   = 100
 	streamAdvisoryLockTimeout = 2 * time.Second
 	logAdvisoryLockKey        = -1 // unlike any stream lock key
+	initAdvisoryLockKey       = -2
 )
 
 type batchSQLRecord struct {
@@ -601,6 +602,8 @@ func (s *postgresStore) lockLog(ctx context.Context, transaction dbExecAble) err
 	return nil
 }
 
+// InitDB prepares the database, unless it is prepared already. A single transaction, one at a time, keeps events saved
+// by others in the meantime from escaping the notification trigger while it is replaced.
 func (s *postgresStore) InitDB() error {
 	sqlStatements := []string{
 		`CREATE TABLE IF NOT EXISTS record (
@@ -637,14 +640,26 @@ func (s *postgresStore) InitDB() error {
 		)
 	}
 
+	transaction, err := s.db.Begin()
+	if err != nil {
+		return err
+	}
+	// Rolling back is a no-op once the transaction is committed.
+	defer func() { _ = transaction.Rollback() }()
+
+	_, err = transaction.Exec(`SELECT pg_advisory_xact_lock($1)`, initAdvisoryLockKey)
+	if err != nil {
+		return err
+	}
+
 	for _, statement := range sqlStatements {
-		_, err := s.db.Exec(statement)
+		_, err := transaction.Exec(statement)
 		if err != nil {
 			return err
 		}
 	}
 
-	return nil
+	return transaction.Commit()
 }
 
 func (s *postgresStore) getStreamSequenceNumber(ctx context.Context, queryable dbRowQueryable, streamName string) (uint64, error) {
-- 
2.43.0

