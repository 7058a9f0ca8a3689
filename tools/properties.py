#!/usr/bin/env python3
"""Writes /verif/properties.jsonl: the one place the properties are stated."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
        "mechanism": [{"name": a, "where": b} for a, b in mech],
        "observe_at": list(observe), "hook_needed": None}})

MEM, LDB = "provider/inmemorystore/inmemory_store.go", "provider/leveldbstore/leveldb_store.go"

p("C01", "Sequence numbers are gapless, ordered and never reused",
  "In the in-memory and LevelDB stores, every accepted save numbers its events with the next consecutive global sequence numbers, starting at 1 for an empty store, and with the next consecutive stream sequence numbers, starting at 1 for an empty stream, in the order given, and returns the last stream sequence number. Rejected saves consume no number, and deleting a stream or reopening a LevelDB store never makes a global sequence number that was handed out get reused. Every event gets its own non-empty event ID and keeps its numbers for good.",
  ["histories"], "every history of saves, optimistic saves, deletions, failing calls and reopens, over every set of streams, with JSON or MessagePack serialization",
  "The tests sample a few fixed short histories; numbers that depend on what was rejected, rolled back, deleted or reopened earlier, or that pass a byte boundary, are not among them.",
  [MEM, LDB], [("saveEvents/saveEvent assign numbers", MEM), ("$gsn$ key and last key of the stream prefix", LDB)],
  [("globalSequenceNumber", "last global sequence number handed out", MEM), ("$gsn$", "last global sequence number handed out", LDB)],
  ["Store.Save", "Store.OptimisticSave", "Store.Events"])

p("C02", "Reads return exactly the accepted events, in order, from any position",
  "Reading all events, the events of any combination of aggregate types, or the events of one stream, from any starting sequence number, returns exactly the accepted and not deleted events with at least that number, each once, in increasing order, with the stream, type, ID, numbers, timestamp, data and metadata they were saved with. Reading a stream that has no events reports that the stream is not found, and counting a stream's events agrees with reading it. This holds for the in-memory and LevelDB stores with either serializer.",
  ["histories", "inputs"], "every history of writes, deletions and reopens, and every read position (before, at, between, after existing numbers) and type combination (none, repeated, unknown)",
  "Existing tests read short hand-written histories from one or two positions; gaps left by deletions, repeated types, positions past the end and streams of hundreds of events are not covered.",
  [MEM, LDB, "merge_record_iterators.go", "record_iterator.go"], [("position filter and key seek", LDB), ("recordsByIDs", MEM), ("MergeRecordIteratorsInOrder", "merge_record_iterators.go")],
  observe=["Store.Events", "Store.EventsByAggregateTypes", "Store.EventsByStream", "Store.TotalEventsInStream"])

p("C03", "A rejected write leaves no trace",
  "When a save is rejected, for whatever reason and at whichever event of the batch (stale expectation, events of different aggregates, an event that cannot be serialized, a cancelled context, no events at all), none of its events becomes visible to any read, count or live subscriber, no other event changes or disappears, and later writes are accepted and numbered as if it had never been attempted. A rejected deletion changes nothing either. This holds for the in-memory and LevelDB stores.",
  ["histories", "fault_sequences"], "every history of accepted and rejected writes, every cause of rejection and every position of the offending event in its batch",
  "Tests check one failing event in one batch on one stream; a failure after several good events, in a stream that already has events, or through cancellation half way, is not tested.",
  [MEM, LDB], [("removeRecentEvents", MEM), ("leveldb transaction", LDB)], observe=["all reads after the rejection", "live subscribers"])

p("C04", "Optimistic writes succeed only on the expected stream version",
  "An optimistic save or stream deletion takes effect only if the stream's current sequence number equals the expected one at that moment; otherwise it changes nothing and the error carries the expected and the actual current number. Of any number of concurrent optimistic writes made with the same expectation on one stream at most one succeeds, and exactly one when the expectation is right. This holds for the in-memory and LevelDB stores.",
  ["histories", "schedules"], "every history and every interleaving of optimistic and plain writes with right, stale, too high and overflowing expectations",
  "Tests issue one right and one wrong expectation sequentially; the guarantee is about all interleavings of competing writers.",
  [MEM, LDB, "pkg/rangedberror"], [("expectation compared under the write lock", MEM), ("write lock and transaction", LDB)], observe=["OptimisticSave", "OptimisticDeleteStream"])

p("C05", "Deleting a stream removes exactly that stream, for good",
  "A successful stream deletion removes every event of that stream from every view (all events, by aggregate type, by stream, counts) and no event of any other stream, keeping the order and numbers of what remains. The deleted stream then reads as not found, its next event starts at stream sequence number 1 with a fresh global sequence number, and in a LevelDB store the deletion survives a reopen.",
  ["histories"], "every history of saves, deletions, re-creations and reopens over streams sharing aggregate types",
  "Tests delete one stream from a store holding very few events; index maintenance over interleaved streams of shared types is not exercised.",
  [MEM, LDB], [("OptimisticDeleteStream", MEM), ("OptimisticDeleteStream batch", LDB)], observe=["all reads after the deletion"])

p("C06", "Arbitrary stream names, aggregate types and IDs never interfere",
  "Any strings can be used as stream names, aggregate types and aggregate IDs, including empty ones and ones that extend one another by separator characters or arbitrary bytes: events written to, counted in, read from or deleted from one stream or type never affect or show up in another. A name that the record serializer cannot represent (for JSON one that is not valid UTF-8) may be refused when saving, but is never altered. This holds for the in-memory and LevelDB stores.",
  ["inputs", "histories"], "all sets of stream names, types and IDs and all histories over them",
  "Tests use well-behaved names (words and hexadecimal IDs), never one that is a prefix of another or contains a separator.",
  [MEM, LDB], [("key prefixes with separators", LDB), ("maps keyed by name", MEM)], observe=["all reads and counts"])

p("C07", "A cancelled read ends with an error, never as if complete",
  "When the context of a read is cancelled, at any moment, the reader gets a correct prefix of the result and then either an error, or the genuine end of the result: it never sees a truncated result end without error, however late it resumes reading. A read that was cancelled, even if nobody reads on, does not keep the store from accepting writes. This holds for the in-memory and LevelDB stores and all three kinds of reads.",
  ["schedules", "histories"], "every result size, every cancellation point relative to the reader's progress, every delay of the reader after the cancellation, abandoned readers",
  "Tests cancel before the first record with a reader that resumes at once; a slow or absent reader and cancellation between records are not covered.",
  [MEM, LDB, "publish_record.go", "merge_record_iterators.go"], [("PublishRecordOrCancel", "publish_record.go")], observe=["RecordIterator.Next/Err", "a later Save"])

p("C08", "Readers, writers and failures never wedge the store",
  "As long as every reader reads to the end or cancels its context, every call on an in-memory or LevelDB store eventually returns, for any mix of concurrent reads (including several aggregate types at once, and missing streams), saves, deletions and subscriptions, and after any sequence of rejected or cancelled calls. A store that has been closed and reopened keeps working.",
  ["schedules", "fault_sequences"], "every interleaving of readers and writers and every sequence of failing calls",
  "Deadlocks need a particular interleaving (a writer queued between two read locks) or a call after a particular failure; tests are sequential and rarely continue after a failure.",
  [MEM, LDB, "merge_record_iterators.go"], [("read/write locks held by iterators", MEM), ("read/write locks and leveldb transactions", LDB)], observe=["calls returning"])

p("C09", "Concurrent clients see one consistent history",
  "Any number of clients may save, optimistically save, read, count and subscribe on an in-memory or LevelDB store at the same time, without data races: the outcome is as if every call took effect at one instant between its start and its return. In particular batches are never interleaved or partly visible, a read is a snapshot that contains every save that had returned before it, and live subscribers get events in global order.",
  ["schedules"], "every interleaving of concurrent clients' calls",
  "The tests' concurrency cases only count events at the end; they do not compare with an atomic specification nor vary schedules.",
  [MEM, LDB, "pkg/broadcast/broadcaster.go"], [("mutex around save and read", MEM), ("mutex and transaction", LDB)], observe=["results of concurrent calls"])

p("C10", "LevelDB keeps every acknowledged write across crashes",
  "After a crash at any point, reopening a LevelDB store succeeds and yields exactly the events of the acknowledged writes, plus the interrupted one either completely or not at all: every acknowledged save and deletion is still there with the same numbers and data, batches are all-or-nothing, all views agree, and the next save continues the numbering. This holds for a killed process and for loss of file data that had not been synced.",
  ["crash_points", "histories"], "every history of writes and every point between two file operations, with any part of unsynced file tails lost",
  "No test crashes the store; they close it cleanly, if they reopen at all.",
  [LDB], [("one leveldb transaction per batch", LDB)], observe=["reads after reopening"])

p("C11", "Live subscribers get every new event once, in order",
  "A started subscription of an in-memory or LevelDB store, to all events or to a set of aggregate types, delivers every matching event saved after it was started, exactly once, in global order, with the data a read would return, and no event of other types; starting it from a position first delivers every stored event from that position on, without a gap or repetition at the switch to live events, however saves interleave with the start. Stopping or cancelling one ends its deliveries without affecting others.",
  ["schedules", "histories"], "every history of saves before, during and after the start, every starting position, number of subscribers, buffer size and stop point",
  "Tests save one or two events around Start; events saved while the subscription catches up, and starting positions at or past the end, are not covered.",
  [MEM, LDB, "pkg/recordsubscriber/record_subscriber.go", "pkg/broadcast/broadcaster.go"], [("catch-up, subscribe, catch-up again, skip duplicates", "pkg/recordsubscriber/record_subscriber.go"), ("broadcast after save", MEM)], observe=["RecordSubscriber.Accept"])

p("C12", "Catching up then following never loses or repeats an event",
  "The record subscriber component, given any store history, starting position, arrival of live records relative to the catch-up reads, buffer contents, read failures and consumer failures, hands its consumer every record from the starting position on exactly once and in order, up to the point where it stops. When a read fails the start reports the error; when the consumer fails nothing more is delivered; once stopped it is unsubscribed and reports done, and it leaves no read of the store half way, with the store's reader waiting for it.",
  ["schedules", "fault_sequences"], "every split of the history between the first read, the second read and live delivery, every overlap between them, and every failure point",
  "Tests use one or two records and do not vary the split between catch-up and live delivery.",
  ["pkg/recordsubscriber/record_subscriber.go", "pkg/recordsubscriber/config.go"], [("StartFrom and work", "pkg/recordsubscriber/record_subscriber.go")], [("lastGlobalSequenceNumber", "last delivered record", "pkg/recordsubscriber/record_subscriber.go")], ["ConsumeRecord calls"])

p("C13", "The broadcaster gives each subscriber a gap-free feed or drops it",
  "Each broadcaster subscriber, to all events or to any set of aggregate types, receives exactly the records broadcast while it is subscribed and matching its subscription, once each and in order. One that does not take a record within the timeout is stopped and gets nothing more, of any type; unsubscribing or closing ends its feed; and no slow, stopped or leaving subscriber makes another one lose, repeat or reorder records.",
  ["schedules", "histories"], "every history of subscribe, unsubscribe, broadcast and close with subscribers of any speed and buffer size",
  "Tests cover one slow subscriber and one type; subscribers of several types, and what happens after a drop, are not covered.",
  ["pkg/broadcast/broadcaster.go"], [("single dispatch goroutine with a per-send timeout", "pkg/broadcast/broadcaster.go")], observe=["subscriber channels and Stop calls"])

p("C14", "Record serialization round-trips every record",
  "Serializing any record with the JSON or MessagePack record serializer and reading it back gives the same record: all identifying fields, numbers and timestamp unchanged, the data as the bound event type, or as equivalent plain data when the type is not bound, and the metadata equivalent. Any byte input is either decoded or refused with an error, never with a panic.",
  ["inputs"], "all records with bound, unbound, raw or missing data, any strings, extreme numbers and nested data, and all byte inputs",
  "Tests round-trip two or three fixed records.",
  ["provider/jsonrecordserializer/json_record_serializer.go", "provider/msgpackrecordserializer/msgpack_record_serializer.go", "event_identifier.go", "store.go"], [("two-part encoding with bound event types", "provider/msgpackrecordserializer/msgpack_record_serializer.go")], observe=["Serialize/Deserialize"])

p("C15", "Record streams round-trip, and damage never passes for completeness",
  "Writing any sequence of records with the JSON, newline-delimited JSON or MessagePack record stream and reading it back yields the same sequence. If the source fails while writing, or the output cannot be written, writing reports an error; if the input is cut short anywhere but at a record boundary of a stream format, or corrupted so that it cannot be parsed, reading yields the preceding records and then an error, never a silent clean end, a panic or a hang.",
  ["inputs", "fault_sequences"], "all record sequences, all truncation points, all write failure points and all reader chunkings",
  "Tests write one or two good records and read them back.",
  ["provider/jsonrecordiostream", "provider/ndjsonrecordiostream", "provider/msgpackrecordiostream", "record_io_stream.go"], [("Write/Read/Bind", "provider/*recordiostream")], observe=["RecordIoStream.Write/Read"])

p("C16", "Merging iterators yields the ordered union, or an error",
  "Merging any number of record iterators, each ordered by global sequence number, yields every record of every iterator exactly once in global order; when one of them fails, the merged iterator yields only correct leading records and ends with that error. A record iterator, once it has reported the end or an error, keeps doing so.",
  ["inputs", "fault_sequences"], "all partitions of a sequence over iterators (also empty ones), all failure points, all read patterns",
  "Tests merge two or three small error-free iterators.",
  ["merge_record_iterators.go", "record_iterator.go"], [("k-way merge by smallest head", "merge_record_iterators.go")], observe=["MergeRecordIteratorsInOrder", "RecordIterator"])

p("C17", "A remote store behaves like the store behind it",
  "Through the gRPC server and client, every call (save, optimistic save, deletion, reads from any position, counts) has the same effect and result as on the served in-memory store itself: same accepted and rejected calls with equivalent errors (stream not found, unexpected sequence number with its numbers, context cancelled), same records with the same numbers, data and metadata, and nothing lost or truncated without an error.",
  ["histories", "inputs"], "every history of calls, good and failing, with any names, data, metadata and positions",
  "The tests run the common store suite over a loopback connection with small fixed events.",
  ["provider/remotestore/remote_store.go", "pkg/grpc/rangedbserver/server.go", "pkg/grpc/rangedbpb"], [("protobuf conversion", "pkg/grpc/rangedbpb"), ("error mapping", "provider/remotestore/remote_store.go")], observe=["remote Store calls vs the served store"])

p("C18", "Remote subscriptions deliver every event once, in order",
  "A subscription over gRPC, to all events, live events or aggregate types, from any starting position, and a subscription on a remote store, delivers every matching event from its starting point exactly once and in global order while it is connected; when it cannot continue it ends visibly instead of going silent. It never delivers events of other types.",
  ["schedules", "histories"], "every history of saves before, during and after the subscription, every starting position and type set",
  "Tests subscribe and save one or two events.",
  ["pkg/grpc/rangedbserver/server.go", "provider/remotestore/remote_store.go"], [("recordsubscriber per stream", "pkg/grpc/rangedbserver/server.go")], observe=["SubscribeToEvents streams", "remote subscriptions"])

p("C19", "The HTTP API answers from the store, faithfully",
  "Every HTTP API request has the effect and the answer of the corresponding store call: saves and optimistic saves store exactly the posted events and report the new stream sequence number, deletions and reads behave as on the store, and reads return all matching events, in order, in the requested format (JSON, newline-delimited JSON, MessagePack). Invalid requests and failing saves get an error status and change nothing; no request makes a handler panic.",
  ["histories", "inputs"], "every history of requests with any names, positions, bodies, expectations and formats, valid or not",
  "Tests send a handful of fixed requests.",
  ["pkg/rangedbapi/api.go", "pkg/rangedbapi"], [("request parsing and routing", "pkg/rangedbapi")], observe=["HTTP responses vs the store"])

p("C20", "WebSocket feeds deliver every event once, in order",
  "A WebSocket client of the events feed or the aggregate-types feed, connecting with any starting position, receives as JSON every matching event from that position on, stored or saved later, exactly once and in global order, and no event of other types. Invalid positions are refused with an error; clients that leave do not disturb the others.",
  ["schedules", "histories"], "every history of saves before, during and after the connection, every starting position, type set and set of clients",
  "Tests connect one client and save one or two events.",
  ["pkg/rangedbws/websocket_api.go"], [("recordsubscriber per connection", "pkg/rangedbws/websocket_api.go")], observe=["WebSocket messages"])

p("C21", "Encryption engines invert exactly and reject everything else",
  "For every engine, every key it accepts and every plaintext, decrypting what was encrypted returns the plaintext, encrypting twice gives different ciphertexts, and the ciphertext does not contain the plaintext; keys of a wrong length are refused. Decrypting any other input returns an error or garbage but never panics; the authenticated engines (AES-GCM, XChaCha20-Poly1305) refuse every modified ciphertext and every wrong key, and AES-CBC every ciphertext whose length or PKCS5 padding is wrong. Nothing is encrypted with less randomness than a nonce takes, whatever the source of randomness does.",
  ["inputs"], "all plaintexts, keys, ciphertexts, truncations and bit flips",
  "Tests use one plaintext and key per engine.",
  ["pkg/crypto/aes", "pkg/crypto/xchacha20poly1305"], [("nonce handling and tag check", "pkg/crypto/aes")], observe=["Encrypt/Decrypt"])

p("C22", "Key stores never lose, replace or resurrect a subject's key",
  "In every key store (in memory, cached, and those backed by DynamoDB or Vault, given a conforming server), a key set for a subject is returned unchanged by every later get until it is deleted, setting a key for a subject that has one or had one deleted is refused without changing it, and after deletion every get reports that the key was deleted, unknown subjects being reported as not found. When concurrent clients ask the encryption layer for a new subject's key, all of them end up using the same one.",
  ["histories", "schedules", "fault_sequences"], "all histories of get, set and delete over any subjects, concurrent first uses, and backend failures",
  "Tests run one short fixed sequence against one provider.",
  ["pkg/crypto/provider", "pkg/crypto/eventencryptor", "pkg/crypto"], [("refusal of existing and deleted keys", "pkg/crypto/provider")], observe=["KeyStore calls"])

p("C23", "Encrypted stores keep personal data secret, and shred it for good",
  "Saving through the encrypted store puts no personal data of an encrypting event in clear into the underlying store, whichever way the event is passed and whichever events share the batch, while reads and subscriptions through the encrypted store return the original data. After the subject's key is deleted, no read or subscription returns that subject's personal data again, other subjects and non-personal fields are unaffected, and new events of that subject cannot be saved in clear.",
  ["histories", "inputs"], "all histories of saves, reads, subscriptions and key deletions over several subjects and event shapes",
  "Tests use one event and one subject at a time.",
  ["provider/encryptedstore", "pkg/crypto/eventencryptor", "gen/eventgenerator"], [("encrypt before save, decrypt after read", "provider/encryptedstore")], observe=["raw records of the inner store", "reads through the wrapper"])

p("C24", "Projections count every event once, also after a snapshot",
  "The aggregate type statistics projection, fed any sequence of events, holds exactly the number of events of each aggregate type, their total, and the last global sequence number it has seen; saving a snapshot at any moment, loading it into a new projection and continuing from there gives the same result as never stopping. Queries made while events arrive are safe and never see a state that no prefix of the events produces.",
  ["histories", "schedules"], "all event sequences, snapshot points, restarts and concurrent queries",
  "Tests feed two or three events.",
  ["pkg/projection", "pkg/rangedbapi"], [("Accept/SaveSnapshot/LoadFromSnapshot", "pkg/projection/aggregate_type_stats.go")], observe=["projection queries"])

p("C25", "Commands are handled on the history of their stream, one after the other",
  "A command dispatcher gives a command only to the aggregate registered for its type; before handling it, that aggregate is shown exactly the stored events of the command's own stream, in order; the events it emits are saved, in order, each to the stream of that event, and exactly those that were saved are returned, in order. A command nobody registered for changes nothing. Concurrent dispatches to one aggregate act one after the other: two commands never take effect on the basis of the same history.",
  ["histories", "schedules"], "all histories of commands over several aggregates and registration orders, all concurrent pairs",
  "Tests dispatch single commands.",
  ["pkg/cqrs"], [("load, handle, optimistic save", "pkg/cqrs")], observe=["aggregate Load calls", "saved events"])

p("C26", "The web UI shows every event it promises, escaped, on every page",
  "For any store contents and names, each page of the web UI lists exactly the events (or aggregate types, or streams) of that page in order: walking the pages by their next links visits every item exactly once, page sizes and numbers outside the valid range are handled, links lead to the thing they name, and names and event data are escaped so they cannot inject markup. A page is never shown as complete when the store failed while it was read. Live pages receive every new event exactly once and in order, or are disconnected, and a page that is closed is no longer served. No request makes a handler panic.",
  ["inputs", "histories"], "all store contents, names, page sizes and page numbers",
  "Tests render a page or two with a few events.",
  ["pkg/rangedbui", "pkg/paging"], [("paging links", "pkg/paging"), ("html/template escaping", "pkg/rangedbui")], observe=["HTTP responses"])

p("C27", "Generated code does what the annotated source says",
  "For every accepted source file of annotated events, commands and aggregates, the generators produce code that compiles, whose events report the declared aggregate type and ID and their own name as event type, whose encryption hides and restores exactly the fields declared as personal or serialized data, whose redaction clears exactly those fields, and whose aggregates route each command to its handler.",
  ["programs"], "all annotated source files within the documented subset: any number of events, commands and fields, of the documented kinds, in any order",
  "Tests compare the output for a few fixed sources with stored text; they do not run it.",
  ["gen", "pkg/eventparser", "pkg/aggregategenerator", "pkg/commandgenerator", "pkg/structparser"], [("parsers and templates", "gen/eventgenerator")], observe=["generated code, compiled and run"])

p("C28", "Names, errors and records translate both ways without loss",
  "Converting a record to its protobuf form and back, an unexpected-sequence-number error to its text and back, an aggregate type and ID to a stream name and back, and a UUID to its short form gives back what went in or a value that is still unique. Malformed input to any of these conversions gives an error or a plain value, never a panic.",
  ["inputs"], "all records, numbers, types and IDs, and arbitrary input text",
  "Tests convert one or two examples.",
  ["store.go", "pkg/rangedberror", "pkg/grpc/rangedbpb", "pkg/shortuuid"], [("text formats and converters", "pkg/grpc/rangedbpb")], observe=["conversion results"])

p("C29", "A disk snapshot is always a complete one",
  "Loading a snapshot of a projection from the disk snapshot store gives exactly the state of the last snapshot that was completely saved, for any projection whose name is a plain file name, any state and any history of saves; when a save fails or is interrupted at any point, the previous snapshot is still there in full or the load reports an error, and a partial one is never taken for the state.",
  ["histories", "crash_points"], "all histories of saves and loads over several projections, and every failure point during a save",
  "Tests save and load one snapshot.",
  ["pkg/projection"], [("snapshot files", "pkg/projection/disk_snapshot_store.go")], observe=["SnapshotStore.Load"])

ES = "provider/eventstore/eventstore.go"
PG = "provider/postgresstore/postgres_store.go"
p("C30", "The PostgreSQL store keeps the guarantees of the other stores",
  "On a PostgreSQL database, with and without pg_notify, saves, optimistic saves, deletions, reads and subscriptions answer as those of the in-memory and LevelDB stores do, on every history and across reopened stores: each accepted event has its stream's next sequence number and a global sequence number above that of every event accepted before, a refused call leaves nothing behind, an optimistic call succeeds exactly when its expectation is right and otherwise says what the stream is at, a deletion removes its stream and nothing else, reads give every event of what was asked for, in order, as it was saved, with its metadata, and a live subscriber gets each accepted event once and in order. (Refused calls may leave gaps between global sequence numbers, and numbers beyond the columns' range may be refused.)",
  ["histories"], "all histories of calls on one database",
  "The existing tests of this store are skipped unless a PostgreSQL server is configured, and sample single cases.",
  [PG], [("saves and deletions in transactions", PG), ("stream lock and sequence check before the insert", PG), ("pg_notify feed", PG)],
  observe=["results and errors of all Store calls", "what live subscribers receive"])

p("C31", "The EventStoreDB adapter keeps the contract of the other stores, also when its server fails",
  "As far as an EventStoreDB server allows, an EventStoreDB store behaves like the other stores in every history of saves, optimistic saves, deletions and reads by any number of concurrent callers of one server: stream numbers count from 1 without gaps, a save is applied completely or not at all, events are read back as they were saved (with their IDs, metadata and exact numbers), from any position, in order and filtered as asked, an optimistic save or deletion succeeds only with the stream's current number and otherwise tells the actual one, and of competitors with one expectation exactly one succeeds. Global sequence numbers are the server's positions: they only ever increase and reads can continue from them, but have gaps; reads of one stream may leave them out. A deleted stream cannot be saved to again. When the server fails, breaks a connection or is away, or the caller gives up, a call returns an error or the right answer, never a wrong or truncated one, and never panics; a call that failed leaves nothing behind (all or nothing when the answer was lost). Each live subscriber gets every matching event from its position on once and in order, also after its subscription was dropped and among events that cannot be read. Reads that are given up and stores that are closed leave nothing running.",
  ["histories", "schedules", "faults"], "all histories, all interleavings of concurrent calls, and every choice of request, moment and kind of failure, of stores with an EventStoreDB server",
  "The existing tests are skipped without a server.",
  [ES], [("saves and expected revisions", ES), ("deletions (tombstones)", ES), ("reads and their ends", ES), ("subscription to new events", ES)],
  observe=["results and errors of all Store calls", "what live subscribers receive", "requests and subscriptions left on the server"])

p("C32", "A LevelDB store neither lies nor forgets when the disk fails",
  "When reading or writing a data file under a LevelDB store fails during a call, the call returns an error, or the right answer, but never a wrong or truncated answer and never an error that claims something false about the state (a stream that is not found, an unexpected sequence number). A save or deletion that returned an error leaves nothing behind, one that returned success is complete, no acknowledged event is lost, overwritten or renumbered, and once the disk works again every call works and every answer is right, before and after a reopen.",
  ["faults", "histories"], "all histories of calls and every choice of table-file operation of a call that fails",
  "No test makes the disk fail.",
  [LDB], [("errors of the database are passed on", LDB)], observe=["results and errors of all Store calls", "reads after the fault"])

p("C33", "Concurrent callers of one PostgreSQL database never break its history",
  "When any number of callers use the same database at once, through one or several PostgreSQL stores, the results of all calls are those of some order of these calls that respects real time: each call takes effect at once or not at all, of several optimistic calls with the same right expectation exactly one succeeds, no two events of a stream get the same number and none is left out, the events of one save stay together, and a reader that continues after the last event it has seen misses none. A live subscriber gets every event once and in order (without pg_notify, every event its own store reported as saved). A call that is refused because a lock was not free in time leaves nothing behind.",
  ["schedules"], "all interleavings of the statements of concurrent calls on one or two stores with one database",
  "The existing tests of this store need a server, and race at most a few savers of a single kind.",
  [PG], [("advisory locks per stream", PG), ("transactions of a save and of a deletion", PG), ("order of insert, commit and broadcast", PG)],
  observe=["results and errors of all Store calls", "what live subscribers receive"])

p("C34", "A PostgreSQL store neither lies, forgets nor leaks when the database or connection fails",
  "When a statement fails, a connection is lost before, during or after a statement, the server restarts or is away, or the caller gives up, a call on a PostgreSQL store returns an error or the right answer, never a wrong or truncated one and never an error that claims something false about the state. A call that failed leaves nothing behind (all or nothing when the answer to its commit was lost), one that succeeded is complete, no transaction, lock or connection stays open, and afterwards every call works. With pg_notify, a subscriber gets every saved event exactly once and in order, including those saved while the connection for notifications was lost.",
  ["faults", "histories", "crash_points"], "all histories of calls, and every choice of statement, moment and kind of failure",
  "No test makes the database or a connection fail.",
  [PG], [("rollback on errors", PG), ("errors of reads are passed on", PG), ("notification listener", PG)],
  observe=["results and errors of all Store calls", "what live subscribers receive", "open transactions and connections"])

MAIN = "cmd/rangedb/main.go"
p("C35", "The server program shows one store through all its doors, and stops and starts without losing anything",
  "A running rangedb server (cmd/rangedb) is one store behind the HTTP API, gRPC, the WebSocket feeds and the web UI: what any client saves or deletes through one of them has the effect and answer of the store call, is what all the others then show, exactly and in order, and reaches every subscriber of any of them once; of clients of different protocols racing with one expectation exactly one succeeds. When interrupted the server still answers the requests it is working on, closes its store and ends without an error. Started again with its LevelDB directory, after an interrupt or a kill, it shows every acknowledged event, continues the numbering, and its list of aggregate types counts every event of its own store once, whatever other servers run beside it. On a PostgreSQL or EventStoreDB database, a new one too, it serves what the database holds; the events saved through one of several servers on one PostgreSQL database show at, and reach the subscribers of, all of them.",
  ["histories", "schedules", "crash_points"], "all histories of requests through all protocols, of interrupts and kills at any point, and of servers beside each other",
  "Nothing tests the program: the tests exercise its parts one by one.",
  [MAIN, "pkg/rangedbapi/api.go", "pkg/grpc/rangedbserver/server.go", "pkg/rangedbws/websocket_api.go", "pkg/rangedbui/ui.go"], [("wiring of the store to its doors", MAIN), ("order of shutting down", MAIN), ("place of the snapshots", MAIN)], observe=["answers of the running program over HTTP, gRPC and WebSocket", "exit status"])

p("C36", "A BDD test case passes exactly when the command raised the expected events",
  "A test case built with rangedbtest/bdd saves the given events in order before it dispatches the command once; Then passes if and only if the events the command raised on each stream that expected events belong to are exactly those, in order and with equal data, and, when no events are expected, none were raised at all; ThenInspectEvents hands over exactly the events the command raised, those of each stream in order. A test case whose events cannot be read never passes.",
  ["histories"], "all given, raised and expected events over any number of streams",
  "Tests of the helper show cases that pass; nothing shows that wrong ones fail.",
  ["rangedbtest/bdd/bdd.go"], [("comparison per stream", "rangedbtest/bdd/bdd.go")], observe=["whether the test case passes", "events inspected"])

p("C37", "The command line tools print and write exactly what they were asked for",
  "The program grpc-event-subscriber prints every event of the aggregate types it was given (or of all) from the first one on, exactly once and in order, whatever breaks its connection in between; ws-event-subscriber prints them exactly once and in order until its connection breaks, and then ends. gen-random-events saves exactly the total number of events it was given, of the given type, each batch to a stream of its own with at most the given number of events, and says how many it saved. An interrupt ends each of them.",
  ["histories", "schedules", "fault_sequences"], "all histories of events, connections broken after any number of bytes, and interrupts",
  "The programs have no tests.",
  ["cmd/grpc-event-subscriber/main.go", "cmd/ws-event-subscriber/main.go", "cmd/gen-random-events/main.go"], [("where a broken subscription goes on", "cmd/grpc-event-subscriber/main.go"), ("how many events are generated", "cmd/gen-random-events/main.go")], observe=["output and end of the running programs"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            f.write(json.dumps(x) + "\n")
