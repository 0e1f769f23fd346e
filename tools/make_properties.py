#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one entry per property).  Run to regenerate.
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))

E = "monotone/engine/"
prop("C01", "Reads return exactly the latest version of every event",
  "After any sequence of successful writes (inserts, replacements and deletes, in any id and key order and in batches of any size) mixed with refresh, move, checkpoint, service, create-partition and clean reopen, a full scan returns every live event exactly once, in ascending (id, key) order, with the exact key and value bytes of its latest write, and no deleted event. It makes no difference whether an event currently lives in memory, in a partition file, or in both.",
  ["inputs", "programs", "histories"],
  "every sequence of writes and maintenance commands, every id/key/value, serial and non-serial mode, every page/region layout",
  "The tests write a few dozen small events in a handful of fixed patterns; the ordering, replacement, page-split and merge logic depends on id distances, key sizes, batch order, page boundaries and where versions live.",
  [E+"io/memtable.c", E+"io/memtable.h", E+"io/memtable_iterator.h", E+"io/comparator.h", E+"io/merge_iterator.h", E+"io/part_iterator.h", E+"io/region_iterator.h", E+"io/merger.c", E+"engine/write.c", "monotone/main/api/monotone.c"],
  [("rbtree of sorted pages with in-place replace", E+"io/memtable.c"), ("merge iterator prefers newer version", E+"io/merge_iterator.h"), ("region/index files", E+"io/merger.c")],
  observe=["monotone_cursor/monotone_read/monotone_next", "monotone_write"])

prop("C02", "A cursor seek lands on the first event at or after the key",
  "A cursor opened with any (id, key), whether that event exists, was deleted, lies in a gap, or lies before or after all data, returns exactly the suffix of the full scan that starts at the first live event greater than or equal to it. This holds for events in memory, in files and in both, and across partition borders.",
  ["inputs", "programs"],
  "every seek key against every database content and physical layout",
  "The tests seek to a few existing ids in tiny partitions; page, region and partition boundaries are where a seek can skip or repeat data.",
  [E+"io/memtable_iterator.h", E+"io/part_iterator.h", E+"io/part_cursor.h", E+"io/index_iterator.h", E+"io/region_iterator.h", E+"engine/engine_cursor.h", E+"io/mapping.h"],
  [("memtable seek", E+"io/memtable_iterator.h"), ("index binary search", E+"io/index_iterator.h"), ("partition search gte", E+"io/mapping.h")],
  observe=["monotone_cursor(key)"])

prop("C03", "An open cursor stays ordered and complete while its thread writes",
  "While a thread holds an open cursor and itself writes or deletes events, the cursor keeps returning events in strictly ascending (id, key) order without repeating any, and every event that was present when the cursor was opened and is not deleted afterwards is returned (events the thread writes or deletes after opening the cursor may or may not be seen). Each event is returned with the bytes of a version that was current at some moment of the iteration.",
  ["programs", "histories"],
  "every interleaving of cursor steps with writes of the same thread, every position of the written event relative to the cursor and to page splits",
  "One test exercises writes under a cursor with a few events; page splits and insert positions around the cursor are not enumerated.",
  [E+"io/memtable.c", E+"io/memtable_iterator.h", E+"io/part_cursor.h", E+"engine/engine_cursor.h"],
  [("iterators registered with the memtable and synchronised on insert", E+"io/memtable_iterator.h")],
  observe=["monotone_cursor/monotone_next interleaved with monotone_write"])

prop("C04", "A write batch is applied completely or not at all",
  "A write call that returns success makes all of its events visible, and one that returns an error leaves the database contents (visible now, and after any later restart) exactly as they were before the call, including the previous versions of replaced or deleted events. A failed write never crashes the process and later writes succeed once the cause is gone.",
  ["inputs", "fault_sequences", "programs"],
  "every batch shape (repeated keys, several partitions, deletes) and every cause of failure: WAL error, memory limit, oversized event, invalid key",
  "The tests inject one WAL failure on small batches; rollback of replaced versions, multi-partition batches and failures in the middle of a batch are not explored.",
  [E+"engine/write.c", E+"io/memtable.c", E+"wal/log.h", "monotone/runtime/lib/heap.h", "monotone/runtime/lib/memory_mgr.h"],
  [("rollback list with previous versions", E+"engine/write.c")],
  observe=["monotone_write return code, scan after it, scan after reopen"])

prop("C05", "Acknowledged writes survive a process crash at any point",
  "With the write-ahead log enabled, if the process dies at any moment, reopening the directory succeeds and returns every event of every acknowledged write, and each unacknowledged batch is present either completely or not at all. This also holds when more writes, crashes and reopens follow.",
  ["crash_points", "histories"],
  "a crash before or in the middle of every file-modifying system call, in any sequence of writes, rotations and refreshes, repeated",
  "The tests only close and reopen cleanly or use three fixed error injections; they never stop in the middle of a log append or chain crashes.",
  [E+"wal/wal.c", E+"wal/wal_file.h", E+"wal/wal_cursor.c", E+"wal/log.h", E+"engine/write.c", "monotone/main/main/main.c"],
  [("WAL append before acknowledge", E+"wal/wal.c"), ("replay on open", "monotone/main/main/main.c"), ("skip records already in a partition file by lsn", E+"engine/write.c")],
  observe=["system calls (link-time interposition)", "scan after reopen"])

prop("C06", "A crash during partition maintenance loses and revives nothing",
  "If the process dies at any moment of a refresh, move, checkpoint, rebalance, service, create, download or upload, the directory opens again and holds exactly the same events as without the maintenance, and the same commands can then be run to completion. No leftover of the interrupted operation makes the database unopenable, hides data, or brings back replaced or deleted events.",
  ["crash_points", "histories", "configurations"],
  "a crash at every file-modifying system call of every maintenance command, with and without WAL, with one or more storages and clouds, repeated",
  "The crash test enumerates five fixed error-injection points on one partition with a single shape of history.",
  [E+"engine/refresh.c", E+"engine/engine_recover.c", E+"engine/op.c", E+"io/part.c", E+"io/merger.c", E+"io/part.c"],
  [("incomplete/complete file renames", E+"engine/refresh.c"), ("state recovery", E+"engine/engine_recover.c")],
  observe=["system calls (link-time interposition)", "directory contents", "scan after reopen"])

prop("C07", "With sync enabled, acknowledged data survives power loss",
  "With wal_sync_on_write on and storage sync on, if power is lost at any moment so that only file data already synced to disk survives, reopening returns every event of every acknowledged write, and everything that refresh, checkpoint or drop reported as done. With only wal_sync_on_rotate on, the same holds for what was acknowledged before the last completed log rotation or refresh of the partition; later writes may be lost from the end only, and the directory always opens.",
  ["crash_points", "histories"],
  "every moment of every sequence of writes, rotations and refreshes; loss of all data not covered by an fsync/fdatasync (renames and creations are kept)",
  "No test can lose unsynced data; a missing or misplaced sync is invisible to them.",
  [E+"wal/wal.c", E+"wal/wal_file.h", E+"io/merger.c", E+"engine/refresh.c", "monotone/runtime/runtime/vfs.c", "monotone/runtime/runtime/file.h"],
  [("wal_sync_on_write / sync_on_rotate", E+"wal/wal.c"), ("partition file sync before rename", E+"io/part.c")],
  observe=["fsync/fdatasync and write calls (link-time interposition)", "scan after reopen"])

prop("C08", "A clean reopen restores the same schema, settings and events",
  "After closing and reopening a directory any number of times, the clouds, storages with all their options, pipeline, configuration variables, partitions that have files, and events are the same as before the close. String options keep their exact bytes.",
  ["programs", "inputs", "configurations"],
  "every sequence of CREATE/ALTER/DROP/RENAME of clouds, storages and pipelines, SET of configuration, and writes; every option value",
  "The recovery tests cover one fixed schema; option values with unusual characters and longer DDL histories are not covered.",
  ["monotone/runtime/config/config.c", "monotone/runtime/lib/json.c", E+"storage/storage_mgr.c", E+"storage/pipeline.c", "monotone/cloud/cloud/source.h", "monotone/cloud/cloud/cloud_mgr.c", "monotone/main/main/execute.c"],
  [("config.json rewritten on every DDL", "monotone/runtime/config/config.c")],
  observe=["SHOW CLOUDS/STORAGES/PIPELINE/CONFIG/PARTITIONS", "scan"])

prop("C09", "Serial ids are unique and never move backwards",
  "In serial mode every event written with the automatic id gets an id larger than that of every event whose write completed before and that is still present, and while the directory stays open larger than every id used since it was opened; no id is handed out twice while it is open. This also holds with several writer threads, after explicit ids (far below 2^64), refreshes, drops, failed writes, restarts and crashes. No automatic id ever overwrites an existing event.",
  ["histories", "schedules", "crash_points"],
  "every sequence of automatic and explicit ids, partition creation, refresh, reopen and crash; concurrent writers",
  "The tests check ids 0..n in one thread and one restart.",
  [E+"engine/write.c", E+"engine/engine.c", "monotone/runtime/config/config.h"],
  [("ssn counter", "monotone/runtime/config/config.h"), ("engine_set_serial on open", E+"engine/engine.c")],
  observe=["event ids returned by monotone_write", "scan"])

prop("C10", "Partitions never overlap and every id maps to one partition",
  "At every moment the partitions are pairwise disjoint id ranges, every stored event lies in the range of the single partition that reports it, and a newly needed partition covers the aligned interval of the id minus ranges that already exist. Changing the interval or creating explicit ranges never makes an existing event unreachable, and scans cross partitions in ascending order.",
  ["inputs", "programs", "configurations"],
  "every sequence of writes, CREATE PARTITION ranges, interval changes, drops and reopens; ids over the whole unsigned 64-bit range",
  "The mapping tests use small hand-picked ranges and two intervals.",
  [E+"engine/op.c", E+"engine/engine.c", E+"io/mapping.h", E+"io/mapping.h", E+"io/mapping.h", "monotone/runtime/lib/rbtree.c"],
  [("gap filling", E+"engine/op.c"), ("interval tree", E+"io/mapping.h")],
  observe=["SHOW PARTITIONS", "scan"])

prop("C11", "A drop removes exactly the selected partitions, for good",
  "DROP PARTITION(S) removes all events of exactly the selected partitions and nothing else; they stay removed after restarts and crashes, and events written to the same ids afterwards are kept like any other. A crash during the drop leaves each selected partition either completely present or completely removed (except that, of a partition being removed, events still held in the log may be all that remains) and the database openable.",
  ["programs", "histories", "crash_points"],
  "every sequence of writes, drops, rewrites, refreshes, restarts and crashes",
  "The tests drop and look once; they do not rewrite dropped ids and restart twice, nor crash in the middle.",
  [E+"engine/op.c", "monotone/main/main/main.c", E+"wal/log.h", E+"wal/wal.c", E+"io/part.c"],
  [("drop logged in the WAL and replayed", "monotone/main/main/main.c")],
  observe=["scan, SHOW PARTITIONS, files of the storage, after reopen"])

prop("C12", "Storage settings never change what is read",
  "Whatever the storage options (compression none/zstd/lz4 and level, encryption none/aes, region_size, crc, sync, refresh_wm, path), and however they are altered or partitions moved between storages with different options, every event reads back with the same bytes, for any value content and size up to the page limit.",
  ["configurations", "inputs", "programs"],
  "every combination and change of storage options against any event contents (empty, incompressible, highly repetitive, very large)",
  "One test each for compression and encryption with a few tiny repetitive values.",
  [E+"io/merger.c", E+"io/writer.c", E+"io/reader.h", "monotone/runtime/lib/compression_zstd.c", "monotone/runtime/lib/compression_lz4.c", "monotone/runtime/lib/encryption_aes.c", E+"io/region_writer.h", E+"io/index_writer.h"],
  [("per-region compression and encryption", E+"io/region_writer.h")],
  observe=["scan after REFRESH/MOVE/reopen"])

prop("C13", "Encrypted storage hides the data and rejects tampering",
  "A partition file of a storage with encryption does not contain the plaintext of keys or values, no two encrypted blocks share a cipher initialisation vector, and reading it with another key, or after any byte of its encrypted data or of an authentication tag was changed, reports an error instead of returning data.",
  ["inputs", "configurations", "fault_sequences"],
  "every event content, every modified byte, any wrong key",
  "The encryption test only reads its own data back.",
  ["monotone/runtime/lib/encryption_aes.c", E+"io/region_writer.h", E+"io/reader.h", "monotone/runtime/lib/random.c"],
  [("AES-256-GCM with random IV and authentication tag", "monotone/runtime/lib/encryption_aes.c")],
  observe=["bytes of partition files", "scan after tampering"])

prop("C14", "Cloud placement never changes what is read",
  "For a storage with a cloud, events read back the same whether a partition is local only, uploaded, cloud only, downloaded again, refreshed or moved, and writes to cloud-only partitions are kept; the objects placed in the cloud are byte-identical to the partition files and exist exactly for the partitions reported on the cloud. Requests sent to an S3 endpoint are well-formed and correctly signed, ranges included.",
  ["programs", "configurations", "histories"],
  "every sequence of UPLOAD/DOWNLOAD/DROP ON STORAGE/DROP ON CLOUD/REFRESH/MOVE/SERVICE, cloud_drop_local on or off, mock and S3 clouds, restarts in between",
  "The cloud tests use the mock with fixed sequences; the S3 test is skipped without a server.",
  ["monotone/cloud/cloud/cloud.h", "monotone/cloud/cloud/cloud_mgr.c", "monotone/cloud/cloud/mock.c", "monotone/cloud/s3/s3.c", "monotone/cloud/s3/s3_io.c", E+"io/part.c", E+"engine/op.c"],
  [("cloud interface", "monotone/cloud/cloud/cloud.h"), ("read-through of cloud files", E+"io/reader.h")],
  observe=["scan", "SHOW PARTITIONS", "cloud objects", "HTTP requests received"])

prop("C15", "Failed cloud transfers lose nothing and can be retried",
  "When any cloud request fails or returns truncated data (connection refused, HTTP error, short body, injected transfer error), the command reports an error, every event remains readable from the copy that exists, and repeating the command after the fault is gone succeeds. Data is never removed from one place before its complete copy exists in the other (a failed DROP PARTITION or DROP STORAGE may already have removed what it was told to remove).",
  ["fault_sequences", "programs"],
  "a fault at each request or file operation of each cloud command, in every placement state",
  "Two error injections are tested with the mock; HTTP failures are not.",
  ["monotone/cloud/s3/s3.c", "monotone/cloud/s3/s3_io.c", "monotone/cloud/cloud/mock.c", E+"io/part.c", E+"engine/op.c"],
  [("state bits set only after completion", E+"engine/op.c")],
  observe=["command results", "scan", "HTTP requests and responses"])

prop("C16", "The pipeline moves or drops only the oldest excess partitions",
  "After REBALANCE, every tier respects its limits (partitions, size and events of its files, duration), unless its oldest partition still waits for a scheduled refresh; the partitions that left a tier are its oldest ones and no more than needed, each moved to the next tier or, from the last tier, dropped, while every other partition and event is untouched. New partitions are created on the first tier.",
  ["programs", "configurations", "inputs"],
  "every pipeline shape and limit against every distribution of partitions",
  "The rebalance tests use two tiers with a fixed limit on a few partitions.",
  [E+"engine/op.c", E+"storage/pipeline.c", E+"storage/tier.h", E+"storage/tier_config.h", E+"storage/storage.h"],
  [("rebalance loop", E+"engine/op.c"), ("storage metrics", E+"storage/storage.h")],
  observe=["SHOW PARTITIONS/STORAGES/PIPELINE", "scan"])

prop("C17", "Damaged files are detected, never silently misread",
  "With checksums on (storage crc, wal_crc), any change of bytes in a partition file or in a complete record of a log file (other than the length field of a record in the newest log file, which can not be told from an interrupted write), and any truncation of a partition file, is either reported as an error on open or read or leaves the returned data unchanged; it never yields wrong, missing or extra events reported as success, a crash or a hang. Once open, the other partitions stay readable and writable whatever errors the damaged one gives, and dropping it gives back everything else.",
  ["inputs", "fault_sequences"],
  "every single-byte change or truncation of every file, for every storage format option",
  "No test damages a file.",
  [E+"io/reader.h", E+"io/part.c", E+"io/index.h", E+"io/region.h", E+"wal/wal_file.h", E+"wal/wal_cursor.c", E+"io/part.c"],
  [("crc of index header, index data, regions, WAL records", E+"io/writer.c")],
  observe=["open result, scan result on the damaged copy"])

prop("C18", "Concurrent writers, readers and workers lose and invent nothing",
  "With any number of threads writing and reading while background workers refresh, rotate, rebalance and collect, every acknowledged write is visible to later reads, per-key results are linearizable, batches within one partition are never seen half applied, and every thread makes progress as long as each batch stays within one partition and cursors are closed. (While a DROP of a partition runs, its events may vanish one part after the other, and a write concurrent with the DROP may be dropped with it.)",
  ["schedules", "histories"],
  "every schedule of client threads and background workers",
  "The test suite is single-threaded with workers disabled.",
  [E+"engine/engine.c", E+"engine/lockage.h", E+"engine/refresh.c", E+"engine/write.c", E+"engine/worker.c", E+"engine/service.h", "monotone/runtime/runtime/rwlock.h", "monotone/main/main/main.c"],
  [("per-partition access and service locks", E+"engine/lockage.h"), ("control rwlock", "monotone/main/main/main.c")],
  observe=["recorded operation history with start/end stamps"])

prop("C19", "Concurrent use is free of data races and lock misuse",
  "Concurrent API use from several threads together with background workers performs no conflicting unsynchronised memory access, use of freed memory, unlock of a lock not held, or lock-order deadlock.",
  ["schedules"],
  "every schedule of client threads (write, read, SHOW, DDL, maintenance) and background workers",
  "The test suite is single-threaded and runs without a race detector.",
  [E+"engine/engine.c", E+"engine/lockage.h", E+"engine/op.c", E+"engine/refresh.c", E+"engine/engine_show.c", "monotone/runtime/lib/memory_mgr.h", "monotone/runtime/lib/cache.h", E+"wal/wal.c"],
  [("engine mutex, ref locks, control lock, spinlocks", E+"engine/engine.c")],
  observe=["ThreadSanitizer / AddressSanitizer reports"])

prop("C20", "A cursor sees a stable partition while it stands on it",
  "While a cursor stands in a partition, no write, refresh, move or drop of another thread changes what that cursor returns for that partition: it returns the partition as it was when the cursor entered it (plus its own thread's writes). The others proceed once the cursor leaves the partition or is closed.",
  ["schedules", "histories"],
  "every interleaving of a cursor walk with writers and maintenance in other threads",
  "No test uses a second thread.",
  [E+"engine/engine_cursor.h", E+"engine/lockage.h", E+"engine/engine.c", E+"engine/refresh.c"],
  [("access lock held by the cursor", E+"engine/lockage.h")],
  observe=["cursor results against the recorded writes of other threads"])

prop("C21", "No input can crash or corrupt the process",
  "Every command text, key, value, batch and API call order allowed by the header (a thread holding an open cursor does not issue schema changes or partition drops, which wait for its cursor) returns a result or an error; none causes a crash, assertion failure, out-of-bounds or use-after-free access, undefined behaviour, unbounded loop or memory leak.",
  ["inputs", "programs"],
  "every byte string as a command and every event shape",
  "The tests run well-formed commands without sanitizers.",
  ["monotone/main/command/lex.c", "monotone/main/command/parse.c", "monotone/main/command/parse_storage.c", "monotone/main/command/parse_partition.c", "monotone/main/main/execute.c", "monotone/runtime/runtime/logger.c", "monotone/runtime/runtime/buf.h", "monotone/runtime/lib/json.c", E+"io/event.h"],
  [("exceptions with guards", "monotone/runtime/runtime/exception.h")],
  observe=["AddressSanitizer/UndefinedBehaviorSanitizer/LeakSanitizer reports, process exit status, time"])

prop("C22", "A failed command changes nothing",
  "A command that returns an error (syntax error, unknown name, duplicate, invalid option, object in use, online change of a start-up setting) leaves schema, settings, partitions and events exactly as before, both now and after a reopen; IF [NOT] EXISTS variants of it succeed with no effect. Clouds and storages still referenced cannot be dropped.",
  ["inputs", "programs"],
  "every failing command in every schema state",
  "The tests check one or two errors per command and not their side effects.",
  ["monotone/main/main/execute.c", "monotone/main/command/parse_storage.c", "monotone/main/command/parse_cloud.c", E+"storage/storage_mgr.c", E+"storage/pipeline.c", "monotone/cloud/cloud/cloud_mgr.c"],
  [("validation before change", E+"storage/storage_mgr.c"), ("reference counts", E+"storage/storage.h")],
  observe=["SHOW output and config.json before/after, after reopen"])

prop("C23", "Log garbage collection keeps what is needed and frees the rest",
  "A WAL file is removed only when every write in it is contained in a completed partition file or was dropped, whatever concurrent writers and refreshes do; and once everything has been refreshed and the log rotated, all earlier WAL files are removed. SHOW WAL agrees with the files on disk.",
  ["histories", "schedules", "crash_points"],
  "every sequence and schedule of writes, rotations, refreshes, drops and collections, followed by a crash",
  "The tests never combine collection with a crash or concurrent writers.",
  [E+"engine/op.c", E+"wal/wal.c", E+"wal/wal_id.h", E+"io/memtable.h", E+"engine/refresh.c"],
  [("minimum lsn over memtables", E+"engine/op.c")],
  observe=["unlink of WAL files (link-time interposition)", "files on disk", "scan after crash and reopen"])

prop("C24", "An I/O error is reported and costs no data",
  "If any single file system call fails (EIO, ENOSPC, short write, failed rename, sync, open or read), the affected call returns an error or completes correctly, the process keeps running, all previously acknowledged events stay readable, reads and writes which transfer only a part or are interrupted change nothing, and after the fault is gone the same operations and a reopen succeed with no acknowledged event lost and no failed write resurrected.",
  ["fault_sequences", "programs"],
  "every file system call of every operation failing once with each relevant error",
  "The tests have six fixed injection points and never fail a real system call.",
  ["monotone/runtime/runtime/vfs.c", "monotone/runtime/runtime/file.h", E+"wal/wal.c", E+"wal/wal_file.h", E+"engine/refresh.c", E+"io/part.c", E+"io/merger.c", "monotone/runtime/config/config.c"],
  [("error exceptions from file layer", "monotone/runtime/runtime/file.h"), ("rollback", E+"engine/write.c")],
  observe=["return codes, scan, scan after reopen"])

prop("C25", "The memory limit is honoured and recovers",
  "With mm_limit on, memory in use never exceeds the watermark by more than the page being handed out; in 'error' mode a write beyond it fails without side effect, in 'block' mode it waits. Once a refresh frees memory, writes succeed (waiters continue), and after all data is flushed the reported memory in use returns to its baseline. The limit never keeps events accepted before from being recovered: reopening with the same settings succeeds (the replayed events may exceed the limit).",
  ["inputs", "histories", "schedules"],
  "every workload and page/limit/cache configuration; several blocked writers",
  "No test sets a memory limit.",
  ["monotone/runtime/lib/memory_mgr.h", "monotone/runtime/lib/heap.h", E+"io/memtable.h", E+"engine/write.c"],
  [("page accounting and wait condition", "monotone/runtime/lib/memory_mgr.h")],
  observe=["SHOW MEMORY", "write results and completion"])

prop("C26", "One process per directory",
  "While one process has a directory open, an attempt to open it from another process or another environment fails with an error and disturbs neither the first one nor the files; once the first closes or dies, opening works. The lock never outlives or under-lives the open environment.",
  ["schedules", "programs"],
  "every moment of the first process's life, several competing openers",
  "Tests use one process.",
  ["monotone/main/main/main.c", "monotone/runtime/runtime/file.h", "monotone/runtime/runtime/vfs.c"],
  [("flock on the directory", "monotone/main/main/main.c")],
  observe=["monotone_open result in a second process; file contents"])

prop("C27", "Schema and settings changes are atomic across a crash",
  "If the process dies at any moment of a CREATE/ALTER/DROP of a cloud, storage or pipeline or of SET, reopening succeeds and shows either the schema and settings from before the command or from after it, with the same environment identity, and all events intact.",
  ["crash_points", "programs"],
  "a crash at every file-modifying system call of every DDL and SET command",
  "No test stops inside a DDL command.",
  ["monotone/runtime/config/config.c", "monotone/main/main/execute.c", E+"storage/storage_mgr.c", E+"storage/storage.h"],
  [("config.json save", "monotone/runtime/config/config.c")],
  observe=["SHOW output after reopen"])

prop("C28", "Reported statistics agree with the contents",
  "SHOW PARTITIONS, STORAGES, WAL and MEMORY always agree with the real state: after everything is flushed the events and partitions reported per partition and storage equal what a scan and the files contain, sizes equal file sizes, and totals equal the sum over partitions, through refresh, move, upload, download, drop and reopen.",
  ["programs", "histories"],
  "every sequence of writes and maintenance commands",
  "Tests compare a few fixed outputs.",
  [E+"engine/engine_show.c", E+"storage/storage.h", E+"storage/storage_mgr.c", E+"io/memtable.h", E+"engine/op.c", E+"engine/refresh.c"],
  [("storage metrics add/remove", E+"storage/storage.h")],
  observe=["SHOW output, scan, file sizes"])

prop("C29", "Background work that is due gets done, and only that",
  "With workers running, or after enough SERVICE calls without them: the in-memory data of a partition that a write or recovery leaves beyond the refresh watermark of its storage, of the previous newest partition when a newer one is created by a write, and of every partition at CHECKPOINT, is merged into its partition file; a new partition makes the pipeline be rebalanced; a log file that passes wal_rotate_wm is replaced; partitions of storages with a cloud are uploaded after their refresh and, if that is missing, after the next open, and then lose the local copy if cloud_drop_local is set. Partitions that nothing asks for are left alone, SERVICE with nothing to do changes nothing, failed work does not stop later triggers from getting it done, and closing with work left undone loses nothing.",
  ["programs", "histories", "schedules"],
  "every sequence of writes, triggers, failures of the work, drops of partitions with pending work, and restarts; one to four workers of both kinds",
  "Tests run SERVICE a fixed number of times after one trigger; they never fail the work, count what must stay alone, or let workers run.",
  [E+"engine/service.h", E+"engine/op.c", E+"engine/worker.c", E+"engine/worker_mgr.c", E+"engine/write.c", E+"engine/engine.c", E+"io/part.h", E+"wal/wal.c"],
  [("requests and their actions", E+"engine/service.h"), ("CHECKPOINT and resume after open", E+"engine/op.c"), ("refresh watermark", E+"engine/write.c")],
  observe=["SHOW PARTITIONS, files, SHOW PIPELINE limits after SERVICE calls or quiet time"])

prop("C30", "A command means what is written, however it is spelled",
  "A number in a command means its value: a decimal integer, times its unit if one follows (us, ms, sec, min, hr, day, week, month of 30 days, year of 12 months, and their long and plural forms; kb, mb, gb, tb decimal; kib/k, mib/m, gib/g, tib/t binary), with any leading zeros. Every setting (SET, storage and pipeline options) shows back as exactly the value written, up to 2^63-1, after any other ALTER, a rename and a reopen, and works as that value: interval decides the range of new partitions, refresh_wm what SERVICE refreshes, region_size how a file is divided, wal_rotate_wm when the log rotates, pipeline limits what REBALANCE moves or drops. A quantity that cannot be held is refused and changes nothing. Keyword case, white space, # comments, the kind of quotes and the choice of unit never change the outcome of a command or the state after it.",
  ["inputs", "programs", "histories"],
  "every number and unit, every setting and its effect, every spelling of every command, in every schema state",
  "Tests write small numbers in one spelling and never compare two spellings or settings beyond 32 bits.",
  ["monotone/main/command/lex.c", "monotone/main/command/parse.c", "monotone/main/command/parse_misc.h", "monotone/main/command/parse_storage.c", "monotone/main/command/parse_pipeline.c", "monotone/main/command/parse_partition.c", "monotone/main/command/parse_config.c", "monotone/cloud/cloud/source.h", E+"storage/tier_config.h", E+"io/part.h", E+"io/writer.c", "monotone/runtime/config/config.c", "monotone/main/main/execute.c"],
  [("units and comments", "monotone/main/command/lex.c"), ("storage settings", "monotone/cloud/cloud/source.h"), ("watermarks", E+"io/part.h")],
  observe=["monotone_execute", "SHOW CONFIG/STORAGES/PIPELINE/PARTITIONS/WAL"])

prop("C31", "Directories are written in, and read from, the on-disk format",
  "Every file the database leaves behind, after a clean stop or a kill, is in the on-disk format: partition files consist of regions of ascending distinct (id, key) events, an index of their positions, sizes, id ranges and checksums and a footer, with the codec the storage asks for; log files hold records with right checksums and increasing sequence numbers; the events found in them by an independent reader (partition files, plus log records newer than them) are exactly the acknowledged contents. Conversely every directory in that format opens and reads as exactly the events in it, however they are divided into regions and files, whatever the codec, the place of the copies (storage, bucket or both), the split of the log, the leftovers of interrupted work, files of other names, and the layout of config.json.",
  ["inputs", "programs", "crash_points"],
  "every content, every division into regions and log files, every codec and placement, every leftover of an interrupted operation",
  "Tests only read back what the same build wrote, so a change that alters writer and reader alike, making older directories unreadable, passes all of them.",
  [E+"io/writer.c", E+"io/region_writer.h", E+"io/region.h", E+"io/index_writer.h", E+"io/index.h", E+"io/index_op.c", E+"io/reader.h", E+"wal/log.h", E+"wal/wal_file.h", E+"wal/wal_cursor.c", E+"engine/engine_recover.c", "monotone/runtime/config/config.c"],
  [("partition file writer", E+"io/writer.c"), ("index and footer", E+"io/index.h"), ("log record", E+"wal/log.h"), ("recovery of the directory", E+"engine/engine_recover.c")],
  observe=["files in the directory", "scan after open of a foreign directory"])

prop("C32", "Environments of one process are independent and keep the calling contract",
  "Several environments in one process, used by any threads in any order, opened, closed and reopened in between, never affect each other: each has its own contents, settings and cursors. monotone_error gives the text of the last failed call; cursors return each event until the end, and from then on read and next keep reporting the end without error; calls on one environment do not disturb an open cursor of another.",
  ["inputs", "schedules", "programs"],
  "every interleaving of calls on up to four environments by up to five threads, with errors and closes in between",
  "Tests use one environment at a time; state kept per process or thread (error context, current runtime, cursors) is never shared between two.",
  ["monotone/main/api/monotone.c", "monotone/main/api/monotone.h", "monotone/main/main/main.c", "monotone/runtime/runtime/runtime.h", "monotone/runtime/runtime/exception.h", "monotone/runtime/runtime/error.h", E+"engine/engine_cursor.h"],
  [("entry points", "monotone/main/api/monotone.c"), ("thread-local runtime", "monotone/runtime/runtime/runtime.h")],
  observe=["monotone_* results and monotone_error"])

prop("C33", "Everything taken is given back",
  "A database holds exactly the files it needs: the directory lock, its log, the current log file and one file per partition that has a local copy, whatever commands ran, failed or were interrupted by I/O errors; it runs exactly the configured number of threads; closing it, or failing to open it, gives back every descriptor and thread. Once an operation is over, its temporary files and replaced copies are gone, also from the bucket unless their removal failed. Repeating the same work, including commands that fail, reaches a steady state in memory, pages, files and threads.",
  ["programs", "fault_sequences", "histories"],
  "every sequence of commands, failures and faults, every number of repetitions",
  "Tests never look at descriptors or memory and run each command once or twice, so a file left open per failed refresh or a few bytes per command stay unseen.",
  ["monotone/runtime/runtime/file.h", E+"io/part.c", E+"engine/refresh.c", E+"engine/op.c", E+"engine/worker.c", E+"engine/service.h", E+"storage/storage_mgr.c", E+"wal/wal.c", "monotone/main/main/main.c", "monotone/runtime/lib/memory_mgr.h", "monotone/runtime/runtime/thread.h", "monotone/runtime/runtime/logger.c"],
  [("file descriptors of partitions", E+"io/part.c"), ("close order", "monotone/main/main/main.c")],
  observe=["/proc/self/fd and task, mallinfo2, SHOW MEMORY, files"])

prop("C34", "Maintenance does not block readers and writers",
  "While a refresh, move, upload, download, removal of a copy, log write, log rotation or log removal is anywhere inside its file and network I/O, other threads go on: reads, cursors, writes (with the log off, or not behind the held log write) and SHOW answer at once and rightly; also for the partition under work while its new file is written or transferred, and for all other partitions at every moment, which can besides be refreshed, moved and transferred meanwhile. A read held inside one partition keeps nobody from the others. Work that many workers share goes on when one of them is held up, uploads do not delay ordinary work, and afterwards contents are complete.",
  ["schedules", "programs"],
  "every position inside every kind of maintenance work, every list of calls by other threads meanwhile, every worker configuration",
  "Tests are single threaded; a lock held over a file transfer only makes them slower.",
  [E+"engine/refresh.c", E+"engine/op.c", E+"engine/engine_cursor.h", E+"engine/engine.c", E+"engine/service.h", E+"engine/worker.c", E+"engine/worker_mgr.c", E+"engine/lockage.h", E+"engine/ref.h", E+"storage/pipeline.h", E+"wal/wal.c", "monotone/runtime/runtime/mutex.h"],
  [("refresh outside the locks", E+"engine/refresh.c"), ("locks of a partition", E+"engine/ref.h"), ("queue of the workers", E+"engine/service.h")],
  observe=["progress of other threads while a file call is held", "answers, scan"])

prop("C35", "Work touches only the data it needs",
  "A cursor reads of partition files only the regions between its start and its position, each at most once, from the local copy whenever there is one, and with one ranged request per region otherwise; partitions it does not pass, and data in memory, cost no reads. Writes touch nothing but the log, SHOW touches nothing. Opening reads the indexes of the files only: no data and nothing from the cloud. A refresh, move, upload, download or removal reads and writes files and objects of its own partition only, each region and each new byte once, and leaves every other partition as it was.",
  ["programs", "inputs"],
  "every content, division into regions, placement of copies, seek key and length of a walk, every maintenance command",
  "Tests compare results only; reading a whole partition, or fetching a whole object for each event, gives the same results.",
  [E+"io/part_iterator.h", E+"io/index_iterator.h", E+"io/region_iterator.h", E+"io/reader.h", E+"io/part.c", E+"io/index_op.c", E+"io/merger.c", E+"engine/engine_cursor.h", E+"engine/engine_recover.c", E+"engine/refresh.c", E+"engine/op.c", "monotone/cloud/cloud/mock.c", "monotone/cloud/s3/s3.c", "monotone/cloud/s3/s3_op.c"],
  [("choice of the region", E+"io/index_iterator.h"), ("choice of the copy", E+"io/reader.h"), ("ranged requests", "monotone/cloud/s3/s3_op.c")],
  observe=["file calls with positions, requests received by the cloud"])

prop("C36", "A command succeeds exactly when it can, and does what it says",
  "For every history of CREATE, ALTER, RENAME and DROP of clouds and storages, ALTER PIPELINE, CREATE, DROP, MOVE, REFRESH, UPLOAD and DOWNLOAD of partitions (one, ranges, on one place only) and SET of the defaults: a command is refused exactly when an object is missing or already there without IF EXISTS or IF NOT EXISTS, an option is invalid, an object is in use (a cloud of a storage, a storage with partitions or in the pipeline, options which need an empty storage, a cloud whose copies remain), or a cloud is needed and there is none without IF CLOUD. Afterwards, and after a reopen, clouds, storages with all their options, the pipeline, and the partitions with their ranges, storages and copies are exactly what the commands asked for, unnamed options and other objects keep their values, and events are those written less those dropped. SHOW of one object agrees with the list.",
  ["programs", "inputs"],
  "every history of schema and partition commands, every option list, every state the objects are in",
  "Tests run each command in one or two states; outcomes depend on what the whole history before left behind.",
  ["monotone/main/main/execute.c", "monotone/main/command/parse_storage.c", "monotone/main/command/parse_cloud.c", "monotone/main/command/parse_pipeline.c", "monotone/main/command/parse_partition.c", E+"storage/storage_mgr.c", E+"storage/pipeline.c", "monotone/cloud/cloud/cloud_mgr.c", "monotone/cloud/cloud/cloud_config.h", "monotone/cloud/cloud/source.h", E+"engine/op.c", E+"engine/refresh.c", E+"engine/engine_show.c"],
  [("storages and their conditions", E+"storage/storage_mgr.c"), ("clouds and their conditions", "monotone/cloud/cloud/cloud_mgr.c"), ("placement of partitions", E+"engine/op.c")],
  observe=["outcome of every command", "SHOW CLOUDS, STORAGES, PIPELINE, PARTITIONS, scan"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        p["anchors"]["files"]=list(dict.fromkeys(p["anchors"]["files"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
