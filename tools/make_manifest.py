#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = {
"C01": ("exploration", "random programs against a reference model", "Every scan and seek of many random programs (all id/key/value patterns, page and region sizes, maintenance and reopen in between) is compared with an independent model. Assumes the explored programs are representative; single thread."),
"C02": ("exploration", "seeks at every boundary against a reference model", "Seeks to every live event, its neighbours, every page, region and partition border, for many layouts (memory, file, both). Single thread."),
"C03": ("exploration", "cursor/write interleavings against a reference model", "Cursor steps interleaved with writes of the same thread at every relative position; each returned event and the set of unavoidable events are checked."),
"C04": ("fault_enumeration", "injected causes of write failure with model comparison before/after and after restart", "Every cause of a failing batch (log call errors and short writes at each position, memory limit, oversized events and keys, injected log error) is placed at each position of generated batches; contents compared now and after restart."),
"C05": ("fault_enumeration", "process killed at file-modifying calls (link-time interposition), reopened and compared with the allowed states", "Crash points are enumerated per program in five variants (before, after, partial writes), with chained crashes and multi-threaded writers. Process crash model: completed calls persist."),
"C06": ("fault_enumeration", "process killed at file-modifying calls of maintenance commands, reopened and compared", "As C05 for every maintenance command, with several storages, encryption and mock clouds, followed by rerunning the commands."),
"C07": ("fault_enumeration", "power-loss monitor keeping only synced file data", "Each unsynced file content is dropped or cut at a chosen moment; metadata operations (create, rename, unlink) are taken as durable in order."),
"C08": ("exploration", "schema model compared over reopen", "Random schema histories with hostile option values; SHOW output and scans compared before and after reopening."),
"C09": ("exploration", "id monitor over sequential, threaded and crashing histories", "Returned ids are checked to be unique and increasing; threads and crashes included."),
"C10": ("exploration", "partition map model and invariants", "An independent model of gap filling predicts every partition range; disjointness and coverage checked at each step."),
"C11": ("fault_enumeration", "drop histories with crashes against a model", "Drops of single partitions and ranges mixed with rewrites, restarts and crashes at each file-modifying call."),
"C12": ("exploration", "storage option matrix with value round trips", "Every combination of compression, level, encryption, crc, region size with hostile values; moved and altered in between."),
"C13": ("exploration", "ciphertext monitor and tampering", "Searches files for plaintext, collects all initialisation vectors, rereads under wrong keys and after byte changes."),
"C14": ("exploration", "model comparison over cloud programs; HTTP monitor with signature check", "Mock and S3 (local server verifying every request) programs over all placements."),
"C15": ("fault_enumeration", "HTTP and file faults at each request of each cloud command", "Each request/file operation fails in several ways; contents compared, command repeated after the fault."),
"C16": ("exploration", "pipeline model", "An independent model predicts the partitions each rebalance moves or drops."),
"C17": ("fault_enumeration", "byte changes and truncations of files, reread by the real code", "All kinds of byte changes and truncations over partition files and log records; oracle: error or unchanged data."),
"C18": ("exploration", "threaded histories checked offline (linearizability, batch atomicity, progress) with injected delays", "Recorded operation histories of several threads and workers with seeded delays at locks and file calls."),
"C19": ("exploration", "ThreadSanitizer on threaded workloads with injected delays", "Reports of data races, lock misuse and lock order inversions on the schedules seen."),
"C20": ("exploration", "threaded cursor histories checked against per-partition snapshots", "Cursor results compared with the writes of other threads; delays injected."),
"C21": ("exploration", "AddressSanitizer, UBSan and LeakSanitizer under generated and mutated input", "Grammar based and mutated commands, hostile events and API orders under sanitizers."),
"C22": ("exploration", "state comparison before and after failing commands", "SHOW output, config.json and scans compared around failing commands in generated schema states."),
"C23": ("exploration", "monitor of log file removal against the model, with crashes and concurrent writers", "Log files on disk compared with needed records after each collection; crash and reopen afterwards."),
"C24": ("fault_enumeration", "file system calls failed one by one with model comparison", "Each call of each program fails with each relevant error; contents compared, retried, reopened."),
"C25": ("exploration", "memory accounting monitor under limits, blocked writers observed", "SHOW MEMORY sampled during workloads with limits; blocked writers must be released by a refresh."),
"C26": ("exploration", "competing opener processes", "Second opens at many moments of the first process's life."),
"C27": ("fault_enumeration", "process killed at file-modifying calls of schema commands, reopened and compared", "Every crash point of every schema command in five variants; schema must be the old or the new one."),
"C28": ("exploration", "statistics compared with model, scan and file sizes", "SHOW output compared with files and contents after each step of random programs."),
"C29": ("exploration", "derived schedule of due work compared with partitions, placement and files", "The due work is derived from each write and command; after SERVICE calls or quiet time with workers every due item must be done and others untouched; failures injected."),
"C30": ("exploration", "two environments given the same commands in different spellings, compared with each other and with the values written", "Random histories in the plain spelling and respelled side by side; settings from 0 to 2^63-1 and their effects; quantities that do not fit must be refused."),
"C31": ("exploration", "independent decoder and encoder of the directory format", "Directories left by random programs and kills are decoded by a separate implementation and compared with the model; directories written by it in all layouts must open with the same contents."),
"C32": ("exploration", "several environments and threads compared with a model each", "Calls on up to four environments interleaved in one process, also by threads; contents, settings, error texts and cursor results compared per environment."),
"C33": ("exploration", "open files, threads, heap and directory compared with what the state needs", "Descriptors and threads of the process compared with the state after every step, faults included; repeated cycles must stop growing."),
"C34": ("exploration", "progress of other threads while a file call of maintenance is held", "A maintenance command or worker is stopped inside its n-th file call until other threads finished random reads, writes and commands; being stuck, or a wrong answer, is the violation."),
"C35": ("exploration", "file calls and requests of each command compared with the regions it needs", "Every call and request of a command is recorded with its position and compared with the regions of the files as an independent decoder reads them."),
"C36": ("exploration", "a reference model of the catalog compared after every command", "Random histories; outcome, catalog and contents are compared with a model which knows every condition of every command."),
}
pids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
checks, na = [], []
for p in pids:
    f = "checks/%s.py" % p.lower()
    if os.path.exists(os.path.join(V, f)) and p not in NA:
        level, tech, note = T[p]
        checks.append(dict(property=p, quick_cmd="VERIF_TIER=quick python3 " + f, thorough_cmd="VERIF_TIER=thorough python3 " + f,
                           technique="runtime monitoring: " + tech, level=level, level_note=note))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
m = dict(version=1, setup_cmd="python3 lib/build.py plain asan tsan", checks=checks, not_applicable=na,
         notes="No hooks in /repo: file system and lock calls are interposed at link time from /verif/harness.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
