#!/usr/bin/env python3
# Writes /verif/properties.jsonl (one place to keep the texts readable).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe,
         "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

M = "mdbx.c"
WHY = "The two example programs insert a few thousand ordinal keys in one table; "

p("C01", "Single-valued tables behave as an ordered map",
  "For every sequence of upsert, insert-only, update-only, append, reserve, replace and delete calls on tables without multi-values, every return code, every looked-up value and the full ordered scan equal those of a sorted map under the table's key order (bytewise, reversed-bytewise, native integer). This holds for every allowed page size, key length (including empty), value length (including empty and multi-page values), table count, and regardless of how the calls are grouped into committed transactions.",
  ["inputs", "histories", "configurations"], "all sequences of write/read calls x key orders x page sizes x key/value lengths x transaction grouping",
  WHY + "they never delete, update with a size change, use large values, integer/reverse keys, or trees deeper than two levels, so splits in the middle, merges, rebalancing and overflow-page handling are untested.",
  [M, "mdbx.h"], [("insert/update/split", "mdbx.c cursor_put, page_split, tree_propagate_key"), ("delete/rebalance", "mdbx.c cursor_del, tree_rebalance"), ("search", "mdbx.c tree_search, cursor_seek"), ("large values", "mdbx.c node_read_bigdata")],
  ["mdbx_put", "mdbx_get", "mdbx_del", "mdbx_replace", "mdbx_cursor_get"])

p("C02", "Multi-value tables behave as a sorted multimap of distinct values",
  "For every sequence of upserts, no-duplicate inserts, key-only inserts, append-duplicates, multi-element stores, whole-key replacements, single-value updates and deletions on multi-value tables (variable-size, fixed-size, integer and reversed values), every return code, per-key value count and full ordered scan equal those of a map from key to a sorted set of values. A replace or extract that cannot tell which of several values is meant is refused with the documented error and changes nothing.",
  ["inputs", "histories", "configurations"], "all call sequences x multi-value flavours x value counts per key (one value, in-page group, separate nested tree) x page sizes",
  WHY + "no test creates a multi-value table at all, so nothing exercises the transitions single value -> in-page group -> nested tree and back.",
  [M, "mdbx.h"], [("value groups", "mdbx.c cursor_put (sub-page and nested tree growth), recalculate_subpage_thresholds"), ("group removal", "mdbx.c cursor_del"), ("element arrays", "mdbx.c MDBX_MULTIPLE branch of cursor_put")],
  ["mdbx_put", "mdbx_cursor_put", "mdbx_del", "mdbx_replace", "mdbx_cursor_count", "mdbx_get_ex"])

p("C03", "Cursor positioning and iteration agree with the sorted contents",
  "For every table content, every cursor positioning or stepping operation (first/last, next/previous with and without multi-values, exact, lower/upper bound, lesser/greater key and pair seeks, range lookups, multi-element and batch reads, predicate scans) returns exactly the item, return code and end-of-data state dictated by the sorted contents and the cursor's previous position. Reading never changes the data.",
  ["inputs", "histories", "configurations"], "all contents x all sequences of positioning operations x target keys/values present, absent, below, between and above the stored ones",
  WHY + "the C example does a single forward scan and nothing checks backwards, bounded, multi-value or batch movement nor end-of-data behaviour.",
  [M, "mdbx.h"], [("operations", "mdbx.c cursor_ops, cursor_seek, cursor_sibling_left/right"), ("scans", "mdbx.c mdbx_cursor_scan, mdbx_cursor_scan_from, mdbx_cursor_get_batch")],
  ["mdbx_cursor_get", "mdbx_cursor_scan", "mdbx_cursor_scan_from", "mdbx_cursor_get_batch", "mdbx_get_equal_or_great", "mdbx_cursor_eof", "mdbx_cursor_on_first", "mdbx_cursor_on_last"])

p("C04", "Cursors keep their place while the same transaction changes the table",
  "Within a write transaction, after any insert, update or deletion made through other cursors or without a cursor, every positioned cursor still refers to the same item if that item still exists, and stepping it yields the correct neighbour; a cursor through which an item was deleted yields the following item as its next one. This holds when the change splits, merges, moves or frees the page the cursor stands on, and inside nested transactions that are then committed or aborted.",
  ["histories", "inputs"], "all interleavings of modifications and reads over several cursors of one table, all table kinds",
  WHY + "they never keep a second cursor open during a modification, so cursor fix-ups after splits, merges, root changes and sub-page moves are never observed.",
  [M], [("fix-ups", "mdbx.c cursor tracking loops in page_split, tree_rebalance, cursor_put, cursor_del"), ("nested shadows", "mdbx.c txn_shadow_cursors, cursor_shadow")],
  ["mdbx_cursor_get", "mdbx_cursor_del", "mdbx_cursor_put", "mdbx_cursor_compare", "mdbx_cursor_copy"])

p("C05", "Bulk range deletion removes exactly the requested items",
  "Deleting a range between two cursors (open or closed at the end, bounded or unbounded on either side) or a bunch relative to one cursor removes exactly the items of that range in key/value order, reports exactly how many were removed, and leaves all other items intact, in order and reachable. Empty and inverted ranges and unpositioned cursors are refused as documented without any change.",
  ["inputs", "histories", "configurations"], "all contents (including nested value trees and large values) x all range endpoints x all bunch actions",
  WHY + "no test calls a bulk deletion.",
  [M], [("branch cutting", "mdbx.c mdbx_cursor_delete_range, mdbx_cursor_bunch_delete and the tree-cut helpers")],
  ["mdbx_cursor_delete_range", "mdbx_cursor_bunch_delete", "full scan"])

p("C06", "Cursor distance, scrolling and distribution count items exactly",
  "With sufficient depth, the distance between two positions equals the number of items between them, scrolling by N lands on the N-th item forward or backward (or reports end of data), and distributing cursors over a range places them in order so that consecutive cursors partition the range without gaps or overlaps. Range estimation returns zero for equal bounds, never fails on valid input and has the sign of the true difference when the bounds lie on one leaf.",
  ["inputs", "histories"], "all contents x all pairs of positions x step counts x numbers of cursors",
  WHY + "none of these calls is tested.",
  [M], [("distance", "mdbx.c cursor_distance, mdbx_cursor_distance"), ("scroll/distribute", "mdbx.c mdbx_cursor_scroll, cursor_distribute"), ("estimate", "mdbx.c mdbx_estimate_range, mdbx_estimate_distance, mdbx_estimate_move")],
  ["mdbx_cursor_distance", "mdbx_cursor_scroll", "mdbx_cursor_distribute", "mdbx_estimate_range", "mdbx_estimate_distance"])

p("C07", "Transactions are all-or-nothing, including nested ones",
  "After a transaction commits (or is checkpointed) all of its changes, to every table, are visible to every later transaction and after reopening the database; after it is aborted, rolled back or broken none are. A nested transaction's changes become part of its parent exactly when it commits, and when it is aborted the parent continues exactly from its state before the nesting, at any depth and whatever was inserted, deleted, dropped or spilled to disk in between.",
  ["histories", "configurations"], "all histories of begin/nested begin/modify/commit/abort/rollback/checkpoint/amend/commit-then-read/reopen",
  WHY + "the C++ example commits a few nested inserts; no test aborts a nested transaction after page splits, drops a table and aborts, spills dirty pages, or checks that abort leaves no trace.",
  [M], [("commit", "mdbx.c txn_basal_commit"), ("nesting", "mdbx.c txn_nested_create, txn_nested_abort, nested merge of dirty/spilled/retired lists"), ("spilling", "mdbx.c spill_slowpath"), ("variants", "mdbx.c mdbx_txn_checkpoint, mdbx_txn_rollback, mdbx_txn_amend, mdbx_txn_commit_embark_read")],
  ["mdbx_txn_commit", "mdbx_txn_abort", "mdbx_txn_checkpoint", "mdbx_txn_rollback", "mdbx_txn_amend", "mdbx_txn_commit_embark_read", "contents of all tables"])

p("C08", "A reader sees one unchanging committed snapshot",
  "From its start to its end a read transaction sees exactly the state produced by the last transaction committed before it started: no later commit, no uncommitted change, no page reuse, file growth or shrink alters any value, ordering or statistic it reads, and data pointers it obtained stay valid with unchanged bytes until it ends. This holds for readers in the same and in other processes, started at any moment including in the middle of another process's commit, and for cloned, renewed and refreshed readers.",
  ["schedules", "histories", "configurations"], "all interleavings of readers and writers at every publication point of commit and of reader registration, all sync modes",
  WHY + "no test has a reader alive while a writer commits.",
  [M], [("reader registration", "mdbx.c mvcc_bind_slot, txn_ro_start"), ("oldest reader", "mdbx.c mvcc_shapshot_oldest_rw, gc_alloc_ex"), ("meta publication", "mdbx.c dxb_sync_locked, meta_update_begin/end, meta_tap")],
  ["mdbx_txn_begin(RDONLY)", "mdbx_txn_clone", "mdbx_txn_renew", "mdbx_txn_refresh", "bytes behind returned pointers"],
  hook="schedule points inside commit and reader registration (VERIF_SCHED_HOOK)")

p("C09", "Durable mode: no committed transaction is lost by a power failure",
  "In the default durable mode, if power is lost at any moment, whatever subset of not-yet-flushed writes reached the disk, the database opens without repair and contains exactly the state of the last transaction whose commit returned, or of the transaction being committed at that moment, with every page consistent. This holds with and without write-mapped memory, with write-through or write-and-flush, during file growth and shrinking, and for commits made through checkpoints and nested transactions.",
  ["crash_points", "fault_sequences", "histories", "configurations"], "all crash points x all subsets/orders of unflushed page writes x histories x durable configurations",
  WHY + "no test ever interrupts a commit, and the ordering of page writes, flushes and root publication is invisible without dropping unflushed writes.",
  [M], [("write ordering", "mdbx.c txn_basal_commit, txn_write, iov_write, dxb_sync_locked"), ("root choice on open", "mdbx.c dxb_setup, dxb_read_header, meta_validate")],
  ["mdbx_env_open after simulated power loss", "mdbx_env_chk", "contents"])

p("C10", "Relaxed sync modes stay consistent after a power failure",
  "With metadata flush skipped, a power failure at any moment leaves a consistent database that has lost at most the last committed transaction(s) since the last flush; with the safe no-sync mode it leaves a consistent database equal to some committed state not older than the last one confirmed as synced by an explicit sync, a durable commit or a threshold-triggered flush. After a successful forced sync in any mode, a power failure loses nothing committed before that sync.",
  ["crash_points", "fault_sequences", "histories", "configurations"], "all crash points x subsets of unflushed writes x mixes of sync modes, explicit and polled syncs, thresholds",
  WHY + "the C++ example runs through the modes but never crashes, so wrong recycling of pages that belong to the last steady state is invisible.",
  [M], [("steady points", "mdbx.c dxb_sync_locked, meta_prefer_steady, mdbx_env_sync_ex"), ("no reuse past steady", "mdbx.c mvcc_shapshot_oldest_rw, gc_alloc_ex"), ("wiping on mode change", "mdbx.c meta_wipe_steady")],
  ["mdbx_env_open after simulated power loss", "mdbx_env_sync_ex", "contents"])

p("C11", "Death of a process at any point harms no one else",
  "If a process using the database is killed at any instruction, in any sync mode, then without any repair other processes (already attached or arriving later) see every transaction whose commit returned, none of the uncommitted changes of the victim unless its commit had reached publication, and a consistent database. Locks and reader slots held by the victim are recovered automatically so that writers proceed and the space it pinned becomes reusable.",
  ["crash_points", "schedules", "histories"], "all kill points (every system call and every publication step) x roles (writer, reader, opener, closer) x surviving or later processes",
  WHY + "no test involves more than one process.",
  [M], [("robust lock recovery", "mdbx.c lck_ipclock_failed and callers"), ("dead reader cleanup", "mdbx.c mvcc_cleanup_dead"), ("first/last opener", "mdbx.c lck_seize, lck_destroy")],
  ["mdbx_txn_begin in survivors", "mdbx_reader_check", "mdbx_env_open", "contents"],
  hook="kill points reuse VERIF_SCHED_HOOK plus interposed system calls")

p("C12", "A failed system call never damages or half-applies a transaction",
  "If any write, flush, resize, mapping, locking or allocation request fails during an operation, the call reports an error (never success), the process does not crash, and the stored database still opens with exactly the state before or, if the commit had already been published, after the affected transaction; once the fault is gone, work continues on the same or a reopened handle.",
  ["fault_sequences", "histories", "configurations"], "all positions of one or several injected failures or short writes in the sequence of system calls of a history",
  WHY + "no test injects an I/O error, a full disk, a short write or an allocation failure.",
  [M], [("commit failure path", "mdbx.c txn_basal_commit, dxb_sync_locked (undo of root record)"), ("I/O retries", "mdbx.c osal_pwrite, osal_pwritev, osal_ioring_write"), ("resize failure", "mdbx.c dxb_resize")],
  ["return codes", "contents after abort/reopen", "mdbx_env_chk"])

p("C13", "Every page is accounted for exactly once and every tree is well formed",
  "After every committed transaction of every history, each page of the used part of the file is referenced exactly once: by one tree, by one large value, by the free-page records, or as a root record; nothing leaks and nothing is both free and in use. Every tree is sorted, balanced to equal leaf depth, has no under-filled structure violations that the integrity checker reports, and the integrity checker reports zero problems.",
  ["histories", "configurations"], "all histories of mixed operations over several tables, nested transactions, aborts, drops, readers holding snapshots, spilling and reclaiming",
  WHY + "the tests never run the integrity checker, and short insert-only runs hardly recycle pages.",
  [M], [("free-page bookkeeping", "mdbx.c gc_update, gc_alloc_ex, gc_handle_dense, page_retire_ex"), ("audit", "mdbx.c audit_ex"), ("checker", "mdbx.c env_chk")],
  ["mdbx_env_chk", "an independent parser of the data file", "mdbx_gc_info"])

p("C14", "Reported statistics and counts equal the real contents",
  "Item counts, tree depths and page counts by kind reported for every table (and for a key's nested values), the duplicate count at a cursor, the environment totals, the geometry and last-transaction numbers reported by the information calls equal the values obtained by walking the data, at every point of a write transaction, in read snapshots, and after reopening.",
  ["histories", "configurations"], "all histories x all tables x moments of observation (dirty, nested, committed, snapshot, reopened)",
  WHY + "no test compares statistics with contents.",
  [M], [("counters", "mdbx.c page_new/page_split/tree_rebalance/page_large updates of tree_t counters"), ("queries", "mdbx.c mdbx_dbi_stat, mdbx_env_stat_ex, mdbx_env_info_ex, mdbx_cursor_count_ex")],
  ["mdbx_dbi_stat", "mdbx_env_stat_ex", "mdbx_env_info_ex", "mdbx_cursor_count_ex", "mdbx_txn_info", "mdbx_preopen_snapinfo"])

p("C15", "The data file stays within its configured size and full is not fatal",
  "The data file never exceeds the configured upper size nor drops below the lower one, grows and shrinks in the configured steps, and geometry changes take effect, persist across reopening and are seen by other processes, without changing any data. When the limit (of the file or of a transaction) is reached the operation fails with the documented error, the transaction can be aborted, everything committed before is intact, and after raising the limit or deleting data the database is fully usable again.",
  ["inputs", "histories", "configurations"], "all geometry settings and changes interleaved with growing and shrinking workloads up to and beyond the limit",
  WHY + "the tests use one fixed generous geometry and never reach a limit.",
  [M], [("resize", "mdbx.c dxb_resize, mdbx_env_set_geometry"), ("auto shrink", "mdbx.c txn_basal_commit / dxb_sync_locked shrink part"), ("limits", "mdbx.c gc_alloc_ex (MDBX_MAP_FULL), page dirty limit (MDBX_TXN_FULL)")],
  ["file size", "mdbx_env_info_ex", "return codes", "contents"])

p("C16", "Freed space is reused: bounded data means a bounded file",
  "If the amount of live data stays bounded and no reader holds an old snapshot, the used part of the file stays bounded however many transactions are executed, in every recycling policy and value-size mix; space pinned by an old snapshot (reader or last synced state) is not reused before that snapshot ends and becomes reusable afterwards.",
  ["histories", "configurations"], "all long histories of balanced inserts and deletes with and without interleaved readers, both recycling policies, all sync modes",
  WHY + "no test runs a steady-state delete/insert workload or holds a reader while writing.",
  [M], [("recycling", "mdbx.c gc_alloc_ex, gc_update, mvcc_shapshot_oldest_rw"), ("tail return", "mdbx.c txn refund (dpl/gc tail merging with unallocated area)")],
  ["mdbx_env_info_ex (last page number)", "mdbx_gc_info"])

p("C17", "A hot copy is a complete, valid copy of one snapshot",
  "Copying an environment or a given read transaction to a path or a descriptor, plain or compacted, with any combination of copy flags, while writers keep committing, yields a database that opens, passes the integrity check and holds exactly the tables, items, sequences and markers of one committed snapshot (the transaction's own when one is given). The source is unaffected, an existing destination is not overwritten unless asked, and a failed copy reports an error.",
  ["histories", "configurations", "schedules"], "all source contents and free-space layouts x copy flags x destinations (path, file, pipe) x commits interleaved with the copying",
  WHY + "no test makes a copy.",
  [M, "mdbx_copy.c"], [("plain copy", "mdbx.c copy_asis"), ("compacting copy", "mdbx.c copy_with_compacting")],
  ["mdbx_env_copy", "mdbx_env_copy2fd", "mdbx_txn_copy2pathname", "mdbx_txn_copy2fd", "mdbx_copy"])

p("C18", "Dump and load reproduce the database",
  "For every database content (any bytes, multi-values, all table flags, sequences, markers, geometry), text produced by the dump tool and fed to the load tool recreates an equal database, in both the escaped and hexadecimal formats and for a single table or all of them, and dumping again gives the same records. Malformed dump input is refused with an error rather than a crash.",
  ["inputs", "configurations"], "all contents x table flags x dump formats x load options; mutated dump texts",
  "No test runs the command-line tools at all; escaping of arbitrary bytes and flag/geometry headers is unobserved.",
  ["mdbx_dump.c", "mdbx_load.c", M], [("writer", "mdbx_dump.c dump_tbl, dumpval, bytes escaping"), ("reader", "mdbx_load.c readhdr, readline, unescape"), ("append-mode loading", "mdbx_load.c main put loop")],
  ["mdbx_dump stdout", "mdbx_load exit code", "contents of the loaded database"])

p("C19", "Cached lookups equal plain lookups",
  "A lookup through a cache entry returns the same result and value as a plain lookup in the same transaction, whatever the entry was filled from earlier: older or newer snapshots, other readers, dirty writers, other threads sharing the entry, deleted, re-created or moved items, aborted changes. A claimed cache status is truthful with respect to the entry being left untouched or updated.",
  ["histories", "schedules"], "all histories of commits/aborts interleaved with cached lookups by readers of different ages sharing entries",
  WHY + "no test uses cached lookups.",
  [M], [("cache", "mdbx.c mdbx_cache_get, mdbx_cache_get_SingleThreaded and the cached tree descent")],
  ["mdbx_cache_get", "mdbx_cache_get_SingleThreaded", "mdbx_get"])

p("C20", "Table handles and named tables follow transactional life-cycle rules",
  "Creating, opening, renaming, clearing, dropping and closing named tables gives exactly the set of tables, flags and contents a transactional catalogue would: changes become visible on commit, vanish on abort, handles of dropped or aborted tables are refused, reopening with incompatible flags is refused, and names, flags and contents survive reopening. Enumerating tables lists each existing table once with its correct description.",
  ["histories", "configurations", "inputs"], "all histories of catalogue operations over several tables, names (including empty, binary, long) and flags, nested transactions and several concurrent transactions",
  WHY + "the tests open one or two tables once.",
  [M], [("handles", "mdbx.c dbi_open_locked, dbi_update, mdbx_dbi_close, dbi_import"), ("catalogue", "mdbx.c tbl_fetch, mdbx_drop, tree_drop, dbi_rename_locked, mdbx_enumerate_tables")],
  ["mdbx_dbi_open", "mdbx_dbi_rename", "mdbx_drop", "mdbx_dbi_close", "mdbx_enumerate_tables", "mdbx_dbi_flags_ex"])

p("C21", "Sequences and markers are exact, monotonic and transactional",
  "A table's persistent sequence returns the value before the requested increment, never loses or repeats numbers across committed transactions, refuses overflow without change, and is rolled back by abort; the database markers read back exactly as last written in the same or a committed transaction, with the version field equal to the transaction that changed them. Both survive reopening, copying, table modification and power-safe commits.",
  ["histories", "inputs"], "all histories of sequence and marker updates mixed with data changes, aborts, nesting, drops, copies and reopenings",
  "The C++ example bumps a sequence without checking atomicity, overflow, nesting, persistence or marker versions.",
  [M], [("sequence", "mdbx.c dbi_sequence / mdbx_dbi_sequence"), ("markers", "mdbx.c mdbx_canary_put, mdbx_canary_get")],
  ["mdbx_dbi_sequence", "mdbx_canary_put", "mdbx_canary_get", "mdbx_txn_id"])

p("C22", "Explicit defragmentation preserves data and validity",
  "Defragmenting a database of any content and fragmentation, with any limits, in the presence of readers or interrupted by its callback or limits, leaves every table's contents, sequences and markers unchanged, leaves the database valid with all pages accounted for, never increases the used size, and does not disturb concurrent readers' snapshots.",
  ["histories", "inputs", "configurations"], "all fragmented contents x defragmentation limits/targets/interruption points x concurrent readers",
  WHY + "no test defragments.",
  [M, "mdbx_defrag.c"], [("page moving", "mdbx.c defrag_cycle, defrag_fixup_page, defrag_fixup_ref"), ("reclaim", "mdbx.c defrag_clear_reclaimed")],
  ["mdbx_env_defrag", "contents", "mdbx_env_chk", "mdbx_env_info_ex"])

p("C23", "Tuning options and modes never change results",
  "Running the same history of operations under different environment modes, sync modes, page sizes, recycling policies, spill, merge, split, sub-page, reserve and write-through settings, with the database closed and reopened at any transaction boundary, gives the same return codes and the same logical contents. Every option reads back the value that was accepted, and out-of-range values are refused.",
  ["configurations", "histories", "inputs"], "pairs of configurations x histories valid in both",
  "Tests use a handful of fixed mode combinations and never compare results between them, nor set any tuning option.",
  [M], [("options", "mdbx.c mdbx_env_set_option, env_options_adjust_*"), ("mode-dependent paths", "mdbx.c page_touch/spill/dirty-list vs write-mapped branches")],
  ["all CRUD calls under two configurations", "mdbx_env_get_option", "mdbx_env_get_flags"])

p("C24", "Damaged or hostile database files are handled without harm",
  "Opening, reading, iterating, searching, copying and integrity-checking a file with arbitrary damage in its pages (and modifying one with damaged records of the list of free pages), with validation enabled, ends with results or error codes: it never crashes, hangs, reads outside the file or writes outside its own files. A file whose identifying header fields are wrong is refused with the documented error.",
  ["inputs", "fault_sequences"], "all byte-level mutations and structure-aware mutations of valid databases x operations performed on them",
  "No test opens a damaged file.",
  [M], [("page validation", "mdbx.c page_check, page_get_any, cursor_check, node validation"), ("header validation", "mdbx.c dxb_read_header, meta_validate"), ("checker", "mdbx.c env_chk")],
  ["mdbx_env_open(MDBX_VALIDATION)", "mdbx_env_chk", "mdbx_cursor_get"])

p("C25", "The integrity checker finds real damage and only real damage",
  "On every database produced by the library the integrity checker reports no problem and its reported totals match the contents; on a database with a structural inconsistency (page leaked, page used twice, wrong order of items, wrong item or page counters, page with wrong number, type or owner, broken reference, wrong free-page record, unusable root records) it reports at least one problem or refuses the database.",
  ["inputs", "fault_sequences", "histories"], "all valid databases; all single structural corruptions of a catalogue placed at every eligible page/item",
  "No test runs the checker.",
  [M, "mdbx_chk.c"], [("walk", "mdbx.c walk_pgno, walk_tbl, chk_pgvisitor"), ("free-page check", "mdbx.c chk_handle_gc"), ("order check", "mdbx.c chk_tree / chk_handle_kv")],
  ["mdbx_env_chk callbacks and result", "mdbx_chk exit code"])

p("C26", "Concurrent threads and processes give a serial history",
  "With any number of threads and processes reading and writing one database at once, write transactions take effect one at a time in the order of their numbers, no committed update is lost, transaction numbers are unique and increasing, every reader observes a state that some prefix of the committed transactions produced and never goes back in time, and no operation fails or blocks without a documented reason.",
  ["schedules", "histories", "configurations"], "all interleavings of several writers and readers in threads and processes, including open/close races and forks",
  "All tests are single-threaded, single-process.",
  [M], [("writer lock", "mdbx.c lck_txn_lock, lck_ipclock_lock"), ("reader slots", "mdbx.c mvcc_bind_slot"), ("open/close", "mdbx.c lck_seize, lck_downgrade, env_open, env_close"), ("fork", "mdbx.c mdbx_env_resurrect_after_fork")],
  ["mdbx_txn_begin/commit from threads and processes", "mdbx_txn_id", "contents"],
  hook="VERIF_SCHED_HOOK to force switches at publication points")

p("C27", "Parked and slow readers are ousted cleanly or keep their snapshot",
  "A parked read transaction, when resumed explicitly or automatically, either continues on exactly its original snapshot or is reported as ousted (or restarted on a recent snapshot if so requested); it never reads recycled data, and a running (unparked) reader is never ousted by a writer without the slow-reader callback's consent. When parked readers, or readers the callback disposes of, block reuse of space, the writer proceeds instead of failing for lack of space.",
  ["schedules", "histories", "configurations"], "all interleavings of park/unpark/read/renew/reset with committing writers under space pressure, all callback answers",
  "No test parks a transaction or installs a slow-reader callback.",
  [M], [("parking", "mdbx.c txn_ro_park, txn_ro_unpark"), ("kicking", "mdbx.c mvcc_kick_laggards"), ("callback", "mdbx.c mdbx_env_set_hsr")],
  ["mdbx_txn_park", "mdbx_txn_unpark", "mdbx_txn_flags", "MDBX_OUSTED", "contents"])

p("C28", "Number-to-key conversions preserve order and value",
  "Converting signed 32/64-bit integers, single and double precision floats and JSON integers to integer keys preserves numeric order and equality for all representable values, and converting back returns the original value, so that a table of integer keys iterates in numeric order.",
  ["inputs"], "all pairs of numbers including negative zero, denormals, infinities and extremes",
  "The C++ example converts only non-negative ordinals in ascending order.",
  [M, "mdbx.h"], [("conversions", "mdbx.c mdbx_key_from_double, mdbx_key_from_jsonInteger, mdbx_double_from_key ...")],
  ["mdbx_key_from_*", "mdbx_*_from_key", "mdbx_get_keycmp"])

p("C29", "C++ text encodings round-trip and slices compare consistently",
  "For every byte string, encoding to hexadecimal, Base58 and Base64 (with any line wrapping and case option) and decoding returns the same bytes, the produced length fits the announced bound, and malformed text is refused with an exception rather than misread; slice comparisons, searching, head/tail/middle operations and buffer editing agree with the same operations on byte strings.",
  ["inputs"], "all byte strings, wrap widths, malformed texts, slice/buffer operation sequences",
  "The example does not encode anything and compares a few short slices.",
  ["mdbx.h++", "mdbx.c++"], [("codecs", "mdbx.c++ to_hex/from_hex, to_base58/from_base58, to_base64/from_base64"), ("slices/buffers", "mdbx.h++ slice, buffer")],
  ["mdbx::slice", "mdbx::buffer", "mdbx::to_hex ..."])

p("C30", "The C++ interface has the same effect and outcome as the C interface",
  "Every operation of the C++ wrappers (maps, cursors, transactions, environment settings) has the same effect on the data and reports the same outcome (value, boolean, count or exception of the matching error) as the corresponding C call, for present and absent keys, multi-values and all buffer policies; returned buffers own correct copies when the data would otherwise become invalid.",
  ["inputs", "histories"], "all histories executed through the C++ wrappers and compared with the reference model",
  "The example covers inserts and a few gets only.",
  ["mdbx.h++", "mdbx.c++"], [("wrappers", "mdbx.h++ txn::put/insert/upsert/update/replace/erase, cursor moves"), ("error mapping", "mdbx.c++ error::throw_exception")],
  ["mdbx::txn", "mdbx::cursor", "mdbx::env", "exceptions"])

p("C31", "Data pointers stay valid for their documented lifetime",
  "In a write transaction, data returned from a page reported as not dirty keeps the same address and bytes until the transaction ends, however much is modified afterwards; data in a dirty page stays intact until the next modification; space reserved by an insert can be filled until the next modification and is then stored verbatim. Previous values retrieved by replacing calls equal what was stored before.",
  ["histories", "configurations"], "all histories of lookups and modifications with pointers retained across modifications",
  "No test keeps a pointer across a modification or checks dirtiness reports.",
  [M], [("dirtiness", "mdbx.c mdbx_is_dirty"), ("copy-on-write", "mdbx.c page_touch_unmodifable"), ("replace", "mdbx.c mdbx_replace_ex")],
  ["mdbx_is_dirty", "mdbx_get", "mdbx_put(MDBX_RESERVE)", "mdbx_replace"])

p("C32", "The on-disk format stays compatible",
  "Database files written by this version's reference build open in any later state of the code, in every compatible mode, with identical contents, flags, statistics, sequences and markers, can be modified and pass the integrity check; and files written now keep the documented layout constants (signature, version, page numbering, ordering of keys), so that an independent parser of the format reads the same items from them.",
  ["inputs", "configurations", "histories"], "all generated contents read by an independent parser; a set of stored reference files over page sizes and table kinds",
  "Tests create every file afresh with the same build.",
  [M, "mdbx-internals.h"], [("layout", "mdbx-internals.h meta_t, page_t, node_t, tree_t"), ("signature", "mdbx.c meta_validate, MDBX_DATA_MAGIC")],
  ["bytes of the data file", "mdbx_env_open", "contents"])

p("C33", "Reader and transaction information is truthful",
  "The reader list shows exactly the live readers with their process, snapshot number, lag and retained space; transaction information reports the true snapshot number, reader lag, space used, limits and dirty/retired amounts; checking for dead readers removes exactly the entries of dead processes; and exhausting reader slots gives the documented error until a slot is released.",
  ["histories", "schedules", "configurations"], "all histories of reader begin/reset/renew/park/end in several processes, with commits in between and processes dying",
  "No test lists readers.",
  [M], [("listing", "mdbx.c mdbx_reader_list, mdbx_txn_info"), ("slots", "mdbx.c mvcc_bind_slot, mvcc_cleanup_dead")],
  ["mdbx_reader_list", "mdbx_txn_info", "mdbx_reader_check", "MDBX_READERS_FULL"])

p("C34", "A refused call changes nothing",
  "Every call that fails with a documented usage or state error (bad key or value size, wrong flags, existing or missing key, mismatched append order, read-only or finished transaction, wrong thread, closed or foreign table handle, oversized name, bad geometry) returns that error, leaves all data, cursors of other callers and the transaction itself usable and unchanged, and never crashes.",
  ["inputs", "histories"], "all API calls with all combinations of valid and invalid arguments in all transaction states",
  "The tests make only valid calls.",
  [M, "mdbx.h"], [("argument checks", "mdbx.c check_txn, check_env, cursor_put_checklen, dbi_check, cursor_check")],
  ["return codes", "contents and statistics before and after"])

p("C35", "Opening modes exclude and admit each other as documented",
  "Opening the same database in exclusive, cooperative, read-only and accede modes from several processes is admitted or refused with the documented errors, read-only handles never modify the data file, geometry and page size of an existing database are honoured, and closing, reopening or deleting an environment (including just-close, ensure-unused and wait modes) affects exactly its own files and only when permitted.",
  ["configurations", "histories", "schedules"], "all combinations of open flags over two or three processes and sequences of open/close/delete",
  "Each test opens one database from one process.",
  [M], [("locking on open", "mdbx.c lck_seize, lck_upgrade, lck_downgrade, env_open"), ("deletion", "mdbx.c env_delete / mdbx_env_delete")],
  ["mdbx_env_open", "mdbx_env_close", "mdbx_env_delete", "files on disk"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
