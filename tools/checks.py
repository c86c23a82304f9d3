# How each property's harness is built, and how it is described in MANIFEST.json.
EX = "exploration"
CHECKS = {
    "C01": dict(variant0="opt", variant1="asan", level=EX,
                technique="stateful model-based PBT against a sorted-map model, plain and AddressSanitizer builds",
                note="Random histories over generated configurations; sampling, not exhaustive. Trusts the reference model and the library's own cursor scan for reading back (cross-checked by point lookups and the integrity checker)."),
}
CHECKS["C02"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful model-based PBT against a sorted-multimap model, plain and AddressSanitizer builds",
    note="Random histories over generated configurations; sampling, not exhaustive. Unspecified corners (APPENDDUP of the only existing value) are accepted either way.")
CHECKS["C03"] = dict(variant0="opt", variant1="asan", level=EX, extra=["cur.cc"],
    technique="stateful model-based PBT: every cursor call compared with an index into the sorted contents",
    note="Random contents and call sequences; sampling, not exhaustive. Position after some failed calls is unspecified: there the next relative call only has to return an existing pair.")
CHECKS["C04"] = dict(variant0="opt", variant1="asan", level=EX, extra=["cur.cc"],
    technique="stateful model-based PBT: cursor positions carried over modifications by a sorted-contents oracle",
    note="Random histories; sampling, not exhaustive. A cursor whose item was deleted may yield any item inserted into the gap since; positions after failed calls are unspecified.")
CHECKS["C07"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful model-based PBT: a stack of model snapshots mirrors nested transactions, checkpoints, rollbacks, amend",
    note="Random histories of boundaries and data operations to depth 6; sampling, not exhaustive.")
CHECKS["C05"] = dict(variant0="opt", variant1="asan", level=EX, extra=["cur.cc"],
    technique="stateful model-based PBT: range and bunch deletions compared with the sorted model, with bystander cursors",
    note="Random contents and positions; sampling, not exhaustive.")
CHECKS["C06"] = dict(variant0="opt", variant1="asan", level=EX, extra=["cur.cc"],
    technique="stateful model-based PBT: distances, scrolls and distributions compared with index arithmetic over the sorted contents",
    note="Random contents and positions; sampling, not exhaustive. Estimates are only checked where the documentation makes them exact or bounded.")
CHECKS["C13"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc"],
    technique="stateful PBT: after each commit of a random history an independent file parser checks structure, page accounting and contents",
    note="Random histories; sampling, not exhaustive. The parser is this framework's own reading of the format.")
CHECKS["C14"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc"],
    technique="stateful PBT: reported statistics compared with a model (dirty transactions) and an independent file parser (snapshots)",
    note="Random histories; sampling, not exhaustive. Page counts inside an uncommitted transaction are compared just before its commit.")
CHECKS["C21"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful model-based PBT of sequences and markers; several processes sharing one sequence checked as a serial history",
    note="Random histories; sampling, not exhaustive. Scheduling of the processes is left to the system.")
CHECKS["C20"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc"],
    technique="stateful model-based PBT: a transactional catalogue of names, flags, contents and handle states mirrors every call",
    note="Random histories; sampling, not exhaustive. Handles whose state is not documented (opened or renamed in an aborted transaction, table changed by another process) may be refused, or must work correctly.")
CHECKS["C28"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="PBT of conversions: round trip, order preservation of generated neighbouring numbers against exact numeric comparison, iteration of an integer-key table",
    note="Random numbers biased to powers of two, precision limits and adjacent values; sampling, not exhaustive. NaN is out of scope; -0.0 sorts just before +0.0.")
CHECKS["C15"] = dict(variant0="opt", variant1="asan", level=EX, wrap=["mmap64", "mremap", "munmap", "madvise"],
    technique="stateful PBT: histories with fills up to the limit and geometry changes; geometry, file size and contents are compared with a model, also by a second process",
    note="Random histories; sampling, not exhaustive. The legitimacy of a full file is judged with a slack of 66 pages.")
CHECKS["C31"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful PBT: sampled data pointers are compared with their first contents throughout their documented lifetime (invariant over the history), reserved space with a model",
    note="Random histories; sampling, not exhaustive. Zero-length items are not sampled.")
CHECKS["C34"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful PBT: generated misuse within random histories; the returned error, cursors of others, the transaction and the contents are compared with a model",
    note="Random histories; sampling, not exhaustive. Where the documentation names several errors any of them is accepted.")
CHECKS["C16"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="PBT over long bounded workloads: after every commit the used pages are compared with the peak of live, pinned and concurrently changed pages (invariant over the history)",
    note="The bound is 1.3 times the peak of live + pinned + dirty pages plus three times the largest value: growth that stays below it is not seen.")
CHECKS["C23"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="metamorphic/differential PBT: one generated history is executed in lockstep by 2-3 environments of different modes and options, all results must be equal",
    note="Random histories and configurations; sampling, not exhaustive. Statistics of pages legitimately differ and are not compared. After MDBX_TXN_FULL of an environment with a small limit all transactions are aborted.")

IOW = ["pwrite64", "pwritev64", "fdatasync", "fsync", "msync", "ftruncate64", "posix_fallocate64", "mmap64", "mremap", "munmap", "fstatfs64"]
CHECKS["C09"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc", "io.cc"], wrap=IOW,
    technique="stateful PBT with fault injection: simulated power failures at intercepted system calls, subsets of unflushed blocks, recovery compared with the model",
    note="Random histories, moments and subsets of blocks (512 or 4096 bytes are atomic); sampling, not exhaustive. Assumes that fsync/fdatasync/msync/O_DSYNC make the covered data durable.")
CHECKS["C10"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc", "io.cc"], wrap=IOW,
    technique="stateful PBT with fault injection: simulated power failures in the relaxed modes, recovery compared with the committed states since the last confirmed sync",
    note="Random histories, moments and subsets of blocks; sampling, not exhaustive. In the utterly-no-sync mode only moments between a forced sync and the next write transaction are checked.")
CHECKS["C22"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc"], tools=["defrag"],
    technique="stateful PBT: random histories with generated explicit defragmentations (limits, interruptions, readers in the callback) against a model, an independent file parser and the checker",
    note="Random histories; sampling, not exhaustive.")
CHECKS["C17"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc", "io.cc"], tools=["copy"],
    cflags=["-DMDBX_ENVCOPY_WRITEBUF=65536u"], wrap=["pwrite64", "write", "copy_file_range", "sendfile64", "ftruncate64", "fdatasync", "fsync", "fstatfs64"],
    technique="stateful PBT with interposed system calls: generated copies with commits at generated writes of the copying, injected write failures; copies are compared with the model by an independent parser, opened, checked and modified",
    note="Random histories; sampling, not exhaustive. Interleavings of commits with the copying are at the granularity of its system calls.")
FAULTW = ["pwrite64", "pwritev64", "write", "writev", "pread64", "fdatasync", "fsync", "msync", "ftruncate64", "posix_fallocate64", "mmap64", "mremap", "madvise", "open64", "close", "fcntl64",
          "malloc", "calloc", "realloc", "aligned_alloc", "copy_file_range", "fstatfs64"]
CHECKS["C12"] = dict(variant0="opt", variant1="asan", level=EX, extra=["parse.cc", "io.cc"], wrap=FAULTW,
    technique="stateful PBT with fault injection: generated system calls and allocations of generated histories fail or are short; results, the file (independent parser) and the further work are compared with the model",
    note="Random histories and fault positions; sampling, not exhaustive. Contents are compared through the page cache; the loss of unflushed data is the subject of C09 and C10.")

SCHEDW = ["pthread_mutex_lock", "fcntl64", "flock", "usleep", "sched_yield"]
CHECKS["C08"] = dict(variant0="sched", variant1="schedasan", level=EX, extra=["sched.cc", "mp.cc"], wrap=SCHEDW,
    technique="PBT over generated schedules: processes and threads run one at a time, preempted at generated memory accesses of the library; every snapshot is compared with the model of the committed prefix it must be",
    note="Random workloads and schedules (sequentially consistent interleavings); sampling, not exhaustive.")

CHECKS["C26"] = dict(variant0="sched", variant1="schedasan", level=EX, extra=["sched.cc", "mp.cc"], wrap=SCHEDW,
    technique="PBT over generated schedules: writers, readers, openers, closers and forks in several processes and threads, preempted at generated memory accesses; the history of markers must be one chain ordered by transaction numbers",
    note="Random workloads and schedules (sequentially consistent interleavings); sampling, not exhaustive.")

CHECKS["C11"] = dict(variant0="sched", variant1="schedasan", level=EX, extra=["sched.cc", "mp.cc"], wrap=SCHEDW,
    technique="PBT over generated schedules with process deaths: SIGKILL at generated memory accesses of the library; the survivors and later processes must continue the history of markers, recover locks and slots and reuse the space",
    note="Random workloads, schedules and points of death; sampling, not exhaustive.")
CHECKS["C25"] = dict(variant0="opt", variant1="asan0", level=EX, extra=["parse.cc"], tools=["chk"],
    technique="stateful PBT with a catalogue of structural damages placed at random in generated databases; an independent parser confirms the damage (or its absence), the checker must agree",
    note="Random databases and places; sampling, not exhaustive. One damage at a time.")
CHECKS["C24"] = dict(variant0="opt", variant1="asan0", level=EX, extra=["parse.cc"],
    technique="structure-aware mutation fuzzing of generated databases; generated reading, searching, checking, copying and modification of the damaged file must end with results or error codes (signals, hangs, address sanitizer with poisoned unused pages)",
    note="Random databases, damages and operations; sampling, not exhaustive.")
CHECKS["C19"] = dict(variant0="opt", variant1="asan", level=EX,
    technique="stateful PBT: differential comparison of mdbx_cache_get with mdbx_get in the same transaction over generated histories with old readers, dirty writers, aborts and re-created tables; the claimed status against the change of the entry",
    note="Random histories; sampling, not exhaustive. Races of threads on one entry are only imitated by entries left in the state of an update.")
