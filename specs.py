"""What each check runs: worlds, fault configurations and sizes."""
# property -> list of (binary, world, mode, quick_runs, thorough_runs)
CHECKS = {
    "S01": dict(
        parts=[("sim", "file", "clean", 12000, 400000), ("sim", "file", "fault", 48000, 2400000)],
        real=["lib/utils.c: whole-file read and write"],
        stub=["kernel file interface (simulated disk and descriptor table)"],
        rule="one run = a random history of reads and writes over four files; non-trivial when it has more than one operation or a fault fired; distinct by event-log hash",
    ),
    "S04": dict(
        parts=[("sim", "report", "clean", 12000, 500000), ("sim", "report", "fault", 36000, 2000000)],
        real=["lib/report.c", "lib/*_stacktrace.c, *_thread.c, *_frame.c: JSON readers and writers", "lib/operating_system.c, lib/rpm.c: JSON readers and writers",
              "lib/json_utils.c", "lib/utils.c: file reading and writing", "json-c"],
        stub=["kernel file interface (simulated disk)", "the nodes between reporter and reader (store, forward, re-format, cut, damage)"],
        rule="one run = one report travelling over 1-4 hops; non-trivial when it is stored or forwarded more than once; distinct by event-log hash",
        note="Generated reports of every type travel through simulated nodes that store, crash, re-format, duplicate, cut and damage copies; every delivered copy "
             "is compared with a reference model and the text with an independent strict JSON parser. Sampled; trusts json-c's tokenizer for acceptance of JSON syntax.",
    ),
}
CHECKS["S06"] = dict(
    parts=[("sim", "parse", "clean", 16000, 700000), ("sim", "parse", "fault", 60000, 3000000)],
    real=["lib/gdb_*.c, lib/python_*.c, lib/koops_*.c, lib/java_*.c, lib/ruby_*.c, lib/js_*.c, lib/stacktrace.c: text parsers", "lib/location.c, lib/strbuf.c, lib/utils.c"],
    stub=["kernel file interface (simulated disk)", "the crashing system that writes the log (renders a modelled crash, dies while writing)"],
    rule="one run = one crash written down and read back up to 7 times, whole and torn; non-trivial when torn or re-read; distinct by event-log hash",
    note="A modelled crash of a drawn kind is written to a simulated log by a process that may die, run out of disk or lose blocks; the text read back is parsed "
         "and compared frame by frame with the model (complete frames before the tear must all be there, in order, at most one cut record). Sampled; the "
         "renderers' idea of each format is trusted and was checked against the repository's sample files.",
)
CHECKS["S05"] = dict(
    parts=[("sim", "damage", "clean", 10000, 400000), ("sim", "damage", "fault", 80000, 3500000)],
    real=["lib/*_stacktrace.c, lib/*_thread.c, lib/*_frame.c: text and JSON readers and everything a reader's object can be used for", "lib/report.c, lib/operating_system.c, lib/rpm.c, lib/unstrip.c, lib/abrt.c (dso_list), lib/normalize.c, lib/distance.c", "json-c"],
    stub=["the storage or network that damaged the bytes"],
    rule="one run = one artefact (rendered crash, repository sample, JSON, OS description, package list, unstrip listing) read up to 6 times with fresh damage and used in full; non-trivial when bytes were damaged; distinct by event-log hash",
    note="Byte-level tears, flips, zeroed, lost, duplicated and swapped blocks and inserted fragments on every kind of stored artefact; readers run under AddressSanitizer, an allocation ledger and a step budget, and returned objects go through "
         "every documented operation. Sampled; over-reads are only seen beyond the exact-size buffer.",
)
CHECKS["S01"]["note"] = ("Seeded random histories of reads and writes on a simulated disk with injected system-call failures, short transfers and concurrent "
    "changes, compared with a map model after every call. Sampled, not exhaustive; trusts the simulated file interface.")
CHECKS["S02"] = dict(
    parts=[("sim", "dir", "clean", 16000, 700000), ("sim", "dir", "fault", 80000, 3500000)],
    real=["lib/abrt.c: problem directories, package and OS items, printing", "lib/report.c, lib/operating_system.c, lib/rpm.c (merge, sort, NEVRA)", "lib/*_stacktrace.c readers", "lib/utils.c, json-c"],
    stub=["kernel file interface (simulated disk)", "standard output", "abrtd, which writes the directories (generator with missing, invalid and damaged items)"],
    rule="one run = up to 3 problem directories of drawn crash types and up to 5 conversions of them; non-trivial with more than one conversion or a fault; distinct by event-log hash",
    note="Each conversion is compared item by item with what the generator stored and with which files an injected system-call failure hit: an item may be absent only when it is optional and its own file was hit. Damaged stack traces are compared with "
         "what the reader returns for the same bytes outside the directory. Sampled.",
)
CHECKS["S07"] = dict(
    parts=[("sim", "hook", "clean", 20000, 800000), ("sim", "hook", "fault", 100000, 5000000)],
    real=["lib/core_unwind.c (resolve_frame), lib/core_unwind_elfutils.c (core hook: prepare, generate, frame callback, truncation)", "lib/core_*.c objects", "lib/utils.c (demangling, hex)"],
    stub=["kernel: crashing process, pipe to the handler, ptrace, waitpid", "libdwfl (modules, symbols, frames of the modelled process)"],
    rule="one run = up to 3 crashes, each handled by one handler process; non-trivial with more than one crash or a fault; distinct by event-log hash",
    note="A modelled process waits in the kernel for its handler; the simulated unwinder library presents its modules and frames, refuses calls out of protocol order and fails or stops part way on demand. Every result is compared frame by frame with the model. "
         "Sampled; the unwinder library itself is a model written from its header's contract.",
)
CHECKS["S08"] = dict(
    parts=[("sim", "core", "clean", 12000, 500000), ("sim", "core", "fault", 60000, 3000000)],
    real=["lib/core_unwind.c, lib/core_unwind_elfutils.c: core dumps and listings", "lib/core_stacktrace.c (attaching listings), lib/unstrip.c, lib/gdb_*.c", "libelf on generated core images"],
    stub=["kernel file interface (simulated disk, images handed over as memory files)", "libdwfl (modules, symbols, threads and frames of the modelled dump)"],
    rule="one run = up to 3 core dumps and up to 5 operations on them (unwind, attach listing); non-trivial with several dumps or operations, or a fault; distinct by event-log hash",
    note="Generated core images (notes, decoy notes, several segments, torn and damaged ones) are read by real libelf; the simulated unwinder presents modelled threads and fails or stops part way on demand; results are compared with the model, with what was actually "
         "delivered before a cut. Sampled; the unwinder library itself is a model written from its header's contract.",
)
CHECKS["S03"] = dict(
    parts=[("sim", "store", "clean", 8000, 300000), ("sim", "store", "fault", 60000, 2500000)],
    real=["lib/abrt.c: creation and conversion", "lib/core_unwind*.c, lib/core_stacktrace.c, lib/core_thread.c, lib/core_frame.c: unwinding, JSON writer and reader", "lib/utils.c, lib/report.c, json-c, libelf on generated core images"],
    stub=["kernel file interface (simulated disk, process death with any prefix of a write on disk)", "libdwfl (modelled dump)"],
    rule="one run = a history of up to 7 creations (from the dump or a listing), deaths, replaced dumps, retries and conversions of one problem directory; every run is non-trivial; distinct by event-log hash",
    note="The creating process fails or dies at any system call, with any prefix of the data written; later processes convert the directory and retry. The content read back must be the acknowledged, or (after a torn creation) a complete old or new stack trace. "
         "Process death only: data written before it survives. Sampled.",
)
CHECKS["S10"] = dict(
    parts=[("sim", "dist", "clean", 12000, 600000), ("sim", "dist", "fault", 60000, 4000000)],
    real=["lib/distance.c: splitting, computing, merging, single computation, all four distances", "lib/normalize.c (pairing of unknown functions)", "lib/*_thread.c, lib/*_frame.c behind the generic thread interface"],
    stub=["network between coordinator, workers and collector", "the nodes (job assignment, retransmission, spool of results)"],
    rule="one run = one distributed computation on 1-4 simulated workers, with changes of the input set, re-splits and premature merges; every run is non-trivial; distinct by event-log hash",
    note="Parts travel over a simulated network that loses, doubles, delays and reorders them while workers and the coordinator die and the set of crashes changes; each merge of any collected set of parts is compared bit for bit with one computation in one place, or must be refused when the set is "
         "incomplete or mixed. Completion is required within a simulated minute after the last fault. Sampled; the single computation is the reference, the values of the distances themselves are not judged.",
)
CHECKS["S11"] = dict(
    parts=[("sim", "cluster", "clean", 6000, 250000), ("sim", "cluster", "fault", 18000, 1200000)],
    real=["lib/cluster.c", "lib/distance.c: matrices, parts and merging"],
    stub=["network and nodes gathering the distances"],
    rule="one run = up to 3 sets of distances, each gathered and clustered by 2-3 nodes that crash and recompute; every run is non-trivial; distinct by event-log hash",
    note="Every dendrogram is replayed merge by merge against an average-linkage model (ties explored by backtracking), every cut compared with the merges below its level, and all nodes and recomputations must agree bit for bit. Sampled; sets with more than 40 objects or too many ties are checked for everything but linkage.",
)
CHECKS["S09"] = dict(
    parts=[("sim", "rpm", "clean", 60000, 2500000), ("sim", "rpm", "fault", 240000, 16000000)],
    real=["lib/rpm.c: lookups, comparison, sorting, merging", "librpm headers and tag data"],
    stub=["rpm configuration, transaction set, database and its iterators (simulated package database)"],
    rule="one run = up to 6 lookups, list histories and database changes; non-trivial with more than one or a fault; distinct by event-log hash",
    note="A simulated package database hands out real librpm headers, owned by the iterator and freed as the library's contract allows; opening and iterating fail, end early, or lose tags on demand. Lookups are compared with the database, lists with a multiset model. "
         "A failure to open the database and an empty match are indistinguishable through librpm's interface, so both may give an empty result. Sampled.",
)
CHECKS["S13"] = dict(
    parts=[("sim", "own", "clean", 24000, 1200000), ("sim", "own", "fault", 80000, 5000000)],
    real=["lib/thread.c, lib/frame.c, lib/stacktrace.c, lib/generic_*.c: generic operations", "lib/*_stacktrace.c, lib/*_thread.c, lib/*_frame.c, lib/gdb_sharedlib.c: copying, cutting, appending, limiting, searching, freeing",
          "lib/normalize.c, lib/distance.c (copies)"],
    stub=["the owners (simulated tasks that hold, pass on and drop crash data, preempted between operations, dying and releasing everything they hold)"],
    rule="one run = 1-4 owners interleaved over up to some 40 operations on copies of the same crash data; non-trivial with more than one owner or a fault; distinct by event-log hash",
    note="Every object an owner holds has a plain-value model; after every step all held objects of all owners are compared with their models, so an effect on somebody else's copy is seen at once; AddressSanitizer and an allocation ledger decide double releases, "
         "references into other objects and leaks. Sampled.",
)
CHECKS["S14"] = dict(
    parts=[("sim", "fleet", "clean", 12000, 600000), ("sim", "fleet", "fault", 60000, 4000000)],
    real=["lib/thread.c (duplicate hash), lib/stacktrace.c (exact-backtrace hash), lib/*_frame.c, lib/*_thread.c, lib/*_stacktrace.c: hash texts, crash thread search", "lib/normalize.c", "lib/sha1.c, lib/utils.c", "JSON and text writers and readers on the way to the collector"],
    stub=["hosts, the network to the collector, the collector's buckets"],
    rule="one run = a fleet of up to 4 hosts meeting up to 4 crashes and reporting them over a lossy network; every run is non-trivial; distinct by event-log hash",
    note="Hosts see a crash with their own load addresses, process and thread ids, thread order, users and install paths; reports are lost, doubled, delayed, reordered and stored; the collector's buckets must be exactly the crashes. Sampled; what the hash may depend on follows the documentation "
         "of each flag; where it is silent only determinism and independence of the host are required.",
)
CHECKS["S15"] = dict(
    parts=[("sim", "cli", "clean", 16000, 800000), ("sim", "cli", "fault", 80000, 5000000)],
    real=["satyr.c: every command and its exit path", "lib/abrt.c, lib/report.c, lib/core_unwind*.c, lib/*_stacktrace.c, lib/normalize.c, lib/utils.c behind the commands"],
    stub=["kernel file interface (simulated disk)", "standard output and error", "process exit", "clock", "libdwfl, ptrace, waitpid (modelled process and dump)"],
    rule="one run = up to 5 invocations of the command, each its own simulated process; non-trivial with more than one invocation or a fault; distinct by event-log hash",
    note="Each invocation's exit status, output, error stream and effect on the disk are compared with a reference: what the generator stored, what the modelled process looks like, what the library returns for the same input; output writes fail or are cut, files cannot be read. Sampled.",
)
CHECKS["S12"] = dict(
    parts=[("simthr", "threads", "clean", 4000, 200000), ("simthr", "threads", "fault", 30000, 2500000)],
    real=["lib/*_stacktrace.c, lib/*_thread.c, lib/*_frame.c, lib/generic_*.c, lib/json.c and the parsers, lib/report.c, lib/normalize.c, lib/distance.c, lib/cluster.c, lib/rpm.c, lib/abrt.c, lib/unstrip.c, lib/utils.c", "real POSIX threads"],
    stub=["the kernel's thread scheduler: one thread runs at a time and the seed decides at basic blocks and at accesses to shared memory who goes on"],
    rule="one run = 2-4 threads with 1-3 calls each; every run is non-trivial; distinct by event-log hash, which includes every switch",
    note="A switch happens at a drawn basic block, at a drawn store to a global or to memory that more than one thread can reach, or at a drawn load of a word so written; every call must return what it returned alone, what the threads share must be unchanged, nothing may be left allocated. Sampled; a thread holding a lock is not interrupted; weak-memory effects are not modelled.",
)
CHECKS["S16"] = dict(
    parts=[("sim", "elf", "clean", 60000, 3000000), ("sim", "elf", "fault", 500000, 30000000)],
    real=["lib/elves.c: linkage tables, frame entries, lookups, JSON", "libelf and libdw (dwarf_next_cfi) on generated ELF images"],
    stub=["kernel file interface, including the reads below libelf (errors, interruptions, short reads, files cut while read)", "failing libelf calls"],
    rule="one run = up to 6 reads, lookups, replacements and damages of up to two ELF files; non-trivial with more than one; distinct by event-log hash",
    note="Images of both classes with several layouts, encodings and entry kinds; every result is compared with the tables the image was built from, or, for damaged bodies, with an independent decoding of the damaged bytes; results stay valid and searchable after the file changed. "
         "32-bit RELA tables are synthetic; big-endian images are not generated. Sampled.",
)
CHECKS["S17"] = dict(
    parts=[("simpy", "python", "clean", 20000, 2000000), ("simpy", "python", "fault", 80000, 10000000)],
    real=["python/*.c: every wrapped type, attribute, method and function", "the parts of lib/ behind them", "the CPython interpreter and its allocator"],
    stub=["the application (a generated history of operations on the objects)", "the moments of garbage collection", "failing interpreter allocations inside a call of the module", "arguments whose conversion runs code on the object being used"],
    rule="one run = a history of up to some 40 operations on up to 6 held objects and what they share; non-trivial with more than three operations; distinct by event-log hash",
    note="A plain-value model follows every attribute, list and member; after every step all held objects are compared with it, every result with the same call on freshly built objects that share nothing, and every reference count with what it was; AddressSanitizer, the "
         "allocation ledger and Python's own allocator (every object must be gone at the end of a run) watch memory. Sampled; reference cycles made by the caller are not generated, one interpreter thread, no subinterpreters.",
)
NOT_APPLICABLE = {
    "N01": "A pure function of two threads: no concurrency, time, I/O, crash or multi-party behaviour for a simulator to vary.",
    "N02": "A pure function of one thread: no concurrency, time, I/O, crash or multi-party behaviour for a simulator to vary.",
    "N03": "A pure function of two version strings: no concurrency, time, I/O, crash or multi-party behaviour for a simulator to vary.",
}
