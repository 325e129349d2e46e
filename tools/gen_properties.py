#!/usr/bin/env python3
"""Writes properties.jsonl (kept as source so that edits stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(d)

p("S01", "Whole-file reading and writing is all-or-error",
  "Reading a file into a string yields either every byte the file held, followed by a terminator, or a failure with a message; it never returns partial, stale or invented content (while another process is changing the file, only bytes the file held at their place are promised), and it refuses files above the documented 20 MB limit. Writing a string to a file reports success only when the operating system accepted every byte and closed the file without error, and the file then holds exactly that string whatever it held before. Whatever fails, no descriptor or memory stays behind, no other file is touched, and the next call works.",
  ["fault_sequences", "histories", "inputs"],
  "every content up to and around the size limit, every history of reads and writes over several files, and every sequence of open/seek/read/write/close results the OS may return (errors, EINTR, short counts, full disk, file replaced, growing or shrinking between the calls)",
  "The tests read a few small intact files; no test makes a system call fail or shortens a transfer.",
  ["lib/utils.c", "include/utils.h"],
  [("sr_file_to_string", "lib/utils.c"), ("sr_string_to_file", "lib/utils.c"), ("FILE_SIZE_LIMIT", "lib/utils.c")],
  ["return values and error messages of the two functions", "bytes in the simulated disk", "table of open simulated descriptors"])

p("S02", "A problem directory becomes exactly its report, or an error",
  "Turning a problem directory into a report yields the report its files describe: type, operating system, component, packages, occurrence count and stack trace all equal what is stored there, for every supported crash type. When files are missing, damaged or unreadable the result is a failure with a message, or - for the optional items only - the same report without that item; never a report with wrong, mixed-up or stale data. The outcome depends only on the directory and on what the system calls of this conversion return, not on earlier conversions, and nothing is written, leaked or left open.",
  ["fault_sequences", "histories", "configurations", "inputs"],
  "every problem directory of the supported types (packaged or not, with and without optional items), every sequence of conversions in one process, and every placement of missing files and failing, interrupted or short reads",
  "The tests convert one or two fixed directories on a healthy file system, each in a fresh process.",
  ["lib/abrt.c", "lib/report.c", "lib/operating_system.c", "lib/rpm.c", "lib/utils.c"],
  [("sr_abrt_report_from_dir", "lib/abrt.c"), ("sr_abrt_operating_system_from_dir", "lib/abrt.c"), ("sr_abrt_rpm_packages_from_dir", "lib/abrt.c"), ("sr_abrt_parse_dso_list", "lib/abrt.c"), ("sr_operating_system_parse_etc_os_release", "lib/operating_system.c"), ("sr_report_to_json", "lib/report.c")],
  ["the report structure and its JSON", "error message", "simulated disk and descriptor table"])

p("S03", "Stored core_backtrace: acknowledged means complete, torn means error",
  "When creating the core backtrace of a problem directory reports success, the stored file holds the complete stack trace of the crash - every thread, every frame the unwinder delivered, the signal and the executable - and a later conversion of the directory reproduces it. When the creation fails, or the process dies at any point while creating it, a later conversion either fails with a message or yields the old or the new complete stack trace, never a partial or mixed one. Repeating the creation after the fault succeeds, and no other file in the directory changes.",
  ["crash_points", "fault_sequences", "histories"],
  "every crash point between and inside the system calls of the creation (any prefix of a write may reach the file), every failing or short system call, every failing step of the core-dump reader, followed by restart, reading and retry",
  "No test creates a core backtrace into a directory under failure; a crash at an arbitrary point cannot be staged in a unit test.",
  ["lib/abrt.c", "lib/core_unwind.c", "lib/core_unwind_elfutils.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/utils.c"],
  [("create_core_stacktrace", "lib/abrt.c"), ("sr_string_to_file", "lib/utils.c"), ("sr_core_stacktrace_to_json", "lib/core_stacktrace.c"), ("sr_core_stacktrace_from_json_text", "lib/core_stacktrace.c")],
  ["bytes of the simulated directory after each crash and restart", "result of the next conversion"])

p("S04", "A report survives storing, sending and reloading unchanged",
  "A crash report written as JSON and read back - any number of times, by any mix of nodes that store, forward or re-format it without changing its JSON meaning - carries the same reporter, operating system, packages with roles, problem details, stack trace and authentication entries, with numbers and strings identical. The text is always well-formed JSON whose strings are the original ones. A copy that was cut short, or in which a required value has a wrong type, is refused with a message instead of giving a partial report.",
  ["histories", "fault_sequences", "inputs"],
  "every report of the core, Python, kernel oops, Java, Ruby and JavaScript kinds with arbitrary strings and full-range numbers, every chain of store/forward/reload hops, every cut, corruption, re-ordering or duplication in transit",
  "The tests round-trip a handful of fixed reports once, with small numbers and plain strings, and never damage the stored copy.",
  ["lib/report.c", "lib/json_utils.c", "lib/operating_system.c", "lib/rpm.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/core_frame.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("sr_report_to_json", "lib/report.c"), ("sr_report_from_json", "lib/report.c"), ("sr_json_append_escaped", "lib/utils.c"), ("sr_stacktrace_to_json", "lib/generic_stacktrace.c"), ("sr_stacktrace_from_json", "lib/generic_stacktrace.c"), ("JSON_READ_*", "lib/json_utils.h")],
  ["field-by-field comparison with the reference model after each hop", "an independent JSON reader"])

p("S05", "Torn or corrupted crash data never breaks the reader",
  "Whatever bytes a stored backtrace, report, package list, OS description or unstrip listing has turned into - cut off at any byte, blocks lost, zeroed, duplicated, swapped or flipped - every reader returns within a bounded number of steps with either an object or a failure, touching no memory outside its input and its own objects. An object it returns can be used in full: searched, normalized, fingerprinted, summarised, serialised, copied and freed. A failure from a reader that reports messages comes with a message, and neither outcome leaks memory or alters the input text.",
  ["inputs", "crash_points", "fault_sequences"],
  "every reader, every artefact the simulated crashes produce, and every tear and corruption of it at byte and block granularity, including combinations",
  "The tests parse intact samples; where a tear may fall and what a flipped byte turns into cannot be enumerated by examples.",
  ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/report.c", "lib/unstrip.c", "lib/operating_system.c", "lib/abrt.c", "lib/utils.c", "lib/location.c"],
  [("sr_*_stacktrace_parse", "lib/*_stacktrace.c"), ("sr_*_from_json", "lib/*_stacktrace.c"), ("sr_skip_*, sr_parse_*", "lib/utils.c"), ("sr_unstrip_parse", "lib/unstrip.c"), ("sr_abrt_parse_dso_list", "lib/abrt.c")],
  ["address sanitizer on exact-size buffers", "edge-count step budget", "allocation ledger"])

p("S06", "Parsed frames are the frames in the text, also before a tear",
  "Parsing an intact backtrace of a supported kind yields exactly the threads and frames the text shows, in order, each with the function, file, line, address, module and flags written there, plus the exception, reason, taint and module information of that kind. When the text was cut off, every frame that lies completely before the cut is either reported unchanged and in order or the whole parse is refused: no frame is invented, altered, reordered or taken from elsewhere, except that the single record hit by the cut may be incomplete. What surrounds the backtrace in a log (timestamps, noise lines, foreign line endings where the format allows them) does not change the result.",
  ["crash_points", "inputs", "fault_sequences"],
  "every backtrace the simulated crashed programs emit (gdb, Python, kernel oops, Java, Ruby, JavaScript on each engine) and every point at which the writer died or the transport lost the tail",
  "The tests compare a few recorded backtraces; they never cut them, and they do not vary the syntax systematically.",
  ["lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/gdb_frame.c", "lib/gdb_sharedlib.c", "lib/python_stacktrace.c", "lib/python_frame.c", "lib/koops_stacktrace.c", "lib/koops_frame.c", "lib/java_stacktrace.c", "lib/java_thread.c", "lib/java_frame.c", "lib/ruby_stacktrace.c", "lib/ruby_frame.c", "lib/js_stacktrace.c", "lib/js_frame.c", "lib/js_platform.c"],
  [("sr_gdb_stacktrace_parse", "lib/gdb_stacktrace.c"), ("sr_python_stacktrace_parse", "lib/python_stacktrace.c"), ("sr_koops_stacktrace_parse", "lib/koops_stacktrace.c"), ("sr_java_stacktrace_parse", "lib/java_stacktrace.c"), ("sr_ruby_stacktrace_parse", "lib/ruby_stacktrace.c"), ("sr_js_stacktrace_parse", "lib/js_stacktrace.c")],
  ["parsed structures against the crash model they were rendered from"])

p("S07", "Unwinding a crashing process: the true stack or a clean error",
  "Unwinding the crashing thread from the core hook yields a stack trace holding that thread's frames as the kernel and the unwinder present them - in order, with correct addresses, build ids, module offsets, file and function names, at most 256 of them - together with the signal and the executable, or fails with a message. No failing, interrupted or partial step (attach, stop, module lookup, symbol lookup, frame step) yields a stack trace with wrong, duplicated, missing inner or foreign frames presented as success. In every outcome the traced thread is detached or left to its owner, and no memory, descriptor or unwinder session is left behind.",
  ["fault_sequences", "schedules", "configurations", "inputs"],
  "every simulated process (threads, modules, stacks of any depth), every interleaving of signal stops with the wait, and every failing call of the tracing and unwinding interfaces",
  "The tests unwind one helper program in a healthy environment; no test can make the kernel or the unwinder fail at a chosen step.",
  ["lib/core_unwind_elfutils.c", "lib/core_unwind.c", "lib/abrt.c"],
  [("sr_core_stacktrace_from_core_hook_prepare", "lib/core_unwind_elfutils.c"), ("sr_core_stacktrace_from_core_hook_generate", "lib/core_unwind_elfutils.c"), ("unwind_thread", "lib/core_unwind_elfutils.c"), ("frame_callback", "lib/core_unwind_elfutils.c"), ("resolve_frame", "lib/core_unwind.c"), ("CORE_STACKTRACE_FRAME_LIMIT", "lib/core_unwind_elfutils.c")],
  ["returned stack trace", "state of the simulated process, unwinder sessions and descriptors"])

p("S08", "Unwinding a core dump: every thread's true stack or a clean error",
  "Unwinding a core dump yields a stack trace with every thread of the dump, each holding its frames in order (at most 256) with the addresses, build ids, module offsets, file and function names the dump and the executable describe, the signal that killed the process and the thread that received it, or fails with a message; attaching a debugger's listing instead keeps exactly the listed frames. A failing read or unwinder step never yields a stack trace with foreign, duplicated or mixed-up frames presented as success, and results do not depend on dumps processed before. In every outcome all files, memory and unwinder sessions are released.",
  ["fault_sequences", "histories", "configurations", "inputs"],
  "every simulated dump (threads, modules, signals), every failing open, ELF read and unwinder call, and every history of dumps processed in one process",
  "The tests unwind one freshly produced dump in a healthy environment.",
  ["lib/core_unwind.c", "lib/core_unwind_elfutils.c", "lib/core_stacktrace.c"],
  [("sr_parse_coredump", "lib/core_unwind_elfutils.c"), ("sr_core_stacktrace_from_gdb", "lib/core_unwind.c"), ("open_coredump", "lib/core_unwind.c"), ("get_signal_number", "lib/core_unwind.c")],
  ["returned stack trace", "descriptor and session tables", "allocation ledger"])

p("S09", "Package lookups tell the truth or fail, whatever the package database does",
  "Asking which package owns a file, or for a package's dependencies' details, yields the name, epoch, version, release, architecture and install time recorded in the package database, or a failure with a message. A failing or empty database, a missing tag, or an iteration that ends early never yields another package's data, data mixed from two packages or uninitialised fields. Merging, sorting and de-duplicating package lists keeps every distinct package exactly once, with the affected role preserved, and all database handles and memory are released in every outcome.",
  ["fault_sequences", "histories", "inputs"],
  "every simulated package database, every failing step of opening, querying and iterating it, and every history of list operations",
  "The tests look up packages on the build machine's own database, when it has one, and never make it fail.",
  ["lib/rpm.c", "include/rpm.h"],
  [("sr_rpm_package_get_by_name", "lib/rpm.c"), ("sr_rpm_package_get_by_path", "lib/rpm.c"), ("header_to_rpm_info", "lib/rpm.c"), ("sr_rpm_package_sort", "lib/rpm.c"), ("sr_rpm_package_uniq", "lib/rpm.c"), ("sr_rpm_package_append", "lib/rpm.c")],
  ["returned package lists", "rpm transaction and iterator handles", "allocation ledger"])

p("S10", "Distances computed in parts equal the distances computed at once",
  "Splitting a pairwise distance computation into any number of parts, computing the parts on any workers in any order - with parts duplicated, retried or recomputed after a worker died - and merging them gives bit for bit the matrix that a single computation gives. A set of parts that is incomplete, of different matrices or distance kinds, or computed from different inputs (as told apart by the number and lengths of the threads), and a part that reaches outside of the matrix, is refused rather than merged into a matrix with undefined entries. Every pair is computed by exactly one part, whatever the number of threads, compared rows and parts.",
  ["schedules", "fault_sequences", "configurations", "histories"],
  "every number of threads, rows and parts, every distance kind, every assignment and order of parts on simulated workers, every loss, duplication, crash and mix-up of parts",
  "The tests merge one fixed split computed in order.",
  ["lib/distance.c", "lib/cluster.c", "include/distance.h"],
  [("sr_distances_part_create", "lib/distance.c"), ("sr_distances_part_compute", "lib/distance.c"), ("sr_distances_part_merge", "lib/distance.c"), ("sr_threads_compare", "lib/distance.c")],
  ["merged matrix against the directly computed one and against the reference model"])

p("S11", "Clustering is the same wherever it runs and accounts for every crash",
  "Building the dendrogram of a set of crashes from gathered distances and cutting it at any level puts each crash into at most one cluster, never loses or duplicates a member across cuts, and yields clusters in which raising the level only merges clusters. Merge levels never decrease, and every node that gathers the same distances - in whatever order its parts arrived, however often it recomputed after a fault - obtains the identical dendrogram and cut, which is an average-linkage clustering of those distances. The gathered distances are not modified.",
  ["schedules", "fault_sequences", "histories", "inputs"],
  "every crash set, every schedule of workers and collectors producing the distances, every cut level and minimum size, every history of clusterings in one process",
  "The tests cluster one small fixed matrix.",
  ["lib/cluster.c", "lib/cluster.h", "lib/distance.c"],
  [("sr_distances_cluster_objects", "lib/cluster.c"), ("sr_dendrogram_cut", "lib/cluster.c"), ("sr_cluster_new", "lib/cluster.c")],
  ["dendrogram and cuts against an average-linkage reference model on every simulated node"])

p("S12", "Concurrent callers do not disturb each other",
  "Several threads of one process may parse, normalize, fingerprint, compare, serialise and free their own crash data, and read crash data they share without modifying it, at the same time: each call returns exactly what it returns when it runs alone. This holds for every interleaving of the threads and for every mix of crash kinds, and reading operations leave shared data unchanged. No interleaving crashes, corrupts memory or fails to finish.",
  ["schedules", "histories", "programs"],
  "every interleaving, at the granularity of basic blocks and of accesses to static memory, of several simulated caller threads running arbitrary programs of library calls",
  "All tests are single-threaded.",
  ["lib/utils.c", "lib/normalize.c", "lib/core_unwind.c", "lib/distance.c", "lib/generic_thread.c", "lib/generic_stacktrace.c", "lib/koops_stacktrace.c", "lib/js_platform.c", "lib/report.c"],
  [("absence of mutable static state on parsing and processing paths", "lib/*.c"), ("lookup tables used read-only", "lib/normalize_hash.gperf")],
  ["per-thread result log against the same program run alone", "address sanitizer"])

p("S13", "Copies, lists and views of crash data own exactly what they should",
  "After copying a stack trace, thread, frame or list, the copy equals the original and each side can be changed, normalized, cut, searched, serialised and freed in any order without affecting the other. Removing frames, keeping one thread, appending lists and limiting depth remove exactly the requested elements, keep the order of the rest and release what they removed exactly once. Comparing two frames or threads says equal when their content is the same and different as soon as one changed in a detail that identifies it (for example a function, source position, build id, offset or, for kernel oopses, an address, or the number of frames). At the end of any history of such operations every object has been released exactly once and no object refers to memory of another.",
  ["histories", "schedules", "programs"],
  "every history of copy, append, remove, limit, normalize, search, compare and free operations by several owners over the objects of all crash kinds, in every order of the owners' releases",
  "The tests call each operation once on a fresh object; aliasing between a copy and its original shows only in longer histories.",
  ["lib/generic_thread.c", "lib/generic_stacktrace.c", "lib/generic_frame.c", "lib/gdb_stacktrace.c", "lib/gdb_thread.c", "lib/core_stacktrace.c", "lib/core_thread.c", "lib/java_thread.c", "lib/koops_stacktrace.c", "lib/python_stacktrace.c", "lib/ruby_stacktrace.c", "lib/js_stacktrace.c", "lib/rpm.c"],
  [("sr_*_dup", "lib/*.c"), ("sr_thread_remove_frame, sr_thread_remove_frames_above/below_n", "lib/generic_thread.c"), ("sr_*_append", "lib/*.c"), ("sr_gdb_stacktrace_remove_threads_except_one", "lib/gdb_stacktrace.c"), ("sr_*_frame_cmp, sr_*_thread_cmp", "lib/*.c")],
  ["each owner's objects against a per-owner reference model after every operation", "allocation ledger"])

p("S14", "One crash gets one fingerprint, on every host and on every delivery",
  "Occurrences of one crash seen on different hosts - with other load addresses, process and thread ids, thread order, hosts, users, times and install paths of the host - get the same duplicate hash, so that a collector that receives the reports late, repeatedly or in any order files them in one bucket. Crashes that differ in the functions at the top of the crashing thread get different duplicate hashes. Computing hashes changes neither the crash data nor later results, and the exact-backtrace hash differs whenever the compared details differ.",
  ["schedules", "histories", "configurations", "inputs"],
  "every simulated fleet of hosts reporting crashes of all kinds, every per-host variation, every loss, delay, duplication and re-ordering of the reports, with and without a detour through stored JSON",
  "The tests compare a few fixed hashes with recorded values.",
  ["lib/generic_thread.c", "lib/generic_stacktrace.c", "lib/generic_frame.c", "lib/gdb_frame.c", "lib/core_frame.c", "lib/java_frame.c", "lib/koops_frame.c", "lib/python_frame.c", "lib/ruby_frame.c", "lib/js_frame.c", "lib/normalize.c", "lib/utils.c"],
  [("sr_thread_get_duphash", "lib/generic_thread.c"), ("sr_stacktrace_get_bthash", "lib/generic_stacktrace.c"), ("sr_*_append_duphash_text", "lib/*_frame.c"), ("sr_stacktrace_find_crash_thread", "lib/generic_stacktrace.c")],
  ["bucket map of the simulated collector"])

p("S15", "The satyr command exits with success only after delivering everything",
  "Each satyr command either prints the complete, correct result for its arguments and exits with status 0, or exits with a non-zero status and a message; a usage mistake never exits with 0. When an input cannot be read or the output cannot be written in full, the exit status is non-zero. A command never changes any file except the one it is documented to create.",
  ["fault_sequences", "inputs", "configurations"],
  "every command and argument list over simulated directories, files, core dumps and package databases, every placement of I/O faults on inputs and on the output stream",
  "The command line tool has almost no tests, and none with failing I/O.",
  ["satyr.c", "lib/abrt.c", "lib/utils.c"],
  [("main and the per-command functions", "satyr.c"), ("sr_abrt_print_report_from_dir", "lib/abrt.c")],
  ["exit status, simulated standard output and error", "simulated disk"])

p("S16", "ELF inspection reports what the file holds, or fails",
  "Reading the procedure linkage table or the frame description entries of an ELF file yields every entry the file contains, in order and with the right symbol, address and length, or fails with a message. An unreadable, cut-off, changing or damaged file never yields entries that are not in the file or a result that is silently short because of an I/O failure, never reads outside the mapped data, and never fails to terminate. In every outcome the file is closed and all memory released.",
  ["fault_sequences", "inputs", "histories"],
  "every simulated ELF image (linkage tables, frame sections with several encodings), every failing open and library read, every truncation and flipped byte",
  "The tests inspect one binary of the build machine.",
  ["lib/elves.c", "lib/elves.h"],
  [("sr_elf_get_procedure_linkage_table", "lib/elves.c"), ("sr_elf_get_eh_frame", "lib/elves.c"), ("read_cie", "lib/elves.c")],
  ["entries against the image they were built from", "descriptor table and allocation ledger"])

p("S17", "Python wrappers stay valid and faithful in every object history",
  "In any history of creating, copying, changing, sharing, deleting and garbage-collecting the Python objects, every object that is still referenced stays valid, attributes read back what was last written or what the parsed text or JSON says, and list views written to (threads, frames, modules, packages) are what later computations see; equals tells whether a copy still agrees with its original. A failing call or an out-of-range value raises a Python exception and leaves the object unchanged. No history crashes the interpreter or leaks or double-frees the wrapped data.",
  ["histories", "schedules", "fault_sequences"],
  "every history of operations over the wrapped types by one interpreter thread, with garbage collection at arbitrary points, failing allocations and arguments whose conversion touches the objects in use; histories in which the caller puts an object inside its own list are left out",
  "The tests exercise each attribute once on a live object and do not vary object lifetimes.",
  ["python/py_base_stacktrace.c", "python/py_base_thread.c", "python/py_base_frame.c", "python/py_common.c", "python/py_gdb_stacktrace.c", "python/py_report.c", "python/py_rpm_package.c", "python/py_metrics.c", "python/py_cluster.c"],
  [("rebuild_*_python_list, *_prepare_linked_list, *_free", "python/py_base_*.c"), ("getters and setters", "python/py_common.c")],
  ["attribute values against a Python reference model", "address sanitizer"])

p("N01", "String and frame distances are true metrics where documented",
  "The Jaro-Winkler, Jaccard, Levenshtein and Damerau-Levenshtein distances between two crash threads are symmetric, zero for equal threads and within their documented range. They equal the textbook definition applied to the frame sequences.",
  ["inputs"], "every pair of threads",
  "Tests check a few pairs.", ["lib/distance.c"], [("distance_jaro_winkler, distance_jaccard_index, distance_levenshtein", "lib/distance.c")], ["returned value"])
p("N02", "Normalization removes exactly the documented noise frames",
  "Normalizing a thread removes exactly the frames on the documented list of noise functions and the frames above an exit frame, renames the documented architecture-specific functions and merges direct recursion. Normalizing twice equals normalizing once.",
  ["inputs"], "every thread", "Tests cover some functions of the list.",
  ["lib/normalize.c", "lib/normalize_hash.gperf"], [("sr_normalize_gdb_thread, sr_normalize_core_thread", "lib/normalize.c")], ["frames after normalization"])
p("N03", "Package version comparison is a total order agreeing with rpm",
  "Comparing two packages by name, epoch, version, release and architecture is antisymmetric and transitive, and agrees with the package manager's own ordering of versions. Equal packages compare equal.",
  ["inputs"], "every pair and triple of packages", "Tests compare a few pairs.",
  ["lib/rpm.c"], [("sr_rpm_package_cmp", "lib/rpm.c")], ["returned order"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
