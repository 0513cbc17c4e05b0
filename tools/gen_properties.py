#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays in
step with MANIFEST.json; see tools/gen_manifest.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files,
         "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

TH = "src/libcork/pthreads/thread.c"; BAS = "include/libcork/threads/basics.h"
SUB = "src/libcork/posix/subprocess.c"; FIL = "src/libcork/posix/files.c"
p("C01", "One-time initialisation runs once and completes before anyone proceeds",
  "When any number of threads reach the same one-time-initialisation point, in any interleaving, exactly one of them executes the initialiser, no caller gets past the point before that execution has finished, and every caller does eventually get past it. With the recursive variant, the thread that is running the initialiser may reach the point again and continues immediately instead of deadlocking, while every other thread still waits until the initialiser has finished.",
  ["schedules"], "every interleaving of 2-5 threads (and recursion depths up to 3) reaching one or more once barriers, including preemption between any two memory accesses",
  "shared-test.c only checks that a counter ended at 1 in a single-threaded call sequence (test-threads.c); no test controls who is preempted between claim, initialise and publish.",
  [BAS], [("cork_once / cork_once_recursive barrier state machine", BAS)], ["initialiser side effects seen by each caller after the point"],
  [("barrier", "0 unclaimed, 1 running, 2 done", BAS), ("initializing_thread", "owner for the recursive variant", BAS)])
p("C02", "Thread identifiers are unique, non-zero and stable for every thread",
  "Every thread - main, created by the library, or foreign - observes a single identifier that is non-zero, never changes during its life and is never equal to the identifier of any other thread of the process, including library threads that were created but not yet started. A library thread's identifier as seen from inside equals the one reported by its handle. Asking for the current thread's handle returns exactly that thread's own handle inside a library thread and null in the main thread and in foreign threads.",
  ["schedules"], "every interleaving of main, library and foreign threads creating threads and first asking for their identifiers concurrently",
  "test-threads.c compares ids of threads that run one after another; concurrent first use of the id counter is never exercised.",
  [TH, BAS], [("atomic id counter", TH), ("per-thread descriptor in thread-local storage", TH)], ["return values of the id and current-thread queries in each thread"])
p("C03", "Thread start/join lifecycle: run once, join waits, errors propagate, freed once",
  "A started library thread runs its body exactly once with the user data it was created with, and joining it returns only after the body has finished; the user-data destructor runs exactly once and never before the body has finished, whether the thread is joined or is freed unstarted, and nothing of the thread object is leaked or touched after release. Join fails exactly when the body failed, and then the joiner's error condition carries the body's error code and a message naming the thread and containing the body's message (an unknown error if the body set none); otherwise join succeeds and leaves the joiner's error condition untouched. If the operating system refuses to create the thread, start fails with that error, the body never runs, and the object can still be freed or started again.",
  ["schedules", "fault_sequences"], "every interleaving of creators, bodies and joiners (joined by any thread, in any order) with any thread-creation call failing",
  "test-threads.c runs one thread at a time with a body that finishes immediately, and never makes thread creation fail.",
  [TH], [("start records state, run copies the error into the object, join propagates and frees", TH)], ["return values and error condition of start/join", "destructor calls", "heap"])
p("C04", "Each thread has its own error condition, released exactly once at exit",
  "After any interleaving of operations in several threads, the error code, message and occurred flag that a thread reads are exactly those produced by its own sequence of set, prefix and clear operations, as if it ran alone; a system error carries the errno value of the failed call and its description. The storage behind every thread's error condition is released exactly once, at process exit (begun after the other threads have ended), and neither while its thread is running nor while cleanup functions registered with the library can still use it.",
  ["schedules", "histories"], "every interleaving of 2-4 threads each performing random histories of error operations, including concurrent first use",
  "test-errors.c exercises one thread; neither concurrent first use of the per-thread state nor process exit with several threads' states is tested.",
  ["src/libcork/core/error.c", "include/libcork/core/error.h", "include/libcork/helpers/errors.h"], [("thread-local pointer to the error object, lock-free list for cleanup", "src/libcork/core/error.c")], ["error accessors in every thread", "heap at exit"],
  [("errors", "lock-free list of all threads' error objects", "src/libcork/core/error.c")])
p("C05", "Atomic operations are linearizable and return the documented values",
  "Atomic add, subtract and compare-and-swap on shared int, unsigned, size and pointer variables, called from any number of threads, behave as if each took effect at a single instant between its call and return: some sequential order consistent with real time explains every returned value (the new value, the previous value for the 'pre' forms, the value found for compare-and-swap) and the final value, so that no update is ever lost.",
  ["schedules", "histories"], "every interleaving of up to 4 threads issuing short random histories of atomic operations on up to 3 shared variables, preempted between any two memory accesses",
  "test-threads.c calls each macro once from one thread, which a non-atomic implementation passes.",
  ["include/libcork/threads/atomics.h"], [("compiler atomics behind portable macros", "include/libcork/threads/atomics.h")], ["return values and final values"])
p("C06", "Shared buffers and their slices are released exactly once, after the last user",
  "A reference-counted buffer and slices made from it may be referenced, sliced, copied and dropped by any number of threads concurrently, in any order: its storage is released exactly once, when the last reference or slice is dropped, and never earlier. Until it is dropped (a light copy has to be dropped before the slice it was made from), every slice and copy keeps reading exactly the bytes of the range it was made from. A request for a range that isn't inside the buffer or slice is refused with an error and changes nothing.",
  ["schedules", "histories"], "every interleaving of 2-4 threads with random histories of reference, slice, copy, sub-slice and drop on shared buffers",
  "test-managed-buffer.c and test-slice.c are single-threaded with one fixed sequence; a lost reference-count update needs two threads inside the same increment.",
  ["src/libcork/ds/managed-buffer.c", "src/libcork/ds/slice.c", "include/libcork/ds/managed-buffer.h", "include/libcork/ds/slice.h", "src/libcork/ds/buffer.c"],
  [("reference count on the managed buffer", "src/libcork/ds/managed-buffer.c"), ("slice interface copy/light-copy/finish", "src/libcork/ds/slice.c")], ["release callback", "slice contents", "heap"])
p("C07", "Reading a stream into a consumer delivers exactly its bytes under I/O faults",
  "However the operating system splits, shortens, interrupts or fails reads, reading a descriptor, stdio file or path into a consumer delivers the stream's bytes in order, without loss, duplication or alteration, marks exactly the first chunk as first, and signals end-of-stream exactly once, after all data, if and only if the end was reached. The call succeeds exactly when everything was read and the consumer accepted it all; otherwise it fails with the error of the failing read or of the consumer, and no callback is made after the failure. The path variant leaves no descriptor open in any outcome and the other variants never close the caller's.",
  ["fault_sequences", "inputs"], "every content up to several buffer sizes, every split of reads, every placement of interrupted calls, read errors, open errors and consumer failures",
  "test-files.c/test-subprocess.c read small regular files that arrive in one full read and never fail.",
  ["src/libcork/ds/file-stream.c", "include/libcork/ds/stream.h"], [("read loops with EINTR retry", "src/libcork/ds/file-stream.c")], ["consumer callbacks", "return value and error", "open descriptors"])
p("C08", "File and descriptor consumers write every byte once, in order, or report failure",
  "However the operating system shortens, interrupts or fails writes, a successful sequence of data calls on a descriptor, stdio-file or path consumer leaves exactly the concatenation of the given bytes in the file, in order; if some bytes cannot be written the data call fails with that error and what was written is a prefix of the data given. The path consumer closes its descriptor exactly once, the others never close the caller's.",
  ["fault_sequences", "inputs"], "every chunking of data, every sequence of short writes, interrupted writes, disk-full and I/O errors",
  "No test makes a write short, interrupted or failing; the kernel accepts the small test writes whole.",
  ["src/libcork/ds/file-stream.c"], [("partial-write loop", "src/libcork/ds/file-stream.c")], ["file contents", "return values", "open descriptors"])
p("C09", "Subprocess output and exit status are captured completely and separately",
  "When a subprocess, alone or in a group, has been waited for or drained until finished without error, its stdout consumer has received exactly the bytes the child wrote to its stdout and its stderr consumer exactly those written to its stderr, each in order, with the first chunk marked once and end-of-stream signalled exactly once after the last byte. The reported exit status is the value with which that child exited, and is non-zero for a child that was killed by a signal; a child whose function body returns zero exits with zero, one whose body reports a failure with another value.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of parent with 1-3 children writing any amounts to stdout and stderr, with sleeps, short reads, interrupted calls, descendants that inherit the pipes, and exit at any point",
  "test-subprocess.c runs a few short /bin/echo-like commands whose output fits in a pipe and arrives before they are looked at.",
  [SUB], [("non-blocking pipe draining plus reaping until pid reaped and both pipes at end-of-file", SUB)], ["consumer callbacks", "exit code cell"])
p("C10", "Draining subprocesses never blocks and reports progress truthfully",
  "Draining a subprocess or a group returns without waiting for any child, whatever the children are doing, after delivering all output that was available (if collecting the output fails, the children are terminated instead, see C15). It reports progress if and only if it delivered some output, detected the end of an output stream or detected that a child exited. Once everything has finished it does nothing.",
  ["schedules", "fault_sequences"], "every instant at which drain can be called relative to every child's writes, stalls, stream closings and exits",
  "The tests call drain only in a loop until finished, so a blocking or lying drain still passes.",
  [SUB], [("non-blocking flag on the read ends, WNOHANG reaping", SUB)], ["simulated time and blocking across the call", "return value vs. delivered events"])
p("C11", "Waiting for subprocesses always terminates once the children can finish",
  "Waiting for a subprocess or a group returns within a bounded time after all children have exited and all their output ends are closed, for every amount and interleaving of output on stdout and stderr of every child; no child is kept from finishing because the parent is not reading one of its pipes. When it returns successfully every child has been reaped and every output stream is at its end.",
  ["schedules", "fault_sequences"], "every interleaving of children that fill the stdout and stderr pipes in any order beyond their capacity, stall, close streams early, outlive their streams, or leave descendants holding them",
  "Existing tests never fill a pipe, so any reading order terminates.",
  [SUB], [("round-robin non-blocking reads with back-off sleep", SUB)], ["simulated-time bound", "process table"])
p("C12", "A failed subprocess start reports the error and leaves nothing behind",
  "If starting a subprocess or a group fails at any point, the call fails with an error condition describing the failed operation, every member that had already been started has been terminated and reaped, and no process and no pipe descriptor of the failed member stays behind. After the objects are freed the parent has exactly the descriptors it had before; the failed subprocess counts as finished, so that a later wait does not hang.",
  ["fault_sequences", "crash_points"], "every system call made while starting 1-4 subprocesses failing with every plausible error, at every position",
  "No test makes pipe, fcntl or fork fail.",
  [SUB], [("cleanup paths of start and group start", SUB)], ["return value and error", "descriptor table", "process table"])
p("C13", "Data sent to a subprocess's stdin arrives completely, in order, then EOF",
  "Every byte accepted by a subprocess's stdin stream is received by that child, in order and once, for any chunk sizes, short or interrupted writes and child reading speeds; a data call that could not hand over all its bytes fails with an error. After end-of-stream is signalled the child sees the end of its stdin as soon as it has read everything, no matter which other subprocesses were started before or after it and are still running.",
  ["schedules", "fault_sequences", "inputs"], "every interleaving of the parent writing with children reading at any speed in groups of 1-3, and every sequence of short and interrupted writes",
  "The only stdin test sends one short string to one cat process.",
  [SUB], [("write pipe consumer", SUB), ("closing of inherited pipe ends", SUB)], ["bytes each child reads", "time at which it sees end-of-file"])
p("C14", "A program is executed with exactly the requested arguments, environment and cwd",
  "The program started for an execution request sees exactly the requested argument list, the requested environment (that of the parent if none was requested, otherwise exactly the variables left by the sequence of additions, overwrites and removals), the requested working directory (else the parent's) and, as standard streams, the capture pipes requested or the inherited stream, and no other pipe of the parent's subprocesses. If the child cannot be set up or the program cannot be executed, the program does not run and the failure is reported as a non-zero exit status; the parent's own environment and working directory never change.",
  ["inputs", "fault_sequences", "histories"], "every history of building a request (programs, parameters, environment edits, cwd), every combination of captured and inherited streams, groups, and every failure of the child-side calls",
  "test-subprocess.c checks a handful of fixed commands' output; descriptor leakage into children and child-side failures are not observed.",
  ["src/libcork/posix/exec.c", "src/libcork/posix/env.c", SUB], [("argument/environment builders", "src/libcork/posix/exec.c"), ("child-side pipe binding", SUB)], ["argv, envp, cwd and descriptor table at the simulated exec"])
p("C15", "Aborting or failing subprocesses are terminated and reaped exactly once",
  "Aborting a subprocess or group terminates every member that is still running and reaps it before returning, and does nothing for members that already finished; no child is signalled or waited for after it was reaped, so no unrelated process that got its number can be hit. If collecting output fails (read error or consumer error) while waiting or draining, the error is reported and every member still running is terminated and reaped by the time the call returns. Every child is reaped exactly once over the whole life of its object.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of abort, drain and wait with children exiting on their own, and every placement of read and consumer failures",
  "No test aborts a subprocess or makes output collection fail.",
  [SUB], [("abort = signal + blocking reap, pid cleared when reaped", SUB)], ["simulated kill/waitpid history", "process table"])
p("C16", "Directory creation is correct under concurrent creators and failing calls",
  "When directory creation succeeds, the directory (and, in recursive mode, each of its ancestors) exists; new directories get the requested mode, and nothing else in the file system changes. In permissive mode an already existing directory is success no matter whether it existed before the call or is created by somebody else at any moment during it, and in recursive mode the same holds for each ancestor; without permissive mode an existing directory, and in every mode an existing non-directory, is reported as an error. Failures of the underlying calls are reported as errors, never as success, and an object's answers about existence reflect its own successful creation.",
  ["schedules", "fault_sequences", "inputs"], "every path shape and initial tree, every interleaving with other processes creating or removing the same directories, every failing or interrupted call",
  "test-files.c creates a few directories sequentially in a private directory.",
  [FIL], [("recursive mkdir with existence checks", FIL)], ["simulated file system before/after", "return value and error"])
p("C17", "Removal deletes exactly what was asked, and reports every failure",
  "Removing a file or directory deletes exactly that entry and, in recursive mode, everything inside it - never anything outside it, so a symbolic link is removed and its target left alone, as long as nobody replaces a directory by a link during the call - and reports success only if the entry no longer exists; the object's own answer about existence then says so. Without recursive mode a non-empty directory is not removed and the call fails; a missing entry is an error unless permissive mode is given, in which case entries that disappear at any moment during the call are not an error either. Every failing underlying call is reported as a failure with an error condition, and no directory handle stays open.",
  ["schedules", "fault_sequences", "inputs"], "every tree (including symbolic links), every readdir order, every interleaving with other processes deleting or creating entries, every failing or interrupted call",
  "test-files.c removes a small private tree with no links, no concurrency and no failing call.",
  [FIL], [("recursive removal through directory iteration", FIL)], ["simulated file system before/after", "return value and error", "open handles"])
p("C18", "Directory iteration and walking visit each entry once and honour the callbacks",
  "Iterating a directory calls back exactly once for each entry other than '.' and '..', with its right name, path and type; walking a tree calls back exactly once for each regular file and brackets the contents of each subdirectory between its enter and leave callbacks, except subdirectories the callback chose to skip, with correct full, relative and base names. A non-zero callback result stops the traversal at once and is returned unchanged; a failing system call stops it with an error; success is reported only if everything was visited. In every outcome all directory handles are closed.",
  ["fault_sequences", "inputs", "schedules"], "every tree and readdir order, every path spelling (including '/'), every callback aborting at every position, every failing or interrupted call",
  "test-files.c walks one fixed tree, with callbacks that never abort and calls that never fail.",
  [FIL, "src/libcork/posix/directory-walker.c"], [("readdir loop with errno protocol", FIL), ("recursive walker", "src/libcork/posix/directory-walker.c")], ["callback history", "return value and error", "open handles"])
p("C19", "File lookups distinguish missing from undeterminable and pick the first match",
  "A query whether a file exists, or of which type it is, answers truthfully for some moment during the object's use; a file is reported missing only if the system says it is not there, and any other failure to examine it is reported as an error rather than as missing. Searching a list of directories returns the first existing match (or, for the all-matches form, all of them in list order), stops with an error if a candidate cannot be examined, and otherwise reports not-found naming the searched file. Nothing is leaked in any outcome.",
  ["fault_sequences", "inputs"], "every tree, list of search paths and file name, and every failing, interrupted or permission-denied examination",
  "test-files.c looks up existing and missing files; no examination ever fails.",
  [FIL], [("stat wrapper and cache", FIL), ("find_file / find_files", FIL)], ["results and error", "heap"])
p("C20", "Allocators conserve memory and report or abort on allocation failure correctly",
  "Every block obtained through the library's allocation interface - directly, or by its containers and strings, on the default, a custom or the debugging allocator - is returned to the same allocator exactly once, with the size it was requested with, and not used afterwards; the debugging allocator accepts every correctly sized release and detects a wrong one. When the underlying allocation fails, the failable operations return null leaving the original block valid (or released, for the free-on-failure form), and the others terminate the process without ever returning null or touching invalid memory; allocator objects and their user data are released exactly once at exit.",
  ["fault_sequences", "histories"], "every history of allocation operations on stacks of custom/debug/default allocators with any subset of underlying allocations failing",
  "test-allocator.c and the other tests run without any failing allocation, and the size passed on release is never compared except by the debug allocator on fixed sequences.",
  ["src/libcork/core/allocator.c", "include/libcork/core/allocator.h"], [("allocator interface with default implementations", "src/libcork/core/allocator.c"), ("debug allocator size header", "src/libcork/core/allocator.c")], ["parent-allocator call history", "return values", "aborts"])
p("C21", "Exit cleanup functions run exactly once, in priority order",
  "At normal process exit every registered cleanup function is called exactly once and never before exit; functions with lower priority values are called before those with higher ones. This holds for any number and order of registrations, from any threads at the same time, including cleanup functions that, while running, use other parts of the library for the first time or register further functions (which are then also called, once), and the library's own exit cleanup never touches memory already released.",
  ["histories", "crash_points"], "every sequence of registrations with any priorities, from any call site, including from inside running cleanup functions, interleaved with first uses of library facilities that register their own cleanup",
  "The cleanup test registers three functions before exit and compares output once.",
  ["src/libcork/posix/process.c", "src/libcork/core/allocator.c", "src/libcork/core/error.c"], [("priority-ordered list run from atexit", "src/libcork/posix/process.c")], ["call history at simulated exit", "heap"])
p("C22", "Garbage collection never frees a live object and frees all garbage once",
  "After any history of allocating objects, adding and dropping references, and editing the object graph, no matter when cycle collection happens to be triggered, an object reachable from a held reference is never finalised and no object is finalised twice or touched after release; this includes objects whose free methods themselves drop references. Cyclic garbage does not accumulate without bound while a thread runs, and when a thread's collector is shut down, every object of that thread not reachable from a still-held reference, including members of arbitrary cycles, has been finalised and its memory released exactly once. Collectors of different threads never affect each other.",
  ["histories", "schedules"], "every object graph that is no deeper than the stack allows (marking and releasing recurse) and every history of reference operations, with automatic collection occurring at any point of it, in 1-3 interleaved threads",
  "test-gc.c builds trees and one small cycle; automatic collection (more than a thousand candidate roots) and shared garbage structure are never reached.",
  ["src/libcork/core/gc.c", "include/libcork/core/gc.h"], [("synchronous cycle collection with buffered candidate roots", "src/libcork/core/gc.c")], ["finaliser calls", "heap", "object contents"],
  [("roots", "buffer of candidate cycle roots; full buffer triggers collection", "src/libcork/core/gc.c")])
p("C23", "The current-time timestamp reflects the system clock",
  "A timestamp of the current time equals the system's wall clock at some instant during the call, to the resolution of the clock, for every clock value representable in the timestamp, including just before and after second boundaries, and regardless of clock jumps between calls; successive calls with a non-decreasing clock never yield decreasing timestamps.",
  ["schedules", "fault_sequences"], "every clock value and sequence of advances, jumps forwards and backwards, with threads reading the clock concurrently",
  "test-core.c cannot control the clock and does not check the current-time value at all.",
  ["src/libcork/core/timestamp.c", "include/libcork/core/timestamp.h"], [("conversion of the system clock", "src/libcork/core/timestamp.c")], ["timestamp vs. simulated clock"])
p("C24", "Thread-local variables are per-thread, zero-initialised and stable",
  "Each thread that asks for a thread-local variable gets its own instance, which is filled with zero bytes the first time that thread sees it, stays at the same address with the contents last stored by that thread for as long as the thread runs, and is never shared with or altered through another thread. This holds on both supported thread-local implementations and for threads of any origin; with the key-based implementation each thread's instance is released exactly once, at that thread's exit.",
  ["schedules", "configurations"], "every interleaving of 2-5 threads first using and modifying several thread-local variables, under both implementations",
  "test-threads.c uses one thread-local variable in one thread, with only the compiler's implementation.",
  [BAS], [("cork_tls on __thread and on pthread keys", BAS)], ["addresses and contents seen by each thread", "heap at thread exit"])
p("C25", "Independent objects used in different threads do not interfere",
  "Threads that each use only their own containers, buffers, strings, pools, environments and formatted values, without sharing any object, get exactly the results of running alone, in every interleaving: the library keeps no hidden shared mutable state behind them, and all memory they used is given back when they are destroyed.",
  ["schedules", "histories"], "every interleaving of 2-4 threads each running a random history over private containers, compared step by step with a sequential model",
  "The container tests are single-threaded, so hidden static state or a racy shared cache cannot show.",
  ["src/libcork/ds/buffer.c", "src/libcork/ds/array.c", "src/libcork/ds/hash-table.c", "src/libcork/ds/ring-buffer.c", "src/libcork/ds/dllist.c", "src/libcork/ds/bitset.c", "src/libcork/core/mempool.c", "src/libcork/core/ip-address.c", "src/libcork/core/timestamp.c", "src/libcork/posix/env.c"],
  [("no static mutable state outside the documented globals", "src/libcork")], ["results of each operation vs. model", "heap"])
p("C26", "Current-directory and absolute-path queries are all-or-nothing under faults",
  "Asking for the current directory, or making a path absolute, yields exactly the process's current directory, respectively that directory joined with the relative path (an already absolute path is unchanged), for every working directory and path. If the current directory cannot be determined the call fails with that error, the path object it was given is still valid and unchanged and can be freed, and nothing is leaked.",
  ["fault_sequences", "inputs"], "every working directory, every path, and the current-directory query failing or being interrupted at any call",
  "test-files.c never makes the query fail, and compares with the test's own working directory only.",
  [FIL], [("cwd query into a buffer with EINTR retry", FIL)], ["resulting path, error and heap"])
p("C27", "Environment edits and standard directories follow the process's environment",
  "After any history of additions, overwrites, removals, clones and replacements through environment objects, through the process's environment, or by the host program itself, a look-up returns the latest value given for that name in that environment and in no other; a clone of the process's environment holds exactly its well-formed entries at that moment, and replacing the process's environment leaves exactly the object's variables in it. The home, configuration, data, cache and runtime directories are those that the environment defines at the moment of the call, an empty variable counting as unset, with the documented defaults below the home directory; where nothing defines one, the call fails with an error and without leaking anything.",
  ["histories", "inputs"], "every history of edits of several environment objects and the process's environment, with the host program changing, clearing and damaging it (malformed entries) between any two calls",
  "The tests use one object or fixed variables; they never clear the environment, clone a changed or malformed one, or mix edits by the host program with the library's.",
  ["src/libcork/posix/env.c", FIL], [("variables in a hash table, owning their names", "src/libcork/posix/env.c"), ("XDG look-ups", FIL)], ["look-ups in objects and the process, the environ array, returned directories, heap"])

NA = "pure function of its arguments: no schedule, clock, fault, I/O or interleaving for a simulator to control"
def na(id, title, statement, q, why, files, mech):
    p(id, title, statement, ["inputs"], q, why, files, mech, ["return values"])
na("C40", "128-bit arithmetic and formatting agree with mathematical integers",
   "Construction, addition, subtraction, comparison and decimal, hexadecimal and padded formatting of 128-bit unsigned integers agree with arithmetic modulo two to the 128 for all values, identically with the native and the portable implementation.",
   "all pairs of 128-bit values, both implementations", "test-u128.c checks listed constants only.",
   ["include/libcork/core/u128.h", "src/libcork/core/u128.c"], [("two-limb fallback", "include/libcork/core/u128.h")])
na("C41", "IP addresses parse exactly the valid texts and round-trip through text",
   "Exactly the valid textual IPv4 and IPv6 addresses are accepted, with the right value, and formatting any address and parsing the result gives the same address in canonical form.",
   "all strings and all addresses", "test-ip-address.c uses lists of examples.",
   ["src/libcork/core/ip-address.c", "include/libcork/core/net-addresses.h"], [("hand-written parsers", "src/libcork/core/ip-address.c")])
na("C42", "Hash values depend only on the hashed bytes and are stable across platforms",
   "The stable hash functions return the same value for the same seed and bytes on every platform and alignment.",
   "all byte strings, seeds and alignments", "test-core.c compares a few constants.",
   ["include/libcork/core/hash.h"], [("murmur-style hash", "include/libcork/core/hash.h")])
na("C43", "Timestamp conversion and formatting are exact",
   "Converting a timestamp to and from seconds, milliseconds, microseconds and nanoseconds and formatting it with any width gives the correct calendar fields and correctly scaled fraction, or an error for a malformed format.",
   "all timestamps and format strings", "test-timestamp.c lists a few values.",
   ["src/libcork/core/timestamp.c", "include/libcork/core/timestamp.h"], [("fixed-point conversion", "include/libcork/core/timestamp.h")])
na("C44", "Path joining, base name and directory name follow the documented rules",
   "Joining paths, taking base and directory names and splitting path lists give the documented textual results for all inputs.",
   "all path strings and variable values", "test-files.c lists examples.",
   [FIL], [("string operations on paths", FIL)])
na("C45", "Slices never reach outside their underlying buffer",
   "A slice or sub-slice is granted exactly when its range lies inside the underlying buffer or slice, for every offset and length including huge ones, and is otherwise refused with an error.",
   "all offsets and lengths", "test-slice.c tries a few small ranges.",
   ["src/libcork/ds/slice.c", "src/libcork/ds/managed-buffer.c"], [("range checks", "src/libcork/ds/slice.c")])
na("C46", "Hash tables behave as finite maps with insertion-ordered iteration",
   "Any sequence of put, get, delete, clear, resize and iteration on a hash table gives the results of a finite map iterated in insertion order, calling the registered release functions exactly once per dropped key and value.",
   "all operation sequences, hash functions and sizes", "test-hash-table.c runs fixed sequences.",
   ["src/libcork/ds/hash-table.c", "include/libcork/ds/hash-table.h"], [("chained bins with insertion-order list", "src/libcork/ds/hash-table.c")])
na("C47", "Arrays, buffers, lists, rings, bitsets and pools follow their sequential models",
   "Any sequence of operations on a single array, buffer, linked list, ring buffer, bit set or memory pool gives the results of the corresponding abstract sequence, byte string, queue, set or pool.",
   "all operation sequences", "the unit tests run fixed sequences.",
   ["src/libcork/ds/array.c", "src/libcork/ds/buffer.c", "src/libcork/ds/dllist.c", "src/libcork/ds/ring-buffer.c", "src/libcork/ds/bitset.c", "src/libcork/core/mempool.c"], [("container code", "src/libcork/ds")])
na("C48", "Command-line dispatch selects the right command or prints its help",
   "For every command tree and argument vector the matching leaf command is run with the remaining arguments, or the appropriate help or error is printed with a failing exit status.",
   "all command trees and argument vectors", "test scripts run fixed command lines.",
   ["src/libcork/cli/commands.c"], [("recursive command lookup", "src/libcork/cli/commands.c")])
na("C49", "Byte-order conversion macros are exact inverses",
   "Converting integers between host, big-endian and little-endian order gives the defined byte order and is self-inverse for all values and widths.",
   "all integer values", "test-core.c checks one value per width.",
   ["include/libcork/core/byte-order.h"], [("byte swapping", "include/libcork/core/byte-order.h")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
