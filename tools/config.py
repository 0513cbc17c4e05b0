"""Per-check budgets and descriptions."""
ASSUMPTIONS = [
    "Sequentially consistent memory with a possible preemption before every memory access of library code; weaker orderings of the CPU or the compiler are not simulated.",
    "The simulated operating system follows POSIX/Linux as described in DESIGN.md; its code is trusted.",
    "Sampling: a clean batch is evidence, not proof.",
]
OS = "simulated POSIX layer (sim/os.c): file system, descriptors, pipes, processes, environment, clock, exit handlers"
PT = "simulated pthreads and scheduler (sim/pth.c, sim/core.c)"
HP = "simulated heap with red zones and quarantine, thread-local storage (sim/mem.c)"
CHECKS = {}
def c(id, quick, thorough, workload, real, stubs, **kw):
    CHECKS[id] = dict(runs={"quick": quick, "thorough": thorough}, workload=workload, real=real, stubs=stubs, **kw)

c("C01", 120000, 8000000,
  "2-5 threads of all three origins (plus main) reach 6 once points (3 plain, 3 recursive) in random order, with recursion, nested initialisation and stalls inside initialisers; every memory access is a preemption candidate.",
  ["cork_once / cork_once_recursive macros as compiled from include/libcork/threads", "src/libcork/pthreads/thread.c"], [PT, HP])

c("C02", 200000, 20000000,
  "main plus up to 7 threads of three origins ask for their identifiers concurrently, some library threads are created but not started, some are joined before later threads are created.",
  ["src/libcork/pthreads/thread.c", "include/libcork/threads"], [PT, HP])
c("C03", 150000, 12000000,
  "Several library threads are created, started by main or by other threads, refused by the operating system, retried, joined by different threads in random order, or freed unstarted; bodies fail with and without an error, stall, and use errors of their own.",
  ["src/libcork/pthreads/thread.c", "src/libcork/core/error.c", "src/libcork/core/allocator.c"], [PT, HP])
c("C04", 150000, 12000000,
  "2-4 threads run random histories of error operations against a per-thread model; threads end before, during and at exit; cleanup functions with random priorities use the error condition during exit.",
  ["src/libcork/core/error.c", "src/libcork/posix/process.c", "src/libcork/pthreads/thread.c"], [PT, HP, OS])
c("C05", 200000, 20000000,
  "Up to 4 threads issue up to 5 atomic operations each on 3 shared variables of 4 types; the recorded history is checked for linearizability by exhaustive search over orders consistent with real time.",
  ["include/libcork/threads/atomics.h as expanded by the compiler"], [PT, HP])
c("C06", 200000, 20000000,
  "2-4 threads reference, slice, copy (lightly too), sub-slice, hand over and drop views of shared managed buffers of three kinds; contents are compared with the expected bytes, the release callback is counted, the simulated heap catches early and double release.",
  ["src/libcork/ds/managed-buffer.c", "src/libcork/ds/slice.c", "src/libcork/ds/buffer.c", "src/libcork/core/allocator.c"], [PT, HP])
c("C21", 150000, 12000000,
  "Up to 4 threads register cleanup functions with colliding priorities while others run; at simulated exit the functions use further library parts for the first time and register more functions; calls are checked against the set and order of registrations.",
  ["src/libcork/posix/process.c", "src/libcork/core/error.c", "src/libcork/core/allocator.c"], [PT, HP, OS])
c("C24", 120000, 10000000,
  "Threads of all three origins use variables of both thread-local implementations (compiler and pthread-key based) in random order, store and re-read values, end at random times and are followed by later threads; the system may refuse keys or their storage.",
  ["include/libcork/threads/basics.h (cork_tls in both variants)"], [PT, HP])
c("C25", 120000, 8000000,
  "2-5 threads each run 3-30 random sections over containers, buffers, pools, formatting, environments, paths, slices and errors of their own; every step's digest must equal the one of a solitary re-execution of the same thread program. Objects are small or large (1,100 elements, 70,000 bytes).",
  ["src/libcork/ds/*.c", "src/libcork/core/{ip-address,u128,timestamp,hash,mempool,error}.c", "src/libcork/posix/{env,files}.c (string parts)"], [PT, HP, OS])

c("C07", 150000, 12000000,
  "A producer (descriptor, stdio file, path, pipe fed by another process) of 0-150000 bytes delivers into a checking consumer that may fail at any callback and disturbs errno; reads are shortened, interrupted and failed, opens and closes fail.",
  ["src/libcork/ds/file-stream.c", "include/libcork/helpers/posix.h", "src/libcork/core/error.c", "glibc stdio over the simulated descriptor"], [OS, HP])
c("C08", 150000, 12000000,
  "Descriptor, stdio, path and pipe consumers get 0-6 chunks of 0-70000 bytes (or are driven by a producer); writes are shortened, interrupted, refused, the disk fills up, the reader of the pipe goes away; the consumer is freed with and without end-of-stream.",
  ["src/libcork/ds/file-stream.c", "include/libcork/helpers/posix.h", "src/libcork/core/error.c", "glibc stdio over the simulated descriptor"], [OS, HP])
c("C23", 200000, 20000000,
  "1-3 threads read the current time while the simulated clock runs, stalls the caller and jumps (forwards, backwards, exactly to second boundaries) between any two system calls; start values cover the whole representable range.",
  ["src/libcork/core/timestamp.c", "include/libcork/core/timestamp.h"], [OS, PT])
c("C26", 150000, 12000000,
  "Working directories of 1-4090 bytes (also deleted ones), left or removed between two queries, with a PWD variable that tells the truth or lies about it; relative and absolute paths, getcwd failing or interrupted at any call and leaving its buffer undefined.",
  ["src/libcork/posix/files.c", "src/libcork/ds/buffer.c", "src/libcork/core/error.c"], [OS, HP])

c("C27", 80000, 8000000,
  "2-26 operations on up to 4 environment objects and the process's environment: add, print, overwrite with another variable's value, remove, clone, replace, free, look up; standard directories are asked for in between, and the host program sets, puts, unsets and clears variables and inserts malformed entries; values up to 5000 bytes, up to 300 variables; sometimes 2-3 threads then read that environment and edit copies of their own at the same time.",
  ["src/libcork/posix/env.c", "src/libcork/posix/files.c (standard paths, path lists)", "src/libcork/ds/hash-table.c", "src/libcork/ds/buffer.c"], [OS, HP])

c("C16", 120000, 10000000,
  "One to three threads and other processes create the same directories (up to 66 levels, names up to 255 bytes) under several spellings (duplicate and trailing slashes, '.'), relative and absolute, with files, links, dangling links and unsearchable directories in the way; other processes also create or remove any of them before any of our calls; stat and mkdir fail at any call.",
  ["src/libcork/posix/files.c", "src/libcork/ds/buffer.c", "src/libcork/core/error.c"], [OS, PT, HP])
c("C17", 150000, 10000000,
  "Random trees (files, fifos, links to files and directories outside, dangling and looping links, unreadable directories), removed by one to three threads with every flag combination (also 70 levels deep, with 276 entries per directory, names of 255 bytes) while other processes delete or add entries; every readdir order, unknown d_type, failing or interrupted lstat, unlink, rmdir, opendir, readdir, closedir at any call.",
  ["src/libcork/posix/files.c", "src/libcork/ds/buffer.c", "src/libcork/core/error.c"], [OS, PT, HP],
  assumptions=["Nobody replaces a directory by a symbolic link, or an entry by one of another type, while it is being removed (the library has no protection against that race)."])
c("C18", 150000, 10000000,
  "Random trees (also 70 levels deep, with 276 entries per directory, names of 255 bytes) walked and iterated by one or two threads from several spellings of the root (including '/', '', '.', trailing slashes, a link), callbacks that skip or stop at any position with any value, with and without an error condition, changing errno; every readdir order, unknown d_type; failing or interrupted stat, opendir, readdir, closedir at any call; other processes adding and removing entries.",
  ["src/libcork/posix/files.c", "src/libcork/posix/directory-walker.c", "src/libcork/ds/buffer.c"], [OS, PT, HP])
c("C19", 150000, 10000000,
  "Queries and searches over lists of up to 40 directories that are missing, unsearchable, repeated or contain files, directories, fifos, links, dangling and looping links, with over-long names; other processes create and remove candidates before any call; stat fails at any call.",
  ["src/libcork/posix/files.c", "src/libcork/ds/buffer.c", "src/libcork/core/error.c"], [OS, PT, HP])

SUBP = (["src/libcork/posix/subprocess.c", "src/libcork/posix/exec.c", "src/libcork/posix/env.c", "include/libcork/helpers/posix.h", "src/libcork/core/error.c"], [OS, PT, HP, "children are scripts executed by the simulator (read, write, sleep, spawn, exit, die by signal); the code between fork and exec is the library's own"])
c("C09", 80000, 6000000,
  "One to four subprocesses, alone or in groups, with and without capture of either stream, whose children write up to several pipe capacities in random pieces to both streams in any order, spawn grandchildren that inherit the pipes, use the library themselves in their function bodies, read their stdin, sleep, exit with any status or die from signals; waited for or drained step by step; short, interrupted and stalled reads, tiny pipes.",
  *SUBP)
c("C10", 80000, 6000000,
  "The same children, in one or two threads; drain is called at arbitrary moments, also while a child floods its pipe and the consumer is slow; what was in the pipes and which children had ended at the call is compared with what was delivered and the answer; blocking calls and sleeping in drain are violations.",
  *SUBP)
c("C11", 60000, 5000000,
  "The same children, in one or two threads, with large output on both streams of all of them, some reading their stdin; wait must return within a bounded simulated time after the last child ended and the last output end was closed, under starvation of either side.",
  *SUBP, assumptions=["A stream whose write end is held by a grandchild is awaited until that grandchild closes it."])
c("C12", 100000, 8000000,
  "Starting one to four subprocesses while every pipe, fcntl, fork and close call can fail, descriptor limits are reached, and standard descriptors may be closed beforehand; descriptors, children and error conditions are compared before and after; wait, drain, abort and free follow in random order; another thread may be starting, awaiting or aborting a subprocess at the same time.",
  *SUBP)
c("C13", 80000, 6000000,
  "Several subprocesses with open stdin at once, started by one to three threads; chunks of 0 to several pipe capacities are sent under short, interrupted and failing writes while the children read at random speeds; end of file must be seen by each child although the others still run.",
  *SUBP, assumptions=["The parent ignores SIGPIPE and does not send more than a pipe holds to a child that is itself blocked because nobody reads its output (the stdin stream is a blocking interface)."])
c("C14", 100000, 8000000,
  "Execution requests with random arguments, environment histories, program names and working directories (now and then very long, or hundreds of arguments and variables), directly or through a subprocess, with random standard descriptors open or closed, several subprocesses alive, requests built and started by one or two threads (the first use of the error conditions included); dup2, chdir and exec fail in the child at any call; what the program sees is recorded at exec.",
  *SUBP)
c("C15", 100000, 8000000,
  "Subprocesses and groups of one or two threads are drained, waited for and aborted in random order while children exit on their own, never exit by themselves or fill their pipes; reads, closes and consumers fail at any point; signalling or awaiting a process number that was already reaped is a violation.",
  *SUBP, assumptions=["Children end when they receive SIGTERM."])

c("C20", 120000, 10000000,
  "Stacks of up to 5 recording, partly overridden and debugging allocators serve random histories of every allocation function (zero, huge and overflowing sizes) and then the rest of the library (containers, threads, files, subprocesses, streams, garbage collector) as current allocator; any underlying allocation fails; up to 125 allocators alive at once; the debugging allocator is given wrong sizes (off by one up to 2^63).",
  ["src/libcork/core/allocator.c and every other part of the library as its user"], [HP, OS, PT],
  assumptions=["The current allocator is replaced before any other use of the library (as documented)."])
c("C22", 80000, 6000000,
  "1-3 threads with a collector each allocate, link, unlink, reference and drop objects of several kinds (leaf, recursing, with free methods that drop further references), with up to 1038 candidate roots in the buffer, chains, rings and doubly linked rings of up to 290 objects and up to 66000 references to one object, so that collections happen in the middle of any operation, large amounts of cyclic garbage, shutdown while references are still held, and reuse after it.",
  ["src/libcork/core/gc.c", "src/libcork/core/allocator.c"], [HP, PT],
  assumptions=["Chains of objects are short enough for the recursive traversal to fit on the stack.", "A reference is not moved into a cycle of its own object without any reference being dropped (the collector cannot notice that)."])

PURE = "a pure function of its arguments: it has no schedule, clock, I/O, fault or shared state for a simulator to decide; checking it would be plain input generation. "
NOT_APPLICABLE = {
    "C40": PURE + "(128-bit arithmetic; only its use from several threads is covered, by C25.)",
    "C41": PURE + "(IP address parsing and formatting.)",
    "C42": PURE + "(Hash functions.)",
    "C43": PURE + "(Conversion and formatting of a given timestamp; reading the clock is C23.)",
    "C44": PURE + "(Path string manipulation; path functions that ask the system are C16-C19 and C26.)",
    "C45": "Slice bounds arithmetic is a pure function of the arguments; concurrent use and lifetime of slices is C06.",
    "C46": "A sequential data structure: no schedule, clock, I/O or fault; its behaviour under failing allocation is C20 and under threads C25.",
    "C47": "Sequential data structures: no schedule, clock, I/O or fault; their behaviour under failing allocation is C20 and under threads C25.",
    "C48": PURE + "(Command-line dispatch on a given argument vector.)",
    "C49": PURE + "(Byte-order macros.)",
}
