"""Builds the simulator binary from /repo's current working tree.

The library's own sources are compiled unmodified, with the compiler's memory-access
instrumentation, and their references to libc are redirected to the simulated
operating system by renaming symbols in the object files."""
import concurrent.futures, hashlib, os, re, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSIM_REPO", "/repo")
BUILD = os.environ.get("VSIM_BUILD") or os.path.join(VERIF, "build")

SAME = """malloc calloc realloc free strdup strndup reallocarray posix_memalign
memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp strchr strrchr strstr strcpy stpcpy strcat strncpy
vsnprintf snprintf vsprintf sprintf abort
pthread_create pthread_join pthread_detach pthread_self pthread_equal pthread_setname_np pthread_exit
pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock
pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_signal pthread_cond_broadcast pthread_once
pthread_key_create pthread_key_delete pthread_getspecific pthread_setspecific
read write close open openat creat pipe pipe2 fcntl ioctl dup dup2 dup3 lseek
stat lstat fstat fstatat access faccessat readlink mkdir mkdirat rmdir unlink unlinkat remove rename chmod
opendir fdopendir readdir readdir_r dirfd rewinddir closedir getcwd get_current_dir_name chdir fchdir realpath
fread fwrite fflush fclose fopen fdopen fprintf vfprintf printf puts putchar fputs fputc perror
gettimeofday clock_gettime time usleep nanosleep sched_yield poll select
getenv secure_getenv setenv unsetenv clearenv putenv environ atexit exit _exit
fork vfork execvp execv execve execvpe waitpid wait wait4 kill getpid getppid signal sigaction sigprocmask
waitid pthread_atfork scandir alphasort close_range closefrom timespec_get clock clock_getres fsync fdatasync isatty asprintf vasprintf pread pwrite readv writev dprintf vdprintf putc vprintf fgetc getc fgets getline getdelim
fileno clock_nanosleep ppoll pselect wait3 pthread_mutex_timedlock pthread_cond_timedwait pthread_cond_clockwait
pthread_rwlock_init pthread_rwlock_destroy pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_rwlock_unlock
pthread_spin_init pthread_spin_destroy pthread_spin_lock pthread_spin_trylock pthread_spin_unlock
pthread_barrier_init pthread_barrier_destroy pthread_barrier_wait sem_init sem_destroy sem_post sem_wait sem_trywait sem_getvalue
""".split()
ALIAS = ["_Exit", "open64", "stat64", "lstat64", "fstat64", "fstatat64", "readdir64", "openat64", "lseek64", "fopen64", "pthread_sigmask",
         "bcmp", "fcntl64", "pthread_yield"]
OTHER = {"__assert_fail": "sim_assert_fail", "__stack_chk_fail": "sim_stack_chk_fail", "sleep": "sim_sleep_s", "umask": "sim_umask_"}
RENAMES = {**{n: "sim_" + n for n in SAME + ALIAS}, **OTHER}
HARMLESS = set("""__errno_location strerror strerror_r gmtime_r localtime_r gmtime localtime strftime mktime timegm feof ferror clearerr
stderr stdout stdin __ctype_b_loc __ctype_tolower_loc __ctype_toupper_loc tolower toupper isalpha isdigit isspace isprint isxdigit strtol strtoul
strtoll strtoull atoi qsort bsearch strspn strcspn strpbrk strtok_r _GLOBAL_OFFSET_TABLE_ __stack_chk_fail labs abs sysconf getpagesize
strcoll rand rand_r __emutls_get_address sigemptyset sigaddset sigfillset sigdelset sigismember
memrchr rawmemchr strchrnul stpncpy strsep strtok memmem strncasecmp strpbrk div ldiv lldiv frexp ldexp
pthread_mutexattr_init pthread_mutexattr_destroy pthread_mutexattr_settype pthread_condattr_init pthread_condattr_setclock pthread_condattr_destroy
pthread_attr_init pthread_attr_destroy pthread_attr_setstacksize setvbuf fseek ftell rewind ungetc""".split())


COV = "-fsanitize-coverage=edge,inline-8bit-counters,pc-table"


def sources():
    src = os.path.join(REPO, "src/libcork")
    found = sorted(os.path.join(d, f) for d, _, fs in os.walk(src) for f in fs if f.endswith(".c"))
    try:
        listed = re.findall(r"libcork/[\w/.-]+\.c\b", open(os.path.join(REPO, "src/CMakeLists.txt")).read())
        sel = [os.path.join(REPO, "src", x) for x in dict.fromkeys(listed)]
        if sel and all(os.path.exists(x) for x in sel):
            return sel
    except OSError:
        pass
    return found


def digest():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, "include"), os.path.join(REPO, "src/libcork"), os.path.join(VERIF, "sim"),
             os.path.join(VERIF, "checks"), os.path.join(VERIF, "user")]
    files = [os.path.join(REPO, "src/CMakeLists.txt"), os.path.abspath(__file__)]
    for r in roots:
        for d, _, fs in os.walk(r):
            files += [os.path.join(d, f) for f in fs if f.endswith((".c", ".h", ".in", ".def"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0")
        try:
            h.update(open(f, "rb").read())
        except OSError:
            pass
    return h.hexdigest()[:16]


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), p.stdout))
    return p.stdout


def build(verbose=False):
    tag = digest()
    out = os.path.join(BUILD, "sim-" + tag)
    exe = os.path.join(out, "vsim")
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    olds = sorted((d for d in os.listdir(BUILD) if d.startswith("sim-")), key=lambda d: os.path.getmtime(os.path.join(BUILD, d)))
    for d in olds[:-4]:
        shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-", dir=BUILD)
    try:
        gen = os.path.join(tmp, "gen/libcork/config")
        os.makedirs(gen)
        with open(os.path.join(REPO, "include/libcork/config/version.h.in")) as f:
            t = f.read()
        for k, v in (("CORK_VERSION_MAJOR", "0"), ("CORK_VERSION_MINOR", "0"), ("CORK_VERSION_PATCH", "0"),
                     ("CORK_VERSION", "0.0.0"), ("CORK_GIT_SHA1", "sim")):
            t = t.replace("@%s@" % k, v)
        with open(os.path.join(gen, "version.h"), "w") as f:
            f.write(t)
        inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(tmp, "gen"), "-I" + os.path.join(VERIF, "sim"),
               "-I" + os.path.join(VERIF, "checks")]
        base = ["clang", "-g", "-w", "-fno-pie", "-fno-builtin", "-std=gnu11", "-fno-omit-frame-pointer", "-fcommon"]
        inst = ["-O1", "-fstack-protector-all", "-fsanitize=thread", "-mllvm", "-tsan-distinguish-volatile=1", "-mllvm", "-tsan-instrument-func-entry-exit=0",
                "-femulated-tls", "-DCORK_API=CORK_LOCAL"]
        with open(os.path.join(tmp, "redefine"), "w") as f:
            for k, v in RENAMES.items():
                f.write("%s %s\n" % (k, v))
        # The instrumented code is built twice: "vsim" after the usual optimisations, "vsim-fine" without any, so that
        # every access to memory which the source code makes, also one an optimiser would merge or forward, is a
        # scheduling point.
        jobs = []
        lib = []
        for i, s in enumerate(sources()):
            o = os.path.join(tmp, "lib_%02d_%s.o" % (i, os.path.basename(s)[:-2]))
            lib.append(o)
            jobs.append((base + inst + [COV] + inc + ["-c", s, "-o", o], o, True))
        vdir = lambda n: sorted(os.path.join(VERIF, n, f) for f in os.listdir(os.path.join(VERIF, n)) if f.endswith(".c"))
        user = []
        for s in vdir("user"):
            variants = [("", [])]
            head = open(s).read(400)
            if "VARIANT_TLS_KEY" in head:
                variants = [("", []), ("_key", ["-DVARIANT_TLS_KEY=1", "-DCORK_CONFIG_HAVE_THREAD_STORAGE_CLASS=0"])]
            for sfx, fl in variants:
                o = os.path.join(tmp, "user_" + os.path.basename(s)[:-2] + sfx + ".o")
                user.append(o)
                jobs.append((base + inst + fl + inc + ["-c", s, "-o", o], o, True))
        plain = []
        for s in vdir("checks") + vdir("sim"):
            o = os.path.join(tmp, "sim_" + os.path.basename(s)[:-2] + ".o")
            plain.append(o)
            jobs.append((base + ["-O2", "-DCORK_API=CORK_LOCAL"] + inc + ["-c", s, "-o", o], o, False))
        ids = sorted(set(re.findall(r"^DEFCHECK\((\w+),", "\n".join(open(s).read() for s in vdir("checks")), re.M)))
        allc = os.path.join(tmp, "all.c")
        with open(allc, "w") as f:
            f.write('#include "internal.h"\n')
            for i in ids:
                f.write("extern const struct check check_%s;\n" % i)
            f.write("const struct check *const all_checks[] = { %s 0 };\n" % "".join("&check_%s, " % i for i in ids))
        o = os.path.join(tmp, "all.o")
        plain.append(o)
        jobs.append((base + ["-O2"] + inc + ["-c", allc, "-o", o], o, False))

        cache = os.environ.get("VSIM_OBJCACHE")     # development only: objects of unchanged sources are reused
        hdr = hashlib.sha256(b"".join(open(f, "rb").read() for r in (os.path.join(REPO, "include"), os.path.join(VERIF, "sim"), os.path.join(VERIF, "checks"))
                                      for d, _, fs in sorted(os.walk(r)) for f in sorted(os.path.join(d, x) for x in fs) if f.endswith((".h", ".in")))).hexdigest() if cache else ""

        def one(j):
            cmd, obj, redirect = j
            if cache:
                key = os.path.join(cache, hashlib.sha256((hdr + " ".join(cmd).replace(tmp, "") + open(cmd[-3], errors="replace").read()).encode()).hexdigest())
                if os.path.exists(key):
                    shutil.copyfile(key, obj)
                    return
            if obj.endswith(".fine.o"):
                bc, src = obj + ".bc", cmd[-3]
                sh(["clang", "-fgnu89-inline"] + ["-DNDEBUG"] + [x for x in cmd[1:-1] if x != COV] + [bc, "-emit-llvm", "-Xclang", "-disable-llvm-passes"])
                sh(["opt", "-passes=function(sroa,instsimplify,simplifycfg)", bc, "-o", bc])
                be = [x for x in cmd if not x.startswith(("-I", "-D", "-std"))]
                be[be.index("-O1")] = "-O0"
                be[be.index(src)] = bc
                sh(be)
                os.unlink(bc)
            else:
                sh(cmd)
            if redirect:
                sh(["objcopy", "--redefine-syms=" + os.path.join(tmp, "redefine"), obj])
            if cache:
                shutil.copyfile(obj, key)
        fine = lambda o: o[:-2] + ".fine.o"
        jobs += [(cmd[:-1] + [fine(obj)], fine(obj), True) for cmd, obj, redirect in jobs if redirect]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
        e = os.path.join(tmp, "vsim")
        sh(["clang", "-no-pie", "-g", "-o", e] + plain + user + lib + ["-lpthread", "-lm"])
        # an inline function that was not inlined may be present more than once
        sh(["clang", "-no-pie", "-Wl,-z,muldefs", "-g", "-o", e + "-fine"] + plain + [fine(o) for o in user + lib] + ["-lpthread", "-lm"])
        # which libc functions does the library use that are not simulated?
        und = set()
        defd = set()
        for ob in lib:
            for l in sh(["nm", ob]).splitlines():
                p = l.split()
                if p[-2] == "U":
                    und.add(p[-1])
                elif p[-2] in "TtDdBbRrVWC":
                    defd.add(p[-1])
        extra = sorted(x for x in und - defd - HARMLESS if not x.startswith(("sim_", "__tsan_", "__emutls", "cork_")))
        with open(os.path.join(tmp, "unsimulated.txt"), "w") as f:
            f.write("\n".join(extra))
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return exe


if __name__ == "__main__":
    try:
        print(build())
    except RuntimeError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(2)
