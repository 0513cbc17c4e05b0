"""Mutation campaign (development aid, not a registered check).

  python3 tools/mutate.py SCRATCH WORKERS [FILE...]

Makes small changes to the library in scratch copies, drops those that don't compile or that the
repository's tests notice, and runs the checks of the changed file on the rest.  The tests run as an
unprivileged user inside the scratch copy.  Results go to SCRATCH/results.txt."""
import json, os, random, re, shutil, subprocess, sys, threading, queue
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    "src/libcork/core/allocator.c": "C20",
    "src/libcork/core/error.c": "C04 C03 C20 C25",
    "src/libcork/core/gc.c": "C22 C20",
    "src/libcork/core/timestamp.c": "C23",
    "src/libcork/posix/process.c": "C21 C04",
    "src/libcork/posix/env.c": "C27 C14 C20 C25",
    "src/libcork/posix/exec.c": "C14 C20 C12",
    "src/libcork/posix/files.c": "C16 C17 C18 C19 C26 C27 C20 C25",
    "src/libcork/posix/directory-walker.c": "C18 C17 C20",
    "src/libcork/posix/subprocess.c": "C09 C10 C11 C12 C13 C15 C14 C20",
    "src/libcork/pthreads/thread.c": "C02 C03 C01 C20",
    "src/libcork/ds/managed-buffer.c": "C06 C25 C20",
    "src/libcork/ds/slice.c": "C06 C25 C20",
    "src/libcork/ds/file-stream.c": "C07 C08 C20",
    "include/libcork/threads/atomics.h": "C05 C02 C01",
    "include/libcork/threads/basics.h": "C01 C24 C02 C20",
    "include/libcork/helpers/posix.h": "C07 C08 C09 C12 C19",
    "include/libcork/core/gc.h": "C22",
    "include/libcork/core/allocator.h": "C20",
    "src/libcork/ds/buffer.c": "C25 C20 C06",
    "src/libcork/ds/array.c": "C25 C20",
    "src/libcork/ds/hash-table.c": "C25 C20",
    "src/libcork/core/mempool.c": "C25 C20",
}
REL = {"<=": ["<"], ">=": [">"], "<": ["<="], ">": [">="], "==": ["!="], "!=": ["=="], "&&": ["||"], "||": ["&&"]}

def mutants(path, text):
    L = text.split("\n")
    out = []
    depth = 0
    incomment = False
    for n, l in enumerate(L):
        d0 = depth
        s = l.strip()
        if incomment:
            if "*/" in s: incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: incomment = True
            continue
        if not path.endswith(".h"):
            depth += l.count("{") - l.count("}")
        elif l.endswith("\\") or l.startswith(" "):
            d0 = 1
        if d0 == 0 or not s or s.startswith(("#", "//", "DEBUG", "assert", "}")):
            continue
        bs = s.endswith("\\")
        body = s[:-1].rstrip() if bs else s
        def put(new, what):
            ind = l[:len(l) - len(l.lstrip())]
            out.append((n, ind + new + (" \\" if bs else ""), what))
        decl = re.match(r"^(CORK_ATTR_UNUSED |const |struct |static |size_t|int |bool |void |char |ssize_t|pid_t|unsigned|cork_\w+\s+\*?\w+[ ;=])", body)
        prev = L[n - 1].rstrip("\\").rstrip()
        if body.endswith(";") and body.count("(") == body.count(")") and not decl and prev.endswith((";", "{", "}", "*/", ":")) and not body.startswith(("return", "break", "for", "while")):
            put(";", "deleted " + body)
        m = re.match(r"^(\} else )?if \((.*)\) \{(.*)$", body)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            for v in ("0", "1"):
                put("%sif (%s) {%s" % (m.group(1) or "", v + (" && (%s)" if v == "0" else " || (%s)") % m.group(2), m.group(3)), "if(%s) for %s" % (v, m.group(2)))
        for m in re.finditer(r"(?<![-<>=!&|])(<=|>=|==|!=|&&|\|\||<|>)(?![<>=])", body):
            if m.group(1) in "<>" and (body[m.start() - 1:m.start()] != " " or body[m.end():m.end() + 1] != " "):
                continue
            for r in REL[m.group(1)]:
                put(body[:m.start()] + r + body[m.end():], "%s -> %s in %s" % (m.group(1), r, body))
        for a, b in (("true", "false"), ("false", "true"), (" + ", " - "), (" - ", " + "), (" + 1", ""), (" - 1", ""), ("return 0;", "return -1;"), ("return -1;", "return 0;"),
                     ("++", "--"), (" |= ", " = "), (" &= ", " = "), (" += ", " = "), (" -= ", " = "), ("continue;", "break;"), ("break;", ";")):
            for m in re.finditer(re.escape(a), body):
                if a in ("true", "false") and re.match(r"\w", body[m.end():m.end() + 1] or " "): continue
                put(body[:m.start()] + b + body[m.end():], "%s -> %s in %s" % (a, b, body))
    return out

def sh(cmd, to, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=to, **kw)
        return p.returncode, p.stdout.decode("utf8", "replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode("utf8", "replace")

def worker(k, scratch, q, lock, stable, runs):
    w = os.path.join(scratch, "w%d" % k); uid = 50001 + k
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    repo = os.path.join(w, "repo"); ver = os.path.join(w, "verif"); os.makedirs(repo); os.makedirs(ver); os.makedirs(os.path.join(w, "cache"))
    subprocess.run("git -C /repo archive HEAD | tar x -C %s; cp -a /repo/.version-stamp %s/ 2>/dev/null; cp -a %s/sim %s/checks %s/user %s/tools %s/" % (repo, repo, VERIF, VERIF, VERIF, VERIF, ver), shell=True)
    for n in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + n).read().replace("/opt/vp/build.sh", w + "/build.sh").replace("cd /repo", "cd " + repo).replace("/repo/", repo + "/").replace("HOME=${HOME:-/root}", "HOME=" + w)
        open(os.path.join(w, n), "w").write(t)
    subprocess.run("cd %s && git init -q . && git add -A && git -c user.name=m -c user.email=m@m commit -qm x" % repo, shell=True)
    subprocess.run(["chown", "-R", str(uid), w])
    as_user = ["setpriv", "--reuid", str(uid), "--regid", str(uid), "--clear-groups", "env", "-i", "PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME=" + w, "TMPDIR=" + w]
    def tests():
        rc, o = sh(as_user + ["bash", w + "/test.sh", w + "/t.json"], 150, cwd=w)
        sh(["pkill", "-9", "-U", str(uid)], 10)
        try: t = json.load(open(w + "/t.json"))
        except Exception: return "build"
        if not t["passed"]: return "build"
        m = [x for x in stable if x not in t["passed"]]
        return m[0] if m else None
    if os.environ.get("NOTESTS"): base = None
    else: base = tests()
    if base: print("worker", k, "baseline tests fail:", base); return
    while True:
        try: f, n, new, what = q.get_nowait()
        except queue.Empty: return
        p = os.path.join(repo, f); orig = open(p).read()
        L = orig.split("\n"); L[n] = new
        open(p, "w").write("\n".join(L))
        try:
            t = tests()
            if t: res = "tests:" + t
            else:
                rc, o = sh([sys.executable, ver + "/tools/build.py"], 200, env=dict(os.environ, VSIM_REPO=repo, VSIM_OBJCACHE=os.path.join(w, "cache")))
                if rc: res = "SIMBUILD " + o[-300:].replace("\n", " ")
                else:
                    exe = o.strip().split("\n")[-1]; res = "SURVIVED"
                    for c in MAP[f].split():
                        r = runs * (1 if c not in ("C22", "C11") else 0.3)
                        rc, o = sh([exe, "batch", c, "--seed", "1", "--start", "0", "--count", str(int(r)), "--jobs", "1", "--time", "60", "--out", w + "/o.json", "--replay-dir", w + "/rp", "--verify-every", "1001"], 200)
                        if rc != 0:
                            m = re.search(r"class=(\S+)", o); res = "caught:%s rc=%d %s" % (c, rc, m.group(1) if m else ""); break
        finally:
            open(p, "w").write(orig)
        with lock:
            with open(os.path.join(scratch, "results.txt"), "a") as fo:
                fo.write("%s\t%s:%d\t%s\n" % (res, f, n + 1, what))

def main():
    scratch, nw = sys.argv[1], int(sys.argv[2])
    files = sys.argv[3:] or list(MAP)
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    done = set()
    try:
        for l in open(os.path.join(scratch, "results.txt")): done.add(tuple(l.rstrip("\n").split("\t")[1:3]))
    except OSError: pass
    q = queue.Queue()
    all_ = []
    for f in files:
        ms = mutants(f, open("/repo/" + f).read())
        random.Random(f).shuffle(ms)
        all_.append([(f,) + m for m in ms])
    for l in all_:
        for f, n, new, what in l:
            if ("%s:%d" % (f, n + 1), what) not in done: q.put((f, n, new, what))
    print(q.qsize(), "mutants"); sys.stdout.flush()
    lock = threading.Lock()
    ts = [threading.Thread(target=worker, args=(k, scratch, q, lock, stable, float(os.environ.get("RUNS", "4000")))) for k in range(nw)]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == "__main__":
    main()
