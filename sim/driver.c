/* Command line driver: batches of seeded runs, replay, shrinking. */
#define _GNU_SOURCE
#include "internal.h"
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double now_s(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
static uint64_t seed_of(uint64_t seed, const char *check, uint64_t index)
{
    return mix(mix(seed * 0x9E3779B97F4A7C15ull + sim_hash_bytes(check, strlen(check))) + index);
}
/* Which edges of the library's control flow graph some run has executed (compiler-maintained counters). */
static unsigned char *cov_c, *cov_map; static uint64_t cov_n; static const uint64_t *cov_pcs; static uint64_t cov_npc;
void __sanitizer_cov_8bit_counters_init(char *a, char *b) { cov_c = (unsigned char *) a; cov_n = b - a; }
void __sanitizer_cov_pcs_init(const uint64_t *a, const uint64_t *b) { cov_pcs = a; cov_npc = (b - a) / 2; }
void cov_merge(void)
{
    uint64_t i;
    if (!cov_map) return;
    for (i = 0; i + 8 <= cov_n; i += 8) if (*(uint64_t *) (cov_c + i)) { int k; for (k = 0; k < 8; k++) if (cov_c[i + k] && !cov_map[i + k]) cov_map[i + k] = 1; }
    for (; i < cov_n; i++) if (cov_c[i] && !cov_map[i]) cov_map[i] = 1;
}
static void cov_dump(FILE *f)
{
    uint64_t i, e = 0, fn = 0, fe = 0; const char *p = getenv("VSIM_COV"); FILE *o = p ? fopen(p, "w") : 0;
    for (i = 0; i < cov_n && i < cov_npc; i++) {
        e += cov_map[i]; if (cov_pcs[2 * i + 1] & 1) { fn++; fe += cov_map[i]; }
        if (o) fprintf(o, "%d %d %llx\n", cov_map[i], (int) (cov_pcs[2 * i + 1] & 1), (unsigned long long) cov_pcs[2 * i]);
    }
    if (o) fclose(o);
    fprintf(f, "\"edges\":%llu,\"edges_reached\":%llu,\"functions\":%llu,\"functions_reached\":%llu,", (unsigned long long) cov_n, (unsigned long long) e, (unsigned long long) fn, (unsigned long long) fe);
}
static struct result *new_result(void)
{
    struct result *r = mmap(0, sizeof *r, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (r == MAP_FAILED) { perror("mmap"); exit(2); }
    return r;
}
static void reset_result(struct result *r)
{
    memset(r, 0, offsetof(struct result, nch));
    memset(r->nch, 0, sizeof r->nch);
    r->trace_len = 0; r->trace[0] = 0;
}
/* 1 ok, 2 violation, 3 discarded */
int run_one(const struct check *c, uint64_t seed, struct choices *rep, int verbose, struct result *res)
{
    pid_t p; int st;
    reset_result(res);
    fflush(stdout);
    p = fork();
    if (p < 0) { perror("fork"); exit(2); }
    if (p == 0) {
        R = res; sim_verbose = verbose; sim_replay = rep; sim_run_seed = seed;
        sim_run_body(c);
        _exit(0);
    }
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
    if (!res->done) {
        snprintf(res->cls, sizeof res->cls, "host-end");
        snprintf(res->msg, sizeof res->msg, "the simulated process ended unexpectedly (host status %x)", st);
        res->done = 2;
    }
    return res->done;
}

struct viol { uint64_t index; char cls[96]; };
struct wstat {
    volatile uint64_t runs, ok, discarded, nondet, steps, maxsteps, steplimit, switches, preempts, simns, syscalls, faulty;
    uint64_t faults[FT_COUNT];
    uint32_t nprobe; char probe[MAXPROBE][40]; uint64_t probe_n[MAXPROBE];
    int nviol; struct viol viol[64];
    uint64_t nondet_idx; char discard_msg[200];
};
struct shared { volatile uint64_t stop_after; struct wstat w[64]; };

static const struct check *find(const char *id)
{
    int i;
    for (i = 0; all_checks[i]; i++) if (!strcmp(all_checks[i]->id, id)) return all_checks[i];
    fprintf(stderr, "no such check: %s\n", id);
    exit(2);
}
static const char *known[32]; static int nknown;
static int is_known(const char *cls)
{
    int i;
    for (i = 0; i < nknown; i++) if (!strcmp(known[i], cls)) return 1;
    return 0;
}
static int cmp64(const void *a, const void *b)
{
    uint64_t x = *(const uint64_t *) a, y = *(const uint64_t *) b;
    return x < y ? -1 : x > y;
}
static uint64_t distinct(uint64_t *v, uint64_t n)
{
    uint64_t i, d = 0;
    qsort(v, n, sizeof *v, cmp64);
    for (i = 0; i < n; i++) if (!i || v[i] != v[i - 1]) d++;
    return d;
}

/* ---------------------------------------------------------- shrinking */
static struct result *SR; static uint64_t nevals, max_evals; static double shrink_end;
static char want[96];
static int still(const struct check *c, struct choices *x)
{
    if (nevals >= max_evals || now_s() > shrink_end) return 0;
    nevals++;
    return run_one(c, 0, x, 0, SR) == 2 && !strcmp(SR->cls, want);
}
static void trim(struct choices *x)
{
    int s;
    for (s = 0; s < NSTREAM; s++) while (x->n[s] && x->v[s][x->n[s] - 1] == 0) x->n[s]--;
}
static void copyc(struct choices *d, const struct choices *s)
{
    int k;
    for (k = 0; k < NSTREAM; k++) { d->n[k] = s->n[k]; memcpy(d->v[k], s->v[k], s->n[k] * 4); }
}
static struct choices *newc(void)
{
    struct choices *c = calloc(1, sizeof *c); int k;
    for (k = 0; k < NSTREAM; k++) c->v[k] = calloc(MAXCH, 4);
    return c;
}
static void shrink(const struct check *c, struct choices *x)
{
    struct choices *t = newc(); int pass, s, improved;
    static const int order[NSTREAM] = { W, F, S };
    trim(x);
    for (pass = 0; pass < 6; pass++) {
        improved = 0;
        for (s = 0; s < NSTREAM; s++) {
            int st = order[s]; uint32_t len, i;
            /* cut the tail */
            for (len = x->n[st]; len >= 1; len /= 2) {
                while (x->n[st] >= len && len) {
                    copyc(t, x); t->n[st] -= len; trim(t);
                    if (still(c, t)) { copyc(x, t); improved = 1; } else break;
                }
            }
            /* zero or delete blocks */
            for (len = x->n[st] / 2 ? x->n[st] / 2 : 1; len >= 1; len /= 2) {
                for (i = 0; i < x->n[st];) {
                    uint32_t k, nz = 0, e = i + len < x->n[st] ? i + len : x->n[st];
                    copyc(t, x);
                    memmove(t->v[st] + i, t->v[st] + e, (t->n[st] - e) * 4); t->n[st] -= e - i; trim(t);
                    if (still(c, t)) { copyc(x, t); improved = 1; continue; }
                    for (k = i; k < e; k++) nz += x->v[st][k] != 0;
                    if (nz) {
                        copyc(t, x);
                        for (k = i; k < e; k++) t->v[st][k] = 0;
                        trim(t);
                        if (still(c, t)) { copyc(x, t); improved = 1; }
                    }
                    i += len;
                }
            }
            /* smaller values */
            for (i = 0; i < x->n[st]; i++) {
                while (x->v[st][i] > 1) {
                    copyc(t, x); t->v[st][i] /= 2;
                    if (still(c, t)) { copyc(x, t); improved = 1; continue; }
                    copyc(t, x); t->v[st][i]--;
                    if (still(c, t)) { copyc(x, t); improved = 1; continue; }
                    break;
                }
            }
        }
        if (!improved || nevals >= max_evals || now_s() > shrink_end) break;
    }
}
static const char *variant = "usual";
static void write_replay(const char *path, const struct check *c, uint64_t seed, uint64_t index, struct choices *x, struct result *r)
{
    FILE *f = fopen(path, "w"); int s; uint32_t i;
    static const char *nm[] = { "W", "S", "F" };
    if (!f) { perror(path); return; }
    fprintf(f, "vsim-replay 1\ncheck %s\nseed %llu\nindex %llu\nclass %s\nmessage %s\nhash %016llx\nvariant %s\n", c->id,
            (unsigned long long) seed, (unsigned long long) index, r->cls, r->msg, (unsigned long long) r->hash, variant);
    for (s = 0; s < NSTREAM; s++) {
        fprintf(f, "%s %u", nm[s], x->n[s]);
        for (i = 0; i < x->n[s]; i++) fprintf(f, " %u", x->v[s][i]);
        fprintf(f, "\n");
    }
    fprintf(f, "--- schedule and fault trace ---\n%s", r->trace);
    fclose(f);
}
static struct choices *load_replay(const char *path, char *check, char *cls, uint64_t *hash)
{
    FILE *f = fopen(path, "r"); char w[64]; struct choices *x = newc(); static char line[1 << 20];
    if (!f) { perror(path); exit(2); }
    check[0] = cls[0] = 0; *hash = 0;
    while (fscanf(f, "%63s", w) == 1) {
        if (!strcmp(w, "---")) break;
        if (!strcmp(w, "check")) { if (fscanf(f, "%63s", check) != 1) break; }
        else if (!strcmp(w, "class")) { if (fscanf(f, " %95[^\n]", cls) != 1) break; }
        else if (!strcmp(w, "hash")) { unsigned long long h; if (fscanf(f, "%llx", &h) != 1) break; *hash = h; }
        else if ((w[0] == 'W' || w[0] == 'S' || w[0] == 'F') && !w[1]) {
            int s = w[0] == 'W' ? W : w[0] == 'S' ? S : F; uint32_t i;
            if (fscanf(f, "%u", &x->n[s]) != 1 || x->n[s] > MAXCH) break;
            for (i = 0; i < x->n[s]; i++) if (fscanf(f, "%u", &x->v[s][i]) != 1) break;
        } else if (!fgets(line, sizeof line, f)) break;
    }
    fclose(f);
    return x;
}
static void jstr(FILE *f, const char *s)
{
    fputc('"', f);
    for (; *s; s++) {
        if (*s == '"' || *s == '\\') fprintf(f, "\\%c", *s);
        else if ((unsigned char) *s < 32) fprintf(f, "\\u%04x", *s);
        else fputc(*s, f);
    }
    fputc('"', f);
}

static int batch(int argc, char **argv)
{
    const struct check *c = find(argv[2]);
    uint64_t seed = 1, start = 0, count = 1000, i; int jobs = 8, k, j; double tmax = 600, t0 = now_s(), shr = 60;
    const char *out = 0, *rdir = "."; uint64_t *hashes; struct shared *sh; uint64_t verify = 97; uint64_t evals = 4000;
    struct wstat T; const struct viol *best = 0; char rpath[600]; struct viol knownv[8]; int nk = 0;
    for (k = 3; k + 1 < argc; k += 2) {
        if (!strcmp(argv[k], "--seed")) seed = strtoull(argv[k + 1], 0, 10);
        else if (!strcmp(argv[k], "--start")) start = strtoull(argv[k + 1], 0, 10);
        else if (!strcmp(argv[k], "--count")) count = strtoull(argv[k + 1], 0, 10);
        else if (!strcmp(argv[k], "--jobs")) jobs = atoi(argv[k + 1]);
        else if (!strcmp(argv[k], "--time")) tmax = atof(argv[k + 1]);
        else if (!strcmp(argv[k], "--out")) out = argv[k + 1];
        else if (!strcmp(argv[k], "--replay-dir")) rdir = argv[k + 1];
        else if (!strcmp(argv[k], "--variant")) variant = argv[k + 1];
        else if (!strcmp(argv[k], "--verify-every")) verify = strtoull(argv[k + 1], 0, 10);
        else if (!strcmp(argv[k], "--shrink-time")) shr = atof(argv[k + 1]);
        else if (!strcmp(argv[k], "--shrink-evals")) evals = strtoull(argv[k + 1], 0, 10);
        else if (!strcmp(argv[k], "--known")) { if (nknown < 32) known[nknown++] = argv[k + 1]; }
        else { fprintf(stderr, "bad option %s\n", argv[k]); return 2; }
    }
    sh = mmap(0, sizeof *sh, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    hashes = mmap(0, count * 16 + 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || hashes == MAP_FAILED) { perror("mmap"); return 2; }
    sh->stop_after = (uint64_t) -1;
    cov_map = mmap(0, cov_n + 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (cov_map == MAP_FAILED) { perror("mmap"); return 2; }
    for (j = 0; j < jobs; j++) {
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) {
            struct result *r = new_result(); struct wstat *w = &sh->w[j];
            for (i = j; i < count; i += jobs) {
                int f, any = 0; uint32_t q;
                if (i > sh->stop_after) break;
                if (now_s() - t0 > tmax) break;
                run_one(c, seed_of(seed, c->id, start + i), 0, 0, r);
                w->runs++;
                hashes[2 * i] = r->hash | 1; hashes[2 * i + 1] = r->state_hash | 1;
                w->steps += r->steps; if (r->steps > w->maxsteps) w->maxsteps = r->steps; if (r->steplimit) w->steplimit = r->steplimit; w->switches += r->switches; w->preempts += r->preempts; w->simns += r->simns; w->syscalls += r->syscalls;
                for (f = 0; f < FT_COUNT; f++) { w->faults[f] += r->faults[f]; any |= r->faults[f] != 0; }
                w->faulty += any;
                for (q = 0; q < r->nprobe; q++) {
                    uint32_t m;
                    for (m = 0; m < w->nprobe; m++) if (!strcmp(w->probe[m], r->probe[q])) break;
                    if (m == w->nprobe && m < MAXPROBE) { strcpy(w->probe[m], r->probe[q]); w->nprobe++; }
                    if (m < MAXPROBE) w->probe_n[m] += 1;
                }
                if (r->done == 1) w->ok++;
                else if (r->done == 3) { w->discarded++; memcpy(w->discard_msg, r->msg, 199); hashes[2 * i] = hashes[2 * i + 1] = 0; }
                else {
                    if (w->nviol < 64) { w->viol[w->nviol].index = start + i; strcpy(w->viol[w->nviol].cls, r->cls); w->nviol++; }
                    if (!is_known(r->cls)) {
                        uint64_t cur;
                        while ((cur = sh->stop_after) > i && !__sync_bool_compare_and_swap(&sh->stop_after, cur, i)) ;
                    }
                }
                if (verify && (start + i) % verify == 0) {
                    uint64_t h = r->hash; int d = r->done;
                    run_one(c, seed_of(seed, c->id, start + i), 0, 0, r);
                    if (r->hash != h || r->done != d) { w->nondet++; w->nondet_idx = start + i; }
                }
            }
            _exit(0);
        }
    }
    while (wait(0) > 0) ;
    memset(&T, 0, sizeof T);
    for (j = 0; j < jobs; j++) {
        struct wstat *w = &sh->w[j]; uint32_t q, m; int f;
        T.runs += w->runs; T.ok += w->ok; T.discarded += w->discarded; T.nondet += w->nondet; T.steps += w->steps; if (w->maxsteps > T.maxsteps) T.maxsteps = w->maxsteps; if (w->steplimit) T.steplimit = w->steplimit; T.faulty += w->faulty;
        if (w->nondet) T.nondet_idx = w->nondet_idx;
        if (w->discarded) memcpy(T.discard_msg, w->discard_msg, 199);
        T.switches += w->switches; T.preempts += w->preempts; T.simns += w->simns; T.syscalls += w->syscalls;
        for (f = 0; f < FT_COUNT; f++) T.faults[f] += w->faults[f];
        for (q = 0; q < w->nprobe; q++) {
            for (m = 0; m < T.nprobe; m++) if (!strcmp(T.probe[m], w->probe[q])) break;
            if (m == T.nprobe && m < MAXPROBE) { strcpy(T.probe[m], w->probe[q]); T.nprobe++; }
            if (m < MAXPROBE) T.probe_n[m] += w->probe_n[q];
        }
        for (k = 0; k < w->nviol; k++) {
            struct viol *v = &w->viol[k];
            if (is_known(v->cls)) {
                int z;
                for (z = 0; z < nk; z++) if (!strcmp(knownv[z].cls, v->cls)) { if (v->index < knownv[z].index) knownv[z] = *v; break; }
                if (z == nk && nk < 8) knownv[nk++] = *v;
            } else if (!best || v->index < best->index) best = v;
        }
    }
    {
        uint64_t n = 0, *a = malloc(count * 8 + 8), *b = malloc(count * 8 + 8), dh, ds; FILE *f;
        double wall_s = now_s() - t0; struct rusage ru;
        for (i = 0; i < count; i++) if (hashes[2 * i]) { a[n] = hashes[2 * i]; b[n] = hashes[2 * i + 1]; n++; }
        dh = distinct(a, n); ds = distinct(b, n);
        getrusage(RUSAGE_CHILDREN, &ru);
        rpath[0] = 0;
        if (best) {
            struct choices *x = newc(); int s; struct result *r = new_result(); char cls[96]; uint64_t h1; int rep_ok;
            SR = new_result();
            run_one(c, seed_of(seed, c->id, best->index), 0, 0, r);
            if (r->done != 2) {
                fprintf(stderr, "NONDETERMINISM: index %llu did not violate again\n", (unsigned long long) best->index);
                return 3;
            }
            strcpy(cls, r->cls); strcpy(want, cls);
            for (s = 0; s < NSTREAM; s++) { x->n[s] = r->nch[s]; memcpy(x->v[s], r->ch[s], r->nch[s] * 4); }
            h1 = r->hash;
            run_one(c, 0, x, 0, r);
            rep_ok = r->done == 2 && r->hash == h1;
            if (!rep_ok) { fprintf(stderr, "NONDETERMINISM: choices of index %llu do not replay\n", (unsigned long long) best->index); return 3; }
            max_evals = evals; nevals = 0; shrink_end = now_s() + shr;
            shrink(c, x);
            run_one(c, 0, x, 1, r);
            h1 = r->hash;
            run_one(c, 0, x, 1, r);
            if (r->done != 2 || r->hash != h1) { fprintf(stderr, "NONDETERMINISM: minimised run\n"); return 3; }
            snprintf(rpath, sizeof rpath, "%s/%s-%llu-%llu.replay", rdir, c->id, (unsigned long long) seed, (unsigned long long) best->index);
            write_replay(rpath, c, seed, best->index, x, r);
            printf("violation check=%s seed=%llu index=%llu class=%s choices W=%u S=%u F=%u shrink_runs=%llu\n  %s\n", c->id,
                   (unsigned long long) seed, (unsigned long long) best->index, r->cls, x->n[W], x->n[S], x->n[F],
                   (unsigned long long) nevals, r->msg);
        }
        f = out ? fopen(out, "w") : stdout;
        if (!f) { perror(out); return 2; }
        fprintf(f, "{\"check\":\"%s\",\"seed\":%llu,\"start\":%llu,\"requested\":%llu,\"runs\":%llu,\"ok\":%llu,\"discarded\":%llu,\"nondeterministic\":%llu,\"nondet_index\":%llu,",
                c->id, (unsigned long long) seed, (unsigned long long) start, (unsigned long long) count, (unsigned long long) T.runs, (unsigned long long) T.ok,
                (unsigned long long) T.discarded, (unsigned long long) T.nondet, (unsigned long long) T.nondet_idx);
        fprintf(f, "\"discard_msg\":"); jstr(f, T.discard_msg);
        fprintf(f, ",\"steps\":%llu,\"max_steps\":%llu,\"step_limit\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"sim_ns\":%llu,\"syscalls\":%llu,\"runs_with_faults\":%llu,\"distinct_executions\":%llu,\"distinct_states\":%llu,\"wall_s\":%.3f,\"cpu_s\":%.3f,",
                (unsigned long long) T.steps, (unsigned long long) T.maxsteps, (unsigned long long) T.steplimit, (unsigned long long) T.switches, (unsigned long long) T.preempts, (unsigned long long) T.simns,
                (unsigned long long) T.syscalls, (unsigned long long) T.faulty, (unsigned long long) dh, (unsigned long long) ds, wall_s,
                ru.ru_utime.tv_sec + ru.ru_stime.tv_sec + (ru.ru_utime.tv_usec + ru.ru_stime.tv_usec) / 1e6);
        cov_dump(f);
        fprintf(f, "\"faults\":{");
        { int q, first = 1; for (q = 0; q < FT_COUNT; q++) if (T.faults[q]) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", fault_names[q], (unsigned long long) T.faults[q]); first = 0; } }
        fprintf(f, "},\"probes\":{");
        for (k = 0; k < (int) T.nprobe; k++) { if (k) fputc(',', f); jstr(f, T.probe[k]); fprintf(f, ":%llu", (unsigned long long) T.probe_n[k]); }
        fprintf(f, "},\"known\":[");
        for (k = 0; k < nk; k++) { fprintf(f, "%s{\"class\":", k ? "," : ""); jstr(f, knownv[k].cls); fprintf(f, ",\"index\":%llu}", (unsigned long long) knownv[k].index); }
        fprintf(f, "],\"violation\":");
        if (best) { fprintf(f, "{\"class\":"); jstr(f, best->cls); fprintf(f, ",\"index\":%llu,\"replay\":", (unsigned long long) best->index); jstr(f, rpath); fprintf(f, "}"); }
        else fprintf(f, "null");
        fprintf(f, "}\n");
        if (out) fclose(f);
    }
    if (T.nondet) { fprintf(stderr, "NONDETERMINISM: index %llu\n", (unsigned long long) T.nondet_idx); return 3; }
    return best ? 1 : 0;
}

int main(int argc, char **argv)
{
    int i;
    if (!getenv("VSIM_NOASLR")) {          /* the same addresses in every process, if the host allows it */
        setenv("VSIM_NOASLR", "1", 1);
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("TZ", "UTC", 1);
    setenv("LC_ALL", "C", 1);
    if (argc >= 2 && !strcmp(argv[1], "list")) { for (i = 0; all_checks[i]; i++) printf("%s\n", all_checks[i]->id); return 0; }
    if (argc >= 3 && !strcmp(argv[1], "batch")) return batch(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        char check[64], cls[96]; uint64_t h; struct choices *x = load_replay(argv[2], check, cls, &h);
        struct result *r = new_result(); const struct check *c = find(check);
        run_one(c, 0, x, 1, r);
        fputs(r->trace, stdout);
        printf("replayed %s: %s class=%s hash=%016llx expected class=%s hash=%016llx -> %s\n  %s\n", check,
               r->done == 2 ? "VIOLATION" : r->done == 1 ? "no violation" : "discarded", r->done == 2 ? r->cls : "-",
               (unsigned long long) r->hash, cls, (unsigned long long) h,
               r->done == 2 && r->hash == h && !strcmp(r->cls, cls) ? "reproduced exactly" : "NOT reproduced", r->msg);
        return r->done == 2 && r->hash == h && !strcmp(r->cls, cls) ? 1 : r->done == 2 ? 4 : 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "run")) {       /* run CHECK SEED INDEX */
        struct result *r = new_result(); const struct check *c = find(argv[2]); uint32_t q;
        run_one(c, seed_of(strtoull(argv[3], 0, 10), c->id, strtoull(argv[4], 0, 10)), 0, argc < 6, r);
        if (argc < 6) fputs(r->trace, stdout);
        for (q = 0; q < r->nprobe; q++) printf("probe %s %u\n", r->probe[q], r->probe_n[q]);
        printf("done=%d class=%s hash=%016llx steps=%llu switches=%llu sim=%.3fms W=%u S=%u F=%u\n  %s\n", r->done, r->cls, (unsigned long long) r->hash,
               (unsigned long long) r->steps, (unsigned long long) r->switches, r->simns / 1e6, r->nch[0], r->nch[1], r->nch[2], r->msg);
        return r->done == 2;
    }
    fprintf(stderr, "usage: sim list | batch CHECK [options] | replay FILE | run CHECK SEED INDEX [quiet]\n");
    return 2;
}
