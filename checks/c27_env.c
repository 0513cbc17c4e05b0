/* C27: environment objects, the process's environment, and the standard
 * directories that are derived from it.  The environment is shared with the
 * host program, which edits it (also with malformed entries) in between. */
#include "common.h"
extern char **sim_environ;
int sim_setenv(const char *name, const char *value, int over);
int sim_unsetenv(const char *name);
int sim_putenv(char *s);
int sim_clearenv(void);

#define NN 300
static int top = NN;
static const char *names[NN] = { "HOME", "XDG_CONFIG_HOME", "XDG_CONFIG_DIRS", "XDG_DATA_HOME", "XDG_DATA_DIRS", "XDG_CACHE_HOME", "XDG_RUNTIME_DIR",
    "A", "AB", "HOM", "HOMER", "home", "PATH", "a long name with spaces, longer than the others" };
struct model { char *v[NN]; };
static struct model cur, obj[4]; static struct cork_env *env[4]; static uint64_t r;

static void m_set(struct model *m, int i, const char *v) { char *n = v ? strdup(v) : 0; free(m->v[i]); m->v[i] = n; }
static void m_copy(struct model *d, const struct model *s) { int i; for (i = 0; i < top; i++) m_set(d, i, s->v[i]); }
static void mk_value(char *b, int dirs)
{
    int l, i, k;
    switch (ch(W, 6)) {
    case 0: strcpy(b, "/h"); return;
    case 1: b[0] = 0; return;
    case 2: l = 1 + ch(W, 6); break;
    case 3: l = 1 + ch(W, 40); break;
    case 4: strcpy(b, ch(W, 2) ? "/" : "/x/"); return;
    default: l = 1 + ch(W, 5000);
    }
    for (i = 0; i < l; i++) { k = rndn(&r, 12); b[i] = k == 0 ? '/' : k == 1 ? (dirs ? ':' : '=') : k == 2 ? "=% ;$:"[rndn(&r, 6)] : k == 3 ? (char) 0xc3 : 'a' + (int) rndn(&r, 26); }
    b[l] = 0;
}
static void check_env(int k, int i)
{
    const struct model *m = k < 0 ? &cur : &obj[k]; const char *g = cork_env_get(k < 0 ? NULL : env[k], names[i]), *x = m->v[i];
    CHECK(!g == !x, "C27:lookup", "%s is %s in the %s environment, should be %s", names[i], g ? "set" : "unset", k < 0 ? "process's" : "object's", x ? "set" : "unset");
    CHECK(!g || !strcmp(g, x), "C27:lookup", "%s is \"%.60s\", should be \"%.60s\"", names[i], g, x);
}
/* the process's environment holds exactly the variables of the model, once each */
static void check_cur(int malformed_ok)
{
    int i, n = 0, want = 0; char **p;
    for (i = 0; i < top; i++) want += cur.v[i] != 0;
    for (p = sim_environ; p && *p; p++) {
        const char *e = strchr(*p, '=');
        if (!e || e == *p) { CHECK(malformed_ok, "C27:environment", "the environment contains \"%.40s\"", *p); continue; }
        for (i = 0; i < top; i++) if (strlen(names[i]) == (size_t) (e - *p) && !strncmp(names[i], *p, e - *p)) break;
        CHECK(i < top && cur.v[i] && !strcmp(cur.v[i], e + 1), "C27:environment", "the environment contains \"%.60s\"", *p);
        n++;
    }
    CHECK(n == want, "C27:environment", "the process's environment has %d variables, should have %d", n, want);
}
static const char *ne(int i) { return cur.v[i] && cur.v[i][0] ? cur.v[i] : 0; }
static void joined(char *out, const char *home, const char *rel) { sprintf(out, "%s%s%s", home, home[strlen(home) - 1] == '/' ? "" : "/", rel); }
static void undefined(const char *what)
{
    CHECK(cork_error_occurred(), "C27:no-error", "%s is undefined, but there is no error", what);
    cork_error_clear();
    sim_probe("undefined standard directory");
}
static void check_path(const char *what, struct cork_path *p, const char *want)
{
    if (!want) { CHECK(!p, "C27:directory", "%s is \"%.60s\", should be undefined", what, cork_path_get(p)); undefined(what); return; }
    CHECK(p, "C27:directory", "%s is undefined, should be \"%.60s\"", what, want);
    CHECK(!cork_error_occurred(), "C27:error-on-success", "%s: success, but the error condition is set", what);
    CHECK(!strcmp(cork_path_get(p), want), "C27:directory", "%s is \"%.60s\", should be \"%.60s\"", what, cork_path_get(p), want);
    cork_path_free(p);
}
static void check_list(const char *what, struct cork_path_list *l, int hv, const char *rel, int dv, const char *d1, const char *d2)
{
    char first[6000], all[12000]; size_t n = 0, at; const char *s, *e;
    if (!ne(hv) && !ne(0)) { CHECK(!l, "C27:directory", "%s should be undefined", what); undefined(what); return; }
    CHECK(l, "C27:directory", "%s is undefined", what);
    CHECK(!cork_error_occurred(), "C27:error-on-success", "%s: success, but the error condition is set", what);
    if (ne(hv)) strcpy(first, ne(hv)); else joined(first, ne(0), rel);
    CHECK(cork_path_list_size(l) >= 1 && !strcmp(cork_path_get(cork_path_list_get(l, 0)), first), "C27:directory", "%s begins with \"%.60s\", should be \"%.60s\"", what,
          cork_path_list_size(l) ? cork_path_get(cork_path_list_get(l, 0)) : "(nothing)", first);
    if (ne(dv)) strcpy(all, ne(dv)); else sprintf(all, "%s%s%s", d1, d2 ? ":" : "", d2 ? d2 : "");
    /* the non-empty components, in order */
    at = 1;
    for (s = all; ; s = e + 1) {
        e = strchr(s, ':'); if (!e) e = s + strlen(s);
        if (e > s) {
            const char *g;
            while (at < cork_path_list_size(l) && !cork_path_get(cork_path_list_get(l, at))[0]) at++;
            CHECK(at < cork_path_list_size(l), "C27:directory", "%s ends before \"%.40s\"", what, s);
            g = cork_path_get(cork_path_list_get(l, at));
            CHECK(strlen(g) == (size_t) (e - s) && !strncmp(g, s, e - s), "C27:directory", "%s has \"%.60s\", should be \"%.*s\"", what, g, (int) (e - s > 60 ? 60 : e - s), s);
            at++; n++;
        }
        if (!*e) break;
    }
    while (at < cork_path_list_size(l) && !cork_path_get(cork_path_list_get(l, at))[0]) at++;
    CHECK(at == cork_path_list_size(l), "C27:directory", "%s has more directories than it should", what);
    cork_path_list_free(l);
    if (n > 3) sim_probe("list of several directories");
}
/* several threads read the environment, which nobody changes meanwhile, and edit copies of their own */
static void reader(struct thr *t)
{
    char b[6100], *h; int i, j, ops = 1 + (int) rndn(&t->rng, 5); struct cork_env *e;
    while (ops-- > 0) switch (rndn(&t->rng, 7)) {
    case 0: case 1: case 2:
        e = cork_env_clone_current();
        for (j = 0; j < 2; j++) {
            for (i = 0; i < top; i++) {
                const char *g = cork_env_get(e, names[i]), *x = cur.v[i];
                if (j && i % 7 == t->id) { snprintf(b, sizeof b, "%d/%d", t->id, i); x = i % 2 ? b : 0; }
                CHECK(!g == !x && (!g || !strcmp(g, x)), "C27:lookup", "thread %d: %s is \"%.60s\" in its own copy of the environment, should be \"%.60s\"", t->id, names[i], g ? g : "(unset)", x ? x : "(unset)");
            }
            if (!j) for (i = t->id; i < top; i += 7) if (i % 2) cork_env_add_printf(e, names[i], "%d/%d", t->id, i); else cork_env_remove(e, names[i]);
        }
        cork_env_free(e);
        break;
    case 3: check_path("the home directory", cork_path_home(), ne(0)); break;
    case 4: check_list("data directories", cork_path_data_paths(), 3, ".local/share", 4, "/usr/local/share", "/usr/share"); break;
    case 5: check_list("configuration directories", cork_path_config_paths(), 1, ".config", 2, "/etc/xdg", 0); break;
    default: h = 0; if (!ne(5) && ne(0)) joined(h = b, ne(0), ".cache"); check_path("the cache directory", cork_path_user_cache_path(), ne(5) ? ne(5) : h);
    }
}
static void on_abort(void)
{
    CHECK(sim_last_errno_injected() == ENOMEM, "C27:spurious-abort", "the process was terminated although no allocation failed");
    sim_probe("terminated after a variable could not be set");
}
/* an allocation that fails within setenv ends the process, as everywhere else in the library */
static void risky(int on)
{
    if (on) { sim_clear_last_injected(); sim_faults_off--; return; }
    sim_faults_off++;
    CHECK(!sim_last_errno_injected(), "C27:variable-lost", "a variable could not be set (error %d), but the call returned", sim_last_errno_injected());
}
static void run(void)
{
    static char v[6000], w[6000]; int steps = 2 + ch(W, 25), i, k, malformed = 0; size_t live; int nobj = 0;
    r = rnd_seed(); top = ch(W, 20) == 19 ? NN : 56; if (top == NN) sim_probe("up to 300 variables");
    for (i = 14; i < top; i++) { char b[1100]; sprintf(b, "V%02d", i); if (i % 7 == 0 && i < 56) { k = 3 + 20 * (i - 13); memset(b + 3, 'n', k); b[k] = 0; } names[i] = strdup(b); }
    memset(&cur, 0, sizeof cur); memset(obj, 0, sizeof obj); memset(env, 0, sizeof env);
    cork_error_set_string(1, "x"); cork_error_clear();
    for (i = ch(W, 8); i > 0; i--) { k = ch(W, 56); mk_value(v, k == 2 || k == 4); sim_setenv(names[k], v, 1); m_set(&cur, k, v); }
    if (top == NN && ch(W, 2)) { k = 200 + ch(W, NN - 200); for (i = 14; i < k; i++) { sprintf(v, "%d at start", i); sim_setenv(names[i], v, 1); m_set(&cur, i, v); } }
    live = sim_heap_live();
    sim_faults_off++; sim_abort_ok = 1; sim_abort_cb = on_abort;
    if (ch(F, 4) == 3) sim_fault_enable(FT_SETENV_ERR, 5 + ch(F, 60));
    while (steps-- > 0) {
        i = ch(W, 3) ? ch(W, 7) : ch(W, ch(W, 4) ? 56 : top); k = (int) ch(W, 5) - 1;
        mk_value(v, i == 2 || i == 4);
        if (k >= 0 && !env[k]) {
            /* a new object */
            size_t before = sim_heap_live(); (void) before;
            if (ch(W, 2)) { env[k] = cork_env_clone_current(); m_copy(&obj[k], &cur); if (!sim_environ) sim_probe("clone of no environment"); }
            else { int j; env[k] = cork_env_new(); for (j = 0; j < top; j++) m_set(&obj[k], j, 0); }
            nobj++;
            for (i = 0; i < top; i++) check_env(k, i);
            continue;
        }
        switch (ch(W, 12)) {
        case 11: { /* many variables, or none of them */
            int lo = ch(W, 30), hi = lo + ch(W, (ch(W, 2) ? 56 : top) - lo) + 1, rm = ch(W, 4) == 0;
            sim_log("%s variables %d to %d of %d", rm ? "remove" : "add", lo, hi, k);
            for (i = lo; i < hi; i++) {
                if (rm) cork_env_remove(k < 0 ? NULL : env[k], names[i]);
                else { snprintf(v, sizeof v, "%d of many", i); risky(1); cork_env_add(k < 0 ? NULL : env[k], names[i], v); risky(0); }
                m_set(k < 0 ? &cur : &obj[k], i, rm ? 0 : v);
            }
            for (i = 0; i < top; i++) check_env(k, i);
            i = lo; break; }
        case 0: case 1: strcpy(w, v); risky(1); cork_env_add(k < 0 ? NULL : env[k], names[i], w); risky(0); memset(w, '!', strlen(w)); m_set(k < 0 ? &cur : &obj[k], i, v); sim_log("add %s to %d", names[i], k); break;
        case 2: strcpy(w, v); risky(1); cork_env_add_printf(k < 0 ? NULL : env[k], names[i], "%d/%s", i, w); risky(0); memset(w, '!', strlen(w)); snprintf(w, sizeof w, "%d/%s", i, v); m_set(k < 0 ? &cur : &obj[k], i, w); break;
        case 3: cork_env_remove(k < 0 ? NULL : env[k], names[i]); m_set(k < 0 ? &cur : &obj[k], i, 0); sim_log("remove %s from %d", names[i], k); break;
        case 4: { /* the value of one variable becomes that of another */
            int j = ch(W, top), k2 = (int) ch(W, 5) - 1; const char *g;
            if (k2 >= 0 && !env[k2]) k2 = k;
            g = cork_env_get(k2 < 0 ? NULL : env[k2], names[j]);
            if (g) { snprintf(w, sizeof w, "%s", g); risky(1); cork_env_add(k < 0 ? NULL : env[k], names[i], g); risky(0); m_set(k < 0 ? &cur : &obj[k], i, w); }
            break; }
        case 5: if (k >= 0) { sim_log("replace the environment by %d", k); risky(1); cork_env_replace_current(env[k]); risky(0); m_copy(&cur, &obj[k]); malformed = 0; check_cur(0); } break;
        case 6: if (k >= 0) { cork_env_free(env[k]); env[k] = 0; nobj--; } break;
        case 7: /* the host program changes the environment */
            sim_fault_note(FT_EXTERNAL);
            switch (ch(W, 5)) {
            case 0: sim_setenv(names[i], v, 1); m_set(&cur, i, v); break;
            case 1: sim_unsetenv(names[i]); m_set(&cur, i, 0); break;
            case 2: { char *e = malloc(strlen(v) + strlen(names[i]) + 2); sprintf(e, "%s=%s", names[i], v); sim_putenv(e); m_set(&cur, i, v); break; }
            case 3: sim_clearenv(); for (i = 0; i < top; i++) m_set(&cur, i, 0); i = 0; malformed = 0; sim_probe("environment cleared"); break;
            default: { /* an entry without a value */
                size_t n = 0; char **e; while (sim_environ && sim_environ[n]) n++;
                e = calloc(n + 2, sizeof *e); if (n) memcpy(e + 1, sim_environ, n * sizeof *e);
                e[0] = strdup(ch(W, 2) ? "HOME" : "garbage"); sim_environ = e; malformed = 1; sim_probe("malformed entry"); }
            }
            break;
        default: {
            size_t l0 = sim_heap_live(); char *h = 0;
            switch (ch(W, 5)) {
            case 0: check_path("the home directory", cork_path_home(), ne(0)); break;
            case 1: check_list("configuration directories", cork_path_config_paths(), 1, ".config", 2, "/etc/xdg", 0); break;
            case 2: check_list("data directories", cork_path_data_paths(), 3, ".local/share", 4, "/usr/local/share", "/usr/share"); break;
            case 3: if (!ne(5) && ne(0)) joined(h = w, ne(0), ".cache"); check_path("the cache directory", cork_path_user_cache_path(), ne(5) ? ne(5) : h); break;
            default: check_path("the runtime directory", cork_path_user_runtime_path(), ne(6));
            }
            CHECK(sim_heap_live() <= l0 + 1, "C27:leak", "looking up a standard directory left memory behind");
            }
        }
        if (k >= 0 && env[k]) check_env(k, i);
        check_env(-1, i);
        check_cur(malformed);
        for (k = 0; k < 4; k++) if (env[k]) check_env(k, ch(W, top));
        sim_state(nobj);
    }
    for (k = 0; k < 4; k++) if (env[k]) { for (i = 0; i < top; i++) check_env(k, i); cork_env_free(env[k]); }
    check_cur(malformed);
    CHECK(sim_heap_live() <= live + 1, "C27:leak", "%zu blocks left behind", sim_heap_live() - live);
    sim_faults_off--;
    if (ch(W, 4) == 3) {
        struct thr th[3]; int n = 2 + ch(W, 2);
        sim_probe("several threads read the environment");
        for (i = 0; i < n; i++) thr_start(&th[i], ch(W, 3), i, rnd_seed(), reader, 0);
        for (i = 0; i < n; i++) thr_join(&th[i]);
        check_cur(malformed);
    }
    end_process(0);
}
DEFCHECK(C27, run);
