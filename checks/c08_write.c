/* C08: consumers that write to a descriptor, a stdio file or a path. */
#include "common.h"
#include <fcntl.h>
#include <unistd.h>

static char *exp_; static size_t elen, ecap;       /* what must be in the file */
static char *got; static size_t glen, gcap;        /* what the reader of the pipe got */
static void add(const void *b, size_t n)
{
    if (elen + n > ecap) { ecap = (elen + n) * 2 + 64; exp_ = realloc(exp_, ecap); }
    memcpy(exp_ + elen, b, n); elen += n;
}
static int rfd, reader_quits; static uint64_t rr;
static void reader(void *a)
{
    char b[5000]; ssize_t k; int n = 0;
    for (;;) {
        k = sim_read(rfd, b, 1 + rndn(&rr, rndn(&rr, 3) ? 200 : 5000));
        if (k == 0) break;
        if (k < 0) { if (errno == EINTR) continue; break; }
        if (glen + k > gcap) { gcap = (glen + k) * 2; got = realloc(got, gcap); }
        memcpy(got + glen, b, k); glen += k;
        if (reader_quits && ++n >= reader_quits) break;
        if (rndn(&rr, 3) == 0) sim_sleep(1000 * (1 + rndn(&rr, 50)));
    }
    sim_close(rfd);
}

/* other threads writing to consumers of their own at the same time */
static void companion(struct thr *t)
{
    static const size_t sizes[] = { 1, 0, 100, 4096, 9000, 300 };
    char path[32], *b, *all = malloc(40000); int n, k, rc, fd = -1, kind, hard, rounds = 1 + rndn(&t->rng, 2); FILE *f = 0; struct cork_stream_consumer *c; size_t total, len, i; struct inode *ino;
    snprintf(path, sizeof path, "/data/other%d", t->id);
    while (rounds--) {
        fs_mk(path, 'f', 0, 0644); ino = fs_look(path, 1); fs_set_data(ino, "", 0);
        kind = rndn(&t->rng, 3); total = 0; n = rndn(&t->rng, 5); hard = 0;
        sim_clear_last_injected();
        if (kind == 0) c = cork_file_from_path_consumer_new(path, O_WRONLY | O_APPEND);
        else { fd = sim_open_file_fd(path, O_WRONLY); if (kind == 2) f = sim_fdopen(fd, "w"); c = kind == 1 ? cork_fd_consumer_new(fd) : cork_file_consumer_new(f); }
        if (!c) { hard = sim_last_errno_injected(); CHECK(hard && (int) cork_error_code() == hard, "C08:wrong-error", "another thread: opening reports %d, the system said %d", cork_error_code(), hard); cork_error_clear(); continue; }
        for (k = rc = 0; k < n && rc == 0; k++) {
            len = sizes[rndn(&t->rng, 6)];
            b = sim_malloc(len + 1);
            for (i = 0; i < len; i++) all[total + i] = b[i] = (char) rnd(&t->rng);
            total += len;
            rc = cork_stream_consumer_data(c, b, len, k == 0);
            CHECK(memcmp(b, all + total - len, len) == 0, "C08:input-changed", "the caller's data were modified");
            sim_free(b);
            hard = sim_last_errno_injected();
            if (kind != 2) CHECK((rc == 0) == (hard == 0) && (!rc || (int) cork_error_code() == hard), "C08:wrong-error", "another thread: the system reported %d, data returned %d, error %d", hard, rc, cork_error_code());
            CHECK(fs_size(ino) <= total && memcmp(fs_data(ino), all, fs_size(ino)) == 0, "C08:content", "another thread: wrong contents after %zu bytes", total);
            if (kind != 2 && rc == 0) CHECK(fs_size(ino) == total, "C08:lost", "another thread: %zu bytes accepted, %zu written", total, fs_size(ino));
            if (rndn(&t->rng, 2)) sim_yield();
        }
        if (rc == 0 && rndn(&t->rng, 3)) cork_stream_consumer_eof(c);
        cork_error_clear();
        cork_stream_consumer_free(c);
        cork_error_clear();
        if (kind == 2) sim_fclose(f); else if (kind == 1) sim_close(fd);
        CHECK(fs_size(ino) <= total && memcmp(fs_data(ino), all, fs_size(ino)) == 0, "C08:content", "another thread: wrong contents after %zu bytes", total);
        sim_probe("another thread writes to a consumer");
    }
    free(all);
}

static void run(void)
{
    struct thr th[2]; int nthr;
    static const size_t sizes[] = { 1, 10, 0, 100, 4096, 4095, 4097, 9000, 40000, 70000 };
    enum { FDF, STDIO, PATH, PIPE } kind = ch(W, 4);
    struct cork_stream_consumer *c; FILE *f = 0; int fd = -1, p[2], rc = 0, i, n, nfd0, hard = 0, open_hard, e, failed = 0, flags = 0, mode, bad = 0, eof_done = 0, viaconsume = 0;
    const char *path = "/data/out"; char *init = 0; size_t initlen = 0, accepted, fill; struct inode *ino; task *rt = 0; uint64_t r;
    static char chunk[200000];
    r = rnd_seed(); rr = r ^ 77;
    fs_mk("/data", 'd', 0, 0755);
    mode = ch(W, 4);         /* 0 new file, 1 truncate an old one, 2 append, 3 overwrite from the start */
    if (mode) { initlen = ch(W, 3) ? 50 : 6000; init = malloc(initlen); sim_pattern(initlen, 900, init); fs_mk(path, 'f', 0, 0640); fs_set_data(fs_look(path, 1), init, initlen); }
    sim_umask = ch(W, 2) ? 022 : 077;
    if (ch(W, 5)) {
        if (ch(W, 3)) sim_fault_enable(FT_EINTR, 20 + ch(W, 400));
        if (ch(W, 3)) sim_fault_enable(FT_SHORT_WRITE, 100 + ch(W, 800));
        if (ch(W, 3) == 0) sim_fault_enable(FT_WRITE_ERR, 5 + ch(W, 200));
        if (ch(W, 4) == 0) sim_fault_enable(FT_OPEN_ERR, 200);
        if (ch(W, 4) == 0) sim_fault_enable(FT_CLOSE_ERR, 300);
        if (ch(W, 5) == 0) sim_disk_left = ch(W, 20000);
        sim_fault_budget(ch(W, 60));
    }
    nfd0 = sim_nfds();
    flags = O_WRONLY | (mode == 0 ? O_CREAT : mode == 1 ? O_TRUNC : mode == 2 ? O_APPEND : 0);
    if (kind == PATH && mode == 0) flags |= ch(W, 3) ? 0 : ch(W, 2) ? O_EXCL : O_TRUNC;
    nthr = ch(W, 6); nthr = nthr < 4 ? 0 : nthr - 3;
    for (i = 0; i < nthr; i++) thr_start(&th[i], i ? TK_PTHREAD : TK_TASK, i, rnd_seed(), companion, 0);
    sim_clear_last_injected();
    if (kind == PIPE) {
        sim_pipe_cap = ch(W, 2) ? 65536 : 32 + ch(W, 6000);
        sim_make_pipe(p); rfd = p[0]; fd = p[1];
        reader_quits = ch(W, 5) == 0 ? 1 + ch(W, 6) : 0;
        c = cork_fd_consumer_new(fd);
        rt = sim_spawn("reader", reader, 0);
    } else if (kind == PATH) {
        bad = ch(W, 8);
        if (bad == 1) path = "/nowhere/out"; else if (bad == 2) path = "/data"; else bad = 0;
        c = cork_file_from_path_consumer_new(path, flags);
        open_hard = sim_last_errno_injected();
        if (!c) {
            CHECK(bad || open_hard, "C08:spurious-failure", "opening %s failed with %d although nothing failed", path, cork_error_code());
            CHECK((int) cork_error_code() == (open_hard ? open_hard : bad == 1 ? ENOENT : (flags & O_EXCL) ? EEXIST : EISDIR), "C08:wrong-error", "opening reports %d, the system said %d", cork_error_code(), open_hard);
            CHECK(nthr || sim_nfds() == nfd0, "C08:fd-leak", "a descriptor is left open");
            cork_error_clear();
            for (i = 0; i < nthr; i++) thr_join(&th[i]);
            CHECK(sim_nfds() == nfd0, "C08:fd-leak", "a descriptor is left open");
            sim_faults_off++;
            sim_probe("open refused");
            end_process(0);
            return;
        }
        CHECK(!bad && !open_hard, "C08:failure-hidden", "opening %s succeeded although the system refused it", path);
        CHECK(nthr || sim_nfds() == nfd0 + 1, "C08:open", "%d descriptors opened", sim_nfds() - nfd0);
        if (mode == 0) CHECK(fs_mode(fs_look(path, 1)) == (0666 & ~sim_umask), "C08:mode", "a new file got the permissions %o", fs_mode(fs_look(path, 1)));
    } else {
        sim_faults_off++;
        if (mode == 0) fs_mk(path, 'f', 0, 0644);
        if (kind == STDIO) {
            f = sim_fopen(path, mode == 0 || mode == 1 ? "w" : mode == 2 ? "a" : "r+");
            if (ch(W, 4) == 0) setvbuf(f, 0, _IONBF, 0);
            c = cork_file_consumer_new(f);
        } else {
            if (mode == 1) fs_set_data(fs_look(path, 1), "", 0);
            fd = sim_open_file_fd(path, flags);
            c = cork_fd_consumer_new(fd);
        }
        sim_faults_off--;
    }
    if (mode == 2 && kind != PIPE) add(init, initlen);
    accepted = elen;
    n = ch(W, 7);
    if (ch(W, 6) == 0) viaconsume = 1;
    for (i = 0; i < n && !failed; i++) {
        size_t k = ch(W, 3) ? sizes[ch(W, 10)] : ch(W, 3000);
        char *b;
        if (viaconsume && k > 20000) k = 20000;
        b = sim_malloc(k + 1);          /* exactly k+1 bytes: out-of-range accesses are seen */
        for (fill = 0; fill < k; fill++) b[fill] = (char) rnd(&r);
        sim_clear_last_injected();
        sim_log("chunk %d: %zu bytes", i, k);
        memcpy(chunk, b, k);
        add(b, k);
        if (viaconsume) {               /* through a producer: several data calls and an eof in the end */
            int src; sim_faults_off++;
            fs_mk("/data/src", 'f', 0, 0644); fs_set_data(fs_look("/data/src", 1), b, k);
            src = sim_open_file_fd("/data/src", O_RDONLY);
            sim_faults_off--;
            rc = cork_consume_fd(c, src);
            eof_done = 1; n = 0;
            sim_faults_off++; sim_close(src); sim_faults_off--;
        } else rc = cork_stream_consumer_data(c, b, k, i == 0);
        CHECK(memcmp(b, chunk, k) == 0, "C08:input-changed", "the caller's data were modified");
        sim_free(b);
        hard = sim_last_errno_injected();
        if (rc) {
            failed = 1; e = cork_error_code();
            CHECK(rc == -1 && cork_error_occurred(), "C08:result", "data returned %d, error %d", rc, e);
            if (kind == STDIO) CHECK(hard ? e == hard : e == EINTR, "C08:wrong-error", "the system reported %d, the consumer %d", hard, e);
            else if (kind == PIPE && !hard) CHECK(e == EPIPE && reader_quits, "C08:spurious-failure", "failed with error %d although nothing failed", e);
            else CHECK(hard && e == hard, hard ? "C08:wrong-error" : "C08:spurious-failure", "the system reported %d, the consumer %d", hard, e);
            sim_probe("write failed");
            cork_error_clear();
        } else {
            CHECK(!cork_error_occurred(), "C08:error-on-success", "success, but the error condition is set");
            if (kind != STDIO && !(viaconsume && kind == PATH && hard && strcmp(sim_last_call_injected(), "close") == 0))
                CHECK(!hard, "C08:failure-hidden", "data returned success although the system reported %d", hard);
            accepted = elen;
            /* descriptors are unbuffered: it must be there now */
            if (kind == FDF || kind == PATH) {
                ino = fs_look(path, 1);
                CHECK(fs_size(ino) >= elen && memcmp(fs_data(ino), exp_, elen) == 0, "C08:content", "after %zu accepted bytes the file (%zu bytes) has other contents", elen, fs_size(ino));
            }
        }
        sim_state(k % 17);
    }
    if (!eof_done && ch(W, 4)) {
        sim_clear_last_injected();
        rc = cork_stream_consumer_eof(c);
        hard = sim_last_errno_injected();
        if (kind == PATH && hard) { CHECK(rc == -1 && (int) cork_error_code() == hard, "C08:failure-hidden", "close failed with %d, eof returned %d", hard, rc); cork_error_clear(); }
        else CHECK(rc == 0, "C08:spurious-failure", "eof failed with error %d", cork_error_code());
        if (kind == PATH) CHECK(nthr || sim_nfds() == nfd0, "C08:fd-leak", "the descriptor is still open after the end of the stream");
    } else if (!eof_done) sim_probe("freed without end of stream");
    cork_stream_consumer_free(c);
    cork_error_clear();
    sim_faults_off++;
    if (kind == PATH) CHECK(nthr || sim_nfds() == nfd0, "C08:fd-leak", "%d descriptors are open after the consumer was freed, %d before it was made", sim_nfds(), nfd0);
    else if (kind == STDIO) { CHECK(nthr || sim_fd_is_open(3), "C08:closed", "the caller's file was closed"); sim_fclose(f); }
    else { CHECK(sim_fd_is_open(fd), "C08:closed", "the caller's descriptor was closed"); sim_close(fd); }
    sim_faults_off--;
    if (rt) {
        sim_join(rt);
        CHECK(glen <= elen && memcmp(got ? got : "", exp_ ? exp_ : "", glen) == 0, "C08:content", "the reader got wrong bytes");
        if (!reader_quits) CHECK(glen >= accepted, "C08:lost", "%zu bytes were accepted, %zu arrived", accepted, glen);
    } else {
        size_t fl;
        ino = fs_look(path, 1); fl = fs_size(ino);
        if (mode == 3) {       /* what lies behind the written part is kept */
            size_t keep = accepted < initlen ? accepted : initlen, w;
            (void) keep;
            CHECK(fl >= initlen, "C08:content", "the file shrank");
            for (w = 0; w < fl && w < elen && fs_data(ino)[w] == exp_[w]; w++) ;
            CHECK(w >= accepted || kind == STDIO, "C08:lost", "%zu bytes were accepted, only %zu are right", accepted, w);
            if (!failed && (kind != STDIO || sim_disk_left == (uint64_t) -1)) CHECK(w == elen && fl == (elen > initlen ? elen : initlen) && (elen >= initlen || memcmp(fs_data(ino) + elen, init + elen, initlen - elen) == 0), "C08:content", "the file does not contain what was written");
        } else {
            CHECK(fl <= elen && memcmp(fs_data(ino), exp_ ? exp_ : "", fl) == 0, "C08:content", "%zu bytes in the file are not a prefix of the %zu bytes given", fl, elen);
            if (!failed && (kind != STDIO || sim_disk_left == (uint64_t) -1)) CHECK(fl == elen, "C08:lost", "%zu bytes were accepted, %zu are in the file", elen, fl);
            if (kind != STDIO) CHECK(fl >= accepted, "C08:lost", "%zu bytes were accepted, %zu are in the file", accepted, fl);
        }
    }
    for (i = 0; i < nthr; i++) thr_join(&th[i]);
    CHECK(sim_nfds() == nfd0, "C08:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    end_process(0);
}
DEFCHECK(C08, run);
