/* C07: reading a stream into a consumer. */
#include "common.h"
#include <fcntl.h>
#include <unistd.h>

static char *src; static size_t len, start;
static struct {
    struct cork_stream_consumer c;
    size_t got; int calls, eofs, failed, fail_at /* callback number, -1 never */, fail_code /* 0: no error set */, eof_fail;
    int touch_errno, others;
} K;

static int cb_fail(void)
{
    K.failed = 1;
    sim_fault_note(FT_CALLBACK_FAIL);
    if (K.fail_code) cork_error_set_printf(K.fail_code, "the consumer does not like call %d", K.calls);
    if (K.touch_errno) errno = EINTR;
    return -1;
}
static int k_data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    CHECK(c == &K.c, "C07:consumer", "callback on the wrong consumer");
    CHECK(!K.failed, "C07:callback-after-failure", "a callback was made after a callback had failed");
    CHECK(!K.eofs, "C07:data-after-eof", "data after the end of the stream was signalled");
    CHECK(size > 0, "C07:empty-chunk", "an empty chunk was delivered");
    CHECK(first == (K.calls == 0), "C07:first-flag", "chunk %d has first-chunk flag %d", K.calls, first);
    sim_check_range(buf, size, 0, "chunk");
    CHECK(start + K.got + size <= len, "C07:too-much", "delivered %zu bytes, the stream has %zu", K.got + size, len - start);
    CHECK(memcmp(buf, src + start + K.got, size) == 0, "C07:content", "bytes at offset %zu are wrong", K.got);
    if (K.others) { sim_yield(); CHECK(memcmp(buf, src + start + K.got, size) == 0, "C07:content", "bytes at offset %zu changed during the callback", K.got); }
    K.got += size; K.calls++;
    sim_state(size % 4096);
    if (K.fail_at == K.calls) return cb_fail();
    if (K.touch_errno) errno = K.touch_errno == 1 ? EINTR : EIO;
    return 0;
}
static int k_eof(struct cork_stream_consumer *c)
{
    CHECK(!K.failed, "C07:callback-after-failure", "end of stream signalled after a callback had failed");
    CHECK(K.eofs == 0, "C07:eof-twice", "the end of the stream was signalled twice");
    CHECK(start + K.got == len, "C07:early-eof", "end of stream signalled after %zu of %zu bytes", K.got, len - start);
    K.eofs++;
    if (K.eof_fail) return cb_fail();
    return 0;
}
static void k_free(struct cork_stream_consumer *c) { (void) c; }

/* another process feeding a pipe */
static int wfd; static size_t wtotal; static uint64_t wr;
static void writer(void *a)
{
    size_t off = 0;
    while (off < wtotal) {
        size_t n = 1 + rndn(&wr, rndn(&wr, 3) ? 300 : 9000); ssize_t k;
        if (n > wtotal - off) n = wtotal - off;
        k = sim_write(wfd, src + off, n);
        if (k > 0) off += k; else if (errno != EINTR) break;
        if (rndn(&wr, 3) == 0) sim_sleep(1000 * (1 + rndn(&wr, 50)));
        else if (rndn(&wr, 2)) sim_yield();
    }
    sim_close(wfd);
}

/* other threads reading streams of their own at the same time */
struct comp { struct cork_stream_consumer c; char *data; size_t len, got; int calls, eofs; struct thr *t; };
static int comp_data(struct cork_stream_consumer *c, const void *buf, size_t size, bool first)
{
    struct comp *p = cork_container_of(c, struct comp, c); int k;
    CHECK(first == (p->calls == 0), "C07:first-flag", "another thread's chunk %d has first-chunk flag %d", p->calls, first);
    CHECK(p->got + size <= p->len, "C07:too-much", "another thread's stream: %zu bytes delivered, it has %zu", p->got + size, p->len);
    for (k = 0; k < 2; k++) {       /* the chunk stays as it is during the callback */
        CHECK(memcmp(buf, p->data + p->got, size) == 0, "C07:content", "another thread's stream: bytes at offset %zu are wrong", p->got);
        if (!k) sim_yield();
    }
    p->got += size; p->calls++;
    errno = EAGAIN;
    return 0;
}
static int comp_eof(struct cork_stream_consumer *c)
{
    struct comp *p = cork_container_of(c, struct comp, c);
    CHECK(p->got == p->len && !p->eofs, "C07:early-eof", "another thread's stream: end signalled (%d times) after %zu of %zu bytes", p->eofs + 1, p->got, p->len);
    p->eofs++;
    return 0;
}
static void companion(struct thr *t)
{
    static const size_t sizes[] = { 0, 1, 4096, 4097, 9000, 100, 13000 };
    int n = 1 + rndn(&t->rng, 3), fd = -1, rc, hard, kind; char path[32]; FILE *f = 0;
    while (n--) {
        struct comp p = { { comp_data, comp_eof, k_free }, 0 };
        p.len = sizes[rndn(&t->rng, 7)]; p.data = malloc(p.len + 1); sim_pattern(p.len, 31 + t->id * 7 + n, p.data);
        snprintf(path, sizeof path, "/data/other%d", t->id);
        fs_mk(path, 'f', 0, 0644); fs_set_data(fs_look(path, 1), p.data, p.len);
        kind = rndn(&t->rng, 3);
        if (kind) fd = sim_open_file_fd(path, O_RDONLY);
        if (kind == 2) f = sim_fdopen(fd, "r");
        sim_clear_last_injected();
        rc = kind == 0 ? cork_consume_file_from_path(&p.c, path, O_RDONLY) : kind == 1 ? cork_consume_fd(&p.c, fd) : cork_consume_file(&p.c, f);
        hard = sim_last_errno_injected();
        if (rc == 0) CHECK(p.got == p.len && p.eofs == 1, "C07:success-incomplete", "another thread's stream: success with %zu of %zu bytes, end signalled %d times", p.got, p.len, p.eofs);
        else CHECK(hard && (sim_was_injected_reading(cork_error_code()) || (!sim_reading_failed() && (int) cork_error_code() == hard)), "C07:wrong-error", "another thread's stream: the system reported %d, the call %d", hard, cork_error_code());
        cork_error_clear();
        if (kind == 2) sim_fclose(f); else if (kind == 1) sim_close(fd);
        free(p.data);
        sim_probe("another thread reads a stream");
    }
}

static void run(void)
{
    struct thr th[2]; int nthr = 0;
    static const size_t sizes[] = { 0, 1, 100, 4095, 4096, 4097, 8192, 12288, 20000, 66000, 150000 };
    int kind = ch(W, 4) /* fd, FILE, path, pipe fd/FILE */, stdio = 0, fd = -1, rc, nfd0, missing = 0, e, hard; FILE *f = 0; int p[2]; task *wt = 0;
    off_t end_off = 0; uint64_t r; const char *path = "/data/in";
    size_t live;
    len = sizes[ch(W, 11)]; if (ch(W, 3) == 0) len = ch(W, 30000);
    r = rnd_seed();
    src = malloc(len + 1); sim_pattern(len, 5, src);
    if (ch(W, 8) == 0) memset(src, 0, len);
    if (ch(W, 6) == 0) memset(src, 0xff, len);
    fs_mk("/data", 'd', 0, 0755);
    fs_mk("/data/in", 'f', 0, 0644);
    fs_set_data(fs_look("/data/in", 1), src, len);
    K.c.data = k_data; K.c.eof = k_eof; K.c.free = k_free; K.fail_at = -1;
    if (ch(W, 4) == 0) { K.fail_at = 1 + ch(W, 1 + len / 4096 + 1); K.fail_code = ch(W, 3) ? 900 + K.fail_at : 0; }
    if (ch(W, 6) == 0) { K.eof_fail = 1; K.fail_code = ch(W, 3) ? 777 : 0; }
    K.touch_errno = ch(W, 3);
    if (ch(W, 4)) {
        if (ch(W, 3)) sim_fault_enable(FT_EINTR, 20 + ch(W, 300));
        if (ch(W, 3)) sim_fault_enable(FT_SHORT_READ, 100 + ch(W, 800));
        if (ch(W, 2)) sim_fault_enable(FT_READ_ERR, 5 + ch(W, 150));
        if (ch(W, 3) == 0) sim_fault_enable(FT_OPEN_ERR, 200);
        if (ch(W, 3) == 0) sim_fault_enable(FT_CLOSE_ERR, 200);
        sim_fault_budget(ch(W, 40));
    }
    nfd0 = sim_nfds();
    if (kind == 3) {
        sim_pipe_cap = ch(W, 2) ? 65536 : 1 + ch(W, 8000);
        if (len / sim_pipe_cap > 1000) sim_pipe_cap = len / 1000; /* bounds the length of the run */
        sim_make_pipe(p); fd = p[0]; wfd = p[1]; wtotal = len; wr = r;
        stdio = ch(W, 2);
        if (stdio) f = sim_fdopen(fd, "r");
        wt = sim_spawn("writer", writer, 0);
    } else if (kind == 0 || kind == 1) {
        fd = sim_open_file_fd(path, O_RDONLY);
        start = ch(W, 3) ? 0 : ch(W, len + 1);
        if (kind == 1) {
            size_t i; stdio = 1; f = sim_fdopen(fd, "r");
            if (start > 3000) start = 3000;
            sim_faults_off++;
            for (i = 0; i < start; i++) fgetc(f);
            if (ch(W, 5) == 0) setvbuf(f, 0, _IONBF, 0);
            sim_faults_off--;
        } else sim_lseek(fd, start, SEEK_SET);
    } else {
        missing = ch(W, 8);
        if (missing == 1) path = "/data/none"; else if (missing == 2) path = "/data"; else if (missing == 3) path = "/nowhere/x"; else missing = 0;
    }
    nthr = ch(W, 6); nthr = K.others = nthr < 4 ? 0 : nthr - 3;
    for (e = 0; e < nthr; e++) thr_start(&th[e], e ? TK_PTHREAD : TK_TASK, e, rnd_seed(), companion, 0);
    live = sim_heap_live();
    sim_clear_last_injected();
    sim_log("kind %d stdio %d size %zu start %zu", kind, stdio, len, start);
    if (kind == 2) rc = cork_consume_file_from_path(&K.c, path, O_RDONLY);
    else if (stdio) rc = cork_consume_file(&K.c, f);
    else rc = cork_consume_fd(&K.c, fd);
    e = cork_error_code(); hard = sim_last_errno_injected();
    sim_log("result %d, error %d, injected %d, delivered %zu, eof %d", rc, e, hard, K.got, K.eofs);
    sim_faults_off++;
    if (rc == 0) {
        CHECK(!K.failed, "C07:failure-hidden", "success although the consumer had failed");
        CHECK(start + K.got == len && K.eofs == 1, "C07:success-incomplete", "success with %zu of %zu bytes delivered, end signalled %d times", K.got, len - start, K.eofs);
        CHECK(!cork_error_occurred(), "C07:error-on-success", "success, but the error condition is set (%d)", e);
        CHECK(!missing, "C07:success-missing", "success reading %s", path);
    } else {
        CHECK(rc == -1, "C07:result", "result is %d", rc);
        if (hard && strcmp(sim_last_call_injected(), "close") == 0) sim_probe("close error reported");
        if (K.failed) {
            CHECK(e == K.fail_code, "C07:wrong-error", "the consumer failed with %d, the call reports %d", K.fail_code, e);
            sim_probe("consumer failed");
        } else if (missing && !hard) {
            CHECK(e == (missing == 2 ? EISDIR : ENOENT), "C07:wrong-error", "reading %s reports %d", path, e);
            CHECK(K.calls == 0 && K.eofs == 0, "C07:callback-after-failure", "callbacks although nothing could be read");
        } else {
            CHECK(hard, "C07:spurious-failure", "failed with error %d although nothing failed", e);
            /* a failure to close may be reported only if nothing failed before (stdio might read again after a failure) */
            CHECK(sim_was_injected_reading(e) || (missing == 2 ? e == EISDIR : !sim_reading_failed() && e == hard), "C07:wrong-error", "the system reported %d, the call reports %d", hard, e);
            CHECK(K.eofs == 0 || strcmp(sim_last_call_injected(), "close") == 0, "C07:eof-on-error", "end of stream signalled although reading failed");
            sim_probe("read failed");
        }
    }
    if (kind == 2) {
        CHECK(nthr || sim_nfds() == nfd0, "C07:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    } else {
        CHECK(sim_fd_is_open(fd), "C07:closed", "the caller's descriptor was closed");
        if (!stdio && kind == 0 && rc == 0) { end_off = sim_lseek(fd, 0, SEEK_CUR); CHECK((size_t) end_off == len, "C07:offset", "descriptor is at %ld", (long) end_off); }
        if (stdio) sim_fclose(f); else sim_close(fd);
    }
    cork_error_clear();
    CHECK(nthr || sim_heap_live() <= live + 8, "C07:leak", "memory is left behind");
    if (wt) sim_join(wt);
    for (e = 0; e < nthr; e++) thr_join(&th[e]);
    CHECK(sim_nfds() == nfd0, "C07:fd-leak", "%d descriptors are open, %d before", sim_nfds(), nfd0);
    end_process(0);
}
DEFCHECK(C07, run);
