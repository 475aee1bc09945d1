// Runs the library's own randombytes() with stand-ins for the system calls it makes (the object file's references to
// open, read, ... are renamed to fk_*), so that the script decides what the system answers and in which order threads
// are served.  Every call and every answer is recorded.  Each behaviour runs in a process of its own.
//
//   S perm t:a:r ...      behaviour generated from the specification: thread t, a in {k(ask) o(pen) r(ead)}, result r;
//                         perm: 0, or 1 = every open fails from here on, 2 = every read fails
//   G n r r ...           one request of n bytes (any size), reads deliver at most r bytes each
//   P n1 n2 n3            one request, then one each by a child process and by its parent
//   F threads requests maxlen seed     threads running freely
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#include <time.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>

int randombytes(unsigned char *x, unsigned long long n);

#define MAXT 8
#define SLACK 256
enum { RUN, WAIT, DONE };
enum { ASK = 'k', OPEN = 'o', READ = 'r' };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static struct T { int state, kind, grant; long res; unsigned char *buf; unsigned long long n; long calls; } th[MAXT + 1];
static __thread int me;
static int perm, scheduled, big, draining;
static unsigned long long *posp;    // shared with child processes
#define pos (*posp)
static int nfd; static unsigned char fds[4096];
static long limit[64]; static int nlimit, ilimit;
static uint32_t rs;
#define FDBASE 700000

static unsigned char stream(unsigned long long i) { return (i * 167 + (i >> 8) * 59 + (i >> 4) * 31 + 13) & 255; }
static void emit(const char *f, ...) { va_list a; va_start(a, f); vprintf(f, a); va_end(a); }
static uint32_t rnd(void) { rs = rs * 1664525u + 1013904223u; return rs >> 8; }

// wait for the script to serve this thread; called with mu held, returns the scripted result or -99
static long point(int kind)
{
    struct T *t = &th[me];
    if (me == 0 || !scheduled) return -99;
    t->state = WAIT; t->kind = kind; t->grant = 0; pthread_cond_broadcast(&cv);
    while (!t->grant) pthread_cond_wait(&cv, &mu);
    t->state = RUN;
    return t->res;
}
static void count(void)
{
    if (++th[me].calls > (perm ? 300 : big ? 3000 : 20000)) { // very large requests in small pieces are cut short
        emit("{\"e\":\"%s\",\"t\":%d}\n", perm ? "stuck" : big ? "cut" : "hang", me); fflush(stdout); _exit(0);
    }
}
static int do_open(const char *path)
{
    pthread_mutex_lock(&mu); count();
    long r = point(OPEN);
    if (r == -99) r = (!scheduled && !big && rnd() % 3 == 0 && th[me].calls < 50) ? -1 : 1;
    if (perm == 1) r = -1;
    int fd = -1;
    if (r != -1) { fd = ++nfd; if (fd < 4096) fds[fd] = 1; }
    int ok = !strcmp(path, "/dev/urandom") || !strcmp(path, "/dev/random");
    emit("{\"e\":\"open\",\"t\":%d,\"dev\":%d,\"fd\":%d}\n", me, ok, fd);
    pthread_mutex_unlock(&mu);
    if (fd == -1) { errno = rnd() & 1 ? EMFILE : EINTR; return -1; }
    return fd + FDBASE;
}
int fk_open(const char *p, int fl, ...) { return do_open(p); }
int fk_openat(int d, const char *p, int fl, ...) { return do_open(p); }
int fk_open64(const char *p, int fl, ...) { return do_open(p); }
int fk_openat64(int d, const char *p, int fl, ...) { return do_open(p); }
int fk___open_2(const char *p, int fl) { return do_open(p); }
int fk___open64_2(const char *p, int fl) { return do_open(p); }
int fk_close(int fd)
{
    pthread_mutex_lock(&mu);
    fd -= FDBASE; int was = fd > 0 && fd < 4096 && fds[fd]; if (was) fds[fd] = 0;
    emit("{\"e\":\"close\",\"t\":%d,\"fd\":%d,\"was\":%d}\n", me, fd, was);
    pthread_mutex_unlock(&mu);
    if (!was) { errno = EBADF; return -1; }
    return 0;
}
static void pair(const char *name, unsigned long long v) { emit(",\"%s\":[%llu,%llu]", name, v >> 20, v & 0xFFFFF); }
static ssize_t deliver(void *p, size_t n, int fd)
{
    struct T *t = &th[me];
    unsigned char *x = p;
    pthread_mutex_lock(&mu); count();
    long r = point(READ);
    if (big) {
        size_t k = ilimit < nlimit && limit[ilimit] >= 0 && (size_t)limit[ilimit] < n ? (size_t)limit[ilimit] : n;
        int fail = ilimit < nlimit && limit[ilimit] < 0; if (ilimit < nlimit) ilimit++;
        if (k > 0x7ffff000) k = 0x7ffff000;
        int in = x >= t->buf && x < t->buf + t->n;
        emit("{\"e\":\"bigread\",\"t\":%d,\"in\":%d", me, in);
        pair("off", in ? (unsigned long long)(x - t->buf) : 0); pair("cnt", n); pair("r", fail ? 0 : k); emit(",\"fail\":%d}\n", fail);
        pthread_mutex_unlock(&mu);
        if (!in) memset(p, 0x5a, k);
        if (fail) { errno = EINTR; return -1; }
        return (ssize_t)k;
    }
    if (r == -99) { r = (long)n; if (!scheduled && th[me].calls < 2000) { uint32_t q = rnd() % 8; if (q == 0) r = -1; else if (q < 4) r = n ? rnd() % (n + 1) : 0; } }
    if (perm == 2) r = -1;
    if (r > (long)n) r = (long)n;
    int in = t->buf && x >= t->buf && x < t->buf + t->n + SLACK;
    long off = in ? (long)(x - t->buf) : -1;
    int live = fd == -1 || (fd - FDBASE > 0 && fd - FDBASE < 4096 && fds[fd - FDBASE]);
    if (!live) r = -1;
    emit("{\"e\":\"read\",\"t\":%d,\"live\":%d,\"off\":%ld,\"cnt\":%ld,\"r\":%ld,\"pos\":%llu}\n", me, live, off, n > 1000000 ? 1000000 : (long)n, r, pos);
    for (long k = 0; k < r; k++) { if (!in || x + k < t->buf + t->n + SLACK) x[k] = stream(pos); pos++; }
    pthread_mutex_unlock(&mu);
    if (r < 0) { errno = rnd() & 1 ? EINTR : EAGAIN; return -1; }
    return r;
}
ssize_t fk_read(int fd, void *p, size_t n) { return deliver(p, n, fd); }
ssize_t fk___read_chk(int fd, void *p, size_t n, size_t m) { return deliver(p, n, fd); }
ssize_t fk_getrandom(void *p, size_t n, unsigned fl) { return deliver(p, n, -1); }
int fk_getentropy(void *p, size_t n)
{ size_t k = 0; while (k < n) { ssize_t r = deliver((char *)p + k, n - k, -1); if (r > 0) k += r; } return 0; }
long fk_syscall(long nr, ...)
{ va_list a; va_start(a, nr); void *p = va_arg(a, void *); size_t n = va_arg(a, size_t); va_end(a);
  if (nr == SYS_getrandom) return deliver(p, n, -1); errno = ENOSYS; return -1; }
int fk_fcntl(int fd, int c, ...) { return 0; }
int fk_fcntl64(int fd, int c, ...) { return 0; }
static ssize_t ck_read(void *c, char *p, size_t n) { return deliver(p, n, (int)(intptr_t)c); }
static int ck_close(void *c) { return fk_close((int)(intptr_t)c); }
FILE *fk_fopen(const char *p, const char *m)
{ int fd = do_open(p); if (fd == -1) return 0; cookie_io_functions_t io = { ck_read, 0, 0, ck_close }; return fopencookie((void *)(intptr_t)fd, "r", io); }
FILE *fk_fopen64(const char *p, const char *m) { return fk_fopen(p, m); }

// the other system's source: all or nothing
int BCryptGenRandom(void *h, unsigned char *p, uint32_t n, uint32_t flags)
{
    if (h || flags != 2) { emit("{\"e\":\"misuse\",\"t\":%d}\n", me); return -1; }
    struct T *t = &th[me];
    if (big) {
        pthread_mutex_lock(&mu); count(); int in = p >= t->buf && p < t->buf + t->n;
        emit("{\"e\":\"bigread\",\"t\":%d,\"in\":%d", me, in);
        pair("off", in ? (unsigned long long)(p - t->buf) : 0); pair("cnt", n); pair("r", n); emit(",\"fail\":0}\n");
        pthread_mutex_unlock(&mu);
        return 0;
    }
    pthread_mutex_lock(&mu); count();
    long r = point(READ); if (r == -99) r = n;
    if (perm == 2) r = -1;
    int in = t->buf && p >= t->buf && p < t->buf + t->n + SLACK, fail = r < 0;
    emit("{\"e\":\"gen\",\"t\":%d,\"live\":1,\"off\":%ld,\"cnt\":%u,\"r\":%ld,\"pos\":%llu}\n", me, in ? (long)(p - t->buf) : -1L, n, fail ? -1L : (long)n, pos);
    if (!fail) for (uint32_t k = 0; k < n; k++) { if (!in || p + k < t->buf + t->n + SLACK) p[k] = stream(pos); pos++; }
    pthread_mutex_unlock(&mu);
    return fail ? (int)0xC0000001 : 0;
}

static void request(unsigned long long n)
{
    struct T *t = &th[me];
    unsigned char *m = malloc(SLACK + n + SLACK);
    memset(m, 0xA7, SLACK + n + SLACK);
    pthread_mutex_lock(&mu);
    t->buf = m + SLACK; t->n = n; t->calls = 0;
    emit("{\"e\":\"call\",\"t\":%d,\"n\":%llu}\n", me, n);
    pthread_mutex_unlock(&mu);
    int r = randombytes(m + SLACK, n);
    pthread_mutex_lock(&mu);
    int over = 0;
    for (int k = 0; k < SLACK; k++) over |= m[k] != 0xA7 || m[SLACK + n + k] != 0xA7;
    emit("{\"e\":\"ret\",\"t\":%d,\"ret\":%d,\"over\":%d,\"buf\":\"", me, r, over);
    for (unsigned long long k = 0; k < n; k++) emit("%02x", m[SLACK + k]);
    emit("\"}\n");
    t->buf = 0; t->n = 0;
    pthread_mutex_unlock(&mu);
    free(m);
}
static void *sched_body(void *a)
{
    me = (int)(intptr_t)a;
    for (;;) {
        pthread_mutex_lock(&mu); long n = point(ASK); pthread_mutex_unlock(&mu);
        if (n < 0) break;
        request(n);
    }
    pthread_mutex_lock(&mu); th[me].state = DONE; pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu);
    return 0;
}
// wait until thread t waits for an answer; 0 if it does not come (it waits for another thread inside the library)
static int arrive(int t)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 4000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
    while (th[t].state == RUN) if (pthread_cond_timedwait(&cv, &mu, &ts)) break;
    return th[t].state == WAIT;
}
static void grant(int t, long r) { th[t].res = r; th[t].grant = 1; th[t].state = RUN; pthread_cond_broadcast(&cv); arrive(t); }
static int left(void) { int k = 0; for (int i = 1; i < 4096; i++) k += fds[i]; return k; }

static void behaviour(char **a, int n)
{
    perm = atoi(a[0]); scheduled = 1; rs = 7;
    int nt = 0;
    for (int i = 1; i < n; i++) if (atoi(a[i]) > nt) nt = atoi(a[i]);
    if (nt > MAXT) exit(3);
    pthread_t p[MAXT + 1];
    for (int t = 1; t <= nt; t++) { th[t].state = RUN; pthread_create(&p[t], 0, sched_body, (void *)(intptr_t)t); }
    pthread_mutex_lock(&mu);
    for (int t = 1; t <= nt; t++) while (th[t].state == RUN) pthread_cond_wait(&cv, &mu);
    for (int i = 1; i < n; i++) {
        int t = atoi(a[i]); char k = strchr(a[i], ':')[1]; long r = atol(strrchr(a[i], ':') + 1);
        if (!arrive(t)) continue;
        if (k == ASK) { // let a call that is still under way finish first
            while (th[t].state == WAIT && th[t].kind != ASK) grant(t, 1000000000);
            if (th[t].state == WAIT) grant(t, r);
        } else if (th[t].kind == ASK) continue;
        else grant(t, k == OPEN && th[t].kind == READ && r > 0 ? 1000000000 : r);
    }
    for (int idle = 0; idle < 200;) { // everything succeeds from here on
        int alive = 0, moved = 0;
        for (int t = 1; t <= nt; t++) {
            if (th[t].state == DONE) continue;
            alive = 1;
            if (th[t].state == WAIT) { moved = 1; int ask = th[t].kind == ASK; grant(t, ask ? -1 : 1000000000); }
        }
        if (!alive) break;
        if (!moved) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 4000000; if (ts.tv_nsec >= 1000000000) { ts.tv_sec++; ts.tv_nsec -= 1000000000; } pthread_cond_timedwait(&cv, &mu, &ts); idle++; } else idle = 0;
    }
    pthread_mutex_unlock(&mu);
    for (int t = 1; t <= nt; t++) if (th[t].state != DONE) { emit("{\"e\":\"hang\",\"t\":%d}\n", t); fflush(stdout); _exit(0); }
    emit("{\"e\":\"end\",\"open\":%d}\n", left());
}
static void giant(char **a, int n)
{
    big = 1; me = 1; rs = 3;
    unsigned long long len = strtoull(a[0], 0, 10);
    for (int i = 1; i < n; i++) limit[nlimit++] = atol(a[i]);
    unsigned char *m = mmap(0, len + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) exit(3);
    th[1].buf = m; th[1].n = len;
    emit("{\"e\":\"bigcall\",\"t\":1"); pair("n", len); emit("}\n"); fflush(stdout);
    int r = randombytes(m, len);
    emit("{\"e\":\"bigret\",\"t\":1,\"ret\":%d}\n", r);
}
static void forked(char **a)
{
    me = 0; rs = 5; scheduled = 1;                      // nobody is stepped; everything succeeds
    request(atol(a[0]));
    emit("{\"e\":\"fork\"}\n"); fflush(stdout);
    pid_t c = fork(); if (c < 0) exit(3);
    if (!c) { request(atol(a[1])); request(atol(a[1])); fflush(stdout); _exit(0); }
    int st; if (waitpid(c, &st, 0) != c) exit(3);
    if (st) emit("{\"e\":\"crash\",\"how\":%d}\n", st);
    emit("{\"e\":\"joined\"}\n");
    request(atol(a[2])); request(atol(a[2]));
    emit("{\"e\":\"end\",\"open\":%d}\n", left());
}
static int freq, fmax; static pthread_barrier_t bar;
static void *free_body(void *a)
{
    me = (int)(intptr_t)a; uint32_t s = me * 77 + rs;
    pthread_barrier_wait(&bar);
    for (int k = 0; k < freq; k++) { s = s * 1103515245u + 12345; request((s >> 8) % fmax); }
    return 0;
}
int main(void)
{
    static char line[1 << 20];
    signal(SIGPIPE, SIG_DFL);
    time_t t0 = time(0);
    while (fgets(line, sizeof line, stdin)) {
        fflush(stdout);
        if (time(0) - t0 > 240) break;   // a source that makes threads wait for each other takes long to steer
        pid_t c = fork();
        if (c == 0) {
            static char obuf[1 << 22]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
            alarm(60);
            posp = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (posp == MAP_FAILED) exit(3);
            char *sv, *op = strtok_r(line, " \n", &sv); char *a[4096]; int n = 0; while (n < 4096 && (a[n] = strtok_r(0, " \n", &sv))) n++;
            emit("{\"e\":\"new\",\"perm\":%d}\n", *op == 'S' ? atoi(a[0]) : 0);
            if (*op == 'S') behaviour(a, n);
            else if (*op == 'G') giant(a, n);
            else if (*op == 'P') forked(a);
            else if (*op == 'F') {
                int nt = atoi(a[0]); freq = atoi(a[1]); fmax = atoi(a[2]); rs = atoi(a[3]); pthread_t p[64]; if (nt > MAXT) exit(3);
                pthread_barrier_init(&bar, 0, nt);
                for (int t = 1; t <= nt; t++) pthread_create(&p[t], 0, free_body, (void *)(intptr_t)t);
                for (int t = 1; t <= nt; t++) pthread_join(p[t], 0);
                emit("{\"e\":\"end\",\"open\":%d}\n", left());
            } else exit(3);
            fflush(stdout); _exit(0);
        }
        int st; waitpid(c, &st, 0);
        if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { printf("{\"e\":\"crash\",\"how\":%d}\n", st); fflush(stdout); }
    }
    return 0;
}
