// Runs KEM calls in several threads.  Byte strings appear in the recording as numbers (equal numbers, equal strings);
// each number is introduced once with the string it stands for.
//
//   W b hex   C d s   F b bit..        the caller edits its buffers
//   b t K pk sk | b t E ct ss pk | b t D ss ct sk      thread t begins a call
//   d t hex   d t !                    thread t's call gets its randomness (or the source fails)
//   e t                                thread t's call ends
//   r K rnd | r E pk rnd | r D ct sk   register a call for X;  rnd may be ! (the source fails)
//   X threads rounds seed              threads make registered calls in an order of their own, all at once
// With -DREALRANDOM the library's own randomness source is linked and only X may be used (its results are not recorded).
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <pthread.h>
#include <time.h>
#include <unistd.h>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)
#define NBUF 64
#define MAXT 16
#define CAP 65536
static struct { size_t len; unsigned char v[CAP]; } B[NBUF];

// ------------------------------------------------------------------ values
static struct { size_t len; unsigned char *v; uint64_t h; } val[200000]; static int nval;
static int value(const unsigned char *p, size_t n)
{
    uint64_t h = 1469598103934665603ull; for (size_t k = 0; k < n; k++) h = (h ^ p[k]) * 1099511628211ull;
    for (int i = 0; i < nval; i++) if (val[i].h == h && val[i].len == n && !memcmp(val[i].v, p, n)) return i;
    val[nval].len = n; val[nval].h = h; val[nval].v = malloc(n + 1); memcpy(val[nval].v, p, n);
    printf("{\"e\":\"val\",\"id\":%d,\"hex\":\"", nval); for (size_t k = 0; k < n; k++) printf("%02x", p[k]); printf("\"}\n");
    return nval++;
}
static size_t unhex(const char *h, unsigned char *o)
{ size_t n = 0; unsigned v; for (; h[0] && h[1] && sscanf(h, "%2x", &v) == 1; h += 2) { if (n == CAP) exit(3); o[n++] = v; } return n; }

// ------------------------------------------------------------------ threads
enum { IDLE, GO, BUSY, ASKING, ANSWERED, OVER };
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t cv = PTHREAD_COND_INITIALIZER;
static struct { int st; char op; int a, b, c, ret; unsigned char rnd[256]; size_t len, at; int fail, over, asked; } T[MAXT + 1];
static __thread int me; static int freerun;
static __thread const unsigned char *frnd; static __thread size_t flen, fat; static __thread int ffail, fover;
#ifndef REALRANDOM
int randombytes(unsigned char *x, unsigned long long n)
{
    if (freerun) {
        if (ffail) return 1;
        for (unsigned long long k = 0; k < n; k++) if (fat < flen) x[k] = frnd[fat++]; else { x[k] = 0x77; fover = 1; }
        return 0;
    }
    pthread_mutex_lock(&mu);
    if (!T[me].asked) {
        T[me].asked = 1; T[me].st = ASKING; pthread_cond_broadcast(&cv);
        while (T[me].st != ANSWERED) pthread_cond_wait(&cv, &mu);
        T[me].st = BUSY;
    }
    int r = T[me].fail;
    if (!r) for (unsigned long long k = 0; k < n; k++) if (T[me].at < T[me].len) x[k] = T[me].rnd[T[me].at++]; else { x[k] = 0x77; T[me].over = 1; }
    pthread_mutex_unlock(&mu);
    return r;
}
#endif
static void *body(void *a)
{
    me = (int)(intptr_t)a;
    pthread_mutex_lock(&mu);
    for (;;) {
        while (T[me].st != GO) pthread_cond_wait(&cv, &mu);
        T[me].st = BUSY; pthread_mutex_unlock(&mu);
        int r = T[me].op == 'K' ? KEYPAIR(B[T[me].a].v, B[T[me].b].v) : T[me].op == 'E' ? ENC(B[T[me].a].v, B[T[me].b].v, B[T[me].c].v) : DEC(B[T[me].a].v, B[T[me].b].v, B[T[me].c].v);
        pthread_mutex_lock(&mu); T[me].ret = r; T[me].st = OVER; pthread_cond_broadcast(&cv);
    }
    return 0;
}
static void spawn(pthread_t *p, void *(*f)(void *), intptr_t a)
{ pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64 << 20); if (pthread_create(p, &at, f, (void *)a)) exit(3); }
static int await(int t, int s1, int s2)
{
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 60;
    while (T[t].st != s1 && T[t].st != s2) if (pthread_cond_timedwait(&cv, &mu, &ts)) { printf("{\"e\":\"hang\",\"t\":%d}\n", t); fflush(stdout); _exit(0); }
    return T[t].st;
}

// ------------------------------------------------------------------ free-running
static struct { char op; int a, b, va, vb; unsigned char rnd[256]; size_t len; int fail; } R[256]; static int nreg;
static struct { int c, ret, over; unsigned char *o1, *o2; } *done_[MAXT + 1]; static int rounds; static unsigned seed0;
static pthread_barrier_t bar;
static void *stress(void *a)
{
    int t = (int)(intptr_t)a; uint32_t s = seed0 * 7919 + t * 104729; me = t;
    pthread_barrier_wait(&bar);
    for (int k = 0; k < rounds; k++) {
        s = s * 1664525u + 1013904223u; int c = nreg == 1 ? 0 : (s >> 9) % nreg;
        unsigned char *o1 = malloc(CAP), *o2 = malloc(CAP); memset(o1, t, CAP); memset(o2, t, CAP);
        frnd = R[c].rnd; flen = R[c].len; fat = 0; ffail = R[c].fail; fover = 0;
        int r = R[c].op == 'K' ? KEYPAIR(o1, o2) : R[c].op == 'E' ? ENC(o1, o2, B[R[c].a].v) : DEC(o1, B[R[c].a].v, B[R[c].b].v);
        done_[t][k].c = c; done_[t][k].ret = r; done_[t][k].over = fover || (fat < flen && !ffail);
#ifdef REALRANDOM
        free(o1); free(o2);
#else
        if (R[c].fail) { free(o1); free(o2); o1 = o2 = 0; }
        else { o1 = realloc(o1, R[c].op == 'K' ? CRYPTO_PUBLICKEYBYTES : R[c].op == 'E' ? CRYPTO_CIPHERTEXTBYTES : CRYPTO_BYTES); o2 = realloc(o2, R[c].op == 'K' ? CRYPTO_SECRETKEYBYTES : CRYPTO_BYTES); }
        done_[t][k].o1 = o1; done_[t][k].o2 = o2;
#endif
    }
    return 0;
}
int main(void)
{
    static char line[4 * CAP]; static unsigned char tmp[CAP]; pthread_t p; int started[MAXT + 1] = {0};
    setvbuf(stdout, 0, _IOFBF, 1 << 20);
    printf("{\"e\":\"start\"}\n"); fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char *sv, *op = strtok_r(line, " \n", &sv); if (!op) continue;
        char *a[80]; int n = 0; while (n < 80 && (a[n] = strtok_r(0, " \n", &sv))) n++;
#define BUF(k) ({ int b_ = atoi(a[k]); if (b_ < 0 || b_ >= NBUF) exit(3); b_; })
#define VAL(b) value(B[b].v, B[b].len)
        if (*op == 'W') { int b = BUF(0); B[b].len = unhex(a[1], B[b].v); int v = VAL(b); printf("{\"e\":\"write\",\"b\":%d,\"v\":%d}\n", b, v); }
        else if (*op == 'C') { int b = BUF(0), s = BUF(1); B[b].len = B[s].len; memmove(B[b].v, B[s].v, B[s].len); int v = VAL(b); printf("{\"e\":\"write\",\"b\":%d,\"v\":%d}\n", b, v); }
        else if (*op == 'F') { int b = BUF(0); for (int k = 1; k < n; k++) { long q = atol(a[k]); B[b].v[q >> 3] ^= 1 << (q & 7); } int v = VAL(b); printf("{\"e\":\"write\",\"b\":%d,\"v\":%d}\n", b, v); }
        else if (*op == 'b') { int t = atoi(a[0]); if (t < 1 || t > MAXT) exit(3);
            pthread_mutex_lock(&mu);
            if (T[t].st != IDLE) exit(3);
            T[t].op = a[1][0]; T[t].a = BUF(2); T[t].b = BUF(3); T[t].c = a[1][0] == 'K' ? 0 : BUF(4); T[t].asked = T[t].over = 0; T[t].at = T[t].len = 0; T[t].fail = 0;
            if (*a[1] == 'K') { B[T[t].a].len = CRYPTO_PUBLICKEYBYTES; B[T[t].b].len = CRYPTO_SECRETKEYBYTES; printf("{\"e\":\"begin\",\"t\":%d,\"op\":\"K\",\"pk\":%d,\"sk\":%d}\n", t, T[t].a, T[t].b); }
            if (*a[1] == 'E') { B[T[t].a].len = CRYPTO_CIPHERTEXTBYTES; B[T[t].b].len = CRYPTO_BYTES; printf("{\"e\":\"begin\",\"t\":%d,\"op\":\"E\",\"ct\":%d,\"ss\":%d,\"pk\":%d}\n", t, T[t].a, T[t].b, T[t].c); }
            if (*a[1] == 'D') { B[T[t].a].len = CRYPTO_BYTES; printf("{\"e\":\"begin\",\"t\":%d,\"op\":\"D\",\"ss\":%d,\"ct\":%d,\"sk\":%d}\n", t, T[t].a, T[t].b, T[t].c); }
            T[t].st = GO;
            if (!started[t]) { started[t] = 1; spawn(&p, body, t); }
            pthread_cond_broadcast(&cv); pthread_mutex_unlock(&mu); }
        else if (*op == 'd') { int t = atoi(a[0]);
            pthread_mutex_lock(&mu);
            if (await(t, ASKING, OVER) == ASKING) {
                T[t].fail = a[1][0] == '!'; T[t].len = T[t].fail ? 0 : unhex(a[1], T[t].rnd); T[t].at = 0;
                if (T[t].fail) printf("{\"e\":\"draw\",\"t\":%d,\"fail\":1,\"v\":-1}\n", t);
                else { int v = value(T[t].rnd, T[t].len); printf("{\"e\":\"draw\",\"t\":%d,\"fail\":0,\"v\":%d}\n", t, v); }
                T[t].st = ANSWERED; pthread_cond_broadcast(&cv);
            }
            pthread_mutex_unlock(&mu); }
        else if (*op == 'e') { int t = atoi(a[0]);
            pthread_mutex_lock(&mu); await(t, OVER, OVER); T[t].st = IDLE; pthread_mutex_unlock(&mu);
            int o1 = -1, o2 = -1;
            if (T[t].ret == 0) { o1 = VAL(T[t].a); if (T[t].op != 'D') o2 = VAL(T[t].b); }
            printf("{\"e\":\"end\",\"t\":%d,\"ret\":%d,\"amount\":%d,\"o1\":%d,\"o2\":%d}\n", t, T[t].ret, !T[t].over && T[t].at == T[t].len, o1, o2); }
        else if (*op == 'r') { R[nreg].op = a[0][0]; const char *r = 0;
            if (*a[0] == 'K') r = a[1]; else if (*a[0] == 'E') { R[nreg].a = BUF(1); r = a[2]; } else { R[nreg].a = BUF(1); R[nreg].b = BUF(2); }
            if (r) { R[nreg].fail = *r == '!'; R[nreg].len = R[nreg].fail ? 0 : unhex(r, R[nreg].rnd); }
            nreg++; }
        else if (*op == 'X') { int nt = atoi(a[0]); rounds = atoi(a[1]); seed0 = atoi(a[2]); freerun = 1; pthread_t q[MAXT + 1]; if (nt > MAXT || !nreg) exit(3);
            pthread_barrier_init(&bar, 0, nt);
            for (int t = 1; t <= nt; t++) { done_[t] = calloc(rounds, sizeof *done_[t]); spawn(&q[t], stress, t); }
            for (int t = 1; t <= nt; t++) pthread_join(q[t], 0);
#ifndef REALRANDOM
            for (int k = 0; k < rounds; k++) for (int t = 1; t <= nt; t++) { int c = done_[t][k].c; char o = R[c].op;
                int i1 = o == 'K' ? -1 : VAL(R[c].a), i2 = o == 'D' ? VAL(R[c].b) : -1, rv = o == 'D' || R[c].fail ? -1 : value(R[c].rnd, R[c].len);
                int o1 = -1, o2 = -1;
                if (done_[t][k].ret == 0 && done_[t][k].o1) { o1 = value(done_[t][k].o1, o == 'K' ? CRYPTO_PUBLICKEYBYTES : o == 'E' ? CRYPTO_CIPHERTEXTBYTES : CRYPTO_BYTES);
                    if (o != 'D') o2 = value(done_[t][k].o2, o == 'K' ? CRYPTO_SECRETKEYBYTES : CRYPTO_BYTES); }
                printf("{\"e\":\"done\",\"t\":%d,\"op\":\"%c\",\"i1\":%d,\"i2\":%d,\"fail\":%d,\"rnd\":%d,\"amount\":%d,\"ret\":%d,\"o1\":%d,\"o2\":%d}\n", t, o, i1, i2, R[c].fail, rv, !done_[t][k].over, done_[t][k].ret, o1, o2); }
#else
            int bad = 0; for (int k = 0; k < rounds; k++) for (int t = 1; t <= nt; t++) bad |= done_[t][k].ret;
            printf("{\"e\":\"ran\",\"bad\":%d}\n", bad);
#endif
        }
        else exit(3);
        fflush(stdout);
    }
    fflush(stdout); _exit(0);
}
