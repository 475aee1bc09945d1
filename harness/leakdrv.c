// Makes KEM calls of an instrumented build and records what an observer of control flow and addresses sees: the
// sequence of basic blocks entered and of addresses read and written, condensed into one number per 2^20 steps.
// Every call runs in a fork of the same process, so that equal accesses have equal addresses.
//   K rnd     E rnd     D      P/S/C hex: set the public key, secret key, ciphertext      B b bit: flip a bit in buffer b      X b offset hex: write into buffer b
// LEAK_DUMP=call1:call2:chunk:prefix writes the steps of one chunk of two calls to prefix.0 and prefix.1.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)
#define MAXCHUNK 65536
static struct shared {
    unsigned char pk[65536], sk[65536], ct[65536], ss[4096], rnd[4096];
    size_t rndlen, rndpos; int ret, done; uint64_t steps, nchunk, chunk[MAXCHUNK];
} *O;
static uint64_t h, left, dumpat = -1; static FILE *dump; static int on;

static inline void put(uint64_t x)
{
    h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    if (dump && O->nchunk == dumpat) fwrite(&x, 8, 1, dump);
    if (--left == 0) { if (O->nchunk < MAXCHUNK) O->chunk[O->nchunk++] = h; h = O->nchunk; left = 1u << 20; O->steps += left; }
}
// a step is one number: what kind, how large, where
#define STEP(kind, size, a) do { if (on) put(((uint64_t)(kind) << 60) ^ ((uint64_t)(size) << 48) ^ (uint64_t)(uintptr_t)(a)); } while (0)
void __sanitizer_cov_trace_pc(void) { STEP(1, 0, __builtin_return_address(0)); }
#define ACC(n) void __asan_load##n##_noabort(void *a) { STEP(2, n, a); } void __asan_store##n##_noabort(void *a) { STEP(3, n, a); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
void __asan_loadN_noabort(void *a, size_t n) { STEP(2, n, a); }
void __asan_storeN_noabort(void *a, size_t n) { STEP(3, n, a); }
void __asan_handle_no_return(void) {}
// library functions work through their buffers; those that stop early are seen to stop
#define COPY(f, real) void *f(void *d, const void *s, size_t n) { STEP(4, 1, d); STEP(4, 2, s); STEP(4, 3, n); return real(d, s, n); }
void *__real_memcpy(void *, const void *, size_t), *__real_memmove(void *, const void *, size_t), *__real_memset(void *, int, size_t);
COPY(__asan_memcpy, __real_memcpy) COPY(__asan_memmove, __real_memmove) COPY(__wrap_memcpy, __real_memcpy) COPY(__wrap_memmove, __real_memmove)
void *__asan_memset(void *d, int c, size_t n) { STEP(4, 4, d); STEP(4, 3, n); return __real_memset(d, c, n); }
void *__wrap_memset(void *d, int c, size_t n) { STEP(4, 4, d); STEP(4, 3, n); return __real_memset(d, c, n); }
static int cmp(const void *a, const void *b, size_t n)
{
    STEP(4, 5, a); STEP(4, 6, b); STEP(4, 3, n);
    for (size_t i = 0; i < n; i++) { int x = ((unsigned char *)a)[i], y = ((unsigned char *)b)[i]; if (x != y) { STEP(4, 7, i); return x - y; } }
    return 0;
}
int __wrap_memcmp(const void *a, const void *b, size_t n) { return cmp(a, b, n); }
int __wrap_bcmp(const void *a, const void *b, size_t n) { return cmp(a, b, n); }
int __wrap_strncmp(const char *a, const char *b, size_t n) { STEP(4, 3, n); size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++; STEP(4, 7, i); return i == n ? 0 : (unsigned char)a[i] - (unsigned char)b[i]; }

int randombytes(unsigned char *x, unsigned long long n)
{
    int was = on; on = 0;
    for (unsigned long long k = 0; k < n; k++) x[k] = O->rndpos < O->rndlen ? O->rnd[O->rndpos++] : 0x77;
    on = was; return 0;
}
static void hex(const unsigned char *p, size_t n) { static const char d[] = "0123456789abcdef"; for (size_t k = 0; k < n; k++) { putchar(d[p[k] >> 4]); putchar(d[p[k] & 15]); } }
static size_t unhex(unsigned char *o, const char *s) { size_t n = 0; unsigned v; for (; s[0] && s[1] && sscanf(s, "%2x", &v) == 1; s += 2) o[n++] = v; return n; }

int main(void)
{
    static char line[262144]; int call = 0, d1 = -1, d2 = -1; char dfile[1000] = "", name[1010]; unsigned long dc;
    if (getenv("LEAK_DUMP") && sscanf(getenv("LEAK_DUMP"), "%d:%d:%lu:%999s", &d1, &d2, &dc, dfile) != 4) return 3;
    O = mmap(0, sizeof *O, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    printf("{\"e\":\"start\"}\n"); fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char op = line[0], *arg = line + 2;
        if (op == 'P') { unhex(O->pk, arg); continue; }
        if (op == 'S') { unhex(O->sk, arg); continue; }
        if (op == 'C') { unhex(O->ct, arg); continue; }
        if (op == 'B') { char b; int bit; if (sscanf(arg, "%c %d", &b, &bit) != 2) return 3; (b == 'P' ? O->pk : b == 'S' ? O->sk : O->ct)[bit >> 3] ^= 1 << (bit & 7); continue; }
        if (op == 'X') { char b; int off; char *q = strchr(arg + 2, ' '); if (!q || sscanf(arg, "%c %d", &b, &off) != 2) return 3; unhex((b == 'P' ? O->pk : b == 'S' ? O->sk : O->ct) + off, q + 1); continue; }
        if (op != 'K' && op != 'E' && op != 'D') return 3;
        O->rndlen = op == 'D' ? 0 : unhex(O->rnd, arg); O->rndpos = 0; O->nchunk = 0; O->steps = 0; O->done = 0; O->ret = -1;
        memset(O->ss, 0x5a, sizeof O->ss);
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) {
            if (call == d1 || call == d2) { sprintf(name, "%s.%d", dfile, call == d2); dump = fopen(name, "wb"); dumpat = dc; }
            h = 1; left = 1u << 20; on = 1;
            int r = op == 'K' ? KEYPAIR(O->pk, O->sk) : op == 'E' ? ENC(O->ct, O->ss, O->pk) : DEC(O->ss, O->ct, O->sk);
            on = 0; O->ret = r; O->steps += (1u << 20) - left; O->chunk[O->nchunk++] = h; O->done = 1;
            if (dump) fclose(dump);
            _exit(0);
        }
        int st; waitpid(p, &st, 0); call++;
        if (!O->done || st) { printf("{\"e\":\"crash\",\"how\":\"status %d\"}\n", st); fflush(stdout); return 1; }
        printf("{\"e\":\"%s\",\"ret\":%d,\"rnd\":\"", op == 'K' ? "keygen" : op == 'E' ? "encaps" : "decaps", O->ret); hex(O->rnd, O->rndlen);
        printf("\",\"pk\":\""); hex(O->pk, op == 'D' ? 0 : CRYPTO_PUBLICKEYBYTES);
        printf("\",\"ct\":\""); hex(O->ct, op == 'D' ? CRYPTO_CIPHERTEXTBYTES : 0);
        printf("\",\"sk\":\""); hex(O->sk, op == 'D' ? CRYPTO_SECRETKEYBYTES : 0);
        printf("\",\"ss\":\""); hex(O->ss, op == 'K' ? 0 : CRYPTO_BYTES);
        printf("\",\"steps\":\"%llu\",\"seen\":[", (unsigned long long)O->steps);
        for (uint64_t k = 0; k < O->nchunk; k++) printf("%s\"%016llx\"", k ? "," : "", (unsigned long long)O->chunk[k]);
        printf("]}\n"); fflush(stdout);
    }
    return 0;
}
