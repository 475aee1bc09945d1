// KEM calls on top of a cryptographic provider (OpenSSL) that fails when told to.  Linked with the library under test
// minus its randomness source; the provider's functions are wrapped here and counted.
//
//   K pk sk rnd     E ct ss pk rnd     D ss ct sk        calls on numbered buffers
//   f               what follows happens in a child process, up to
//   j               the end of the child; the buffers are again what they were before f
//   x kind i s      during the next call the i-th request of that kind fails (s=1: and all after it)
//                   kind: a any, n new context, k key set-up, u encryption, m memory; i<0: counted from the last one, i=0: the middle
//   Y op n          memory, descriptors, mappings and contexts held before and after n further calls
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <dirent.h>
#include <dlfcn.h>
#include <malloc.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <openssl/evp.h>
#include <openssl/crypto.h>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)
#define NBUF 16
#define MAXLEN 65536
static unsigned char B[NBUF][MAXLEN]; static size_t L[NBUF];

static unsigned char rnd[4096]; static size_t rndlen, rndpos;
int randombytes(unsigned char *x, unsigned long long n)
{ for (unsigned long long k = 0; k < n; k++) x[k] = rndpos < rndlen ? rnd[rndpos++] : 0x77; return 0; }

// ---- the provider
enum { NEW, KEY, USE, MEM, ANY, KINDS };
static const char kinds[] = "nkuma";
static struct shared { long hit; int mid; } *sh;       // seen by the parent after the child has gone
static long cnt[KINDS], usual[3][KINDS], armed = -1, at; static int sticky, counting, ctxs;
static int fails(int kind)
{
    if (!counting) return 0;
    cnt[kind]++; if (kind != MEM) cnt[ANY]++;
    if (armed < 0 || (armed != kind && !(armed == ANY && kind != MEM))) return 0;
    long c = cnt[armed];
    if (c == at || (sticky && c > at)) { sh->hit++; return 1; }
    return 0;
}
#define REAL(name) ({ static void *f_; if (!f_) f_ = dlsym(RTLD_NEXT, #name); if (!f_) exit(3); (__typeof__(&name))f_; })
EVP_CIPHER_CTX *EVP_CIPHER_CTX_new(void)
{ if (fails(NEW)) return 0; EVP_CIPHER_CTX *c = REAL(EVP_CIPHER_CTX_new)(); if (c) ctxs++; return c; }
void EVP_CIPHER_CTX_free(EVP_CIPHER_CTX *c) { if (c) ctxs--; REAL(EVP_CIPHER_CTX_free)(c); }

int EVP_EncryptInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv)
{ return fails(KEY) ? 0 : REAL(EVP_EncryptInit_ex)(c, t, e, k, iv); }
int EVP_EncryptInit(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv)
{ return fails(KEY) ? 0 : REAL(EVP_EncryptInit)(c, t, k, iv); }
int EVP_EncryptInit_ex2(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, const unsigned char *k, const unsigned char *iv, const OSSL_PARAM *p)
{ return fails(KEY) ? 0 : REAL(EVP_EncryptInit_ex2)(c, t, k, iv, p); }
int EVP_CipherInit_ex(EVP_CIPHER_CTX *c, const EVP_CIPHER *t, ENGINE *e, const unsigned char *k, const unsigned char *iv, int enc)
{ return fails(KEY) ? 0 : REAL(EVP_CipherInit_ex)(c, t, e, k, iv, enc); }
int EVP_EncryptUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *l, const unsigned char *in, int n)
{ return fails(USE) ? 0 : REAL(EVP_EncryptUpdate)(c, o, l, in, n); }
int EVP_CipherUpdate(EVP_CIPHER_CTX *c, unsigned char *o, int *l, const unsigned char *in, int n)
{ return fails(USE) ? 0 : REAL(EVP_CipherUpdate)(c, o, l, in, n); }
static void *m_(size_t n, const char *f, int l) { return fails(MEM) ? 0 : malloc(n); }
static void *r_(void *p, size_t n, const char *f, int l) { return fails(MEM) ? 0 : realloc(p, n); }
static void f_(void *p, const char *f, int l) { free(p); }

static size_t unhex(const char *h, unsigned char *o, size_t max)
{ size_t n = 0; if (*h == '-') return 0; for (; h[0] && h[1]; h += 2) { unsigned v; if (sscanf(h, "%2x", &v) != 1) break; if (n == max) exit(3); o[n++] = v; } return n; }
static void hex(const char *name, const unsigned char *p, size_t n)
{ printf(",\"%s\":\"", name); for (size_t k = 0; k < n; k++) printf("%02x", p[k]); printf("\""); }
static void prep(int b, size_t len) { if (L[b] != len) { memset(B[b], 0xEE, MAXLEN); L[b] = len; } }
static void start(int op)
{
    memset(cnt, 0, sizeof cnt); sh->hit = 0; sh->mid = 1; fflush(stdout);
    if (armed >= 0) { if (at < 0) at += usual[op][armed] + 1; else if (at == 0) at = (usual[op][armed] + 1) / 2; if (at < 1) armed = -1; }
    counting = 1;
}
static void stop(int op)
{ counting = 0; sh->mid = 0; if (!sh->hit) memcpy(usual[op], cnt, sizeof cnt); printf(",\"hit\":%ld", sh->hit); armed = -1; }
static int call(int op, int a, int b, int c)
{ return op == 0 ? KEYPAIR(B[a], B[b]) : op == 1 ? ENC(B[a], B[b], B[c]) : DEC(B[a], B[b], B[c]); }
static long entries(const char *d)
{ long n = 0; DIR *x = opendir(d); if (!x) exit(3); while (readdir(x)) n++; closedir(x); return n; }
static long maps(void)
{ long n = 0; int c; FILE *f = fopen("/proc/self/maps", "r"); if (!f) exit(3); while ((c = getc(f)) != EOF) n += c == '\n'; fclose(f); return n; }
static long held(void) { struct mallinfo2 m = mallinfo2(); return (long)(m.uordblks + m.hblkhd); }

int main(void)
{
    static char line[4 * MAXLEN], io[1 << 16]; pid_t kid = 0; int status;
    if (!CRYPTO_set_mem_functions(m_, r_, f_)) { fprintf(stderr, "too late\n"); return 3; }
    setvbuf(stdout, io, _IOFBF, sizeof io);
    sh = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (sh == MAP_FAILED) return 3;
    struct rlimit nocore = {0, 0}; setrlimit(RLIMIT_CORE, &nocore);
    freopen("/dev/null", "w", stderr);
    printf("{\"e\":\"sizes\",\"pk\":%d,\"sk\":%d,\"ct\":%d,\"ss\":%d}\n", CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES);
    fflush(stdout);
    setvbuf(stdin, 0, _IONBF, 0);                       // so that a child reads no more than its own lines
    int skip = 0;
    while (fgets(line, sizeof line, stdin)) {
        char *sv, *op = strtok_r(line, " \n", &sv); if (!op) continue;
        char *a[8]; int n = 0; while (n < 8 && (a[n] = strtok_r(0, " \n", &sv))) n++;
        if (skip) { if (*op == 'j') skip = 0; continue; }
#define BUF(k) ({ int b_ = atoi(a[k]); if (b_ < 0 || b_ >= NBUF) exit(3); b_; })
#define RND(k) (rndpos = 0, rndlen = unhex(a[k], rnd, sizeof rnd))
        if (*op == 'f') {
            // the child's lines come through a pipe of their own, copied by the parent
            static char plan[1 << 20]; size_t pl = 0; static char l2[4 * MAXLEN];
            while (fgets(l2, sizeof l2, stdin) && *l2 != 'j') { size_t k = strlen(l2); if (pl + k + 1 > sizeof plan) exit(3); memcpy(plan + pl, l2, k); pl += k; }
            printf("{\"e\":\"plan\"}\n"); fflush(stdout);
            int p[2]; if (pipe(p)) exit(3);
            sh->hit = sh->mid = 0;
            kid = fork(); if (kid < 0) exit(3);
            if (!kid) { close(p[1]); dup2(p[0], 0); close(p[0]); alarm(20); continue; }
            close(p[0]); if (pl) (void)!write(p[1], plan, pl); close(p[1]);
            if (waitpid(kid, &status, 0) != kid) exit(3);
            if (WIFEXITED(status) && WEXITSTATUS(status) == 3) exit(3);
            printf("{\"e\":\"end\",\"how\":\"%s\",\"hit\":%ld,\"mid\":%d}\n", WIFEXITED(status) ? WEXITSTATUS(status) ? "exit" : "done" : WTERMSIG(status) == SIGABRT ? "abort" : WTERMSIG(status) == SIGALRM ? "hang" : "crash", sh->hit, sh->mid);
        }
        else if (*op == 'x') { const char *k = strchr(kinds, a[0][0]); if (!k) exit(3); armed = k - kinds; at = atol(a[1]); sticky = atoi(a[2]); }
        else if (*op == 'K') { int pk = BUF(0), sk = BUF(1); prep(pk, CRYPTO_PUBLICKEYBYTES); prep(sk, CRYPTO_SECRETKEYBYTES); RND(2);
            start(0); int r = KEYPAIR(B[pk], B[sk]); printf("{\"e\":\"keygen\",\"ret\":%d", r); stop(0); hex("rnd", rnd, rndlen);
            printf(",\"pk\":\"b%d\",\"sk\":\"b%d\"", pk, sk); hex("opk", B[pk], L[pk]); hex("osk", B[sk], L[sk]); printf("}\n"); }
        else if (*op == 'E') { int ct = BUF(0), ss = BUF(1), pk = BUF(2); prep(ct, CRYPTO_CIPHERTEXTBYTES); prep(ss, CRYPTO_BYTES); RND(3);
            start(1); int r = ENC(B[ct], B[ss], B[pk]); printf("{\"e\":\"encaps\",\"ret\":%d", r); stop(1); hex("rnd", rnd, rndlen);
            printf(",\"pk\":\"b%d\",\"ct\":\"b%d\",\"ss\":\"b%d\"", pk, ct, ss); hex("oct", B[ct], L[ct]); hex("oss", B[ss], L[ss]); printf("}\n"); }
        else if (*op == 'D') { int ss = BUF(0), ct = BUF(1), sk = BUF(2); prep(ss, CRYPTO_BYTES); rndlen = 0;
            start(2); int r = DEC(B[ss], B[ct], B[sk]); printf("{\"e\":\"decaps\",\"ret\":%d", r); stop(2);
            printf(",\"ss\":\"b%d\",\"ct\":\"b%d\",\"sk\":\"b%d\"", ss, ct, sk); hex("oss", B[ss], L[ss]); printf("}\n"); }
        else if (*op == 'Y') { int o = a[0][0] == 'K' ? 0 : a[0][0] == 'E' ? 1 : 2; long reps = atol(a[1]), h0 = 0, f0 = 0, m0 = 0, c0 = 0, bad = 0; static unsigned char x[4][MAXLEN];
            fflush(stdout); rndlen = 0;
            for (long k = -8; k <= reps; k++) {
                if (k == 0) { entries("/proc/self/fd"); maps(); f0 = entries("/proc/self/fd"); m0 = maps(); c0 = ctxs; h0 = held(); }
                if (k < reps) { rndpos = 0; bad |= o == 0 ? KEYPAIR(x[0], x[1]) : o == 1 ? ENC(x[2], x[3], B[0]) : DEC(x[3], B[2], B[1]); }
            }
            long h1 = held(); printf("{\"e\":\"steady\",\"op\":\"%s\",\"n\":%ld,\"ret\":%ld,\"heap\":%ld,\"fds\":%ld,\"maps\":%ld,\"ctx\":%ld}\n", a[0], reps, bad, h1 - h0, entries("/proc/self/fd") - f0, maps() - m0, (long)ctxs - c0); }
        else exit(3);
        fflush(stdout);
    }
    return 0;
}
