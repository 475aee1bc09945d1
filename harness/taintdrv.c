// Makes KEM calls of a build with MemorySanitizer, or (UNDER_VALGRIND) of an ordinary one under memcheck, having marked as unknown exactly the secret bytes of the call's
// inputs, and records every branch and every address that depends on them.
//   K rnd hide..    E rnd hide..    D hide..   with hide = offset:length in rnd (K, E) or in the secret key (D)
//   B bit: flip a bit of the ciphertext        W offset hex: write into the secret key      P offset hex: into the public key
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#ifdef UNDER_VALGRIND
#include <valgrind/memcheck.h>
#define HIDE(p, n) (void)VALGRIND_MAKE_MEM_UNDEFINED(p, n)
#define SHOW(p, n) (void)VALGRIND_MAKE_MEM_DEFINED(p, n)
static int hidden(const void *p) { unsigned char v = 0; (void)VALGRIND_GET_VBITS(p, &v, 1); SHOW(&v, 1); return v != 0; }
#else
#include <sanitizer/msan_interface.h>
#define HIDE(p, n) __msan_poison(p, n)
#define SHOW(p, n) __msan_unpoison(p, n)
static int hidden(const void *p) { return __msan_test_shadow(p, 1) == 0; }
#endif
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)
static unsigned char pk[CRYPTO_PUBLICKEYBYTES], sk[CRYPTO_SECRETKEYBYTES], ct[CRYPTO_CIPHERTEXTBYTES], ss[CRYPTO_BYTES], rnd[4096];
static size_t rndlen, rndpos; static struct { size_t at, n; } hide[8]; static int nhide;
static unsigned long found; static void *where[16];

#ifndef UNDER_VALGRIND
// called by the instrumented code for every use of an unknown value in a branch or an address
static void note(void *pc) { for (unsigned k = 0; k < 16 && k < found; k++) if (where[k] == pc) return; if (found < 16) where[found] = pc; found++; }
void __wrap___msan_warning(void) { note(__builtin_return_address(0)); }
void __wrap___msan_warning_with_origin(uint32_t o) { note(__builtin_return_address(0)); }

// library functions that stop early
static void look(const void *p, size_t n, void *pc) { if (n && __msan_test_shadow(p, n) != -1) note(pc); }
static int cmp(const unsigned char *a, const unsigned char *b, size_t n) { for (size_t k = 0; k < n; k++) if (a[k] != b[k]) return a[k] - b[k]; return 0; }
int __wrap_memcmp(const void *a, const void *b, size_t n) { look(a, n, __builtin_return_address(0)); look(b, n, __builtin_return_address(0)); int r = cmp(a, b, n); __msan_unpoison(&r, sizeof r); return r; }
int __wrap_bcmp(const void *a, const void *b, size_t n) { look(a, n, __builtin_return_address(0)); look(b, n, __builtin_return_address(0)); int r = cmp(a, b, n); __msan_unpoison(&r, sizeof r); return r; }
int __wrap_strncmp(const char *a, const char *b, size_t n) { look(a, n, __builtin_return_address(0)); look(b, n, __builtin_return_address(0)); size_t k = 0; while (k + 1 < n && a[k] && a[k] == b[k]) k++; int r = n ? a[k] - b[k] : 0; __msan_unpoison(&r, sizeof r); return r; }

#endif

static void cover(unsigned char *base, size_t have) { for (int k = 0; k < nhide; k++) { if (hide[k].at + hide[k].n > have) exit(3); HIDE(base + hide[k].at, hide[k].n); } }
int randombytes(unsigned char *x, unsigned long long n)
{
    if (rndpos + n > rndlen) { memset(x, 0x77, n); return 0; }
    memcpy(x, rnd + rndpos, n); rndpos += n;       // carries the marks along
    return 0;
}
static void hex(const unsigned char *p, size_t n) { static const char d[] = "0123456789abcdef"; for (size_t k = 0; k < n; k++) { putchar(d[p[k] >> 4]); putchar(d[p[k] & 15]); } }
static size_t unhex(unsigned char *o, char **s) { size_t n = 0; unsigned v; char *p = *s; for (; p[0] && p[1] && p[0] != ' ' && sscanf(p, "%2x", &v) == 1; p += 2) o[n++] = v; *s = p; return n; }
#define KNOWN(x) SHOW(x, sizeof x)

int main(void)
{
    static char line[262144];
    printf("{\"e\":\"start\"}\n"); fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char op = line[0], *arg = line + 2; size_t o;
        if (op == 'B') { o = atol(arg); ct[o >> 3] ^= 1 << (o & 7); continue; }
        if (op == 'W') { o = strtoul(arg, &arg, 10); arg++; unhex(sk + o, &arg); continue; }
        if (op == 'P') { o = strtoul(arg, &arg, 10); arg++; unhex(pk + o, &arg); continue; }
        if (op != 'K' && op != 'E' && op != 'D') return 3;
        if (op == 'D') { rndlen = 0; arg--; } else rndlen = unhex(rnd, &arg);
        rndpos = 0; nhide = 0; unsigned long a, n; int used;
        while (nhide < 8 && sscanf(arg, " %lu:%lu%n", &a, &n, &used) == 2) { hide[nhide].at = a; hide[nhide++].n = n; arg += used; }
        printf("{\"e\":\"flow\",\"call\":\"%s\",\"hidden\":[", op == 'K' ? "keygen" : op == 'E' ? "encaps" : "decaps");
        for (int k = 0; k < nhide; k++) printf("%s[%zu,%zu]", k ? "," : "", hide[k].at, hide[k].n);
        printf("]"); fflush(stdout);
        cover(op == 'D' ? sk : rnd, op == 'D' ? sizeof sk : rndlen);
        found = 0;
#ifdef UNDER_VALGRIND
        unsigned long before = VALGRIND_COUNT_ERRORS;
#endif
        int r = op == 'K' ? KEYPAIR(pk, sk) : op == 'E' ? ENC(ct, ss, pk) : DEC(ss, ct, sk);
#ifdef UNDER_VALGRIND
        found = VALGRIND_COUNT_ERRORS - before;
#endif
        unsigned long f = found;
        SHOW(&r, sizeof r);
        // not vacuous: how much of the result depends on the hidden bytes
        unsigned long dep = 0; unsigned char *out = op == 'K' ? pk : op == 'E' ? ct : ss; size_t on = op == 'K' ? sizeof pk : op == 'E' ? sizeof ct : sizeof ss;
        for (size_t k = 0; k < on; k++) dep += hidden(out + k);
        KNOWN(pk); KNOWN(sk); KNOWN(ct); KNOWN(ss); KNOWN(rnd);
        printf(",\"ret\":%d,\"touched\":%lu,\"found\":%lu,\"where\":[", r, dep, f);
        for (unsigned k = 0; k < 16 && k < f && where[k]; k++) printf("%s\"%p\"", k ? "," : "", where[k]);
        printf("]}\n"); fflush(stdout);
    }
    return 0;
}
