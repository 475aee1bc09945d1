// Makes KEM calls on a stack of their own and records what each leaves behind: everything in writable memory that the
// call has changed, apart from the caller's buffers.  The hash functions run on another stack, which is not recorded.
//   K rnd     E rnd (under the last key pair)    D bit (the last ciphertext, bit < 0: as it is, else with that bit changed)
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <unistd.h>
#include <fcntl.h>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)
#define STACK (24u << 20)
#define HASHSTACK (1u << 20)
// everything of the driver's that may hold secrets lives in one mapping, which is not searched
static struct own {
    ucontext_t mainc, callc, hashc, backc;
    unsigned char pk[65536], sk[65536], ct[65536], ss[65536], rnd[4096], hex[4096], line[8192];
    size_t rndlen, rndpos; int ret; char op;
    int hashop; unsigned char *ho; unsigned long long hol, hil; const unsigned char *hi; void *hs;
    unsigned char hashstack[HASHSTACK];
} *O;
static unsigned char *stack;

int randombytes(unsigned char *x, unsigned long long n)
{ for (unsigned long long k = 0; k < n; k++) x[k] = O->rndpos < O->rndlen ? O->rnd[O->rndpos++] : 0x77; return 0; }

#define HASHFNS(X) X(shake128) X(shake256)
void __real_shake128(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
void __real_shake256(unsigned char *, unsigned long long, const unsigned char *, unsigned long long);
void __real_shake128_absorb(uint64_t *, const unsigned char *, unsigned int);
void __real_shake256_absorb(uint64_t *, const unsigned char *, unsigned int);
void __real_shake128_squeezeblocks(unsigned char *, unsigned long long, uint64_t *);
void __real_shake256_squeezeblocks(unsigned char *, unsigned long long, uint64_t *);
static void hashbody(void)
{
    switch (O->hashop) {
    case 0: __real_shake128(O->ho, O->hol, O->hi, O->hil); break;
    case 1: __real_shake256(O->ho, O->hol, O->hi, O->hil); break;
    case 2: __real_shake128_absorb(O->hs, O->hi, O->hil); break;
    case 3: __real_shake256_absorb(O->hs, O->hi, O->hil); break;
    case 4: __real_shake128_squeezeblocks(O->ho, O->hol, O->hs); break;
    case 5: __real_shake256_squeezeblocks(O->ho, O->hol, O->hs); break;
    }
}
static void elsewhere(int op, unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il, void *s)
{
    O->hashop = op; O->ho = o; O->hol = ol; O->hi = i; O->hil = il; O->hs = s;
    getcontext(&O->hashc); O->hashc.uc_stack.ss_sp = O->hashstack; O->hashc.uc_stack.ss_size = HASHSTACK; O->hashc.uc_link = &O->backc;
    makecontext(&O->hashc, hashbody, 0); swapcontext(&O->backc, &O->hashc);
}
void __wrap_shake128(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { elsewhere(0, o, ol, i, il, 0); }
void __wrap_shake256(unsigned char *o, unsigned long long ol, const unsigned char *i, unsigned long long il) { elsewhere(1, o, ol, i, il, 0); }
void __wrap_shake128_absorb(uint64_t *s, const unsigned char *i, unsigned il) { elsewhere(2, 0, 0, i, il, s); }
void __wrap_shake256_absorb(uint64_t *s, const unsigned char *i, unsigned il) { elsewhere(3, 0, 0, i, il, s); }
void __wrap_shake128_squeezeblocks(unsigned char *o, unsigned long long n, uint64_t *s) { elsewhere(4, o, n, 0, 0, s); }
void __wrap_shake256_squeezeblocks(unsigned char *o, unsigned long long n, uint64_t *s) { elsewhere(5, o, n, 0, 0, s); }

static void callbody(void)
{
    if (O->op == 'K') O->ret = KEYPAIR(O->pk, O->sk);
    else if (O->op == 'E') O->ret = ENC(O->ct, O->ss, O->pk);
    else O->ret = DEC(O->ss, O->ct, O->sk);
}
// writable mappings other than ours and the main stack, with what they held before the call
static struct { unsigned char *a; size_t n; unsigned char *was; } M[512]; static int nm;
static unsigned char *was0; static size_t wascap = 256u << 20;
static void maps(void)
{
    char *buf = (char *)was0 + wascap; size_t n = 0; ssize_t r; int fd = open("/proc/self/maps", O_RDONLY);
    while ((r = read(fd, buf + n, (1 << 20) - 1 - n)) > 0) n += r; close(fd); buf[n] = 0; nm = 0;
    for (char *l = buf; *l; l = strchr(l, '\n') + 1) {
        unsigned long a, b; char p[8]; if (sscanf(l, "%lx-%lx %7s", &a, &b, p) != 3) continue;
        char *e = strchr(l, '\n');
        int mainstack = memmem(l, e - l, "[stack]", 7) != 0;
        if (p[0] == 'r' && p[1] == 'w' && p[3] == 'p' && !mainstack) {
            unsigned long ours[][2] = { { (unsigned long)O, (unsigned long)(O + 1) }, { (unsigned long)stack, (unsigned long)stack + STACK }, { (unsigned long)was0, (unsigned long)was0 + wascap + (1 << 20) } };
            // neighbouring mappings are merged by the kernel: cut ours out
            while (a < b) {
                unsigned long end = b, skip = 0;
                for (int k = 0; k < 3; k++) { unsigned long lo = ours[k][0] & ~4095ul, hi = (ours[k][1] + 4095) & ~4095ul; if (a >= lo && a < hi) skip = hi; else if (lo > a && lo < end) end = lo; }
                if (skip) { a = skip; continue; }
                if (nm < 512) { M[nm].a = (unsigned char *)a; M[nm].n = end - a; nm++; }
                a = end;
            }
        }
    }
}
static void hex(const unsigned char *p, size_t n) { static const char d[] = "0123456789abcdef"; for (size_t k = 0; k < n; k++) { putchar(d[p[k] >> 4]); putchar(d[p[k] & 15]); } }
static void gap(void) { for (int k = 0; k < 32; k++) fputs("00", stdout); }
int main(void)
{
    int w = dup(1); close(w);
    O = mmap(0, sizeof *O, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    was0 = mmap(0, wascap + (1 << 20), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    stack = mmap(0, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    static char obuf[1 << 16]; setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    printf("{\"e\":\"start\"}\n"); fflush(stdout);
    size_t at = 0; 
    for (;;) {
        // read a line by hand: stdio would keep it
        size_t n = 0; ssize_t r; while (n < sizeof O->line - 1 && (r = read(0, O->line + n, 1)) == 1 && O->line[n] != '\n') n++;
        if (n == 0) break;
        O->line[n] = 0; O->op = O->line[0]; char *arg = (char *)O->line + 2;
        if (O->op == 'D') { int bit = atoi(arg); if (bit >= 0) O->ct[bit >> 3] ^= 1 << (bit & 7); O->rndlen = 0; }
        else { size_t k = 0; unsigned v; for (char *h = arg; h[0] && h[1] && sscanf(h, "%2x", &v) == 1; h += 2) O->rnd[k++] = v; O->rndlen = k; }
        O->rndpos = 0;
        madvise(stack, STACK, MADV_DONTNEED);
        memset(obuf, 0, sizeof obuf);
        maps(); at = 0;
        for (int k = 0; k < nm; k++) { if (at + M[k].n > wascap) { M[k].was = 0; continue; } M[k].was = was0 + at; memcpy(M[k].was, M[k].a, M[k].n); at += M[k].n; }
        getcontext(&O->callc); O->callc.uc_stack.ss_sp = stack; O->callc.uc_stack.ss_size = STACK; O->callc.uc_link = &O->mainc;
        makecontext(&O->callc, callbody, 0); swapcontext(&O->mainc, &O->callc);
        // changed memory elsewhere, copied aside before anything is printed
        unsigned char *aside = was0 + at; size_t na = 0;
        for (int k = 0; k < nm; k++) if (M[k].was) for (size_t i = 0; i < M[k].n; i += 16) {
            if (!memcmp(M[k].a + i, M[k].was + i, 16)) continue;
            size_t lo = i >= 16 ? i - 16 : 0, j = i; int same = 0;
            for (; j < M[k].n && same < 4; j += 16) same = memcmp(M[k].a + j, M[k].was + j, 16) ? 0 : same + 1;
            if (at + na + (j - lo) + 64 > wascap) break;
            memcpy(aside + na, M[k].a + lo, j - lo); na += j - lo; memset(aside + na, 0, 32); na += 32; i = j - 16;
        }
        printf("{\"e\":\"%s\",\"ret\":%d,\"rnd\":\"", O->op == 'K' ? "keygen" : O->op == 'E' ? "encaps" : "decaps", O->ret); hex(O->rnd, O->rndlen);
        printf("\",\"pk\":\""); hex(O->pk, CRYPTO_PUBLICKEYBYTES); printf("\",\"sk\":\""); hex(O->sk, CRYPTO_SECRETKEYBYTES);
        printf("\",\"ct\":\""); hex(O->ct, O->op == 'K' ? 0 : CRYPTO_CIPHERTEXTBYTES);
        printf("\",\"left\":\"");
        static struct { size_t at, from, n; } span[100000]; size_t ns = 0, from = 0;
        size_t i = 0, used = 0; // the stack, without long runs of zeros
        while (i < STACK) {
            if (((uintptr_t)(stack + i) & 4095) == 0) { unsigned char vec; while (i < STACK && (mincore(stack + i, 4096, &vec) == 0) && !(vec & 1)) i += 4096; if (i >= STACK) break; }
            static const unsigned char z[32]; if (!memcmp(stack + i, z, 32)) { i += 32; continue; }
            size_t j = i; while (j < STACK && memcmp(stack + j, z, 32)) j += 32;
            hex(stack + i, j - i); gap(); used += j - i;
            if (ns < 100000) { span[ns].at = i; span[ns].from = from; span[ns++].n = j - i; } from += j - i + 32; i = j;
        }
        printf("\",\"static\":\""); hex(aside, na);
        printf("\",\"ss\":\""); hex(O->ss, O->op == 'K' ? 0 : CRYPTO_BYTES);
        printf("\",\"spans\":["); for (size_t k = 0; k < ns; k++) printf("%s[%zu,%zu,%zu]", k ? "," : "", span[k].at, span[k].from, span[k].n);
        printf("],\"bytes\":[%zu,%zu]}\n", used, na); fflush(stdout);
    }
    return 0;
}
