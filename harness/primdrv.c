// Drives the library's SHAKE and AES interfaces and records every call as one line of JSON.
//   H bits in outlen            one-shot            X outlen in0 in1 in2 in3     four-way one-shot
//   B h bits in / Q h nblocks   absorb / squeeze    Y h in0..in3 / U h nblocks   four-way absorb / squeeze
//   L h bits key / N h pt mode / R h                AES: load schedule / encrypt (mode&1: in place, mode&2: misaligned by mode>>2) / free
//   G bits chunk times rest skip len / V ... / M h chunk times rest len   one-shot, four-way, AES on very long strings: the input
//       is the 4096-byte chunk `times` times and `rest` more bytes of it; SHAKE makes 2^20*skip+len bytes, of which the last len
//       are recorded, AES as many as it was given
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
#include <unistd.h>
#include "sha3/fips202.h"
#ifdef HAVE_X4
#include "sha3/fips202x4.h"
#endif
#ifdef HAVE_AES
#include "aes/aes.h"
#endif
int randombytes(unsigned char *x, unsigned long long n) { memset(x, 7, n); return 0; }

#define MAX (1 << 20)
static unsigned char *arena[10];
// a buffer of n bytes that ends at an unmapped page; everything before it is a canary
static unsigned char *buf(int k, size_t n)
{
    if (!arena[k]) {
        arena[k] = mmap(0, MAX + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        mprotect(arena[k] + MAX + 4096, 4096, PROT_NONE);
    }
    if (n > MAX) exit(3);
    memset(arena[k] + MAX + 4096 - n - 256, 0xC3, n + 256);
    return arena[k] + MAX + 4096 - n;
}
static int clean(unsigned char *p) { for (int k = 1; k <= 256; k++) if (p[-k] != 0xC3) return 0; return 1; }
static int tail(unsigned char *p, int n) { while (n--) if (p[n] != 0xC3) return 0; return 1; }
static size_t unhex(const char *h, unsigned char *o)
{
    size_t n = 0; if (*h == '-') return 0;
    for (; h[0] && h[1]; h += 2) { unsigned v; if (sscanf(h, "%2x", &v) != 1) break; o[n++] = v; }
    return n;
}
static unsigned char tmp[5][MAX];
static void hex(const char *name, const unsigned char *p, size_t n)
{ printf(",\"%s\":\"", name); for (size_t k = 0; k < n; k++) { static const char d[] = "0123456789abcdef"; putchar(d[p[k] >> 4]); putchar(d[p[k] & 15]); } putchar('"'); }

// an address range of n bytes, ending at an unmapped page, in which the same 16 MiB appear again and again
#define WIN (16ul << 20)
static unsigned char *fold(size_t n, const unsigned char *chunk, unsigned char **last)
{
    size_t k = (n + WIN - 1) / WIN + 1; int fd = memfd_create("w", 0); if (fd < 0 || ftruncate(fd, WIN)) exit(3);
    unsigned char *m = mmap(0, k * WIN + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) exit(3);
    for (size_t i = 0; i < k; i++) if (mmap(m + i * WIN, WIN, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) exit(3);
    close(fd); unsigned char *p = m + k * WIN - n;
    if (chunk) { p = m; for (size_t i = 0; i < WIN; i += 4096) memcpy(m + i, chunk, 4096); } else memset(m, 0xC3, WIN);
    if (last) *last = p + n;
    return p;
}
static uint64_t st[8][25]; static int bits_[8];
#ifdef HAVE_X4
static __m256i st4[8][25];
#endif
#ifdef HAVE_AES
// a schedule is as long as the round keys; behind it lies a canary
static unsigned char sch[8][512] __attribute__((aligned(64))); static int kb[8];
#define SCHLEN(b) ((b) == 128 ? 176 : 240)
static int schclean(int h) { for (int k = SCHLEN(kb[h]); k < 512; k++) if (sch[h][k] != 0xB7) return 0; return 1; }
#endif
static char line[4 * MAX];
int main(void)
{
    setvbuf(stdout, 0, _IOFBF, 1 << 20);
    while (fgets(line, sizeof line, stdin)) {
        char *sv, *op = strtok_r(line, " \n", &sv); if (!op) continue;
        char *a[12]; int n = 0; while (n < 12 && (a[n] = strtok_r(0, " \n", &sv))) n++;
        switch (*op) {
        case 'H': { int b = atoi(a[0]); size_t il = unhex(a[1], tmp[0]), ol = atol(a[2]); unsigned char *i = buf(0, il), *o = buf(1, ol); memcpy(i, tmp[0], il);
            (b == 128 ? shake128 : shake256)(o, ol, i, il);
            printf("{\"e\":\"shake\",\"bits\":%d,\"len\":%zu,\"ok\":%d", b, ol, clean(o) && clean(i) && !memcmp(i, tmp[0], il)); hex("in", tmp[0], il); hex("out", o, ol); printf("}\n"); break; }
        case 'B': { int h = atoi(a[0]), b = atoi(a[1]); size_t il = unhex(a[2], tmp[0]); unsigned char *i = buf(0, il); memcpy(i, tmp[0], il); memset(st[h], 0, sizeof st[h]); bits_[h] = b;
            (b == 128 ? shake128_absorb : shake256_absorb)(st[h], i, il);
            printf("{\"e\":\"absorb\",\"h\":\"h%d\",\"bits\":%d,\"ok\":%d", h, b, clean(i) && !memcmp(i, tmp[0], il)); hex("in", tmp[0], il); printf("}\n"); break; }
        case 'Q': { int h = atoi(a[0]); size_t nb = atol(a[1]), ol = nb * (bits_[h] == 128 ? 168 : 136); unsigned char *o = buf(1, ol);
            (bits_[h] == 128 ? shake128_squeezeblocks : shake256_squeezeblocks)(o, nb, st[h]);
            printf("{\"e\":\"squeeze\",\"h\":\"h%d\",\"n\":%zu,\"ok\":%d", h, nb, clean(o)); hex("out", o, ol); printf("}\n"); break; }
#ifdef HAVE_X4
        case 'X': { size_t ol = atol(a[0]), il = 0; unsigned char *i[4], *o[4]; int ok = 1;
            for (int k = 0; k < 4; k++) { il = unhex(a[1 + k], tmp[k]); i[k] = buf(k, il); memcpy(i[k], tmp[k], il); o[k] = buf(4 + k, ol); }
            shake128_4x(o[0], o[1], o[2], o[3], ol, i[0], i[1], i[2], i[3], il);
            for (int k = 0; k < 4; k++) ok &= clean(o[k]) && clean(i[k]) && !memcmp(i[k], tmp[k], il);
            printf("{\"e\":\"shake4\",\"len\":%zu,\"ok\":%d", ol, ok);
            for (int k = 0; k < 4; k++) { char nm[8]; sprintf(nm, "in%d", k); hex(nm, tmp[k], il); sprintf(nm, "out%d", k); hex(nm, o[k], ol); } printf("}\n"); break; }
        case 'Y': { int h = atoi(a[0]); size_t il = 0; unsigned char *i[4];
            for (int k = 0; k < 4; k++) { il = unhex(a[1 + k], tmp[k]); i[k] = buf(k, il); memcpy(i[k], tmp[k], il); }
            memset(st4[h], 0x5b + h, sizeof st4[h]); shake128_absorb4x(st4[h], i[0], i[1], i[2], i[3], il);
            printf("{\"e\":\"absorb4\",\"h\":\"x%d\",\"ok\":1", h); for (int k = 0; k < 4; k++) { char nm[8]; sprintf(nm, "in%d", k); hex(nm, tmp[k], il); } printf("}\n"); break; }
        case 'U': { int h = atoi(a[0]); size_t nb = atol(a[1]), ol = nb * 168; unsigned char *o[4]; int ok = 1; for (int k = 0; k < 4; k++) o[k] = buf(4 + k, ol);
            shake128_squeezeblocks4x(o[0], o[1], o[2], o[3], ol, st4[h]);
            for (int k = 0; k < 4; k++) ok &= clean(o[k]);
            printf("{\"e\":\"squeeze4\",\"h\":\"x%d\",\"n\":%zu,\"ok\":%d", h, nb, ok); for (int k = 0; k < 4; k++) { char nm[8]; sprintf(nm, "out%d", k); hex(nm, o[k], ol); } printf("}\n"); break; }
#endif
#ifdef HAVE_AES
        case 'L': { int h = atoi(a[0]), b = atoi(a[1]); size_t il = unhex(a[2], tmp[0]); unsigned char *i = buf(0, il); memcpy(i, tmp[0], il); kb[h] = b; memset(sch[h], 0xB7, 512);
            (b == 128 ? AES128_load_schedule : AES256_load_schedule)(i, sch[h]);
            printf("{\"e\":\"load\",\"h\":\"k%d\",\"bits\":%d,\"ok\":%d", h, b, schclean(h) && clean(i) && !memcmp(i, tmp[0], il)); hex("key", tmp[0], il); printf("}\n"); break; }
        case 'N': { int h = atoi(a[0]), m = atoi(a[2]); size_t il = unhex(a[1], tmp[0]); int off = (m & 2) ? m >> 2 : 0; unsigned char *i = buf(0, il + off), *o = (m & 1) ? i : buf(1, il + off); memcpy(i, tmp[0], il);
            unsigned char was[512]; memcpy(was, sch[h], 512);
            (kb[h] == 128 ? AES128_ECB_enc_sch : AES256_ECB_enc_sch)(i, il, sch[h], o);
            printf("{\"e\":\"enc\",\"h\":\"k%d\",\"place\":%d,\"ok\":%d", h, m, clean(o) && clean(i) && !memcmp(was, sch[h], 512) && tail(i + il, off) && tail(o + il, off) && ((m & 1) || !memcmp(i, tmp[0], il))); hex("pt", tmp[0], il); hex("ct", o, il); printf("}\n"); break; }
        case 'R': { int h = atoi(a[0]); (kb[h] == 128 ? AES128_free_schedule : AES256_free_schedule)(sch[h]);
            printf("{\"e\":\"free\",\"h\":\"k%d\",\"ok\":%d}\n", h, schclean(h)); break; }
#endif
        case 'G': case 'V': { size_t cl = unhex(a[1], tmp[0]), il = 4096 * atol(a[2]) + atol(a[3]), len = atol(a[5]), ol = (atol(a[4]) << 20) + len; int b = atoi(a[0]), w = *op == 'V' ? 4 : 1;
            if (cl != 4096) exit(3);
            unsigned char *i = fold(il, tmp[0], 0), *o[4], *end[4]; for (int k = 0; k < w; k++) o[k] = fold(ol, 0, &end[k]);
            if (w == 1) (b == 128 ? shake128 : shake256)(o[0], ol, i, il);
#ifdef HAVE_X4
            else shake128_4x(o[0], o[1], o[2], o[3], ol, i, i, i, i, il);
#endif
            printf("{\"e\":\"giant\",\"bits\":%d,\"times\":%s,\"rest\":%s,\"skip\":%s,\"len\":%s,\"ok\":1", b, a[2], a[3], a[4], a[5]); hex("chunk", tmp[0], 4096);
            printf(",\"out\":["); for (int k = 0; k < w; k++) { printf(k ? ",\"" : "\""); for (size_t j = 0; j < len; j++) printf("%02x", end[k][j - len]); printf("\""); } printf("]}\n"); break; }
#ifdef HAVE_AES
        case 'M': { int h = atoi(a[0]); size_t cl = unhex(a[1], tmp[0]), il = 4096 * atol(a[2]) + atol(a[3]), len = atol(a[4]); if (cl != 4096) exit(3);
            unsigned char *i = fold(il, tmp[0], 0), *end, *o = fold(il, 0, &end);
            (kb[h] == 128 ? AES128_ECB_enc_sch : AES256_ECB_enc_sch)(i, il, sch[h], o);
            printf("{\"e\":\"giantenc\",\"h\":\"k%d\",\"rest\":%s,\"len\":%s,\"ok\":1", h, a[3], a[4]); hex("chunk", tmp[0], 4096); hex("ct", end - len, len); printf("}\n"); break; }
#endif
        default: exit(3);
        }
        fflush(stdout);
    }
    return 0;
}
