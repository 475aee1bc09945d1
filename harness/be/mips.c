// A 32-bit big-endian machine (MIPS32 release 2, no floating point) that runs the library compiled for it. The three calls
// of the library are offered to the driver: arguments are copied in, results are copied out.
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define STR2(x) #x
#define STR(x) STR2(x)
#include HDR
typedef uint32_t u; typedef int32_t s;
int randombytes(unsigned char *x, unsigned long long n);
#define SIZE_ (160u << 20)
static unsigned char M[SIZE_] __attribute__((aligned(4096))); static u R[33], HI, LO, pc; static int loaded;
static u entry[3], arena;
#define HALT 0x7ffffff0u
static __attribute__((noinline,cold,noreturn)) void stop(const char *why, u x) { fprintf(stderr, "machine: %s %08x at %08x\n", why, x, pc); fflush(stdout); exit(9); }
static __attribute__((noinline,cold,noreturn)) void fault(u a) { fprintf(stderr, "access to %08x at %08x\n", a, pc); fflush(stdout); abort(); }
static inline unsigned char *at(u a, u n) { if (__builtin_expect(a - 4096 > SIZE_ - n - 4096, 0)) fault(a); return M + a; }
static inline u r8(u a) { return *at(a, 1); }
static inline u r16(u a) { unsigned char *p = at(a, 2); return p[0] << 8 | p[1]; }
static inline u r32(u a) { u v; memcpy(&v, at(a, 4), 4); return __builtin_bswap32(v); }
static inline void w8(u a, u v) { *at(a, 1) = v; }
static inline void w16(u a, u v) { unsigned char *p = at(a, 2); p[0] = v >> 8; p[1] = v; }
static inline void w32(u a, u v) { v = __builtin_bswap32(v); memcpy(at(a, 4), &v, 4); }
// instructions are decoded once; the code does not change while it runs
struct ins { unsigned char k, s, t, d, sa, done; u im, se, raw; };
static struct ins T[SIZE_ / 64];
enum { SP = 0, RI = 64, S2 = 96, S3 = 128, OP = 160, BAD = 255 };
static void decode(struct ins *d, u i)
{
    u op = i >> 26, fn = i & 63, rt = i >> 16 & 31, rd = i >> 11 & 31, sa = i >> 6 & 31;
    d->raw = i; d->s = i >> 21 & 31; d->t = rt; d->d = rd ? rd : 32; d->sa = sa; d->im = i & 0xffff; d->se = (u)(s)(int16_t)i; d->done = 1;
    d->k = op == 0 ? SP + fn : op == 1 ? (rt < 32 ? RI + rt : BAD) : op == 28 ? (fn == 32 ? S2 + 16 : fn == 33 ? S2 + 17 : fn < 6 ? S2 + fn : BAD)
         : op == 31 ? (fn == 0 ? S3 : fn == 4 ? S3 + 1 : fn == 32 && sa == 2 ? S3 + 2 : fn == 32 && sa == 16 ? S3 + 3 : fn == 32 && sa == 24 ? S3 + 4 : BAD) : OP + op;
    if (op >= 8 && op < 16 || op >= 32 && op < 40 || op == 31 && (fn == 0 || fn == 4)) d->d = rt ? rt : 32;   // the target is register t
}
static void run(void)
{
    u p = pc, np = pc + 4;
    for (;;) {
        if (__builtin_expect(p / 4 >= SIZE_ / 64, 0)) { if (p == HALT) break; pc = p; fault(p); }
        struct ins *x = &T[p / 4]; if (__builtin_expect(!x->done, 0)) { pc = p; decode(x, r32(p)); }
        u a = R[x->s], b = R[x->t], se = x->se, im = x->im, sa = x->sa, next = np + 4, ea = a + se; u *D = &R[x->d]; uint64_t acc;
#define BR(c) do { if (c) next = np + (se << 2); } while (0)
#define LIKELY(c) do { if (c) next = np + (se << 2); else { np = np + 4; next = np + 4; } } while (0)
#define WHERE pc = p
        switch (x->k) {
        case SP+0: *D = b << sa; break;
        case SP+2: *D = x->s & 1 ? b >> sa | (sa ? b << (32 - sa) : 0) : b >> sa; break;
        case SP+3: *D = (s)b >> sa; break;
        case SP+4: *D = b << (a & 31); break;
        case SP+6: { u k = a & 31; *D = sa & 1 ? b >> k | (k ? b << (32 - k) : 0) : b >> k; break; }
        case SP+7: *D = (s)b >> (a & 31); break;
        case SP+8: next = a; break;
        case SP+9: next = a; *D = np + 4; break;
        case SP+10: if (!b) *D = a; break;
        case SP+11: if (b) *D = a; break;
        case SP+12: WHERE;
            if (R[2] == 1) { if (R[6] || R[7] > SIZE_ / 2) stop("request", R[7]); R[2] = randombytes(at(R[4], R[7]), R[7]); }
            else if (R[2] == 3) stop("heap", 0);
            else { fprintf(stderr, "abort\n"); fflush(stdout); abort(); }
            break;
        case SP+13: fprintf(stderr, "break at %08x\n", p); fflush(stdout); abort();
        case SP+15: break;
        case SP+16: *D = HI; break; case SP+17: HI = a; break; case SP+18: *D = LO; break; case SP+19: LO = a; break;
        case SP+24: acc = (int64_t)(s)a * (s)b; HI = acc >> 32; LO = acc; break;
        case SP+25: acc = (uint64_t)a * b; HI = acc >> 32; LO = acc; break;
        case SP+26: if (b && !(a == 0x80000000u && b == ~0u)) { LO = (s)a / (s)b; HI = (s)a % (s)b; } break;
        case SP+27: if (b) { LO = a / b; HI = a % b; } break;
        case SP+32: case SP+33: *D = a + b; break;
        case SP+34: case SP+35: *D = a - b; break;
        case SP+36: *D = a & b; break; case SP+37: *D = a | b; break; case SP+38: *D = a ^ b; break; case SP+39: *D = ~(a | b); break;
        case SP+42: *D = (s)a < (s)b; break; case SP+43: *D = a < b; break;
        case SP+52: if (a == b) { fprintf(stderr, "division by zero at %08x\n", p); fflush(stdout); abort(); } break;
        case RI+0: BR((s)a < 0); break; case RI+1: BR((s)a >= 0); break; case RI+2: LIKELY((s)a < 0); break; case RI+3: LIKELY((s)a >= 0); break;
        case RI+16: BR((s)a < 0); R[31] = np + 4; break; case RI+17: BR((s)a >= 0); R[31] = np + 4; break;
        case S2+0: acc = (uint64_t)HI << 32 | LO; acc += (int64_t)(s)a * (s)b; HI = acc >> 32; LO = acc; break;
        case S2+1: acc = (uint64_t)HI << 32 | LO; acc += (uint64_t)a * b; HI = acc >> 32; LO = acc; break;
        case S2+2: *D = a * b; break;
        case S2+4: acc = (uint64_t)HI << 32 | LO; acc -= (int64_t)(s)a * (s)b; HI = acc >> 32; LO = acc; break;
        case S2+5: acc = (uint64_t)HI << 32 | LO; acc -= (uint64_t)a * b; HI = acc >> 32; LO = acc; break;
        case S2+16: *D = a ? __builtin_clz(a) : 32; break;
        case S2+17: *D = ~a ? __builtin_clz(~a) : 32; break;
        case S3+0: { u n = (x->raw >> 11 & 31) + 1; *D = a >> sa & (n == 32 ? ~0u : (1u << n) - 1); break; }
        case S3+1: { u n = (x->raw >> 11 & 31) - sa + 1, m = (n >= 32 ? ~0u : (1u << n) - 1) << sa; *D = (b & ~m) | (a << sa & m); break; }
        case S3+2: *D = (b & 0x00ff00ff) << 8 | (b >> 8 & 0x00ff00ff); break;
        case S3+3: *D = (s)(int8_t)b; break;
        case S3+4: *D = (s)(int16_t)b; break;
        case OP+3: R[31] = np + 4; /* fall through */
        case OP+2: next = (np & 0xf0000000) | (x->raw & 0x3ffffff) << 2; break;
        case OP+4: BR(a == b); break; case OP+5: BR(a != b); break; case OP+6: BR((s)a <= 0); break; case OP+7: BR((s)a > 0); break;
        case OP+8: case OP+9: *D = ea; break;
        case OP+10: *D = (s)a < (s)se; break; case OP+11: *D = a < se; break;
        case OP+12: *D = a & im; break; case OP+13: *D = a | im; break; case OP+14: *D = a ^ im; break; case OP+15: *D = im << 16; break;
        case OP+20: LIKELY(a == b); break; case OP+21: LIKELY(a != b); break; case OP+22: LIKELY((s)a <= 0); break; case OP+23: LIKELY((s)a > 0); break;
        case OP+32: WHERE; *D = (s)(int8_t)r8(ea); break; case OP+33: WHERE; *D = (s)(int16_t)r16(ea); break; case OP+35: WHERE; *D = r32(ea); break;
        case OP+36: WHERE; *D = r8(ea); break; case OP+37: WHERE; *D = r16(ea); break;
        case OP+34: { WHERE; u n = ea & 3, v = r32(ea & ~3u); *D = v << 8 * n | (n ? b & ((1u << 8 * n) - 1) : 0); break; }
        case OP+38: { WHERE; u n = 3 - (ea & 3), v = r32(ea & ~3u); *D = v >> 8 * n | (n ? b & ~(~0u >> 8 * n) : 0); break; }
        case OP+40: WHERE; w8(ea, b); break; case OP+41: WHERE; w16(ea, b); break; case OP+43: WHERE; w32(ea, b); break;
        case OP+42: { WHERE; u n = ea & 3, v = r32(ea & ~3u); w32(ea & ~3u, b >> 8 * n | (n ? v & ~(~0u >> 8 * n) : 0)); break; }
        case OP+46: { WHERE; u n = 3 - (ea & 3), v = r32(ea & ~3u); w32(ea & ~3u, b << 8 * n | (n ? v & ((1u << 8 * n) - 1) : 0)); break; }
        case OP+51: break;
        default: WHERE; stop("instruction", x->raw);
        }
        p = np; np = next;
    }
    pc = p;
}
static void load(void)
{
    FILE *f = fopen(IMG, "rb"); static unsigned char e[64 << 20]; size_t n = f ? fread(e, 1, sizeof e, f) : 0;
    if (n < 52) { fprintf(stderr, "machine: no image\n"); exit(9); }
    loaded = 1;
#define E32(o) (e[o] << 24 | e[(o)+1] << 16 | e[(o)+2] << 8 | e[(o)+3])
#define E16(o) (e[o] << 8 | e[(o)+1])
    u ph = E32(28), np = E16(44), sh = E32(32), ns = E16(48), end = 0;
    for (u k = 0; k < np; k++) { u p = ph + 32 * k; if (E32(p) == 1) { u off = E32(p + 4), va = E32(p + 8), fs = E32(p + 16), ms = E32(p + 20);
        memcpy(at(va, ms), e + off, fs); if (va + ms > end) end = va + ms; } }
    for (u k = 0; k < ns; k++) { u q = sh + 40 * k; if (E32(q + 4) == 2) { u off = E32(q + 16), len = E32(q + 20), str = E32(sh + 40 * E32(q + 24) + 16);
        static const char *want[3] = { STR(CAT(crypto_kem_keypair_Frodo, SIZE)), STR(CAT(crypto_kem_enc_Frodo, SIZE)), STR(CAT(crypto_kem_dec_Frodo, SIZE)) };
        for (u o = off; o < off + len; o += 16) for (int w = 0; w < 3; w++) if (!strcmp((char *)e + str + E32(o), want[w])) entry[w] = E32(o + 4); } }
    arena = (end + 4095) & ~4095u; if (arena + (48u << 20) > SIZE_) { fprintf(stderr, "machine: image too large\n"); exit(9); }
    for (int w = 0; w < 3; w++) if (!entry[w]) { fprintf(stderr, "machine: entry missing\n"); exit(9); }
}
static int call(int w, unsigned char **p, const size_t *n, int outs, int count)
{
    if (!loaded) load();
    u x[3];
    for (int k = 0; k < count; k++) { x[k] = arena + 65536 + k * 131072 + ((uintptr_t)p[k] & 63); memcpy(M + x[k], p[k], n[k]); R[4 + k] = x[k]; }
    R[29] = SIZE_ - 65536; R[31] = HALT; R[25] = pc = entry[w]; run();
    for (int k = 0; k < outs; k++) memcpy(p[k], M + x[k], n[k]);
    return R[2];
}
int CAT(crypto_kem_keypair_Frodo, SIZE)(unsigned char *pk, unsigned char *sk)
{ unsigned char *p[] = { pk, sk }; size_t n[] = { CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES }; return call(0, p, n, 2, 2); }
int CAT(crypto_kem_enc_Frodo, SIZE)(unsigned char *ct, unsigned char *ss, const unsigned char *pk)
{ unsigned char *p[] = { ct, ss, (unsigned char *)pk }; size_t n[] = { CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, CRYPTO_PUBLICKEYBYTES }; return call(1, p, n, 2, 3); }
int CAT(crypto_kem_dec_Frodo, SIZE)(unsigned char *ss, const unsigned char *ct, const unsigned char *sk)
{ unsigned char *p[] = { ss, (unsigned char *)ct, (unsigned char *)sk }; size_t n[] = { CRYPTO_BYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_SECRETKEYBYTES }; return call(2, p, n, 1, 3); }
