// Runs a script of KEM calls on caller-owned buffers and records every call as one line of
// JSON.  Linked with the library under test minus its randomness source: randombytes() is
// here and serves the bytes the script names.
//
//   W b hex          set buffer b            C d s   copy        Z b len byte   fill
//   F b bit..        flip bits               P b off hex  patch
//   S d src off len  d := slice of src       A b mode off   placement of buffer b
//   K pk sk rnd      E ct ss pk rnd      D ss ct sk      rnd: hex, or !k = k-th request fails
//   O 0|1            input buffers are read-only memory during calls
//   N byte           output buffers hold this byte when a call starts (-1: what they held)
//   R kr er bit      key generation, encapsulation, decapsulation, decapsulation with that bit changed; only a digest is recorded
//   T seed n         n round trips with randomness made from seed, and as many with a damaged ciphertext
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/mman.h>
#include <openssl/evp.h>
#define STR2(x) #x
#define STR(x) STR2(x)
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#include HDR
#define KEYPAIR CAT(crypto_kem_keypair_Frodo, SIZE)
#define ENC     CAT(crypto_kem_enc_Frodo, SIZE)
#define DEC     CAT(crypto_kem_dec_Frodo, SIZE)

#define NBUF 48
#define MAXLEN 65536
#define PAD 8192
static struct { unsigned char *page, *p; size_t len; int mode, off; unsigned char shadow[MAXLEN]; } B[NBUF];

static unsigned char rnd[4096]; static size_t rndlen, rndpos; static long failat, nreq;
static unsigned long long draws[64]; static int shortfall; static long long got;
int randombytes(unsigned char *x, unsigned long long n)
{
    if (nreq < 64) draws[nreq] = n;
    nreq++;
    if (failat && nreq == failat) return 1;
    if (!failat || nreq < failat) got += n;
    for (unsigned long long k = 0; k < n; k++) {
        if (rndpos < rndlen) x[k] = rnd[rndpos++];
        else { x[k] = 0x77; shortfall = 1; }
    }
    return 0;
}

static void place(int b)
{ // mode 0: padded on both sides; 1: ends at an unmapped page; 2: starts right after one
    if (!B[b].page) {
        unsigned char *m = mmap(0, 4096 + PAD + MAXLEN + PAD + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (m == MAP_FAILED) { perror("mmap"); exit(3); }
        mprotect(m, 4096, PROT_NONE);
        mprotect(m + 4096 + PAD + MAXLEN + PAD, 4096, PROT_NONE);
        B[b].page = m + 4096;
    }
    size_t room = PAD + MAXLEN + PAD;
    memset(B[b].page, 0xC3, room);
    if (B[b].mode == 1) B[b].p = B[b].page + room - B[b].len;
    else if (B[b].mode == 2) B[b].p = B[b].page;
    else B[b].p = B[b].page + PAD + B[b].off;
    memcpy(B[b].p, B[b].shadow, B[b].len);
}
static void setbuf_(int b, const unsigned char *v, size_t len)
{ if (len > MAXLEN) exit(3); memmove(B[b].shadow, v, len); B[b].len = len; place(b); }
static int guards(int b)
{
    size_t room = PAD + MAXLEN + PAD;
    for (unsigned char *q = B[b].page; q < B[b].p; q++) if (*q != 0xC3) return 0;
    for (unsigned char *q = B[b].p + B[b].len; q < B[b].page + room; q++) if (*q != 0xC3) return 0;
    return 1;
}
static size_t unhex(const char *h, unsigned char *o, size_t max)
{
    size_t n = 0; if (*h == '-') return 0;
    for (; h[0] && h[1]; h += 2) {
        unsigned v; if (sscanf(h, "%2x", &v) != 1) break;
        if (n == max) exit(3);
        o[n++] = v;
    }
    return n;
}
static void hex(const unsigned char *p, size_t n)
{
    static const char d[] = "0123456789abcdef"; static char o[2 * MAXLEN + 1];
    for (size_t k = 0; k < n; k++) { o[2*k] = d[p[k] >> 4]; o[2*k+1] = d[p[k] & 15]; }
    fwrite(o, 1, 2 * n, stdout);
}
// every buffer's guards, and the contents of every buffer outside the set of outputs; lists what changed
static void dirty(int o1, int o2)
{
    printf(",\"dirty\":["); int first = 1;
    for (int b = 0; b < NBUF; b++) if (B[b].page) {
        if (!guards(b)) { printf("%s\"b%d guard\"", first ? "" : ",", b); first = 0; place(b); }
        else if (b != o1 && b != o2 && memcmp(B[b].p, B[b].shadow, B[b].len)) { printf("%s\"b%d\"", first ? "" : ",", b); first = 0; memcpy(B[b].shadow, B[b].p, B[b].len); }
    }
    printf("]");
}
static void drew(void)
{ printf(",\"draws\":["); for (long k = 0; k < nreq && k < 64; k++) printf("%s%llu", k ? "," : "", draws[k]); printf("],\"short\":%d,\"got\":%lld", shortfall, got); }
static void out(const char *name, int b, size_t len)
{ printf(",\"%s\":\"b%d\",\"o%s\":\"", name, b, name); hex(B[b].p, len); printf("\""); memcpy(B[b].shadow, B[b].p, len); }
static void rndarg(const char *a)
{ rndpos = 0; nreq = 0; shortfall = 0; got = 0; failat = 0; rndlen = 0; const char *bang = strchr(a, '!');
  if (bang) failat = atol(bang + 1);
  if (a[0] != '!') { char *c = strdup(a); char *x = strchr(c, '!'); if (x) *x = 0; rndlen = unhex(c, rnd, sizeof rnd); free(c); } }
static int fillwith = -1, readonly;
// the pages of an input
static void lock_(int b, int how)
{ if (readonly) { size_t room = PAD + MAXLEN + PAD; if (mprotect(B[b].page, room, how ? PROT_READ : PROT_READ | PROT_WRITE)) exit(3); } }
// round trips
static uint64_t trng;
static void tbytes(unsigned char *p, size_t n)
{ for (size_t k = 0; k < n; k++) { uint64_t z = (trng += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; p[k] = z >> 40; } }
static uint64_t d0, d1;
static void digest(const unsigned char *p, size_t n)
{ for (size_t k = 0; k < n; k++) { d0 = (d0 ^ p[k]) * 0x100000001b3ull; d1 = (d1 + p[k] + 1) * 0x9E3779B97F4A7C15ull; d1 ^= d1 >> 31; } }
static void trips(uint64_t seed, long n)
{
    static unsigned char pk[MAXLEN], sk[MAXLEN], ct[MAXLEN], ss[2][CRYPTO_BYTES], ss2[128]; static char a[200000], b[200000]; size_t at = 0; int bad = 0;
    if (n > 1000) exit(3);
    trng = seed * 0xD1342543DE82EF95ull + 99; d0 = 0xcbf29ce484222325ull; d1 = 1; a[0] = b[0] = 0;
    for (long t = 0; t < n; t++) {
        rndpos = nreq = shortfall = failat = 0; rndlen = 256; tbytes(rnd, 256);
        bad |= KEYPAIR(pk, sk);
        rndpos = 0; tbytes(rnd, 256); bad |= ENC(ct, ss[0], pk);
        bad |= DEC(ss[1], ct, sk);
        for (int k = 0; k < CRYPTO_BYTES; k++) { sprintf(a + at + 2 * k, "%02x", ss[0][k]); sprintf(b + at + 2 * k, "%02x", ss[1][k]); }
        at += 2 * CRYPTO_BYTES;
        digest(pk, CRYPTO_PUBLICKEYBYTES); digest(sk, CRYPTO_SECRETKEYBYTES); digest(ct, CRYPTO_CIPHERTEXTBYTES); digest(ss[0], 2 * CRYPTO_BYTES);
        unsigned char w[4]; tbytes(w, 4); ct[(w[0] | w[1] << 8 | w[2] << 16) % CRYPTO_CIPHERTEXTBYTES] ^= 1 << (w[3] & 7);
        bad |= DEC(ss2, ct, sk); digest(ss2, CRYPTO_BYTES);
    }
    printf("{\"e\":\"trips\",\"seed\":\"%llu\",\"n\":%ld,\"ret\":%d,\"a\":\"%s\",\"b\":\"%s\",\"h\":\"%016llx%016llx\"}\n", (unsigned long long)seed, n, bad, a, b, (unsigned long long)d0, (unsigned long long)d1);
}
static void whole(char **a)
{
    static unsigned char o[8 * MAXLEN], h[32]; unsigned char *pk = o, *sk = pk + CRYPTO_PUBLICKEYBYTES, *ct = sk + CRYPTO_SECRETKEYBYTES, *ss = ct + CRYPTO_CIPHERTEXTBYTES; int bad = 0;
    memset(o, 0x3d, sizeof o);
    printf("{\"e\":\"round\",\"kr\":\"%s\",\"er\":\"%s\",\"bit\":%s", a[0], a[1], a[2]); fflush(stdout);
    rndarg(a[0]); bad |= KEYPAIR(pk, sk); rndarg(a[1]); bad |= ENC(ct, ss, pk); bad |= DEC(ss + CRYPTO_BYTES, ct, sk);
    long b = atol(a[2]); static unsigned char c2[MAXLEN]; memcpy(c2, ct, CRYPTO_CIPHERTEXTBYTES); c2[b >> 3] ^= 1 << (b & 7); bad |= DEC(ss + 2 * CRYPTO_BYTES, c2, sk);
    EVP_MD_CTX *m = EVP_MD_CTX_new(); if (!m || !EVP_DigestInit_ex(m, EVP_shake256(), 0) || !EVP_DigestUpdate(m, o, ss + 3 * CRYPTO_BYTES - o) || !EVP_DigestFinalXOF(m, h, 32)) exit(3);
    EVP_MD_CTX_free(m);
    printf(",\"ret\":%d,\"h\":\"", bad); hex(h, 32); printf("\"}\n");
}
// an output buffer keeps its previous contents but has exactly the length of the output
static void prep(int b, size_t len)
{ if (fillwith >= 0) { memset(B[b].shadow, fillwith, len); B[b].len = len; place(b); }
  else if (B[b].len != len || !B[b].page) { if (len > B[b].len) memset(B[b].shadow + B[b].len, 0xEE, len - B[b].len); B[b].len = len; place(b); } }

int main(void)
{
    static char line[4 * MAXLEN]; static unsigned char tmp[MAXLEN];
    setvbuf(stdout, 0, _IOFBF, 1 << 20);
    printf("{\"e\":\"sizes\",\"pk\":%d,\"sk\":%d,\"ct\":%d,\"ss\":%d,\"alg\":\"%s\"}\n", CRYPTO_PUBLICKEYBYTES, CRYPTO_SECRETKEYBYTES, CRYPTO_CIPHERTEXTBYTES, CRYPTO_BYTES, CRYPTO_ALGNAME);
    fflush(stdout);
    while (fgets(line, sizeof line, stdin)) {
        char *sv, *op = strtok_r(line, " \n", &sv); if (!op) continue;
        char *a[80]; int n = 0; while (n < 80 && (a[n] = strtok_r(0, " \n", &sv))) n++;
#define BUF(k) ({ int b_ = atoi(a[k]); if (b_ < 0 || b_ >= NBUF) exit(3); b_; })
        if (*op == '#') continue;
        if (*op == 'W') { size_t l = unhex(a[1], tmp, MAXLEN); setbuf_(BUF(0), tmp, l); printf("{\"e\":\"write\",\"b\":\"b%d\",\"v\":\"", BUF(0)); hex(tmp, l); printf("\"}\n"); }
        else if (*op == 'Z') { size_t l = atol(a[1]); memset(tmp, atoi(a[2]), l); setbuf_(BUF(0), tmp, l); printf("{\"e\":\"fill\",\"b\":\"b%d\",\"len\":%zu,\"v\":%d}\n", BUF(0), l, atoi(a[2])); }
        else if (*op == 'C') { setbuf_(BUF(0), B[BUF(1)].shadow, B[BUF(1)].len); printf("{\"e\":\"copy\",\"b\":\"b%d\",\"src\":\"b%d\"}\n", BUF(0), BUF(1)); }
        else if (*op == 'S') { setbuf_(BUF(0), B[BUF(1)].shadow + atol(a[2]), atol(a[3])); printf("{\"e\":\"slice\",\"b\":\"b%d\",\"src\":\"b%d\",\"off\":%s,\"len\":%s}\n", BUF(0), BUF(1), a[2], a[3]); }
        else if (*op == 'F') { int b = BUF(0); printf("{\"e\":\"flip\",\"b\":\"b%d\",\"bits\":[", b);
            for (int k = 1; k < n; k++) { long p = atol(a[k]); B[b].shadow[p >> 3] ^= 1 << (p & 7); printf("%s%ld", k > 1 ? "," : "", p); }
            place(b); printf("]}\n"); }
        else if (*op == 'J') { int b = BUF(1), c = BUF(2); size_t o = atol(a[3]); if (o > B[b].len || o > B[c].len) exit(3); // first o bytes of one, the rest of the other
            memmove(tmp, B[b].shadow, o); memmove(tmp + o, B[c].shadow + o, B[c].len - o); size_t l = B[c].len; setbuf_(BUF(0), tmp, l);
            printf("{\"e\":\"join\",\"b\":\"b%d\",\"src\":\"b%d\",\"rest\":\"b%d\",\"off\":%zu}\n", BUF(0), b, c, o); }
        else if (*op == 'P') { int b = BUF(0); size_t l = unhex(a[2], tmp, MAXLEN), o = atol(a[1]); if (o + l > B[b].len) exit(3); memcpy(B[b].shadow + o, tmp, l); place(b);
            printf("{\"e\":\"patch\",\"b\":\"b%d\",\"off\":%zu,\"v\":\"", b, o); hex(tmp, l); printf("\"}\n"); }
        else if (*op == 'A') { int b = BUF(0); B[b].mode = atoi(a[1]); B[b].off = atoi(a[2]); place(b); }
        else if (*op == 'K') { int pk = BUF(0), sk = BUF(1); prep(pk, CRYPTO_PUBLICKEYBYTES); prep(sk, CRYPTO_SECRETKEYBYTES); rndarg(a[2]);
            int r = KEYPAIR(B[pk].p, B[sk].p);
            printf("{\"e\":\"keygen\",\"fail\":%ld,\"ret\":%d,\"rnd\":\"", failat, r); hex(rnd, rndlen); printf("\""); drew(); dirty(pk, sk); out("pk", pk, CRYPTO_PUBLICKEYBYTES); out("sk", sk, CRYPTO_SECRETKEYBYTES); printf("}\n"); }
        else if (*op == 'E') { int ct = BUF(0), ss = BUF(1), pk = BUF(2); prep(ct, CRYPTO_CIPHERTEXTBYTES); prep(ss, CRYPTO_BYTES); rndarg(a[3]);
            lock_(pk, 1); int r = ENC(B[ct].p, B[ss].p, B[pk].p); lock_(pk, 0);
            printf("{\"e\":\"encaps\",\"fail\":%ld,\"ret\":%d,\"pk\":\"b%d\",\"rnd\":\"", failat, r, pk); hex(rnd, rndlen); printf("\""); drew(); dirty(ct, ss); out("ct", ct, CRYPTO_CIPHERTEXTBYTES); out("ss", ss, CRYPTO_BYTES); printf("}\n"); }
        else if (*op == 'D') { int ss = BUF(0), ct = BUF(1), sk = BUF(2); prep(ss, CRYPTO_BYTES); rndarg("-");
            lock_(ct, 1); lock_(sk, 1); int r = DEC(B[ss].p, B[ct].p, B[sk].p); lock_(ct, 0); lock_(sk, 0);
            printf("{\"e\":\"decaps\",\"ret\":%d,\"ct\":\"b%d\",\"sk\":\"b%d\"", r, ct, sk); drew(); dirty(ss, -1); out("ss", ss, CRYPTO_BYTES); printf("}\n"); }
        else if (*op == 'O') readonly = atoi(a[0]);
        else if (*op == 'N') fillwith = atoi(a[0]);
        else if (*op == 'R') whole(a);
        else if (*op == 'T') trips(strtoull(a[0], 0, 10), atol(a[1]));
        else exit(3);
        fflush(stdout);
    }
    return 0;
}
