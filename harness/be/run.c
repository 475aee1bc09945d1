// What the library takes from the C library, for a machine that has none.
typedef unsigned size_t; typedef unsigned long long u64; typedef long long i64;
void *memcpy(void *d, const void *s, size_t n) { char *a = d; const char *b = s; for (size_t k = 0; k < n; k++) a[k] = b[k]; return d; }
void *memmove(void *d, const void *s, size_t n) { char *a = d; const char *b = s; if (a < b) for (size_t k = 0; k < n; k++) a[k] = b[k]; else while (n--) a[n] = b[n]; return d; }
void *memset(void *d, int c, size_t n) { char *a = d; for (size_t k = 0; k < n; k++) a[k] = c; return d; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (size_t k = 0; k < n; k++) if (a[k] != b[k]) return a[k] < b[k] ? -1 : 1; return 0; }
int bcmp(const void *x, const void *y, size_t n) { return memcmp(x, y, n); }
void explicit_bzero(void *d, size_t n) { memset(d, 0, n); }
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
asm(".set noreorder\n.globl randombytes\nrandombytes: li $2, 1\nsyscall\njr $31\nnop\n"
    ".globl full\nfull: li $2, 3\nsyscall\njr $31\nnop\n"
    ".globl abort\nabort: li $2, 2\nsyscall\njr $31\nnop\n.set reorder\n");
void abort(void);
void exit(int c) { abort(); }
void __assert_fail(const char *a, const char *b, unsigned c, const char *d) { abort(); }
// a heap from which the last piece, and everything once nothing is in use, can be given back
static char heap[24 << 20] __attribute__((aligned(64))); static size_t top; static int live; void full(void);
struct piece { size_t start, end; };
void *aligned_alloc(size_t a, size_t n)
{ if (a < 16) a = 16; size_t s = top, p = (top + sizeof(struct piece) + a - 1) & ~(a - 1);
  if (n > sizeof heap || p + n > sizeof heap) full();
  struct piece *h = (struct piece *)(heap + p) - 1; h->start = s; h->end = top = (p + n + 15) & ~15u; live++; return heap + p; }
void *malloc(size_t n) { return aligned_alloc(16, n); }
void *calloc(size_t a, size_t b) { void *p = malloc(a * b); if (p) memset(p, 0, a * b); return p; }
int posix_memalign(void **p, size_t a, size_t n) { *p = aligned_alloc(a, n); return *p ? 0 : 12; }
void free(void *p) { if (p) { struct piece *h = (struct piece *)p - 1; if (--live == 0) top = 0; else if (h->end == top) top = h->start; } }
// arithmetic the processor lacks
static u64 divmod(u64 a, u64 b, u64 *r) { u64 q = 0, x = 0; for (int k = 63; k >= 0; k--) { x = x << 1 | (a >> k & 1); if (x >= b) { x -= b; q |= 1ull << k; } } *r = x; return q; }
u64 __udivdi3(u64 a, u64 b) { u64 r; return divmod(a, b, &r); }
u64 __umoddi3(u64 a, u64 b) { u64 r; divmod(a, b, &r); return r; }
i64 __divdi3(i64 a, i64 b) { u64 r, q = divmod(a < 0 ? -(u64)a : a, b < 0 ? -(u64)b : b, &r); return (a < 0) != (b < 0) ? -q : q; }
i64 __moddi3(i64 a, i64 b) { u64 r; divmod(a < 0 ? -(u64)a : a, b < 0 ? -(u64)b : b, &r); return a < 0 ? -r : r; }
