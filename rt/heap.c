/* A heap of another shape: HEAP_SEED chooses fill bytes, gaps between blocks, and whether addresses grow or fall.
 * Memory is never reused; released blocks are overwritten.  For LD_PRELOAD. */
#define _GNU_SOURCE
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>

static char *lo, *hi, *base_;
static uint64_t seed;
static int down;
#define SIZE (6ul << 30)

static uint64_t next(void) {
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    return seed;
}

static void init(void) {
    const char *s = getenv("HEAP_SEED");
    seed = s ? strtoull(s, NULL, 10) * 2654435761u + 88172645463325252ull : 88172645463325252ull;
    for (int i = 0; i < 8; i++) next();
    down = next() >> 20 & 1;
    lo = base_ = mmap(NULL, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (lo == MAP_FAILED) abort();
    hi = lo + SIZE;
}

static void *get(size_t n, size_t align) {
    if (!lo) init();
    if (align < 16) align = 16;
    size_t gap = next() % 7 * 16;
    if (n > SIZE || n + 2 * align + gap + 32 > (size_t)(hi - lo)) { errno = ENOMEM; return NULL; }
    char *p;
    if (down) p = (char *)((uintptr_t)(hi - n) & ~(align - 1));
    else p = (char *)(((uintptr_t)lo + 16 + align - 1) & ~(align - 1));
    ((size_t *)p)[-1] = n;
    if (down) hi = p - 16 - gap;
    else lo = p + n + gap;
    return p;
}

static void fill(void *p, size_t n) {
    uint64_t v = next();
    unsigned char *c = p;
    int how = v >> 40 & 3;
    if (n > 1 << 20) { memset(p, (int)v, 1 << 20); return; }
    for (size_t i = 0; i < n; i++) c[i] = how == 0 ? 0xff : how == 1 ? (unsigned char)v : how == 2 ? (unsigned char)(v >> (i % 8 * 8)) : 1;
}

void *malloc(size_t n) { void *p = get(n, 16); if (p) fill(p, n); return p; }
void *calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; } return get(n, 16); }
void free(void *p) { if (p && (char *)p >= base_ && (char *)p < base_ + SIZE) { size_t n = ((size_t *)p)[-1]; fill(p, n); } }
void *realloc(void *p, size_t n) {
    void *q = malloc(n);
    if (p && q) { size_t m = ((size_t *)p)[-1]; memcpy(q, p, m < n ? m : n); free(p); }
    return q;
}
void *memalign(size_t a, size_t n) { return get(n, a); }
void *aligned_alloc(size_t a, size_t n) { return get(n, a); }
int posix_memalign(void **r, size_t a, size_t n) { *r = get(n, a); return *r ? 0 : ENOMEM; }

/* other times and processes */
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
static uint64_t other(void) {
    const char *s = getenv("HEAP_SEED");
    return (s ? strtoull(s, NULL, 10) : 1) * 2654435761u % 4000000007u;
}
time_t time(time_t *t) { time_t v = (time_t)other(); if (t) *t = v; return v; }
clock_t clock(void) { return (clock_t)other(); }
int gettimeofday(struct timeval *t, void *z) { (void)z; if (t) { t->tv_sec = (time_t)other(); t->tv_usec = (long)(other() % 1000000); } return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; if (t) { t->tv_sec = (time_t)other(); t->tv_nsec = (long)(other() % 1000000000); } return 0; }
pid_t getpid(void) { return (pid_t)(other() % 4000000 + 2); }
