/* Accounts for every block of the heap of one compilation; linked into the compiler.
 * At exit writes to $ACCT_FILE: allocations, live blocks, live bytes, peak bytes, bad releases, descriptors still open,
 * bytes of buffers of the standard streams (left to the C library). */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

extern void *__libc_malloc(size_t);
extern void __libc_free(void *);

struct head { struct head *next, *prev; size_t size; uint64_t magic; };
#define LIVE 0x5ca1ab1e0ddba11full
#define DEAD 0xdeadbeefdeadbeefull

static struct head list = {&list, &list, 0, 0};
static long n_alloc, n_live, bad_free;
static size_t live, peak;

void *malloc(size_t n) {
    if (n > SIZE_MAX - 64) { errno = ENOMEM; return NULL; }
    struct head *h = __libc_malloc(sizeof *h + n);
    if (!h) { errno = ENOMEM; return NULL; }
    h->size = n; h->magic = LIVE;
    h->next = &list; h->prev = list.prev;
    list.prev->next = h; list.prev = h;
    n_alloc++; n_live++; live += n;
    if (live > peak) peak = live;
    return h + 1;
}

void free(void *p) {
    if (!p) return;
    struct head *h = (struct head *)p - 1;
    if (((uintptr_t)p & 15) || h->magic != LIVE) { bad_free++; return; }
    h->magic = DEAD;
    h->next->prev = h->prev; h->prev->next = h->next;
    n_live--; live -= h->size;
    /* the block itself is kept, so that a second release is seen; small ones only */
    if (h->size > 4096) { h->magic = 0; __libc_free(h); }
}

void *calloc(size_t a, size_t b) {
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void *p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}

void *realloc(void *p, size_t n) {
    if (!p) return malloc(n);
    struct head *h = (struct head *)p - 1;
    if (((uintptr_t)p & 15) || h->magic != LIVE) { bad_free++; return malloc(n); }
    void *q = malloc(n);
    if (!q) return NULL;
    live -= 0;
    memcpy(q, p, h->size < n ? h->size : n);
    free(p);
    return q;
}

void *memalign(size_t a, size_t n) { (void)a; return malloc(n); }
void *aligned_alloc(size_t a, size_t n) { (void)a; return malloc(n); }
int posix_memalign(void **r, size_t a, size_t n) { (void)a; *r = malloc(n); return *r ? 0 : ENOMEM; }

__attribute__((destructor)) static void report(void) {
    const char *f = getenv("ACCT_FILE");
    if (!f) return;
    long blocks = 0; size_t bytes = 0, std = 0;
    for (struct head *h = list.next; h != &list; h = h->next) {
        char *p = (char *)(h + 1);
        if (p == stdout->_IO_buf_base || p == stderr->_IO_buf_base || p == stdin->_IO_buf_base) { std += h->size; continue; }
        blocks++; bytes += h->size;
    }
    int open_ = 0;
    for (int i = 3; i < 512; i++) if (fcntl(i, F_GETFD) != -1) open_++;
    char b[300];
    int n = snprintf(b, sizeof b, "%ld %ld %zu %zu %ld %d %zu\n", n_alloc, blocks, bytes, peak, bad_free, open_, std);
    int fd = open(f, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    if (fd >= 0) { if (write(fd, b, n) != n) _exit(99); close(fd); }
}
