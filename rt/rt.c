#define _GNU_SOURCE
#include "rt.h"
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#define CAP (1 << 22)
#define MAX_EVENTS 60000
static char buf[CAP];
static int len, cur_case, cur_sub, n_events, in_case;
static sigjmp_buf jb, jsub;
static volatile int in_sub;

static void flush(void);
static void emit(const char *kind, u64 v) {
    if (n_events >= MAX_EVENTS) return;
    if (len > CAP - 256) flush();
    n_events++;
    len += sprintf(buf + len, "%d %d %s %llx\n", cur_case, cur_sub, kind, v);
}
void raw_event(const char *kind, u64 v) { emit(kind, v); }
static void flush(void) {
    int off = 0;
    while (off < len) {
        ssize_t r = write(1, buf + off, len - off);
        if (r <= 0) _exit(90);
        off += r;
    }
    len = 0;
}
void sub(void) { cur_sub++; }

void host_log_c(char v) { emit("c", (u64)(long long)v); }
void host_log_i(int v) { emit("i", (u64)(long long)v); }
void host_log_u(unsigned int v) { emit("u", v); }
void host_log_l(long v) { emit("l", (u64)v); }
void host_log_m(unsigned long v) { emit("m", v); }
void host_log_q(long long v) { emit("q", (u64)v); }
void host_log_v(unsigned long long v) { emit("v", v); }
void host_log_b(const void *p, int n) {
    const unsigned char *b = p;
    for (int i = 0; i < n; i++) emit("b", b[i]);
}
void host_log_s(const char *s) {
    int n = 0;
    while (s[n] && n < 300) n++;
    emit("s", n);
    host_log_b(s, n);
}
/* targets of the stubs */
void real_log_c(char v) { host_log_c(v); }
void real_log_i(int v) { host_log_i(v); }
void real_log_u(unsigned int v) { host_log_u(v); }
void real_log_l(long v) { host_log_l(v); }
void real_log_m(unsigned long v) { host_log_m(v); }
void real_log_q(long long v) { host_log_q(v); }
void real_log_v(unsigned long long v) { host_log_v(v); }
int real_ev(int id) { emit("ev", (u64)(long long)id); return id; }
int real_ev2(int id, int r) { emit("ev", (u64)(long long)id); return r; }
char real_evc(int id, char r) { emit("ev", (u64)(long long)id); return r; }
long real_evl(int id, long r) { emit("ev", (u64)(long long)id); return r; }
void real_log_s(char *s) { host_log_s(s); }
void real_log_b(char *p, int n) { host_log_b(p, n); }
__attribute__((noinline)) void real_dirty(void) {
    volatile unsigned char a[4096];
    for (int i = 0; i < 4096; i++) a[i] = 0x5a + i * 7;
}
/* reports of the call monitors in abi.S */
void abi_bad_align(void) { emit("ALIGN", 1); }
void abi_bad_saved(u64 which) { emit("SAVED", which); }
/* undefined behaviour seen by the reference build */
void ub_mark(void) { if (in_case) emit("UB", 0); }

void log_as(char t, u64 v) {
    switch (t) {
    case 'c': host_log_c((char)v); break;
    case 'i': host_log_i((int)v); break;
    case 'u': host_log_u((unsigned int)v); break;
    case 'l': host_log_l((long)v); break;
    case 'm': host_log_m(v); break;
    case 'q': host_log_q((long long)v); break;
    case 'v': host_log_v(v); break;
    case 'z': emit("void", 0); break;
    default: emit("?", 0);
    }
}
static const u64 bc[] = {0, 1, 2, 3, 0x7f, 0x80, 0xff, 0xfe, 0x41};
static const u64 bi[] = {0, 1, 2, 7, 0x7f, 0x80, 0xff, 0x100, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffe, 0xffffff80};
static const u64 bl[] = {0, 1, 2, 7, 31, 0x80, 0xff, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff,
                         0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe, 0xffffffff80000000, 0xffffffffffffff80};
#define N(a) ((int)(sizeof(a) / sizeof *(a)))
static const u64 *table(char t, int *n) {
    if (t == 'c') { *n = N(bc); return bc; }
    if (t == 'i' || t == 'u') { *n = N(bi); return bi; }
    *n = N(bl);
    return bl;
}
static u64 mix(u64 *s) {
    u64 z = (*s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static u64 rnd(char t, u64 *s) {
    int n;
    const u64 *tab = table(t, &n);
    u64 m = mix(s), x = mix(s);
    switch (m % 8) {
    case 0: case 1: return tab[x % n];
    case 2: case 3: return x % 64;                     /* small */
    case 4: return (u64)-(long long)(x % 64);          /* small negative */
    case 5: return x >> (m / 8 % 64);                  /* any magnitude */
    case 6: return ~(x >> (m / 8 % 64));
    default: return x;
    }
}
static u64 dress(char t, u64 v) {
    if (t == 'c') return ax_c((char)v);
    if (t == 'i' || t == 'u') return ax_u((unsigned int)v);
    return v;
}
static void call_log(void *fn, char r, const u64 *a, int n) {
    volatile int depth = abi_depth;
    sub();
    if (sigsetjmp(jsub, 1) == 0) {
        in_sub = 1;
        u64 v = abi_call(fn, a, n);
        in_sub = 0;
        log_as(r, v);
    } else { /* crashed: the event is in the log, go on with the next operands */
        in_sub = 0;
        abi_depth = depth;
    }
}
void grid1(void *fn, char r, char t1, u64 seed, int extra) {
    int n;
    const u64 *t = table(t1, &n);
    u64 a[6] = {0};
    for (int i = 0; i < n + extra; i++) {
        a[0] = dress(t1, i < n ? t[i] : rnd(t1, &seed));
        call_log(fn, r, a, 1);
    }
}
void grid2(void *fn, char r, char t1, char t2, u64 seed, int extra) {
    int n, m;
    const u64 *x = table(t1, &n), *y = table(t2, &m);
    u64 a[6] = {0};
    for (int i = 0; i < n; i++)
        for (int j = 0; j < m; j++) {
            a[0] = dress(t1, x[i]), a[1] = dress(t2, y[j]);
            call_log(fn, r, a, 2);
        }
    for (int i = 0; i < extra; i++) {
        a[0] = dress(t1, rnd(t1, &seed)), a[1] = dress(t2, rnd(t2, &seed));
        call_log(fn, r, a, 2);
    }
}
void gridn(void *fn, char r, const char *types, u64 seed, int count) {
    u64 a[32] = {0};
    int n = strlen(types);
    for (int i = 0; i < count; i++) {
        for (int j = 0; j < n; j++) a[j] = dress(types[j], rnd(types[j], &seed));
        call_log(fn, r, a, n);
    }
}

static void on_signal(int sig) {
    if (!in_case) _exit(91);
    /* a signal while logging could leave a torn line: terminate it */
    if (len > 0 && buf[len - 1] != '\n') buf[len++] = '\n';
    if (n_events >= MAX_EVENTS) n_events = MAX_EVENTS - 1;
    emit(sig == SIGVTALRM ? "HANG" : "CRASH", sig == SIGVTALRM ? 0 : sig);
    if (in_sub) siglongjmp(jsub, 1);
    siglongjmp(jb, 1);
}

static char altstack[1 << 16];

int main(int argc, char **argv) {
    int from = argc > 1 ? atoi(argv[1]) : 0, to = argc > 2 ? atoi(argv[2]) : n_cases;
    stack_t ss = {.ss_sp = altstack, .ss_size = sizeof altstack};
    sigaltstack(&ss, NULL);
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM};
    for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, NULL);
    for (volatile int k = from; k < to && k < n_cases; k++) {
        cur_case = k;
        cur_sub = 0;
        n_events = 0;
        abi_depth = 0;
        emit("BEGIN", 0);
        flush();
        struct itimerval it = {{0, 0}, {4, 0}};
        setitimer(ITIMER_VIRTUAL, &it, NULL);
        if (sigsetjmp(jb, 1) == 0) {
            in_case = 1;
            cases[k]();
        }
        in_case = in_sub = 0;
        memset(&it, 0, sizeof it);
        setitimer(ITIMER_VIRTUAL, &it, NULL);
        n_events = 0;
        emit("END", 0);
        flush();
    }
    return 0;
}
