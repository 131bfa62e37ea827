/* Another world around the compiler: every question a program may put to its surroundings is answered as
 * AMBIENT chooses.  For LD_PRELOAD.  The number of questions asked goes to AMBIENT_FILE if it is set. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/times.h>
#include <time.h>
#include <unistd.h>

extern char **environ;
static uint64_t seed;
static int asked, ready;

static const char *own(const char *k) {
    size_t n = strlen(k);
    for (char **e = environ; e && *e; e++)
        if (!strncmp(*e, k, n) && (*e)[n] == '=') return *e + n + 1;
    return NULL;
}

static uint64_t next(void) {
    if (!ready) {
        const char *s = own("AMBIENT");
        seed = (s ? strtoull(s, NULL, 10) : 1) * 0x9e3779b97f4a7c15ull + 88172645463325252ull;
        ready = 1;
    }
    asked++;
    seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17;
    return seed >> 11;
}

__attribute__((destructor)) static void tell(void) {
    const char *f = own("AMBIENT_FILE");
    if (!f || !asked) return;
    int d = open(f, O_WRONLY | O_CREAT | O_APPEND, 0600);
    if (d >= 0) {
        if (write(d, "?", 1) < 0) {}
        close(d);
    }
}

char *getenv(const char *k) {
    static char *say[] = {"1", "0", "", "yes", "2147483648", "/nonexistent", "x y z", "-1", "C", "debug"};
    if (!strcmp(k, "AMBIENT")) return (char *)own(k);
    uint64_t x = next();
    return x % 4 == 0 ? NULL : say[x / 4 % 10];
}
char *secure_getenv(const char *k) { return getenv(k); }

time_t time(time_t *t) {
    time_t x = (time_t)(next() % 4000000000u);
    if (t) *t = x;
    return x;
}
clock_t clock(void) { return (clock_t)(next() % 100000000u); }
clock_t times(struct tms *t) { if (t) memset(t, (int)next(), sizeof *t); return (clock_t)(next() % 100000000u); }
int gettimeofday(struct timeval *restrict t, void *restrict z) { (void)z; if (t) { t->tv_sec = (time_t)(next() % 4000000000u); t->tv_usec = (suseconds_t)(next() % 1000000); } return 0; }
int clock_gettime(clockid_t c, struct timespec *t) { (void)c; t->tv_sec = (time_t)(next() % 4000000000u); t->tv_nsec = (long)(next() % 1000000000); return 0; }
int getrusage(__rusage_who_t w, struct rusage *u) { (void)w; memset(u, (int)(next() % 128), sizeof *u); return 0; }
pid_t getpid(void) { return (pid_t)(2 + next() % 4000000); }
pid_t getppid(void) { return (pid_t)(2 + next() % 4000000); }
pid_t gettid(void) { return (pid_t)(2 + next() % 4000000); }
uid_t getuid(void) { return (uid_t)(next() % 70000); }
uid_t geteuid(void) { return (uid_t)(next() % 70000); }
gid_t getgid(void) { return (gid_t)(next() % 70000); }
gid_t getegid(void) { return (gid_t)(next() % 70000); }
int rand(void) { return (int)(next() & RAND_MAX); }
void srand(unsigned s) { (void)s; }
long random(void) { return (long)(next() & RAND_MAX); }
void srandom(unsigned s) { (void)s; }
long lrand48(void) { return (long)(next() & 0x7fffffff); }
uint32_t arc4random(void) { return (uint32_t)next(); }
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; for (size_t i = 0; i < n; i++) ((char *)p)[i] = (char)next(); return (ssize_t)n; }
int isatty(int d) { (void)d; return (int)(next() % 2); }
char *getlogin(void) { return next() % 2 ? (char *)"a" : NULL; }
int gethostname(char *p, size_t n) { snprintf(p, n, "h%u", (unsigned)(next() % 1000)); return 0; }
char *getcwd(char *p, size_t n) {
    char t[40];
    snprintf(t, sizeof t, "/d%u", (unsigned)(next() % 1000));
    if (!p) return strdup(t);
    if (strlen(t) >= n) return NULL;
    return strcpy(p, t);
}
long sysconf(int k) { (void)k; uint64_t x = next(); return x % 5 == 0 ? -1 : (long)(1 + x / 5 % 65536); }
int getpagesize(void) { return 4096 << next() % 5; }
