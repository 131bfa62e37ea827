/* Runs the compiler (its main renamed to umlcc_main) many times, each in a forked child.
 *
 *   driver list             paths of sources on stdin; one line "index status" each on stdout
 *   driver fuzz SEED N OUT  paths of corpus files on stdin; N mutants; failing inputs are saved in OUT
 *
 * status: exit status, or 1000 + signal.  An input fails if its status is neither 0 nor 1 (nor a time-out).
 * The mutator is deterministic in SEED and the corpus. */
#define _GNU_SOURCE
#include <fcntl.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

int umlcc_main(int argc, char *argv[]);

#define NCOV 65536
static unsigned char local_cov[NCOV];
static unsigned char *cov = local_cov;
static uint32_t nguards;

void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (; a < b; a++) *a = ++nguards % NCOV;
}

void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (*g && cov[*g] != 255) cov[*g]++;
}

static char dir[256], in_c[300], out_s[300];
static int cpu_limit = 10;
static const char *err_path = "/dev/null";
static struct rusage ru_last;

static int run_file(char *path) {
    fflush(stdout);
    pid_t p = fork();
    if (p < 0) { perror("fork"); exit(77); }
    if (p == 0) {
        struct rlimit rl = {cpu_limit, cpu_limit + 1}, core = {0, 0};
        setrlimit(RLIMIT_CPU, &rl);
        setrlimit(RLIMIT_CORE, &core);
        struct rlimit fs = {256L << 20, 256L << 20};
        setrlimit(RLIMIT_FSIZE, &fs);
        int n = open("/dev/null", O_RDWR);
        dup2(n, 0); dup2(n, 1);
        if (strcmp(err_path, "/dev/null")) { int e = open(err_path, O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(e, 2); close(e); }
        else dup2(n, 2);
        close(n);
        char *argv[] = {"umlcc", path, NULL};
        exit(umlcc_main(2, argv));
    }
    int st;
    while (wait4(p, &st, 0, &ru_last) < 0) ;
    return WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
}

/* ---- many inputs in one process: exit() comes back here; the process is renewed from time to time and whenever it dies */
#include <setjmp.h>
#include <sys/time.h>
static jmp_buf back;
static int inside, status_;
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) {
    if (inside) { inside = 0; status_ = c; longjmp(back, 1); }
    __real_exit(c);
}

static pid_t worker;
static int to_w[2], from_w[2], served;

static void worker_start(void) {
    if (pipe(to_w) || pipe(from_w)) { perror("pipe"); exit(77); }
    fflush(stdout);
    worker = fork();
    if (worker < 0) { perror("fork"); exit(77); }
    served = 0;
    if (worker) { close(to_w[0]); close(from_w[1]); return; }
    close(to_w[1]); close(from_w[0]);
    struct rlimit core = {0, 0}, fs = {256L << 20, 256L << 20};
    setrlimit(RLIMIT_CORE, &core);
    setrlimit(RLIMIT_FSIZE, &fs);
    int n = open("/dev/null", O_RDWR);
    dup2(n, 0); dup2(n, 1); dup2(n, 2);
    char c;
    while (read(to_w[0], &c, 1) == 1) {
        struct itimerval t = {{0, 0}, {cpu_limit, 0}};
        setitimer(ITIMER_VIRTUAL, &t, NULL);
        char *argv[] = {"umlcc", in_c, NULL};
        inside = 1;
        if (!setjmp(back)) { status_ = umlcc_main(2, argv); inside = 0; }
        unsigned char st = status_ == 0 ? 0 : status_ == 1 ? 1 : 98;
        if (write(from_w[1], &st, 1) != 1) _exit(1);
    }
    _exit(0);
}

static void worker_stop(int *st) {
    close(to_w[1]); close(from_w[0]);
    while (waitpid(worker, st, 0) < 0) ;
    worker = 0;
}

static int run_served(void) {
    int ws;
    if (worker && served >= 150) worker_stop(&ws);
    if (!worker) worker_start();
    served++;
    unsigned char st;
    if (write(to_w[1], "x", 1) == 1 && read(from_w[0], &st, 1) == 1) return st;
    worker_stop(&ws);
    return WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + (WTERMSIG(ws) == SIGVTALRM ? SIGXCPU : WTERMSIG(ws));
}

static void put(const char *path, const unsigned char *b, size_t n) {
    int f = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
    size_t o = 0;
    while (o < n) { ssize_t k = write(f, b + o, n - o); if (k <= 0) { perror("write"); exit(77); } o += k; }
    close(f);
}

/* ------------------------------------------------------------------ mutation */
static uint64_t rs;
static uint32_t rnd(uint32_t n) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return n ? (uint32_t)((rs * 0x2545F4914F6CDD1DULL) >> 33) % n : 0;
}

#define MAXIN 6000
typedef struct { unsigned char *b; int n; } Input;
static Input corpus[20000];
static int ncorpus;
static int good[20000], ngood;    /* indices of the accepted ones */

static const char *dict[] = {"int", "char", "long", "unsigned", "signed", "short", "void", "struct", "enum", "typedef", "static", "extern", "const", "if", "else", "while", "for", "do", "return", "break", "continue",
    "switch", "case", "default", "goto", "sizeof", "(", ")", "{", "}", "[", "]", ";", ",", ":", "?", "+", "-", "*", "/", "%", "&", "|", "^", "~", "!", "=", "==", "!=", "<", ">", "<=", ">=", "<<", ">>", "++", "--",
    "->", ".", "&&", "||", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=", "...", "0", "1", "2147483647", "2147483648", "4294967296", "9223372036854775807", "18446744073709551615", "0x7f", "017", "1L", "1UL",
    "5LL", "3ULL", "'a'", "'\\n'", "'\\0'", "'\\377'", "'\\x41'", "\"\"", "\"abc\"", "\"\\x41\\n\"", "(int)", "(char *)", "(long)", "sizeof(int)", "struct S", "enum E", "int x", "int *p", "int a[3]", "{1, 2}", "(void)", "f(1)", "a[0]", "*p", "&x", "s.a", "p->a",
    "int f(int a) { return a; }", "struct S { int a; char b[3]; };", "enum E { A, B = 3 };", "typedef int T;", "typedef struct S S;", "int (*fp)(int x);", "if (a) ; else ;", "while (1) break;", "for (;;) break;",
    "switch (x) { case 1: break; default: ; }", "x = y ? 1 : 2;", "return;", "return 0;", "\\", "'", "\"", "#", "@", "$", "\x80", "\xff", "\n", "\t", "\r", "\v", "\f", "//", "/*", "*/", "##", "`"};
#define NDICT ((int)(sizeof dict / sizeof *dict))

static int idch(int c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }

static int tok_end(const unsigned char *b, int n, int i) {
    int c = b[i];
    if (idch(c)) { while (i < n && idch(b[i])) i++; return i; }
    if (c == '"' || c == '\'') { int k = i + 1; while (k < n && b[k] != c) k += b[k] == '\\' ? 2 : 1; return k + 1 < n ? k + 1 : n; }
    return i + 1;
}

static int spans[MAXIN + 8][2];
static int tokenize(const unsigned char *b, int n) {
    int k = 0, i = 0;
    while (i < n && k < MAXIN) {
        if (b[i] == ' ' || b[i] == '\n' || b[i] == '\t') { i++; continue; }
        int e = tok_end(b, n, i);
        spans[k][0] = i; spans[k][1] = e; k++;
        i = e;
    }
    return k;
}

static unsigned char buf[MAXIN * 4], tmp[MAXIN * 4];
static int blen;

static void edit(int at, int del, const unsigned char *ins, int n) {
    if (at < 0) at = 0;
    if (at > blen) at = blen;
    if (at + del > blen) del = blen - at;
    if (blen - del + n > MAXIN) n = MAXIN - (blen - del) > 0 ? MAXIN - (blen - del) : 0;
    memmove(buf + at + n, buf + at + del, blen - at - del);
    memcpy(buf + at, ins, n);
    blen += n - del;
}

static int pick_piece(unsigned char *out) {
    /* a piece of another input: a token, a statement-like span or a bracketed span */
    Input *o = &corpus[rnd(ncorpus)];
    if (o->n == 0) return 0;
    int k = tokenize(o->b, o->n);
    if (!k) return 0;
    int i = rnd(k), a = spans[i][0], e = spans[i][1];
    int how = rnd(3);
    if (how == 1) { int j = i; while (j < k && o->b[spans[j][0]] != ';' && o->b[spans[j][0]] != '}') j++; if (j >= k) j = k - 1; e = spans[j][1]; }
    if (how == 2) {
        int j = i, d = 0;
        for (; j < k; j++) {
            int c = o->b[spans[j][0]];
            if (c == '(' || c == '{' || c == '[') d++;
            if (c == ')' || c == '}' || c == ']') { d--; if (d <= 0) break; }
        }
        if (j >= k) j = k - 1;
        e = spans[j][1];
    }
    if (e - a > 1500) e = a + 1500;
    memcpy(out, o->b + a, e - a);
    return e - a;
}

static void mutate_once(void) {
    int k = tokenize(buf, blen), n, i, j;
    int op = rnd(20);
    const char *d = dict[rnd(NDICT)];
    char num[40];
    if (k == 0 && op > 3) op = 2;
    switch (op) {
        case 0: if (blen) buf[rnd(blen)] = rnd(256); break;
        case 1: if (blen) buf[rnd(blen)] ^= 1 << rnd(8); break;
        case 2: edit(rnd(blen + 1), 0, (unsigned char *)d, strlen(d)); break;
        case 3: tmp[0] = rnd(256); edit(rnd(blen + 1), 0, tmp, 1); break;
        case 4: case 5: i = rnd(k); edit(spans[i][0], spans[i][1] - spans[i][0], (unsigned char *)"", 0); break;
        case 6: case 7: i = rnd(k); n = snprintf((char *)tmp, 200, " %s ", d); edit(spans[i][0], spans[i][1] - spans[i][0], tmp, n); break;
        case 8: i = rnd(k); n = snprintf((char *)tmp, 200, " %s ", d); edit(spans[i][0], 0, tmp, n); break;
        case 9: i = rnd(k); j = rnd(k); n = spans[j][1] - spans[j][0]; memcpy(tmp, buf + spans[j][0], n); tmp[n] = ' '; edit(spans[i][0], spans[i][1] - spans[i][0], tmp, n + 1); break;
        case 10: i = rnd(k); j = rnd(k); n = spans[j][1] - spans[j][0]; memcpy(tmp, buf + spans[j][0], n); tmp[n] = ' '; edit(spans[i][0], 0, tmp, n + 1); break;
        case 11: i = rnd(k); j = i + rnd(12); if (j >= k) j = k - 1; edit(spans[i][0], spans[j][1] - spans[i][0], (unsigned char *)"", 0); break;
        case 12: i = rnd(k); blen = rnd(4) ? spans[i][1] : (int)rnd(blen + 1); break;
        case 13: case 14: { static unsigned char piece[2000]; n = pick_piece(piece); k = tokenize(buf, blen); i = rnd(k); edit(spans[i][0], rnd(2) ? 0 : spans[i][1] - spans[i][0], piece, n); break; }
        case 15: { /* head of this, tail of another */
            Input *o = &corpus[rnd(ncorpus)];
            int cut = spans[rnd(k)][0];
            if (o->n) { int ko = tokenize(o->b, o->n); if (ko) { int s = spans[rnd(ko)][0]; n = o->n - s; memcpy(tmp, o->b + s, n); blen = cut; edit(cut, 0, tmp, n); } }
            break; }
        case 16: { /* repeat a span */
            i = rnd(k); j = i + rnd(8); if (j >= k) j = k - 1;
            n = spans[j][1] - spans[i][0];
            int at = spans[i][0];
            if (n > 300) break;
            memcpy(tmp, buf + at, n); tmp[n] = ' ';
            for (int t = 1 + rnd(rnd(10) ? 3 : 40); t > 0; t--) edit(at, 0, tmp, n + 1);
            break; }
        case 17: { /* another number */
            for (int t = 0; t < 20; t++) { i = rnd(k); if (buf[spans[i][0]] >= '0' && buf[spans[i][0]] <= '9') break; }
            uint64_t v = ((uint64_t)rnd(1u << 31) << 33 ^ (uint64_t)rnd(1u << 31) << 10 ^ rnd(1024)) >> rnd(64);
            const char *suf[] = {"", "", "U", "L", "UL", "LL", "ULL", "x", "lu"};
            n = snprintf(num, 40, rnd(4) ? "%llu%s" : (rnd(2) ? "0x%llx%s" : "0%llo%s"), (unsigned long long)v, suf[rnd(9)]);
            edit(spans[i][0], spans[i][1] - spans[i][0], (unsigned char *)num, n);
            break; }
        case 18: { /* wrap tokens */
            i = rnd(k); j = i + rnd(6); if (j >= k) j = k - 1;
            const char *w[][2] = {{"(", ")"}, {"{", "}"}, {"[", "]"}, {"f(", ")"}, {"sizeof(", ")"}, {"(char)(", ")"}, {"*(", ")"}, {"&(", ")"}, {"if (", ") ;"}, {"\"", "\""}, {"'", "'"}, {"struct {", "} v"}, {"enum {", "}"}, {"(long *)(", ")"}};
            int q = rnd(sizeof w / sizeof *w);
            edit(spans[j][1], 0, (unsigned char *)w[q][1], strlen(w[q][1]));
            edit(spans[i][0], 0, (unsigned char *)w[q][0], strlen(w[q][0]));
            break; }
        default: { /* swap two tokens */
            i = rnd(k); j = rnd(k); if (i > j) { int t = i; i = j; j = t; }
            if (i == j) break;
            int na = spans[i][1] - spans[i][0], nb = spans[j][1] - spans[j][0], aj = spans[j][0], ai = spans[i][0];
            memcpy(tmp, buf + ai, na);
            memcpy(tmp + na, buf + aj, nb);
            edit(aj, nb, tmp, na);
            edit(ai, na, tmp + na, nb);
            break; }
    }
}

static unsigned char seen[NCOV];
static int bucket(int c) { return c == 0 ? 0 : c == 1 ? 1 : c == 2 ? 2 : c < 4 ? 4 : c < 8 ? 8 : c < 16 ? 16 : c < 32 ? 32 : c < 128 ? 64 : 128; }

static int new_coverage(void) {
    int r = 0;
    for (int i = 0; i < NCOV; i++)
        if (cov[i]) { int b = bucket(cov[i]); if (~seen[i] & b) { seen[i] |= b; r = 1; } }
    return r;
}

static void keep(const unsigned char *b, int n, int accepted) {
    if (ncorpus == 20000) return;
    corpus[ncorpus].b = malloc(n + 1);
    memcpy(corpus[ncorpus].b, b, n);
    if (accepted) good[ngood++] = ncorpus;
    corpus[ncorpus++].n = n;
}

static long st_ok, st_refused, st_timeout, st_fail;

static int attempt(const unsigned char *b, int n, const char *outdir, long id) {
    put(in_c, b, n);
    memset(cov, 0, NCOV);
    int st = run_served();
    unlink(out_s);
    if (st == 0) st_ok++;
    else if (st == 1) st_refused++;
    else if (st == 1000 + SIGXCPU || st == 1000 + SIGKILL) st_timeout++;
    else {
        char p[600];
        st_fail++;
        if (st_fail <= 20) { snprintf(p, sizeof p, "%s/fail_%ld_%d.c", outdir, id, st); put(p, b, n); }
    }
    if ((st == 1000 + SIGXCPU || st == 1000 + SIGKILL)) { char p[600]; snprintf(p, sizeof p, "%s/slow_%ld.c", outdir, id); put(p, b, n); }
    return st;
}

int main(int argc, char **argv) {
    char line[4096];
    if (argc >= 2 && !strcmp(argv[1], "list")) {
        if (argc >= 3) cpu_limit = atoi(argv[2]);
        int i = 0;
        while (fgets(line, sizeof line, stdin)) {
            line[strcspn(line, "\n")] = 0;
            char e[4200];
            snprintf(e, sizeof e, "%s.err", line);
            err_path = e;
            int st = run_file(line);
            printf("%d %d %ld\n", i++, st, ru_last.ru_maxrss);
        }
        return 0;
    }
    if (argc < 5) return 77;
    signal(SIGPIPE, SIG_IGN);
    cpu_limit = 5;
    cov = mmap(NULL, NCOV, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    long n = atol(argv[3]);
    const char *out = argv[4];
    snprintf(dir, sizeof dir, "%s", out);
    snprintf(in_c, sizeof in_c, "%s/in.c", dir);
    snprintf(out_s, sizeof out_s, "%s/in.s", dir);
    rs = 0x9E3779B97F4A7C15ULL * (strtoull(argv[2], NULL, 10) + 1) ^ 0xD1B54A32D192ED03ULL;
    static unsigned char fb[MAXIN + 1];
    long id = 0;
    while (fgets(line, sizeof line, stdin)) {
        line[strcspn(line, "\n")] = 0;
        int f = open(line, O_RDONLY);
        if (f < 0) continue;
        int k = read(f, fb, MAXIN);
        close(f);
        if (k < 0) continue;
        int st = attempt(fb, k, out, id++);
        new_coverage();
        keep(fb, k, st == 0);
    }
    int base = ncorpus, edges = 0;
    if (!base) keep((unsigned char *)"int x;", 6, 1);
    for (int i = 0; i < NCOV; i++) edges += seen[i] != 0;
    int edges0 = edges;
    for (long i = 0; i < n; i++) {
        Input *c = ngood && rnd(10) < 7 ? &corpus[good[rnd(ngood)]] : &corpus[rnd(3) == 0 && ncorpus > base ? base + rnd(ncorpus - base) : rnd(ncorpus)];
        memcpy(buf, c->b, c->n);
        blen = c->n;
        for (int m = rnd(2) ? 1 : 1 + rnd(rnd(3) ? 2 : 8); m > 0; m--) mutate_once();
        int st = attempt(buf, blen, out, id++);
        if ((st == 0 || st == 1) && new_coverage()) keep(buf, blen, st == 0);
    }
    unlink(in_c);
    for (int i = edges = 0; i < NCOV; i++) edges += seen[i] != 0;
    printf("{\"executions\": %ld, \"accepted\": %ld, \"refused\": %ld, \"timeouts\": %ld, \"failed\": %ld, \"edges_seeds\": %d, \"edges\": %d, \"guards\": %u, \"corpus_added\": %d}\n", id, st_ok, st_refused, st_timeout, st_fail, edges0, edges, nguards, ncorpus - base);
    for (int i = base; i < ncorpus; i++) { char p[600]; snprintf(p, sizeof p, "%s/new_%d.c", out, i); put(p, corpus[i].b, corpus[i].n); }
    return 0;
}
