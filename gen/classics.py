"""Ordinary programs of the kind a user writes, with random parameters."""


def quicksort(r, k):
    n = r.randrange(5, 60)
    return """int qa%(k)d[64]; int qn%(k)d;
void qswap%(k)d(int *a, int *b) { int t = *a; *a = *b; *b = t; }
int qpart%(k)d(int *v, int lo, int hi) { int p = v[hi]; int i = lo - 1; int j; for (j = lo; j < hi; j++) { if (v[j] <= p) { i++; qswap%(k)d(&v[i], &v[j]); } } qswap%(k)d(&v[i + 1], &v[hi]); qn%(k)d += hi - lo; return i + 1; }
void qsort%(k)d(int *v, int lo, int hi) { if (lo < hi) { int p = qpart%(k)d(v, lo, hi); qsort%(k)d(v, lo, p - 1); qsort%(k)d(v, p + 1, hi); } }
void entry%(k)d(void) { unsigned int s = %(s)dU; int i; for (i = 0; i < %(n)d; i++) { s = s * 1103515245U + 12345U; qa%(k)d[i] = (int)((s >> 16) %% 1000U) - 500; } qsort%(k)d(qa%(k)d, 0, %(n)d - 1); for (i = 0; i < %(n)d; i++) log_i(qa%(k)d[i]); log_i(qn%(k)d); }
""" % {"k": k, "n": n, "s": r.getrandbits(31)}


def sieve(r, k):
    n = r.randrange(20, 250)
    return """char sv%(k)d[256];
int sieve%(k)d(int n) { int c = 0; int i; int j; for (i = 0; i < n; i++) sv%(k)d[i] = 1; for (i = 2; i < n; i++) { if (!sv%(k)d[i]) continue; c++; log_i(i); for (j = i + i; j < n; j += i) sv%(k)d[j] = 0; } return c; }
void entry%(k)d(void) { log_i(sieve%(k)d(%(n)d)); }
""" % {"k": k, "n": n}


def matrix(r, k):
    n = r.randrange(2, 6)
    t, lg = r.choice([("int", "log_i"), ("long", "log_l"), ("unsigned int", "log_u"), ("long long", "log_q")])
    return """%(t)s ma%(k)d[%(n)d][%(n)d]; %(t)s mb%(k)d[%(n)d][%(n)d]; %(t)s mc%(k)d[%(n)d][%(n)d];
void mul%(k)d(%(t)s (*a)[%(n)d], %(t)s (*b)[%(n)d], %(t)s (*c)[%(n)d]) { int i; int j; int h; for (i = 0; i < %(n)d; i++) for (j = 0; j < %(n)d; j++) { %(t)s s = 0; for (h = 0; h < %(n)d; ++h) s += a[i][h] * b[h][j]; c[i][j] = s; } }
void entry%(k)d(void) { int i; int j; for (i = 0; i < %(n)d; i++) for (j = 0; j < %(n)d; j++) { ma%(k)d[i][j] = i * %(x)d + j; mb%(k)d[i][j] = (i - j) * %(y)d; } mul%(k)d(ma%(k)d, mb%(k)d, mc%(k)d); for (i = 0; i < %(n)d; i++) for (j = 0; j < %(n)d; j++) %(l)s(mc%(k)d[i][j]); }
""" % {"k": k, "n": n, "t": t, "l": lg, "x": r.randrange(1, 50), "y": r.randrange(1, 50)}


def linked_list(r, k):
    n = r.randrange(3, 30)
    return """struct LN%(k)d { int v; struct LN%(k)d *next; char tag; };
struct LN%(k)d lp%(k)d[32]; int lu%(k)d; typedef struct LN%(k)d *LP%(k)d;
LP%(k)d lnew%(k)d(int v, LP%(k)d next) { LP%(k)d p = &lp%(k)d[lu%(k)d++]; p->v = v; p->next = next; p->tag = (char)v; return p; }
LP%(k)d lrev%(k)d(LP%(k)d p) { LP%(k)d r = (LP%(k)d)0; while (p) { LP%(k)d n = p->next; p->next = r; r = p; p = n; } return r; }
LP%(k)d lins%(k)d(LP%(k)d h, int v) { if (!h || h->v >= v) return lnew%(k)d(v, h); h->next = lins%(k)d(h->next, v); return h; }
int lsum%(k)d(LP%(k)d p) { return p ? p->v + lsum%(k)d(p->next) : 0; }
void entry%(k)d(void) { LP%(k)d h = (LP%(k)d)0; LP%(k)d p; unsigned int s = %(s)dU; int i; for (i = 0; i < %(n)d; i++) { s = s * 69069U + 1U; h = lins%(k)d(h, (s >> 20) & 255); } for (p = h; p; p = p->next) { log_i(p->v); log_c(p->tag); } h = lrev%(k)d(h); for (p = h; p != (LP%(k)d)0; p = p->next) log_i(p->v); log_i(lsum%(k)d(h)); }
""" % {"k": k, "n": n, "s": r.getrandbits(31)}


def strings(r, k):
    a = "".join(r.choice("abcABC xyz019") for _ in range(r.randrange(0, 24)))
    b = "".join(r.choice("abcABC xyz019") for _ in range(r.randrange(0, 24)))
    return """int slen%(k)d(char *s) { int n = 0; while (*s++) n++; return n; }
char *scpy%(k)d(char *d, char *s) { char *r = d; while (*d++ = *s++) ; return r; }
int scmp%(k)d(char *a, char *b) { while (*a && *a == *b) { a++; b++; } return *a - *b; }
void srev%(k)d(char *s) { int i = 0; int j = slen%(k)d(s) - 1; while (i < j) { char c = s[i]; s[i++] = s[j]; s[j--] = c; } }
char upper%(k)d(char c) { if (c >= 'a' && c <= 'z') return c - 'a' + 'A'; return c; }
int toi%(k)d(char *s) { int v = 0; int neg = 0; if (*s == '-') { neg = 1; s++; } for (; *s >= '0' && *s <= '9'; s++) v = v * 10 + (*s - '0'); return neg ? -v : v; }
unsigned int hash%(k)d(char *s) { unsigned int h = 5381U; for (; *s; ++s) h = h * 33U ^ *s; return h; }
char sb%(k)d[64];
void entry%(k)d(void) { char *p; char loc[32] = "%(b)s"; log_i(slen%(k)d("%(a)s")); log_s(scpy%(k)d(sb%(k)d, "%(a)s")); srev%(k)d(sb%(k)d); log_s(sb%(k)d); log_i(scmp%(k)d("%(a)s", "%(b)s") < 0); log_i(scmp%(k)d(loc, "%(b)s")); for (p = sb%(k)d; *p; p++) *p = upper%(k)d(*p); log_s(sb%(k)d); log_i(toi%(k)d("%(n)d")); log_u(hash%(k)d("%(a)s")); log_u(hash%(k)d(loc)); srev%(k)d(loc); log_s(loc); }
""" % {"k": k, "a": a, "b": b, "n": r.randrange(-99999, 99999)}


def queens(r, k):
    n = r.randrange(4, 7)
    return """int qc%(k)d[8]; int qs%(k)d;
int qok%(k)d(int r, int c) { int i; for (i = 0; i < r; i++) { int d = qc%(k)d[i] - c; if (d == 0 || d == r - i || d == i - r) return 0; } return 1; }
void qplace%(k)d(int r, int n) { int c; if (r == n) { qs%(k)d++; for (c = 0; c < n; c++) log_i(qc%(k)d[c]); return; } for (c = 0; c < n; c++) if (qok%(k)d(r, c)) { qc%(k)d[r] = c; qplace%(k)d(r + 1, n); } }
void entry%(k)d(void) { qplace%(k)d(0, %(n)d); log_i(qs%(k)d); }
""" % {"k": k, "n": n}


def tree(r, k):
    n = r.randrange(5, 30)
    return """struct TN%(k)d { long key; struct TN%(k)d *l; struct TN%(k)d *r; int count; };
struct TN%(k)d tpool%(k)d[40]; int tused%(k)d; struct TN%(k)d *troot%(k)d;
struct TN%(k)d *tins%(k)d(struct TN%(k)d *t, long key) { if (!t) { t = tpool%(k)d + tused%(k)d++; t->key = key; t->count = 1; return t; } if (key < t->key) t->l = tins%(k)d(t->l, key); else if (key > t->key) t->r = tins%(k)d(t->r, key); else t->count++; return t; }
int theight%(k)d(struct TN%(k)d *t) { int a; int b; if (!t) return 0; a = theight%(k)d(t->l); b = theight%(k)d(t->r); return (a > b ? a : b) + 1; }
void twalk%(k)d(struct TN%(k)d *t) { if (!t) return; twalk%(k)d(t->l); log_l(t->key); log_i(t->count); twalk%(k)d(t->r); }
void entry%(k)d(void) { unsigned long s = %(s)dUL; int i; for (i = 0; i < %(n)d; i++) { s = s * 6364136223846793005UL + 1442695040888963407UL; troot%(k)d = tins%(k)d(troot%(k)d, (long)(s >> 58) - 32L); } twalk%(k)d(troot%(k)d); log_i(theight%(k)d(troot%(k)d)); log_i(tused%(k)d); }
""" % {"k": k, "n": n, "s": r.getrandbits(31)}


def machine(r, k):
    """a small byte code interpreter"""
    prog, depth = [], 0
    for _ in range(r.randrange(5, 30)):
        x = r.choice("pppasmdxn") if depth >= 2 else "p"
        if x == "p":
            prog += [1, r.randrange(1, 50)]; depth += 1
        elif x == "n":
            prog += [7]
        elif x == "d" and depth < 12:
            prog += [5]; depth += 1
        elif x == "x":
            prog += [6]
        else:
            prog += [{"a": 2, "s": 3, "m": 4, "d": 2}[x]]; depth -= 1
    prog += [8] * depth + [0]
    return """enum { OHALT%(k)d, OPUSH%(k)d, OADD%(k)d, OSUB%(k)d, OMUL%(k)d, ODUP%(k)d, OSWAP%(k)d, ONEG%(k)d, OPRINT%(k)d };
char code%(k)d[128] = {%(p)s};
struct VM%(k)d { unsigned int stack[40]; int sp; char *pc; int steps; };
void push%(k)d(struct VM%(k)d *m, unsigned int v) { m->stack[m->sp++] = v; }
unsigned int pop%(k)d(struct VM%(k)d *m) { return m->stack[--m->sp]; }
int run%(k)d(struct VM%(k)d *m) { unsigned int a; unsigned int b; while (1) { m->steps++; switch (*m->pc++) { case OPUSH%(k)d: push%(k)d(m, *m->pc++); break; case OADD%(k)d: b = pop%(k)d(m); a = pop%(k)d(m); push%(k)d(m, a + b); break; case OSUB%(k)d: b = pop%(k)d(m); a = pop%(k)d(m); push%(k)d(m, a - b); break; case OMUL%(k)d: b = pop%(k)d(m); a = pop%(k)d(m); push%(k)d(m, a * b); break; case ODUP%(k)d: a = pop%(k)d(m); push%(k)d(m, a); push%(k)d(m, a); break; case OSWAP%(k)d: b = pop%(k)d(m); a = pop%(k)d(m); push%(k)d(m, b); push%(k)d(m, a); break; case ONEG%(k)d: push%(k)d(m, -pop%(k)d(m)); break; case OPRINT%(k)d: log_u(pop%(k)d(m)); break; case OHALT%(k)d: return m->steps; default: return -1; } } return 0; }
void entry%(k)d(void) { struct VM%(k)d m; m.sp = 0; m.steps = 0; m.pc = code%(k)d; log_i(run%(k)d(&m)); log_i(m.sp); }
""" % {"k": k, "p": ", ".join(map(str, prog))}


def numbers(r, k):
    return """int gcd%(k)d(int a, int b) { return b ? gcd%(k)d(b, a %% b) : a; }
long fact%(k)d(int n) { return n < 2 ? 1L : n * fact%(k)d(n - 1); }
int fib%(k)d(int n) { if (n < 2) return n; return fib%(k)d(n - 1) + fib%(k)d(n - 2); }
unsigned long long pw%(k)d(unsigned long long b, unsigned int e) { unsigned long long r = 1ULL; while (e) { if (e & 1U) r *= b; b *= b; e >>= 1; } return r; }
int odd%(k)d(int n); int collatz%(k)d(long n) { int c = 0; while (n != 1) { n = n %% 2 ? 3 * n + 1 : n / 2; c++; } return c; }
int isq%(k)d(int n) { int lo = 0; int hi = n; while (lo < hi) { int mid = lo + (hi - lo + 1) / 2; if (mid <= n / (mid ? mid : 1)) lo = mid; else hi = mid - 1; } return lo; }
int bits%(k)d(unsigned long v) { int c = 0; for (; v; v &= v - 1UL) ++c; return c; }
int ack%(k)d(int m, int n) { return m == 0 ? n + 1 : n == 0 ? ack%(k)d(m - 1, 1) : ack%(k)d(m - 1, ack%(k)d(m, n - 1)); }
void hanoi%(k)d(int n, char a, char b, char c) { if (n == 0) return; hanoi%(k)d(n - 1, a, c, b); log_c(a); log_c(c); hanoi%(k)d(n - 1, b, a, c); }
void entry%(k)d(void) { log_i(gcd%(k)d(%(a)d, %(b)d)); log_l(fact%(k)d(%(f)d)); log_i(fib%(k)d(%(g)d)); log_v(pw%(k)d(%(p)dULL, %(e)dU)); log_i(collatz%(k)d(%(a)dL)); log_i(isq%(k)d(%(b)d)); log_i(bits%(k)d(%(c)dUL)); log_i(ack%(k)d(2, %(h)d)); hanoi%(k)d(%(h)d, 'A', 'B', 'C'); }
""" % {"k": k, "a": r.randrange(1, 9999), "b": r.randrange(1, 9999), "c": r.getrandbits(60), "f": r.randrange(0, 20), "g": r.randrange(0, 16), "p": r.randrange(1, 99), "e": r.randrange(0, 40), "h": r.randrange(0, 5)}


def dispatch(r, k):
    n = r.randrange(6, 20)
    ops = ["+", "-", "*", "^", "&", "|"]
    r.shuffle(ops)
    return "".join("unsigned int op%d_%d(unsigned int a, unsigned int b) { return a %s b; }\n" % (k, i, o) for i, o in enumerate(ops[:4])) + """typedef unsigned int (*OP%(k)d)(unsigned int a, unsigned int b);
struct D%(k)d { int id; OP%(k)d fn; unsigned int (*raw)(unsigned int a, unsigned int b); char name[6]; };
struct D%(k)d dt%(k)d[4]; OP%(k)d ot%(k)d[4];
unsigned int fold%(k)d(OP%(k)d f, unsigned int *v, int n) { unsigned int a = v[0]; int i; for (i = 1; i < n; i++) a = f(a, v[i]); return a; }
void init%(k)d(void) { dt%(k)d[0].fn = op%(k)d_0; dt%(k)d[1].fn = &op%(k)d_1; dt%(k)d[2].fn = op%(k)d_2; dt%(k)d[3].fn = op%(k)d_3; int i; for (i = 0; i < 4; i++) { dt%(k)d[i].id = i * 11; dt%(k)d[i].raw = dt%(k)d[3 - i].fn; ot%(k)d[i] = dt%(k)d[i].fn; dt%(k)d[i].name[0] = 'a' + i; dt%(k)d[i].name[1] = '\\0'; } }
void entry%(k)d(void) { unsigned int v[%(n)d]; int i; init%(k)d(); for (i = 0; i < %(n)d; i++) v[i] = i * %(x)dU + 3U; for (i = 0; i < 4; i++) { log_u(fold%(k)d(dt%(k)d[i].fn, v, %(n)d)); log_u(fold%(k)d(ot%(k)d[3 - i], v, 3)); log_u(dt%(k)d[i].raw(7U, 9U)); log_u((*ot%(k)d[i])(v[1], v[2])); log_i(dt%(k)d[i].id); log_s(dt%(k)d[i].name); } }
""" % {"k": k, "n": n, "x": r.randrange(1, 99999)}


def grid(r, k):
    w, h = r.randrange(3, 7), r.randrange(3, 7)
    cells = ", ".join("{%s}" % ", ".join(str(int(r.random() < 0.4)) for _ in range(w)) for _ in range(h))
    return """char gr%(k)d[%(h)d][%(w)d] = {%(c)s}; char gn%(k)d[%(h)d][%(w)d];
int around%(k)d(int y, int x) { int n = 0; int dy; int dx; for (dy = -1; dy <= 1; dy++) for (dx = -1; dx <= 1; dx++) { int yy = y + dy; int xx = x + dx; if (!dy && !dx) continue; if (yy < 0 || yy >= %(h)d || xx < 0 || xx >= %(w)d) continue; n += gr%(k)d[yy][xx]; } return n; }
void step%(k)d(void) { int y; int x; for (y = 0; y < %(h)d; y++) for (x = 0; x < %(w)d; x++) switch (around%(k)d(y, x)) { case 3: gn%(k)d[y][x] = 1; break; case 2: gn%(k)d[y][x] = gr%(k)d[y][x]; break; default: gn%(k)d[y][x] = 0; } for (y = 0; y < %(h)d; y++) for (x = 0; x < %(w)d; x++) gr%(k)d[y][x] = gn%(k)d[y][x]; }
int fill%(k)d(int y, int x, char c) { if (y < 0 || x < 0 || y >= %(h)d || x >= %(w)d || gr%(k)d[y][x] == c || gr%(k)d[y][x]) return 0; gr%(k)d[y][x] = c; return 1 + fill%(k)d(y + 1, x, c) + fill%(k)d(y, x + 1, c) + fill%(k)d(y - 1, x, c) + fill%(k)d(y, x - 1, c); }
void entry%(k)d(void) { int t; int y; int x; for (t = 0; t < 4; t++) { step%(k)d(); for (y = 0; y < %(h)d; y++) for (x = 0; x < %(w)d; x++) log_c(gr%(k)d[y][x]); } log_i(fill%(k)d(0, 0, 7)); log_b(&gr%(k)d[0][0], %(s)d); }
""" % {"k": k, "w": w, "h": h, "c": cells, "s": w * h}


def bignum(r, k):
    return """struct Big%(k)d { int n; char d[80]; };
void bset%(k)d(struct Big%(k)d *b, long v) { int i; for (i = 0; i < 80; i++) b->d[i] = 0; b->n = 0; while (v > 0) { b->d[b->n++] = v %% 10; v /= 10; } }
void bmul%(k)d(struct Big%(k)d *b, int m) { int c = 0; int i; for (i = 0; i < b->n || c; i++) { int t = b->d[i] * m + c; b->d[i] = t %% 10; c = t / 10; if (i >= b->n) b->n = i + 1; } }
void badd%(k)d(struct Big%(k)d *a, struct Big%(k)d *b) { int c = 0; int i; int n = a->n > b->n ? a->n : b->n; for (i = 0; i < n || c; ++i) { int t = a->d[i] + b->d[i] + c; a->d[i] = t %% 10; c = t >= 10; } a->n = i; }
void bout%(k)d(struct Big%(k)d *b) { int i; char s[84]; int k = 0; for (i = b->n - 1; i >= 0; i--) s[k++] = '0' + b->d[i]; s[k] = 0; log_s(s); }
void entry%(k)d(void) { struct Big%(k)d x; struct Big%(k)d y; int i; bset%(k)d(&x, %(a)dL); bset%(k)d(&y, %(b)dL); for (i = 1; i <= %(n)d; i++) { bmul%(k)d(&x, i); badd%(k)d(&y, &x); } bout%(k)d(&x); bout%(k)d(&y); }
""" % {"k": k, "a": r.randrange(1, 1 << 40), "b": r.randrange(1, 1 << 40), "n": r.randrange(1, 25)}


def hashtable(r, k):
    words = ["".join(r.choice("abcde") for _ in range(r.randrange(1, 4))) for _ in range(r.randrange(6, 24))]
    puts = "".join('inc%d("%s"); ' % (k, w) for w in words)
    gets = "".join('log_i(get%d("%s")); ' % (k, w) for w in words[:6] + ["zz", ""])
    return """struct HE%(k)d { char *key; int val; struct HE%(k)d *next; }; struct HE%(k)d hp%(k)d[32]; struct HE%(k)d *hb%(k)d[7]; int hn%(k)d;
int heq%(k)d(char *a, char *b) { for (; *a == *b; a++) { if (!*a) return 1; b++; } return 0; }
unsigned int hh%(k)d(char *s) { unsigned int h = 0U; while (*s) { h = (h << 5) + h + *s; s++; } return h %% 7U; }
struct HE%(k)d *find%(k)d(char *key) { struct HE%(k)d *e; for (e = hb%(k)d[hh%(k)d(key)]; e; e = e->next) if (heq%(k)d(e->key, key)) return e; return (struct HE%(k)d *)0; }
void inc%(k)d(char *key) { struct HE%(k)d *e = find%(k)d(key); if (!e) { unsigned int h = hh%(k)d(key); e = &hp%(k)d[hn%(k)d++]; e->key = key; e->next = hb%(k)d[h]; hb%(k)d[h] = e; } e->val++; }
int get%(k)d(char *key) { struct HE%(k)d *e = find%(k)d(key); return e ? e->val : -1; }
void entry%(k)d(void) { int i; struct HE%(k)d *e; %(p)s %(g)s for (i = 0; i < 7; i++) for (e = hb%(k)d[i]; e; e = e->next) { log_s(e->key); log_i(e->val); } log_i(hn%(k)d); }
""" % {"k": k, "p": puts, "g": gets}


def ringbuffer(r, k):
    n = r.choice([3, 4, 5, 8])
    ops = "".join(r.choice(["put%d(%d); " % (k, r.randrange(-99, 99)), "log_i(take%d()); " % k]) for _ in range(r.randrange(10, 40)))
    return """int rb%(k)d[%(n)d]; unsigned int rh%(k)d; unsigned int rt%(k)d; int rc%(k)d;
int put%(k)d(int v) { if (rc%(k)d == %(n)d) return 0; rb%(k)d[rt%(k)d++ %% %(n)d] = v; rc%(k)d++; return 1; }
int take%(k)d(void) { if (!rc%(k)d) return -1000; --rc%(k)d; return rb%(k)d[rh%(k)d++ %% %(n)d]; }
void entry%(k)d(void) { %(o)s log_i(rc%(k)d); log_u(rh%(k)d); log_u(rt%(k)d); }
""" % {"k": k, "n": n, "o": ops}


ALL = [quicksort, sieve, matrix, linked_list, strings, queens, tree, machine, numbers, dispatch, grid, bignum, hashtable, ringbuffer]


def classic(rnd, k, i=None):
    f = ALL[i % len(ALL)] if i is not None else rnd.choice(ALL)
    return f(rnd, k), "entry%d" % k, f.__name__
