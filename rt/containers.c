/* Drives the containers with random operation histories next to naive models.  Every element is
 * registered: who is alive, and that each is released exactly once, is checked throughout. */
#include <limits.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "common/type.h"
#include "liveseq/liveness.h"
#include "liveseq/liveseq.h"
#include "map/map.h"
#include "pair/pair.h"
#include "set/set.h"
#include "vector/vector.h"

static uint64_t rs;
static unsigned rnd(unsigned n) {
    rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17;
    return n ? (unsigned)((rs * 0x2545F4914F6CDD1DULL) >> 33) % n : 0;
}

static char hist[1 << 16];
static int hlen;
static const char *what;
static long history_no, n_ops, n_checks, n_copies, n_deletes, n_hist, n_resizes_seen, n_max, states;

static void note(const char *fmt, int a, int b) {
    n_ops++;
    if (hlen < (int)sizeof hist - 100) hlen += snprintf(hist + hlen, 90, fmt, a, b), hist[hlen++] = ' ', hist[hlen] = 0;
}

static void fail(const char *msg) {
    printf("FAIL %s: %s (history %ld)\n%s\n", what, msg, history_no, hist + (hlen > 1500 ? hlen - 1500 : 0));
    fflush(stdout);
    _Exit(1);
}

#define CHECK(c, msg) do { n_checks++; if (!(c)) fail(msg); } while (0)

/* ---- registered elements */
typedef struct Obj { unsigned magic; int val; int id; int hash; } Obj;
#define MAXOBJ 200000
static char state_[MAXOBJ];      /* 0 unused 1 alive 2 released */
static int nobj, alive;

static int hash_mode;
static Obj *obj(int val) {
    Obj *o = malloc(sizeof *o);
    o->magic = 0xabcd1234u;
    o->val = val;
    o->id = nobj++;
    if (nobj >= MAXOBJ) { printf("TOO MANY\n"); exit(77); }
    state_[o->id] = 1;
    alive++;
    return o;
}
static int sound(Obj *o) { return o != NULL && o->magic == 0xabcd1234u && state_[o->id] == 1; }
static void *obj_copy(void *p) {
    Obj *o = p;
    if (!sound(o)) fail("copies an element which is not alive");
    n_copies++;
    return obj(o->val);
}
static void obj_delete(void *p) {
    Obj *o = p;
    if (o == NULL || o->magic != 0xabcd1234u) fail("releases something which is not an element");
    if (state_[o->id] != 1) fail("releases an element twice");
    state_[o->id] = 2;
    alive--;
    n_deletes++;
    o->magic = 0xdead;
    free(o);
}
static int obj_hash(void *p) {
    Obj *o = p;
    if (!sound(o)) fail("hashes an element which is not alive");
    unsigned v = (unsigned)o->val;
    switch (hash_mode) {
        case 0: return (int)(v & INT_MAX);
        case 1: return 5;
        case 2: return (int)(v % 3);
        case 3: return (int)((v * 2654435761u) & INT_MAX);
        case 4: return (int)(v * 8 & INT_MAX);
        default: return INT_MAX - (int)(v & 7);
    }
}
static int obj_compare(void *a, void *b) {
    Obj *x = a, *y = b;
    if (!sound(x) || !sound(y)) fail("compares an element which is not alive");
    return x->val < y->val ? -1 : x->val > y->val;
}
static BaseType t_obj = {obj_copy, obj_delete};
static HashableType t_hobj = {obj_copy, obj_delete, obj_hash, obj_compare};

static void begin(const char *w) { what = w; hlen = 0; hist[0] = 0; nobj = alive = 0; memset(state_, 0, sizeof state_); n_hist++; }
static void end(void) { CHECK(alive == 0, "elements are not released"); }

/* ---- vector */
#define VMAX 3000
typedef struct { Obj *o[VMAX]; int val[VMAX]; int n; } VModel;

static void vcheck(Vector *v, VModel *m, int full) {
    CHECK(vector_size(v) == m->n, "size of a vector");
    if (m->n > n_max) n_max = m->n;
    CHECK(vector_at(v, -1) == NULL && vector_at(v, m->n) == NULL && vector_at(v, m->n + 100) == NULL && vector_at(v, INT_MIN) == NULL && vector_at(v, INT_MAX) == NULL, "element out of range");
    for (int i = full ? 0 : m->n - (m->n < 4 ? m->n : 4); i < m->n; i++) {
        Obj *o = vector_at(v, i);
        CHECK(o == m->o[i], "element of a vector");
        CHECK(sound(o) && o->val == m->val[i], "contents of a vector");
    }
}

static void madd(VModel *m, int at, Obj *o) {
    memmove(m->o + at + 1, m->o + at, (m->n - at) * sizeof *m->o);
    memmove(m->val + at + 1, m->val + at, (m->n - at) * sizeof *m->val);
    m->o[at] = o; m->val[at] = o->val; m->n++;
}
static void mdel(VModel *m, int at) {
    memmove(m->o + at, m->o + at + 1, (m->n - at - 1) * sizeof *m->o);
    memmove(m->val + at, m->val + at + 1, (m->n - at - 1) * sizeof *m->val);
    m->n--;
}

static void vector_history(int steps) {
    begin("vector");
    static VModel m, m2;
    m.n = m2.n = 0;
    Vector *v = new_vector(&t_obj), *w = new_vector(&t_obj);
    int bias = rnd(3);
    for (int s = 0; s < steps; s++) {
        int op = rnd(16), i, k;
        if (bias == 0 && rnd(2)) op = 0;
        if (bias == 1 && s % 400 > 200 && rnd(2)) op = 4;
        switch (op) {
            case 0: case 1: case 2: case 3: if (m.n < VMAX - 300) { Obj *o = obj(rnd(1000)); note("push", 0, 0); vector_push(v, o); madd(&m, m.n, o); } break;
            case 4: case 5: if (m.n) { note("pop", 0, 0); Obj *o = vector_pop(v); CHECK(o == m.o[m.n - 1], "popped element"); m.n--; obj_delete(o); } break;
            case 6: { int size = rnd(5) ? m.n + (int)rnd(6) - 2 : (int)rnd(200); if (size > VMAX - 300) break; if (size < 0) size = 0; Obj *o = obj(rnd(1000)); int val = o->val; note("fill(%d)", size, 0); vector_fill(v, size, o);
                CHECK(vector_size(v) == (size > m.n ? size : m.n), "size after fill");
                for (i = m.n; i < size; i++) { Obj *q = vector_at(v, i); CHECK(sound(q) && q->val == val, "filled element"); for (k = m.n; k < i; k++) CHECK(m.o[k] != q, "filled elements are distinct"); madd(&m, i, q); }
                break; }
            case 7: case 8: i = (int)rnd(m.n + 4) - 2; { Obj *o = obj(rnd(1000)); note("set(%d)", i, 0); int r = vector_set(v, i, o); CHECK(!!r == (i >= 0 && i < m.n), "result of set"); if (r) { m.o[i] = o; m.val[i] = o->val; } else obj_delete(o); } break;
            case 9: case 10: if (m.n < VMAX - 300) { i = rnd(m.n + 1); Obj *o = obj(rnd(1000)); note("insert(%d)", i, 0); vector_insert(v, i, o); madd(&m, i, o); } break;
            case 11: case 12: i = (int)rnd(m.n + 4) - 2; note("erase(%d)", i, 0); vector_erase(v, i); if (i >= 0 && i < m.n) mdel(&m, i); break;
            case 13: { int n = rnd(5); for (i = 0; i < n && m2.n < 100; i++) { Obj *o = obj(rnd(1000)); vector_push(w, o); madd(&m2, m2.n, o); } note("extend(%d)", m2.n, 0);
                if (m.n + m2.n < VMAX - 300) { vector_extend(v, w); for (i = 0; i < m2.n; i++) madd(&m, m.n, m2.o[i]); m2.n = 0; CHECK(vector_size(w) == 0, "the source of extend is empty"); vcheck(w, &m2, 1); } break; }
            case 14: if (rnd(4) == 0 && m.n < 600) { note("copy", 0, 0); Vector *c = vector_copy(v); CHECK(vector_size(c) == m.n, "size of a copy");
                    for (i = 0; i < m.n; i++) { Obj *q = vector_at(c, i); CHECK(sound(q) && q != m.o[i] && q->val == m.val[i], "element of a copy"); }
                    if (rnd(2)) { delete_vector(v); v = c; for (i = 0; i < m.n; i++) m.o[i] = vector_at(v, i); }
                    else { Obj *o = obj(1); vector_push(c, o); if (rnd(2)) vector_erase(c, rnd(vector_size(c))); delete_vector(c); } } break;
            default: { VModel *t = &m2; if (t->n) { i = rnd(t->n); note("erase2(%d)", i, 0); vector_erase(w, i); mdel(t, i); } }
        }
        vcheck(v, &m, s % 16 == 0 || m.n < 20);
        CHECK(alive == m.n + m2.n, "number of live elements");
    }
    states += m.n;
    vcheck(v, &m, 1);
    delete_vector(v);
    delete_vector(w);
    end();
}

/* ---- map and set */
#define KMAX 4000
typedef struct { int has[KMAX]; int val[KMAX]; int n; } MModel;
static Obj *probe_;
static Obj *probe(int k) { probe_->val = k; return probe_; }

static void mcheck_iter(Map *map, MModel *m, int range) {
    static int seen[KMAX];
    memset(seen, 0, sizeof seen);
    int n = 0;
    for (MapIter *it = map_iter_begin(map); !map_iter_end(it, map); it = map_iter_next(it, map)) {
        Obj *k = map_iter_key(it, map), *v = map_iter_value(it, map);
        CHECK(sound(k) && sound(v), "iteration yields released elements");
        CHECK(k->val >= 0 && k->val < range && m->has[k->val] && !seen[k->val], "iteration yields an entry which is not there, or twice");
        CHECK(v->val == m->val[k->val], "iteration yields a wrong value");
        seen[k->val] = 1;
        if (++n > m->n) break;
    }
    CHECK(n == m->n, "iteration misses entries");
    if (m->n && rnd(2)) { MapIter *it = map_iter_begin(map); for (int s = rnd(m->n); s > 0; s--) it = map_iter_next(it, map); map_iter_exit(it); }
}

static void map_history(int steps) {
    begin("map");
    static MModel m, mc;
    hash_mode = rnd(6);
    int range = rnd(3) ? 1 + rnd(40) : 1 + rnd(KMAX - 1);
    if (hash_mode == 1 || hash_mode == 5) range = 1 + rnd(60);
    memset(&m, 0, sizeof m);
    probe_ = obj(0);
    Map *map = new_map(&t_hobj, &t_obj);
    int bias = rnd(4);
    for (int s = 0; s < steps; s++) {
        int k = rnd(range), op = rnd(10);
        if (bias == 0 && rnd(2)) op = 0;
        if (bias == 1 && (s / 150) % 2 && rnd(3)) op = 4;
        if (bias == 2 && rnd(2)) { k = s % range; op = s % 2 ? 0 : 4; }
        switch (op) {
            case 0: case 1: case 2: case 3: { int v = rnd(100000); note("add(%d)=%d", k, v); map_add(map, obj(k), obj(v)); if (!m.has[k]) { m.has[k] = 1; m.n++; } m.val[k] = v; break; }
            case 4: case 5: case 6: note("remove(%d)", k, 0); map_remove(map, probe(k)); if (m.has[k]) { m.has[k] = 0; m.n--; } break;
            case 7: if (rnd(8) == 0 && m.n < 1000) { note("copy", 0, 0); Map *c = map_copy(map); mc = m;
                    if (rnd(2)) { Map *t = map; map = c; c = t; }
                    /* what is done to one does not show in the other */
                    for (int i = 0; i < 6; i++) { int q = rnd(range); if (rnd(2)) { map_add(c, obj(q), obj(7)); if (!mc.has[q]) mc.n++; mc.has[q] = 1; mc.val[q] = 7; } else { map_remove(c, probe(q)); if (mc.has[q]) { mc.has[q] = 0; mc.n--; } } }
                    mcheck_iter(c, &mc, range);
                    delete_map(c); } break;
            default: break;
        }
        if (m.n > n_max) n_max = m.n;
        for (int i = 0; i < 4; i++) {
            int q = i == 0 ? k : (int)rnd(range);
            Obj *v = map_get(map, probe(q));
            CHECK(!!v == m.has[q], "presence of a key");
            CHECK(!!map_contains(map, probe(q)) == m.has[q], "contains");
            if (v) CHECK(sound(v) && v->val == m.val[q], "value of a key");
            static int dflt;
            void *d = map_get_with_default(map, probe(q), &dflt);
            CHECK(d == (m.has[q] ? (void *)v : (void *)&dflt), "get with default");
        }
        if (s % 64 == 0 || m.n < 8) mcheck_iter(map, &m, range);
    }
    for (int q = 0; q < range; q++) { Obj *v = map_get(map, probe(q)); CHECK(!!v == m.has[q] && (!v || v->val == m.val[q]), "final contents"); }
    mcheck_iter(map, &m, range);
    states += m.n;
    delete_map(map);
    obj_delete(probe_);
    end();
}

static void scheck(Set *s, char *has, int range) {
    static int seen[KMAX];
    memset(seen, 0, sizeof seen);
    int n = 0, want = 0;
    for (int i = 0; i < range; i++) { want += has[i]; CHECK(!!set_contains(s, probe(i)) == has[i], "membership"); }
    for (SetIter *it = set_iter_begin(s); !set_iter_end(it, s); it = set_iter_next(it, s)) {
        Obj *o = set_iter_item(it, s);
        CHECK(sound(o) && o->val >= 0 && o->val < range && has[o->val] && !seen[o->val], "iteration over a set");
        seen[o->val] = 1;
        if (++n > want) break;
    }
    CHECK(n == want, "iteration over a set misses items");
    if (want && rnd(2)) { SetIter *it = set_iter_begin(s); set_iter_exit(it); }
}

static void set_history(int steps) {
    begin("set");
    static char a[KMAX], b[KMAX], c[KMAX];
    hash_mode = rnd(6);
    int range = rnd(3) ? 1 + rnd(24) : 1 + rnd(400);
    memset(a, 0, sizeof a); memset(b, 0, sizeof b);
    probe_ = obj(0);
    Set *x = new_set(&t_hobj), *y = new_set(&t_hobj);
    for (int s = 0; s < steps; s++) {
        int k = rnd(range), r, i;
        Set *t = rnd(2) ? x : y;
        char *h = t == x ? a : b;
        switch (rnd(12)) {
            case 0: case 1: case 2: case 3: case 4: note(t == x ? "addx(%d)" : "addy(%d)", k, 0); set_add(t, obj(k)); h[k] = 1; break;
            case 5: case 6: note(t == x ? "delx(%d)" : "dely(%d)", k, 0); set_remove(t, probe(k)); h[k] = 0; break;
            case 7: { note("intersection", 0, 0); Set *z = set_intersection(x, y); for (i = 0; i < range; i++) c[i] = a[i] && b[i]; scheck(z, c, range); delete_set(z); break; }
            case 8: { note("union", 0, 0); Set *z = set_union(x, y); for (i = 0; i < range; i++) c[i] = a[i] || b[i]; scheck(z, c, range); if (rnd(4) == 0) { delete_set(x); x = z; memcpy(a, c, sizeof a); } else delete_set(z); break; }
            case 9: { note("difference", 0, 0); Set *z = set_difference(x, y); for (i = 0; i < range; i++) c[i] = a[i] && !b[i]; scheck(z, c, range); delete_set(z); break; }
            case 10: { note("compare", 0, 0); int sub = 1, sup = 1; for (i = 0; i < range; i++) { if (b[i] && !a[i]) sub = 0; if (a[i] && !b[i]) sup = 0; }
                r = set_issubset(x, y); CHECK(!!r == sub, "subset"); r = set_issubset(y, x); CHECK(!!r == sup, "subset"); r = set_equals(x, y); CHECK(!!r == (sub && sup), "equality"); CHECK(set_equals(x, x), "a set equals itself"); break; }
            default: { note("copy", 0, 0); Set *z = set_copy(t); scheck(z, h, range); CHECK(set_equals(z, t) && set_equals(t, z), "a copy is equal"); set_add(z, obj(k)); set_remove(z, probe(rnd(range))); delete_set(z);
                if (rnd(3) == 0) { Set *q = set_copy(x); delete_set(y); y = q; memcpy(b, a, sizeof b); } }
        }
        scheck(h == a ? x : y, h, range);
    }
    delete_set(x);
    delete_set(y);
    obj_delete(probe_);
    end();
}

/* ---- pair */
static void pair_history(int steps) {
    begin("pair");
    Obj *f = NULL, *s = NULL;
    Pair *p = new_pair(&t_obj, &t_obj);
    for (int i = 0; i < steps; i++) {
        switch (rnd(6)) {
            case 0: note("first", 0, 0); pair_set_first(p, f = obj(rnd(99))); break;
            case 1: note("second", 0, 0); pair_set_second(p, s = obj(rnd(99))); break;
            case 2: note("both", 0, 0); f = obj(rnd(99)); s = obj(rnd(99)); pair_set(p, f, s); break;
            case 3: { note("copy", 0, 0); Pair *c = pair_copy(p); Obj *cf = pair_first(c), *cs = pair_second(c);
                CHECK(!cf == !f && !cs == !s, "a copy of a pair"); if (f) CHECK(sound(cf) && cf != f && cf->val == f->val, "first of a copy"); if (s) CHECK(sound(cs) && cs != s && cs->val == s->val, "second of a copy");
                if (rnd(2)) { delete_pair(p); p = c; f = cf; s = cs; } else delete_pair(c); break; }
            case 4: { note("assign", 0, 0); void *a, *b; pair_assign(&a, &b, p); CHECK(a == f && b == s, "assign from a pair"); p = new_pair(&t_obj, &t_obj); if (rnd(2)) pair_set(p, a, b); else { if (a) obj_delete(a); if (b) obj_delete(b); f = s = NULL; } break; }
            default: break;
        }
        CHECK(pair_first(p) == f && pair_second(p) == s, "members of a pair");
        CHECK((!f || sound(f)) && (!s || sound(s)), "members of a pair are alive");
        CHECK(alive == !!f + !!s, "number of live elements");
    }
    delete_pair(p);
    end();
}

/* ---- live ranges */
static void liveseq_history(int steps) {
    begin("live ranges");
    for (int r = 0; r < steps / 20 + 1; r++) {
        Liveseq *q = new_liveseq();
        static int from[40], to[40];
        int n = rnd(8), at = rnd(4), k;
        for (k = 0; k < n; k++) {
            from[k] = at;
            to[k] = at + rnd(5);
            at = to[k] + rnd(4) + (to[k] == from[k]);
            Liveness *l = new_liveness(from[k]);
            CHECK(l->first_def_index == from[k] && l->last_use_index == from[k], "a new range");
            l->last_use_index = to[k];
            vector_push(q->livenesses, l);
            note("[%d,%d)", from[k], to[k]);
        }
        for (int i = 0; i < at + 6; i++) {
            int want = 0;
            for (k = 0; k < n; k++) want |= from[k] <= i && i < to[k];
            n_ops++;
            CHECK(!!liveseq_isalive(q) == want, "whether a register is live");
            if (rnd(10) == 0) { Liveseq *c = liveseq_copy(q); CHECK(!!liveseq_isalive(c) == want, "copy of live ranges"); delete_liveseq(q); q = c; }
            liveseq_goto_next(q);
        }
        delete_liveseq(q);
    }
}

/* ---- the key types of the repository: any integer, any bytes */
static void scalar_history(int steps) {
    begin("integer and string keys");
    static int ints[600], ival[600], has[600];
    static char *strs[600];
    static int sval[600], shas[600];
    int n = 1 + rnd(rnd(3) ? 40 : 590);
    for (int i = 0; i < n; i++) {
        int again;
        do { static const int sp[] = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1, 1 << 30, -(1 << 30), (1 << 30) + 1};
            ints[i] = rnd(4) == 0 ? sp[rnd(10)] : rnd(2) ? (int)rnd(500) - 250 : (int)(rnd(1u << 31) * 2 + rnd(2));
            again = 0; for (int k = 0; k < i; k++) again |= ints[k] == ints[i]; } while (again);
        do { int l = rnd(8), k; strs[i] = malloc(l + 1); for (k = 0; k < l; k++) strs[i][k] = rnd(3) ? 'a' + rnd(4) : 1 + rnd(255); strs[i][l] = 0;
            again = 0; for (k = 0; k < i; k++) again |= !strcmp(strs[k], strs[i]); if (again) free(strs[i]); } while (again);
        has[i] = shas[i] = 0;
    }
    Map *m = new_map(&t_hashable_integer, &t_integer), *s = new_map(&t_hashable_string, &t_string);
    Set *z = new_set(&t_hashable_integer);
    char buf[40];
    for (int t = 0; t < steps; t++) {
        int i = rnd(n);
        switch (rnd(5)) {
            case 0: case 1: ival[i] = rnd(1 << 30); note("addi(%d)", ints[i], 0); map_add(m, new_integer(ints[i]), new_integer(ival[i])); set_add(z, new_integer(ints[i])); has[i] = 1; break;
            case 2: note("removei(%d)", ints[i], 0); map_remove(m, &ints[i]); set_remove(z, &ints[i]); has[i] = 0; break;
            case 3: sval[i] = rnd(1 << 30); note("adds(#%d)", i, 0); snprintf(buf, 40, "%d", sval[i]); map_add(s, new_string(strs[i]), new_string(buf)); shas[i] = 1; break;
            default: note("removes(#%d)", i, 0); map_remove(s, strs[i]); shas[i] = 0;
        }
        for (int q = 0; q < 4; q++) {
            int k = q ? (int)rnd(n) : i;
            int *v = map_get(m, &ints[k]);
            CHECK(!!v == has[k] && (!v || *v == ival[k]), "value of an integer key");
            CHECK(!!set_contains(z, &ints[k]) == has[k], "member of a set of integers");
            char *u = map_get(s, strs[k]);
            snprintf(buf, 40, "%d", sval[k]);
            CHECK(!!u == shas[k] && (!u || !strcmp(u, buf)), "value of a string key");
        }
    }
    delete_map(m);
    delete_map(s);
    delete_set(z);
    for (int i = 0; i < n; i++) free(strs[i]);
    end();
}

/* ---- containers in containers, as the compiler uses them */
static void *vcopy(void *v) { return vector_copy(v); }
static void vdel(void *v) { delete_vector(v); }
static BaseType t_vec = {vcopy, vdel};
static void nested_history(int steps) {
    begin("nested containers");
    Vector *v = new_vector(&t_vec);
    Map *m = new_map(&t_hobj, &t_vec);
    probe_ = obj(0);
    hash_mode = rnd(6);
    int total = 0;
    for (int s = 0; s < steps / 2; s++) {
        switch (rnd(5)) {
            case 0: { Vector *w = new_vector(&t_obj); int n = rnd(5); for (int i = 0; i < n; i++) vector_push(w, obj(i)); vector_push(v, w); total += n; note("push[%d]", n, 0); break; }
            case 1: if (vector_size(v)) { int i = rnd(vector_size(v)); total -= vector_size(vector_at(v, i)); vector_erase(v, i); note("erase[%d]", i, 0); } break;
            case 2: if (vector_size(v) > 0 && vector_size(v) < 30) { Vector *c = vector_copy(v); delete_vector(v); v = c; note("copy", 0, 0); } break;
            case 3: { int k = rnd(10); Vector *w = new_vector(&t_obj); vector_push(w, obj(k)); map_add(m, obj(k), w); note("madd(%d)", k, 0); Vector *g = map_get(m, probe(k)); CHECK(g == w && vector_size(g) == 1, "nested value"); break; }
            default: { int k = rnd(10); map_remove(m, probe(k)); note("mdel(%d)", k, 0); CHECK(map_get(m, probe(k)) == NULL, "removed nested value"); }
        }
        int t = 0;
        for (int i = 0; i < vector_size(v); i++) t += vector_size(vector_at(v, i));
        CHECK(t == total, "sizes of nested vectors");
    }
    delete_vector(v);
    delete_map(m);
    obj_delete(probe_);
    end();
}

int main(int argc, char **argv) {
    long from = atol(argv[1]), n = atol(argv[2]);
    unsigned long long seed = strtoull(argv[3], NULL, 10);
    for (history_no = from; history_no < from + n; history_no++) {
        rs = 0x9E3779B97F4A7C15ULL * (seed * 1000003ULL + history_no + 1) ^ 0xD1B54A32D192ED03ULL;
        rnd(1); rnd(1); rnd(1);
        int steps = rnd(4) ? 20 + rnd(200) : 200 + rnd(2500);
        switch (history_no % 8) {
            case 0: case 1: vector_history(steps); break;
            case 2: case 3: map_history(steps); break;
            case 4: set_history(steps / 2 + 5); break;
            case 5: scalar_history(steps); break;
            case 6: liveseq_history(steps); break;
            default: if (rnd(2)) pair_history(steps); else nested_history(steps);
        }
    }
    printf("{\"histories\": %ld, \"operations\": %ld, \"assertions\": %ld, \"copies\": %ld, \"releases\": %ld, \"largest_container\": %ld}\n", n_hist, n_ops, n_checks, n_copies, n_deletes, n_max);
    return 0;
}
