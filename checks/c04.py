"""C04: objects, pointers, arrays and structs: layout and memory semantics."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "gen"))
from diff import *
from lang import *
from types_ import *

N = [0]


def nid():
    N[0] += 1
    return N[0]


def value(rnd, l):
    if l == "c":
        return str(rnd.randrange(-128, 128)) if rnd.random() < 0.5 else "'%s'" % rnd.choice("azQ9 ")
    v = rnd.getrandbits(8 * SIZE[l])
    return literal(l, v)


class Indexer:
    """indices as constants, variables of every type, expressions"""

    def __init__(self, rnd):
        self.rnd, self.pre, self.n = rnd, [], 0

    def __call__(self, i):
        rnd = self.rnd
        x = rnd.random()
        if x < 0.45:
            return str(i)
        if x < 0.8:
            t = rnd.choice("ciulmqv") if i >= 0 else rnd.choice("cilq")
            self.n += 1
            v = "x%d" % self.n
            self.pre.append("%s %s; %s = %d;" % (NAME[t], v, v, i))
            return v
        if x < 0.9:
            d = rnd.randrange(0, 4)
            return "(%d - %d)" % (i + d, d)
        return "(int)%d" % i if i >= 0 else "(int)(%d)" % i


def touch(rnd, gen, t, base, is_ptr, idx, n, reads=True):
    """statements writing and reading up to n scalars of the object"""
    ps = list(paths(t, ""))
    rnd.shuffle(ps)
    out = []
    for p, l in ps[:n]:
        lv = spell(rnd, base, is_ptr, p, idx)
        if l == "p":
            # pointers: stored as numbers, compared, moved; never dereferenced here
            out.append("log_i(sizeof(%s));" % lv)
            out.append("log_m((unsigned long)%s);" % lv)
            continue
        x = rnd.random()
        if x < 0.55:
            out.append("%s = %s;" % (lv, value(rnd, l)))
        elif x < 0.65:
            out.append("%s %s= %d;" % (lv, rnd.choice("^|&"), rnd.randrange(1, 100)))
        elif x < 0.72 and l not in "ilq":
            out.append(rnd.choice(["%s++;", "%s--;", "++%s;", "--%s;"]) % lv)
        elif x < 0.8:
            out.append("log_%s(%s = %s);" % (l, lv, value(rnd, l)))
        elif x < 0.9 and p and p[-1][0] == "[":
            # through a pointer to the element
            q = "e%d" % len(idx.pre)
            idx.pre.append("%s *%s;" % (NAME[l], q))
            out.append("%s = &%s; *%s = %s; log_%s(%s);" % (q, lv, q, value(rnd, l), l, lv))
        else:
            out.append("log_i(sizeof(%s)); log_i(sizeof %s);" % (lv, lv) if lv[0] != "(" else "log_i(sizeof(%s));" % lv)
        if reads:
            out.append("log_%s(%s);" % (l, spell(rnd, base, is_ptr, p, idx)))
    rnd.shuffle(ps)
    if reads:
        for p, l in ps[:n]:
            if l != "p":
                out.append("log_%s(%s);" % (l, spell(rnd, base, is_ptr, p, idx)))
    return out


def shared(rnd):
    """an object of the host, filled with a pattern, written and read by compiled code: all its bytes and its surroundings are logged"""
    k = nid()
    g = Gen(rnd, k)
    t = g.struct(3) if rnd.random() < 0.7 else g.type(3)
    n_obj = rnd.choice([1, 1, 2, 3])
    idx = Indexer(rnd)
    body = []
    for o in range(n_obj):
        base = "p" if o == 0 else rnd.choice(["(p + %s)" % idx(o), "(&p[%s])" % idx(o)])
        body += touch(rnd, g, t, base, True, idx, rnd.randrange(2, 9))
    body.append("log_i(sizeof(%s)); log_i(sizeof(*p)); log_i(sizeof(p));" % t.decl(""))
    rnd.shuffle(body) if rnd.random() < 0.0 else None
    defs = "\n".join(g.defs)
    u = "%s\nvoid f_%d(%s) { %s %s }" % (defs, k, P(t).decl("p"), " ".join(idx.pre), " ".join(body))
    sz = t.size * n_obj
    h = """extern void f_%d();
static void h_%d(void) { static unsigned char b_[%d + 64] __attribute__((aligned(16)));
  for (int r = 0; r < 2; r++) { for (int i = 0; i < (int)sizeof b_; i++) b_[i] = r ? 255 - i : i * 37 + %d;
    sub(); u64 a[6] = {(u64)(b_ + 32)}; abi_call((void *)f_%d, a, 1); host_log_b(b_, sizeof b_); } }
""" % (k, k, sz, rnd.randrange(256), k)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="shared objects")


def named(rnd, storage):
    """several objects with names; each access must change only the object it designates"""
    k = nid()
    g = Gen(rnd, k, max_size=150)
    objs = []
    for j in range(rnd.randrange(2, 7)):
        t = g.type(rnd.randrange(0, 4))
        objs.append(("%s%d_%d" % ("gx" if storage == "global" else "o", k, j) if storage == "global" else "o%d" % j, t))
    idx = Indexer(rnd)
    fill, logs, acts = [], [], []
    for j, (n, t) in enumerate(objs):
        addr = "(char *)&%s" % n if rnd.random() < 0.6 or not isinstance(strip(t), A) else "(char *)%s" % n
        fill.append("p_ = %s; for (i_ = 0; i_ < sizeof(%s); i_++) p_[i_] = i_ * %d + %d;" % (addr, n, rnd.choice([1, 3, 5, 7]), rnd.randrange(100)))
        logs.append("log_b((char *)&%s, sizeof(%s));" % (n, n))
    for _ in range(rnd.randrange(3, 8)):
        n, t = rnd.choice(objs)
        acts += touch(rnd, g, t, n, False, idx, rnd.randrange(1, 4))
        if rnd.random() < 0.4:
            acts.append(rnd.choice(logs))
    decls = [t.decl(n) + ";" for n, t in objs]
    defs = "\n".join(g.defs)
    if storage == "global":
        u = "%s\n%s\n" % (defs, "\n".join(decls))
        inner = ""
    else:
        u = defs + "\n"
        # some of the objects in inner blocks
        inner = " ".join(decls)
    u += "void f_%d(int a_, long b_) { char *p_; int i_; int gu_; gu_ = 12345; %s %s %s %s %s log_i(gu_); log_i(a_); log_l(b_); }" % (
        k, inner, " ".join(idx.pre), " ".join(fill), " ".join(acts), " ".join(logs))
    h = "extern void f_%d();\n" % k
    h += "static void h_%d(void) { sub(); u64 a[6] = {ax_i(-77), ax_l(0x1122334455667788l)}; abi_call((void *)f_%d, a, 2); }\n" % (k, k)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="%s objects" % storage)


def host_globals(rnd):
    """global objects of compiled code read and written by the host under the host's own layout"""
    k = nid()
    g = Gen(rnd, k, max_size=200)
    t = g.type(3)
    alignment = 16 if isinstance(strip(t), A) and t.size >= 16 else t.align
    n = "sh_%d" % k
    idx = Indexer(rnd)
    acts = touch(rnd, g, t, n, False, idx, 8)
    fill = [p for p, l in paths(t, "") if l != "p"]
    rnd.shuffle(fill)
    hd = ""

    def hspell(p):
        e = n
        for s in p:
            e += "." + s[1] if s[0] == "." else "[%d]" % s[1]
        return e
    for p in fill[:8]:
        hd += "  %s = %d;\n" % (hspell(p), rnd.randrange(-100, 100))
    reads = []
    for p, l in paths(t, ""):
        if l != "p" and rnd.random() < 0.5:
            reads.append("log_%s(%s);" % (l, spell(rnd, n, False, p, idx)))
    u = "%s\nchar before_%d[%d];\n%s;\nchar after_%d[3];\nvoid f_%d(void) { %s %s %s }" % ("\n".join(g.defs), k, rnd.randrange(1, 8), t.decl(n), k, k, " ".join(idx.pre), " ".join(reads[:20]), " ".join(acts))
    h = "%s\nextern %s; extern char after_%d[3]; extern void f_%d();\nstatic void h_%d(void) { static const u64 a[6];\n  sub(); { void *volatile at = &%s; host_log_l((u64)at %% ALIGN); } host_log_b(&%s, sizeof %s); host_log_b(after_%d, 3);\n%s  sub(); abi_call((void *)f_%d, a, 0); host_log_b(&%s, sizeof %s); host_log_b(after_%d, 3); }\n".replace("ALIGN", str(alignment)) % (
        "\n".join(g.defs), t.decl(n), k, k, k, n, n, n, k, hd, k, n, n, k)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="globals shared with the host")


def large(rnd, g):
    """an element of a size at which numbers grow by a digit or a byte"""
    n = rnd.choice([120, 127, 128, 129, 200, 248, 255, 256, 257, 264, 300, 511, 512, 513, 1000, 1024, 4095, 4096, 32767, 32768, 32769, 65535, 65536, 65537, 70000])
    e = rnd.choice("cccil")
    a = A(max(1, n // SIZE[e]), S(e))
    if rnd.random() < 0.4:
        return a
    t = St(g.fresh("L"), [("x", S(rnd.choice("cil"))), ("y", a)] if rnd.random() < 0.5 else [("y", a)])
    g.defs.append("struct %s %s;" % (t.tag, t.body()))
    return t


def arithmetic(rnd):
    """pointer arithmetic, subscripts, comparison and difference, for every element type and index type"""
    k = nid()
    g = Gen(rnd, k, max_size=120)
    x = rnd.random()
    t = S(rnd.choice("ciulmqv")) if x < 0.4 else large(rnd, g) if x < 0.6 else g.type(2)
    it = rnd.choice("ciulmqv")
    T = t.decl("*p"), t.decl("*q")
    D = P(t)
    n = rnd.randrange(0, 8)
    lo = rnd.randrange(0, 5) if it in "cilq" else 0
    big = rnd.choice(["", "", "l"])
    lines = []
    A0 = "(long)((char *)(%s) - b)"     # distance from the start of the buffer, non-negative
    forms = ["p + n", "n + p", "p - m", "&p[n]", "&n[p]", "&*(p + n)", "p + n - m", "p + (n + m)", "(p + n) + 1", "&(p + n)[m]", "&p[n - m]", "p - (m - n)", "1 + p", "p + 3", "p - 1",
             "p + 'a' - 'a'", "&p[1] + n", "p + n * m", "p++", "p--", "++p", "--p", "p += n", "p -= m", "p = q", "p = q + n", "(n ? p : q)", "(m > 100 ? q + 1 : p)"]
    mt = rnd.choice("ciulq")
    if not (SIGNED[it] and SIGNED[mt]):     # stay inside the buffer
        forms = [f for f in forms if f not in ("&p[n - m]", "p - (m - n)", "p + n * m", "p + (n + m)")]
    for f in rnd.sample(forms, 12):
        lines.append("p = p0; q = p0 + 2; log_l(%s); log_l(%s);" % (A0 % ("(%s)" % f), A0 % "p"))
    cmps = ["p %s q", "p + n %s q", "q %s p + m", "p %s p", "q - 1 %s p + 1"]
    for c in rnd.sample(cmps, 3):
        for op in rnd.sample(REL, 3):
            lines.append("p = p0; q = p0 + %d; log_i(%s); if (%s) ev(1); else ev(2);" % (rnd.randrange(0, 5), c % op, c % op))
    lines.append("p = p0; q = p0 + n; log_l(q - p); log_l((long)(p + 6 - q)); log_l(&p[5] - &p[2]); log_i(p + 4 - p == 4); log_l(&q[0] - p0);")
    lines.append("log_i(p ? 1 : 2); log_i(!p); log_i(p && q); log_i(!p || !q); if (p) ev(3); else ev(4); while (!p) ev(5); log_i(p == (%s)0); log_i((%s)0 != q);" % (P(t).decl(""), P(t).decl("")))
    if isinstance(strip(t), S):
        lt = strip(t).t
        lines.append("p = p0; *p = 1; *(p + 1) = 2; p[2] = 3; log_%s(*p++); log_%s(*p); log_%s(*++p); log_%s(*p--); log_%s((*p)++); log_%s(*p); log_%s(-*p); log_l(p - p0); *p++ = 9; *p-- = 8; log_b((char *)p0, %d);" % ((lt,) * 7 + (3 * SIZE[lt],)))
    u = "%s\nvoid f_%d(char *b, %s, %s n, %s m) { %s; %s; %s }" % (
        "\n".join(g.defs), k, P(t).decl("p0"), NAME[it], NAME[mt], D.decl("p"), D.decl("q"), " ".join(lines))
    calls = "".join("  { sub(); u64 a[6] = {(u64)b_, (u64)(b_ + 16 * %d), ax_%s(%d), ax_l(%d)}; abi_call((void *)f_%d, a, 4); }\n" % (
        t.size, it, v, m, k) for v, m in [(0, 0), (1, 1), (n, lo), (5, 3), (3, 4), (2, 5)] + ([(-1, 1), (-3, 2)] if it in "cilq" else []))
    h = "extern void f_%d();\nstatic void h_%d(void) { static char b_[%d] __attribute__((aligned(16)));\n%s}\n" % (k, k, t.size * 64, calls)
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="pointer arithmetic")


def sizes(rnd):
    """sizeof of types and expressions; its operand is not evaluated"""
    k = nid()
    g = Gen(rnd, k, max_size=2000)
    ts = [g.type(4) for _ in range(3)]
    out, decl = [], []
    for j, t in enumerate(ts):
        out.append("log_i(sizeof(%s));" % t.decl(""))
        decl.append(t.decl("v%d" % j) + "; " + P(t).decl("p%d" % j) + "; " + A(3, t).decl("r%d" % j) + ";")
        out.append("log_i(sizeof(v%d)); log_i(sizeof v%d); log_i(sizeof(p%d)); log_i(sizeof *p%d); log_i(sizeof(p%d[1])); log_i(sizeof(r%d)); log_i(sizeof r%d / sizeof r%d[0]); log_i(sizeof(&v%d)); log_i(sizeof(*r%d));" % ((j,) * 10))
        out.append("log_i(sizeof(%s)); log_i(sizeof(%s));" % (P(t).decl(""), A(rnd.randrange(1, 40), t).decl("")))
        ps = list(paths(t, ""))
        for p, l in rnd.sample(ps, min(3, len(ps))):
            for cut in range(len(p) + 1):
                out.append("log_i(sizeof(%s));" % spell(rnd, "v%d" % j, False, p[:cut], str))
    out.append('log_i(sizeof("%s")); log_i(sizeof("")); log_i(sizeof "ab\\n\\0c");' % ("s" * rnd.randrange(0, 30)))
    out.append("int n; n = 5; log_i(sizeof(n++)); log_i(sizeof(ev(9))); log_i(n); log_i(sizeof(n = 7)); log_i(n);")
    u = "%s\nvoid t_%d(void) { %s %s }" % ("\n".join(g.defs), k, " ".join(decl), " ".join(out))
    return Case(u, "t_%d" % k, tag="sizeof")


def pointers(rnd):
    """pointers stored in objects and followed: lists, trees, tables, out-parameters, pointers to pointers and to arrays"""
    k = nid()
    g = Gen(rnd, k, max_size=60)
    e = S(rnd.choice("ciulmqv"))
    pad1, pad2 = g.type(1), g.type(1)
    L = e.t
    n = rnd.randrange(2, 7)
    u = ""
    form = rnd.randrange(6)
    if form == 0:
        u = "struct n_%d { %s; struct n_%d *next; %s; %s; };\n" % (k, pad1.decl("x"), k, e.decl("v"), pad2.decl("y"))
        body = ("struct n_%d s[%d]; struct n_%d *p; struct n_%d **pp; struct n_%d *head; int i; head = (struct n_%d *)0; "
                "for (i = 0; i < %d; i++) { s[i].v = i * 3 + a; s[i].next = head; head = &s[i]; } "
                "for (p = head; p; p = p->next) log_%s(p->v); pp = &head; while (*pp) { if ((*pp)->v %% 2 == 0) *pp = (*pp)->next; else { log_%s((**pp).v); p = *pp; pp = &head; head = p->next; } } "
                "log_i(head == (struct n_%d *)0); log_%s(s[1].next->v); log_l(&s[%d] - s);") % (k, n, k, k, k, k, n, L, L, k, L, n - 1)
    elif form == 1:
        u = "void swap_%d(%s, %s) { %s; t = *x; *x = *y; *y = t; }\nvoid out_%d(%s, int i) { *r = *r + i; }\n" % (k, P(e).decl("x"), P(e).decl("y"), e.decl("t"), k, P(e).decl("r"))
        body = "%s; %s; x = a; y = 33; swap_%d(&x, &y); log_%s(x); log_%s(y); %s; z[0] = 1; z[1] = 2; z[2] = 3; swap_%d(z, z + 2); swap_%d(&z[1], &x); out_%d(&z[a & 1], 5); log_%s(z[0]); log_%s(z[1]); log_%s(z[2]); log_%s(x);" % (
            e.decl("x"), e.decl("y"), k, L, L, A(3, e).decl("z"), k, k, k, L, L, L, L)
    elif form == 2:
        body = "%s; %s; %s; %s; %s; int i; for (i = 0; i < 3; i++) { m[0][i] = i; m[1][i] = i * 2 + a; } r = m; log_%s(r[1][2]); log_%s((*r)[1]); r++; log_%s((*r)[1]); log_%s(**r); q = *r; log_%s(q[1]); t[0] = m[1]; t[1] = m[0]; log_%s(t[0][1]); log_%s(*t[1]); pp = t; log_%s(**pp); pp++; log_%s((*pp)[2]); log_%s(*(*pp + 1)); *t[0] = 77; log_%s(m[1][0]);" % (
            A(2, A(3, e)).decl("m"), P(A(3, e)).decl("r"), P(e).decl("q"), A(2, P(e)).decl("t"), P(P(e)).decl("pp"), L, L, L, L, L, L, L, L, L, L, L)
    elif form == 3:
        u = "struct t_%d { %s; struct t_%d *c[2]; %s; };\n%s sum_%d(struct t_%d *t) { if (!t) return 0; ev(1); return t->v ^ sum_%d(t->c[0]) ^ sum_%d(t->c[1]); }\n" % (
            k, e.decl("v"), k, pad1.decl("z"), NAME[L], k, k, k, k)
        body = "struct t_%d s[7]; int i; for (i = 0; i < 7; i++) { s[i].v = i * 11 + a; s[i].c[0] = i < 3 ? &s[2 * i + 1] : (struct t_%d *)0; s[i].c[1] = i < 3 ? s + 2 * i + 2 : (struct t_%d *)0; } log_%s(sum_%d(s)); log_%s(sum_%d(&s[2])); log_%s(s->c[1]->c[0]->v); s[0].c[1]->c[1]->v = 5; log_%s(s[6].v);" % (k, k, k, L, k, L, k, L, L)
    elif form == 4:
        body = "%s; %s; %s; char *c; void *v; long w; x = 5; p = &x; pp = &p; **pp = a; log_%s(x); v = p; q = v; *q = 9; log_%s(x); w = (long)p; q = (%s)w; log_%s(*q); c = (char *)p; *c = 7; log_%s(x); log_i(q == p); log_i(p == &x); log_i(*pp == q); *&x = 3; log_%s(*&*pp[0]);" % (
            e.decl("x"), P(e).decl("p") + "; " + P(e).decl("q"), P(P(e)).decl("pp"), L, L, P(e).decl(""), L, L, L)
    else:
        u = "struct c_%d { %s; %s; };\nstruct o_%d { struct c_%d in; %s; struct c_%d arr[2]; struct c_%d *ptr; };\n" % (k, pad1.decl("a"), e.decl("b"), k, k, pad2.decl("z"), k, k)
        body = "struct o_%d o; struct o_%d *p; struct c_%d *q; p = &o; o.in.b = a; o.arr[0].b = 2; p->arr[1].b = 3; o.ptr = p->arr; log_%s(o.ptr->b); p->ptr++; log_%s(p->ptr->b); p->ptr->b = 8; log_%s(o.arr[1].b); q = &o.arr[0]; q->b = 6; log_%s(p->arr->b); log_%s((*p).in.b); log_%s((*p->ptr).b); log_%s(p->ptr[-1].b); log_l(p->ptr - o.arr);" % (k, k, k, L, L, L, L, L, L, L)
    u = "\n".join(g.defs) + "\n" + u + "void f_%d(int a) { %s }" % (k, body)
    h = "extern void f_%d();\nstatic void h_%d(void) { gridn((void *)f_%d, 'z', \"i\", %dull, 3); }\n" % (k, k, k, rnd.getrandbits(60))
    return Case(u, "h_%d" % k, h, host_entry=True, stateful=False, tag="pointers in objects")


EDGES = [120, 127, 128, 129, 250, 255, 256, 257, 1000, 4095, 4096, 32760, 32767, 32768, 32769, 40000, 65528, 65535, 65536, 65537, 70000, 131072, 300000]


def far(rnd):
    """members and elements far from the start of their object: each is written by name and found by its distance, and the reverse; nothing else changes"""
    k = nid()
    n = rnd.randrange(2, 5)
    ms, edge = [], [rnd.choice(EDGES) for _ in range(n)]
    at = 0
    for j in range(n):
        want = max(edge[j] - at % 7, 1) if j == 0 else max(abs(edge[j] - at), 1) if abs(edge[j] - at) < 400000 else 100
        l = rnd.choice("ciulmqv")
        w = rnd.choice("cccil")
        num = max(want // SIZE[w], 1)
        form = rnd.randrange(3)
        if form == 0:
            ms.append("%s f%d[%d];" % (NAME[w], j, num))
        elif form == 1:
            ms.append("struct g%d_%d { %s x[%d]; %s y; } f%d;" % (k, j, NAME[w], num, NAME[l], j))
        else:
            ms.append("%s f%d[%d][%d];" % (NAME[w], j, max(num // 13, 1), 13))
        ms.append("%s v%d; %s a%d[2];" % (NAME[l], j, NAME[l], j))
        ms[-1] = (ms[-1], l, form, num, w)
        at += num * SIZE[w]
    rows = [(j, m[1], m[2], m[3], m[4]) for j, m in enumerate(x for x in ms if isinstance(x, tuple))]
    text = " ".join(m if isinstance(m, str) else m[0] for m in ms)
    storage = rnd.choice(["global", "local", "pointer", "array"])
    o, dec, glob = {"global": ("o_%d." % k, "", "struct S%d o_%d;" % (k, k)), "local": ("o.", "struct S%d o;" % k, ""), "pointer": ("p->", "struct S%d *p; p = &o_%d;" % (k, k), "struct S%d o_%d;" % (k, k)),
                    "array": ("o_%d[i]." % k, "int i; i = 2;", "struct S%d o_%d[3];" % (k, k))}[storage]
    base = {"global": "(char *)&o_%d" % k, "local": "(char *)&o", "pointer": "(char *)p", "array": "(char *)(o_%d + 2)" % k}[storage]
    size = "sizeof(%s)" % {"global": "o_%d" % k, "local": "o", "pointer": "*p", "array": "o_%d[0]" % k}[storage]
    acts = ["log_i(%s);" % size]
    for j, l, form, num, w in rows:
        acts.append("%sv%d = %s; log_%s(%sv%d); %sa%d[1] = %s; q = (char *)&%sa%d[1]; log_l(q - b); log_%s(*(%s *)q); *q = %d; log_%s(%sa%d[1]);" % (
            o, j, value(rnd, l), l, o, j, o, j, value(rnd, l), o, j, l, NAME[l], rnd.randrange(1, 100), l, o, j))
        if form == 0:
            i = rnd.choice([num - 1, num // 2, 0])
            acts.append("%sf%d[%d] = %d; log_l((char *)&%sf%d[%d] - b); x = %d; log_%s(%sf%d[x]); log_%s(*(%sf%d + x));" % (o, j, i, rnd.randrange(1, 100), o, j, i, i, w, o, j, w, o, j))
        elif form == 1:
            i = rnd.choice([num - 1, num // 2])
            acts.append("%sf%d.y = %d; %sf%d.x[%d] = 7; log_%s(%sf%d.y); log_l((char *)&%sf%d.x[%d] - b); log_i(sizeof(%sf%d));" % (o, j, rnd.randrange(1, 100), o, j, i, l, o, j, o, j, i, o, j))
        else:
            i = rnd.randrange(max(num // 13, 1))
            acts.append("x = %d; %sf%d[x][12] = 9; log_l((char *)&%sf%d[x][12] - b); log_l((char *)%sf%d[x] - b); log_i(sizeof(%sf%d));" % (i, o, j, o, j, o, j, o, j))
    rnd.shuffle(acts)
    u = "struct S%d { %s };\n%s\nvoid t_%d(void) { %s char *b; char *q; long x; unsigned int h; b = %s; x = 0; while (x < %s) { b[x] = x %% 101; x += 1; } %s h = 1U; x = 0; while (x < %s) { h = h * 31U + b[x]; x += 1; } log_u(h); }" % (
        k, text, glob, k, dec, base, size, " ".join(acts), size)
    return Case(u, "t_%d" % k, stateful=False, tag="far members")


def check():
    ck = Check("C04", "one evaluation = one run of a function accessing objects of random types; every value read, every size, and all bytes "
               "of the objects and of their surroundings afterwards are compared with the reference layout and semantics",
               assumptions=["gcc and clang agree on the platform's layout", "alignment of local objects is not required"])
    e = Engine()
    rnd = rng("c04")
    cases = []
    for f, q, t in [(shared, 350, 6000), (lambda r: named(r, "local"), 300, 5000), (lambda r: named(r, "global"), 200, 3000), (host_globals, 200, 3000),
                    (arithmetic, 350, 5000), (sizes, 120, 2000), (far, 120, 2000), (pointers, 150, 1500)]:
        cases += [f(rnd) for _ in range(tier(q, t))]
    ck.count("functions", len(cases))
    e.evaluate(ck, cases, size=40)
    e.findings(ck)
    ck.finish(min_evaluations=2500)


if __name__ == "__main__":
    main(check)
